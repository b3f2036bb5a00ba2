package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	for k, m := range regexModels() {
		libModels[k] = m
	}
}

// constRegexp returns the literal a package-level *regexp.Regexp was compiled from.
func (v *Verifier) constRegexp(t *Term) (string, bool) {
	path, ok := globName[t]
	if !ok {
		return "", false
	}
	for g, val := range v.ginit {
		if g.Pkg.Pkg.Path()+"."+g.Name() != path {
			continue
		}
		c, ok := val.(*ssa.Call)
		if !ok || len(c.Call.Args) != 1 {
			return "", false
		}
		f, ok := c.Call.Value.(*ssa.Function)
		if !ok || f.String() != "regexp.MustCompile" {
			return "", false
		}
		k, ok := c.Call.Args[0].(*ssa.Const)
		if !ok || k.Value == nil {
			return "", false
		}
		return constant.StringVal(k.Value), true
	}
	return "", false
}

// reGroup: capture group i of the (unique or leftmost-longest) match of the anchored expression re on s.
func reGroup(s *Term, re string, i int) *Term { return App(fmt.Sprintf("re:%s#%d", re, i), SString, s) }

var reDone = map[string]*syntax.Regexp{}

func reParse(re string) *syntax.Regexp {
	if p, ok := reDone[re]; ok {
		return p
	}
	p, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		unsup("regex %q: %v", re, err)
	}
	reDone[re] = p
	return p
}

func reAnchored(p *syntax.Regexp) bool {
	if p.Op != syntax.OpConcat || len(p.Sub) < 2 {
		return false
	}
	return p.Sub[0].Op == syntax.OpBeginText && p.Sub[len(p.Sub)-1].Op == syntax.OpEndText
}

// reFacts: what the match and its groups satisfy, whichever match the engine selects.
func reFacts(s *Term, re string) *Term {
	p := reParse(re)
	n := 0
	piece := func() *Term {
		n++
		return App(fmt.Sprintf("rep:%s@%d", re, n), SString, s)
	}
	var emptyCaps func(r *syntax.Regexp) *Term
	emptyCaps = func(r *syntax.Regexp) *Term {
		c := TTrue
		if r.Op == syntax.OpCapture {
			c = Eq(reGroup(s, re, r.Cap), Str(""))
		}
		for _, q := range r.Sub {
			c = And(c, emptyCaps(q))
		}
		return c
	}
	var hasCap func(r *syntax.Regexp) bool
	hasCap = func(r *syntax.Regexp) bool {
		if r.Op == syntax.OpCapture {
			return true
		}
		for _, q := range r.Sub {
			if hasCap(q) {
				return true
			}
		}
		return false
	}
	in := func(t *Term, r *syntax.Regexp) *Term { return StrOp("str.in_re", SBool, t, Re(reTerm(r))) }
	var walk func(r *syntax.Regexp, t *Term) *Term
	walk = func(r *syntax.Regexp, t *Term) *Term {
		if !hasCap(r) {
			return in(t, r)
		}
		switch r.Op {
		case syntax.OpCapture:
			return And(Eq(reGroup(s, re, r.Cap), t), walk(r.Sub[0], t))
		case syntax.OpConcat:
			var ps []*Term
			c := TTrue
			for _, q := range r.Sub {
				if q.Op == syntax.OpBeginText || q.Op == syntax.OpEndText {
					continue
				}
				var a *Term
				if q.Op == syntax.OpCapture {
					a = reGroup(s, re, q.Cap)
					c = And(c, walk(q.Sub[0], a))
				} else {
					a = piece()
					c = And(c, walk(q, a))
				}
				ps = append(ps, a)
			}
			return And(Eq(t, Concat(ps...)), c)
		case syntax.OpQuest:
			return Or(And(Eq(t, Str("")), emptyCaps(r.Sub[0])), walk(r.Sub[0], t))
		case syntax.OpAlternate:
			out := TFalse
			for i, q := range r.Sub {
				c := walk(q, t)
				for j, o := range r.Sub {
					if j != i {
						c = And(c, emptyCaps(o))
					}
				}
				out = Or(out, c)
			}
			return out
		case syntax.OpStar, syntax.OpPlus:
			return in(t, r)
		}
		return in(t, r)
	}
	return Implies(inRe(s, re), walk(p, s))
}

const maxI64 = math.MaxInt64

func atoiVal(s *Term) *Term { return App("strconv.Atoi#0", SInt, s) }
func atoiOK(s *Term) *Term  { return App("strconv.Atoi#ok", SBool, s) }

func splitFn(s, sep *Term) *Term {
	return App("strings.Split", sortOf(types.NewSlice(types.Typ[types.String])), s, sep)
}

func regexModels() map[string]libModel {
	m := map[string]libModel{}
	find := func(x *Exec, st *State, args []V) (s *Term, re string, groups *Term, ok bool) {
		rt := x.term(st, args[0])
		re, ok = x.v.constRegexp(rt)
		if !ok {
			return nil, "", nil, false
		}
		p := reParse(re)
		if !reAnchored(p) {
			return nil, "", nil, false
		}
		s = x.term(st, args[1])
		x.note("regexp: a match of an anchored expression is membership in its language; its capture groups are functions of the string that decompose it as the expression prescribes")
		ss := SString
		arr := ConstArr(SArray(SInt, ss), Str(""))
		arr = Store(arr, Int(0), s)
		for i := 1; i <= p.MaxCap(); i++ {
			arr = Store(arr, Int(int64(i)), reGroup(s, re, i))
		}
		if !s.hasB {
			x.Assume(TTrue, reFacts(s, re))
		}
		return s, re, mkSlice(ss, arr, Int(int64(p.MaxCap()+1)), TFalse), true
	}
	m["(*regexp.Regexp).FindAllStringSubmatch"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		s, re, g, ok := find(x, st, args)
		if !ok {
			return x.havocCall(st, "FindAllStringSubmatch", nil, sig), st
		}
		es := g.sort
		arr := Store(Sym("noarr:"+es.Name, SArray(SInt, es)), Int(0), g)
		hit := inRe(s, re)
		return V{t: mkSlice(es, arr, Ite(hit, Int(1), Int(0)), Not(hit)), typ: sig.Results().At(0).Type()}, st
	}
	m["(*regexp.Regexp).FindStringSubmatch"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		s, re, g, ok := find(x, st, args)
		if !ok {
			return x.havocCall(st, "FindStringSubmatch", nil, sig), st
		}
		return V{t: Ite(inRe(s, re), g, zeroOf(sig.Results().At(0).Type())), typ: sig.Results().At(0).Type()}, st
	}
	m["(*regexp.Regexp).MatchString"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		re, ok := x.v.constRegexp(x.term(st, args[0]))
		if !ok {
			return x.havocCall(st, "MatchString", nil, sig), st
		}
		if !reAnchored(reParse(re)) {
			return bval(Fresh("match", SBool)), st
		}
		return bval(inRe(x.term(st, args[1]), re)), st
	}
	m["strconv.Atoi"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		s := x.term(st, args[0])
		x.note("strconv.Atoi: a string of decimal digits is read as its value when it fits an int and rejected otherwise; other strings by an uninterpreted function")
		e := x.freshErr(st, "atoi")
		return V{tup: []V{ival(atoiVal(s)), {t: Ite(atoiOK(s), Int(0), e.t), typ: errType}}, typ: sig.Results()}, st
	}
	m["strings.Split"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		s, sep := x.term(st, args[0]), x.term(st, args[1])
		return V{t: splitFn(s, sep), typ: sig.Results().At(0).Type()}, st
	}
	return m
}

// libAxioms2: instances of library facts for the applications occurring in a query.
func libAxioms2(fs []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	ax := map[*Term]bool{}
	for _, f := range fs {
		walk(f, seen, func(t *Term) {
			if t.op != "app" || t.hasB {
				return
			}
			switch {
			case strings.HasPrefix(t.name, "strconv.Atoi#"):
				s := t.args[0]
				if ax[s] {
					return
				}
				ax[s] = true
				dig := inRe(s, "^[0-9]+$")
				val := StrOp("str.to_int", SInt, s)
				out = append(out, Implies(dig, And(Eq(atoiOK(s), Le(val, BigInt(big.NewInt(maxI64)))), Implies(atoiOK(s), Eq(atoiVal(s), val)), Le(Int(0), val))))
				out = append(out, Implies(Eq(s, Str("")), Not(atoiOK(s))))
			case t.name == "strings.Split":
				sep := t.args[1]
				out = append(out, Implies(Neq(sep, Str("")), Le(Int(1), slLen(t))), Not(slNil(t)), Le(Int(0), slLen(t)))
				out = append(out, Implies(And(Neq(sep, Str("")), Not(StrOp("str.contains", SBool, t.args[0], sep))), And(Eq(slLen(t), Int(1)), Eq(Select(slArr(t), Int(0)), t.args[0]))))
			}
		})
	}
	return out
}
