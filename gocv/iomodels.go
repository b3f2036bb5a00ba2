package main

import (
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

func init() {
	m := libModels
	// fmt.Fprint*: the formatted text is appended to what w accepted, or an error is returned
	out := func(text func(x *Exec, st *State, args []V) *Term) libModel {
		return func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
			x.note("fmt.Fprint*: on success exactly the formatted text is appended to the writer's output; on error any output")
			w := x.term(st, args[0])
			s := text(x, st, args)
			e := Fresh("werr", SInt)
			x.Assume(TTrue, Le(Int(0), e))
			if g := x.v.specs.Ghosts["wrOut"]; g != nil && x.v.ghostOn(g) {
				k := x.ghostKey("wrOut")
				h := x.get(st, k)
				nv := Ite(Eq(e, Int(0)), Concat(Select(h, w), s), Fresh("partial", SString))
				x.set(st, k, Store(h, w, nv))
			}
			return V{tup: []V{ival(Ite(Eq(e, Int(0)), StrLen(s), Fresh("n", SInt))), {t: e, typ: errType}}, typ: sig.Results()}, st
		}
	}
	m["fmt.Fprintf"] = out(func(x *Exec, st *State, a []V) *Term { return x.sprintf(st, a[1].t, x.term(st, a[2])) })
	m["io.WriteString"] = out(func(x *Exec, st *State, a []V) *Term { return x.term(st, a[1]) })
	m["fmt.Fprint"] = out(func(x *Exec, st *State, a []V) *Term { return x.sprint(st, a[1], false) })
	m["fmt.Fprintln"] = out(func(x *Exec, st *State, a []V) *Term { return x.sprint(st, a[1], true) })
	m["strings.Join"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		x.note("library function strings.Join: uninterpreted pure function, except on lists whose members are known")
		return sval(App("strings.Join", SString, x.term(st, args[0]), x.term(st, args[1]))), st
	}
	m["strconv.ParseUint"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		s, b, n := x.term(st, args[0]), x.term(st, args[1]), x.term(st, args[2])
		if b.op != "int" || n.op != "int" || b.i.Int64() != 10 {
			return x.pureCall(st, "strconv.ParseUint", args, sig), st
		}
		x.note("strconv.ParseUint(s, 10, n): accepts exactly the strings of decimal digits whose value fits n bits, and returns that value")
		bits := uint(n.i.Int64())
		if bits == 0 {
			bits = 64
		}
		max := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
		val := StrOp("str.to_int", SInt, s)
		ok := And(inRe(s, "^[0-9]+$"), Le(val, BigInt(max)))
		x.Assume(TTrue, Implies(inRe(s, "^[0-9]+$"), Le(Int(0), val)))
		e := x.freshErr(st, "parseuint")
		oth := Fresh("u", SInt)
		x.Assume(TTrue, And(Le(Int(0), oth), Le(oth, BigInt(max))))
		return V{tup: []V{{t: Ite(ok, val, oth), typ: types.Typ[types.Uint64]}, {t: Ite(ok, Int(0), e.t), typ: errType}}, typ: sig.Results()}, st
	}
	m["strconv.ParseInt"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		s, b, n := x.term(st, args[0]), x.term(st, args[1]), x.term(st, args[2])
		if b.op == "int" && b.i.Int64() == 8 && n.op == "int" && n.i.Int64() == 64 {
			x.note("strconv.ParseInt(s, 8, 64): accepts a fixed set of strings, each standing for one number; what it does for others is not used")
			e := x.freshErr(st, "parseint")
			return V{tup: []V{{t: Ite(octOK(s), octVal(s), Fresh("i", SInt)), typ: types.Typ[types.Int64]}, {t: Ite(octOK(s), Int(0), e.t), typ: errType}}, typ: sig.Results()}, st
		}
		if b.op != "int" || n.op != "int" || b.i.Int64() != 10 {
			return x.pureCall(st, "strconv.ParseInt", args, sig), st
		}
		x.note("strconv.ParseInt(s, 10, n): accepts exactly the strings of decimal digits, with an optional sign, whose value fits n bits, and returns that value")
		bits := uint(n.i.Int64())
		if bits == 0 {
			bits = 64
		}
		lim := new(big.Int).Lsh(big.NewInt(1), bits-1)
		min, max := new(big.Int).Neg(lim), new(big.Int).Sub(lim, big.NewInt(1))
		head, tail := Substr(s, Int(0), Int(1)), Substr(s, Int(1), Sub(StrLen(s), Int(1)))
		neg, plus := Eq(head, Str("-")), Eq(head, Str("+"))
		val := Ite(neg, Neg(StrOp("str.to_int", SInt, tail)), Ite(plus, StrOp("str.to_int", SInt, tail), StrOp("str.to_int", SInt, s)))
		ok := And(inRe(s, "^[+-]?[0-9]+$"), Le(BigInt(min), val), Le(val, BigInt(max)))
		e := x.freshErr(st, "parseint")
		oth := Fresh("i", SInt)
		x.Assume(TTrue, And(Le(BigInt(min), oth), Le(oth, BigInt(max))))
		return V{tup: []V{{t: Ite(ok, val, oth), typ: types.Typ[types.Int64]}, {t: Ite(ok, Int(0), e.t), typ: errType}}, typ: sig.Results()}, st
	}
	m["strconv.FormatUint"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		b := x.term(st, args[1])
		if b.op != "int" || b.i.Int64() != 10 {
			return x.pureCall(st, "strconv.FormatUint", args, sig), st
		}
		return sval(App("itoa", SString, x.term(st, args[0]))), st
	}
	m["strconv.FormatInt"] = m["strconv.FormatUint"]
}

// sprint: fmt.Sprint(ln) of strings only; anything else is an arbitrary string.
func (x *Exec) sprint(st *State, va V, ln bool) *Term {
	vs, ok := varargs(x.term(st, va))
	if !ok {
		return Fresh("sprint", SString)
	}
	var parts []*Term
	for i, v := range vs {
		bi, ok := x.boxOf[v]
		if !ok {
			return Fresh("sprint", SString)
		}
		b, isB := bi.typ.Underlying().(*types.Basic)
		if !isB || hasStringer(bi.typ) {
			return Fresh("sprint", SString)
		}
		switch {
		case b.Info()&types.IsString != 0:
			parts = append(parts, bi.v)
		case b.Info()&types.IsInteger != 0 && (ln || len(vs) == 1):
			parts = append(parts, App("itoa", SString, bi.v))
		default:
			return Fresh("sprint", SString)
		}
		if ln && i+1 < len(vs) {
			parts = append(parts, Str(" "))
		}
	}
	if ln {
		parts = append(parts, Str("\n"))
	}
	return Concat(parts...)
}

// asErr: whether errors.As finds a T in e, and the value it finds.
func (x *Exec) asErr(st *State, e *Term, T types.Type) (ok, val *Term) {
	if e.op == "int" {
		return TFalse, zeroOf(T)
	}
	if e.op == "ite" {
		a, av := x.asErr(st, e.args[1], T)
		b, bv := x.asErr(st, e.args[2], T)
		return Ite(e.args[0], a, b), Ite(e.args[0], av, bv)
	}
	if bi, is := x.boxOf[e]; is && types.Identical(bi.typ, T) {
		return TTrue, bi.v
	}
	if ws, is := x.errW[e]; is {
		ok, val = TFalse, zeroOf(T)
		for i := len(ws) - 1; i >= 0; i-- {
			o, v := x.asErr(st, ws[i], T)
			ok, val = Or(o, ok), Ite(o, v, val)
		}
		return ok, val
	}
	nm := typeName(T)
	f, v := App("errAs:"+nm, SBool, e), App("asVal:"+nm, sortOf(T), e)
	if !e.hasB {
		x.Assume(TTrue, Implies(x.isTag(e, T), And(f, Eq(v, x.unbox(e, T)))))
	}
	return And(Neq(e, Int(0)), f), v
}

func init() {
	libModels["errors.As"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		t := x.term(st, args[1])
		bi, is := x.boxOf[t]
		if !is {
			return x.havocCall(st, "errors.As", args, sig), st
		}
		pt, is := bi.typ.Underlying().(*types.Pointer)
		if !is {
			return x.havocCall(st, "errors.As", args, sig), st
		}
		T := pt.Elem()
		if isInterface(T) {
			return x.havocCall(st, "errors.As", args, sig), st
		}
		ok, v := x.asErr(st, x.term(st, args[0]), T)
		x.storeRef(st, bi.v, T, Ite(ok, v, x.loadRef(st, bi.v, T)))
		return bval(ok), st
	}
}

// octal numbers: the texts strconv.ParseInt(s, 8, 64) accepts, what they stand for, and fmt's %04o
func octOK(s *Term) *Term  { return App("octOK", SBool, s) }
func octVal(s *Term) *Term { return App("octVal", SInt, s) }
func oct4(n *Term) *Term   { return App("fmt:%04o:"+sortTag(SInt), SString, n) }

// joinT is strings.Join: what is known about the members of the list is joined, the rest stays a call.
func joinT(l, sep *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[l]; ok {
		return r
	}
	r := joinT1(l, sep, memo)
	memo[l] = r
	return r
}

func joinT1(l, sep *Term, memo map[*Term]*Term) *Term {
	if l.op == "ite" {
		return Ite(l.args[0], joinT(l.args[1], sep, memo), joinT(l.args[2], sep, memo))
	}
	if l.op == "mk" {
		arr, n, nl := l.args[0], l.args[1], l.args[2]
		if n == Int(0) {
			return Str("")
		}
		if arr.op == "ite" {
			pick := func(t *Term, k int) *Term {
				if t.op == "ite" && t.args[0] == arr.args[0] {
					return t.args[k]
				}
				return t
			}
			d := dataTab[l.sort.Name]
			return Ite(arr.args[0], joinT(Mk(d, arr.args[1], pick(n, 1), pick(nl, 1)), sep, memo), joinT(Mk(d, arr.args[2], pick(n, 2), pick(nl, 2)), sep, memo))
		}
		if arr.op == "store" {
			base, at, v := arr.args[0], arr.args[1], arr.args[2]
			if Add(at, Int(1)) == n {
				if at == Int(0) {
					return v
				}
				prev := Mk(dataTab[l.sort.Name], base, at, TFalse)
				if base.op == "sel" && at.op == "sel" && base.args[0] == at.args[0] && base.name == "0" && at.name == "1" {
					prev = base.args[0]
				}
				more := Concat(joinT(prev, sep, memo), sep, v)
				if at.op == "int" {
					return more
				}
				return Ite(Eq(at, Int(0)), v, more)
			}
		}
	}
	return intern(&Term{op: "app", name: "strings.Join", sort: SString, args: []*Term{l, sep}})
}
