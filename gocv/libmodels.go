package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type libModel func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State)

var libModels = map[string]libModel{}

func init() {

	for k, m := range baseModels() {
		libModels[k] = m
	}
}

func bval(t *Term) V { return V{t: t, typ: types.Typ[types.Bool]} }
func ival(t *Term) V { return V{t: t, typ: types.Typ[types.Int]} }
func sval(t *Term) V { return V{t: t, typ: types.Typ[types.String]} }

var errType = types.Universe.Lookup("error").Type()

func (x *Exec) freshErr(st *State, base string, wraps ...*Term) V {
	e := Fresh(base, SInt)
	x.Assume(TTrue, Lt(Int(0), e))
	var ws []*Term
	for _, w := range wraps {
		if w != nil {
			ws = append(ws, w)
		}
	}
	x.errW[e] = ws
	return V{t: e, typ: errType}
}

// varargs returns the element terms of a variadic slice with literal length.
func varargs(t *Term) ([]*Term, bool) {
	n := slLen(t)
	if n.op != "int" || !n.i.IsInt64() {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n.i.Int64(); i++ {
		out = append(out, Select(slArr(t), Int(i)))
	}
	return out, true
}

func baseModels() map[string]libModel {
	m := map[string]libModel{}
	str := func(f func(a []*Term) *Term) libModel {
		return func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
			var ts []*Term
			for _, a := range args {
				t := x.term(st, a)
				if t.sort.Name == "Bytes" {
					t = SelN(t, 0)
				}
				ts = append(ts, t)
			}
			return V{t: f(ts), typ: sig.Results().At(0).Type()}, st
		}
	}
	for _, p := range []string{"strings.", "bytes."} {
		m[p+"HasPrefix"] = str(func(a []*Term) *Term { return StrOp("str.prefixof", SBool, a[1], a[0]) })
		m[p+"HasSuffix"] = str(func(a []*Term) *Term { return StrOp("str.suffixof", SBool, a[1], a[0]) })
		m[p+"Contains"] = str(func(a []*Term) *Term { return StrOp("str.contains", SBool, a[0], a[1]) })
		m[p+"Index"] = str(func(a []*Term) *Term { return StrOp("str.indexof", SInt, a[0], a[1], Int(0)) })
	}
	m["bytes.Equal"] = str(func(a []*Term) *Term { return Eq(a[0], a[1]) })
	m["strings.IndexByte"] = str(func(a []*Term) *Term {
		return StrOp("str.indexof", SInt, a[0], StrOp("str.from_code", SString, a[1]), Int(0))
	})
	m["strings.TrimPrefix"] = str(func(a []*Term) *Term {
		return Ite(StrOp("str.prefixof", SBool, a[1], a[0]), Substr(a[0], StrLen(a[1]), Sub(StrLen(a[0]), StrLen(a[1]))), a[0])
	})
	m["strings.TrimSuffix"] = str(func(a []*Term) *Term {
		return Ite(StrOp("str.suffixof", SBool, a[1], a[0]), Substr(a[0], Int(0), Sub(StrLen(a[0]), StrLen(a[1]))), a[0])
	})
	m["strings.Cut"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		s, sep := args[0].t, args[1].t
		i := StrOp("str.indexof", SInt, s, sep, Int(0))
		found := Le(Int(0), i)
		after := Add(i, StrLen(sep))
		return V{tup: []V{
			sval(Ite(found, Substr(s, Int(0), i), s)),
			sval(Ite(found, Substr(s, after, Sub(StrLen(s), after)), Str(""))),
			bval(found)}, typ: sig.Results()}, st
	}
	m["strconv.Itoa"] = str(func(a []*Term) *Term { return App("itoa", SString, a[0]) })
	m["errors.New"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		return x.freshErr(st, "err"), st
	}
	m["fmt.Errorf"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		var ws []*Term
		if args[0].t.op == "str" {
			vs, ok := varargs(x.term(st, args[1]))
			if ok {
				i := 0
				f := args[0].t.name
				for k := 0; k < len(f); k++ {
					if f[k] != '%' {
						continue
					}
					k++
					for k < len(f) && strings.IndexByte("+-# 0123456789.", f[k]) >= 0 {
						k++
					}
					if k >= len(f) || f[k] == '%' {
						continue
					}
					if f[k] == 'w' && i < len(vs) {
						ws = append(ws, vs[i])
					}
					i++
				}
			}
		}
		return x.freshErr(st, "errorf", ws...), st
	}
	m["errors.Join"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		vs, ok := varargs(x.term(st, args[0]))
		if !ok {
			return x.havocCall(st, "errors.Join", nil, sig), st
		}
		any := TFalse
		for _, e := range vs {
			any = Or(any, Neq(e, Int(0)))
		}
		e := x.freshErr(st, "join", vs...)
		return V{t: Ite(any, e.t, Int(0)), typ: errType}, st
	}
	m["errors.Is"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		return bval(x.errIs(st, x.term(st, args[0]), x.term(st, args[1]))), st
	}
	m["fmt.Sprintf"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		r := x.sprintf(st, args[0].t, x.term(st, args[1]))
		return sval(r), st
	}
	m["fmt.Sprint"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		return sval(Fresh("sprint", SString)), st
	}
	m["golang.org/x/exp/slices.Contains"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		s := x.term(st, args[0])
		k := x.term(st, args[1])
		j := FreshB("j", SInt)
		sel := Select(slArr(s), j)
		return bval(Exists([]*Term{j}, And(Le(Int(0), j), Lt(j, slLen(s)), Eq(sel, k)), []*Term{sel})), st
	}
	m["slices.Contains"] = m["golang.org/x/exp/slices.Contains"]
	// tracing and logging: no effect on tracked state
	nop := func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		x.note("tracing/logging calls have no effect on tracked state")
		return x.freshOrNone(st, sig), st
	}
	for _, n := range []string{"go.opentelemetry.io/otel.Tracer", "go.opentelemetry.io/otel/trace.Tracer.Start", "go.opentelemetry.io/otel/trace.Span.End", "github.com/chainguard-dev/clog.FromContext", "github.com/chainguard-dev/clog.WarnContextf", "log.Printf", "log.Println"} {
		m[n] = nop
	}
	// io/fs.FileMode
	fm := func(mask int64) libModel {
		return func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
			return bval(Neq(maskAnd(args[0].t, bigN(mask)), Int(0))), st
		}
	}
	m["(io/fs.FileMode).IsDir"] = fm(1 << 31)
	m["(io/fs.FileMode).IsRegular"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		return bval(Eq(maskAnd(args[0].t, bigN(modeType)), Int(0))), st
	}
	m["(io/fs.FileMode).Perm"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		return V{t: maskAnd(args[0].t, bigN(0o777)), typ: sig.Results().At(0).Type()}, st
	}
	m["(io/fs.FileMode).Type"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		return V{t: maskAnd(args[0].t, bigN(modeType)), typ: sig.Results().At(0).Type()}, st
	}
	return m
}

const modeType = 1<<31 | 1<<27 | 1<<25 | 1<<24 | 1<<26 | 1<<21 | 1<<19

func (x *Exec) freshOrNone(st *State, sig *types.Signature) V {
	switch sig.Results().Len() {
	case 0:
		return V{typ: sig.Results()}
	case 1:
		return x.freshVal(st, "r", sig.Results().At(0).Type())
	}
	return x.freshVal(st, "r", sig.Results())
}

// sprintf models constant formats with %s %d %v %q %o %x; other verbs give an uninterpreted string.
func (x *Exec) sprintf(st *State, f, va *Term) *Term {
	vs, ok := varargs(va)
	if f.op != "str" || !ok {
		return Fresh("sprintf", SString)
	}
	var parts []*Term
	i := 0
	s := f.name
	lit := ""
	for k := 0; k < len(s); k++ {
		if s[k] != '%' {
			lit += string(s[k])
			continue
		}
		k0 := k
		k++
		for k < len(s) && strings.IndexByte("+-# 0123456789.", s[k]) >= 0 {
			k++
		}
		if k >= len(s) {
			break
		}
		if s[k] == '%' {
			lit += "%"
			continue
		}
		if i >= len(vs) {
			return Fresh("sprintf", SString)
		}
		verb := s[k0 : k+1]
		parts = append(parts, Str(lit), x.fmtArg(st, verb, vs[i]))
		lit = ""
		i++
	}
	parts = append(parts, Str(lit))
	return Concat(parts...)
}

func (x *Exec) fmtArg(st *State, verb string, a *Term) *Term {
	bi, ok := x.boxOf[a]
	if !ok {
		return App("fmt:"+verb, SString, a)
	}
	if b, isB := bi.typ.Underlying().(*types.Basic); isB && !hasStringer(bi.typ) {
		if b.Info()&types.IsString != 0 && (verb == "%s" || verb == "%v") {
			return bi.v
		}
		if b.Info()&types.IsInteger != 0 && (verb == "%d" || verb == "%v") {
			return App("itoa", SString, bi.v)
		}
		if b.Info()&types.IsInteger != 0 && bi.v.op == "int" && bi.v.i.IsInt64() {
			return Str(fmt.Sprintf(verb, bi.v.i.Int64()))
		}
		return App("fmt:"+verb+":"+sortTag(bi.v.sort), SString, bi.v)
	}
	if isByteSlice(bi.typ) && verb == "%s" {
		return SelN(bi.v, 0)
	}
	return App("fmt:"+verb+":"+typeName(bi.typ), SString, bi.v)
}

func hasStringer(t types.Type) bool {
	o, _, _ := types.LookupFieldOrMethod(t, true, nil, "String")
	_, ok := o.(*types.Func)
	return ok
}

// axioms for the uninterpreted symbols occurring in fs.
func axioms(fs []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var itoas, atois []*Term
	for _, f := range fs {
		walk(f, seen, func(t *Term) {
			if t.op != "app" || t.hasB {
				return
			}
			switch t.name {
			case "itoa":
				itoas = append(itoas, t)
			case "strconv.Atoi":
				atois = append(atois, t)
			}
		})
	}
	out = append(out, libAxioms2(fs)...)
	for _, t := range itoas {
		out = append(out, Eq(App("itoa_inv", SInt, t), t.args[0]), Lt(Int(0), StrLen(t)))
		out = append(out, Implies(Le(Int(0), t.args[0]), And(inRe(t, "^[0-9]+$"), Eq(StrOp("str.to_int", SInt, t), t.args[0]))))
	}
	return out
}
