package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Copying and filtering of slices and the keys of maps.
func init() {
	clone := func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		s := x.term(st, args[0])
		n := Fresh("clone", s.sort)
		x.Assume(st.pc, Eq(n, s))
		return V{t: n, typ: args[0].typ}, st
	}
	deleteFunc := func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		x.note("slices.DeleteFunc keeps, in some order of its own, exactly the elements for which its function is false")
		s := x.term(st, args[0])
		el := args[0].typ.Underlying().(*types.Slice).Elem()
		e := Fresh("el", sortOf(el))
		ft := args[1].typ.Underlying().(*types.Signature)
		r, s2 := x.callValue(nil, st.clone(), x.term(st, args[1]), []V{{t: e, typ: el}}, ft, pos, "filter")
		if s2 == nil || r.t == nil {
			unsup("slices.DeleteFunc with a function that does not return")
		}
		drop := func(t *Term) *Term { return Subst(r.t, map[*Term]*Term{e: t}) }
		n := Fresh("kept", s.sort)
		x.Assume(st.pc, And(Le(Int(0), slLen(n)), Le(slLen(n), slLen(s))))
		i, j := FreshB("i", SInt), FreshB("j", SInt)
		in := func(k, of *Term) *Term { return And(Le(Int(0), k), Lt(k, slLen(of))) }
		a, b := Select(slArr(n), i), Select(slArr(s), j)
		x.Assume(st.pc, Forall([]*Term{i}, Implies(in(i, n), And(Not(drop(a)), Exists([]*Term{j}, And(in(j, s), Eq(b, a)), []*Term{b}))), []*Term{a}))
		x.Assume(st.pc, Forall([]*Term{j}, Implies(And(in(j, s), Not(drop(b))), Exists([]*Term{i}, And(in(i, n), Eq(a, b)), []*Term{a})), []*Term{b}))
		old := Fresh("left", s.sort)
		x.Assume(st.pc, Eq(slLen(old), slLen(s)))
		x.replaceSlice(st, args[0], old)
		return V{t: n, typ: args[0].typ}, st
	}
	keys := func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		mt := args[0].typ.Underlying().(*types.Map)
		dom := Select(x.get(st, x.mapDomKey(mt)), x.term(st, args[0]))
		sl := types.NewSlice(mt.Key())
		n := Fresh("keys", sortOf(sl))
		x.wf(st, n, sl)
		i, k := FreshB("i", SInt), FreshB("k", sortOf(mt.Key()))
		in := And(Le(Int(0), i), Lt(i, slLen(n)))
		a, d := Select(slArr(n), i), Select(dom, k)
		x.Assume(st.pc, Forall([]*Term{i}, Implies(in, Select(dom, a)), []*Term{a}))
		x.Assume(st.pc, Forall([]*Term{k}, Implies(d, Exists([]*Term{i}, And(in, Eq(a, k)), []*Term{a})), []*Term{d}))
		return V{t: n, typ: sl}, st
	}
	for _, p := range []string{"slices.", "golang.org/x/exp/slices."} {
		libModels[p+"Clone"] = clone
		libModels[p+"DeleteFunc"] = deleteFunc
	}
	libModels["golang.org/x/exp/maps.Keys"] = keys
}
