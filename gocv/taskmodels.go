package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Library functions that run a function value given to them.

// maybe runs f in a copy of the state under an arbitrary condition and joins the outcomes.
func (x *Exec) maybe(st *State, what string, run func(st *State) *State) *State {
	c := Fresh(what, SBool)
	s1, s2 := st.clone(), st.clone()
	s1.pc = And(st.pc, c)
	s2.pc = And(st.pc, Not(c))
	r1 := run(s1)
	if r1 == nil {
		return s2
	}
	return x.mergeStates([]edge{{st: r1}, {st: s2}})
}

func init() {
	libModels["(*golang.org/x/sync/errgroup.Group).Go"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		x.note("errgroup.Group.Go: tasks are executed when started, one after another (interleavings are outside the contracts)")
		ft := sig.Params().At(0).Type().Underlying().(*types.Signature)
		g := x.term(st, args[0])
		r, s := x.callValue(nil, st, x.term(st, args[1]), nil, ft, pos, "task")
		if s == nil {
			return V{}, nil
		}
		if gh := x.v.specs.Ghosts["egErr"]; gh != nil && x.v.ghostOn(gh) {
			k := x.ghostKey("egErr")
			h := x.get(s, k)
			x.set(s, k, Store(h, g, Or(Select(h, g), Neq(x.term(s, r), Int(0)))))
		}
		return V{typ: sig.Results()}, s
	}
	libModels["(*sync.Once).Do"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		x.note("sync.Once.Do runs its function or, when it ran before, does nothing")
		ft := sig.Params().At(0).Type().Underlying().(*types.Signature)
		s := x.maybe(st, "once", func(s *State) *State {
			_, s = x.callValue(nil, s, x.term(s, args[1]), nil, ft, pos, "once")
			return s
		})
		return V{typ: sig.Results()}, s
	}
}
