package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Function values known by contract: a function may promise a contract for the function value it returns
// (closure/crequires/censures/cmodifies clauses); comparison functions passed to sorting and searching library
// functions are then used through that contract.

func (e *SEnv) withSt(st, old *State) *SEnv {
	c := *e
	c.st, c.old = st, old
	c.vars = map[string]SV{}
	for k, v := range e.vars {
		c.vars[k] = v
	}
	return &c
}

// closObls proves the promised contract of the function value returned.
func (x *Exec) closObls(sp *FuncSpec, r retEdge, renv *SEnv, res V, k int) {
	cs := sp.Clos
	fsig, ok := res.typ.Underlying().(*types.Signature)
	if !ok || fsig.Params().Len() != len(cs.Params) {
		unsup("%s does not return a function of %d parameters", sp.Name, len(cs.Params))
	}
	st := r.st.clone()
	env := renv.withSt(st, st)
	for _, m := range cs.Modifies {
		x.havocTarget(st, m, env, st, nil, nil, nil)
	}
	var args []V
	for i, b := range cs.Params {
		typ := fsig.Params().At(i).Type()
		t := Fresh("arg:"+b.Name, sortOf(typ))
		x.wf(st, t, typ)
		a := V{t: t, typ: typ}
		args = append(args, a)
		env.vars[b.Name] = SV{t: t, typ: typ}
	}
	for _, q := range cs.Requires {
		x.Assume(st.pc, x.evalBool(q.E, env))
	}
	pre := st.clone()
	nob := len(x.obls)
	rv, st2 := x.callValue(nil, st, x.term(st, res), args, fsig, 0, "result")
	_ = nob
	if st2 == nil {
		return
	}
	env2 := renv.withSt(st2, pre)
	for _, b := range cs.Params {
		env2.vars[b.Name] = env.vars[b.Name]
	}
	x.bindResults(env2, fsig, rv)
	for _, u := range sp.Uses {
		x.tryUse(u, env2, st2)
	}
	for _, e := range cs.Ensures {
		nm := e.Text
		if e.Name != "" {
			nm = e.Name + ": " + e.Text
		}
		x.Oblige(st2, "ensures", fmt.Sprintf("%s#closure ensures %s [return %d]", sp.Name, nm, k), x.evalBool(e.E, env2), r.pos, e.Tags)
	}
	x.frameObls(&FuncSpec{Name: sp.Name + "#closure", Pkg: sp.Pkg, Modifies: cs.Modifies}, retEdge{st: st2, pos: r.pos}, pre, k, renv.withSt(pre, pre))
}

// contractClosure is the function value a contract promises.
func (x *Exec) contractClosure(st *State, sp *FuncSpec, sig *types.Signature, fn *ssa.Function, args []V) V {
	env := x.contractEnv(st, st, sp, sig, fn, args)
	// captured values are those at the time of the call
	for n, sv := range env.vars {
		env.vars[n] = x.pin(sv, env)
	}
	fv := &FnVal{cs: sp.Clos, cenv: env, csp: sp}
	typ := sig.Results().At(0).Type()
	fsig := typ.Underlying().(*types.Signature)
	fv.model = func(x *Exec, st *State, args []V) (V, *State) {
		e := fv.cenv.withSt(st, st)
		for i, b := range fv.cs.Params {
			a := args[i]
			e.vars[b.Name] = SV{v: &a, typ: fsig.Params().At(i).Type()}
		}
		for _, r := range fv.cs.Requires {
			x.Oblige(st, "pre", fmt.Sprintf("%s#call of the function returned by %s requires %s", x.fn.Name(), sp.Name, r.Text), x.evalBool(r.E, e), 0, r.Tags)
		}
		pre := st.clone()
		for _, m := range fv.cs.Modifies {
			x.havocTarget(st, m, e, pre, nil, nil, nil)
		}
		var res V
		if fsig.Results().Len() == 1 {
			res = x.freshVal(st, "cr", fsig.Results().At(0).Type())
		} else if fsig.Results().Len() > 1 {
			res = x.freshVal(st, "cr", fsig.Results())
		}
		e2 := e.withSt(st, pre)
		x.bindResults(e2, fsig, res)
		for _, q := range fv.cs.Ensures {
			if !q.Local {
				x.Assume(st.pc, x.evalBool(q.E, e2))
			}
		}
		return res, st
	}
	return x.fnVal(fv, typ, "")
}

// cmpFn gives the value of a comparison known by contract, and handles its preconditions and effects for any
// number of calls on elements of the slice s.
type cmpFn struct {
	x     *Exec
	fv    *FnVal
	value *Expr
	typ   types.Type
}

func (x *Exec) cmpOf(t *Term, what string) *cmpFn {
	if t == nil || t.op != "int" || !t.i.IsInt64() || x.clos[t.i.Int64()] == nil {
		unsup("%s with an unknown comparison", what)
	}
	fv := x.clos[t.i.Int64()]
	if fv.cs == nil {
		unsup("%s with a comparison without contract", what)
	}
	for _, e := range fv.cs.Ensures {
		if e.E.Op == "bin" && e.E.Name == "==" && e.E.Args[0].Op == "ident" && e.E.Args[0].Name == "result" {
			return &cmpFn{x, fv, e.E.Args[1], nil}
		}
	}
	unsup("%s: the comparison has no contract of the form result == e", what)
	return nil
}

func (c *cmpFn) bind(st *State, el types.Type, ts ...*Term) *SEnv {
	e := c.fv.cenv.withSt(st, st)
	for i, b := range c.fv.cs.Params {
		e.vars[b.Name] = SV{t: ts[i], typ: el}
	}
	return e
}

func (c *cmpFn) val(st *State, el types.Type, ts ...*Term) *Term {
	return c.x.svTerm(c.x.eval(c.value, c.bind(st, el, ts...)), c.bind(st, el, ts...))
}

func (c *cmpFn) pre(st *State, el types.Type, ts ...*Term) *Term {
	var fs []*Term
	for _, r := range c.fv.cs.Requires {
		fs = append(fs, c.x.evalBool(r.E, c.bind(st, el, ts...)))
	}
	return And(fs...)
}

// calls accounts for any number of calls of the comparison on elements of s: preconditions hold for every pair of
// elements, and what the calls modify is arbitrary except that the preconditions are kept (they are re-established
// by the comparison's contract).
func (c *cmpFn) calls(st *State, what string, s *Term, el types.Type, pos token.Pos) {
	x := c.x
	i, j := Fresh("i", SInt), Fresh("j", SInt)
	rng := And(Le(Int(0), i), Lt(i, slLen(s)), Le(Int(0), j), Lt(j, slLen(s)))
	x.Oblige(st, "pre", fmt.Sprintf("%s#%s: precondition of the comparison holds for all elements", x.fn.Name(), what), Implies(rng, c.pre(st, el, Select(slArr(s), i), Select(slArr(s), j))), pos, nil)
	var kept []Clause
	for _, r := range c.fv.cs.Requires {
		for _, e := range c.fv.cs.Ensures {
			if e.Text == r.Text {
				kept = append(kept, r)
			}
		}
	}
	if len(c.fv.cs.Modifies) > 0 {
		// a precondition that the modified locations could break has to be promised again
		for _, m := range c.fv.cs.Modifies {
			e := c.fv.cenv.withSt(st, st)
			x.havocTarget(st, m, e, st, nil, nil, nil)
		}
		for _, r := range kept {
			x.Assume(st.pc, x.evalBool(r.E, c.bind(st, el, Fresh("any", sortOf(el)), Fresh("any", sortOf(el)))))
		}
		x.Oblige(st, "pre", fmt.Sprintf("%s#%s: the comparison keeps its own precondition", x.fn.Name(), what), Implies(rng, c.pre(st, el, Select(slArr(s), i), Select(slArr(s), j))), pos, nil)
	}
}

// weakOrder: the comparison is a strict weak order on values satisfying its precondition.
func (c *cmpFn) weakOrder(st *State, what string, el types.Type, pos token.Pos) {
	x := c.x
	a, b, d := Fresh("a", sortOf(el)), Fresh("b", sortOf(el)), Fresh("c", sortOf(el))
	for _, t := range []*Term{a, b, d} {
		x.wf(st, t, el)
	}
	pre := And(c.pre(st, el, a, b), c.pre(st, el, b, a), c.pre(st, el, b, d), c.pre(st, el, a, d))
	ab, ba, bd, ad := c.val(st, el, a, b), c.val(st, el, b, a), c.val(st, el, b, d), c.val(st, el, a, d)
	x.Oblige(st, "order", fmt.Sprintf("%s#%s: the comparison is antisymmetric", x.fn.Name(), what), Implies(pre, And(Eq(Lt(ab, Int(0)), Lt(Int(0), ba)), Eq(Lt(ba, Int(0)), Lt(Int(0), ab)))), pos, nil)
	x.Oblige(st, "order", fmt.Sprintf("%s#%s: the comparison is transitive", x.fn.Name(), what), Implies(And(pre, Le(ab, Int(0)), Le(bd, Int(0))), And(Le(ad, Int(0)), Implies(Eq(ad, Int(0)), And(Eq(ab, Int(0)), Eq(bd, Int(0)))))), pos, nil)
}

func init() {
	minFunc := func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		x.note("slices.MinFunc returns an element no other element compares below, when the comparison is a strict weak order")
		s := x.term(st, args[0])
		el := args[0].typ.Underlying().(*types.Slice).Elem()
		c := x.cmpOf(x.term(st, args[1]), "slices.MinFunc")
		x.Oblige(st, "bounds", x.fn.Name()+"#slices.MinFunc of a non-empty slice", Lt(Int(0), slLen(s)), pos, nil)
		c.weakOrder(st, "slices.MinFunc", el, pos)
		c.calls(st, "slices.MinFunc", s, el, pos)
		k := Fresh("min", SInt)
		r := Select(slArr(s), k)
		j := FreshB("j", SInt)
		sel := Select(slArr(s), j)
		x.Assume(st.pc, And(Le(Int(0), k), Lt(k, slLen(s)), Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, slLen(s))), And(Le(Int(0), c.val(st, el, sel, r)), Le(c.val(st, el, r, sel), Int(0)))), []*Term{sel})))
		return V{t: r, typ: el}, st
	}
	sortFunc := func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		x.note("slices.SortFunc permutes the slice into an order the comparison agrees with, when the comparison is a strict weak order")
		s := x.term(st, args[0])
		el := args[0].typ.Underlying().(*types.Slice).Elem()
		c := x.cmpOf(x.term(st, args[1]), "slices.SortFunc")
		c.weakOrder(st, "slices.SortFunc", el, pos)
		c.calls(st, "slices.SortFunc", s, el, pos)
		ns := x.permuted(st, s)
		i, j := FreshB("i", SInt), FreshB("j", SInt)
		x.Assume(st.pc, Forall([]*Term{i, j}, Implies(And(Le(Int(0), i), Lt(i, j), Lt(j, slLen(ns))), Le(c.val(st, el, Select(slArr(ns), i), Select(slArr(ns), j)), Int(0))), []*Term{Select(slArr(ns), i), Select(slArr(ns), j)}))
		x.replaceSlice(st, args[0], ns)
		return V{typ: sig.Results()}, st
	}
	libModels["cmp.Compare"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		b, ok := args[0].typ.Underlying().(*types.Basic)
		if !ok || b.Info()&(types.IsInteger|types.IsString) == 0 {
			unsup("cmp.Compare on %s", args[0].typ)
		}
		s, t := x.term(st, args[0]), x.term(st, args[1])
		lt := Lt
		if b.Info()&types.IsString != 0 {
			lt = func(a, b *Term) *Term { return strLt(a, b) }
		}
		return ival(Ite(lt(s, t), Int(-1), Ite(Eq(s, t), Int(0), Int(1)))), st
	}
	for _, p := range []string{"slices.", "golang.org/x/exp/slices."} {
		libModels[p+"MinFunc"] = minFunc
		libModels[p+"SortFunc"] = sortFunc
		libModels[p+"SortStableFunc"] = sortFunc
	}
}

// permuted returns a slice that is a permutation of s.
func (x *Exec) permuted(st *State, s *Term) *Term {
	ns := Fresh("perm", s.sort)
	p, q := Fresh("pi", SArray(SInt, SInt)), Fresh("pinv", SArray(SInt, SInt))
	i := FreshB("i", SInt)
	n := slLen(s)
	in := func(t *Term) *Term { return And(Le(Int(0), t), Lt(t, n)) }
	x.Assume(st.pc, Eq(slLen(ns), n))
	a := Select(slArr(ns), i)
	x.Assume(st.pc, Forall([]*Term{i}, Implies(in(i), And(in(Select(p, i)), Eq(a, Select(slArr(s), Select(p, i))), Eq(Select(q, Select(p, i)), i))), []*Term{a}))
	b := Select(slArr(s), i)
	x.Assume(st.pc, Forall([]*Term{i}, Implies(in(i), And(in(Select(q, i)), Eq(b, Select(slArr(ns), Select(q, i))), Eq(Select(p, Select(q, i)), i))), []*Term{b}))
	return ns
}
