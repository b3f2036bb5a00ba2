package main

// Symbolic execution of go/ssa with state merging; loops are cut with invariants.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type V struct {
	t    *Term
	addr *Addr
	tup  []V
	cell int // slice with mutable local backing
	prov *Addr
	wof  *V    // a byte slice cut out of another: writes go through to that one
	wcur *Term // its value when it was cut
	wlo  *Term // and where
	iter *Iter
	typ  types.Type
}

type FnVal struct {
	fn    *ssa.Function
	binds []V
	model func(x *Exec, st *State, args []V) (V, *State)
	cs    *ClosSpec // known by contract only, over cenv
	cenv  *SEnv
	csp   *FuncSpec
}

type Iter struct {
	key  string // state key of visited set
	m    *Term  // map ref (maps)
	mt   *types.Map
	dom0 *Term
	str  *Term // strings
}

type step struct {
	field int
	idx   *Term
	arr   *types.Array
}

const (
	aKey = iota // whole store key (cell, global)
	aHeap
	aSlice
)

type Addr struct {
	kind  int
	key   string
	ref   *Term
	slice *V
	path  []step
	typ   types.Type // type of the addressed location
	base  types.Type // type at the root
}

type State struct {
	pc  *Term
	env map[ssa.Value]V
	m   map[string]*Term
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, env: make(map[ssa.Value]V, len(s.env)+8), m: make(map[string]*Term, len(s.m)+8)}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.m {
		n.m[k] = v
	}
	return n
}

func (s *State) withStore(env map[ssa.Value]V) *State {
	n := s.clone()
	n.env = env
	return n
}

type Obl struct {
	Name   string
	Kind   string
	Tags   []string
	Func   string
	Pos    string
	nfacts int
	goal   *Term
	facts  []*Term
	Res    SolveResult
	Done   bool
}

type Exec struct {
	v         *Verifier
	facts     []*Term
	obls      []*Obl
	quiet     int
	noInv     int
	cellN     int
	clN       int64
	clos      map[int64]*FnVal
	assume    map[string]bool
	fn        *ssa.Function
	spec      *FuncSpec
	pre       *State
	modParams map[string][]*Term // maps the contract lets change
	depth     int
	stack     []*frame
	sorts     map[string]*Sort // store key sorts
	noBound   bool
	errW      map[*Term][]*Term // Errorf result -> wrapped errors
	boxOf     map[*Term]boxInfo
	inlined   map[string]bool
	houdini   int
	tags      []string
	params    map[string]SV
	reveal    map[string]bool
}

type boxInfo struct {
	v   *Term
	typ types.Type
}

type frame struct {
	fn      *ssa.Function
	binds   []V
	entry   *State
	params  map[string]SV
	spec    *FuncSpec
	loops   map[*ssa.BasicBlock]*loop
	order   []*ssa.BasicBlock
	inLoops map[*ssa.BasicBlock][]*loop // outermost first
	rets    []retEdge
	defers  []deferred
	guardN  int
}

type deferred struct {
	pc   *Term
	call *ssa.CallCommon
	fnv  V
	args []V
	pos  token.Pos
	ins  ssa.Instruction
}

type retEdge struct {
	st  *State
	res []V
	pos token.Pos
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	order  []*ssa.BasicBlock
	stored map[string][]*Term // heap keys: indices the body stores at
}

type edge struct {
	from, to *ssa.BasicBlock
	st       *State
}

func (x *Exec) Assume(pc, f *Term) {
	t := Implies(pc, f)
	if t == TTrue {
		return
	}
	if t.hasB {
		return
	}
	x.facts = append(x.facts, t)
}

func (x *Exec) note(f string, a ...any) { x.assume[fmt.Sprintf(f, a...)] = true }

func (x *Exec) Oblige(st *State, kind, name string, goal *Term, pos token.Pos, tags []string) {
	g := Implies(st.pc, goal)
	if x.quiet > 0 {
		x.Assume(st.pc, goal)
		return
	}
	p := ""
	if pos.IsValid() {
		q := x.v.fset.Position(pos)
		p = fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, x.v.repo+"/"), q.Line)
	}
	o := &Obl{Name: name, Kind: kind, Func: x.fn.String(), Pos: p, nfacts: len(x.facts), goal: g, Tags: tags}
	x.obls = append(x.obls, o)
	x.Assume(st.pc, goal)
}

func (x *Exec) keySort(k string) *Sort {
	if s, ok := x.sorts[k]; ok {
		return s
	}
	if s, ok := x.v.allSorts[k]; ok && !strings.HasPrefix(k, "c:") {
		x.sorts[k] = s
		return s
	}
	panic("no sort for key " + k)
}

func (x *Exec) get(st *State, k string) *Term {
	if t, ok := st.m[k]; ok {
		return t
	}
	s := x.keySort(k)
	return Sym(k+"@0", s)
}

func (x *Exec) set(st *State, k string, t *Term) {
	if s := x.keySort(k); s != t.sort {
		panic(fmt.Sprintf("set %s: sort %v want %v", k, t.sort, s))
	}
	st.m[k] = t
}

func (x *Exec) declare(k string, s *Sort) string {
	if o, ok := x.sorts[k]; ok {
		if o != s {
			panic("redeclared key " + k)
		}
		return k
	}
	x.sorts[k] = s
	x.v.allSorts[k] = s
	return k
}

func (x *Exec) fieldKey(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	return x.declare("h:"+typeName(t)+"."+st.Field(i).Name(), SArray(SInt, sortOf(st.Field(i).Type())))
}
func (x *Exec) boxKey(t types.Type) string {
	return x.declare("p:"+typeName(t), SArray(SInt, sortOf(t)))
}
func (x *Exec) mapDomKey(m *types.Map) string {
	return x.declare("md:"+typeName(m), SArray(SInt, SArray(sortOf(m.Key()), SBool)))
}
func (x *Exec) mapValKey(m *types.Map) string {
	return x.declare("mv:"+typeName(m), SArray(SInt, SArray(sortOf(m.Key()), sortOf(m.Elem()))))
}
func (x *Exec) globalKey(g *ssa.Global) string {
	return x.declare("v:"+g.Pkg.Pkg.Name()+"."+g.Name(), sortOf(g.Type().(*types.Pointer).Elem()))
}
func (x *Exec) ghostKey(n string) string {
	g := x.v.specs.Ghosts[n]
	if g == nil {
		unsup("unknown ghost %s", n)
	}
	if !x.v.ghostOn(g) {
		unsup("%s%s", inactiveGhost, n)
	}
	return x.declare("g:"+n, x.v.specSort(g.Type, nil))
}

const inactiveGhost = "ghost not tracked for this property: "

// ghostOn: a tagged ghost variable exists only in the checks of the properties it is tagged with.
func (v *Verifier) ghostOn(g *GhostVar) bool {
	return v.prop == "" || len(g.Tags) == 0 || hasTag(g.Tags, v.prop)
}

// skipGhost runs f and reports false if it needed a ghost variable that is not tracked in this run.
func skipGhost(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(unsupported); is && strings.HasPrefix(u.msg, inactiveGhost) {
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

const allocKey = "alloc"

func (x *Exec) newCell(st *State, s *Sort, init *Term) int {
	x.cellN++
	k := fmt.Sprintf("c:%d", x.cellN)
	x.sorts[k] = s
	st.m[k] = init
	return x.cellN
}

func cellKey(n int) string { return fmt.Sprintf("c:%d", n) }

func (x *Exec) newRef(st *State) *Term {
	x.declare(allocKey, SInt)
	a := x.get(st, allocKey)
	r := Fresh("ref", SInt)
	x.Assume(TTrue, Lt(a, r))
	x.Assume(TTrue, Lt(Int(0), r))
	x.set(st, allocKey, r)
	return r
}

// wf assumes the type invariant of a value appearing in state st.
func (x *Exec) wf(st *State, t *Term, typ types.Type) {
	if t.hasB {
		return
	}
	f := x.wfTerm(st, t, typ, 2)
	x.Assume(TTrue, f)
}

func (x *Exec) wfTerm(st *State, t *Term, typ types.Type, d int) *Term {
	if isLit(t) {
		return TTrue
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			if u.Kind() == types.Int || u.Kind() == types.Int64 {
				return TTrue
			}
			lo, hi, _ := intRange(typ)
			if lo == nil {
				return TTrue
			}
			return And(Le(BigInt(lo), t), Le(t, BigInt(hi)))
		}
	case *types.Pointer, *types.Map:
		x.declare(allocKey, SInt)
		return And(Le(Int(0), t), Le(t, x.get(st, allocKey)))
	case *types.Slice:
		if isByte(u.Elem()) {
			return Implies(SelN(t, 1), Eq(SelN(t, 0), Str("")))
		}
		return And(Le(Int(0), slLen(t)), Implies(slNil(t), Eq(slLen(t), Int(0))))
	case *types.Array:
		if isByte(u.Elem()) {
			return Eq(StrLen(t), Int(u.Len()))
		}
	case *types.Struct:
		if isOpaqueStruct(typ) || d == 0 {
			return TTrue
		}
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, x.wfTerm(st, SelN(t, i), u.Field(i).Type(), d-1))
		}
		return And(cs...)
	}
	return TTrue
}

func (x *Exec) freshVal(st *State, base string, typ types.Type) V {
	if tu, ok := typ.(*types.Tuple); ok {
		var vs []V
		for i := 0; i < tu.Len(); i++ {
			vs = append(vs, x.freshVal(st, base, tu.At(i).Type()))
		}
		return V{tup: vs, typ: typ}
	}
	t := Fresh(base, sortOf(typ))
	x.wf(st, t, typ)
	return V{t: t, typ: typ}
}

func (x *Exec) term(st *State, v V) *Term {
	if v.cell != 0 {
		return x.get(st, cellKey(v.cell))
	}
	if v.t != nil {
		return v.t
	}
	if v.addr != nil {
		unsup("address of a local used as a value (%s)", v.addr.key)
	}
	unsup("value has no term")
	return nil
}

// ---- addresses

func (x *Exec) loadAddr(st *State, a *Addr) *Term {
	var t *Term
	switch a.kind {
	case aKey:
		t = x.get(st, a.key)
	case aHeap:
		t = Select(x.get(st, a.key), a.ref)
	case aSlice:
		t = x.term(st, *a.slice)
	}
	for _, s := range a.path {
		t = stepGet(t, s)
	}
	return t
}

func stepGet(t *Term, s step) *Term {
	if s.idx == nil {
		return SelN(t, s.field)
	}
	if s.arr != nil {
		if t.sort == SString {
			return byteAt(t, s.idx)
		}
		return Select(t, s.idx)
	}
	// slice element
	if t.sort.Name == "Bytes" {
		return byteAt(SelN(t, 0), s.idx)
	}
	return Select(slArr(t), s.idx)
}

func stepSet(t *Term, s step, v *Term) *Term {
	if s.idx == nil {
		return UpdN(t, s.field, v)
	}
	setStr := func(str *Term) *Term {
		n := StrLen(str)
		return Concat(Substr(str, Int(0), s.idx), StrOp("str.from_code", SString, v), Substr(str, Add(s.idx, Int(1)), Sub(Sub(n, s.idx), Int(1))))
	}
	if s.arr != nil {
		if t.sort == SString {
			return setStr(t)
		}
		return Store(t, s.idx, v)
	}
	if t.sort.Name == "Bytes" {
		return Mk(dBytes(), setStr(SelN(t, 0)), SelN(t, 1))
	}
	return mkSlice(sliceElemSort(t), Store(slArr(t), s.idx, v), slLen(t), slNil(t))
}

func setPath(t *Term, path []step, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	return stepSet(t, path[0], setPath(stepGet(t, path[0]), path[1:], v))
}

func (x *Exec) storeAddr(st *State, a *Addr, v *Term) {
	switch a.kind {
	case aKey:
		base := x.get(st, a.key)
		x.set(st, a.key, setPath(base, a.path, v))
	case aHeap:
		h := x.get(st, a.key)
		base := Select(h, a.ref)
		x.set(st, a.key, Store(h, a.ref, setPath(base, a.path, v)))
	case aSlice:
		base := x.term(st, *a.slice)
		nv := setPath(base, a.path, v)
		if a.slice.cell != 0 {
			x.set(st, cellKey(a.slice.cell), nv)
			return
		}
		if a.slice.prov != nil && x.loadAddr(st, a.slice.prov) == base {
			x.storeAddr(st, a.slice.prov, nv)
			return
		}
		unsup("store through a slice whose backing array is not tracked")
	}
}

func (a *Addr) extend(s step, typ types.Type) *Addr {
	n := *a
	n.path = append(append([]step{}, a.path...), s)
	n.typ = typ
	return &n
}

// loadPtr loads *p where p has pointer type to typ.
func (x *Exec) loadPtr(st *State, p V, typ types.Type) *Term {
	if p.addr != nil {
		return x.loadAddr(st, p.addr)
	}
	return x.loadRef(st, p.t, typ)
}

func (x *Exec) loadRef(st *State, ref *Term, typ types.Type) *Term {
	if stt, ok := typ.Underlying().(*types.Struct); ok && !isOpaqueStruct(typ) {
		d := dStruct(typ)
		var as []*Term
		for i := 0; i < stt.NumFields(); i++ {
			as = append(as, Select(x.get(st, x.fieldKey(typ, i)), ref))
		}
		return Mk(d, as...)
	}
	return Select(x.get(st, x.boxKey(typ)), ref)
}

func (x *Exec) storePtr(st *State, p V, typ types.Type, v *Term) {
	if p.addr != nil {
		x.storeAddr(st, p.addr, v)
		return
	}
	x.storeRef(st, p.t, typ, v)
}
func (x *Exec) storeRef(st *State, ref *Term, typ types.Type, v *Term) {
	if stt, ok := typ.Underlying().(*types.Struct); ok && !isOpaqueStruct(typ) {
		for i := 0; i < stt.NumFields(); i++ {
			k := x.fieldKey(typ, i)
			x.set(st, k, Store(x.get(st, k), ref, SelN(v, i)))
		}
		return
	}
	k := x.boxKey(typ)
	x.set(st, k, Store(x.get(st, k), ref, v))
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	unsup("deref of %s", t)
	return nil
}

// ---- merging

func (x *Exec) mergeStates(es []edge) *State {
	if len(es) == 1 {
		return es[0].st.clone()
	}
	var pcs []*Term
	for _, e := range es {
		pcs = append(pcs, e.st.pc)
	}
	conds := discriminators(pcs)
	n := &State{env: map[ssa.Value]V{}, m: map[string]*Term{}}
	n.pc = x.namePC(Or(pcs...))
	// store
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.st.m {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		skip := false
		for _, e := range es {
			if _, ok := e.st.m[k]; !ok && (strings.HasPrefix(k, "c:") || strings.HasPrefix(k, "it:")) {
				skip = true // cell not allocated on that path
			}
		}
		if skip {
			// keep the value of any path that has it (cell is dead or dominated elsewhere)
			for _, e := range es {
				if t, ok := e.st.m[k]; ok {
					n.m[k] = t
				}
			}
			continue
		}
		v := x.get(es[len(es)-1].st, k)
		for i := len(es) - 2; i >= 0; i-- {
			v = Ite(conds[i], x.get(es[i].st, k), v)
		}
		n.m[k] = v
	}
	// env
	last := es[len(es)-1].st
	for r, v := range last.env {
		same := true
		ok := true
		vs := make([]V, len(es))
		for i, e := range es {
			w, has := e.st.env[r]
			if !has {
				ok = false
				break
			}
			vs[i] = w
			if !sameV(w, v) {
				same = false
			}
		}
		if !ok {
			continue
		}
		if same {
			n.env[r] = v
			continue
		}
		if m, ok := x.mergeCells(n, r, conds, vs, es); ok {
			n.env[r] = m
			continue
		}
		if m, ok := x.tryMergeV(conds, vs, es); ok {
			n.env[r] = m
		}
	}
	return n
}

// mergeCells: a local variable of an unrolled loop body, left from different iterations. Registers
// holding addresses inside it do not survive the merge, so the new cell has no aliases.
func (x *Exec) mergeCells(n *State, r ssa.Value, conds []*Term, vs []V, es []edge) (V, bool) {
	a, ok := r.(*ssa.Alloc)
	if !ok {
		return V{}, false
	}
	for _, u := range *a.Referrers() {
		if _, ok := u.(*ssa.MakeClosure); ok {
			return V{}, false
		}
	}
	for _, v := range vs {
		if v.addr == nil || v.addr.kind != aKey || len(v.addr.path) > 0 || !strings.HasPrefix(v.addr.key, "c:") {
			return V{}, false
		}
	}
	last := len(vs) - 1
	t := x.get(es[last].st, vs[last].addr.key)
	for i := last - 1; i >= 0; i-- {
		t = Ite(conds[i], x.get(es[i].st, vs[i].addr.key), t)
	}
	id := x.newCell(n, t.sort, t)
	return V{addr: &Addr{kind: aKey, key: cellKey(id), typ: vs[last].addr.typ}, typ: vs[last].typ}, true
}

func sameV(a, b V) bool {
	if a.t != b.t || a.cell != b.cell || len(a.tup) != len(b.tup) || a.addr != b.addr || a.iter != b.iter {
		return false
	}
	for i := range a.tup {
		if !sameV(a.tup[i], b.tup[i]) {
			return false
		}
	}
	return true
}

func discriminators(pcs []*Term) []*Term {
	common := map[*Term]int{}
	for _, p := range pcs {
		for _, c := range conj(p) {
			common[c]++
		}
	}
	out := make([]*Term, len(pcs))
	for i, p := range pcs {
		var cs []*Term
		for _, c := range conj(p) {
			if common[c] < len(pcs) {
				cs = append(cs, c)
			}
		}
		out[i] = And(cs...)
	}
	return out
}

func (x *Exec) namePC(p *Term) *Term {
	if p.op == "or" {
		// size-limit: name it
		r := Fresh("R", SBool)
		x.facts = append(x.facts, Eq(r, p))
		return r
	}
	return p
}

func (x *Exec) tryMergeV(conds []*Term, vs []V, es []edge) (v V, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(unsupported); is {
				ok = false
				return
			}
			panic(r)
		}
	}()
	return x.mergeV(conds, vs, es), true
}

func (x *Exec) mergeV(conds []*Term, vs []V, es []edge) V {
	same := true
	for _, v := range vs[1:] {
		if !sameV(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if len(vs[0].tup) > 0 {
		out := V{typ: vs[0].typ}
		for i := range vs[0].tup {
			var ws []V
			for _, v := range vs {
				ws = append(ws, v.tup[i])
			}
			out.tup = append(out.tup, x.mergeV(conds, ws, es))
		}
		return out
	}
	if vs[0].iter != nil {
		unsup("merging iterators")
	}
	n := len(vs)
	t := x.term(es[n-1].st, vs[n-1])
	for i := n - 2; i >= 0; i-- {
		t = Ite(conds[i], x.term(es[i].st, vs[i]), t)
	}
	return V{t: t, typ: vs[0].typ}
}

// ---- control flow

func (x *Exec) newFrame(fn *ssa.Function) *frame {
	f := &frame{fn: fn, loops: map[*ssa.BasicBlock]*loop{}, inLoops: map[*ssa.BasicBlock][]*loop{}}
	// RPO
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	onStack := map[*ssa.BasicBlock]bool{}
	type be struct{ from, to *ssa.BasicBlock }
	var backs []be
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		onStack[b] = true
		// visit in reverse so that RPO follows source order
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if onStack[s] {
				backs = append(backs, be{b, s})
				continue
			}
			if !seen[s] {
				dfs(s)
			}
		}
		onStack[b] = false
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		f.order = append(f.order, post[i])
	}
	for _, e := range backs {
		if !e.to.Dominates(e.from) {
			unsup("irreducible control flow in %s", fn)
		}
		l := f.loops[e.to]
		if l == nil {
			l = &loop{header: e.to, blocks: map[*ssa.BasicBlock]bool{e.to: true}}
			f.loops[e.to] = l
		}
		var add func(b *ssa.BasicBlock)
		add = func(b *ssa.BasicBlock) {
			if l.blocks[b] || !seen[b] {
				return
			}
			l.blocks[b] = true
			for _, p := range b.Preds {
				add(p)
			}
		}
		add(e.from)
	}
	for _, b := range f.order {
		for _, l := range f.loops {
			if l.blocks[b] {
				f.inLoops[b] = append(f.inLoops[b], l)
			}
		}
		sort.Slice(f.inLoops[b], func(i, j int) bool { return len(f.inLoops[b][i].blocks) > len(f.inLoops[b][j].blocks) })
	}
	for _, l := range f.loops {
		for _, b := range f.order {
			if l.blocks[b] {
				l.order = append(l.order, b)
			}
		}
	}
	return f
}

const maxDepth = 14

// execFn runs fn on args from st; returns merged results and state (nil state if no normal return).
func (x *Exec) execFn(fn *ssa.Function, args []V, binds []V, st *State, spec *FuncSpec) (V, *State) {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	if x.depth >= maxDepth {
		unsup("inlining too deep at %s", fn)
	}
	for _, fr := range x.stack {
		if fr.fn == fn {
			unsup("recursive inlining of %s", fn)
		}
	}
	x.depth++
	defer func() { x.depth-- }()
	x.inlined[fn.String()] = true
	f := x.newFrame(fn)
	f.binds = binds
	f.spec = spec
	callerEnv := st.env
	s := st.withStore(map[ssa.Value]V{})
	f.params = map[string]SV{}
	for i, p := range fn.Params {
		a := args[i]
		a.typ = p.Type()
		s.env[p] = a
		if a.addr == nil {
			f.params[p.Name()] = SV{v: &a, typ: p.Type()}
		}
	}
	for i, fv := range fn.FreeVars {
		s.env[fv] = binds[i]
	}
	f.entry = s.clone()
	x.stack = append(x.stack, f)
	x.runRegion(f, f.order, nil, map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{nil, fn.Blocks[0], s}}})
	x.stack = x.stack[:len(x.stack)-1]
	if len(f.rets) == 0 {
		return V{}, nil
	}
	var es []edge
	for _, r := range f.rets {
		es = append(es, edge{st: r.st})
	}
	var pcs []*Term
	for _, r := range f.rets {
		pcs = append(pcs, r.st.pc)
	}
	conds := discriminators(pcs)
	for _, e := range es {
		e.st.env = callerEnvRef
	}
	out := x.mergeStates(es)
	nres := fn.Signature.Results().Len()
	var vals []V
	for i := 0; i < nres; i++ {
		var vs []V
		for _, r := range f.rets {
			vs = append(vs, r.res[i])
		}
		m := x.mergeV(conds, vs, es)
		m.typ = fn.Signature.Results().At(i).Type()
		vals = append(vals, m)
	}
	out.env = callerEnv
	switch nres {
	case 0:
		return V{typ: fn.Signature.Results()}, out
	case 1:
		return vals[0], out
	}
	return V{tup: vals, typ: fn.Signature.Results()}, out
}

var callerEnvRef = map[ssa.Value]V{}

func (x *Exec) runRegion(f *frame, order []*ssa.BasicBlock, cur *loop, in map[*ssa.BasicBlock][]edge) (back, exits []edge) {
	skip := map[*ssa.BasicBlock]bool{}
	region := map[*ssa.BasicBlock]bool{}
	for _, b := range order {
		region[b] = true
	}
	deliver := func(e edge) {
		if e.st.pc == TFalse {
			return
		}
		if cur != nil && e.to == cur.header {
			back = append(back, e)
			return
		}
		if !region[e.to] {
			exits = append(exits, e)
			return
		}
		in[e.to] = append(in[e.to], e)
	}
	for _, b := range order {
		if skip[b] {
			continue
		}
		es := in[b]
		if l := f.loops[b]; l != nil && (cur == nil || b != cur.header) {
			for lb := range l.blocks {
				skip[lb] = true
			}
			if len(es) == 0 {
				continue
			}
			for _, e := range x.runLoop(f, l, es) {
				deliver(e)
			}
			continue
		}
		if len(es) == 0 {
			continue
		}
		var st *State
		if cur != nil && b == cur.header {
			st = es[0].st // prepared by runLoop, phis set
		} else {
			st = x.enter(b, es)
		}
		for _, e := range x.execBlock(f, b, st) {
			deliver(e)
		}
	}
	return
}

// enter merges incoming edges and evaluates phis.
func (x *Exec) enter(b *ssa.BasicBlock, es []edge) *State {
	if len(es) == 1 && es[0].from == nil {
		return es[0].st
	}
	var pcs []*Term
	for _, e := range es {
		pcs = append(pcs, e.st.pc)
	}
	conds := discriminators(pcs)
	phis := map[*ssa.Phi]V{}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []V
		for _, e := range es {
			vs = append(vs, x.phiVal(phi, e))
		}
		m := x.mergeV(conds, vs, es)
		m.typ = phi.Type()
		phis[phi] = m
	}
	st := x.mergeStates(es)
	for p, v := range phis {
		st.env[p] = v
	}
	return st
}

func (x *Exec) phiVal(phi *ssa.Phi, e edge) V {
	for i, p := range phi.Block().Preds {
		if p == e.from {
			return x.val(e.st, phi.Edges[i])
		}
	}
	panic("phi edge not found")
}

type cand struct {
	t    *Term // over header symbols
	name string
	user bool
	tags []string
	key  string // heap map a frame candidate is about
}

type snap struct {
	facts, obls, cellN, freshN int
	clN                        int64
}

func (x *Exec) snapshot() snap { return snap{len(x.facts), len(x.obls), x.cellN, freshN, x.clN} }
func (x *Exec) rollback(s snap) {
	x.facts = x.facts[:s.facts:s.facts]
	x.obls = x.obls[:s.obls]
	x.cellN = s.cellN
	freshN = s.freshN
	x.clN = s.clN
}

func (x *Exec) runLoop(f *frame, l *loop, es []edge) []edge {
	h := l.header
	st0 := x.enter(h, es)
	// 1. concrete trip count -> unroll
	if out, ok := x.tryUnroll(f, l, st0); ok {
		return out
	}
	// 2. invariants
	var phis []*ssa.Phi
	for _, ins := range h.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	havoc := map[string]bool{}
	fixedPhi := map[*ssa.Phi]bool{}
	for _, p := range phis {
		// phi carrying an address or an unmergeable constant value stays fixed if unchanged
		if st0.env[p].addr != nil || st0.env[p].iter != nil {
			fixedPhi[p] = true
		}
	}
	sn := x.snapshot()
	mkHeader := func() (*State, map[*Term]func(edge) *Term) {
		st := st0.clone()
		syms := map[*Term]func(edge) *Term{}
		var ks []string
		for k := range havoc {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			k := k
			n := Fresh("L:"+k, x.keySort(k))
			st.m[k] = n
			syms[n] = func(e edge) *Term { return x.get(e.st, k) }
		}
		if havoc[allocKey] {
			x.Assume(TTrue, Le(x.get(st0, allocKey), st.m[allocKey]))
		}
		for _, p := range phis {
			p := p
			if fixedPhi[p] {
				continue
			}
			n := Fresh("L:"+p.Comment, sortOf(p.Type()))
			x.wf(st, n, p.Type())
			st.env[p] = V{t: n, typ: p.Type()}
			syms[n] = func(e edge) *Term {
				if e.from == nil {
					return x.term(e.st, e.st.env[p])
				}
				return x.term(e.st, x.phiVal(p, e))
			}
		}
		return st, syms
	}
	run := func(st *State) (back, exits []edge) {
		return x.runRegion(f, l.order, l, map[*ssa.BasicBlock][]edge{h: {{nil, h, st}}})
	}
	// modified set
	x.quiet++
	x.noInv++
	for iter := 0; ; iter++ {
		if iter > 20 {
			unsup("modified-set iteration does not converge")
		}
		sn2 := x.snapshot()
		st, _ := mkHeader()
		hm := st.m
		back, _ := run(st.clone())
		changed := false
		for _, e := range back {
			for k, t := range e.st.m {
				if havoc[k] {
					continue
				}
				var b *Term
				if v, ok := hm[k]; ok {
					b = v
				} else if strings.HasPrefix(k, "c:") || strings.HasPrefix(k, "it:") {
					continue // allocated inside the loop
				} else {
					b = Sym(k+"@0", x.keySort(k))
				}
				if b != t {
					havoc[k] = true
					changed = true
				}
			}
			for _, p := range phis {
				if fixedPhi[p] && !sameV(x.phiVal(p, e), st0.env[p]) {
					unsup("loop-carried address in %s", f.fn)
				}
			}
		}
		if !changed {
			known := map[string]bool{}
			for _, t := range st0.m {
				for s := range symsOf(t) {
					known[s] = true
				}
			}
			for _, v := range st0.env {
				if v.t != nil {
					for s := range symsOf(v.t) {
						known[s] = true
					}
				}
			}
			l.stored = map[string][]*Term{}
			for _, e := range back {
				for k := range havoc {
					if t, ok := e.st.m[k]; ok {
						l.stored[k] = storedAt(t, known, l.stored[k], map[*Term]bool{})
					}
				}
			}
		}
		x.rollback(sn2)
		if !changed {
			break
		}
	}
	x.noInv--
	x.quiet--
	_ = sn

	entry := edge{nil, h, st0}
	if x.noInv > 0 {
		st, _ := mkHeader()
		_, exits := run(st)
		return exits
	}

	// candidates
	sn3 := x.snapshot()
	st, syms := mkHeader()
	var cands []cand
	cands = append(cands, x.autoCands(f, l, st0, st, havoc, phis, fixedPhi)...)
	// upper bounds from header condition
	x.quiet++
	x.noInv++
	{
		sn4 := x.snapshot()
		if c := x.headerCond(f, l, st.clone()); c != nil {
			cands = append(cands, x.boundCands(c)...)
		}
		x.rollback(sn4)
	}
	x.noInv--
	x.quiet--
	cands = append(cands, x.userCands(f, l, st, havoc, phis, fixedPhi)...)

	subst := func(t *Term, e edge) *Term {
		m := map[*Term]*Term{}
		for s, g := range syms {
			m[s] = g(e)
		}
		return Subst(t, m)
	}
	// initiation
	{
		var goals []*Term
		for _, c := range cands {
			goals = append(goals, Implies(st0.pc, subst(c.t, entry)))
		}
		res := x.checkMany(goals, func(i int) int { return i }, func(i int) string { return "init " + cands[i].name })
		var keep []cand
		for i, c := range cands {
			if res[i] {
				keep = append(keep, c)
			} else if x.v.debug {
				fmt.Printf("  [inv] initiation fails: %s\n", c.name)
			}
		}
		cands = keep
	}
	// consecution (Houdini)
	for {
		sn5 := x.snapshot()
		x.quiet++
		for _, c := range cands {
			x.Assume(st.pc, c.t)
		}
		back, _ := run(st.clone())
		x.quiet--
		// a frame candidate cannot survive a body that replaces the whole map
		{
			var keep []cand
			for _, c := range cands {
				ok := true
				if c.key != "" {
					for _, e := range back {
						if !rootsIn(x.get(e.st, c.key), map[*Term]bool{st.m[c.key]: true, x.get(st0, c.key): true}) {
							ok = false
						}
					}
				}
				if ok {
					keep = append(keep, c)
				} else if x.v.debug {
					fmt.Printf("  [inv] dropped: %s\n", c.name)
				}
			}
			if len(keep) < len(cands) {
				cands = keep
				x.rollback(sn5)
				continue
			}
		}
		var goals []*Term
		var idx []int
		for i, c := range cands {
			for _, e := range back {
				goals = append(goals, Implies(e.st.pc, subst(c.t, e)))
				idx = append(idx, i)
			}
		}
		res := x.checkMany(goals, func(i int) int { return idx[i] }, func(i int) string { return "step " + cands[idx[i]].name })
		bad := map[int]bool{}
		for k, ok := range res {
			if !ok {
				bad[idx[k]] = true
			}
		}
		x.rollback(sn5)
		if len(bad) == 0 {
			x.v.invChecked += len(goals)
			break
		}
		var keep []cand
		for i, c := range cands {
			if !bad[i] {
				keep = append(keep, c)
			} else if x.v.debug {
				fmt.Printf("  [inv] not preserved: %s\n", c.name)
			}
		}
		cands = keep
	}
	_ = sn3
	for _, c := range cands {
		x.Assume(st.pc, c.t)
		if x.v.debug && x.quiet == 0 && c.user {
			fmt.Printf("  [inv] kept: %s\n", c.name)
		}
	}
	_, exits := run(st)
	return exits
}

func (x *Exec) tryUnroll(f *frame, l *loop, st0 *State) ([]edge, bool) {
	h := l.header
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return nil, false
	}
	lit := func(st *State) bool {
		x.quiet++
		sn := x.snapshot()
		c := x.headerCond(f, l, st.clone())
		x.rollback(sn)
		x.quiet--
		return c != nil && (c == TTrue || c == TFalse)
	}
	if !lit(st0) {
		return nil, false
	}
	sn := x.snapshot()
	var out []edge
	st := st0
	for n := 0; n < 80; n++ {
		if !lit(st) {
			x.rollback(sn)
			return nil, false
		}
		back, exits := x.runRegion(f, l.order, l, map[*ssa.BasicBlock][]edge{h: {{nil, h, st.clone()}}})
		out = append(out, exits...)
		if len(back) == 0 {
			return out, true
		}
		st = x.enter(h, back)
	}
	x.rollback(sn)
	return nil, false
}

// headerCond executes the header block and returns the branch condition term.
func (x *Exec) headerCond(f *frame, l *loop, st *State) (c *Term) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				c = nil
				return
			}
			panic(r)
		}
	}()
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	for _, ins := range h.Instrs[:len(h.Instrs)-1] {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		st = x.instr(f, st, ins)
		if st == nil {
			return nil
		}
	}
	return x.term(st, x.val(st, iff.Cond))
}

func (x *Exec) boundCands(c *Term) []cand {
	var out []cand
	for _, k := range conj(c) {
		// i < n is represented as not (n <= i)
		if k.op == "not" && k.args[0].op == "<=" {
			n, i := k.args[0].args[0], k.args[0].args[1]
			out = append(out, cand{t: Le(i, n), name: "auto upper bound"})
		} else if k.op == "<=" {
			out = append(out, cand{t: Le(k.args[0], Add(k.args[1], Int(1))), name: "auto upper bound"})
		}
	}
	return out
}

func (x *Exec) autoCands(f *frame, l *loop, st0, st *State, havoc map[string]bool, phis []*ssa.Phi, fixed map[*ssa.Phi]bool) []cand {
	var out []cand
	for _, p := range phis {
		if fixed[p] {
			continue
		}
		b, ok := p.Type().Underlying().(*types.Basic)
		if ok && b.Info()&types.IsInteger != 0 {
			e := x.term(st0, st0.env[p])
			out = append(out, cand{t: Le(e, st.env[p].t), name: "auto lower bound " + p.Comment})
		}
		if pt, ok := p.Type().Underlying().(*types.Slice); ok && !isByte(pt.Elem()) {
			_ = pt
		}
	}
	x.declare(allocKey, SInt)
	var ks []string
	for k := range havoc {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "g:") && st.m[k] != nil && st.m[k].sort.Kind == "Array" {
			r := BVar("r?"+k, st.m[k].sort.Key)
			sel := Select(st.m[k], r)
			g := TTrue
			for _, i := range l.stored[k] {
				g = And(g, Neq(r, i))
			}
			out = append(out, cand{t: Forall([]*Term{r}, Implies(g, Eq(sel, Select(x.get(st0, k), r))), []*Term{sel}), name: "auto frame " + k, key: k})
			continue
		}
		if !(strings.HasPrefix(k, "h:") || strings.HasPrefix(k, "p:") || strings.HasPrefix(k, "md:") || strings.HasPrefix(k, "mv:")) {
			continue
		}
		r := BVar("r?"+k, SInt)
		hn, ho := st.m[k], x.get(st0, k)
		sel := Select(hn, r)
		out = append(out, cand{t: Forall([]*Term{r}, Implies(Le(r, x.get(st0, allocKey)), Eq(sel, Select(ho, r))), []*Term{sel}), name: "auto frame " + k, key: k})
		if x.pre != nil && x.get(x.pre, allocKey) != x.get(st0, allocKey) {
			out = append(out, cand{t: Forall([]*Term{r}, Implies(Le(r, x.get(x.pre, allocKey)), Eq(sel, Select(x.get(x.pre, k), r))), []*Term{sel}), name: "auto frame since entry " + k, key: k})
		}
		if x.pre != nil && len(x.modParams) > 0 && strings.HasPrefix(k, "m") {
			g := Le(r, x.get(x.pre, allocKey))
			for _, i := range x.modParams[k] {
				g = And(g, Neq(r, i))
			}
			out = append(out, cand{t: Forall([]*Term{r}, Implies(g, Eq(sel, Select(x.get(x.pre, k), r))), []*Term{sel}), name: "auto frame by contract " + k, key: k})
		}
		if ix := l.stored[k]; len(ix) > 0 {
			g := Le(r, x.get(st0, allocKey))
			for _, i := range ix {
				g = And(g, Neq(r, i))
			}
			out = append(out, cand{t: Forall([]*Term{r}, Implies(g, Eq(sel, Select(ho, r))), []*Term{sel}), name: "auto frame except " + k, key: k})
		}
	}
	return out
}

// storedAt collects the indices of stores in a store/ite tree that mention only known symbols.
func storedAt(t *Term, known map[string]bool, out []*Term, seen map[*Term]bool) []*Term {
	for n := 0; n < 10000 && !seen[t]; n++ {
		seen[t] = true
		switch t.op {
		case "store":
			i := t.args[1]
			ok := true
			for s := range symsOf(i) {
				ok = ok && (known[s] || strings.HasSuffix(s, "@0") || strings.HasPrefix(s, "in:"))
			}
			if ok && !slices.Contains(out, i) {
				out = append(out, i)
			}
			t = t.args[0]
			continue
		case "ite":
			out = storedAt(t.args[1], known, out, seen)
			t = t.args[2]
			continue
		}
		break
	}
	return out
}

// rootsIn: every array at the bottom of a store/ite tree is one of the given ones.
func rootsIn(t *Term, ok map[*Term]bool) bool {
	for n := 0; n < 10000; n++ {
		if ok[t] {
			return true
		}
		switch t.op {
		case "store":
			t = t.args[0]
			continue
		case "ite":
			return rootsIn(t.args[1], ok) && rootsIn(t.args[2], ok)
		case "sym":
			return !strings.HasPrefix(t.name, "mod:")
		}
		return true
	}
	return true
}

// checkMany asks the solvers whether each goal follows from the current facts. Goals with the same group are needed
// together: once one of them is not proved the rest of the group is abandoned.
func (x *Exec) checkMany(goals []*Term, group func(int) int, name func(int) string) []bool {
	res := make([]bool, len(goals))
	type job struct {
		i    int
		body string
	}
	var jobs []job
	failed := map[int]bool{}
	var mu sync.Mutex
	for i, g := range goals {
		if g == TTrue {
			res[i] = true
			continue
		}
		x.houdini++
		var fs []*Term
		if strings.Contains(name(i), " auto frame ") {
			// frames rarely hinge on text
			if fs = x.v.slim(x.facts, g); fs == nil {
				failed[group(i)] = true
				continue
			}
		} else {
			fs = x.v.query(x.facts, g)
		}
		body := Script(fs, "")
		x.v.mu.Lock()
		r, ok := x.v.invCache[body]
		x.v.mu.Unlock()
		if ok {
			res[i] = r
			if !r {
				failed[group(i)] = true
			}
			continue
		}
		jobs = append(jobs, job{i, body})
	}
	// candidates the verifier makes itself are tried briefly; what a contract states gets a third attempt
	for pass, ms := range []int{700, x.v.invMS, 4 * x.v.invMS} {
		last := func(i int) bool { return pass == 2 || pass == 1 && strings.Contains(name(i), " auto ") }
		var next []job
		done := make(chan struct{}, len(jobs))
		sem := make(chan struct{}, 8)
		for _, j := range jobs {
			go func(j job) {
				sem <- struct{}{}
				defer func() { <-sem; done <- struct{}{} }()
				gr := group(j.i)
				mu.Lock()
				skip := failed[gr]
				mu.Unlock()
				if skip {
					return
				}
				t0 := time.Now()
				which := []int{0}
				if strings.Contains(j.body, "str.") {
					which = []int{0, 2}
				}
				slim := strings.Contains(name(j.i), " auto frame ")
				if pass > 0 || slim {
					which = []int{0, 1, 2}
				}
				r := SolveText(j.body, ms, which, false)
				if d := os.Getenv("GOCV_INVDUMP"); d != "" {
					os.WriteFile(fmt.Sprintf("%s/%d-%s-%d-%s.smt2", d, time.Now().UnixMilli()%1000000, r.Status, j.i, strings.Map(func(r rune) rune {
						if r < 'A' || r > 'z' {
							return '_'
						}
						return r
					}, name(j.i)[:min(60, len(name(j.i)))])), []byte(j.body), 0o644)
				}
				if x.v.debug {
					if d := time.Since(t0).Seconds(); d > 1 {
						fmt.Printf("  [slow] %s %.1fs %s (%s)\n", r.Status, d, name(j.i), r.Tag)
					}
				}
				mu.Lock()
				defer mu.Unlock()
				if r.Status == "unsat" {
					res[j.i] = true
				} else if last(j.i) || slim || r.Status == "sat" {
					failed[gr] = true
				} else {
					next = append(next, j)
					return
				}
				x.v.mu.Lock()
				x.v.invCache[j.body] = res[j.i]
				x.v.mu.Unlock()
			}(j)
		}
		for range jobs {
			<-done
		}
		sort.Slice(next, func(a, b int) bool { return next[a].i < next[b].i })
		if pass == 1 {
			// no more attempts for a reading of an invariant when another reading of it holds
			pending := map[int]bool{}
			for _, j := range next {
				pending[group(j.i)] = true
			}
			holds := map[string]bool{}
			for i := range goals {
				if g := group(i); !failed[g] && !pending[g] {
					holds[name(i)] = true
				}
			}
			keep := next[:0]
			for _, j := range next {
				if holds[name(j.i)] {
					failed[group(j.i)] = true
				} else {
					keep = append(keep, j)
				}
			}
			next = keep
		}
		jobs = nil
		for _, j := range next {
			gr := group(j.i)
			if failed[gr] {
				continue
			}
			// path by path
			if bs := x.v.splitBodies(x.facts, goals[j.i]); len(bs) > 0 && proveAll(bs, []int{2500, 4000, 17500}[pass], nil) {
				res[j.i] = true
				x.v.mu.Lock()
				x.v.invCache[j.body] = true
				x.v.mu.Unlock()
				continue
			}
			jobs = append(jobs, j)
		}
	}
	return res
}

func (x *Exec) execBlock(f *frame, b *ssa.BasicBlock, st *State) []edge {
	for i, ins := range b.Instrs {
		switch t := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.term(st, x.val(st, t.Cond))
			base := st.pc
			pt, pf := And(base, c), And(base, Not(c))
			var out []edge
			if pt != TFalse {
				s := st.clone()
				s.pc = pt
				out = append(out, edge{b, b.Succs[0], s})
			}
			if pf != TFalse {
				st.pc = pf
				out = append(out, edge{b, b.Succs[1], st})
			}
			return out
		case *ssa.Jump:
			return []edge{{b, b.Succs[0], st}}
		case *ssa.Return:
			var rs []V
			for _, r := range t.Results {
				v := x.val(st, r)
				rs = append(rs, v)
			}
			f.rets = append(f.rets, retEdge{st, rs, t.Pos()})
			return nil
		case *ssa.Panic:
			if !x.noBound {
				x.Oblige(st, "panic", fmt.Sprintf("%s#panic-unreachable", x.fn.Name()), TFalse, t.Pos(), nil)
			}
			return nil
		default:
			_ = i
			st = x.instr(f, st, ins)
			if st == nil || st.pc == TFalse {
				return nil
			}
		}
	}
	return nil
}

// val evaluates an SSA operand.
func (x *Exec) val(st *State, v ssa.Value) V {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Global:
		return V{addr: &Addr{kind: aKey, key: x.globalKey(c), typ: c.Type().(*types.Pointer).Elem()}, typ: c.Type()}
	case *ssa.Function:
		return x.fnVal(&FnVal{fn: c}, c.Type(), c.String())
	case *ssa.Builtin:
		return V{typ: c.Type()}
	}
	r, ok := st.env[v]
	if !ok {
		if os.Getenv("GOCV_PANIC") != "" {
			debug.PrintStack()
		}
		unsup("undefined register %s in %s", v.Name(), v.Parent())
	}
	return r
}

var fnIDs = map[string]int64{}

func (x *Exec) fnVal(f *FnVal, typ types.Type, key string) V {
	var id int64
	if key != "" {
		var ok bool
		id, ok = fnIDs[key]
		if !ok {
			id = int64(5000000 + len(fnIDs))
			fnIDs[key] = id
		}
	} else {
		x.clN++
		id = 6000000 + x.clN
	}
	x.clos[id] = f
	return V{t: Int(id), typ: typ}
}

func (x *Exec) constVal(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return V{t: zeroOf(t), typ: t}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return V{t: Bool(constant.BoolVal(c.Value)), typ: t}
	case constant.String:
		return V{t: Str(constant.StringVal(c.Value)), typ: t}
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return V{t: Sym("float:"+c.Value.ExactString(), SUnint("Float")), typ: t}
		}
		bi, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsup("const %s", c)
		}
		return V{t: BigInt(bi), typ: t}
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			if i, ok := constant.Val(constant.ToInt(c.Value)).(int64); ok {
				return V{t: Int(i), typ: t}
			}
		}
		return V{t: Sym("float:"+c.Value.ExactString(), SUnint("Float")), typ: t}
	}
	unsup("const %s", c)
	return V{}
}
