package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Verifier struct {
	fset          *token.FileSet
	repo          string
	start         time.Time
	budget        time.Duration
	prog          *ssa.Program
	pkgs          map[string]*ssa.Package // by path
	tpkgs         map[string]*types.Package
	specs         *SpecFile
	debug         bool
	prop          string
	refGhosts     []string // per-object ghost attributes
	invMS         int
	unfold        int // how often recursive specifications are unfolded
	ms            int
	invCache      map[string]bool
	allSorts      map[string]*Sort
	invChecked    int
	mu            sync.Mutex
	usedContracts map[string]bool
	recFoot       map[string][]string
	recBusy       map[string]bool
	recDefs       map[string]*recDef
	typeCache     map[string]types.Type
	gconst        map[*ssa.Global]*Term
	gdone         map[*ssa.Global]bool
	gstores       map[*ssa.Global]int // stores outside init, or address taken
	ginit         map[*ssa.Global]ssa.Value
	lallocs       map[*ssa.Alloc]bool
	byKey         map[string]*ssa.Function
}

func NewVerifier(repo, contracts, prop string) (*Verifier, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Env: os.Environ()}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	v := &Verifier{repo: repo, prog: prog, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{}, fset: prog.Fset,
		invMS: 4000, unfold: 3, ms: 20000, invCache: map[string]bool{}, allSorts: map[string]*Sort{}, usedContracts: map[string]bool{}, recFoot: map[string][]string{}, recBusy: map[string]bool{}, recDefs: map[string]*recDef{}, typeCache: map[string]types.Type{}, gconst: map[*ssa.Global]*Term{}, gdone: map[*ssa.Global]bool{}, gstores: map[*ssa.Global]int{}, ginit: map[*ssa.Global]ssa.Value{}, lallocs: map[*ssa.Alloc]bool{}, byKey: map[string]*ssa.Function{}}
	var addT func(p *types.Package)
	addT = func(p *types.Package) {
		if _, ok := v.tpkgs[p.Path()]; ok {
			return
		}
		v.tpkgs[p.Path()] = p
		for _, i := range p.Imports() {
			addT(i)
		}
	}
	for _, p := range pkgs {
		if p == nil {
			continue
		}
		p.Build()
		v.pkgs[p.Pkg.Path()] = p
		addT(p.Pkg)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && v.pkgs[fn.Pkg.Pkg.Path()] == fn.Pkg && fn.Origin() == nil {
			if fn.Synthetic == "" || fn.Name() == "init" {
				v.byKey[fn.Pkg.Pkg.Path()+"."+fn.RelString(fn.Pkg.Pkg)] = fn
			}
			v.scanGlobals(fn)
		}
	}
	v.specs, err = LoadSpecs(contracts)
	if err != nil {
		return nil, err
	}
	v.prop = prop
	for n, g := range v.specs.Ghosts {
		if strings.HasPrefix(g.Type, "fun[ref]") && v.ghostOn(g) {
			v.refGhosts = append(v.refGhosts, n)
		}
	}
	sort.Strings(v.refGhosts)
	return v, nil
}

func (v *Verifier) scanGlobals(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var ops [12]*ssa.Value
			for _, o := range ins.Operands(ops[:0]) {
				g, ok := (*o).(*ssa.Global)
				if !ok {
					continue
				}
				switch t := ins.(type) {
				case *ssa.UnOp:
					continue
				case *ssa.Store:
					if t.Addr == g && fn.Name() == "init" && fn.Synthetic != "" {
						v.ginit[g] = t.Val
						continue
					}
				}
				v.gstores[g]++
			}
		}
	}
}

// globalConst: value of a package-level variable that is never assigned after initialisation.
func (v *Verifier) globalConst(x *Exec, g *ssa.Global) *Term {
	if v.gdone[g] {
		return v.gconst[g]
	}
	v.gdone[g] = true
	typ := g.Type().(*types.Pointer).Elem()
	path := g.Pkg.Pkg.Path() + "." + g.Name()
	inMod := v.pkgs[g.Pkg.Pkg.Path()] != nil
	var t *Term
	if typeKey(typ) == "error" && (!inMod || v.gstores[g] == 0) {
		t = errGlobal(path)
	} else if inMod && v.gstores[g] == 0 {
		if c, ok := v.ginit[g].(*ssa.Const); ok {
			t = x.constVal(c).t
		} else if v.ginit[g] != nil {
			switch typ.Underlying().(type) {
			case *types.Pointer, *types.Interface, *types.Signature:
				if f, ok := v.ginit[g].(*ssa.Function); ok {
					t = x.fnVal(&FnVal{fn: f}, typ, f.String()).t
				} else {
					t = Int(-int64(900000 + len(v.gdone)))
					globName[t] = path
				}
			case *types.Map:
				t = Sym("glob:"+path, SInt)
			default:
				t = Sym("glob:"+path, sortOf(typ))
			}
		} else {
			t = zeroOf(typ)
		}
	} else if !inMod {
		switch typ.Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Signature:
			t = Int(-int64(900000 + len(v.gdone)))
			globName[t] = path
		default:
			t = Sym("glob:"+path, sortOf(typ))
		}
		x.note("package variable %s of a dependency is treated as constant", path)
	}
	v.gconst[g] = t
	return t
}

var globName = map[*Term]string{}

var errIDs = map[string]int64{}
var errNames = map[string]string{}
var errAlias = map[string]string{
	"os.ErrNotExist": "io/fs.ErrNotExist", "os.ErrExist": "io/fs.ErrExist", "os.ErrPermission": "io/fs.ErrPermission", "os.ErrInvalid": "io/fs.ErrInvalid", "os.ErrClosed": "io/fs.ErrClosed",
	"internal/oserror.ErrNotExist": "io/fs.ErrNotExist",
}

func errGlobal(path string) *Term {
	if a, ok := errAlias[path]; ok {
		path = a
	}
	id, ok := errIDs[path]
	if !ok {
		id = -int64(1000 + len(errIDs))
		errIDs[path] = id
	}
	return Int(id)
}

// errIs(e, target): errors.Is.
func (x *Exec) errIs(st *State, e, target *Term) *Term {
	if e == target {
		return TTrue
	}
	if e.op == "ite" {
		return Ite(e.args[0], x.errIs(st, e.args[1], target), x.errIs(st, e.args[2], target))
	}
	if target == Int(0) {
		return Eq(e, target)
	}
	if e.op == "int" && target.op == "int" {
		return TFalse
	}
	if ws, ok := x.errW[e]; ok {
		out := Eq(e, target)
		for _, w := range ws {
			out = Or(out, x.errIs(st, w, target))
		}
		return out
	}
	if bi, ok := x.boxOf[e]; ok {
		// *fs.PathError and friends unwrap to their Err field
		if pt, ok := bi.typ.Underlying().(*types.Pointer); ok {
			if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if s.Field(i).Name() == "Err" && isInterface(s.Field(i).Type()) {
						return Or(Eq(e, target), x.errIs(st, Select(x.get(st, x.fieldKey(pt.Elem(), i)), bi.v), target))
					}
				}
			}
		}
	}
	return And(Neq(e, Int(0)), Or(Eq(e, target), App("errIs", SBool, e, target)))
}

func (v *Verifier) globalVar(c *types.Var) *ssa.Global {
	if c.Pkg() == nil {
		return nil
	}
	p := v.pkgs[c.Pkg().Path()]
	if p == nil {
		if p = v.prog.ImportedPackage(c.Pkg().Path()); p == nil {
			return nil
		}
	}
	return p.Var(c.Name())
}

func (v *Verifier) pkgOf(path string) *types.Package { return v.tpkgs[path] }

func (v *Verifier) importsOf(p *types.Package) []*types.Package { return p.Imports() }

func (v *Verifier) anyPkg(name string) *types.Package {
	var best *types.Package
	for _, k := range sortedKeys(v.tpkgs) {
		p := v.tpkgs[k]
		if p.Name() == name && (best == nil || len(p.Path()) < len(best.Path())) {
			best = p
		}
	}
	return best
}

func (v *Verifier) inModule(fn *ssa.Function) bool {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	p := fn.Pkg
	if p == nil && fn.Parent() != nil {
		return v.inModule(fn.Parent())
	}
	return p != nil && strings.HasPrefix(p.Pkg.Path()+"/", modPath)
}

func (v *Verifier) fnSpecKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path() + "." + fn.RelString(fn.Pkg.Pkg)
}

func (v *Verifier) specFor(fn *ssa.Function) *FuncSpec {
	if k := v.fnSpecKey(fn); k != "" {
		if s := v.specs.Funcs[k]; s != nil && v.frameKnown(s) {
			return s
		}
	}
	if s := v.specs.Funcs[fnKey(fn)]; s != nil && s.Lib {
		return s
	}
	return nil
}

// outside: for this property the contract is taken as it stands (opt outside Cxx ...); reported as an assumption.
func (s *FuncSpec) outside(prop string) bool {
	return prop != "" && hasTag(strings.Fields(s.Opts["outside"]), prop)
}

// frameKnown: what a contract says about the state tracked for this property is proved, here or by the check of
// another property that tracks at least as much. Otherwise the body is used instead of the contract.
func (v *Verifier) frameKnown(s *FuncSpec) bool {
	if v.prop == "" || s.Opts["trusted"] != "" || s.outside(v.prop) || len(s.Tags) == 0 || hasTag(s.Tags, v.prop) {
		return true
	}
	for _, t := range s.Tags {
		ok := true
		for _, g := range v.specs.Ghosts {
			if v.ghostOn(g) && len(g.Tags) > 0 && !hasTag(g.Tags, t) {
				ok = false
			}
		}
		if ok {
			return true
		}
	}
	return false
}

func (v *Verifier) funcByObj(fo *types.Func) *ssa.Function { return v.prog.FuncValue(fo) }

// localAlloc: the address never leaves the function other than through loads, stores and closures.
func (v *Verifier) localAlloc(a *ssa.Alloc) bool {
	if r, ok := v.lallocs[a]; ok {
		return r
	}
	r := addrLocal(a, map[ssa.Value]bool{})
	v.lallocs[a] = r
	return r
}

func addrLocal(a ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[a] {
		return true
	}
	seen[a] = true
	refs := a.Referrers()
	if refs == nil {
		return false
	}
	for _, r := range *refs {
		switch t := r.(type) {
		case *ssa.DebugRef:
		case *ssa.Store:
			if t.Val == a {
				return false
			}
		case *ssa.UnOp:
			if t.Op != token.MUL {
				return false
			}
		case *ssa.FieldAddr:
			if !addrLocal(t, seen) {
				return false
			}
		case *ssa.IndexAddr:
			if !addrLocal(t, seen) {
				return false
			}
		case *ssa.Slice:
			// snapshot semantics: fine for varargs arrays
		case *ssa.MakeClosure:
			for i, b := range t.Bindings {
				if b == a {
					if !addrLocal(t.Fn.(*ssa.Function).FreeVars[i], seen) {
						return false
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

// ---- query building

// query returns facts relevant to goal, the negated goal, unfoldings and axioms.
func (v *Verifier) query(facts []*Term, goal *Term) []*Term {
	fs := relevant(facts, Not(goal))
	fs = append(fs, Not(goal))
	// definitional unfolding of recursive spec functions
	done := map[*Term]bool{}
	for round := 0; round < v.unfold; round++ {
		var apps []*Term
		seen := map[*Term]bool{}
		for _, f := range fs {
			walk(f, seen, func(t *Term) {
				if t.op == "app" && strings.HasPrefix(t.name, "rec:") && !t.hasB && !done[t] {
					apps = append(apps, t)
				}
			})
		}
		if len(apps) == 0 || len(apps) > 400 {
			break
		}
		for _, a := range apps {
			done[a] = true
			d := v.recDefs[a.name]
			if d == nil {
				continue
			}
			m := map[*Term]*Term{}
			for i, p := range d.params {
				m[p] = a.args[i]
			}
			fs = append(fs, Eq(a, Subst(d.body, m)))
		}
	}
	fs = append(fs, axioms(fs)...)
	return fs
}

// slim is a weaker, cheaper form of query: strings are replaced by arbitrary values and recursive definitions are left
// out. What follows from it follows from query.
func (v *Verifier) slim(facts []*Term, goal *Term) []*Term {
	fs := relevant(facts, Not(goal))
	fs = append(fs, Not(goal))
	m := map[*Term]*Term{}
	var out []*Term
	for i, f := range fs {
		bad := false
		walk(f, map[*Term]bool{}, func(t *Term) {
			switch {
			case strings.HasPrefix(t.op, "str") || t.op == "app" && strings.HasPrefix(t.name, "rec:"):
				if t.hasB {
					bad = true
				} else if m[t] == nil {
					m[t] = Fresh("slim", t.sort)
				}
			}
		})
		if bad {
			if i == len(fs)-1 {
				return nil
			}
			continue
		}
		out = append(out, f)
	}
	c := map[*Term]*Term{}
	for i, f := range out {
		out[i] = substC(f, m, c)
	}
	return out
}

func symsOf(t *Term) map[string]bool {
	if s, ok := symCache[t]; ok {
		return s
	}
	s := map[string]bool{}
	walk(t, map[*Term]bool{}, func(u *Term) {
		if u.op == "sym" {
			s[u.name] = true
		}
	})
	symCache[t] = s
	return s
}

var symCache = map[*Term]map[string]bool{}

func relevant(facts []*Term, goal *Term) []*Term {
	in := map[string]bool{}
	for k := range symsOf(goal) {
		in[k] = true
	}
	used := make([]bool, len(facts))
	for changed := true; changed; {
		changed = false
		for i, f := range facts {
			if used[i] {
				continue
			}
			ss := symsOf(f)
			hit := len(ss) == 0
			for k := range ss {
				if in[k] && k != "alloc@0" {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for k := range ss {
					in[k] = true
				}
			}
		}
	}
	var out []*Term
	seen := map[*Term]bool{}
	for i, f := range facts {
		if used[i] && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

// ---- verification of one function

type FuncReport struct {
	Func    string   `json:"func"`
	Kind    string   `json:"kind"` // func, lemma
	Tags    []string `json:"tags"`
	Err     string   `json:"err,omitempty"`
	Obls    []*OblReport
	Assume  []string `json:"assumptions"`
	Inlined []string `json:"inlined"`
	InvQ    int      `json:"invariant_queries"`
	Vacuous bool     `json:"vacuous,omitempty"`
}

type OblReport struct {
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Pos    string   `json:"pos"`
	Tags   []string `json:"tags"`
	Status string   `json:"status"` // proved, refuted, undecided
	By     string   `json:"by,omitempty"`
	Secs   float64  `json:"secs"`
	Reason string   `json:"reason,omitempty"`
	Model  string   `json:"model,omitempty"`
}

func (v *Verifier) newExec(fn *ssa.Function) *Exec {
	return &Exec{v: v, fn: fn, clos: map[int64]*FnVal{}, assume: map[string]bool{}, sorts: map[string]*Sort{}, errW: map[*Term][]*Term{}, boxOf: map[*Term]boxInfo{}, inlined: map[string]bool{}, params: map[string]SV{}}
}

func hasTag(ts []string, t string) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

func (v *Verifier) verifyFunc(sp *FuncSpec, want string) (rep *FuncReport) {
	rep = &FuncReport{Func: sp.Pkg + "." + sp.Name, Kind: "func", Tags: sp.Tags}
	fn := v.byKey[sp.Pkg+"."+sp.Name]
	if fn == nil {
		rep.Err = "function not found in the current source"
		return rep
	}
	x := v.newExec(fn)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				rep.Err = "outside the verified subset: " + u.msg
			} else if os.Getenv("GOCV_PANIC") != "" {
				panic(r)
			} else {
				rep.Err = fmt.Sprintf("verifier internal error: %v", r)
			}
		}
		for k := range x.assume {
			rep.Assume = append(rep.Assume, k)
		}
		sort.Strings(rep.Assume)
		for k := range x.inlined {
			if k != fn.String() {
				rep.Inlined = append(rep.Inlined, k)
			}
		}
		sort.Strings(rep.Inlined)
		rep.InvQ = x.houdini
	}()
	x.spec = sp
	x.reveal = set(sp.Reveal)
	x.noBound = sp.Opts["nobounds"] != ""
	if n, err := strconv.Atoi(sp.Opts["unfold"]); err == nil {
		v.unfold = n
		defer func() { v.unfold = 3 }()
	}
	st := &State{pc: TTrue, env: map[ssa.Value]V{}, m: map[string]*Term{}}
	x.declare(allocKey, SInt)
	x.Assume(TTrue, Le(Int(0), Sym("alloc@0", SInt)))
	var args []V
	for _, p := range fn.Params {
		t := Sym("in:"+p.Name(), sortOf(p.Type()))
		x.wf(st, t, p.Type())
		if isInterface(p.Type()) {
			x.Assume(TTrue, Le(t, Sym("alloc@0", SInt))) // handed in, so it exists already
		}
		a := V{t: t, typ: p.Type()}
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			id := x.newCell(st, t.sort, t)
			a = V{cell: id, typ: p.Type()}
		}
		args = append(args, a)
	}
	var binds []V
	for _, fv := range fn.FreeVars {
		t := Sym("in:"+fv.Name(), sortOf(fv.Type()))
		el := deref(fv.Type())
		id := x.newCell(st, sortOf(el), Sym("fv:"+fv.Name(), sortOf(el)))
		_ = t
		x.wf(st, x.get(st, cellKey(id)), el)
		binds = append(binds, V{addr: &Addr{kind: aKey, key: cellKey(id), typ: el}, typ: fv.Type()})
	}
	ghosts := map[string]SV{}
	for _, g := range sp.Given {
		genv := &SEnv{vars: map[string]SV{}, st: st, old: st, pkg: v.pkgOf(sp.Pkg)}
		for _, b := range g.Binders {
			srt, typ := x.specType(b.Type, genv.pkg)
			t := Sym("gh:"+b.Name, srt)
			if typ != nil {
				x.wf(st, t, typ)
			}
			ghosts[b.Name] = SV{t: t, typ: typ, styp: b.Type}
			genv.vars[b.Name] = ghosts[b.Name]
		}
		for i, p := range fn.Params {
			nm := p.Name()
			if len(sp.Params) == len(fn.Params) {
				nm = sp.Params[i]
			}
			if nm != g.Param {
				continue
			}
			el := p.Type().Underlying().(*types.Slice).Elem()
			arr := zarr(el)
			for k, ce := range g.E.Args {
				r, st2 := x.ghostCall(ce, genv, st)
				st = st2
				genv.st = st
				arr = Store(arr, Int(int64(k)), r.t)
			}
			t := mkSlice(sortOf(el), arr, Int(int64(len(g.E.Args))), TFalse)
			args[i] = V{t: t, typ: p.Type()}
		}
	}
	pre := st.clone()
	x.pre = pre
	if sp.Modular {
		for _, m := range sp.modifies(v.prop) {
			if p := x.ssaParam(sp, m); p != nil {
				if mt, ok := p.Type().Underlying().(*types.Map); ok {
					if x.modParams == nil {
						x.modParams = map[string][]*Term{}
					}
					t := Sym("in:"+p.Name(), SInt)
					for _, k := range []string{x.mapDomKey(mt), x.mapValKey(mt)} {
						x.modParams[k] = append(x.modParams[k], t)
					}
				}
			}
		}
	}
	env := x.contractEnv(st, pre, sp, fn.Signature, fn, args)
	for i, fv := range fn.FreeVars {
		el := deref(fv.Type())
		b := binds[i]
		env.vars[fv.Name()] = SV{t: x.loadAddr(st, b.addr), typ: el}
	}
	for k, g := range ghosts {
		env.vars[k] = g
	}
	if fn.Signature.Recv() != nil {
		if _, ok := fn.Signature.Recv().Type().Underlying().(*types.Pointer); ok {
			x.Assume(TTrue, Lt(Int(0), args[0].t))
			x.note("method receivers are assumed non-nil")
		}
	}
	for _, r := range sp.Requires {
		if len(r.Tags) > 0 && want != "" && !hasTag(r.Tags, want) {
			continue
		}
		skipGhost(func() { x.Assume(TTrue, x.evalBool(r.E, env)) })
	}
	for _, u := range sp.Uses {
		x.tryUse(u, env, st)
	}
	nReq := len(x.facts)
	if len(sp.Requires) > 0 {
		if r := Solve(v.query(x.facts, TFalse), 3000, []int{0}, false); r.Status == "unsat" {
			rep.Vacuous = true
			rep.Err = "precondition is contradictory"
			return rep
		}
	}
	_ = nReq
	// execute
	f := x.newFrame(fn)
	f.binds = binds
	f.spec = sp
	x.inlined[fn.String()] = true
	s := st.withStore(map[ssa.Value]V{})
	f.params = map[string]SV{}
	for i, p := range fn.Params {
		a := args[i]
		s.env[p] = a
		av := a
		nm := p.Name()
		if len(sp.Params) == len(fn.Params) {
			nm = sp.Params[i]
		}
		f.params[nm] = SV{v: &av, typ: p.Type()}
	}
	for i, fv := range fn.FreeVars {
		s.env[fv] = binds[i]
		f.params[fv.Name()] = env.vars[fv.Name()]
	}
	for k, g := range ghosts {
		f.params[k] = g
	}
	f.entry = pre
	x.stack = append(x.stack, f)
	x.depth++
	x.runRegion(f, f.order, nil, map[*ssa.BasicBlock][]edge{fn.Blocks[0]: {{nil, fn.Blocks[0], s}}})
	x.depth--
	x.stack = nil
	var pcs []*Term
	for k, r := range f.rets {
		renv := x.contractEnv(r.st, pre, sp, fn.Signature, fn, args)
		for i, fv := range fn.FreeVars {
			renv.vars[fv.Name()] = SV{t: x.loadAddr(r.st, binds[i].addr), typ: deref(fv.Type())}
		}
		for k, g := range ghosts {
			renv.vars[k] = g
		}
		res := V{}
		switch len(r.res) {
		case 0:
		case 1:
			res = r.res[0]
		default:
			res = V{tup: r.res}
		}
		x.bindResults(renv, fn.Signature, res)
		for _, l := range sp.Lets {
			renv.vars[l.Name] = x.pin(x.eval(l.E, renv), renv)
		}
		for _, u := range sp.Uses {
			x.useLemma(u, renv, r.st, nil)
		}
		// the ghost assignments of the contract happen on return
		for _, e := range sp.Effects {
			if g := x.v.specs.Ghosts[e.Target]; g == nil || !x.v.ghostOn(g) {
				continue
			}
			k := x.ghostKey(e.Target)
			nv := x.evalTerm(e.E, renv, x.keySort(k))
			if e.Cond != nil {
				nv = Ite(x.evalBool(e.Cond, renv), nv, x.get(r.st, k))
			}
			x.set(r.st, k, nv)
		}
		mark := len(x.facts)
		for _, e := range sp.Ensures {
			tags := e.Tags
			if len(tags) == 0 {
				tags = sp.Tags
			}
			if want != "" && !hasTag(tags, want) {
				continue
			}
			nm := e.Text
			if e.Name != "" {
				nm = e.Name + ": " + e.Text
			}
			g := x.evalBool(e.E, renv)
			x.Oblige(r.st, "ensures", fmt.Sprintf("%s#ensures %s [return %d]", sp.Name, nm, k), g, r.pos, tags)
		}
		_ = mark
		if sp.Clos != nil && (want == "" || hasTag(sp.Tags, want)) {
			x.closObls(sp, r, renv, res, k)
		}
		if sp.Modular {
			x.frameObls(sp, r, pre, k, x.contractEnv(pre, pre, sp, fn.Signature, fn, args))
		}
		pcs = append(pcs, r.st.pc)
	}
	// vacuity: some return must be reachable
	if len(pcs) > 0 {
		if r := Solve(v.query(x.facts[:f0(x)], Not(Or(pcs...))), 3000, []int{0}, false); r.Status == "unsat" {
			rep.Vacuous = true
			rep.Err = "no return is reachable under the assumptions (vacuous)"
			return rep
		}
	}
	v.discharge(x, rep, want, sp.Tags)
	return rep
}

func f0(x *Exec) int {
	// facts before the first postcondition obligation (which is assumed afterwards)
	for _, o := range x.obls {
		if o.Kind == "ensures" {
			return o.nfacts
		}
	}
	return len(x.facts)
}

func (x *Exec) frameObls(sp *FuncSpec, r retEdge, pre *State, k int, penv *SEnv) {
	if sp.Opts["noframe"] != "" {
		return // no frame claimed; such a contract cannot be used at calls
	}
	allowed := map[string]bool{allocKey: true}
	fieldOf := map[string][]*Term{} // heap of a field -> objects that may change there
	for _, m := range sp.modifies(x.v.prop) {
		if p := x.ssaParam(sp, m); p != nil {
			allowed["param:"+p.Name()] = true
			continue
		}
		if i := strings.IndexByte(m, '.'); i > 0 {
			if p := x.ssaParam(sp, m[:i]); p != nil {
				if el, fi := ptrField(p.Type(), m[i+1:]); el != nil {
					fk := x.fieldKey(el, fi)
					fieldOf[fk] = append(fieldOf[fk], Sym("in:"+p.Name(), SInt))
					continue
				}
			}
		}
		if ref, fk, _, ok := x.pathTarget(m, penv); ok {
			fieldOf[fk] = append(fieldOf[fk], ref)
			continue
		}
		for _, kk := range x.resolveKeys(m, sp) {
			allowed[kk] = true
		}
	}
	for _, e := range sp.Effects {
		if g := x.v.specs.Ghosts[e.Target]; g != nil && !x.v.ghostOn(g) {
			continue
		}
		allowed[x.ghostKey(e.Target)] = true
	}
	var names []string
	all := TTrue
	defer func() {
		if len(names) > 0 {
			nm := strings.Join(names, ", ")
			if len(nm) > 160 {
				nm = nm[:160] + "..."
			}
			x.Oblige(r.st, "frame", fmt.Sprintf("%s#frame: unchanged for pre-existing objects: %s [return %d]", sp.Name, nm, k), all, r.pos, nil)
		}
	}()
	for _, key := range sortedKeys(r.st.m) {
		if allowed[key] {
			continue
		}
		now := r.st.m[key]
		old := x.get(pre, key)
		if now == old {
			continue
		}
		switch {
		case strings.HasPrefix(key, "c:"):
			// parameter slice cells
			for i, p := range x.fn.Params {
				if _, ok := p.Type().Underlying().(*types.Slice); ok && pre.m[key] == Sym("in:"+p.Name(), now.sort) && !allowed["param:"+p.Name()] {
					_ = i
					x.Oblige(r.st, "frame", fmt.Sprintf("%s#frame: argument %s unchanged [return %d]", sp.Name, p.Name(), k), Eq(now, old), r.pos, nil)
				}
			}
			continue
		case strings.HasPrefix(key, "it:"):
			continue
		case strings.HasPrefix(key, "v:"), strings.HasPrefix(key, "g:"):
			x.Oblige(r.st, "frame", fmt.Sprintf("%s#frame: %s unchanged [return %d]", sp.Name, key, k), Eq(now, old), r.pos, nil)
		default:
			rr := FreshB("r", SInt)
			except := TTrue
			for _, p := range x.fn.Params {
				if _, sl := p.Type().Underlying().(*types.Slice); sl || !allowed["param:"+p.Name()] {
					continue
				}
				except = And(except, Neq(rr, Sym("in:"+p.Name(), SInt)))
			}
			for _, ref := range fieldOf[key] {
				except = And(except, Neq(rr, ref))
			}
			sel := Select(now, rr)
			var pats [][]*Term
			if sel.op == "select" {
				pats = [][]*Term{{sel}}
			}
			names = append(names, strings.TrimPrefix(key, "h:"))
			all = And(all, Forall([]*Term{rr}, Implies(And(Le(rr, Sym("alloc@0", SInt)), except), Eq(sel, Select(old, rr))), pats...))
		}
	}
}

func (v *Verifier) discharge(x *Exec, rep *FuncReport, want string, dtags []string) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, 6)
	var mu sync.Mutex
	bad := 0
	type hardObl struct {
		o    *Obl
		or   *OblReport
		body string
	}
	var hard, late []hardObl
	finish := func(o *Obl, or *OblReport, r SolveResult) {
		or.By, or.Secs = r.By, r.Secs
		switch r.Status {
		case "unsat":
			or.Status = "proved"
		case "sat":
			or.Status = "refuted"
			or.Model = r.Model
		default:
			or.Status = "undecided"
			or.Reason = r.Reason
			or.Model = r.Model
		}
		if r.Status != "unsat" {
			mu.Lock()
			bad++
			mu.Unlock()
			if v.debug {
				fmt.Println("  failed:", r.Status, o.Name, o.Pos, r.Reason)
			}
		}
	}
	if v.debug {
		fmt.Printf("%s: %d obligations\n", rep.Func, len(x.obls))
	}
	for _, o := range x.obls {
		tags := o.Tags
		if len(tags) == 0 {
			tags = dtags
			if len(tags) > 1 && (o.Kind == "bounds" || o.Kind == "nil-call") {
				tags = tags[:1] // safety obligations belong to the first property of a contract
			}
		}
		if want != "" && len(tags) > 0 && !hasTag(tags, want) {
			continue
		}
		or := &OblReport{Name: o.Name, Kind: o.Kind, Pos: o.Pos, Tags: tags}
		rep.Obls = append(rep.Obls, or)
		if o.goal == TTrue {
			or.Status, or.By = "proved", "simplifier"
			continue
		}
		body := Script(v.query(x.facts[:o.nfacts], o.goal), "")
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			// fast attempt on one back end, then race
			first := []int{0}
			if strings.Contains(body, "str.") {
				first = []int{0, 2}
			}
			r := SolveText(body, 1500, first, true)
			mu.Lock()
			spent := bad >= 8 || time.Since(v.start) > v.budget
			mu.Unlock()
			if r.Status == "unknown" && spent {
				r.Reason += "; not tried further: time budget"
			} else if r.Status == "unknown" {
				or.By, or.Secs, or.Reason = r.By, r.Secs, r.Reason
				mu.Lock()
				hard = append(hard, hardObl{o, or, body})
				mu.Unlock()
				return
			}
			finish(o, or, r)
		}()
	}
	wg.Wait()
	sort.Slice(hard, func(i, j int) bool { return hard[i].o.nfacts < hard[j].o.nfacts })
	for i := range hard {
		mu.Lock()
		few := bad < 8
		mu.Unlock()
		if h := &hard[i]; few && time.Since(v.start) < v.budget {
			// path by path
			bs := v.splitBodies(x.facts[:h.o.nfacts], h.o.goal)
			var last SolveResult
			if len(bs) > 0 && proveAll(bs, 5000, func(r SolveResult) { last.By = r.By; last.Secs += r.Secs }) {
				last.Status = "unsat"
				finish(h.o, h.or, last)
				continue
			}
		}
		h := hard[i]
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			r := SolveResult{Status: "unknown", By: h.or.By, Secs: h.or.Secs, Reason: h.or.Reason}
			mu.Lock()
			spent := bad >= 8 || time.Since(v.start) > v.budget
			mu.Unlock()
			if spent {
				r.Reason += "; not tried further: time budget"
			} else {
				r2 := SolveText(h.body, v.ms, []int{0, 1, 2}, true)
				if r2.Status != "unknown" || r2.Model != "" {
					r2.Secs += r.Secs
					r = r2
				} else {
					r.Reason = r2.Reason
				}
			}
			if r.Status == "unknown" && !spent {
				mu.Lock()
				late = append(late, h)
				mu.Unlock()
			}
			finish(h.o, h.or, r)
		}()
	}
	wg.Wait()
	// what is still undecided is tried once more with more time (a busy machine, an unlucky search), if it is little
	if len(late) > 3 {
		return
	}
	for _, h := range late {
		if h.or.Status != "undecided" || time.Since(v.start) > v.budget {
			continue
		}
		var won SolveResult
		bs := v.splitBodies(x.facts[:h.o.nfacts], h.o.goal)
		if len(bs) > 0 && proveAll(bs, 20000, func(r SolveResult) { won.By = r.By; won.Secs += r.Secs }) {
			won.Status = "unsat"
		} else {
			won = SolveText(h.body, 3*v.ms, []int{0, 1, 2, 3, 4}, false)
		}
		if won.Status == "unsat" {
			bad--
			won.Secs += h.or.Secs
			h.or.Reason, h.or.Model = "", ""
			finish(h.o, h.or, won)
		}
	}
}

// tryUse instantiates a lemma hint at function entry when it does not mention results.
func (x *Exec) tryUse(u UseHint, env *SEnv, st *State) {
	n := len(x.facts)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); ok {
				x.facts = x.facts[:n]
				return
			}
			panic(r)
		}
	}()
	x.useLemma(u, env, st, nil)
}

// ghostCall executes a call of a module function written in a contract.
func (x *Exec) ghostCall(e *Expr, env *SEnv, st *State) (V, *State) {
	if e.Op != "call" || e.Args[0].Op != "ident" {
		unsup("given: call expected")
	}
	o := env.pkg.Scope().Lookup(e.Args[0].Name)
	fo, ok := o.(*types.Func)
	if !ok {
		unsup("given: no function %s", e.Args[0].Name)
	}
	fn := x.v.funcByObj(fo)
	var vs []V
	sig := fo.Type().(*types.Signature)
	for i, a := range e.Args[1:] {
		vs = append(vs, V{t: x.svTerm(x.eval(a, env), env), typ: sig.Params().At(i).Type()})
	}
	r, st2 := x.callFn(nil, st, fn, nil, vs, sig, 0)
	if st2 == nil {
		unsup("given: %s does not return", fn)
	}
	return r, st2
}

// useLemma assumes an instance of a (separately proved) lemma.
func (x *Exec) useLemma(u UseHint, env *SEnv, st *State, self *lemmaCtx) {
	l := x.v.specs.LemmaByName[u.Lemma]
	if l == nil {
		unsup("unknown lemma %s", u.Lemma)
	}
	if len(u.Args) != len(l.Params) {
		unsup("lemma %s: wrong number of arguments", u.Lemma)
	}
	c := *env
	c.vars = map[string]SV{}
	for k, w := range env.vars {
		c.vars[k] = w
	}
	var bs []*Term
	for _, b := range u.Vars {
		srt, typ := x.specType(b.Type, env.pkg)
		bv := FreshB(b.Name, srt)
		bs = append(bs, bv)
		c.vars[b.Name] = SV{t: bv, typ: typ, styp: b.Type}
	}
	cond := TTrue
	if u.Cond != nil {
		cond = x.evalBool(u.Cond, &c)
	}
	lenv := &SEnv{vars: map[string]SV{}, st: env.st, old: env.old, pkg: x.v.pkgOf(l.Pkg)}
	for i, p := range l.Params {
		srt, typ := x.specType(p.Type, lenv.pkg)
		sv := x.pin(x.eval(u.Args[i], &c), &c)
		t := x.svTerm(sv, &c)
		if t.sort != srt {
			if sv.styp == "nil" && typ != nil {
				t = zeroOf(typ)
			} else {
				unsup("lemma %s: argument %s has sort %s, want %s", l.Name, p.Name, t.sort, srt)
			}
		}
		lenv.vars[p.Name] = SV{t: t, typ: typ, styp: p.Type}
	}
	f := x.lemmaBody(l, lenv)
	if self != nil && l == self.l {
		if l.Decreases == nil {
			unsup("lemma %s: recursive use without decreases", l.Name)
		}
		d := x.evalTerm(l.Decreases, lenv, SInt)
		cond = And(cond, Le(Int(0), d), Lt(d, self.dec))
	} else {
		if self != nil && x.v.lemmaReaches(l, self.l, map[*Lemma]bool{}) {
			unsup("lemmas %s and %s use each other", self.l.Name, l.Name)
		}
		x.note("uses lemma %s", l.Name)
		x.v.usedContracts["lemma "+l.Name] = true
	}
	f = Implies(cond, f)
	if len(bs) > 0 {
		var pats [][]*Term
		for _, tr := range l.Trigger {
			var q []*Term
			for _, e := range tr {
				q = append(q, x.svTerm(x.eval(e, lenv), lenv))
			}
			pats = append(pats, q)
		}
		f = Forall(bs, f, pats...)
	}
	if st != nil {
		x.Assume(st.pc, f)
	} else {
		x.Assume(TTrue, f)
	}
}

type lemmaCtx struct {
	l   *Lemma
	dec *Term
}

func (x *Exec) lemmaBody(l *Lemma, env *SEnv) *Term {
	var rq, en []*Term
	for _, r := range l.Requires {
		rq = append(rq, x.evalBool(r.E, env))
	}
	for _, e := range l.Ensures {
		en = append(en, x.evalBool(e.E, env))
	}
	return Implies(And(rq...), And(en...))
}

func (v *Verifier) verifyLemma(l *Lemma, want string) (rep *FuncReport) {
	rep = &FuncReport{Func: "lemma " + l.Name, Kind: "lemma", Tags: l.Tags}
	if l.Axiom {
		rep.Kind = "axiom"
		return rep
	}
	x := v.newExec(&ssa.Function{})
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				rep.Err = u.msg
			} else if os.Getenv("GOCV_PANIC") != "" {
				panic(r)
			} else {
				rep.Err = fmt.Sprintf("verifier internal error: %v", r)
			}
		}
		for k := range x.assume {
			rep.Assume = append(rep.Assume, k)
		}
		sort.Strings(rep.Assume)
	}()
	x.fn = v.anyFn()
	x.reveal = set(l.Reveal)
	x.declare(allocKey, SInt)
	st := &State{pc: TTrue, env: map[ssa.Value]V{}, m: map[string]*Term{}}
	env := &SEnv{vars: map[string]SV{}, st: st, old: st, pkg: v.pkgOf(l.Pkg)}
	for _, p := range l.Params {
		srt, typ := x.specType(p.Type, env.pkg)
		t := Sym("in:"+p.Name, srt)
		if typ != nil {
			x.wf(st, t, typ)
		}
		env.vars[p.Name] = SV{t: t, typ: typ, styp: p.Type}
	}
	for _, r := range l.Requires {
		x.Assume(TTrue, x.evalBool(r.E, env))
	}
	if len(l.Requires) > 0 {
		if r := Solve(v.query(x.facts, TFalse), 2000, []int{0}, false); r.Status == "unsat" {
			rep.Vacuous = true
			rep.Err = "lemma hypothesis is contradictory"
			return rep
		}
	}
	self := &lemmaCtx{l: l}
	if l.Decreases != nil {
		self.dec = x.evalTerm(l.Decreases, env, SInt)
		x.Oblige(st, "decreases", l.Name+"#decreases bounded below", Le(Int(0), self.dec), 0, l.Tags)
	}
	for _, u := range l.Uses {
		x.useLemma(u, env, nil, self)
	}
	n := len(x.facts)
	if len(l.Uses) > 0 {
		if r := Solve(v.query(x.facts, TFalse), 1000, []int{0}, false); r.Status == "unsat" {
			rep.Vacuous = true
			rep.Err = "the facts used by the lemma are contradictory"
			return rep
		}
	}
	for _, e := range l.Ensures {
		g := x.evalBool(e.E, env)
		o := &Obl{Name: "lemma " + l.Name + "#ensures " + e.Text, Kind: "lemma", Func: "lemma " + l.Name, nfacts: n, goal: g, Tags: l.Tags, Pos: l.Pos}
		if len(x.facts) > n {
			o.nfacts = len(x.facts)
		}
		x.obls = append(x.obls, o)
	}
	v.discharge(x, rep, want, l.Tags)
	return rep
}

func (v *Verifier) anyFn() *ssa.Function {
	for _, k := range sortedKeys(v.byKey) {
		return v.byKey[k]
	}
	return nil
}

func withRepoEnv(script string) {
	// import the environment the repository is built with
	out, err := exec.Command("bash", "-c", ". "+script+" >/dev/null 2>&1; env -0").Output()
	if err != nil {
		return
	}
	for _, kv := range strings.Split(string(out), "\x00") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			os.Setenv(kv[:i], kv[i+1:])
		}
	}
}

func set(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

// lemmaReaches: proving a leads to using b.
func (v *Verifier) lemmaReaches(a, b *Lemma, seen map[*Lemma]bool) bool {
	if seen[a] {
		return false
	}
	seen[a] = true
	for _, u := range a.Uses {
		if n := v.specs.LemmaByName[u.Lemma]; n != nil && (n == b || v.lemmaReaches(n, b, seen)) {
			return true
		}
	}
	return false
}
