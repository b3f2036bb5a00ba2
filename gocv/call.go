package main

import (
	"fmt"
	"go/token"
	"go/types"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) call(f *frame, st *State, c *ssa.CallCommon, ins ssa.Instruction, pos token.Pos) (V, *State) {
	var fnv V
	var args []V
	if c.IsInvoke() {
		args = append(args, x.val(st, c.Value))
	} else if _, ok := c.Value.(*ssa.Builtin); !ok {
		fnv = x.val(st, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, x.val(st, a))
	}
	return x.callWith(f, st, c, fnv, args, ins, pos)
}

func (x *Exec) callWith(f *frame, st *State, c *ssa.CallCommon, fnv V, args []V, ins ssa.Instruction, pos token.Pos) (V, *State) {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(f, st, b.Name(), c, args, pos)
	}
	if c.IsInvoke() {
		return x.invoke(f, st, c, args, pos)
	}
	if fn, ok := c.Value.(*ssa.Function); ok {
		return x.callFn(f, st, fn, nil, args, c.Signature(), pos)
	}
	return x.callValue(f, st, fnv.t, args, c.Signature(), pos, c.Value.Name())
}

// callValue calls a function value given as a term (closure ids are literals).
func (x *Exec) callValue(f *frame, st *State, t *Term, args []V, sig *types.Signature, pos token.Pos, desc string) (V, *State) {
	if t == nil {
		unsup("call of untracked function value %s", desc)
	}
	if t.op == "int" && t.i.IsInt64() {
		if fv, ok := x.clos[t.i.Int64()]; ok {
			if fv.model != nil {
				return fv.model(x, st, args)
			}
			return x.callFn(f, st, fv.fn, fv.binds, args, sig, pos)
		}
		if t.i.Sign() == 0 {
			if !x.noBound {
				x.Oblige(st, "nil-call", "call of nil function", TFalse, pos, nil)
			}
			return V{}, nil
		}
	}
	if t.op == "ite" {
		s1, s2 := st.clone(), st.clone()
		s1.pc = And(st.pc, t.args[0])
		s2.pc = And(st.pc, Not(t.args[0]))
		v1, r1 := x.callValue(f, s1, t.args[1], args, sig, pos, desc)
		v2, r2 := x.callValue(f, s2, t.args[2], args, sig, pos, desc)
		if r1 == nil {
			return v2, r2
		}
		if r2 == nil {
			return v1, r1
		}
		es := []edge{{st: r1}, {st: r2}}
		conds := discriminators([]*Term{r1.pc, r2.pc})
		var v V
		if sig.Results().Len() > 0 {
			v = x.mergeV(conds, []V{v1, v2}, es)
		}
		return v, x.mergeStates(es)
	}
	// select from a store chain etc. is already simplified; unknown function
	x.note("call through unknown function value %s in %s: results arbitrary, no effect on tracked state except memory passed by pointer", desc, x.fn.Name())
	for _, a := range args {
		if a.t == nil || a.typ == nil || a.addr != nil {
			continue
		}
		if pt, ok := a.typ.Underlying().(*types.Pointer); ok && !isOpaqueStruct(pt.Elem()) {
			n := Fresh("dyn", sortOf(pt.Elem()))
			x.wf(st, n, pt.Elem())
			x.storeRef(st, a.t, pt.Elem(), n)
		}
	}
	return x.havocCall(st, "dyn", args, sig), st
}

// foldConst computes path operations on constants.
func foldConst(key string, args []V) *Term {
	if len(args) != 1 || args[0].t == nil {
		return nil
	}
	a := args[0].t
	one := map[string]func(string) string{"path/filepath.Clean": filepath.Clean, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path.Clean": filepath.Clean, "path.Base": filepath.Base, "path.Dir": filepath.Dir}
	if f := one[key]; f != nil && a.op == "str" {
		return Str(f(a.name))
	}
	if key == "path/filepath.Join" || key == "path.Join" {
		n := slLen(a)
		if n.op != "int" || !n.i.IsInt64() || n.i.Int64() > 20 {
			return nil
		}
		var el []string
		for i := int64(0); i < n.i.Int64(); i++ {
			e := Select(slArr(a), Int(i))
			if e.op != "str" {
				return nil
			}
			el = append(el, e.name)
		}
		return Str(filepath.Join(el...))
	}
	return nil
}

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (x *Exec) callFn(f *frame, st *State, fn *ssa.Function, binds []V, args []V, sig *types.Signature, pos token.Pos) (V, *State) {
	key := fnKey(fn)
	if t := foldConst(key, args); t != nil {
		return V{t: t, typ: sig.Results().At(0).Type()}, st
	}
	if m, ok := libModels[key]; ok {
		return m(x, st, args, sig, fn, pos)
	}
	if sp := x.v.specFor(fn); sp != nil && sp.Modular {
		return x.applyContract(st, sp, fn.Signature, fn, args, pos, key)
	}
	if x.v.inModule(fn) && len(fn.Blocks) > 0 {
		return x.execFnV(fn, args, binds, st)
	}
	// wrappers (bound methods, thunks, promoted methods) have bodies
	if len(fn.Blocks) > 0 && fn.Synthetic != "" && (fn.Pkg == nil || x.v.inModule(fn)) && !strings.HasPrefix(fn.Synthetic, "instance of") {
		return x.execFnV(fn, args, binds, st)
	}
	if isPureLib(key) {
		return x.pureCall(st, key, args, sig), st
	}
	if obj := fn.Object(); obj != nil && x.v.inModule(fn) {
		unsup("no body and no contract for %s", key)
	}
	if fn.Pkg != nil && x.v.specs.sealed(x.v.prop, fn.Pkg.Pkg.Path(), fn.Name(), fn.Signature) {
		x.Oblige(st, "sealed", fmt.Sprintf("%s#call of %s, for which there is no contract", x.fn.Name(), key), TFalse, pos, nil)
	}
	x.note("external function %s: results arbitrary (type-correct), tracked state unchanged except memory reachable from pointer arguments", key)
	return x.havocCall(st, key, args, sig), st
}

func (x *Exec) execFnV(fn *ssa.Function, args []V, binds []V, st *State) (V, *State) {
	var sp *FuncSpec
	if s := x.v.specFor(fn); s != nil {
		sp = s
	}
	return x.execFn(fn, args, binds, st, sp)
}

var purePkgs = []string{"strings.", "strconv.", "path.", "unicode.", "unicode/utf8.", "math.", "encoding/hex.", "bytes.", "net/url."}
var pureExact = map[string]bool{
	"path/filepath.Join": true, "path/filepath.Clean": true, "path/filepath.Base": true, "path/filepath.Dir": true, "path/filepath.Ext": true, "path/filepath.Rel": true, "path/filepath.IsAbs": true, "path/filepath.Split": true, "path/filepath.Match": true, "path/filepath.ToSlash": true,
	"(*net/url.URL).String": true, "(*net/url.URL).Redacted": true, "(*net/url.URL).Hostname": true, "(*net/url.Userinfo).Username": true, "(*net/url.Userinfo).Password": true, "(*net/url.URL).JoinPath": true,
	"(time.Time).Before": true, "(time.Time).After": true, "(time.Time).Equal": true, "(time.Time).IsZero": true, "(time.Time).Unix": true, "(time.Time).Format": true, "time.Unix": true, "time.Parse": true, "(time.Time).UTC": true, "(time.Time).Compare": true,
	"(io/fs.FileMode).IsDir":                     false,
	"(*encoding/base64.Encoding).EncodeToString": true, "(*encoding/base64.Encoding).DecodeString": true,
	"os.IsNotExist": true, "os.IsExist": true, "(net/http.Header).Get": true, "io/fs.ValidPath": true,
	"golang.org/x/exp/maps.Keys": false,
	"crypto/sha1.Sum":            true, "crypto/sha256.Sum256": true,
	"errors.Unwrap": true,
}

func isPureLib(key string) bool {
	if p, ok := pureExact[key]; ok {
		return p
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(key, p) {
			return true
		}
	}
	return false
}

// pureCall models a library function as an uninterpreted function of its argument values.
func (x *Exec) pureCall(st *State, key string, args []V, sig *types.Signature) V {
	x.note("library function %s: uninterpreted pure function", key)
	var ts []*Term
	for i, a := range args {
		if a.t != nil && i >= 0 && a.t.op == "int" && a.t.i.IsInt64() {
			if _, isFn := x.clos[a.t.i.Int64()]; isFn && a.typ != nil {
				if _, ok := a.typ.Underlying().(*types.Signature); ok {
					// function argument: identity only
				}
			}
		}
		t := x.term(st, a)
		if t.sort.Name == "Bytes" {
			t = SelN(t, 0) // library functions read nil and empty byte slices alike
		}
		ts = append(ts, t)
	}
	return x.pureApp(st, key, ts, sig)
}

func (x *Exec) pureApp(st *State, key string, ts []*Term, sig *types.Signature) V {
	res := sig.Results()
	mk := func(i int) V {
		typ := res.At(i).Type()
		nm := key
		if res.Len() > 1 {
			nm = fmt.Sprintf("%s#%d", key, i)
		}
		t := App(nm, sortOf(typ), ts...)
		if !t.hasB {
			x.wf(st, t, typ)
		}
		return V{t: t, typ: typ}
	}
	switch res.Len() {
	case 0:
		return V{typ: res}
	case 1:
		return mk(0)
	}
	out := V{typ: res}
	for i := 0; i < res.Len(); i++ {
		out.tup = append(out.tup, mk(i))
	}
	return out
}

// havocCall: arbitrary results; memory directly passed by pointer or mutable slice is havocked.
func (x *Exec) havocCall(st *State, key string, args []V, sig *types.Signature) V {
	for _, a := range args {
		x.havocArg(st, a, map[*FnVal]bool{})
	}
	res := sig.Results()
	base := key
	if i := strings.LastIndexAny(base, "/"); i >= 0 {
		base = base[i+1:]
	}
	switch res.Len() {
	case 0:
		return V{typ: res}
	case 1:
		return x.freshVal(st, base, res.At(0).Type())
	}
	return x.freshVal(st, base, res)
}

func (x *Exec) havocArg(st *State, a V, seen map[*FnVal]bool) {
	if a.cell != 0 {
		k := cellKey(a.cell)
		old := x.get(st, k)
		n := Fresh("buf", old.sort)
		if old.sort.Name == "Bytes" {
			x.Assume(TTrue, And(Eq(slLen(n), slLen(old)), Eq(slNil(n), slNil(old))))
		} else {
			x.Assume(TTrue, And(Eq(slLen(n), slLen(old)), Eq(slNil(n), slNil(old))))
		}
		x.set(st, k, n)
		return
	}
	if a.addr != nil {
		t := x.loadAddr(st, a.addr)
		n := Fresh("out", t.sort)
		x.wf(st, n, a.addr.typ)
		x.storeAddr(st, a.addr, n)
		return
	}
	if a.t == nil {
		return
	}
	if a.typ != nil && a.t.sort == SInt && !seen[nil] {
		switch a.typ.Underlying().(type) {
		case *types.Pointer, *types.Interface:
			if bi, ok := x.boxOf[a.t]; ok && isInterface(a.typ) {
				switch bi.typ.Underlying().(type) {
				case *types.Basic, *types.Struct, *types.Array:
					return // a value, not an object
				}
			}
			// an unmodelled callee may change any ghost attribute of an object it is given
			for _, g := range x.v.refGhosts {
				k := x.ghostKey(g)
				h := x.get(st, k)
				x.set(st, k, Store(h, a.t, Fresh("gh:"+g, h.sort.Val)))
			}
		}
	}
	if isSliceSort(a.t.sort) && a.typ != nil && !isLit(slLen(a.t)) {
		if _, ok := a.typ.Underlying().(*types.Slice); ok {
			n := Fresh("buf", a.t.sort)
			x.Assume(TTrue, And(Eq(slLen(n), slLen(a.t)), Eq(slNil(n), slNil(a.t))))
			x.replaceSlice(st, a, n)
			return
		}
	}
	if a.t.op == "int" && a.t.i.IsInt64() {
		if fv, ok := x.clos[a.t.i.Int64()]; ok && !seen[fv] {
			seen[fv] = true
			for _, b := range fv.binds {
				x.havocArg(st, b, seen)
			}
		}
		return
	}
	if a.typ == nil {
		return
	}
	t := a.t
	typ := a.typ
	if bi, ok := x.boxOf[t]; ok && isInterface(typ) {
		t, typ = bi.v, bi.typ
	}
	if pt, ok := typ.Underlying().(*types.Pointer); ok {
		el := pt.Elem()
		if isOpaqueStruct(el) {
			return
		}
		if _, isSt := el.Underlying().(*types.Struct); isSt {
			if n, ok := types.Unalias(el).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path()+"/", modPath) {
				return // module structs have no exported mutators outside the module
			}
		}
		s := sortOf(el)
		n := Fresh("out", s)
		x.wf(st, n, el)
		x.storeRef(st, t, el, n)
	}
}

// ---- interface calls

func (x *Exec) invoke(f *frame, st *State, c *ssa.CallCommon, args []V, pos token.Pos) (V, *State) {
	recv := x.term(st, args[0])
	m := c.Method
	// statically known dynamic type
	if bi, ok := x.boxOf[recv]; ok {
		if fn := x.v.prog.LookupMethod(bi.typ, m.Pkg(), m.Name()); fn != nil {
			as := append([]V{{t: bi.v, typ: bi.typ}}, args[1:]...)
			return x.callFn(f, st, fn, nil, as, fn.Signature, pos)
		}
	}
	it := c.Value.Type()
	names := []string{typeKey(it) + "." + m.Name()}
	// declaring interface
	if recvT := m.Type().(*types.Signature).Recv(); recvT != nil {
		names = append(names, typeKey(recvT.Type())+"."+m.Name())
	}
	if m.Pkg() == nil { // error.Error
		names = append(names, "error."+m.Name())
	}
	for _, n := range names {
		if mod, ok := libModels[n]; ok {
			return mod(x, st, args, c.Signature(), nil, pos)
		}
		if sp, ok := x.v.specs.Funcs[n]; ok {
			return x.applyContract(st, sp, m.Type().(*types.Signature), nil, args, pos, n)
		}
	}
	for _, n := range names {
		if pureIface[n] {
			return x.pureCall(st, n, args, c.Signature()), st
		}
	}
	if m.Pkg() != nil && x.v.specs.sealed(x.v.prop, m.Pkg().Path(), m.Name(), m.Type().(*types.Signature)) {
		x.Oblige(st, "sealed", fmt.Sprintf("%s#call of %s, for which there is no contract", x.fn.Name(), names[len(names)-1]), TFalse, pos, nil)
	}
	x.note("interface method %s: results arbitrary (type-correct), tracked state unchanged", names[len(names)-1])
	return x.havocCall(st, names[0], args, c.Signature()), st
}

var pureIface = map[string]bool{
	"error.Error": true, "io/fs.FileInfo.Mode": true, "io/fs.FileInfo.Size": true, "io/fs.FileInfo.Name": true, "io/fs.FileInfo.IsDir": true, "io/fs.FileInfo.ModTime": true, "io/fs.FileInfo.Sys": true,
	"io/fs.DirEntry.Name": true, "io/fs.DirEntry.IsDir": true, "io/fs.DirEntry.Type": true,
}

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), nil)
}

// ---- contracts at call sites

func (x *Exec) applyContract(st *State, sp *FuncSpec, sig *types.Signature, fn *ssa.Function, args []V, pos token.Pos, key string) (V, *State) {
	env := x.contractEnv(st, st, sp, sig, fn, args)
	short := key
	if i := strings.LastIndex(short, "/"); i >= 0 {
		short = short[i+1:]
	}
	for _, r := range sp.Requires {
		var g *Term
		if len(r.Tags) > 0 && x.v.prop != "" && !hasTag(r.Tags, x.v.prop) || !skipGhost(func() { g = x.evalBool(r.E, env) }) {
			continue
		}
		tags := r.Tags
		x.Oblige(st, "pre", fmt.Sprintf("%s#call %s requires %s", x.fn.Name(), short, r.Text), g, pos, tags)
	}
	if sp.Lib || sp.Iface {
		x.note("assumed contract on %s %s", map[bool]string{true: "library function", false: "interface method"}[sp.Lib], key)
	} else {
		x.v.usedContracts[sp.Pkg+"."+sp.Name] = true
	}
	if sp.Opts["noframe"] != "" && !sp.outside(x.v.prop) {
		unsup("call of %s, whose contract claims no frame", key)
	}
	pre := st.clone()
	post := st
	before := append([]V(nil), args...)
	for _, m := range sp.modifies(x.v.prop) {
		if g := x.v.specs.Ghosts[m]; g != nil && !x.v.ghostOn(g) {
			continue
		}
		x.havocTarget(post, m, env, pre, args, sig, fn)
	}
	if sp.Opts["alloc"] == "" && !sp.Pure {
		x.declare(allocKey, SInt)
		n := Fresh("alloc", SInt)
		x.Assume(TTrue, Le(x.get(pre, allocKey), n))
		x.set(post, allocKey, n)
	}
	effects := func(env *SEnv, late bool) {
		for _, e := range sp.Effects {
			// an effect on the ghost state in terms of the results happens when they are known
			if strings.Contains(e.Text, "result") != late {
				continue
			}
			if g := x.v.specs.Ghosts[e.Target]; g != nil && !x.v.ghostOn(g) {
				continue
			}
			k := x.ghostKey(e.Target)
			nv := x.evalTerm(e.E, env, x.keySort(k))
			if e.Cond != nil {
				nv = Ite(x.evalBool(e.Cond, env), nv, x.get(pre, k))
			}
			x.set(post, k, nv)
		}
	}
	effects(x.contractEnv(post, pre, sp, sig, fn, args), false)
	var res V
	rs := sig.Results()
	if sp.Pure {
		var ts []*Term
		for _, a := range args {
			ts = append(ts, x.term(pre, a))
		}
		for _, h := range strings.Fields(sp.Opts["reads"]) {
			ts = append(ts, x.get(pre, x.resolveKey(h, sp)))
		}
		res = x.pureApp(post, "fn:"+key, ts, sig)
	} else {
		switch rs.Len() {
		case 0:
			res = V{typ: rs}
		case 1:
			res = x.freshVal(post, "r:"+short, rs.At(0).Type())
		default:
			res = x.freshVal(post, "r:"+short, rs)
		}
		if sp.Opts["alloc"] == "" {
			// interface results exist by the time the call returns
			for i := 0; i < rs.Len(); i++ {
				v := res
				if rs.Len() > 1 {
					v = res.tup[i]
				}
				if isInterface(rs.At(i).Type()) && v.t != nil {
					x.Assume(TTrue, Le(v.t, x.get(post, allocKey)))
				}
			}
		}
	}
	if sp.Clos != nil && rs.Len() == 1 {
		res = x.contractClosure(st, sp, sig, fn, args)
	}
	env2 := x.contractEnv(post, pre, sp, sig, fn, args)
	for n, sv := range env.vars {
		for i := range args {
			if now := env2.vars[n]; sv.v != nil && now.v != nil && sv.v.t == before[i].t && now.v.t == args[i].t && before[i].t != args[i].t {
				if env2.was == nil {
					env2.was = map[string]V{}
				}
				env2.was[n] = *sv.v
			}
		}
	}
	x.bindResults(env2, sig, res)
	effects(env2, true)
	for _, l := range sp.Lets {
		sv := x.eval(l.E, env2)
		env2.vars[l.Name] = sv
	}
	for _, e := range sp.Ensures {
		if e.Local {
			continue
		}
		skipGhost(func() { x.Assume(st.pc, x.evalBool(e.E, env2)) })
	}
	return res, post
}

func (x *Exec) bindResults(env *SEnv, sig *types.Signature, res V) {
	rs := sig.Results()
	get := func(i int) SV {
		v := res
		if rs.Len() > 1 {
			v = res.tup[i]
		}
		v.typ = rs.At(i).Type()
		return SV{v: &v, typ: rs.At(i).Type()}
	}
	for i := 0; i < rs.Len(); i++ {
		sv := get(i)
		env.vars[fmt.Sprintf("result%d", i)] = sv
		if i == 0 {
			env.vars["result"] = sv
		}
		if n := rs.At(i).Name(); n != "" && n != "_" {
			if _, clash := env.vars[n]; !clash {
				env.vars[n] = sv
			}
		}
		if i == rs.Len()-1 && typeKey(rs.At(i).Type()) == "error" {
			env.vars["err"] = sv
		}
	}
}

func (x *Exec) contractEnv(st, old *State, sp *FuncSpec, sig *types.Signature, fn *ssa.Function, args []V) *SEnv {
	env := &SEnv{vars: map[string]SV{}, st: st, old: old, pkg: x.v.pkgOf(sp.Pkg)}
	var names []string
	var typs []types.Type
	if fn != nil && len(fn.Params) == len(args) {
		for _, p := range fn.Params {
			names = append(names, p.Name())
			typs = append(typs, p.Type())
		}
	} else {
		off := 0
		if len(args) == sig.Params().Len()+1 {
			names = append(names, "recv")
			typs = append(typs, args[0].typ)
			off = 1
		}
		_ = off
		for i := 0; i < sig.Params().Len(); i++ {
			names = append(names, sig.Params().At(i).Name())
			typs = append(typs, sig.Params().At(i).Type())
		}
	}
	if len(sp.Params) > 0 {
		if len(sp.Params) != len(names) {
			unsup("contract %s names %d parameters, function has %d", sp.Name, len(sp.Params), len(names))
		}
		names = sp.Params
	}
	for i, n := range names {
		a := args[i]
		if a.typ == nil || i < len(typs) && typs[i] != nil {
			a.typ = typs[i]
		}
		aa := a
		env.vars[n] = SV{v: &aa, typ: a.typ}
	}
	return env
}

// havocTarget handles a modifies item.
func (x *Exec) havocTarget(st *State, m string, env *SEnv, pre *State, args []V, sig *types.Signature, fn *ssa.Function) {
	if sv, ok := env.vars[m]; ok {
		// contents of a slice / object parameter
		if _, isSl := sv.typ.Underlying().(*types.Slice); isSl && sv.v.cell == 0 && sv.v.addr == nil && sv.v.t != nil && isSliceSort(sv.v.t.sort) && !isLit(slLen(sv.v.t)) {
			n := Fresh("buf", sv.v.t.sort)
			x.Assume(TTrue, And(Eq(slLen(n), slLen(sv.v.t)), Eq(slNil(n), slNil(sv.v.t))))
			x.replaceSlice(st, *sv.v, n)
			for i := range args {
				if args[i].t == sv.v.t && args[i].cell == 0 {
					args[i].t = n // the postcondition speaks of the new contents
				}
			}
			return
		}
		x.havocArg(st, *sv.v, map[*FnVal]bool{nil: true}) // ghosts only if listed
		if sv.v.cell == 0 && sv.v.addr == nil {
			if pt, ok := sv.typ.Underlying().(*types.Pointer); ok {
				el := pt.Elem()
				n := Fresh("mod", sortOf(el))
				x.wf(st, n, el)
				x.storeRef(st, sv.v.t, el, n)
			}
			if mt, ok := sv.typ.Underlying().(*types.Map); ok {
				for _, k := range []string{x.mapDomKey(mt), x.mapValKey(mt)} {
					h := x.get(st, k)
					x.set(st, k, Store(h, sv.v.t, Fresh("mod", h.sort.Val)))
				}
			}
		}
		return
	}
	if i := strings.IndexByte(m, '.'); i > 0 && strings.Count(m, ".") == 1 {
		// one field of the object a parameter points to
		if sv, ok := env.vars[m[:i]]; ok {
			el, fi := ptrField(sv.typ, m[i+1:])
			if el == nil {
				unsup("modifies %s: no such field", m)
			}
			ref := sv.t
			if sv.v != nil {
				ref = x.term(st, *sv.v)
			}
			k := x.fieldKey(el, fi)
			ft := el.Underlying().(*types.Struct).Field(fi).Type()
			n := Fresh("mod", sortOf(ft))
			x.wf(st, n, ft)
			x.set(st, k, Store(x.get(st, k), ref, n))
			return
		}
	}
	if ref, k, ft, ok := x.pathTarget(m, env); ok {
		n := Fresh("mod", sortOf(ft))
		x.wf(st, n, ft)
		x.set(st, k, Store(x.get(st, k), ref, n))
		return
	}
	sp := &FuncSpec{}
	if env.pkg != nil {
		sp.Pkg = env.pkg.Path()
	}
	for _, k := range x.resolveKeys(m, sp) {
		x.set(st, k, Fresh("mod:"+k, x.keySort(k)))
	}
}

// modifies are the targets that exist in the check of prop.
func (sp *FuncSpec) modifies(prop string) []string {
	if sp.ModTags == nil || prop == "" {
		return sp.Modifies
	}
	var out []string
	for _, m := range sp.Modifies {
		if t := sp.ModTags[m]; t == nil || hasTag(t, prop) {
			out = append(out, m)
		}
	}
	return out
}

// pathTarget resolves param.field...field: one field of an object reached from a parameter in the pre-state.
func (x *Exec) pathTarget(m string, env *SEnv) (ref *Term, key string, ft types.Type, ok bool) {
	i := strings.LastIndexByte(m, '.')
	if i < 0 || env == nil {
		return
	}
	if _, is := env.vars[m[:strings.IndexByte(m, '.')]]; !is {
		return
	}
	e, err := ParseExpr(m[:i])
	if err != nil {
		unsup("modifies %s: %v", m, err)
	}
	sv := x.eval(e, env)
	el, fi := ptrField(sv.typ, m[i+1:])
	if el == nil {
		unsup("modifies %s: no such field", m)
	}
	ref = sv.t
	if sv.v != nil {
		ref = x.term(env.st, *sv.v)
	}
	return ref, x.fieldKey(el, fi), el.Underlying().(*types.Struct).Field(fi).Type(), true
}

func (x *Exec) resolveKey(m string, sp *FuncSpec) string {
	ks := x.resolveKeys(m, sp)
	if len(ks) != 1 {
		unsup("modifies %s is not a single location", m)
	}
	return ks[0]
}

// resolveKeys: ghost name | T.field | map[K]V | *T (all fields) | box T
func (x *Exec) resolveKeys(m string, sp *FuncSpec) []string {
	if g, ok := x.v.specs.Ghosts[m]; ok {
		if !x.v.ghostOn(g) {
			return nil
		}
		return []string{x.ghostKey(m)}
	}
	pkg := x.v.pkgOf(sp.Pkg)
	if strings.HasPrefix(m, "map[") {
		mt := x.v.resolveType(m, pkg).Underlying().(*types.Map)
		return []string{x.mapDomKey(mt), x.mapValKey(mt)}
	}
	if strings.HasPrefix(m, "*") {
		t := x.v.resolveType(m[1:], pkg)
		if s, ok := t.Underlying().(*types.Struct); ok {
			var out []string
			for i := 0; i < s.NumFields(); i++ {
				out = append(out, x.fieldKey(t, i))
			}
			return out
		}
		return []string{x.boxKey(t)}
	}
	i := strings.LastIndex(m, ".")
	if i < 0 {
		unsup("bad modifies target %q", m)
	}
	t := x.v.resolveType(m[:i], pkg)
	s := t.Underlying().(*types.Struct)
	for j := 0; j < s.NumFields(); j++ {
		if s.Field(j).Name() == m[i+1:] {
			return []string{x.fieldKey(t, j)}
		}
	}
	unsup("no field %s", m)
	return nil
}

// ---- builtins

func (x *Exec) builtin(f *frame, st *State, name string, c *ssa.CallCommon, args []V, pos token.Pos) (V, *State) {
	intT := types.Typ[types.Int]
	switch name {
	case "len":
		t := c.Args[0].Type()
		if mt, ok := t.Underlying().(*types.Map); ok {
			d := Select(x.get(st, x.mapDomKey(mt)), x.term(st, args[0]))
			n := App("card:"+sortTag(d.sort), SInt, d)
			x.Assume(TTrue, Le(Int(0), n))
			x.note("len of a map is an uninterpreted non-negative function of its key set")
			return V{t: n, typ: intT}, st
		}
		if at, ok := t.Underlying().(*types.Array); ok {
			return V{t: Int(at.Len()), typ: intT}, st
		}
		v := x.term(st, args[0])
		if v.sort == SString {
			return V{t: StrLen(v), typ: intT}, st
		}
		return V{t: slLen(v), typ: intT}, st
	case "cap":
		v := x.term(st, args[0])
		n := Fresh("cap", SInt)
		x.Assume(TTrue, Le(slLen(v), n))
		return V{t: n, typ: intT}, st
	case "append":
		a := x.term(st, args[0])
		if len(args) == 1 {
			return V{t: a, typ: c.Args[0].Type()}, st
		}
		b := x.term(st, args[1])
		return V{t: x.appendT(st, a, b, c.Args[0].Type()), typ: c.Args[0].Type()}, st
	case "copy":
		d := args[0]
		dt := x.term(st, d)
		var sStr *Term
		sv := x.term(st, args[1])
		var n *Term
		if dt.sort.Name == "Bytes" {
			if sv.sort == SString {
				sStr = sv
			} else {
				sStr = SelN(sv, 0)
			}
			dl, sl := slLen(dt), StrLen(sStr)
			n = Ite(Le(sl, dl), sl, dl)
			nv := Mk(dBytes(), Concat(Substr(sStr, Int(0), n), Substr(SelN(dt, 0), n, Sub(dl, n))), SelN(dt, 1))
			x.storeSlice(st, d, dt, nv)
		} else {
			dl, sl := slLen(dt), slLen(sv)
			n = Ite(Le(sl, dl), sl, dl)
			if sl == dl {
				// every element is replaced: what lies behind the length is not looked at
				x.storeSlice(st, d, dt, mkSlice(sliceElemSort(dt), slArr(sv), dl, slNil(dt)))
				return V{t: n, typ: intT}, st
			}
			na := App("copyarr:"+sortTag(slArr(dt).sort), slArr(dt).sort, slArr(dt), slArr(sv), n)
			j := BVar("j", SInt)
			sel := Select(na, j)
			x.Assume(TTrue, Forall([]*Term{j}, Eq(sel, Ite(And(Le(Int(0), j), Lt(j, n)), Select(slArr(sv), j), Select(slArr(dt), j))), []*Term{sel}))
			x.storeSlice(st, d, dt, mkSlice(sliceElemSort(dt), na, dl, slNil(dt)))
		}
		return V{t: n, typ: intT}, st
	case "delete":
		mt := c.Args[0].Type().Underlying().(*types.Map)
		x.mapDel(st, x.term(st, args[0]), x.term(st, args[1]), mt)
		return V{typ: nil}, st
	case "min", "max":
		r := x.term(st, args[0])
		for _, a := range args[1:] {
			t := x.term(st, a)
			if r.sort != SInt {
				unsup("min/max on %s", r.sort)
			}
			if name == "min" {
				r = Ite(Le(r, t), r, t)
			} else {
				r = Ite(Le(t, r), r, t)
			}
		}
		return V{t: r, typ: c.Args[0].Type()}, st
	case "print", "println", "close":
		if name == "close" {
			unsup("close of channel")
		}
		return V{}, st
	case "ssa:wrapnilchk":
		return args[0], st
	case "recover":
		return V{t: Int(0)}, st
	}
	unsup("builtin %s", name)
	return V{}, nil
}

// replaceSlice: the elements behind slice value a become those of nv.
func (x *Exec) replaceSlice(st *State, a V, nv *Term) {
	if a.cell != 0 {
		x.set(st, cellKey(a.cell), nv)
		return
	}
	if a.prov != nil && x.loadAddr(st, a.prov) == a.t {
		x.storeAddr(st, a.prov, nv)
	}
	for r, w := range st.env {
		if w.t == a.t && w.cell == 0 && w.addr == nil {
			w.t = nv
			st.env[r] = w
		}
	}
}

func (x *Exec) storeSlice(st *State, d V, cur, nv *Term) {
	if d.cell != 0 {
		x.set(st, cellKey(d.cell), nv)
		return
	}
	if d.prov != nil && x.loadAddr(st, d.prov) == cur {
		x.storeAddr(st, d.prov, nv)
		for r, w := range st.env {
			if w.prov != nil && w.t == cur && reflect.DeepEqual(*w.prov, *d.prov) {
				w.t = nv
				st.env[r] = w
			}
		}
		return
	}
	if d.wof != nil && x.term(st, *d.wof) == d.wcur {
		b := SelN(d.wcur, 0)
		end := Add(d.wlo, slLen(cur))
		nb := Concat(Concat(Substr(b, Int(0), d.wlo), SelN(nv, 0)), Substr(b, end, Sub(StrLen(b), end)))
		x.storeSlice(st, *d.wof, d.wcur, Mk(dBytes(), nb, SelN(d.wcur, 1)))
		return
	}
	unsup("write to a slice whose backing array is not tracked")
}

func (x *Exec) appendT(st *State, a, b *Term, typ types.Type) *Term {
	if a.sort.Name == "Bytes" {
		var bs *Term
		if b.sort == SString {
			bs = b
		} else {
			bs = SelN(b, 0)
		}
		nl := And(SelN(a, 1), Eq(StrLen(bs), Int(0)))
		return Mk(dBytes(), Concat(SelN(a, 0), bs), nl)
	}
	es := sliceElemSort(a)
	n := slLen(b)
	if n.op == "int" && n.i.IsInt64() && n.i.Int64() <= 16 {
		k := n.i.Int64()
		if k == 0 {
			return a
		}
		arr := slArr(a)
		for i := int64(0); i < k; i++ {
			arr = Store(arr, Add(slLen(a), Int(i)), Select(slArr(b), Int(i)))
		}
		return mkSlice(es, arr, Add(slLen(a), n), TFalse)
	}
	if slLen(a) == Int(0) {
		// append to an empty slice: contents equal b
		return mkSlice(es, slArr(b), n, And(slNil(a), slNil(b)))
	}
	arr := x.concatArr(slArr(a), slLen(a), slArr(b), n)
	return mkSlice(es, arr, Add(slLen(a), n), And(slNil(a), Eq(n, Int(0))))
}

func (x *Exec) concatArr(aa, la, ba, lb *Term) *Term {
	r := App("concat:"+sortTag(aa.sort), aa.sort, aa, la, ba, lb)
	if r.hasB {
		return r
	}
	j := BVar("j", SInt)
	sel := Select(r, j)
	x.Assume(TTrue, Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, Add(la, lb))), Eq(sel, Ite(Lt(j, la), Select(aa, j), Select(ba, Sub(j, la))))), []*Term{sel}))
	// ground forms used for triggering from the source slices
	k := BVar("k", SInt)
	selA := Select(aa, k)
	if selA.op == "select" {
		x.Assume(TTrue, Forall([]*Term{k}, Implies(And(Le(Int(0), k), Lt(k, la)), Eq(Select(r, k), selA)), []*Term{selA}))
	}
	return r
}

func sortedKeys[T any](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// ptrField finds a field of the struct that a pointer type points to.
func ptrField(t types.Type, name string) (types.Type, int) {
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil, 0
	}
	st, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		return nil, 0
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return pt.Elem(), i
		}
	}
	return nil, 0
}

// ssaParam is the parameter of fn that a contract calls name (contracts name parameters by position).
func (x *Exec) ssaParam(sp *FuncSpec, name string) *ssa.Parameter {
	ps := x.fn.Params
	if len(sp.Params) == len(ps) {
		for i, n := range sp.Params {
			if n == name {
				return ps[i]
			}
		}
	}
	for _, p := range ps {
		if p.Name() == name {
			return p
		}
	}
	return nil
}
