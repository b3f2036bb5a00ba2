package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a spec-level value: a Go value (v) or a pure term with a spec sort.
type SV struct {
	v    *V
	t    *Term
	typ  types.Type // Go type, may be nil for pure spec sorts
	pkg  *types.Package
	styp string
}

type SEnv struct {
	vars map[string]SV
	st   *State
	old  *State
	pkg  *types.Package
	dep  int
	deps map[string]bool // recording of store keys read
	was  map[string]V    // arguments whose contents the call replaced, as they were before
}

func (e *SEnv) with(n string, v SV) *SEnv {
	m := make(map[string]SV, len(e.vars)+1)
	for k, w := range e.vars {
		m[k] = w
	}
	m[n] = v
	c := *e
	c.vars = m
	if _, ok := e.was[n]; ok {
		c.was = map[string]V{}
		for k, w := range e.was {
			if k != n {
				c.was[k] = w
			}
		}
	}
	return &c
}

func (x *Exec) svTerm(s SV, env *SEnv) *Term {
	if s.t != nil {
		return s.t
	}
	if s.v != nil {
		return x.term(env.st, *s.v)
	}
	unsup("spec value without a term")
	return nil
}

func (x *Exec) evalBool(e *Expr, env *SEnv) *Term {
	sv := x.eval(e, env)
	t := x.svTerm(sv, env)
	if t.sort != SBool {
		unsup("spec expression is not boolean: %s", exprStr(e))
	}
	return t
}

func (x *Exec) evalTerm(e *Expr, env *SEnv, want *Sort) *Term {
	sv := x.eval(e, env)
	t := x.svTerm(sv, env)
	if want != nil && t.sort != want {
		if t == Int(0) {
			if z := zeroSort(want); z != nil {
				return z
			}
		}
		unsup("spec expression %s has sort %s, want %s", exprStr(e), t.sort, want)
	}
	return t
}

func exprStr(e *Expr) string {
	if e == nil {
		return "<nil>"
	}
	var as []string
	for _, a := range e.Args {
		as = append(as, exprStr(a))
	}
	return e.Op + ":" + e.Name + "(" + strings.Join(as, ",") + ")"
}

func zeroSort(s *Sort) *Term {
	if s.Kind == "Data" && strings.HasPrefix(s.Name, "Slice<") {
		d := dataTab[s.Name]
		arr := Sym("zarr:"+sortTag(d.FSorts[0]), d.FSorts[0])
		switch d.FSorts[0].Val {
		case SString:
			arr = ConstArr(d.FSorts[0], Str(""))
		case SInt:
			arr = ConstArr(d.FSorts[0], Int(0))
		case SBool:
			arr = ConstArr(d.FSorts[0], TFalse)
		}
		return Mk(d, arr, Int(0), TTrue)
	}
	if s.Name == "Bytes" {
		return Mk(dBytes(), Str(""), TTrue)
	}
	return nil
}

var nilSV = SV{t: Int(0), styp: "nil"}

func (x *Exec) eval(e *Expr, env *SEnv) SV {
	switch e.Op {
	case "int":
		n, ok := new(big.Int).SetString(e.Name, 0)
		if !ok {
			unsup("bad int %s", e.Name)
		}
		return SV{t: BigInt(n), typ: types.Typ[types.Int]}
	case "str":
		return SV{t: Str(e.Name), typ: types.Typ[types.String]}
	case "ident":
		return x.evalIdent(e.Name, env)
	case "old":
		c := *env
		c.st = env.old
		if env.was != nil {
			m := map[string]SV{}
			for n, sv := range env.vars {
				if v, ok := env.was[n]; ok && sv.v != nil && typeKey(sv.typ) == typeKey(v.typ) {
					w := v
					sv = SV{v: &w, typ: sv.typ}
				}
				m[n] = sv
			}
			c.vars, c.was = m, nil
		}
		return x.pin(x.eval(e.Args[0], &c), &c)
	case "let":
		v := x.pin(x.eval(e.Args[0], env), env)
		return x.eval(e.Args[1], env.with(e.Name, v))
	case "cond":
		c := x.evalBool(e.Args[0], env)
		if c == TTrue {
			return x.eval(e.Args[1], env)
		}
		if c == TFalse {
			return x.eval(e.Args[2], env)
		}
		a, b := x.eval(e.Args[1], env), x.eval(e.Args[2], env)
		ta, tb := x.svTerm(a, env), x.svTerm(b, env)
		ta, tb = x.unify(a, ta, b, tb)
		typ := a.typ
		if typ == nil || a.styp == "nil" {
			typ = b.typ
		}
		return SV{t: Ite(c, ta, tb), typ: typ, styp: a.styp}
	case "un":
		if e.Name == "*" {
			p := x.eval(e.Args[0], env)
			pt := deref(p.typ)
			if p.v != nil {
				return SV{t: x.loadPtr(env.st, *p.v, pt), typ: pt}
			}
			return SV{t: x.loadRef(env.st, p.t, pt), typ: pt}
		}
		a := x.eval(e.Args[0], env)
		t := x.svTerm(a, env)
		if e.Name == "!" {
			return SV{t: Not(t), typ: types.Typ[types.Bool]}
		}
		return SV{t: Neg(t), typ: a.typ}
	case "bin":
		return x.evalBin(e, env)
	case "quant":
		c := *env
		c.vars = map[string]SV{}
		for k, v := range env.vars {
			c.vars[k] = v
		}
		var bs []*Term
		for _, b := range e.Vars {
			srt, typ := x.specType(b.Type, env.pkg)
			bv := FreshB(b.Name, srt)
			bs = append(bs, bv)
			c.vars[b.Name] = SV{t: bv, typ: typ, styp: b.Type}
		}
		body := x.evalBool(e.Args[0], &c)
		var pats [][]*Term
		for _, p := range e.Pats {
			var q []*Term
			for _, pe := range p {
				q = append(q, triggerAtoms(x.svTerm(x.eval(pe, &c), &c))...)
			}
			pats = append(pats, q)
		}
		if e.Name == "forall" {
			return SV{t: Forall(bs, body, pats...), typ: types.Typ[types.Bool]}
		}
		return SV{t: Exists(bs, body, pats...), typ: types.Typ[types.Bool]}
	case "sel":
		return x.evalSel(e, env)
	case "index":
		return x.evalIndex(e, env)
	case "upd":
		s := x.eval(e.Args[0], env)
		t := x.svTerm(s, env)
		i := x.svTerm(x.eval(e.Args[1], env), env)
		if t.sort.Kind == "Array" {
			v := x.evalTerm(e.Args[2], env, t.sort.Val)
			return SV{t: Store(t, i, v), typ: s.typ, styp: s.styp}
		}
		v := x.svTerm(x.eval(e.Args[2], env), env)
		return SV{t: stepSet(t, step{idx: i}, v), typ: s.typ}
	case "slice":
		s := x.eval(e.Args[0], env)
		t := x.svTerm(s, env)
		lo := Int(0)
		if e.Args[1] != nil {
			lo = x.svTerm(x.eval(e.Args[1], env), env)
		}
		var hi *Term
		if e.Args[2] != nil {
			hi = x.svTerm(x.eval(e.Args[2], env), env)
		}
		if t.sort == SString {
			if hi == nil {
				hi = StrLen(t)
			}
			return SV{t: Substr(t, lo, Sub(hi, lo)), typ: s.typ}
		}
		if hi == nil {
			hi = slLen(t)
		}
		return SV{t: x.subslice(env.st, t, lo, hi), typ: s.typ}
	case "lit":
		srt, typ := x.specType(e.Name, env.pkg)
		_ = srt
		z := zeroOf(typ)
		if len(e.Args) == 0 {
			return SV{t: z, typ: typ}
		}
		el := typ.Underlying().(*types.Slice).Elem()
		arr := zarr(el)
		for i, a := range e.Args {
			arr = Store(arr, Int(int64(i)), x.evalTerm(a, env, sortOf(el)))
		}
		return SV{t: mkSlice(sortOf(el), arr, Int(int64(len(e.Args))), TFalse), typ: typ}
	case "struct":
		b := e.Args[0]
		var typ types.Type
		var t *Term
		if b.Op == "ident" {
			if _, isVar := env.vars[b.Name]; !isVar {
				if o := env.pkg.Scope().Lookup(b.Name); o != nil {
					if tn, ok := o.(*types.TypeName); ok {
						typ, t = tn.Type(), zeroOf(tn.Type())
					}
				}
			}
		}
		if b.Op == "sel" && b.Args[0].Op == "ident" {
			if pv := x.eval(b.Args[0], env); pv.pkg != nil {
				if tn, ok := pv.pkg.Scope().Lookup(b.Name).(*types.TypeName); ok {
					typ, t = tn.Type(), zeroOf(tn.Type())
				}
			}
		}
		if t == nil {
			v := x.eval(b, env)
			t, typ = x.svTerm(v, env), v.typ
		}
		st, ok := typ.Underlying().(*types.Struct)
		if !ok {
			unsup("struct literal of %s", typ)
		}
		for i, f := range e.Vars {
			k := -1
			for j := 0; j < st.NumFields(); j++ {
				if st.Field(j).Name() == f.Name {
					k = j
				}
			}
			if k < 0 {
				unsup("no field %s in %s", f.Name, typ)
			}
			t = stepSet(t, step{field: k}, x.evalTerm(e.Args[i+1], env, sortOf(st.Field(k).Type())))
		}
		return SV{t: t, typ: typ}
	case "conv":
		_, typ := x.specType(e.Name, env.pkg)
		a := x.eval(e.Args[0], env)
		return SV{t: x.convert(env.st, V{t: x.svTerm(a, env)}, a.typ, typ).t, typ: typ}
	case "call":
		return x.evalCall(e, env)
	}
	unsup("spec expr %s", e.Op)
	return SV{}
}

// pin turns a state-dependent value (slice cell) into a pure term where possible.
func (x *Exec) pin(s SV, env *SEnv) SV {
	if s.t == nil && s.v != nil && s.v.addr == nil {
		return SV{t: x.term(env.st, *s.v), typ: s.typ, styp: s.styp}
	}
	return s
}

func (x *Exec) unify(a SV, ta *Term, b SV, tb *Term) (*Term, *Term) {
	if ta.sort == tb.sort {
		return ta, tb
	}
	if b.styp == "nil" {
		if z := x.nilOf(a, ta); z != nil {
			return ta, z
		}
	}
	if a.styp == "nil" {
		if z := x.nilOf(b, tb); z != nil {
			return z, tb
		}
	}
	unsup("sorts %s and %s do not match", ta.sort, tb.sort)
	return nil, nil
}

func (x *Exec) nilOf(a SV, ta *Term) *Term {
	if a.typ != nil {
		return zeroOf(a.typ)
	}
	return zeroSort(ta.sort)
}

func (x *Exec) evalIdent(n string, env *SEnv) SV {
	if v, ok := env.vars[n]; ok {
		return v
	}
	switch n {
	case "true", "false":
		return SV{t: Bool(n == "true"), typ: types.Typ[types.Bool]}
	case "nil":
		return nilSV
	}
	if _, ok := x.v.specs.Ghosts[n]; ok {
		k := x.ghostKey(n)
		_, typ := x.specType(x.v.specs.Ghosts[n].Type, env.pkg)
		return SV{t: x.get(env.st, k), typ: typ, styp: x.v.specs.Ghosts[n].Type}
	}
	if s, ok := x.v.specs.Specs[n]; ok && len(s.Params) == 0 {
		return x.applySpec(s, nil, env)
	}
	if env.pkg != nil {
		if o := env.pkg.Scope().Lookup(n); o != nil {
			return x.objVal(o, env)
		}
		for _, p := range x.v.importsOf(env.pkg) {
			if p.Name() == n {
				return SV{pkg: p}
			}
		}
	}
	if p := x.v.anyPkg(n); p != nil {
		return SV{pkg: p}
	}
	unsup("unknown identifier %q in specification", n)
	return SV{}
}

func (x *Exec) objVal(o types.Object, env *SEnv) SV {
	switch c := o.(type) {
	case *types.Const:
		switch c.Val().Kind() {
		case constant.Int:
			bi, _ := new(big.Int).SetString(c.Val().ExactString(), 10)
			return SV{t: BigInt(bi), typ: c.Type()}
		case constant.String:
			return SV{t: Str(constant.StringVal(c.Val())), typ: c.Type()}
		case constant.Bool:
			return SV{t: Bool(constant.BoolVal(c.Val())), typ: c.Type()}
		}
	case *types.Var:
		if g := x.v.globalVar(c); g != nil {
			if v := x.v.globalConst(x, g); v != nil {
				return SV{t: v, typ: c.Type()}
			}
			return SV{t: x.get(env.st, x.globalKey(g)), typ: c.Type()}
		}
		// global of a dependency
		if typeKey(c.Type()) == "error" {
			return SV{t: errGlobal(c.Pkg().Path() + "." + c.Name()), typ: c.Type()}
		}
	}
	unsup("object %s in specification", o)
	return SV{}
}

func (x *Exec) evalSel(e *Expr, env *SEnv) SV {
	b := x.eval(e.Args[0], env)
	if b.pkg != nil {
		o := b.pkg.Scope().Lookup(e.Name)
		if o == nil {
			unsup("no %s.%s", b.pkg.Name(), e.Name)
		}
		return x.objVal(o, env)
	}
	if b.typ == nil {
		unsup("selector .%s on value without a Go type", e.Name)
	}
	obj, path, _ := types.LookupFieldOrMethod(b.typ, true, env.pkgOr(b.typ), e.Name)
	if obj == nil {
		if n, ok := types.Unalias(derefOr(b.typ)).(*types.Named); ok && n.Obj().Pkg() != nil {
			obj, path, _ = types.LookupFieldOrMethod(b.typ, true, n.Obj().Pkg(), e.Name)
		}
	}
	if _, ok := obj.(*types.Var); !ok {
		unsup("no field %s in %s", e.Name, b.typ)
	}
	cur := b
	for _, i := range path {
		cur = x.selField(cur, i, env)
	}
	return cur
}

func derefOr(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *SEnv) pkgOr(t types.Type) *types.Package { return e.pkg }

func (x *Exec) selField(b SV, i int, env *SEnv) SV {
	if pt, ok := b.typ.Underlying().(*types.Pointer); ok {
		el := pt.Elem()
		ft := el.Underlying().(*types.Struct).Field(i).Type()
		if b.v != nil && b.v.addr != nil {
			return SV{t: SelN(x.loadAddr(env.st, b.v.addr), i), typ: ft}
		}
		ref := x.svTerm(b, env)
		k := x.fieldKey(el, i)
		x.dep(env, k)
		return SV{t: Select(x.get(env.st, k), ref), typ: ft}
	}
	ft := b.typ.Underlying().(*types.Struct).Field(i).Type()
	return SV{t: SelN(x.svTerm(b, env), i), typ: ft}
}

func (x *Exec) dep(env *SEnv, k string) {
	if env.deps != nil {
		env.deps[k] = true
	}
}

func (x *Exec) evalIndex(e *Expr, env *SEnv) SV {
	b := x.eval(e.Args[0], env)
	iv := x.eval(e.Args[1], env)
	i := x.svTerm(iv, env)
	if b.typ != nil {
		switch u := b.typ.Underlying().(type) {
		case *types.Map:
			m := x.svTerm(b, env)
			x.dep(env, x.mapDomKey(u))
			x.dep(env, x.mapValKey(u))
			_, v := x.mapGet(env.st, m, i, u)
			return SV{t: v, typ: u.Elem()}
		case *types.Slice:
			t := x.svTerm(b, env)
			return SV{t: stepGet(t, step{idx: i}), typ: u.Elem()}
		case *types.Array:
			return SV{t: stepGet(x.svTerm(b, env), step{idx: i, arr: u}), typ: u.Elem()}
		case *types.Basic:
			return SV{t: byteAt(x.svTerm(b, env), i), typ: types.Typ[types.Byte]}
		}
	}
	t := x.svTerm(b, env)
	if t.sort.Kind == "Array" {
		_, et := x.elemSpec(b.styp, env.pkg)
		return SV{t: Select(t, i), typ: et, styp: elemName(b.styp)}
	}
	if t.sort.Kind == "Data" {
		return SV{t: stepGet(t, step{idx: i})}
	}
	unsup("index of %s", t.sort)
	return SV{}
}

// spec sorts: Go types, plus set[K], fun[K]V (total functions), ref, sort names
func (x *Exec) specType(s string, pkg *types.Package) (*Sort, types.Type) {
	s = strings.TrimSpace(s)
	switch {
	case s == "int":
		return SInt, types.Typ[types.Int]
	case s == "bool":
		return SBool, types.Typ[types.Bool]
	case s == "string":
		return SString, types.Typ[types.String]
	case s == "error" || s == "ref":
		if s == "ref" {
			return SInt, nil
		}
		return SInt, types.Universe.Lookup("error").Type()
	case strings.HasPrefix(s, "set["):
		k, _ := x.specType(s[4:len(s)-1], pkg)
		return SArray(k, SBool), nil
	case strings.HasPrefix(s, "fun["):
		kn, vn := splitFun(s)
		k, _ := x.specType(kn, pkg)
		v, _ := x.specType(vn, pkg)
		return SArray(k, v), nil
	case strings.HasPrefix(s, "sort "):
		return SUnint(s[5:]), nil
	}
	t := x.v.resolveType(s, pkg)
	return sortOf(t), t
}

func splitFun(s string) (k, v string) {
	d := 0
	for i := 3; i < len(s); i++ {
		if s[i] == '[' {
			d++
		}
		if s[i] == ']' {
			d--
			if d == 0 {
				return s[4:i], s[i+1:]
			}
		}
	}
	unsup("bad type %s", s)
	return
}

func elemName(s string) string {
	if strings.HasPrefix(s, "fun[") {
		_, v := splitFun(s)
		return v
	}
	return ""
}

func (x *Exec) elemSpec(s string, pkg *types.Package) (*Sort, types.Type) {
	if strings.HasPrefix(s, "set[") {
		return SBool, types.Typ[types.Bool]
	}
	if strings.HasPrefix(s, "fun[") {
		_, v := splitFun(s)
		return x.specType(v, pkg)
	}
	return nil, nil
}

func (v *Verifier) specSort(s string, pkg *types.Package) *Sort {
	x := &Exec{v: v}
	so, _ := x.specType(s, pkg)
	return so
}

func seqEq(a, b *Term) *Term {
	if a.sort.Name == "Bytes" {
		return Eq(SelN(a, 0), SelN(b, 0))
	}
	return And(Eq(slLen(a), slLen(b)), Eq(slArr(a), slArr(b)))
}

func extEq(a, b *Term) *Term {
	j := FreshB("j", SInt)
	sa, sb := Select(slArr(a), j), Select(slArr(b), j)
	var pats [][]*Term
	if sa.op == "select" {
		pats = append(pats, []*Term{sa})
	}
	if sb.op == "select" {
		pats = append(pats, []*Term{sb})
	}
	return And(Eq(slLen(a), slLen(b)), Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, slLen(a))), Eq(sa, sb)), pats...))
}

func isSliceSort(s *Sort) bool {
	return s.Kind == "Data" && (strings.HasPrefix(s.Name, "Slice<") || s.Name == "Bytes")
}

func (x *Exec) evalBin(e *Expr, env *SEnv) SV {
	B := types.Typ[types.Bool]
	switch e.Name {
	case "==>":
		a := x.evalBool(e.Args[0], env)
		if a == TFalse {
			return SV{t: TTrue, typ: B}
		}
		return SV{t: Implies(a, x.evalBool(e.Args[1], env)), typ: B}
	case "<==>":
		return SV{t: Iff(x.evalBool(e.Args[0], env), x.evalBool(e.Args[1], env)), typ: B}
	case "&&":
		a := x.evalBool(e.Args[0], env)
		if a == TFalse {
			return SV{t: TFalse, typ: B}
		}
		return SV{t: And(a, x.evalBool(e.Args[1], env)), typ: B}
	case "||":
		a := x.evalBool(e.Args[0], env)
		if a == TTrue {
			return SV{t: TTrue, typ: B}
		}
		return SV{t: Or(a, x.evalBool(e.Args[1], env)), typ: B}
	case "in":
		k := x.svTerm(x.eval(e.Args[0], env), env)
		m := x.eval(e.Args[1], env)
		if m.typ != nil {
			if mt, ok := m.typ.Underlying().(*types.Map); ok {
				x.dep(env, x.mapDomKey(mt))
				in, _ := x.mapGet(env.st, x.svTerm(m, env), k, mt)
				return SV{t: in, typ: B}
			}
		}
		t := x.svTerm(m, env)
		if t.sort.Kind == "Array" && t.sort.Val == SBool {
			return SV{t: Select(t, k), typ: B}
		}
		if isSliceSort(t.sort) {
			j := FreshB("j", SInt)
			sel := Select(slArr(t), j)
			return SV{t: Exists([]*Term{j}, And(Le(Int(0), j), Lt(j, slLen(t)), Eq(sel, k)), []*Term{sel}), typ: B}
		}
		unsup("in on %s", t.sort)
	}
	a, b := x.eval(e.Args[0], env), x.eval(e.Args[1], env)
	ta, tb := x.svTerm(a, env), x.svTerm(b, env)
	ta, tb = x.unify(a, ta, b, tb)
	switch e.Name {
	case "==", "!=":
		var r *Term
		switch {
		case isSliceSort(ta.sort) && (a.styp == "nil" || b.styp == "nil"):
			if a.styp == "nil" {
				r = slNil(tb)
			} else {
				r = slNil(ta)
			}
		case isSliceSort(ta.sort):
			r = seqEq(ta, tb)
		default:
			r = Eq(ta, tb)
		}
		if e.Name == "!=" {
			r = Not(r)
		}
		return SV{t: r, typ: B}
	}
	if ta.sort == SString {
		switch e.Name {
		case "+":
			return SV{t: Concat(ta, tb), typ: types.Typ[types.String]}
		case "<":
			return SV{t: strLt(ta, tb), typ: B}
		case "<=":
			return SV{t: Not(strLt(tb, ta)), typ: B}
		case ">":
			return SV{t: strLt(tb, ta), typ: B}
		case ">=":
			return SV{t: Not(strLt(ta, tb)), typ: B}
		}
	}
	if ta.sort == SInt {
		I := a.typ
		if I == nil {
			I = types.Typ[types.Int]
		}
		switch e.Name {
		case "+":
			return SV{t: Add(ta, tb), typ: I}
		case "-":
			return SV{t: Sub(ta, tb), typ: I}
		case "*":
			return SV{t: Mul(ta, tb), typ: I}
		case "/":
			return SV{t: Div(ta, tb), typ: I}
		case "%":
			return SV{t: Mod(ta, tb), typ: I}
		case "<":
			return SV{t: Lt(ta, tb), typ: B}
		case "<=":
			return SV{t: Le(ta, tb), typ: B}
		case ">":
			return SV{t: Gt(ta, tb), typ: B}
		case ">=":
			return SV{t: Ge(ta, tb), typ: B}
		}
	}
	unsup("spec operator %s on %s", e.Name, ta.sort)
	return SV{}
}

func (x *Exec) evalCall(e *Expr, env *SEnv) SV {
	B := types.Typ[types.Bool]
	S := types.Typ[types.String]
	I := types.Typ[types.Int]
	f := e.Args[0]
	args := e.Args[1:]
	at := func(i int) *Term { return x.svTerm(x.eval(args[i], env), env) }
	strOf := func(i int) *Term {
		t := at(i)
		if t.sort.Name == "Bytes" {
			return SelN(t, 0)
		}
		return t
	}
	if f.Op == "ident" {
		switch f.Name {
		case "len":
			a := x.eval(args[0], env)
			if a.typ != nil {
				if mt, ok := a.typ.Underlying().(*types.Map); ok {
					d := Select(x.get(env.st, x.mapDomKey(mt)), x.svTerm(a, env))
					return SV{t: App("card:"+sortTag(d.sort), SInt, d), typ: I}
				}
				if ar, ok := a.typ.Underlying().(*types.Array); ok {
					return SV{t: Int(ar.Len()), typ: I}
				}
			}
			t := x.svTerm(a, env)
			if t.sort == SString {
				return SV{t: StrLen(t), typ: I}
			}
			return SV{t: slLen(t), typ: I}
		case "hasPrefix":
			return SV{t: StrOp("str.prefixof", SBool, strOf(1), strOf(0)), typ: B}
		case "hasSuffix":
			return SV{t: StrOp("str.suffixof", SBool, strOf(1), strOf(0)), typ: B}
		case "contains":
			return SV{t: StrOp("str.contains", SBool, strOf(0), strOf(1)), typ: B}
		case "indexOf":
			return SV{t: StrOp("str.indexof", SInt, strOf(0), strOf(1), Int(0)), typ: I}
		case "str":
			t := at(0)
			if t.sort.Name == "Bytes" {
				return SV{t: SelN(t, 0), typ: S}
			}
			return SV{t: t, typ: S}
		case "itoa":
			return SV{t: App("itoa", SString, at(0)), typ: S}
		case "zeros":
			return SV{t: App("zeros", SString, at(0)), typ: S}
		case "fresh":
			x.declare(allocKey, SInt)
			return SV{t: And(Lt(x.get(env.old, allocKey), at(0)), Le(at(0), x.get(env.st, allocKey))), typ: B}
		case "allocated":
			x.declare(allocKey, SInt)
			return SV{t: Le(at(0), x.get(env.st, allocKey)), typ: B}
		case "isNil":
			t := at(0)
			if isSliceSort(t.sort) {
				return SV{t: slNil(t), typ: B}
			}
			return SV{t: Eq(t, Int(0)), typ: B}
		case "ident": // the same value, representation included
			return SV{t: Eq(at(0), at(1)), typ: B}
		case "same": // extensional sequence equality
			return SV{t: extEq(at(0), at(1)), typ: B}
		case "dom":
			a := x.eval(args[0], env)
			mt := a.typ.Underlying().(*types.Map)
			x.dep(env, x.mapDomKey(mt))
			return SV{t: Select(x.get(env.st, x.mapDomKey(mt)), x.svTerm(a, env)), styp: "set[" + typeName(mt.Key()) + "]"}
		case "vals":
			a := x.eval(args[0], env)
			mt := a.typ.Underlying().(*types.Map)
			x.dep(env, x.mapValKey(mt))
			return SV{t: Select(x.get(env.st, x.mapValKey(mt)), x.svTerm(a, env)), styp: "fun[" + typeName(mt.Key()) + "]" + typeName(mt.Elem())}
		case "append":
			a := x.eval(args[0], env)
			t := x.svTerm(a, env)
			if t.sort.Name == "Bytes" {
				return SV{t: Mk(dBytes(), Concat(SelN(t, 0), strOf(1)), TFalse), typ: a.typ}
			}
			es := sliceElemSort(t)
			arr, n := slArr(t), slLen(t)
			for i := 1; i < len(args); i++ {
				arr = Store(arr, n, x.evalTerm(args[i], env, es))
				n = Add(n, Int(1))
			}
			return SV{t: mkSlice(es, arr, n, TFalse), typ: a.typ}
		case "errIs":
			return SV{t: x.errIs(env.st, at(0), at(1)), typ: B}
		case "errAs", "asVal":
			_, typ := x.specType(specTypeText(args[1]), env.pkg)
			ok, v := x.asErr(env.st, at(0), typ)
			if f.Name == "errAs" {
				return SV{t: ok, typ: B}
			}
			return SV{t: v, typ: typ}
		case "typeIs":
			_, typ := x.specType(specTypeText(args[1]), env.pkg)
			return SV{t: x.isTag(at(0), typ), typ: B}
		case "unboxed": // the value of type T in an interface (meaningful under typeIs)
			_, typ := x.specType(specTypeText(args[1]), env.pkg)
			return SV{t: x.unbox(at(0), typ), typ: typ}
		case "box":
			a := x.eval(args[0], env)
			return SV{t: x.boxTerm(env.st, x.svTerm(a, env), a.typ), typ: nil}
		case "bit":
			// bit(x, mask): x & mask != 0
			m := at(1)
			if m.op != "int" {
				unsup("bit needs a constant mask")
			}
			return SV{t: Neq(maskAnd(at(0), m.i), Int(0)), typ: B}
		case "band":
			m := at(1)
			if m.op != "int" {
				return SV{t: bitop(17, at(0), m), typ: I}
			}
			return SV{t: maskAnd(at(0), m.i), typ: x.eval(args[0], env).typ}
		case "min":
			a, b := at(0), at(1)
			return SV{t: Ite(Le(a, b), a, b), typ: I}
		case "max":
			a, b := at(0), at(1)
			return SV{t: Ite(Le(b, a), a, b), typ: I}
		case "ref":
			return SV{t: at(0), typ: nil}
		case "typed": // typed(expr, T): view a ref as *T
			_, typ := x.specType(strings.TrimSpace(specTypeText(args[1])), env.pkg)
			return SV{t: at(0), typ: typ}
		case "inre": // inre(s, "regex"): full match
			return SV{t: inRe(strOf(0), args[1].Name), typ: B}
		case "group": // group(s, "regex", i): capture group of an anchored expression
			i := at(2)
			if i.op != "int" || args[1].Op != "str" {
				unsup("group needs a literal expression and index")
			}
			s := strOf(0)
			if !s.hasB {
				x.Assume(TTrue, reFacts(s, args[1].Name))
			}
			return SV{t: reGroup(s, args[1].Name, int(i.i.Int64())), typ: S}
		case "toInt": // value of a string of decimal digits
			return SV{t: StrOp("str.to_int", SInt, strOf(0)), typ: I}
		case "atoi":
			return SV{t: atoiVal(strOf(0)), typ: I}
		case "octOK":
			return SV{t: octOK(strOf(0)), typ: B}
		case "octVal":
			return SV{t: octVal(strOf(0)), typ: types.Typ[types.Int]}
		case "oct4":
			return SV{t: oct4(at(0)), typ: types.Typ[types.String]}
		case "atoiOK":
			return SV{t: atoiOK(strOf(0)), typ: B}
		case "applied": // applied(opts, T): a zero T after every function in opts was applied to it
			_, typ := x.specType(specTypeText(args[1]), env.pkg)
			o := x.eval(args[0], env)
			fs, ok := varargs(x.svTerm(o, env))
			if !ok {
				unsup("applied needs a literal list of functions")
			}
			st := env.st.clone()
			st.pc = TTrue
			x.quiet++
			nb := x.noBound
			x.noBound = true
			defer func() { x.quiet--; x.noBound = nb }()
			ref := x.newRef(st)
			x.storeRef(st, ref, typ, zeroOf(typ))
			pv := V{t: ref, typ: types.NewPointer(typ)}
			for _, f := range fs {
				sig := o.typ.Underlying().(*types.Slice).Elem().Underlying().(*types.Signature)
				if !x.knownFn(f) {
					unsup("applied: unknown function")
				}
				_, st = x.callValue(nil, st, f, []V{pv}, sig, 0, "option")
			}
			return SV{t: x.loadRef(st, ref, typ), typ: typ}
		case "emptyset":
			srt, _ := x.specType("set["+specTypeText(args[0])+"]", env.pkg)
			return SV{t: ConstArr(srt, TFalse), styp: "set[" + specTypeText(args[0]) + "]"}
		}
		if s, ok := x.v.specs.Specs[f.Name]; ok {
			var as []SV
			for _, a := range args {
				as = append(as, x.pin(x.eval(a, env), env))
			}
			return x.applySpec(s, as, env)
		}
		// type conversion T(x)
		if env.pkg != nil {
			if o := env.pkg.Scope().Lookup(f.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					a := x.eval(args[0], env)
					return SV{t: x.svTerm(a, env), typ: tn.Type()}
				}
				if fo, ok := o.(*types.Func); ok {
					return x.specGoCall(fo, args, env)
				}
			}
		}
		if o := types.Universe.Lookup(f.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				a := x.eval(args[0], env)
				if f.Name == "string" {
					return SV{t: strOf(0), typ: S}
				}
				return SV{t: x.narrow(x.svTerm(a, env), a.typ, tn.Type()), typ: tn.Type()}
			}
		}
		unsup("unknown function %s in specification", f.Name)
	}
	if f.Op == "sel" {
		b := f.Args[0]
		if b.Op == "ident" {
			if _, isVar := env.vars[b.Name]; !isVar {
				pv := x.eval(b, env)
				if pv.pkg != nil {
					o := pv.pkg.Scope().Lookup(f.Name)
					if fo, ok := o.(*types.Func); ok {
						return x.specGoCall(fo, args, env)
					}
					if tn, ok := o.(*types.TypeName); ok {
						a := x.eval(args[0], env)
						return SV{t: x.svTerm(a, env), typ: tn.Type()}
					}
				}
			}
		}
		// method call on a value: pure library method or contract-pure
		bv := x.eval(b, env)
		if bv.typ != nil {
			obj, path, _ := types.LookupFieldOrMethod(bv.typ, true, env.pkg, f.Name)
			if fo, ok := obj.(*types.Func); ok {
				for _, i := range path[:len(path)-1] {
					bv = x.selField(bv, i, env)
				}
				return x.specGoMethod(fo, bv, args, env)
			}
		}
	}
	unsup("spec call %s", exprStr(f))
	return SV{}
}

func (x *Exec) knownFn(t *Term) bool {
	if t.op != "int" || !t.i.IsInt64() {
		return false
	}
	_, ok := x.clos[t.i.Int64()]
	return ok
}

func specTypeText(e *Expr) string {
	switch e.Op {
	case "ident", "str":
		return e.Name
	case "un":
		return e.Name + specTypeText(e.Args[0])
	case "sel":
		return specTypeText(e.Args[0]) + "." + e.Name
	}
	unsup("type expected, got %s", exprStr(e))
	return ""
}

// specGoCall: a Go function used in a specification. Module functions with a pure contract and
// library functions are applied symbolically; other module functions are executed.
func (x *Exec) specGoCall(fo *types.Func, args []*Expr, env *SEnv) SV {
	sig := fo.Type().(*types.Signature)
	var vs []V
	for i, a := range args {
		sv := x.eval(a, env)
		t := x.svTerm(sv, env)
		if i < sig.Params().Len() {
			want := sortOf(sig.Params().At(i).Type())
			if t.sort != want && sv.styp == "nil" {
				t = zeroOf(sig.Params().At(i).Type())
			}
		}
		vs = append(vs, V{t: t, typ: sv.typ})
	}
	return x.specApply(fo, sig, vs, env)
}

func (x *Exec) specGoMethod(fo *types.Func, recv SV, args []*Expr, env *SEnv) SV {
	sig := fo.Type().(*types.Signature)
	vs := []V{{t: x.svTerm(recv, env), typ: recv.typ}}
	for _, a := range args {
		sv := x.eval(a, env)
		vs = append(vs, V{t: x.svTerm(sv, env), typ: sv.typ})
	}
	// pointer receiver auto-deref is not attempted
	return x.specApply(fo, sig, vs, env)
}

func (x *Exec) specApply(fo *types.Func, sig *types.Signature, vs []V, env *SEnv) SV {
	key := fo.FullName()
	x.quiet++
	nb := x.noBound
	x.noBound = true
	defer func() { x.quiet--; x.noBound = nb }()
	st := env.st.clone()
	st.pc = TTrue
	var r V
	if m, ok := libModels[key]; ok {
		r, _ = m(x, st, vs, sig, nil, 0)
	} else if fn := x.v.funcByObj(fo); fn != nil && x.v.specFor(fn) != nil && x.v.specFor(fn).Pure {
		r, _ = x.applyContract(st, x.v.specFor(fn), sig, fn, vs, 0, fnKey(fn))
	} else if isPureLib(key) || pureIface[key] {
		r = x.pureCall(st, key, vs, sig)
	} else if fn := x.v.funcByObj(fo); fn != nil && len(fn.Blocks) > 0 && x.v.inModule(fn) {
		r, _ = x.execFn(fn, vs, nil, st, x.v.specFor(fn))
	} else {
		unsup("Go function %s in specification", key)
	}
	if len(r.tup) > 0 {
		w := r.tup[0]
		return SV{t: x.term(st, w), typ: sig.Results().At(0).Type()}
	}
	return SV{t: x.term(st, r), typ: sig.Results().At(0).Type()}
}

// ---- spec functions

type recDef struct {
	name   string
	params []*Term
	body   *Term
}

// applySpec: non-recursive spec functions are macros over the current state; recursive ones become
// uninterpreted functions indexed by the store snapshot they read, unfolded by the query builder.
func (x *Exec) applySpec(s *SpecFn, as []SV, env *SEnv) SV {
	rec := s.Rec || s.Opaque && !x.reveal[s.Name]
	if len(as) != len(s.Params) {
		unsup("spec %s: %d args, want %d", s.Name, len(as), len(s.Params))
	}
	pkg := env.pkg
	if s.Pkg != "" {
		pkg = x.v.pkgOf(s.Pkg)
	}
	var ts []*Term
	c := &SEnv{vars: map[string]SV{}, st: env.st, old: env.old, pkg: pkg, deps: env.deps, dep: env.dep + 1}
	if c.dep > 60 {
		unsup("spec function nesting too deep at %s", s.Name)
	}
	for i, p := range s.Params {
		srt, typ := x.specType(p.Type, pkg)
		t := as[i].t
		if t == nil && as[i].v != nil {
			if rec || s.Uninterp || as[i].v.addr == nil {
				t = x.svTerm(as[i], env)
			} else {
				c.vars[p.Name] = as[i]
				continue
			}
		}
		if t.sort != srt {
			if as[i].styp == "nil" && typ != nil {
				t = zeroOf(typ)
			} else {
				unsup("spec %s: argument %s has sort %s, want %s", s.Name, p.Name, t.sort, srt)
			}
		}
		ts = append(ts, t)
		c.vars[p.Name] = SV{t: t, typ: typ, styp: p.Type}
	}
	rs, rt := x.specType(s.Result, pkg)
	if s.Uninterp {
		return SV{t: App("spec:"+s.Name, rs, ts...), typ: rt, styp: s.Result}
	}
	if !rec {
		r := x.eval(s.Body, c)
		t := x.svTerm(r, c)
		if t.sort != rs {
			if r.styp == "nil" && rt != nil {
				t = zeroOf(rt)
			} else {
				unsup("spec %s body has sort %s want %s", s.Name, t.sort, rs)
			}
		}
		return SV{t: t, typ: rt, styp: s.Result}
	}
	// recursive: find footprint
	// (an opaque specification inside the body is unfolded only where it is revealed)
	var shown []string
	for k, on := range x.reveal {
		if on {
			shown = append(shown, k)
		}
	}
	sort.Strings(shown)
	footKey := s.Name + "|" + strings.Join(shown, ",")
	if len(shown) == 0 {
		footKey = s.Name
	}
	foot := x.v.recFoot[footKey]
	if foot == nil {
		if x.v.recBusy[s.Name] {
			// recursive occurrence while computing the footprint
			return SV{t: App("rec:"+s.Name+"?", rs, ts...), typ: rt, styp: s.Result}
		}
		x.v.recBusy[s.Name] = true
		deps := map[string]bool{}
		pc := &SEnv{vars: map[string]SV{}, st: env.st, old: env.old, pkg: pkg, deps: deps}
		for _, p := range s.Params {
			srt, typ := x.specType(p.Type, pkg)
			pc.vars[p.Name] = SV{t: BVar("fp?"+p.Name, srt), typ: typ, styp: p.Type}
		}
		x.eval(s.Body, pc)
		delete(x.v.recBusy, s.Name)
		for k := range deps {
			foot = append(foot, k)
		}
		sort.Strings(foot)
		foot = append(foot, "")
		x.v.recFoot[footKey] = foot
	}
	snapKey := ""
	hs := append([]*Term{}, ts...)
	for _, k := range foot {
		if k != "" {
			x.dep(env, k)
			h := x.get(env.st, k)
			snapKey += fmt.Sprintf("#%d", h.id)
			hs = append(hs, h)
		}
	}
	if s.Opaque {
		// the parts of the store it reads are arguments, so that it can be carried from one state to another
		return SV{t: App(fmt.Sprintf("opq:%s/%d", s.Name, len(hs)), rs, hs...), typ: rt, styp: s.Result}
	}
	name := "rec:" + footKey + snapKey
	if _, ok := x.v.recDefs[name]; !ok {
		d := &recDef{name: name}
		x.v.recDefs[name] = d
		pc := &SEnv{vars: map[string]SV{}, st: env.st, old: env.old, pkg: pkg}
		for _, p := range s.Params {
			srt, typ := x.specType(p.Type, pkg)
			bv := BVar("rp?"+p.Name, srt)
			d.params = append(d.params, bv)
			pc.vars[p.Name] = SV{t: bv, typ: typ, styp: p.Type}
		}
		r := x.eval(s.Body, pc)
		t := x.svTerm(r, pc)
		if t.sort != rs {
			if r.styp == "nil" && rt != nil {
				t = zeroOf(rt)
			} else {
				unsup("spec %s body has sort %s want %s", s.Name, t.sort, rs)
			}
		}
		d.body = t
	}
	return SV{t: App(name, rs, ts...), typ: rt, styp: s.Result}
}

// ---- types in specifications

func (v *Verifier) resolveType(s string, pkg *types.Package) types.Type {
	k := s
	if pkg != nil {
		k = pkg.Path() + "|" + s
	}
	if t, ok := v.typeCache[k]; ok {
		return t
	}
	e, err := parser.ParseExpr(s)
	if err != nil {
		unsup("bad type %q: %v", s, err)
	}
	t := v.typeExpr(e, pkg, s)
	v.typeCache[k] = t
	return t
}

func (v *Verifier) typeExpr(e ast.Expr, pkg *types.Package, s string) types.Type {
	switch t := e.(type) {
	case *ast.Ident:
		if pkg != nil {
			if o, ok := pkg.Scope().Lookup(t.Name).(*types.TypeName); ok {
				return o.Type()
			}
		}
		if o, ok := types.Universe.Lookup(t.Name).(*types.TypeName); ok {
			return o.Type()
		}
	case *ast.SelectorExpr:
		if id, ok := t.X.(*ast.Ident); ok {
			var cand []*types.Package
			if pkg != nil {
				for _, p := range v.importsOf(pkg) {
					if p.Name() == id.Name {
						cand = append(cand, p)
					}
				}
			}
			if p := v.anyPkg(id.Name); p != nil {
				cand = append(cand, p)
			}
			for _, p := range cand {
				if o, ok := p.Scope().Lookup(t.Sel.Name).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
	case *ast.StarExpr:
		return types.NewPointer(v.typeExpr(t.X, pkg, s))
	case *ast.ArrayType:
		if t.Len == nil {
			return types.NewSlice(v.typeExpr(t.Elt, pkg, s))
		}
		if l, ok := t.Len.(*ast.BasicLit); ok {
			var n int64
			fmt.Sscan(l.Value, &n)
			return types.NewArray(v.typeExpr(t.Elt, pkg, s), n)
		}
	case *ast.MapType:
		return types.NewMap(v.typeExpr(t.Key, pkg, s), v.typeExpr(t.Value, pkg, s))
	case *ast.StructType:
		if len(t.Fields.List) == 0 {
			return types.NewStruct(nil, nil)
		}
	case *ast.InterfaceType:
		if len(t.Methods.List) == 0 {
			return types.NewInterfaceType(nil, nil)
		}
	}
	unsup("cannot resolve type %q", s)
	return nil
}

// ---- loop candidates from contracts

func (x *Exec) userCands(f *frame, l *loop, st *State, havoc map[string]bool, phis []*ssa.Phi, fixed map[*ssa.Phi]bool) []cand {
	var out []cand
	// contracts of all frames on the stack
	for fi := len(x.stack) - 1; fi >= 0; fi-- {
		fr := x.stack[fi]
		if fr.spec == nil || len(fr.spec.Invs) == 0 {
			continue
		}
		for _, iv := range fr.spec.Invs {
			out = append(out, x.instInv(fr, f, iv, l, st, havoc, phis, fixed)...)
		}
	}
	return out
}

func (x *Exec) instInv(fr, cur *frame, iv LoopInv, l *loop, st *State, havoc map[string]bool, phis []*ssa.Phi, fixed map[*ssa.Phi]bool) []cand {
	pkg := x.v.pkgOf(fr.spec.Pkg)
	base := &SEnv{vars: map[string]SV{}, st: st, old: fr.entry, pkg: pkg}
	for k, v := range fr.params {
		base.vars[k] = v
	}
	var opts [][]SV
	for _, b := range iv.Binders {
		var o []SV
		if strings.HasPrefix(b.Type, "set[") && strings.HasPrefix(b.Name, "vis") {
			srt, _ := x.specType(b.Type, pkg)
			for k := range havoc {
				if strings.HasPrefix(k, "it:") && x.keySort(k) == srt {
					o = append(o, SV{t: x.get(st, k), styp: b.Type})
				}
			}
			opts = append(opts, o)
			continue
		}
		srt, typ := x.specType(b.Type, pkg)
		match := func(t types.Type) bool {
			if typ == nil {
				return sortOf(t) == srt
			}
			return types.Identical(t, typ) || (b.Type != "int" && sortOf(t) == srt && types.Identical(t.Underlying(), typ.Underlying()))
		}
		// a variable of the binder's name is meant, if there is one
		named := false
		for _, p := range phis {
			named = named || len(b.Name) > 1 && p.Comment == b.Name && !fixed[p] && match(p.Type())
		}
		for _, p := range phis {
			if fixed[p] || !match(p.Type()) || named && p.Comment != b.Name {
				continue
			}
			pv := st.env[p].t
			if p.Comment == "rangeindex" {
				o = append(o, SV{t: Add(pv, Int(1)), typ: typ, styp: b.Type})
			} else {
				o = append(o, SV{t: pv, typ: typ, styp: b.Type})
			}
		}
		// local cells modified by the loop
		var ks []string
		for k := range havoc {
			if strings.HasPrefix(k, "c:") {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if x.keySort(k) == srt {
				o = append(o, SV{t: x.get(st, k), typ: typ, styp: b.Type})
			}
		}
		// outer loop counters and other live registers of the same type are reachable as phis of enclosing loops
		if strings.HasPrefix(b.Name, "outer") {
			o = nil
			for _, fr2 := range x.stack {
				for _, ol := range fr2.inLoops[l.header] {
					if ol == l {
						continue
					}
					for _, ins := range ol.header.Instrs {
						if p, ok := ins.(*ssa.Phi); ok && match(p.Type()) {
							if v, ok := st.env[p]; ok && v.t != nil {
								if p.Comment == "rangeindex" {
									o = append(o, SV{t: Add(v.t, Int(1)), typ: typ, styp: b.Type}, SV{t: v.t, typ: typ, styp: b.Type})
								} else {
									o = append(o, SV{t: v.t, typ: typ, styp: b.Type})
								}
							}
						}
					}
				}
			}
		}
		// any value computed before the loop
		if strings.HasPrefix(b.Name, "live") {
			o = nil
			seen := map[*Term]bool{}
			add := func(v ssa.Value) {
				if p, ok := v.(*ssa.Phi); ok && p.Block() == l.header {
					return
				}
				w, ok := st.env[v]
				if !ok || w.t == nil || w.typ == nil || !match(w.typ) || seen[w.t] {
					return
				}
				seen[w.t] = true
				o = append(o, SV{t: w.t, typ: typ, styp: b.Type})
			}
			for _, p := range cur.fn.Params {
				add(p)
			}
			for _, bl := range cur.fn.Blocks {
				for _, ins := range bl.Instrs {
					if v, ok := ins.(ssa.Value); ok {
						add(v)
					}
				}
			}
		}
		if len(o) == 0 {
			return nil
		}
		opts = append(opts, o)
	}
	var out []cand
	idx := make([]int, len(opts))
	for n := 0; n < 400; n++ {
		env := base
		for i, b := range iv.Binders {
			env = env.with(b.Name, opts[i][idx[i]])
		}
		t, ok := x.tryEvalBool(iv.C.E, env)
		if ok {
			out = append(out, cand{t: t, name: iv.C.Text, user: true, tags: iv.C.Tags})
		}
		k := 0
		for k < len(idx) {
			idx[k]++
			if idx[k] < len(opts[k]) {
				break
			}
			idx[k] = 0
			k++
		}
		if k == len(idx) {
			break
		}
	}
	return out
}

func (x *Exec) tryEvalBool(e *Expr, env *SEnv) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if u, is := r.(unsupported); is {
				if x.v.debug {
					fmt.Println("  [inv] cannot evaluate:", u.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	return x.evalBool(e, env), true
}

// triggerAtoms strips logical connectives and equalities, which may not occur
// in a pattern, down to the applications that mention a bound variable.
func triggerAtoms(t *Term) []*Term {
	switch t.op {
	case "and", "or", "not", "=", "=>", "ite", "<=", "<":
		var out []*Term
		for _, a := range t.args {
			if len(a.args) > 0 && hasBound(a) {
				out = append(out, triggerAtoms(a)...)
			}
		}
		return out
	}
	return []*Term{t}
}

func hasBound(t *Term) bool {
	if t.op == "bvar" {
		return true
	}
	for _, a := range t.args {
		if hasBound(a) {
			return true
		}
	}
	return false
}
