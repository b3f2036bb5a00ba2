package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) instr(f *frame, st *State, ins ssa.Instruction) *State {
	switch t := ins.(type) {
	case *ssa.DebugRef:
		return st
	case *ssa.Alloc:
		typ := deref(t.Type())
		if x.v.localAlloc(t) {
			id := x.newCell(st, sortOf(typ), zeroOf(typ))
			st.env[t] = V{addr: &Addr{kind: aKey, key: cellKey(id), typ: typ}, typ: t.Type()}
			return st
		}
		r := x.newRef(st)
		x.storeRef(st, r, typ, zeroOf(typ))
		if typeKey(typ) == "bytes.Buffer" {
			// an empty buffer has accepted nothing
			if g := x.v.specs.Ghosts["wrOut"]; g != nil && x.v.ghostOn(g) {
				k := x.ghostKey("wrOut")
				x.set(st, k, Store(x.get(st, k), x.boxTerm(st, r, t.Type()), Str("")))
			}
		}
		st.env[t] = V{t: r, typ: t.Type()}
		return st
	case *ssa.Store:
		p := x.val(st, t.Addr)
		v := x.term(st, x.val(st, t.Val))
		x.storePtr(st, p, deref(t.Addr.Type()), v)
		return st
	case *ssa.UnOp:
		return x.unop(f, st, t)
	case *ssa.BinOp:
		a, b := x.val(st, t.X), x.val(st, t.Y)
		st.env[t] = V{t: x.binop(st, t.Op, x.term(st, a), x.term(st, b), t.X.Type(), t.Y.Type(), t.Type(), t.Pos()), typ: t.Type()}
		return st
	case *ssa.FieldAddr:
		p := x.val(st, t.X)
		st.env[t] = x.fieldAddr(st, p, deref(t.X.Type()), t.Field, t.Type())
		return st
	case *ssa.Field:
		v := x.term(st, x.val(st, t.X))
		if v.sort.Kind == "Unint" {
			unsup("field of opaque struct %s", t.X.Type())
		}
		st.env[t] = V{t: SelN(v, t.Field), typ: t.Type()}
		return st
	case *ssa.IndexAddr:
		xv := x.val(st, t.X)
		i := x.term(st, x.val(st, t.Index))
		if pt, ok := t.X.Type().Underlying().(*types.Pointer); ok {
			at := pt.Elem().Underlying().(*types.Array)
			x.bound(st, i, Int(at.Len()), t.Pos(), "array index")
			if xv.addr == nil {
				// boxed array
				xv.addr = &Addr{kind: aHeap, key: x.boxKey(pt.Elem()), ref: xv.t, typ: pt.Elem()}
			}
			st.env[t] = V{addr: xv.addr.extend(step{idx: i, arr: at}, at.Elem()), typ: t.Type()}
			return st
		}
		s := xv
		x.bound(st, i, slLen(x.term(st, s)), t.Pos(), "slice index")
		el := t.X.Type().Underlying().(*types.Slice).Elem()
		st.env[t] = V{addr: &Addr{kind: aSlice, slice: &s, path: []step{{idx: i}}, typ: el}, typ: t.Type()}
		return st
	case *ssa.Index:
		xv := x.term(st, x.val(st, t.X))
		i := x.term(st, x.val(st, t.Index))
		switch u := t.X.Type().Underlying().(type) {
		case *types.Array:
			x.bound(st, i, Int(u.Len()), t.Pos(), "array index")
			st.env[t] = V{t: stepGet(xv, step{idx: i, arr: u}), typ: t.Type()}
		default: // string
			x.bound(st, i, StrLen(xv), t.Pos(), "string index")
			r := byteAt(xv, i)
			st.env[t] = V{t: r, typ: t.Type()}
		}
		return st
	case *ssa.Lookup:
		xv := x.term(st, x.val(st, t.X))
		k := x.term(st, x.val(st, t.Index))
		if isString(t.X.Type()) {
			x.bound(st, k, StrLen(xv), t.Pos(), "string index")
			r := byteAt(xv, k)
			x.Assume(st.pc, And(Le(Int(0), r), Le(r, Int(255))))
			st.env[t] = V{t: r, typ: t.Type()}
			return st
		}
		mt := t.X.Type().Underlying().(*types.Map)
		in, v := x.mapGet(st, xv, k, mt)
		val := Ite(in, v, zeroOf(mt.Elem()))
		x.wfIn(st, val, mt.Elem())
		if t.CommaOk {
			st.env[t] = V{tup: []V{{t: val, typ: mt.Elem()}, {t: in, typ: types.Typ[types.Bool]}}, typ: t.Type()}
		} else {
			st.env[t] = V{t: val, typ: t.Type()}
		}
		return st
	case *ssa.MapUpdate:
		mt := t.Map.Type().Underlying().(*types.Map)
		m := x.term(st, x.val(st, t.Map))
		k := x.term(st, x.val(st, t.Key))
		v := x.term(st, x.val(st, t.Value))
		if !x.noBound && !x.knownNonNil(m) {
			x.Oblige(st, "nil-map", "assignment to nil map", Neq(m, Int(0)), t.Pos(), nil)
		}
		x.mapSet(st, m, k, v, mt)
		return st
	case *ssa.MakeMap:
		mt := t.Type().Underlying().(*types.Map)
		r := x.newRef(st)
		dk := x.mapDomKey(mt)
		x.mapValKey(mt)
		x.set(st, dk, Store(x.get(st, dk), r, ConstArr(SArray(sortOf(mt.Key()), SBool), TFalse)))
		st.env[t] = V{t: r, typ: t.Type()}
		return st
	case *ssa.MakeSlice:
		n := x.term(st, x.val(st, t.Len))
		if !x.noBound {
			x.Oblige(st, "make", "make length non-negative", Le(Int(0), n), t.Pos(), nil)
		}
		el := t.Type().Underlying().(*types.Slice).Elem()
		var z *Term
		if isByte(el) {
			var c *Term
			if n.op == "int" && n.i.IsInt64() && n.i.Int64() < 4096 {
				c = Str(strings.Repeat("\x00", int(n.i.Int64())))
			} else {
				c = App("zeros", SString, n)
				x.Assume(st.pc, Eq(StrLen(c), n))
			}
			z = Mk(dBytes(), c, TFalse)
		} else {
			z = mkSlice(sortOf(el), zarr(el), n, TFalse)
		}
		id := x.newCell(st, z.sort, z)
		st.env[t] = V{cell: id, typ: t.Type()}
		return st
	case *ssa.Slice:
		return x.slice(st, t)
	case *ssa.Convert:
		st.env[t] = x.convert(st, x.val(st, t.X), t.X.Type(), t.Type())
		return st
	case *ssa.ChangeType:
		v := x.val(st, t.X)
		v.typ = t.Type()
		if v.t != nil && v.t.sort != sortOf(t.Type()) {
			v.t = x.coerce(v.t, t.X.Type(), t.Type())
		}
		st.env[t] = v
		return st
	case *ssa.ChangeInterface:
		v := x.val(st, t.X)
		v.typ = t.Type()
		st.env[t] = v
		return st
	case *ssa.MakeInterface:
		v := x.val(st, t.X)
		st.env[t] = V{t: x.box(st, v, t.X.Type()), typ: t.Type()}
		return st
	case *ssa.TypeAssert:
		return x.typeAssert(st, t)
	case *ssa.Extract:
		tv := x.val(st, t.Tuple)
		if len(tv.tup) <= t.Index {
			unsup("extract from non-tuple %s", t)
		}
		v := tv.tup[t.Index]
		v.typ = t.Type()
		st.env[t] = v
		return st
	case *ssa.MakeClosure:
		var bs []V
		for _, b := range t.Bindings {
			bs = append(bs, x.val(st, b))
		}
		st.env[t] = x.fnVal(&FnVal{fn: t.Fn.(*ssa.Function), binds: bs}, t.Type(), "")
		return st
	case *ssa.Range:
		xv := x.term(st, x.val(st, t.X))
		x.cellN++
		key := fmt.Sprintf("it:%d", x.cellN)
		it := &Iter{key: key}
		if mt, ok := t.X.Type().Underlying().(*types.Map); ok {
			it.m = xv
			it.mt = mt
			s := SArray(sortOf(mt.Key()), SBool)
			x.sorts[key] = s
			st.m[key] = ConstArr(s, TFalse)
			x.mapDomKey(mt)
			x.mapValKey(mt)
			it.dom0 = Select(x.get(st, x.mapDomKey(mt)), xv)
		} else {
			it.str = xv
			x.sorts[key] = SInt
			st.m[key] = Int(0)
		}
		st.env[t] = V{iter: it, typ: t.Type()}
		return st
	case *ssa.Next:
		return x.next(st, t)
	case *ssa.Call:
		v, s := x.call(f, st, t.Common(), t, t.Pos())
		if s == nil {
			return nil
		}
		v.typ = t.Type()
		s.env[t] = v
		return s
	case *ssa.Defer:
		d := deferred{pc: st.pc, call: t.Common(), pos: t.Pos(), ins: t}
		c := t.Common()
		if c.IsInvoke() {
			d.args = append(d.args, x.val(st, c.Value))
		} else if _, ok := c.Value.(*ssa.Builtin); !ok {
			d.fnv = x.val(st, c.Value)
		}
		for _, a := range c.Args {
			d.args = append(d.args, x.val(st, a))
		}
		f.defers = append(f.defers, d)
		return st
	case *ssa.RunDefers:
		for i := len(f.defers) - 1; i >= 0; i-- {
			d := f.defers[i]
			st = x.runDeferred(f, st, d)
			if st == nil {
				return nil
			}
		}
		return st
	case *ssa.Go:
		unsup("go statement in %s", f.fn)
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		unsup("channel operation in %s", f.fn)
	}
	unsup("instruction %T in %s", ins, f.fn)
	return nil
}

func (x *Exec) wfIn(st *State, t *Term, typ types.Type) {
	if t.hasB || isLit(t) {
		return
	}
	x.Assume(st.pc, x.wfTerm(st, t, typ, 2))
}

func (x *Exec) runDeferred(f *frame, st *State, d deferred) *State {
	// was it deferred on this path?
	pc := st.pc
	have := map[*Term]bool{}
	for _, c := range conj(pc) {
		have[c] = true
	}
	var missing []*Term
	for _, c := range conj(d.pc) {
		if have[c] {
			continue
		}
		if have[Not(c)] {
			return st
		}
		missing = append(missing, c)
	}
	// named reach conditions: fall back to splitting
	cond := And(missing...)
	if cond == TTrue {
		return x.runDeferredNow(f, st, d)
	}
	s1 := st.clone()
	s1.pc = And(pc, cond)
	s2 := st
	s2.pc = And(pc, Not(cond))
	r := x.runDeferredNow(f, s1, d)
	if r == nil {
		return s2
	}
	m := x.mergeStates([]edge{{st: r}, {st: s2}})
	return m
}

func (x *Exec) runDeferredNow(f *frame, st *State, d deferred) *State {
	_, s := x.callWith(f, st, d.call, d.fnv, d.args, d.ins, d.pos)
	return s
}

func (x *Exec) knownNonNil(m *Term) bool {
	return m.op == "sym" && strings.HasPrefix(m.name, "ref!")
}

func (x *Exec) bound(st *State, i, n *Term, pos token.Pos, what string) {
	if x.noBound {
		return
	}
	g := And(Le(Int(0), i), Lt(i, n))
	if g == TTrue {
		return
	}
	x.Oblige(st, "bounds", fmt.Sprintf("%s#%s in range", x.fn.Name(), what), g, pos, nil)
}

func (x *Exec) mapGet(st *State, m, k *Term, mt *types.Map) (in, v *Term) {
	dom := Select(x.get(st, x.mapDomKey(mt)), m)
	val := Select(x.get(st, x.mapValKey(mt)), m)
	in = And(Neq(m, Int(0)), Select(dom, k))
	if x.knownNonNil(m) {
		in = Select(dom, k)
	}
	return in, Select(val, k)
}

func (x *Exec) mapSet(st *State, m, k, v *Term, mt *types.Map) {
	dk, vk := x.mapDomKey(mt), x.mapValKey(mt)
	d, w := x.get(st, dk), x.get(st, vk)
	x.set(st, dk, Store(d, m, Store(Select(d, m), k, TTrue)))
	x.set(st, vk, Store(w, m, Store(Select(w, m), k, v)))
}

func (x *Exec) mapDel(st *State, m, k *Term, mt *types.Map) {
	dk := x.mapDomKey(mt)
	d := x.get(st, dk)
	x.set(st, dk, Store(d, m, Store(Select(d, m), k, TFalse)))
}

func (x *Exec) fieldAddr(st *State, p V, typ types.Type, i int, rt types.Type) V {
	stt := typ.Underlying().(*types.Struct)
	ft := stt.Field(i).Type()
	if p.addr != nil {
		if isOpaqueStruct(typ) {
			unsup("field of opaque struct %s", typ)
		}
		return V{addr: p.addr.extend(step{field: i}, ft), typ: rt}
	}
	if isOpaqueStruct(typ) {
		unsup("field of opaque struct %s", typ)
	}
	return V{addr: &Addr{kind: aHeap, key: x.fieldKey(typ, i), ref: p.t, typ: ft}, typ: rt}
}

func (x *Exec) unop(f *frame, st *State, t *ssa.UnOp) *State {
	switch t.Op {
	case token.MUL:
		p := x.val(st, t.X)
		typ := deref(t.X.Type())
		if g, ok := t.X.(*ssa.Global); ok {
			if v := x.v.globalConst(x, g); v != nil {
				st.env[t] = V{t: v, typ: typ}
				return st
			}
		}
		v := x.loadPtr(st, p, typ)
		x.wfIn(st, v, typ)
		r := V{t: v, typ: typ}
		if _, ok := typ.Underlying().(*types.Slice); ok {
			if p.addr != nil {
				r.prov = p.addr
			} else {
				r.prov = &Addr{kind: aHeap, key: x.boxKey(typ), ref: p.t, typ: typ}
			}
		}
		st.env[t] = r
		return st
	case token.NOT:
		st.env[t] = V{t: Not(x.term(st, x.val(st, t.X))), typ: t.Type()}
		return st
	case token.SUB:
		v := x.term(st, x.val(st, t.X))
		if v.sort != SInt {
			unsup("float negation")
		}
		st.env[t] = V{t: x.arithWrap(Neg(v), t.Type()), typ: t.Type()}
		return st
	case token.XOR:
		v := x.term(st, x.val(st, t.X))
		// ^x = -x-1 (signed) ; max-x (unsigned)
		if isUnsigned(t.Type()) {
			_, hi, _ := intRange(t.Type())
			st.env[t] = V{t: Sub(BigInt(hi), v), typ: t.Type()}
		} else {
			st.env[t] = V{t: Sub(Int(-1), v), typ: t.Type()}
		}
		return st
	}
	unsup("unary %s in %s", t.Op, f.fn)
	return nil
}

func (x *Exec) arithWrap(t *Term, typ types.Type) *Term {
	b, ok := typ.Underlying().(*types.Basic)
	if !ok {
		return t
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		x.note("int/int64 arithmetic is treated as unbounded mathematical integers")
		return t
	case types.Uint64, types.Uint, types.Uintptr:
		return wrapTo(t, typ)
	}
	return wrapTo(t, typ)
}

func (x *Exec) eqTerm(st *State, a, b *Term, typ types.Type) *Term {
	if a.sort.Kind == "Data" && strings.HasPrefix(a.sort.Name, "Slice<") {
		// only comparison with nil is legal in Go
		if isNilSlice(b) {
			return slNil(a)
		}
		if isNilSlice(a) {
			return slNil(b)
		}
	}
	if a.sort.Name == "Bytes" {
		if b.op == "mk" && b.args[1] == TTrue {
			return slNil(a)
		}
		if a.op == "mk" && a.args[1] == TTrue {
			return slNil(b)
		}
	}
	return Eq(a, b)
}

func isNilSlice(t *Term) bool { return t.op == "mk" && len(t.args) == 3 && t.args[2] == TTrue }

func (x *Exec) binop(st *State, op token.Token, a, b *Term, at, bt, rt types.Type, pos token.Pos) *Term {
	if op == token.EQL || op == token.NEQ {
		if isInterface(at) != isInterface(bt) {
			if isInterface(at) {
				b = x.boxTerm(st, b, bt)
			} else {
				a = x.boxTerm(st, a, at)
			}
		}
		e := x.eqTerm(st, a, b, at)
		if op == token.NEQ {
			return Not(e)
		}
		return e
	}
	if a.sort == SString {
		switch op {
		case token.ADD:
			return Concat(a, b)
		case token.LSS:
			return strLt(a, b)
		case token.GTR:
			return strLt(b, a)
		case token.LEQ:
			return Not(strLt(b, a))
		case token.GEQ:
			return Not(strLt(a, b))
		}
	}
	if a.sort == SInt {
		switch op {
		case token.LSS:
			return Lt(a, b)
		case token.LEQ:
			return Le(a, b)
		case token.GTR:
			return Gt(a, b)
		case token.GEQ:
			return Ge(a, b)
		case token.ADD:
			return x.arithWrap(Add(a, b), rt)
		case token.SUB:
			return x.arithWrap(Sub(a, b), rt)
		case token.MUL:
			return x.arithWrap(Mul(a, b), rt)
		case token.QUO, token.REM:
			if !x.noBound && !(b.op == "int" && b.i.Sign() != 0) {
				x.Oblige(st, "div", "division by zero", Neq(b, Int(0)), pos, nil)
			}
			return quoRem(op, a, b, isUnsigned(at))
		case token.AND, token.OR, token.AND_NOT, token.XOR:
			return bitop(op, a, b)
		case token.SHL:
			if b.op == "int" && b.i.IsInt64() && b.i.Int64() < 64 && b.i.Sign() >= 0 {
				return x.arithWrap(Mul(a, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(b.i.Int64())))), rt)
			}
			return App("shl", SInt, a, b)
		case token.SHR:
			if b.op == "int" && b.i.IsInt64() && b.i.Int64() < 64 && b.i.Sign() >= 0 {
				return Div(a, BigInt(new(big.Int).Lsh(big.NewInt(1), uint(b.i.Int64()))))
			}
			return App("shr", SInt, a, b)
		}
	}
	if a.sort.Name == "Float" {
		x.note("floating-point operations are uninterpreted")
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return App("f"+op.String(), SBool, a, b)
		}
		return App("f"+op.String(), a.sort, a, b)
	}
	unsup("binary %s on %s", op, at)
	return nil
}

func strLt(a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		return Bool(a.name < b.name)
	}
	if a == b {
		return TFalse
	}
	return StrOp("str.<", SBool, a, b)
}

func quoRem(op token.Token, a, b *Term, uns bool) *Term {
	if uns {
		if op == token.QUO {
			return Div(a, b)
		}
		return Mod(a, b)
	}
	if b.op == "int" && b.i.Sign() > 0 {
		q := Ite(Le(Int(0), a), Div(a, b), Neg(Div(Neg(a), b)))
		if op == token.QUO {
			return q
		}
		return Sub(a, Mul(q, b))
	}
	q := App("goquo", SInt, a, b)
	if op == token.QUO {
		return q
	}
	return Sub(a, Mul(q, b))
}

// bitop: exact for non-negative a and constant b (mask as runs of bits).
func bitop(op token.Token, a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.i, b.i)
		case token.OR:
			r.Or(a.i, b.i)
		case token.AND_NOT:
			r.AndNot(a.i, b.i)
		case token.XOR:
			r.Xor(a.i, b.i)
		}
		return BigInt(r)
	}
	if a.op == "int" && op != token.AND_NOT {
		a, b = b, a
	}
	if b.op == "int" && b.i.Sign() >= 0 {
		and := maskAnd(a, b.i)
		switch op {
		case token.AND:
			return and
		case token.OR:
			return Add(Sub(a, and), b)
		case token.AND_NOT:
			return Sub(a, and)
		case token.XOR:
			return Add(Sub(a, Mul(Int(2), and)), b)
		}
	}
	if a == b {
		switch op {
		case token.AND, token.OR:
			return a
		case token.AND_NOT, token.XOR:
			return Int(0)
		}
	}
	and := App("bvand", SInt, a, b)
	if a.id > b.id {
		and = App("bvand", SInt, b, a)
	}
	switch op {
	case token.AND:
		return and
	case token.OR:
		return Sub(Add(a, b), and)
	case token.AND_NOT:
		return Sub(a, and)
	}
	return Sub(Add(a, b), Mul(Int(2), and))
}

func maskAnd(a *Term, m *big.Int) *Term {
	if a.op == "ite" {
		return Ite(a.args[0], maskAnd(a.args[1], m), maskAnd(a.args[2], m))
	}
	if a.op == "int" {
		return BigInt(new(big.Int).And(a.i, m))
	}
	r := Int(0)
	n := m.BitLen()
	for i := 0; i < n; {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		lo := new(big.Int).Lsh(big.NewInt(1), uint(i))
		w := new(big.Int).Lsh(big.NewInt(1), uint(j-i))
		d := a
		if i > 0 {
			d = Div(a, BigInt(lo))
		}
		r = Add(r, Mul(Mod(d, BigInt(w)), BigInt(lo)))
		i = j
	}
	return r
}

func (x *Exec) slice(st *State, t *ssa.Slice) *State {
	xv := x.val(st, t.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.term(st, x.val(st, v))
	}
	lo, hi, max := opt(t.Low), opt(t.High), opt(t.Max)
	_ = max
	if pt, ok := t.X.Type().Underlying().(*types.Pointer); ok { // array pointer
		at := pt.Elem().Underlying().(*types.Array)
		arr := x.loadPtr(st, xv, pt.Elem())
		n := Int(at.Len())
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = n
		}
		if isByte(at.Elem()) {
			r := V{t: Mk(dBytes(), Substr(arr, lo, Sub(hi, lo)), TFalse), typ: t.Type()}
			st.env[t] = r
			return st
		}
		if lo != Int(0) {
			unsup("slice of array with offset")
		}
		r := V{t: mkSlice(sortOf(at.Elem()), arr, hi, TFalse), typ: t.Type()}
		st.env[t] = r
		return st
	}
	s := x.term(st, xv)
	if isString(t.X.Type()) {
		n := StrLen(s)
		if lo == nil {
			lo = Int(0)
		}
		if hi == nil {
			hi = n
		}
		x.sliceBound(st, lo, hi, n, t.Pos(), true)
		st.env[t] = V{t: Substr(s, lo, Sub(hi, lo)), typ: t.Type()}
		return st
	}
	n := slLen(s)
	if lo == nil {
		lo = Int(0)
	}
	if hi == nil {
		hi = n
	}
	x.sliceBound(st, lo, hi, n, t.Pos(), false)
	r := V{t: x.subslice(st, s, lo, hi), typ: t.Type()}
	if s.sort.Name == "Bytes" {
		r.wof, r.wcur, r.wlo = &xv, s, lo
	}
	st.env[t] = r
	return st
}

func (x *Exec) subslice(st *State, s, lo, hi *Term) *Term {
	if s.sort.Name == "Bytes" {
		return Mk(dBytes(), Substr(SelN(s, 0), lo, Sub(hi, lo)), SelN(s, 1))
	}
	arr := slArr(s)
	if lo != Int(0) {
		na := App("shift:"+sortTag(arr.sort), arr.sort, arr, lo)
		if !na.hasB {
			j := BVar("j", SInt)
			sel := Select(na, j)
			x.Assume(TTrue, Forall([]*Term{j}, Eq(sel, Select(arr, Add(j, lo))), []*Term{sel}))
		}
		arr = na
	}
	return mkSlice(arr.sort.Val, arr, Sub(hi, lo), slNil(s))
}

func (x *Exec) sliceBound(st *State, lo, hi, n *Term, pos token.Pos, str bool) {
	if x.noBound {
		return
	}
	// for slices the true bound is cap; len is what is tracked (stricter)
	g := And(Le(Int(0), lo), Le(lo, hi), Le(hi, n))
	if g == TTrue {
		return
	}
	x.Oblige(st, "bounds", fmt.Sprintf("%s#slice bounds in range", x.fn.Name()), g, pos, nil)
}

func (x *Exec) convert(st *State, v V, from, to types.Type) V {
	ft, tt := from.Underlying(), to.Underlying()
	if isString(to) && isByteSlice(from) {
		return V{t: SelN(x.term(st, v), 0), typ: to}
	}
	if isByteSlice(to) && isString(from) {
		s := x.term(st, v)
		return V{t: Mk(dBytes(), s, TFalse), typ: to}
	}
	fb, ok1 := ft.(*types.Basic)
	tb, ok2 := tt.(*types.Basic)
	if ok1 && ok2 {
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
			return V{t: x.narrow(x.term(st, v), from, to), typ: to}
		}
		if fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0 {
			v.typ = to
			return v
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
			n := x.term(st, v)
			r := App("runeString", SString, n)
			x.Assume(st.pc, Implies(And(Le(Int(0), n), Lt(n, Int(128))), Eq(r, StrOp("str.from_code", SString, n))))
			return V{t: r, typ: to}
		}
		if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0 {
			return V{t: App("int2float", SUnint("Float"), x.term(st, v)), typ: to}
		}
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0 {
			return V{t: App("float2int", SInt, x.term(st, v)), typ: to}
		}
		if fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0 {
			v.typ = to
			return v
		}
	}
	unsup("conversion %s -> %s", from, to)
	return V{}
}

func (x *Exec) narrow(t *Term, from, to types.Type) *Term {
	flo, fhi, ok1 := intRange(from)
	tlo, thi, ok2 := intRange(to)
	if !ok1 || !ok2 {
		return t
	}
	if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
		return t
	}
	return wrapTo(t, to)
}

func (x *Exec) coerce(t *Term, from, to types.Type) *Term {
	if t.sort.Kind == "Data" && strings.HasPrefix(sortOf(to).Kind, "Data") {
		d := dataTab[sortOf(to).Name]
		var as []*Term
		for i := range d.Fields {
			as = append(as, SelN(t, i))
		}
		return Mk(d, as...)
	}
	unsup("change type %s -> %s", from, to)
	return nil
}

// ---- interfaces

var typeIDs = map[string]int64{}

func typeID(t types.Type) int64 {
	k := fullTypeName(t)
	if id, ok := typeIDs[k]; ok {
		return id
	}
	id := int64(len(typeIDs) + 1)
	typeIDs[k] = id
	return id
}

func (x *Exec) box(st *State, v V, typ types.Type) *Term {
	if v.addr != nil {
		// boxing the address of a local: opaque identity
		unsup("address of local %s stored in interface", typ)
	}
	return x.boxTerm(st, x.term(st, v), typ)
}

func (x *Exec) boxTerm(st *State, t *Term, typ types.Type) *Term {
	if isInterface(typ) {
		return t
	}
	b := App("box:"+typeName(typ), SInt, t)
	if !b.hasB {
		x.Assume(TTrue, And(Lt(Int(0), b), Eq(App("tag", SInt, b), Int(typeID(typ))), Eq(App("unbox:"+typeName(typ), t.sort, b), t)))
		x.boxOf[b] = boxInfo{t, typ}
	} else {
		x.boxOf[b] = boxInfo{t, typ}
	}
	return b
}

func (x *Exec) isTag(t *Term, typ types.Type) *Term {
	if t.op == "int" {
		return TFalse
	}
	if t.op == "ite" {
		return Ite(t.args[0], x.isTag(t.args[1], typ), x.isTag(t.args[2], typ))
	}
	if bi, ok := x.boxOf[t]; ok {
		if isInterface(typ) {
			if types.Implements(bi.typ, typ.Underlying().(*types.Interface)) {
				return TTrue
			}
			return TFalse
		}
		return Bool(types.Identical(bi.typ, typ))
	}
	if isInterface(typ) {
		return And(Neq(t, Int(0)), App("implements:"+typeName(typ), SBool, App("tag", SInt, t)))
	}
	return And(Neq(t, Int(0)), Eq(App("tag", SInt, t), Int(typeID(typ))))
}

func (x *Exec) unbox(t *Term, typ types.Type) *Term {
	if isInterface(typ) {
		return t
	}
	if t.op == "ite" {
		return Ite(t.args[0], x.unbox(t.args[1], typ), x.unbox(t.args[2], typ))
	}
	if bi, ok := x.boxOf[t]; ok && types.Identical(bi.typ, typ) {
		return bi.v
	}
	if t.op == "int" {
		return zeroOf(typ)
	}
	return App("unbox:"+typeName(typ), sortOf(typ), t)
}

func (x *Exec) typeAssert(st *State, t *ssa.TypeAssert) *State {
	v := x.term(st, x.val(st, t.X))
	ok := x.isTag(v, t.AssertedType)
	u := x.unbox(v, t.AssertedType)
	// ok implies box(unbox(v)) == v
	if !isInterface(t.AssertedType) && u.op == "app" {
		x.Assume(TTrue, Implies(ok, Eq(App("box:"+typeName(t.AssertedType), SInt, u), v)))
		x.wfIn(st, u, t.AssertedType)
	}
	if t.CommaOk {
		r := Ite(ok, u, zeroOf(t.AssertedType))
		st.env[t] = V{tup: []V{{t: r, typ: t.AssertedType}, {t: ok, typ: types.Typ[types.Bool]}}, typ: t.Type()}
		return st
	}
	if !x.noBound {
		x.Oblige(st, "type-assert", "type assertion holds", ok, t.Pos(), nil)
	}
	x.Assume(st.pc, ok) // otherwise the program has panicked
	st.env[t] = V{t: u, typ: t.Type()}
	return st
}

func (x *Exec) next(st *State, t *ssa.Next) *State {
	it := x.val(st, t.Iter).iter
	if it == nil {
		unsup("next on unknown iterator")
	}
	if t.IsString {
		x.note("range over a string is modelled byte-wise; strings are assumed ASCII there")
		p := x.get(st, it.key)
		ok := Lt(p, StrLen(it.str))
		r := byteAt(it.str, p)
		x.set(st, it.key, Ite(ok, Add(p, Int(1)), p))
		st.env[t] = V{tup: []V{{t: ok, typ: types.Typ[types.Bool]}, {t: p, typ: types.Typ[types.Int]}, {t: r, typ: types.Typ[types.Rune]}}, typ: t.Type()}
		return st
	}
	ok := Fresh("mapok", SBool)
	k := Fresh("mapkey", sortOf(it.mt.Key()))
	x.wf(st, k, it.mt.Key())
	vis := x.get(st, it.key)
	in, v := x.mapGet(st, it.m, k, it.mt)
	x.Assume(st.pc, Implies(ok, And(in, Not(Select(vis, k)))))
	bk := FreshB("k", sortOf(it.mt.Key()))
	dom := Select(x.get(st, x.mapDomKey(it.mt)), it.m)
	x.Assume(st.pc, Implies(And(Not(ok), Neq(it.m, Int(0))), Forall([]*Term{bk}, Implies(And(Select(dom, bk), Select(it.dom0, bk)), Select(vis, bk)), []*Term{Select(vis, bk)}, []*Term{Select(dom, bk)})))
	x.wfIn(st, v, it.mt.Elem())
	x.set(st, it.key, Ite(ok, Store(vis, k, TTrue), vis))
	st.env[t] = V{tup: []V{{t: ok, typ: types.Typ[types.Bool]}, {t: k, typ: it.mt.Key()}, {t: v, typ: it.mt.Elem()}}, typ: t.Type()}
	return st
}
