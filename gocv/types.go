package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

type unsupported struct{ msg string }

func (u unsupported) Error() string { return u.msg }
func unsup(f string, a ...any)      { panic(unsupported{fmt.Sprintf(f, a...)}) }

func shortPkg(p *types.Package) string {
	if p == nil {
		return ""
	}
	return p.Name()
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fullTypeName(t types.Type) string { return types.TypeString(t, nil) }

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isByte(s.Elem())
}
func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isByteArray(t types.Type) bool {
	s, ok := t.Underlying().(*types.Array)
	return ok && isByte(s.Elem())
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isInterface(t types.Type) bool { return types.IsInterface(t) }

func dBytes() *Data {
	return defData("Bytes", []string{"str", "nil"}, []*Sort{SString, SBool})
}

// opaque: non-module struct types without exported fields are uninterpreted values.
func isOpaqueStruct(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path()+"/", modPath) {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			return false
		}
	}
	return true
}

var sortCache = map[types.Type]*Sort{}

func sortOf(t types.Type) *Sort {
	if s, ok := sortCache[t]; ok {
		return s
	}
	s := sortOf0(t)
	sortCache[t] = s
	return s
}

func sortOf0(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsString != 0:
			return SString
		case u.Info()&types.IsFloat != 0:
			return SUnint("Float")
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return SInt
		}
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return SInt
	case *types.Slice:
		if isByte(u.Elem()) {
			return dBytes().Sort
		}
		return dSlice(sortOf(u.Elem())).Sort
	case *types.Array:
		if isByte(u.Elem()) {
			return SString
		}
		return SArray(SInt, sortOf(u.Elem()))
	case *types.Struct:
		if isOpaqueStruct(t) {
			return SUnint(typeName(t))
		}
		return dStruct(t).Sort
	case *types.Tuple:
		if u.Len() == 0 {
			return SInt
		}
	}
	unsup("no sort for type %s", t)
	return nil
}

func sortTag(s *Sort) string {
	switch s.Kind {
	case "Array":
		return "Arr<" + sortTag(s.Key) + "," + sortTag(s.Val) + ">"
	case "Data", "Unint":
		return s.Name
	}
	return s.Kind
}

func dSlice(elem *Sort) *Data {
	return defData("Slice<"+sortTag(elem)+">", []string{"arr", "len", "nil"}, []*Sort{SArray(SInt, elem), SInt, SBool})
}

func dStruct(t types.Type) *Data {
	st := t.Underlying().(*types.Struct)
	name := typeName(t)
	if _, ok := types.Unalias(t).(*types.Named); !ok {
		name = "anon:" + typeName(st)
	}
	if d, ok := dataTab[name]; ok {
		return d
	}
	var fs []string
	var ss []*Sort
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		if n == "_" {
			n = fmt.Sprintf("_%d", i)
		}
		fs = append(fs, n)
		ss = append(ss, sortOf(st.Field(i).Type()))
	}
	return defData(name, fs, ss)
}

// zero value
func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return TFalse
		case u.Info()&types.IsInteger != 0:
			return Int(0)
		case u.Info()&types.IsString != 0:
			return Str("")
		case u.Info()&types.IsFloat != 0:
			return Sym("float0", SUnint("Float"))
		}
		return Int(0)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return Int(0)
	case *types.Slice:
		if isByte(u.Elem()) {
			return Mk(dBytes(), Str(""), TTrue)
		}
		return Mk(dSlice(sortOf(u.Elem())), zarr(u.Elem()), Int(0), TTrue)
	case *types.Array:
		if isByte(u.Elem()) {
			return Str(strings.Repeat("\x00", int(u.Len())))
		}
		return zarr(u.Elem())
	case *types.Struct:
		if isOpaqueStruct(t) {
			return Sym("zero:"+typeName(t), sortOf(t))
		}
		d := dStruct(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		return Mk(d, as...)
	}
	unsup("no zero for %s", t)
	return nil
}

func isValueTerm(t *Term) bool {
	if isLit(t) {
		return true
	}
	if t.op == "mk" || t.op == "constarr" {
		for _, a := range t.args {
			if !isValueTerm(a) {
				return false
			}
		}
		return true
	}
	return false
}

func zarr(elem types.Type) *Term {
	s := SArray(SInt, sortOf(elem))
	z := zeroOf(elem)
	if isValueTerm(z) {
		return ConstArr(s, z)
	}
	return Sym("zarr:"+sortTag(s), s)
}

// integer ranges
func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	p := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	m := func(x *big.Int) *big.Int { return new(big.Int).Sub(x, big.NewInt(1)) }
	z := new(big.Int)
	switch b.Kind() {
	case types.Int8:
		return new(big.Int).Neg(p(7)), m(p(7)), true
	case types.Int16:
		return new(big.Int).Neg(p(15)), m(p(15)), true
	case types.Int32:
		return new(big.Int).Neg(p(31)), m(p(31)), true
	case types.Int64, types.Int:
		return new(big.Int).Neg(p(63)), m(p(63)), true
	case types.Uint8:
		return z, m(p(8)), true
	case types.Uint16:
		return z, m(p(16)), true
	case types.Uint32:
		return z, m(p(32)), true
	case types.Uint64, types.Uint, types.Uintptr:
		return z, m(p(64)), true
	}
	return nil, nil, false
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// wrapTo converts mathematical value x into the range of t.
func wrapTo(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	if x.op == "int" && x.i.Cmp(lo) >= 0 && x.i.Cmp(hi) <= 0 {
		return x
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	in := And(Le(BigInt(lo), x), Le(x, BigInt(hi)))
	w := Add(Mod(Sub(x, BigInt(lo)), BigInt(size)), BigInt(lo))
	return Ite(in, x, w)
}

// slice accessors
func slArr(s *Term) *Term { return SelN(s, 0) }
func slLen(s *Term) *Term {
	if s.sort.Name == "Bytes" {
		return StrLen(SelN(s, 0))
	}
	return SelN(s, 1)
}
func slNil(s *Term) *Term {
	if s.sort.Name == "Bytes" {
		return SelN(s, 1)
	}
	return SelN(s, 2)
}
func mkSlice(elem *Sort, arr, n, nl *Term) *Term { return Mk(dSlice(elem), arr, n, nl) }
func sliceElemSort(s *Term) *Sort                { return dataTab[s.sort.Name].FSorts[0].Val }

func byteAt(str, i *Term) *Term {
	return StrOp("str.to_code", SInt, StrOp("str.at", SString, str, i))
}
