package main

// Hash-consed first-order terms over SMT-LIB sorts, with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	Kind     string // Bool Int String Array Data Unint
	Name     string
	Key, Val *Sort
}

func (s *Sort) String() string {
	if s == nil {
		return "?"
	}
	switch s.Kind {
	case "Array":
		return "(Array " + s.Key.String() + " " + s.Val.String() + ")"
	case "Data", "Unint":
		return s.Name
	}
	return s.Kind
}

var (
	SBool   = &Sort{Kind: "Bool"}
	SInt    = &Sort{Kind: "Int"}
	SString = &Sort{Kind: "String"}
)

var sortTab = map[string]*Sort{}

func SArray(k, v *Sort) *Sort {
	n := "(Array " + k.String() + " " + v.String() + ")"
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: "Array", Key: k, Val: v}
	sortTab[n] = s
	return s
}

func SUnint(name string) *Sort {
	n := "U:" + name
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: "Unint", Name: name}
	sortTab[n] = s
	return s
}

// Data is a single-constructor datatype.
type Data struct {
	Sort   *Sort
	Fields []string
	FSorts []*Sort
}

var dataTab = map[string]*Data{}
var dataOrder []*Data

func SData(name string) *Sort {
	n := "D:" + name
	if s, ok := sortTab[n]; ok {
		return s
	}
	s := &Sort{Kind: "Data", Name: name}
	sortTab[n] = s
	return s
}

func defData(name string, fields []string, fs []*Sort) *Data {
	if d, ok := dataTab[name]; ok {
		return d
	}
	d := &Data{Sort: SData(name), Fields: fields, FSorts: fs}
	dataTab[name] = d
	dataOrder = append(dataOrder, d)
	return d
}

type Term struct {
	id    int
	op    string // see below
	name  string // symbol name / literal
	args  []*Term
	sort  *Sort
	bound []*Term   // quantifier variables
	pats  [][]*Term // quantifier patterns
	i     *big.Int
	hasB  bool // mentions a bound variable
}

// ops: int str true false sym app bvar forall exists
//      and or not => ite = + - * div mod < <= select store constarr
//      mk sel  str.*  (printed as is)

var termTab = map[string]*Term{}
var termCount int

func key(t *Term) string {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('|')
	b.WriteString(t.name)
	b.WriteByte('|')
	for _, a := range t.args {
		fmt.Fprintf(&b, "%d,", a.id)
	}
	if len(t.bound) > 0 {
		b.WriteByte('^')
		for _, a := range t.bound {
			fmt.Fprintf(&b, "%d,", a.id)
		}
		for _, p := range t.pats {
			b.WriteByte('{')
			for _, a := range p {
				fmt.Fprintf(&b, "%d,", a.id)
			}
		}
	}
	if t.op == "sym" || t.op == "bvar" || t.op == "app" || t.op == "constarr" || t.op == "ite" {
		b.WriteByte('@')
		b.WriteString(t.sort.String())
	}
	return b.String()
}

func intern(t *Term) *Term {
	k := key(t)
	if u, ok := termTab[k]; ok {
		return u
	}
	termCount++
	t.id = termCount
	if t.op == "bvar" {
		t.hasB = true
	}
	for _, a := range t.args {
		if a.hasB {
			t.hasB = true
		}
	}
	if t.op == "forall" || t.op == "exists" {
		// closed w.r.t. its own variables; recompute precisely
		fv := map[*Term]bool{}
		freeB(t.args[0], map[*Term]bool{}, fv)
		for _, v := range t.bound {
			delete(fv, v)
		}
		t.hasB = len(fv) > 0
	}
	termTab[k] = t
	return t
}

func freeB(t *Term, seen, fv map[*Term]bool) {
	if !t.hasB || seen[t] {
		return
	}
	seen[t] = true
	if t.op == "bvar" {
		fv[t] = true
		return
	}
	if len(t.bound) > 0 {
		in := map[*Term]bool{}
		freeB(t.args[0], map[*Term]bool{}, in)
		for _, v := range t.bound {
			delete(in, v)
		}
		for v := range in {
			fv[v] = true
		}
		return
	}
	for _, a := range t.args {
		freeB(a, seen, fv)
	}
}

var TTrue = intern(&Term{op: "true", sort: SBool})
var TFalse = intern(&Term{op: "false", sort: SBool})

func Bool(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func Int(n int64) *Term { return BigInt(big.NewInt(n)) }
func BigInt(n *big.Int) *Term {
	return intern(&Term{op: "int", name: n.String(), sort: SInt, i: n})
}
func Str(s string) *Term              { return intern(&Term{op: "str", name: s, sort: SString}) }
func Sym(name string, s *Sort) *Term  { return intern(&Term{op: "sym", name: name, sort: s}) }
func BVar(name string, s *Sort) *Term { return intern(&Term{op: "bvar", name: name, sort: s}) }
func App(name string, s *Sort, args ...*Term) *Term {
	if name == "strings.Join" {
		return joinT(args[0], args[1], map[*Term]*Term{})
	}
	return intern(&Term{op: "app", name: name, sort: s, args: args})
}

var freshN int

func Fresh(base string, s *Sort) *Term {
	freshN++
	return Sym(fmt.Sprintf("%s!%d", base, freshN), s)
}
func FreshB(base string, s *Sort) *Term {
	freshN++
	return BVar(fmt.Sprintf("%s?%d", base, freshN), s)
}

func isLit(t *Term) bool {
	switch t.op {
	case "int", "str", "true", "false":
		return true
	}
	return false
}

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.args[0]
	}
	return intern(&Term{op: "not", sort: SBool, args: []*Term{a}})
}

func And(xs ...*Term) *Term {
	var l []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		switch x.op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		l = append(l, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return TFalse
		}
	}
	if len(l) == 0 {
		return TTrue
	}
	if len(l) == 1 {
		return l[0]
	}
	return intern(&Term{op: "and", sort: SBool, args: l})
}

func conj(x *Term) []*Term {
	if x.op == "and" {
		return x.args
	}
	if x.op == "true" {
		return nil
	}
	return []*Term{x}
}

func Or(xs ...*Term) *Term {
	var l []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		switch x.op {
		case "false":
			return true
		case "true":
			return false
		case "or":
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[x] {
			return true
		}
		if seen[Not(x)] {
			return false
		}
		seen[x] = true
		l = append(l, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return TTrue
		}
	}
	// factor complementary pairs: (A & c) | (A & !c) -> A ; and absorption A | (A & x) -> A
	changed := true
	for changed && len(l) > 1 && len(l) < 64 {
		changed = false
	outer:
		for i := 0; i < len(l); i++ {
			for j := 0; j < len(l); j++ {
				if i == j {
					continue
				}
				if r, ok := mergeDisj(l[i], l[j]); ok {
					var n []*Term
					for k := range l {
						if k != i && k != j {
							n = append(n, l[k])
						}
					}
					if r == TTrue {
						return TTrue
					}
					n = append(n, r)
					l = n
					changed = true
					break outer
				}
			}
		}
	}
	if len(l) == 0 {
		return TFalse
	}
	if len(l) == 1 {
		return l[0]
	}
	return intern(&Term{op: "or", sort: SBool, args: l})
}

func mergeDisj(a, b *Term) (*Term, bool) {
	ca, cb := conj(a), conj(b)
	sa := map[*Term]bool{}
	for _, x := range ca {
		sa[x] = true
	}
	sb := map[*Term]bool{}
	for _, x := range cb {
		sb[x] = true
	}
	var onlyA, onlyB []*Term
	for _, x := range ca {
		if !sb[x] {
			onlyA = append(onlyA, x)
		}
	}
	for _, x := range cb {
		if !sa[x] {
			onlyB = append(onlyB, x)
		}
	}
	if len(onlyA) == 0 {
		return a, true // b implies a
	}
	if len(onlyB) == 0 {
		return b, true
	}
	if len(onlyA) == 1 {
		// A = C & x ; B = C & !x & rest  ->  C & (x | rest) -- only exact complement handled fully
		nx := Not(onlyA[0])
		if len(onlyB) == 1 && onlyB[0] == nx {
			var c []*Term
			for _, x := range ca {
				if sb[x] {
					c = append(c, x)
				}
			}
			return And(c...), true
		}
	}
	return nil, false
}

func Implies(a, b *Term) *Term {
	if a.op == "true" {
		return b
	}
	if a.op == "false" || b.op == "true" || a == b {
		return TTrue
	}
	if b.op == "false" {
		return Not(a)
	}
	if b.op == "=>" {
		return Implies(And(a, b.args[0]), b.args[1])
	}
	return intern(&Term{op: "=>", sort: SBool, args: []*Term{a, b}})
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c.op == "true" || a == b {
		return a
	}
	if c.op == "false" {
		return b
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a.op == "true" {
			return Or(c, b)
		}
		if a.op == "false" {
			return And(Not(c), b)
		}
		if b.op == "true" {
			return Or(Not(c), a)
		}
		if b.op == "false" {
			return And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		a = a.args[1]
	}
	if b.op == "ite" && b.args[0] == c {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	if b.op == "ite" && b.args[1] == a {
		return Ite(Or(c, b.args[0]), a, b.args[2])
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sorts differ: %v : %v  /  %v : %v", a, a.sort, b, b.sort))
	}
	if a.op == "mk" && b.op == "mk" && a.name == b.name && len(a.args) > 0 {
		args := make([]*Term, len(a.args))
		for i := range args {
			args[i] = Ite(c, a.args[i], b.args[i])
		}
		return intern(&Term{op: "mk", name: a.name, sort: a.sort, args: args})
	}
	return intern(&Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}})
}

// distinct ground literals?
func litDistinct(a, b *Term) bool {
	return isLit(a) && isLit(b) && a != b
}

// constant offset form: base + k
func offset(t *Term) (*Term, *big.Int) {
	if t.op == "int" {
		return nil, t.i
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "int" {
		return t.args[0], t.args[1].i
	}
	return t, new(big.Int)
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts differ: %v : %v  /  %v : %v", a, a.sort, b, b.sort))
	}
	if litDistinct(a, b) {
		return TFalse
	}
	if a.sort == SBool {
		if a.op == "true" {
			return b
		}
		if b.op == "true" {
			return a
		}
		if a.op == "false" {
			return Not(b)
		}
		if b.op == "false" {
			return Not(a)
		}
	}
	if a.sort == SInt {
		ba, ka := offset(a)
		bb, kb := offset(b)
		if ba == bb && ba != nil {
			return Bool(ka.Cmp(kb) == 0)
		}
	}
	if a.op == "mk" && b.op == "mk" && a.name == b.name {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	// push equality with a literal into ite of literals
	if isLit(b) && a.op == "ite" && (isLit(a.args[1]) || isLit(a.args[2])) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if isLit(a) && b.op == "ite" && (isLit(b.args[1]) || isLit(b.args[2])) {
		return Ite(b.args[0], Eq(a, b.args[1]), Eq(a, b.args[2]))
	}
	if b.op == "str" && a.op == "str.++" || a.op == "str" && b.op == "str.++" {
		// literal prefix/suffix clash
		lit, cat := a, b
		if b.op == "str" {
			lit, cat = b, a
		}
		if f := cat.args[0]; f.op == "str" && !strings.HasPrefix(lit.name, f.name) {
			return TFalse
		}
		if f := cat.args[len(cat.args)-1]; f.op == "str" && !strings.HasSuffix(lit.name, f.name) {
			return TFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func Add(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return BigInt(new(big.Int).Add(a.i, b.i))
	}
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" {
		if b.i.Sign() == 0 {
			return a
		}
		if a.op == "+" && len(a.args) == 2 && a.args[1].op == "int" {
			return Add(a.args[0], BigInt(new(big.Int).Add(a.args[1].i, b.i)))
		}
	} else {
		// normalise (x+k)+y -> (x+y)+k
		ba, ka := offset(a)
		bb, kb := offset(b)
		if ka.Sign() != 0 || kb.Sign() != 0 {
			return Add(Add(ba, bb), BigInt(new(big.Int).Add(ka, kb)))
		}
		if a.op == "-" && len(a.args) == 2 && a.args[1] == b {
			return a.args[0]
		}
		if b.op == "-" && len(b.args) == 2 && b.args[1] == a {
			return b.args[0]
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return intern(&Term{op: "+", sort: SInt, args: []*Term{a, b}})
}
func Neg(a *Term) *Term {
	return Sub(Int(0), a)
}
func Sub(a, b *Term) *Term {
	if a == b {
		return Int(0)
	}
	if b.op == "int" {
		return Add(a, BigInt(new(big.Int).Neg(b.i)))
	}
	ba, ka := offset(a)
	bb, kb := offset(b)
	if ba == bb {
		return BigInt(new(big.Int).Sub(ka, kb))
	}
	if a.op == "int" && b.op == "+" && b.args[1].op == "int" {
		return Sub(BigInt(new(big.Int).Sub(a.i, b.args[1].i)), b.args[0])
	}
	if ba != nil && bb != nil && (ka.Sign() != 0 || kb.Sign() != 0) {
		return Add(Sub(ba, bb), BigInt(new(big.Int).Sub(ka, kb)))
	}
	if a.op == "+" && len(a.args) == 2 {
		if a.args[0] == b {
			return a.args[1]
		}
		if a.args[1] == b {
			return a.args[0]
		}
	}
	return intern(&Term{op: "-", sort: SInt, args: []*Term{a, b}})
}
func Mul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return BigInt(new(big.Int).Mul(a.i, b.i))
	}
	if a.op == "int" {
		a, b = b, a
	}
	if b.op == "int" && b.i.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if b.op == "int" && b.i.Sign() == 0 {
		return b
	}
	return intern(&Term{op: "*", sort: SInt, args: []*Term{a, b}})
}

// Euclidean div/mod as in SMT-LIB.
func Div(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.i.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.i, b.i, new(big.Int))
		return BigInt(q)
	}
	return intern(&Term{op: "div", sort: SInt, args: []*Term{a, b}})
}
func Mod(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" && b.i.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.i, b.i, new(big.Int))
		return BigInt(m)
	}
	return intern(&Term{op: "mod", sort: SInt, args: []*Term{a, b}})
}
func Lt(a, b *Term) *Term {
	ba, ka := offset(a)
	bb, kb := offset(b)
	if ba == bb {
		return Bool(ka.Cmp(kb) < 0)
	}
	if a.op == "ite" && isLit(a.args[1]) && isLit(a.args[2]) && isLit(b) {
		return Ite(a.args[0], Lt(a.args[1], b), Lt(a.args[2], b))
	}
	if b.op == "ite" && isLit(b.args[1]) && isLit(b.args[2]) && isLit(a) {
		return Ite(b.args[0], Lt(a, b.args[1]), Lt(a, b.args[2]))
	}
	return Not(Le(b, a))
}
func Le(a, b *Term) *Term {
	ba, ka := offset(a)
	bb, kb := offset(b)
	if ba == bb {
		return Bool(ka.Cmp(kb) <= 0)
	}
	if a.op == "int" && b.op == "str.len" && a.i.Sign() <= 0 {
		return TTrue
	}
	if a.op == "ite" && isLit(a.args[1]) && isLit(a.args[2]) && isLit(b) {
		return Ite(a.args[0], Le(a.args[1], b), Le(a.args[2], b))
	}
	if b.op == "ite" && isLit(b.args[1]) && isLit(b.args[2]) && isLit(a) {
		return Ite(b.args[0], Le(a, b.args[1]), Le(a, b.args[2]))
	}
	// x + 1 <= y  kept as is; normalise !(b<=a) elsewhere
	return intern(&Term{op: "<=", sort: SBool, args: []*Term{a, b}})
}
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

func Select(a, i *Term) *Term {
	for a.op == "store" {
		if a.args[1] == i {
			return a.args[2]
		}
		if Eq(a.args[1], i) == TFalse {
			a = a.args[0]
			continue
		}
		break
	}
	if a.op == "constarr" {
		return a.args[0]
	}
	if a.op == "ite" && (a.args[1].op == "store" || a.args[2].op == "store" || a.args[1].op == "constarr" || a.args[2].op == "constarr") {
		x, y := Select(a.args[1], i), Select(a.args[2], i)
		return Ite(a.args[0], x, y)
	}
	if a.sort.Kind != "Array" {
		panic("select on " + a.sort.String())
	}
	if i.sort != a.sort.Key {
		panic(fmt.Sprintf("select key sort %v on %v", i.sort, a.sort))
	}
	return intern(&Term{op: "select", sort: a.sort.Val, args: []*Term{a, i}})
}
func Store(a, i, v *Term) *Term {
	if a.sort.Kind != "Array" || a.sort.Val != v.sort || a.sort.Key != i.sort {
		panic(fmt.Sprintf("store sort mismatch %v [%v] := %v:%v", a.sort, i.sort, v, v.sort))
	}
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return intern(&Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}
func ConstArr(s *Sort, v *Term) *Term {
	return intern(&Term{op: "constarr", sort: s, args: []*Term{v}})
}

func Mk(d *Data, args ...*Term) *Term {
	if len(args) != len(d.Fields) {
		panic("mk arity " + d.Sort.Name)
	}
	for i, a := range args {
		if a.sort != d.FSorts[i] {
			panic(fmt.Sprintf("mk %s field %s: sort %v want %v (%v)", d.Sort.Name, d.Fields[i], a.sort, d.FSorts[i], a))
		}
	}
	// eta
	if len(args) > 0 && args[0].op == "sel" {
		base := args[0].args[0]
		if base.sort == d.Sort {
			ok := true
			for i, a := range args {
				if a.op != "sel" || a.args[0] != base || a.name != fmt.Sprint(i) {
					ok = false
					break
				}
			}
			if ok {
				return base
			}
		}
	}
	return intern(&Term{op: "mk", name: d.Sort.Name, sort: d.Sort, args: args})
}

func SelN(t *Term, i int) *Term {
	d := dataTab[t.sort.Name]
	if d == nil {
		panic("sel on non-data " + t.sort.String())
	}
	if t.op == "mk" {
		return t.args[i]
	}
	if t.op == "ite" && (t.args[1].op == "mk" || t.args[2].op == "mk" || t.args[1].op == "ite" || t.args[2].op == "ite") {
		return Ite(t.args[0], SelN(t.args[1], i), SelN(t.args[2], i))
	}
	return intern(&Term{op: "sel", name: fmt.Sprint(i), sort: d.FSorts[i], args: []*Term{t}})
}

func UpdN(t *Term, i int, v *Term) *Term {
	d := dataTab[t.sort.Name]
	args := make([]*Term, len(d.Fields))
	for k := range args {
		if k == i {
			args[k] = v
		} else {
			args[k] = SelN(t, k)
		}
	}
	return Mk(d, args...)
}

// ---- strings

func StrLen(s *Term) *Term {
	if s.op == "str" {
		return Int(int64(len(s.name)))
	}
	if s.op == "str.++" {
		r := Int(0)
		for _, a := range s.args {
			r = Add(r, StrLen(a))
		}
		return r
	}
	return intern(&Term{op: "str.len", sort: SInt, args: []*Term{s}})
}
func Concat(xs ...*Term) *Term {
	var l []*Term
	for _, x := range xs {
		var ys []*Term
		if x.op == "str.++" {
			ys = x.args
		} else {
			ys = []*Term{x}
		}
		for _, y := range ys {
			if y.op == "str" {
				if y.name == "" {
					continue
				}
				if len(l) > 0 && l[len(l)-1].op == "str" {
					l[len(l)-1] = Str(l[len(l)-1].name + y.name)
					continue
				}
			}
			l = append(l, y)
		}
	}
	if len(l) == 0 {
		return Str("")
	}
	if len(l) == 1 {
		return l[0]
	}
	return intern(&Term{op: "str.++", sort: SString, args: l})
}
func Substr(s, off, n *Term) *Term {
	if s.op == "str" && off.op == "int" && n.op == "int" {
		o, k := int(off.i.Int64()), int(n.i.Int64())
		if o < 0 || o >= len(s.name) || k <= 0 {
			return Str("")
		}
		if o+k > len(s.name) {
			k = len(s.name) - o
		}
		return Str(s.name[o : o+k])
	}
	if off.op == "int" && off.i.Sign() == 0 && n == StrLen(s) {
		return s
	}
	// drop literal prefix: substr("ab"++x, 2, len-2)
	if s.op == "str.++" && off.op == "int" && s.args[0].op == "str" && off.i.IsInt64() {
		o := off.i.Int64()
		l0 := int64(len(s.args[0].name))
		if o >= 0 && o <= l0 && n == Sub(StrLen(s), off) {
			return Concat(append([]*Term{Str(s.args[0].name[o:])}, s.args[1:]...)...)
		}
	}
	return intern(&Term{op: "str.substr", sort: SString, args: []*Term{s, off, n}})
}
func StrOp(op string, s *Sort, args ...*Term) *Term {
	switch op {
	case "str.prefixof":
		if args[0].op == "str" && args[1].op == "str" {
			return Bool(strings.HasPrefix(args[1].name, args[0].name))
		}
		if args[0].op == "str" && args[1].op == "str.++" && args[1].args[0].op == "str" {
			f := args[1].args[0].name
			if strings.HasPrefix(f, args[0].name) {
				return TTrue
			}
			if !strings.HasPrefix(args[0].name, f) {
				return TFalse
			}
		}
		if args[0].op == "str" && args[0].name == "" {
			return TTrue
		}
	case "str.suffixof":
		if args[0].op == "str" && args[1].op == "str" {
			return Bool(strings.HasSuffix(args[1].name, args[0].name))
		}
	case "str.contains":
		if args[0].op == "str" && args[1].op == "str" {
			return Bool(strings.Contains(args[0].name, args[1].name))
		}
	case "str.indexof":
		if args[0].op == "str" && args[1].op == "str" && args[2].op == "int" && args[2].i.Sign() == 0 {
			return Int(int64(strings.Index(args[0].name, args[1].name)))
		}
	case "str.at":
		if args[0].op == "str" && args[1].op == "int" && args[1].i.IsInt64() {
			i := args[1].i.Int64()
			if i >= 0 && i < int64(len(args[0].name)) {
				return Str(args[0].name[i : i+1])
			}
			return Str("")
		}
	case "str.to_code":
		if args[0].op == "str" {
			if len(args[0].name) == 1 {
				return Int(int64(args[0].name[0]))
			}
			return Int(-1)
		}
	case "str.from_code":
		if args[0].op == "int" && args[0].i.IsInt64() && args[0].i.Int64() >= 0 && args[0].i.Int64() < 256 {
			return Str(string([]byte{byte(args[0].i.Int64())}))
		}
		if args[0].op == "str.to_code" && args[0].args[0].op == "str.at" {
			return args[0].args[0]
		}
	}
	return intern(&Term{op: op, sort: s, args: args})
}

// ---- quantifiers

func Forall(vs []*Term, body *Term, pats ...[]*Term) *Term { return quant("forall", vs, body, pats) }
func Exists(vs []*Term, body *Term, pats ...[]*Term) *Term { return quant("exists", vs, body, pats) }

func quant(op string, vs []*Term, body *Term, pats [][]*Term) *Term {
	if isLit(body) {
		return body
	}
	fv := map[*Term]bool{}
	freeB(body, map[*Term]bool{}, fv)
	var keep []*Term
	for _, v := range vs {
		if fv[v] {
			keep = append(keep, v)
		}
	}
	if len(keep) == 0 {
		return body
	}
	var ps [][]*Term
	for _, p := range splitItes(pats) {
		cov := map[*Term]bool{}
		ok := true
		for _, t := range p {
			freeB(t, map[*Term]bool{}, cov)
			if !t.hasB || t.op == "bvar" {
				ok = false
			}
		}
		for _, v := range keep {
			if !cov[v] {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	return intern(&Term{op: op, sort: SBool, args: []*Term{body}, bound: keep, pats: ps})
}

// splitItes replaces patterns over an if-then-else that mentions bound variables by patterns over its branches.
func splitItes(pats [][]*Term) [][]*Term {
	out := pats
	for round := 0; round < 6; round++ {
		var next [][]*Term
		changed := false
		for _, p := range out {
			var ite *Term
			for _, t := range p {
				if ite = boundIte(t); ite != nil {
					break
				}
			}
			if ite == nil || len(next) > 12 {
				next = append(next, p)
				continue
			}
			changed = true
			for _, b := range ite.args[1:] {
				q := make([]*Term, len(p))
				for i, t := range p {
					q[i] = Subst(t, map[*Term]*Term{ite: b})
				}
				next = append(next, q)
			}
		}
		out = next
		if !changed {
			break
		}
	}
	return out
}

func boundIte(t *Term) *Term {
	if !t.hasB {
		return nil
	}
	if t.op == "ite" {
		return t
	}
	for _, a := range t.args {
		if r := boundIte(a); r != nil {
			return r
		}
	}
	return nil
}

func Subst(t *Term, m map[*Term]*Term) *Term {
	return substC(t, m, map[*Term]*Term{})
}
func substC(t *Term, m map[*Term]*Term, c map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		return t
	}
	if r, ok := c[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = substC(a, m, c)
		if args[i] != a {
			ch = true
		}
	}
	var r *Term
	if !ch {
		r = t
	} else {
		r = rebuild(t, args, m, c)
	}
	c[t] = r
	return r
}

func rebuild(t *Term, args []*Term, m, c map[*Term]*Term) *Term {
	switch t.op {
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "+":
		return Add(args[0], args[1])
	case "-":
		return Sub(args[0], args[1])
	case "*":
		return Mul(args[0], args[1])
	case "div":
		return Div(args[0], args[1])
	case "mod":
		return Mod(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "mk":
		return Mk(dataTab[t.name], args...)
	case "sel":
		var i int
		fmt.Sscan(t.name, &i)
		return SelN(args[0], i)
	case "str.len":
		return StrLen(args[0])
	case "str.++":
		return Concat(args...)
	case "str.substr":
		return Substr(args[0], args[1], args[2])
	case "forall", "exists":
		var ps [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, x := range p {
				q = append(q, substC(x, m, c))
			}
			ps = append(ps, q)
		}
		return quant(t.op, t.bound, args[0], ps)
	case "constarr":
		return ConstArr(t.sort, args[0])
	case "app":
		return App(t.name, t.sort, args...)
	}
	if strings.HasPrefix(t.op, "str.") {
		return StrOp(t.op, t.sort, args...)
	}
	n := *t
	n.args = args
	n.id = 0
	n.hasB = false
	return intern(&n)
}

// ---- printing

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c < 32 || c > 126 || c == '\\' {
			fmt.Fprintf(&b, "\\u{%x}", c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtName(s string) string {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' || c == '-' || c == '?' || c == '@') {
			return "|" + strings.NewReplacer("|", "!", "\\", "!bs!").Replace(s) + "|"
		}
	}
	return s
}

func (t *Term) head() string {
	switch t.op {
	case "int":
		if t.i.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.i).String() + ")"
		}
		return t.name
	case "str":
		return smtStr(t.name)
	case "true", "false":
		return t.op
	case "raw":
		return t.name
	case "sym", "bvar", "app":
		return smtName(t.name)
	case "mk":
		return smtName("mk_" + t.name)
	case "sel":
		var i int
		fmt.Sscan(t.name, &i)
		d := dataTab[t.args[0].sort.Name]
		return smtName(d.Sort.Name + "." + d.Fields[i])
	case "constarr":
		return "(as const " + printSort(t.sort) + ")"
	}
	return t.op
}

func printSort(s *Sort) string {
	switch s.Kind {
	case "Array":
		return "(Array " + printSort(s.Key) + " " + printSort(s.Val) + ")"
	case "Data", "Unint":
		return smtName(s.Name)
	}
	return s.Kind
}

func (t *Term) String() string {
	s := t.str(0)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}
func (t *Term) str(d int) string {
	if d > 12 {
		return "..."
	}
	if len(t.args) == 0 {
		return t.head()
	}
	var b strings.Builder
	b.WriteByte('(')
	if len(t.bound) > 0 {
		b.WriteString(t.op + " (")
		for _, v := range t.bound {
			b.WriteString("(" + smtName(v.name) + " " + v.sort.String() + ")")
		}
		b.WriteString(")")
	} else {
		b.WriteString(t.head())
	}
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(a.str(d + 1))
	}
	b.WriteByte(')')
	return b.String()
}

// collect all subterms (including inside quantifiers and patterns)
func walk(t *Term, seen map[*Term]bool, f func(*Term)) {
	if seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		walk(a, seen, f)
	}
	for _, v := range t.bound {
		walk(v, seen, f)
	}
	for _, p := range t.pats {
		for _, x := range p {
			walk(x, seen, f)
		}
	}
	f(t)
}

type printer struct {
	b     *strings.Builder
	names map[*Term]string
	refs  map[*Term]int
	n     int
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.args {
		p.count(a)
	}
	for _, q := range t.pats {
		for _, x := range q {
			p.count(x)
		}
	}
}

// emit shared closed subterms as define-fun, then return printed text
func (p *printer) prep(t *Term) {
	if _, ok := p.names[t]; ok || len(t.args) == 0 {
		return
	}
	for _, a := range t.args {
		p.prep(a)
	}
	if p.refs[t] > 1 && !t.hasB && len(t.args) > 0 {
		s := p.text(t)
		if len(s) > 24 {
			p.n++
			nm := fmt.Sprintf("d!%d", p.n)
			if t.sort.Kind == "Array" && arrayIte(t) {
				// a pattern over this array must not expand to an if-then-else
				fmt.Fprintf(p.b, "(declare-fun %s () %s)\n(assert (= %s %s))\n", nm, printSort(t.sort), nm, s)
			} else {
				fmt.Fprintf(p.b, "(define-fun %s () %s %s)\n", nm, printSort(t.sort), s)
			}
			p.names[t] = nm
			return
		}
	}
	p.names[t] = "" // visited
}

func arrayIte(t *Term) bool {
	for t.op == "store" || t.op == "select" {
		t = t.args[0]
	}
	return t.op == "ite"
}

func (p *printer) text(t *Term) string {
	if n := p.names[t]; n != "" {
		return n
	}
	if len(t.args) == 0 {
		return t.head()
	}
	var b strings.Builder
	b.WriteByte('(')
	if len(t.bound) > 0 {
		b.WriteString(t.op + " (")
		for _, v := range t.bound {
			b.WriteString("(" + smtName(v.name) + " " + printSort(v.sort) + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		b.WriteString(p.text(t.args[0]))
		if len(t.pats) > 0 {
			for _, q := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range q {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.text(x))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteByte(')')
		return b.String()
	}
	b.WriteString(t.head())
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(p.text(a))
	}
	b.WriteByte(')')
	return b.String()
}

// Script renders an SMT-LIB problem asserting all of fs.
func Script(fs []*Term, logicOpts string) string {
	var b strings.Builder
	b.WriteString(logicOpts)
	seen := map[*Term]bool{}
	syms := map[string]*Term{}
	usedData := map[string]bool{}
	usedUn := map[string]bool{}
	var useSort func(s *Sort)
	useSort = func(s *Sort) {
		switch s.Kind {
		case "Array":
			useSort(s.Key)
			useSort(s.Val)
		case "Unint":
			usedUn[s.Name] = true
		case "Data":
			if usedData[s.Name] {
				return
			}
			usedData[s.Name] = true
			d := dataTab[s.Name]
			if d == nil {
				panic("undefined data " + s.Name)
			}
			for _, f := range d.FSorts {
				useSort(f)
			}
		}
	}
	for _, f := range fs {
		walk(f, seen, func(t *Term) {
			useSort(t.sort)
			if t.op == "sym" || t.op == "app" {
				syms[t.name] = t
			}
		})
	}
	var un []string
	for n := range usedUn {
		un = append(un, n)
	}
	sort.Strings(un)
	for _, n := range un {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", smtName(n))
	}
	done := map[string]bool{}
	var emit func(name string)
	emit = func(name string) {
		if done[name] || !usedData[name] {
			return
		}
		done[name] = true
		d := dataTab[name]
		var dep func(s *Sort)
		dep = func(s *Sort) {
			switch s.Kind {
			case "Array":
				dep(s.Key)
				dep(s.Val)
			case "Data":
				emit(s.Name)
			}
		}
		for _, f := range d.FSorts {
			dep(f)
		}
		fmt.Fprintf(&b, "(declare-datatypes ((%s 0)) (((%s", smtName(name), smtName("mk_"+name))
		for i, f := range d.Fields {
			fmt.Fprintf(&b, " (%s %s)", smtName(name+"."+f), printSort(d.FSorts[i]))
		}
		b.WriteString("))))\n")
	}
	for _, d := range dataOrder {
		emit(d.Sort.Name)
	}
	var names []string
	for n := range syms {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		t := syms[n]
		fmt.Fprintf(&b, "(declare-fun %s (", smtName(n))
		for i, a := range t.args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(printSort(a.sort))
		}
		fmt.Fprintf(&b, ") %s)\n", printSort(t.sort))
	}
	p := &printer{b: &b, names: map[*Term]string{}, refs: map[*Term]int{}}
	for _, f := range fs {
		p.count(f)
	}
	for _, f := range fs {
		p.prep(f)
		s := p.text(f)
		fmt.Fprintf(&b, "(assert %s)\n", s)
	}
	return b.String()
}
