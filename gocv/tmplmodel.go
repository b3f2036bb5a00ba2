package main

// text/template: Execute of a template that is a package-level constant is interpreted, node by node.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"text/template/parse"

	"golang.org/x/tools/go/ssa"
)

type tmpl struct {
	root  *parse.ListNode
	funcs map[string]*ssa.Function
}

// constTemplate traces a package-level template back to its text and its functions.
func (v *Verifier) constTemplate(t *Term) (*tmpl, error) {
	path, ok := globName[t]
	if !ok {
		return nil, fmt.Errorf("not a package-level template")
	}
	for g, val := range v.ginit {
		if g.Pkg.Pkg.Path()+"."+g.Name() != path {
			continue
		}
		tp := &tmpl{funcs: map[string]*ssa.Function{}}
		var text *string
		var name string
		cur := val
		for cur != nil {
			if e, ok := cur.(*ssa.Extract); ok {
				cur = e.Tuple
				continue
			}
			c, ok := cur.(*ssa.Call)
			if !ok {
				return nil, fmt.Errorf("%s: not a call", cur)
			}
			f, ok := c.Call.Value.(*ssa.Function)
			if !ok {
				return nil, fmt.Errorf("%s: not a static call", cur)
			}
			switch f.String() {
			case "text/template.Must":
				cur = c.Call.Args[0]
			case "(*text/template.Template).Parse":
				if text != nil {
					return nil, fmt.Errorf("parsed twice")
				}
				s, err := constText(c.Call.Args[1])
				if err != nil {
					return nil, err
				}
				text = &s
				cur = c.Call.Args[0]
			case "(*text/template.Template).Funcs":
				if err := funcMap(c.Call.Args[1], tp.funcs); err != nil {
					return nil, err
				}
				cur = c.Call.Args[0]
			case "text/template.New":
				name, _ = constText(c.Call.Args[0])
				cur = nil
			default:
				return nil, fmt.Errorf("built by %s", f)
			}
		}
		if text == nil {
			return nil, fmt.Errorf("no text")
		}
		builtin := map[string]any{}
		for _, n := range []string{"and", "or", "not", "len", "eq", "ne"} {
			builtin[n] = 0
		}
		for n := range tp.funcs {
			builtin[n] = 0
		}
		set, err := parse.Parse(name, *text, "", "", builtin)
		if err != nil {
			return nil, err
		}
		tp.root = set[name].Root
		return tp, nil
	}
	return nil, fmt.Errorf("no initialiser")
}

func constText(val ssa.Value) (string, error) {
	switch c := val.(type) {
	case *ssa.Const:
		if c.Value != nil && c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value), nil
		}
	case *ssa.Call:
		if f, ok := c.Call.Value.(*ssa.Function); ok && f.String() == "github.com/MakeNowJust/heredoc/v2.Doc" {
			s, err := constText(c.Call.Args[0])
			if err != nil {
				return "", err
			}
			return heredoc(s), nil
		}
	case *ssa.BinOp:
		if c.Op == token.ADD {
			a, err := constText(c.X)
			if err != nil {
				return "", err
			}
			b, err := constText(c.Y)
			return a + b, err
		}
	}
	return "", fmt.Errorf("%s: not a constant text", val)
}

// heredoc: what heredoc.Doc does (the smallest indentation of a non-blank line is removed).
func heredoc(raw string) string {
	skip := true
	if strings.HasPrefix(raw, "\n") {
		raw, skip = raw[1:], false
	}
	lines := strings.Split(raw, "\n")
	min := int(^uint(0) >> 1)
	for i, l := range lines {
		if i == 0 && skip {
			continue
		}
		n := len(l) - len(strings.TrimLeft(l, " \t"))
		if n == len(l) {
			if i == len(lines)-1 && n < min {
				lines[i] = ""
			}
		} else if n < min {
			min = n
		}
	}
	for i, l := range lines {
		if !(i == 0 && skip) && len(l) >= min {
			lines[i] = l[min:]
		}
	}
	return strings.Join(lines, "\n")
}

func funcMap(val ssa.Value, out map[string]*ssa.Function) error {
	if c, ok := val.(*ssa.ChangeType); ok {
		val = c.X
	}
	mm, ok := val.(*ssa.MakeMap)
	if !ok {
		return fmt.Errorf("functions not given as a literal")
	}
	for _, r := range *mm.Referrers() {
		switch u := r.(type) {
		case *ssa.MapUpdate:
			k, err := constText(u.Key)
			if err != nil {
				return err
			}
			mi, ok := u.Value.(*ssa.MakeInterface)
			if !ok {
				return fmt.Errorf("function %q not a literal", k)
			}
			f, ok := mi.X.(*ssa.Function)
			if !ok {
				return fmt.Errorf("function %q not a literal", k)
			}
			out[k] = f
		case *ssa.Call, *ssa.ChangeType, *ssa.DebugRef:
		default:
			return fmt.Errorf("functions not given as a literal")
		}
	}
	return nil
}

// piece: text, or text that is there under a condition
type piece struct {
	lit   string
	val   *Term
	cond  *Term
	then  []piece
	other []piece
}

type tmplRun struct {
	x   *Exec
	st  *State
	dot V
	tp  *tmpl
}

func init() {
	libModels["(*text/template.Template).Execute"] = func(x *Exec, st *State, args []V, sig *types.Signature, fn *ssa.Function, pos token.Pos) (V, *State) {
		w := x.term(st, args[1])
		data := x.term(st, args[2])
		e := Fresh("terr", SInt)
		x.Assume(TTrue, Le(Int(0), e))
		text := Fresh("rendered", SString)
		bi, ok := x.boxOf[data]
		tp, err := x.v.constTemplate(x.term(st, args[0]))
		switch {
		case err != nil:
			x.note("text/template Execute: template text not known (%v); the output is arbitrary", err)
		case !ok:
			x.note("text/template Execute: data of unknown type; the output is arbitrary")
		default:
			x.note("text/template: a template that is a package-level constant is interpreted by the verifier (text, field and method chains, if/else, and, or, not, functions of the FuncMap); heredoc.Doc is reimplemented")
			r := &tmplRun{x, st, V{t: bi.v, typ: bi.typ}, tp}
			ps := rotate(r.list(tp.root))
			st = r.st
			text = joinPieces(ps)
			text = x.templateContract(st, globName[x.term(st, args[0])], r.dot, text, pos)
		}
		if g := x.v.specs.Ghosts["wrOut"]; g != nil && x.v.ghostOn(g) {
			k := x.ghostKey("wrOut")
			h := x.get(st, k)
			nv := Ite(Eq(e, Int(0)), Concat(Select(h, w), text), Fresh("partial", SString))
			x.set(st, k, Store(h, w, nv))
		}
		return V{t: e, typ: errType}, st
	}
}

func joinPieces(ps []piece) *Term {
	ts := []*Term{Str("")}
	for _, p := range ps {
		switch {
		case p.cond != nil:
			ts = append(ts, Ite(p.cond, joinPieces(p.then), joinPieces(p.other)))
		case p.val != nil:
			ts = append(ts, p.val)
		default:
			ts = append(ts, Str(p.lit))
		}
	}
	return Concat(ts...)
}

// rotate moves a newline in front of optional text behind it where the text that follows starts with
// one: "if c {\nA} \nB" is the same text as "\n if c {A\n} B".
func rotate(ps []piece) []piece {
	for i := len(ps) - 2; i >= 0; i-- {
		p, q := ps[i], ps[i+1]
		if p.cond == nil || len(p.other) > 0 || q.cond != nil || q.val != nil || !strings.HasPrefix(q.lit, "\n") {
			continue
		}
		if len(p.then) == 0 || p.then[0].cond != nil || p.then[0].val != nil || !strings.HasPrefix(p.then[0].lit, "\n") {
			continue
		}
		body := append([]piece{{lit: p.then[0].lit[1:]}}, p.then[1:]...)
		body = append(body, piece{lit: "\n"})
		p.then = body
		rest := append([]piece{{lit: q.lit[1:]}}, ps[i+2:]...)
		ps = append(append(append([]piece{}, ps[:i]...), piece{lit: "\n"}, p), rest...)
	}
	return ps
}

func (r *tmplRun) list(l *parse.ListNode) []piece {
	var out []piece
	if l == nil {
		return nil
	}
	for _, n := range l.Nodes {
		switch n := n.(type) {
		case *parse.TextNode:
			out = append(out, piece{lit: string(n.Text)})
		case *parse.CommentNode:
		case *parse.ActionNode:
			if len(n.Pipe.Decl) > 0 {
				unsup("template variable")
			}
			out = append(out, piece{val: r.print(r.pipe(n.Pipe))})
		case *parse.IfNode:
			c := r.truth(r.pipe(n.Pipe))
			out = append(out, piece{cond: c, then: r.list(n.List), other: r.list(n.ElseList)})
		default:
			unsup("template node %T", n)
		}
	}
	return out
}

func (r *tmplRun) pipe(p *parse.PipeNode) V {
	if len(p.Decl) > 0 {
		unsup("template variable")
	}
	var v *V
	for _, c := range p.Cmds {
		n := r.cmd(c.Args, v)
		v = &n
	}
	return *v
}

func (r *tmplRun) cmd(args []parse.Node, final *V) V {
	vals := func() []V {
		var vs []V
		for _, a := range args[1:] {
			vs = append(vs, r.arg(a))
		}
		if final != nil {
			vs = append(vs, *final)
		}
		return vs
	}
	if id, ok := args[0].(*parse.IdentifierNode); ok {
		vs := vals()
		if f := r.tp.funcs[id.Ident]; f != nil {
			return r.call(f, vs)
		}
		switch id.Ident {
		case "not":
			return bval(Not(r.truth(vs[0])))
		case "and", "or":
			// only the truth of the result is modelled
			t := r.truth(vs[0])
			for _, v := range vs[1:] {
				if id.Ident == "and" {
					t = And(t, r.truth(v))
				} else {
					t = Or(t, r.truth(v))
				}
			}
			return V{t: t, typ: types.Typ[types.UntypedBool]}
		case "len":
			t := vs[0].t
			if t.sort == SString {
				return ival(StrLen(t))
			}
			if isSliceSort(t.sort) {
				return ival(slLen(t))
			}
		case "eq", "ne":
			if len(vs) == 2 && vs[0].t.sort == vs[1].t.sort {
				t := Eq(vs[0].t, vs[1].t)
				if id.Ident == "ne" {
					t = Not(t)
				}
				return bval(t)
			}
		}
		unsup("template function %s", id.Ident)
	}
	if f, ok := args[0].(*parse.FieldNode); ok {
		return r.chain(r.dot, f.Ident, vals())
	}
	if len(args) > 1 || final != nil {
		unsup("template command %v", args)
	}
	return r.arg(args[0])
}

func (r *tmplRun) arg(n parse.Node) V {
	switch n := n.(type) {
	case *parse.DotNode:
		return r.dot
	case *parse.FieldNode:
		return r.chain(r.dot, n.Ident, nil)
	case *parse.PipeNode:
		return r.pipe(n)
	case *parse.StringNode:
		return sval(Str(n.Text))
	case *parse.BoolNode:
		return bval(Bool(n.True))
	case *parse.NumberNode:
		if n.IsInt {
			return ival(Int(n.Int64))
		}
	case *parse.IdentifierNode:
		return r.cmd([]parse.Node{n}, nil)
	case *parse.ChainNode:
		return r.chain(r.arg(n.Node), n.Field, nil)
	}
	unsup("template argument %v", n)
	return V{}
}

func (r *tmplRun) chain(v V, names []string, args []V) V {
	for i, name := range names {
		var as []V
		if i == len(names)-1 {
			as = args
		}
		obj, _, _ := types.LookupFieldOrMethod(v.typ, true, nil, name)
		switch o := obj.(type) {
		case *types.Func:
			fn := r.x.v.prog.FuncValue(o)
			if fn == nil {
				unsup("template: method %s", name)
			}
			recv := fn.Signature.Recv().Type()
			if _, isPtr := v.typ.Underlying().(*types.Pointer); isPtr && !isPointer(recv) {
				v = V{t: r.x.loadRef(r.st, v.t, recv), typ: recv}
			}
			v = r.call(fn, append([]V{v}, as...))
		case *types.Var:
			if len(as) > 0 {
				unsup("template: arguments for field %s", name)
			}
			s, t := v.typ, v.t
			if p, ok := s.Underlying().(*types.Pointer); ok {
				s = p.Elem()
				t = r.x.loadRef(r.st, t, s)
			}
			st, ok := s.Underlying().(*types.Struct)
			if !ok {
				unsup("template: field %s of %s", name, s)
			}
			k := -1
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i) == o {
					k = i
				}
			}
			if k < 0 {
				unsup("template: promoted field %s", name)
			}
			v = V{t: SelN(t, k), typ: o.Type()}
		default:
			unsup("template: no field or method %s in %s", name, v.typ)
		}
	}
	return v
}

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func (r *tmplRun) call(fn *ssa.Function, args []V) V {
	if fn.Signature.Results().Len() != 1 {
		unsup("template: function with %d results", fn.Signature.Results().Len())
	}
	v, st := r.x.callFn(nil, r.st, fn, nil, args, fn.Signature, fn.Pos())
	r.st = st
	v.t = r.x.term(st, v)
	v.typ = fn.Signature.Results().At(0).Type()
	return v
}

// truth: what {{if}} does with a value
func (r *tmplRun) truth(v V) *Term {
	switch {
	case v.t.sort == SBool:
		return v.t
	case v.t.sort == SString:
		return Neq(v.t, Str(""))
	case isSliceSort(v.t.sort):
		return Neq(slLen(v.t), Int(0))
	}
	switch v.typ.Underlying().(type) {
	case *types.Struct:
		return TTrue
	case *types.Basic, *types.Pointer:
		if v.t.sort == SInt {
			return Neq(v.t, Int(0))
		}
	}
	unsup("template: truth of a %s", v.typ)
	return nil
}

func (r *tmplRun) print(v V) *Term {
	b, ok := v.typ.Underlying().(*types.Basic)
	if ok && !hasStringer(v.typ) {
		switch {
		case b.Info()&types.IsString != 0:
			return v.t
		case b.Info()&types.IsInteger != 0:
			return App("itoa", SString, v.t)
		case b.Kind() == types.Bool:
			return Ite(v.t, Str("true"), Str("false"))
		}
	}
	return App("fmt:%v:"+typeName(v.typ), SString, v.t)
}

// templateContract: the text rendered is what the contract on the template says; that it is, is an obligation.
func (x *Exec) templateContract(st *State, name string, dot V, text *Term, pos token.Pos) *Term {
	for _, c := range x.v.specs.Templates {
		if c.Var != name || !hasTag(c.Tags, x.v.prop) {
			continue
		}
		s := x.v.specs.Specs[c.Spec]
		if s == nil || len(s.Params) != 1 {
			unsup("template %s: no spec %s of one value", name, c.Spec)
		}
		v := dot
		if p, ok := v.typ.Underlying().(*types.Pointer); ok {
			v = V{t: x.loadRef(st, v.t, p.Elem()), typ: p.Elem()}
		}
		arg := SV{t: v.t, typ: v.typ, styp: s.Params[0].Type}
		env := &SEnv{vars: map[string]SV{}, st: st, old: st, pkg: x.v.pkgOf(s.Pkg)}
		abs := x.applySpec(s, []SV{arg}, env)
		was := x.reveal[s.Name]
		if x.reveal == nil {
			x.reveal = map[string]bool{}
		}
		x.reveal[s.Name] = true
		def := x.applySpec(s, []SV{arg}, env)
		x.reveal[s.Name] = was
		if x.quiet == 0 {
			p := ""
			if pos.IsValid() {
				q := x.v.fset.Position(pos)
				p = fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, x.v.repo+"/"), q.Line)
			}
			x.obls = append(x.obls, &Obl{Name: fmt.Sprintf("%s#template %s renders %s", x.fn.Name(), c.Var[strings.LastIndex(c.Var, ".")+1:], c.Spec), Kind: "template", Func: x.fn.String(), Pos: p, nfacts: len(x.facts), goal: Implies(st.pc, Eq(text, def.t)), Tags: c.Tags})
		}
		return abs.t
	}
	return text
}
