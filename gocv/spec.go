package main

// The contract language: file format and expression parser.

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"unicode"
)

type Expr struct {
	Op   string // int str ident bin un call sel index slice cond quant let old type
	Name string
	Args []*Expr
	Vars []Binder
	Pats [][]*Expr
	Pos  string
}

type Binder struct {
	Name string
	Type string
}

type Clause struct {
	Local bool // proved on the body, not told to callers
	Text  string
	E     *Expr
	Tags  []string
	Pos   string
	Name  string
}

type LoopInv struct {
	Binders []Binder
	C       Clause
	Cand    bool
}

type UseHint struct {
	Lemma string
	Args  []*Expr
	Cond  *Expr
	Vars  []Binder
	Text  string
}

// ClosSpec is the contract of the function value a function returns.
type ClosSpec struct {
	Params   []Binder
	Requires []Clause
	Ensures  []Clause
	Modifies []string
}

type FuncSpec struct {
	Pkg      string
	Name     string // CompareVersions, (*APK).GetWorld, Version.x, closure name f$1
	Lib      bool
	Iface    bool
	Params   []string // override names
	Requires []Clause
	Ensures  []Clause
	Invs     []LoopInv
	ModTags  map[string][]string // targets that exist only for some properties
	Modifies []string
	ModSet   bool // modifies clause given
	Clos     *ClosSpec
	Reveal   []string
	Tags     []string
	Modular  bool // use contract at call sites (default true if any ensures/requires)
	Inline   bool
	Pure     bool
	Uses     []UseHint
	Opts     map[string]string
	Pos      string
	Verify   bool
	NoPanic  bool
	Lets     []struct {
		Name string
		E    *Expr
	}
	Effects []Effect
	RetPure bool
	Given   []Given
}

// Given: verify with the named parameter bound to a list of closures built by the listed calls, for all
// values of the ghost binders.
type Given struct {
	Binders []Binder
	Param   string
	E       *Expr
	Text    string
}

// Effect: assignment to a ghost variable by a library contract.
type Effect struct {
	Target string
	E      *Expr
	Cond   *Expr
	Text   string
}

type SpecFn struct {
	Pkg      string
	Name     string
	Params   []Binder
	Result   string
	Body     *Expr
	Rec      bool
	Opaque   bool // unfolded only where a contract says reveal
	Uninterp bool
	Pos      string
}

type Lemma struct {
	Pkg       string
	Name      string
	Params    []Binder
	Requires  []Clause
	Ensures   []Clause
	Decreases *Expr
	Uses      []UseHint
	Tags      []string
	Axiom     bool
	Trigger   [][]*Expr
	Pos       string
	Opts      map[string]string
	Reveal    []string
	Order     int
}

type GhostVar struct {
	Name, Type string
	Tags       []string
}

type SpecFile struct {
	Funcs       map[string]*FuncSpec
	Specs       map[string]*SpecFn
	Lemmas      []*Lemma
	Sealed      []Sealed
	Templates   []TemplateSpec
	LemmaByName map[string]*Lemma
	Ghosts      map[string]*GhostVar
}

// ---------- lexer

type tok struct {
	k string // id int str op eof char
	s string
	p int
}

func lex(s string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '/' && i+1 < len(s) && s[i+1] == '/':
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i + 1
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, tok{"id", s[i:j], i})
			i = j
		case c >= '0' && c <= '9':
			j := i + 1
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] == 'x' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F' || s[j] == 'o') {
				j++
			}
			out = append(out, tok{"int", s[i:j], i})
			i = j
		case c == '"':
			j := i + 1
			var b strings.Builder
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case '0':
						b.WriteByte(0)
					default:
						b.WriteByte(s[j])
					}
				} else {
					b.WriteByte(s[j])
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string")
			}
			out = append(out, tok{"str", b.String(), i})
			i = j + 1
		case c == '\'':
			if i+2 < len(s) && s[i+2] == '\'' {
				out = append(out, tok{"int", fmt.Sprint(int(s[i+1])), i})
				i += 3
			} else if i+3 < len(s) && s[i+1] == '\\' && s[i+3] == '\'' {
				v := map[byte]int{'n': 10, 't': 9, '\\': '\\', '\'': '\'', '0': 0}[s[i+2]]
				out = append(out, tok{"int", fmt.Sprint(v), i})
				i += 4
			} else {
				return nil, fmt.Errorf("bad char literal")
			}
		default:
			ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ":=", "..."}
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			out = append(out, tok{"op", m, i})
			i += len(m)
		}
	}
	out = append(out, tok{"eof", "", len(s)})
	return out, nil
}

type sparser struct {
	t   []tok
	i   int
	src string
}

func (p *sparser) peek() tok { return p.t[p.i] }
func (p *sparser) next() tok { t := p.t[p.i]; p.i++; return t }
func (p *sparser) isOp(s string) bool {
	return p.peek().k == "op" && p.peek().s == s
}
func (p *sparser) isID(s string) bool {
	return p.peek().k == "id" && p.peek().s == s
}
func (p *sparser) accept(s string) bool {
	if p.isOp(s) {
		p.i++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Errorf("expected %q at %q", s, p.rest()))
	}
}
func (p *sparser) rest() string {
	r := p.src[p.peek().p:]
	if len(r) > 40 {
		r = r[:40]
	}
	return r
}

func ParseExpr(s string) (e *Expr, err error) {
	ts, err := lex(s)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	p := &sparser{t: ts, src: s}
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(error); ok {
				err = fmt.Errorf("%v in %q", er, s)
				return
			}
			panic(r)
		}
	}()
	e = p.expr(0)
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", p.rest(), s)
	}
	return e, nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *sparser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		op := t.s
		if t.k == "id" && op != "in" {
			break
		}
		if t.k != "op" && t.k != "id" {
			break
		}
		if op == "?" && min <= 3 {
			p.next()
			a := p.expr(0)
			p.expect(":")
			b := p.expr(3)
			l = &Expr{Op: "cond", Args: []*Expr{l, a, b}}
			continue
		}
		pr, ok := prec[op]
		if !ok || pr < min {
			break
		}
		p.next()
		var r *Expr
		if op == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{Op: "bin", Name: op, Args: []*Expr{l, r}}
	}
	return l
}

func (p *sparser) unary() *Expr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-" || t.s == "*" || t.s == "&") {
		p.next()
		return &Expr{Op: "un", Name: t.s, Args: []*Expr{p.unary()}}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		e := &Expr{Op: "quant", Name: t.s}
		e.Vars = p.binders("::")
		p.expect("::")
		for p.isOp("{") {
			p.next()
			var pat []*Expr
			for {
				pat = append(pat, p.expr(0))
				if p.accept(",") {
					continue
				}
				break
			}
			p.expect("}")
			e.Pats = append(e.Pats, pat)
		}
		e.Args = []*Expr{p.expr(0)}
		return e
	}
	if t.k == "id" && t.s == "let" {
		p.next()
		n := p.next().s
		p.expect(":=")
		v := p.expr(7) // comparisons need parentheses; "in" ends the value
		if !p.isID("in") {
			panic(fmt.Errorf("expected in at %q", p.rest()))
		}
		p.next()
		b := p.expr(0)
		return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}}
	}
	return p.postfix(p.primary())
}

// binders: "i int, j int, p *T" up to stop token (not consumed)
func (p *sparser) binders(stop string) []Binder {
	var out []Binder
	for {
		n := p.next()
		if n.k != "id" {
			panic(fmt.Errorf("binder name expected at %q", p.rest()))
		}
		start := p.peek().p
		depth := 0
		for {
			t := p.peek()
			if t.k == "eof" {
				break
			}
			if depth == 0 && t.k == "op" && (t.s == "," || t.s == stop || t.s == ")" || t.s == ":") {
				break
			}
			if t.k == "op" && (t.s == "[" || t.s == "(") {
				depth++
			}
			if t.k == "op" && (t.s == "]" || t.s == ")") {
				depth--
			}
			p.next()
		}
		out = append(out, Binder{n.s, strings.TrimSpace(p.src[start:p.peek().p])})
		if p.accept(",") {
			continue
		}
		break
	}
	// "a, b int" style
	for i := len(out) - 2; i >= 0; i-- {
		if out[i].Type == "" {
			out[i].Type = out[i+1].Type
		}
	}
	return out
}

func (p *sparser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "int":
		return &Expr{Op: "int", Name: t.s}
	case "str":
		return &Expr{Op: "str", Name: t.s}
	case "id":
		if t.s == "old" && p.isOp("(") {
			p.next()
			e := p.expr(0)
			p.expect(")")
			return &Expr{Op: "old", Args: []*Expr{e}}
		}
		return &Expr{Op: "ident", Name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			return e
		}
		if t.s == "[" && p.isOp("]") { // []T{} literal / type conv: only []T{...}
			start := t.p
			p.next()
			for !p.isOp("{") && !p.isOp("(") && p.peek().k != "eof" {
				p.next()
			}
			ty := strings.TrimSpace(p.src[start:p.peek().p])
			if p.accept("{") {
				e := &Expr{Op: "lit", Name: ty}
				for !p.accept("}") {
					e.Args = append(e.Args, p.expr(0))
					p.accept(",")
				}
				return e
			}
			p.expect("(")
			a := p.expr(0)
			p.expect(")")
			return &Expr{Op: "conv", Name: ty, Args: []*Expr{a}}
		}
	}
	panic(fmt.Errorf("unexpected %q at %q", t.s, p.src[t.p:]))
}

func (p *sparser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.isOp("."):
			p.next()
			n := p.next()
			e = &Expr{Op: "sel", Name: n.s, Args: []*Expr{e}}
		case p.isOp("("):
			p.next()
			c := &Expr{Op: "call", Args: []*Expr{e}}
			for !p.accept(")") {
				c.Args = append(c.Args, p.expr(0))
				if !p.accept(",") && !p.isOp(")") {
					panic(fmt.Errorf("expected , or ) at %q", p.rest()))
				}
			}
			e = c
		case p.isOp("["):
			p.next()
			if p.accept(":") {
				hi := p.expr(0)
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, nil, hi}}
				continue
			}
			i := p.expr(0)
			if p.accept(":") {
				if p.accept("]") {
					e = &Expr{Op: "slice", Args: []*Expr{e, i, nil}}
					continue
				}
				hi := p.expr(0)
				p.expect("]")
				e = &Expr{Op: "slice", Args: []*Expr{e, i, hi}}
				continue
			}
			if p.accept(":=") { // functional update a[i := v]
				v := p.expr(0)
				p.expect("]")
				e = &Expr{Op: "upd", Args: []*Expr{e, i, v}}
				continue
			}
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}}
		case p.isOp("{") && (e.Op == "ident" || e.Op == "sel" || e.Op == "un") && p.i+2 < len(p.t) && (p.t[p.i+1].k == "id" && p.t[p.i+2].s == ":" || p.t[p.i+1].s == "}"):
			// T{F: v, ...} or value{F: v, ...} (functional update)
			p.next()
			l := &Expr{Op: "struct", Args: []*Expr{e}}
			for !p.accept("}") {
				n := p.next()
				p.expect(":")
				l.Vars = append(l.Vars, Binder{n.s, ""})
				l.Args = append(l.Args, p.expr(0))
				if !p.accept(",") && !p.isOp("}") {
					panic(fmt.Errorf("expected , or } at %q", p.rest()))
				}
			}
			e = l
		default:
			return e
		}
	}
}

// ---------- file format

const modPath = "github.com/chainguard-dev/go-apk/"

// TemplateSpec is a contract on a text/template in a package variable.
type TemplateSpec struct {
	Tags      []string
	Var, Spec string
}

// Sealed packages may only be used through contracts.
type Sealed struct {
	Tags, Pkgs, Except []string
}

func (sf *SpecFile) sealed(prop, pkg, name string, sig *types.Signature) bool {
	str := false
	for i := 0; i < sig.Params().Len(); i++ {
		if b, ok := sig.Params().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
			str = true
		}
	}
	for _, s := range sf.Sealed {
		if str && hasTag(s.Tags, prop) && slices.Contains(s.Pkgs, pkg) && !slices.Contains(s.Except, name) {
			return true
		}
	}
	return false
}

func LoadSpecs(dir string) (*SpecFile, error) {
	sf := &SpecFile{Funcs: map[string]*FuncSpec{}, Specs: map[string]*SpecFn{}, Ghosts: map[string]*GhostVar{}, LemmaByName: map[string]*Lemma{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.gcv"))
	sort.Strings(files)
	for _, f := range files {
		if err := loadSpecFile(sf, f); err != nil {
			return nil, err
		}
	}
	return sf, nil
}

type rawLine struct {
	indent int
	text   string
	pos    string
}

func loadSpecFile(sf *SpecFile, file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	base := filepath.Base(file)
	// join continuation lines: a line whose indent > 2 levels continues; use rule: top-level lines start at col 0,
	// clauses at indent 2, continuations deeper.
	var ls []rawLine
	for n, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, "//"); i >= 0 && (i == 0 || l[i-1] == ' ') && strings.Count(l[:i], "\"")%2 == 0 {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		l = strings.ReplaceAll(l, "\t", "  ")
		ind := len(l) - len(strings.TrimLeft(l, " "))
		if ind > 2 && len(ls) > 0 {
			ls[len(ls)-1].text += " " + strings.TrimSpace(l)
			continue
		}
		ls = append(ls, rawLine{ind, strings.TrimSpace(l), fmt.Sprintf("%s:%d", base, n+1)})
	}
	pkg := ""
	var cf *FuncSpec
	var cl *Lemma
	fail := func(r rawLine, e error) error { return fmt.Errorf("%s: %v", r.pos, e) }
	for _, r := range ls {
		word, rest := cut(r.text)
		if r.indent == 0 {
			cf, cl = nil, nil
			switch word {
			case "package":
				pkg = rest
				if !strings.Contains(pkg, ".") {
					pkg = modPath + pkg
				}
			case "ghost":
				tags, rr := tagsOf(rest)
				n, t := cut(rr)
				sf.Ghosts[n] = &GhostVar{n, t, tags}
			case "template":
				// template [C07] varName specName: what the template of that variable renders for a value v is specName(v)
				tags, rr := tagsOf(rest)
				f := strings.Fields(rr)
				if len(f) != 2 {
					return fail(r, fmt.Errorf("template VAR SPEC"))
				}
				sf.Templates = append(sf.Templates, TemplateSpec{tags, pkg + "." + f[0], f[1]})
			case "sealed":
				// sealed [C14] pkg, pkg except F, G: in the check of C14 a function of these packages that takes a
				// string may be called only through a contract
				tags, rr := tagsOf(rest)
				pk, ex, _ := strings.Cut(rr, " except ")
				sf.Sealed = append(sf.Sealed, Sealed{tags, splitNames(pk), splitNames(ex)})
			case "spec", "abstract":
				s := &SpecFn{Pkg: pkg, Pos: r.pos}
				if word == "abstract" {
					s.Uninterp = true
				}
				w, r2 := cut(rest)
				if w == "rec" {
					s.Rec = true
					rest = r2
				}
				if w == "opaque" {
					s.Opaque = true
					rest = r2
				}
				if err := parseSpecFn(s, rest); err != nil {
					return fail(r, err)
				}
				if sf.Specs[s.Name] != nil {
					return fail(r, fmt.Errorf("spec %s is declared twice", s.Name))
				}
				sf.Specs[s.Name] = s
			case "lemma", "axiom":
				l := &Lemma{Pkg: pkg, Pos: r.pos, Axiom: word == "axiom", Opts: map[string]string{}}
				tags, rr := tagsOf(rest)
				l.Tags = tags
				i := strings.Index(rr, "(")
				l.Name = strings.TrimSpace(rr[:i])
				bs, err := parseBinders(rr[i+1 : strings.LastIndex(rr, ")")])
				if err != nil {
					return fail(r, err)
				}
				l.Params = bs
				l.Order = len(sf.Lemmas)
				sf.Lemmas = append(sf.Lemmas, l)
				sf.LemmaByName[l.Name] = l
				cl = l
			case "func", "lib", "iface":
				f := &FuncSpec{Pkg: pkg, Pos: r.pos, Modular: true, Opts: map[string]string{}}
				tags, rr := tagsOf(rest)
				f.Tags = tags
				f.Lib = word == "lib"
				f.Iface = word == "iface"
				f.Verify = word == "func"
				name := rr
				// optional trailing "(a, b)" parameter names, only when preceded by a space
				if i := strings.LastIndex(rr, " ("); i > 0 {
					name = strings.TrimSpace(rr[:i])
					if ps := strings.TrimSpace(strings.TrimSuffix(strings.TrimSpace(rr[i+2:]), ")")); ps != "" {
						for _, q := range strings.Split(ps, ",") {
							f.Params = append(f.Params, strings.TrimSpace(q))
						}
					}
				}
				f.Name = name
				k := name
				if word == "func" {
					k = pkg + "." + name
				}
				if _, dup := sf.Funcs[k]; dup {
					return fail(r, fmt.Errorf("duplicate contract for %s", k))
				}
				sf.Funcs[k] = f
				cf = f
			default:
				return fail(r, fmt.Errorf("unknown item %q", word))
			}
			continue
		}
		// clause
		tags, rr := tagsOf(rest)
		mk := func(s string) (Clause, error) {
			nm := ""
			// optional "name:" label
			if i := strings.Index(s, ": "); i > 0 && i < 40 && isIdent(s[:i]) {
				nm = s[:i]
				s = strings.TrimSpace(s[i+2:])
			}
			e, err := ParseExpr(s)
			return Clause{Text: s, E: e, Tags: tags, Pos: r.pos, Name: nm}, err
		}
		if cl != nil {
			switch word {
			case "requires", "ensures":
				c, err := mk(rr)
				if err != nil {
					return fail(r, err)
				}
				if word == "requires" {
					cl.Requires = append(cl.Requires, c)
				} else {
					cl.Ensures = append(cl.Ensures, c)
				}
			case "decreases":
				e, err := ParseExpr(rr)
				if err != nil {
					return fail(r, err)
				}
				cl.Decreases = e
			case "use":
				h, err := parseUse(rr)
				if err != nil {
					return fail(r, err)
				}
				cl.Uses = append(cl.Uses, h)
			case "trigger":
				var pat []*Expr
				for _, s := range splitTop(rr) {
					e, err := ParseExpr(s)
					if err != nil {
						return fail(r, err)
					}
					pat = append(pat, e)
				}
				cl.Trigger = append(cl.Trigger, pat)
			case "reveal":
				cl.Reveal = append(cl.Reveal, splitNames(rr)...)
			case "opt":
				k, v := cut(rr)
				cl.Opts[k] = v
			default:
				return fail(r, fmt.Errorf("unknown clause %q", word))
			}
			continue
		}
		if cf == nil {
			return fail(r, fmt.Errorf("clause outside item"))
		}
		switch word {
		case "requires", "ensures", "proves":
			c, err := mk(rr)
			if err != nil {
				return fail(r, err)
			}
			c.Local = word == "proves"
			if word == "requires" {
				cf.Requires = append(cf.Requires, c)
			} else {
				cf.Ensures = append(cf.Ensures, c)
			}
		case "let":
			i := strings.Index(rr, ":=")
			e, err := ParseExpr(strings.TrimSpace(rr[i+2:]))
			if err != nil {
				return fail(r, err)
			}
			cf.Lets = append(cf.Lets, struct {
				Name string
				E    *Expr
			}{strings.TrimSpace(rr[:i]), e})
		case "inv":
			// inv (i int, s []T) expr   |  inv expr
			li := LoopInv{Cand: true}
			s := rr
			if strings.HasPrefix(s, "(") {
				d := 0
				j := 0
				for j = 0; j < len(s); j++ {
					if s[j] == '(' {
						d++
					}
					if s[j] == ')' {
						d--
						if d == 0 {
							break
						}
					}
				}
				if j+1 < len(s) && strings.HasPrefix(strings.TrimSpace(s[j+1:]), "::") {
					bs, err := parseBinders(s[1:j])
					if err != nil {
						return fail(r, err)
					}
					li.Binders = bs
					s = strings.TrimSpace(strings.TrimPrefix(strings.TrimSpace(s[j+1:]), "::"))
				}
			}
			c, err := mk(s)
			if err != nil {
				return fail(r, err)
			}
			li.C = c
			cf.Invs = append(cf.Invs, li)
		case "given":
			// given (a T, b U) param := [f(a), g(b)]
			j := strings.Index(rr, ")")
			bs, err := parseBinders(rr[1:j])
			if err != nil {
				return fail(r, err)
			}
			i := strings.Index(rr, ":=")
			e, err := ParseExpr("[]any{" + strings.Trim(strings.TrimSpace(rr[i+2:]), "[]") + "}")
			if err != nil {
				return fail(r, err)
			}
			cf.Given = append(cf.Given, Given{bs, strings.TrimSpace(rr[j+1 : i]), e, rr})
		case "closure":
			bs, err := parseBinders(strings.TrimSuffix(strings.TrimPrefix(strings.TrimSpace(rr), "("), ")"))
			if err != nil {
				return fail(r, err)
			}
			cf.Clos = &ClosSpec{Params: bs}
		case "crequires", "censures":
			c, err := mk(rr)
			if err != nil {
				return fail(r, err)
			}
			if word == "crequires" {
				cf.Clos.Requires = append(cf.Clos.Requires, c)
			} else {
				cf.Clos.Ensures = append(cf.Clos.Ensures, c)
			}
		case "cmodifies":
			cf.Clos.Modifies = append(cf.Clos.Modifies, splitNames(rr)...)
		case "reveal":
			cf.Reveal = append(cf.Reveal, splitNames(rr)...)
		case "modifies":
			cf.ModSet = true
			mtags := tags
			for _, m := range strings.Split(rr, ",") {
				m = strings.TrimSpace(m)
				if m != "" && m != "nothing" {
					if mtags != nil {
						if cf.ModTags == nil {
							cf.ModTags = map[string][]string{}
						}
						cf.ModTags[m] = mtags
					}
					cf.Modifies = append(cf.Modifies, m)
				}
			}
		case "use":
			h, err := parseUse(rr)
			if err != nil {
				return fail(r, err)
			}
			cf.Uses = append(cf.Uses, h)
		case "effect":
			// effect g := expr [if cond]
			i := strings.Index(rr, ":=")
			ef := Effect{Target: strings.TrimSpace(rr[:i]), Text: rr}
			body := strings.TrimSpace(rr[i+2:])
			if j := strings.LastIndex(body, " if "); j > 0 {
				c, err := ParseExpr(body[j+4:])
				if err != nil {
					return fail(r, err)
				}
				ef.Cond = c
				body = body[:j]
			}
			e, err := ParseExpr(body)
			if err != nil {
				return fail(r, err)
			}
			ef.E = e
			cf.Effects = append(cf.Effects, ef)
		case "inline":
			cf.Modular = false
		case "pure":
			cf.Pure = true
		case "opt":
			k, v := cut(rr)
			if v == "" {
				v = "1"
			}
			cf.Opts[k] = v
		default:
			return fail(r, fmt.Errorf("unknown clause %q", word))
		}
	}
	return nil
}

func isIdent(s string) bool {
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '-') {
			return false
		}
	}
	return s != ""
}

func cut(s string) (string, string) {
	s = strings.TrimSpace(s)
	i := strings.IndexByte(s, ' ')
	if i < 0 {
		return s, ""
	}
	return s[:i], strings.TrimSpace(s[i+1:])
}

func tagsOf(s string) ([]string, string) {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "[C") {
		i := strings.IndexByte(s, ']')
		var out []string
		for _, t := range strings.FieldsFunc(s[1:i], func(r rune) bool { return r == ' ' || r == ',' }) {
			out = append(out, t)
		}
		return out, strings.TrimSpace(s[i+1:])
	}
	return nil, s
}

func parseBinders(s string) (bs []Binder, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in binders %q", r, s)
		}
	}()
	if strings.TrimSpace(s) == "" {
		return nil, nil
	}
	ts, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &sparser{t: ts, src: s}
	return p.binders("::"), nil
}

func parseSpecFn(s *SpecFn, text string) error {
	i := strings.Index(text, "(")
	s.Name = strings.TrimSpace(text[:i])
	d := 0
	j := i
	for ; j < len(text); j++ {
		if text[j] == '(' {
			d++
		}
		if text[j] == ')' {
			d--
			if d == 0 {
				break
			}
		}
	}
	bs, err := parseBinders(text[i+1 : j])
	if err != nil {
		return err
	}
	s.Params = bs
	rest := strings.TrimSpace(text[j+1:])
	if s.Uninterp {
		s.Result = rest
		return nil
	}
	k := strings.Index(rest, "=")
	if k < 0 {
		return fmt.Errorf("spec function needs a body")
	}
	s.Result = strings.TrimSpace(rest[:k])
	e, err := ParseExpr(rest[k+1:])
	if err != nil {
		return err
	}
	s.Body = e
	return nil
}

func parseUse(s string) (UseHint, error) {
	h := UseHint{Text: s}
	if strings.HasPrefix(s, "forall ") {
		i := strings.Index(s, "::")
		bs, err := parseBinders(s[7:i])
		if err != nil {
			return h, err
		}
		h.Vars = bs
		s = strings.TrimSpace(s[i+2:])
	}
	if j := strings.LastIndex(s, " if "); j > 0 {
		c, err := ParseExpr(s[j+4:])
		if err != nil {
			return h, err
		}
		h.Cond = c
		s = s[:j]
	}
	e, err := ParseExpr(s)
	if err != nil {
		return h, err
	}
	if e.Op != "call" || e.Args[0].Op != "ident" {
		return h, fmt.Errorf("use needs lemma(args)")
	}
	h.Lemma = e.Args[0].Name
	h.Args = e.Args[1:]
	return h, nil
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

func splitNames(s string) []string {
	var out []string
	for _, m := range strings.Split(s, ",") {
		if m = strings.TrimSpace(m); m != "" {
			out = append(out, m)
		}
	}
	return out
}
