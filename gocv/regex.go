package main

import (
	"math/big"
	"regexp/syntax"
)

func bigN(n int64) *big.Int { return big.NewInt(n) }

// inRe: full match of s against a regular expression, as an SMT regex membership.
func inRe(s *Term, re string) *Term {
	p, err := syntax.Parse(re, syntax.Perl)
	if err != nil {
		unsup("regex %q: %v", re, err)
	}
	return StrOp("str.in_re", SBool, s, Re(reTerm(p.Simplify())))
}

func reTerm(r *syntax.Regexp) string {
	switch r.Op {
	case syntax.OpLiteral:
		return "(str.to_re " + smtStr(string(r.Rune)) + ")"
	case syntax.OpEmptyMatch, syntax.OpBeginText, syntax.OpEndText, syntax.OpBeginLine, syntax.OpEndLine:
		return `(str.to_re "")`
	case syntax.OpCharClass:
		var ps []string
		for i := 0; i+1 < len(r.Rune); i += 2 {
			lo, hi := r.Rune[i], r.Rune[i+1]
			if hi > 127 && (lo > 128 || hi != 0x10FFFF) {
				unsup("regex class with non-ASCII bounds")
			}
			if lo > 255 {
				continue
			}
			if hi > 255 {
				hi = 255
			}
			ps = append(ps, "(re.range "+smtStr(string([]byte{byte(lo)}))+" "+smtStr(string([]byte{byte(hi)}))+")")
		}
		if len(ps) == 0 {
			return "re.none"
		}
		return reJoin("re.union", ps)
	case syntax.OpAnyChar:
		return "re.allchar"
	case syntax.OpAnyCharNotNL:
		return `(re.union (re.range "\u{0}" "\u{9}") (re.range "\u{b}" "\u{ff}"))`
	case syntax.OpCapture:
		return reTerm(r.Sub[0])
	case syntax.OpStar:
		return "(re.* " + reTerm(r.Sub[0]) + ")"
	case syntax.OpPlus:
		return "(re.+ " + reTerm(r.Sub[0]) + ")"
	case syntax.OpQuest:
		return "(re.opt " + reTerm(r.Sub[0]) + ")"
	case syntax.OpConcat:
		var ps []string
		for _, s := range r.Sub {
			ps = append(ps, reTerm(s))
		}
		return reJoin("re.++", ps)
	case syntax.OpAlternate:
		var ps []string
		for _, s := range r.Sub {
			ps = append(ps, reTerm(s))
		}
		return reJoin("re.union", ps)
	}
	unsup("regex operator %v", r.Op)
	return ""
}

func reJoin(op string, ps []string) string {
	if len(ps) == 1 {
		return ps[0]
	}
	s := "(" + op
	for _, p := range ps {
		s += " " + p
	}
	return s + ")"
}

// Re wraps raw SMT regex text as a constant term.
func Re(text string) *Term { return intern(&Term{op: "raw", name: text, sort: SRegLan}) }

var SRegLan = &Sort{Kind: "RegLan"}
