package apk

// pkg: pkg/apk
// Oracle: the written decomposition of a dependency string, and the relation on versions.

import (
	"fmt"
	"strings"
	"testing"
)

func v03ver(h *vh) Version {
	var v Version
	for k := 1 + h.rnd.Intn(3); k > 0; k-- {
		v.numbers = append(v.numbers, h.rnd.Intn(3))
	}
	if h.rnd.Intn(3) == 0 {
		v.letter = rune('a' + h.rnd.Intn(2))
	}
	if h.rnd.Intn(3) == 0 {
		v.preSuffix = []packageVersionPreModifier{packageVersionPreModifierAlpha, packageVersionPreModifierBeta, packageVersionPreModifierPre, packageVersionPreModifierRC}[h.rnd.Intn(4)]
		v.preSuffixNumber = h.rnd.Intn(2)
	}
	if h.rnd.Intn(3) == 0 {
		v.postSuffix = []packageVersionPostModifier{packageVersionPostModifierCVS, packageVersionPostModifierSVN, packageVersionPostModifierGit, packageVersionPostModifierHG, packageVersionPostModifierP}[h.rnd.Intn(5)]
		v.postSuffixNumber = h.rnd.Intn(2)
	}
	if h.rnd.Intn(2) == 0 {
		v.revision = h.rnd.Intn(3)
	}
	return v
}

func v03key(v Version) []int {
	pre := map[packageVersionPreModifier]int{packageVersionPreModifierAlpha: 1, packageVersionPreModifierBeta: 2, packageVersionPreModifierPre: 3, packageVersionPreModifierRC: 4, packageVersionPreModifierNone: 5}
	post := map[packageVersionPostModifier]int{packageVersionPostModifierNone: 0, packageVersionPostModifierCVS: 1, packageVersionPostModifierSVN: 2, packageVersionPostModifierGit: 3, packageVersionPostModifierHG: 4, packageVersionPostModifierP: 5}
	return []int{int(v.letter), pre[v.preSuffix], v.preSuffixNumber, post[v.postSuffix], v.postSuffixNumber, v.revision}
}

func v03cmp(a, b Version) int {
	for i := 0; ; i++ {
		if i == len(a.numbers) && i == len(b.numbers) {
			break
		}
		if i == len(a.numbers) {
			return -1
		}
		if i == len(b.numbers) {
			return 1
		}
		if a.numbers[i] != b.numbers[i] {
			if a.numbers[i] < b.numbers[i] {
				return -1
			}
			return 1
		}
	}
	ka, kb := v03key(a), v03key(b)
	for i := range ka {
		if ka[i] != kb[i] {
			if ka[i] < kb[i] {
				return -1
			}
			return 1
		}
	}
	return 0
}

func v03tilde(a, r Version) bool {
	if len(a.numbers) < len(r.numbers) {
		return false
	}
	for i := range r.numbers {
		if a.numbers[i] != r.numbers[i] {
			return false
		}
	}
	if len(a.numbers) > len(r.numbers) {
		return true
	}
	return (r.letter == 0 || r.letter == a.letter) && (r.preSuffix == 0 || r.preSuffix == a.preSuffix) && (r.preSuffixNumber == 0 || r.preSuffixNumber == a.preSuffixNumber) &&
		(r.postSuffix == 0 || r.postSuffix == a.postSuffix) && (r.postSuffixNumber == 0 || r.postSuffixNumber == a.postSuffixNumber) && (r.revision == 0 || r.revision == a.revision)
}

func TestVerifC03(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	ops := map[string]versionDependency{"=": versionEqual, ">": versionGreater, "<": versionLess, ">=": versionGreaterEqual, "<=": versionLessEqual, "~": versionTilde, "": versionAny}
	check := func(s string, want parsedConstraint) {
		h.guard("panic", fmt.Sprintf("%q", s), func() {
			got := resolvePackageNameVersionPin(s)
			h.eval("%q", s)
			if got != want {
				h.fail("split", fmt.Sprintf("%q", s), "parsed as %+v, written %+v", got, want)
			}
			got2 := (&PkgResolver{depForVersion: map[string]parsedConstraint{}}).resolvePackageNameVersionPin(s)
			if got2 != want {
				h.fail("split-cached", fmt.Sprintf("%q", s), "resolver parses as %+v, written %+v", got2, want)
			}
		})
	}
	for _, s := range h.hints {
		if s != "" && !strings.ContainsAny(s, "=<>~@") {
			check(s, parsedConstraint{name: s})
		}
	}
	names := []string{"a", "foo", "so:libc.so.6", "cmd:x-y", "pc:a+b", "!foo", "py3.10-x", "a b", "/bin/sh", "é", "x\ny"}
	vers := []string{"1", "1.2.3", "1.2-r0", "0_git2023", "x", "1:2", "é", "1\n", "-"}
	pins := []string{"edge", "A1", "0"}
	bad := []string{"", "=1", "@edge", "a@", "a=", "a@b@c", "a@b=1", "a@b-c", "a=1@", "a=1@b@c", "a@ edge", "=", "~"}
	for _, s := range bad {
		check(s, parsedConstraint{name: s})
	}
	for _, n := range names {
		for op, dep := range ops {
			vv := vers
			if op == "" {
				vv = []string{""}
			}
			for _, v := range vv {
				check(n+op+v, parsedConstraint{name: n, version: v, dep: dep})
				for _, p := range pins {
					check(n+op+v+"@"+p, parsedConstraint{name: n, version: v, dep: dep, pin: p})
				}
			}
		}
	}
	for i := 0; i < h.n(60000) && h.more(); i++ {
		a, r := v03ver(h), v03ver(h)
		if h.rnd.Intn(2) == 0 {
			r = a
			r.numbers = append([]int{}, a.numbers[:1+h.rnd.Intn(len(a.numbers))]...)
			if h.rnd.Intn(2) == 0 {
				w := v03ver(h)
				switch h.rnd.Intn(6) {
				case 0:
					r.letter = w.letter
				case 1:
					r.preSuffix = w.preSuffix
				case 2:
					r.preSuffixNumber = w.preSuffixNumber
				case 3:
					r.postSuffix = w.postSuffix
				case 4:
					r.postSuffixNumber = w.postSuffixNumber
				case 5:
					r.revision = w.revision
				}
			}
		}
		c := v03cmp(a, r)
		in := fmt.Sprintf("actual %+v required %+v", a, r)
		want := map[versionDependency]bool{versionAny: true, versionEqual: c == 0, versionGreater: c > 0, versionLess: c < 0, versionGreaterEqual: c >= 0, versionLessEqual: c <= 0, versionTilde: v03tilde(a, r)}
		h.eval("%s", in)
		h.guard("panic", in, func() {
			for op, w := range want {
				if g := op.satisfies(a, r); g != w {
					h.fail("satisfies", in, "operator %v satisfied=%v, should be %v", op, g, w)
				}
			}
		})
	}
}
