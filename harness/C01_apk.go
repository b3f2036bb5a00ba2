// pkg: pkg/apk
package apk

import (
	"fmt"
	"testing"
)

func c01pre(p packageVersionPreModifier) int {
	switch p {
	case packageVersionPreModifierAlpha:
		return 1
	case packageVersionPreModifierBeta:
		return 2
	case packageVersionPreModifierPre:
		return 3
	case packageVersionPreModifierRC:
		return 4
	}
	return 5
}

func c01post(p packageVersionPostModifier) int {
	switch p {
	case packageVersionPostModifierCVS:
		return 1
	case packageVersionPostModifierSVN:
		return 2
	case packageVersionPostModifierGit:
		return 3
	case packageVersionPostModifierHG:
		return 4
	case packageVersionPostModifierP:
		return 5
	}
	return 0
}

func c01cmp(a, b int) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func c01oracle(a, b Version) int {
	for i := 0; ; i++ {
		if i >= len(a.numbers) && i >= len(b.numbers) {
			break
		}
		if i >= len(a.numbers) {
			return -1
		}
		if i >= len(b.numbers) {
			return 1
		}
		if c := c01cmp(a.numbers[i], b.numbers[i]); c != 0 {
			return c
		}
	}
	for _, p := range [][2]int{
		{int(a.letter), int(b.letter)}, {c01pre(a.preSuffix), c01pre(b.preSuffix)}, {a.preSuffixNumber, b.preSuffixNumber},
		{c01post(a.postSuffix), c01post(b.postSuffix)}, {a.postSuffixNumber, b.postSuffixNumber}, {a.revision, b.revision}} {
		if c := c01cmp(p[0], p[1]); c != 0 {
			return c
		}
	}
	return 0
}

func TestVerifC01(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	num := func() string { return h.pick("0", "1", "2", "3", "10", "9", "11", "007", "99", "100", "9223372036854775807", "20230331", "65536", "2147483648", "4294967296") }
	gen := func() string {
		s := num()
		n := h.rnd.Intn(4)
		if h.rnd.Intn(20) == 0 {
			n = 8 + h.rnd.Intn(8)
		}
		for ; n > 0; n-- {
			s += "." + num()
		}
		if h.rnd.Intn(3) == 0 {
			s += string(rune('a' + h.rnd.Intn(26)))
		}
		if h.rnd.Intn(2) == 0 {
			s += h.pick("_alpha", "_beta", "_pre", "_rc")
			if h.rnd.Intn(2) == 0 {
				s += num()
			}
		}
		if h.rnd.Intn(2) == 0 {
			s += h.pick("_cvs", "_svn", "_git", "_hg", "_p")
			if h.rnd.Intn(2) == 0 {
				s += num()
			}
		}
		if h.rnd.Intn(2) == 0 {
			s += "-r" + num()
		}
		return s
	}
	// near(s): a version differing in one place, so that late components decide
	var pool []string
	for i := 0; i < 60; i++ {
		pool = append(pool, gen())
	}
	base := []string{"1", "1.2", "1.2.3", "1.2.3.0", "1a", "1.2b"}
	for _, b := range base {
		for _, pre := range []string{"", "_alpha", "_alpha1", "_beta", "_beta2", "_pre", "_pre3", "_rc", "_rc4"} {
			for _, post := range []string{"", "_cvs", "_svn", "_git", "_git2", "_hg", "_p", "_p1", "_p10"} {
				for _, r := range []string{"", "-r1", "-r2", "-r10"} {
					if h.rnd.Intn(6) == 0 || (pre == "" && post == "") {
						pool = append(pool, b+pre+post+r)
					}
				}
			}
		}
	}
	pool = append(pool, h.hints...)
	var vs []Version
	var ss []string
	for _, s := range pool {
		v, err := ParseVersion(s)
		if err == nil {
			vs = append(vs, v)
			ss = append(ss, s)
		}
	}
	cmp := func(i, j int) int {
		r := 99
		h.guard("panic", ss[i]+" vs "+ss[j], func() { r = CompareVersions(vs[i], vs[j]) })
		return r
	}
	for k := 0; k < h.n(60000) && h.more(); k++ {
		i, j := h.rnd.Intn(len(vs)), h.rnd.Intn(len(vs))
		if h.rnd.Intn(10) == 0 {
			j = i
		}
		c := cmp(i, j)
		h.eval("%s|%s", ss[i], ss[j])
		if want := c01oracle(vs[i], vs[j]); c != want {
			h.fail("verdict", fmt.Sprintf("%q %q", ss[i], ss[j]), "CompareVersions = %d, the documented order gives %d", c, want)
		}
		if d := cmp(j, i); d != -c {
			h.fail("antisymmetry", fmt.Sprintf("%q %q", ss[i], ss[j]), "compare(a,b)=%d but compare(b,a)=%d", c, d)
		}
		l := h.rnd.Intn(len(vs))
		if e := cmp(j, l); c <= 0 && e <= 0 {
			if f := cmp(i, l); f > 0 {
				h.fail("transitivity", fmt.Sprintf("%q %q %q", ss[i], ss[j], ss[l]), "a<=b, b<=c but compare(a,c)=%d", f)
			}
		}
	}
}
