package apk

// pkg: pkg/apk
// Oracle for ParseVersion: a hand-written left-to-right reader of the documented grammar.

import (
	"fmt"
	"math/big"
	"strings"
	"testing"
)

func v02digits(s string) (string, string) {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	return s[:i], s[i:]
}

// v02all returns the reading of s, or ok=false.
func v02read(s string) (Version, bool) {
	var v Version
	ok := true
	num := func(d string) int {
		b, good := new(big.Int).SetString(d, 10)
		if !good || !b.IsInt64() {
			ok = false
			return 0
		}
		return int(b.Int64())
	}
	d, r := v02digits(s)
	if d == "" {
		return v, false
	}
	v.numbers = append(v.numbers, num(d))
	for strings.HasPrefix(r, ".") {
		d, r2 := v02digits(r[1:])
		if d == "" {
			return v, false
		}
		v.numbers = append(v.numbers, num(d))
		r = r2
	}
	if r != "" && r[0] >= 'a' && r[0] <= 'z' {
		v.letter = rune(r[0])
		r = r[1:]
	}
	for i, n := range []string{"_alpha", "_beta", "_pre", "_rc"} {
		if strings.HasPrefix(r, n) {
			v.preSuffix = []packageVersionPreModifier{packageVersionPreModifierAlpha, packageVersionPreModifierBeta, packageVersionPreModifierPre, packageVersionPreModifierRC}[i]
			d, r2 := v02digits(r[len(n):])
			if d != "" {
				v.preSuffixNumber = num(d)
			}
			r = r2
			break
		}
	}
	for i, n := range []string{"_cvs", "_svn", "_git", "_hg", "_p"} {
		if strings.HasPrefix(r, n) {
			v.postSuffix = []packageVersionPostModifier{packageVersionPostModifierCVS, packageVersionPostModifierSVN, packageVersionPostModifierGit, packageVersionPostModifierHG, packageVersionPostModifierP}[i]
			d, r2 := v02digits(r[len(n):])
			if d != "" {
				v.postSuffixNumber = num(d)
			}
			r = r2
			break
		}
	}
	if strings.HasPrefix(r, "-r") {
		d, r2 := v02digits(r[2:])
		if d == "" {
			return v, false
		}
		v.revision = num(d)
		r = r2
	}
	return v, ok && r == ""
}

func TestVerifC02(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	check := func(s string) {
		h.guard("panic", fmt.Sprintf("%q", s), func() {
			want, ok := v02read(s)
			got, err := ParseVersion(s)
			h.eval("%q ok=%v", s, ok)
			if ok != (err == nil) {
				h.fail("accept", fmt.Sprintf("%q", s), "ParseVersion error %v, but well formed is %v", err, ok)
				return
			}
			if ok && fmt.Sprintf("%+v", got) != fmt.Sprintf("%+v", want) {
				h.fail("value", fmt.Sprintf("%q", s), "ParseVersion reads %+v, written %+v", got, want)
			}
		})
	}
	for _, s := range h.hints {
		check(s)
	}
	for _, s := range []string{"", "1", "1.", ".1", "1..2", "1.2a", "1.2aa", "1.2A", "1_p", "1_pre", "1_pre_p", "1_p_pre", "1-r", "1-r0", "1-r01", "1_alpha_alpha", "9223372036854775807", "9223372036854775808", "1.9223372036854775808", "1_rc9223372036854775808", "1_p9223372036854775808", "1-r9223372036854775808",
		"1\n", " 1", "1 ", "1_git20230101-r0", "1.2_svn", "1z_beta2_hg3-r4", "1\x00", "01.002", "1-r1-r2", "1_foo", "1_prefix", "1é"} {
		check(s)
	}
	num := func() string {
		return h.pick("0", "1", "2", "9", "10", "007", "123", "20230101", "9223372036854775807", "9223372036854775808", "99999999999999999999", "")
	}
	for i := 0; i < h.n(40000) && h.more(); i++ {
		s := num()
		for k := h.rnd.Intn(5); k > 0; k-- {
			s += "." + num()
		}
		s += h.pick("", "", "", "a", "z", "m", "aa", "A")
		if h.rnd.Intn(2) == 0 {
			s += h.pick("_alpha", "_beta", "_pre", "_rc", "_Rc", "_") + num()
		}
		if h.rnd.Intn(2) == 0 {
			s += h.pick("_cvs", "_svn", "_git", "_hg", "_p", "_pp") + num()
		}
		if h.rnd.Intn(2) == 0 {
			s += h.pick("-r", "-r", "-", "r", "-r-r") + num()
		}
		if h.rnd.Intn(6) == 0 && len(s) > 0 { // mutate one byte
			b := []byte(s)
			b[h.rnd.Intn(len(b))] = h.pick(".", "_", "-", "a", "1", "\n", " ", "\xff")[0]
			s = string(b)
		}
		check(s)
	}
}
