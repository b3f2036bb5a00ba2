package apk

// pkg: pkg/apk
// Oracle: a direct reading of index text, line by line, and equality of packages.

import (
	"bytes"
	"encoding/base64"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"time"
)

var errV07 = errors.New("bad")

// v07read reads index text as its format is documented.
func v07read(s string) ([]Package, error) {
	var out []Package
	var p Package
	flush := func() {
		if p.Name != "" {
			out = append(out, p)
		}
		p = Package{}
	}
	list := func(v string) []string {
		if v == "" {
			return nil
		}
		return strings.Split(v, " ")
	}
	lines := strings.Split(s, "\n")
	for _, l := range lines {
		l = strings.TrimSuffix(l, "\r")
		if l == "" {
			flush()
			continue
		}
		if len(l) < 2 || l[1] != ':' {
			return nil, errV07
		}
		v := l[2:]
		var err error
		switch l[0] {
		case 'P':
			p.Name = v
		case 'V':
			p.Version = v
		case 'A':
			p.Arch = v
		case 'L':
			p.License = v
		case 'T':
			p.Description = v
		case 'o':
			p.Origin = v
		case 'm':
			p.Maintainer = v
		case 'U':
			p.URL = v
		case 'c':
			p.RepoCommit = v
		case 'D':
			p.Dependencies = list(v)
		case 'p':
			p.Provides = list(v)
		case 'i':
			p.InstallIf = list(v)
		case 'S':
			p.Size, err = strconv.ParseUint(v, 10, 64)
		case 'I':
			p.InstalledSize, err = strconv.ParseUint(v, 10, 64)
		case 'k':
			p.ProviderPriority, err = strconv.ParseUint(v, 10, 64)
		case 't':
			p.BuildDate, err = strconv.ParseInt(v, 10, 64)
			p.BuildTime = time.Unix(p.BuildDate, 0).UTC()
		case 'C':
			if strings.HasPrefix(v, "Q1") {
				p.Checksum, err = base64.StdEncoding.DecodeString(v[2:])
			}
		}
		if err != nil {
			return nil, err
		}
	}
	flush()
	return out, nil
}

func v07same(a, b Package) string {
	av, bv := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < av.NumField(); i++ {
		x, y := av.Field(i).Interface(), bv.Field(i).Interface()
		if av.Field(i).Kind() == reflect.Slice && av.Field(i).Len() == 0 && bv.Field(i).Len() == 0 {
			continue
		}
		if t, ok := x.(time.Time); ok && t.Equal(y.(time.Time)) {
			continue
		}
		if !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("%s is %v, want %v", av.Type().Field(i).Name, x, y)
		}
	}
	return ""
}

func v07text(h *vh, max int) string {
	n := h.rnd.Intn(max + 1)
	b := make([]rune, n)
	all := []rune("abP:Q1 ={}<>&\"'-.~+é%/\t|,x0")
	for i := range b {
		b[i] = all[h.rnd.Intn(len(all))]
	}
	return string(b)
}

func v07list(h *vh) []string {
	var l []string
	for k := h.rnd.Intn(4); k > 0; k-- {
		l = append(l, h.pick("so:libc.musl", "a", "b=1", "!x", "c>2~3", "cmd:[", "[y", "z]", "p:q", "<&>"))
	}
	return l
}

func v07pkg(h *vh) *Package {
	opt := func(s string) string {
		if h.rnd.Intn(2) == 0 {
			return ""
		}
		return s
	}
	num := func() uint64 {
		switch h.rnd.Intn(4) {
		case 0:
			return 0
		case 1:
			return ^uint64(0) - uint64(h.rnd.Intn(3))
		}
		return uint64(h.rnd.Intn(100000))
	}
	p := &Package{Name: "n" + v07text(h, 6), Version: v07text(h, 6), Arch: opt(v07text(h, 5)), Description: opt(v07text(h, 20)), License: opt(v07text(h, 5)),
		Origin: opt(v07text(h, 5)), Maintainer: opt(v07text(h, 9)), URL: opt(v07text(h, 9)), RepoCommit: opt(v07text(h, 9)),
		Dependencies: v07list(h), Provides: v07list(h), InstallIf: v07list(h), Size: num(), InstalledSize: num(), ProviderPriority: num()}
	if h.rnd.Intn(3) == 0 {
		p.Name, p.Version = h.pick("a", "b"), h.pick("1", "2")
	}
	p.Checksum = make([]byte, h.rnd.Intn(3)*10)
	h.rnd.Read(p.Checksum)
	if h.rnd.Intn(3) > 0 {
		p.BuildDate = []int64{0, 1, -5, 1700000000, 1 << 40}[h.rnd.Intn(5)]
		p.BuildTime = time.Unix(p.BuildDate, 0).UTC()
	}
	return p
}

func v07show(ps []*Package) string {
	var s []string
	for _, p := range ps {
		s = append(s, fmt.Sprintf("%+v", *p))
	}
	return strings.Join(s, " | ")
}

func TestVerifC07(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	for run := 0; run < h.n(1500) && h.more(); run++ {
		// a list of packages through an archive
		idx := &APKIndex{Description: v07text(h, 12)}
		for k := h.rnd.Intn(5); k > 0; k-- {
			idx.Packages = append(idx.Packages, v07pkg(h))
		}
		in := v07show(idx.Packages)
		h.guard("panic", in, func() {
			h.eval("%s", in)
			ar, err := ArchiveFromIndex(idx)
			if err != nil {
				h.fail("write", in, "writing failed: %v", err)
				return
			}
			back, err := IndexFromArchive(io.NopCloser(ar))
			if err != nil {
				h.fail("roundtrip", in, "reading back failed: %v", err)
				return
			}
			if back.Description != idx.Description || len(back.Packages) != len(idx.Packages) {
				h.fail("roundtrip", in, "read back %d packages, description %q; want %d, %q", len(back.Packages), back.Description, len(idx.Packages), idx.Description)
				return
			}
			for i, p := range idx.Packages {
				if d := v07same(*back.Packages[i], *p); d != "" {
					h.fail("roundtrip", in, "package %d read back: %s", i, d)
				}
			}
		})
	}
	for run := 0; run < h.n(6000) && h.more(); run++ {
		// any text
		var b strings.Builder
		for k := h.rnd.Intn(9); k > 0; k-- {
			switch h.rnd.Intn(9) {
			case 0:
				b.WriteString(h.pick("", "P", ":", "x", "PP", "\x00", "P;", "é", "k:", "X:1", "t:", " P:a", "C:Q1!", "C:Q1", "C:Q2zz", "C:Q1AAAA"))
			case 1:
				b.WriteString("P:" + v07text(h, 4))
			case 2:
				b.WriteString(h.pick("k", "S", "I", "t") + ":" + h.pick("0", "7", "-7", "+7", "18446744073709551616", "18446744073709551615", "9223372036854775808", "1e3", "0x1", "1_0", " 1"))
			case 3:
				b.WriteString(h.pick("D", "p", "i") + ":" + h.pick("", " ", "a", "a b", "a  b", " a", "[a b]"))
			case 4:
				b.WriteString(h.pick("V", "A", "L", "T", "o", "m", "U", "c", "q", "r", "F", "Z") + ":" + v07text(h, 4))
			default:
				b.WriteString(h.pick("P:x", "P:", "V:1", "", ""))
			}
			b.WriteString(h.pick("\n", "\n", "\n", "\n", "\r\n", "", "\n\n"))
		}
		s := b.String()
		h.guard("panic", fmt.Sprintf("%q", s), func() {
			h.eval("%q", s)
			want, werr := v07read(s)
			got, err := ParsePackageIndex(io.NopCloser(&v07chop{h: h, r: bytes.NewReader([]byte(s))}))
			if (err == nil) != (werr == nil) {
				h.fail("accept", fmt.Sprintf("%q", s), "error %v, want %v", err, werr)
				return
			}
			if err != nil {
				return
			}
			if len(got) != len(want) {
				h.fail("count", fmt.Sprintf("%q", s), "%d packages, want %d", len(got), len(want))
				return
			}
			for i := range got {
				if d := v07same(*got[i], want[i]); d != "" {
					h.fail("value", fmt.Sprintf("%q", s), "package %d: %s", i, d)
				}
			}
		})
	}
}

// v07chop delivers its text in pieces.
type v07chop struct {
	h *vh
	r io.Reader
}

func (c *v07chop) Read(p []byte) (int, error) {
	if n := 1 + c.h.rnd.Intn(40); n < len(p) {
		p = p[:n]
	}
	return c.r.Read(p)
}
