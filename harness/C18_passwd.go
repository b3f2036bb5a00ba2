package passwd

// pkg: pkg/passwd
// Oracle: a line-by-line reading of the file text, and the text one would write by hand.

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"strings"
	"testing"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func v18lines(text string) []string {
	var out []string
	for text != "" {
		i := strings.Index(text, "\n")
		l := text
		if i >= 0 {
			l, text = text[:i], text[i+1:]
		} else {
			text = ""
		}
		out = append(out, strings.TrimSpace(l))
	}
	return out
}

func v18id(s string) (uint32, bool) {
	if s == "" {
		return 0, false
	}
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return 0, false
		}
	}
	n, _ := new(big.Int).SetString(s, 10)
	if n.BitLen() > 32 {
		return 0, false
	}
	return uint32(n.Uint64()), true
}

func v18fields(l string) []string {
	var f []string
	cur := ""
	for i := 0; i < len(l); i++ {
		if l[i] == ':' {
			f = append(f, cur)
			cur = ""
		} else {
			cur += l[i : i+1]
		}
	}
	return append(f, cur)
}

// v18lenient: identifiers this harness does not judge (accepting or refusing them is the reader's choice).
func v18lenient(s string) bool {
	return strings.HasPrefix(s, "+") || strings.HasPrefix(s, "-") && strings.Trim(s, "-0") == ""
}

type v18short struct {
	n   int
	buf bytes.Buffer
}

func (w *v18short) Write(p []byte) (int, error) {
	if w.buf.Len()+len(p) > w.n {
		k := w.n - w.buf.Len()
		w.buf.Write(p[:k])
		return k, errors.New("disk full")
	}
	return w.buf.Write(p)
}

type v18badReader struct{ r *strings.Reader }

func (b v18badReader) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err != nil {
		return n, errors.New("device error")
	}
	return n, nil
}

func TestVerifC18(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	ids := []string{"0", "1", "65534", "4294967295", "4294967296", "99999999999999999999999", "18446744073709551617", "", "x", "1x", " 1", "0007", "1.0", "0x10", "1_0", "2147483648"}
	txt := []string{"root", "nobody", "a b", "", "x", "/bin/sh", "/", "ünïx", "#c", "a,b", "\tq", "-", "%d", "!", "*"}
	seps := []string{"\n", "\n", "\n", "\r\n", "\n\n"}
	check := func(user bool, text string, errs bool) {
		in := fmt.Sprintf("user=%v text=%q", user, text)
		h.eval("%s", in)
		h.guard("panic", in, func() {
			fs := apkfs.NewMemFS()
			if err := fs.WriteFile("f", []byte(text), 0o644); err != nil {
				h.t.Fatal(err)
			}
			var got []string
			var err error
			var wantGot []string
			ok, judge := true, true
			long := false
			for _, l := range v18lines(text) {
				if len(l) > 60000 {
					long = true
				}
				f := v18fields(l)
				if user {
					if len(f) != 7 {
						ok = false
						break
					}
					u, ok1 := v18id(f[2])
					g, ok2 := v18id(f[3])
					if v18lenient(f[2]) || v18lenient(f[3]) {
						judge = false
					}
					ok = ok && ok1 && ok2
					wantGot = append(wantGot, fmt.Sprintf("%q", []any{f[0], f[1], fmt.Sprint(u), fmt.Sprint(g), f[4], f[5], f[6]}))
				} else {
					if len(f) != 4 {
						ok = false
						break
					}
					g, ok2 := v18id(f[2])
					if v18lenient(f[2]) {
						judge = false
					}
					ok = ok && ok2
					var m []string
					if f[3] != "" {
						m = strings.Split(f[3], ",")
					}
					wantGot = append(wantGot, fmt.Sprintf("%q", []any{f[0], f[1], fmt.Sprint(g), len(m), m}))
				}
				if !ok {
					break
				}
			}
			var again bytes.Buffer
			if user {
				var uf UserFile
				if h.rnd.Intn(2) == 0 {
					uf, err = ReadOrCreateUserFile(fs, "f")
				} else {
					uf, err = ReadUserFile(fs, "f")
				}
				if errs {
					uf = UserFile{}
					err = uf.Load(v18badReader{strings.NewReader(text)})
				}
				for _, e := range uf.Entries {
					got = append(got, fmt.Sprintf("%q", []any{e.UserName, e.Password, fmt.Sprint(e.UID), fmt.Sprint(e.GID), e.Info, e.HomeDir, e.Shell}))
				}
				if err == nil {
					if werr := uf.Write(&again); werr != nil {
						h.fail("write", in, "writing failed: %v", werr)
					}
				}
			} else {
				var gf GroupFile
				if h.rnd.Intn(2) == 0 {
					gf, err = ReadOrCreateGroupFile(fs, "f")
				} else {
					gf, err = ReadGroupFile(fs, "f")
				}
				if errs {
					gf = GroupFile{}
					err = gf.Load(v18badReader{strings.NewReader(text)})
				}
				for _, e := range gf.Entries {
					got = append(got, fmt.Sprintf("%q", []any{e.GroupName, e.Password, fmt.Sprint(e.GID), len(e.Members), e.Members}))
				}
				if err == nil {
					if werr := gf.Write(&again); werr != nil {
						h.fail("write", in, "writing failed: %v", werr)
					}
				}
			}
			if !judge {
				return
			}
			if errs {
				if err == nil {
					h.fail("readerror", in, "a read error was not reported")
				}
				return
			}
			if long {
				return
			}
			if ok != (err == nil) {
				h.fail("accept", in, "error %v, want accepted=%v", err, ok)
				return
			}
			if err != nil {
				return
			}
			if fmt.Sprint(got) != fmt.Sprint(wantGot) {
				h.fail("fields", in, "entries %s, want %s", got, wantGot)
			}
		})
	}
	roundUser := func(es []UserEntry) {
		in := fmt.Sprintf("user entries %+q", es)
		h.eval("%s", in)
		h.guard("panic", in, func() {
			want := ""
			for _, e := range es {
				want += e.UserName + ":" + e.Password + ":" + fmt.Sprint(e.UID) + ":" + fmt.Sprint(e.GID) + ":" + e.Info + ":" + e.HomeDir + ":" + e.Shell + "\n"
			}
			fs := apkfs.NewMemFS()
			_ = fs.WriteFile("f", nil, 0o644)
			uf, err := ReadOrCreateUserFile(fs, "f")
			if err != nil || len(uf.Entries) != 0 {
				h.fail("empty", in, "an empty file gives %v %v", uf.Entries, err)
				return
			}
			uf.Entries = es
			if err := uf.WriteFile("f"); err != nil {
				h.fail("write", in, "write failed: %v", err)
				return
			}
			if b, _ := fs.ReadFile("f"); string(b) != want {
				h.fail("text", in, "written text %q, want %q", b, want)
			}
			back, err := ReadOrCreateUserFile(fs, "f")
			if err != nil || fmt.Sprintf("%q", back.Entries) != fmt.Sprintf("%q", es) {
				h.fail("roundtrip", in, "read back %q, %v", back.Entries, err)
			}
			w := &v18short{n: h.rnd.Intn(len(want) + 1)}
			if err := uf.Write(w); (err == nil) != (w.n == len(want)) {
				h.fail("writeerror", in, "writer failing after %d bytes: error %v", w.n, err)
			}
		})
	}
	roundGroup := func(es []GroupEntry) {
		in := fmt.Sprintf("group entries %+q", es)
		h.eval("%s", in)
		h.guard("panic", in, func() {
			want := ""
			for _, e := range es {
				want += e.GroupName + ":" + e.Password + ":" + fmt.Sprint(e.GID) + ":" + strings.Join(e.Members, ",") + "\n"
			}
			fs := apkfs.NewMemFS()
			gf := GroupFile{Entries: es}
			if err := gf.WriteFile(fs, "g"); err != nil {
				h.fail("write", in, "write failed: %v", err)
				return
			}
			if b, _ := fs.ReadFile("g"); string(b) != want {
				h.fail("text", in, "written text %q, want %q", b, want)
			}
			back, err := ReadOrCreateGroupFile(fs, "g")
			if err != nil || fmt.Sprintf("%q", back.Entries) != fmt.Sprintf("%q", es) {
				h.fail("roundtrip", in, "read back %q, %v", back.Entries, err)
			}
			w := &v18short{n: h.rnd.Intn(len(want) + 1)}
			if err := gf.Write(w); (err == nil) != (w.n == len(want)) {
				h.fail("writeerror", in, "writer failing after %d bytes: error %v", w.n, err)
			}
		})
	}
	for _, hint := range h.hints {
		check(true, hint, false)
		check(false, hint, false)
	}
	w := func() string { return h.pick("root", "bin", "a b", "x", "", "ü", "#x", "%s", "/bin/ash", "z") }
	vis := func() string { return h.pick("root", "bin", "x", "", "#x", "%s", "/bin/ash", "z") }
	id := func() uint32 {
		return []uint32{0, 1, 1000, 65534, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, h.rnd.Uint32()}[h.rnd.Intn(9)]
	}
	for i := 0; i < h.n(12000) && h.more(); i++ {
		user := h.rnd.Intn(2) == 0
		switch h.rnd.Intn(3) {
		case 0:
			var us []UserEntry
			var gs []GroupEntry
			for k := h.rnd.Intn(4); k > 0; k-- {
				us = append(us, UserEntry{vis(), w(), id(), id(), w(), w(), vis()})
				var m []string
				for j := h.rnd.Intn(4); j > 0; j-- {
					m = append(m, h.pick("root", "bin", "x y", "z", "#q"))
				}
				gs = append(gs, GroupEntry{vis(), w(), id(), m})
			}
			if user {
				roundUser(us)
			} else {
				for j := range gs {
					if m := gs[j].Members; len(m) > 0 && strings.TrimSpace(m[len(m)-1]) != m[len(m)-1] {
						gs[j].Members = nil
					}
				}
				roundGroup(gs)
			}
		default:
			var b strings.Builder
			for k := h.rnd.Intn(5); k > 0; k-- {
				n := 4
				if user {
					n = 7
				}
				if h.rnd.Intn(8) == 0 {
					n += h.rnd.Intn(3) - 1
				}
				for j := 0; j < n; j++ {
					if j > 0 {
						b.WriteString(":")
					}
					switch {
					case j == 2 || (j == 3 && user):
						if h.rnd.Intn(4) == 0 {
							b.WriteString(h.pick(ids...))
						} else {
							fmt.Fprint(&b, id())
						}
					case j == 3:
						b.WriteString(h.pick("", "root", "a,b,c", "a,,b", ",", "a b,c"))
					default:
						b.WriteString(h.pick(txt...))
					}
				}
				if k > 1 || h.rnd.Intn(2) == 0 {
					b.WriteString(h.pick(seps...))
				}
			}
			check(user, b.String(), h.rnd.Intn(10) == 0)
		}
	}
	// long lists are read to the end
	for _, n := range []int{500, 3000} {
		var us []UserEntry
		for i := 0; i < n; i++ {
			us = append(us, UserEntry{fmt.Sprintf("u%d", i), "x", uint32(i), uint32(i), "info", "/home", "/bin/sh"})
		}
		roundUser(us)
	}
}
