package fs

// pkg: pkg/fs
// Oracle: a byte slice with an offset per handle.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"testing"
)

type v12handle struct {
	f    File
	file string
	off  int64
	wr   bool
	open bool
}

func v12write(s []byte, o int64, p []byte) []byte {
	n := append([]byte(nil), s...)
	for int64(len(n)) < o {
		n = append(n, 0)
	}
	for i, c := range p {
		if k := int(o) + i; k < len(n) {
			n[k] = c
		} else {
			n = append(n, c)
		}
	}
	return n
}

func TestVerifC12(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	names := []string{"/a", "/d/b", "/ln"} // /ln is a symlink to /a
	real := map[string]string{"/a": "/a", "/d/b": "/d/b", "/ln": "/a"}
	flags := []int{os.O_RDONLY, os.O_RDWR, os.O_RDWR | os.O_CREATE, os.O_RDWR | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_APPEND, os.O_RDWR | os.O_CREATE | os.O_APPEND, os.O_RDWR | os.O_APPEND | os.O_TRUNC, os.O_WRONLY | os.O_CREATE, os.O_WRONLY | os.O_TRUNC, os.O_WRONLY | os.O_APPEND | os.O_CREATE}
	for run := 0; run < h.n(4000) && h.more(); run++ {
		m := NewMemFS()
		_ = m.MkdirAll("/d", 0o755)
		_ = m.WriteFile("/a", nil, 0o644)
		_ = m.Symlink("/a", "/ln")
		model := map[string][]byte{"/a": {}}
		var hs []*v12handle
		log := ""
		bad := false
		fail := func(key, format string, a ...any) {
			bad = true
			h.fail(key, log, format, a...)
		}
		check := func() {
			for n, want := range model {
				got, err := m.ReadFile(n)
				if err != nil || !bytes.Equal(got, want) {
					fail("content", "%s holds %q (%v), want %q", n, got, err, want)
				}
				for i := range got { // and hands out copies
					got[i] = '!'
				}
				fi, err := m.Stat(n)
				if err != nil || fi.Size() != int64(len(want)) {
					fail("size", "size of %s is wrong (%v), want %d", n, err, len(want))
				}
			}
		}
		steps := 2 + h.rnd.Intn(14)
		h.guard("panic", log, func() {
			defer func() {
				if r := recover(); r != nil {
					h.fail("panic", log, "panic: %v", r)
				}
			}()
			for s := 0; s < steps && !bad; s++ {
				op := h.rnd.Intn(10)
				if len(hs) == 0 && op > 1 {
					op = 0
				}
				switch op {
				case 0:
					n := names[h.rnd.Intn(len(names))]
					fl := flags[h.rnd.Intn(len(flags))]
					log += fmt.Sprintf("open %s %#x;", n, fl)
					f, err := m.OpenFile(n, fl, 0o644)
					cur, exists := model[real[n]]
					if !exists && fl&os.O_CREATE == 0 {
						if err == nil {
							fail("open", "opened a file that is not there")
						}
						break
					}
					if err != nil {
						fail("open", "%v", err)
						break
					}
					if fl&os.O_TRUNC != 0 || !exists {
						cur = []byte{}
					}
					model[real[n]] = cur
					v := &v12handle{f: f, file: real[n], wr: fl&(os.O_RDWR|os.O_WRONLY) != 0, open: true}
					if fl&os.O_APPEND != 0 {
						v.off = int64(len(cur))
					}
					hs = append(hs, v)
				case 1:
					n := names[h.rnd.Intn(len(names))]
					p := bytes.Repeat([]byte{byte('A' + h.rnd.Intn(20))}, h.rnd.Intn(12))
					log += fmt.Sprintf("writefile %s %q;", n, p)
					if err := m.WriteFile(n, p, 0o600); err != nil {
						fail("writefile", "%v", err)
					}
					model[real[n]] = append([]byte{}, p...)
					for i := range p {
						p[i] = '!'
					}
				case 2, 3:
					v := hs[h.rnd.Intn(len(hs))]
					if !v.wr {
						break
					}
					p := []byte(fmt.Sprintf("%d", h.rnd.Int63()))[:h.rnd.Intn(9)]
					log += fmt.Sprintf("write@%d(%s) %q;", v.off, v.file, p)
					n, err := v.f.Write(p)
					if !v.open {
						if err == nil {
							fail("closed", "write on a closed file")
						}
						break
					}
					if err != nil || n != len(p) {
						fail("write", "wrote %d bytes: %v", n, err)
						break
					}
					if len(p) > 0 || v.off <= int64(len(model[v.file])) {
						model[v.file] = v12write(model[v.file], v.off, p)
					} else {
						// nothing written beyond the end: the size may or may not move
						got, _ := m.ReadFile(v.file)
						if w := v12write(model[v.file], v.off, nil); bytes.Equal(got, w) {
							model[v.file] = w
						}
					}
					v.off += int64(len(p))
					for i := range p { // the file keeps a copy
						p[i] = '!'
					}
				case 4, 5:
					v := hs[h.rnd.Intn(len(hs))]
					b := bytes.Repeat([]byte{'#'}, h.rnd.Intn(8))
					log += fmt.Sprintf("read@%d(%s) %d;", v.off, v.file, len(b))
					n, err := v.f.Read(b)
					if !v.open {
						if err == nil {
							fail("closed", "read on a closed file")
						}
						break
					}
					cur := model[v.file]
					if v.off >= int64(len(cur)) {
						if n != 0 || (len(b) > 0 && !errors.Is(err, io.EOF)) {
							fail("read-end", "read at the end gave %d, %v", n, err)
						}
						break
					}
					want := min(int64(len(b)), int64(len(cur))-v.off)
					if err != nil || n <= 0 && want > 0 || int64(n) > want || !bytes.Equal(b[:n], cur[v.off:v.off+int64(n)]) || bytes.Trim(b[n:], "#") != nil && len(bytes.Trim(b[n:], "#")) > 0 {
						fail("read", "got %q (%d, %v), file %q", b, n, err, cur)
						break
					}
					v.off += int64(n)
				case 6, 7:
					v := hs[h.rnd.Intn(len(hs))]
					wh := h.rnd.Intn(4)
					o := int64(h.rnd.Intn(30) - 12)
					if h.rnd.Intn(10) == 0 {
						o = -1 << 40
					}
					log += fmt.Sprintf("seek(%s) %d,%d;", v.file, o, wh)
					r, err := v.f.Seek(o, wh)
					if !v.open {
						if err == nil {
							fail("closed", "seek on a closed file")
						}
						break
					}
					to := o
					switch wh {
					case 1:
						to += v.off
					case 2:
						to += int64(len(model[v.file]))
					}
					if wh == 3 || to < 0 {
						if err == nil {
							fail("seek", "seek to %d succeeded", to)
						}
						break
					}
					if err != nil || r != to {
						fail("seek", "seek gave %d, %v, want %d", r, err, to)
					}
					v.off = to
				case 8:
					v := hs[h.rnd.Intn(len(hs))]
					ra, ok := v.f.(io.ReaderAt)
					if !ok {
						break
					}
					b := bytes.Repeat([]byte{'#'}, h.rnd.Intn(8))
					o := int64(h.rnd.Intn(20) - 3)
					log += fmt.Sprintf("readat(%s) %d,%d;", v.file, len(b), o)
					n, err := ra.ReadAt(b, o)
					if !v.open {
						if err == nil {
							fail("closed", "read on a closed file")
						}
						break
					}
					cur := model[v.file]
					if o < 0 {
						if err == nil || n != 0 {
							fail("readat", "reading at %d gave %d, %v", o, n, err)
						}
						break
					}
					want := max(0, min(int64(len(b)), int64(len(cur))-o))
					if int64(n) != want || n > 0 && !bytes.Equal(b[:n], cur[o:o+want]) || n < len(b) && !errors.Is(err, io.EOF) || err != nil && !errors.Is(err, io.EOF) || err != nil && o+want < int64(len(cur)) {
						fail("readat", "got %q (%d, %v), file %q", b, n, err, cur)
					}
				case 9:
					v := hs[h.rnd.Intn(len(hs))]
					log += fmt.Sprintf("close(%s);", v.file)
					err := v.f.Close()
					if v.open != (err == nil) {
						fail("close", "%v", err)
					}
					v.open = false
				}
				if !bad && h.rnd.Intn(3) == 0 {
					check()
				}
			}
			check()
		})
		h.eval("%s", log)
	}
}
