package apk

// pkg: pkg/apk
// Oracle: the sections the stream was put together from, and SHA-1/SHA-256 of them computed directly.

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"os"
	"testing"

	"github.com/chainguard-dev/go-apk/pkg/expandapk"
	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

type v09file struct {
	name, data, sum string // sum: recorded checksum text, "" for none
	typ             byte
}

func v09tar(files []v09file, eof bool) []byte {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	for _, f := range files {
		h := &tar.Header{Name: f.name, Typeflag: f.typ, Mode: 0o644, Format: tar.FormatPAX}
		if f.typ == tar.TypeReg {
			h.Size = int64(len(f.data))
		}
		if f.typ == tar.TypeSymlink {
			h.Linkname = f.data
		}
		if f.sum != "" {
			h.PAXRecords = map[string]string{paxRecordsChecksumKey: f.sum}
		}
		_ = tw.WriteHeader(h)
		if f.typ == tar.TypeReg {
			_, _ = tw.Write([]byte(f.data))
		}
	}
	if eof {
		_ = tw.Close()
	} else {
		_ = tw.Flush()
	}
	return b.Bytes()
}

func v09gz(b []byte, level int) []byte {
	var o bytes.Buffer
	w, _ := gzip.NewWriterLevel(&o, level)
	_, _ = w.Write(b)
	_ = w.Close()
	return o.Bytes()
}

// a reader that delivers at most n bytes at a time
type v09slow struct {
	r io.Reader
	n int
}

func (s v09slow) Read(p []byte) (int, error) {
	if len(p) > s.n {
		p = p[:s.n]
	}
	return s.r.Read(p)
}

func v09blob(h *vh) string {
	n := []int{0, 1, 5, 511, 512, 513, 3000, 40000}[h.rnd.Intn(8)]
	b := make([]byte, n)
	h.rnd.Read(b)
	return string(b)
}

func TestVerifC09(t *testing.T) {
	h := vhStart(t)
	dir := t.TempDir()
	os.Setenv("TMPDIR", dir)
	q1 := func(s string) string { x := sha1.Sum([]byte(s)); return "Q1" + base64.StdEncoding.EncodeToString(x[:]) }
	hx := func(s string) string { x := sha1.Sum([]byte(s)); return hex.EncodeToString(x[:]) }
	for i := 0; i < h.n(400) && h.more(); i++ {
		var files []v09file
		var wantRec []string
		badSum, undec := false, false
		desc := ""
		for k, n := 0, h.rnd.Intn(4); k < n; k++ {
			f := v09file{name: fmt.Sprintf("f%d", k), data: v09blob(h), typ: tar.TypeReg}
			kind := h.rnd.Intn(12)
			switch {
			case kind < 4:
				f.sum = q1(f.data)
			case kind < 8:
				f.sum = hx(f.data)
			case kind < 10:
			case kind == 10:
				f.sum = h.pick("Q1!!!!", "Q1abc", "zz", "abc", "Q1", "0")
				if f.sum == "Q1" {
					badSum = true
				} else {
					undec = true
				}
			default:
				f.sum = h.pick(q1(f.data+"x"), hx(f.data+"y"))
				badSum = true
			}
			files = append(files, f)
			wantRec = append(wantRec, q1(f.data))
			desc += fmt.Sprintf("%s len=%d sum=%q; ", f.name, len(f.data), f.sum)
		}
		lv := h.rnd.Intn(10)
		sign := v09gz(v09tar([]v09file{{".SIGN.RSA.k", v09blob(h), "", tar.TypeReg}}, false), lv)
		ctl := v09gz(v09tar([]v09file{{".PKGINFO", "pkgname = x\n" + v09blob(h), "", tar.TypeReg}}, false), lv)
		tarData := v09tar(files, true)
		switch h.rnd.Intn(6) {
		case 0: // padding after the end marker, up to more than any buffer
			pad := make([]byte, []int{1, 512, 10240, 70000, 1500000}[h.rnd.Intn(5)])
			if h.rnd.Intn(2) == 0 {
				h.rnd.Read(pad)
			}
			tarData = append(tarData, pad...)
		}
		data := v09gz(tarData, lv)
		if h.rnd.Intn(6) == 0 { // a data section of several compressed members
			n := h.rnd.Intn(len(tarData))
			data = append(v09gz(tarData[:n], lv), v09gz(tarData[n:], lv)...)
		}
		signed := h.rnd.Intn(2) == 0
		var stream []byte
		if signed {
			stream = append(stream, sign...)
		}
		stream = append(stream, ctl...)
		stream = append(stream, data...)
		step := []int{1, 7, 512, 1 << 20}[h.rnd.Intn(4)]
		desc = fmt.Sprintf("signed=%v data=%d+%d level=%d reads of %d bytes: %s", signed, len(tarData), len(data), lv, step, desc)
		h.eval("%s", desc)
		h.guard("expand", desc, func() {
			exp, err := expandapk.ExpandApk(context.Background(), v09slow{bytes.NewReader(stream), step}, dir)
			if badSum || undec {
				if err == nil {
					h.fail("badsum", desc, "accepted although a file does not have its declared checksum")
					exp.Close()
				}
				return
			}
			if err != nil {
				h.fail("expand", desc, "error %v", err)
				return
			}
			defer exp.Close()
			want := map[string][]byte{exp.ControlFile: ctl, exp.PackageFile: data}
			if signed {
				want[exp.SignatureFile] = sign
			}
			if exp.Signed != signed || (exp.SignatureFile != "") != signed {
				h.fail("sections", desc, "Signed=%v", exp.Signed)
			}
			for f, w := range want {
				if g, err := os.ReadFile(f); err != nil || !bytes.Equal(g, w) {
					h.fail("sections", desc, "section %s differs from the stream (%v)", f, err)
				}
			}
			s1, s2 := sha1.Sum(ctl), sha256.Sum256(data)
			if !bytes.Equal(exp.ControlHash, s1[:]) {
				h.fail("hash", desc, "control hash %x, expected %x", exp.ControlHash, s1)
			}
			if !bytes.Equal(exp.PackageHash, s2[:]) {
				h.fail("hash", desc, "data hash %x, expected %x", exp.PackageHash, s2)
			}
			if exp.Size != int64(len(stream)) {
				h.fail("size", desc, "size %d, expected %d", exp.Size, len(stream))
			}
			rc, err := exp.APK()
			if err != nil {
				h.fail("apk", desc, "%v", err)
				return
			}
			if g, _ := io.ReadAll(rc); !bytes.Equal(g, stream) {
				h.fail("apk", desc, "put together again, the sections differ from the stream")
			}
			rc.Close()
			pd, err := exp.PackageData()
			if err != nil {
				h.fail("data", desc, "%v", err)
				return
			}
			if g, _ := io.ReadAll(pd); !bytes.Equal(g, tarData) {
				h.fail("data", desc, "uncompressed data section differs")
			}
			pd.Close()
		})
		// recorded checksums
		fsys := apkfs.NewMemFS()
		a, err := New(WithFS(fsys), WithIgnoreMknodErrors(true))
		if err != nil {
			t.Fatal(err)
		}
		hdrs, err := a.installAPKFiles(context.Background(), bytes.NewReader(v09tar(files, true)), &Package{Name: "p", Origin: "o"})
		if undec {
			if err == nil {
				h.fail("undecodable", desc, "undecodable checksum did not fail the installation")
			}
			continue
		}
		if err != nil {
			h.fail("install", desc, "%v", err)
			continue
		}
		for k, hd := range hdrs {
			w := wantRec[k]
			if s := files[k].sum; s != "" {
				if s[:2] == "Q1" {
					w = s
				} else {
					b, _ := hex.DecodeString(s)
					w = "Q1" + base64.StdEncoding.EncodeToString(b)
				}
			}
			if hd.PAXRecords[paxRecordsChecksumKey] != w {
				h.fail("recorded", desc, "%s: recorded %q, expected %q", hd.Name, hd.PAXRecords[paxRecordsChecksumKey], w)
			}
			if g, _ := fsys.ReadFile(hd.Name); string(g) != files[k].data {
				h.fail("content", desc, "%s differs from the archive", hd.Name)
			}
		}
	}
	// truncated streams never expand
	files := []v09file{{"a", "hello", hx("hello"), tar.TypeReg}}
	ctl, data := v09gz(v09tar([]v09file{{".PKGINFO", "x", "", tar.TypeReg}}, false), 6), v09gz(v09tar(files, true), 6)
	stream := append(append([]byte{}, ctl...), data...)
	for n := 0; n < len(stream) && h.more(); n++ {
		h.eval("truncated to %d of %d", n, len(stream))
		h.guard("truncated", fmt.Sprint(n), func() {
			if exp, err := expandapk.ExpandApk(context.Background(), bytes.NewReader(stream[:n]), dir); err == nil {
				h.fail("truncated", fmt.Sprintf("first %d of %d bytes", n, len(stream)), "accepted")
				exp.Close()
			}
		})
	}
	h.done()
}
