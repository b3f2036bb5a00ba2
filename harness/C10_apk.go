package apk

// pkg: pkg/apk
// Oracle: a table of path -> (content, owning package) updated by the replacement rules.

import (
	"archive/tar"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"testing"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

type v10file struct {
	path, data string
	sum        int // 0 none, 1 hex, 2 Q1 base64
}

func v10tar(files []v10file) []byte {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	for _, f := range files {
		h := &tar.Header{Name: f.path, Typeflag: tar.TypeReg, Mode: 0o644, Size: int64(len(f.data)), Format: tar.FormatPAX}
		s := sha1.Sum([]byte(f.data))
		switch f.sum {
		case 1:
			h.PAXRecords = map[string]string{paxRecordsChecksumKey: hex.EncodeToString(s[:])}
		case 2:
			h.PAXRecords = map[string]string{paxRecordsChecksumKey: "Q1" + base64.StdEncoding.EncodeToString(s[:])}
		}
		_ = tw.WriteHeader(h)
		_, _ = tw.Write([]byte(f.data))
	}
	_ = tw.Close()
	return b.Bytes()
}

type v10own struct {
	data string
	pkg  *Package // nil: not installed by a package
}

func v10has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func TestVerifC10(t *testing.T) {
	h := vhStart(t)
	names := []string{"aa", "bb", "cc"}
	origins := []string{"", "o1", "aa", "bb", "o2"}
	reps := [][]string{nil, {"aa"}, {"bb"}, {"cc", "aa"}, {"zz", "bb"}, {"aab"}, {"bb", "cc", "dd"}, {"o1"}, {"o2", "o1"}, {"aa=1"}, {""}}
	for i := 0; i < h.n(2500) && h.more(); i++ {
		tmp := t.TempDir()
		os.Setenv("TMPDIR", tmp)
		fsys := apkfs.NewMemFS()
		a, err := New(WithFS(fsys), WithIgnoreMknodErrors(true))
		if err != nil {
			t.Fatal(err)
		}
		world := map[string]v10own{}
		log := ""
		if h.rnd.Intn(5) == 0 { // a file nobody installed
			_ = fsys.WriteFile("f1", []byte("base"), 0o644)
			world["f1"] = v10own{"base", nil}
			log += "preexisting f1; "
		}
		for s := 0; s < 3; s++ {
			p := &Package{Name: names[h.rnd.Intn(3)], Origin: origins[h.rnd.Intn(5)], Replaces: reps[h.rnd.Intn(len(reps))]}
			if h.rnd.Intn(3) == 0 {
				p.Origin = "o1"
			}
			var fs []v10file
			for _, q := range []string{"f1", "f2"} {
				if h.rnd.Intn(4) > 0 {
					fs = append(fs, v10file{q, h.pick("x", "yy", "", "base"), h.rnd.Intn(3)})
				}
			}
			log += fmt.Sprintf("install %s origin=%q replaces=%q files=%+v; ", p.Name, p.Origin, p.Replaces, fs)
			// oracle
			wantErr := false
			want := map[string]v10own{}
			for k, v := range world {
				want[k] = v
			}
			for _, f := range fs {
				o, ok := want[f.path]
				if !ok {
					want[f.path] = v10own{f.data, p}
					continue
				}
				if p.Origin == "" {
					wantErr = true
					break
				}
				if o.data == f.data {
					continue
				}
				if o.pkg == nil {
					wantErr = true
					break
				}
				if v10has(o.pkg.Replaces, p.Name) {
					continue
				}
				if o.pkg.Origin == p.Origin || v10has(p.Replaces, o.pkg.Name) {
					want[f.path] = v10own{f.data, p}
					continue
				}
				wantErr = true
				break
			}
			world = want
			_, err := a.installAPKFiles(context.Background(), bytes.NewReader(v10tar(fs)), p)
			h.eval("%s", log)
			if (err != nil) != wantErr {
				h.fail("verdict", log, "installing %s: error %v, expected error: %v", p.Name, err, wantErr)
				break
			}
			bad := false
			for q, o := range want {
				got, rerr := fsys.ReadFile(q)
				if rerr != nil || string(got) != o.data {
					h.fail("content", log, "%s holds %q (%v), expected %q", q, got, rerr, o.data)
					bad = true
				}
				if own := a.installedFiles[q]; own != o.pkg {
					h.fail("owner", log, "%s is recorded as owned by %+v, expected %+v", q, own, o.pkg)
					bad = true
				}
			}
			if bad || err != nil {
				break
			}
		}
	}
	h.done()
}
