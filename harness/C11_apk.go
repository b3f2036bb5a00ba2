package apk

// pkg: pkg/apk
// Oracle: the list of packages and files that were added, kept beside the database; a direct reading of database text.

import (
	"archive/tar"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"path"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"testing"
	"time"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

var errV11 = errors.New("bad")

type v11rec struct {
	p     Package
	files []tar.Header
}

// v11read reads database text as its format is documented.
func v11read(s string) ([]v11rec, error) {
	var out []v11rec
	var r v11rec
	d, f := -1, -1
	flush := func() {
		if r.p.Name != "" {
			out = append(out, r)
		}
		r, d, f = v11rec{}, -1, -1
	}
	list := func(v string) []string {
		if v == "" {
			return nil
		}
		return strings.Split(v, " ")
	}
	perm := func(h *tar.Header, v string) error {
		p := strings.Split(v, ":")
		if len(p) != 3 {
			return errV11
		}
		u, e1 := strconv.Atoi(p[0])
		g, e2 := strconv.Atoi(p[1])
		m, e3 := strconv.ParseInt(p[2], 8, 64)
		if e1 != nil || e2 != nil || e3 != nil {
			return errV11
		}
		h.Uid, h.Gid, h.Mode = u, g, m
		return nil
	}
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSuffix(l, "\r")
		if l == "" {
			flush()
			continue
		}
		if len(l) < 2 || l[1] != ':' {
			return nil, errV11
		}
		v := l[2:]
		p := &r.p
		var err error
		switch l[0] {
		case 'P':
			p.Name = v
		case 'V':
			p.Version = v
		case 'A':
			p.Arch = v
		case 'L':
			p.License = v
		case 'T':
			p.Description = v
		case 'o':
			p.Origin = v
		case 'm':
			p.Maintainer = v
		case 'U':
			p.URL = v
		case 'c':
			p.RepoCommit = v
		case 'D':
			p.Dependencies = list(v)
		case 'p':
			p.Provides = list(v)
		case 'r':
			p.Replaces = list(v)
		case 'i':
			p.InstallIf = list(v)
		case 'S':
			p.Size, err = strconv.ParseUint(v, 10, 64)
		case 'I':
			p.InstalledSize, err = strconv.ParseUint(v, 10, 64)
		case 'k':
			p.ProviderPriority, err = strconv.ParseUint(v, 10, 64)
		case 't':
			p.BuildDate, err = strconv.ParseInt(v, 10, 64)
			p.BuildTime = time.Unix(p.BuildDate, 0).UTC()
		case 'C':
			if strings.HasPrefix(v, "Q1") {
				p.Checksum, err = base64.StdEncoding.DecodeString(v[2:])
			}
		case 'F':
			r.files = append(r.files, tar.Header{Name: v, Mode: 0o755, Typeflag: tar.TypeDir})
			d, f = len(r.files)-1, -1
		case 'M':
			if d < 0 {
				return nil, errV11
			}
			err = perm(&r.files[d], v)
		case 'R':
			n := v
			if d >= 0 && r.files[d].Name != "" {
				n = path.Join(r.files[d].Name, v)
				if !strings.HasPrefix(n, path.Clean(r.files[d].Name)) {
					return nil, errV11
				}
			}
			r.files = append(r.files, tar.Header{Name: n, Mode: 0o644})
			f = len(r.files) - 1
		case 'a':
			if f < 0 {
				return nil, errV11
			}
			err = perm(&r.files[f], v)
		}
		if err != nil {
			return nil, err
		}
	}
	flush()
	return out, nil
}

func v11same(a, b Package) string {
	av, bv := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < av.NumField(); i++ {
		x, y := av.Field(i).Interface(), bv.Field(i).Interface()
		if av.Field(i).Kind() == reflect.Slice && av.Field(i).Len() == 0 && bv.Field(i).Len() == 0 {
			continue
		}
		if t, ok := x.(time.Time); ok && t.Equal(y.(time.Time)) {
			continue
		}
		if !reflect.DeepEqual(x, y) {
			return fmt.Sprintf("%s is %v, want %v", av.Type().Field(i).Name, x, y)
		}
	}
	return ""
}

func v11file(f tar.Header) string {
	k := "file"
	if f.Typeflag == tar.TypeDir {
		k = "dir"
	}
	return fmt.Sprintf("%s %q %d:%d:%o", k, f.Name, f.Uid, f.Gid, f.Mode)
}

func v11files(fs []tar.Header) string {
	var s []string
	for _, f := range fs {
		s = append(s, v11file(f))
	}
	return strings.Join(s, ", ")
}

func v11text(h *vh, max int) string {
	n := h.rnd.Intn(max + 1)
	b := make([]rune, n)
	all := []rune("abP:Q1 ={}<>&\"'-.~+é%/\t|,x0")
	for i := range b {
		b[i] = all[h.rnd.Intn(len(all))]
	}
	return string(b)
}

func v11list(h *vh) []string {
	var l []string
	for k := h.rnd.Intn(4); k > 0; k-- {
		l = append(l, h.pick("so:libc.musl", "a", "b=1", "!x", "c>2~3", "cmd:[", "[y", "z]", "p:q", "<&>"))
	}
	return l
}

func v11pkg(h *vh) *Package {
	num := func() uint64 {
		switch h.rnd.Intn(4) {
		case 0:
			return 0
		case 1:
			return ^uint64(0) - uint64(h.rnd.Intn(3))
		}
		return uint64(h.rnd.Intn(100000))
	}
	p := &Package{Name: "n" + v11text(h, 6), Version: v11text(h, 6), Arch: v11text(h, 5), Description: v11text(h, 20), License: v11text(h, 5),
		Origin: v11text(h, 5), Maintainer: v11text(h, 9), URL: v11text(h, 9), RepoCommit: v11text(h, 9),
		Dependencies: v11list(h), Provides: v11list(h), InstallIf: v11list(h), Replaces: v11list(h), Size: num(), InstalledSize: num(), ProviderPriority: num()}
	p.Checksum = make([]byte, h.rnd.Intn(3)*10)
	h.rnd.Read(p.Checksum)
	p.BuildDate = []int64{0, 1, -5, 1700000000, 1 << 40}[h.rnd.Intn(5)]
	p.BuildTime = time.Unix(p.BuildDate, 0).UTC()
	return p
}

// v11tree makes a list of files, each below directories that are in the list too, in any order.
func v11tree(h *vh) []tar.Header {
	var out []tar.Header
	ids := func(f *tar.Header, mode int64) {
		f.Mode = mode
		if h.rnd.Intn(3) == 0 {
			f.Mode = []int64{0o755, 0o644, 0o4755, 0o1777, 0o600, 0, 0o777, 0o40755}[h.rnd.Intn(8)]
		}
		if h.rnd.Intn(4) == 0 {
			f.Uid = []int{0, 1, 1000, 65534}[h.rnd.Intn(4)]
		}
		if h.rnd.Intn(4) == 0 {
			f.Gid = []int{0, 1, 1000, 65534}[h.rnd.Intn(4)]
		}
	}
	slash := h.rnd.Intn(2) == 0
	names := []string{"usr", "bin", "a", "a-b", "a.d", "b", "lib", "Z", "a b", "..x", "é"}
	var dirs []string
	seen := map[string]bool{}
	for k := 1 + h.rnd.Intn(5); k > 0; k-- {
		n := names[h.rnd.Intn(len(names))]
		if len(dirs) > 0 && h.rnd.Intn(4) > 0 {
			n = dirs[h.rnd.Intn(len(dirs))] + "/" + n
		}
		if seen[n] {
			continue
		}
		seen[n] = true
		dirs = append(dirs, n)
		d := tar.Header{Name: n, Typeflag: tar.TypeDir}
		if slash {
			d.Name += "/"
		}
		ids(&d, 0o755)
		out = append(out, d)
	}
	add := func(d string) {
		n := d + "/" + names[h.rnd.Intn(len(names))]
		if seen[n] {
			return
		}
		seen[n] = true
		f := tar.Header{Name: n, Typeflag: []byte{tar.TypeReg, tar.TypeReg, tar.TypeSymlink, tar.TypeLink}[h.rnd.Intn(4)]}
		ids(&f, 0o644)
		sum := make([]byte, 20)
		h.rnd.Read(sum)
		switch h.rnd.Intn(4) {
		case 0:
			f.PAXRecords = map[string]string{paxRecordsChecksumKey: hex.EncodeToString(sum)}
		case 1:
			f.PAXRecords = map[string]string{paxRecordsChecksumKey: "Q1" + base64.StdEncoding.EncodeToString(sum)}
		case 2:
			f.PAXRecords = map[string]string{"other": "x"}
		}
		out = append(out, f)
	}
	for k := h.rnd.Intn(7); k > 0; k-- {
		add(dirs[h.rnd.Intn(len(dirs))])
	}
	// a directory at the top with nothing below it is not recorded; put a file there
	for _, d := range dirs {
		if !strings.Contains(d, "/") {
			has := false
			for _, f := range out {
				has = has || strings.HasPrefix(f.Name, d+"/") && f.Name != d+"/"
			}
			if !has {
				seen[d+"/f"] = true
				out = append(out, tar.Header{Name: d + "/f", Mode: 0o644, Typeflag: tar.TypeReg})
			}
		}
	}
	h.rnd.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	return out
}

// v11sum is the checksum line a file is recorded with.
func v11sum(f tar.Header) string {
	c := f.PAXRecords[paxRecordsChecksumKey]
	if c == "" || f.Typeflag == tar.TypeDir {
		return ""
	}
	if !strings.HasPrefix(c, "Q1") {
		b, _ := hex.DecodeString(c)
		c = "Q1" + base64.StdEncoding.EncodeToString(b)
	}
	return "Z:" + c
}

func TestVerifC11(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	for run := 0; run < h.n(800) && h.more(); run++ {
		fsys := apkfs.NewMemFS()
		if err := fsys.MkdirAll(filepath.Dir(installedFilePath), 0o755); err != nil {
			t.Fatal(err)
		}
		a := &APK{fs: fsys}
		if err := fsys.WriteFile(installedFilePath, nil, 0o644); err != nil {
			t.Fatal(err)
		}
		var want []v11rec
		in := ""
		h.guard("panic", "additions", func() {
			for k := 1 + h.rnd.Intn(4); k > 0; k-- {
				p := v11pkg(h)
				files := v11tree(h)
				in += fmt.Sprintf("add %+v [%s]; ", *p, v11files(files))
				h.eval("%s", in)
				before, _ := fsys.ReadFile(installedFilePath)
				if err := a.AddInstalledPackage(p, append([]tar.Header{}, files...)); err != nil {
					h.fail("add", in, "adding failed: %v", err)
					return
				}
				after, _ := fsys.ReadFile(installedFilePath)
				if !bytes.HasPrefix(after, before) {
					h.fail("kept", in, "the database no longer starts with the records it had")
					return
				}
				want = append(want, v11rec{*p, files})
				v11sums(h, in, string(after[len(before):]), files)
				got, err := a.GetInstalled()
				if err != nil || len(got) != len(want) {
					h.fail("roundtrip", in, "%d packages read back, want %d (%v)", len(got), len(want), err)
					return
				}
				for i, w := range want {
					if d := v11same(got[i].Package, w.p); d != "" {
						h.fail("roundtrip", in, "package %d read back: %s", i, d)
						return
					}
					v11check(h, in, got[i].Files, w.files)
				}
				if ok, err := a.isInstalledPackage(p.Name); err != nil || !ok {
					h.fail("listed", in, "%q is not reported as installed (%v)", p.Name, err)
				}
			}
		})
	}
	// texts
	for run := 0; run < h.n(3000) && h.more(); run++ {
		var b strings.Builder
		for k := h.rnd.Intn(14); k > 0; k-- {
			switch h.rnd.Intn(12) {
			case 0, 1:
				b.WriteString("P:" + h.pick("a", "b", "") + "\n")
			case 2, 3:
				b.WriteString("F:" + h.pick("usr", "usr/bin", "", "/", "a/../b", "..") + "\n")
			case 4, 5:
				b.WriteString("R:" + h.pick("f", "g", "../x", "x/y", "") + "\n")
			case 6:
				b.WriteString("M:" + h.pick("1:2:0700", "0:0:0755", "1:2", "a:b:c", "1:2:0999", "-1:0:01777") + "\n")
			case 7:
				b.WriteString("a:" + h.pick("1:2:0700", "0:0:0755", "1:2", "a:b:c", "1:2:8", "1:2:3:4") + "\n")
			case 8:
				b.WriteString(h.pick("\n", "\n", "\r\n", "x\n", "xy\n", ":\n", "Z:Q1abc=\n", "q:1\n", "\n\n"))
			case 9:
				b.WriteString(h.pick("S:1\n", "S:-1\n", "I:2\n", "k:3\n", "t:-4\n", "t:x\n", "C:Q1AAA=\n", "C:Q1!\n", "C:AA\n"))
			case 10:
				b.WriteString(h.pick("D:\n", "D:a b\n", "r:\n", "r:x\n", "p:a=1\n", "i:\n", "V:1\r\n", "D:a  b\n"))
			case 11:
				b.WriteString("V:" + v11text(h, 4) + "\n")
			}
		}
		s := b.String()
		if h.rnd.Intn(3) == 0 {
			s = strings.TrimRight(s, "\n")
		}
		v11parse(h, s)
	}
	v11parse(h, "P:a\nT:"+strings.Repeat("d", 100000)+"\nP:b\n")
}

func v11parse(h *vh, s string) {
	in := fmt.Sprintf("text %.2000q", s)
	h.guard("panic", in, func() {
		h.eval("%s", in)
		want, werr := v11read(s)
		got, err := ParseInstalled(strings.NewReader(s))
		if (err != nil) != (werr != nil) {
			h.fail("text", in, "error %v, want %v", err, werr)
			return
		}
		if err != nil {
			return
		}
		if len(got) != len(want) {
			h.fail("text", in, "%d records, want %d", len(got), len(want))
			return
		}
		for i, w := range want {
			if d := v11same(got[i].Package, w.p); d != "" {
				h.fail("text", in, "record %d: %s", i, d)
			}
			if g, e := v11files(got[i].Files), v11files(w.files); g != e {
				h.fail("text", in, "record %d has the files %s, want %s", i, g, e)
			}
		}
	})
}

// v11check compares the files read back with those that were added, and their order with their directories.
func v11check(h *vh, in string, got, added []tar.Header) {
	var g, w []string
	dir := ""
	for _, f := range got {
		g = append(g, v11file(f))
		if f.Typeflag == tar.TypeDir {
			dir = f.Name
		} else if path.Dir(f.Name) != dir {
			h.fail("grouped", in, "%s follows directory %q", v11file(f), dir)
		}
	}
	for _, f := range added {
		f.Name = strings.TrimSuffix(f.Name, "/")
		f.Mode &= 0o777
		w = append(w, v11file(f))
	}
	sort.Strings(g)
	sort.Strings(w)
	if strings.Join(g, ", ") != strings.Join(w, ", ") {
		h.fail("files", in, "files read back: %s, want %s", strings.Join(g, ", "), strings.Join(w, ", "))
	}
}

// v11sums looks for the checksum of each file directly after its lines.
func v11sums(h *vh, in, text string, added []tar.Header) {
	got := map[string]string{}
	dir, file := "", ""
	for _, l := range strings.Split(text, "\n") {
		switch {
		case strings.HasPrefix(l, "F:"):
			dir, file = l[2:], ""
		case strings.HasPrefix(l, "R:"):
			file = dir + "/" + l[2:]
			got[file] = ""
		case strings.HasPrefix(l, "Z:") && file != "":
			got[file] += l
		}
	}
	for _, f := range added {
		if f.Typeflag != tar.TypeDir && got[f.Name] != v11sum(f) {
			h.fail("checksum", in, "%s is recorded with checksum line %q, want %q", f.Name, got[f.Name], v11sum(f))
		}
	}
}
