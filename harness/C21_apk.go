package apk

// pkg: pkg/apk
// Oracle: the entries themselves, the published release data, and the addresses one would write by hand.

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net/http"
	"net/url"
	"os"
	"path"
	"reflect"
	"sort"
	"strings"
	"testing"
	"time"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

func v21new(t *testing.T, src apkfs.FullFS) *APK {
	a, err := New(WithFS(src), WithArch("x86_64"))
	if err != nil {
		t.Fatal(err)
	}
	return a
}

func v21fs(t *testing.T) apkfs.FullFS {
	m := apkfs.NewMemFS()
	for _, d := range []string{"etc/apk/keys", "lib/apk/db"} {
		if err := m.MkdirAll(d, 0o755); err != nil {
			t.Fatal(err)
		}
	}
	return m
}

// v21breaks is a filesystem whose files fail after some bytes.
type v21breaks struct {
	apkfs.FullFS
	after int
}

type v21file struct {
	apkfs.File
	left int
}

func (f *v21file) Read(p []byte) (int, error) {
	if f.left <= 0 {
		return 0, errors.New("input/output error")
	}
	if len(p) > f.left {
		p = p[:f.left]
	}
	n, err := f.File.Read(p)
	f.left -= n
	return n, err
}

func (b *v21breaks) Open(name string) (fs.File, error) {
	f, err := b.FullFS.Open(name)
	if err != nil {
		return nil, err
	}
	ff, ok := f.(apkfs.File)
	if !ok {
		return f, nil
	}
	return &v21file{File: ff, left: b.after}, nil
}

func v21word(h *vh) string {
	n := 1 + h.rnd.Intn(8)
	if h.rnd.Intn(40) == 0 {
		n = 3000
	}
	const al = "abcxyz019-_.~=<>!@/:+%#AZ\"'é"
	r := []rune(al)
	s := ""
	for i := 0; i < n; i++ {
		s += string(r[h.rnd.Intn(len(r))])
	}
	return s
}

func v21same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestVerifC21Lists(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	ctx := context.Background()
	for i := 0; i < h.n(400) && h.more(); i++ {
		src := v21fs(t)
		a := v21new(t, src)
		steps := 1 + h.rnd.Intn(3)
		for k := 0; k < steps; k++ {
			var l []string
			n := h.rnd.Intn(7)
			if h.rnd.Intn(30) == 0 {
				n = 400
			}
			for j := 0; j < n; j++ {
				l = append(l, v21word(h))
				if h.rnd.Intn(5) == 0 {
					l = append(l, l[h.rnd.Intn(len(l))])
				}
			}
			given := append([]string(nil), l...)
			in := fmt.Sprintf("SetWorld(%.400q) then GetWorld", l)
			h.eval("%d world entries", len(l))
			h.guard("world panic", in, func() {
				if err := a.SetWorld(ctx, l); err != nil {
					h.fail("world write", in, "error %v", err)
					return
				}
				if !v21same(l, given) {
					h.fail("world input changed", in, "the caller's list became %.300q", l)
				}
				got, err := a.GetWorld()
				want := append([]string(nil), given...)
				sort.Strings(want)
				if err != nil || !v21same(got, want) {
					h.fail("world round trip", in, "read back %.300q, %v", got, err)
				}
			})
			var r []string
			for j := 0; j < 1+h.rnd.Intn(5); j++ {
				s := h.pick("https://", "http://", "/", "@edge https://", "#") + v21word(h) + h.pick("", "/main", " x")
				r = append(r, s)
			}
			if h.rnd.Intn(10) == 0 {
				r = append(r, "https://h/"+strings.Repeat("p", 40000))
			}
			given = append([]string(nil), r...)
			in = fmt.Sprintf("SetRepositories(%.400q) then GetRepositories", r)
			h.guard("repositories panic", in, func() {
				if err := a.SetRepositories(ctx, r); err != nil {
					h.fail("repositories write", in, "error %v", err)
					return
				}
				got, err := a.GetRepositories()
				if err != nil || !v21same(got, given) || !v21same(r, given) {
					h.fail("repositories round trip", in, "read back %.300q, %v", got, err)
				}
				// a read that breaks off gives no list
				b, _ := src.ReadFile(reposFilePath)
				after := h.rnd.Intn(len(b))
				broken := v21new(t, &v21breaks{src, after})
				if got, err := broken.GetRepositories(); err == nil {
					h.fail("repositories cut", in, "reading breaks after %d bytes: list %.300q without an error", after, got)
				}
				b, _ = src.ReadFile(worldFilePath)
				after = h.rnd.Intn(len(b))
				broken = v21new(t, &v21breaks{src, after})
				if got, err := broken.GetWorld(); err == nil {
					h.fail("world cut", in, "reading breaks after %d bytes: list %.300q without an error", after, got)
				}
			})
		}
	}
}

func TestVerifC21Keys(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	now := time.Date(2024, 2, 29, 12, 0, 0, 0, time.UTC)
	arches := []string{"x86_64", "aarch64", "x86", "armv7"}
	for i := 0; i < h.n(400) && h.more(); i++ {
		type key struct {
			URL        string `json:"url"`
			Deprecated string `json:"deprecated_since,omitempty"`
		}
		type branch struct {
			Rel  string           `json:"rel_branch"`
			Keys map[string][]key `json:"keys"`
		}
		var bs []branch
		for j := 0; j < 1+h.rnd.Intn(4); j++ {
			b := branch{Rel: h.pick("v3.1", "v3.10", "v3.2", "edge", "3.1"), Keys: map[string][]key{}}
			for _, ar := range arches {
				if h.rnd.Intn(4) == 0 {
					continue
				}
				ks := []key{}
				for k := 0; k < h.rnd.Intn(5); k++ {
					ks = append(ks, key{
						URL:        fmt.Sprintf("https://h/keys/%s%s%d-%d-%d.rsa.pub", ar, h.pick("@", "%20", "x%20y%20", ""), i, j, k),
						Deprecated: h.pick("", "2024-02-29", "2024-03-01", "2024-02-28", "2099-01-01", "1999-01-01"),
					})
				}
				b.Keys[ar] = ks
			}
			bs = append(bs, b)
		}
		doc, _ := json.Marshal(map[string]any{"release_branches": bs})
		var rel Releases
		if err := json.Unmarshal(doc, &rel); err != nil {
			h.fail("release data", string(doc), "does not parse: %v", err)
			continue
		}
		h.eval("%d branches", len(bs))
		for _, want := range []string{"v3.1", "v3.10", "v3.2", "edge", "3.1", "", "v3"} {
			var src *branch
			for k := range bs {
				if bs[k].Rel == want {
					src = &bs[k]
					break
				}
			}
			in := fmt.Sprintf("branch %q of %.1500s", want, doc)
			h.guard("keys panic", in, func() {
				got := rel.GetReleaseBranch(want)
				if (got == nil) != (src == nil) || got != nil && got.ReleaseBranch != want {
					h.fail("branch", in, "found %+v", got)
					return
				}
				if got == nil {
					return
				}
				for _, ar := range append(arches, "mips", "") {
					var urls []string
					for _, k := range src.Keys[ar] {
						d := time.Time{}
						if k.Deprecated != "" {
							d, _ = time.Parse("2006-01-02", k.Deprecated)
						}
						if k.Deprecated == "" || d.After(now) {
							urls = append(urls, strings.ReplaceAll(k.URL, "%20", "@"))
						}
					}
					for try := 0; try < 2; try++ { // asking twice gives the same answer
						if ks := got.KeysFor(ar, now); !v21same(ks, urls) {
							h.fail("keys", in, "for %q on %s: %q, published %q", ar, now, ks, urls)
						}
					}
				}
			})
		}
	}
}

type v21net struct {
	files map[string][]byte
	asked []string
	cut   map[string]bool
}

func (n *v21net) RoundTrip(r *http.Request) (*http.Response, error) {
	u := r.URL.String()
	n.asked = append(n.asked, u)
	b, ok := n.files[u]
	resp := &http.Response{Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1, Header: http.Header{}, Request: r, StatusCode: 200, Status: "200 OK", ContentLength: int64(len(b))}
	if !ok {
		resp.StatusCode, resp.Status = 404, "404 Not Found"
		b = nil
	}
	if n.cut[u] {
		resp.Body = io.NopCloser(io.MultiReader(bytes.NewReader(b[:len(b)/2]), v21err{}))
	} else {
		resp.Body = io.NopCloser(bytes.NewReader(b))
	}
	return resp, nil
}

type v21err struct{}

func (v21err) Read([]byte) (int, error) { return 0, errors.New("connection reset") }

// The keys the installer stores are the published ones of the branches asked for, under their own names.
func TestVerifC21Fetch(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	ctx := context.Background()
	for i := 0; i < h.n(120) && h.more(); i++ {
		n := &v21net{files: map[string][]byte{}, cut: map[string]bool{}}
		type key struct {
			URL        string `json:"url"`
			Deprecated string `json:"deprecated_since,omitempty"`
		}
		var bs []map[string]any
		want := map[string][]byte{}
		cut := false
		versions := []string{}
		for j := 0; j < 1+h.rnd.Intn(4); j++ {
			rel := fmt.Sprintf("v3.%d", j)
			asked := h.rnd.Intn(3) > 0
			if asked {
				versions = append(versions, rel)
			}
			keys := map[string][]key{}
			for _, ar := range []string{"x86_64", "aarch64"} {
				for k := 0; k < h.rnd.Intn(4); k++ {
					name := fmt.Sprintf("devel@h-%s%d%d.rsa.pub", ar, j, k)
					u := "https://keys.example/" + name
					pub := u
					if h.rnd.Intn(2) == 0 {
						pub = strings.Replace(u, "@", "%20", 1)
					}
					dep := h.pick("", "", "1999-01-01", "2999-01-01")
					body := []byte(name + "\n" + strings.Repeat(string(rune('a'+k)), h.rnd.Intn(300)))
					n.files[u] = body
					keys[ar] = append(keys[ar], key{pub, dep})
					if asked && ar == "x86_64" && dep != "1999-01-01" {
						want[name] = body
						if h.rnd.Intn(20) == 0 {
							n.cut[u], cut = true, true
						}
					}
				}
			}
			bs = append(bs, map[string]any{"rel_branch": rel, "keys": keys})
		}
		if h.rnd.Intn(3) == 0 {
			versions = append(versions, "v9.9")
		}
		doc, _ := json.Marshal(map[string]any{"release_branches": bs})
		n.files[alpineReleasesURL] = doc
		src := v21fs(t)
		a, err := New(WithFS(src), WithArch("x86_64"))
		if err != nil {
			t.Fatal(err)
		}
		a.SetClient(&http.Client{Transport: n})
		in := fmt.Sprintf("keys of %v for x86_64 out of %.1500s", versions, doc)
		h.eval("%d keys", len(want))
		h.guard("fetch panic", in, func() {
			err := a.fetchAlpineKeys(ctx, versions)
			if cut || len(want) == 0 {
				if err == nil {
					h.fail("fetch without error", in, "cut off %v, %d keys valid, and no error", cut, len(want))
				}
				return
			}
			if err != nil {
				h.fail("fetch", in, "error %v", err)
				return
			}
			got := map[string][]byte{}
			ds, _ := src.ReadDir(keysDirPath)
			for _, d := range ds {
				got[d.Name()], _ = src.ReadFile(path.Join(keysDirPath, d.Name()))
			}
			if !reflect.DeepEqual(got, want) {
				var g, w []string
				for k := range got {
					g = append(g, k)
				}
				for k := range want {
					w = append(w, k)
				}
				h.fail("stored keys", in, "stored %q, published %q", g, w)
			}
		})
	}
}

func v21index(ps []*Package) []byte {
	var text string
	for _, p := range ps {
		text += "P:" + p.Name + "\nV:" + p.Version + "\nA:x86_64\n\n"
	}
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	w := tar.NewWriter(z)
	_ = w.WriteHeader(&tar.Header{Name: "APKINDEX", Mode: 0o644, Size: int64(len(text))})
	_, _ = io.WriteString(w, text)
	w.Close()
	z.Close()
	return b.Bytes()
}

// Every repository of the list is asked for its index at base/architecture, and its packages carry addresses under it.
func TestVerifC21Addresses(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	ctx := context.Background()
	dir := t.TempDir()
	for i := 0; i < h.n(120) && h.more(); i++ {
		arch := h.pick("x86_64", "aarch64", "riscv64", "x86")
		n := &v21net{files: map[string][]byte{}}
		type exp struct {
			name, base string
			pkgs       []*Package
		}
		var want []exp
		var lines, askedWant []string
		for j := 0; j < 1+h.rnd.Intn(4); j++ {
			local := h.rnd.Intn(3) == 0
			base := fmt.Sprintf("https://repo%d-%d.example%s", i, j, h.pick("", "/alpine/v3", "/a%2Fb", "/x.y"))
			if local {
				base = fmt.Sprintf("%s/r%d-%d", dir, i, j)
			}
			var ps []*Package
			for k := 0; k < h.rnd.Intn(4); k++ {
				ps = append(ps, &Package{Name: h.pick("busybox", "a-b", "lib_x+", "g++") + fmt.Sprint(k), Version: h.pick("1.2-r0", "2.0_rc1-r10", "0-r0")})
			}
			b := v21index(ps)
			if local {
				if err := os.MkdirAll(path.Join(base, arch), 0o755); err != nil {
					t.Fatal(err)
				}
				if err := os.WriteFile(path.Join(base, arch, "APKINDEX.tar.gz"), b, 0o644); err != nil {
					t.Fatal(err)
				}
			} else {
				u := base + "/" + arch + "/APKINDEX.tar.gz"
				n.files[u] = b
				askedWant = append(askedWant, u)
			}
			name, line := "", base
			if h.rnd.Intn(3) == 0 {
				name = h.pick("edge", "local", "x")
				line = "@" + name + h.pick(" ", "  ", "\t") + base
			}
			lines = append(lines, line)
			want = append(want, exp{name, base + "/" + arch, ps})
		}
		src := v21fs(t)
		_ = src.WriteFile(archFilePath, []byte(arch+"\n"), 0o644)
		a, err := New(WithFS(src), WithArch(arch))
		if err != nil {
			t.Fatal(err)
		}
		a.SetClient(&http.Client{Transport: n})
		in := fmt.Sprintf("repositories %q, architecture %s", lines, arch)
		h.eval("%d repositories", len(lines))
		h.guard("addresses panic", in, func() {
			if err := a.SetRepositories(ctx, lines); err != nil {
				h.fail("repositories write", in, "error %v", err)
				return
			}
			idx, err := a.GetRepositoryIndexes(ctx, true)
			if err != nil || len(idx) != len(want) {
				h.fail("indexes", in, "%d indexes, %v", len(idx), err)
				return
			}
			var asked []string
			for _, u := range n.asked {
				asked = append(asked, u)
			}
			sort.Strings(asked)
			sort.Strings(askedWant)
			if !reflect.DeepEqual(asked, askedWant) {
				h.fail("index addresses", in, "asked %q, expected %q", asked, askedWant)
			}
			for k, ix := range idx {
				w := want[k]
				if ix.Name() != w.name || ix.Source() != w.base+"/APKINDEX.tar.gz" || ix.Count() != len(w.pkgs) {
					h.fail("index name", in, "index %d is %q from %q with %d packages", k, ix.Name(), ix.Source(), ix.Count())
				}
				for m, p := range ix.Packages() {
					if m >= len(w.pkgs) {
						break
					}
					u := w.base + "/" + w.pkgs[m].Name + "-" + w.pkgs[m].Version + ".apk"
					if p.URL() != u || p.Filename() != path.Base(u) {
						h.fail("package address", in, "package %s has address %q, expected %q", p.Name, p.URL(), u)
					}
				}
			}
		})
		r := NewRepositoryFromComponents(h.pick("https://h", "/local"), h.pick("v3.1", "edge"), "main", arch)
		if u, err := url.Parse(r.IndexURI()); err != nil || !strings.HasSuffix(u.Path, "/main/"+arch+"/APKINDEX.tar.gz") || r.IndexURI() != r.URI+"/APKINDEX.tar.gz" {
			h.fail("components", r.URI, "index address %q", r.IndexURI())
		}
	}
}
