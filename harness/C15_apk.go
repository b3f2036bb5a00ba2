package apk

// pkg: pkg/apk
// unprivileged
// Oracle: the bytes the server sent with status 200, and a snapshot of everything around the cache directory.

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	iofs "io/fs"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/chainguard-dev/go-apk/pkg/expandapk"
)

const v15secret = "SECRET-OUTSIDE-THE-CACHE"

// v15body delivers data and then ends in a chosen way.
type v15body struct {
	r    io.Reader
	end  error
	look func()
}

func (b *v15body) Read(p []byte) (int, error) {
	if b.look != nil {
		b.look()
	}
	n, err := b.r.Read(p)
	if err == io.EOF && b.end != nil {
		err = b.end
	}
	return n, err
}
func (b *v15body) Close() error { return nil }

// v15net answers HEAD and GET requests.
type v15net struct {
	body             []byte
	headTag, getTag  string
	headCode, getCode int
	cut              int // bytes delivered by a GET, -1: all
	headErr, getErr  error
	offers           [][]byte // bodies sent completely with status 200
	gets             int
	look             func() // called while a body is being read
}

func (n *v15net) RoundTrip(r *http.Request) (*http.Response, error) {
	resp := &http.Response{Header: http.Header{}, Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	tag := n.getTag
	body := n.body
	var end error
	if r.Method == http.MethodHead {
		if n.headErr != nil {
			return nil, n.headErr
		}
		resp.StatusCode = n.headCode
		tag = n.headTag
		body = nil
	} else {
		n.gets++
		if n.getErr != nil {
			return nil, n.getErr
		}
		resp.StatusCode = n.getCode
		if n.getCode != 200 {
			body = []byte("<html>error page</html>")
		}
		if n.cut >= 0 && n.cut < len(body) {
			body = body[:n.cut]
			end = io.ErrUnexpectedEOF
		}
		if resp.StatusCode == 200 && end == nil {
			n.offers = append(n.offers, body)
		}
	}
	resp.Status = fmt.Sprintf("%d X", resp.StatusCode)
	if tag != "" {
		resp.Header.Set("Etag", tag)
	}
	resp.Body = &v15body{bytes.NewReader(body), end, n.look}
	return resp, nil
}

// v15around lists everything below top outside cache with its content.
func v15around(top, cache string) string {
	var out []string
	_ = filepath.WalkDir(top, func(p string, d iofs.DirEntry, err error) error {
		if p == cache {
			return filepath.SkipDir
		}
		st := ""
		if err == nil && d.Type().IsRegular() {
			b, _ := os.ReadFile(p)
			st = fmt.Sprintf("%x", sha1.Sum(b))
		}
		out = append(out, strings.TrimPrefix(p, top)+" "+st)
		return nil
	})
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// v15entries returns the finished files of a cache.
func v15entries(cache string) map[string]string {
	out := map[string]string{}
	_ = filepath.WalkDir(cache, func(p string, d iofs.DirEntry, err error) error {
		if err == nil && d.Type().IsRegular() && !strings.HasSuffix(p, ".tmp") {
			b, _ := os.ReadFile(p)
			out[strings.TrimPrefix(p, cache)] = string(b)
		}
		return nil
	})
	return out
}

func v15place(h *vh, top string, names ...string) {
	for _, n := range names {
		p := filepath.Join(top, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(v15secret), 0o644); err != nil {
			h.t.Fatal(err)
		}
	}
}

func v15get(root string, rt http.RoundTripper, u string, etags, offline bool) (int, string, error) {
	c := cache{dir: root, offline: offline}.client(&http.Client{Transport: rt}, etags)
	req, err := http.NewRequestWithContext(context.Background(), http.MethodGet, u, nil)
	if err != nil {
		return 0, "", nil
	}
	resp, err := c.Transport.RoundTrip(req)
	if err != nil {
		return 0, "", err
	}
	if resp == nil {
		return 0, "", nil
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	return resp.StatusCode, string(b), err
}

func v15targz(name, content string) []byte {
	var b bytes.Buffer
	z := gzip.NewWriter(&b)
	w := tar.NewWriter(z)
	_ = w.WriteHeader(&tar.Header{Name: name, Mode: 0o644, Size: int64(len(content)), Typeflag: tar.TypeReg})
	_, _ = w.Write([]byte(content))
	_ = w.Close()
	_ = z.Close()
	return b.Bytes()
}

type v15pkg struct{ url, chk string }

func (p v15pkg) URL() string            { return p.url }
func (p v15pkg) PackageName() string    { return "p" }
func (p v15pkg) ChecksumString() string { return p.chk }

func TestVerifC15(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	top := t.TempDir()
	tags := []string{`"abc"`, `../../../stolen`, `"../x"`, `..`, `.`, `a/b`, `../../out/f`, `"../../../../cache-evil/f"`, `W/"weak"`, `a b`, `%2e%2e%2f`, "a\x00b", `../abc.tar.gz/../q`, `"`, `""`, `a.tmp`}
	for _, x := range h.hints {
		if x != "" && !strings.ContainsAny(x, "\n\r") {
			tags = append(tags, x)
		}
	}
	paths := []string{"/repo/x86_64/APKINDEX.tar.gz", "/keys/k.rsa.pub", "/a/b/c/x86_64/p-1.apk", "/..", "/../..", "/a/../../APKINDEX.tar.gz", "/x/../APKINDEX.tar.gz", "/../cache-evil/f", "/x/%2e%2e/%2e%2e/f", "/", "", "/f", "/..%2f..%2fout/f", "//x//y", "/x/./APKINDEX.tar.gz", "/x/..", "/x/y/..", "/x/y/."}
	hosts := []string{"h.test", "..", ".", "h.test:8080", "a..b"}
	seq := 0
	one := func(root string, n *v15net, u string, etags bool) {
		in := fmt.Sprintf("root=%s url=%q etags=%v head=%d/%q get=%d/%q cut=%d headErr=%v getErr=%v", strings.TrimPrefix(root, top), u, etags, n.headCode, n.headTag, n.getCode, n.getTag, n.cut, n.headErr, n.getErr)
		h.eval("%s", in)
		before := v15around(top, root)
		old := v15entries(root)
		globalEtagCache = &etagCache{}
		n.look = func() {
			for f := range v15entries(root) {
				if _, ok := old[f]; !ok {
					h.fail("early-entry", in, "%s is there before the download is complete", f)
				}
			}
		}
		h.guard("panic", in, func() {
			code, body, err := v15get(root, n, u, etags, false)
			if after := v15around(top, root); after != before {
				h.fail("outside", in, "files outside the cache changed:\n%s\nwere\n%s", after, before)
			}
			if strings.Contains(body, v15secret) {
				h.fail("reads-outside", in, "the answer is a file outside the cache")
			}
			good := n.getErr == nil && n.getCode == 200 && (n.cut < 0 || n.cut >= len(n.body))
			if err == nil && code == 200 && body != string(n.body) {
				h.fail("wrong-body", in, "got %q with status 200, the server has %q", body, n.body)
			}
			if !good && err == nil && code == 200 && len(n.offers) == 0 && n.gets > 0 {
				h.fail("failure-hidden", in, "a failed download was not reported")
			}
			for f, b := range v15entries(root) {
				if _, ok := old[f]; ok {
					if old[f] != b {
						h.fail("entry-changed", in, "entry %s changed", f)
					}
					continue
				}
				ok := false
				for _, o := range n.offers {
					ok = ok || string(o) == b
				}
				if !ok {
					h.fail("partial-entry", in, "the entry %s holds %q, which no complete successful response had", f, b)
				}
			}
			if etags && n.headErr == nil && n.headCode == 200 {
				// offline, what was not downloaded completely is not there
				_, body, err := v15get(root, n, u, true, true)
				if err == nil && body != "" && body != string(n.body) && len(old) == 0 {
					h.fail("offline-partial", in, "offline, the cache serves %q", body)
				}
			}
		})
	}
	fresh := func() string {
		seq++
		d := filepath.Join(top, fmt.Sprint("s", seq))
		root := filepath.Join(d, "cache")
		_ = os.MkdirAll(root, 0o755)
		v15place(h, d, "f", "f.etag", "stolen.tar.gz", "stolen.etag", "out/f", "out/f.tar.gz", "cache-evil/f", "cache-evil/f.etag", "cache-evil/f.tar.gz", "cache.etag", "cache.tar.gz")
		return root
	}
	netOf := func(body, tag string) *v15net {
		return &v15net{body: []byte(body), headTag: tag, getTag: tag, headCode: 200, getCode: 200, cut: -1}
	}
	drop := func(root string) { _ = os.RemoveAll(filepath.Dir(root)) }

	for _, tag := range tags {
		for _, p := range paths[:3] {
			root := fresh()
			one(root, netOf("BODY-"+tag+p, tag), "https://h.test"+p, true)
			drop(root)
		}
	}
	for _, host := range hosts {
		for _, p := range paths {
			for _, e := range []bool{true, false} {
				root := fresh()
				one(root, netOf("BODY", `"abc"`), "https://"+host+p, e)
				one(root, netOf("BODY", `".."`), "https://"+host+p, e)
				drop(root)
			}
		}
	}
	// failures at every point
	for _, p := range paths[:2] {
		for cut := 0; cut <= 5; cut++ {
			for _, code := range []int{200, 404, 500, 206} {
				root := fresh()
				n := netOf("HELLO", `"abc"`)
				n.cut, n.getCode = cut, code
				one(root, n, "https://h.test"+p, true)
				// and afterwards a good one
				one(root, netOf("HELLO", `"abc"`), "https://h.test"+p, true)
				drop(root)
			}
		}
		for _, f := range []func(n *v15net){
			func(n *v15net) { n.headErr = errors.New("no route") },
			func(n *v15net) { n.getErr = errors.New("reset") },
			func(n *v15net) { n.headCode = 404 },
			func(n *v15net) { n.headCode = 503; n.getErr = errors.New("reset") },
			func(n *v15net) { n.getTag = "" },
			func(n *v15net) { n.headTag = "" },
			func(n *v15net) { n.getTag = `"other"` },
		} {
			root := fresh()
			n := netOf("HELLO", `"abc"`)
			f(n)
			one(root, n, "https://h.test"+p, true)
			drop(root)
		}
	}
	// a later version of the resource has another tag and does not share the entry
	for _, p := range paths[:2] {
		for i, a := range tags {
			for j, b := range tags {
				if i == j || strings.Trim(a, `"`) == strings.Trim(b, `"`) || !h.more() {
					continue
				}
				root := fresh()
				one(root, netOf("OLD-CONTENT", a), "https://h.test"+p, true)
				one(root, netOf("NEW", b), "https://h.test"+p, true)
				one(root, netOf("OLD-CONTENT", a), "https://h.test"+p, true)
				drop(root)
			}
		}
	}
	// the resource changes between the two requests of a download: what is kept is kept under its own tag
	for _, p := range paths[:2] {
		root := fresh()
		n := netOf("SECOND", `"two"`)
		n.headTag = `"one"`
		one(root, n, "https://h.test"+p, true)
		one(root, netOf("FIRST", `"one"`), "https://h.test"+p, true)
		one(root, netOf("SECOND", `"two"`), "https://h.test"+p, true)
		drop(root)
	}
	// two caches in one process: each answers from its own directory
	{
		r1, r2 := fresh(), fresh()
		globalEtagCache = &etagCache{}
		u := "https://h.test" + paths[0]
		in := "two cache directories, " + u
		h.eval("%s", in)
		h.guard("two-caches", in, func() {
			_, _, _ = v15get(r1, netOf("BODY", `"abc"`), u, true, false)
			before := v15entries(r2)
			_, b, err := v15get(r2, netOf("BODY2", `"abc"`), u, true, false)
			if err != nil || b != "BODY2" {
				h.fail("two-caches", in, "the second cache answered %q, %v", b, err)
			}
			if len(v15entries(r2)) != len(before)+1 {
				h.fail("two-caches", in, "the second cache has no entry of its own")
			}
		})
		drop(r1)
		drop(r2)
	}
	// leftovers of an interrupted process are not entries
	{
		root := fresh()
		u := "https://h.test" + paths[0]
		n := netOf("WHOLE", `"abc"`)
		globalEtagCache = &etagCache{}
		_, _, _ = v15get(root, n, u, true, false)
		var dir string
		for f := range v15entries(root) {
			dir = filepath.Dir(filepath.Join(root, f))
		}
		if dir != "" {
			f, err := os.CreateTemp(dir, "*.tmp")
			if err == nil {
				_, _ = f.WriteString("WH")
				_ = f.Close()
			}
			in := "offline after an interrupted download, " + u
			h.eval("%s", in)
			if _, b, err := v15get(root, n, u, true, true); err != nil || b != "WHOLE" {
				h.fail("offline-partial", in, "got %q, %v", b, err)
			}
		}
		drop(root)
	}
	// random URLs
	for i := 0; i < h.n(150) && h.more(); i++ {
		parts := []string{"..", ".", "x", "APKINDEX.tar.gz", "%2e%2e", "%2f", "/", "f", "cache-evil", "a.apk", "..apk", ".apk", ""}
		p := ""
		for k := 0; k < 1+h.rnd.Intn(6); k++ {
			p += "/" + parts[h.rnd.Intn(len(parts))]
		}
		root := fresh()
		n := netOf("HELLO", tags[h.rnd.Intn(len(tags))])
		n.cut = h.rnd.Intn(7) - 1
		one(root, n, "https://"+hosts[h.rnd.Intn(len(hosts))]+p, h.rnd.Intn(3) > 0)
		drop(root)
	}

	// ---- packages
	for _, host := range hosts {
		for _, p := range append([]string{"/x/..apk", "/x/...apk", "/..apk", "/.apk", "/x/.apk", "/x/y/..apk", "/../x.apk", "/cache-evil.apk"}, paths...) {
			u := "https://" + host + p
			in := "package " + u
			h.eval("%s", in)
			root := filepath.Join(top, "pc", "cache")
			h.guard("package-dir", in, func() {
				d, err := cacheDirForPackage(root, v15pkg{u, ""})
				if err == nil {
					rel, rerr := filepath.Rel(root, d)
					if rerr != nil || rel == "." || rel == ".." || strings.HasPrefix(rel, "../") {
						h.fail("package-dir", in, "the files of the package are kept in %s (cache: %s)", d, root)
					}
				}
			})
		}
	}
	v15packages(h, fresh, drop)
}

func v15packages(h *vh, fresh func() string, drop func(string)) {
	a := &APK{}
	ctx := context.Background()
	sum := sha1.Sum([]byte("control"))
	chk := "Q1" + base64.StdEncoding.EncodeToString(sum[:])
	whole := v15targz("usr/bin/x", strings.Repeat("payload", 300))
	for _, dh := range []string{"00ff", "../../out", "../../../x", "/etc", "..", "zz", "00/ff", "../00ff"} {
		root := fresh()
		d := filepath.Join(root, "repo", "x86_64", "p-1")
		_ = os.MkdirAll(d, 0o755)
		top := filepath.Dir(root)
		for _, p := range []string{filepath.Join(d, "00ff.dat.tar.gz"), filepath.Join(d, dh) + ".dat.tar.gz"} {
			if strings.HasPrefix(p, top+"/") {
				_ = os.MkdirAll(filepath.Dir(p), 0o755)
				_ = os.WriteFile(p, whole, 0o644)
			}
		}
		_ = os.WriteFile(filepath.Join(d, hex.EncodeToString(sum[:])+".ctl.tar.gz"), v15targz(".PKGINFO", "pkgname = p\ndatahash = "+dh+"\n"), 0o644)
		in := fmt.Sprintf("cached package with datahash %q", dh)
		h.eval("%s", in)
		before := v15around(top, root)
		h.guard("package-hash", in, func() {
			exp, err := a.cachedPackage(ctx, v15pkg{"https://h.test/repo/x86_64/p-1.apk", chk}, d)
			if err == nil {
				for _, f := range []string{exp.ControlFile, exp.PackageFile, exp.TarFile} {
					if !strings.HasPrefix(filepath.Clean(f), root+"/") {
						h.fail("package-hash", in, "the file %s is outside the cache", f)
					}
				}
			}
			if v15around(top, root) != before {
				h.fail("package-hash", in, "files outside the cache changed")
			}
		})
		drop(root)
	}
	// decompression that fails leaves no file under the final name
	for cut := 0; cut < len(whole); cut += 1 + len(whole)/12 {
		root := fresh()
		d := filepath.Join(root, "p-1")
		_ = os.MkdirAll(d, 0o755)
		e := &expandapk.APKExpanded{PackageFile: filepath.Join(d, "00ff.dat.tar.gz"), TarFile: filepath.Join(d, "00ff.dat.tar")}
		_ = os.WriteFile(e.PackageFile, whole[:cut], 0o644)
		in := fmt.Sprintf("package data cut after %d of %d bytes", cut, len(whole))
		h.eval("%s", in)
		h.guard("package-tar", in, func() {
			f, err := e.PackageData()
			if err == nil {
				_ = f.Close()
				h.fail("package-tar", in, "accepted")
			}
			if _, err := os.Stat(e.TarFile); err == nil {
				h.fail("package-tar", in, "%s holds a part of the package's files", filepath.Base(e.TarFile))
			}
			_ = os.WriteFile(e.PackageFile, whole, 0o644)
			f, err = e.PackageData()
			if err != nil {
				h.fail("package-tar", in, "the whole file was then refused: %v", err)
				return
			}
			defer f.Close()
			b, _ := io.ReadAll(f)
			z, _ := gzip.NewReader(bytes.NewReader(whole))
			w, _ := io.ReadAll(z)
			if !bytes.Equal(b, w) {
				h.fail("package-tar", in, "got %d bytes, want %d", len(b), len(w))
			}
		})
		drop(root)
	}
	// the files of a downloaded package get their names in the package's directory
	{
		root := fresh()
		d := filepath.Join(root, "p-1")
		_ = os.MkdirAll(filepath.Join(d, "tmp"), 0o755)
		mk := func(n string) string {
			p := filepath.Join(d, "tmp", n)
			_ = os.WriteFile(p, []byte(n), 0o644)
			return p
		}
		e := &expandapk.APKExpanded{ControlFile: mk("c"), PackageFile: mk("d"), TarFile: mk("t"), SignatureFile: mk("s"), ControlHash: sum[:], PackageHash: []byte{1, 2}}
		in := "cachePackage"
		h.eval("%s", in)
		h.guard("package-kept", in, func() {
			r, err := a.cachePackage(ctx, v15pkg{}, e, d)
			if err != nil {
				h.fail("package-kept", in, "%v", err)
				return
			}
			hx := hex.EncodeToString(sum[:])
			for f, w := range map[string][2]string{r.ControlFile: {"c", hx + ".ctl.tar.gz"}, r.PackageFile: {"d", "0102.dat.tar.gz"}, r.TarFile: {"t", "0102.dat.tar"}, r.SignatureFile: {"s", hx + ".sig.tar.gz"}} {
				b, err := os.ReadFile(f)
				if err != nil || string(b) != w[0] || f != filepath.Join(d, w[1]) {
					h.fail("package-kept", in, "%s holds %q (%v)", f, b, err)
				}
			}
		})
		drop(root)
	}
	_ = url.QueryEscape
}
