package apk

// pkg: pkg/apk
// Oracle: the configured credentials per host, and the credentials embedded in the address asked for.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strings"
	"testing"

	apkfs "github.com/chainguard-dev/go-apk/pkg/fs"
)

type v20cred struct{ user, pass string }

type v20req struct {
	method, url, host string
	embedded          *v20cred // what the request URL itself still carries
	auth              *v20cred
	other             string // any header value containing a secret
	hdr               string
}

// v20net answers every request and records it; some answers fail, break off or redirect.
type v20net struct {
	reqs     []v20req
	body     []byte
	fail     map[int]string
	redirect string
	n        int
}

type v20cut struct {
	r io.Reader
}

func (c *v20cut) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF {
		err = errors.New("connection reset")
	}
	return n, err
}
func (c *v20cut) Close() error { return nil }

func (t *v20net) RoundTrip(r *http.Request) (*http.Response, error) {
	q := v20req{method: r.Method, url: r.URL.Redacted(), host: r.URL.Host}
	if u, p, ok := r.BasicAuth(); ok {
		q.auth = &v20cred{u, p}
	} else if a := r.Header.Get("Authorization"); a != "" {
		q.auth = &v20cred{"?", a}
	}
	var hs []string
	for k, v := range r.Header {
		if k != "Authorization" {
			hs = append(hs, k+"="+strings.Join(v, ","))
		}
	}
	sort.Strings(hs)
	q.hdr = strings.Join(hs, ";")
	t.reqs = append(t.reqs, q)
	t.n++
	resp := &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	what := t.fail[t.n]
	body := t.body
	if rg := r.Header.Get("Range"); strings.HasPrefix(rg, "bytes=") {
		var from int
		_, _ = fmt.Sscanf(rg, "bytes=%d-", &from)
		if from <= len(body) {
			body = body[from:]
			resp.StatusCode = 206
		}
	}
	switch what {
	case "error":
		return nil, errors.New("no route")
	case "redirect":
		if t.redirect != "" {
			resp.StatusCode = 302
			resp.Header.Set("Location", t.redirect)
			resp.Body = io.NopCloser(strings.NewReader(""))
			return resp, nil
		}
	case "cut":
		resp.Body = &v20cut{bytes.NewReader(body[:len(body)/2])}
		return resp, nil
	case "404":
		resp.StatusCode = 404
	case "etag":
		resp.Header.Set("Etag", `"v1"`)
	}
	resp.ContentLength = int64(len(body))
	if r.Method == http.MethodHead {
		body = nil
	}
	resp.Body = io.NopCloser(bytes.NewReader(body))
	return resp, nil
}

type v20pkg struct{ u string }

func (p v20pkg) URL() string            { return p.u }
func (p v20pkg) PackageName() string    { return "p" }
func (p v20pkg) Arch() string           { return "x86_64" }
func (p v20pkg) ChecksumString() string { return "" }
func (p v20pkg) String() string         { return p.u }

func TestVerifC20(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	ctx := context.Background()
	hosts := []string{"a.example", "a.example:8443", "b.example", "xa.example", "a.example.evil.test", "sub.a.example", "A.example", "example", "dl-cdn.alpinelinux.org", "alpinelinux.org", "127.0.0.1:8080", "127.0.0.1"}
	secrets := 0
	newCred := func() v20cred {
		secrets++
		switch h.rnd.Intn(8) {
		case 0:
			return v20cred{"same", "pw" + fmt.Sprint(secrets)}
		case 1:
			return v20cred{"user" + fmt.Sprint(secrets), ""}
		case 2:
			return v20cred{"", "pw" + fmt.Sprint(secrets)}
		case 3:
			return v20cred{"us er" + fmt.Sprint(secrets), "p:w@" + fmt.Sprint(secrets)}
		}
		return v20cred{"user" + fmt.Sprint(secrets), "pw" + fmt.Sprint(secrets)}
	}
	for i := 0; i < h.n(1500) && h.more(); i++ {
		cfg := map[string]v20cred{}
		var opts []Option
		var iopts []IndexOption
		var desc []string
		nc := h.rnd.Intn(5)
		for k := 0; k < nc; k++ {
			d := hosts[h.rnd.Intn(len(hosts))]
			c := newCred()
			cfg[d] = c
			opts = append(opts, WithAuth(d, c.user, c.pass))
			iopts = append(iopts, WithIndexAuth(d, c.user, c.pass))
			desc = append(desc, fmt.Sprintf("%s=%s:%s", d, c.user, c.pass))
		}
		fsys := apkfs.NewMemFS()
		_ = fsys.MkdirAll("etc/apk/keys", 0o755)
		_ = fsys.WriteFile("etc/apk/arch", []byte("x86_64\n"), 0o644)
		opts = append(opts, WithFS(fsys), WithArch("x86_64"))
		cached := h.rnd.Intn(4) == 0
		dir := ""
		if cached {
			dir = t.TempDir()
			opts = append(opts, WithCache(dir, false))
			globalEtagCache = &etagCache{}
		}
		globalIndexCache.onces.Range(func(k, _ any) bool { globalIndexCache.onces.Delete(k); globalIndexCache.indexes.Delete(k); return true })
		a, err := New(opts...)
		if err != nil {
			h.fail("new", strings.Join(desc, " "), "New: %v", err)
			continue
		}
		net := &v20net{body: []byte(strings.Repeat("some content ", 40)), fail: map[int]string{}}
		for k := 1; k <= 6; k++ {
			net.fail[k] = h.pick("", "", "", "cut", "error", "etag", "etag", "404", "redirect")
		}
		if h.rnd.Intn(2) == 0 {
			net.fail = map[int]string{}
		}
		a.SetClient(&http.Client{Transport: net})
		type target struct {
			host string
			emb  *v20cred
			raw  string
		}
		mk := func(ext string) target {
			tg := target{host: hosts[h.rnd.Intn(len(hosts))]}
			if len(cfg) > 0 && h.rnd.Intn(2) == 0 {
				for d := range cfg {
					tg.host = d
				}
			}
			u := &url.URL{Scheme: h.pick("https", "http"), Host: tg.host, Path: h.pick("/os", "/os/edge", "/a.example/x", "/https://b.example/x") + ext}
			if h.rnd.Intn(4) == 0 {
				c := v20cred{fmt.Sprintf("eu%d", i), fmt.Sprintf("ep%d", i)}
				if h.rnd.Intn(5) == 0 {
					c.pass = ""
				}
				tg.emb = &c
				u.User = url.UserPassword(c.user, c.pass)
			}
			tg.raw = u.String()
			if h.rnd.Intn(6) == 0 {
				tg.raw += "?x=b.example"
			}
			return tg
		}
		kind := h.pick("key", "pkg", "index", "apkindex", "keys")
		var tgs []target
		switch kind {
		case "key":
			tgs = append(tgs, mk("/k.rsa.pub"))
		case "keys":
			for k := 0; k < 3; k++ {
				tgs = append(tgs, mk(fmt.Sprintf("/k%d.rsa.pub", k)))
			}
		case "pkg":
			tgs = append(tgs, mk("/x86_64/p-1.0-r0.apk"))
		default:
			for k := 0; k < 1+h.rnd.Intn(3); k++ {
				tgs = append(tgs, mk(""))
			}
		}
		if h.rnd.Intn(2) == 0 {
			net.redirect = "https://redirected.test/elsewhere"
		}
		var raws []string
		byHost := map[string][]target{}
		for _, tg := range tgs {
			raws = append(raws, tg.raw)
			byHost[tg.host] = append(byHost[tg.host], tg)
		}
		in := fmt.Sprintf("%s %v configured %v cache=%v answers=%v", kind, raws, desc, cached, net.fail)
		h.guard("panic", in, func() {
			switch kind {
			case "key", "keys":
				var first, more []string
				for k, r := range raws {
					if k%2 == 0 {
						first = append(first, r)
					} else {
						more = append(more, r)
					}
				}
				// the downloads run at the same time: keep the recorder simple
				for _, k := range append(first, more...) {
					_ = a.InitKeyring(ctx, []string{k}, nil)
				}
			case "pkg":
				rc, err := a.FetchPackage(ctx, v20pkg{raws[0]})
				if err == nil {
					_, _ = io.Copy(io.Discard, rc)
					rc.Close()
				}
			case "index":
				iopts = append(iopts, WithIgnoreSignatures(true), WithHTTPClient(&http.Client{Transport: net}))
				h.rnd.Shuffle(len(iopts), func(x, y int) {
					// later entries for one host win: only move the others
				})
				for _, r := range raws {
					_, _ = GetRepositoryIndexes(ctx, []string{r}, nil, "x86_64", iopts...)
				}
			case "apkindex":
				_ = fsys.WriteFile("etc/apk/repositories", []byte(strings.Join(raws, "\n")+"\n"), 0o644)
				_, _ = a.GetRepositoryIndexes(ctx, true)
			}
		})
		if dir != "" {
			_ = os.RemoveAll(dir)
		}
		h.eval("%s", in)
		for _, q := range net.reqs {
			c, has := cfg[q.host]
			var embs []v20cred
			noEmb := true
			for _, tg := range byHost[q.host] {
				if tg.emb != nil {
					embs = append(embs, *tg.emb)
					noEmb = false
				}
			}
			if q.auth != nil {
				ok := has && *q.auth == c
				for _, e := range embs {
					ok = ok || *q.auth == e
				}
				if !ok {
					h.fail("foreign", in, "%s %s carries credentials %q:%q, which are neither configured for %s nor part of its address", q.method, q.url, q.auth.user, q.auth.pass, q.host)
				}
			} else if len(byHost[q.host]) > 0 {
				if has && c.user != "" && c.pass != "" && noEmb {
					h.fail("missing", in, "%s %s carries no credentials although %s has %q:%q configured", q.method, q.url, q.host, c.user, c.pass)
				}
				if !noEmb && len(embs) == len(byHost[q.host]) {
					h.fail("embedded", in, "%s %s carries no credentials although its address does", q.method, q.url)
				}
			}
			for d, o := range cfg {
				if o.pass != "" && strings.Contains(q.hdr, o.pass) {
					h.fail("leak", in, "%s %s carries the password of %s in another header: %s", q.method, q.url, d, q.hdr)
				}
			}
		}
	}
}
