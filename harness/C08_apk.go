package apk

// pkg: pkg/apk
// Oracle: the packages inside the bytes that were actually signed with a configured key.

import (
	"archive/tar"
	"bytes"
	"compress/gzip"
	"context"
	"crypto"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/x509"
	"encoding/pem"
	"fmt"
	"io"
	"net/http"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"
	"time"
)

type v08entry struct {
	name, body string
	pax        map[string]string
	typ        byte
}

func v08tar(entries []v08entry, eof bool) []byte {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	for _, e := range entries {
		typ := e.typ
		if typ == 0 {
			typ = tar.TypeReg
		}
		h := &tar.Header{Name: e.name, Mode: 0o644, Typeflag: typ, Size: int64(len(e.body))}
		if len(e.pax) > 0 {
			h.Format = tar.FormatPAX
			h.PAXRecords = e.pax
		}
		_ = tw.WriteHeader(h)
		_, _ = tw.Write([]byte(e.body))
	}
	if eof {
		_ = tw.Close()
	} else {
		_ = tw.Flush()
	}
	return b.Bytes()
}

// a raw PAX extended header block without the file it applies to
func v08pax(records map[string]string) []byte {
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	_ = tw.WriteHeader(&tar.Header{Name: "x", Mode: 0o644, Typeflag: tar.TypeReg, Format: tar.FormatPAX, PAXRecords: records})
	out := b.Bytes()
	return out[:len(out)-512]
}

func v08rawPax(path string) []byte {
	// a long name forces a PAX header with a path record; it is replaced by the wanted one of equal length
	var b bytes.Buffer
	tw := tar.NewWriter(&b)
	_ = tw.WriteHeader(&tar.Header{Name: "x", Mode: 0o644, Typeflag: tar.TypeReg, Format: tar.FormatPAX, PAXRecords: map[string]string{"APK.zz": strings.Repeat("z", 40)}})
	out := append([]byte{}, b.Bytes()[:1024]...)
	rec := fmt.Sprintf(" path=%s\n", path)
	n := len(rec) + 2
	rec = fmt.Sprintf("%d%s", n, rec)
	for i := 512; i < 1024; i++ {
		out[i] = 0
	}
	copy(out[512:], rec)
	copy(out[124:136], []byte(fmt.Sprintf("%011o\x00", len(rec))))
	for i := 148; i < 156; i++ {
		out[i] = ' '
	}
	sum := 0
	for _, c := range out[:512] {
		sum += int(c)
	}
	copy(out[148:156], []byte(fmt.Sprintf("%06o\x00 ", sum)))
	return out
}

func v08gz(b []byte) []byte {
	var o bytes.Buffer
	w := gzip.NewWriter(&o)
	_, _ = w.Write(b)
	_ = w.Close()
	return o.Bytes()
}

type v08key struct {
	priv *rsa.PrivateKey
	pub  []byte
}

func v08newKey() v08key {
	k, _ := rsa.GenerateKey(rand.Reader, 1024)
	der, _ := x509.MarshalPKIXPublicKey(&k.PublicKey)
	return v08key{k, pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})}
}

func (k v08key) sign(data []byte) string {
	d := sha1.Sum(data)
	s, _ := rsa.SignPKCS1v15(rand.Reader, k.priv, crypto.SHA1, d[:])
	return string(s)
}

func v08index(pkgs ...string) []byte {
	t := ""
	for _, p := range pkgs {
		t += "P:" + p + "\nV:1.0-r0\nA:x86_64\n\n"
	}
	return v08gz(v08tar([]v08entry{{name: "DESCRIPTION", body: "d"}, {name: "APKINDEX", body: t}}, true))
}

type v08rt struct{ body []byte }

func (r v08rt) RoundTrip(req *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Status: "200 OK", Body: io.NopCloser(bytes.NewReader(r.body)), Header: http.Header{}, ContentLength: int64(len(r.body)), Request: req}, nil
}

func v08names(idx []NamedIndex) string {
	var l []string
	for _, i := range idx {
		for _, p := range i.Packages() {
			l = append(l, p.Name)
		}
	}
	return strings.Join(l, ",")
}

func TestVerifC08(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	root := t.TempDir()
	good, other, evil := v08newKey(), v08newKey(), v08newKey()
	key := func(ks ...string) map[string][]byte {
		m := map[string][]byte{}
		for _, k := range ks {
			switch k {
			case "good":
				m["good.rsa.pub"] = good.pub
			case "other":
				m["other.rsa.pub"] = other.pub
			case "garbage":
				m["garbage.rsa.pub"] = []byte("not a key")
			case "misnamed": // the good key under another name
				m["weird.rsa.pub"] = good.pub
			case "nameclash": // another key under the name of the good one
				m["good.rsa.pub"] = other.pub
			}
		}
		return m
	}
	repo := 0
	// one look at an index through the public entry point; want: names allowed ("" = error required), loose: error also allowed
	ask := func(what string, stream []byte, keys map[string][]byte, remote bool, r string, opts ...IndexOption) (string, error) {
		var u string
		if remote {
			u = "https://repo.test/" + r
			opts = append(opts, WithHTTPClient(&http.Client{Transport: v08rt{stream}}))
		} else {
			u = filepath.Join(root, r)
			_ = os.MkdirAll(filepath.Join(u, "x86_64"), 0o755)
			f := filepath.Join(u, "x86_64", "APKINDEX.tar.gz")
			if old, err := os.ReadFile(f); err != nil || !bytes.Equal(old, stream) {
				_ = os.WriteFile(f, stream, 0o644)
				// later than anything read before
				now := time.Now().Add(time.Duration(repo) * time.Second)
				_ = os.Chtimes(f, now, now)
			}
		}
		var names string
		var err error
		h.guard("index-panic", what, func() {
			var idx []NamedIndex
			idx, err = GetRepositoryIndexes(context.Background(), []string{u}, keys, "x86_64", opts...)
			names = v08names(idx)
		})
		h.eval("%s remote=%v keys=%d", what, remote, len(keys))
		return names, err
	}
	check := func(what string, stream []byte, keys map[string][]byte, want string, strict bool) {
		repo++
		r := fmt.Sprintf("r%d", repo)
		for _, remote := range []bool{false, true} {
			names, err := ask(what, stream, keys, remote, r)
			var kl []string
			for k := range keys {
				kl = append(kl, k)
			}
			sort.Strings(kl)
			in := fmt.Sprintf("%s; keys %v; remote %v; stream %x", what, kl, remote, stream)
			switch {
			case err != nil && names != "":
				h.fail("index-partial", in, "packages %q returned with an error", names)
			case err == nil && want == "":
				h.fail("index-unsigned-accepted", in, "accepted, packages %q", names)
			case err == nil && names != want:
				h.fail("index-unsigned-content", in, "packages %q, signed were %q", names, want)
			case err != nil && strict:
				h.fail("index-signed-rejected", in, "a correctly signed index was rejected: %v", err)
			}
		}
	}

	idx := v08index("a", "b")
	small := v08index("z")
	sigMember := func(name, sig string) []byte {
		return v08gz(v08tar([]v08entry{{name: name, body: sig}}, false))
	}
	cat := func(bs ...[]byte) []byte { return bytes.Join(bs, nil) }
	gs := good.sign(idx)
	for _, ks := range [][]string{{"good"}, {"good", "other"}, {"other", "garbage", "good"}, {"misnamed"}, {"nameclash", "misnamed"}, {"misnamed", "other"}} {
		check("signed", cat(sigMember(".SIGN.RSA.good.rsa.pub", gs), idx), key(ks...), "a,b", true)
	}
	for _, ks := range [][]string{{}, {"other"}, {"garbage"}, {"nameclash"}, {"other", "garbage"}} {
		check("signed by a key that is not configured", cat(sigMember(".SIGN.RSA.good.rsa.pub", gs), idx), key(ks...), "", false)
	}
	check("no keys at all", cat(sigMember(".SIGN.RSA.good.rsa.pub", gs), idx), nil, "", false)
	all := key("good", "other", "garbage")
	check("unsigned", idx, all, "", false)
	check("empty signature", cat(sigMember(".SIGN.RSA.good.rsa.pub", ""), idx), all, "", false)
	check("zero signature", cat(sigMember(".SIGN.RSA.good.rsa.pub", strings.Repeat("\x00", 128)), idx), all, "", false)
	check("evil signature", cat(sigMember(".SIGN.RSA.good.rsa.pub", evil.sign(idx)), idx), all, "", false)
	check("evil signature, evil name", cat(sigMember(".SIGN.RSA.evil.rsa.pub", evil.sign(idx)), idx), all, "", false)
	check("signature of other data", cat(sigMember(".SIGN.RSA.good.rsa.pub", good.sign(small)), idx), all, "", false)
	check("signature of uncompressed data", cat(sigMember(".SIGN.RSA.good.rsa.pub", good.sign([]byte("P:a\n"))), idx), all, "", false)
	check("signature over the whole stream start", cat(sigMember(".SIGN.RSA.good.rsa.pub", good.sign(cat(idx, small))), idx), all, "", false)
	check("wrong entry name", cat(sigMember("SIGN.RSA.good.rsa.pub", gs), idx), all, "", false)
	check("wrong entry suffix", cat(sigMember(".SIGN.RSA.good.rsa.pub.x", gs), idx), all, "", false)
	check("unsigned package after", cat(sigMember(".SIGN.RSA.good.rsa.pub", gs), idx, small), all, "", false)
	check("unsigned index before", cat(sigMember(".SIGN.RSA.good.rsa.pub", gs), small, idx), all, "", false)
	check("garbage after", cat(sigMember(".SIGN.RSA.good.rsa.pub", gs), idx, []byte("garbage")), all, "", false)
	check("trailing zero", cat(sigMember(".SIGN.RSA.good.rsa.pub", gs), idx, []byte{0}), all, "", false)
	check("truncated", cat(sigMember(".SIGN.RSA.good.rsa.pub", gs), idx[:len(idx)-4]), all, "", false)
	// unsigned content inside the member that carries the signature
	evilText := "P:evil\nV:9-r0\n\n"
	for i, ents := range [][]v08entry{
		{{name: ".SIGN.RSA.good.rsa.pub", body: gs}, {name: "APKINDEX", body: evilText}},
		{{name: ".SIGN.RSA.good.rsa.pub", body: gs}, {name: "DESCRIPTION", body: "evil"}},
		{{name: ".SIGN.RSA.good.rsa.pub", body: gs}, {name: "DESCRIPTION", body: "evil"}, {name: "APKINDEX", body: evilText}},
		{{name: "APKINDEX", body: evilText}, {name: ".SIGN.RSA.good.rsa.pub", body: gs}},
		{{name: ".SIGN.RSA.good.rsa.pub", body: gs}, {name: ".SIGN.RSA.other.rsa.pub", body: gs}},
		{{name: ".SIGN.RSA.good.rsa.pub", body: gs, pax: map[string]string{"APK.x": "y"}}, {name: "APKINDEX", body: evilText}},
	} {
		for _, eof := range []bool{false, true} {
			check(fmt.Sprintf("content beside the signature %d eof=%v", i, eof), cat(v08gz(v08tar(ents, eof)), idx), all, "a,b", false)
		}
	}
	for _, p := range []string{"DESCRIPTION", "OTHER", "APKINDEX"} {
		first := cat(v08tar([]v08entry{{name: ".SIGN.RSA.good.rsa.pub", body: gs}}, false), v08rawPax(p))
		check("dangling extended header renames to "+p, cat(v08gz(first), idx), all, "a,b", false)
	}
	// single byte changes anywhere in signature or index
	for i := 0; i < h.n(60) && h.more(); i++ {
		s := []byte(gs)
		x := append([]byte{}, idx...)
		if h.rnd.Intn(2) == 0 {
			s[h.rnd.Intn(len(s))] ^= byte(1 << h.rnd.Intn(8))
		} else {
			x[h.rnd.Intn(len(x))] ^= byte(1 << h.rnd.Intn(8))
		}
		check(fmt.Sprintf("flip %d", i), cat(sigMember(".SIGN.RSA.good.rsa.pub", string(s)), x), all, "", false)
	}

	// histories: what was read before must not weaken what is asked now
	type step struct {
		keys   map[string][]byte
		ignore int // 0 required, 1 ignoreSignatures, 2 this repository listed, 3 another repository listed
	}
	unsignedStream := idx
	signedStream := cat(sigMember(".SIGN.RSA.good.rsa.pub", gs), idx)
	wrongStream := cat(sigMember(".SIGN.RSA.good.rsa.pub", evil.sign(idx)), idx)
	for i := 0; i < h.n(120) && h.more(); i++ {
		repo++
		r := fmt.Sprintf("h%d", repo)
		remote := h.rnd.Intn(2) == 0
		stream, signedBy := unsignedStream, false
		switch h.rnd.Intn(3) {
		case 0:
			stream, signedBy = signedStream, true
		case 1:
			stream = wrongStream
		}
		hist := ""
		for s := 0; s < 2+h.rnd.Intn(3); s++ {
			st := step{keys: [](map[string][]byte){key("good"), key("other"), key("nameclash"), key("good", "other"), {}}[h.rnd.Intn(5)], ignore: h.rnd.Intn(4)}
			u := filepath.Join(root, r)
			if remote {
				u = "https://repo.test/" + r
			}
			var opts []IndexOption
			switch st.ignore {
			case 1:
				opts = append(opts, WithIgnoreSignatures(true))
			case 2:
				opts = append(opts, WithIgnoreSignatureForIndexes("https://elsewhere.test/x", u))
			case 3:
				opts = append(opts, WithIgnoreSignatureForIndexes("https://elsewhere.test/x", u+"x", filepath.Dir(u)))
			}
			trusted := false
			for _, k := range st.keys {
				trusted = trusted || bytes.Equal(k, good.pub)
			}
			hist += fmt.Sprintf("[keys %d trusted %v ignore %d]", len(st.keys), trusted, st.ignore)
			names, err := ask("history "+hist, stream, st.keys, remote, r, opts...)
			in := fmt.Sprintf("remote %v signed %v history %s", remote, signedBy, hist)
			req := st.ignore == 0 || st.ignore == 3
			if req && !(signedBy && trusted) && err == nil {
				h.fail("index-history", in, "an index that no configured key signed was accepted: %q", names)
			}
			if req && signedBy && trusted && (err != nil || names != "a,b") {
				h.fail("index-history-lost", in, "a correctly signed index gave %q, %v", names, err)
			}
			if !req && (err != nil || names != "a,b") {
				h.fail("index-history-ignore", in, "ignoring signatures gave %q, %v", names, err)
			}
		}
	}
}
