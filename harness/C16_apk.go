package apk

// pkg: pkg/apk
// Oracle: the bytes the server holds, and the offsets its replies declare.

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"testing"
)

var errV16 = errors.New("connection reset by peer")

// v16body delivers data in pieces and then ends in a chosen way.
type v16body struct {
	data   []byte
	piece  int
	end    error // nil: io.EOF
	with   bool  // deliver the last piece together with the error
	closed bool
}

func (b *v16body) Read(p []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http: read on closed response body")
	}
	end := b.end
	if end == nil {
		end = io.EOF
	}
	n := min(len(p), len(b.data), b.piece)
	copy(p, b.data[:n])
	b.data = b.data[n:]
	if n == 0 && len(p) > 0 || len(b.data) == 0 && b.with {
		return n, end
	}
	return n, nil
}
func (b *v16body) Close() error { b.closed = true; return nil }

// v16net answers by script; each step says how far the reply gets before it breaks.
type v16net struct {
	data  []byte
	steps []string
	cuts  []int
	piece int
	with  bool
	n     int
	log   []string
}

func (t *v16net) RoundTrip(r *http.Request) (*http.Response, error) {
	step, cut := "ok", 1<<30
	if t.n < len(t.steps) {
		step, cut = t.steps[t.n], t.cuts[t.n]
	}
	t.n++
	rg := r.Header.Get("Range")
	from := 0
	if strings.HasPrefix(rg, "bytes=") {
		_, _ = fmt.Sscanf(rg, "bytes=%d-", &from)
	}
	t.log = append(t.log, rg+":"+step)
	resp := &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Request: r, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	body := t.data
	part := func(at int) {
		at = max(0, min(at, len(t.data)))
		resp.StatusCode = 206
		resp.Header.Set("Content-Range", fmt.Sprintf("bytes %d-%d/%d", at, len(t.data)-1, len(t.data)))
		body = t.data[at:]
	}
	switch step {
	case "error":
		return nil, errV16
	case "eof":
		return nil, io.EOF
	case "ok":
		if rg != "" {
			part(from)
		}
	case "bare": // a partial reply that does not say where it starts, and starts where asked
		if rg != "" {
			part(from)
			resp.Header.Del("Content-Range")
		}
	case "full": // ranges not supported
	case "short": // ranges not supported, and less than before
		body = body[:len(body)/4]
		if from <= len(body) {
			resp.StatusCode = 500 // would be another resource altogether
		}
	case "early":
		if rg != "" {
			part(from - 1 - len(t.data)/7)
		}
	case "late":
		if rg != "" {
			part(from + 1 + len(t.data)/9)
		}
	case "zero":
		if rg != "" {
			part(0)
		}
	case "500":
		resp.StatusCode = 500
		body = []byte("internal error")
	case "416":
		resp.StatusCode = 416
		body = nil
	case "nobody":
		resp.Body = http.NoBody
		return resp, nil
	}
	resp.ContentLength = int64(len(body))
	b := &v16body{data: body, piece: t.piece, with: t.with}
	if cut < len(body) {
		b.data = body[:cut]
		b.end = errV16
		if cut%3 == 0 {
			b.end = io.ErrUnexpectedEOF
		}
	}
	resp.Body = b
	return resp, nil
}

func TestVerifC16(t *testing.T) {
	h := vhStart(t)
	defer h.done()
	steps := []string{"ok", "ok", "ok", "full", "bare", "early", "late", "zero", "500", "416", "nobody", "error", "eof", "short"}
	run := func(size int, script []string, cuts []int, piece, buf int, with bool) {
		data := make([]byte, size)
		for i := range data {
			data[i] = byte(i*7 + i/251*13)
		}
		n := &v16net{data: data, steps: script, cuts: cuts, piece: piece, with: with}
		in := fmt.Sprintf("%d bytes, replies %v broken after %v bytes, pieces of %d, buffer %d, data with the error %v", size, script, cuts, piece, buf, with)
		h.eval("%s", in)
		h.guard("panic", in, func() {
			rt := newRangeRetryTransport(context.Background(), &http.Client{Transport: n})
			req, err := http.NewRequest(http.MethodGet, "https://h.example/x.apk", nil)
			if err != nil {
				return
			}
			resp, err := rt.RoundTrip(req)
			if err != nil || resp.StatusCode != 200 {
				return
			}
			first := script[0]
			want := data
			if first == "nobody" {
				want = nil
			}
			var got []byte
			p := make([]byte, buf)
			complete := false
			for i := 0; i < 4*size+64; i++ {
				for k := range p {
					p[k] = 0xEE
				}
				m, err := resp.Body.Read(p)
				if m < 0 || m > len(p) {
					h.fail("count", in, "Read returned %d for a buffer of %d", m, len(p))
					return
				}
				got = append(got, p[:m]...)
				if !bytes.HasPrefix(want, got) {
					h.fail("bytes", in, "%d bytes delivered are not the first %d bytes of the resource (requests %v)", len(got), len(got), n.log)
					return
				}
				if errors.Is(err, io.EOF) {
					complete = true
					break
				}
				if err != nil {
					break
				}
			}
			if complete && len(got) != len(want) {
				h.fail("short", in, "the stream ended after %d of %d bytes as if complete (requests %v)", len(got), len(want), n.log)
			}
			if !complete {
				// one more read must not invent anything either
				m, err := resp.Body.Read(p)
				got = append(got, p[:m]...)
				if !bytes.HasPrefix(want, got) || errors.Is(err, io.EOF) && len(got) != len(want) {
					h.fail("after", in, "reading on after an error delivered %d bytes (end %v) that do not continue the %d before (requests %v)", m, err, len(got)-m, n.log)
				}
			}
			// all replies usable: the download must succeed
			usable := true
			for i, s := range script {
				if s != "ok" && s != "full" && s != "bare" || i > 0 && cuts[i] < size {
					usable = false
				}
			}
			if usable && len(script) <= 2 && !complete {
				h.fail("gave-up", in, "the download failed after %d of %d bytes although every reply was usable (requests %v)", len(got), size, n.log)
			}
			resp.Body.Close()
		})
	}
	// every two-reply script at every kind of break
	for _, s := range steps {
		for _, size := range []int{1, 10, 97} {
			for _, cut := range []int{0, 1, size / 2, size - 1, size} {
				for _, with := range []bool{false, true} {
					if h.more() {
						run(size, []string{"ok", s}, []int{cut, 1 << 30}, 7, 16, with)
					}
				}
			}
		}
	}
	for i := 0; i < h.n(12000) && h.more(); i++ {
		size := 1 + h.rnd.Intn(120)
		k := 1 + h.rnd.Intn(5)
		script := []string{h.pick("ok", "full", "ok", "full", "nobody")}
		cuts := []int{h.rnd.Intn(size + 2)}
		for j := 1; j < k; j++ {
			script = append(script, steps[h.rnd.Intn(len(steps))])
			cuts = append(cuts, h.rnd.Intn(size+2))
		}
		for j := range cuts {
			if h.rnd.Intn(4) == 0 {
				cuts[j] = 1 << 30
			}
		}
		run(size, script, cuts, 1+h.rnd.Intn(40), 1+h.rnd.Intn(64), h.rnd.Intn(2) == 0)
	}
}
