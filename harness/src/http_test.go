package src

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"context"
	"crypto/md5"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/patcher"

	"vh/gen"
	"vh/mon"
)

// server speaks HTTP over raw connections so that it can misbehave at any level.
type server struct {
	l       net.Listener
	mu      sync.Mutex
	reqs    []*http.Request
	handle  func(r *http.Request, start, end int64) raw
	wg      sync.WaitGroup
	conns   map[net.Conn]bool
	stopped bool
	flooded int // clients that swallowed a whole flood
}

// raw is what is sent; close tells to cut the connection afterwards (hard: with a reset).
type raw struct {
	bytes []byte
	close bool
	hard  bool
	bad   bool // anything but the requested bytes as partial content of exactly that length
	kind  string
	more  []byte // sent over and over after bytes, until the client goes away or flood bytes are gone
}

// flood stands for "for ever": a client that takes this much more than it asked for has no bound.
const flood = 64 << 20

func newServer(handle func(r *http.Request, start, end int64) raw) *server {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	s := &server{l: l, handle: handle, conns: map[net.Conn]bool{}}
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns[c] = true
			if s.stopped {
				c.Close()
			}
			s.mu.Unlock()
			s.wg.Add(1)
			go s.serve(c)
		}
	}()
	return s
}

func (s *server) url() string { return "http://" + s.l.Addr().String() + "/file.bin" }

func (s *server) stop() {
	s.l.Close()
	s.mu.Lock()
	s.stopped = true
	for c := range s.conns {
		c.Close()
	}
	s.mu.Unlock()
	s.wg.Wait()
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
}

func (s *server) serve(c net.Conn) {
	defer s.wg.Done()
	defer func() {
		c.Close()
		s.mu.Lock()
		delete(s.conns, c)
		s.mu.Unlock()
	}()
	br := bufio.NewReader(c)
	for {
		r, err := http.ReadRequest(br)
		if err != nil {
			return
		}
		var a, b int64
		_, err = fmt.Sscanf(r.Header.Get("Range"), "bytes=%d-%d", &a, &b)
		if err != nil || fmt.Sprintf("bytes=%d-%d", a, b) != r.Header.Get("Range") {
			a, b = -1, -2
		}
		s.mu.Lock()
		s.reqs = append(s.reqs, r)
		s.mu.Unlock()
		out := s.handle(r, a, b+1)
		if _, err := c.Write(out.bytes); err != nil {
			return
		}
		for sent := 0; out.more != nil; sent += len(out.more) {
			if sent >= flood {
				s.mu.Lock()
				s.flooded++
				s.mu.Unlock()
				return
			}
			if _, err := c.Write(out.more); err != nil {
				return
			}
		}
		if out.close {
			if out.hard {
				c.(*net.TCPConn).SetLinger(0)
			}
			return
		}
	}
}

func (s *server) checkFlood(c *mon.Case, desc string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.flooded > 0 {
		c.Violate("the client took all the %d bytes of a body that does not end: %s", flood, desc)
	}
}

func response(status string, header []string, body []byte, contentLength int) []byte {
	var b bytes.Buffer
	fmt.Fprintf(&b, "HTTP/1.1 %s\r\n", status)
	for _, h := range header {
		fmt.Fprintf(&b, "%s\r\n", h)
	}
	if contentLength >= 0 {
		fmt.Fprintf(&b, "Content-Length: %d\r\n", contentLength)
	}
	b.WriteString("\r\n")
	b.Write(body)
	return b.Bytes()
}

func chunked(parts ...[]byte) []byte {
	var b bytes.Buffer
	for _, p := range parts {
		if len(p) > 0 {
			fmt.Fprintf(&b, "%x\r\n%s\r\n", len(p), p)
		}
	}
	return b.Bytes()
}

const partial = "206 Partial Content"

var behaviours = []string{
	"honest", "honest", "honest-chunked", "honest-close", "honest-slow", "honest-identity", "honest-redirect", "status-any", "status-any", "redirect-status",
	"404", "404-body", "200-full", "200-range", "416", "500", "503", "403", "204", "206x", "301-nowhere", "302-404", "201",
	"gzip", "gzip-samelen", "x-gzip", "GZIP", "gzip-second", "gzip-multi",
	"short", "short-byte", "empty", "long", "long-byte", "short-declared", "long-declared", "cut-header", "cut-body", "reset-body",
	"close", "reset", "garbage", "chunked-cut", "chunked-long", "chunked-short", "short-http10", "bad-length",
	"endless", "endless-chunked", "endless-declared",
}

func (x *c04) behave(kind string, s, e int64) raw {
	r := x.c.R
	if s < 0 || e <= s || e-s > 1<<28 {
		return raw{bytes: response("416 Range Not Satisfiable", nil, nil, 0), bad: true, kind: "416"}
	}
	data := content(s, e)
	n := len(data)
	cr := fmt.Sprintf("Content-Range: bytes %d-%d/%d", s, e-1, x.size)
	h := []string{cr}
	ok := func(b []byte) raw { return raw{bytes: b, kind: kind} }
	bad := func(b []byte) raw { return raw{bytes: b, bad: true, kind: kind} }
	gz := func() []byte {
		var b bytes.Buffer
		w := gzip.NewWriter(&b)
		w.Write(data)
		w.Close()
		return b.Bytes()
	}
	switch kind {
	case "honest":
		return ok(response(partial, h, data, n))
	case "honest-chunked":
		k := r.IntN(n + 1)
		return ok(append(response(partial, append(h, "Transfer-Encoding: chunked"), nil, -1), append(chunked(data[:k], data[k:]), "0\r\n\r\n"...)...))
	case "honest-close":
		out := ok(response(partial, append(h, "Connection: close"), data, -1))
		out.close = true
		return out
	case "honest-slow":
		time.Sleep(time.Duration(r.IntN(3)) * time.Millisecond)
		return ok(response(partial, h, data, n))
	case "honest-identity":
		return ok(response(partial, append(h, "Content-Encoding: identity"), data, n))
	case "honest-redirect":
		return ok(response(mon.Choose(r, "301 Moved", "302 Found", "307 Temporary Redirect", "308 Permanent Redirect"), []string{"Location: /moved.bin"}, nil, 0))
	case "redirect-status":
		return bad(response("302 Found", []string{"Location: /other.bin"}, nil, 0))
	case "status-any":
		code := mon.Choose(r, 300, 305, mon.Range(r, 200, 299), mon.Range(r, 400, 599))
		for code == 204 || code == 205 || code == 206 || code == 404 {
			code++
		}
		return bad(response(fmt.Sprintf("%d Status", code), h, data, n))
	case "404":
		return bad(response("404 Not Found", nil, nil, 0))
	case "404-body":
		return bad(response("404 Not Found", h, data, n))
	case "200-full":
		full := content(0, min(x.size, 1<<16))
		return bad(response("200 OK", nil, full, len(full)))
	case "200-range":
		return bad(response("200 OK", h, data, n))
	case "416":
		return bad(response("416 Range Not Satisfiable", nil, data, n))
	case "500":
		return bad(response("500 Internal Server Error", h, data, n))
	case "503":
		return bad(response("503 Service Unavailable", h, data, n))
	case "403":
		return bad(response("403 Forbidden", h, data, n))
	case "204":
		return bad(response("204 No Content", nil, nil, -1))
	case "201":
		return bad(response("201 Created", h, data, n))
	case "206x": // another status beginning with the same digits
		return bad(response("207 Multi-Status", h, data, n))
	case "301-nowhere":
		return bad(response("301 Moved Permanently", h, data, n))
	case "302-404":
		return bad(response("302 Found", []string{"Location: /missing"}, nil, 0))
	case "gzip":
		z := gz()
		return bad(response(partial, append(h, "Content-Encoding: gzip"), z, len(z)))
	case "gzip-samelen":
		return bad(response(partial, append(h, "Content-Encoding: gzip"), data, n))
	case "x-gzip":
		return bad(response(partial, append(h, "Content-Encoding: x-gzip"), data, n))
	case "GZIP":
		return bad(response(partial, append(h, "Content-Encoding: GZip"), data, n))
	case "gzip-second":
		return bad(response(partial, append(h, "Content-Encoding: identity", "Content-Encoding: gzip"), data, n))
	case "gzip-multi":
		return bad(response(partial, append(h, "content-encoding: identity, gzip"), data, n))
	case "short":
		k := r.IntN(n)
		return bad(response(partial, h, data[:k], k))
	case "short-byte":
		return bad(response(partial, h, data[:n-1], n-1))
	case "empty":
		return bad(response(partial, h, nil, 0))
	case "long":
		d := append(bytes.Clone(data), gen.Random(r, 1+r.IntN(2*n))...)
		return bad(response(partial, h, d, len(d)))
	case "long-byte":
		d := append(bytes.Clone(data), 0)
		return bad(response(partial, h, d, len(d)))
	case "short-declared": // fewer bytes arrive than announced
		out := bad(response(partial, h, data[:r.IntN(n)], n))
		out.close = true
		return out
	case "long-declared":
		out := bad(response(partial, h, data, n+1+r.IntN(10)))
		out.close = true
		return out
	case "cut-header":
		b := response(partial, h, nil, n)
		out := bad(b[:r.IntN(len(b)-2)])
		out.close = true
		return out
	case "cut-body", "reset-body":
		b := response(partial, h, data[:n-1], n)
		out := bad(b)
		out.close, out.hard = true, kind == "reset-body"
		return out
	case "close", "reset":
		return raw{close: true, hard: kind == "reset", bad: true, kind: kind}
	case "garbage":
		out := bad(gen.Random(r, 1+r.IntN(300)))
		out.close = true
		return out
	case "chunked-cut":
		out := bad(append(response(partial, append(h, "Transfer-Encoding: chunked"), nil, -1), chunked(data)...))
		out.close = true
		return out
	case "chunked-long":
		return bad(append(response(partial, append(h, "Transfer-Encoding: chunked"), nil, -1), append(chunked(data, []byte("x")), "0\r\n\r\n"...)...))
	case "chunked-short":
		return bad(append(response(partial, append(h, "Transfer-Encoding: chunked"), nil, -1), append(chunked(data[:n-1]), "0\r\n\r\n"...)...))
	case "short-http10": // no length: the end of the connection ends the body
		b := response(partial, append(h, "Connection: close"), data[:n-1], -1)
		out := bad(bytes.Replace(b, []byte("HTTP/1.1"), []byte("HTTP/1.0"), 1))
		out.close = true
		return out
	case "bad-length":
		out := bad(response(partial, append(h, fmt.Sprintf("Content-Length: %d", n+1)), data, n))
		out.close = true
		return out
	case "endless": // no length: the body goes on until the connection ends, which it does not
		out := bad(response(partial, append(h, "Connection: close"), data, -1))
		out.more = make([]byte, 1<<18)
		return out
	case "endless-chunked":
		out := bad(append(response(partial, append(h, "Transfer-Encoding: chunked"), nil, -1), chunked(data)...))
		out.more = chunked(make([]byte, 1<<18))
		return out
	case "endless-declared":
		out := bad(append(response(partial, append(h, "Content-Length: 4611686018427387904"), nil, -1), data...))
		out.more = make([]byte, 1<<18)
		return out
	}
	panic(kind)
}

// documented tells whether the error is of the type that the package documents for this kind of answer.
// Everything else may be reported in any way.
func documented(kind, url string, err error) bool {
	var missing blocksources.URLNotFoundError
	is404 := errors.As(err, &missing)
	switch kind {
	case "404", "404-body", "302-404":
		return is404 && strings.Contains(err.Error(), url)
	case "200-full", "200-range", "416", "500", "503", "403", "204", "206x", "201", "status-any", "redirect-status":
		return errors.Is(err, blocksources.RangedRequestNotSupportedError)
	case "gzip", "gzip-samelen", "x-gzip", "GZIP", "gzip-second", "gzip-multi":
		return errors.Is(err, blocksources.ResponseFromServerWasGZiped)
	}
	return !is404 && !errors.Is(err, blocksources.ResponseFromServerWasGZiped)
}

type c04 struct {
	c    *mon.Case
	size int64
}

func encodingOK(hs []string) bool {
	v := strings.ToLower(strings.ReplaceAll(strings.Join(hs, ","), " ", ""))
	if !strings.Contains(v, "identity") {
		return false
	}
	for _, p := range strings.Split(v, ",") {
		if !strings.HasPrefix(p, "identity") && !strings.Contains(p, ";q=0") {
			return false
		}
	}
	return true
}

func c04case(c *mon.Case, kind string, big, large bool) {
	r := c.R
	bs := int64(gen.BlockSize(r, 131072))
	if r.IntN(6) == 0 {
		bs = int64(mon.Range(r, 1, 3))
	}
	x := &c04{c: c}
	nblocks := int64(mon.Range(r, 1, 50))
	if big {
		nblocks = (mon.Choose[int64](r, 1<<31, 1<<32, 1<<33, 1<<40) + r.Int64N(1<<20)) / bs
	}
	x.size = nblocks*bs - r.Int64N(bs)
	known := r.IntN(5) != 0
	res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs)}
	if known {
		res.FileSize = x.size
	}
	var seen []string
	srv := newServer(func(rq *http.Request, s, e int64) raw {
		switch rq.URL.Path {
		case "/moved.bin":
			return x.behave("honest", s, e)
		case "/other.bin":
			return x.behave("status-any", s, e)
		case "/file.bin":
			return x.behave(kind, s, e)
		}
		return raw{bytes: response("404 Not Found", nil, nil, 0), bad: true}
	})
	defer srv.stop()
	src := blocksources.NewHttpBlockSource(srv.url(), 1, res, nil)
	defer func() {
		src.Close()
		for range src.GetResultChannel() {
			c.Violate("something was delivered after the end: %s", kind)
		}
	}()
	nreq := mon.Range(r, 1, 3)
	if large {
		nreq = 1
	}
	desc := ""
	for i := 0; i < nreq; i++ {
		n := min(nblocks, int64(mon.Range(r, 1, max(1, int(300000/bs)))))
		if r.IntN(3) == 0 {
			n = 1
		}
		if large {
			n = min(nblocks, (1<<mon.Range(r, 24, mon.Choose(r, 24, 25, 26, 27))+r.Int64N(1<<20)+bs-1)/bs)
		}
		a := r.Int64N(nblocks - n + 1)
		if r.IntN(3) == 0 {
			a = nblocks - n
		}
		s, e := a*bs, (a+n)*bs
		if known {
			e = min(e, x.size)
		}
		desc = fmt.Sprintf("%s: blocks %d-%d of %d, bs=%d, size=%d known=%v", kind, a, a+n-1, nblocks, bs, x.size, known)
		srv.mu.Lock()
		srv.reqs = nil
		srv.mu.Unlock()
		if err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(a), EndBlock: uint(a + n - 1), BlockSize: bs}); err != nil {
			c.Violate("request: %v: %s", err, desc)
			return
		}
		var got *patcher.BlockReponse
		var gotErr error
		select {
		case x, ok := <-src.GetResultChannel():
			if ok {
				got = &x
			}
		case gotErr = <-src.EncounteredError():
		}
		srv.mu.Lock()
		want := fmt.Sprintf("bytes=%d-%d", s, e-1)
		seen = seen[:0]
		for _, q := range srv.reqs {
			seen = append(seen, q.Header.Get("Range"))
			if q.Method != "GET" || len(q.Header["Range"]) != 1 || q.Header.Get("Range") != want {
				c.Violate("the server was asked %s with Range %q, want %q: %s", q.Method, q.Header["Range"], want, desc)
			}
			if !encodingOK(q.Header["Accept-Encoding"]) {
				c.Violate("the server may compress: Accept-Encoding %q: %s", q.Header["Accept-Encoding"], desc)
			}
		}
		srv.mu.Unlock()
		c.Count("requests_seen", len(seen))
		srv.checkFlood(c, desc)
		if len(seen) == 0 {
			c.Violate("the server was not asked (result %v, error %v): %s", got != nil, gotErr, desc)
			return
		}
		honest := strings.HasPrefix(kind, "honest")
		if honest {
			if got == nil {
				c.Violate("an honest response gave error %v: %s", gotErr, desc)
				return
			}
			if wantData := content(s, e); got.StartBlock != uint(a) || !bytes.Equal(got.Data, wantData) {
				c.Violate("wrong data delivered at block %d: %s: %s", got.StartBlock, mon.FirstDiff(got.Data, wantData), desc)
			}
			c.Count("fetched", 1)
		} else {
			if got != nil {
				c.Violate("%d bytes were delivered though the response was bad: %s", len(got.Data), desc)
			} else if gotErr == nil {
				c.Violate("the bad response ended without an error: %s", desc)
			} else if !documented(kind, srv.url(), gotErr) {
				c.Violate("the bad response was reported as %T %q: %s", gotErr, gotErr, desc)
			}
			c.Count("bad_responses_reported", 1)
			c.Count("reported_"+kind, 1)
			break
		}
	}
	c.Sig(desc)
	c.Sample(desc)
}

// pipes is a listener within the process.
type pipes struct {
	conns chan net.Conn
	over  chan bool
}

type pipeAddr struct{}

func (pipeAddr) Network() string { return "pipe" }
func (pipeAddr) String() string  { return "127.0.0.1:1" }

func (p *pipes) Addr() net.Addr { return pipeAddr{} }
func (p *pipes) Close() error   { close(p.over); return nil }
func (p *pipes) Accept() (net.Conn, error) {
	select {
	case c := <-p.conns:
		return c, nil
	case <-p.over:
		return nil, net.ErrClosed
	}
}

func (p *pipes) dial(ctx context.Context, _, _ string) (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case p.conns <- a:
		return b, nil
	case <-p.over:
	case <-ctx.Done():
	}
	return nil, errors.New("nobody listens")
}

// c04slow fetches from an honest server that takes up to hours to answer and to send everything. Time is that of a
// bubble. A client that does not use the default transport meets the same server on a real connection, and swift.
func c04slow(c *mon.Case, swift string) {
	r := c.R
	bs := int64(mon.Range(r, 1, 2000))
	nblocks := int64(mon.Range(r, 1, 60))
	size := nblocks*bs - r.Int64N(bs)
	one := mon.Choose(r, time.Second, 20*time.Second, 2*time.Minute, 15*time.Minute)
	conc := mon.Range(r, 1, 4)
	key := r.Uint64() | 1
	desc := fmt.Sprintf("%d blocks of %d, %d at once, about %v", nblocks, bs, conc, one)
	was := http.DefaultTransport
	defer func() { http.DefaultTransport = was }()
	bubble(c, func() {
		p := &pipes{make(chan net.Conn), make(chan bool)}
		var n, asked atomic.Int64
		sleep := func() {
			x := (uint64(n.Add(1)) + 5) * key
			x ^= x >> 31
			if x *= 0x9e3779b97f4a7c15; x>>60%3 == 0 {
				time.Sleep(time.Duration(x>>32%1000) * one / 250)
			}
		}
		srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
			asked.Add(1)
			w.Header().Set("Connection", "close")
			sleep()
			slowContent(w, q, sleep)
		})}
		done := make(chan bool)
		go func() { srv.Serve(p); close(done) }()
		tr := &http.Transport{DialContext: p.dial, DisableCompression: was.(*http.Transport).DisableCompression}
		http.DefaultTransport = tr
		start := time.Now()
		src := blocksources.NewHttpBlockSource(fmt.Sprintf("%s/%d", swift, size), conc, &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs), FileSize: size}, nil)
		for b := int64(0); b < nblocks; {
			n := min(nblocks-b, 1+r.Int64N(20))
			if err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(b), EndBlock: uint(b + n - 1), BlockSize: bs}); err != nil {
				c.Violate("request: %v: %s", err, desc)
				break
			}
			b += n
			if b < nblocks && r.IntN(2) == 0 {
				continue // this one waits while others are delivered
			}
			for left := true; left && !c.Failed(); {
				select {
				case x := <-src.GetResultChannel():
					from := int64(x.StartBlock) * bs
					if to := from + int64(len(x.Data)); !bytes.Equal(x.Data, content(from, to)) {
						c.Violate("wrong data from block %d: %s", x.StartBlock, desc)
					} else {
						left = to < min(b*bs, size)
					}
					c.Count("fetched", 1)
				case err := <-src.EncounteredError():
					c.Violate("a slow server gave error %v after %v: %s", err, time.Since(start), desc)
				}
			}
			if c.Failed() {
				break
			}
		}
		src.Close()
		for range src.GetResultChannel() {
		}
		c.Count("minutes_waited", int(time.Since(start)/time.Minute))
		c.Count("slow_requests", int(asked.Load()))
		tr.CloseIdleConnections()
		srv.Close()
		<-done
		time.Sleep(48 * time.Hour) // until every handler has ended
	})
	c.Sig(desc)
}

// c04patient is the same on real connections, for clients with transports of their own, where a minute takes one.
func c04patient(c *mon.Case) {
	const bs, size = 1000, 29500
	var wg sync.WaitGroup
	for _, how := range []string{"a late header", "a break in the body", "a slow body"} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := 0
			sleep := func() {
				switch n++; {
				case n == 1 && how == "a late header", n == 2 && how == "a break in the body":
					time.Sleep(65 * time.Second)
				case n > 1 && n < 4 && how == "a slow body":
					time.Sleep(22 * time.Second)
				}
			}
			srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				sleep()
				slowContent(w, q, sleep)
			}))
			defer srv.Close()
			src := blocksources.NewHttpBlockSource(fmt.Sprintf("%s/%d", srv.URL, size), 1, &blocksources.FixedSizeBlockResolver{BlockSize: bs, FileSize: size}, nil)
			if err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 0, EndBlock: 29, BlockSize: bs}); err != nil {
				c.Violate("request: %v", err)
				return
			}
			select {
			case x := <-src.GetResultChannel():
				if !bytes.Equal(x.Data, content(0, size)) {
					c.Violate("wrong data after %s", how)
				}
				c.Count("fetched", 1)
			case err := <-src.EncounteredError():
				c.Violate("%s gave error %v", how, err)
			}
			src.Close()
			for range src.GetResultChannel() {
			}
		}()
	}
	wg.Wait()
	c.Sig("patient")
}

// slowContent answers a range request for content of the size that the path names.
func slowContent(w http.ResponseWriter, q *http.Request, sleep func()) {
	var size, s, e int64
	fmt.Sscanf(q.URL.Path, "/%d", &size)
	if k, _ := fmt.Sscanf(q.Header.Get("Range"), "bytes=%d-%d", &s, &e); k != 2 || s > e || e >= size {
		http.Error(w, "what?", 416)
		return
	}
	w.Header().Set("Content-Length", fmt.Sprint(e-s+1))
	w.WriteHeader(206)
	for s <= e {
		k := min(e-s+1, max(1, (e-s+1)/3))
		if _, err := w.Write(content(s, s+k)); err != nil {
			return
		}
		s += k
		w.(http.Flusher).Flush()
		sleep()
	}
}

func TestC04(t *testing.T) {
	n := len(behaviours)
	swift := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		w.Header().Set("Connection", "close")
		slowContent(w, q, func() {})
	}))
	defer swift.Close()
	mon.Run(t, "C04",
		mon.Group{Name: "each", Quick: n * 30, Thorough: n * 800, Fn: func(c *mon.Case) { c04case(c, behaviours[c.I%n], false, false) }},
		mon.Group{Name: "big", Quick: n * 10, Thorough: n * 300, Fn: func(c *mon.Case) { c04case(c, behaviours[c.I%n], true, false) }},
		mon.Group{Name: "large", Quick: 10, Thorough: 400, Fn: func(c *mon.Case) {
			c04case(c, []string{"honest", "honest-chunked", "short-byte", "honest-close", "long-byte"}[c.I%5], true, true)
		}},
		mon.Group{Name: "mixed", Quick: 200, Thorough: 6000, Fn: c04mixed},
		mon.Group{Name: "patient", Quick: 1, Thorough: 1, Stuck: 300, Fn: c04patient},
		mon.Group{Name: "slow", Quick: 400, Thorough: 20000, Fn: func(c *mon.Case) { c04slow(c, swift.URL) }},
		mon.Group{Name: "down", Quick: 40, Thorough: 400, Fn: func(c *mon.Case) {
			l, _ := net.Listen("tcp", "127.0.0.1:0")
			addr := l.Addr().String()
			l.Close()
			url := mon.Choose(c.R, "http://"+addr+"/x", "http://127.0.0.1:1/x", "nonsense://host/x", "/no/such/file", "http://%zz/", "http://"+addr+"/\x7f", "")
			src := blocksources.NewHttpBlockSource(url, 1, blocksources.MakeNullFixedSizeResolver(4), nil)
			src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 0, EndBlock: 3, BlockSize: 4})
			select {
			case x, ok := <-src.GetResultChannel():
				c.Violate("delivery (%v, %v) without a server at %q", x, ok, url)
			case err := <-src.EncounteredError():
				if err == nil {
					c.Violate("no error without a server at %q", url)
				}
				c.Count("bad_responses_reported", 1)
			}
			src.Close()
			c.Sig("down", url)
		}},
	)
}

// c04mixed has several fetches under way; each delivered range must be exact, the first bad one is an error.
func c04mixed(c *mon.Case) {
	r := c.R
	bs := int64(mon.Choose(r, 1, 7, 64, 1000, 8192))
	nblocks := int64(mon.Range(r, 5, 40))
	x := &c04{c: c, size: nblocks*bs - r.Int64N(bs)}
	badBlock := int64(-1)
	kind := behaviours[r.IntN(len(behaviours))]
	if !strings.HasPrefix(kind, "honest") {
		badBlock = r.Int64N(nblocks)
	}
	var mu sync.Mutex // the case's random source
	srv := newServer(func(rq *http.Request, s, e int64) raw {
		mu.Lock()
		defer mu.Unlock()
		switch rq.URL.Path {
		case "/moved.bin":
			return x.behave("honest", s, e)
		case "/other.bin":
			return x.behave("status-any", s, e)
		case "/file.bin":
		default:
			return raw{bytes: response("404 Not Found", nil, nil, 0)}
		}
		if badBlock >= 0 && s <= badBlock*bs && badBlock*bs < e {
			return x.behave(kind, s, e)
		}
		return x.behave("honest", s, e)
	})
	defer srv.stop()
	src := blocksources.NewHttpBlockSource(srv.url(), mon.Range(r, 1, 6), &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs), FileSize: x.size, MaxDesiredRequestSize: uint64(bs) * uint64(mon.Range(r, 1, 3))}, nil)
	defer src.Close()
	mu.Lock()
	a := r.Int64N(nblocks)
	b := a + r.Int64N(nblocks-a)
	mu.Unlock()
	desc := fmt.Sprintf("%s at %d, blocks %d-%d of %d, bs=%d size=%d", kind, badBlock, a, b, nblocks, bs, x.size)
	src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: uint(a), EndBlock: uint(b), BlockSize: bs})
	hits := badBlock >= a && badBlock <= b
	next := uint(a)
	held := map[int64][]byte{}
	for next <= uint(b) {
		select {
		case d := <-src.GetResultChannel():
			s := int64(d.StartBlock) * bs
			e := s + int64(len(d.Data))
			if len(d.Data) == 0 || e > x.size || !bytes.Equal(d.Data, content(s, e)) {
				c.Violate("wrong data (%d bytes) for block %d: %s", len(d.Data), d.StartBlock, desc)
				return
			}
			if hits && s <= badBlock*bs && badBlock*bs < e {
				c.Violate("the bad response was delivered: %s", desc)
				return
			}
			if d.StartBlock != next {
				c.Violate("block %d was delivered, want %d: %s", d.StartBlock, next, desc)
				return
			}
			held[s] = d.Data
			next += uint((int64(len(d.Data)) + bs - 1) / bs)
			c.Count("fetched", 1)
		case err := <-src.EncounteredError():
			if !hits || err == nil {
				c.Violate("error %v, though every response was good: %s", err, desc)
			} else if !documented(kind, srv.url(), err) {
				c.Violate("the bad response was reported as %T %q: %s", err, err, desc)
			}
			c.Count("bad_responses_reported", 1)
			next = uint(b) + 2
		}
	}
	srv.checkFlood(c, desc)
	for s, d := range held {
		if !bytes.Equal(d, content(s, s+int64(len(d)))) {
			c.Violate("the data delivered for offset %d changed afterwards: %s", s, desc)
			break
		}
	}
	if hits && next == uint(b)+1 {
		c.Violate("everything was delivered despite the bad response: %s", desc)
	}
	c.Sig(desc)
}

// ---------------------------------------------------------------------------------------------------
// C03 over HTTP and through a whole patch

func c03http(c *mon.Case) {
	r := c.R
	x := newRef03(r, 5000, 30000)
	x.h = md5.New
	x.lk = &lookup{}
	for _, b := range gen.Blocks(x.data, x.bs) {
		x.lk.sums = append(x.lk.sums, sum(x.h, b))
	}
	var mu sync.Mutex
	sentBad := false
	kinds := ""
	badFrom := r.IntN(4)
	n := 0
	srv := newServer(func(rq *http.Request, s, e int64) raw {
		mu.Lock()
		defer mu.Unlock()
		a, b := uint(s/int64(x.bs)), uint((e-1)/int64(x.bs))
		d, kind := bytes.Clone(x.data[s:e]), "none"
		if n++; n > badFrom {
			d, kind = x.corrupt(r, a, b)
		}
		if !bytes.Equal(d, x.data[s:e]) {
			sentBad = true
		}
		kinds += kind + " "
		c.Count("responses_"+kind, 1)
		return raw{bytes: response(partial, nil, d, len(d))}
	})
	defer srv.stop()
	res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(x.bs), FileSize: int64(len(x.data)), MaxDesiredRequestSize: uint64(x.bs * mon.Range(r, 1, 3))}
	src := blocksources.NewHttpBlockSource(srv.url(), mon.Range(r, 1, 4), res, &filechecksum.HashVerifier{BlockSize: uint(x.bs), Hash: md5.New(), BlockChecksumGetter: x.lk})
	defer src.Close()
	desc := fmt.Sprintf("bs=%d size=%d from %d", x.bs, len(x.data), badFrom)
	src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 0, EndBlock: uint(x.blocks() - 1), BlockSize: int64(x.bs)})
	pos := 0
	for pos < len(x.data) {
		select {
		case d := <-src.GetResultChannel():
			if int(d.StartBlock)*x.bs != pos || pos+len(d.Data) > len(x.data) || !bytes.Equal(d.Data, x.data[pos:pos+len(d.Data)]) || len(d.Data) == 0 {
				c.Violate("data that is not the reference was delivered for block %d (%d bytes): %s %s", d.StartBlock, len(d.Data), desc, kinds)
				return
			}
			pos += len(d.Data)
			c.Count("delivered", 1)
		case err := <-src.EncounteredError():
			mu.Lock()
			bad := sentBad
			mu.Unlock()
			if !bad || err == nil {
				c.Violate("good data was rejected: %v: %s %s", err, desc, kinds)
			}
			c.Count("rejected", 1)
			pos = len(x.data) + 1
		}
	}
	c.Sig(desc, kinds)
}

// c03patch patches from a source that corrupts: the output must never hold a byte that is not the reference's.
func c03patch(c *mon.Case) {
	r := c.R
	p := gen.NewPair(r, 300, 4000)
	if len(p.Ref) == 0 {
		return
	}
	x := &ref03{data: p.Ref, bs: p.BS, h: md5.New, lk: &lookup{}}
	x.old = bytes.Clone(x.data)
	x.old[r.IntN(len(x.old))] ^= 1
	var recs []chunks.ChunkChecksum
	for i, b := range gen.Blocks(x.data, x.bs) {
		w := gen.Weak(b)
		s := gen.Strong(b)
		x.lk.sums = append(x.lk.sums, s)
		recs = append(recs, chunks.ChunkChecksum{ChunkOffset: uint(i), Size: int64(x.bs), WeakChecksum: w[:], StrongChecksum: s})
	}
	badFrom := r.IntN(4)
	n, sentBad, kinds := 0, false, ""
	q := requesterFunc(func(s, e int64) ([]byte, error) {
		d, kind := bytes.Clone(x.data[s:e]), "none"
		if n++; n > badFrom {
			d, kind = x.corrupt(r, uint(s/int64(x.bs)), uint((e-1)/int64(x.bs)))
		}
		sentBad = sentBad || !bytes.Equal(d, x.data[s:e])
		kinds += kind + " "
		return d, nil
	})
	src := blocksources.NewBlockSourceBase(q, blocksources.MakeFileSizedBlockResolver(uint64(x.bs), int64(len(x.data))),
		&filechecksum.HashVerifier{BlockSize: uint(x.bs), Hash: md5.New(), BlockChecksumGetter: x.lk}, 1, 1<<20)
	var out bytes.Buffer
	old := gosync.DefaultConcurrency
	gosync.DefaultConcurrency = mon.Choose(r, 1, 2, 4)
	rs := &gosync.RSync{Input: bytes.NewReader(p.Local), Source: src, Output: &out, Summary: &gosync.BasicSummary{
		BlockSize: uint(x.bs), BlockCount: uint(len(recs)), FileSize: int64(len(x.data)),
		ChecksumIndex: index.MakeChecksumIndex(recs), ChecksumLookup: chunks.StrongChecksumGetter(recs)}}
	err := rs.Patch()
	gosync.DefaultConcurrency = old
	src.Close()
	io.Discard.Write(nil)
	if !bytes.HasPrefix(x.data, out.Bytes()) {
		c.Violate("the output differs from the reference (error %v): %s: %s responses %s", err, mon.FirstDiff(out.Bytes(), x.data), p.Desc, kinds)
	}
	if err == nil && out.Len() != len(x.data) {
		c.Violate("patch succeeded with %d of %d bytes: %s responses %s", out.Len(), len(x.data), p.Desc, kinds)
	}
	if err != nil && !sentBad {
		c.Violate("patch from an honest source failed: %v: %s", err, p.Desc)
	}
	if sentBad {
		c.Count("corrupted_patches", 1)
	}
	c.Sig(p.Desc, kinds)
}
