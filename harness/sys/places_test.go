package sys

import (
	"bytes"
	"encoding/pem"
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"vh/gen"
	"vh/mon"
)

// placeServer serves a content under exactly one request target, and records the requests.
type placeServer struct {
	mu    sync.Mutex
	files map[string]spot // by escaped path with its query
	seen  []string
}

type spot struct {
	data       []byte
	user       string // "name:password" if needed
	redirect   string
	status     int
	unreadable bool                                   // the body breaks off
	slow       func(bytes int, w http.ResponseWriter) // waits before the header (0) and after part of the body
}

func (s *placeServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	target := r.URL.EscapedPath()
	if r.URL.RawQuery != "" || r.URL.ForceQuery {
		target += "?" + r.URL.RawQuery
	}
	s.mu.Lock()
	s.seen = append(s.seen, target)
	p, ok := s.files[target]
	s.mu.Unlock()
	if !ok {
		http.NotFound(w, r)
		return
	}
	if p.user != "" {
		if u, pw, _ := r.BasicAuth(); u+":"+pw != p.user {
			w.Header().Set("WWW-Authenticate", "Basic")
			http.Error(w, "who is it?", 401)
			return
		}
	}
	if p.slow != nil {
		p.slow(0, w)
		w = &slowWriter{w, p.slow}
	}
	switch {
	case p.redirect != "":
		http.Redirect(w, r, p.redirect, p.status)
	case p.status != 0:
		w.WriteHeader(p.status)
		w.Write(p.data)
	case p.unreadable:
		w.Header().Set("Content-Length", fmt.Sprint(len(p.data)))
		w.Write(p.data[:len(p.data)/2])
	default:
		http.ServeContent(w, r, "", time.Time{}, bytes.NewReader(p.data))
	}
}

// slowWriter sends what is written in pieces.
type slowWriter struct {
	http.ResponseWriter
	slow func(bytes int, w http.ResponseWriter)
}

func (s *slowWriter) Write(p []byte) (n int, err error) {
	for len(p) > 0 && err == nil {
		k := 0
		k, err = s.ResponseWriter.Write(p[:(len(p)+1)/2])
		n += k
		p = p[k:]
		s.ResponseWriter.(http.Flusher).Flush()
		s.slow(n, s.ResponseWriter)
	}
	return
}

type places struct {
	*placeServer
	plain, tls, h2, six *httptest.Server
	cert                string // file with the certificates to trust
	n                   int
	named               bool // localhost is known by name
}

func newPlaces(dir string) *places {
	s := &placeServer{files: map[string]spot{}}
	p := &places{placeServer: s, plain: httptest.NewServer(s), tls: httptest.NewTLSServer(s), h2: httptest.NewUnstartedServer(s)}
	p.h2.EnableHTTP2 = true
	p.h2.StartTLS()
	if l, err := net.Listen("tcp6", "[::1]:0"); err == nil {
		p.six = httptest.NewUnstartedServer(s)
		p.six.Listener.Close()
		p.six.Listener = l
		p.six.Start()
	}
	p.cert = filepath.Join(dir, "trusted.pem")
	write(p.cert, append(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: p.tls.Certificate().Raw}),
		pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: p.h2.Certificate().Raw})...))
	os.Setenv("SSL_CERT_FILE", p.cert)
	if as, err := net.LookupHost("localhost"); err == nil {
		for _, a := range as {
			p.named = p.named || a == "127.0.0.1"
		}
	}
	return p
}

func (p *places) stop() {
	for _, s := range []*httptest.Server{p.plain, p.tls, p.h2, p.six} {
		if s != nil {
			s.CloseClientConnections()
			s.Close()
		}
	}
}

// address makes d available at a URL of some form.
func (p *places) address(c *mon.Case, d []byte) (form, addr string) {
	r := c.R
	p.mu.Lock()
	defer p.mu.Unlock()
	p.n++
	id := fmt.Sprintf("/c%d", p.n)
	srv, host := p.plain, ""
	form = mon.Choose(r, "plain", "plain", "https", "h2", "six", "localhost")
	switch form {
	case "https":
		srv = p.tls
	case "h2":
		srv = p.h2
	case "six":
		if p.six != nil {
			srv = p.six
		}
	}
	host = srv.URL
	if form == "localhost" && p.named {
		host = strings.Replace(host, "127.0.0.1", "localhost", 1)
		c.Count("names_resolved", 1)
	}
	what := mon.Choose(r, "path", "query", "empty-query", "escaped", "escaped-slash", "unicode", "space", "percent", "fragment", "user", "capitals", "redirect", "redirect-elsewhere", "dots", "range-like", "plus", "semicolon", "no-path", "long")
	form += " " + what
	target, pl, suffix := id+"/ref.bin", spot{data: d}, ""
	addr = host + target
	switch what {
	case "query":
		target += "?v=1&name=a%2Fb&x"
		addr = host + target
	case "empty-query":
		target += "?"
		addr = host + target
	case "escaped":
		target = id + "/with%20space/%C3%A9.bin"
		addr = host + target
	case "escaped-slash":
		target = id + "/a%2Fb/ref.bin"
		addr = host + target
	case "unicode":
		target = id + "/%C3%A9%E2%82%AC.bin"
		addr = host + id + "/é€.bin"
	case "space":
		target = id + "/a%20b.bin"
		addr = host + id + "/a b.bin"
	case "percent":
		target = id + "/100%25.bin"
		addr = host + target
	case "fragment":
		suffix = "#part-2"
	case "user":
		pl.user = mon.Choose(r, "me:secret", "a@b.c:p:w/d ?", "é:", ":x")
		u, _ := url.Parse(addr)
		n, pw, _ := strings.Cut(pl.user, ":")
		u.User = url.UserPassword(n, pw)
		addr = u.String()
	case "capitals":
		scheme, rest, _ := strings.Cut(addr, ":")
		addr = strings.ToUpper(scheme) + ":" + rest
	case "redirect", "redirect-elsewhere":
		to := id + "/there.bin?x=1"
		full := to
		if what != "redirect" {
			full = mon.Choose(r, p.plain, p.tls, p.h2).URL + to
		}
		p.files[to] = pl
		pl = spot{redirect: full, status: mon.Choose(r, 301, 302, 303, 307, 308)}
	case "dots":
		target = id + "/a/../b/./ref.bin"
		addr = host + target
	case "range-like":
		target = id + "/bytes=0-5/ref.bin?range=0-1"
		addr = host + target
	case "plus":
		target = id + "/a+b.bin?q=a+b"
		addr = host + target
	case "semicolon":
		target = id + "/a;b,c=d.bin?x=1;y=2"
		addr = host + target
	case "no-path":
		// told apart by the query
		target = "/?" + id[1:]
		addr = host + "?" + id[1:]
	case "long":
		target = id + "/" + strings.Repeat("long-name/", 300) + "ref.bin"
		addr = host + target
	}
	p.files[target] = pl
	return form, addr + suffix
}

// path makes d available as a file of some name.
func (p *places) path(c *mon.Case, dir, base string, d []byte) (form, name string) {
	r := c.R
	form = mon.Choose(r, "relative", "absolute", "colon", "percent", "symlink", "sub", "query-like", "scheme-like", "host-like", "dash", "space", "dotted", "windows")
	name = base
	switch form {
	case "absolute":
		name = filepath.Join(dir, base)
	case "colon":
		name = "a:" + base
	case "percent":
		name = mon.Choose(r, "100%", "%41", "%zz", "%2F") + base
	case "symlink":
		os.Mkdir(filepath.Join(dir, base+".d"), 0o755)
		os.Symlink(filepath.Join(base+".d", "real"), filepath.Join(dir, base))
	case "sub":
		name = base + ".d/x/" + base
	case "query-like":
		name = base + "?v=1#part"
	case "scheme-like":
		name = mon.Choose(r, "http", "https", "http:", "file:", "ftp:", "httpx:", "HTTP") + base
		if strings.HasPrefix(name, "http:") {
			name = "./" + name
		}
	case "host-like":
		name = "127.0.0.1:80-" + base
	case "dash":
		name = "./-" + base
	case "space":
		name = " " + base + " "
	case "dotted":
		os.Mkdir(filepath.Join(dir, base+".d"), 0o755)
		name = base + ".d/../" + base
	case "windows":
		name = `C:\` + base
	}
	full := name
	if !filepath.IsAbs(full) {
		full = filepath.Join(dir, name)
	}
	os.MkdirAll(filepath.Dir(full), 0o755)
	write(full, d)
	return form, name
}

// c33case: the patch command with its index and its source at some place.
func c33case(c *mon.Case, p *places, indexAt, sourceAt string) {
	r := c.R
	pair := gen.NewPair(r, 300, 5000)
	dir := c.Dir()
	write(filepath.Join(dir, "local.bin"), pair.Local)
	idx := indexFile(pair.Ref, pair.BS)
	var iform, iname, sform, sname string
	if indexAt == "path" {
		iform, iname = p.path(c, dir, "ref.gosync", idx)
	} else {
		iform, iname = p.address(c, idx)
	}
	if sourceAt == "path" {
		sform, sname = p.path(c, dir, "source.bin", pair.Ref)
	} else {
		sform, sname = p.address(c, pair.Ref)
	}
	desc := fmt.Sprintf("index %s %s %.150q, source %s %s %.150q, %s", indexAt, iform, iname, sourceAt, sform, sname, pair.Desc)
	args := []string{gosyncBin, "patch", "local.bin", iname, sname}
	out := filepath.Join(dir, "local.bin")
	if r.IntN(2) == 0 {
		args = append(args, "out.bin")
		out = filepath.Join(dir, "out.bin")
	}
	p.mu.Lock()
	p.seen = nil
	p.mu.Unlock()
	x := run(dir, args...)
	if !x.ended(c, "patch") {
		return
	}
	key := ""
	if sourceAt == "path" {
		key = "source-path"
	}
	p.mu.Lock()
	seen := fmt.Sprint(p.seen)
	p.mu.Unlock()
	got, err := os.ReadFile(out)
	switch {
	case x.code != 0:
		if !same(filepath.Join(dir, "local.bin"), pair.Local) {
			c.Violate("patch failed and changed the local file: %s: %s", desc, x.out)
		}
		c.ViolateKey(key, "patch exited with %d: %s: %s; requests %.300s", x.code, desc, x.out, seen)
	case err != nil || !bytes.Equal(got, pair.Ref):
		c.Violate("patch left wrong content at the output: %v, %s: %s; requests %.300s", err, mon.FirstDiff(got, pair.Ref), desc, seen)
	default:
		c.Count("patched", 1)
		c.Count("index_"+indexAt, 1)
		c.Count("source_"+sourceAt, 1)
		c.Sig(iform + sform + pair.Desc)
		c.Sample(desc)
	}
}

// c33patient: servers that take longer than a minute to answer, or to send everything, are waited for. All of the
// commands run at once.
func c33patient(c *mon.Case, p *places) {
	r := c.R
	defer patience.Store(patience.Swap(400))
	var wg sync.WaitGroup
	for k := 0; k < 6; k++ {
		pair := gen.NewPair(r, 300, 5000)
		for len(pair.Ref) < 2000 {
			pair = gen.NewPair(r, 300, 5000)
		}
		pair.Local = nil // all of the reference is needed
		dir := filepath.Join(c.Dir(), fmt.Sprint(k))
		os.Mkdir(dir, 0o755)
		write(filepath.Join(dir, "local.bin"), pair.Local)
		idx := indexFile(pair.Ref, pair.BS)
		pause := time.Duration(mon.Range(r, 62, 68)) * time.Second
		once := new(sync.Once)
		slow := func(int, http.ResponseWriter) { once.Do(func() { time.Sleep(pause) }) } // a late header
		how := "a late header"
		switch k / 2 {
		case 1:
			how = "a break in the body"
			slow = func(n int, _ http.ResponseWriter) {
				if n > 0 {
					once.Do(func() { time.Sleep(pause) })
				}
			}
		case 2:
			how = "a slow body"
			left := int64(pause / (5 * time.Second))
			slow = func(n int, _ http.ResponseWriter) {
				if n > 0 && atomic.AddInt64(&left, -1) >= 0 {
					time.Sleep(5 * time.Second)
				}
			}
		}
		at := func(d []byte, slowly bool) string {
			p.mu.Lock()
			defer p.mu.Unlock()
			p.n++
			x := spot{data: d}
			if slowly {
				x.slow = slow
			}
			p.files[fmt.Sprintf("/slow%d", p.n)] = x
			return mon.Choose(r, p.plain, p.plain, p.tls).URL + fmt.Sprintf("/slow%d", p.n)
		}
		args := []string{gosyncBin, "patch", "local.bin", at(idx, k%2 == 0), at(pair.Ref, k%2 == 1)}
		desc := fmt.Sprintf("%s of %v, of the %s, %s", how, pause, []string{"index", "source"}[k%2], pair.Desc)
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := run(dir, args...)
			if !x.ended(c, "patch") {
				return
			}
			if x.code != 0 {
				c.Violate("patch exited with %d: %s: %s", x.code, desc, x.out)
			} else if got, err := os.ReadFile(filepath.Join(dir, "local.bin")); err != nil || !bytes.Equal(got, pair.Ref) {
				c.Violate("patch left wrong content: %v, %s: %s", err, mon.FirstDiff(got, pair.Ref), desc)
			}
			c.Count("slow_servers", 1)
		}()
		c.Sig(desc)
	}
	wg.Wait()
}

// c33absent: what can not be had is a failure that changes nothing.
func c33absent(c *mon.Case, p *places) {
	r := c.R
	pair := gen.NewPair(r, 300, 5000)
	for len(pair.Ref) == 0 {
		pair = gen.NewPair(r, 300, 5000)
	}
	// nothing of the reference is there
	pair.Local = bytes.Repeat([]byte{0xA5}, len(pair.Local)%100)
	dir := c.Dir()
	write(filepath.Join(dir, "local.bin"), pair.Local)
	idx := indexFile(pair.Ref, pair.BS)
	_, iname := p.path(c, dir, "ref.gosync", idx)
	_, sname := p.address(c, pair.Ref)
	p.mu.Lock()
	p.n++
	target := fmt.Sprintf("/gone%d", p.n)
	p.mu.Unlock()
	bad := func(pl spot) string {
		p.mu.Lock()
		p.files[target] = pl
		p.mu.Unlock()
		return mon.Choose(r, p.plain, p.tls, p.h2).URL + target
	}
	what := mon.Choose(r, "index-404", "index-status", "index-broken", "index-refused", "index-user", "index-loop", "index-path", "source-404", "source-status", "source-refused", "source-user", "source-loop", "source-untrusted", "source-scheme", "source-no-host")
	side, kind, _ := strings.Cut(what, "-")
	d := pair.Ref
	if side == "index" {
		d = idx
	}
	var name string
	switch kind {
	case "404":
		name = p.plain.URL + target
	case "status":
		name = bad(spot{data: d, status: mon.Choose(r, 201+300, 403, 400, 500, 502, 410)})
	case "broken":
		name = bad(spot{data: d, unreadable: true})
	case "refused":
		l, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			panic(err)
		}
		name = "http://" + l.Addr().String() + "/x"
		l.Close()
	case "user":
		name = bad(spot{data: d, user: "me:secret"})
	case "loop":
		name = bad(spot{redirect: target, status: 302})
	case "path":
		name = mon.Choose(r, "no-such-file", "", ".", "no/such/dir", "ref.gosync/x")
	case "untrusted":
		name = strings.Replace(p.tls.URL, "127.0.0.1", "127.0.0.2", 1) + target
		bad(spot{data: d})
	case "scheme":
		name = mon.Choose(r, "gopher://127.0.0.1/x", "ftp://127.0.0.1/x", "127.0.0.1:1/x", "://x")
	case "no-host":
		name = mon.Choose(r, "http:///x", "http://", "http:x", "http://[::1/x", "http://a b/")
	}
	if side == "index" {
		iname = name
	} else {
		sname = name
	}
	args := []string{gosyncBin, "patch", "local.bin", iname, sname}
	if r.IntN(2) == 0 {
		args = append(args, "out.bin")
	}
	before := listing(dir)
	x := run(dir, args...)
	desc := fmt.Sprintf("%s: %.150q %.150q", what, iname, sname)
	if !x.ended(c, "patch") {
		return
	}
	if x.code == 0 {
		c.Violate("patch succeeded: %s, %s", desc, x.out)
	}
	if !same(filepath.Join(dir, "local.bin"), pair.Local) {
		c.Violate("patch changed the local file: %s, exit %d, %s", desc, x.code, x.out)
	}
	for _, n := range listing(dir) {
		if n != "out.bin" && !contains(before, n) {
			c.Violate("patch left %s behind: %s", n, desc)
		}
	}
	c.Count("refused", 1)
	c.Sig(what)
}

func TestC33(t *testing.T) {
	p := newPlaces(t.TempDir())
	defer p.stop()
	mon.Run(t, "C33",
		mon.Group{Name: "patient", Quick: 1, Thorough: 4, Stuck: 800, Fn: func(c *mon.Case) { c33patient(c, p) }},
		mon.Group{Name: "source-url", Quick: 1200, Thorough: 40000, Stuck: 700, Fn: func(c *mon.Case) { c33case(c, p, "path", "url") }},
		mon.Group{Name: "index-url", Quick: 600, Thorough: 20000, Stuck: 700, Fn: func(c *mon.Case) { c33case(c, p, "url", "url") }},
		mon.Group{Name: "source-path", Quick: 40, Thorough: 400, Stuck: 700, Fn: func(c *mon.Case) { c33case(c, p, mon.Choose(c.R, "path", "url"), "path") }},
		mon.Group{Name: "absent", Quick: 400, Thorough: 10000, Stuck: 700, Fn: func(c *mon.Case) { c33absent(c, p) }},
	)
}
