package sys

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/patcher"

	"vh/gen"
	"vh/mon"
)

// summary builds the index of a reference from independently computed checksums.
func summary(ref []byte, bs int) *gosync.BasicSummary {
	var cs []chunks.ChunkChecksum
	for i, b := range gen.Blocks(ref, bs) {
		w := gen.Weak(b)
		cs = append(cs, chunks.ChunkChecksum{ChunkOffset: uint(i), Size: int64(bs), WeakChecksum: w[:], StrongChecksum: gen.Strong(b)})
	}
	return &gosync.BasicSummary{
		BlockSize: uint(bs), BlockCount: uint(len(cs)), FileSize: int64(len(ref)),
		ChecksumIndex: index.MakeChecksumIndex(cs), ChecksumLookup: chunks.StrongChecksumGetter(cs),
	}
}

// faults decides, per kind of call, which calls fail.
type faults struct {
	mu    sync.Mutex
	calls map[string]int
	at    map[string]int  // number of the first failing call
	once  map[string]bool // only that one
	hit   map[string]int
	err   error
}

func newFaults() *faults {
	return &faults{calls: map[string]int{}, at: map[string]int{}, once: map[string]bool{}, hit: map[string]int{}, err: gen.ErrInjected}
}

func (f *faults) fails(kind string) bool {
	if f == nil {
		return false
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	n := f.calls[kind]
	f.calls[kind]++
	at, ok := f.at[kind]
	if !ok || n < at || n > at && f.once[kind] {
		return false
	}
	f.hit[kind]++
	return true
}

func (f *faults) hits() (n int) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for _, k := range f.hit {
		n += k
	}
	return
}

// localFile is the local file with injected failures; safe for parallel ReadAt.
type localFile struct {
	data  []byte
	pos   int64
	f     *faults
	r     *rand.Rand // sequential use only: sizes of Read
	short bool       // failing reads return some data
	limit atomic.Int64
	pace  func(uint64) // takes time
}

func newLocal(data []byte, f *faults, r *rand.Rand) *localFile {
	l := &localFile{data: data, f: f, r: r}
	l.limit.Store(int64(len(data)))
	return l
}

func (l *localFile) ReadAt(p []byte, off int64) (n int, err error) {
	if l.pace != nil {
		l.pace(uint64(off) ^ 0x55)
	}
	if l.f.fails("shrink") {
		l.limit.Store(l.limit.Load() / 2)
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	d := l.data[:l.limit.Load()]
	if off < int64(len(d)) {
		n = copy(p, d[off:])
	}
	if l.f.fails("readat") {
		if l.short {
			return n / 2, l.f.err
		}
		return 0, l.f.err
	}
	if n < len(p) {
		err = io.EOF
	}
	return
}

func (l *localFile) Read(p []byte) (n int, err error) {
	if l.pace != nil {
		l.pace(uint64(l.pos) ^ 0xAA)
	}
	if len(p) == 0 {
		return 0, nil
	}
	d := l.data[:l.limit.Load()]
	if l.f.fails("read") {
		if l.short && l.pos < int64(len(d)) {
			n = copy(p[:(len(p)+1)/2], d[l.pos:])
			l.pos += int64(n)
		}
		return n, l.f.err
	}
	if l.pos >= int64(len(d)) {
		return 0, io.EOF
	}
	n = copy(p, d[l.pos:])
	if l.r != nil && n > 1 {
		n = 1 + l.r.IntN(n)
	}
	l.pos += int64(n)
	return n, nil
}

func (l *localFile) Seek(off int64, whence int) (int64, error) {
	if l.f.fails("seek") {
		return 0, l.f.err
	}
	switch whence {
	case io.SeekCurrent:
		off += l.pos
	case io.SeekEnd:
		off += l.limit.Load()
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	l.pos = off
	return off, nil
}

// output collects what is written, with injected failures.
type output struct {
	buf   bytes.Buffer
	f     *faults
	short bool
	pace  func(uint64)
}

func (o *output) Write(p []byte) (int, error) {
	if o.pace != nil {
		o.pace(uint64(o.buf.Len()) ^ 0x33)
	}
	if o.f.fails("write") {
		n := 0
		if o.short {
			n = len(p) / 2
		}
		o.buf.Write(p[:n])
		return n, o.f.err
	}
	if o.f.fails("shortwrite") && len(p) > 0 {
		n := len(p) - 1
		o.buf.Write(p[:n])
		return n, nil
	}
	return o.buf.Write(p)
}

// remote serves the reference and records what is asked.
type remote struct {
	ref  []byte
	f    *faults
	mu   sync.Mutex
	asks [][2]int64
	wait uint64 // random delays
	pace func(uint64)
}

func (q *remote) IsFatal(error) bool { return true }

func (q *remote) DoRequest(s, e int64) ([]byte, error) {
	q.mu.Lock()
	q.asks = append(q.asks, [2]int64{s, e})
	q.mu.Unlock()
	if q.wait != 0 {
		delay(q.wait * uint64(s+7))
	}
	if q.pace != nil {
		q.pace(uint64(s))
	}
	if q.f.fails("fetch") {
		return nil, q.f.err
	}
	if q.f.fails("fetchdirty") && s >= 0 && e >= s { // as much as was asked for, but not sound
		return bytes.Repeat([]byte{'z'}, int(min(e-s, 1<<24))), q.f.err
	}
	if s < 0 || e < s || s > int64(len(q.ref)) {
		return nil, fmt.Errorf("range %d-%d of %d bytes", s, e, len(q.ref))
	}
	d := bytes.Clone(q.ref[s:min(e, int64(len(q.ref)))])
	if q.f.fails("fetchshort") && len(d) > 0 {
		return d[:len(d)-1-int(uint64(s+int64(q.wait))%uint64(len(d)))], nil
	}
	if q.f.fails("fetchlong") {
		return append(d, 'x'), nil
	}
	if q.f.fails("fetchcorrupt") && len(d) > 0 {
		d[uint64(s+int64(q.wait))%uint64(len(d))] ^= 1
	}
	return d, nil
}

func delay(seed uint64) {
	seed *= 0x9e3779b97f4a7c15
	seed >>= 20
	switch seed % 4 {
	case 0:
	case 1:
		runtime.Gosched()
	default:
		time.Sleep(time.Duration(seed>>8%100) * time.Microsecond)
	}
}

// bubble runs f in a bubble, where time costs nothing and which does not end before all its goroutines have.
func bubble(c *mon.Case, f func()) {
	synctest.Test(c.T, func(*testing.T) {
		defer func() {
			if p := recover(); p != nil {
				c.Panicked(p, []byte(mon.Stack()))
			}
		}()
		f()
	})
}

// paced makes a function that sometimes sleeps, from nothing to hours.
func paced(r *rand.Rand, slept *atomic.Int64) func(uint64) {
	if r.IntN(4) == 0 {
		return nil
	}
	key, one := r.Uint64()|1, mon.Choose(r, time.Millisecond, time.Second, 20*time.Second, 3*time.Minute, time.Hour)
	return func(x uint64) {
		x = (x + 11) * key
		x ^= x >> 29
		x *= 0x9e3779b97f4a7c15
		if d := time.Duration(x>>40%1000) * one / 250; x>>60%4 == 0 {
			slept.Add(int64(d))
			time.Sleep(d)
		}
	}
}

// watched wraps a block source and records the requests of the patcher.
type watched struct {
	patcher.BlockSource
	mu   sync.Mutex
	asks []patcher.MissingBlockSpan
	f    *faults
}

func (w *watched) RequestBlocks(m patcher.MissingBlockSpan) error {
	w.mu.Lock()
	w.asks = append(w.asks, m)
	w.mu.Unlock()
	if w.f.fails("request") {
		return w.f.err
	}
	return w.BlockSource.RequestBlocks(m)
}

func (w *watched) blocks() (l []uint) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, m := range w.asks {
		for b := m.StartBlock; b <= m.EndBlock && len(l) < 1<<22; b++ {
			l = append(l, b)
		}
	}
	return
}

// withConcurrency sets the number of parallel matchers and fetches of the library.
func withConcurrency(n int, f func()) {
	old := gosync.DefaultConcurrency
	gosync.DefaultConcurrency = n
	defer func() { gosync.DefaultConcurrency = old }()
	f()
}

func concurrency(r *rand.Rand) int {
	return mon.Choose(r, 1, 1, 2, 3, 4, 5, 7, 8, 13, 16, 32, 64, 65, 100, 200)
}

// fileServer serves byte ranges of named contents over HTTP.
type fileServer struct {
	*httptest.Server
	mu    sync.Mutex
	files map[string][]byte
	reqs  atomic.Int64
	fail  atomic.Int64 // requests after this many fail (-1 never)
	mode  string
	watch func() // called on every request

	idleSockets int // sockets open in this process while there are no connections
}

func newFileServer() *fileServer {
	s := &fileServer{files: map[string][]byte{}}
	s.fail.Store(-1)
	s.Server = httptest.NewUnstartedServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		n := s.reqs.Add(1)
		s.mu.Lock()
		d, ok := s.files[r.URL.Path]
		mode, watch := s.mode, s.watch
		s.mu.Unlock()
		if watch != nil {
			watch()
		}
		if !ok {
			http.NotFound(w, r)
			return
		}
		if f := s.fail.Load(); f >= 0 && n > f {
			switch mode {
			case "500":
				http.Error(w, "injected", 500)
				return
			case "404":
				http.NotFound(w, r)
				return
			case "full":
				w.Write(d)
				return
			case "reset":
				if h, ok := w.(http.Hijacker); ok {
					c, _, err := h.Hijack()
					if err == nil {
						c.(*net.TCPConn).SetLinger(0)
						c.Close()
					}
				}
				return
			case "corrupt":
				d = bytes.Clone(d)
				for i := range d {
					d[i] ^= 0x55
				}
			case "short":
				d = d[:len(d)*2/3]
			}
		}
		http.ServeContent(w, r, "", time.Time{}, bytes.NewReader(d))
	}))
	s.Start()
	return s
}

func (s *fileServer) put(name string, d []byte) string {
	s.mu.Lock()
	s.files["/"+name] = d
	s.mu.Unlock()
	return s.URL + "/" + name
}

func (s *fileServer) stop() {
	s.CloseClientConnections()
	s.Close()
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
}

// leftover lists goroutines that run code under test; it waits for them to end.
func leftover() (gs []string) {
	for i := 0; i < 400; i++ {
		gs = gs[:0]
		b := make([]byte, 1<<20)
		b = b[:runtime.Stack(b, true)]
		for _, g := range strings.Split(string(b), "\n\n") {
			if strings.Contains(g, mon.SUT) && !strings.Contains(g, "sys.leftover") {
				gs = append(gs, g)
			}
		}
		if len(gs) == 0 {
			return nil
		}
		time.Sleep(time.Duration(i/4+1) * time.Millisecond)
	}
	return gs
}

// listing names the files of a directory.
func listing(dir string) (names []string) {
	es, _ := os.ReadDir(dir)
	for _, e := range es {
		names = append(names, e.Name())
	}
	sort.Strings(names)
	return
}

// within runs f with a working directory.
func within(dir string, f func()) {
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	f()
}

func write(path string, d []byte) {
	if err := os.WriteFile(path, d, 0o644); err != nil {
		panic(err)
	}
}

// holders names the files below dir whose content is d.
func holders(dir string, d []byte) (names []string) {
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			if b, err := os.ReadFile(p); err == nil && bytes.Equal(b, d) {
				names = append(names, p)
			}
		}
		return nil
	})
	return
}

func resolver(s *gosync.BasicSummary) blocksources.BlockSourceOffsetResolver {
	return blocksources.MakeFileSizedBlockResolver(uint64(s.BlockSize), s.FileSize)
}
