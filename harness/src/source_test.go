package src

import (
	"bytes"
	"crypto/md5"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/patcher"

	"vh/gen"
	"vh/mon"
)

// quiesce waits until nothing more happens, at once or after some time, which is free in a bubble.
func quiesce() {
	x := uint64(time.Now().UnixNano()) * 0x9e3779b97f4a7c15 >> 40
	time.Sleep([]time.Duration{1, 2, 3, 5, 7, 9, 3 * time.Millisecond, 4 * time.Second, 11 * time.Minute}[x%9])
	synctest.Wait()
}

// bubble runs f in a bubble which does not end before all its goroutines have.
func bubble(c *mon.Case, f func()) {
	synctest.Test(c.T, func(*testing.T) {
		defer func() {
			if p := recover(); p != nil {
				c.Panicked(p, []byte(mon.Stack()))
			}
		}()
		f()
	})
}

// fetch is one call of the requester, completed by the scheduler.
type fetch struct {
	start, end int64
	reply      chan reply
	done       bool // the scheduler has completed it
	failed     bool
	delivered  bool
	seq        int
}

type reply struct {
	data []byte
	err  error
}

// requester is the instrumented fetch layer: it records every fetch and completes it when told.
type requester struct {
	mu      sync.Mutex
	fetches []*fetch
	running int
	maxRun  int
	ended   int
}

func (q *requester) DoRequest(start, end int64) ([]byte, error) {
	f := &fetch{start: start, end: end, reply: make(chan reply, 1)}
	q.mu.Lock()
	f.seq = len(q.fetches)
	q.fetches = append(q.fetches, f)
	q.running++
	q.maxRun = max(q.maxRun, q.running)
	q.mu.Unlock()
	r := <-f.reply
	q.mu.Lock()
	q.running--
	q.ended++
	q.mu.Unlock()
	return r.data, r.err
}

func (q *requester) IsFatal(error) bool { return true }

func (q *requester) started() int {
	q.mu.Lock()
	defer q.mu.Unlock()
	return len(q.fetches)
}

func (q *requester) pending() (l []*fetch) {
	q.mu.Lock()
	defer q.mu.Unlock()
	for _, f := range q.fetches {
		if !f.done {
			l = append(l, f)
		}
	}
	return
}

// at is the content of the (virtual) reference.
func at(off int64) byte {
	x := uint64(off)*0x9e3779b97f4a7c15 + 0x1234567
	return byte(x>>56) ^ byte(x>>29)
}

func content(start, end int64) []byte {
	b := make([]byte, end-start)
	for i := range b {
		b[i] = at(start + int64(i))
	}
	return b
}

// vastMemory stands for data of any size: none of it is ever looked at.
var vastMemory = sync.OnceValue(func() []byte {
	b, err := syscall.Mmap(-1, 0, 16<<30, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		panic(err)
	}
	return b
})

type piece struct{ start, end uint }

type c05model struct {
	c       *mon.Case
	bs      int64
	base    uint // how much further the blocks from near on are
	near    uint
	size    int64
	unknown bool // the source does not know the size, and cuts what it fetches there
	vast    bool // responses are so large that only which one it is gets compared
	limit   int
	maxReq  int
	q       *requester
	src     *blocksources.BlockSourceBase
	want    map[piece]int // expected sub-requests not yet delivered
	most    int64         // bytes that may be requested but not delivered, if not 0
	parts   map[piece]int // all sub-requests
	asked   int           // sub-requests in total
	got     int
	bytes   int64
	trace   []string
	failed  bool
	waited  map[piece]int // what was waiting at the last check
	started int           // how many had been started then
}

func (m *c05model) log(format string, a ...any) {
	m.trace = append(m.trace, fmt.Sprintf(format, a...))
}

func (m *c05model) violate(format string, a ...any) {
	if m.failed {
		return
	}
	m.failed = true
	t := m.trace
	if len(t) > 60 {
		t = t[len(t)-60:]
	}
	m.c.Violate("%s\nbs=%d base=%d from %d size=%d limit=%d bytes=%d\ntrace: %s", fmt.Sprintf(format, a...), m.bs, m.base, m.near, m.size, m.limit, m.most, strings.Join(t, " "))
}

func (m *c05model) content(start, end int64) []byte {
	if m.vast {
		at := start / m.bs % 4096
		return vastMemory()[at : at+end-start]
	}
	return content(start, end)
}

func (m *c05model) blockRange(f *fetch) piece {
	return piece{uint(f.start / m.bs), uint((f.end - 1) / m.bs)}
}

// bytesOf is what a fetch that is not delivered accounts for: what was asked for, or what it has got.
func (m *c05model) bytesOf(f *fetch) int64 {
	if f.done {
		return min(f.end, m.size) - f.start
	}
	return f.end - f.start
}

// check is evaluated when every goroutine of the bubble is blocked: nothing more happens by itself.
func (m *c05model) check(consumed bool) {
	q := m.q
	q.mu.Lock()
	running, started := q.running, len(q.fetches)
	fetches := q.fetches[:started:started]
	maxRun := q.maxRun
	out, n := int64(0), 0 // under way or completed, but not delivered
	seen := map[piece]int{}
	for _, f := range q.fetches {
		if !f.delivered {
			out += m.bytesOf(f)
			n++
		}
		seen[m.blockRange(f)]++
	}
	q.mu.Unlock()
	m.c.Max("outstanding_bytes", int(out))
	if m.most > 0 && n > 1 && out > m.most {
		m.violate("%d bytes are requested but not delivered, at most %d may be", out, m.most)
	}
	if maxRun > m.limit {
		m.violate("%d fetches ran at once, the limit is %d", maxRun, m.limit)
	}
	// what was waiting before and still is cannot begin lower than what was started in between
	wait := map[piece]int{}
	for p, k := range m.parts {
		if k > seen[p] {
			wait[p] = k - seen[p]
		}
	}
	begun := map[piece]int{}
	for _, f := range fetches[min(m.started, started):] {
		begun[m.blockRange(f)]++
	}
	for p := range wait {
		// of those asked for more than once, all that waited before may have been started
		if m.waited[p] <= begun[p] {
			continue
		}
		for _, f := range fetches[min(m.started, started):] {
			if b := m.blockRange(f); p.start < b.start {
				m.violate("blocks %d-%d were fetched though %d-%d were waiting", b.start, b.end, p.start, p.end)
			}
		}
	}
	m.waited, m.started = wait, started
	waiting := m.asked - started
	if waiting < 0 {
		m.violate("%d fetches started for %d requests", started, m.asked)
	}
	// the lowest of those that wait is next; of several that begin alike any may be
	need := int64(0)
	if m.most > 0 && waiting > 0 && n > 0 {
		low := uint(1 << 62)
		for p, k := range m.parts {
			if k <= seen[p] || p.start > low {
				continue
			}
			if p.start < low {
				low, need = p.start, 0
			}
			end := int64(p.end+1) * m.bs
			if !m.unknown {
				end = min(end, m.size)
			}
			need = max(need, end-int64(p.start)*m.bs)
		}
		if out+need > m.most {
			m.c.Count("held_back", 1)
			return
		}
	}
	if waiting > 0 && running < m.limit {
		m.violate("only %d of %d fetches run although %d requests are waiting", running, m.limit, waiting)
	}
}

// lowest finds the started, undelivered fetch with the lowest block.
func (m *c05model) lowest() (low *fetch) {
	m.q.mu.Lock()
	defer m.q.mu.Unlock()
	for _, f := range m.q.fetches {
		if !f.delivered && (low == nil || f.start < low.start || f.start == low.start && f.done && !low.done) {
			low = f
		}
	}
	return
}

func (m *c05model) receive() {
	low := m.lowest()
	select {
	case r, ok := <-m.src.GetResultChannel():
		if !ok {
			m.violate("the result channel was closed")
			return
		}
		m.log("got%d", r.StartBlock)
		if low == nil {
			m.violate("block %d was delivered though nothing was outstanding", r.StartBlock)
			return
		}
		if int64(r.StartBlock)*m.bs != low.start || !low.done {
			m.violate("block %d was delivered before block %d, which was %s", r.StartBlock, low.start/m.bs, map[bool]string{true: "completed", false: "under way"}[low.done])
			return
		}
		// which fetch is it (several may start at the same block)
		end := int64(r.StartBlock)*m.bs + int64(len(r.Data))
		var f *fetch
		m.q.mu.Lock()
		for _, x := range m.q.fetches {
			if x.done && !x.delivered && x.start == low.start && min(x.end, m.size) == end {
				f = x
			}
		}
		if f != nil {
			f.delivered = true
		}
		m.q.mu.Unlock()
		if f == nil {
			m.violate("block %d was delivered with %d bytes, which no fetch of it returned", r.StartBlock, len(r.Data))
			return
		}
		want := m.content(f.start, min(f.end, m.size))
		if m.vast {
			if len(want) != len(r.Data) || len(want) > 0 && &want[0] != &r.Data[0] {
				m.violate("block %d was delivered with the data of another", r.StartBlock)
			}
		} else if !bytes.Equal(want, r.Data) {
			m.violate("block %d was delivered with wrong data: %s", r.StartBlock, mon.FirstDiff(r.Data, want))
		}
		p := m.blockRange(f)
		if m.want[p]--; m.want[p] < 0 {
			m.violate("blocks %d-%d were delivered more often than requested", p.start, p.end)
		}
		m.got++
		m.c.Count("deliveries", 1)
	case e := <-m.src.EncounteredError():
		m.violate("error %v though nothing failed", e)
	default:
		if low != nil && low.done {
			m.violate("block %d is complete and the lowest, but it was not delivered", low.start/m.bs)
		}
	}
}

func (m *c05model) complete(f *fetch) {
	f.done = true
	d := m.content(f.start, min(f.end, m.size))
	if f.end > m.size {
		m.c.Count("cut_at_the_end", 1)
	}
	m.bytes += int64(len(d))
	m.log("fetched%d", f.start/m.bs)
	f.reply <- reply{data: d}
}

// request asks for a span and notes the sub-requests it has to become.
func (m *c05model) request(s, e uint) {
	m.log("ask%d-%d", s, e)
	per := e - s + 1
	if m.maxReq > 0 {
		per = uint(max(1, int64(m.maxReq)/m.bs))
	}
	for b := s; b <= e; b += per {
		x := min(e, b+per-1)
		m.want[piece{b, x}]++
		if m.parts == nil {
			m.parts = map[piece]int{}
		}
		m.parts[piece{b, x}]++
		m.asked++
	}
	if err := m.src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: s, EndBlock: e, BlockSize: m.bs}); err != nil {
		m.violate("request for %d-%d: %v", s, e, err)
	}
}

func (m *c05model) finish() {
	// let everything happen; the lowest must always be available once complete
	for i := 0; i < 10000 && m.got < m.asked && !m.failed; i++ {
		for _, f := range m.q.pending() {
			m.complete(f)
		}
		quiesce()
		m.check(false)
		m.receive()
		quiesce()
	}
	if m.got != m.asked {
		m.violate("%d of %d requests were delivered", m.got, m.asked)
	}
	for p, n := range m.want {
		if n != 0 {
			m.violate("blocks %d-%d: %d deliveries missing", p.start, p.end, n)
		}
	}
	if n := m.src.ReadBytes(); n != m.bytes {
		m.violate("%d bytes reported as read, %d were fetched", n, m.bytes)
	}
	m.receive()
	for _, f := range m.q.pending() {
		m.complete(f)
	}
	m.src.Close()
}

// block is the number of the i-th block that may be asked for.
func (m *c05model) block(i uint) uint {
	if i >= m.near {
		i += m.base
	}
	return i
}

// farBlock is the first of n blocks that are somewhere in a reference, also where numbers of fewer bits end.
func farBlock(r *rand.Rand, n int) uint {
	if r.IntN(3) > 0 {
		return 0
	}
	b := uint(1) << mon.Choose(r, 8, 16, 24, 31, 31, 32, 32, 33, 40)
	return b*uint(mon.Choose(r, 1, 1, 1, 3)) - uint(mon.Choose(r, 0, r.IntN(n+1), n/2, n))
}

func newC05(c *mon.Case, nblocks int, vast bool) *c05model {
	r := c.R
	m := &c05model{c: c, q: &requester{}, want: map[piece]int{}, vast: vast}
	m.bs = int64(mon.Choose(r, 1, 3, 4, 8, 10, 64))
	if vast {
		m.bs = int64(mon.Choose(r, 1<<27, 1<<28+1, 1<<29, 1<<30-1, 1<<30))
	}
	m.limit = mon.Choose(r, 1, 1, 2, 2, 3, 4, 8, 30)
	for m.base = farBlock(r, nblocks); vast && m.base > 1<<32; {
		m.base >>= 8
	}
	m.near = uint(mon.Choose(r, 0, 0, nblocks/2, r.IntN(nblocks)))
	m.size = int64(m.base+uint(nblocks)) * m.bs
	if r.IntN(2) == 0 && m.bs > 1 {
		m.size -= int64(r.IntN(int(m.bs)))
	}
	res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(m.bs), FileSize: m.size}
	if r.IntN(4) == 0 {
		m.unknown, res.FileSize = true, 0
	}
	if r.IntN(2) == 0 {
		m.maxReq = mon.Choose(r, int(m.bs), int(2*m.bs), int(3*m.bs)+1, int(m.bs)/2+1)
		res.MaxDesiredRequestSize = uint64(m.maxReq)
	}
	var v blocksources.BlockVerifier
	if r.IntN(2) == 0 && !vast {
		v = verifierFunc(func(start uint, data []byte) bool {
			return bytes.Equal(data, content(int64(start)*m.bs, int64(start)*m.bs+int64(len(data))))
		})
	}
	m.most = int64(mon.Choose(r, 0, 1, int(m.bs), int(m.bs)*2, int(m.bs)*3+1, int(m.bs)*mon.Range(r, 1, 10)-1, 1<<20, 1<<20))
	m.src = blocksources.NewBlockSourceBase(m.q, res, v, m.limit, m.most)
	return m
}

type verifierFunc func(uint, []byte) bool

func (f verifierFunc) VerifyBlockRange(s uint, d []byte) bool { return f(s, d) }

func c05scheduled(c *mon.Case, nblocks, steps int, vast bool) {
	r := c.R
	bubble(c, func() {
		m := newC05(c, nblocks, vast)
		dup := r.IntN(3) == 0
		free := make([]bool, nblocks)
		wAsk, wDone, wGet := 1+r.IntN(4), 1+r.IntN(4), r.IntN(5)
		order := r.IntN(4) // preference for the fetch to complete: random, newest, lowest, highest
		for i := 0; i < steps && !m.failed; i++ {
			switch k := r.IntN(wAsk + wDone + wGet); {
			case k < wAsk:
				s := uint(r.IntN(nblocks))
				e := min(uint(nblocks)-1, s+uint(mon.Choose(r, 0, 0, 1, 2, 5)))
				if !dup {
					if free[s] {
						continue
					}
					for x := s; x <= e; x++ {
						if free[x] {
							e = x - 1
							break
						}
						free[x] = true
					}
				}
				if s < m.near && e >= m.near {
					m.request(m.block(m.near), m.block(e))
					e = m.near - 1
				}
				m.request(m.block(s), m.block(e))
				if r.IntN(4) == 0 {
					continue // several requests before anything else is seen
				}
			case k < wAsk+wDone:
				p := m.q.pending()
				if len(p) == 0 {
					continue
				}
				f := p[r.IntN(len(p))]
				switch order {
				case 1:
					f = p[len(p)-1]
				case 2, 3:
					sort.Slice(p, func(i, j int) bool { return p[i].start < p[j].start })
					f = p[0]
					if order == 3 {
						f = p[len(p)-1]
					}
				}
				m.complete(f)
				if r.IntN(4) == 0 {
					continue
				}
			default:
				quiesce()
				m.check(true)
				m.receive()
			}
			quiesce()
			m.check(false)
		}
		quiesce()
		m.finish()
		c.Count("fetches", m.q.started())
		c.Max("concurrent_fetches", m.q.maxRun)
		c.Count("schedules", 1)
		c.Sig(strings.Join(m.trace, " "), m.limit)
		c.Sample(fmt.Sprintf("limit=%d bs=%d: %s", m.limit, m.bs, strings.Join(m.trace[:min(40, len(m.trace))], " ")))
	})
}

// c05exhaustive runs all interleavings of the arrival, completion and consumption of n one-block requests.
func c05exhaustive(c *mon.Case, n, limit int, ord []uint) {
	var path, width []int
	runs := 0
	base, near := farBlock(c.R, n), uint(c.R.IntN(n))
	for {
		depth := 0
		var trace string
		pick := func(k int) int {
			if depth == len(path) {
				path, width = append(path, 0), append(width, k)
			}
			x := path[depth]
			depth++
			return x
		}
		bubble(c, func() {
			size := int64(base)*4 + int64(4*n-1)
			m := &c05model{c: c, q: &requester{}, want: map[piece]int{}, bs: 4, base: base, near: near, size: size, limit: limit}
			m.src = blocksources.NewBlockSourceBase(m.q, &blocksources.FixedSizeBlockResolver{BlockSize: 4, FileSize: size}, nil, limit, 0)
			asked := 0
			for !m.failed {
				var acts []func()
				if asked < n {
					acts = append(acts, func() { m.request(m.block(ord[asked]), m.block(ord[asked])); asked++ })
				}
				for _, f := range m.q.pending() {
					acts = append(acts, func() { m.complete(f) })
				}
				if l := m.lowest(); l != nil && l.done {
					acts = append(acts, m.receive)
				}
				if len(acts) == 0 {
					break
				}
				acts[pick(len(acts))]()
				quiesce()
				m.check(false)
			}
			m.finish()
			trace = strings.Join(m.trace, " ")
		})
		runs++
		if c.Failed() {
			return
		}
		// next path in depth-first order
		path, width = path[:depth], width[:depth]
		for len(path) > 0 && path[len(path)-1] == width[len(width)-1]-1 {
			path, width = path[:len(path)-1], width[:len(width)-1]
		}
		if len(path) == 0 {
			c.Sample(trace)
			break
		}
		path[len(path)-1]++
	}
	c.Count("schedules", runs)
	c.Count("exhaustive_schedules", runs)
	c.Sig("all", n, limit, ord)
}

// permutations in lexical order
func permutation(n, k int) []uint {
	var l []uint
	for i := 0; i < n; i++ {
		l = append(l, uint(i))
	}
	var out []uint
	for f := n; f > 0; f-- {
		i := k % f
		k /= f
		out = append(out, l[i])
		l = append(l[:i:i], l[i+1:]...)
	}
	return out
}

// c05free lets real goroutines race (for the race detector) and checks what can be known from outside.
func c05free(c *mon.Case, nblocks int) {
	r := c.R
	bs := int64(mon.Choose(r, 1, 4, 100, 4096))
	limit := mon.Choose(r, 1, 2, 3, 8, 16)
	many := nblocks > 1000
	size := int64(nblocks)*bs - int64(r.IntN(int(bs)))
	var running, maxRun, fetched, total atomic.Int64
	seed := r.Uint64()
	q := requesterFunc(func(s, e int64) ([]byte, error) {
		n := running.Add(1)
		for {
			o := maxRun.Load()
			if n <= o || maxRun.CompareAndSwap(o, n) {
				break
			}
		}
		if !many || s%64 == 0 {
			delay(seed ^ uint64(s))
		}
		d := content(s, e)
		fetched.Add(1)
		total.Add(int64(len(d)))
		running.Add(-1)
		return d, nil
	})
	res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs), FileSize: size}
	if r.IntN(2) == 0 {
		res.MaxDesiredRequestSize = uint64(bs) * uint64(mon.Range(r, 1, 4))
	}
	if many {
		res.MaxDesiredRequestSize = uint64(bs)
	}
	var (
		resolver blocksources.BlockSourceOffsetResolver = res
		req      blocksources.BlockSourceRequester      = q
	)
	if r.IntN(3) == 0 { // blocks are stored compressed: ranges are those of the compressed blocks
		z := &packed{FixedSizeBlockResolver: res, start: make([]int64, nblocks), end: make([]int64, nblocks)}
		starts, ends := map[int64]int64{}, map[int64]int64{}
		at := int64(r.IntN(3)) * 1000
		gap := r.IntN(2) * r.IntN(20) // headers between them
		for b := range z.start {
			z.start[b], z.end[b] = at, at+int64(mon.Range(r, 1, int(2*bs)))
			starts[z.start[b]], ends[z.end[b]] = int64(b), int64(b)+1
			at = z.end[b] + int64(gap)
		}
		resolver, req = z, requesterFunc(func(s, e int64) ([]byte, error) {
			first, ok1 := starts[s]
			end, ok2 := ends[e]
			if !ok1 || !ok2 || first >= end {
				c.Violate("fetch of %d-%d, which are not the offsets of compressed blocks", s, e)
				return nil, errFetch
			}
			return q(first*bs, min(size, end*bs))
		})
		c.Count("compressed_executions", 1)
	}
	var v blocksources.BlockVerifier
	if r.IntN(2) == 0 { // which is made for one response at a time
		var sums lookup
		for b := int64(0); b < int64(nblocks); b++ {
			sums.sums = append(sums.sums, gen.Strong(content(b*bs, min(size, (b+1)*bs))))
		}
		v = &filechecksum.HashVerifier{BlockSize: uint(bs), Hash: md5.New(), BlockChecksumGetter: &sums}
		c.Count("verified_executions", 1)
	}
	src := blocksources.NewBlockSourceBase(req, resolver, v, limit, mon.Choose(r, 0, 1, bs, 3*bs, 7*bs+1, 1<<20, 1<<20))
	var spans []piece
	for b := uint(0); b < uint(nblocks); {
		e := min(uint(nblocks)-1, b+uint(r.IntN(4)))
		if many {
			e = min(uint(nblocks)-1, b+uint(r.IntN(nblocks)))
		}
		spans = append(spans, piece{b, e})
		b = e + 1 + uint(r.IntN(2))
	}
	r.Shuffle(len(spans), func(i, j int) { spans[i], spans[j] = spans[j], spans[i] })
	need := 0
	for _, s := range spans {
		need += int(s.end - s.start + 1)
	}
	workers := mon.Range(r, 1, 4)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := w; i < len(spans); i += workers {
				if err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: spans[i].start, EndBlock: spans[i].end, BlockSize: bs}); err != nil {
					c.Violate("request: %v", err)
				}
				src.ReadBytes()
			}
		}()
	}
	seen := map[uint]bool{}
	held := map[uint][]byte{}
	for got := 0; got < need; {
		select {
		case x := <-src.GetResultChannel():
			s := int64(x.StartBlock) * bs
			if !bytes.Equal(x.Data, content(s, min(size, s+int64(len(x.Data))))) || len(x.Data) == 0 {
				c.Violate("block %d delivered with wrong data", x.StartBlock)
				got = need
			}
			held[x.StartBlock] = x.Data
			for k := 0; k*int(bs) < len(x.Data); k++ {
				b := x.StartBlock + uint(k)
				if seen[b] {
					c.Violate("block %d delivered twice", b)
				}
				seen[b] = true
				got++
			}
			if r.IntN(8) == 0 {
				delay(r.Uint64())
			}
		case e := <-src.EncounteredError():
			c.Violate("error %v though nothing failed", e)
			got = need
		}
	}
	wg.Wait()
	for _, s := range spans {
		for b := s.start; b <= s.end; b++ {
			if !seen[b] {
				c.Violate("block %d was not delivered", b)
			}
		}
	}
	// what was delivered belongs to whoever received it
	for b, d := range held {
		if !bytes.Equal(d, content(int64(b)*bs, min(size, int64(b)*bs+int64(len(d))))) {
			c.Violate("the data delivered for block %d changed afterwards", b)
			break
		}
	}
	if src.ReadBytes() != total.Load() {
		c.Violate("%d bytes reported as read, %d were fetched", src.ReadBytes(), total.Load())
	}
	if maxRun.Load() > int64(limit) {
		c.Violate("%d fetches at once, the limit is %d", maxRun.Load(), limit)
	}
	src.Close()
	c.Max("concurrent_fetches", int(maxRun.Load()))
	c.Count("deliveries", need)
	c.Sig("free", nblocks, bs, limit, workers, len(spans), maxRun.Load())
}

// packed resolves blocks to where they are stored compressed.
type packed struct {
	*blocksources.FixedSizeBlockResolver
	start, end []int64
}

func (p *packed) GetBlockStartOffset(b uint) int64 { return p.start[min(b, uint(len(p.start)-1))] }
func (p *packed) GetBlockEndOffset(b uint) int64   { return p.end[min(b, uint(len(p.end)-1))] }

type requesterFunc func(s, e int64) ([]byte, error)

func (f requesterFunc) DoRequest(s, e int64) ([]byte, error) { return f(s, e) }
func (f requesterFunc) IsFatal(error) bool                   { return true }

func delay(seed uint64) {
	switch seed % 5 {
	case 0:
	case 1, 2:
		for i := uint64(0); i < seed>>8%4; i++ {
			runtime.Gosched()
		}
	default:
		time.Sleep(time.Duration(seed>>8%200) * time.Microsecond)
	}
}

func TestC05(t *testing.T) {
	mon.Run(t, "C05",
		mon.Group{Name: "exhaustive-3", Quick: 18, Thorough: 18, Fn: func(c *mon.Case) { c05exhaustive(c, 3, 1+c.I/6, permutation(3, c.I%6)) }},
		mon.Group{Name: "exhaustive-4", Quick: 96, Thorough: 96, Stuck: 1200, Fn: func(c *mon.Case) { c05exhaustive(c, 4, 1+c.I/24, permutation(4, c.I%24)) }},
		mon.Group{Name: "exhaustive-5", Quick: 0, Thorough: 600, Stuck: 3600, Fn: func(c *mon.Case) { c05exhaustive(c, 5, 1+c.I/120, permutation(5, c.I%120)) }},
		mon.Group{Name: "few", Quick: 2500, Thorough: 80000, Fn: func(c *mon.Case) { c05scheduled(c, mon.Range(c.R, 1, 6), 40, false) }},
		mon.Group{Name: "many", Quick: 600, Thorough: 30000, Fn: func(c *mon.Case) { c05scheduled(c, mon.Range(c.R, 5, 60), mon.Range(c.R, 50, 300), false) }},
		mon.Group{Name: "vast", Quick: 800, Thorough: 30000, Fn: func(c *mon.Case) { c05scheduled(c, mon.Range(c.R, 5, 30), mon.Range(c.R, 20, 120), true) }},
		mon.Group{Name: "free", Quick: 600, Thorough: 20000, Fn: func(c *mon.Case) { c05free(c, mon.Range(c.R, 1, 60)) }},
		mon.Group{Name: "queue", Quick: 8, Thorough: 300, Stuck: 400, Fn: func(c *mon.Case) { c05free(c, mon.Range(c.R, 3000, 7000)) }},
	)
}

// ---------------------------------------------------------------------------------------------------

var errFetch = errors.New("injected fetch failure")

// leftover lists goroutines that run code under test; it waits for them to end.
func leftover() (gs []string) {
	for i := 0; i < 400; i++ {
		gs = gs[:0]
		b := make([]byte, 1<<20)
		b = b[:runtime.Stack(b, true)]
		for _, g := range strings.Split(string(b), "\n\n") {
			if strings.Contains(g, mon.SUT) {
				gs = append(gs, g)
			}
		}
		if len(gs) == 0 {
			return nil
		}
		time.Sleep(time.Duration(i/4+1) * time.Millisecond)
	}
	return gs
}

type outcome struct {
	late bool
	err  error
}

// c06scheduled explores failures, closes, late requests and abandoned channels at points of quiescence.
func c06scheduled(c *mon.Case, nblocks, steps int) {
	r := c.R
	var trace []string
	log := func(f string, a ...any) { trace = append(trace, fmt.Sprintf(f, a...)) }
	bad := false
	violate := func(f string, a ...any) {
		if !bad {
			bad = true
			c.Violate("%s\ntrace: %s", fmt.Sprintf(f, a...), strings.Join(trace, " "))
		}
	}
	bubble(c, func() {
		limit := mon.Choose(r, 1, 1, 2, 3, 4, 8, 20)
		bs := int64(4)
		q := &requester{}
		base := farBlock(r, nblocks)
		res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs), FileSize: int64(base+uint(nblocks)) * bs}
		if r.IntN(3) == 0 {
			res.MaxDesiredRequestSize = uint64(bs)
		}
		badData := r.IntN(3) == 0
		var v blocksources.BlockVerifier
		if badData {
			v = verifierFunc(func(start uint, data []byte) bool {
				return bytes.Equal(data, content(int64(start)*bs, int64(start)*bs+int64(len(data))))
			})
		}
		src := blocksources.NewBlockSourceBase(q, res, v, limit, mon.Choose(r, 0, 1, bs, 3*bs, 1<<20, 1<<20, 1<<20))
		var (
			failedAt  = -1 // fetches started when a failure was handled
			closedAt  = -1 // fetches started when a close had returned
			closing   = false
			gotErr    bool
			reqs      atomic.Int64 // outstanding calls
			closes    atomic.Int64
			closeDone atomic.Int64
			resClosed bool
			errClosed bool
			failures  = map[string]bool{}
			failed    int // fetches
			reports   int // errors
			omu       sync.Mutex
			outcomes  []outcome
		)
		ask := func(late bool) {
			s := uint(r.IntN(nblocks))
			e := min(uint(nblocks)-1, s+uint(r.IntN(5)))
			log("ask%d-%d", s, e)
			reqs.Add(1)
			go func() {
				err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: base + s, EndBlock: base + e, BlockSize: bs})
				reqs.Add(-1)
				omu.Lock()
				outcomes = append(outcomes, outcome{late, err})
				omu.Unlock()
			}()
		}
		closeIt := func() {
			log("close")
			closing = true
			closes.Add(1)
			go func() {
				src.Close()
				closeDone.Add(1)
			}()
		}
		settle := func() {
			quiesce()
			if n := reqs.Load(); n != 0 {
				violate("%d requests did not return", n)
			}
			omu.Lock()
			for _, o := range outcomes {
				if o.late && o.err == nil {
					violate("a request made after the source had closed or failed returned no error")
				}
				if !o.late && o.err != nil && !closing && len(failures) == 0 {
					violate("request: %v", o.err)
				}
			}
			outcomes = nil
			omu.Unlock()
			if closes.Load() != closeDone.Load() {
				violate("%d closes did not return", closes.Load()-closeDone.Load())
			}
			if closing && closedAt < 0 {
				closedAt = q.started()
			}
			if closedAt >= 0 && q.started() != closedAt {
				violate("%d fetches were started after close", q.started()-closedAt)
			}
			if len(failures) > 0 && failedAt < 0 {
				failedAt = q.started()
			}
			if failedAt >= 0 && q.started() != failedAt {
				violate("%d queued fetches were started after a failure", q.started()-failedAt)
			}
		}
		fin := func(f *fetch, fail int) {
			f.done = true
			if fail != 0 {
				failed++
			}
			switch fail {
			case 0:
				log("ok%d", f.start/bs)
				f.reply <- reply{data: content(f.start, f.end)}
			case 1:
				e := fmt.Errorf("%w %d", errFetch, f.seq)
				failures[e.Error()] = true
				log("fail%d", f.start/bs)
				f.reply <- reply{err: e}
			case 2:
				d := content(f.start, f.end)
				d[r.IntN(len(d))] ^= 1
				failures["mismatch"] = true
				log("corrupt%d", f.start/bs)
				f.reply <- reply{data: d}
			}
			c.Count("faults", min(fail, 1))
		}
		readErr := func() {
			select {
			case e, ok := <-src.EncounteredError():
				log("err(%v,%v)", e, ok)
				if !ok {
					errClosed = true
					if !closing && len(failures) == 0 {
						violate("the error channel was closed though nothing failed and nobody closed the source")
					}
					return
				}
				if e == nil {
					violate("nil error reported")
					return
				}
				if len(failures) == 0 {
					violate("error %v reported though nothing failed", e)
				}
				if strings.Contains(e.Error(), errFetch.Error()) && !failures[e.Error()] {
					violate("error %v reported, failures were %v", e, failures)
				}
				if reports++; reports > failed {
					violate("%d errors reported for %d failures", reports, failed)
				}
				gotErr = true
			default:
				if len(failures) > 0 && !gotErr && !closing {
					violate("a failed fetch is not reported on the error channel")
				}
			}
		}
		readRes := func() {
			select {
			case x, ok := <-src.GetResultChannel():
				if !ok {
					resClosed = true
					if !closing && len(failures) == 0 {
						violate("the result channel was closed though nothing failed and nobody closed the source")
					}
					return
				}
				log("got%d", x.StartBlock)
				if !bytes.Equal(x.Data, content(int64(x.StartBlock)*bs, int64(x.StartBlock)*bs+int64(len(x.Data)))) || len(x.Data) == 0 {
					violate("corrupt data delivered for block %d", x.StartBlock)
				}
				c.Count("deliveries", 1)
			default:
			}
		}
		wAsk, wFin, wFail, wClose, wErr, wRes := 1+r.IntN(4), 1+r.IntN(4), r.IntN(3), r.IntN(2), r.IntN(2), r.IntN(3)
		lull := r.IntN(4) != 0
		for i := 0; i < steps && !bad; i++ {
			k := r.IntN(wAsk + wFin + wFail + wClose + wErr + wRes)
			burst := r.IntN(4) == 0
			switch {
			case k < wAsk:
				ask(false)
			case k < wAsk+wFin+wFail:
				p := q.pending()
				if len(p) == 0 {
					continue
				}
				n := 1
				if burst {
					n = mon.Range(r, 1, len(p))
				}
				r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
				for _, f := range p[:n] {
					kind := 0
					if k >= wAsk+wFin {
						kind = 1
						if badData && r.IntN(2) == 0 {
							kind = 2
						}
					}
					fin(f, kind)
				}
			case k < wAsk+wFin+wFail+wClose:
				if i < steps/3 {
					continue
				}
				for n := mon.Choose(r, 1, 1, 2, 5); n > 0; n-- {
					closeIt()
				}
			case k < wAsk+wFin+wFail+wClose+wErr:
				quiesce()
				readErr()
			default:
				quiesce()
				readRes()
			}
			if lull || r.IntN(3) == 0 {
				settle()
			}
		}
		settle()
		if len(failures) > 0 && !gotErr && !closing && !bad && r.IntN(2) == 0 {
			readErr()
		}
		// once the failure was received and the running fetches have returned, the source ends by itself
		if gotErr && !closing && !bad && r.IntN(2) == 0 {
			for _, f := range q.pending() {
				fin(f, mon.Choose(r, 0, 1))
				settle()
			}
			for i := 0; i < 3; i++ {
				readErr()
				readRes()
				quiesce()
			}
			if !errClosed || !resClosed {
				violate("after a failure was received and the end of all fetches: error channel closed %v, result channel closed %v", errClosed, resClosed)
			}
			c.Count("ended_by_failure", 1)
		}
		// late requests after a failure or a close
		if (closing || len(failures) > 0) && r.IntN(2) == 0 {
			for n := mon.Range(r, 1, 3); n > 0; n-- {
				ask(true)
			}
			settle()
		}
		before := q.started()
		closeIt() // abandon: nobody reads any more
		if r.IntN(2) == 0 {
			closeIt()
		}
		settle()
		if q.started() != before {
			violate("close started %d fetches", q.started()-before)
		}
		ask(true)
		settle()
		for _, f := range q.pending() {
			fin(f, mon.Choose(r, 0, 1))
			if r.IntN(2) == 0 {
				settle()
			}
		}
		settle()
		// all fetches have returned: the channels are closed
		for i := 0; i < 3; i++ {
			readErr()
			readRes()
		}
		if !errClosed || !resClosed {
			violate("after close and the end of all fetches: error channel closed %v, result channel closed %v", errClosed, resClosed)
		}
		closeIt()
		ask(true)
		settle()
		c.Count("fetches", q.started())
		c.Count("closes", int(closes.Load()))
		c.Sig(strings.Join(trace, " "), limit)
		c.Sample(fmt.Sprintf("limit=%d: %s", limit, strings.Join(trace[:min(40, len(trace))], " ")))
		if bad {
			src.Close()
			for _, f := range q.pending() {
				f.done = true
				f.reply <- reply{err: errFetch}
			}
			go func() {
				for range src.GetResultChannel() {
				}
			}()
			go func() {
				for range src.EncounteredError() {
				}
			}()
		}
	})
}

// c06free: real goroutines race through failures, closes and requests; nothing may be left or crash.
func c06free(c *mon.Case) {
	r := c.R
	limit := mon.Choose(r, 1, 2, 3, 8)
	nblocks := 50
	bs := int64(64)
	failRate := mon.Choose(r, 0, 0, 2, 5, 30)
	seed := r.Uint64()
	var started, closedMark, lateStarts atomic.Int64
	closedMark.Store(-1)
	q := requesterFunc(func(s, e int64) ([]byte, error) {
		n := started.Add(1)
		h := (seed ^ uint64(n)*0x9e3779b97f4a7c15) * 0xbf58476d1ce4e5b9
		delay(h >> 7)
		if failRate > 0 && h>>40%uint64(failRate) == 0 {
			return nil, errFetch
		}
		return content(s, e), nil
	})
	src := blocksources.NewBlockSourceBase(q, &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs), FileSize: int64(nblocks) * bs}, nil, limit, 1<<20)
	var wg sync.WaitGroup
	var errs, oks atomic.Int64
	var closedFlag atomic.Bool
	run := func(f func(r *rand.Rand)) {
		wr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		wg.Add(1)
		go func() { defer wg.Done(); f(wr) }()
	}
	for w := mon.Range(r, 1, 4); w > 0; w-- {
		n := mon.Range(r, 1, 30)
		run(func(r *rand.Rand) {
			for i := 0; i < n; i++ {
				s := uint(r.IntN(nblocks))
				was := closedFlag.Load()
				err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: s, EndBlock: min(uint(nblocks)-1, s+uint(r.IntN(3))), BlockSize: bs})
				if err != nil {
					errs.Add(1)
				} else {
					oks.Add(1)
					if was {
						c.Violate("a request made after close returned no error")
					}
				}
				if r.IntN(4) == 0 {
					delay(r.Uint64())
				}
			}
		})
	}
	stop := make(chan struct{})
	if r.IntN(3) != 0 {
		run(func(r *rand.Rand) {
			for i := 0; ; i++ {
				select {
				case x, ok := <-src.GetResultChannel():
					if !ok {
						return
					}
					s := int64(x.StartBlock) * bs
					if !bytes.Equal(x.Data, content(s, s+int64(len(x.Data)))) || len(x.Data) == 0 {
						c.Violate("wrong data for block %d", x.StartBlock)
					}
				case <-stop:
					return
				}
			}
		})
	}
	if r.IntN(3) != 0 {
		run(func(r *rand.Rand) {
			for {
				select {
				case e, ok := <-src.EncounteredError():
					if !ok {
						return
					}
					if failRate == 0 {
						c.Violate("error %v though nothing failed", e)
					}
				case <-stop:
					return
				}
			}
		})
	}
	closers := mon.Choose(r, 1, 1, 2, 4)
	for w := 0; w < closers; w++ {
		run(func(r *rand.Rand) {
			delay(r.Uint64())
			delay(r.Uint64())
			for i := mon.Choose(r, 1, 1, 2, 3); i > 0; i-- {
				src.Close()
				closedFlag.Store(true)
			}
			src.ReadBytes()
		})
	}
	time.Sleep(time.Duration(r.IntN(500)) * time.Microsecond)
	src.Close()
	closedFlag.Store(true)
	close(stop)
	wg.Wait()
	src.Close()
	_ = lateStarts.Load()
	if gs := leftover(); gs != nil {
		c.Violate("background activity remains after close:\n%s", strings.Join(gs, "\n\n"))
		return
	}
	if _, ok := <-src.GetResultChannel(); ok {
		c.Violate("the result channel is not closed")
	}
	if _, ok := <-src.EncounteredError(); ok {
		c.Violate("the error channel is not closed")
	}
	c.Count("requests_refused", int(errs.Load()))
	c.Count("requests_accepted", int(oks.Load()))
	c.Count("fetches", int(started.Load()))
	c.Sig("free", limit, closers, failRate, errs.Load(), oks.Load(), started.Load())
}

func TestC06(t *testing.T) {
	mon.Run(t, "C06",
		mon.Group{Name: "few", Quick: 6000, Thorough: 150000, Fn: func(c *mon.Case) { c06scheduled(c, mon.Range(c.R, 1, 8), mon.Range(c.R, 0, 30)) }},
		mon.Group{Name: "many", Quick: 800, Thorough: 30000, Fn: func(c *mon.Case) { c06scheduled(c, mon.Range(c.R, 5, 60), mon.Range(c.R, 30, 150)) }},
		mon.Group{Name: "free", Quick: 1500, Thorough: 40000, Stuck: 30, Fn: c06free},
		mon.Group{Name: "operation", Quick: 400, Thorough: 10000, Stuck: 30, Fn: c06operation},
	)
}

var _ = gen.ErrInjected
