package unit

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"

	"vh/gen"
	"vh/mon"
)

// ---------------------------------------------------------------------------------------------------
// C30: no reading ahead without bound, no memory that grows with the data

// endless produces size bytes of content, counts what was taken and calls look now and then.
type endless struct {
	pattern []byte // repeated; nil: every 8 bytes their own number
	size    int64
	pos     int64
	taken   atomic.Int64
	every   int64
	next    int64
	look    func(pos int64)
	mu      sync.Mutex // for looks from ReadAt
}

func (e *endless) fill(p []byte, pos int64) {
	if e.pattern != nil {
		for n := 0; n < len(p); {
			n += copy(p[n:], e.pattern[(pos+int64(n))%int64(len(e.pattern)):])
		}
		return
	}
	var w [8]byte
	for n := 0; n < len(p); {
		at := pos + int64(n)
		binary.LittleEndian.PutUint64(w[:], (uint64(at>>3)+1)*0x9e3779b97f4a7c15)
		n += copy(p[n:], w[at&7:])
	}
}

func (e *endless) Read(p []byte) (int, error) {
	if e.pos >= e.size {
		return 0, io.EOF
	}
	n := min(int64(len(p)), e.size-e.pos)
	e.fill(p[:n], e.pos)
	e.pos += n
	e.taken.Add(n)
	if e.look != nil && e.pos >= e.next {
		e.next = e.pos + e.every
		e.look(e.pos)
	}
	return int(n), nil
}

func (e *endless) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += e.pos
	case io.SeekEnd:
		off += e.size
	}
	e.pos = off
	return off, nil
}

func (e *endless) ReadAt(p []byte, off int64) (int, error) {
	if off >= e.size {
		return 0, io.EOF
	}
	n := min(int64(len(p)), e.size-off)
	e.fill(p[:n], off)
	if total := e.taken.Add(n); e.look != nil {
		e.mu.Lock()
		if total >= e.next {
			e.next = total + e.every
			e.look(total)
		}
		e.mu.Unlock()
	}
	if n < int64(len(p)) {
		return int(n), io.EOF
	}
	return int(n), nil
}

// live is the amount of memory that is reachable.
func live() int64 {
	var m runtime.MemStats
	runtime.GC()
	runtime.GC() // what the first one found in pools
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// memory watches the reachable memory at points it is told of.
type memory struct {
	c      *mon.Case
	base   int64
	limit  int64
	desc   string
	looks  int
	failed bool
}

func (m *memory) look(at int64) {
	if m.failed {
		return
	}
	m.looks++
	grown := live() - m.base
	m.c.Max("grown_kb", int(max(0, grown)/1024))
	if grown > m.limit {
		m.failed = true
		m.c.Violate("%d bytes are held after %d bytes of data, which should need no more than %d: %s", grown, at, m.limit, m.desc)
	}
}

const mib = 1 << 20

func c30generateStall(c *mon.Case) {
	r := c.R
	bs := int64(mon.Choose(r, 64, 100, 512, 4096, 8192))
	batch := mon.Range(r, 1, 70)
	take := mon.Range(r, 0, 12)
	slack := (8*int64(batch)+64)*bs + 4*mib
	e := &endless{size: (int64(take)*int64(batch))*bs + 4*slack, pattern: nil}
	if r.IntN(2) == 0 {
		e.pattern = gen.Random(r, int(bs))
	}
	desc := fmt.Sprintf("bs=%d batch=%d taken=%d", bs, batch, take)
	bubble(c, func() {
		ch := filechecksum.NewFileChecksumGenerator(uint(bs)).StartChecksumGeneration(e, uint(batch), nil)
		blocks := int64(0)
		for k := 0; k < take; k++ {
			x := <-ch
			blocks += int64(len(x.Checksums))
		}
		quiesce()
		if ahead := e.taken.Load() - blocks*bs; ahead > slack {
			c.Violate("generation has read %d bytes ahead of a consumer that waits: %s", ahead, desc)
		}
		c.Max("ahead_blocks", int((e.taken.Load()-blocks*bs)/bs))
		e.size = min(e.size, e.pos) // the end of it, so that generation ends
		for range ch {
		}
	})
	c.Count("stalls", 1)
	c.Sig("generate", desc)
}

func c30scanStall(c *mon.Case) {
	r := c.R
	bs := int64(mon.Choose(r, 64, 100, 512, 4096, 8192))
	take := mon.Range(r, 0, 40)
	slack := 128*bs + 4*mib
	ref := gen.Random(r, int(bs)*mon.Range(r, 1, 5))
	e := &endless{size: int64(take)*bs + 4*slack, pattern: ref}
	desc := fmt.Sprintf("bs=%d taken=%d", bs, take)
	idx := ownIndex(ref, int(bs))
	bubble(c, func() {
		ch := (&comparer.Comparer{}).StartFindMatchingBlocks(e, 0, filechecksum.NewFileChecksumGenerator(uint(bs)), idx)
		for k := 0; k < take; k++ {
			if x := <-ch; x.Err != nil {
				c.Violate("error %v in a scan without failures: %s", x.Err, desc)
			}
		}
		quiesce()
		if ahead := e.taken.Load() - int64(take)*bs; ahead > slack {
			c.Violate("the scan has read %d bytes ahead of a consumer that waits: %s", ahead, desc)
		}
		c.Max("ahead_blocks", int((e.taken.Load()-int64(take)*bs)/bs))
		e.size = min(e.size, e.pos)
		for range ch {
		}
	})
	c.Count("stalls", 1)
	c.Sig("scan", desc)
}

func c30memory(c *mon.Case, what string) {
	r := c.R
	bs := mon.Choose(r, 1024, 8192, 65536, 100_000)
	size := int64(mon.Range(r, 24, 48)) * mib
	if mon.Thorough() {
		size *= int64(mon.Range(r, 1, 16))
	}
	e := &endless{size: size, every: size / 9}
	m := &memory{c: c, limit: 3*mib + 32*int64(bs), desc: fmt.Sprintf("%s bs=%d size=%d", what, bs, size)}
	e.look = m.look
	e.next = e.every
	switch what {
	case "generate":
		// records are what the caller gets: none of them is kept here
		g := filechecksum.NewFileChecksumGenerator(uint(bs))
		m.base = live()
		if _, err := g.GenerateChecksums(e, io.Discard); err != nil {
			c.Violate("generation failed: %v: %s", err, m.desc)
		}
	case "scan":
		pat := gen.Random(r, bs*8)
		idx := ownIndex(pat[:bs*3], bs)
		if r.IntN(3) == 0 { // a part without matches is slower
			e.size = 10 * mib
			e.every, e.next = e.size/9, e.size/9
		} else {
			e.pattern = pat[:bs*mon.Range(r, 1, 3)]
		}
		cmp := &comparer.Comparer{}
		m.base = live()
		for x := range cmp.StartFindMatchingBlocks(e, 0, filechecksum.NewFileChecksumGenerator(uint(bs)), idx) {
			if x.Err != nil {
				c.Violate("scan failed: %v: %s", x.Err, m.desc)
			}
		}
	case "merge":
		// all matches are for few blocks, so little is left to remember
		e.pattern = gen.Random(r, bs)
		idx := ownIndex(e.pattern, bs)
		cmp, mg := &comparer.Comparer{}, &comparer.MatchMerger{}
		m.base = live()
		mg.StartMergeResultStream(cmp.StartFindMatchingBlocks(e, 0, filechecksum.NewFileChecksumGenerator(uint(bs)), idx), int64(bs))
		if l := mg.GetMergedBlocks(); len(l) != 1 {
			c.Violate("%d spans, want one: %s", len(l), m.desc)
		}
	case "copy":
		// one found span: as much as its span says is copied
		nblocks := size / int64(bs)
		e.size = nblocks * int64(bs)
		w := &countWriter{}
		src := scriptSource{c: c}
		m.base = live()
		if err := sequential.SequentialPatcher(e, &src, nil, []patcher.FoundBlockSpan{{StartBlock: 0, EndBlock: uint(nblocks - 1), BlockSize: int64(bs)}}, 20*mib, w); err != nil || w.n != e.size {
			c.Violate("copying failed: %v, %d of %d bytes: %s", err, w.n, e.size, m.desc)
		}
	}
	if m.looks < 4 {
		c.Violate("the data was read in %d pieces only: %s", m.looks, m.desc)
	}
	c.Count("looks", m.looks)
	c.Count("megabytes", int(e.taken.Load()/mib))
	c.Sig(m.desc)
	c.Sample(m.desc)
}

type countWriter struct {
	n    int64
	look func(int64)
}

func (w *countWriter) Write(p []byte) (int, error) {
	w.n += int64(len(p))
	if w.look != nil {
		w.look(w.n)
	}
	return len(p), nil
}

type blockSums struct {
	idx  *index.ChecksumIndex
	sums map[int][]byte
}

func (s blockSums) GetStrongChecksumForBlock(b int) []byte { return s.sums[b] }

// c30patch patches a large file that is there completely: what is held does not depend on its size.
func c30patch(c *mon.Case) {
	r := c.R
	bs := mon.Choose(r, 8192, 65536)
	nblocks := mon.Range(r, 300, 700) * (65536 / bs)
	if mon.Thorough() {
		nblocks *= mon.Range(r, 1, 6)
	}
	e := &endless{size: int64(nblocks) * int64(bs)}
	var recs []chunks.ChunkChecksum
	sums := map[int][]byte{}
	b := make([]byte, bs)
	for i := 0; i < nblocks; i++ {
		e.fill(b, int64(i)*int64(bs))
		w, s := gen.Weak(b), md5.Sum(b)
		recs = append(recs, chunks.ChunkChecksum{ChunkOffset: uint(i), Size: int64(bs), WeakChecksum: w[:], StrongChecksum: s[:]})
		sums[i] = s[:]
	}
	fs := &gosync.BasicSummary{ChecksumIndex: index.MakeChecksumIndex(recs), ChecksumLookup: blockSums{sums: sums}, BlockCount: uint(nblocks), BlockSize: uint(bs), FileSize: e.size}
	recs = nil
	// buffers of a megabyte and some blocks for each of the concurrent scans, 200 bytes for a matched block
	limit := 3*mib + int64(gosync.DefaultConcurrency)*(3*mib+16*int64(bs)) + int64(nblocks)*200
	m := &memory{c: c, limit: min(limit, e.size/2), desc: fmt.Sprintf("patch bs=%d blocks=%d", bs, nblocks)}
	m.base = live()
	every, next := e.size/10, int64(0)
	e.every = every
	e.look = m.look // while it is scanned
	w := &countWriter{look: func(n int64) {
		if n >= next {
			next = n + every
			m.look(n)
		}
	}}
	src := &scriptSource{c: c}
	e.next = every
	rs := &gosync.RSync{Input: e, Source: src, Output: w, Summary: fs}
	if err := rs.Patch(); err != nil || w.n != e.size {
		c.Violate("patching failed: %v, %d of %d bytes: %s", err, w.n, e.size, m.desc)
	}
	c.Count("looks", m.looks)
	c.Count("megabytes", int(e.taken.Load()/mib))
	c.Sig(m.desc)
}

// remote makes up what is asked of it.
type remote struct {
	e    *endless
	look func(int64)
	got  int64
	most int64
}

func (q *remote) DoRequest(s, e int64) ([]byte, error) {
	b := make([]byte, e-s)
	q.e.fill(b, s)
	q.got += e - s
	q.most = max(q.most, e-s)
	q.look(q.got)
	return b, nil
}

func (q *remote) IsFatal(error) bool { return true }

// c30fetch patches files of which (nearly) nothing is there, one request at a time.
func c30fetch(c *mon.Case) {
	r := c.R
	bs := mon.Choose(r, 1000, 8192, 65536)
	storage := int64(mon.Choose(r, 1, 2, 5, 20)) * mib
	size := 4*storage + int64(mon.Range(r, 32, 64))*mib
	nblocks := uint(size / int64(bs))
	size = int64(nblocks) * int64(bs)
	e := &endless{size: size, pattern: gen.Random(r, 1<<16+5)}
	whole := r.IntN(2) == 0 // a whole operation
	m := &memory{c: c, desc: fmt.Sprintf("fetch bs=%d blocks=%d storage=%d whole=%v", bs, nblocks, storage, whole)}
	if whole {
		storage = 20 * mib // what an operation allows itself
		size = 6 * storage
		nblocks = uint(size / int64(bs))
		size = int64(nblocks) * int64(bs)
	}
	// a response is held by the source and by the patcher, and the next one may be under way
	m.limit = 2*storage + 4*mib
	q := &remote{e: e, look: func(n int64) { m.look(n) }}
	src := blocksources.NewBlockSourceBase(q, blocksources.MakeFileSizedBlockResolver(uint64(bs), size), nil, 2, 4*mib)
	defer src.Close()
	w := &countWriter{}
	var err error
	m.base = live()
	if whole {
		m.limit += int64(gosync.DefaultConcurrency) * (3*mib + 16*int64(bs))
		var fs gosync.FileSummary = &gosync.BasicSummary{ChecksumIndex: index.MakeChecksumIndex(nil), ChecksumLookup: blockSums{}, BlockCount: nblocks, BlockSize: uint(bs), FileSize: size}
		err = (&gosync.RSync{Input: bytes.NewReader(make([]byte, bs)), Source: src, Output: w, Summary: fs}).Patch()
	} else {
		err = sequential.SequentialPatcher(bytes.NewReader(nil), src, []patcher.MissingBlockSpan{{StartBlock: 0, EndBlock: nblocks - 1, BlockSize: int64(bs)}}, nil, uint64(storage), w)
	}
	if err != nil || w.n != size {
		c.Violate("patching failed: %v, %d of %d bytes: %s", err, w.n, size, m.desc)
	}
	if q.most > storage {
		c.Violate("%d bytes were fetched at once, though no more than %d may be stored: %s", q.most, storage, m.desc)
	}
	c.Count("looks", m.looks)
	c.Count("megabytes", int(q.got/mib))
	c.Sig(m.desc)
	c.Sample(m.desc)
}

// c30source: a source of blocks whose consumer has stalled holds no more than it is allowed to.
func c30source(c *mon.Case) {
	r := c.R
	bs := int64(mon.Choose(r, 64, 1000, 8192, 65536))
	most := int64(mon.Choose(r, 1, 10_000, 100_000, 4*mib))
	fetches := mon.Range(r, 1, 8)
	per := int64(mon.Range(r, 1, 5))
	nblocks := uint(min(3000, 4*most/bs/per+40) * per)
	e := &endless{size: int64(nblocks) * bs, pattern: gen.Random(r, 1<<16+5)}
	desc := fmt.Sprintf("bs=%d blocks=%d bytes=%d fetches=%d per=%d", bs, nblocks, most, fetches, per)
	bubble(c, func() {
		var asked, delivered atomic.Int64
		q := &remote{e: e, look: func(n int64) {}}
		src := blocksources.NewBlockSourceBase(asking{q, &asked}, &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs), FileSize: e.size, MaxDesiredRequestSize: uint64(bs * per)}, nil, fetches, most)
		if err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: 0, EndBlock: nblocks - 1, BlockSize: bs}); err != nil {
			c.Violate("request: %v", err)
		}
		next := uint(0)
		for next < nblocks && !c.Failed() {
			quiesce()
			ahead := asked.Load() - delivered.Load()
			c.Max("held_kb", int(ahead/1024))
			if ahead > max(most, per*bs) {
				c.Violate("%d bytes were fetched for a consumer that waits, %d may be: %s", ahead, most, desc)
			}
			select {
			case x := <-src.GetResultChannel():
				if x.StartBlock != next {
					c.Violate("block %d was delivered, want %d: %s", x.StartBlock, next, desc)
				}
				next += uint(int64(len(x.Data)) / bs)
				delivered.Add(int64(len(x.Data)))
			default:
				c.Violate("nothing is delivered, though block %d is to be: %s", next, desc)
			}
		}
		src.Close()
	})
	c.Count("stalls", 1)
	c.Sig("source", desc)
}

type asking struct {
	q     *remote
	asked *atomic.Int64
}

func (a asking) DoRequest(s, e int64) ([]byte, error) {
	a.asked.Add(e - s)
	b := make([]byte, e-s)
	a.q.e.fill(b, s)
	return b, nil
}

func (a asking) IsFatal(error) bool { return true }

func TestC30(t *testing.T) {
	gosync.DefaultConcurrency = 2
	groups := []mon.Group{
		{Name: "generate-stall", Quick: 300, Thorough: 5000, Fn: c30generateStall},
		{Name: "scan-stall", Quick: 300, Thorough: 5000, Fn: c30scanStall},
	}
	for _, k := range []string{"generate", "scan", "merge", "copy"} {
		groups = append(groups, mon.Group{Name: k, Quick: 16, Thorough: 200, Fn: func(c *mon.Case) { c30memory(c, k) }})
	}
	groups = append(groups,
		mon.Group{Name: "source-stall", Quick: 300, Thorough: 5000, Fn: c30source},
		mon.Group{Name: "fetch", Quick: 16, Thorough: 200, Fn: c30fetch})
	groups = append(groups, mon.Group{Name: "patch", Quick: 8, Thorough: 100, Fn: c30patch})
	mon.Run(t, "C30", groups...)
}

// ---------------------------------------------------------------------------------------------------
// C31: the comparer's counters

// countingIndex counts what a comparer asks and what it is told.
type countingIndex struct {
	comparer.Index
	weak, weakHits, strongHits atomic.Int64
}

func (x *countingIndex) FindWeakChecksum2(chk []byte) interface{} {
	w := x.Index.FindWeakChecksum2(chk)
	x.weak.Add(1)
	if w != nil {
		x.weakHits.Add(1)
	}
	return w
}

func (x *countingIndex) FindStrongChecksum2(chk []byte, weak interface{}) []chunks.ChunkChecksum {
	l := x.Index.FindStrongChecksum2(chk, weak)
	if len(l) > 0 {
		x.strongHits.Add(1)
	}
	return l
}

func c31case(c *mon.Case, scans, maxLen int) {
	r := c.R
	p := gen.NewPair(r, 64, maxLen)
	x := &countingIndex{Index: ownIndex(p.Ref, p.BS)}
	cmp := &comparer.Comparer{}
	var offs []chan map[int64]bool
	for k := 0; k < scans; k++ {
		data := p.Local
		if k > 0 {
			data, _ = gen.Edit(r, p.Ref, p.BS)
		}
		var rd io.Reader = &gen.ChunkReader{Data: bytes.Clone(data), R: rand.New(rand.NewPCG(r.Uint64(), 3)), Style: r.IntN(gen.Styles)}
		if r.IntN(4) == 0 {
			rd = io.LimitReader(rd, r.Int64N(int64(len(data))+1))
		}
		ch := cmp.StartFindMatchingBlocks(rd, 0, filechecksum.NewFileChecksumGenerator(uint(p.BS)), x)
		out := make(chan map[int64]bool, 1)
		offs = append(offs, out)
		go func() {
			m := map[int64]bool{}
			for b := range ch {
				if b.Err == nil {
					m[b.ComparisonOffset] = true
				}
			}
			out <- m
		}()
	}
	matched := int64(0)
	for _, o := range offs {
		m := <-o
		matched += int64(len(m))
	}
	desc := fmt.Sprintf("%s, %d scans", p.Desc, scans)
	check := func(what string, got int64, want int64) {
		if got != want {
			c.Violate("%s is %d, want %d: %s", what, got, want, desc)
		}
	}
	check("Comparisons", cmp.Comparisons, x.weak.Load())
	check("WeakHashHits", cmp.WeakHashHits, x.weakHits.Load())
	check("StrongHashHits", cmp.StrongHashHits, x.strongHits.Load())
	check("StrongHashHits (positions reported as matches)", cmp.StrongHashHits, matched)
	c.Count("comparisons", int(cmp.Comparisons))
	c.Count("weak_hits", int(cmp.WeakHashHits))
	c.Count("strong_hits", int(cmp.StrongHashHits))
	c.Count("false_hits", int(cmp.WeakHashHits-cmp.StrongHashHits))
	c.Sig(desc)
	c.Sample(desc)
}

func TestC31(t *testing.T) {
	mon.Run(t, "C31",
		mon.Group{Name: "single", Quick: 1500, Thorough: 60000, Fn: func(c *mon.Case) { c31case(c, 1, 3000) }},
		mon.Group{Name: "shared", Quick: 600, Thorough: 30000, Fn: func(c *mon.Case) { c31case(c, mon.Range(c.R, 2, 8), 3000) }},
	)
}
