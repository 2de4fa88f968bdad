package unit

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/binary"
	"errors"
	"fmt"
	"hash"
	"io"
	"math"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync/atomic"
	"testing"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/indexbuilder"

	"vh/gen"
	"vh/mon"
)

// ownIndex builds the index from independently computed checksums.
func ownIndex(ref []byte, bs int) *index.ChecksumIndex {
	var cs []chunks.ChunkChecksum
	for i, b := range gen.Blocks(ref, bs) {
		w := gen.Weak(b)
		cs = append(cs, chunks.ChunkChecksum{ChunkOffset: uint(i), Size: int64(bs), WeakChecksum: w[:], StrongChecksum: gen.Strong(b)})
	}
	return index.MakeChecksumIndex(cs)
}

func builtIndex(c *mon.Case, ref []byte, bs int) *index.ChecksumIndex {
	_, idx, _, err := indexbuilder.BuildChecksumIndex(filechecksum.NewFileChecksumGenerator(uint(bs)), bytes.NewReader(ref))
	if err != nil {
		c.Violate("index of %d bytes, block size %d: %v", len(ref), bs, err)
		return ownIndex(ref, bs)
	}
	return idx
}

// ownWeak is a rolling hash of the user's own: bits of the rollsum, some flipped, and possibly more behind them.
type ownWeak struct {
	filechecksum.RollingHash
	mask, flip uint32
	more       int
}

func newWeak(r *rand.Rand, in filechecksum.RollingHash) *ownWeak {
	return &ownWeak{
		RollingHash: in,
		mask:        mon.Choose(r, uint32(math.MaxUint32), math.MaxUint32, 0xff00ff, 0xffff0000),
		flip:        r.Uint32() * uint32(r.IntN(2)),
		more:        mon.Choose(r, 0, 0, 1, 4, 12),
	}
}

func (o *ownWeak) String() string {
	return fmt.Sprintf("weak hash &%08x ^%08x +%d", o.mask, o.flip, o.more)
}

func (o *ownWeak) Size() int { return 4 + o.more }

func (o *ownWeak) fill(sum []byte) {
	v := binary.LittleEndian.Uint32(sum)&o.mask ^ o.flip
	binary.LittleEndian.PutUint32(sum, v)
	for i := range o.more {
		sum[4+i] = byte(v>>(i&7)) ^ byte(i)
	}
}

func (o *ownWeak) GetSum(b []byte) {
	o.RollingHash.GetSum(b[:4])
	o.fill(b)
}

// of is the checksum of a block; a nil hash is the default one.
func (o *ownWeak) of(block []byte) []byte {
	w := gen.Weak(block)
	if o == nil {
		return w[:]
	}
	out := append(w[:], make([]byte, o.more)...)
	o.fill(out)
	return out
}

func hashedIndex(ref []byte, bs int, weak *ownWeak, f func() hash.Hash) *index.ChecksumIndex {
	var cs []chunks.ChunkChecksum
	for i, b := range gen.Blocks(ref, bs) {
		cs = append(cs, chunks.ChunkChecksum{ChunkOffset: uint(i), Size: int64(bs), WeakChecksum: weak.of(b), StrongChecksum: sum(f, b)})
	}
	return index.MakeChecksumIndex(cs)
}

type scanner struct {
	gen *filechecksum.FileChecksumGenerator
}

func (s *scanner) scan(bs int, r io.Reader, base int64, idx comparer.Index) (res []comparer.BlockMatchResult) {
	g := s.gen
	if g == nil {
		g = filechecksum.NewFileChecksumGenerator(uint(bs))
	}
	cmp := &comparer.Comparer{}
	for m := range cmp.StartFindMatchingBlocks(r, base, g, idx) {
		res = append(res, m)
	}
	return
}

// checkScan is the oracle for C07 (sound) and C08 (complete).
func checkScan(c *mon.Case, ref, data []byte, bs int, base int64, res []comparer.BlockMatchResult, sound, complete bool, desc string) {
	blocks := gen.Blocks(ref, bs)
	partial := len(ref) % bs
	reported := map[int]map[int]bool{}
	var errs int
	for _, m := range res {
		if m.Err != nil {
			errs++
			continue
		}
		off := m.ComparisonOffset - base
		ok := int(m.BlockIdx) < len(blocks) && off >= 0 && off <= int64(len(data))
		if ok {
			b := blocks[m.BlockIdx]
			e := off + int64(len(b))
			ok = e <= int64(len(data)) && bytes.Equal(data[off:e], b) && (len(b) == bs || e == int64(len(data)))
		}
		if !ok {
			if sound {
				c.Violate("reported match is not genuine: block %d at offset %d (base %d): %s\nref=%s\ndata=%s", m.BlockIdx, m.ComparisonOffset, base, desc, mon.Quote(ref), mon.Quote(data))
			}
			continue
		}
		if reported[int(off)] == nil {
			reported[int(off)] = map[int]bool{}
		}
		reported[int(off)][int(m.BlockIdx)] = true
	}
	c.Count("matches", len(res)-errs)
	if !complete || len(data) < bs {
		return
	}
	if errs > 0 {
		c.Violate("scan of %d bytes reported an error though no read failed: %s", len(data), desc)
		return
	}
	occ := gen.Occurrences(ref, data, bs)
	c.Count("occurrences", len(occ))
	starts := make([]int, 0, len(reported))
	for y := range reported {
		starts = append(starts, y)
	}
	sort.Ints(starts)
	next, covered := 0, 0 // covered: the furthest end of a match reported before the occurrence at hand
	for _, o := range occ {
		for ; next < len(starts) && starts[next] < o.Off; next++ {
			for b := range reported[starts[next]] {
				covered = max(covered, starts[next]+len(blocks[b]))
			}
		}
		if got := reported[o.Off]; got != nil {
			for _, b := range o.Blocks {
				if !got[b] {
					c.Violate("match at %d reported without block %d, which has the same content: %s\nref=%s\ndata=%s", o.Off, b, desc, mon.Quote(ref), mon.Quote(data))
					return
				}
			}
			continue
		}
		overlapped := covered > o.Off
		if !overlapped {
			c.Violate("block(s) %v present at offset %d not reported: %s\nref=%s\ndata=%s", o.Blocks, o.Off, desc, mon.Quote(ref), mon.Quote(data))
			return
		}
	}
	if partial != 0 && bytes.HasSuffix(data, blocks[len(blocks)-1]) {
		x := len(data) - partial
		c.Count("partial_tails_present", 1)
		overlap := false
		for y := range reported {
			for b := range reported[y] {
				if len(blocks[b]) == bs && y+bs > x {
					overlap = true
				}
			}
		}
		if !overlap && !reported[x][len(blocks)-1] {
			c.Violate("short final block %d at end of data (offset %d) not reported: %s\nref=%s\ndata=%s", len(blocks)-1, x, desc, mon.Quote(ref), mon.Quote(data))
		}
	}
}

func scanRandom(sound, complete bool, maxBS, maxLen int) func(c *mon.Case) {
	return scanPair(sound, complete, func(r *rand.Rand) gen.Pair { return gen.NewPair(r, maxBS, maxLen) })
}

func scanPair(sound, complete bool, pair func(r *rand.Rand) gen.Pair) func(c *mon.Case) {
	return func(c *mon.Case) {
		p := pair(c.R)
		var idx *index.ChecksumIndex
		s := &scanner{}
		custom := ""
		if c.R.IntN(4) == 0 { // hashes of the user's own
			h := mon.Choose(c.R, md5.New, sha1.New, sha256.New, sha512.New)
			g := filechecksum.NewFileChecksumGenerator(uint(p.BS))
			g.StrongHash = h()
			custom = fmt.Sprintf(" strong hash of %d bytes", g.StrongHash.Size())
			var weak *ownWeak
			if c.R.IntN(2) == 0 {
				weak = newWeak(c.R, g.WeakRollingHash)
				g.WeakRollingHash = weak
				custom += ", " + weak.String()
			}
			idx = hashedIndex(p.Ref, p.BS, weak, h)
			if c.R.IntN(2) == 0 {
				var err error
				if _, idx, _, err = indexbuilder.BuildChecksumIndex(g, bytes.NewReader(p.Ref)); err != nil {
					c.Violate("index of %d bytes, block size %d: %v:%s", len(p.Ref), p.BS, err, custom)
					return
				}
			}
			s.gen = g
			c.Count("custom_hashes", 1)
		} else if c.R.IntN(2) == 0 {
			idx = ownIndex(p.Ref, p.BS)
		} else {
			idx = builtIndex(c, p.Ref, p.BS)
		}
		base := mon.Choose(c.R, int64(0), 0, 1, int64(p.BS), 12345, 1<<31-3, 1<<32+7, 1<<40, 1<<55)
		if c.R.IntN(3) == 0 { // a generator used before, sequentially
			if s.gen == nil {
				s.gen = filechecksum.NewFileChecksumGenerator(uint(p.BS))
			}
			s.scan(p.BS, bytes.NewReader(gen.Random(c.R, c.R.IntN(3*p.BS))), 0, idx)
		}
		rd, style := gen.Reader(c.R, p.Local, c.Dir)
		desc := fmt.Sprintf("%s input %s%s", p.Desc, style, custom)
		res := s.scan(p.BS, rd, base, idx)
		checkScan(c, p.Ref, p.Local, p.BS, base, res, sound, complete, desc)
		c.Count("scanned_bytes", len(p.Local))
		if len(p.Ref) > 0 && len(p.Local) >= p.BS {
			c.Sig(p.Desc, style, base)
			c.Sample(fmt.Sprintf("%s base=%d -> %d matches", desc, base, len(res)))
		}
	}
}

// all binary/ternary references and data of small size
func scanExhaustive(sound, complete bool) func(c *mon.Case) {
	return func(c *mon.Case) {
		bs := 1 + c.I%4
		refLen := 1 + (c.I/4)%7
		k := c.I / 28
		maxData := 8
		if mon.Thorough() {
			maxData = 10
		}
		nref := 1 << refLen
		for rv := k * nref / 4; rv < (k+1)*nref/4; rv++ {
			ref := make([]byte, refLen)
			for i := range ref {
				ref[i] = byte(rv >> i & 1)
			}
			idx := ownIndex(ref, bs)
			g := &scanner{}
			for dl := bs; dl <= maxData; dl++ {
				for dv := 0; dv < 1<<dl; dv++ {
					data := make([]byte, dl)
					for i := range data {
						data[i] = byte(dv >> i & 1)
					}
					res := g.scan(bs, bytes.NewReader(data), 0, idx)
					checkScan(c, ref, data, bs, 0, res, sound, complete, "exhaustive")
					c.Count("exhaustive_scans", 1)
					if c.Failed() {
						return
					}
				}
			}
		}
		c.Sig(c.I)
	}
}

// one block placed at every alignment among filler, after zero or more earlier matches at odd positions
func scanAlignments(sound, complete bool) func(c *mon.Case) {
	return func(c *mon.Case) {
		r := c.R
		bs := mon.Choose(r, 1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 64, 100)
		nb := mon.Range(r, 2, 12)
		ref := gen.Random(r, nb*bs+r.IntN(bs))
		if r.IntN(3) == 0 {
			for i := range ref {
				ref[i] &= 1
			}
		}
		tail := ref[nb*bs:]
		idx := ownIndex(ref, bs)
		for lead := 0; lead <= 2*bs+1 && lead < 70; lead++ {
			data := gen.Random(r, lead)
			for k := r.IntN(4); k >= 0; k-- {
				b := r.IntN(nb)
				data = append(data, ref[b*bs:(b+1+r.IntN(nb-b))*bs]...)
				data = append(data, gen.Random(r, r.IntN(bs+2))...)
			}
			switch r.IntN(3) {
			case 0:
				data = append(data, ref[(nb-1)*bs:]...)
			case 1:
				data = append(data, tail...)
			}
			style := r.IntN(gen.Styles)
			res := (&scanner{}).scan(bs, &gen.ChunkReader{Data: bytes.Clone(data), R: r, Style: style}, 0, idx)
			checkScan(c, ref, data, bs, 0, res, sound, complete, fmt.Sprintf("alignment lead=%d bs=%d style=%d", lead, bs, style))
			c.Count("alignments", 1)
			if c.Failed() {
				return
			}
		}
		c.Sig(bs, len(ref))
	}
}

// windows with equal weak checksum but different content, adjacent to real blocks
func scanCollisions(sound, complete bool) func(c *mon.Case) {
	return func(c *mon.Case) {
		r := c.R
		bs := mon.Choose(r, 3, 4, 5, 8, 13, 16, 32, 64)
		base := make([]byte, bs)
		for i := range base {
			base[i] = byte(mon.Range(r, 3, 250))
			if r.IntN(2) == 0 {
				base[i] = byte(mon.Range(r, 3, 8))
			}
		}
		var pool [][]byte
		pool = append(pool, base)
		for i := 0; i < 12; i++ {
			if x := gen.Collide(r, pool[r.IntN(len(pool))]); x != nil {
				pool = append(pool, x)
			}
		}
		var ref, data []byte
		for i := 0; i < mon.Range(r, 2, 30); i++ {
			ref = append(ref, pool[r.IntN((len(pool)+1)/2)]...)
		}
		ref = append(ref, pool[0][:r.IntN(bs)]...)
		for i := 0; i < mon.Range(r, 2, 40); i++ {
			data = append(data, pool[r.IntN(len(pool))]...)
			if r.IntN(3) == 0 {
				data = append(data, gen.Random(r, r.IntN(bs))...)
			}
		}
		idx := ownIndex(ref, bs)
		cmp := &comparer.Comparer{}
		var res []comparer.BlockMatchResult
		for m := range cmp.StartFindMatchingBlocks(bytes.NewReader(data), 0, filechecksum.NewFileChecksumGenerator(uint(bs)), idx) {
			res = append(res, m)
		}
		checkScan(c, ref, data, bs, 0, res, sound, complete, fmt.Sprintf("collisions bs=%d", bs))
		c.Count("weak_hits", int(cmp.WeakHashHits))
		c.Count("weak_false_positives", int(cmp.WeakHashHits-cmp.StrongHashHits))
		c.Sig(bs, len(ref), len(data), len(pool))
	}
}

// segments is a reader of pieces, each repeated.
type segments struct {
	parts []segment
	size  int64
	pos   int64 // in the part
}

type segment struct {
	b []byte
	n int64
}

func (s *segments) add(b []byte, n int64) {
	if len(b) > 0 && n > 0 {
		s.parts = append(s.parts, segment{b, n})
		s.size += int64(len(b)) * n
	}
}

func (s *segments) Read(p []byte) (n int, err error) {
	for n < len(p) {
		if len(s.parts) == 0 {
			if n == 0 {
				return 0, io.EOF
			}
			return n, nil
		}
		q := s.parts[0]
		l := int64(len(q.b))
		k := copy(p[n:], q.b[s.pos%l:])
		n += k
		if s.pos += int64(k); s.pos == l*q.n {
			s.parts, s.pos = s.parts[1:], 0
		}
	}
	return n, nil
}

// one scan of more bytes than a 32 bit number holds, made of known blocks with foreign bytes around the borders
func scanFar(sound, complete bool) func(c *mon.Case) {
	return func(c *mon.Case) {
		r := c.R
		bs := mon.Choose(r, 1<<15, 1<<16, 1<<16-7, 1<<17)
		ref := gen.Random(r, bs*mon.Range(r, 2, 9)+mon.Choose(r, 0, 1, bs/2))
		blocks := gen.Blocks(ref, bs)
		borders := []int64{1 << 31}
		if mon.Thorough() || c.I%2 == 0 && complete {
			borders = append(borders, 1<<32)
		}
		var data segments
		want := map[int64]int{} // places of blocks that are there once, with foreign bytes on both sides
		type run struct {
			from, to int64
			b        int
		}
		var runs []run
		put := func(b int, n int64) {
			runs = append(runs, run{data.size, data.size + n*int64(bs), b})
			data.add(blocks[b], n)
		}
		full := len(ref) / bs
		for _, border := range borders {
			gap := border - data.size
			b := r.IntN(full)
			put(b, (gap-int64(r.IntN(3*bs)))/int64(bs)-2)
			for data.size < border+4*int64(bs) {
				data.add(gen.Random(r, 1+r.IntN(bs/4)), 1)
				want[data.size] = r.IntN(full)
				put(want[data.size], 1)
			}
			data.add(gen.Random(r, 1+r.IntN(100)), 1)
		}
		if full < len(blocks) {
			want[data.size] = full
			runs = append(runs, run{data.size, data.size + int64(len(blocks[full])), full})
			data.add(blocks[full], 1)
		}
		allowed := func(off int64) int { // the block at an offset, or -1
			for _, x := range runs {
				if off >= x.from && off < x.to && (off-x.from)%int64(bs) == 0 {
					return x.b
				}
			}
			return -1
		}
		size := data.size
		desc := fmt.Sprintf("block size %d, reference of %d bytes, %d bytes scanned", bs, len(ref), size)
		var matched int64
		g := filechecksum.NewFileChecksumGenerator(uint(bs))
		for m := range (&comparer.Comparer{}).StartFindMatchingBlocks(&data, 0, g, ownIndex(ref, bs)) {
			if m.Err != nil {
				c.Violate("scan reported %v though no read failed: %s", m.Err, desc)
				continue
			}
			matched++
			if b := allowed(m.ComparisonOffset); b != int(m.BlockIdx) && sound {
				c.Violate("reported match is not genuine: block %d at offset %d, where block %d is: %s", m.BlockIdx, m.ComparisonOffset, b, desc)
			} else if b == int(m.BlockIdx) {
				if want[m.ComparisonOffset] == b {
					delete(want, m.ComparisonOffset)
				}
			}
		}
		if complete {
			for off, b := range want {
				c.Violate("block(s) [%d] present at offset %d not reported: %s", b, off, desc)
				break
			}
			blocksThere := int64(0)
			for _, x := range runs {
				blocksThere += (x.to - x.from + int64(bs) - 1) / int64(bs)
			}
			if matched < blocksThere {
				c.Violate("%d matches reported, %d blocks are there: %s", matched, blocksThere, desc)
			}
		}
		c.Count("far_bytes", int(size))
		c.Count("matches", int(matched))
		c.Sig(desc)
		c.Sample(fmt.Sprintf("%s -> %d matches", desc, matched))
	}
}

func scanGroups(sound, complete bool) []mon.Group {
	return []mon.Group{
		{Name: "exhaustive", Quick: 112, Thorough: 112, Fn: scanExhaustive(sound, complete)},
		{Name: "random-small", Quick: 24000, Thorough: 800000, Fn: scanRandom(sound, complete, 33, 600)},
		{Name: "random-medium", Quick: 3000, Thorough: 80000, Fn: scanRandom(sound, complete, 1025, 30000)},
		{Name: "random-large", Quick: 160, Thorough: 3000, Fn: scanRandom(sound, complete, 131072, 700000)},
		{Name: "alignments", Quick: 1200, Thorough: 30000, Fn: scanAlignments(sound, complete)},
		{Name: "collisions", Quick: 6000, Thorough: 200000, Fn: scanCollisions(sound, complete)},
		{Name: "many", Quick: 12, Thorough: 600, Fn: scanPair(sound, complete, func(r *rand.Rand) gen.Pair { return gen.NewManyPair(r, mon.Choose(r, 2000, 66000)) })},
		// blocks of more than a megabyte
		{Name: "wide", Quick: 8, Thorough: 400, Fn: scanPair(sound, complete, func(r *rand.Rand) gen.Pair { return gen.NewWidePair(r) })},
		{Name: "far", Quick: 2, Thorough: 12, Fn: scanFar(sound, complete)},
	}
}

func TestC07(t *testing.T) { mon.Run(t, "C07", scanGroups(true, false)...) }
func TestC08(t *testing.T) { mon.Run(t, "C08", scanGroups(false, true)...) }

// ---------------------------------------------------------------------------------------------------
// C09

// FaultReader delivers data in chunks and fails at the FailAt-th call.
type FaultReader struct {
	Data     []byte
	Chunk    func() int
	FailAt   int // call number, -1 never
	WithData bool
	Once     bool
	Err      error
	Limit    int64
	calls    atomic.Int64
	after    int64
	failed   bool
	over     atomic.Bool
}

func (f *FaultReader) Read(p []byte) (int, error) {
	n := f.calls.Add(1)
	if n > f.Limit {
		f.over.Store(true)
		runtime.Goexit() // ends the runaway scan; its deferred close lets the consumer finish
	}
	if len(p) == 0 {
		return 0, nil
	}
	k := min(f.Chunk(), len(p), len(f.Data))
	if f.FailAt >= 0 && int(n) > f.FailAt && !(f.Once && f.failed) {
		if !f.WithData || f.failed {
			k = 0
		}
		f.failed = true
		copy(p, f.Data[:k])
		f.Data = f.Data[k:]
		return k, f.Err
	}
	if k == 0 && len(f.Data) == 0 {
		return 0, io.EOF
	}
	copy(p, f.Data[:k])
	f.Data = f.Data[k:]
	return k, nil
}

type tempErr struct{}

func (tempErr) Error() string   { return "temporary" }
func (tempErr) Timeout() bool   { return true }
func (tempErr) Temporary() bool { return true }

func c09case(c *mon.Case, ref, data []byte, bs int, fr *FaultReader, desc string) {
	idx := ownIndex(ref, bs)
	n := len(data)
	fr.Data = bytes.Clone(data)
	fr.Limit = int64(4*n + 200)
	res := (&scanner{}).scan(bs, fr, 0, idx)
	c.Count("scans", 1)
	c.Count("reads", int(fr.calls.Load()))
	if fr.over.Load() {
		c.Violate("scan still reading after %d reads of %d bytes of data (fault injected: %v): %s", fr.Limit, n, fr.failed, desc)
		return
	}
	for i, m := range res {
		if m.Err != nil && i != len(res)-1 {
			c.Violate("items follow the error in the result stream: %s", desc)
		}
	}
	last := len(res) > 0 && res[len(res)-1].Err != nil
	if fr.failed {
		c.Count("faults_hit", 1)
	}
	if fr.failed && !last {
		c.Violate("read failed with %v at call %d but the result stream ended without an error: %s", fr.Err, fr.FailAt, desc)
	}
	if !fr.failed && last && n >= bs {
		c.Violate("no read failed but the stream carries error %v: %s", res[len(res)-1].Err, desc)
	}
	if int(fr.calls.Load()) > 2*n+40 {
		c.Violate("%d reads for %d bytes: %s", fr.calls.Load(), n, desc)
	}
}

func TestC09(t *testing.T) {
	errs := []error{gen.ErrInjected, io.ErrClosedPipe, io.ErrNoProgress, tempErr{}, fmt.Errorf("wrapped: %w", gen.ErrInjected), errors.New("")}
	mon.Run(t, "C09",
		mon.Group{Name: "every-read", Quick: 1500, Thorough: 30000, Fn: func(c *mon.Case) {
			r := c.R
			bs := mon.Choose(r, 1, 2, 3, 4, 8, 16)
			ref, kind := gen.Content(r, gen.Len(r, bs, 60), bs)
			data, script := gen.Edit(r, ref, bs)
			if len(data) > 120 {
				data = data[:120]
			}
			chunk := mon.Range(r, 1, 5)
			e := errs[r.IntN(len(errs))]
			with, once := r.IntN(3) == 0, r.IntN(3) == 0
			if with {
				once = false
			}
			for k := -1; k <= len(data)+1; k++ {
				desc := fmt.Sprintf("%s/%s bs=%d ref=%d data=%d fail at read %d (err %T, with data %v, once %v, chunk %d)", kind, script, bs, len(ref), len(data), k, e, with, once, chunk)
				c09case(c, ref, data, bs, &FaultReader{Chunk: func() int { return chunk }, FailAt: k, WithData: with, Once: once, Err: e}, desc)
				if c.Failed() {
					return
				}
			}
			c.Sig(kind, script, bs, len(data), with, once, chunk)
			c.Sample(fmt.Sprintf("%s/%s bs=%d data=%d: faults at reads 0..%d, with data %v, once %v", kind, script, bs, len(data), len(data)+1, with, once))
		}},
		mon.Group{Name: "random", Quick: 8000, Thorough: 150000, Fn: func(c *mon.Case) {
			r := c.R
			p := gen.NewPair(r, 257, 4000)
			k := mon.Range(r, -1, len(p.Local)+2)
			if r.IntN(3) == 0 {
				k = r.IntN(4)
			}
			mx := mon.Choose(r, 1, 3, p.BS, 5000)
			with, once := r.IntN(3) == 0, r.IntN(3) == 0
			if with {
				once = false
			}
			e := errs[r.IntN(len(errs))]
			desc := fmt.Sprintf("%s fail at read %d (err %T, with data %v, once %v)", p.Desc, k, e, with, once)
			c09case(c, p.Ref, p.Local, p.BS, &FaultReader{Chunk: func() int { return mon.Range(r, 1, mx) }, FailAt: k, WithData: with, Once: once, Err: e}, desc)
			c.Sig(p.Desc, k, with, once)
		}},
	)
}
