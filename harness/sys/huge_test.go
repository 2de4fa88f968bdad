package sys

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"sync"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"

	"vh/gen"
	"vh/mon"
)

// Files beyond 4 GB, whose content is computed: a block is zero but for a few stamps that tell which one it is.

const stampLen = 16

// sparse is a sequence of pieces of stamped blocks and gaps.
type sparse struct {
	bs     int64
	pieces []piece
	size   int64
}

// piece holds blocks [first, first+n) of the reference, or, if first is negative, size bytes of filling. The last
// block may be cut.
type piece struct {
	off, size int64
	first     int64
}

func (s *sparse) add(first, size int64) {
	if size > 0 {
		s.pieces = append(s.pieces, piece{s.size, size, first})
		s.size += size
	}
}

// stamps are the positions within a block that hold one.
func stamps(bs int64) []int64 {
	if bs < 4*stampLen {
		return []int64{0}
	}
	return []int64{0, bs/2 + 5, bs - stampLen}
}

func stamp(block, at int64) (b [stampLen]byte) {
	x := uint64(block)*0x9e3779b97f4a7c15 + uint64(at)*0xbf58476d1ce4e5b9 + 0x94d049bb133111eb
	x ^= x >> 29
	binary.LittleEndian.PutUint64(b[:], x*0xbf58476d1ce4e5b9)
	binary.LittleEndian.PutUint64(b[8:], uint64(block)<<20|uint64(at&0xfffff))
	return
}

func (s *sparse) ReadAt(p []byte, off int64) (n int, err error) {
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	clear(p)
	if off >= s.size {
		return 0, io.EOF
	}
	n = int(min(int64(len(p)), s.size-off))
	k := sort.Search(len(s.pieces), func(i int) bool { return s.pieces[i].off+s.pieces[i].size > off })
	for ; k < len(s.pieces) && s.pieces[k].off < off+int64(n); k++ {
		q := s.pieces[k]
		lo, hi := max(off, q.off)-q.off, min(off+int64(n), q.off+q.size)-q.off // range within the piece
		if q.first < 0 {
			// filling ends in a stamp: the weak sum of a short block is the same with any number of zeros before it
			st, x := stamp(q.off, -1), q.size-stampLen
			if x < hi && x+stampLen > lo {
				from, to := max(x, lo), min(x+stampLen, hi)
				copy(p[q.off+from-off:q.off+to-off], st[from-x:])
			}
			continue
		}
		for b := lo / s.bs; b*s.bs < hi; b++ {
			for _, at := range stamps(s.bs) {
				st := stamp(q.first+b, at)
				x := b*s.bs + at // position of the stamp within the piece
				if x >= hi || x+stampLen <= lo {
					continue
				}
				from, to := max(x, lo), min(x+stampLen, hi)
				copy(p[q.off+from-off:q.off+to-off], st[from-x:])
			}
		}
	}
	if n < len(p) {
		err = io.EOF
	}
	return
}

// block is the content of a block of the reference.
func (s *sparse) block(b int64) []byte {
	p := make([]byte, min(s.bs, s.size-b*s.bs))
	s.ReadAt(p, b*s.bs)
	return p
}

func (s *sparse) checksums() []chunks.ChunkChecksum {
	n := (s.size + s.bs - 1) / s.bs
	cs := make([]chunks.ChunkChecksum, n)
	var wg sync.WaitGroup
	workers := int64(runtime.NumCPU())
	for w := int64(0); w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for b := w; b < n; b += workers {
				d := s.block(b)
				// the documented double sum; bytes of zero add nothing
				var x, y uint64
				for _, at := range stamps(s.bs) {
					for i := at; i < min(at+stampLen, int64(len(d))); i++ {
						x += uint64(d[i])
						y += uint64(d[i]) * uint64(int64(len(d))-i)
					}
				}
				weak := binary.LittleEndian.AppendUint32(nil, uint32(x&0xffff|y&0xffff<<16))
				h := md5.Sum(d)
				cs[b] = chunks.ChunkChecksum{ChunkOffset: uint(b), Size: s.bs, WeakChecksum: weak, StrongChecksum: h[:]}
			}
		}()
	}
	wg.Wait()
	return cs
}

// sparseFile is one reader's view.
type sparseFile struct {
	*sparse
	pos int64
}

func (f *sparseFile) Read(p []byte) (n int, err error) {
	if len(p) == 0 {
		return 0, nil
	}
	n, err = f.ReadAt(p, f.pos)
	f.pos += int64(n)
	if n > 0 {
		err = nil
	}
	return
}

func (f *sparseFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

// sparseCheck compares what is written with a sparse file.
type sparseCheck struct {
	want  *sparse
	n     int64
	wrong int64
	buf   []byte
}

func (w *sparseCheck) Write(p []byte) (int, error) {
	if len(w.buf) < len(p) {
		w.buf = make([]byte, len(p))
	}
	q := w.buf[:len(p)]
	w.want.ReadAt(q, w.n)
	if w.wrong < 0 && (w.n+int64(len(p)) > w.want.size || !bytes.Equal(p, q)) {
		w.wrong = w.n
		for i := range p {
			if p[i] != q[i] {
				w.wrong = w.n + int64(i)
				break
			}
		}
	}
	w.n += int64(len(p))
	return len(p), nil
}

type sparseRemote struct {
	ref  *sparse
	mu   sync.Mutex
	asks [][2]int64
}

func (q *sparseRemote) IsFatal(error) bool { return true }
func (q *sparseRemote) DoRequest(s, e int64) ([]byte, error) {
	q.mu.Lock()
	q.asks = append(q.asks, [2]int64{s, e})
	q.mu.Unlock()
	if s < 0 || e < s || e > q.ref.size || e-s > 1<<30 {
		return nil, fmt.Errorf("range %d-%d of %d bytes", s, e, q.ref.size)
	}
	p := make([]byte, e-s)
	q.ref.ReadAt(p, s)
	return p, nil
}

// hugePair is a reference beyond 4 GB and a local file without some of its blocks, shifted by less than a block
// in several places.
func hugePair(r *rand.Rand) (ref, local *sparse, gone map[uint]bool, desc string) {
	bs := int64(mon.Choose(r, 1<<20, 1<<20, 999983, 3<<19))
	blocks := (4<<30)/bs + int64(mon.Range(r, 8, 300))
	size := blocks * bs
	if r.IntN(2) == 0 {
		size -= r.Int64N(bs - 1)
	}
	ref = &sparse{bs: bs}
	ref.add(0, size)
	local = &sparse{bs: bs}
	gone = map[uint]bool{}
	drop := map[int64]bool{0: r.IntN(2) == 0, blocks - 2: r.IntN(2) == 0, (2 << 30) / bs: r.IntN(2) == 0, (4 << 30) / bs: r.IntN(2) == 0}
	for k := 0; k < 6; k++ {
		drop[r.Int64N(blocks-1)] = true
	}
	run := int64(0)
	for b := int64(0); b < blocks; b++ {
		if drop[b] {
			local.add(run, (b-run)*bs)
			run = b + 1
			gone[uint(b)] = true
			if n := r.Int64N(bs); n >= stampLen {
				local.add(-1, n) // the rest of the file is shifted
			}
		}
	}
	local.add(run, size-run*bs)
	desc = fmt.Sprintf("bs=%d ref=%d local=%d without %d blocks", bs, ref.size, local.size, len(gone))
	return
}

// huge patches a file beyond 4 GB: the output is the reference, and only what is missing is fetched.
func huge(c *mon.Case) {
	r := c.R
	ref, local, gone, desc := hugePair(r)
	cs := ref.checksums()
	s := &gosync.BasicSummary{BlockSize: uint(ref.bs), BlockCount: uint(len(cs)), FileSize: ref.size,
		ChecksumIndex: index.MakeChecksumIndex(cs), ChecksumLookup: chunks.StrongChecksumGetter(cs)}
	rem := &sparseRemote{ref: ref}
	src := blocksources.NewBlockSourceBase(rem, resolver(s), newVerifier(s), 4, 4<<20)
	w := &watched{BlockSource: src}
	out := &sparseCheck{want: ref, wrong: -1}
	conc := mon.Choose(r, 4, 8, 16)
	rs := &gosync.RSync{Input: &sparseFile{sparse: local}, Source: w, Output: out, Summary: s}
	var err error
	withConcurrency(conc, func() { err = rs.Patch() })
	src.Close()
	if err != nil || out.n != ref.size || out.wrong >= 0 {
		c.Violate("patch of a huge file: %v, %d bytes written, first difference at %d: %s conc=%d", err, out.n, out.wrong, desc, conc)
		return
	}
	for _, b := range w.blocks() {
		if !gone[b] {
			c.Violate("block %d of a huge file was fetched though it is in the local file: %s conc=%d", b, desc, conc)
			return
		}
	}
	c.Count("huge_patches", 1)
	c.Count("huge_fetches", len(rem.asks))
	c.Sig(desc)
	c.Sample(desc)
}

// writeSparse makes a file of it, with holes.
func writeSparse(path string, s *sparse) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	if err := f.Truncate(s.size); err != nil {
		panic(err)
	}
	for _, q := range s.pieces {
		if q.first < 0 {
			st := stamp(q.off, -1)
			if _, err := f.WriteAt(st[:], q.off+q.size-stampLen); err != nil {
				panic(err)
			}
			continue
		}
		for b := int64(0); b*s.bs < q.size; b++ {
			for _, at := range stamps(s.bs) {
				st := stamp(q.first+b, at)
				x := b*s.bs + at
				if x < q.size {
					if _, err := f.WriteAt(st[:min(stampLen, q.size-x)], q.off+x); err != nil {
						panic(err)
					}
				}
			}
		}
	}
}

func indexOf(cs []chunks.ChunkChecksum, size, bs int64) []byte {
	b := indexFile(nil, int(bs))
	binary.LittleEndian.PutUint64(b[12:], uint64(size))
	for _, x := range cs {
		b = append(append(b, x.WeakChecksum...), x.StrongChecksum...)
	}
	return b
}

// c24huge: statistics of files beyond 4 GB.
func c24huge(c *mon.Case) {
	ref, local, gone, desc := hugePair(c.R)
	cs := ref.checksums()
	if c.R.IntN(4) == 0 {
		local, gone = ref, nil
		desc += " identical"
	}
	dir := c.Dir()
	writeSparse(filepath.Join(dir, "local.bin"), local)
	write(filepath.Join(dir, "ref.gosync"), indexOf(cs, ref.size, ref.bs))
	x := run(dir, gosyncBin, "diff", "local.bin", "ref.gosync")
	if !x.ended(c, "diff") {
		return
	}
	total := int64(len(cs))
	c24report(c, x, desc, ref.bs, total, total-int64(len(gone)), total-int64(len(gone)))
	c.Count("huge_reports", 1)
	c.Sig(desc)
}

// c24index: any index, of which the local file has nothing or a few blocks.
func c24index(c *mon.Case) {
	r := c.R
	bs := int64(mon.Choose(r, 1, 2, 100, 4096, 65535, 1<<20, 1<<24, 1<<26, 100<<20))
	n := mon.Choose(r, 1, 2, 3, 41, 100, 1000, 5000, mon.Range(r, 1, 70000))
	var local []byte
	have := map[int]int{}
	if bs <= 4096 {
		for k := r.IntN(8); k > 0; k-- {
			have[r.IntN(n)] = len(local)
			local = append(local, gen.Random(r, int(bs))...)
		}
	}
	if bs == 1 {
		n = min(n, 100)
		have, local = map[int]int{}, nil
	}
	var cs []chunks.ChunkChecksum
	matched := int64(0)
	for b := 0; b < n; b++ {
		weak, strong := gen.Random(r, 4), gen.Random(r, 16)
		if off, ok := have[b]; ok {
			w := gen.Weak(local[off : off+int(bs)])
			weak, strong = w[:], gen.Strong(local[off:off+int(bs)])
			matched++
		}
		cs = append(cs, chunks.ChunkChecksum{WeakChecksum: weak, StrongChecksum: strong})
	}
	local = append(local, gen.Random(r, r.IntN(300))...)
	dir := c.Dir()
	write(filepath.Join(dir, "local.bin"), local)
	size := int64(n) * bs
	write(filepath.Join(dir, "ref.gosync"), indexOf(cs, size, bs))
	x := run(dir, gosyncBin, "diff", "-p", strconv.Itoa(concurrency(r)), "local.bin", "ref.gosync")
	desc := fmt.Sprintf("index of %d blocks of %d bytes, %d in a local file of %d", n, bs, matched, len(local))
	if !x.ended(c, "diff") {
		return
	}
	c24report(c, x, desc, bs, int64(n), matched, matched)
	c.Count("index_reports", 1)
	if size > 1<<32 {
		c.Count("index_reports_beyond_4gb", 1)
	}
	c.Sig(desc)
	c.Sample(desc)
}
