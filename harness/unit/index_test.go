package unit

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"sync"
	"testing"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"

	"vh/gen"
	"vh/mon"
)

type idxModel struct {
	recs  []chunks.ChunkChecksum
	byKey map[string][]uint
	weaks map[string]int
}

func newIdxModel(recs []chunks.ChunkChecksum) *idxModel {
	m := &idxModel{recs: recs, byKey: map[string][]uint{}, weaks: map[string]int{}}
	for _, x := range recs {
		k := string(x.WeakChecksum) + string(x.StrongChecksum)
		m.byKey[k] = append(m.byKey[k], x.ChunkOffset)
		m.weaks[string(x.WeakChecksum)]++
	}
	for _, v := range m.byKey {
		sort.Slice(v, func(i, j int) bool { return v[i] < v[j] })
	}
	return m
}

// lookup checks one query; it returns a description of what is wrong.
func (m *idxModel) lookup(idx *index.ChecksumIndex, weak, strong []byte) string {
	w0, s0 := bytes.Clone(weak), bytes.Clone(strong)
	l := idx.FindWeakChecksum2(weak)
	var got []chunks.ChunkChecksum
	if m.weaks[string(weak)] == 0 {
		if l != nil {
			return fmt.Sprintf("unknown weak checksum %x found: %v", weak, l)
		}
		if x := idx.FindWeakChecksumInIndex(weak); len(x) != 0 {
			return fmt.Sprintf("unknown weak checksum %x found: %v", weak, x)
		}
	} else {
		if l == nil {
			return fmt.Sprintf("weak checksum %x not found", weak)
		}
		if x := idx.FindWeakChecksumInIndex(weak); len(x) != m.weaks[string(weak)] {
			return fmt.Sprintf("%d blocks with weak checksum %x, want %d", len(x), weak, m.weaks[string(weak)])
		}
	}
	got = idx.FindStrongChecksum2(strong, l)
	want := m.byKey[string(weak)+string(strong)]
	ids := make([]uint, len(got))
	for i, x := range got {
		ids[i] = x.ChunkOffset
		if !bytes.Equal(x.WeakChecksum, weak) || !bytes.Equal(x.StrongChecksum, strong) {
			return fmt.Sprintf("lookup of %x %x returned block %d with %x %x", weak, strong, x.ChunkOffset, x.WeakChecksum, x.StrongChecksum)
		}
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	if !slices.Equal(ids, want) {
		return fmt.Sprintf("lookup of %x %x returned blocks %v, want %v", weak, strong, ids, want)
	}
	if !bytes.Equal(w0, weak) || !bytes.Equal(s0, strong) {
		return "lookup changed its arguments"
	}
	return ""
}

func randRecs(r *rand.Rand, n int) (recs []chunks.ChunkChecksum, weaks, strongs [][]byte, desc string) {
	nw, ns := mon.Choose(r, 1, 2, 3, 10, n+1), mon.Choose(r, 1, 2, 3, 10, n+1)
	slen := mon.Choose(r, 16, 16, 16, 20, 32, 1, 2)
	wmode, smode := r.IntN(4), r.IntN(3)
	for i := 0; i < nw; i++ {
		var b [4]byte
		switch wmode {
		case 0:
			binary.LittleEndian.PutUint32(b[:], r.Uint32())
		case 1: // same low byte
			binary.LittleEndian.PutUint32(b[:], uint32(i)<<8|7)
		case 2: // same low half
			binary.LittleEndian.PutUint32(b[:], uint32(i)<<16|0x1234)
		case 3:
			binary.LittleEndian.PutUint32(b[:], uint32(i)*0x01010101)
		}
		weaks = append(weaks, b[:])
	}
	for i := 0; i < ns; i++ {
		b := make([]byte, slen)
		switch smode {
		case 0:
			copy(b, gen.Random(r, slen))
		case 1: // differ only in the last byte
			b[slen-1] = byte(i)
		case 2: // extremes
			for k := range b {
				b[k] = byte(0xff * (i & 1))
			}
			b[r.IntN(slen)] ^= byte(i)
		}
		strongs = append(strongs, b)
	}
	order := r.Perm(n)
	shuffled := r.IntN(4) == 0
	first, step := mon.Choose(r, uint(0), 0, 0, 1<<16-2, 1<<31-2, 1<<32-2), mon.Choose(r, uint(1), 1, 1, 7, 1<<30+1)
	for i := 0; i < n; i++ {
		id := uint(i)
		if shuffled { // block numbers not in file order
			id = uint(order[i])
		}
		id = first + id*step
		recs = append(recs, chunks.ChunkChecksum{ChunkOffset: id, Size: 10, WeakChecksum: weaks[r.IntN(nw)], StrongChecksum: strongs[r.IntN(ns)]})
	}
	return recs, weaks, strongs, fmt.Sprintf("n=%d weaks=%d/%d strongs=%d/%d len=%d shuffled=%v", n, nw, wmode, ns, smode, slen, shuffled)
}

func c16case(c *mon.Case, n, workers, queries int) {
	r := c.R
	recs, weaks, strongs, desc := randRecs(r, n)
	in := make([]chunks.ChunkChecksum, n)
	copy(in, recs)
	idx := index.MakeChecksumIndex(in)
	m := newIdxModel(recs)
	for i := range in {
		if !sameRec(in[i], recs[i]) {
			c.Violate("building the index changed its input at %d: %s", i, desc)
			return
		}
	}
	counts := func() {
		if idx.BlockCount != n || idx.WeakCount() != n {
			c.Violate("block count %d, weak count %d, want %d: %s", idx.BlockCount, idx.WeakCount(), n, desc)
		}
		longest := 0
		for _, k := range m.weaks {
			longest = max(longest, k)
		}
		if idx.Count != n || idx.MaxStrongLength != longest {
			c.Violate("count %d, longest list %d; want %d, %d: %s", idx.Count, idx.MaxStrongLength, n, longest, desc)
		}
		if mean := float64(n) / float64(len(m.weaks)); n > 0 && math.Abs(float64(idx.AverageStrongLength)-mean) > mean*1e-5 {
			c.Violate("average list length %v, want %v: %s", idx.AverageStrongLength, mean, desc)
		}
		for k := 0; k < 20 && n > 0; k++ {
			a, b := recs[r.IntN(n)], recs[r.IntN(n)]
			same := bytes.Equal(a.WeakChecksum, b.WeakChecksum) && bytes.Equal(a.StrongChecksum, b.StrongChecksum)
			if a.Match(b) != same {
				c.Violate("match of %x %x with %x %x is %v: %s", a.WeakChecksum, a.StrongChecksum, b.WeakChecksum, b.StrongChecksum, !same, desc)
			}
		}
	}
	counts()
	for k := 0; k < 30 && n > 0; k++ { // parts cut short, lengthened, left out or changed
		vary := func(b []byte) []byte {
			switch b = bytes.Clone(b); r.IntN(6) {
			case 0:
				return b[:r.IntN(len(b)+1)]
			case 1:
				return append(b, gen.Random(r, 1+r.IntN(3))...)
			case 2:
				return nil
			case 3:
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			}
			return b
		}
		a := recs[r.IntN(n)]
		b := chunks.ChunkChecksum{ChunkOffset: uint(r.IntN(5)), Size: int64(r.IntN(5)), WeakChecksum: vary(a.WeakChecksum), StrongChecksum: vary(a.StrongChecksum)}
		same := bytes.Equal(a.WeakChecksum, b.WeakChecksum) && bytes.Equal(a.StrongChecksum, b.StrongChecksum)
		if a.Match(b) != same || b.Match(a) != same {
			c.Violate("match of %x %x with %x %x is %v and %v, want %v: %s", a.WeakChecksum, a.StrongChecksum, b.WeakChecksum, b.StrongChecksum, a.Match(b), b.Match(a), same, desc)
		}
		c.Count("records_compared", 1)
	}
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		wr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		work := func() {
			defer wg.Done()
			found, results := 0, 0
			for q := 0; q < queries; q++ {
				w, s := weaks[wr.IntN(len(weaks))], strongs[wr.IntN(len(strongs))]
				switch wr.IntN(8) {
				case 0:
					w = gen.Random(wr, 4)
				case 1:
					w = bytes.Clone(w)
					w[wr.IntN(4)] ^= byte(1 << wr.IntN(8))
				case 2:
					s = bytes.Clone(s)
					s[wr.IntN(len(s))] ^= byte(1 << wr.IntN(8))
				case 3:
					s = gen.Random(wr, len(s))
				case 4, 5:
					if n > 0 {
						x := recs[wr.IntN(n)]
						w, s = x.WeakChecksum, x.StrongChecksum
					}
				}
				w, s = bytes.Clone(w), bytes.Clone(s)
				if msg := m.lookup(idx, w, s); msg != "" {
					c.Violate("%s: %s", msg, desc)
					return
				}
				if x := m.byKey[string(w)+string(s)]; x != nil {
					found++
					if results += len(x); results > 400000 {
						break
					}
				}
			}
			c.Count("lookups", queries)
			c.Count("lookups_found", found)
		}
		wg.Add(1)
		if workers == 1 {
			work()
		} else {
			go work()
		}
	}
	wg.Wait()
	// every block is still found after all the lookups
	results := 0
	for i := 0; i < min(n, 300) && !c.Failed() && results < 1000000; i++ {
		x := recs[i*n/min(n, 300)]
		results += len(m.byKey[string(x.WeakChecksum)+string(x.StrongChecksum)])
		if msg := m.lookup(idx, bytes.Clone(x.WeakChecksum), bytes.Clone(x.StrongChecksum)); msg != "" {
			c.Violate("after lookups: %s: %s", msg, desc)
		}
	}
	counts()
	c.Max("concurrent_readers", workers)
	c.Sig(desc, workers)
	c.Sample(desc)
}

func TestC16(t *testing.T) {
	mon.Run(t, "C16",
		mon.Group{Name: "small", Quick: 12000, Thorough: 300000, Fn: func(c *mon.Case) { c16case(c, mon.Range(c.R, 0, 12), 1, 30) }},
		mon.Group{Name: "medium", Quick: 800, Thorough: 20000, Fn: func(c *mon.Case) { c16case(c, mon.Range(c.R, 0, 400), 1, 100) }},
		mon.Group{Name: "parallel", Quick: 400, Thorough: 8000, Fn: func(c *mon.Case) { c16case(c, mon.Range(c.R, 0, 300), mon.Range(c.R, 2, 8), 60) }},
		mon.Group{Name: "large", Quick: 8, Thorough: 80, Fn: func(c *mon.Case) { c16case(c, mon.Range(c.R, 60000, 140000), 4, 300) }},
	)
}
