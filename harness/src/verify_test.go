package src

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"fmt"
	"hash"
	"math/rand/v2"
	"sync"
	"testing"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/patcher"

	"vh/gen"
	"vh/mon"
)

// lookup hands out the expected checksums; blocks without one are nil.
type lookup struct {
	sums [][]byte
}

func (l *lookup) GetStrongChecksumForBlock(id int) []byte {
	if id < 0 || id >= len(l.sums) {
		return nil
	}
	return l.sums[id]
}

// laneHash is a checksum of which a change in the data changes a single byte: any part of it may matter.
type laneHash struct {
	lanes []byte
	n     int
}

func (l *laneHash) Write(p []byte) (int, error) {
	for _, b := range p {
		l.lanes[l.n%len(l.lanes)] += b
		l.n++
	}
	return len(p), nil
}

func (l *laneHash) Sum(b []byte) []byte { return append(b, l.lanes...) }
func (l *laneHash) Reset()              { clear(l.lanes); l.n = 0 }
func (l *laneHash) Size() int           { return len(l.lanes) }
func (l *laneHash) BlockSize() int      { return 1 }

func sum(h func() hash.Hash, b []byte) []byte { x := h(); x.Write(b); return x.Sum(nil) }

type ref03 struct {
	data []byte
	bs   int
	h    func() hash.Hash
	lk   *lookup
	nils int
	old  []byte // another version of the file
	many bool
}

// manyBlocks instead of a block size makes a reference of thousands of small blocks, requested in long spans.
const manyBlocks = -1

func newRef03(r *rand.Rand, maxBS, maxLen int) *ref03 {
	x := &ref03{h: mon.Choose(r, md5.New, md5.New, sha1.New, sha256.New)}
	if r.IntN(4) == 0 {
		n := mon.Choose(r, 1, 3, 8, 16, 20, 40)
		x.h = func() hash.Hash { return &laneHash{lanes: make([]byte, n)} }
	}
	n := 0
	if x.many = maxBS == manyBlocks; !x.many {
		x.bs = gen.BlockSize(r, maxBS)
		n = mon.Range(r, 1, max(1, min(40, maxLen/x.bs)))*x.bs - r.IntN(x.bs)
	} else {
		x.bs = mon.Range(r, 1, 9)
		n = mon.Range(r, 1000, mon.Choose(r, 5000, 5000, 140000))*x.bs - r.IntN(x.bs)
	}
	x.data, _ = gen.Content(r, max(1, n), x.bs)
	x.old = bytes.Clone(x.data)
	for i := 0; i < 1+len(x.old)/(2*x.bs) && (!x.many || i < 1+r.IntN(3)); i++ {
		x.old[r.IntN(len(x.old))] ^= byte(1 + r.IntN(255))
	}
	x.lk = &lookup{}
	nils := r.IntN(4) == 0
	for _, b := range gen.Blocks(x.data, x.bs) {
		if nils && r.IntN(3) == 0 {
			x.lk.sums = append(x.lk.sums, nil)
			x.nils++
		} else {
			x.lk.sums = append(x.lk.sums, sum(x.h, b))
		}
	}
	return x
}

// end chooses the last block of a span from s on.
func (x *ref03) end(r *rand.Rand, s uint) uint {
	n := mon.Choose(r, 0, 0, 1, 2, 5, 20)
	if x.many {
		n = mon.Choose(r, r.IntN(3), r.IntN(2000), r.IntN(x.blocks()), x.blocks())
	}
	return min(uint(x.blocks()-1), s+uint(n))
}

func (x *ref03) blocks() int { return len(x.lk.sums) }

func (x *ref03) span(s, e uint) []byte {
	return x.data[int(s)*x.bs : min(len(x.data), (int(e)+1)*x.bs)]
}

// genuine tells whether every block of data with a known checksum hashes to it, by direct comparison with
// the reference's checksums.
func (x *ref03) genuine(s uint, data []byte) bool {
	for i, b := range gen.Blocks(data, x.bs) {
		id := int(s) + i
		if id >= x.blocks() {
			return false // no such block
		}
		if e := x.lk.sums[id]; e != nil && !bytes.Equal(sum(x.h, b), e) {
			return false
		}
	}
	return true
}

var corruptions = []string{"none", "none", "bit", "byte-last-block", "byte-first-block", "swap", "old", "shift", "cut", "cut-block", "extend", "extend-block", "other-range", "zero", "rotate", "empty", "same-sum"}

func (x *ref03) corrupt(r *rand.Rand, s, e uint) (data []byte, kind string) {
	data = bytes.Clone(x.span(s, e))
	kind = corruptions[r.IntN(len(corruptions))]
	bs := x.bs
	switch kind {
	case "bit":
		data[r.IntN(len(data))] ^= 1 << r.IntN(8)
	case "byte-last-block":
		k := (len(data) - 1) / bs * bs
		data[k+r.IntN(len(data)-k)] ^= byte(1 + r.IntN(255))
	case "byte-first-block":
		data[r.IntN(min(bs, len(data)))] ^= byte(1 + r.IntN(255))
	case "swap":
		bl := gen.Blocks(bytes.Clone(data), bs)
		i, j := r.IntN(len(bl)), r.IntN(len(bl))
		bl[i], bl[j] = bl[j], bl[i]
		data = bytes.Join(bl, nil)
	case "old":
		data = bytes.Clone(x.old[int(s)*bs : int(s)*bs+len(data)])
	case "shift":
		d := 1 + r.IntN(bs)
		for i := range data {
			if p := int(s)*bs + i + d; p < len(x.data) {
				data[i] = x.data[p]
			} else {
				data[i] = 0
			}
		}
	case "cut":
		data = data[:r.IntN(len(data))]
	case "cut-block":
		data = data[:r.IntN((len(data)+bs-1)/bs)*bs]
	case "extend":
		data = append(data, gen.Random(r, 1+r.IntN(2*bs))...)
	case "extend-block":
		data = append(data, x.data[min(len(x.data), (int(e)+1)*bs):min(len(x.data), (int(e)+2)*bs)]...)
	case "other-range":
		o := uint(r.IntN(x.blocks()))
		data = bytes.Clone(x.span(o, min(uint(x.blocks()-1), o+e-s)))
	case "zero":
		k := r.IntN(len(data))
		for i := k; i < min(len(data), k+bs); i++ {
			data[i] = 0
		}
	case "rotate":
		data = append(data[1:], data[0])
	case "empty":
		data = nil
	case "same-sum":
		bl := gen.Blocks(data, bs)
		b := bl[r.IntN(len(bl))]
		if o := gen.Collide(r, b); o != nil {
			copy(b, o)
		}
	}
	return
}

// c03verifier drives one verifier through a history of good and bad responses.
func c03verifier(c *mon.Case, maxBS, maxLen, steps int) {
	r := c.R
	x := newRef03(r, maxBS, maxLen)
	v := &filechecksum.HashVerifier{BlockSize: uint(x.bs), Hash: x.h(), BlockChecksumGetter: x.lk}
	accepted, rejected := 0, 0
	hist := ""
	for i := 0; i < steps && !c.Failed(); i++ {
		s := uint(r.IntN(x.blocks()))
		e := x.end(r, s)
		data, kind := x.corrupt(r, s, e)
		if x.genuine(s, data) && len(data) > (int(e)+1-int(s))*x.bs {
			continue // blocks that were not asked for, though genuine: either way is fine
		}
		in := bytes.Clone(data)
		got := v.VerifyBlockRange(s, data)
		// a block beyond the reference has no checksum to compare with
		want := true
		for k, b := range gen.Blocks(data, x.bs) {
			if ex := x.lk.GetStrongChecksumForBlock(int(s) + k); ex != nil && !bytes.Equal(sum(x.h, b), ex) {
				want = false
			}
		}
		if beyond := int(s)+len(gen.Blocks(data, x.bs)) > x.blocks(); got != want && !(beyond && want) {
			c.Violate("verification of blocks %d-%d (%s, %d bytes) gave %v, want %v; bs=%d of %d bytes, %d blocks without checksum, history %s",
				s, e, kind, len(data), got, want, x.bs, len(x.data), x.nils, hist)
		}
		if !bytes.Equal(in, data) {
			c.Violate("verification changed the data")
		}
		if got {
			accepted++
			hist += "+"
		} else {
			rejected++
			hist += "-"
		}
	}
	c.Count("verifications_accepted", accepted)
	c.Count("verifications_rejected", rejected)
	c.Sig(x.bs, len(x.data), hist)
}

// c03source serves good and bad data to a block source and watches what comes out.
func c03source(c *mon.Case, maxBS, maxLen int) {
	r := c.R
	x := newRef03(r, maxBS, maxLen)
	badAt := r.IntN(5)
	sent := map[uint]string{}
	rejectable := false // something was returned that must not be delivered
	mr := rand.New(rand.NewPCG(r.Uint64(), 1))
	var desc string
	var mu sync.Mutex
	bubble(c, func() {
		n := 0
		var cur piece
		q := requesterFunc(func(s, e int64) ([]byte, error) {
			a := uint(s / int64(x.bs))
			b := uint((e - 1) / int64(x.bs))
			mu.Lock()
			defer mu.Unlock()
			n++
			var d []byte
			kind := "none"
			if n > badAt {
				d, kind = x.corrupt(mr, a, b)
			} else {
				d = bytes.Clone(x.data[s:e])
			}
			sent[a] = kind
			if !x.genuine(a, d) || len(d) > int(e-s) { // overlong data may be refused as well
				rejectable = true
			}
			c.Count("responses_"+kind, 1)
			return d, nil
		})
		res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(x.bs), FileSize: int64(len(x.data))}
		if r.IntN(3) == 0 {
			res.MaxDesiredRequestSize = uint64(x.bs * mon.Range(r, 1, 3))
		}
		src := blocksources.NewBlockSourceBase(q, res, &filechecksum.HashVerifier{BlockSize: uint(x.bs), Hash: x.h(), BlockChecksumGetter: x.lk}, 1, 1<<20)
		defer src.Close()
	rounds:
		for i := 0; i < 8; i++ {
			s := uint(r.IntN(x.blocks()))
			e := x.end(r, s)
			cur = piece{s, e}
			if err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: s, EndBlock: e, BlockSize: int64(x.bs)}); err != nil {
				c.Violate("request: %v", err)
				return
			}
			for b := s; b <= e; {
				quiesce()
				mu.Lock()
				desc = fmt.Sprintf("blocks %d-%d at request %d, bs=%d of %d bytes, sent %v", cur.start, cur.end, n, x.bs, len(x.data), sent)
				mu.Unlock()
				select {
				case resp := <-src.GetResultChannel():
					if !x.genuine(resp.StartBlock, resp.Data) {
						c.Violate("data that does not match its checksum was delivered for block %d (%d bytes): %s", resp.StartBlock, len(resp.Data), desc)
						return
					}
					c.Count("delivered", 1)
					b = resp.StartBlock + uint((len(resp.Data)+x.bs-1)/x.bs)
					if len(resp.Data) < (int(e)+1-int(resp.StartBlock))*x.bs && int(resp.StartBlock)*x.bs+len(resp.Data) < len(x.data) && res.MaxDesiredRequestSize == 0 || len(resp.Data) == 0 {
						break rounds // genuine, but cut: for the patcher to notice
					}
					if res.MaxDesiredRequestSize != 0 && b <= e && len(resp.Data) < int(res.MaxDesiredRequestSize) {
						break rounds
					}
				case err := <-src.EncounteredError():
					if !rejectable {
						c.Violate("good data was rejected (%v): %s", err, desc)
					}
					c.Count("rejected", 1)
					break rounds
				}
			}
		}
		if err := src.Close(); err != nil {
			c.Violate("close: %v", err)
		}
	})
	c.Sig(desc)
	c.Sample(desc)
}

func TestC03(t *testing.T) {
	mon.Run(t, "C03",
		mon.Group{Name: "verifier", Quick: 20000, Thorough: 500000, Fn: func(c *mon.Case) { c03verifier(c, 300, 3000, mon.Range(c.R, 1, 30)) }},
		mon.Group{Name: "verifier-large", Quick: 100, Thorough: 3000, Fn: func(c *mon.Case) { c03verifier(c, 131072, 1<<20, 10) }},
		mon.Group{Name: "verifier-many", Quick: 160, Thorough: 5000, Fn: func(c *mon.Case) { c03verifier(c, manyBlocks, 0, 10) }},
		mon.Group{Name: "source-many", Quick: 160, Thorough: 5000, Fn: func(c *mon.Case) { c03source(c, manyBlocks, 0) }},
		mon.Group{Name: "source", Quick: 15000, Thorough: 400000, Fn: func(c *mon.Case) { c03source(c, 300, 3000) }},
		mon.Group{Name: "http", Quick: 600, Thorough: 20000, Fn: c03http},
		mon.Group{Name: "patch", Quick: 3000, Thorough: 80000, Fn: c03patch},
	)
}
