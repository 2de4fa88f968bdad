package src

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/Redundancy/go-sync/blocksources"

	"vh/mon"
)

// c21case compares the resolver with exact (big integer) arithmetic.
func c21case(c *mon.Case, bs, size, desired uint64, a, b uint) {
	res := &blocksources.FixedSizeBlockResolver{BlockSize: bs, FileSize: int64(size), MaxDesiredRequestSize: desired}
	desc := fmt.Sprintf("blocks %d-%d, bs=%d, file size=%d, desired=%d", a, b, bs, size, desired)
	reqs := res.SplitBlockRangeToDesiredSize(a, b)
	per := new(big.Int)
	if desired != 0 {
		per.SetUint64(max(desired/bs, 1))
	}
	next := new(big.Int).SetUint64(uint64(a))
	for i, q := range reqs {
		s, e := new(big.Int).SetUint64(uint64(q.StartBlockID)), new(big.Int).SetUint64(uint64(q.EndBlockID))
		if s.Cmp(next) != 0 || e.Cmp(s) < 0 {
			c.Violate("request %d is %d-%d, want a start at %v: %s", i, q.StartBlockID, q.EndBlockID, next, desc)
			return
		}
		next.Add(e, big.NewInt(1))
		if n := new(big.Int).Sub(next, s); desired != 0 && n.Cmp(per) > 0 {
			c.Violate("request %d-%d has %v blocks, at most %v fit: %s", q.StartBlockID, q.EndBlockID, n, per, desc)
			return
		}
	}
	if next.Cmp(new(big.Int).SetUint64(uint64(b)+1)) != 0 {
		c.Violate("the requests end before block %v: %s", next, desc)
	}
	if desired != 0 { // as few as the desired size allows
		n := new(big.Int).SetUint64(uint64(b-a) + 1)
		n.Add(n, per).Sub(n, big.NewInt(1)).Div(n, per)
		if n.Cmp(big.NewInt(int64(len(reqs)))) != 0 {
			c.Violate("%d requests, %v do: %s", len(reqs), n, desc)
		}
	}
	if desired == 0 && len(reqs) != 1 {
		c.Violate("%d requests without a desired size: %s", len(reqs), desc)
	}
	// byte ranges
	bb := new(big.Int).SetUint64(bs)
	fs := new(big.Int).SetUint64(size)
	check := func(blk uint) {
		s := new(big.Int).Mul(new(big.Int).SetUint64(uint64(blk)), bb)
		e := new(big.Int).Add(s, bb)
		if size != 0 {
			if s.Cmp(fs) > 0 {
				s = fs
			}
			if e.Cmp(fs) > 0 {
				e = fs
			}
		}
		gs, ge := res.GetBlockStartOffset(blk), res.GetBlockEndOffset(blk)
		if s.Cmp(big.NewInt(gs)) != 0 || e.Cmp(big.NewInt(ge)) != 0 {
			c.Violate("block %d is at %d-%d, want %v-%v: %s", blk, gs, ge, s, e, desc)
		}
		if n := res.GetBlockStartOffset(blk + 1); n != ge {
			c.Violate("block %d ends at %d, the next starts at %d: %s", blk, ge, n, desc)
		}
	}
	c.Count("requests", len(reqs))
	for _, q := range reqs[:min(len(reqs), 20)] {
		check(q.StartBlockID)
		check(q.EndBlockID)
	}
	for blk := a; blk <= b && blk < a+20 && !c.Failed(); blk++ {
		check(blk)
		c.Count("blocks", 1)
	}
	check(b)
	c.Sig(bs, size, desired, a, b)
	c.Sample(desc)
}

func TestC21(t *testing.T) {
	mon.Run(t, "C21",
		mon.Group{Name: "small", Quick: 1152, Thorough: 1152, Fn: func(c *mon.Case) {
			// all ranges, desired sizes and file sizes for small files
			bs := uint64(1 + c.I%8)
			blocks := uint64(1 + c.I/8%16)
			cut := uint64(c.I/128) % bs
			size := blocks*bs - cut
			if c.I/128 >= 8 {
				size = 0
			}
			for d := uint64(0); d <= 5*bs; d++ {
				for a := uint64(0); a < blocks && !c.Failed(); a++ {
					for b := a; b < blocks; b++ {
						c21case(c, bs, size, d, uint(a), uint(b))
					}
				}
			}
		}},
		mon.Group{Name: "random", Quick: 60000, Thorough: 2000000, Fn: func(c *mon.Case) {
			r := c.R
			bs := uint64(mon.Choose(r, 1, 2, 3, 7, 10, 64, 1000, 4096, 8192, 65536, 1<<20, 1<<30, 1<<31, 1<<32-1))
			a := mon.Choose(r, 0, r.Uint64N(100), r.Uint64N(1<<20), r.Uint64N(1<<32), 1<<32-5+r.Uint64N(10), r.Uint64N(1<<62/bs))
			n := r.Uint64N(mon.Choose[uint64](r, 1, 3, 10, 1000))
			if (a+n+2)*bs>>62 != 0 || (a+n+2) > 1<<62/bs {
				a = r.Uint64N(1<<61/bs - n - 2)
			}
			b := a + n
			size := uint64(0)
			switch r.IntN(4) {
			case 0: // ends within the last block
				size = (b+1)*bs - r.Uint64N(bs)
			case 1:
				size = (b+1+r.Uint64N(10))*bs + r.Uint64N(bs)
			case 2: // known, but shorter than the range
				size = max(1, r.Uint64N((b+1)*bs))
			}
			desired := mon.Choose(r, 0, 1, bs-1, bs, bs+1, 2*bs-1, 2*bs, r.Uint64N(10*bs)+1, 4<<20, 1<<40)
			if size > 1<<62 {
				size = 0
			}
			c21case(c, bs, size, desired, uint(a), uint(b))
		}},
		mon.Group{Name: "long", Quick: 3000, Thorough: 100000, Fn: func(c *mon.Case) {
			// long ranges and large requests: counts of blocks that do not fit 16, 31, 32 bits
			r := c.R
			bs := uint64(mon.Choose(r, 1, 2, 3, 7, 10, 64, 1000, 4096, 8192))
			n := mon.Choose[uint64](r, 1<<16, 1<<20, 1<<31, 1<<32, 1<<33, 1<<40) + r.Uint64N(1000)
			a := mon.Choose(r, 0, r.Uint64N(100), r.Uint64N(1<<40))
			per := n/uint64(mon.Range(r, 1, 500)) + r.Uint64N(3)
			if r.IntN(4) == 0 {
				per = n - 3 + r.Uint64N(5)
			}
			size := mon.Choose(r, 0, (a+n)*bs-r.Uint64N(bs))
			c21case(c, bs, size, per*bs+r.Uint64N(bs), uint(a), uint(a+n-1))
		}},
	)
}
