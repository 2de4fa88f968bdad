package unit

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"testing"
	"testing/synctest"

	"github.com/Redundancy/go-sync/comparer"

	"vh/gen"
	"vh/mon"
)

type match = comparer.BlockMatchResult

// checkSpans is the C10 oracle.
func checkSpans(c *mon.Case, spans comparer.BlockSpanList, reported map[uint]map[int64]bool, bs int64, desc string) {
	covered := map[uint]bool{}
	for i, s := range spans {
		if s.EndBlock < s.StartBlock {
			c.Violate("span %+v ends before it starts: %s", s, desc)
			return
		}
		if i > 0 && spans[i-1].EndBlock >= s.StartBlock {
			c.Violate("spans %+v and %+v overlap or are out of order: %s", spans[i-1], s, desc)
			return
		}
		for b := s.StartBlock; b <= s.EndBlock; b++ {
			covered[b] = true
			off := s.ComparisonStartOffset + int64(b-s.StartBlock)*bs
			if reported[b] == nil {
				c.Violate("block %d is in span %+v but was matched by no stream: %s", b, s, desc)
				return
			}
			if !reported[b][off] {
				c.Violate("span %+v implies block %d at %d, where it was never reported (reported at %v): %s", s, b, off, reported[b], desc)
				return
			}
		}
	}
	for b := range reported {
		if !covered[b] {
			c.Violate("matched block %d is in no span (%v): %s", b, spans, desc)
			return
		}
	}
	c.Count("spans", len(spans))
	c.Count("blocks_matched", len(covered))
}

func matchStreams(r *rand.Rand, bs int64) (streams [][]match, desc string) {
	n := mon.Range(r, 1, 8)
	nb := mon.Range(r, 1, mon.Choose(r, 3, 6, 12, 40, 150))
	first := mon.Choose(r, uint(0), 0, 0, 1, 5, 1<<16-3, 1<<31-3, 1<<32-2)
	deltas := make([]int64, mon.Range(r, 1, 3))
	for i := range deltas {
		deltas[i] = mon.Choose(r, int64(0), bs, 1, r.Int64N(1000), 1<<33)
	}
	mode := r.IntN(5)
	for i := 0; i < n; i++ {
		var s []match
		k := r.IntN(2*nb/n + 3)
		b := first + uint(r.IntN(nb))
		for j := 0; j < k; j++ {
			switch mode {
			case 0:
				b = first + uint(r.IntN(nb))
			case 1: // ascending runs
				b++
				if r.IntN(8) == 0 || b >= first+uint(nb) {
					b = first + uint(r.IntN(nb))
				}
			case 2: // descending
				if b == first || r.IntN(10) == 0 {
					b = first + uint(r.IntN(nb))
				} else {
					b--
				}
			case 3: // even then odd
				b = first + uint((2*j+i)%nb)
			case 4: // each stream its own section, slightly overlapping
				b = first + uint((i*nb/n+j)%nb)
			}
			s = append(s, match{ComparisonOffset: int64(b-first)*bs + deltas[r.IntN(len(deltas))], BlockIdx: b})
		}
		if r.IntN(6) == 0 {
			s = append(s, match{Err: gen.ErrInjected})
		}
		streams = append(streams, s)
	}
	if r.IntN(5) == 0 { // some of the blocks are far from the others
		cut, far := first+uint(r.IntN(nb)), uint(mon.Choose(r, 1<<16, 1<<31, 1<<32, 1<<33+1))
		along := r.IntN(2) == 0
		for _, s := range streams {
			for j := range s {
				if s[j].Err == nil && s[j].BlockIdx >= cut {
					s[j].BlockIdx += far
					if along {
						s[j].ComparisonOffset += int64(far) * bs
					}
				}
			}
		}
		first += far
	}
	return streams, fmt.Sprintf("streams=%d blocks=%d first=%d mode=%d bs=%d", n, nb, first, mode, bs)
}

func reportedOf(streams [][]match) map[uint]map[int64]bool {
	m := map[uint]map[int64]bool{}
	for _, s := range streams {
		for _, x := range s {
			if x.Err != nil {
				break
			}
			if m[x.BlockIdx] == nil {
				m[x.BlockIdx] = map[int64]bool{}
			}
			m[x.BlockIdx][x.ComparisonOffset] = true
		}
	}
	return m
}

func spansEqual(a, b comparer.BlockSpanList) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func TestC10(t *testing.T) {
	mon.Run(t, "C10",
		// one goroutine per stream, free running
		mon.Group{Name: "free", Quick: 12000, Thorough: 300000, Fn: func(c *mon.Case) {
			r := c.R
			bs := int64(gen.BlockSize(r, 70000))
			streams, desc := matchStreams(r, bs)
			m := &comparer.MatchMerger{}
			for _, s := range streams {
				ch := make(chan match, r.IntN(3))
				yield := r.IntN(4)
				go func() {
					defer close(ch)
					for i, x := range s {
						if yield > 0 && i%yield == 0 {
							runtime.Gosched()
						}
						ch <- x
					}
				}()
				m.StartMergeResultStream(ch, bs)
			}
			got := m.GetMergedBlocks()
			checkSpans(c, got, reportedOf(streams), bs, desc)
			if again := m.GetMergedBlocks(); !spansEqual(got, again) {
				c.Violate("asking for the spans twice gives %v, then %v", got, again)
			}
			c.Sig(desc, len(got))
			c.Sample(fmt.Sprintf("%s -> %d spans", desc, len(got)))
		}},
		// a controlled interleaving: in a bubble, one result at a time is fed to a random stream, sometimes
		// waiting until everything is quiescent
		mon.Group{Name: "interleaved", Quick: 6000, Thorough: 120000, Fn: func(c *mon.Case) {
			r := c.R
			bs := int64(gen.BlockSize(r, 70000))
			streams, desc := matchStreams(r, bs)
			synctest.Test(c.T, func(*testing.T) {
				m := &comparer.MatchMerger{}
				chs := make([]chan match, len(streams))
				pos := make([]int, len(streams))
				var live []int
				for i := range streams {
					chs[i] = make(chan match)
					live = append(live, i)
				}
				started := 0
				for len(live) > 0 {
					if started < len(streams) && (started == 0 || r.IntN(3) == 0) {
						m.StartMergeResultStream(chs[started], bs)
						started++
						continue
					}
					k := r.IntN(len(live))
					i := live[k]
					if i >= started {
						continue
					}
					if pos[i] == len(streams[i]) {
						close(chs[i])
						live = append(live[:k], live[k+1:]...)
						continue
					}
					chs[i] <- streams[i][pos[i]]
					pos[i]++
					if r.IntN(2) == 0 {
						quiesce()
					}
					c.Count("interleaved_results", 1)
				}
				checkSpans(c, m.GetMergedBlocks(), reportedOf(streams), bs, desc)
			})
			c.Sig(desc)
		}},
		// every arrival order of a few blocks with every combination of two local positions
		mon.Group{Name: "orders", Quick: 120, Thorough: 840, Fn: func(c *mon.Case) {
			n := 5
			if c.I >= 120 {
				n = 6
			}
			idx := c.I
			if c.I >= 120 {
				idx = c.I - 120
			}
			perm := permutation(n, idx)
			for mask := 0; mask < 1<<n; mask++ {
				for dup := 0; dup < 2; dup++ {
					var s []match
					for k, b := range perm {
						d := int64(mask >> k & 1 * 100)
						s = append(s, match{ComparisonOffset: int64(b)*4 + d, BlockIdx: uint(b)})
						if dup == 1 && k%2 == 0 { // a conflicting second report
							s = append(s, match{ComparisonOffset: int64(b)*4 + 100 - d, BlockIdx: uint(b)})
						}
					}
					ch := make(chan match, len(s))
					for _, x := range s {
						ch <- x
					}
					close(ch)
					m := &comparer.MatchMerger{}
					m.StartMergeResultStream(ch, 4)
					checkSpans(c, m.GetMergedBlocks(), reportedOf([][]match{s}), 4, fmt.Sprintf("order %v mask %b dup %d", perm, mask, dup))
					c.Count("orders", 1)
					if c.Failed() {
						return
					}
				}
			}
			c.Sig(perm)
		}},
		// many blocks, so that the tree is deep and long spans are split and joined
		mon.Group{Name: "large", Quick: 42, Thorough: 800, Stuck: 200, Fn: func(c *mon.Case) {
			r := c.R
			n := mon.Range(r, 2000, 20000)
			if c.I%50 < 2 {
				n = 1<<[]int{18, 16}[c.I%50] + mon.Range(r, 1000, 60000)
				if mon.Thorough() && c.I%100 == 0 {
					n += 1 << 20
				}
			}
			order := r.Perm(n)
			k := mon.Range(r, 1, 8)
			far := uint(mon.Choose(r, 0, 0, 1<<31, 1<<32)) // of every other hundred blocks
			streams := make([][]match, k)
			bs := int64(gen.BlockSize(r, 5000))
			for _, b := range order {
				if r.IntN(20) == 0 {
					continue
				}
				i := r.IntN(k)
				d := int64(b/97%3) * 7
				streams[i] = append(streams[i], match{ComparisonOffset: int64(b)*bs + d, BlockIdx: uint(b) + far*uint(b/100%2)})
			}
			if r.IntN(2) == 0 {
				for i := range streams {
					sort.Slice(streams[i], func(a, b int) bool { return streams[i][a].BlockIdx < streams[i][b].BlockIdx })
				}
			}
			m := &comparer.MatchMerger{}
			for _, s := range streams {
				ch := make(chan match)
				go func() {
					for _, x := range s {
						ch <- x
					}
					close(ch)
				}()
				m.StartMergeResultStream(ch, bs)
			}
			checkSpans(c, m.GetMergedBlocks(), reportedOf(streams), bs, fmt.Sprintf("large n=%d streams=%d", n, k))
			c.Sig(n, k, bs)
		}},
	)
}

func permutation(n, idx int) []int {
	items := make([]int, n)
	for i := range items {
		items[i] = i
	}
	var out []int
	f := 1
	for i := 2; i < n; i++ {
		f *= i
	}
	for i := n - 1; i >= 0; i-- {
		k := idx / f
		idx %= f
		out = append(out, items[k])
		items = append(items[:k], items[k+1:]...)
		if i > 0 {
			f /= i
		}
	}
	return out
}

func checkMissing(c *mon.Case, found comparer.BlockSpanList, maxBlock uint) {
	in := append(comparer.BlockSpanList{}, found...)
	missing := found.GetMissingBlocks(maxBlock)
	c.Count("partitions", 1)
	if !spansEqual(in, found) {
		c.Violate("computing the missing spans changed the found spans %v", in)
		return
	}
	all := append(append(comparer.BlockSpanList{}, found...), missing...)
	for i, m := range missing {
		if m.EndBlock < m.StartBlock {
			c.Violate("empty missing span %+v for found %v of blocks 0..%d", m, found, maxBlock)
			return
		}
		if i > 0 && missing[i-1].EndBlock+1 >= m.StartBlock {
			c.Violate("missing spans %v not sorted, disjoint and maximal for found %v of blocks 0..%d", missing, found, maxBlock)
			return
		}
	}
	sort.Slice(all, func(a, b int) bool { return all[a].StartBlock < all[b].StartBlock })
	next := uint(0)
	for _, s := range all {
		if s.StartBlock != next {
			c.Violate("found %v and missing %v do not partition blocks 0..%d (gap or overlap at %d)", found, missing, maxBlock, next)
			return
		}
		next = s.EndBlock + 1
	}
	if next != maxBlock+1 {
		c.Violate("found %v and missing %v end at %d, not at block %d", found, missing, next-1, maxBlock)
	}
}

func TestC11(t *testing.T) {
	mon.Run(t, "C11",
		// every set of found blocks of up to n blocks, grouped into spans in every way
		mon.Group{Name: "exhaustive", Quick: 9, Thorough: 11, Fn: func(c *mon.Case) {
			n := c.I + 1
			for set := 0; set < 1<<n; set++ {
				for cut := 0; cut < 1<<(n-1); cut++ {
					if cut&^(set&(set>>1)) != 0 {
						continue // a cut only matters between two found blocks
					}
					var l comparer.BlockSpanList
					for b := 0; b < n; b++ {
						if set>>b&1 == 0 {
							continue
						}
						if len(l) > 0 && l[len(l)-1].EndBlock == uint(b-1) && cut>>(b-1)&1 == 0 {
							l[len(l)-1].EndBlock++
						} else {
							l = append(l, comparer.BlockSpan{StartBlock: uint(b), EndBlock: uint(b), ComparisonStartOffset: int64(b * 3)})
						}
					}
					checkMissing(c, l, uint(n-1))
					if c.Failed() {
						return
					}
				}
			}
			c.Sig(n)
			c.Sample(fmt.Sprintf("all found lists over %d blocks", n))
		}},
		mon.Group{Name: "many", Quick: 24, Thorough: 800, Fn: func(c *mon.Case) {
			r := c.R
			var l comparer.BlockSpanList
			n := mon.Choose(r, 1<<12, 1<<16, 1<<17, 1<<20)
			n = n/2 + r.IntN(n)
			if c.I == 0 {
				n = 1<<20 + 1 + r.IntN(1000)
			}
			next := uint(0)
			for range n {
				next += uint(r.IntN(3))
				e := next + uint(r.IntN(3))
				l = append(l, comparer.BlockSpan{StartBlock: next, EndBlock: e, ComparisonStartOffset: r.Int64N(1 << 40)})
				next = e + 1
			}
			checkMissing(c, l, next+uint(r.IntN(3))-1)
			c.Max("spans_in_a_list", n)
			c.Sig(n, next)
		}},
		mon.Group{Name: "random", Quick: 40000, Thorough: 600000, Fn: func(c *mon.Case) {
			r := c.R
			var l comparer.BlockSpanList
			next := uint(0)
			scale := mon.Choose(r, 3, 20, 1000, 70000, 1<<33)
			for k := r.IntN(30); k > 0; k-- {
				if r.IntN(3) != 0 {
					next += uint(r.IntN(scale))
				}
				e := next + uint(r.IntN(scale))
				if r.IntN(3) == 0 {
					e = next
				}
				l = append(l, comparer.BlockSpan{StartBlock: next, EndBlock: e, ComparisonStartOffset: r.Int64N(1 << 40)})
				next = e + 1
			}
			maxBlock := next + uint(r.IntN(scale))
			if next > 0 && r.IntN(2) == 0 {
				maxBlock = next - 1
			}
			checkMissing(c, l, maxBlock)
			c.Sig(l, maxBlock)
		}},
	)
}
