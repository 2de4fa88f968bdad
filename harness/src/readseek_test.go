package src

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"

	"vh/gen"
	"vh/mon"
)

var errSeek = errors.New("injected seek failure")
var errRead = errors.New("injected read failure")

// watched is a virtual file of any size. It records who uses it how, and fails when told.
type watched struct {
	size  int64
	style int // how reads are cut: 0 whole, 1 single bytes, 2 random, 3 end-of-file together with the last bytes
	seed  uint64

	inUse atomic.Int32
	clash atomic.Int32
	plain int // written by every call without a lock, for the race detector

	pos      int64
	seeks    int
	reads    int
	failSeek int // the call (counted from 1) that fails, 0: none
	failRead int
	forever  bool
	partly   bool
	jump     bool // a failing seek moves the position all the same
	faults   int
}

func (w *watched) enter() {
	if w.inUse.Add(1) != 1 {
		w.clash.Add(1)
	}
	w.plain++
	runtime.Gosched()
}

func (w *watched) leave() { w.inUse.Add(-1) }

func (w *watched) fails(n, at int) bool { return at != 0 && (n == at || w.forever && n > at) }

func (w *watched) Seek(off int64, whence int) (int64, error) {
	w.enter()
	defer w.leave()
	w.seeks++
	to := off
	switch whence {
	case io.SeekCurrent:
		to += w.pos
	case io.SeekEnd:
		to += w.size
	}
	if w.fails(w.seeks, w.failSeek) {
		w.faults++
		if w.jump && to >= 0 {
			w.pos = to
		}
		return 0, errSeek
	}
	if to < 0 {
		return 0, errors.New("negative position")
	}
	w.pos = to
	return to, nil
}

func (w *watched) Read(p []byte) (int, error) {
	w.enter()
	defer w.leave()
	if len(p) == 0 {
		return 0, nil
	}
	w.reads++
	n := int64(len(p))
	w.seed = w.seed*6364136223846793005 + 1442695040888963407
	x := int64(w.seed >> 40)
	if w.fails(w.reads, w.failRead) {
		w.faults++
		k := int64(0)
		if w.partly {
			k = min(x%n, max(0, w.size-w.pos))
		}
		copy(p, content(w.pos, w.pos+k))
		w.pos += k
		return int(k), errRead
	}
	if w.pos >= w.size {
		return 0, io.EOF
	}
	switch w.style {
	case 1:
		n = 1
	case 2:
		n = 1 + x%n
	}
	n = min(n, w.size-w.pos)
	copy(p, content(w.pos, w.pos+n))
	w.pos += n
	if w.style == 3 && w.pos == w.size {
		return int(n), io.EOF
	}
	return int(n), nil
}

// c29case drives the source over a read-seeker with a history of requests.
func c29case(c *mon.Case, kind string) {
	r := c.R
	bs := int64(mon.Choose(r, 1, 2, 4, 7, 100, 512, 4096))
	nblocks := int64(mon.Range(r, 1, 40))
	first := int64(0) // requests are in [first, first+nblocks)
	if r.IntN(3) == 0 {
		first = r.Int64N(1 << mon.Range(r, 1, 42))
	}
	size := (first+nblocks)*bs - r.Int64N(bs)
	w := &watched{size: size, style: r.IntN(4), seed: r.Uint64()}
	if r.IntN(2) == 0 { // it was used before
		w.pos = mon.Choose(r, 1, size, r.Int64N(size+1))
	}
	if bs*nblocks > 20000 && w.style == 1 {
		w.style = 2
	}
	known := r.IntN(2) == 0
	res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs)}
	if known {
		res.FileSize = size
	}
	maxReq := int64(0)
	if r.IntN(2) == 0 {
		maxReq = int64(mon.Range(r, 1, 5))
		res.MaxDesiredRequestSize = uint64(bs * maxReq)
	}
	switch kind {
	case "shrunk":
		w.size = first*bs + r.Int64N(size-first*bs+1)
		if r.IntN(4) == 0 {
			w.size = r.Int64N(size + 1)
		}
	case "grown":
		w.size += 1 + r.Int64N(3*bs)
	case "seek":
		w.failSeek = mon.Range(r, 1, 1+mon.Range(r, 1, int(nblocks)))
		w.forever, w.jump = r.IntN(2) == 0, r.IntN(2) == 0
	case "read":
		w.failRead = mon.Range(r, 1, 1+mon.Range(r, 1, int(nblocks)*2))
		w.forever, w.partly = r.IntN(2) == 0, r.IntN(2) == 0
	}
	var rs blocksources.ReadSeeker = w
	how := fmt.Sprint(w.style)
	if w.size < 100000 && kind != "seek" && kind != "read" && r.IntN(3) == 0 {
		rs, how = gen.ReadSeeker(r, content(0, w.size), c.Dir, false)
	}
	src := blocksources.NewReadSeekerBlockSource(rs, res)

	var spans []piece
	for b := uint(0); b < uint(nblocks); {
		e := min(uint(nblocks)-1, b+uint(r.IntN(6)))
		spans = append(spans, piece{uint(first) + b, uint(first) + e})
		b = e + 1 + uint(r.IntN(2))
	}
	r.Shuffle(len(spans), func(i, j int) { spans[i], spans[j] = spans[j], spans[i] })
	desc := fmt.Sprintf("%s bs=%d blocks %d+%d size=%d file=%d style=%s known=%v split=%d spans=%v", kind, bs, first, nblocks, size, w.size, how, known, maxReq, spans)

	// what may be asked for in one go is not the property's business: what counts is every byte
	limit := func(e int64) int64 {
		if known {
			e = min(e, size)
		}
		return min(e, w.size)
	}
	need := int64(0)
	wanted := map[int64]bool{} // blocks
	beyond := false            // a whole request lies beyond the end of the file
	mayBeyond := false         // a part of one does, which may be asked for by itself
	for _, s := range spans {
		if int64(s.start)*bs >= w.size {
			beyond = true
		}
		for b := int64(s.start); b <= int64(s.end); b++ {
			wanted[b] = true
			e := limit((b + 1) * bs)
			if e <= b*bs {
				mayBeyond = true
			} else {
				need += e - b*bs
			}
		}
	}
	var wg sync.WaitGroup
	workers := mon.Range(r, 1, 3)
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := k; i < len(spans); i += workers {
				err := src.RequestBlocks(patcher.MissingBlockSpan{StartBlock: spans[i].start, EndBlock: spans[i].end, BlockSize: bs})
				if err != nil && kind != "seek" && kind != "read" && !mayBeyond {
					c.Violate("request refused: %v: %s", err, desc)
				}
			}
		}()
	}
	type kept struct {
		start int64
		data  []byte
	}
	var all []kept
	seen := map[int64]bool{}
	got := int64(0)
	var failure error
loop:
	for got < need || beyond {
		select {
		case x, ok := <-src.GetResultChannel():
			if !ok {
				c.Violate("the source ended by itself: %s", desc)
				break loop
			}
			s := int64(x.StartBlock) * bs
			e := s + int64(len(x.Data))
			if e > w.size || len(x.Data) == 0 || !bytes.Equal(x.Data, content(s, e)) {
				c.Violate("wrong data (%d bytes) delivered for block %d: %s", len(x.Data), x.StartBlock, desc)
				break loop
			}
			for b := int64(x.StartBlock); b*bs < e; b++ {
				if !wanted[b] || seen[b] {
					c.Violate("block %d delivered twice or without being asked for: %s", b, desc)
					break loop
				}
				seen[b] = true
				if be := limit((b + 1) * bs); be > e {
					c.Violate("block %d was delivered only up to %d, want %d: %s", b, e, be, desc)
					break loop
				}
			}
			got += int64(len(x.Data))
			all = append(all, kept{s, x.Data})
			c.Count("deliveries", 1)
		case failure = <-src.EncounteredError():
			break loop
		}
	}
	src.Close()
	wg.Wait()
	// the source may be in the middle of a last read when it is told to stop
	for range src.GetResultChannel() {
	}
	for range src.EncounteredError() {
	}
	if failure == nil && got >= need && !beyond {
		// nothing may have been lost on the way
		if w.faults > 0 {
			c.Violate("a failing %s was not reported: %s", kind, desc)
		}
		if src.ReadBytes() != got {
			c.Violate("%d bytes reported as read, %d were delivered: %s", src.ReadBytes(), got, desc)
		}
		c.Count("complete", 1)
	}
	if failure != nil {
		switch {
		case w.faults > 0:
			if !errors.Is(failure, errSeek) && !errors.Is(failure, errRead) && !strings.Contains(failure.Error(), "injected") {
				c.Violate("the failure was reported as %q: %s", failure, desc)
			}
			c.Count("failures_reported", 1)
		case mayBeyond:
			c.Count("beyond_reported", 1)
		default:
			c.Violate("error %v though nothing failed: %s", failure, desc)
		}
	}
	if n := w.clash.Load(); n > 0 {
		c.Violate("the reader was used by %d requests at once: %s", n+1, desc)
	}
	for _, k := range all {
		if !bytes.Equal(k.data, content(k.start, k.start+int64(len(k.data)))) {
			c.Violate("the data delivered for offset %d changed afterwards: %s", k.start, desc)
			break
		}
	}
	c.Max("offset_log2", bits(size))
	c.Count("reads", w.reads)
	c.Sig(desc)
	c.Sample(desc)
}

func bits(n int64) (k int) {
	for ; n > 0; n >>= 1 {
		k++
	}
	return
}

// c29patch has the patcher put a file together from a local one and a read-seeker.
func c29patch(c *mon.Case) {
	r := c.R
	bs := int64(mon.Choose(r, 1, 3, 16, 100, 1024))
	nblocks := mon.Range(r, 1, 50)
	size := int64(nblocks)*bs - r.Int64N(bs)
	ref := content(0, size)
	w := &watched{size: size, style: r.IntN(4), seed: r.Uint64()}
	if r.IntN(2) == 0 { // it was used before
		w.pos = mon.Choose(r, 1, size, r.Int64N(size+1))
	}
	res := &blocksources.FixedSizeBlockResolver{BlockSize: uint64(bs), FileSize: size}
	// the patcher takes one response per span, so the source may not split them
	src := blocksources.NewReadSeekerBlockSource(w, res)
	defer src.Close()
	var local []byte
	var found []patcher.FoundBlockSpan
	var missing []patcher.MissingBlockSpan
	for b := 0; b < nblocks; {
		e := min(nblocks-1, b+r.IntN(5))
		// a found block is a whole one
		if r.IntN(2) == 0 && int64(e+1)*bs <= size {
			local = append(local, make([]byte, r.IntN(3))...)
			found = append(found, patcher.FoundBlockSpan{StartBlock: uint(b), EndBlock: uint(e), BlockSize: bs, MatchOffset: int64(len(local))})
			local = append(local, ref[int64(b)*bs:int64(e+1)*bs]...)
		} else {
			missing = append(missing, patcher.MissingBlockSpan{StartBlock: uint(b), EndBlock: uint(e), BlockSize: bs})
		}
		b = e + 1
	}
	var out bytes.Buffer
	desc := fmt.Sprintf("bs=%d size=%d found=%v missing=%v", bs, size, found, missing)
	if err := sequential.SequentialPatcher(bytes.NewReader(local), src, missing, found, 1<<20, &out); err != nil {
		c.Violate("patching failed: %v: %s", err, desc)
	} else if !bytes.Equal(out.Bytes(), ref) {
		c.Violate("the output is not the reference: %s", desc)
	}
	if w.clash.Load() > 0 {
		c.Violate("the reader was used by several requests at once: %s", desc)
	}
	c.Count("patches", 1)
	c.Sig("patch", desc)
}

func TestC29(t *testing.T) {
	var groups []mon.Group
	for _, k := range []string{"whole", "shrunk", "grown", "seek", "read"} {
		groups = append(groups, mon.Group{Name: k, Quick: 400, Thorough: 20000, Fn: func(c *mon.Case) { c29case(c, k) }})
	}
	groups = append(groups, mon.Group{Name: "patch", Quick: 600, Thorough: 30000, Fn: c29patch})
	mon.Run(t, "C29", groups...)
}
