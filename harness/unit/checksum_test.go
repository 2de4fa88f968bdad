package unit

import (
	"bytes"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"errors"
	"fmt"
	"hash"
	"io"
	"math/rand/v2"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/index"
	"github.com/Redundancy/go-sync/indexbuilder"

	"vh/gen"
	"vh/mon"
)

var hashes = []func() hash.Hash{md5.New, md5.New, sha1.New, sha256.New}

func sum(f func() hash.Hash, b []byte) []byte {
	h := f()
	h.Write(b)
	return h.Sum(nil)
}

type genRun struct {
	c         *mon.Case
	g         *filechecksum.FileChecksumGenerator
	weak      *ownWeak // nil: the default
	strong    func() hash.Hash
	file      func() hash.Hash
	bs        int
	keep      []chunks.ChunkChecksum // records held from earlier runs, with what they must still be
	keepWant  []chunks.ChunkChecksum
	retained  int
	generated int
}

func cloneRec(x chunks.ChunkChecksum) chunks.ChunkChecksum {
	x.WeakChecksum, x.StrongChecksum = bytes.Clone(x.WeakChecksum), bytes.Clone(x.StrongChecksum)
	return x
}

func sameRec(a, b chunks.ChunkChecksum) bool {
	return a.ChunkOffset == b.ChunkOffset && bytes.Equal(a.WeakChecksum, b.WeakChecksum) && bytes.Equal(a.StrongChecksum, b.StrongChecksum)
}

// checkRec compares one record with the block it describes.
func (g *genRun) checkRec(rec chunks.ChunkChecksum, i int, block []byte, desc string) bool {
	w := g.weak.of(block)
	switch {
	case rec.ChunkOffset != uint(i):
		g.c.Violate("record %d is numbered %d: %s", i, rec.ChunkOffset, desc)
	case !bytes.Equal(rec.WeakChecksum, w):
		g.c.Violate("record %d has weak checksum %x, want %x: %s", i, rec.WeakChecksum, w, desc)
	case !bytes.Equal(rec.StrongChecksum, sum(g.strong, block)):
		g.c.Violate("record %d has strong checksum %x, want %x: %s", i, rec.StrongChecksum, sum(g.strong, block), desc)
	default:
		return true
	}
	return false
}

// stream runs one generation to the channel and checks every item. The result channel is abandoned as soon
// as the file checksum was received if reuse is immediate.
func (g *genRun) stream(data []byte, rd io.Reader, batch uint, compress bool, leave bool, desc string) bool {
	blocks := gen.Blocks(data, g.bs)
	c := g.c
	var comp filechecksum.CompressionFunction
	ncomp := 0
	if compress {
		comp = func(b []byte) (int64, error) {
			if ncomp < len(blocks) && !bytes.Equal(b, blocks[ncomp]) {
				c.Violate("compression call %d was given %s, want %s: %s", ncomp, mon.Quote(b), mon.Quote(blocks[ncomp]), desc)
			}
			ncomp++
			return int64(ncomp * 3), nil
		}
	}
	n, batches := 0, 0
	var final []byte
	ch := g.g.StartChecksumGeneration(rd, batch, comp)
	for item := range ch {
		if final != nil {
			c.Violate("items follow the file checksum: %s", desc)
			return false
		}
		if item.Err != nil {
			c.Violate("generation failed with %v: %s", item.Err, desc)
			return false
		}
		batches++
		for _, rec := range item.Checksums {
			if n >= len(blocks) {
				c.Violate("more than %d records: %s", len(blocks), desc)
				return false
			}
			if !g.checkRec(rec, n, blocks[n], desc) {
				return false
			}
			if full := len(blocks[n]) == g.bs; (compress && rec.Size != int64(3*(n+1))) || (!compress && full && rec.Size != int64(g.bs)) {
				c.Violate("record %d has size %d: %s", n, rec.Size, desc)
				return false
			}
			if g.retained < 500 {
				g.retained++
				g.keep, g.keepWant = append(g.keep, rec), append(g.keepWant, cloneRec(rec))
			}
			n++
		}
		if item.Filechecksum != nil {
			final = item.Filechecksum
			if leave {
				break // the generator may be used again from here on
			}
		}
	}
	if n != len(blocks) {
		c.Violate("%d records for %d blocks: %s", n, len(blocks), desc)
		return false
	}
	if compress && ncomp != len(blocks) {
		c.Violate("%d compression calls for %d blocks: %s", ncomp, len(blocks), desc)
		return false
	}
	if want := sum(g.file, data); !bytes.Equal(final, want) {
		c.Violate("file checksum %x, want %x: %s", final, want, desc)
		return false
	}
	c.Count("records", n)
	c.Count("batches", batches)
	g.generated++
	return true
}

func (g *genRun) output(data []byte, rd io.Reader, desc string) bool {
	out, written, what := gen.Writer(g.c.R, g.c.Dir)
	desc += " output " + what
	fc, err := g.g.GenerateChecksums(rd, out)
	result := written()
	if err != nil {
		g.c.Violate("GenerateChecksums: %v: %s", err, desc)
		return false
	}
	var want bytes.Buffer
	for _, b := range gen.Blocks(data, g.bs) {
		want.Write(g.weak.of(b))
		want.Write(sum(g.strong, b))
	}
	if !bytes.Equal(result, want.Bytes()) {
		g.c.Violate("checksum stream differs: %s: %s", mon.FirstDiff(result, want.Bytes()), desc)
		return false
	}
	if !bytes.Equal(fc, sum(g.file, data)) {
		g.c.Violate("file checksum %x, want %x: %s", fc, sum(g.file, data), desc)
		return false
	}
	g.c.Count("records", len(gen.Blocks(data, g.bs)))
	g.generated++
	return true
}

func (g *genRun) build(data []byte, rd io.Reader, desc string) bool {
	var (
		fc     []byte
		idx    *index.ChecksumIndex
		lookup filechecksum.ChecksumLookup
		err    error
	)
	if rd == nil {
		fc, idx, lookup, err = indexbuilder.BuildIndexFromString(g.g, string(data))
	} else {
		fc, idx, lookup, err = indexbuilder.BuildChecksumIndex(g.g, rd)
	}
	if err != nil {
		g.c.Violate("BuildChecksumIndex: %v: %s", err, desc)
		return false
	}
	blocks := gen.Blocks(data, g.bs)
	if !bytes.Equal(fc, sum(g.file, data)) || idx.BlockCount != len(blocks) || idx.WeakCount() != len(blocks) {
		g.c.Violate("built index: file checksum %x, block count %d, weak count %d; want %x, %d: %s", fc, idx.BlockCount, idx.WeakCount(), sum(g.file, data), len(blocks), desc)
		return false
	}
	for k := 0; k < min(len(blocks), 50); k++ {
		i := k
		if len(blocks) > 50 {
			i = g.c.R.IntN(len(blocks))
		}
		if got := lookup.GetStrongChecksumForBlock(i); !bytes.Equal(got, sum(g.strong, blocks[i])) {
			g.c.Violate("checksum of block %d is %x: %s", i, got, desc)
			return false
		}
	}
	g.generated++
	return true
}

func c14case(c *mon.Case, maxBS, maxLen, runs int) {
	r := c.R
	bs := gen.BlockSize(r, maxBS)
	g := &genRun{c: c, bs: bs, strong: md5.New, file: md5.New, g: filechecksum.NewFileChecksumGenerator(uint(bs))}
	if r.IntN(3) == 0 {
		g.strong, g.file = hashes[r.IntN(len(hashes))], hashes[r.IntN(len(hashes))]
		g.g.StrongHash, g.g.FileChecksumHash = g.strong(), g.file()
		if r.IntN(2) == 0 {
			g.weak = newWeak(r, g.g.WeakRollingHash)
			g.g.WeakRollingHash = g.weak
			c.Count("custom_rolling_hashes", 1)
		}
	}
	var trace []string
	for k := 0; k < runs; k++ {
		if r.IntN(4) == 0 { // other earlier use of the generator
			dirty := gen.Random(r, mon.Range(r, 1, 2*bs))
			switch r.IntN(4) {
			case 0:
				g.g.StrongHash.Write(dirty)
			case 1:
				g.g.FileChecksumHash.Write(dirty)
			case 2:
				g.g.WeakRollingHash.AddBytes(dirty)
			case 3:
				ref, _ := gen.Content(r, 5*bs, bs)
				(&scanner{gen: g.g}).scan(bs, bytes.NewReader(ref[:max(bs, r.IntN(len(ref)))]), 0, hashedIndex(ref, bs, g.weak, g.strong))
			}
		}
		data, kind := gen.Content(r, gen.Len(r, bs, maxLen), bs)
		if g.generated > 0 && c.R.IntN(5) == 0 && k > 0 { // a failed generation in between
			for range g.g.StartChecksumGeneration(&FaultReader{Data: bytes.Clone(data), Chunk: func() int { return bs + 1 }, FailAt: r.IntN(3), WithData: true, Err: gen.ErrInjected, Limit: 1 << 40}, 3, nil) {
			}
		}
		rd, style := gen.Reader(r, data, c.Dir)
		ok := true
		mode := r.IntN(4)
		batch := mon.Choose(r, uint(0), 1, 1, 2, 3, 5, 16, 63, 64, 65, 100, 1000)
		desc := fmt.Sprintf("run %d %s len=%d bs=%d batch=%d input %s mode=%d", k, kind, len(data), bs, batch, style, mode)
		switch mode {
		case 0, 1:
			ok = g.stream(data, rd, batch, r.IntN(3) == 0, r.IntN(2) == 0, desc)
		case 2:
			ok = g.output(data, rd, desc)
		case 3:
			if r.IntN(2) == 0 {
				ok = g.build(data, rd, desc)
			} else {
				ok = g.build(data, nil, desc)
			}
		}
		if !ok {
			return
		}
		trace = append(trace, desc)
	}
	for i := range g.keep {
		if !sameRec(g.keep[i], g.keepWant[i]) {
			c.Violate("record %d changed after it was delivered: %s", i, strings.Join(trace, "; "))
			return
		}
	}
	c.Count("generations", g.generated)
	c.Count("records_retained", len(g.keep))
	c.Sig(trace)
	c.Sample(trace)
}

func TestC14(t *testing.T) {
	mon.Run(t, "C14",
		mon.Group{Name: "small", Quick: 6000, Thorough: 200000, Fn: func(c *mon.Case) { c14case(c, 130, 3000, mon.Range(c.R, 1, 5)) }},
		mon.Group{Name: "medium", Quick: 400, Thorough: 8000, Fn: func(c *mon.Case) { c14case(c, 70000, 300000, mon.Range(c.R, 1, 3)) }},
		// more blocks than 16 bits can count
		mon.Group{Name: "many", Quick: 4, Thorough: 60, Stuck: 200, Fn: func(c *mon.Case) {
			r := c.R
			bs := mon.Range(r, 1, 3)
			n := bs*65536 + mon.Choose(r, -bs, 0, 1, bs, r.IntN(bs*20000))
			if c.I%4 < 2 {
				n = bs<<mon.Range(r, 20, 21) + r.IntN(bs*20000)
			}
			if mon.Thorough() {
				n += bs * r.IntN(1<<18)
			}
			data := bytes.Repeat(gen.Random(r, 40000-r.IntN(1000)), n/39000+1)[:n]
			g := &genRun{c: c, bs: bs, strong: md5.New, file: md5.New, g: filechecksum.NewFileChecksumGenerator(uint(bs)), retained: 1 << 30}
			rd := &gen.ChunkReader{Data: bytes.Clone(data), R: r, Style: 0}
			batch := mon.Choose(r, uint(1), 64, 1000, 70000)
			desc := fmt.Sprintf("len=%d bs=%d batch=%d", n, bs, batch)
			if c.I%2 == 0 {
				g.stream(data, rd, batch, r.IntN(2) == 0, r.IntN(2) == 0, desc)
			} else {
				g.build(data, rd, desc)
			}
			c.Count("generations", g.generated)
			c.Sig("many", desc)
		}},
		// every length from 0 to a few blocks for every small block size, batch size and reading style
		mon.Group{Name: "lengths", Quick: 9 * gen.Styles, Thorough: 20 * gen.Styles, Fn: func(c *mon.Case) {
			bs, style := 1+c.I/gen.Styles, c.I%gen.Styles
			g := &genRun{c: c, bs: bs, strong: md5.New, file: md5.New, g: filechecksum.NewFileChecksumGenerator(uint(bs)), retained: 1 << 30}
			for n := 0; n <= 6*bs+1; n++ {
				data := gen.Random(c.R, n)
				for batch := uint(0); batch <= 7; batch++ {
					desc := fmt.Sprintf("len=%d bs=%d batch=%d style=%d", n, bs, batch, style)
					if !g.stream(data, &gen.ChunkReader{Data: bytes.Clone(data), R: c.R, Style: style}, batch, batch%2 == 0, batch%3 == 0, desc) {
						return
					}
				}
			}
			c.Count("generations", g.generated)
			c.Sig("lengths", bs, style)
		}},
	)
}

// ---------------------------------------------------------------------------------------------------

type faultWriter struct {
	n, failAt int
	short     bool
	failed    bool
}

func (w *faultWriter) Write(p []byte) (int, error) {
	w.n++
	if w.n > w.failAt {
		w.failed = true
		if w.short {
			return len(p) / 2, gen.ErrInjected
		}
		return 0, gen.ErrInjected
	}
	return len(p), nil
}

var inputErrs = []error{gen.ErrInjected, io.ErrUnexpectedEOF, io.ErrClosedPipe, io.ErrNoProgress, tempErr{}, fmt.Errorf("wrapped: %w", io.EOF), errors.New("")}

// quiesce waits until nothing more happens, at once or after some time, which is free in a bubble.
func quiesce() {
	x := uint64(time.Now().UnixNano()) * 0x9e3779b97f4a7c15 >> 40
	time.Sleep([]time.Duration{1, 2, 3, 5, 7, 9, 3 * time.Millisecond, 4 * time.Second, 11 * time.Minute}[x%9])
	synctest.Wait()
}

// bubble runs f in a bubble which does not end before all its goroutines have.
func bubble(c *mon.Case, f func()) {
	synctest.Test(c.T, func(*testing.T) {
		defer func() {
			if p := recover(); p != nil {
				c.Panicked(p, []byte(mon.Stack()))
			}
		}()
		f()
	})
}

func c15stream(c *mon.Case, data []byte, bs int, rd *FaultReader, batch uint, compFail int, desc string) {
	var comp filechecksum.CompressionFunction
	failed := false
	calls := 0
	if compFail >= 0 {
		comp = func(b []byte) (int64, error) {
			calls++
			if calls > compFail {
				failed = true
				return int64(len(b)), gen.ErrInjected
			}
			return int64(len(b)), nil
		}
	}
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	blocks := gen.Blocks(data, bs)
	n := 0
	var last error
	var file []byte
	bubble(c, func() {
		for item := range g.StartChecksumGeneration(rd, batch, comp) {
			if last != nil {
				c.Violate("items follow the error: %s", desc)
				break
			}
			for _, rec := range item.Checksums {
				gr := genRun{c: c, g: g, strong: md5.New, file: md5.New, bs: bs}
				if n >= len(blocks) || !gr.checkRec(rec, n, blocks[n], desc) {
					c.Violate("bad record %d: %s", n, desc)
				}
				n++
			}
			last = item.Err
			if item.Filechecksum != nil {
				file = item.Filechecksum
			}
		}
	})
	failed = failed || rd.failed
	c.Count("generations", 1)
	if failed {
		c.Count("faults_hit", 1)
	}
	switch {
	case failed && file != nil:
		c.Violate("a file checksum was reported although the generation failed: %s", desc)
	case comp != nil && !failed && calls != len(blocks):
		c.Violate("%d of %d blocks were compressed, so that failures of others go unseen: %s", calls, len(blocks), desc)
	case failed && last == nil:
		c.Violate("no error although the generation failed: %s", desc)
	case !failed && (last != nil || file == nil || n != len(blocks)):
		c.Violate("nothing failed, but error %v, file checksum %x, %d records: %s", last, file, n, desc)
	}
}

func c15write(c *mon.Case, data []byte, bs int, w *faultWriter, rd *FaultReader, desc string) {
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	var fc []byte
	var err error
	bubble(c, func() { fc, err = g.GenerateChecksums(rd, w) })
	failed := w.failed || rd.failed
	c.Count("generations", 1)
	if failed {
		c.Count("faults_hit", 1)
	}
	switch {
	case failed && (fc != nil || err == nil):
		c.Violate("generation with a failure returned checksum %x, error %v: %s", fc, err, desc)
	case !failed && (fc == nil || err != nil):
		c.Violate("generation without a failure returned checksum %x, error %v: %s", fc, err, desc)
	}
}

func c15build(c *mon.Case, bs int, rd *FaultReader, desc string) {
	g := filechecksum.NewFileChecksumGenerator(uint(bs))
	var fc []byte
	var err error
	bubble(c, func() { fc, _, _, err = indexbuilder.BuildChecksumIndex(g, rd) })
	c.Count("generations", 1)
	if rd.failed {
		c.Count("faults_hit", 1)
	}
	if rd.failed && (fc != nil || err == nil) {
		c.Violate("index build with a failure returned checksum %x, error %v: %s", fc, err, desc)
	}
	if !rd.failed && (fc == nil || err != nil) {
		c.Violate("index build without a failure returned checksum %x, error %v: %s", fc, err, desc)
	}
}

func TestC15(t *testing.T) {
	mon.Run(t, "C15",
		mon.Group{Name: "every-fault", Quick: 500, Thorough: 20000, Fn: func(c *mon.Case) {
			r := c.R
			bs := mon.Range(r, 1, 9)
			data := gen.Random(r, gen.Len(r, bs, 70))
			chunk := mon.Range(r, 1, 2*bs)
			e := inputErrs[r.IntN(len(inputErrs))]
			with, once := r.IntN(2) == 0, r.IntN(3) == 0
			batch := mon.Choose(r, uint(0), 1, 2, 3, 64)
			rd := func(k int) *FaultReader {
				return &FaultReader{Data: bytes.Clone(data), Chunk: func() int { return chunk }, FailAt: k, WithData: with, Once: once, Err: e, Limit: 1 << 40}
			}
			desc := func(what string, k int) string {
				return fmt.Sprintf("%s fault at %d (%T %v, with data %v, once %v) len=%d bs=%d batch=%d chunk=%d", what, k, e, e, with, once, len(data), bs, batch, chunk)
			}
			nb := len(gen.Blocks(data, bs))
			for k := 0; k <= len(data)/chunk+3 && !c.Failed(); k++ {
				c15stream(c, data, bs, rd(k), batch, -1, desc("read", k))
				c15build(c, bs, rd(k), desc("build read", k))
				c15write(c, data, bs, &faultWriter{failAt: 1 << 30}, rd(k), desc("output read", k))
			}
			for k := 0; k <= nb && !c.Failed(); k++ {
				c15stream(c, data, bs, rd(-1), batch, k, desc("compression", k))
			}
			for k := 0; k <= 2*nb && !c.Failed(); k++ {
				c15write(c, data, bs, &faultWriter{failAt: k, short: r.IntN(2) == 0}, rd(-1), desc("write", k))
			}
			c.Sig(bs, len(data), chunk, batch, with, once, fmt.Sprintf("%T", e))
			c.Sample(desc("all", -1))
		}},
		mon.Group{Name: "random", Quick: 4000, Thorough: 100000, Fn: func(c *mon.Case) {
			r := c.R
			bs := gen.BlockSize(r, 3000)
			data := gen.Random(r, gen.Len(r, bs, 250000))
			nb := len(gen.Blocks(data, bs))
			mx := mon.Choose(r, bs, 2*bs, 1<<20)
			e := inputErrs[r.IntN(len(inputErrs))]
			batch := mon.Choose(r, uint(0), 1, 2, 63, 64, 65, 500)
			with, once := r.IntN(2) == 0, r.IntN(3) == 0
			rd := &FaultReader{Data: bytes.Clone(data), Chunk: func() int { return mon.Range(r, (mx+1)/2, mx) }, FailAt: -1, WithData: with, Once: once, Err: e, Limit: 1 << 40}
			k := r.IntN(nb + 3)
			desc := fmt.Sprintf("fault at %d (%T, with data %v, once %v) len=%d bs=%d batch=%d reads up to %d", k, e, with, once, len(data), bs, batch, mx)
			what := r.IntN(5)
			switch what {
			case 0, 1:
				rd.FailAt = k
				c15stream(c, data, bs, rd, batch, -1, "read "+desc)
			case 2:
				c15stream(c, data, bs, rd, batch, k, "compression "+desc)
			case 3:
				c15write(c, data, bs, &faultWriter{failAt: r.IntN(2*nb + 2), short: r.IntN(2) == 0}, rd, "write "+desc)
			case 4:
				rd.FailAt = k
				c15build(c, bs, rd, "build "+desc)
			}
			c.Sig(what, desc)
		}},
	)
}

// ---------------------------------------------------------------------------------------------------

type errAfter struct {
	r   io.Reader
	n   int
	err error
}

func (e *errAfter) Read(p []byte) (int, error) {
	if e.n == 0 {
		return 0, e.err
	}
	if len(p) > e.n {
		p = p[:e.n]
	}
	n, err := e.r.Read(p)
	e.n -= n
	return n, err
}

func TestC17(t *testing.T) {
	mk := func(r *rand.Rand) (data []byte, recs, ws, ss int) {
		ws, ss = 4, mon.Choose(r, 16, 16, 16, 20, 32, 1, 8)
		if r.IntN(5) == 0 {
			ws = mon.Range(r, 1, 8)
		}
		recs = mon.Choose(r, 0, 1, 2, 3, 5, 19, 20, 21, 40, 100)
		data, _ = gen.Content(r, recs*(ws+ss), ws+ss)
		return
	}
	load := func(c *mon.Case, rd io.Reader, data []byte, ws, ss int, desc string) bool {
		got, err := chunks.LoadChecksumsFromReader(rd, ws, ss)
		c.Count("loads", 1)
		if err != nil {
			c.Violate("complete stream rejected: %v: %s", err, desc)
			return false
		}
		sz := ws + ss
		if len(got) != len(data)/sz {
			c.Violate("%d records loaded, want %d: %s", len(got), len(data)/sz, desc)
			return false
		}
		for i, g := range got {
			b := data[i*sz:]
			if g.ChunkOffset != uint(i) || !bytes.Equal(g.WeakChecksum, b[:ws]) || !bytes.Equal(g.StrongChecksum, b[ws:sz]) {
				c.Violate("record %d loaded as %d %x %x, want %x: %s", i, g.ChunkOffset, g.WeakChecksum, g.StrongChecksum, b[:sz], desc)
				return false
			}
		}
		lookup := chunks.StrongChecksumGetter(got)
		for i := range got {
			if !bytes.Equal(lookup.GetStrongChecksumForBlock(i), data[i*sz+ws:(i+1)*sz]) {
				c.Violate("lookup of block %d differs: %s", i, desc)
				return false
			}
		}
		c.Count("records", len(got))
		return true
	}
	reject := func(c *mon.Case, rd io.Reader, ws, ss int, desc string) {
		got, err := chunks.LoadChecksumsFromReader(rd, ws, ss)
		c.Count("rejections", 1)
		if err == nil || len(got) != 0 {
			c.Violate("loading returned %d records, error %v: %s", len(got), err, desc)
		}
	}
	mon.Run(t, "C17",
		mon.Group{Name: "load", Quick: 4000, Thorough: 100000, Fn: func(c *mon.Case) {
			r := c.R
			data, recs, ws, ss := mk(r)
			rd, style := gen.Reader(r, data, c.Dir)
			desc := fmt.Sprintf("records=%d sizes=%d+%d input %s", recs, ws, ss, style)
			load(c, rd, data, ws, ss, desc)
			c.Sig(desc)
		}},
		mon.Group{Name: "many", Quick: 40, Thorough: 1500, Fn: func(c *mon.Case) {
			r := c.R
			ws, ss := mon.Choose(r, 4, 4, 4, 2, 8), mon.Choose(r, 16, 16, 1, 32)
			recs := mon.Choose(r, 1000, 1024, 4096, 5000, 65535, 65536, 65537, mon.Range(r, 100, 30000))
			if c.I < 3 {
				recs = 1<<[]int{17, 19, mon.Range(r, 20, 21)}[c.I] + mon.Range(r, 1, 100)
			}
			data := gen.Random(r, recs*(ws+ss))
			style := r.IntN(2)
			if recs > 1<<17 {
				style = 0
			}
			if recs < 6000 {
				style = r.IntN(gen.Styles)
			}
			desc := fmt.Sprintf("records=%d sizes=%d+%d style=%d", recs, ws, ss, style)
			load(c, &gen.ChunkReader{Data: bytes.Clone(data), R: r, Style: style}, data, ws, ss, desc)
			cut := len(data) - 1 - r.IntN(min(len(data)-1, 3*(ws+ss)))
			if cut%(ws+ss) != 0 {
				reject(c, &gen.ChunkReader{Data: bytes.Clone(data[:cut]), R: r, Style: style}, ws, ss, desc+fmt.Sprintf(" cut at %d", cut))
			}
			c.Sig(desc)
		}},
		mon.Group{Name: "every-cut", Quick: 400, Thorough: 8000, Fn: func(c *mon.Case) {
			r := c.R
			data, recs, ws, ss := mk(r)
			if len(data) > 45*(ws+ss) {
				data = data[:45*(ws+ss)]
			}
			for n := 0; n <= len(data) && !c.Failed(); n++ {
				rd, style := gen.Reader(r, data[:n], c.Dir)
				desc := fmt.Sprintf("cut at %d of %d, sizes=%d+%d input %s", n, len(data), ws, ss, style)
				if n%(ws+ss) == 0 {
					load(c, rd, data[:n], ws, ss, desc)
				} else {
					reject(c, rd, ws, ss, desc)
				}
				// a read error after n bytes, including at record boundaries
				e := inputErrs[r.IntN(len(inputErrs))]
				reject(c, &errAfter{&gen.ChunkReader{Data: bytes.Clone(data), R: r, Style: r.IntN(3)}, n, e}, ws, ss, fmt.Sprintf("read error %T after %d of %d bytes, sizes=%d+%d", e, n, len(data), ws, ss))
			}
			c.Sig(recs, ws, ss, r.Uint32())
			c.Sample(fmt.Sprintf("records=%d sizes=%d+%d: every cut and read error position", recs, ws, ss))
		}},
		// what generation writes loads back as what it generated
		mon.Group{Name: "generated", Quick: 800, Thorough: 20000, Fn: func(c *mon.Case) {
			r := c.R
			bs := gen.BlockSize(r, 2000)
			data, kind := gen.Content(r, gen.Len(r, bs, 60000), bs)
			g := filechecksum.NewFileChecksumGenerator(uint(bs))
			var out bytes.Buffer
			if _, err := g.GenerateChecksums(bytes.NewReader(data), &out); err != nil {
				c.Violate("generation failed: %v", err)
				return
			}
			var want []byte
			for _, b := range gen.Blocks(data, bs) {
				w := gen.Weak(b)
				want = append(append(want, w[:]...), gen.Strong(b)...)
			}
			ws, ss := g.GetChecksumSizes()
			rd, style := gen.Reader(r, out.Bytes(), c.Dir)
			desc := fmt.Sprintf("%s len=%d bs=%d input %s", kind, len(data), bs, style)
			load(c, rd, want, ws, ss, desc)
			c.Sig(desc)
		}},
	)
}
