package unit

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/patcher"
	"github.com/Redundancy/go-sync/patcher/sequential"

	"vh/gen"
	"vh/mon"
)

// virtualFile is a huge file with computed content; reads come in arbitrary pieces.
type virtualFile struct {
	seed uint64
	size int64
	pos  int64
	mx   int
	r    *rand.Rand
}

func (v *virtualFile) at(off int64) byte {
	x := uint64(off)*0x9e3779b97f4a7c15 + v.seed
	return byte(x>>56) ^ byte(x>>31)
}

func (v *virtualFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += v.pos
	case io.SeekEnd:
		off += v.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	v.pos = off
	return off, nil
}

func (v *virtualFile) Read(p []byte) (int, error) {
	if v.pos >= v.size {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), v.size-v.pos))
	if n > 1 {
		n = mon.Range(v.r, 1, min(n, v.mx))
	}
	for i := 0; i < n; i++ {
		p[i] = v.at(v.pos + int64(i))
	}
	v.pos += int64(n)
	return n, nil
}

func (v *virtualFile) bytes(off int64, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = v.at(off + int64(i))
	}
	return b
}

const (
	srcHonest = iota
	srcError
	srcWrongBlock
	srcShortBlocks
	srcLongBlocks
	srcShortBytes
	srcLongBytes
	srcEmpty
	srcRefuse
	srcClosed
	srcKinds
)

var srcNames = []string{"honest", "error", "wrong-block", "short-blocks", "long-blocks", "short-bytes", "long-bytes", "empty", "refuse", "closed"}

// scriptSource answers requests from a script and watches their order.
type scriptSource struct {
	c       *mon.Case
	results chan patcher.BlockReponse
	errs    chan error
	want    []patcher.MissingBlockSpan
	data    [][]byte // content of each span
	last    uint     // the last block of all
	storage uint64   // how much may be asked for at once (though always a block)
	badAt   int      // the number of the request that goes wrong
	bad     int
	hit     int64 // the block at which that happened
	n       int
	span    int  // of want, the next request is for a part of it
	done    uint // blocks of it that were requested
	busy    bool
	async   bool
	desc    string
	r       *rand.Rand
}

func (s *scriptSource) GetResultChannel() <-chan patcher.BlockReponse { return s.results }
func (s *scriptSource) EncounteredError() <-chan error                { return s.errs }

func (s *scriptSource) RequestBlocks(m patcher.MissingBlockSpan) error {
	i := s.n
	s.n++
	if s.span >= len(s.want) || m.StartBlock != s.want[s.span].StartBlock+s.done || m.EndBlock < m.StartBlock || m.EndBlock > s.want[s.span].EndBlock {
		s.c.Violate("request %d is for blocks %d-%d after %d blocks of missing span %d: %s", i, m.StartBlock, m.EndBlock, s.done, s.span, s.desc)
		return errors.New("unexpected request")
	}
	w := s.want[s.span]
	bs := int(w.BlockSize)
	count := m.EndBlock - m.StartBlock + 1
	if most := max(1, s.storage/uint64(bs)); uint64(count) > most {
		s.c.Violate("request %d is for %d blocks of %d bytes, though no more than %d bytes may be stored: %s", i, count, bs, s.storage, s.desc)
		return errors.New("unexpected request")
	}
	if m.BlockSize != w.BlockSize || m.Hasher != w.Hasher {
		s.c.Violate("request %d is for blocks of %d bytes, not %d, or has another hasher: %s", i, m.BlockSize, w.BlockSize, s.desc)
	}
	if w.ExpectedSums != nil {
		ok := len(m.ExpectedSums) == int(count)
		for k := 0; ok && k < int(count); k++ {
			ok = string(m.ExpectedSums[k]) == fmt.Sprintf("sum of %d", int(m.StartBlock)+k)
		}
		if !ok {
			s.c.Violate("request %d for blocks %d-%d expects the checksums %q: %s", i, m.StartBlock, m.EndBlock, m.ExpectedSums, s.desc)
		}
		s.c.Count("requests_with_checksums", 1)
	}
	if s.busy {
		s.c.Violate("request %d was made while another was outstanding: %s", i, s.desc)
	}
	if s.bad != srcHonest && i > s.badAt {
		s.c.Violate("request %d was made after the source had failed at %d (%s): %s", i, s.badAt, srcNames[s.bad], s.desc)
	}
	d := s.data[s.span][min(len(s.data[s.span]), int(s.done)*bs):]
	resp := patcher.BlockReponse{StartBlock: m.StartBlock, Data: d[:min(len(d), int(count)*bs)]}
	s.done += count
	if m.EndBlock == w.EndBlock {
		s.span, s.done = s.span+1, 0
	}
	var err error
	if i == s.badAt && s.bad != srcHonest {
		s.hit = int64(m.StartBlock)
		// only lengths that really do not fit
		switch final := m.EndBlock == s.last; {
		case s.bad == srcShortBlocks && len(resp.Data) < bs:
			s.bad = srcEmpty
		case (s.bad == srcShortBytes || s.bad == srcLongBytes) && (final || bs == 1):
			s.bad = srcError
		}
		switch s.bad {
		case srcError:
			err = gen.ErrInjected
		case srcWrongBlock:
			d := uint(mon.Range(s.r, 1, 3))
			if s.r.IntN(2) == 0 && resp.StartBlock >= d {
				resp.StartBlock -= d
			} else {
				resp.StartBlock += d
			}
		case srcShortBlocks:
			resp.Data = resp.Data[:len(resp.Data)-bs*mon.Range(s.r, 1, len(resp.Data)/bs)]
		case srcLongBlocks:
			resp.Data = append(bytes.Clone(resp.Data), make([]byte, bs*mon.Range(s.r, 1, 3))...)
		case srcShortBytes:
			resp.Data = resp.Data[:len(resp.Data)-mon.Range(s.r, 1, bs-1)]
		case srcLongBytes:
			resp.Data = append(bytes.Clone(resp.Data), make([]byte, mon.Range(s.r, 1, bs-1))...)
		case srcEmpty:
			resp.Data = nil
		case srcRefuse:
			return gen.ErrInjected
		case srcClosed:
			close(s.results)
			close(s.errs)
			return nil
		}
	}
	s.busy = true
	go func() {
		if s.async {
			time.Sleep(time.Duration(s.r.IntN(1000)) * mon.Choose(s.r, time.Millisecond, time.Millisecond, time.Second, time.Minute))
		}
		s.busy = false // delivery happens before the next request
		if err != nil {
			s.errs <- err
		} else {
			s.results <- resp
		}
	}()
	return nil
}

func spanList(l []patcher.MissingBlockSpan) string {
	s := ""
	for i, m := range l {
		if i == 20 {
			return s + "..."
		}
		s += fmt.Sprintf("%d-%d ", m.StartBlock, m.EndBlock)
	}
	return s
}

func c25case(c *mon.Case, maxBS, maxBlocks int) {
	r := c.R
	bs := gen.BlockSize(r, maxBS)
	nspans := mon.Range(r, 1, 12)
	if maxBlocks > 10000 {
		bs = mon.Range(r, 1, 8)
		nspans = mon.Choose(r, 1, 1, 3, maxBlocks/3, maxBlocks)
	}
	local := &virtualFile{seed: r.Uint64(), mx: mon.Choose(r, 1, 7, 1000, 1<<20), r: r}
	local.size = mon.Choose(r, int64(maxBlocks*bs*2), 1<<31+int64(r.IntN(100000)), 1<<32+int64(maxBlocks*bs), 1<<40)
	if need := int64(maxBlocks*bs) + 1; local.size < need {
		local.size = need
	}
	var found []patcher.FoundBlockSpan
	var missing []patcher.MissingBlockSpan
	var data, want [][]byte // response per missing span; expected content per span
	block := uint(0)
	for i := 0; i < nspans; i++ {
		n := mon.Range(r, 1, max(1, maxBlocks/nspans))
		last := i == nspans-1
		size := n * bs
		if last && bs > 1 && r.IntN(2) == 0 {
			size -= r.IntN(bs)
		}
		if r.IntN(2) == 0 {
			off := r.Int64N(local.size - int64(size) + 1)
			if r.IntN(3) == 0 {
				off = local.size - int64(size)
			}
			if size != n*bs { // a short last block ends the local file
				off = local.size - int64(size)
			}
			found = append(found, patcher.FoundBlockSpan{StartBlock: block, EndBlock: block + uint(n) - 1, BlockSize: int64(bs), MatchOffset: off})
			want = append(want, local.bytes(off, size))
		} else {
			m := patcher.MissingBlockSpan{StartBlock: block, EndBlock: block + uint(n) - 1, BlockSize: int64(bs)}
			if r.IntN(2) == 0 {
				m.Hasher = md5.New()
				for k := 0; k < n; k++ {
					m.ExpectedSums = append(m.ExpectedSums, []byte(fmt.Sprintf("sum of %d", int(block)+k)))
				}
			}
			missing = append(missing, m)
			d := gen.Random(r, size)
			data = append(data, d)
			want = append(want, d)
		}
		block += uint(n)
	}
	storage := mon.Choose(r, 0, 1, bs-1, bs, bs+1, 2*bs, 3*bs-1, 3*bs, 10*bs, 1<<20, 1<<40)
	s := &scriptSource{c: c, want: missing, data: data, last: block - 1, storage: uint64(storage), badAt: -1, hit: -1, r: r, async: r.IntN(2) == 0}
	if len(missing) > 0 && r.IntN(2) == 0 {
		requests := 0 // at the least
		for _, m := range missing {
			requests += (int(m.EndBlock-m.StartBlock)*bs)/max(bs, storage) + 1
		}
		s.badAt, s.bad = r.IntN(requests), 1+r.IntN(srcKinds-1)
	}
	total := 0
	for i := range want {
		total += len(want[i])
	}
	s.desc = fmt.Sprintf("bs=%d blocks=%d found=%v missing=%s local=%d storage=%d source %s at request %d", bs, block, found[:min(len(found), 20)], spanList(missing), local.size, storage, srcNames[s.bad], s.badAt)
	var in io.ReadSeeker = local
	if local.size < 100000 {
		var what string
		in, what = gen.ReadSeeker(r, local.bytes(0, int(local.size)), c.Dir, false)
		s.desc += " input " + what
	}
	var err error
	var got []byte
	bubble(c, func() {
		out, written, what := gen.Writer(r, c.Dir)
		s.desc += " output " + what
		s.results, s.errs = make(chan patcher.BlockReponse, 1), make(chan error, 1) // of this bubble
		err = sequential.SequentialPatcher(in, s, missing, found, uint64(storage), out)
		got = written()
		quiesce()
		if s.async {
			time.Sleep(20 * time.Hour)
		}
	})
	if len(missing) > 0 && r.IntN(8) == 0 { // nowhere to fetch from
		in.Seek(0, io.SeekStart)
		if sequential.SequentialPatcher(in, nil, missing, found, uint64(storage), io.Discard) == nil {
			c.Violate("patching without a source reported success: %s", s.desc)
			return
		}
		c.Count("patches_without_source", 1)
	}
	c.Count("patches", 1)
	c.Count("requests", s.n)
	c.Count("bytes_written", len(got))
	exp := bytes.Join(want, nil)
	if s.hit >= 0 {
		c.Count("source_failures_"+srcNames[s.bad], 1)
		if err == nil {
			c.Violate("source failed (%s) but patching reported success: %s", srcNames[s.bad], s.desc)
			return
		}
		exp = exp[:s.hit*int64(bs)]
	} else {
		if err != nil {
			c.Violate("patching failed with %v: %s", err, s.desc)
			return
		}
		if s.span != len(missing) {
			c.Violate("only the blocks of %d of %d missing spans were requested: %s", s.span, len(missing), s.desc)
		}
	}
	if s.hit < 0 && !bytes.Equal(got, exp) || s.hit >= 0 && !bytes.HasPrefix(got, exp) {
		c.Violate("output differs from the spans: %s: %s", mon.FirstDiff(got, exp), s.desc)
	}
	c.Sig(bs, nspans, len(found), len(missing), total, s.bad, s.badAt, storage)
	c.Sample(s.desc)
}

func TestC25(t *testing.T) {
	mon.Run(t, "C25",
		mon.Group{Name: "small", Quick: 15000, Thorough: 400000, Fn: func(c *mon.Case) { c25case(c, 300, 40) }},
		mon.Group{Name: "large", Quick: 150, Thorough: 4000, Fn: func(c *mon.Case) { c25case(c, 131072, 60) }},
		mon.Group{Name: "many", Quick: 24, Thorough: 800, Stuck: 300, Fn: func(c *mon.Case) { c25case(c, 8, mon.Choose(c.R, 70000, 150000, 300000)) }},
		mon.Group{Name: "huge-span", Quick: 8, Thorough: 80, Fn: c25huge},
		// real memory must not be needed for the whole local span
		mon.Group{Name: "long-span", Quick: 8, Thorough: 80, Fn: func(c *mon.Case) {
			bs := int64(65536)
			n := uint(mon.Range(c.R, 300, 700))
			local := &virtualFile{seed: c.R.Uint64(), mx: 1 << 20, r: c.R, size: 1 << 33}
			off := c.R.Int64N(1<<33 - int64(n)*bs)
			s := &scriptSource{c: c, results: make(chan patcher.BlockReponse, 1), errs: make(chan error, 1), badAt: -1, r: c.R}
			w := &compareWriter{v: local, off: off}
			err := sequential.SequentialPatcher(local, s, nil, []patcher.FoundBlockSpan{{StartBlock: 0, EndBlock: n - 1, BlockSize: bs, MatchOffset: off}}, 0, w)
			if err != nil || w.n != int64(n)*bs || w.bad >= 0 {
				c.Violate("copy of %d bytes from %d: error %v, wrote %d, first difference at %d", int64(n)*bs, off, err, w.n, w.bad)
			}
			c.Count("bytes_written", int(w.n))
			c.Sig("long", n, off)
		}},
	)
}

// stampedFile is zero but for a stamp of its position at every 4096 bytes.
type stampedFile struct{ size, pos int64 }

func stampAll(p []byte, off int64) {
	clear(p)
	for x := (off + 4095) &^ 4095; x+8 <= off+int64(len(p)); x += 4096 {
		binary.LittleEndian.PutUint64(p[x-off:], uint64(x)+1)
	}
}

func (f *stampedFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += f.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

func (f *stampedFile) Read(p []byte) (int, error) {
	if f.pos >= f.size {
		return 0, io.EOF
	}
	n := int(min(int64(len(p)), f.size-f.pos))
	n = int(min(int64(n), 4096-(f.pos+8)&4095+4096*7)) // a stamp is never split
	stampAll(p[:n], f.pos)
	f.pos += int64(n)
	return n, nil
}

// stampWriter expects ranges of a stampedFile and literal data in turn.
type stampWriter struct {
	n, wrong int64
	parts    []stampPart
	buf      []byte
}

type stampPart struct {
	off, size int64 // of the file, or
	data      []byte
}

func (w *stampWriter) Write(p []byte) (int, error) {
	for q := p; len(q) > 0; {
		if len(w.parts) == 0 {
			if w.wrong < 0 {
				w.wrong = w.n
			}
			w.n += int64(len(q))
			break
		}
		x := &w.parts[0]
		m := int(min(int64(len(q)), x.size))
		if len(w.buf) < m {
			w.buf = make([]byte, m)
		}
		want := w.buf[:m]
		if x.data != nil {
			copy(want, x.data)
			x.data = x.data[m:]
		} else {
			stampAll(want, x.off)
			x.off += int64(m)
		}
		if w.wrong < 0 && !bytes.Equal(want, q[:m]) {
			w.wrong = w.n
		}
		if x.size -= int64(m); x.size == 0 {
			w.parts = w.parts[1:]
		}
		w.n += int64(m)
		q = q[m:]
	}
	return len(p), nil
}

// c25huge: spans beyond 4 GB.
func c25huge(c *mon.Case) {
	r := c.R
	bs := int64(mon.Choose(r, 1<<16, 1<<20, 1<<24))
	n := (4<<30)/bs + int64(mon.Range(r, 0, 20))
	local := &stampedFile{size: 16 << 30}
	s := &scriptSource{c: c, badAt: -1, r: r, storage: 1 << 30}
	w := &stampWriter{wrong: -1}
	var found []patcher.FoundBlockSpan
	block := uint(0)
	fetch := func() {
		d := gen.Random(r, int(bs)*mon.Range(r, 1, max(1, int(1<<20/bs))))
		k := uint(int64(len(d)) / bs)
		s.want = append(s.want, patcher.MissingBlockSpan{StartBlock: block, EndBlock: block + k - 1, BlockSize: bs})
		s.data = append(s.data, d)
		w.parts = append(w.parts, stampPart{size: int64(len(d)), data: d})
		block += k
	}
	take := func(k int64) {
		off := r.Int64N((local.size-k*bs)>>12) << 12
		found = append(found, patcher.FoundBlockSpan{StartBlock: block, EndBlock: block + uint(k) - 1, BlockSize: bs, MatchOffset: off})
		w.parts = append(w.parts, stampPart{off: off, size: k * bs})
		block += uint(k)
	}
	fetch()
	take(n)
	fetch()
	take(int64(mon.Range(r, 1, 3)))
	total := int64(block) * bs
	s.desc = fmt.Sprintf("bs=%d found=%v missing=%s", bs, found, spanList(s.want))
	var err error
	bubble(c, func() {
		s.results, s.errs = make(chan patcher.BlockReponse, 1), make(chan error, 1)
		err = sequential.SequentialPatcher(local, s, s.want, found, s.storage, w)
	})
	if err != nil || w.n != total || w.wrong >= 0 || len(w.parts) != 0 {
		c.Violate("patching %d bytes: %v, wrote %d, first wrong write at %d: %s", total, err, w.n, w.wrong, s.desc)
	}
	c.Count("huge_spans", 1)
	c.Sig(s.desc)
	c.Sample(s.desc)
}

type compareWriter struct {
	v   *virtualFile
	off int64
	n   int64
	bad int64
	hit bool
}

func (w *compareWriter) Write(p []byte) (int, error) {
	if !w.hit {
		w.bad = -1
	}
	for i, b := range p {
		if !w.hit && b != w.v.at(w.off+w.n+int64(i)) {
			w.bad, w.hit = w.n+int64(i), true
		}
	}
	w.n += int64(len(p))
	runtime.Gosched()
	return len(p), nil
}
