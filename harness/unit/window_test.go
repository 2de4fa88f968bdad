package unit

import (
	"bytes"
	"fmt"
	"hash"
	"math/rand/v2"
	"testing"

	"github.com/Redundancy/go-sync/circularbuffer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/rollsum"

	"vh/gen"
	"vh/mon"
)

// ---------------------------------------------------------------------------------------------------
// C13: window buffer against a slice

type ringModel struct {
	c      *mon.Case
	bs     int
	buf    *circularbuffer.C2
	model  []byte
	next   byte
	trace  []string
	random bool
}

func newRing(c *mon.Case, bs int) *ringModel {
	return &ringModel{c: c, bs: bs, buf: circularbuffer.MakeC2Buffer(bs)}
}

func (m *ringModel) fail(format string, a ...any) {
	t := m.trace
	if len(t) > 40 {
		t = t[len(t)-40:]
	}
	m.c.Violate("capacity %d: %s\nlast operations: %v", m.bs, fmt.Sprintf(format, a...), t)
}

func (m *ringModel) check() bool {
	if got := m.buf.GetBlock(); !bytes.Equal(got, m.model) {
		m.fail("content is %s, want %s", mon.Quote(got), mon.Quote(m.model))
		return false
	}
	if m.buf.Len() != len(m.model) {
		m.fail("Len is %d, want %d", m.buf.Len(), len(m.model))
		return false
	}
	if m.buf.Empty() != (len(m.model) == 0) {
		m.fail("Empty is %v with %d bytes held", m.buf.Empty(), len(m.model))
		return false
	}
	return true
}

func (m *ringModel) write(n int) bool {
	b := make([]byte, n)
	for i := range b {
		m.next++
		b[i] = m.next
		if m.random {
			b[i] = byte(m.c.R.Uint32())
		}
	}
	m.trace = append(m.trace, fmt.Sprintf("W%d", n))
	in := bytes.Clone(b)
	m.buf.Write(in)
	if !bytes.Equal(in, b) {
		m.fail("write changed its input")
		return false
	}
	for i := range in {
		in[i] = ^in[i] // the buffer must have its own copy
	}
	full := append(bytes.Clone(m.model), b...)
	var ev []byte
	if len(full) > m.bs {
		ev, full = full[:len(full)-m.bs], full[len(full)-m.bs:]
	}
	m.model = full
	m.c.Count("writes", 1)
	if got := m.buf.Evicted(); !bytes.Equal(got, ev) {
		m.fail("evicted %s, want %s", mon.Quote(got), mon.Quote(ev))
		return false
	}
	m.c.Count("bytes_evicted", len(ev))
	return m.check()
}

func (m *ringModel) truncate(n int) bool {
	m.trace = append(m.trace, fmt.Sprintf("T%d", n))
	got := bytes.Clone(m.buf.Truncate(n))
	k := min(n, len(m.model))
	if !bytes.Equal(got, m.model[:k]) {
		m.fail("truncation returned %s, want %s", mon.Quote(got), mon.Quote(m.model[:k]))
		return false
	}
	m.model = m.model[k:]
	m.c.Count("truncations", 1)
	return m.check()
}

func (m *ringModel) reset() bool {
	m.trace = append(m.trace, "R")
	m.buf.Reset()
	m.model = nil
	m.c.Count("resets", 1)
	return m.check()
}

// ringCase does n operations on a buffer of the given capacity.
func ringCase(c *mon.Case, bs, n int) {
	m := newRing(c, bs)
	m.random = c.R.IntN(2) == 0
	style := c.R.IntN(5)
	for i := 0; i < n; i++ {
		ok := true
		switch x := c.R.IntN(20); {
		case x < 14:
			w := c.R.IntN(bs + 1)
			switch style {
			case 1:
				w = min(bs, 1+c.R.IntN(3))
			case 2:
				w = mon.Choose(c.R, 1, bs, bs-1, 0)
			case 3:
				w = bs - min(bs, c.R.IntN(3))
			case 4: // the scanner's pattern: bytes, whole blocks, then a remainder
				w = mon.Choose(c.R, 1, 1, 1, bs)
			}
			ok = m.write(w)
		case x < 19:
			ok = m.truncate(mon.Choose(c.R, 0, 1, 1, 1, c.R.IntN(bs+1), bs, bs+1))
		default:
			if c.R.IntN(4) == 0 {
				ok = m.reset()
			}
		}
		if !ok {
			return
		}
	}
	c.Sig(bs, style, n, m.next)
}

func TestC13(t *testing.T) {
	mon.Run(t, "C13",
		mon.Group{Name: "exhaustive", Quick: 64, Thorough: 96, Fn: func(c *mon.Case) {
			// all sequences over writes 0..bs, truncations 1..bs+1 and reset, of a depth depending on bs
			bs := 1 + c.I%4
			depth := []int{0, 7, 6, 5, 5}[bs]
			if mon.Thorough() {
				depth++
			}
			nops := (bs + 1) + (bs + 1) + 1
			total := 1
			for i := 0; i < depth; i++ {
				total *= nops
			}
			part, parts := c.I/4, 16
			if mon.Thorough() {
				parts = 24
			}
			for s := part * total / parts; s < (part+1)*total/parts; s++ {
				m := newRing(c, bs)
				v := s
				for d := 0; d < depth; d++ {
					op := v % nops
					v /= nops
					ok := true
					switch {
					case op <= bs:
						ok = m.write(op)
					case op < nops-1:
						ok = m.truncate(op - bs)
					default:
						ok = m.reset()
					}
					if !ok {
						return
					}
				}
				c.Count("sequences", 1)
			}
			c.Sig(c.I)
			c.Sample(fmt.Sprintf("capacity %d, all operation sequences of length %d, part %d of %d", bs, depth, part, parts))
		}},
		mon.Group{Name: "random", Quick: 12000, Thorough: 300000, Fn: func(c *mon.Case) {
			bs := gen.BlockSize(c.R, 300)
			if c.R.IntN(30) == 0 {
				bs = gen.BlockSize(c.R, 70000)
			}
			ringCase(c, bs, mon.Range(c.R, 10, 120))
		}},
		mon.Group{Name: "wide", Quick: 32, Thorough: 600, Fn: func(c *mon.Case) { ringCase(c, wideBlock(c.R), mon.Range(c.R, 5, 15)) }},
		mon.Group{Name: "long", Quick: 60, Thorough: 1200, Fn: func(c *mon.Case) {
			bs := gen.BlockSize(c.R, 64)
			m := newRing(c, bs)
			for i := 0; i < 20000; i++ {
				if !m.write(mon.Choose(c.R, 1, 1, 1, 1, c.R.IntN(bs+1))) {
					return
				}
				if c.R.IntN(50) == 0 && !m.truncate(c.R.IntN(bs+1)) {
					return
				}
				if len(m.trace) > 100 {
					m.trace = m.trace[50:]
				}
			}
			c.Sig(bs)
		}},
		mon.Group{Name: "far", Quick: 3, Thorough: 16, Fn: func(c *mon.Case) {
			// more bytes through one buffer than a 32 bit number holds; looked at closely around the borders
			bs := mon.Choose(c.R, 1<<16, 1<<17-3, 200001, 1<<18)
			m := newRing(c, bs)
			m.random = true
			borders := []int64{1 << 31, 1 << 32}
			if mon.Thorough() {
				borders = append(borders, 1<<33)
			}
			chunk := gen.Random(c.R, 3*bs)
			var total int64
			for _, border := range borders {
				start := border - int64(c.R.IntN(3*bs)) - int64(bs)
				for total < start {
					n := int(min(start-total, int64(mon.Choose(c.R, bs, bs, bs-1, 1+c.R.IntN(bs)))))
					at := c.R.IntN(len(chunk) - n + 1)
					m.buf.Write(chunk[at : at+n])
					if keep := bs - n; keep < len(m.model) {
						m.model = m.model[len(m.model)-keep:]
					}
					m.model = append(bytes.Clone(m.model), chunk[at:at+n]...)
					total += int64(n)
				}
				m.trace = []string{fmt.Sprintf("%d bytes written", total)}
				if !m.check() {
					return
				}
				for total < border+2*int64(bs) {
					n := mon.Choose(c.R, 0, 1, 1, 2, bs, bs-1, c.R.IntN(bs+1), c.R.IntN(bs/8))
					if border > total && c.R.IntN(3) == 0 {
						n = min(bs, int(border-total)+c.R.IntN(3)-1) // right up to the border
					}
					if !m.write(max(0, n)) {
						return
					}
					total += int64(max(0, n))
				}
			}
			c.Count("far_bytes", int(total))
			for !m.buf.Empty() {
				if !m.truncate(1 + c.R.IntN(bs)) {
					return
				}
			}
			if !m.write(bs) || !m.reset() || !m.write(1) {
				return
			}
			c.Sig(bs, m.trace)
			c.Sample(fmt.Sprintf("capacity %d, %d bytes written", bs, total))
		}},
	)
}

// ---------------------------------------------------------------------------------------------------
// C12: rolling checksum against a fresh computation over the window

func sumOf(r interface{ GetSum([]byte) }) (s [4]byte) {
	b := []byte{1, 2, 3, 4, 0xaa, 0xbb}
	r.GetSum(b)
	if b[4] != 0xaa || b[5] != 0xbb {
		return [4]byte{0xde, 0xad, 0xbe, 0xef}
	}
	copy(s[:], b)
	return
}

// wideBlock is a block size that takes more than 20 bits.
func wideBlock(r *rand.Rand) int {
	return mon.Choose(r, 1<<20, 1<<20+1, 1<<21-3, 3000000, 1<<22, 5<<20+1, 1<<24+mon.Range(r, -2, 5))
}

func payload(c *mon.Case, kind, n int) []byte {
	b := gen.Random(c.R, n)
	switch kind {
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] &= 1
		}
	case 3:
		for i := range b {
			b[i] = 0
		}
	case 4:
		for i := range b {
			b[i] |= 0xf0
		}
	}
	return b
}

func writeSize(c *mon.Case, bs int) int {
	r := c.R
	return max(0, mon.Choose(r, 0, 1, 1, 1, 2, bs-1, bs, bs+1, r.IntN(bs+1), r.IntN(bs+1), r.IntN(3*bs+1), 2*bs, 2*bs+1))
}

func TestC12(t *testing.T) {
	blockSize := func(r *rand.Rand, maxBS int) int {
		if maxBS > 1<<20 {
			return wideBlock(r)
		}
		return gen.BlockSize(r, maxBS)
	}
	hashCase := func(maxBS, ops int) func(c *mon.Case) {
		return func(c *mon.Case) {
			r := c.R
			bs := blockSize(r, maxBS)
			h := rollsum.NewRollsum32(uint(bs))
			var _ hash.Hash = h
			var win []byte
			var trace []string
			kind := r.IntN(6)
			n := mon.Range(r, 5, ops)
			for i := 0; i < n; i++ {
				switch x := r.IntN(24); {
				case x < 22:
					k := writeSize(c, bs)
					p := payload(c, kind, k)
					q := bytes.Clone(p)
					w, err := h.Write(q)
					if w != k || err != nil || !bytes.Equal(p, q) {
						c.Violate("Write(%d bytes) = %d, %v (input changed: %v)", k, w, err, !bytes.Equal(p, q))
						return
					}
					for j := range q {
						q[j]++
					}
					win = append(win, p...)
					win = bytes.Clone(win[max(0, len(win)-bs):])
					trace = append(trace, fmt.Sprintf("W%d", k))
					c.Count("writes", 1)
				case x == 22:
					if r.IntN(6) == 0 {
						h.Reset()
						win = nil
						trace = append(trace, "R")
					}
				}
				want := gen.Weak(win)
				// Sum appends, keeps the prefix and the state
				pre := gen.Random(r, r.IntN(6))
				buf := append(make([]byte, 0, len(pre)+r.IntN(10)), pre...)
				full := buf[:cap(buf)]
				for j := len(buf); j < len(full); j++ {
					full[j] = 0x77
				}
				var arg []byte = buf
				if r.IntN(4) == 0 {
					arg, pre = nil, nil
				}
				for rep := 0; rep < 2; rep++ {
					got := h.Sum(arg)
					if !bytes.Equal(got, append(bytes.Clone(pre), want[:]...)) {
						c.Violate("block size %d: Sum(%x) = %x, want prefix + %x; window %s\nlast operations %v", bs, arg, got, want, mon.Quote(win), tail(trace))
						return
					}
				}
				for j := len(buf) + 4; arg != nil && j < len(full); j++ {
					if full[j] != 0x77 {
						c.Violate("Sum wrote beyond the four bytes it appended")
						return
					}
				}
				if got := sumOf(&h.Rollsum32Base); got != want {
					c.Violate("GetSum = %x, want %x", got, want)
					return
				}
				if got := h.GetLastBlock(); !bytes.Equal(got, win) {
					c.Violate("block size %d: window of the hash is %s, want %s\nlast operations %v", bs, mon.Quote(got), mon.Quote(win), tail(trace))
					return
				}
				c.Count("sums_compared", 1)
			}
			if h.Size() != 4 || h.BlockSize() != bs {
				c.Violate("Size %d BlockSize %d", h.Size(), h.BlockSize())
			}
			c.Sig(bs, kind, n, trace)
			c.Sample(fmt.Sprintf("block size %d, payload kind %d, ops %v", bs, kind, tail(trace)))
		}
	}
	baseCase := func(maxBS, ops int) func(c *mon.Case) {
		return func(c *mon.Case) {
			r := c.R
			bs := blockSize(r, maxBS)
			var h filechecksum.RollingHash = rollsum.NewRollsum32Base(uint(bs))
			var win []byte
			var trace []string
			kind := r.IntN(6)
			for i := 0; i < ops; i++ {
				switch r.IntN(7) {
				case 0:
					b := payload(c, kind, 1)[0]
					h.AddByte(b)
					win = append(win, b)
					trace = append(trace, "a")
				case 1:
					b := payload(c, kind, r.IntN(bs+1))
					h.AddBytes(b)
					win = append(win, b...)
					trace = append(trace, fmt.Sprintf("A%d", len(b)))
				case 2:
					if len(win) > 0 {
						h.RemoveByte(win[0], len(win))
						win = win[1:]
						trace = append(trace, "r")
					}
				case 3:
					k := r.IntN(len(win) + 1)
					h.RemoveBytes(bytes.Clone(win[:k]), len(win))
					win = win[k:]
					trace = append(trace, fmt.Sprintf("R%d", k))
				case 4, 5:
					add := payload(c, kind, r.IntN(2*bs+1))
					rem := r.IntN(min(len(add), len(win)) + 1)
					h.AddAndRemoveBytes(add, bytes.Clone(win[:rem]), len(win))
					win = append(bytes.Clone(win[rem:]), add...)
					trace = append(trace, fmt.Sprintf("A%dR%d", len(add), rem))
				case 6:
					if r.IntN(3) == 0 {
						b := payload(c, kind, mon.Choose(r, bs, r.IntN(bs+1), 0))
						h.SetBlock(b)
						win = bytes.Clone(b)
						trace = append(trace, fmt.Sprintf("S%d", len(b)))
					} else if r.IntN(4) == 0 {
						h.Reset()
						win = nil
						trace = append(trace, "Z")
					}
				}
				if len(win) > 6*bs+10 {
					k := len(win) - bs
					h.RemoveBytes(win[:k], len(win))
					win = bytes.Clone(win[k:])
				}
				want := gen.Weak(win)
				for rep := 0; rep < 2; rep++ {
					if got := sumOf(h); got != want {
						c.Violate("block size %d: sum %x, fresh computation over the %d byte window gives %x\nlast operations %v", bs, got, len(win), want, tail(trace))
						return
					}
				}
				c.Count("sums_compared", 1)
			}
			if h.Size() != 4 {
				c.Violate("Size %d", h.Size())
			}
			c.Sig(bs, kind, trace)
		}
	}
	mon.Run(t, "C12",
		mon.Group{Name: "hash", Quick: 12000, Thorough: 300000, Fn: hashCase(300, 60)},
		mon.Group{Name: "hash-large", Quick: 160, Thorough: 4000, Fn: hashCase(131072, 25)},
		mon.Group{Name: "base", Quick: 12000, Thorough: 300000, Fn: baseCase(300, 50)},
		mon.Group{Name: "base-large", Quick: 160, Thorough: 4000, Fn: baseCase(131072, 25)},
		mon.Group{Name: "hash-wide", Quick: 16, Thorough: 300, Fn: hashCase(1<<24, 8)},
		mon.Group{Name: "base-wide", Quick: 16, Thorough: 300, Fn: baseCase(1<<24, 8)},
		mon.Group{Name: "roll", Quick: 200, Thorough: 4000, Fn: func(c *mon.Case) {
			// the scanner's use: set a block, then roll byte by byte, then shrink from the front
			r := c.R
			bs := gen.BlockSize(r, 600)
			data := payload(c, r.IntN(6), bs+mon.Range(r, 1, 3*bs))
			h := rollsum.NewRollsum32Base(uint(bs))
			w := rollsum.NewRollsum32(uint(bs))
			h.SetBlock(data[:bs])
			w.Write(data[:bs])
			for x := 0; x+bs <= len(data); x++ {
				want := gen.Weak(data[x : x+bs])
				if sumOf(h) != want || !bytes.Equal(w.Sum(nil), want[:]) {
					c.Violate("block size %d, window at %d: bare %x, hash %x, want %x", bs, x, sumOf(h), w.Sum(nil), want)
					return
				}
				c.Count("sums_compared", 2)
				if x+bs < len(data) {
					h.AddAndRemoveBytes(data[x+bs:x+bs+1], data[x:x+1], bs)
					w.Write(data[x+bs : x+bs+1])
				}
			}
			for x := len(data) - bs; x < len(data); x++ {
				if want := gen.Weak(data[x:]); sumOf(h) != want {
					c.Violate("block size %d, shrunk window of %d bytes: %x, want %x", bs, len(data)-x, sumOf(h), want)
					return
				}
				h.RemoveBytes(data[x:x+1], len(data)-x)
				c.Count("sums_compared", 1)
			}
			c.Sig(bs, len(data))
		}},
		mon.Group{Name: "far", Quick: 2, Thorough: 12, Fn: func(c *mon.Case) {
			// more bytes through one sum than a 32 bit number holds; looked at closely around the borders
			r := c.R
			bs := mon.Choose(r, 1<<16, 1<<17-3, 200001, 1<<18)
			h := rollsum.NewRollsum32(uint(bs))
			chunk := gen.Random(r, 3*bs)
			var total int64
			var win []byte
			borders := []int64{1 << 31, 1 << 32}
			if mon.Thorough() {
				borders = append(borders, 1<<33)
			}
			write := func(p []byte) {
				h.Write(p)
				if keep := max(0, bs-len(p)); keep < len(win) {
					win = win[len(win)-keep:]
				}
				win = append(bytes.Clone(win), p[max(0, len(p)-bs):]...)
				total += int64(len(p))
			}
			check := func() bool {
				want := gen.Weak(win)
				c.Count("sums_compared", 1)
				if got := h.Sum(nil); !bytes.Equal(got, want[:]) {
					c.Violate("block size %d, after %d bytes: sum %x, fresh computation over the window gives %x", bs, total, got, want)
					return false
				}
				if !bytes.Equal(h.GetLastBlock(), win) {
					c.Violate("block size %d, after %d bytes: window of the hash is %s, want %s", bs, total, mon.Quote(h.GetLastBlock()), mon.Quote(win))
					return false
				}
				return true
			}
			for _, border := range borders {
				start := border - int64(r.IntN(3*bs)) - int64(bs)
				for total < start {
					n := int(min(start-total, int64(mon.Choose(r, bs, bs, 2*bs, bs, 1+r.IntN(bs)))))
					at := r.IntN(len(chunk) - n + 1)
					write(chunk[at : at+n])
				}
				if !check() {
					return
				}
				for total < border+2*int64(bs) {
					n := mon.Choose(r, 0, 1, 1, 2, bs, bs-1, r.IntN(2*bs), r.IntN(bs/8))
					if border > total && r.IntN(3) == 0 {
						n = max(0, min(bs, int(border-total)+r.IntN(3)-1))
					}
					at := r.IntN(len(chunk) - n + 1)
					if write(chunk[at : at+n]); !check() {
						return
					}
				}
			}
			c.Count("far_bytes", int(total))
			c.Sig(bs, total)
			c.Sample(fmt.Sprintf("block size %d, %d bytes written", bs, total))
		}},
	)
}

func tail(t []string) []string { return t[max(0, len(t)-30):] }
