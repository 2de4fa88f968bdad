package unit

import (
	"bytes"
	"fmt"
	"io"
	"math/big"
	"math/rand/v2"
	"sync"
	"testing"

	"github.com/Redundancy/go-sync/util/readers"

	"vh/gen"
	"vh/mon"
)

// nonRepeating is the specified content of the non-repeating sequence: the low bytes of an arithmetic
// progression modulo a prime.
func nonRepeating(seed, off, n int) []byte {
	const inc, mod = 17180131327, 87178291199
	b := make([]byte, n)
	v := new(big.Int).Mul(big.NewInt(int64(off)), big.NewInt(inc))
	v.Add(v, big.NewInt(int64(seed)))
	if off > 0 {
		v.Mod(v, big.NewInt(mod))
	}
	x := v.Int64()
	for i := range b {
		b[i] = byte(x)
		x = (x + inc) % mod
	}
	return b
}

// spec is a stream together with its specified content.
type spec struct {
	mk   func() io.Reader
	want []byte
	desc string
}

func mkSpec(r *rand.Rand, dir func() string, depth, mx int) spec {
	n := mon.Choose(r, 0, 1, 2, 3, r.IntN(50), r.IntN(mx+1))
	k := r.IntN(7)
	if depth <= 0 {
		k = r.IntN(4)
	}
	switch k {
	case 0:
		return spec{func() io.Reader { return readers.ZeroReader(n) }, make([]byte, n), fmt.Sprintf("zero(%d)", n)}
	case 1:
		return spec{func() io.Reader { return readers.OneReader(n) }, bytes.Repeat([]byte{1}, n), fmt.Sprintf("one(%d)", n)}
	case 2:
		s := mon.Choose(r, 0, 1, 2, r.IntN(1000), r.IntN(87178291199))
		return spec{func() io.Reader { return readers.NewSizedNonRepeatingSequence(s, int64(n)) }, nonRepeating(s, 0, n), fmt.Sprintf("seq(%d,%d)", s, n)}
	case 3:
		d := gen.Random(r, n)
		seed := r.Uint64()
		mk := func() (io.Reader, string) { return gen.Reader(rand.New(rand.NewPCG(seed, 2)), d, dir) }
		_, how := mk()
		return spec{func() io.Reader { rd, _ := mk(); return rd }, d, fmt.Sprintf("data(%d,%s)", n, how)}
	case 4, 5:
		base, in := mkSpec(r, dir, depth-1, mx), mkSpec(r, dir, depth-1, mx)
		off := r.IntN(len(base.want) + 2)
		if r.IntN(8) == 0 {
			off = len(base.want) + r.IntN(100)
		}
		cut := min(off, len(base.want))
		want := append(append(bytes.Clone(base.want[:cut]), in.want...), base.want[cut:]...)
		return spec{func() io.Reader { return readers.InjectedReader(int64(off), base.mk(), in.mk()) }, want, fmt.Sprintf("inject(%d,%s,%s)", off, base.desc, in.desc)}
	default:
		var parts []spec
		var all []byte
		desc := ""
		for i := mon.Range(r, 0, 4); i > 0; i-- {
			p := mkSpec(r, dir, depth-1, mx)
			parts, all, desc = append(parts, p), append(all, p.want...), desc+","+p.desc
		}
		size := mon.Choose(r, 0, len(all), len(all)+5, r.IntN(len(all)+1))
		return spec{func() io.Reader {
			var rs []io.Reader
			for _, p := range parts {
				rs = append(rs, p.mk())
			}
			return readers.SequenceLimit(int64(size), rs...)
		}, all[:min(size, len(all))], fmt.Sprintf("limit(%d%s)", size, desc)}
	}
}

// consume reads a stream with a given pattern of read sizes up to its end.
func consume(c *mon.Case, rd io.Reader, r *rand.Rand, style, limit int) (got []byte, msg string) {
	stalls := 0
	for {
		k := 1
		switch style {
		case 1:
			k = mon.Range(r, 0, 9)
		case 2:
			k = mon.Range(r, 1, 4096)
		case 3:
			k = mon.Choose(r, 0, 1, 2, 3, 511, 512, 513)
		case 4:
			k = 1 << 16
		case 5:
			k = mon.Range(r, 1<<17, 3<<19)
		}
		p := bytes.Repeat([]byte{0xA5}, k+3)
		n, err := rd.Read(p[:k])
		c.Count("reads", 1)
		if n < 0 || n > k {
			return got, fmt.Sprintf("Read of %d bytes returned %d", k, n)
		}
		if !bytes.Equal(p[k:], []byte{0xA5, 0xA5, 0xA5}) {
			return got, "Read wrote beyond its buffer"
		}
		got = append(got, p[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			return got, fmt.Sprintf("Read failed: %v", err)
		}
		if n == 0 && k > 0 {
			if stalls++; stalls > 100 {
				return got, "100 reads without data or end"
			}
		} else if n > 0 {
			stalls = 0
		}
		if len(got) > limit {
			return got, fmt.Sprintf("more than %d bytes", limit)
		}
	}
	for i := 0; i < 3; i++ { // the end stays the end
		if n, err := rd.Read(make([]byte, 10)); n != 0 || err != io.EOF {
			return got, fmt.Sprintf("Read after the end returned %d, %v", n, err)
		}
	}
	return got, ""
}

// farStream reads streams whose lengths and offsets do not fit in 32 bits.
func farStream(c *mon.Case) {
	r := c.R
	size := int64(1)<<32 + r.Int64N(1<<24)
	data := gen.Random(r, mon.Range(r, 1, 100))
	at := mon.Choose(r, size-int64(r.IntN(50)), size/2+r.Int64N(1000), 1<<31+r.Int64N(3)-1)
	var rd io.Reader
	var desc string
	want := size
	base := byte(r.IntN(2))
	uniform := readers.ZeroReader
	if base == 1 {
		uniform = readers.OneReader
	}
	switch k := c.I % 3; k {
	case 0:
		rd, desc = readers.InjectedReader(at, uniform(int(size)), bytes.NewReader(data)), "inject"
		want += int64(len(data))
	case 1:
		want = size + r.Int64N(int64(len(data)))
		rd, desc = readers.SequenceLimit(want, uniform(int(at)), bytes.NewReader(data), uniform(int(size))), "limit"
	case 2:
		rd, desc = readers.SequenceLimit(size+1000, uniform(int(at)), bytes.NewReader(data), uniform(int(size-at))), "sequence"
		want += int64(len(data))
	}
	desc = fmt.Sprintf("%s: %d bytes %d, with %d others at %d", desc, size, base, len(data), at)
	buf, plain := make([]byte, 1<<20), bytes.Repeat([]byte{base}, 1<<20)
	off := int64(0)
	for {
		n, err := rd.Read(buf)
		exp := plain[:n]
		if lo, hi := max(off, at), min(off+int64(n), at+int64(len(data))); lo < hi {
			exp = bytes.Clone(exp)
			copy(exp[lo-off:], data[lo-at:hi-at])
		}
		if !bytes.Equal(buf[:n], exp) {
			c.Violate("stream differs at %d: %s: %s", off, mon.FirstDiff(buf[:n], exp), desc)
			return
		}
		off += int64(n)
		if err == io.EOF {
			break
		}
		if err != nil || off > want {
			c.Violate("read at %d (of %d) failed: %v: %s", off, want, err, desc)
			return
		}
	}
	if off != want {
		c.Violate("stream has %d bytes, want %d: %s", off, want, desc)
	}
	c.Count("far_bytes", int(off))
	c.Sig(desc)
	c.Sample(desc)
}

func TestC26(t *testing.T) {
	check := func(c *mon.Case, s spec) {
		for i := 0; i < 3; i++ {
			style := c.R.IntN(5)
			if len(s.want) > 1<<19 {
				style = mon.Choose(c.R, 2, 4, 5, 5)
			} else if len(s.want) > 1<<17 && c.R.IntN(2) == 0 {
				style = 5
			}
			got, msg := consume(c, s.mk(), c.R, style, len(s.want))
			if msg != "" {
				c.Violate("%s (after %d of %d bytes, read pattern %d): %s", msg, len(got), len(s.want), style, s.desc)
				return
			}
			if !bytes.Equal(got, s.want) {
				c.Violate("stream differs: %s (read pattern %d): %s", mon.FirstDiff(got, s.want), style, s.desc)
				return
			}
			c.Count("bytes", len(got))
		}
		c.Sig(s.desc)
		c.Sample(s.desc)
	}
	mon.Run(t, "C26",
		mon.Group{Name: "streams", Quick: 20000, Thorough: 500000, Fn: func(c *mon.Case) { check(c, mkSpec(c.R, c.Dir, mon.Range(c.R, 0, 3), 700)) }},
		mon.Group{Name: "long", Quick: 60, Thorough: 1500, Fn: func(c *mon.Case) { check(c, mkSpec(c.R, c.Dir, 1, 500000)) }},
		mon.Group{Name: "larger", Quick: 16, Thorough: 500, Fn: func(c *mon.Case) { check(c, mkSpec(c.R, c.Dir, 1, 6<<20)) }},
		mon.Group{Name: "far", Quick: 3, Thorough: 40, Stuck: 300, Fn: farStream},
		// several streams, some of them with the same parameters, read by turns or at the same time
		mon.Group{Name: "together", Quick: 1500, Thorough: 50000, Fn: func(c *mon.Case) {
			r := c.R
			var specs []spec
			var rs []io.Reader
			for n := mon.Range(r, 2, 6); n > 0; n-- {
				s := mkSpec(r, c.Dir, mon.Range(r, 0, 2), 3000)
				if len(specs) > 0 && r.IntN(2) == 0 {
					s = specs[r.IntN(len(specs))]
				}
				specs = append(specs, s)
				rs = append(rs, s.mk())
			}
			got := make([][]byte, len(specs))
			if r.IntN(2) == 0 {
				for left := len(rs); left > 0; {
					i := r.IntN(len(rs))
					if rs[i] == nil {
						continue
					}
					b := make([]byte, r.IntN(700))
					n, err := rs[i].Read(b)
					got[i] = append(got[i], b[:n]...)
					if err != nil || len(got[i]) > len(specs[i].want) {
						rs[i] = nil
						left--
					}
				}
				c.Count("streams_by_turns", len(specs))
			} else {
				var wg sync.WaitGroup
				for i := range rs {
					wg.Add(1)
					go func(r *rand.Rand) {
						defer wg.Done()
						got[i], _ = consume(c, rs[i], r, r.IntN(5), len(specs[i].want))
					}(rand.New(rand.NewPCG(r.Uint64(), 3)))
				}
				wg.Wait()
				c.Count("streams_in_parallel", len(specs))
			}
			for i, s := range specs {
				if !bytes.Equal(got[i], s.want) {
					c.Violate("one of %d streams read together differs: %s: %s", len(specs), mon.FirstDiff(got[i], s.want), s.desc)
					return
				}
				c.Sig("together", s.desc)
			}
		}},
		// the endless sequence, far from its start
		mon.Group{Name: "endless", Quick: 16, Thorough: 300, Fn: func(c *mon.Case) {
			r := c.R
			seed := r.IntN(1 << 36)
			rd, off := readers.NewNonRepeatingSequence(seed), 0
			for off < 12000000 {
				k := mon.Choose(r, 0, 1, r.IntN(100), r.IntN(70000), r.IntN(2<<20))
				b := make([]byte, k)
				n, err := rd.Read(b)
				if err != nil || n > k || (n == 0 && k > 0) {
					c.Violate("endless sequence %d: read of %d bytes at %d returned %d, %v", seed, k, off, n, err)
					return
				}
				if want := nonRepeating(seed, off, n); !bytes.Equal(b[:n], want) {
					c.Violate("sequence %d at %d: %s", seed, off, mon.FirstDiff(b[:n], want))
					return
				}
				off += n
			}
			c.Count("bytes", off)
			c.Sig("endless", seed)
		}},
	)
}
