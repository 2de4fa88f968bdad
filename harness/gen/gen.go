// Package gen generates reference/local file pairs and provides independent oracles (naive checksums and
// block search) that share no code with go-sync.
package gen

import (
	"bytes"
	"crypto/md5"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"

	"vh/mon"
)

// Weak is an independent implementation of the documented rolling checksum of a block.
func Weak(b []byte) [4]byte {
	var a, s uint64
	n := uint64(len(b))
	for i, x := range b {
		a += uint64(x)
		s += (n - uint64(i)) * uint64(x)
	}
	var out [4]byte
	binary.LittleEndian.PutUint32(out[:], uint32(a&0xffff)|uint32(s&0xffff)<<16)
	return out
}

// Strong is the strong checksum of a block.
func Strong(b []byte) []byte { h := md5.Sum(b); return h[:] }

// Blocks splits data.
func Blocks(data []byte, bs int) (out [][]byte) {
	for i := 0; i < len(data); i += bs {
		out = append(out, data[i:min(i+bs, len(data))])
	}
	return
}

// Collide returns a different block with the same length, byte sum and weighted sum, or nil.
func Collide(r *rand.Rand, b []byte) []byte {
	if len(b) < 3 {
		return nil
	}
	for try := 0; try < 30; try++ {
		d := r.IntN(len(b)-2)/2 + 1
		i := r.IntN(len(b))
		if i+2*d >= len(b) {
			continue
		}
		k := 1 + r.IntN(3)
		x, y, z := int(b[i]), int(b[i+d]), int(b[i+2*d])
		if r.IntN(2) == 0 {
			k = -k
		}
		x, y, z = x+k, y-2*k, z+k
		if x < 0 || x > 255 || y < 0 || y > 255 || z < 0 || z > 255 {
			continue
		}
		c := bytes.Clone(b)
		c[i], c[i+d], c[i+2*d] = byte(x), byte(y), byte(z)
		return c
	}
	return nil
}

// Content produces n bytes of one of several adversarial kinds.
func Content(r *rand.Rand, n, bs int) (data []byte, kind string) {
	data = make([]byte, n)
	kind = mon.Choose(r, "random", "random", "random", "sym1", "sym2", "sym3", "zero", "ff", "periodic", "dupblocks", "collide", "runs", "counter")
	if kind == "zero" && bs > 30000 {
		kind = "ff" // each of the short windows at the end of a section of zeros costs a strong checksum
	}
	switch kind {
	case "random":
		fill(r, data)
	case "sym1":
		c := byte(r.IntN(256))
		for i := range data {
			data[i] = c
		}
	case "sym2", "sym3":
		k := int(kind[3] - '0')
		al := make([]byte, k)
		fill(r, al)
		if r.IntN(2) == 0 {
			for i := range al {
				al[i] = byte(i)
			}
		}
		for i := range data {
			data[i] = al[r.IntN(k)]
		}
	case "zero":
	case "ff":
		for i := range data {
			data[i] = 0xff
		}
	case "periodic":
		p := mon.Range(r, 1, 2*bs+1)
		pat := make([]byte, p)
		fill(r, pat)
		for i := range data {
			data[i] = pat[i%p]
		}
	case "dupblocks":
		k := mon.Range(r, 1, 5)
		bl := make([][]byte, k)
		for i := range bl {
			bl[i] = make([]byte, bs)
			fill(r, bl[i])
		}
		for i := 0; i < n; i += bs {
			copy(data[i:], bl[r.IntN(k)])
		}
	case "collide":
		base := make([]byte, bs)
		for i := range base {
			base[i] = byte(60 + r.IntN(100))
		}
		for i := 0; i < n; i += bs {
			b := base
			if c := Collide(r, base); c != nil && r.IntN(4) != 0 {
				b = c
			}
			copy(data[i:], b)
			if r.IntN(3) == 0 {
				base = b
			}
		}
	case "runs":
		for i := 0; i < n; {
			c := byte(r.IntN(256))
			for l := mon.Range(r, 1, bs+2); l > 0 && i < n; l-- {
				data[i] = c
				i++
			}
		}
	case "counter":
		for i := range data {
			data[i] = byte(i >> (8 * uint(i%2)))
		}
	}
	return
}

func fill(r *rand.Rand, b []byte) {
	i := 0
	for ; i+8 <= len(b); i += 8 {
		binary.LittleEndian.PutUint64(b[i:], r.Uint64())
	}
	for ; i < len(b); i++ {
		b[i] = byte(r.Uint32())
	}
}

// Random returns n random bytes.
func Random(r *rand.Rand, n int) []byte { b := make([]byte, n); fill(r, b); return b }

// Len picks a file length around interesting multiples of the block size.
func Len(r *rand.Rand, bs, maxLen int) int {
	maxBlocks := max(1, maxLen/bs)
	var k int
	switch r.IntN(6) {
	case 0:
		k = r.IntN(4)
	case 1:
		k = mon.Choose(r, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257)
	default:
		k = r.IntN(min(maxBlocks, 200) + 1)
	}
	k = min(k, maxBlocks)
	d := 0
	switch r.IntN(5) {
	case 0:
		d = 1
	case 1:
		d = -1
	case 2:
		d = r.IntN(bs)
	case 3:
		d = bs / 2
	}
	return min(maxLen, max(0, k*bs+d))
}

// Edit derives a local version from the reference by an edit script.
func Edit(r *rand.Rand, ref []byte, bs int) (local []byte, script string) {
	switch r.IntN(14) {
	case 0:
		return bytes.Clone(ref), "same"
	case 1:
		return nil, "empty"
	case 2:
		return Random(r, Len(r, bs, len(ref)+3*bs)), "unrelated"
	case 3:
		d := Random(r, mon.Range(r, 1, 2*bs+1))
		return append(d, ref...), "prepend"
	case 4:
		return append(bytes.Clone(ref), Random(r, mon.Range(r, 1, 3*bs))...), "append"
	case 5:
		if len(ref) > 0 {
			return bytes.Clone(ref[:r.IntN(len(ref))]), "truncate"
		}
	case 6:
		if len(ref) > 0 {
			return bytes.Clone(ref[r.IntN(len(ref)):]), "cutfront"
		}
	case 7: // the short final block in the middle of the local data
		tail := ref[len(ref)-len(ref)%bs:]
		for i := 0; i < 3+r.IntN(10); i++ {
			local = append(local, Random(r, mon.Range(r, 0, bs))...)
			local = append(local, tail...)
		}
		return append(local, Random(r, mon.Range(r, 0, 2*bs))...), "tails"
	case 8:
		local = bytes.Clone(ref)
		for i := 0; i < 1+len(local)/(4*bs); i++ {
			if len(local) > 0 {
				local[r.IntN(len(local))] ^= byte(1 << r.IntN(8))
			}
		}
		return local, "flips"
	}
	// general script
	target := len(ref) + r.IntN(2*bs+1) - bs
	if r.IntN(4) == 0 {
		target = len(ref)*2 + 3*bs
	}
	n := 0
	for len(local) < target {
		n++
		switch k := r.IntN(10); {
		case k < 3 && len(ref) >= bs: // aligned run
			b := r.IntN(len(ref) / bs)
			e := min(len(ref), (b+1+r.IntN(6))*bs)
			local = append(local, ref[b*bs:e]...)
		case k < 5 && len(ref) > 0: // arbitrary range
			b := r.IntN(len(ref))
			e := min(len(ref), b+1+r.IntN(3*bs))
			local = append(local, ref[b:e]...)
		case k < 6:
			local = append(local, Random(r, mon.Range(r, 1, bs+1))...)
		case k < 7 && len(ref) >= bs: // weak collision of a block
			b := r.IntN(len(ref) / bs)
			if c := Collide(r, ref[b*bs:(b+1)*bs]); c != nil {
				local = append(local, c...)
			} else {
				local = append(local, 'x')
			}
		case k < 8 && len(ref) >= bs: // sequential continuation at the same position
			o := min(len(local), len(ref)-bs)
			local = append(local, ref[o:min(len(ref), o+4*bs)]...)
		case k < 9 && len(ref)%bs != 0:
			local = append(local, ref[len(ref)-len(ref)%bs:]...)
		default:
			local = append(local, byte(r.IntN(4)))
		}
	}
	if r.IntN(3) == 0 && len(ref)%bs != 0 {
		local = append(local, ref[len(ref)-len(ref)%bs:]...)
	}
	return local, fmt.Sprintf("script%d", min(n, 20))
}

// BlockSize picks a block size up to a limit.
func BlockSize(r *rand.Rand, limit int) int {
	for {
		bs := mon.Choose(r, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 16, 17, 20, 25, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129,
			200, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 8192, 10000, 16384, 65535, 65536, 65537, 100000, 131072)
		if bs <= limit {
			return bs
		}
	}
}

// Pair is a reference with a local version.
type Pair struct {
	Ref, Local []byte
	BS         int
	Desc       string
}

// NewPair generates a pair with files of up to about maxLen bytes.
func NewPair(r *rand.Rand, maxBS, maxLen int) Pair {
	bs := BlockSize(r, maxBS)
	ref, kind := Content(r, Len(r, bs, maxLen), bs)
	local, script := Edit(r, ref, bs)
	return Pair{ref, local, bs, fmt.Sprintf("%s/%s bs=%d ref=%d local=%d", kind, script, bs, len(ref), len(local))}
}

// NewWidePair generates a pair with blocks of one to five megabytes.
func NewWidePair(r *rand.Rand) Pair {
	bs := mon.Choose(r, 1<<20, 1<<20+1, 1<<21-3, 3000000, 1<<22, 5<<20+1)
	ref := Random(r, mon.Range(r, 1, 3)*bs+r.IntN(bs))
	local, script := Edit(r, ref, bs)
	if len(local) > 8*bs {
		local = local[:8*bs]
	}
	return Pair{ref, local, bs, fmt.Sprintf("wide/%s bs=%d ref=%d local=%d", script, bs, len(ref), len(local))}
}

// NewManyPair generates a pair with at least blocks blocks, in many or long spans, some of them with hundreds of
// copies of a block.
func NewManyPair(r *rand.Rand, blocks int) Pair {
	bs := 4 + r.IntN(20)
	n := blocks + r.IntN(blocks)
	ref := Random(r, n*bs+r.IntN(bs))
	kind := "many"
	if r.IntN(2) == 0 { // copies of one block
		copies := 300 + r.IntN(700)
		first := r.IntN(n - copies)
		step := 1 + r.IntN((n-first)/copies)
		for i := 0; i < copies; i++ {
			at := (first + i*step) * bs
			copy(ref[at:at+bs], ref[first*bs:])
		}
		kind = fmt.Sprintf("many/%dcopies", copies)
	}
	var local []byte
	block := func(i int) []byte { return ref[i*bs : min(len(ref), (i+1)*bs)] }
	switch r.IntN(4) {
	case 0: // the first half is gone
		local = append(local, ref[len(ref)/2/bs*bs:]...)
		kind += "/back"
	case 1: // every other block
		for i := r.IntN(2); i < n; i += 2 {
			local = append(append(local, block(i)...), byte(i))
		}
		kind += "/fragments"
	case 2: // runs in another order
		for at := n; at > 0; {
			k := min(at, 1+r.IntN(n/3))
			at -= k
			local = append(local, ref[at*bs:(at+k)*bs]...)
			local = append(local, Random(r, r.IntN(2*bs))...)
		}
		kind += "/shuffled"
	case 3: // one byte in some places
		local = bytes.Clone(ref)
		for k := 1 + r.IntN(100); k > 0; k-- {
			local[r.IntN(len(local))] ^= 1 << r.IntN(8)
		}
		kind += "/flips"
	}
	return Pair{ref, local, bs, fmt.Sprintf("%s bs=%d ref=%d local=%d", kind, bs, len(ref), len(local))}
}

// Occ is an occurrence of a full reference block's content in data.
type Occ struct {
	Off    int
	Blocks []int
}

// Occurrences finds, by an independent method, all positions of data holding a full reference block.
func Occurrences(ref, data []byte, bs int) (out []Occ) {
	if len(data) < bs {
		return
	}
	const p = 1099511628211
	hash := func(b []byte) (h uint64) {
		for _, x := range b {
			h = h*p + uint64(x) + 1
		}
		return
	}
	pw := uint64(1)
	for i := 0; i < bs-1; i++ {
		pw *= p
	}
	idx := map[uint64][][]int{} // hash -> groups of blocks with the same content
	for i := 0; (i+1)*bs <= len(ref); i++ {
		b := ref[i*bs : (i+1)*bs]
		h := hash(b)
		found := false
		for k, g := range idx[h] {
			if bytes.Equal(ref[g[0]*bs:(g[0]+1)*bs], b) {
				idx[h][k] = append(g, i)
				found = true
				break
			}
		}
		if !found {
			idx[h] = append(idx[h], []int{i})
		}
	}
	h := hash(data[:bs])
	for x := 0; ; x++ {
		for _, g := range idx[h] {
			if bytes.Equal(ref[g[0]*bs:(g[0]+1)*bs], data[x:x+bs]) {
				out = append(out, Occ{x, g})
			}
		}
		if x+bs >= len(data) {
			return
		}
		h = (h-(uint64(data[x])+1)*pw)*p + uint64(data[x+bs]) + 1
	}
}

// ---------------------------------------------------------------------------------------------------
// readers

// ChunkReader delivers data in pieces chosen by the PRNG; style selects the read pattern.
type ChunkReader struct {
	Data  []byte
	R     *rand.Rand
	Style int // 0 full, 1 random sizes, 2 one byte, 3 random with data+EOF, 4 random with (0,nil) reads, 5 data+EOF full
	Reads int
	zero  int
}

// Styles is the number of reading styles.
const Styles = 6

func (c *ChunkReader) Read(p []byte) (int, error) {
	c.Reads++
	if len(p) == 0 {
		return 0, nil
	}
	if len(c.Data) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(c.Data))
	switch c.Style {
	case 1, 3:
		n = 1 + c.R.IntN(n)
	case 2:
		n = 1
	case 4:
		if c.zero < 3 && c.R.IntN(3) == 0 {
			c.zero++
			return 0, nil
		}
		c.zero = 0
		n = 1 + c.R.IntN(n)
	}
	copy(p, c.Data[:n])
	c.Data = c.Data[n:]
	if len(c.Data) == 0 && (c.Style == 3 || c.Style == 5) {
		return n, io.EOF
	}
	return n, nil
}

// ErrInjected is the injected failure.
var ErrInjected = errors.New("injected fault")
