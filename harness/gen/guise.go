package gen

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"testing/iotest"

	"vh/mon"
)

// Reader gives data in one of the shapes that readers come in: of the standard library's types, with what they can do
// besides, at a position that need not be the start, or of a type that can do nothing else, in pieces of any size.
func Reader(r *rand.Rand, data []byte, dir func() string) (io.Reader, string) {
	if r.IntN(2) == 0 {
		style := r.IntN(Styles)
		if style == 2 && len(data) > 20000 {
			style = 1
		}
		return &ChunkReader{Data: bytes.Clone(data), R: rand.New(rand.NewPCG(r.Uint64(), 1)), Style: style}, fmt.Sprintf("style %d", style)
	}
	switch k := r.IntN(17); k {
	case 0, 1, 2, 3, 4:
		return ReadSeeker(r, data, dir, true)
	case 5:
		return bytes.NewBuffer(bytes.Clone(data)), "buffer"
	case 6:
		b := bytes.NewBuffer(append([]byte("before"), data...))
		b.Next(6)
		return b, "used buffer"
	case 7:
		return bufio.NewReaderSize(bytes.NewReader(data), mon.Range(r, 16, 5000)), "bufio"
	case 8:
		b := bufio.NewReaderSize(bytes.NewReader(append([]byte("before"), data...)), mon.Range(r, 16, 5000))
		b.Discard(6)
		b.Peek(r.IntN(16))
		return b, "used bufio"
	case 9:
		return io.LimitReader(bytes.NewReader(append(bytes.Clone(data), "behind"...)), int64(len(data))), "limit"
	case 10:
		var rs []io.Reader
		for d := data; ; {
			n := r.IntN(len(d) + 1)
			if len(rs) > 5 {
				n = len(d)
			}
			rs = append(rs, bytes.NewReader(d[:n]))
			if d = d[n:]; len(d) == 0 {
				return io.MultiReader(rs...), fmt.Sprintf("multi %d", len(rs))
			}
		}
	case 11:
		return io.TeeReader(bytes.NewReader(data), io.Discard), "tee"
	case 12:
		a, b := io.Pipe()
		step := mon.Range(r, 1, len(data)+1)
		if len(data)/step > 5000 {
			step = len(data)
		}
		go func() {
			for d := bytes.Clone(data); len(d) > 0; {
				n, err := b.Write(d[:min(step, len(d))])
				if err != nil {
					return
				}
				d = d[n:]
			}
			b.Close()
		}()
		return a, fmt.Sprintf("pipe of %d", step)
	case 13:
		return struct{ io.Reader }{bytes.NewReader(data)}, "plain"
	case 14:
		var b bytes.Buffer
		z := gzip.NewWriter(&b)
		z.Write(data)
		z.Close()
		u, err := gzip.NewReader(&b)
		if err != nil {
			panic(err)
		}
		return u, "gzip"
	case 15:
		if len(data) > 60000 {
			return strings.NewReader(string(data)), "string"
		}
		a, b, err := os.Pipe() // a file of no size and no position
		if err != nil {
			panic(err)
		}
		b.Write(data)
		b.Close()
		return a, "pipe file"
	default:
		return iotest.HalfReader(bytes.NewReader(data)), "half"
	}
}

// ReadSeekerAt is what a local file is to the library.
type ReadSeekerAt interface {
	io.ReadSeeker
	io.ReaderAt
}

// ReadSeeker gives data as a reader with positions. At what position it is, is no matter if it is to be read from
// there, in which case there may be something else before it.
func ReadSeeker(r *rand.Rand, data []byte, dir func() string, reading bool) (ReadSeekerAt, string) {
	before := 0
	if reading && r.IntN(2) == 0 {
		before = r.IntN(40)
	}
	all := append(Random(r, before), data...)
	at := int64(before)
	if !reading {
		at = r.Int64N(int64(len(all)) + 1)
	}
	var rs ReadSeekerAt
	var what string
	switch r.IntN(4) {
	case 0:
		rs, what = bytes.NewReader(all), "bytes"
	case 1:
		rs, what = strings.NewReader(string(all)), "string"
	case 2:
		skip := r.IntN(30)
		rs, what = io.NewSectionReader(bytes.NewReader(append(append(Random(r, skip), all...), "behind"...)), int64(skip), int64(len(all))), "section"
	default:
		name := filepath.Join(dir(), fmt.Sprintf("in%d", r.Uint32()))
		if err := os.WriteFile(name, all, 0o600); err != nil {
			panic(err)
		}
		f, err := os.Open(name)
		if err != nil {
			panic(err)
		}
		os.Remove(name)
		rs, what = f, "file"
	}
	if at > 0 || r.IntN(2) == 0 {
		if _, err := rs.Seek(at, io.SeekStart); err != nil {
			panic(err)
		}
	}
	return rs, fmt.Sprintf("%s at %d", what, at)
}

// justWriter can do nothing else.
type justWriter struct{ w io.Writer }

func (j justWriter) Write(p []byte) (int, error) { return j.w.Write(p) }

// Writer gives one of the shapes that writers come in, and tells in the end what was written; if it held something
// before, and that is not there any more, a text saying so.
func Writer(r *rand.Rand, dir func() string) (w io.Writer, got func() []byte, what string) {
	before := Random(r, mon.Choose(r, 0, 0, r.IntN(100)))
	rest := func(b []byte) []byte {
		if !bytes.HasPrefix(b, before) {
			return []byte("what was there before is not there any more")
		}
		return b[len(before):]
	}
	buf := bytes.NewBuffer(bytes.Clone(before))
	switch k := r.IntN(8); k {
	case 0:
		return buf, func() []byte { return rest(buf.Bytes()) }, "buffer"
	case 1:
		b := bufio.NewWriterSize(buf, mon.Range(r, 1, 10000))
		return b, func() []byte { b.Flush(); return rest(buf.Bytes()) }, "bufio"
	case 2:
		return io.MultiWriter(buf, io.Discard), func() []byte { return rest(buf.Bytes()) }, "multi"
	case 3:
		var b strings.Builder
		b.Write(before)
		return &b, func() []byte { return rest([]byte(b.String())) }, "builder"
	case 4:
		a, b := io.Pipe()
		done := make(chan bool)
		go func() {
			io.Copy(buf, a)
			close(done)
		}()
		return b, func() []byte { b.Close(); <-done; return rest(buf.Bytes()) }, "pipe"
	case 5, 6:
		name := filepath.Join(dir(), fmt.Sprintf("out%d", r.Uint32()))
		flags := os.O_CREATE | os.O_RDWR
		what = "file"
		if r.IntN(2) == 0 {
			flags, what = os.O_CREATE|os.O_WRONLY|os.O_APPEND, "appended file"
		}
		f, err := os.OpenFile(name, flags, 0o600)
		if err != nil {
			panic(err)
		}
		f.Write(before)
		return f, func() []byte {
			f.Close()
			b, _ := os.ReadFile(name)
			os.Remove(name)
			return rest(b)
		}, what
	default:
		return justWriter{buf}, func() []byte { return rest(buf.Bytes()) }, "plain"
	}
}
