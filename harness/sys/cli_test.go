package sys

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"

	"vh/gen"
	"vh/mon"
)

var (
	gosyncBin  = os.Getenv("VH_GOSYNC")
	gosyncRace = os.Getenv("VH_GOSYNC_RACE") // the same with the race detector
)

// ran is the outcome of a process.
type ran struct {
	code   int // -1: ended by a signal
	signal syscall.Signal
	out    string
	hung   bool
}

// patience tells for how many seconds a command may do nothing.
var patience atomic.Int64

func init() { patience.Store(30) }

// run runs a command to its end; one that does nothing for half a minute, or takes very long, is ended and
// reported as hung.
func run(dir string, args ...string) (x ran) { return runWith(dir, nil, args...) }

// runWith calls started with the number of the process.
func runWith(dir string, started func(pid int), args ...string) (x ran) {
	cmd := exec.Command(args[0], args[1:]...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=66 log_path=stderr")
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	if started != nil {
		started(cmd.Process.Pid)
	}
	over, watched := make(chan bool), make(chan bool)
	go func() {
		defer close(watched)
		tick := time.NewTicker(time.Second)
		defer tick.Stop()
		start := time.Now()
		last, since := int64(-1), start
		for {
			select {
			case <-over:
				return
			case <-tick.C:
			}
			used := ticks(cmd.Process.Pid)
			if used > last {
				last, since = used, time.Now()
			}
			// a machine with other work to do may need long for it
			if time.Since(start) > time.Minute && time.Since(since) > time.Duration(patience.Load())*time.Second || used > 240*100 || time.Since(start) > 500*time.Second {
				x.hung = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				return
			}
		}
	}()
	err := cmd.Wait()
	close(over)
	<-watched
	x.out = b.String()
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		if ws := ee.Sys().(syscall.WaitStatus); ws.Signaled() {
			x.code, x.signal = -1, ws.Signal()
		} else {
			x.code = ws.ExitStatus()
		}
	} else if err != nil {
		x.code = -2
	}
	return
}

// ticks is the processor time that a process has used, in hundredths of a second.
func ticks(pid int) (n int64) {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	for _, k := range []int{11, 12} {
		if k < len(f) {
			v, _ := strconv.ParseInt(f[k], 10, 64)
			n += v
		}
	}
	return
}

// ended checks what holds for every command: it ends, without crashing or racing.
func (x ran) ended(c *mon.Case, what string) bool {
	switch {
	case x.hung:
		c.Violate("%s did not end: %s", what, x.out)
	case strings.Contains(x.out, "DATA RACE"):
		c.ViolateKey("race", "%s: %s", what, x.out)
	case strings.Contains(x.out, "fatal error:") || strings.Contains(x.out, "panic:"):
		c.Violate("%s crashed: %s", what, x.out)
	default:
		return true
	}
	return false
}

// indexFile is an independently made index in the documented format.
func indexFile(ref []byte, bs int) []byte {
	b := []byte("G0S9NC")
	for _, v := range []uint16{0, 2, 1} {
		b = binary.LittleEndian.AppendUint16(b, v)
	}
	b = binary.LittleEndian.AppendUint64(b, uint64(len(ref)))
	b = binary.LittleEndian.AppendUint32(b, uint32(bs))
	for _, x := range gen.Blocks(ref, bs) {
		w := gen.Weak(x)
		b = append(append(b, w[:]...), gen.Strong(x)...)
	}
	return b
}

const headerSize = 6 + 3*2 + 8 + 4

func same(path string, want []byte) bool {
	got, err := os.ReadFile(path)
	return err == nil && bytes.Equal(got, want)
}

func content(path string) string {
	got, err := os.ReadFile(path)
	if err != nil {
		return err.Error()
	}
	return mon.Quote(got)
}

// randomName is a path of up to three parts, with dots in all places.
func randomName(r *rand.Rand) string {
	for {
		var parts []string
		for n := mon.Choose(r, 1, 1, 2, 3); n > 0; n-- {
			s := ""
			for k := mon.Range(r, 1, 4); k > 0; k-- {
				s += mon.Choose(r, "a", "bin", "v1", ".bin", ".bin", ".gosync", ".", "..", "x ", "é", ".1", "gosync", "_", "%d", "*")
			}
			parts = append(parts, s)
		}
		name := strings.Join(parts, "/")
		if name == filepath.Clean(name) && filepath.IsLocal(name) && filepath.Base(name) != "." {
			return name
		}
	}
}

func c18case(c *mon.Case, srv *fileServer, p gen.Pair) {
	r := c.R
	dir := c.Dir()
	name := mon.Choose(r, "file.bin", "file", "a.b.c", "x.gosync", ".hidden", "with space.dat", "sub/ref.iso", "sub.dir/ref", "linked.bin", "abs.bin", "to.bin")
	if r.IntN(2) == 0 {
		name = randomName(r)
	}
	os.MkdirAll(filepath.Join(dir, filepath.Dir(name)), 0o755)
	in := filepath.Join(dir, name)
	if name == "to.bin" { // a symbolic link
		os.MkdirAll(filepath.Join(dir, "there"), 0o755)
		os.Symlink("there/data", in)
	}
	write(in, p.Ref)
	base := filepath.Base(name)
	if i := strings.LastIndex(base, "."); i >= 0 {
		base = base[:i]
	}
	index := filepath.Join(dir, filepath.Dir(name), base+".gosync")
	switch {
	case index == in:
		index = in + ".gosync"
	case name == "linked.bin":
		os.Link(in, index)
		index = in + ".gosync"
	case r.IntN(3) == 0:
		write(index, gen.Random(r, r.IntN(200+40*len(p.Ref)/p.BS)))
	}
	args := []string{gosyncBin, "build"}
	bs := p.BS
	if r.IntN(6) == 0 {
		bs = 8192
	} else {
		args = append(args, mon.Choose(r, "-blocksize", "--blocksize"), strconv.Itoa(bs))
	}
	arg := name
	if name == "abs.bin" {
		arg = in
	}
	desc := fmt.Sprintf("%s name=%s blocksize=%d", p.Desc, name, bs)
	x := run(dir, append(args, arg)...)
	if !x.ended(c, "build") {
		return
	}
	if x.code != 0 {
		c.Violate("build exited with %d: %s: %s", x.code, desc, x.out)
		return
	}
	if !same(in, p.Ref) {
		c.Violate("build changed its input: %s", desc)
		return
	}
	want := indexFile(p.Ref, bs)
	if got, err := os.ReadFile(index); err != nil || !bytes.Equal(got, want) {
		c.Violate("index is not as documented: %v, %s: %s: %s", err, mon.FirstDiff(got, want), desc, x.out)
		return
	}
	c.Count("indexes_built", 1)
	c.Count("index_records", (len(want)-headerSize)/20)

	local, out := filepath.Join(dir, "local.bin"), filepath.Join(dir, "out.bin")
	write(local, p.Local)
	target := mon.Choose(r, "default", "default", "same", "new", "longer", "symlink", "url-escaped")
	url := srv.put("ref", p.Ref)
	cmd := []string{gosyncBin, "patch", mon.Choose(r, "local.bin", local), index, url}
	switch target {
	case "default":
		out = local
	case "same":
		cmd = append(cmd, "./local.bin")
		out = local
	case "longer":
		write(out, gen.Random(r, len(p.Ref)+1+r.IntN(5000)))
		cmd = append(cmd, out)
	case "symlink":
		os.Symlink("local.bin", out)
		cmd = append(cmd, "out.bin")
	case "url-escaped":
		cmd[4] = srv.put("some dir/ref.bin", p.Ref)
		cmd[4] = strings.Replace(cmd[4], " ", "%20", 1)
		cmd = append(cmd, out)
	default:
		cmd = append(cmd, out)
	}
	before := listing(dir)
	x = run(dir, cmd...)
	desc += " output " + target
	if !x.ended(c, "patch") {
		return
	}
	if x.code != 0 {
		c.Violate("patch exited with %d: %s: %s", x.code, desc, x.out)
		return
	}
	if got, err := os.ReadFile(out); err != nil || !bytes.Equal(got, p.Ref) {
		c.Violate("patch left wrong content at the output: %v, %s: %s", err, mon.FirstDiff(got, p.Ref), desc)
		return
	}
	if out != local && target != "symlink" && !same(local, p.Local) {
		c.Violate("patch changed the local file although the output was another one: %s", desc)
	}
	for _, n := range listing(dir) {
		if n != "out.bin" && !contains(before, n) {
			c.Violate("patch left %s behind: %s", n, desc)
		}
	}
	if !same(index, want) || !same(in, p.Ref) {
		c.Violate("patch changed the index or the reference: %s", desc)
	}
	c.Count("round_trips", 1)
	c.Count("bytes_patched", len(p.Ref))
	c.Sig(desc)
	c.Sample(desc)
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// countless is a pair with more than 2^17 or 2^20 blocks and few differences.
func countless(c *mon.Case) gen.Pair {
	r := c.R
	bs := mon.Range(r, 4, 7)
	ref := gen.Random(r, bs<<[]int{17, 20, mon.Range(r, 17, 20)}[c.I%3]+r.IntN(100000))
	local := bytes.Clone(ref)
	for k := r.IntN(20); k > 0; k-- {
		local[r.IntN(len(local))] ^= 1 << r.IntN(8)
	}
	local = local[r.IntN(100):]
	return gen.Pair{Ref: ref, Local: local, BS: bs, Desc: fmt.Sprintf("countless bs=%d ref=%d local=%d", bs, len(ref), len(local))}
}

// c18build: only the index, of larger files of any size.
func c18build(c *mon.Case) {
	r := c.R
	n := mon.Choose(r, 1<<20, 2<<20, 3<<20)
	n += r.IntN(1 << 19)
	if r.IntN(4) == 0 {
		n = 1<<uint(mon.Range(r, 16, 22)) + r.IntN(3) - 1
	}
	bs := mon.Choose(r, 64, 1000, 4096, 8192, 65536, 1<<20, n-1, n, n+1, mon.Range(r, 64, 200000))
	d := gen.Random(r, n)
	dir := c.Dir()
	in := filepath.Join(dir, "f.bin")
	write(in, d)
	desc := fmt.Sprintf("%d bytes, blocks of %d", n, bs)
	x := run(dir, gosyncBin, "build", "-blocksize", strconv.Itoa(bs), "f.bin")
	if !x.ended(c, "build") {
		return
	}
	want := indexFile(d, bs)
	if got, err := os.ReadFile(filepath.Join(dir, "f.gosync")); x.code != 0 || err != nil || !bytes.Equal(got, want) {
		c.Violate("build: exit %d, index %v, %s: %s: %s", x.code, err, mon.FirstDiff(got, want), desc, x.out)
	}
	if !same(in, d) {
		c.Violate("build changed its input: %s", desc)
	}
	c.Count("indexes_built", 1)
	c.Sig(desc)
}

// c18big: blocks and files larger than what 24 bits can count.
func c18big(c *mon.Case) {
	r := c.R
	bs := []int{1<<24 + 1, 1<<25 + 3, 1 << 24, 1<<24 - 1, 3<<24 + 7, 1<<26 + 1}[c.I%6]
	n := mon.Choose(r, bs-1, bs, bs+1, bs+r.IntN(bs), 2*bs+r.IntN(1000))
	d := make([]byte, n)
	for i := 0; i < n; i += 1 + r.IntN(1<<16) {
		d[i] = byte(r.Uint32())
	}
	dir := c.Dir()
	write(filepath.Join(dir, "f.bin"), d)
	desc := fmt.Sprintf("%d bytes, blocks of %d", n, bs)
	x := run(dir, gosyncBin, "build", "-blocksize", strconv.Itoa(bs), "f.bin")
	if !x.ended(c, "build") {
		return
	}
	want := indexFile(d, bs)
	if got, err := os.ReadFile(filepath.Join(dir, "f.gosync")); x.code != 0 || err != nil || !bytes.Equal(got, want) {
		c.Violate("build: exit %d, index %v, %s: %s: %s", x.code, err, mon.FirstDiff(got, want), desc, x.out)
	}
	c.Count("indexes_built", 1)
	c.Max("block_size", bs)
	c.Sig(desc)
}

// c18refuse: block sizes which an index cannot express are refused.
func c18refuse(c *mon.Case) {
	r := c.R
	dir := c.Dir()
	d := gen.Random(r, r.IntN(3000))
	write(filepath.Join(dir, "f.bin"), d)
	bs := mon.Choose(r, "0", "0", "-1", "-8192", "4294967296", "4294975488", "-4294967295", "x", "1.5")
	x := run(dir, gosyncBin, "build", "-blocksize", bs, "f.bin")
	if x.hung || x.code == 0 {
		c.Violate("build with a block size of %s: exit %d, hung %v: %s", bs, x.code, x.hung, x.out)
	}
	if !same(filepath.Join(dir, "f.bin"), d) {
		c.Violate("build with a block size of %s changed its input", bs)
	}
	c.Count("refused", 1)
	c.Sig(bs)
}

func TestC18(t *testing.T) {
	srv := newFileServer()
	defer srv.stop()
	mon.Run(t, "C18",
		mon.Group{Name: "small", Quick: 1600, Thorough: 60000, Stuck: 700, Fn: func(c *mon.Case) { c18case(c, srv, gen.NewPair(c.R, 300, 5000)) }},
		mon.Group{Name: "medium", Quick: 400, Thorough: 20000, Stuck: 700, Fn: func(c *mon.Case) { c18case(c, srv, gen.NewPair(c.R, 9000, 200000)) }},
		mon.Group{Name: "large", Quick: 24, Thorough: 1000, Stuck: 700, Fn: func(c *mon.Case) { c18case(c, srv, gen.NewPair(c.R, 131072, 5<<20)) }},
		mon.Group{Name: "many", Quick: 3, Thorough: 60, Stuck: 700, Fn: func(c *mon.Case) { c18case(c, srv, countless(c)) }},
		mon.Group{Name: "build", Quick: 240, Thorough: 8000, Stuck: 700, Fn: c18build},
		mon.Group{Name: "big", Quick: 6, Thorough: 60, Stuck: 700, Fn: c18big},
		mon.Group{Name: "refuse", Quick: 24, Thorough: 400, Stuck: 700, Fn: c18refuse},
	)
}

// ---------------------------------------------------------------------------------------------------

// mutation is one way to spoil an index.
type mutation struct {
	what string
	data []byte
	diff bool // the diff command must reject it too
}

func mutations(c *mon.Case, ref []byte, bs int) (out []mutation) {
	r := c.R
	good := indexFile(ref, bs)
	edit := func(what string, diff bool, f func(b []byte)) {
		b := bytes.Clone(good)
		f(b)
		out = append(out, mutation{what, b, diff})
	}
	for n := 0; n < len(good); n++ {
		out = append(out, mutation{fmt.Sprintf("cut to %d of %d bytes", n, len(good)), good[:n], n < headerSize || (n-headerSize)%20 != 0})
	}
	for i := 0; i < 6; i++ {
		edit(fmt.Sprintf("magic byte %d", i), true, func(b []byte) { b[i] ^= byte(1 + r.IntN(255)) })
	}
	edit("lower case magic", true, func(b []byte) { copy(b, "g0s9nc") })
	for _, v := range []uint16{1, 2, 255, 256, 65535, uint16(1 + r.IntN(65535)), uint16(1 + r.IntN(65535))} {
		minor, patch := mon.Choose(r, 0, 1, 2, 3, 100, 65535, r.IntN(65536)), mon.Choose(r, 0, 1, 2, 65535, r.IntN(65536))
		edit(fmt.Sprintf("version %d.%d.%d", v, minor, patch), true, func(b []byte) {
			binary.LittleEndian.PutUint16(b[6:], v)
			binary.LittleEndian.PutUint16(b[8:], uint16(minor))
			binary.LittleEndian.PutUint16(b[10:], uint16(patch))
		})
		edit(fmt.Sprintf("major version %d", v), true, func(b []byte) { binary.LittleEndian.PutUint16(b[6:], v) })
	}
	put := func(size int64, block uint32) func(b []byte) {
		return func(b []byte) {
			binary.LittleEndian.PutUint64(b[12:], uint64(size))
			binary.LittleEndian.PutUint32(b[20:], block)
		}
	}
	n := int64(len(ref))
	count := func(size int64, block uint32) int64 {
		k := size / int64(block)
		if size%int64(block) != 0 {
			k++
		}
		return k
	}
	have := count(n, uint32(bs))
	for _, size := range []int64{0, 1, n - 1, n + 1, n - int64(bs), n + int64(bs), have * int64(bs), have*int64(bs) + 1, (have - 1) * int64(bs), n << 32, 1<<63 - 1, n + 1<<32, r.Int64()} {
		if size >= 0 && count(size, uint32(bs)) != have {
			edit(fmt.Sprintf("file size %d instead of %d", size, n), false, put(size, uint32(bs)))
		}
	}
	for _, block := range []uint32{1, 2, uint32(bs) - 1, uint32(bs) + 1, uint32(bs) * 2, uint32(bs) / 2, uint32(bs) << 16, 1 << 20} {
		if block != 0 && count(n, block) != have {
			edit(fmt.Sprintf("block size %d instead of %d", block, bs), false, put(n, block))
		}
	}
	edit("negative file size", true, put(-n-1, uint32(bs)))
	edit("least file size", true, put(-1<<63, uint32(bs)))
	edit("block size zero", true, put(n, 0))
	out = append(out,
		mutation{"one more record", append(bytes.Clone(good), gen.Random(r, 20)...), false},
		mutation{"repeated record", append(bytes.Clone(good), good[len(good)-min(20, len(good)-headerSize):]...), false},
		mutation{"many more records", append(bytes.Clone(good), gen.Random(r, 20*(2+r.IntN(50)))...), false},
		mutation{"part of a record more", append(bytes.Clone(good), gen.Random(r, 1+r.IntN(19))...), true},
		mutation{"twice", append(bytes.Clone(good), good...), false},
		mutation{"empty", nil, true},
		mutation{"text", []byte("this is not an index at all, but it is longer than its header would be\n"), true},
		mutation{"the reference itself", append([]byte{0}, ref...), true},
		mutation{"leading byte", append([]byte{'G'}, good...), true},
	)
	if have > 0 {
		i := headerSize + 20*r.IntN(int(have))
		out = append(out, mutation{"lost record", append(bytes.Clone(good[:i]), good[i+20:]...), false})
	}
	k := 0
	for _, m := range out { // a change may have had no effect
		if !bytes.Equal(m.data, good) {
			out[k] = m
			k++
		}
	}
	return out[:k]
}

func c19case(c *mon.Case, srv *fileServer, per int) {
	r := c.R
	bs := gen.BlockSize(r, 300)
	ref, _ := gen.Content(r, mon.Choose(r, 0, 1, bs-1, bs, bs+1, 3*bs, 5*bs+bs/2, r.IntN(12*bs)), bs)
	local, script := gen.Edit(r, ref, bs)
	dir := c.Dir()
	url := srv.put("ref", ref)
	ms := mutations(c, ref, bs)
	for k := 0; k < per && !c.Failed(); k++ {
		m := ms[r.IntN(len(ms))]
		desc := fmt.Sprintf("ref=%d bs=%d local=%d %s: %s", len(ref), bs, len(local), script, m.what)
		lf, of, xf := filepath.Join(dir, "local.bin"), filepath.Join(dir, "out.bin"), filepath.Join(dir, "ref.gosync")
		for _, f := range []string{lf, of, xf} {
			os.Remove(f)
		}
		write(lf, local)
		write(xf, m.data)
		old := gen.Random(r, r.IntN(2*len(ref)+10))
		cmd := []string{gosyncBin, "patch", "local.bin", "ref.gosync", url}
		out := r.IntN(2) == 0
		if out {
			write(of, old)
			cmd = append(cmd, "out.bin")
		}
		x := run(dir, cmd...)
		if x.hung || x.code == 0 {
			c.Violate("patch with an invalid index: exit %d, hung %v: %s: %s", x.code, x.hung, desc, x.out)
			return
		}
		if !same(lf, local) {
			c.Violate("patch with an invalid index changed the local file: %s: %s", desc, content(lf))
			return
		}
		if out && !same(of, old) {
			c.Violate("patch with an invalid index changed the output: %s: %s", desc, content(of))
			return
		}
		c.Count("patches_refused", 1)
		if m.diff {
			x := run(dir, gosyncBin, "diff", "local.bin", "ref.gosync")
			if x.hung || x.code == 0 {
				c.Violate("diff with an invalid index: exit %d, hung %v: %s: %s", x.code, x.hung, desc, x.out)
				return
			}
			c.Count("diffs_refused", 1)
		}
		c.Sig(desc)
		c.Sample(desc)
	}
	// the same command with the valid index works
	write(filepath.Join(dir, "ref.gosync"), indexFile(ref, bs))
	if x := run(dir, gosyncBin, "patch", "local.bin", "ref.gosync", url); x.code != 0 || !same(filepath.Join(dir, "local.bin"), ref) {
		c.Violate("patch with the valid index: exit %d: ref=%d bs=%d local=%d %s: %s", x.code, len(ref), bs, len(local), script, x.out)
	}
	c.Count("valid_accepted", 1)
}

// c19every runs every mutation of one index.
func c19every(c *mon.Case, srv *fileServer) {
	r := c.R
	bs := mon.Choose(r, 1, 2, 7, 16, 100)
	ref := gen.Random(r, mon.Choose(r, 0, 1, 2*bs, 2*bs+1))
	local, _ := gen.Edit(r, ref, bs)
	dir := c.Dir()
	url := srv.put("ref", ref)
	lf, of, xf := filepath.Join(dir, "local.bin"), filepath.Join(dir, "out.bin"), filepath.Join(dir, "ref.gosync")
	old := gen.Random(r, 20)
	write(of, old)
	write(lf, local)
	for _, m := range mutations(c, ref, bs) {
		write(xf, m.data)
		cmd := []string{gosyncBin, "patch", "local.bin", "ref.gosync", url}
		if r.IntN(2) == 0 {
			cmd = append(cmd, "out.bin")
		}
		x := run(dir, cmd...)
		desc := fmt.Sprintf("ref=%d bs=%d local=%d: %s", len(ref), bs, len(local), m.what)
		if x.hung || x.code == 0 || !same(lf, local) || !same(of, old) {
			c.Violate("patch with an invalid index: exit %d, hung %v, local kept %v, output kept %v: %s: %s", x.code, x.hung, same(lf, local), same(of, old), desc, x.out)
			return
		}
		c.Count("patches_refused", 1)
		if m.diff {
			if x := run(dir, gosyncBin, "diff", "local.bin", "ref.gosync"); x.hung || x.code == 0 {
				c.Violate("diff with an invalid index: exit %d, hung %v: %s: %s", x.code, x.hung, desc, x.out)
				return
			}
			c.Count("diffs_refused", 1)
		}
		c.Sig(desc)
	}
}

func TestC19(t *testing.T) {
	srv := newFileServer()
	defer srv.stop()
	mon.Run(t, "C19",
		mon.Group{Name: "every", Quick: 16, Thorough: 400, Stuck: 400, Fn: func(c *mon.Case) { c19every(c, srv) }},
		mon.Group{Name: "random", Quick: 320, Thorough: 12000, Stuck: 400, Fn: func(c *mon.Case) { c19case(c, srv, 8) }},
	)
}

// ---------------------------------------------------------------------------------------------------

var (
	reMatched = regexp.MustCompile(`(?m)^Total matched blocks:\s+(\d+)`)
	reBytes   = regexp.MustCompile(`(?m)^Total matched bytes:\s+(\d+)`)
	reIndex   = regexp.MustCompile(`(?m)^Index blocks:\s+(\d+)`)
	reMissing = regexp.MustCompile(`(?m)^Approximate missing bytes:\s+(\d+)`)
	reLookups = regexp.MustCompile(`(?m)^Comparisons:\s+(\d+)`)
	reWeak    = regexp.MustCompile(`(?m)^Weak hash hits:\s+(\d+)`)
	reStrong  = regexp.MustCompile(`(?m)^Strong hash hits:\s+(\d+)`)
)

// c24counters compares the printed counters with those of an own scan of the local file from start to end; a scan
// in sections looks at more windows.
func c24counters(c *mon.Case, x ran, p gen.Pair, split bool, sections int, desc string) {
	lookups, weak, strong := number(reLookups, x.out), number(reWeak, x.out), number(reStrong, x.out)
	if lookups < 0 || weak < 0 || strong < 0 {
		c.Violate("diff printed no counters: %s: %s", desc, x.out)
		return
	}
	if split {
		// the windows looked up are no further apart than a block, and every section adds a few
		n, bs, most := int64(len(p.Local)), int64(p.BS), int64(len(p.Local)+max(64, sections)*(2*p.BS+2))
		if strong > weak || weak > lookups || lookups > most || (lookups+1)*bs < n {
			c.Violate("%d windows looked up, %d weak and %d strong hits in %d bytes: %s", lookups, weak, strong, n, desc)
		}
		// every hit is reported for all blocks of the same content
		distinct := map[string]bool{}
		for _, b := range gen.Blocks(p.Ref, p.BS) {
			distinct[string(gen.Strong(b))] = true
		}
		total := (int64(len(p.Ref)) + bs - 1) / bs
		if matched := number(reMatched, x.out); strong < matched-(total-int64(len(distinct))) {
			c.Violate("%d strong hits for %d blocks of which %d differ: %s", strong, matched, len(distinct), desc)
		}
		c.Count("counters_of_split_scans", 1)
		return
	}
	compare := &comparer.Comparer{}
	idx := &counting{Index: summary(p.Ref, p.BS).ChecksumIndex}
	matches := map[int64]bool{}
	for m := range compare.StartFindMatchingBlocks(bytes.NewReader(p.Local), 0, filechecksum.NewFileChecksumGenerator(uint(p.BS)), idx) {
		if m.Err == nil {
			matches[m.ComparisonOffset] = true
		}
	}
	if lookups != idx.lookups || weak != idx.weak || strong != int64(len(matches)) {
		c.Violate("diff reports %d windows looked up, %d weak and %d strong hits; it has %d, %d and %d: %s", lookups, weak, strong, idx.lookups, idx.weak, len(matches), desc)
	}
	c.Count("counters_compared", 1)
}

// counting counts the lookups of one scan.
type counting struct {
	comparer.Index
	lookups, weak int64
}

func (x *counting) FindWeakChecksum2(chk []byte) interface{} {
	x.lookups++
	l := x.Index.FindWeakChecksum2(chk)
	if l != nil {
		x.weak++
	}
	return l
}

func number(re *regexp.Regexp, s string) int64 {
	m := re.FindStringSubmatch(s)
	if m == nil {
		return -1
	}
	n, err := strconv.ParseInt(m[1], 10, 64)
	if err != nil {
		return -1
	}
	return n
}

// present counts the reference blocks whose content occurs in the local data.
func present(p gen.Pair) int64 {
	have := map[int]bool{}
	for _, o := range gen.Occurrences(p.Ref, p.Local, p.BS) {
		for _, b := range o.Blocks {
			have[b] = true
		}
	}
	if n := len(p.Ref) % p.BS; n != 0 && bytes.Contains(p.Local, p.Ref[len(p.Ref)-n:]) {
		have[len(p.Ref)/p.BS] = true
	}
	return int64(len(have))
}

// c24report checks the statistics of a comparison in which from least to most of the blocks are to be matched.
func c24report(c *mon.Case, x ran, desc string, bs, total, least, most int64) (matched, missing int64) {
	if x.code != 0 {
		c.Violate("diff exited with %d: %s: %s", x.code, desc, x.out)
		return
	}
	matched, missing = number(reMatched, x.out), number(reMissing, x.out)
	mbytes, blocks := number(reBytes, x.out), number(reIndex, x.out)
	if matched < 0 || blocks < 0 || missing < 0 {
		c.Violate("diff printed no statistics: %s: %s", desc, x.out)
		return
	}
	if blocks != total {
		c.Violate("diff reports %d blocks in an index of %d: %s", blocks, total, desc)
	}
	if matched+missing/bs != total || missing%bs != 0 {
		c.Violate("%d blocks matched and %d bytes missing do not account for %d blocks of %d bytes: %s", matched, missing, total, bs, desc)
	}
	if mbytes != matched*bs {
		c.Violate("%d bytes matched but %d blocks of %d: %s", mbytes, matched, bs, desc)
	}
	if matched > most {
		c.Violate("%d blocks reported as matched but only %d occur in the local file: %s", matched, most, desc)
	}
	if matched < least {
		c.Violate("%d blocks reported as matched but %d occur in the local file without overlap: %s", matched, least, desc)
	}
	return
}

func c24case(c *mon.Case, bin string, maxBS, minLen, maxLen int) {
	r := c.R
	conc := concurrency(r)
	p := sectionPair(r, maxBS, maxLen, conc)
	for minLen > 0 && p.BS < 64 && r.IntN(20) != 0 { // slow
		p = sectionPair(r, maxBS, maxLen, conc)
	}
	if r.IntN(5) == 0 {
		p.Local = bytes.Clone(p.Ref)
		p.Desc += " identical"
	}
	if len(p.Local) < minLen { // only large files are split up
		p.Local = append(gen.Random(r, minLen-len(p.Local)+r.IntN(p.BS+1)), p.Local...)
		p.Desc += fmt.Sprintf(" padded local=%d", len(p.Local))
	}
	dir := c.Dir()
	for _, n := range []string{"local.bin", "ref.gosync"} {
		if r.IntN(6) == 0 {
			os.Mkdir(filepath.Join(dir, "there"), 0o755)
			os.Symlink("there/"+n, filepath.Join(dir, n))
		}
	}
	write(filepath.Join(dir, "local.bin"), p.Local)
	write(filepath.Join(dir, "ref.gosync"), indexFile(p.Ref, p.BS))
	cmd := []string{bin, "diff"}
	if r.IntN(4) != 0 {
		cmd = append(cmd, "-p", strconv.Itoa(conc))
	} else {
		conc = 2 // as many as there are processors
	}
	x := run(dir, append(cmd, "local.bin", "ref.gosync")...)
	desc := fmt.Sprintf("%s %v", p.Desc, cmd[2:])
	if !x.ended(c, "diff") {
		return
	}
	bs := int64(p.BS)
	total := (int64(len(p.Ref)) + bs - 1) / bs
	matched, missing := c24report(c, x, desc, bs, total, int64(len(isolated(p))), present(p))
	if c.Failed() {
		c.Violate("that was ref=%s local=%s", mon.Quote(p.Ref), mon.Quote(p.Local))
		return
	}
	c24counters(c, x, p, conc > 1 && len(p.Local) >= 1<<20, max(conc, runtime.NumCPU()), desc)
	if bytes.Equal(p.Local, p.Ref) && len(p.Ref) >= p.BS {
		c.Count("identical_files", 1)
		if matched != total || missing != 0 {
			c.Violate("identical files: %d of %d blocks matched, %d bytes missing: %s", matched, total, missing, desc)
		}
	}
	if !same(filepath.Join(dir, "local.bin"), p.Local) {
		c.Violate("diff changed the local file: %s", desc)
	}
	c.Count("reports", 1)
	c.Count("blocks_matched", int(matched))
	c.Count("blocks_missing", int(missing/bs))
	if len(p.Local) >= 1<<20 {
		c.Count("parallel_reports", 1)
	}
	if total > 0 {
		c.Sig(desc)
	}
	c.Sample(desc)
}

// c24refuse: a number of streams with which nothing can be scanned is refused.
func c24refuse(c *mon.Case) {
	r := c.R
	dir := c.Dir()
	d := gen.Random(r, mon.Choose(r, 0, 1, 1000, 1<<20-1, 1<<20, 1<<20+5000, 3<<20))
	write(filepath.Join(dir, "local.bin"), d)
	write(filepath.Join(dir, "ref.gosync"), indexFile(d, 1000))
	p := mon.Choose(r, "0", "0", "-1", "-8", "-9223372036854775808", "x", "1.5", "99999999999999999999")
	x := run(dir, gosyncBin, "diff", "-p", p, "local.bin", "ref.gosync")
	if !x.ended(c, "diff") {
		return
	}
	if x.code == 0 {
		c.Violate("diff with %s streams of %d bytes: exit %d: %s", p, len(d), x.code, x.out)
	}
	c.Count("refused", 1)
	c.Sig(p, len(d))
}

func TestC24(t *testing.T) {
	mon.Run(t, "C24",
		mon.Group{Name: "small", Quick: 1200, Thorough: 60000, Stuck: 700, Fn: func(c *mon.Case) { c24case(c, gosyncBin, 300, 0, 5000) }},
		mon.Group{Name: "split", Quick: 200, Thorough: 10000, Stuck: 700, Fn: func(c *mon.Case) { c24case(c, gosyncBin, 131072, 1<<20, 2<<20) }},
		mon.Group{Name: "large", Quick: 16, Thorough: 1000, Stuck: 700, Fn: func(c *mon.Case) { c24case(c, gosyncBin, 131072, 1<<20, 5<<20) }},
		mon.Group{Name: "race", Quick: 16, Thorough: 1000, Stuck: 700, Fn: func(c *mon.Case) {
			c.Count("race_detector_runs", 1)
			c24case(c, gosyncRace, 131072, 1<<20, 5<<18)
		}},
		mon.Group{Name: "index", Quick: 80, Thorough: 4000, Stuck: 700, Fn: c24index},
		mon.Group{Name: "refuse", Quick: 24, Thorough: 400, Stuck: 700, Fn: c24refuse},
		mon.Group{Name: "huge", Quick: 1, Thorough: 24, Stuck: 400, Fn: c24huge},
	)
}
