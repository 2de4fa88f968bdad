package sys

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"os/signal"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/blocksources"
	"github.com/Redundancy/go-sync/comparer"
	"github.com/Redundancy/go-sync/filechecksum"
	"github.com/Redundancy/go-sync/indexbuilder"

	"vh/gen"
	"vh/mon"
)

// librarySummary builds the index with the library itself.
func librarySummary(ref []byte, bs int) (*gosync.BasicSummary, error) {
	_, idx, lookup, err := indexbuilder.BuildChecksumIndex(filechecksum.NewFileChecksumGenerator(uint(bs)), bytes.NewReader(ref))
	if err != nil {
		return nil, err
	}
	return &gosync.BasicSummary{BlockSize: uint(bs), BlockCount: uint((len(ref) + bs - 1) / bs), FileSize: int64(len(ref)),
		ChecksumIndex: idx, ChecksumLookup: lookup}, nil
}

// tailPair makes local files around the section boundaries of parallel scans: multiples of the block size with
// the reference's data across them.
func sectionPair(r *rand.Rand, maxBS, maxLen, conc int) gen.Pair {
	p := gen.NewPair(r, maxBS, maxLen)
	if r.IntN(3) == 0 && len(p.Ref) > 0 {
		// shift the whole reference so that its blocks straddle every section boundary
		p.Local = append(gen.Random(r, r.IntN(p.BS+1)), p.Ref...)
		if r.IntN(2) == 0 {
			p.Local = append(p.Local, gen.Random(r, r.IntN(conc*p.BS+1))...)
		}
		p.Desc += fmt.Sprintf(" shifted local=%d", len(p.Local))
	}
	return p
}

type patchRun struct {
	out   *output
	w     *watched
	rem   *remote
	err   error
	src   *blocksources.BlockSourceBase
	local *localFile
}

// patchOpts replaces the input or the output, or makes them slow.
type patchOpts struct {
	pace []func(uint64) // of input, output and source
	in   gosync.ReadSeekerAt
	out  io.Writer
}

// patch runs one patch through the RSync type with instrumented input, source and output.
func patch(r *rand.Rand, p gen.Pair, s *gosync.BasicSummary, conc, fetches int, f *faults, verify bool, more ...patchOpts) *patchRun {
	x := &patchRun{out: &output{f: f}, rem: &remote{ref: p.Ref, f: f}, local: newLocal(p.Local, f, r)}
	if r.IntN(2) == 0 {
		x.rem.wait = r.Uint64() | 1
	}
	if f != nil {
		x.local.short, x.out.short = r.IntN(2) == 0, r.IntN(2) == 0
	}
	var v blocksources.BlockVerifier
	if verify {
		v = newVerifier(s)
	}
	var in gosync.ReadSeekerAt = x.local
	var out io.Writer = x.out
	for _, m := range more {
		if len(m.pace) == 3 {
			x.local.pace, x.out.pace, x.rem.pace = m.pace[0], m.pace[1], m.pace[2]
		}
		if m.in != nil {
			in = m.in
		}
		if m.out != nil {
			out = m.out
		}
	}
	x.src = blocksources.NewBlockSourceBase(x.rem, resolver(s), v, fetches, 4<<20)
	x.w = &watched{BlockSource: x.src, f: f}
	rs := &gosync.RSync{Input: in, Source: x.w, Output: out, Summary: s}
	withConcurrency(conc, func() { x.err = rs.Patch() })
	if e := rs.Close(); x.err == nil {
		x.err = e
	}
	x.src.Close()
	return x
}

func c01stream(c *mon.Case, maxBS, maxLen int) {
	conc := concurrency(c.R)
	c01patch(c, sectionPair(c.R, maxBS, maxLen, conc), conc)
}

// manyPair has more blocks than a 16 bit number counts.
func manyPair(r *rand.Rand) gen.Pair { return gen.NewManyPair(r, mon.Choose(r, 2000, 66000, 66000)) }

// c01slow is a patch in which reading, fetching and writing take up to hours.
func c01slow(c *mon.Case) {
	conc := concurrency(c.R)
	p := sectionPair(c.R, 4096, 20000, conc)
	var slept atomic.Int64
	pace := []func(uint64){paced(c.R, &slept), paced(c.R, &slept), paced(c.R, &slept)}
	bubble(c, func() { c01patch(c, p, conc, patchOpts{pace: pace}) })
	c.Count("minutes_slept", int(slept.Load()/int64(time.Minute)))
}

func c01patch(c *mon.Case, p gen.Pair, conc int, more ...patchOpts) {
	r := c.R
	s := summary(p.Ref, p.BS)
	if r.IntN(2) == 0 {
		var err error
		if s, err = librarySummary(p.Ref, p.BS); err != nil {
			c.Violate("no index: %v: %s", err, p.Desc)
			return
		}
	}
	desc := fmt.Sprintf("%s conc=%d", p.Desc, conc)
	var written func() []byte
	if len(more) == 0 && r.IntN(3) == 0 {
		var o patchOpts
		var what, how string
		if r.IntN(3) > 0 {
			o.in, what = gen.ReadSeeker(r, p.Local, c.Dir, false)
		}
		if r.IntN(3) > 0 {
			o.out, written, how = gen.Writer(r, c.Dir)
		}
		desc += " input " + what + " output " + how
		more = append(more, o)
	}
	x := patch(r, p, s, conc, mon.Range(r, 1, 8), nil, r.IntN(2) == 0, more...)
	result := x.out.buf.Bytes()
	if written != nil {
		result = written()
	}
	if x.err != nil {
		c.Violate("patch failed: %v: %s\nref=%s\nlocal=%s", x.err, desc, mon.Quote(p.Ref), mon.Quote(p.Local))
	} else if !bytes.Equal(result, p.Ref) {
		c.Violate("output is not the reference: %s: %s\nref=%s\nlocal=%s", mon.FirstDiff(result, p.Ref), desc, mon.Quote(p.Ref), mon.Quote(p.Local))
	}
	c.Count("patches", 1)
	c.Count("bytes_output", len(result))
	c.Count("spans_fetched", len(x.w.asks))
	if fetched := len(x.w.blocks()); fetched < int(s.BlockCount) {
		c.Count("patches_reusing_local_data", 1)
	}
	c.Max("parallel_matchers", conc)
	if len(p.Ref) > 0 {
		c.Sig(desc)
	}
	c.Sample(desc)
}

// place is an arrangement of input and output paths in a scratch directory.
type place struct {
	dir, in, out string
	inPlace      bool
	kind         string
	before       []string
}

var placeKinds = []string{"new", "existing-shorter", "existing-longer", "existing-equal", "same", "same-dot", "symlink-out", "symlink-in", "hardlink", "symlink-dir", "write-only"}

func arrange(c *mon.Case, kind string, local, ref []byte) *place {
	r := c.R
	pl := &place{dir: c.Dir(), kind: kind}
	work := filepath.Join(pl.dir, "w")
	os.Mkdir(work, 0o755)
	pl.dir = work
	pl.in = filepath.Join(work, "local.bin")
	pl.out = filepath.Join(work, "out.bin")
	write(pl.in, local)
	switch kind {
	case "existing-shorter":
		write(pl.out, gen.Random(r, r.IntN(len(ref)+1)))
	case "existing-longer":
		write(pl.out, gen.Random(r, len(ref)+1+r.IntN(2*len(ref)+100)))
	case "existing-equal":
		write(pl.out, ref)
	case "write-only":
		write(pl.out, gen.Random(r, len(ref)+5))
		os.Chmod(pl.out, 0o222)
	case "same":
		pl.out = pl.in
	case "same-dot":
		pl.out = work + "/../w/./local.bin"
	case "symlink-out":
		os.Symlink(pl.in, pl.out)
	case "symlink-in":
		os.Rename(pl.in, pl.out)
		os.Symlink("out.bin", pl.in)
	case "hardlink":
		os.Link(pl.in, pl.out)
	case "symlink-dir":
		os.Symlink(work, filepath.Join(c.Dir(), "link"))
		pl.out = filepath.Join(c.Dir(), "link", "local.bin")
	}
	pl.inPlace = strings.HasPrefix(kind, "same") || strings.HasPrefix(kind, "sym") || kind == "hardlink"
	pl.before = listing(work)
	return pl
}

func c01files(c *mon.Case, srv *fileServer, maxBS, maxLen int) {
	r := c.R
	conc := concurrency(r)
	p := sectionPair(r, maxBS, maxLen, conc)
	kind := placeKinds[c.I%len(placeKinds)]
	pl := arrange(c, kind, p.Local, p.Ref)
	url := srv.put("ref", p.Ref)
	s := summary(p.Ref, p.BS)
	desc := fmt.Sprintf("%s conc=%d output %s", p.Desc, conc, kind)
	if r.IntN(5) == 0 {
		// as the README has it for an index whose blocks are not to be verified
		s.ChecksumLookup = nil
		desc += " unverified"
		c.Count("patches_unverified", 1)
	}
	cwd := filepath.Join(c.Dir(), "cwd")
	os.Mkdir(cwd, 0o755)
	within(cwd, func() {
		withConcurrency(conc, func() {
			rs, err := gosync.MakeRSync(pl.in, url, pl.out, s)
			if err != nil {
				c.Violate("MakeRSync: %v: %s", err, desc)
				return
			}
			err = rs.Patch()
			cerr := rs.Close()
			if err != nil || cerr != nil {
				c.Violate("patch: %v, close: %v: %s", err, cerr, desc)
			}
		})
	})
	os.Chmod(pl.out, 0o644)
	got, err := os.ReadFile(pl.out)
	if err != nil || !bytes.Equal(got, p.Ref) {
		c.Violate("output file is not the reference (%v): %s: %s", err, mon.FirstDiff(got, p.Ref), desc)
	}
	if got, err := os.ReadFile(pl.in); !pl.inPlace && (err != nil || !bytes.Equal(got, p.Local)) {
		c.Violate("the local file was changed (%v): %s", err, desc)
	}
	c.Count("patches", 1)
	c.Count("outputs_"+kind, 1)
	c.Count("bytes_output", len(p.Ref))
	c.Sig(desc)
}

// c01overlap runs several operations from one directory at once: all are made, then patched and closed in any order.
// Files that earlier operations left behind are there as well.
func c01overlap(c *mon.Case, srv *fileServer, maxBS, maxLen int) {
	r := c.R
	cwd := filepath.Join(c.Dir(), "cwd")
	os.Mkdir(cwd, 0o755)
	type op struct {
		p    gen.Pair
		rs   *gosync.RSync
		out  string
		desc string
		step int
	}
	var ops []*op
	within(cwd, func() {
		for k := r.IntN(3); k > 0; k-- {
			write(fmt.Sprintf("tmp_%d", r.IntN(1e6)), gen.Random(r, r.IntN(3*maxLen)))
		}
		for n := mon.Range(r, 2, 5); len(ops) < n; {
			p := sectionPair(r, maxBS, maxLen, 2)
			k := len(ops)
			in := filepath.Join(c.Dir(), fmt.Sprintf("local%d", k))
			if r.IntN(2) == 0 {
				in = fmt.Sprintf("local%d", k) // next to the temporary files
			}
			write(in, p.Local)
			o := &op{p: p, out: in}
			if r.IntN(4) == 0 {
				o.out = filepath.Join(c.Dir(), fmt.Sprintf("out%d", k))
			}
			o.desc = fmt.Sprintf("operation %d of %d, in place %v: %s", k+1, n, in == o.out, p.Desc)
			url := srv.put(fmt.Sprintf("ref%d", k), p.Ref)
			withConcurrency(mon.Choose(r, 1, 2, 4), func() {
				var err error
				if o.rs, err = gosync.MakeRSync(in, url, o.out, summary(p.Ref, p.BS)); err != nil {
					c.Violate("MakeRSync: %v: %s", err, o.desc)
				}
			})
			if o.rs == nil {
				return
			}
			ops = append(ops, o)
		}
		left := slices.Clone(ops)
		for len(left) > 0 {
			i := r.IntN(len(left))
			o := left[i]
			switch o.step {
			case 0:
				withConcurrency(mon.Choose(r, 1, 2, 4), func() {
					if err := o.rs.Patch(); err != nil {
						c.Violate("patch: %v: %s", err, o.desc)
					}
				})
				o.step++
			case 1:
				if err := o.rs.Close(); err != nil {
					c.Violate("close: %v: %s", err, o.desc)
				}
				left = slices.Delete(left, i, i+1)
			}
		}
		for _, o := range ops {
			got, err := os.ReadFile(o.out)
			if err != nil || !bytes.Equal(got, o.p.Ref) {
				c.Violate("output file is not the reference (%v): %s: %s", err, mon.FirstDiff(got, o.p.Ref), o.desc)
			}
			c.Count("overlapping_operations", 1)
			c.Count("bytes_output", len(o.p.Ref))
		}
	})
	if len(ops) > 0 {
		c.Sig(ops[0].desc)
	}
}

func TestC01(t *testing.T) {
	srv := newFileServer()
	defer srv.stop()
	mon.Run(t, "C01",
		mon.Group{Name: "small", Quick: 10000, Thorough: 1000000, Fn: func(c *mon.Case) { c01stream(c, 64, 1500) }},
		mon.Group{Name: "medium", Quick: 1500, Thorough: 100000, Fn: func(c *mon.Case) { c01stream(c, 4096, 60000) }},
		mon.Group{Name: "large", Quick: 64, Thorough: 3000, Fn: func(c *mon.Case) { c01stream(c, 131072, 3<<20) }},
		mon.Group{Name: "huge-in-place", Quick: 1, Thorough: 8, Stuck: 400, Fn: hugeInPlace},
		mon.Group{Name: "slow", Quick: 1000, Thorough: 60000, Fn: c01slow},
		mon.Group{Name: "many", Quick: 24, Thorough: 2000, Fn: func(c *mon.Case) { c01patch(c, manyPair(c.R), concurrency(c.R)) }},
		mon.Group{Name: "wide", Quick: 8, Thorough: 400, Fn: func(c *mon.Case) { c01patch(c, gen.NewWidePair(c.R), concurrency(c.R)) }},
		mon.Group{Name: "files", Quick: 1100, Thorough: 40000, Fn: func(c *mon.Case) { c01files(c, srv, 2000, 20000) }},
		mon.Group{Name: "files-large", Quick: 44, Thorough: 1500, Fn: func(c *mon.Case) { c01files(c, srv, 131072, 4<<20) }},
		mon.Group{Name: "overlap", Quick: 400, Thorough: 20000, Fn: func(c *mon.Case) { c01overlap(c, srv, 2000, 20000) }},
		mon.Group{Name: "huge", Quick: 2, Thorough: 60, Stuck: 400, Fn: huge},
	)
}

// ---------------------------------------------------------------------------------------------------

var faultKinds = []string{"readat", "shrink", "read", "seek", "write", "shortwrite", "request", "fetch", "fetchshort", "fetchlong", "fetchcorrupt", "fetchdirty"}

// c02enumerate injects a fault at every call of every kind in turn.
func c02enumerate(c *mon.Case, maxBS, maxLen int) {
	r := c.R
	conc := mon.Choose(r, 1, 1, 2, 3, 5)
	p := sectionPair(r, maxBS, maxLen, conc)
	s := summary(p.Ref, p.BS)
	fetches := mon.Range(r, 1, 3)
	base := newFaults()
	x := patch(r, p, s, conc, fetches, base, true)
	if x.err != nil || !bytes.Equal(x.out.buf.Bytes(), p.Ref) {
		c.Violate("patch without faults: error %v: %s", x.err, p.Desc)
		return
	}
	for _, kind := range faultKinds {
		n := base.calls[kind]
		step := max(1, n/12)
		for at := 0; at < n && !c.Failed(); at += 1 + r.IntN(step) {
			f := newFaults()
			f.at[kind] = at
			f.once[kind] = r.IntN(2) == 0
			f.err = mon.Choose[error](r, gen.ErrInjected, os.ErrClosed, io.ErrUnexpectedEOF, io.ErrNoProgress, syscall.EIO, syscall.ENOSPC)
			if (kind == "readat") && f.err == io.ErrUnexpectedEOF {
				f.err = syscall.EIO
			}
			c02run(c, r, p, s, conc, fetches, f, fmt.Sprintf("%s fails at %d of %d (once %v, %v)", kind, at, n, f.once[kind], f.err), kind)
		}
	}
}

func c02run(c *mon.Case, r *rand.Rand, p gen.Pair, s *gosync.BasicSummary, conc, fetches int, f *faults, what, kind string) {
	// only wrong data that comes without an error takes a verifier to notice
	x := patch(r, p, s, conc, fetches, f, kind != "fetchdirty" || r.IntN(2) == 0)
	desc := fmt.Sprintf("%s: %s conc=%d", what, p.Desc, conc)
	if x.err == nil && !bytes.Equal(x.out.buf.Bytes(), p.Ref) {
		c.Violate("success was reported on wrong output: %s: %s\nref=%s\nlocal=%s", mon.FirstDiff(x.out.buf.Bytes(), p.Ref), desc, mon.Quote(p.Ref), mon.Quote(p.Local))
	}
	hit := f.hits()
	if hit > 0 {
		c.Count("faults_hit_"+kind, 1)
		c.Count("faults_hit", 1)
		if x.err == nil {
			c.Count("faults_survived", 1)
		}
	} else if x.err != nil {
		c.Violate("patch failed with %v though no fault was hit: %s", x.err, desc)
	}
	c.Sig(desc)
	c.Sample(desc)
}

func c02multi(c *mon.Case, maxBS, maxLen int) {
	r := c.R
	conc := concurrency(r)
	p := sectionPair(r, maxBS, maxLen, conc)
	s := summary(p.Ref, p.BS)
	f := newFaults()
	what := ""
	for n := mon.Range(r, 1, 4); n > 0; n-- {
		k := faultKinds[r.IntN(len(faultKinds))]
		f.at[k] = r.IntN(mon.Choose(r, 1, 3, 20))
		f.once[k] = r.IntN(2) == 0
		what += fmt.Sprintf("%s@%d ", k, f.at[k])
	}
	c02run(c, r, p, s, conc, mon.Range(r, 1, 8), f, what, "multi")
}

// limitFileSize makes writes beyond n bytes of any file fail with EFBIG until the returned function is called.
func limitFileSize(n int64) func() {
	signal.Ignore(syscall.SIGXFSZ)
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(n), Max: old.Max}); err != nil {
		panic(err)
	}
	return func() {
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
			panic(err)
		}
	}
}

var serverFaults = []string{"500", "404", "full", "reset", "corrupt", "short"}

// c02files injects faults around patches between real files.
func c02files(c *mon.Case, srv *fileServer) {
	r := c.R
	conc := mon.Choose(r, 1, 2, 4)
	p := sectionPair(r, 500, 8000, conc)
	s := summary(p.Ref, p.BS)
	url := srv.put("ref", p.Ref)
	kind := mon.Choose(r, placeKinds...)
	pl := arrange(c, kind, p.Local, p.Ref)
	fault := mon.Choose(r, "server", "server", "disk", "disk", "disk-install", "devfull", "missing-dir", "missing-local", "out-is-dir", "no-server", "cwd-gone", "twice")
	mode := serverFaults[r.IntN(len(serverFaults))]
	desc := fmt.Sprintf("%s conc=%d output %s, fault %s/%s", p.Desc, conc, kind, fault, mode)
	cwd := filepath.Join(c.Dir(), "cwd")
	os.Mkdir(cwd, 0o755)
	var errs []string
	note := func(what string, err error) bool {
		if err != nil {
			errs = append(errs, what+": "+err.Error())
		}
		return err == nil
	}
	switch fault {
	case "server":
		srv.mu.Lock()
		srv.mode = mode
		srv.mu.Unlock()
		srv.fail.Store(srv.reqs.Load() + int64(mon.Choose(r, 0, 0, 1, 2, 5)))
		defer srv.fail.Store(-1)
	case "devfull":
		pl.out = "/dev/full"
	case "missing-dir":
		pl.out = filepath.Join(pl.dir, "no", "such")
	case "missing-local":
		pl.in = filepath.Join(pl.dir, "nothing")
	case "out-is-dir":
		pl.out = pl.dir
	case "no-server":
		url = "http://127.0.0.1:1/ref"
	case "cwd-gone":
		os.Remove(cwd)
	}
	run := func() {
		withConcurrency(conc, func() {
			if fault == "disk" {
				defer limitFileSize(int64(r.IntN(len(p.Ref) + 2)))()
			}
			rs, err := gosync.MakeRSync(pl.in, url, pl.out, s)
			if !note("make", err) {
				return
			}
			if fault == "twice" {
				rs.Close()
				return
			}
			note("patch", rs.Patch())
			if fault == "disk-install" {
				defer limitFileSize(int64(r.IntN(len(p.Ref) + 2)))()
			}
			for n := mon.Choose(r, 1, 1, 2, 3); n > 0; n-- {
				note("close", rs.Close())
			}
		})
	}
	if fault == "twice" { // closed without patching, then a complete operation
		within(cwd, run)
		fault = "none"
	}
	if fault == "cwd-gone" {
		os.Mkdir(cwd, 0o755)
		old, _ := os.Getwd()
		os.Chdir(cwd)
		os.Remove(cwd)
		run()
		os.Chdir(old)
	} else {
		within(cwd, run)
	}
	if len(errs) == 0 && pl.out != "/dev/full" {
		os.Chmod(pl.out, 0o644)
		got, err := os.ReadFile(pl.out)
		if err != nil || !bytes.Equal(got, p.Ref) {
			c.Violate("success was reported on wrong output (%v): %s: %s", err, mon.FirstDiff(got, p.Ref), desc)
		}
		c.Count("operations_succeeded", 1)
	} else if len(errs) == 0 && len(p.Ref) > 0 {
		c.Violate("success was reported writing %d bytes to a full device: %s", len(p.Ref), desc)
	} else {
		c.Count("faults_hit", 1)
		c.Count("operations_failed_"+fault, 1)
	}
	c.Sig(desc)
}

// lazyOutput passes on what it was given when it is closed, as a compressing or buffering writer does.
type lazyOutput struct {
	buf  bytes.Buffer
	to   io.Writer
	fail int // bytes after which passing on fails, -1 if it does not
	done bool
}

func (l *lazyOutput) Write(p []byte) (int, error) { return l.buf.Write(p) }
func (l *lazyOutput) Close() error {
	if l.done {
		return nil
	}
	l.done = true
	d := l.buf.Bytes()
	if l.fail >= 0 && l.fail < len(d) {
		l.to.Write(d[:l.fail])
		return gen.ErrInjected
	}
	_, err := l.to.Write(d)
	return err
}

// failingCloser is something else to close, in vain.
type failingCloser struct{ err error }

func (f failingCloser) Close() error { return f.err }

// c02closers: outputs completed when they are closed, and other things to close, any of which may fail.
func c02closers(c *mon.Case, srv *fileServer) {
	r := c.R
	conc := mon.Choose(r, 1, 2, 4)
	p := sectionPair(r, 500, 8000, conc)
	s := summary(p.Ref, p.BS)
	url := srv.put("ref", p.Ref)
	kind := mon.Choose(r, "new", "existing-longer", "same", "symlink-out", "hardlink")
	pl := arrange(c, kind, p.Local, p.Ref)
	cwd := filepath.Join(c.Dir(), "cwd")
	os.Mkdir(cwd, 0o755)
	lazy := &lazyOutput{fail: -1}
	if r.IntN(3) > 0 && len(p.Ref) > 0 {
		lazy.fail = r.IntN(len(p.Ref))
	}
	others := r.IntN(3)
	desc := fmt.Sprintf("%s conc=%d output %s, passing on fails after %d bytes, other failures %d", p.Desc, conc, kind, lazy.fail, others)
	var errs []error
	within(cwd, func() {
		withConcurrency(conc, func() {
			rs, err := gosync.MakeRSync(pl.in, url, pl.out, s)
			if err != nil {
				c.Violate("MakeRSync: %v: %s", err, desc)
				return
			}
			lazy.to = rs.Output
			rs.Output = lazy
			// before the files, wherever they are
			rs.OnClose = slices.Insert(rs.OnClose, 0, rs.OnClose[0])
			rs.OnClose[0] = lazy
			for k := 0; k < others; k++ {
				at := r.IntN(len(rs.OnClose) + 1)
				rs.OnClose = slices.Insert(rs.OnClose, at, rs.OnClose[0])
				rs.OnClose[at] = failingCloser{fmt.Errorf("other failure %d", k)}
			}
			errs = append(errs, rs.Patch(), rs.Close())
		})
	})
	if len(errs) < 2 {
		return
	}
	failed := errs[0] != nil || errs[1] != nil
	got, err := os.ReadFile(pl.out)
	if !failed && (err != nil || !bytes.Equal(got, p.Ref)) {
		c.Violate("success was reported on wrong output (%v): %s: %s", err, mon.FirstDiff(got, p.Ref), desc)
	}
	if lazy.fail < 0 && others == 0 {
		if failed {
			c.Violate("patch %v, close %v though nothing failed: %s", errs[0], errs[1], desc)
		}
	} else {
		c.Count("closings_failed", 1)
	}
	if pl.inPlace && lazy.fail >= 0 && !bytes.Equal(got, p.Local) && !bytes.Equal(got, p.Ref) {
		c.Violate("an incomplete file was installed: %s: %s", mon.FirstDiff(got, p.Ref), desc)
	}
	c.Sig(desc)
}

func TestC02(t *testing.T) {
	srv := newFileServer()
	defer srv.stop()
	mon.Run(t, "C02",
		mon.Group{Name: "enumerate", Quick: 640, Thorough: 40000, Stuck: 30, Fn: func(c *mon.Case) { c02enumerate(c, 64, 800) }},
		mon.Group{Name: "enumerate-large", Quick: 24, Thorough: 800, Stuck: 60, Fn: func(c *mon.Case) { c02enumerate(c, 70000, 1500000) }},
		mon.Group{Name: "multi", Quick: 5000, Thorough: 400000, Stuck: 30, Fn: func(c *mon.Case) { c02multi(c, 200, 3000) }},
		mon.Group{Name: "files", Quick: 1600, Thorough: 60000, Stuck: 30, Fn: func(c *mon.Case) { c02files(c, srv) }},
		mon.Group{Name: "syscalls", Quick: 48, Thorough: 2000, Stuck: 400, Fn: func(c *mon.Case) { c28faults(c, srv, 6, "patch") }},
		mon.Group{Name: "closers", Quick: 800, Thorough: 30000, Stuck: 30, Fn: func(c *mon.Case) { c02closers(c, srv) }},
	)
}

// ---------------------------------------------------------------------------------------------------

// isolated tells which blocks occur in the local data without any other reference block overlapping there.
func isolated(p gen.Pair) map[uint]bool {
	iso := map[uint]bool{}
	if len(p.Local) < p.BS {
		return iso
	}
	occ := gen.Occurrences(p.Ref, p.Local, p.BS)
	for i, o := range occ {
		if i > 0 && occ[i-1].Off > o.Off-p.BS || i+1 < len(occ) && occ[i+1].Off < o.Off+p.BS {
			continue
		}
		for _, b := range o.Blocks {
			iso[uint(b)] = true
		}
	}
	if n := len(p.Ref) % p.BS; n != 0 && bytes.HasSuffix(p.Local, p.Ref[len(p.Ref)-n:]) {
		x := len(p.Local) - n
		if len(occ) == 0 || occ[len(occ)-1].Off+p.BS <= x {
			iso[uint(len(p.Ref)/p.BS)] = true
		}
	}
	return iso
}

func c22case(c *mon.Case, maxBS, maxLen int) {
	conc := concurrency(c.R)
	c22patch(c, sectionPair(c.R, maxBS, maxLen, conc), conc)
}

func c22patch(c *mon.Case, p gen.Pair, conc int) {
	r := c.R
	if r.IntN(8) == 0 {
		p.Local = bytes.Clone(p.Ref)
		p.Desc += " identical"
	}
	// a short reference tail occurring within the local data may overlap its last blocks
	s := summary(p.Ref, p.BS)
	x := patch(r, p, s, conc, mon.Range(r, 1, 8), nil, r.IntN(2) == 0)
	desc := fmt.Sprintf("%s conc=%d", p.Desc, conc)
	if x.err != nil {
		c.Violate("patch failed: %v: %s", x.err, desc)
		return
	}
	iso := isolated(p)
	seen := map[uint]bool{}
	for _, b := range x.w.blocks() {
		if seen[b] {
			c.Violate("block %d was requested twice: %s", b, desc)
			return
		}
		seen[b] = true
		if b >= s.BlockCount {
			c.Violate("block %d of %d was requested: %s", b, s.BlockCount, desc)
			return
		}
		if iso[b] {
			c.Violate("block %d was requested though it occurs in the local file: %s\nref=%s\nlocal=%s", b, desc, mon.Quote(p.Ref), mon.Quote(p.Local))
			return
		}
	}
	if bytes.Equal(p.Local, p.Ref) && len(p.Ref) >= p.BS {
		c.Count("identical_files", 1)
		if len(x.w.asks) != 0 || len(x.rem.asks) != 0 {
			c.Violate("%d requests (%d fetches) although the local file is identical: %s", len(x.w.asks), len(x.rem.asks), desc)
			return
		}
	}
	// nor is any byte fetched twice
	end := int64(0)
	for _, a := range x.rem.asks {
		if a[0] < end {
			c.Violate("fetch of %d-%d after %d had been fetched: %s", a[0], a[1], end, desc)
			return
		}
		end = a[1]
	}
	c.Count("blocks_requested", len(seen))
	c.Count("blocks_isolated", len(iso))
	c.Max("parallel_matchers", conc)
	c.Sig(desc)
	c.Sample(desc)
}

func TestC22(t *testing.T) {
	mon.Run(t, "C22",
		mon.Group{Name: "small", Quick: 9000, Thorough: 800000, Fn: func(c *mon.Case) { c22case(c, 64, 2000) }},
		mon.Group{Name: "medium", Quick: 1200, Thorough: 100000, Fn: func(c *mon.Case) { c22case(c, 4096, 60000) }},
		mon.Group{Name: "large", Quick: 60, Thorough: 3000, Fn: func(c *mon.Case) { c22case(c, 131072, 3<<20) }},
		mon.Group{Name: "slow", Quick: 1000, Thorough: 60000, Fn: c01slow},
		mon.Group{Name: "many", Quick: 24, Thorough: 2000, Fn: func(c *mon.Case) { c22patch(c, manyPair(c.R), concurrency(c.R)) }},
		mon.Group{Name: "wide", Quick: 8, Thorough: 400, Fn: func(c *mon.Case) { c22patch(c, gen.NewWidePair(c.R), concurrency(c.R)) }},
		mon.Group{Name: "huge", Quick: 2, Thorough: 60, Stuck: 400, Fn: huge},
	)
}

// ---------------------------------------------------------------------------------------------------

func newVerifier(s *gosync.BasicSummary) blocksources.BlockVerifier {
	return &filechecksum.HashVerifier{Hash: filechecksum.DefaultStrongHashGenerator(), BlockSize: s.BlockSize, BlockChecksumGetter: s}
}

// c23case runs many operations on one shared index at once, each must give its usual result.
func c23case(c *mon.Case, srv *fileServer, workers int) {
	r := c.R
	bs := gen.BlockSize(r, 2000)
	ref, kind := gen.Content(r, gen.Len(r, bs, 20000), bs)
	s, err := librarySummary(ref, bs)
	if err != nil {
		c.Violate("no index: %v", err)
		return
	}
	url := srv.put(fmt.Sprintf("ref%d", c.I), ref)
	conc := mon.Choose(r, 1, 2, 3, 4)
	desc := fmt.Sprintf("%s bs=%d ref=%d workers=%d conc=%d", kind, bs, len(ref), workers, conc)
	cwd := filepath.Join(c.Dir(), "cwd")
	os.Mkdir(cwd, 0o755)
	blocks := gen.Blocks(ref, bs)
	cmp := &comparer.Comparer{} // its counters are shared
	var wg sync.WaitGroup
	within(cwd, func() {
		withConcurrency(conc, func() {
			for w := 0; w < workers; w++ {
				wr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
				local, script := gen.Edit(wr, ref, bs)
				p := gen.Pair{Ref: ref, Local: local, BS: bs, Desc: desc + " " + script}
				op := mon.Choose(wr, "patch", "patch", "file", "file", "inplace", "scan", "generate", "lookup")
				c.Count("operations_"+op, 1)
				wg.Add(1)
				go func() {
					defer wg.Done()
					switch op {
					case "patch":
						out := &output{}
						src := blocksources.NewBlockSourceBase(&remote{ref: ref, wait: wr.Uint64() | 1}, resolver(s), newVerifier(s), 1+wr.IntN(4), 1<<20)
						rs := &gosync.RSync{Input: newLocal(local, nil, wr), Source: src, Output: out, Summary: s}
						err := rs.Patch()
						rs.Close()
						src.Close()
						if err != nil || !bytes.Equal(out.buf.Bytes(), ref) {
							c.Violate("patch in parallel: %v: %s: %s", err, mon.FirstDiff(out.buf.Bytes(), ref), p.Desc)
						}
					case "file", "inplace":
						in, out := filepath.Join(cwd, fmt.Sprintf("in%d", w)), filepath.Join(cwd, fmt.Sprintf("out%d", w))
						if op == "inplace" {
							out = in
						}
						write(in, local)
						rs, err := gosync.MakeRSync(in, url, out, s)
						if err != nil {
							c.Violate("MakeRSync in parallel: %v: %s", err, p.Desc)
							return
						}
						err = rs.Patch()
						cerr := rs.Close()
						got, _ := os.ReadFile(out)
						if err != nil || cerr != nil || !bytes.Equal(got, ref) {
							c.Violate("file patch in parallel: %v, %v: %s: %s", err, cerr, mon.FirstDiff(got, ref), p.Desc)
						}
					case "scan":
						for m := range cmp.StartFindMatchingBlocks(bytes.NewReader(local), 0, filechecksum.NewFileChecksumGenerator(uint(bs)), s) {
							if m.Err != nil {
								if len(local) >= bs {
									c.Violate("scan in parallel: %v: %s", m.Err, p.Desc)
								}
								continue
							}
							if int(m.BlockIdx) >= len(blocks) || m.ComparisonOffset < 0 || int(m.ComparisonOffset) > len(local) || !bytes.HasPrefix(local[m.ComparisonOffset:], blocks[m.BlockIdx]) {
								c.Violate("match in parallel is not genuine: block %d at %d: %s", m.BlockIdx, m.ComparisonOffset, p.Desc)
							}
							c.Count("matches", 1)
						}
					case "generate":
						sum, idx, _, err := indexbuilder.BuildChecksumIndex(filechecksum.NewFileChecksumGenerator(uint(bs)), bytes.NewReader(ref))
						if err != nil || idx.BlockCount != len(blocks) || !bytes.Equal(sum, gen.Strong(ref)) {
							c.Violate("generation in parallel: %v, sum %x, want %x: %s", err, sum, gen.Strong(ref), p.Desc)
						}
					case "lookup":
						for i, b := range blocks {
							wk := gen.Weak(b)
							found := false
							for _, x := range s.FindStrongChecksum2(gen.Strong(b), s.FindWeakChecksum2(wk[:])) {
								found = found || x.ChunkOffset == uint(i)
							}
							if !found || !bytes.Equal(s.GetStrongChecksumForBlock(i), gen.Strong(b)) {
								c.Violate("block %d not found in parallel: %s", i, p.Desc)
								return
							}
						}
					}
				}()
			}
			wg.Wait()
		})
	})
	if gs := leftover(); gs != nil {
		c.Violate("background activity remains after everything was closed: %s\n%s", desc, strings.Join(gs, "\n\n"))
	}
	for _, n := range listing(cwd) {
		if !strings.HasPrefix(n, "in") && !strings.HasPrefix(n, "out") {
			c.Violate("file %s was left behind: %s", n, desc)
		}
	}
	srv.mu.Lock()
	delete(srv.files, fmt.Sprintf("/ref%d", c.I))
	srv.mu.Unlock()
	c.Count("operations", workers)
	c.Max("parallel_operations", workers)
	c.Sig(desc)
	c.Sample(desc)
}

func TestC23(t *testing.T) {
	srv := newFileServer()
	defer srv.stop()
	mon.Run(t, "C23",
		mon.Group{Name: "few", Quick: 1600, Thorough: 20000, Fn: func(c *mon.Case) { c23case(c, srv, mon.Range(c.R, 2, 4)) }},
		mon.Group{Name: "many", Quick: 400, Thorough: 5000, Fn: func(c *mon.Case) { c23case(c, srv, mon.Range(c.R, 5, 16)) }},
	)
}
