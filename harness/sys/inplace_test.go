package sys

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"testing"

	gosync "github.com/Redundancy/go-sync"

	"vh/mon"
)

var inPlaceKinds = []string{"same", "same-dot", "symlink-out", "symlink-in", "hardlink", "symlink-dir"}

// c20ops runs in-place operations that fail in various ways and watches the local file.
func c20ops(c *mon.Case, srv *fileServer, maxBS, maxLen int) {
	r := c.R
	conc := mon.Choose(r, 1, 2, 3, 5)
	p := sectionPair(r, maxBS, maxLen, conc)
	s := summary(p.Ref, p.BS)
	url := srv.put("ref", p.Ref)
	kind := mon.Choose(r, inPlaceKinds...)
	pl := arrange(c, kind, p.Local, p.Ref)
	fault := mon.Choose(r, "none", "server", "server", "disk", "install", "install", "install-dir", "not-patched", "retry", "retry-make", "no-server", "gone-between")
	mode := serverFaults[r.IntN(len(serverFaults))]
	desc := fmt.Sprintf("%s conc=%d output %s, fault %s/%s", p.Desc, conc, kind, fault, mode)
	cwd := filepath.Join(c.Dir(), "cwd")
	os.Mkdir(cwd, 0o755)
	oldTmp := os.Getenv("TMPDIR")
	os.Setenv("TMPDIR", cwd)
	defer os.Setenv("TMPDIR", oldTmp)
	intact := func(when string) bool {
		for _, f := range []string{pl.in, pl.out} {
			if !same(f, p.Local) {
				c.Violate("the local file was changed %s: %s: it holds %s", when, desc, content(f))
				return false
			}
		}
		return true
	}
	installed := func() bool { return same(pl.in, p.Ref) && same(pl.out, p.Ref) }

	srv.mu.Lock()
	srv.mode = mode
	srv.watch = func() {
		c.Count("states_observed_during_fetches", 1)
		intact("while the new content was being fetched")
	}
	srv.mu.Unlock()
	defer func() {
		srv.fail.Store(-1)
		srv.mu.Lock()
		srv.watch = nil
		srv.mu.Unlock()
	}()
	failing := func() { srv.fail.Store(srv.reqs.Load() + int64(mon.Choose(r, 0, 0, 1, 2, 3, 5))) }
	switch fault {
	case "server", "retry", "retry-make":
		failing()
	case "no-server":
		url = "http://127.0.0.1:1/ref"
	}
	var rs *gosync.RSync
	var perr, cerr error
	made, patched := false, false
	closes := mon.Choose(r, 1, 1, 2, 3)
	within(cwd, func() {
		withConcurrency(conc, func() {
			step := func(limited bool, f func()) {
				if limited {
					defer limitFileSize(int64(r.IntN(len(p.Ref) + 2)))()
				}
				f()
			}
			var err error
			if rs, err = gosync.MakeRSync(pl.in, url, pl.out, s); err != nil {
				c.Violate("MakeRSync: %v: %s", err, desc)
				return
			}
			made = true
			intact("before it was patched")
			if fault != "not-patched" {
				step(fault == "disk", func() { perr = rs.Patch() })
				patched = true
				intact("before the operation was closed")
			}
			if fault == "retry" {
				srv.fail.Store(-1)
				if perr != nil {
					perr = rs.Patch()
					intact("by patching again, before the operation was closed")
				}
			}
			if fault == "install-dir" && perr == nil {
				// something else takes the place of the local file
				for _, f := range []string{pl.in, pl.out} {
					os.Remove(f)
					os.Mkdir(f, 0o755)
				}
			}
			if fault == "gone-between" && perr == nil && r.IntN(2) == 0 {
				os.RemoveAll(pl.dir)
			}
			step(fault == "install", func() { cerr = rs.Close() })
			for k := 1; k < closes; k++ {
				rs.Close()
			}
		})
	})
	if !made || c.Failed() {
		return
	}
	if fault == "retry-make" && perr != nil {
		intact("by a failed operation")
		srv.fail.Store(-1)
		within(cwd, func() {
			withConcurrency(conc, func() {
				again, err := gosync.MakeRSync(pl.in, url, pl.out, s)
				if err != nil {
					c.Violate("MakeRSync after a failure: %v: %s", err, desc)
					return
				}
				perr = again.Patch()
				if cerr = again.Close(); perr != nil || cerr != nil {
					c.Violate("patching after a failure: %v, %v: %s", perr, cerr, desc)
				}
			})
		})
	}
	have := append(holders(pl.dir, p.Ref), holders(cwd, p.Ref)...)
	switch {
	case !patched || perr != nil:
		intact("although patching failed or was not tried")
		if fault == "server" || fault == "disk" || fault == "no-server" || !patched {
			c.Count("operations_failed", 1)
		}
	case cerr != nil:
		c.Count("installs_failed", 1)
		if !installed() && len(have) == 0 && !same(pl.in, p.Local) {
			c.Violate("installing failed (%v) and neither the old nor the new content is left: %s: it holds %s", cerr, desc, content(pl.in))
		}
	default:
		c.Count("operations_succeeded", 1)
		if !installed() {
			c.Violate("installing did not work but no failure was reported: %s: it holds %s", desc, content(pl.in))
		}
		if l := listing(cwd); len(l) > 0 {
			c.Violate("%v left behind in the working directory: %s", l, desc)
		}
		if l := listing(pl.dir); strings.Join(l, "|") != strings.Join(pl.before, "|") {
			c.Violate("%v next to the local file instead of %v: %s", l, pl.before, desc)
		}
	}
	c.Sig(desc)
	c.Sample(desc)
}

// ---------------------------------------------------------------------------------------------------
// the command, killed or failing at its system calls

var strace = func() string { p, _ := exec.LookPath("strace"); return p }()

var reCall = regexp.MustCompile(`^(\d+)\s+(?:<\.\.\. )?(\w+)[( ]`)

// calls counts the system calls of a run per kind: the most by one thread, since strace counts per thread.
func calls(trace string) map[string]int {
	per := map[string]int{}
	b, _ := os.ReadFile(trace)
	for _, l := range strings.Split(string(b), "\n") {
		if m := reCall.FindStringSubmatch(l); m != nil && !strings.Contains(l, "<... ") {
			per[m[2]+" "+m[1]]++
		}
	}
	most := map[string]int{}
	for k, n := range per {
		most[strings.Fields(k)[0]] = max(most[strings.Fields(k)[0]], n)
	}
	return most
}

const fileCalls = "openat,read,pread64,write,pwrite64,lseek,copy_file_range,sendfile,splice,ftruncate,close,unlinkat,unlink,rename,renameat,renameat2,linkat,fsync,newfstatat,fstat,fchmod,fcntl"

// weights prefer the calls that change files.
var weights = map[string]int{"write": 6, "copy_file_range": 8, "close": 6, "unlinkat": 6, "openat": 3, "ftruncate": 6, "rename": 8, "renameat": 8, "renameat2": 8, "pwrite64": 6, "sendfile": 8, "splice": 8}

func c20kill(c *mon.Case, srv *fileServer, maxBS, maxLen, kills, errs int) {
	r := c.R
	p := sectionPair(r, maxBS, maxLen, 4)
	url := srv.put("ref", p.Ref)
	kind := mon.Choose(r, inPlaceKinds...)
	pl := arrange(c, kind, p.Local, p.Ref)
	cwd := filepath.Join(c.Dir(), "cwd")
	tmp := filepath.Join(c.Dir(), "tmp")
	index := filepath.Join(tmp, "ref.gosync")
	os.Mkdir(tmp, 0o755)
	write(index, indexFile(p.Ref, p.BS))
	reset := func() {
		os.RemoveAll(cwd)
		os.Mkdir(cwd, 0o755)
		for _, n := range listing(pl.dir) {
			if !contains(pl.before, n) {
				os.RemoveAll(filepath.Join(pl.dir, n))
			}
		}
		for _, f := range []string{pl.in, pl.out} {
			os.Chmod(f, 0o644)
		}
		write(pl.in, p.Local)
	}
	patch := []string{gosyncBin, "patch", pl.in, index, url}
	if kind != "same" || r.IntN(2) == 0 {
		patch = append(patch, pl.out)
	}
	if r.IntN(3) == 0 {
		patch = append([]string{"taskset", "-c", "0"}, patch...)
	}
	wrap := func(args ...string) []string { return append(append([]string{strace, "-f", "-qq"}, args...), patch...) }
	desc := fmt.Sprintf("%s output %s", p.Desc, kind)

	if strace == "" {
		c.Count("no_strace", 1)
		return
	}
	reset()
	trace := filepath.Join(tmp, "trace")
	x := run(cwd, wrap("-o", trace, "-e", "trace="+fileCalls)...)
	if strings.Contains(x.out, "PTRACE") || strings.Contains(x.out, "ptrace") {
		c.Count("no_strace", 1)
		return
	}
	if !x.ended(c, "patch") {
		return
	}
	if x.code != 0 || !same(pl.in, p.Ref) {
		c.Violate("patch exited with %d: %s: %s", x.code, desc, x.out)
		return
	}
	per := calls(trace)
	var kinds []string
	for k := range per {
		for n := max(1, weights[k]); n > 0; n-- {
			kinds = append(kinds, k)
		}
	}
	sort.Strings(kinds)
	if len(kinds) == 0 {
		c.Count("no_strace", 1)
		return
	}
	for k := 0; k < kills+errs && !c.Failed(); k++ {
		call := kinds[r.IntN(len(kinds))]
		n := 1 + r.IntN(per[call])
		kill := k < kills
		how := "signal=KILL"
		if !kill {
			how = "error=" + mon.Choose(r, "EIO", "ENOSPC", "EACCES", "EDQUOT")
			call = mon.Choose(r, "write", "write", "write", "copy_file_range", "close", "openat", "pread64", "unlinkat", "lseek", "read", call)
			if per[call] == 0 {
				call = "write"
			}
			n = 1 + r.IntN(max(1, per[call]))
		}
		point := fmt.Sprintf("%s:when=%d", how, n)
		if !kill && r.IntN(3) == 0 {
			point += "+"
		}
		reset()
		x := run(cwd, wrap("-o", "/dev/null", "-e", "trace="+call, "-e", "inject="+call+":"+point)...)
		what := fmt.Sprintf("%s, %s %s", desc, call, point)
		orig, final := same(pl.in, p.Local), same(pl.in, p.Ref)
		var whole, part []string
		for _, d := range []string{cwd, pl.dir, tmp} {
			whole = append(whole, holders(d, p.Ref)...)
			for _, f := range listing(d) {
				if d == tmp && (f == "trace" || f == "ref.gosync") || d == pl.dir && contains(pl.before, f) {
					continue
				}
				part = append(part, f)
			}
		}
		state := "temp-absent"
		if len(part) > 0 {
			state = "temp-partial"
			for _, h := range whole {
				if contains(part, filepath.Base(h)) {
					state = "temp-complete"
				}
			}
		}
		target := "target-partial"
		if final {
			target = "target-new"
		} else if orig {
			target = "target-original"
		}
		switch {
		case kill && x.signal == syscall.SIGKILL || kill && x.code == 137:
			c.Count("runs_killed", 1)
			c.Count("killed_in_"+call, 1)
			c.Count("states_"+state, 1)
			c.Count("states_"+state+"_"+target, 1)
			if !orig && len(whole) == 0 {
				c.Violate("killed at a system call: neither the original content is in place nor the new content complete anywhere: %s: local holds %s, files %v", what, content(pl.in), part)
			}
		case x.hung:
			// strace and injected errors into the runtime's own calls may end in anything but a wrong file
			c.Count("runs_hung", 1)
			if !orig && len(whole) == 0 {
				c.Violate("neither the original nor the new content exists: %s: local holds %s, files %v", what, content(pl.in), part)
			}
		case x.code == 0:
			c.Count("runs_completed", 1)
			if !final {
				c.Violate("success was reported but the new content is not in place: %s: local holds %s, files %v: %s", what, content(pl.in), part, x.out)
			} else if len(part) > 0 {
				c.Violate("success was reported but %v was left behind: %s", part, what)
			}
		default:
			c.Count("runs_with_failed_call", 1)
			c.Count("failed_"+state+"_"+target, 1)
			if !orig && len(whole) == 0 {
				c.Violate("the command failed (%d) and neither the original nor the new content exists: %s: local holds %s, files %v: %s", x.code, what, content(pl.in), part, x.out)
			}
		}
		c.Sig(what, state, target)
		c.Sample(what + " " + state + " " + target)
	}
}

func TestC20(t *testing.T) {
	srv := newFileServer()
	defer srv.stop()
	mon.Run(t, "C20",
		mon.Group{Name: "operations", Quick: 3200, Thorough: 150000, Stuck: 60, Fn: func(c *mon.Case) { c20ops(c, srv, 500, 8000) }},
		mon.Group{Name: "operations-large", Quick: 64, Thorough: 3000, Stuck: 60, Fn: func(c *mon.Case) { c20ops(c, srv, 70000, 3<<20) }},
		mon.Group{Name: "kill", Quick: 80, Thorough: 3000, Stuck: 600, Fn: func(c *mon.Case) { c20kill(c, srv, 2000, 20000, 10, 5) }},
		mon.Group{Name: "kill-large", Quick: 16, Thorough: 800, Stuck: 600, Fn: func(c *mon.Case) { c20kill(c, srv, 131072, 4<<20, 10, 3) }},
		mon.Group{Name: "huge-in-place", Quick: 1, Thorough: 8, Stuck: 400, Fn: hugeInPlace},
	)
}
