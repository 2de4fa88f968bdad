package sys

import (
	"bytes"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"vh/gen"
	"vh/mon"
)

// tree is what a directory holds: the content of files, the target of links, and "dir" for directories.
func tree(dir string) map[string]string {
	m := map[string]string{}
	filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err != nil || p == dir {
			return nil
		}
		name := strings.TrimPrefix(p, dir+"/")
		switch {
		case e.IsDir():
			m[name] = "dir"
		case e.Type()&fs.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			m[name] = "link " + l
		default:
			b, err := os.ReadFile(p)
			m[name] = fmt.Sprintf("file %s %v", b, err)
		}
		return nil
	})
	return m
}

// changes names what differs between two trees.
func changes(a, b map[string]string) (l []string) {
	for k, v := range a {
		if w, ok := b[k]; !ok {
			l = append(l, k+" was removed")
		} else if w != v {
			l = append(l, k+" was changed")
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k+" was made")
		}
	}
	return
}

// job is a command with what it takes to have done its job.
type job struct {
	args   []string
	out    string // the name of its output, if any
	done   func(x ran) string
	failed bool // it can not be done
	ref    []byte
	desc   string
}

// c28job prepares a directory and a command in it, which may be impossible.
func c28job(c *mon.Case, srv *fileServer, dir string) *job {
	r := c.R
	p := gen.NewPair(r, 2000, 30000)
	for len(p.Ref)/p.BS > 3000 { // keep indexes small
		p = gen.NewPair(r, 2000, 30000)
	}
	index := indexFile(p.Ref, p.BS)
	write(filepath.Join(dir, "local.bin"), p.Local)
	write(filepath.Join(dir, "ref.bin"), p.Ref)
	write(filepath.Join(dir, "good.gosync"), index)
	write(filepath.Join(dir, "other.txt"), gen.Random(r, 100))
	os.Mkdir(filepath.Join(dir, "dir"), 0o755)
	os.Mkdir(filepath.Join(dir, "dir.gosync"), 0o755)
	os.Symlink("gone", filepath.Join(dir, "dangling"))
	os.Symlink("loop", filepath.Join(dir, "loop"))
	// files beside them whose names an implementation may think of
	for _, f := range []string{"local", "ref", "good", "out", "ref2", "dir", "missing"} {
		for _, g := range []string{"%s.bin.gosync", "%s.bak", "%s.bin.bak", "%s.tmp", "%s.bin.tmp", "%s.bin.new", "%s.bin.old", "%s.bin.part", "%s.bin~", ".%s.bin", ".%s.bin.tmp", "%s.gosync.tmp", "%s.gosync.bak", "%s.bin.orig", "%s.bin0", "%s", "%s.bin.lock"} {
			name := filepath.Join(dir, fmt.Sprintf(g, f))
			if _, err := os.Lstat(name); err != nil && r.IntN(3) == 0 && filepath.Base(name) != "missing" {
				write(name, gen.Random(r, r.IntN(40)))
			}
		}
	}
	wrong := func() string {
		return mon.Choose(r, "missing", "dir", "dangling", "loop", "", "no/such", "other.txt/x")
	}
	j := &job{ref: p.Ref}
	kind := mon.Choose(r, "build", "diff", "patch", "patch")
	switch kind {
	case "build":
		in := "ref.bin"
		j.out = "ref.gosync"
		want := index
		problem := mon.Choose(r, "none", "none", "input", "size", "out-dir", "out-full", "out-nowhere", "out-loop")
		switch problem {
		case "input":
			in = wrong()
			j.out = strings.TrimSuffix(in, filepath.Ext(in)) + ".gosync"
			j.failed = true
		case "size": // there is more in it than its size tells
			in, j.out = "version.bin", "version.gosync"
			os.Symlink("/proc/version", filepath.Join(dir, in))
			content, _ := os.ReadFile("/proc/version")
			want = indexFile(content, p.BS)
		case "out-dir":
			os.Mkdir(filepath.Join(dir, "ref.gosync"), 0o755)
			j.failed = true
		case "out-full":
			os.Symlink("/dev/full", filepath.Join(dir, "ref.gosync"))
			j.failed = true
		case "out-nowhere":
			os.Symlink("no/such/place", filepath.Join(dir, "ref.gosync"))
			j.failed = true
		case "out-loop":
			os.Symlink("ref.gosync", filepath.Join(dir, "ref.gosync"))
			j.failed = true
		}
		j.args = []string{gosyncBin, "build", "-blocksize", strconv.Itoa(p.BS), in}
		j.done = func(ran) string {
			got, err := os.ReadFile(filepath.Join(dir, j.out))
			if err != nil || !bytes.Equal(got, want) {
				return fmt.Sprintf("the index is not complete: %v %s", err, mon.FirstDiff(got, want))
			}
			return ""
		}
		j.desc = fmt.Sprintf("build, problem %s: %s input %q", problem, p.Desc, in)
	case "diff":
		local, idx := "local.bin", "good.gosync"
		problem := mon.Choose(r, "none", "none", "local", "index", "index-is-data", "few")
		switch problem {
		case "local":
			local = wrong()
			j.failed = true
		case "index":
			idx = wrong()
			j.failed = true
		case "index-is-data":
			idx = mon.Choose(r, "other.txt", "local.bin")
			j.failed = true
		}
		j.args = []string{gosyncBin, "diff", local, idx}
		if problem == "few" {
			j.args = j.args[:2+r.IntN(2)]
			j.failed = true
		}
		least := int64(len(isolated(p)))
		most := present(p)
		total := int64(len(gen.Blocks(p.Ref, p.BS)))
		j.done = func(x ran) string {
			n, blocks := number(reMatched, x.out), number(reIndex, x.out)
			if n < least || n > most || blocks != total {
				return fmt.Sprintf("%d of %d blocks are reported as matched, but there are %d and %d to %d of them occur: %s", n, blocks, total, least, most, x.out)
			}
			return ""
		}
		j.desc = fmt.Sprintf("diff, problem %s: %s local %q index %q", problem, p.Desc, local, idx)
	case "patch":
		local, idx := "local.bin", "good.gosync"
		url := srv.put("ref", p.Ref)
		out := mon.Choose(r, "", "out.bin", "local.bin", "ref2.bin")
		problem := mon.Choose(r, "none", "none", "local", "index", "index-is-data", "few", "many", "no-server", "not-found", "out-dir", "out-nowhere", "out-full")
		switch problem {
		case "local":
			local = mon.Choose(r, "missing", "dangling", "loop", "", "no/such", "other.txt/x")
			j.failed = true
		case "index":
			idx = wrong()
			j.failed = true
		case "index-is-data":
			idx = mon.Choose(r, "other.txt", "local.bin")
			j.failed = true
		case "no-server":
			url = "http://127.0.0.1:1/ref"
			j.failed = len(p.Ref) > 0 && present(p) == 0
		case "not-found":
			url = srv.URL + "/nothing"
			j.failed = len(p.Ref) > 0 && present(p) == 0
		case "out-dir":
			out = "dir"
			j.failed = true
		case "out-nowhere":
			out = "no/such/file"
			j.failed = true
		case "out-full":
			os.Symlink("/dev/full", filepath.Join(dir, "full"))
			out = "full"
			j.failed = len(p.Ref) > 0
		}
		j.out = out
		if out == "" {
			j.out = local
		}
		j.args = []string{gosyncBin, "patch", local, idx, url}
		switch {
		case problem == "few":
			j.args = j.args[:2+r.IntN(3)]
			j.failed = true
		case problem == "many":
			j.args = append(j.args, "out.bin", "other.txt")
			j.failed = true
		case out != "":
			j.args = append(j.args, out)
		}
		target := filepath.Join(dir, j.out)
		j.done = func(ran) string {
			if problem == "out-full" {
				return ""
			}
			got, err := os.ReadFile(target)
			if err != nil || !bytes.Equal(got, p.Ref) {
				return fmt.Sprintf("the output is not the file: %v %s", err, mon.FirstDiff(got, p.Ref))
			}
			return ""
		}
		j.desc = fmt.Sprintf("patch, problem %s: %s local %q index %q output %q", problem, p.Desc, local, idx, out)
	}
	return j
}

// judge checks the outcome of a job.
func (j *job) judge(c *mon.Case, x ran, before, after map[string]string, what string) {
	desc := j.desc + what
	if x.hung {
		c.Violate("the command did not end: %s: %s", desc, x.out)
		return
	}
	if x.code == 0 {
		if j.failed {
			c.Violate("success was reported for a job that can not be done: %s: %s", desc, x.out)
			return
		}
		if s := j.done(x); s != "" {
			c.Violate("success was reported, but %s: %s", s, desc)
			return
		}
		c.Count("jobs_done", 1)
	} else {
		c.Count("jobs_refused", 1)
	}
	for _, s := range changes(before, after) {
		if j.out != "" && strings.HasPrefix(s, filepath.Clean(j.out)+" was ") {
			continue
		}
		c.Violate("%s (exit %d): %s: %s", s, x.code, desc, x.out)
		return
	}
}

// c28case: what is asked of a command may be impossible.
func c28case(c *mon.Case, srv *fileServer) {
	dir := filepath.Join(c.Dir(), "w")
	os.Mkdir(dir, 0o755)
	j := c28job(c, srv, dir)
	before := tree(dir)
	x := run(dir, j.args...)
	j.judge(c, x, before, tree(dir), "")
	if !j.failed && x.code != 0 && strings.Contains(j.desc, "problem none") {
		c.Violate("exit %d: %s: %s", x.code, j.desc, x.out)
	}
	if strings.Contains(x.out, "fatal error:") || strings.Contains(x.out, "goroutine ") {
		c.Violate("the command crashed: %s: %s", j.desc, x.out)
	}
	c.Sig(j.desc)
	c.Sample(j.desc)
}

// closeFailed tells whether closing a file was made to fail.
func closeFailed(trace, name string) bool {
	b, _ := os.ReadFile(trace)
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "close(") && strings.Contains(l, "/"+name+">") && strings.Contains(l, "INJECTED") {
			return true
		}
	}
	return false
}

// c28changing: the input of a build command changes while it is read.
func c28changing(c *mon.Case, n int) {
	r := c.R
	if strace == "" {
		c.Count("no_strace", 1)
		return
	}
	for k := 0; k < n && !c.Failed(); k++ {
		dir := filepath.Join(c.Dir(), fmt.Sprintf("w%d", k))
		os.Mkdir(dir, 0o755)
		bs := mon.Range(r, 1, 3000)
		ref := gen.Random(r, r.IntN(8*bs))
		after := gen.Random(r, mon.Range(r, 1, 4*bs))
		grows := r.IntN(2) == 0 || len(ref) == 0
		if grows {
			after = append(append([]byte{}, ref...), after...)
		} else {
			after = ref[:r.IntN(len(ref))]
		}
		in, out := filepath.Join(dir, "ref.bin"), filepath.Join(dir, "ref.gosync")
		write(in, ref)
		delay := mon.Choose(r, 5, 20, 40)
		late := time.Duration(r.IntN(delay*(len(ref)/bs+2)+1)) * time.Millisecond
		desc := fmt.Sprintf("build bs=%d, input of %d bytes has %d after %v", bs, len(ref), len(after), late)
		ended, changed := make(chan bool), make(chan bool)
		go func() {
			defer close(changed)
			for {
				if i, err := os.Stat(out); err == nil && i.Size() >= headerSize {
					break
				}
				select {
				case <-ended:
					return
				case <-time.After(time.Millisecond):
				}
			}
			time.Sleep(late)
			if f, err := os.OpenFile(in, os.O_WRONLY|os.O_APPEND, 0); err == nil {
				if grows {
					f.Write(after[len(ref):])
				} else {
					f.Truncate(int64(len(after)))
				}
				f.Close()
			}
		}()
		x := run(dir, strace, "-f", "-qq", "-o", filepath.Join(c.Dir(), "trace"), "-P", in, "-P", "ref.bin", "-e", "trace=read",
			"-e", fmt.Sprintf("inject=read:delay_enter=%d", delay*1000), gosyncBin, "build", "-blocksize", strconv.Itoa(bs), "ref.bin")
		close(ended)
		<-changed
		if strings.Contains(x.out, "PTRACE") || strings.Contains(x.out, "ptrace") {
			c.Count("no_strace", 1)
			return
		}
		if !x.ended(c, desc) {
			return
		}
		got, err := os.ReadFile(out)
		if x.code == 0 && (err != nil || !bytes.Equal(got, indexFile(ref, bs)) && !bytes.Equal(got, indexFile(after, bs))) {
			c.Violate("success was reported for an index that is neither the one of the input before it changed nor after: %s: %s", desc, mon.FirstDiff(got, indexFile(ref, bs)))
		}
		if x.code == 0 {
			c.Count("changing_indexed", 1)
		} else {
			c.Count("changing_refused", 1)
		}
		c.Sig(desc)
		c.Sample(desc)
	}
}

// c28faults: system calls on the files of a command fail.
// c28faults fails system calls of a command, of any if none is given.
func c28faults(c *mon.Case, srv *fileServer, n int, command string) {
	r := c.R
	if strace == "" {
		c.Count("no_strace", 1)
		return
	}
	for k := 0; k < n && !c.Failed(); k++ {
		dir := filepath.Join(c.Dir(), fmt.Sprintf("w%d", k))
		tmp := filepath.Join(c.Dir(), fmt.Sprintf("t%d", k))
		os.Mkdir(dir, 0o755)
		os.Mkdir(tmp, 0o755)
		j := c28job(c, srv, dir)
		for j.failed || strings.Contains(j.desc, "out-full") || command != "" && j.args[1] != command {
			os.RemoveAll(dir)
			os.Mkdir(dir, 0o755)
			j = c28job(c, srv, dir)
		}
		call := mon.Choose(r, "openat", "read", "read", "pread64", "pread64", "write", "write", "lseek", "close")
		at := mon.Range(r, 1, mon.Choose(r, 1, 3, 10))
		e := mon.Choose(r, "EIO", "EIO", "EACCES", "ENOSPC", "EMFILE")
		point := fmt.Sprintf("%s:error=%s:when=%d", call, e, at)
		if r.IntN(2) == 0 {
			point += "+"
		}
		trace := filepath.Join(tmp, "trace")
		args := []string{strace, "-f", "-y", "-qq", "-o", trace}
		for _, p := range []string{"local.bin", "ref.bin", "ref.gosync", "good.gosync", "out.bin", "ref2.bin"} {
			args = append(args, "-P", filepath.Join(dir, p), "-P", p)
		}
		args = append(args, "-e", "trace="+call, "-e", "inject="+point)
		before := tree(dir)
		x := run(dir, append(args, j.args...)...)
		after := tree(dir)
		what := ", " + point
		if strings.Contains(x.out, "PTRACE") || strings.Contains(x.out, "ptrace") {
			c.Count("no_strace", 1)
			return
		}
		if b, _ := os.ReadFile(trace); !bytes.Contains(b, []byte("INJECTED")) {
			c.Count("faults_missed", 1)
		} else {
			c.Count("faults_hit_"+call, 1)
		}
		if x.code == 0 && j.args[1] != "diff" && j.out != "local.bin" && closeFailed(trace, j.out) {
			c.Violate("success was reported, though closing %s failed: %s%s", j.out, j.desc, what)
		}
		if x.code != 0 { // what could not be installed is all there is
			for name, d := range after {
				if _, ok := before[name]; !ok && name != j.out && d == fmt.Sprintf("file %s %v", j.ref, nil) {
					delete(after, name)
				}
			}
		}
		j.judge(c, x, before, after, what)
		if x.code != 0 {
			c.Count("faults_reported", 1)
		} else {
			c.Count("faults_survived", 1)
		}
		c.Sig(j.desc, what)
		c.Sample(j.desc + what)
	}
}

func TestC28(t *testing.T) {
	srv := newFileServer()
	defer srv.stop()
	mon.Run(t, "C28",
		mon.Group{Name: "jobs", Quick: 1600, Thorough: 60000, Stuck: 700, Fn: func(c *mon.Case) { c28case(c, srv) }},
		mon.Group{Name: "faults", Quick: 64, Thorough: 3000, Stuck: 400, Fn: func(c *mon.Case) { c28faults(c, srv, 6, "") }},
		mon.Group{Name: "changing", Quick: 24, Thorough: 1000, Stuck: 400, Fn: func(c *mon.Case) { c28changing(c, 4) }},
	)
}
