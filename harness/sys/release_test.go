package sys

import (
	"bytes"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	gosync "github.com/Redundancy/go-sync"

	"vh/mon"
)

// openFiles lists this process's descriptors of files below dir, and counts its sockets.
func openFiles(dir string) (files []string, sockets int) {
	es, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		l, err := os.Readlink("/proc/self/fd/" + e.Name())
		if err != nil {
			continue
		}
		if l = strings.TrimSuffix(l, " (deleted)"); strings.HasPrefix(l, dir+"/") {
			files = append(files, strings.TrimPrefix(l, dir))
		} else if strings.HasPrefix(l, "socket:") {
			sockets++
		}
	}
	return
}

// c27case runs operations that end in various ways; once each is closed, nothing it took is still held.
func c27case(c *mon.Case, srv *fileServer, maxBS, maxLen int) {
	r := c.R
	dir, err := filepath.EvalSymlinks(c.Dir())
	if err != nil {
		panic(err)
	}
	cwd := filepath.Join(dir, "cwd")
	os.Mkdir(cwd, 0o755)
	idle := func() { http.DefaultTransport.(*http.Transport).CloseIdleConnections() }
	idle()
	settle := func(limit int) (n int) {
		for i := 0; i < 3000; i++ {
			idle()
			if _, n = openFiles(dir); n <= limit {
				return
			}
			time.Sleep(10 * time.Millisecond)
		}
		return
	}
	settle(srv.idleSockets)
	// finalizers would close forgotten files
	defer debug.SetGCPercent(debug.SetGCPercent(-1))

	var all []string
	for n := mon.Range(r, 1, 4); n > 0 && !c.Failed(); n-- {
		conc := mon.Choose(r, 1, 2, 4)
		p := sectionPair(r, maxBS, maxLen, conc)
		s := summary(p.Ref, p.BS)
		url := srv.put("ref", p.Ref)
		kind := mon.Choose(r, placeKinds...)
		os.RemoveAll(filepath.Join(c.Dir(), "w"))
		os.RemoveAll(filepath.Join(c.Dir(), "link"))
		pl := arrange(c, kind, p.Local, p.Ref)
		fault := mon.Choose(r, "none", "none", "server", "server", "disk", "install", "missing-local", "missing-dir", "out-is-dir", "cwd-gone", "no-server", "not-patched", "dev-full", "bad-url")
		mode := serverFaults[r.IntN(len(serverFaults))]
		desc := fmt.Sprintf("%s conc=%d output %s, fault %s/%s", p.Desc, conc, kind, fault, mode)
		all = append(all, desc)
		before := listing(cwd)
		switch fault {
		case "server":
			srv.mu.Lock()
			srv.mode = mode
			srv.mu.Unlock()
			srv.fail.Store(srv.reqs.Load() + int64(mon.Choose(r, 0, 0, 1, 2, 5)))
		case "missing-dir":
			pl.out = filepath.Join(pl.dir, "no", "such")
		case "missing-local":
			pl.in = filepath.Join(pl.dir, "nothing")
		case "out-is-dir":
			pl.out = pl.dir
		case "no-server":
			url = "http://127.0.0.1:1/ref"
		case "bad-url":
			url = mon.Choose(r, "no such scheme", "foo://x", "http://[::1", "")
		case "dev-full":
			pl.out = "/dev/full"
		case "cwd-gone":
			os.Remove(cwd)
			before = nil
		}
		old, _ := os.Getwd()
		os.MkdirAll(cwd, 0o755)
		os.Chdir(cwd)
		if fault == "cwd-gone" {
			os.RemoveAll(cwd)
		}
		var rs *gosync.RSync
		var merr, perr, cerr error
		withConcurrency(conc, func() {
			if rs, merr = gosync.MakeRSync(pl.in, url, pl.out, s); merr != nil {
				return
			}
			if fault != "not-patched" {
				func() {
					if fault == "disk" {
						defer limitFileSize(int64(r.IntN(len(p.Ref) + 2)))()
					}
					perr = rs.Patch()
				}()
			}
			if fault == "install" {
				defer limitFileSize(int64(r.IntN(len(p.Ref) + 2)))()
			}
			cerr = rs.Close()
		})
		held, _ := openFiles(dir)
		runtime.KeepAlive(rs)
		os.Chdir(old)
		os.MkdirAll(cwd, 0o755)
		srv.fail.Store(-1)
		if len(held) > 0 {
			c.Violate("%v still open after the operation was closed (make %v, patch %v, close %v): %s", held, merr, perr, cerr, desc)
		}
		c.Count("operations_closed", 1)
		if merr != nil {
			c.Count("operations_not_made", 1)
		}
		if perr != nil {
			c.Count("operations_failed", 1)
		}
		for _, f := range listing(cwd) {
			if contains(before, f) {
				continue
			}
			// what could not be installed is all there is
			d, err := os.ReadFile(filepath.Join(cwd, f))
			if perr == nil && cerr != nil && fault != "not-patched" && err == nil && bytes.Equal(d, p.Ref) {
				c.Count("temporary_files_kept", 1)
				continue
			}
			c.Violate("%s is left behind (make %v, patch %v, close %v): %s", f, merr, perr, cerr, desc)
		}
		for _, f := range listing(pl.dir) {
			if !contains(pl.before, f) && filepath.Join(pl.dir, f) != pl.out {
				c.Violate("%s is left next to the output (make %v, patch %v, close %v): %s", f, merr, perr, cerr, desc)
			}
		}
		c.Sig(desc)
	}
	if n := settle(srv.idleSockets); n > srv.idleSockets {
		c.Violate("%d connections are still open after all operations were closed: %s", n-srv.idleSockets, strings.Join(all, "; "))
	}
	if gs := leftover(); len(gs) > 0 {
		c.Violate("goroutines are still running after all operations were closed: %s\n%s", strings.Join(all, "; "), strings.Join(gs, "\n\n"))
	}
	c.Sample(all[0])
}

func TestC27(t *testing.T) {
	srv := newFileServer()
	defer srv.stop()
	time.Sleep(20 * time.Millisecond)
	_, srv.idleSockets = openFiles("/nothing")
	mon.Run(t, "C27",
		mon.Group{Name: "small", Quick: 2400, Thorough: 100000, Stuck: 60, Fn: func(c *mon.Case) { c27case(c, srv, 500, 8000) }},
		mon.Group{Name: "large", Quick: 32, Thorough: 1500, Stuck: 60, Fn: func(c *mon.Case) { c27case(c, srv, 70000, 2<<20) }},
	)
}
