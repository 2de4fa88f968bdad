package sys

import (
	"bytes"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"testing"
	"time"

	"vh/mon"
)

// C32: the commands do not need memory for the data that goes through them

// peak is the most memory, in KiB, that the process had resident until now.
func peak(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	if err != nil {
		return -1
	}
	_, b, _ = bytes.Cut(b, []byte("VmHWM:"))
	b, _, _ = bytes.Cut(b, []byte("kB"))
	n, err := strconv.Atoi(string(bytes.TrimSpace(b)))
	if err != nil {
		return -1
	}
	return n
}

// measured runs a command and looks at its memory all the time.
func measured(dir string, args ...string) (x ran, kib, looks int) {
	done := make(chan struct{})
	var wg sync.WaitGroup
	x = runWith(dir, func(pid int) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				if n := peak(pid); n >= 0 {
					kib, looks = max(kib, n), looks+1
				}
				select {
				case <-done:
					return
				case <-time.After(3 * time.Millisecond):
				}
			}
		}()
	}, args...)
	close(done)
	wg.Wait()
	return
}

// hugeInPlace patches a file that is larger than a 32 bit number tells, in place and through the file system.
func hugeInPlace(c *mon.Case) {
	size := int64(1)<<31 + c.R.Int64N(100<<20)
	if mon.Thorough() && c.I%2 == 1 {
		size *= 2
	}
	large(c, "patch-inplace", size, false)
}

func c32case(c *mon.Case, kind string) {
	size := int64(mon.Range(c.R, 640, 680)) << 20
	if mon.Thorough() && c.R.IntN(4) == 0 {
		size *= int64(mon.Range(c.R, 2, 4))
	}
	large(c, kind, size, true)
}

func large(c *mon.Case, kind string, size int64, memory bool) {
	r := c.R
	bs := int64(mon.Choose(r, 1<<16, 1<<16, 1<<20, 100003, 3<<18))
	size -= r.Int64N(bs)
	ref, local := &sparse{bs: bs}, &sparse{bs: bs}
	ref.add(0, size)
	blocks := (size + bs - 1) / bs
	switch kind {
	case "patch-fetch":
		local.add(-1, int64(mon.Range(r, 64, 10000)))
	case "patch-most":
		from := r.Int64N(blocks / 2) // a quarter is there
		local.add(from, blocks/4*bs)
	default:
		at := r.Int64N(blocks - 1)
		local.add(0, at*bs)
		local.add(-1, stampLen+r.Int64N(bs))
		local.add(at, size-at*bs)
	}
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, rq *http.Request) {
		http.ServeContent(w, rq, "", time.Time{}, &sparseFile{sparse: ref})
	}))
	defer srv.Close()
	dir := c.Dir()
	lf, of := filepath.Join(dir, "local.bin"), filepath.Join(dir, "out.bin")
	if kind == "build" {
		writeSparse(filepath.Join(dir, "ref.bin"), ref)
	} else {
		writeSparse(lf, local)
		write(filepath.Join(dir, "ref.gosync"), indexOf(ref.checksums(), ref.size, bs))
	}
	cmd, result := []string{gosyncBin, "patch", "local.bin", "ref.gosync", srv.URL + "/ref.bin", "out.bin"}, of
	limit := 420
	switch kind {
	case "build":
		cmd, result, limit = []string{gosyncBin, "build", "-blocksize", strconv.FormatInt(bs, 10), "ref.bin"}, "", 120
	case "diff":
		cmd, result, limit = []string{gosyncBin, "diff", "-p", strconv.Itoa(mon.Range(r, 1, 8)), "local.bin", "ref.gosync"}, "", 150
	case "patch-inplace":
		cmd, result = cmd[:5], lf
	}
	desc := fmt.Sprintf("%s of %d MB, bs=%d", kind, size>>20, bs)
	x, kib, looks := measured(dir, cmd...)
	if !x.ended(c, desc) {
		return
	}
	if x.code != 0 {
		c.Violate("exit %d: %s: %s", x.code, desc, x.out)
		return
	}
	if result != "" {
		f, err := os.Open(result)
		if err != nil {
			c.Violate("no result: %v: %s", err, desc)
			return
		}
		check := &sparseCheck{want: ref, wrong: -1}
		_, err = io.Copy(check, f)
		f.Close()
		if err != nil || check.n != size || check.wrong >= 0 {
			c.Violate("the result has %d bytes and differs from %d on: %s", check.n, check.wrong, desc)
		}
	}
	if looks == 0 && memory {
		return
	}
	if memory && kib>>10 > limit {
		c.Violate("the command needed %d MB of memory (limit %d): %s", kib>>10, limit, desc)
	}
	c.Count("commands_measured", 1)
	c.Count("looks", looks)
	c.Count("megabytes", int(size>>20))
	c.Max("mb_"+kind, kib>>10)
	c.Sig(desc)
	c.Sample(fmt.Sprintf("%s: %d MB", desc, kib>>10))
}

func TestC32(t *testing.T) {
	var groups []mon.Group
	for _, k := range []string{"build", "diff", "patch-same", "patch-inplace", "patch-most", "patch-fetch"} {
		groups = append(groups, mon.Group{Name: k, Quick: 4, Thorough: 100, Stuck: 400, Fn: func(c *mon.Case) { c32case(c, k) }})
	}
	mon.Run(t, "C32", groups...)
}
