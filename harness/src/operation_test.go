package src

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"time"

	"bytes"

	gosync "github.com/Redundancy/go-sync"
	"github.com/Redundancy/go-sync/chunks"
	"github.com/Redundancy/go-sync/index"

	"vh/gen"
	"vh/mon"
)

// c06operation: closing an operation made from paths ends everything it started, whether it was patched,
// failed or was not used.
func c06operation(c *mon.Case) {
	r := c.R
	p := gen.NewPair(r, 100, 1500)
	var cs []chunks.ChunkChecksum
	for i, b := range gen.Blocks(p.Ref, p.BS) {
		w := gen.Weak(b)
		cs = append(cs, chunks.ChunkChecksum{ChunkOffset: uint(i), Size: int64(p.BS), WeakChecksum: w[:], StrongChecksum: gen.Strong(b)})
	}
	s := &gosync.BasicSummary{BlockSize: uint(p.BS), BlockCount: uint(len(cs)), FileSize: int64(len(p.Ref)),
		ChecksumIndex: index.MakeChecksumIndex(cs), ChecksumLookup: chunks.StrongChecksumGetter(cs)}
	good := r.IntN(2) == 0
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		if !good {
			http.NotFound(w, q)
			return
		}
		http.ServeContent(w, q, "", time.Time{}, bytes.NewReader(p.Ref))
	}))
	dir := c.Dir()
	old, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	defer os.Chdir(old)
	in, out := filepath.Join(dir, "in"), filepath.Join(dir, mon.Choose(r, "in", "out"))
	os.WriteFile(in, p.Local, 0o644)
	desc := fmt.Sprintf("%s in place %v, honest server %v", p.Desc, in == out, good)
	n := mon.Range(r, 1, 3)
	for k := 0; k < n; k++ {
		rs, err := gosync.MakeRSync(in, srv.URL, out, s)
		if err != nil {
			c.Violate("MakeRSync: %v: %s", err, desc)
			break
		}
		used := r.IntN(3) != 0
		if used {
			rs.Patch()
		}
		for m := mon.Range(r, 1, 2); m > 0; m-- {
			rs.Close()
		}
		c.Count("operations_closed", 1)
	}
	http.DefaultTransport.(*http.Transport).CloseIdleConnections()
	srv.CloseClientConnections()
	srv.Close()
	if gs := leftover(); gs != nil {
		c.Violate("background activity remains after the operation was closed: %s\n%s", desc, strings.Join(gs, "\n\n"))
	}
	c.Sig(desc)
}
