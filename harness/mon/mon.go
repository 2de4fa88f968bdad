// Package mon is the verdict side of the harness: it runs numbered cases, records what the monitors
// observed, and reports violations, crashes and stuck executions with enough information to replay them.
package mon

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"
)

// SUT is the import path prefix of the code under test.
const SUT = "github.com/Redundancy/go-sync"

// Group is a family of cases of one property. Quick/Thorough are the numbers of cases per tier.
type Group struct {
	Name     string
	Quick    int
	Thorough int
	Fn       func(c *Case)
	// Seconds without completion after which a case is examined for being stuck (default 60).
	Stuck int
}

type violation struct {
	Property string `json:"property"`
	Group    string `json:"group"`
	Case     int    `json:"case"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Key      string `json:"key"`
	Msg      string `json:"msg"`
}

type runner struct {
	prop    string
	seed    uint64
	tier    string
	shard   int
	nshards int
	out     string
	onlyGrp string
	onlyIdx int

	mu        sync.Mutex
	sigs      map[uint64]struct{}
	counts    map[string]int64
	samples   []any
	evals     int64
	nviol     int
	firstViol time.Time
	started   time.Time
	cur       *Case
	curStart  time.Time
	stuckSec  int
	caseNo    int64
	cpu0      time.Duration
}

// Case is one execution of a workload under monitoring.
type Case struct {
	T     *testing.T
	R     *rand.Rand
	I     int
	Group string
	run   *runner
	nviol atomic.Int32
	sig   []string
	dir   string
}

func env(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Thorough tells whether the thorough tier is running.
func Thorough() bool { return env("VERIF_TIER", "quick") == "thorough" }

// Seed is the run's seed.
func Seed() uint64 {
	s, err := strconv.ParseUint(env("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		s = 1
	}
	return s
}

func hash(parts ...any) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		fmt.Fprintf(h, "%v|", p)
	}
	return h.Sum64()
}

// Run executes all groups of a property (this process's shard of them).
func Run(t *testing.T, prop string, groups ...Group) {
	r := &runner{
		prop: prop, seed: Seed(), tier: env("VERIF_TIER", "quick"),
		shard: envInt("VH_SHARD", 0), nshards: envInt("VH_NSHARDS", 1),
		out: env("VH_OUT", ""), onlyGrp: os.Getenv("VH_GROUP"), onlyIdx: envInt("VH_CASE", -1),
		sigs: map[uint64]struct{}{}, counts: map[string]int64{}, started: time.Now(),
	}
	if r.out == "" {
		r.out = t.TempDir()
	}
	go r.watchdog()
	total := 0
	for _, g := range groups {
		n := g.Quick
		if r.tier == "thorough" {
			n = g.Thorough
		}
		if s := envInt("VH_SCALE", 0); s > 0 { // development aid: percentage of cases
			n = n * s / 100
		}
		total += n
		if r.onlyGrp != "" && g.Name != r.onlyGrp {
			continue
		}
		for i := 0; i < n; i++ {
			if r.onlyIdx >= 0 {
				if i != r.onlyIdx {
					continue
				}
			} else if i%r.nshards != r.shard || r.enough() {
				continue
			}
			r.one(t, g, i)
		}
	}
	r.mu.Lock()
	r.cur = nil
	r.mu.Unlock()
	r.finish(total)
	if r.nviol > 0 {
		t.Fail()
	}
}

// enough tells whether there is no point in running more cases, since there are violations already (which
// may have left goroutines behind that make everything slow).
func (r *runner) enough() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.nviol > 0 && os.Getenv("VH_STOP") != "" && (r.nviol >= 10 || time.Since(r.firstViol) > 15*time.Second)
}

func (r *runner) one(t *testing.T, g Group, i int) {
	s := hash(r.seed, r.prop, g.Name, i)
	c := &Case{T: t, R: rand.New(rand.NewPCG(s, s^0x9e3779b97f4a7c15)), I: i, Group: g.Name, run: r}
	r.mu.Lock()
	r.cur, r.curStart, r.stuckSec = c, time.Now(), g.Stuck
	if r.stuckSec == 0 {
		r.stuckSec = 60
	}
	r.cpu0 = cpuTime()
	r.mu.Unlock()
	atomic.AddInt64(&r.caseNo, 1)
	r.writeCur(g.Name, i)
	func() {
		defer func() {
			if p := recover(); p != nil {
				c.Panicked(p, debug.Stack())
			}
		}()
		g.Fn(c)
	}()
	if c.dir != "" {
		os.RemoveAll(c.dir)
	}
	r.mu.Lock()
	r.evals++
	if len(c.sig) > 0 {
		r.sigs[hash(g.Name, strings.Join(c.sig, "\x00"))] = struct{}{}
	}
	r.mu.Unlock()
}

// Panicked classifies a recovered panic: one that passed through the code under test is a violation.
func (c *Case) Panicked(p any, stack []byte) {
	msg := fmt.Sprint(p)
	if strings.Contains(string(stack), SUT) || strings.Contains(msg, "deadlock") {
		c.ViolateKey("panic", "panic: %v\n%s", p, stack)
		return
	}
	panic(fmt.Sprintf("harness panic in %s case %d: %v\n%s", c.Group, c.I, p, stack))
}

func (r *runner) writeCur(g string, i int) {
	b := fmt.Sprintf("%-255s\n", fmt.Sprintf("%s %d", g, i))
	f, err := os.OpenFile(filepath.Join(r.out, fmt.Sprintf("cur.%d", r.shard)), os.O_CREATE|os.O_WRONLY, 0o644)
	if err == nil {
		f.WriteAt([]byte(b), 0)
		f.Close()
	}
}

// Violate reports that the property is broken in this case.
func (c *Case) Violate(format string, args ...any) { c.ViolateKey("", format, args...) }

// ViolateKey also names the specific input or call site (matched against the known findings).
func (c *Case) ViolateKey(key, format string, args ...any) {
	c.nviol.Add(1)
	r := c.run
	msg := fmt.Sprintf(format, args...)
	if len(msg) > 6000 {
		msg = msg[:6000] + "..."
	}
	r.mu.Lock()
	r.nviol++
	n := r.nviol
	if n == 1 {
		r.firstViol = time.Now()
	}
	r.mu.Unlock()
	if n > 50 {
		return
	}
	r.append("viol", violation{r.prop, c.Group, c.I, r.seed, r.tier, key, msg})
	if n == 1 {
		fmt.Printf("--- violation %s %s/%d: %s\n", r.prop, c.Group, c.I, msg)
	}
}

func (r *runner) append(kind string, v any) {
	b, _ := json.Marshal(v)
	f, err := os.OpenFile(filepath.Join(r.out, fmt.Sprintf("%s.%d", kind, r.shard)), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err == nil {
		f.Write(append(b, '\n'))
		f.Close()
	}
}

// Failed tells whether this case already has a violation.
func (c *Case) Failed() bool { return c.nviol.Load() > 0 }

// Sig adds to the case's signature; two cases with equal signatures count once as distinct.
// A case without a signature is trivial.
func (c *Case) Sig(parts ...any) {
	c.run.mu.Lock()
	c.sig = append(c.sig, fmt.Sprint(parts...))
	c.run.mu.Unlock()
}

// Count adds to a named counter of observed events.
func (c *Case) Count(name string, n int) {
	c.run.mu.Lock()
	c.run.counts[name] += int64(n)
	c.run.mu.Unlock()
}

// Max keeps the maximum of a named observation.
func (c *Case) Max(name string, n int) {
	c.run.mu.Lock()
	if c.run.counts["max_"+name] < int64(n) {
		c.run.counts["max_"+name] = int64(n)
	}
	c.run.mu.Unlock()
}

// Sample records a case in the evidence (a few per process).
func (c *Case) Sample(v any) {
	c.run.mu.Lock()
	if len(c.run.samples) < 3 {
		c.run.samples = append(c.run.samples, map[string]any{"group": c.Group, "case": c.I, "what": v})
	}
	c.run.mu.Unlock()
}

// Dir is a scratch directory of this case, removed when the case ends.
func (c *Case) Dir() string {
	if c.dir == "" {
		d, err := os.MkdirTemp(c.run.out, "case")
		if err != nil {
			panic(err)
		}
		c.dir = d
	}
	return c.dir
}

func (r *runner) finish(total int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	sigs := make([]string, 0, len(r.sigs))
	for s := range r.sigs {
		sigs = append(sigs, strconv.FormatUint(s, 36))
	}
	sort.Strings(sigs)
	r.append("stats", map[string]any{
		"evals": r.evals, "sigs": sigs, "counts": r.counts, "samples": r.samples,
		"violations": r.nviol, "wall_s": time.Since(r.started).Seconds(), "total_cases": total,
	})
}

// ---------------------------------------------------------------------------------------------------
// stuck executions

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() >> 20
}

func stacks() string {
	b := make([]byte, 4<<20)
	return string(b[:runtime.Stack(b, true)])
}

// relevant splits a goroutine dump into those goroutines that run code under test or a case.
func relevant(dump string) (out []string) {
	for _, g := range strings.Split(dump, "\n\n") {
		if strings.Contains(g, "mon.(*runner).watchdog") {
			continue
		}
		if strings.HasPrefix(state(g), "IO wait") && !strings.Contains(g, SUT) {
			continue // idle connections and listeners of the harness's own servers
		}
		if strings.Contains(g, SUT) || strings.Contains(g, "vh/") {
			out = append(out, g)
		}
	}
	return
}

func state(g string) string {
	i, j := strings.Index(g, "["), strings.Index(g, "]")
	if i < 0 || j < i {
		return "?"
	}
	return strings.Split(g[i+1:j], ",")[0]
}

func blocked(s string) bool {
	for _, p := range []string{"chan ", "select", "semacquire", "sync.", "waitgroup", "synctest"} {
		if strings.HasPrefix(strings.ToLower(s), p) {
			return true
		}
	}
	return false
}

func strip(g string) string { // ignore waiting times in headers
	if i := strings.Index(g, "\n"); i >= 0 {
		h := strings.Fields(g[:i])
		if len(h) >= 2 {
			return h[1] + state(g) + g[i:]
		}
	}
	return g
}

// watchdog decides what a case is that does not complete: a deadlock (every goroutine of the case is
// blocked on in-process synchronisation and nothing changes), a livelock (code under test has been burning
// CPU far beyond any normal case) or neither (inconclusive).
func (r *runner) watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		r.mu.Lock()
		c, st, lim, cpu0 := r.cur, r.curStart, r.stuckSec, r.cpu0
		r.mu.Unlock()
		if c == nil {
			continue
		}
		if mb := rssMB(); mb > 3000 {
			d := relevant(stacks())
			for _, g := range d {
				if strings.Contains(g, SUT) {
					c.ViolateKey("memory", "%d MB of memory in use on a bounded input\n%s", mb, strings.Join(d, "\n\n"))
					r.finish(0)
					fmt.Println("watchdog: runaway memory in", c.Group, c.I)
					os.Exit(4)
				}
			}
		}
		if time.Since(st) < time.Duration(lim)*time.Second {
			continue
		}
		no := atomic.LoadInt64(&r.caseNo)
		var dumps [][]string
		for k := 0; k < 3; k++ {
			dumps = append(dumps, relevant(stacks()))
			time.Sleep(2 * time.Second)
		}
		if atomic.LoadInt64(&r.caseNo) != no {
			continue
		}
		same, all, sut := true, true, false
		for k, d := range dumps {
			for i, g := range d {
				if !blocked(state(g)) {
					all = false
				}
				if strings.Contains(g, SUT) {
					sut = true
				}
				if k > 0 && (i >= len(dumps[0]) || strip(dumps[0][i]) != strip(g)) {
					same = false
				}
			}
			if len(d) != len(dumps[0]) {
				same = false
			}
		}
		spinning := true
		for _, d := range dumps {
			found := false
			for _, g := range d {
				if !blocked(state(g)) && strings.Contains(g, SUT) {
					found = true
				}
			}
			spinning = spinning && found
		}
		burnt := cpuTime() - cpu0
		switch {
		case same && all && sut:
			c.ViolateKey("deadlock", "deadlock: every goroutine of the case is blocked\n%s", strings.Join(dumps[0], "\n\n"))
		case spinning && burnt > time.Duration(lim)*time.Second/2:
			c.ViolateKey("livelock", "no end after %v of CPU time on a bounded input\n%s", burnt, strings.Join(dumps[0], "\n\n"))
		default:
			r.append("inconclusive", map[string]any{"group": c.Group, "case": c.I,
				"why":    fmt.Sprintf("no progress for %v, not provably stuck (cpu %v)", time.Since(st), burnt),
				"stacks": strings.Join(dumps[0], "\n\n")})
		}
		r.finish(0)
		fmt.Println("watchdog: giving up on", c.Group, c.I)
		os.Exit(4)
	}
}

// Choose returns one of the options.
func Choose[T any](r *rand.Rand, xs ...T) T { return xs[r.IntN(len(xs))] }

// Range returns a number in [lo, hi].
func Range(r *rand.Rand, lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + r.IntN(hi-lo+1)
}

// Quote shortens binary data for messages.
func Quote(b []byte) string {
	if len(b) > 160 {
		return fmt.Sprintf("%q...(%d bytes)", b[:160], len(b))
	}
	return fmt.Sprintf("%q", b)
}

// FirstDiff describes where two byte strings differ.
func FirstDiff(got, want []byte) string {
	n := min(len(got), len(want))
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			return fmt.Sprintf("length %d/%d, first difference at %d (got %#x want %#x)", len(got), len(want), i, got[i], want[i])
		}
	}
	return fmt.Sprintf("length got %d want %d, equal up to the shorter", len(got), len(want))
}

// Stack returns the current stack.
func Stack() string { return string(debug.Stack()) }
