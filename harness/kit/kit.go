// Package kit is what every harness shares: seeded cases, bubbles, watchdog, and the record of
// what the monitors observed.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"vsa/internal/zzverif/xpoint"
)

// Violation is one refuted property on one case.
type Violation struct {
	Property string   `json:"property"`
	Part     string   `json:"part"`
	Case     int      `json:"case"`
	Msg      string   `json:"msg"`
	Finding  string   `json:"finding,omitempty"` // stable id of what fails, for known findings
	Log      []string `json:"log"`
}

type result struct {
	Property   string            `json:"property"`
	Part       string            `json:"part"`
	Done       bool              `json:"done"`
	Cases      int               `json:"cases"`
	Trivial    int               `json:"trivial"`
	Events     int64             `json:"events"`
	Points     int64             `json:"points"`
	Delays     int64             `json:"delays"`
	Labels     map[string]int64  `json:"labels"`
	Hashes     []uint64          `json:"hashes"`
	Samples    []string          `json:"samples"`
	Violations []Violation       `json:"violations"`
	Notes      map[string]string `json:"notes"`
	Inconcl    int               `json:"inconclusive"`
	Cut        bool              `json:"cut"` // the time allowed ran out first
}

// Out is the log; harnesses may point os.Stdout elsewhere to quieten the code under test.
var Out = os.Stdout

// Quiet discards what the code under test prints.
func Quiet() {
	if f, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = f
	}
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

var (
	Seed   = envInt("VERIF_SEED", 1)
	Shard  = envInt("VERIF_SHARD", 0)
	Shards = envInt("VERIF_SHARDS", 1)
	Cases  = envInt("VERIF_CASES", 100)
	Replay = envInt("VERIF_REPLAY", -1)
	OutDir = os.Getenv("VERIF_OUT")
	Prop   = os.Getenv("VERIF_PROP")
)

// Thorough tells the tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// C is one case.
type C struct {
	*rand.Rand
	T     *testing.T
	Index int
	res   *result
	mu    sync.Mutex
	log   []string
	fails []Violation
	hash  uint64
	triv  bool
	inc   bool
	desc  string
	tick  int64
	ev    int64
	lab   map[string]int64
	start time.Time
	// Only, if set, is how the messages of violations start that count.
	Only string
}

// Logf adds a line to the case's log (kept: the first 400 and the last 400).
func (c *C) Logf(f string, a ...any) {
	c.mu.Lock()
	if len(c.log) < 4000 {
		c.log = append(c.log, fmt.Sprintf(f, a...))
	}
	c.mu.Unlock()
}

// Fail records a violation. The first one per case counts.
func (c *C) Fail(f string, a ...any) { c.FailAs("", f, a...) }

// FailAs is Fail with a stable id of the finding.
func (c *C) FailAs(id, f string, a ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.Only != "" && !strings.HasPrefix(f, c.Only) {
		return
	}
	if len(c.fails) < 3 {
		c.fails = append(c.fails, Violation{Msg: fmt.Sprintf(f, a...), Finding: id})
	}
}

// Failed tells whether the case already has a violation.
func (c *C) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return len(c.fails) > 0 }

// Label counts something the monitors saw.
func (c *C) Label(l string) { c.LabelN(l, 1) }
func (c *C) LabelN(l string, n int64) {
	c.mu.Lock()
	c.lab[l] += n
	c.mu.Unlock()
}

// Events counts observed events.
func (c *C) Events(n int64) { c.mu.Lock(); c.ev += n; c.mu.Unlock() }

// Hash folds a value into the case's signature; cases with equal signatures count once.
func (c *C) Hash(a ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, a...)
	c.mu.Lock()
	c.hash = c.hash*1099511628211 ^ h.Sum64()
	c.mu.Unlock()
}

// Trivial marks the case as not having exercised what the property is about.
func (c *C) Trivial() { c.mu.Lock(); c.triv = true; c.mu.Unlock() }

// Inconclusive marks a case whose checker gave up.
func (c *C) Inconclusive() { c.mu.Lock(); c.inc = true; c.mu.Unlock() }

// Desc describes the case for samples.
func (c *C) Desc(f string, a ...any) {
	c.mu.Lock()
	if c.desc == "" {
		c.desc = fmt.Sprintf(f, a...)
	}
	c.mu.Unlock()
}

// Redesc replaces the description.
func (c *C) Redesc(f string, a ...any) {
	c.mu.Lock()
	c.desc = fmt.Sprintf(f, a...)
	c.mu.Unlock()
}

// Tick is a total order of the observed events.
func (c *C) Tick() int64 { c.mu.Lock(); defer c.mu.Unlock(); c.tick++; c.ev++; return c.tick }

// Pct is true with probability p percent.
func (c *C) Pct(p int) bool { return c.IntN(100) < p }

// Range is lo..hi inclusive.
func (c *C) Range(lo, hi int) int { return lo + c.IntN(hi-lo+1) }

// I64 is lo..hi inclusive.
func (c *C) I64(lo, hi int64) int64 { return lo + c.Int64N(hi-lo+1) }

// Dur is lo..hi inclusive.
func (c *C) Dur(lo, hi time.Duration) time.Duration {
	return time.Duration(c.I64(int64(lo), int64(hi)))
}

// Pick returns one of the values.
func Pick[T any](c *C, v ...T) T { return v[c.IntN(len(v))] }

// Long is a string longer than something may have room for; what is appended to it still tells strings apart.
func Long(r *rand.Rand) string {
	n := []int{60, 130, 260, 520, 1030, 2050, 4100, 9000, 20000}[r.IntN(9)]
	if r.IntN(8) == 0 {
		n = 66000
	}
	return strings.Repeat("long", n/4)
}

// Twist returns a string that something which trims, folds case, decodes or cuts might take for s.
func Twist(r *rand.Rand, s string) string {
	switch r.IntN(12) {
	case 0:
		return s + " "
	case 1:
		return " " + s
	case 2:
		return s + "\n"
	case 3:
		return strings.ToUpper(s)
	case 4:
		return strings.ToLower(s)
	case 5:
		return s + "/"
	case 6:
		return s + "\x00"
	case 7:
		return "\t" + s
	case 8:
		return s + "\u0301"
	case 9:
		return "0" + s
	case 10:
		return s + "%20"
	default:
		return s + s
	}
}

// Sub returns an independent generator, for use by another goroutine.
func (c *C) Sub() *rand.Rand { return rand.New(rand.NewPCG(c.Uint64(), c.Uint64())) }

// Go runs f on a goroutine of wg; a panic is a violation.
func (c *C) Go(wg *sync.WaitGroup, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		defer func() {
			if r := recover(); r != nil {
				c.Fail("panic: %v\n%s", r, debug.Stack())
			}
		}()
		f()
	}()
}

// Guard calls f; a panic is a violation.
func (c *C) Guard(what string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic in %s: %v\n%s", what, r, debug.Stack())
		}
	}()
	f()
}

// Delays draws an injection setting: from none over many tiny delays to few long ones.
func (c *C) Delays() xpoint.Config {
	d := c.delays()
	d.Gaps = c.Pct(25)
	return d
}

func (c *C) delays() xpoint.Config {
	switch c.IntN(6) {
	case 0:
		return xpoint.Config{P: 0.5, Max: 20}
	case 1:
		return xpoint.Config{P: 0.15, Max: 1000}
	case 2:
		return xpoint.Config{P: 0.05, Max: 100 * time.Microsecond}
	case 3:
		return xpoint.Config{P: 0.3, Max: 4, LongGap: int64(c.Range(5, 60)), LongMax: 2 * time.Microsecond}
	case 4:
		return xpoint.Config{P: 0.1, Max: 3, LongGap: int64(c.Range(20, 400)), LongMax: time.Millisecond}
	default:
		return xpoint.Config{P: 0.9, Max: 3}
	}
}

// Bubble runs f in virtual time with delay injection. Everything f starts must end with it:
// goroutines left behind and deadlocks are reported as violations, unless hang handles them.
func (c *C) Bubble(d xpoint.Config, f func()) {
	err := c.TryBubble(d, f)
	if err != "" {
		c.Fail("%s", err)
	}
}

// TryBubble is Bubble, returning the deadlock or leak report.
func (c *C) TryBubble(d xpoint.Config, f func()) (report string) {
	defer func() {
		p, n := xpoint.Stop()
		c.mu.Lock()
		c.res.Points += p
		c.res.Delays += n
		c.mu.Unlock()
		if r := recover(); r != nil {
			report = fmt.Sprintf("%v", r)
			if strings.Contains(report, "deadlock") || strings.Contains(report, "blocked goroutines") {
				buf := make([]byte, 1<<18)
				report += "\n" + trimStacks(string(buf[:runtime.Stack(buf, true)]))
			} else {
				report += "\n" + string(debug.Stack())
			}
		}
	}()
	seed := c.Uint64()
	synctest.Test(c.T, func(t *testing.T) {
		xpoint.Start(seed, d)
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Fail("panic: %v\n%s", r, debug.Stack())
				}
			}()
			f()
		}()
		// Virtual time stops when this function returns: let delays that are still
		// running end first, so that only goroutines that do not end are left.
		xpoint.Stop2()
		time.Sleep(20 * time.Millisecond)
	})
	return ""
}

func trimStacks(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "synctest") && !strings.Contains(g, "kit.trim") && len(out) < 12 {
			out = append(out, g)
		}
	}
	return strings.Join(out, "\n\n")
}

func cpu() time.Duration {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Part is one workload of a property.
type Part struct {
	Name  string
	Share float64 // of VERIF_CASES; 0 means 1
	Fn    func(*C)
	// CPU is the processor time after which one case counts as hung (default 60s).
	CPU time.Duration
}

// Run executes this shard's cases of each part and writes result files.
func Run(t *testing.T, prop string, parts ...Part) {
	if Prop != "" && Prop != prop {
		t.Skip()
	}
	only := os.Getenv("VERIF_PART")
	until := time.Unix(int64(envInt("VERIF_UNTIL", 1<<40)), 0)
	for i, p := range parts {
		if only != "" && only != p.Name {
			continue
		}
		now := time.Now()
		left := max(until.Sub(now), time.Second)
		runPart(t, prop, p, now.Add(left/time.Duration(len(parts)-i)))
	}
}

func runPart(t *testing.T, prop string, p Part, until time.Time) {
	res := &result{Property: prop, Part: p.Name, Labels: map[string]int64{}, Notes: map[string]string{}}
	hashes := map[uint64]bool{}
	var hashMu sync.Mutex
	write := func(done bool) {
		if OutDir == "" {
			return
		}
		hashMu.Lock()
		defer hashMu.Unlock()
		res.Done = done
		res.Hashes = res.Hashes[:0]
		for h := range hashes {
			res.Hashes = append(res.Hashes, h)
		}
		sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
		b, _ := json.Marshal(res)
		f := filepath.Join(OutDir, fmt.Sprintf("%s-%s-%d.json", prop, p.Name, Shard))
		_ = os.WriteFile(f+".tmp", b, 0o644)
		_ = os.Rename(f+".tmp", f)
	}
	marker := ""
	if OutDir != "" {
		marker = filepath.Join(OutDir, fmt.Sprintf("current-%d", Shard))
	}
	n := Cases
	if p.Share > 0 {
		n = int(float64(Cases)*p.Share + 0.5)
		if n < Shards {
			n = Shards
		}
	}
	limit := p.CPU
	if limit == 0 {
		limit = 60 * time.Second
	}
	var cur struct {
		sync.Mutex
		c   *C
		cpu time.Duration
		at  time.Time
	}
	stop := make(chan struct{})
	defer close(stop)
	go func() { // watchdog, outside any bubble
		for {
			select {
			case <-stop:
				return
			case <-time.After(200 * time.Millisecond):
			}
			cur.Lock()
			c, c0, at := cur.c, cur.cpu, cur.at
			cur.Unlock()
			if c == nil {
				continue
			}
			used := cpu() - c0
			if used < limit && time.Since(at) < 5*limit {
				continue
			}
			buf := make([]byte, 1<<20)
			st := string(buf[:runtime.Stack(buf, true)])
			res.Violations = append(res.Violations, Violation{Property: prop, Part: p.Name, Case: c.Index,
				Msg: fmt.Sprintf("hang: one case used %v of processor time in %v (they take milliseconds)", used, time.Since(at)),
				Log: append([]string{c.desc}, strings.Split(st, "\n")...)})
			write(true)
			os.Exit(3)
		}
	}()
	for i := Shard; i < n; i += Shards {
		if Replay >= 0 && i != Replay {
			continue
		}
		if Replay < 0 && time.Now().After(until) {
			res.Cut = true
			break
		}
		if marker != "" {
			_ = os.WriteFile(marker, []byte(fmt.Sprintf("%s %s %d", prop, p.Name, i)), 0o644)
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%s/%d/%d", prop, p.Name, Seed, i)
		c := &C{Rand: rand.New(rand.NewPCG(h.Sum64(), uint64(i))), T: t, Index: i, res: res, lab: map[string]int64{}, start: time.Now()}
		cur.Lock()
		cur.c, cur.cpu, cur.at = c, cpu(), time.Now()
		cur.Unlock()
		c.Guard("case", func() { p.Fn(c) })
		cur.Lock()
		cur.c = nil
		cur.Unlock()
		c.mu.Lock()
		res.Cases++
		res.Events += c.ev
		for l, k := range c.lab {
			res.Labels[l] += k
		}
		if c.inc {
			res.Inconcl++
		}
		if c.triv {
			res.Trivial++
		} else {
			hashMu.Lock()
			hashes[c.hash] = true
			hashMu.Unlock()
			if c.desc != "" && len(res.Samples) < 2 {
				res.Samples = append(res.Samples, c.desc)
			}
		}
		if Replay >= 0 {
			fmt.Fprintln(Out, "case", i, c.desc)
			for _, l := range c.log {
				fmt.Fprintln(Out, "   ", l)
			}
		}
		for _, v := range c.fails {
			v.Property, v.Part, v.Case = prop, p.Name, i
			l := c.log
			if len(l) > 800 {
				l = append(append(append([]string{}, l[:400]...), "..."), l[len(l)-400:]...)
			}
			v.Log = append([]string{c.desc}, l...)
			res.Violations = append(res.Violations, v)
		}
		c.mu.Unlock()
		real := 0
		for _, v := range res.Violations {
			if v.Finding == "" {
				real++
			}
		}
		if real >= 2 {
			break
		}
	}
	write(true)
	if marker != "" {
		_ = os.Remove(marker)
	}
	for _, v := range res.Violations {
		fmt.Fprintf(Out, "violation %s/%s case %d: %s\n", v.Property, v.Part, v.Case, v.Msg)
	}
}

// Note records a measured fact for the evidence.
func (c *C) Note(k, v string) { c.mu.Lock(); c.res.Notes[k] = v; c.mu.Unlock() }
