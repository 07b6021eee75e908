package hproc

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"vsa/benchmarks"
	"vsa/internal/zzverif/kit"
)

// ---- C32 ----

var (
	benchHead    = regexp.MustCompile(`(?m)^Variant: (\w+)  Ops: (\d+)  Goroutines: (\d+)  Keys: (\d+)  Churn: (\d+)%$`)
	benchWrites  = regexp.MustCompile(`(?m)^Writes: logical=(\S+) \(\S+/sec\), dbCalls=(\S+) \(`)
	benchBucket  = regexp.MustCompile(`(?m)^  (\S.*): (\d+)$`)
	benchNet     = regexp.MustCompile(`(?m)^VSA \|A_net\| total: max=(\S+) avg=(\S+) final=(\S+) `)
	benchCommits = regexp.MustCompile(`(?m)^VSA commits: (?:total=(\d+)|none)`)
)

func number(s string) int64 {
	n, err := strconv.ParseInt(strings.ReplaceAll(s, ",", ""), 10, 64)
	if err != nil {
		return math.MinInt64
	}
	return n
}

// bench runs the benchmark harness and compares the numbers it reports with its settings and with one another.
func bench(c *kit.C) {
	variant := kit.Pick(c, "vsa", "vsa", "vsa", "atomic", "batch", "batch", "crdt", "token", "leaky")
	ops, workers, keys := c.Range(1, 4000), c.Range(1, 24), c.Range(1, 40)
	if c.Pct(10) {
		ops = c.Range(10000, 100000)
	}
	churn := kit.Pick(c, 0, 0, 50, 100, 25, 99)
	threshold, maxAge := int64(kit.Pick(c, 1, 2, 3, 8, 64, 500)), kit.Pick(c, 0, time.Millisecond, 15*time.Millisecond)
	batch, replicas := kit.Pick(c, 1, 2, 64, 7, 1000, 300), c.Range(1, 6)
	delay := time.Duration(0)
	if c.Pct(30) {
		delay = c.Dur(10*time.Microsecond, 2*time.Millisecond)
		ops = min(ops, 300)
	}
	duration := time.Duration(0)
	if c.Pct(15) {
		duration = c.Dur(time.Millisecond, 60*time.Millisecond)
	}
	sample, maxLat := kit.Pick(c, 1, 1, 2, 10, 0), kit.Pick(c, 200000, 200000, 1000, 10, 0)
	interval := c.Dur(500*time.Microsecond, 10*time.Millisecond)
	args := []string{"-variant=" + kit.Pick(c, variant, strings.ToUpper(variant)), fmt.Sprint("-ops=", ops), fmt.Sprint("-goroutines=", workers), fmt.Sprint("-keys=", keys), fmt.Sprint("-churn=", churn),
		fmt.Sprint("-seed=", c.IntN(1<<30)), fmt.Sprint("-threshold=", threshold), fmt.Sprint("-commit_interval=", interval), fmt.Sprint("-commit_max_age=", maxAge), fmt.Sprint("-batch_size=", batch),
		fmt.Sprint("-batch_interval=", interval), fmt.Sprint("-replicas=", replicas), fmt.Sprint("-merge_interval=", interval), fmt.Sprint("-write_delay=", delay), fmt.Sprint("-duration=", duration),
		fmt.Sprint("-sample_every=", sample), fmt.Sprint("-max_latency_samples=", maxLat)}
	c.Desc("%v", args)
	cmd := exec.Command(os.Getenv("VERIF_BIN_harness"), args...)
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", kit.Pick(c, 1, 2, 8)))
	b, err := cmd.CombinedOutput()
	out := string(b)
	if err != nil {
		c.Fail("it ended with %v: %s", err, tail(out, 1000))
		return
	}
	h, w := benchHead.FindStringSubmatch(out), benchWrites.FindStringSubmatch(out)
	sum := map[string]string{}
	for _, l := range strings.Split(out, "\n") {
		if f, ok := strings.CutPrefix(l, "Summary: "); ok {
			for _, kv := range strings.Fields(f) {
				k, v, _ := strings.Cut(kv, "=")
				sum[k] = v
			}
		}
	}
	if h == nil || w == nil || len(sum) == 0 {
		c.Fail("no report: %s", tail(out, 1000))
		return
	}
	get := func(k string) int64 { return number(sum[k]) }
	done, logical, calls := get("ops"), get("logical_writes"), get("db_calls")
	bad := func(f string, a ...any) { c.Fail("%s\n%s", fmt.Sprintf(f, a...), tail(out, 2000)) }
	if sum["variant"] != variant || h[1] != variant || get("goroutines") != int64(workers) || number(h[3]) != int64(workers) || get("keys") != int64(keys) || number(h[4]) != int64(keys) ||
		get("churn_pct") != int64(churn) || number(h[5]) != int64(churn) || get("write_delay_ns") != int64(delay) {
		bad("settings reported differently")
	}
	if number(h[2]) != done || number(w[1]) > logical || number(w[2]) > calls {
		bad("the report and its summary line differ")
	}
	if duration == 0 {
		// every worker does an equal share
		if want := int64(ops / workers * workers); done != want {
			bad("%d operations, want %d", done, want)
		}
	} else if get("duration_ns") < int64(duration) {
		bad("ran %d ns, less than %v", get("duration_ns"), duration)
	} else {
		c.Label("runs by duration")
	}
	p50, p95, p99 := get("p50_ns"), get("p95_ns"), get("p99_ns")
	if p50 < 0 || p50 > p95 || p95 > p99 || p99 > get("duration_ns") {
		bad("percentiles")
	}
	var hist int64
	lat := out[strings.Index(out, "Latency histogram"):strings.Index(out, "\nWrites: ")]
	for _, m := range benchBucket.FindAllStringSubmatch(lat, -1) {
		hist += number(m[2])
	}
	if duration == 0 {
		every := max(sample, 1)
		per := ops / workers
		want := int64(workers * ((per + every - 1) / every))
		if maxLat == 0 {
			want = 0
		} else {
			want = min(want, int64(maxLat))
		}
		if hist != want {
			bad("%d samples in the histogram, want %d", hist, want)
		}
	}
	if delay > 0 && (variant == "atomic" || variant == "crdt") && sample <= 1 && maxLat != 0 && done > 0 && p50 < int64(delay) {
		bad("half of the operations took less than a write")
	}
	switch variant {
	case "atomic":
		if logical != done || calls != done {
			bad("atomic: every operation is one write")
		}
	case "token", "leaky":
		if logical != done || calls != 2*done {
			bad("every operation is one read and one write")
		}
	case "crdt":
		merges := calls - done
		if logical != done || merges < 0 || merges > int64(replicas)*((get("duration_ns")+int64(10*time.Second))/int64(interval)+2) {
			bad("crdt: every operation is one write; merges are further calls")
		}
	case "batch":
		if logical > done || logical < done-2*int64(batch) || calls*int64(batch) < logical || calls > logical+1 {
			bad("batch: every operation is written, but for what is still buffered")
		} else if logical < done {
			c.FailAs("harness-batch-before-flush", "%d of %d operations written: the report does not wait for the final flush", logical, done)
		}
	case "vsa":
		n, k := benchNet.FindStringSubmatch(out), benchCommits.FindStringSubmatch(out)
		if n == nil || k == nil {
			bad("no counters of the accumulator")
			return
		}
		commits := int64(0)
		if k[1] != "" {
			commits = number(k[1])
		}
		// a commit may happen between two lines of the report, and a further one per key be on its way
		if calls < logical || calls > logical+int64(keys) || logical > done || commits < number(w[1])-int64(keys) || commits > done {
			bad("%d commits, %d writes, %d operations", commits, logical, done)
		}
		if peak := number(n[1]); peak < 0 || peak > done || number(n[2]) > peak {
			bad("net of %s, %s on average, after %d operations", n[1], n[2], done)
		}
		if churn%100 == 0 && logical == 0 && number(n[3]) != done && number(n[3]) != 0 {
			bad("%d operations in one direction, none committed, and a final net of %s", done, n[3])
		} else if churn%100 == 0 && logical == 0 && number(n[3]) != done {
			c.FailAs("harness-final-before-flush", "%d operations in one direction, none committed, and a final net of %s: the report does not wait for the final flush", done, n[3])
		}
		if churn%100 == 0 && maxAge == 0 {
			if logical*threshold > done {
				bad("%d commits of at least %d after %d operations", logical, threshold, done)
			}
			c.Label("commits bounded by the threshold")
		}
	}
	c.Label(variant)
	c.Events(done)
	c.Hash(variant, done, workers, keys, churn, logical, calls)
}

// baseline drives the atomic limiter that the counter is compared with.
func baseline(c *kit.C) {
	budget := int64(kit.Pick(c, 0, 1, 5, 100, 1000))
	l := benchmarks.NewAtomicLimiter(budget)
	var taken, back atomic.Int64
	var wg sync.WaitGroup
	for range c.Range(1, 8) {
		r := c.Sub()
		wg.Add(1)
		go func() {
			defer wg.Done()
			held := int64(0)
			for range 200 {
				n := int64(r.IntN(8)) - 1
				switch {
				case r.IntN(3) > 0:
					ok := l.TryConsume(n)
					if ok && n <= 0 {
						c.Fail("consumed %d", n)
					}
					if ok {
						held += n
						taken.Add(n)
					}
				case n <= held:
					l.Refund(n)
					if n > 0 {
						held -= n
						back.Add(n)
					}
				}
				if a := l.Available(); a < 0 || a > budget {
					c.Fail("%d available, budget %d", a, budget)
				}
			}
		}()
	}
	wg.Wait()
	if got, want := l.Available(), budget-taken.Load()+back.Load(); got != want {
		c.Fail("%d available, want %d", got, want)
	}
	if budget > 0 && l.TryConsume(l.Available()+1) {
		c.Fail("more consumed than available")
	}
	c.Label("limiter totals")
	c.Events(taken.Load())
	c.Hash(budget, taken.Load(), back.Load())
}

func TestC32(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C32", kit.Part{Name: "run", Share: 0.8, Fn: bench, CPU: 10 * time.Minute}, kit.Part{Name: "limiter", Share: 0.2, Fn: baseline})
}
