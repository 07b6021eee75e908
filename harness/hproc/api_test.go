package hproc

import (
	"fmt"
	"net/url"
	"regexp"
	"slices"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"vsa/internal/zzverif/hpersist"
	"vsa/internal/zzverif/kit"
)

var persisted = regexp.MustCompile(`(?m)KEY:\s*(\S+)\s+VECTOR:\s*(-?\d+)\s*$`)

// ---- C12 ----

func shutdown(c *kit.C) {
	limit := kit.Pick(c, int64(3), 40, 1000, 1000000)
	threshold := kit.Pick(c, int64(1), 2, 10, 50, 1000000)
	interval := kit.Pick(c, "1ms", "5ms", "20ms", "1h", "1h")
	maxAge := kit.Pick(c, "0s", "0s", "10ms", "1h")
	low := kit.Pick(c, int64(0), 0, 1, 5)
	evict := c.Pct(12)
	exact := interval == "1h" && !evict // nothing is folded before the end: every release gives back
	args := []string{
		fmt.Sprintf("-rate_limit=%d", limit), fmt.Sprintf("-commit_threshold=%d", threshold), fmt.Sprintf("-commit_low_watermark=%d", low),
		"-commit_interval=" + interval, "-commit_max_age=" + maxAge,
	}
	if evict {
		args = append(args, "-eviction_age=1s", "-eviction_interval=20ms")
	}
	switch c.IntN(7) {
	case 0:
		args = append(args, fmt.Sprintf("-vsa_stripes=%d", kit.Pick(c, 1, 8, 64)), "-vsa_cheap_update_chooser")
	case 1:
		args = append(args, "-vsa_per_p_update_chooser")
	case 2:
		args = append(args, "-vsa_use_cached_gate", fmt.Sprintf("-vsa_cache_slack=%d", kit.Pick(c, 0, 2)))
	case 3:
		args = append(args, "-vsa_group_count=4", fmt.Sprintf("-vsa_fast_path_guard=%d", kit.Pick(c, 1, 64)))
	case 4:
		args = append(args, "-vsa_hierarchical_groups=4")
	}
	if c.Pct(25) {
		args = append(args, "-churn_metrics", "-churn_log_interval="+kit.Pick(c, "0s", "5ms"), fmt.Sprintf("-churn_sample=%v", kit.Pick(c, 1.0, 0.5)))
	}
	nkeys := kit.Pick(c, 1, 1, 3, 20)
	many := c.Pct(10)
	if many {
		nkeys = kit.Pick(c, 300, 1500, 3000)
	}
	if many && slices.Contains(args, "-vsa_use_cached_gate") {
		args = append(args, "-vsa_cache_interval=20ms") // a refresher every 100us for each of so many keys leaves no processor time for anything else
	}
	var stopping atomic.Bool
	var srv *hpersist.Server
	faulty := false
	if c.Pct(60) {
		slow := kit.Pick(c, 0, 0, 0, 1, 5, 30)
		// A batch of several entries may be half applied when it fails, which the bridge's fresh ids turn into
		// a repeat (a documented limit); so calls are refused only where every batch has one entry.
		faulty = nkeys == 1 && c.Pct(50)
		r, mu := c.Sub(), sync.Mutex{}
		var err error
		srv, err = hpersist.Serve(func() string {
			mu.Lock()
			n, f := r.IntN(slow+1), r.IntN(100) < 40
			mu.Unlock()
			if n > 0 {
				time.Sleep(time.Duration(n) * time.Millisecond)
			}
			if faulty && f && !stopping.Load() {
				return "error"
			}
			return ""
		})
		if err != nil {
			panic(err)
		}
		defer srv.Stop()
		args = append(args, "-persistence_adapter=redis", "-redis_addr="+srv.Addr)
	}
	c.Desc("%v", args)
	p := launchStalled(c, sometimes(c), "ratelimiter-api", "-http_addr", args...)
	if p == nil {
		return
	}
	defer p.kill()
	keys := make([]string, nkeys)
	for i := range keys {
		keys[i] = fmt.Sprintf("key%d-%d", i, c.Index)
		if srv != nil && c.Pct(30) {
			keys[i] = kit.Pick(c, "a b", "ü", "a/b?c&d=e", "\x00", "%41", "counter:", "{x}") + strconv.Itoa(i)
		}
		if srv != nil && i > 0 && c.Pct(10) {
			if k := kit.Twist(c.Rand, keys[i-1]); !slices.Contains(keys[:i], k) {
				keys[i] = k
			}
		}
	}
	var seen census
	nc := c.Range(1, 8)
	relPct := kit.Pick(c, 0, 0, 5, 40)
	private := c.Pct(40)
	var signalled atomic.Bool
	var answeredLate, answered atomic.Int64
	var wg sync.WaitGroup
	stopAfter := c.Dur(0, 150*time.Millisecond)
	if evict {
		stopAfter = c.Dur(1200*time.Millisecond, 1800*time.Millisecond)
	}
	if many {
		nc = 8
		stopAfter = c.Dur(150*time.Millisecond, 500*time.Millisecond)
	}
	for i := 0; i < nc; i++ {
		r := c.Sub()
		slowOne := c.Pct(40)
		c.Go(&wg, func() {
			k := &client{addr: p.addr}
			defer k.close()
			held := map[string]int{}
			t0 := time.Now()
			for p.alive() && time.Since(t0) < 100*time.Second {
				if evict && r.IntN(200) == 0 {
					time.Sleep(time.Duration(r.IntN(1500)) * time.Millisecond)
				}
				key := keys[r.IntN(len(keys))]
				if private {
					key = keys[i%len(keys)]
				}
				var pause func()
				if slowOne && r.IntN(30) == 0 {
					pause = func() { time.Sleep(time.Duration(5+r.IntN(200)) * time.Millisecond) }
				}
				q := url.Values{"api_key": {key}}
				if r.IntN(100) < relPct && (!exact || held[key] > 0) {
					a, err := k.do("POST", "/release", q, pause)
					if err == errNotSent {
						if signalled.Load() {
							return
						}
						continue
					}
					held[key]--
					if err != nil {
						seen.at(key, func(e *count) { e.uncertainRel++ })
						continue
					}
					if a.status != 204 {
						c.Fail("release answered %d", a.status)
						return
					}
					seen.at(key, func(e *count) { e.released++ })
					continue
				}
				a, err := k.do("GET", "/check", q, pause)
				if err == errNotSent {
					if signalled.Load() {
						return
					}
					continue
				}
				if err != nil {
					seen.at(key, func(e *count) { e.uncertain++ })
					continue
				}
				answered.Add(1)
				if signalled.Load() {
					answeredLate.Add(1)
				}
				switch a.status {
				case 200:
					held[key]++
					seen.at(key, func(e *count) { e.admitted++ })
				case 429:
					seen.at(key, func(e *count) { e.denied++ })
				default:
					c.Fail("check answered %d", a.status)
					return
				}
			}
		})
	}
	time.Sleep(stopAfter)
	sig := kit.Pick(c, syscall.SIGTERM, syscall.SIGINT)
	stopping.Store(true)
	signalled.Store(true)
	t0 := time.Now()
	if !p.alive() {
		c.Fail("the service ended by itself: %v\n%s", p.err, tail(p.text("err"), 6000))
	}
	_ = p.cmd.Process.Signal(sig)
	if c.Pct(15) {
		time.Sleep(c.Dur(0, 5*time.Millisecond))
		_ = p.cmd.Process.Signal(kit.Pick(c, syscall.SIGTERM, syscall.SIGINT))
		c.Label("signalled twice")
	}
	done := p.wait("shutdown")
	took := time.Since(t0)
	wg.Wait()
	if !done {
		return
	}
	if p.err != nil {
		c.Fail("shutdown after %v: %v\n%s", sig, p.err, tail(p.text("err"), 6000))
	}
	durable := map[string]int64{}
	if srv != nil {
		sc, err := srv.Scalars()
		if err != nil {
			c.Inconclusive()
			return
		}
		for k, v := range sc {
			durable[k] = -v
		}
		c.Label("redis")
	} else {
		for _, m := range persisted.FindAllStringSubmatch(p.text("out"), -1) {
			n, err := strconv.ParseInt(m[2], 10, 64)
			if err != nil {
				c.Fail("persisted vector %q", m[2])
			}
			durable[m[1]] += n
		}
		c.Label("mock")
	}
	var adm int64
	for key, e := range seen.m {
		adm += e.admitted
		lo, hi := e.admitted-e.released-e.uncertainRel, e.admitted+e.uncertain
		if exact {
			hi -= e.released
		}
		if d := durable[key]; d < lo || d > hi {
			c.Fail("key %q: %d admitted, %d released, %d checks and %d releases without answer (releases exact: %v), but %d persisted at exit (%v, %v after the signal)",
				key, e.admitted, e.released, e.uncertain, e.uncertainRel, exact, d, sig, took)
		}
		if !evict && e.released+e.uncertainRel == 0 && e.admitted > limit {
			c.Fail("key %q: %d admitted of a budget of %d", key, e.admitted, limit)
		}
		delete(durable, key)
	}
	for key, d := range durable {
		if d != 0 {
			c.Fail("key %q was never asked for, but %d persisted", key, d)
		}
	}
	c.Events(answered.Load())
	c.LabelN("answered after the signal", answeredLate.Load())
	c.LabelN("answered", answered.Load())
	if faulty {
		c.Label("persister faults")
	}
	if evict {
		c.Label("eviction")
	}
	if many {
		c.LabelN("keys in a large key set", int64(len(seen.m)))
	}
	c.Hash(args[:5], nc, nkeys, adm)
	if adm == 0 {
		c.Trivial()
	}
	c.Redesc("%v; %d clients, %d keys: %d answered, %d after %v, exit in %v", args, nc, nkeys, answered.Load(), answeredLate.Load(), sig, took.Round(time.Millisecond))

}

func TestC12(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C12", kit.Part{Name: "signal", Fn: shutdown, CPU: 10 * time.Minute},
		kit.Part{Name: "boot", Share: 0.2, Fn: boot("ratelimiter-api"), CPU: 10 * time.Minute})
}

// TestC06 runs the same workloads on binaries built with the race detector; only races and crashes count.
func TestC06(t *testing.T) {
	kit.Quiet()
	only := func(f func(*kit.C)) func(*kit.C) {
		return func(c *kit.C) { c.Only = "crash or race"; f(c) }
	}
	kit.Run(t, "C06", kit.Part{Name: "api", Fn: only(shutdown), CPU: 10 * time.Minute}, kit.Part{Name: "proxy", Fn: only(proxy), Share: 0.3, CPU: 10 * time.Minute})
}
