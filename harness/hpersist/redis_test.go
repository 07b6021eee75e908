package hpersist

import (
	"context"
	"errors"
	"fmt"
	"math"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"vsa/internal/ratelimiter/core"
	"vsa/internal/ratelimiter/persistence"
	"vsa/internal/zzverif/kit"
	"vsa/internal/zzverif/xpoint"
)

var plain = os.Getenv("VERIF_PLAIN") == "1"

// hostile names: separators, escapes, empty, non-UTF-8, near-equal.
var names = []string{"a", "b", "a:b", "b:c", "a:", ":b", "", "a%3Ab", "a%3ab", "%", "%25", "counter:a", "commit:a:b", "a b", "A", "é", "\xff\xfe", "\xff", "\xfe", "\ufffd", "a\x00b", "scalar", "{a}", "*",
	"key-with-a-rather-long-name-0123456789-0123456789-0123456789", "'", "\"", "\\", "a\nb"}

// counterKey is where a key's total lives: others read it there.
func counterKey(key string) string { return "counter:" + key }

func rkey(c *kit.C) string {
	if c.Pct(10) {
		return kit.Twist(c.Rand, fmt.Sprintf("k%d", c.IntN(4)))
	}
	if c.IntN(200) == 0 {
		return kit.Long(c.Rand) + fmt.Sprint(c.IntN(3))
	}
	if c.Pct(60) {
		return names[c.IntN(len(names))]
	}
	return fmt.Sprintf("k%d", c.IntN(4))
}

func rid(c *kit.C) string {
	for {
		s := names[c.IntN(len(names))]
		if c.Pct(30) {
			s = fmt.Sprintf("id%d", c.IntN(6))
		} else if c.Pct(20) {
			s += ":" + names[c.IntN(len(names))]
		} else if c.Pct(10) {
			s = kit.Twist(c.Rand, s)
		} else if c.Pct(1) {
			s = kit.Long(c.Rand) + s
		}
		if s != "" {
			return s
		}
	}
}

func rvec(c *kit.C) int64 {
	switch c.IntN(10) {
	case 0:
		return 0
	case 1:
		return kit.Pick(c, int64(math.MaxInt64), math.MinInt64+1, 1<<53, 1<<53+1, -(1<<53 + 1), 1<<62, 123456789012345678, -123456789012345678, math.MaxInt32, 1e15, 1e16+1)
	case 2:
		return int64(c.Uint64() >> uint(c.IntN(64)))
	case 3:
		v := -int64(c.Uint64() >> uint(1+c.IntN(63)))
		return v
	default:
		return c.I64(-20, 100)
	}
}

type ck struct{ key, id string }

// ledger is the model of exactly-once application.
type ledger struct {
	init    map[string]int64 // counters that existed
	applied map[ck]int64
	maybe   map[ck]int64 // attempted, never acknowledged
}

func newLedger() *ledger {
	return &ledger{init: map[string]int64{}, applied: map[ck]int64{}, maybe: map[ck]int64{}}
}

func (l *ledger) want(key string) int64 {
	s := l.init[key]
	for k, v := range l.applied {
		if k.key == key {
			s -= v
		}
	}
	return s
}

func (l *ledger) dirty(key string) bool {
	for k := range l.maybe {
		if k.key == key {
			return true
		}
	}
	return false
}

func scalarOf(d *redisDB, key string) (int64, bool) {
	d.mu.Lock()
	defer d.mu.Unlock()
	h, ok := d.hash[counterKey(key)]
	if !ok {
		return 0, true
	}
	v, ok := h["scalar"]
	if !ok {
		return 0, true
	}
	n, err := redisInt(v)
	return n, err == nil
}

// foreign populates keys and fields that no commit may change, and returns the check.
func foreign(c *kit.C, d *redisDB, keys []string) func() {
	d.str["commit:zz:zz"] = "x"
	d.str["unrelated"] = "41"
	d.hash["unrelated-hash"] = map[string]string{"scalar": "7", "x": "y"}
	d.hash[counterKey("not-mine")] = map[string]string{"scalar": "99"}
	for _, k := range keys {
		h := d.hash[counterKey(k)]
		if h != nil {
			h["other"] = "keep" + k
		}
	}
	ks := append([]string{}, keys...)
	return func() {
		d.mu.Lock()
		defer d.mu.Unlock()
		if d.str["commit:zz:zz"] != "x" || d.str["unrelated"] != "41" || d.hash["unrelated-hash"]["scalar"] != "7" || d.hash["unrelated-hash"]["x"] != "y" ||
			d.hash[counterKey("not-mine")]["scalar"] != "99" {
			c.Fail("a key that belongs to no commit was changed")
		}
		for _, k := range ks {
			ckey := counterKey(k)
			h := d.hash[ckey]
			if h == nil {
				c.Fail("counter %q vanished", k)
				continue
			}
			for f, v := range h {
				if f != "scalar" && (f != "other" || v != "keep"+k) {
					c.Fail("field %q of counter %q is now %q", f, k, v)
				}
			}
			if h["other"] != "keep"+k {
				c.Fail("a foreign field of counter %q was lost", k)
			}
			if _, has := d.exp[ckey]; has {
				c.Fail("counter %q was given an expiry", k)
			}
		}
	}
}

// drawBatch draws entries whose known total stays in range; the same (key, commit id) always has the same vector.
func drawBatch(c *kit.C, ids map[ck]int64, l *ledger) []persistence.CommitEntry {
	var out []persistence.CommitEntry
	n := c.Range(1, 5)
	bulk := c.IntN(400) == 0
	if bulk {
		n = c.Range(100, 1500)
		c.Label("bulk batches")
	}
	for i := 0; i < n; i++ {
		k, id := rkey(c), rid(c)
		if bulk && c.Pct(97) {
			id = fmt.Sprintf("bulk%d-%d", len(ids), i)
		}
		e := ck{k, id}
		v, ok := ids[e]
		if !ok {
			v = rvec(c)
			ids[e] = v
			if v == math.MinInt64 || !fits(l, ids, k) {
				delete(ids, e)
				continue
			}
		}
		var tok *int64
		if c.Pct(20) {
			x := c.I64(0, 5)
			tok = &x
		}
		out = append(out, persistence.CommitEntry{Key: k, Vector: v, CommitID: id, FencingToken: tok})
	}
	return out
}

// fits tells whether every order of applying the known commits keeps the scalar in range.
func fits(l *ledger, ids map[ck]int64, key string) bool {
	pos, neg := float64(0), float64(0)
	for k, v := range ids {
		if k.key == key {
			if v > 0 {
				neg += float64(v)
			} else {
				pos -= float64(v)
			}
		}
	}
	i := float64(l.init[key])
	return i+pos < 9.2e18 && i-neg > -9.2e18
}

func show(es []persistence.CommitEntry) string {
	var b strings.Builder
	for _, e := range es {
		fmt.Fprintf(&b, "(%q,%q,%d)", e.Key, e.CommitID, e.Vector)
	}
	return b.String()
}

// redisSeq is one client with faults: exact after every acknowledged call.
func redisSeq(c *kit.C) {
	clock := time.Unix(1700000000, 0)
	d := newRedis(func() time.Time { return clock })
	l := newLedger()
	ids := map[ck]int64{}
	ttl := kit.Pick(c, time.Hour, 24*time.Hour, 0, time.Second, 1500*time.Millisecond, time.Millisecond, -time.Hour, 7*24*time.Hour, time.Duration(c.I64(1, int64(90*time.Second))))
	win := ttl
	if win <= 0 {
		win = 24 * time.Hour
	}
	var fks []string
	for i := c.IntN(4); i > 0; i-- {
		k := rkey(c)
		l.init[k] = kit.Pick(c, c.I64(-1000, 1000), 0, 1<<53+1, -(1<<54 + 3))
		d.hash[counterKey(k)] = map[string]string{"scalar": strconv.FormatInt(l.init[k], 10)}
	}
	for k := range l.init {
		fks = append(fks, k)
	}
	sort.Strings(fks)
	check := foreign(c, d, fks)
	faults := kit.Pick(c, 0, 10, 40, 80)
	lastFault := ""
	sent := 0
	ev := &evaler{d: d, fault: func(int) string {
		sent++
		lastFault = ""
		if c.Pct(faults) {
			lastFault = kit.Pick(c, "before", "after")
			c.Label("fault " + lastFault)
		}
		return lastFault
	}}
	p := persistence.NewRedisPersister(ev, ttl)
	when := map[ck]time.Time{} // first time it may have been applied
	type sentBatch []persistence.CommitEntry
	var history []sentBatch
	steps := c.Range(2, 14)
	okCalls := 0
	done := map[string]bool{}
	for i := 0; i < steps && !c.Failed(); i++ {
		var es []persistence.CommitEntry
		if len(history) > 0 && c.Pct(50) {
			es = append(es, history[c.IntN(len(history))]...) // retry, reordered or in part
			if c.Pct(20) {
				c.Shuffle(len(es), func(a, b int) { es[a], es[b] = es[b], es[a] })
			}
			if c.Pct(20) {
				es = es[:c.Range(1, len(es))]
			}
		} else {
			es = drawBatch(c, ids, l)
			if len(es) > 0 && c.Pct(15) { // a duplicate within one batch
				es = append(es, es[c.IntN(len(es))])
			}
		}
		// commits whose markers may be gone are retries outside the window: replace them
		ok := es[:0:0]
		for _, e := range es {
			if t, was := when[ck{e.Key, e.CommitID}]; was && clock.Sub(t) >= win {
				continue
			}
			ok = append(ok, e)
		}
		es = ok
		if len(es) == 0 {
			continue
		}
		history = append(history, es)
		bad := -1
		if c.Pct(8) {
			bad = c.IntN(len(es) + 1)
			x := persistence.CommitEntry{Key: fmt.Sprintf("noid-%d", i), Vector: 5}
			es = append(append(append([]persistence.CommitEntry{}, es[:bad]...), x), es[bad:]...)
		}
		for _, e := range es {
			if e.CommitID != "" {
				k := ck{e.Key, e.CommitID}
				if _, was := when[k]; !was {
					when[k] = clock
				}
				if _, was := l.applied[k]; !was {
					l.maybe[k] = e.Vector
				}
			}
		}
		sent = 0
		err := p.CommitBatch(context.Background(), es)
		c.Events(int64(sent))
		c.Logf("%s bad=%d fault=%q -> %v", show(es), bad, lastFault, err)
		if d.unsup != nil {
			c.Inconclusive()
			return
		}
		switch {
		case bad >= 0 && err == nil:
			c.Fail("an entry without commit id was accepted")
		case bad >= 0:
			c.Label("missing id")
			for k := range d.touch {
				if strings.Contains(k, fmt.Sprintf("noid-%d", i)) {
					c.Fail("the store was touched for an entry without commit id (%q)", k)
				}
			}
		case lastFault != "" && err == nil:
			c.Fail("a connection failure was swallowed: the call reported success")
		case lastFault == "" && err != nil:
			c.Fail("nothing failed, but the call reported %v", err)
		}
		if err == nil {
			okCalls++
			for _, e := range es {
				k := ck{e.Key, e.CommitID}
				if _, was := l.applied[k]; was {
					c.Label("duplicate")
				}
				l.applied[k] = e.Vector
				delete(l.maybe, k)
				done[e.Key] = true
			}
		}
		for k := range done {
			if l.dirty(k) {
				continue
			}
			got, num := scalarOf(d, k)
			if w := l.want(k); !num || got != w {
				c.Fail("after %s: scalar of %q is %d, want %d exactly once per (key, commit id)", show(es), k, got, w)
			}
		}
		// within the window of the earliest marker that still matters
		switch c.IntN(4) {
		case 0:
			clock = clock.Add(time.Duration(float64(win) * c.Float64() * 0.3))
		case 1:
			clock = clock.Add(time.Duration(float64(win) * 0.99))
			c.Label("late retry")
		}
	}
	// retry what was never acknowledged, within its window
	faults = 0
	var rest []persistence.CommitEntry
	for k, v := range l.maybe {
		if clock.Sub(when[k]) < win {
			rest = append(rest, persistence.CommitEntry{Key: k.key, CommitID: k.id, Vector: v})
		}
	}
	sort.Slice(rest, func(i, j int) bool { return rest[i].Key+rest[i].CommitID < rest[j].Key+rest[j].CommitID })
	if len(rest) > 0 && !c.Failed() {
		if err := p.CommitBatch(context.Background(), rest); err != nil {
			c.Fail("the final retry failed with a reachable store: %v", err)
		}
		for _, e := range rest {
			l.applied[ck{e.Key, e.CommitID}] = e.Vector
			delete(l.maybe, ck{e.Key, e.CommitID})
		}
	}
	for k := range done {
		if !l.dirty(k) {
			if got, num := scalarOf(d, k); !num || got != l.want(k) {
				c.Fail("finally: scalar of %q is %d, want %d", k, got, l.want(k))
			}
		}
	}
	check()
	if d.unsup != nil {
		c.Inconclusive()
	}
	if okCalls == 0 {
		c.Trivial()
	}
	c.LabelN("applied", int64(len(l.applied)))
	c.Desc("sequential, ttl %v, %d calls, faults %d%%, applied %d commits", ttl, steps, faults, len(l.applied))
	c.Hash(ttl, d.str, d.hash)
}

// redisRange: vectors that would leave int64 are errors without effect, and can be retried.
func redisRange(c *kit.C) {
	clock := time.Unix(1700000000, 0)
	d := newRedis(func() time.Time { return clock })
	k := rkey(c)
	init := kit.Pick(c, int64(math.MaxInt64), math.MinInt64, math.MaxInt64-3, math.MinInt64+3, 0, -1)
	d.hash[counterKey(k)] = map[string]string{"scalar": strconv.FormatInt(init, 10)}
	p := persistence.NewRedisPersister(&evaler{d: d}, time.Hour)
	v := kit.Pick(c, int64(math.MaxInt64), math.MinInt64+1, math.MinInt64, 3, 4, -3, -4, 1, -1, 0)
	id := rid(c)
	got0, _ := scalarOf(d, k)
	err := p.CommitBatch(context.Background(), []persistence.CommitEntry{{Key: k, Vector: v, CommitID: id}})
	if d.unsup != nil {
		c.Inconclusive()
		return
	}
	got, num := scalarOf(d, k)
	inRange := v != math.MinInt64
	if inRange {
		_, e := addInt(init, -v)
		inRange = e == nil
	}
	// init-v may fit although -v does not; refusing that is accepted, a wrong value is not
	fitsAnyway := v == math.MinInt64 && init < 0
	if fitsAnyway && err == nil && num && got == init-v {
		inRange = true
	}
	c.Logf("init %d vector %d -> %d, %v", init, v, got, err)
	if inRange {
		c.Label("in range")
		if err != nil || !num || got != init-v {
			c.Fail("scalar %d minus vector %d gave %d (error %v)", init, v, got, err)
		}
	} else {
		c.Label("out of range")
		if err == nil {
			c.Fail("scalar %d minus vector %d is out of range, but the call reported success (scalar now %d)", init, v, got)
		}
		if got != got0 {
			c.Fail("a failed commit changed the scalar from %d to %d", got0, got)
		}
		// once it fits, the same commit must still be applicable
		if v != math.MinInt64 {
			d.hash[counterKey(k)]["scalar"] = "0"
			err := p.CommitBatch(context.Background(), []persistence.CommitEntry{{Key: k, Vector: v, CommitID: id}})
			if got, _ := scalarOf(d, k); err != nil || got != -v {
				c.Fail("a commit that had failed out of range was not applied when retried in range: scalar %d, want %d (%v)", got, -v, err)
			}
		}
	}
	c.Desc("scalar %d, vector %d", init, v)
	c.Hash(k, id, init, v, got)
}

// redisConc: several clients, same commits, faults, arbitrary order; exact at the end.
func redisConc(c *kit.C) {
	c.Bubble(xpoint.Config{}, func() {
		d := newRedis(time.Now)
		l := newLedger()
		ids := map[ck]int64{}
		var batches [][]persistence.CommitEntry
		for i := c.Range(1, 4); i > 0; i-- {
			batches = append(batches, drawBatch(c, ids, l))
		}
		var keep [][]persistence.CommitEntry
		for _, b := range batches {
			if len(b) > 0 {
				keep = append(keep, b)
			}
		}
		if len(keep) == 0 {
			c.Trivial()
			return
		}
		n := c.Range(2, 4)
		var wg sync.WaitGroup
		var order []string
		var mu sync.Mutex
		for g := 0; g < n; g++ {
			r := c.Sub()
			pct := kit.Pick(c, 0, 30, 60)
			c.Go(&wg, func() {
				healed := false
				ev := &evaler{d: d, fault: func(int) string {
					if !healed && r.IntN(100) < pct {
						return []string{"before", "after"}[r.IntN(2)]
					}
					return ""
				}, pause: func() { time.Sleep(time.Duration(r.IntN(5))) }}
				p := persistence.NewRedisPersister(ev, time.Hour)
				for _, i := range r.Perm(len(keep)) {
					for try := 0; ; try++ {
						if try > 3 {
							healed = true
						}
						err := p.CommitBatch(context.Background(), keep[i])
						mu.Lock()
						order = append(order, fmt.Sprint(g, i, err == nil))
						mu.Unlock()
						if err == nil {
							break
						}
						if try > 6 {
							c.Fail("a reachable store still fails: %v", err)
							return
						}
					}
				}
			})
		}
		wg.Wait()
		c.Events(int64(d.evals))
		if d.unsup != nil {
			c.Inconclusive()
			return
		}
		seen := map[string]bool{}
		for _, b := range keep {
			for _, e := range b {
				l.applied[ck{e.Key, e.CommitID}] = e.Vector
				seen[e.Key] = true
			}
		}
		for k := range seen {
			if got, num := scalarOf(d, k); !num || got != l.want(k) {
				c.Fail("scalar of %q is %d after %d concurrent clients, want %d", k, got, n, l.want(k))
			}
		}
		c.Label("concurrent")
		c.Desc("%d concurrent clients applying the same %d batches", n, len(keep))
		c.Hash(order)
	})
}

// redisCtx: a cancelled call reports an error and may be retried.
func redisWire(c *kit.C) {
	d := newRedis(time.Now)
	pct := kit.Pick(c, 0, 10, 25)
	var fmu sync.Mutex
	r := c.Sub()
	streak := 0
	drop := func() string {
		fmu.Lock()
		defer fmu.Unlock()
		if streak < 2 && r.IntN(100) < pct {
			streak++
			c.Label("connection broken")
			return []string{"before", "after"}[r.IntN(2)]
		}
		streak = 0
		return ""
	}
	addr, stop, err := serveRedis(d, drop)
	if err != nil {
		c.Inconclusive()
		return
	}
	defer stop()
	ev := persistence.NewGoRedisEvaler(addr)
	p := persistence.NewRedisPersister(ev, time.Hour)
	l := newLedger()
	ids := map[ck]int64{}
	var batches [][]persistence.CommitEntry
	for i := c.Range(1, 6); i > 0; i-- {
		if b := drawBatch(c, ids, l); len(b) > 0 {
			batches = append(batches, b)
		}
	}
	var wg sync.WaitGroup
	for g := c.Range(1, 3); g > 0; g-- {
		c.Go(&wg, func() {
			for _, b := range batches {
				for try := 0; try < 30; try++ {
					err := p.CommitBatch(context.Background(), b)
					if err == nil {
						break
					}
					if try == 29 {
						c.Inconclusive()
					}
				}
			}
		})
	}
	wg.Wait()
	if d.unsup != nil {
		c.Inconclusive()
		return
	}
	seen := map[string]bool{}
	n := 0
	for _, b := range batches {
		for _, e := range b {
			l.applied[ck{e.Key, e.CommitID}] = e.Vector
			seen[e.Key] = true
			n++
		}
	}
	for k := range seen {
		if got, num := scalarOf(d, k); !num || got != l.want(k) {
			c.Fail("over RESP: scalar of %q is %d, want %d", k, got, l.want(k))
		}
	}
	c.Events(int64(d.evals))
	c.Label("wire")
	if n == 0 {
		c.Trivial()
	}
	// an unreachable server is reported
	stop()
	if err := p.CommitBatch(context.Background(), []persistence.CommitEntry{{Key: "x", CommitID: "y", Vector: 1}}); err == nil {
		c.Fail("the server is gone, but the call reported success")
	}
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	if err := p.CommitBatch(ctx, []persistence.CommitEntry{{Key: "x", CommitID: "y", Vector: 1}}); err == nil {
		c.Fail("a cancelled call reported success")
	} else if errors.Is(err, context.Canceled) {
		c.Label("cancelled")
	}
	c.Desc("RESP over loopback, %d commits, broken connections %d%%", n, pct)
	c.Hash(ids, pct)
}

// lasts: markers that were set within the given time outlive the configured window.
func lasts(c *kit.C, d *redisDB, ttl, since time.Duration) {
	if ttl <= 0 {
		ttl = 24 * time.Hour
	}
	d.mu.Lock()
	defer d.mu.Unlock()
	for k := range d.str {
		if e, has := d.exp[k]; has && time.Until(e)+since+time.Second < ttl {
			c.Fail("marker %q expires in %v, configured %v", k, time.Until(e), ttl)
		}
	}
}

// redisFactory: the marker TTL that is configured reaches the server.
func redisFactory(c *kit.C) {
	began := time.Now()
	d := newRedis(time.Now)
	addr, stop, err := serveRedis(d, func() string { return "" })
	if err != nil {
		c.Inconclusive()
		return
	}
	defer stop()
	opts := persistence.DemoOptions{RedisAddr: addr, RedisMarkerTTL: time.Duration(c.I64(int64(time.Minute), 1<<uint(c.Range(37, 56))))}
	if c.Pct(10) {
		opts.RedisMarkerTTL = -time.Duration(c.IntN(2))
	}
	p, err := persistence.BuildPersister("redis", opts)
	if err != nil {
		c.Fail("redis: %v", err)
		return
	}
	var commits []core.Commit
	want := map[string]int64{}
	for i := c.Range(1, 5); i > 0; i-- {
		m := core.Commit{Key: fmt.Sprintf("k%d", c.IntN(4)), Vector: c.I64(-9, 9)}
		commits = append(commits, m)
		want[m.Key] -= m.Vector
	}
	if err := p.CommitBatch(commits); err != nil {
		c.Fail("redis: %v", err)
		return
	}
	if d.unsup != nil {
		c.Inconclusive()
		return
	}
	for k, v := range want {
		if got, _ := scalarOf(d, k); got != v {
			c.Fail("scalar of %q is %d, want %d", k, got, v)
		}
	}
	lasts(c, d, opts.RedisMarkerTTL, time.Since(began))
	c.Label("configured TTL")
	c.Events(int64(d.evals))
	c.Desc("factory, TTL %v, %d commits", opts.RedisMarkerTTL, len(commits))
	c.Hash(opts.RedisMarkerTTL, want)
}

func TestC16(t *testing.T) {
	kit.Quiet()
	if plain {
		kit.Run(t, "C16", kit.Part{Name: "wire", Fn: redisWire}, kit.Part{Name: "factory", Share: 0.5, Fn: redisFactory})
		return
	}
	kit.Run(t, "C16", kit.Part{Name: "sequential", Fn: redisSeq}, kit.Part{Name: "range", Share: 0.1, Fn: redisRange}, kit.Part{Name: "concurrent", Share: 0.5, Fn: redisConc})
}
