package hworker

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"testing"
	"time"

	"vsa"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/zzverif/kit"
	"vsa/internal/zzverif/xpoint"
)

const ms = time.Millisecond

// conf is a worker configuration.
type conf struct {
	high, low          int64
	ci, maxAge, ea, ei time.Duration
}

func drawConf(c *kit.C) conf {
	f := conf{high: c.I64(1, 20), ci: c.Dur(ms, 20*ms), ea: c.Dur(100*ms, 500*ms), ei: c.Dur(5*ms, 60*ms)}
	if c.Pct(6) {
		f.high = -c.Int64N(2)
	}
	if c.Pct(15) {
		f.high = 1 << 40
	}
	switch c.IntN(5) {
	case 0, 1:
		f.low = 0
	case 2:
		f.low = 1
	case 3:
		f.low = c.I64(1, 20)
	case 4:
		f.low = c.Int64N(60) - 2
	}
	if c.Pct(40) {
		f.maxAge = c.Dur(ms, 150*ms)
	}
	return f
}

func (f conf) worker(w *world) *core.Worker {
	return core.NewWorker(w.store, w, f.high, f.low, f.ci, f.maxAge, f.ea, f.ei)
}

// traffic runs gs goroutines of mixed operations over keys until they are done.
func traffic(c *kit.C, w *world, wg *sync.WaitGroup, keys []string, f conf, gs, ops int, signed bool) {
	f.ea = min(f.ea, 500*ms)
	if len(keys) > 20 { // hundreds of keys: hundreds of operations per cycle
		f.ci /= 20
		f.ea, f.ei = f.ci, f.ci
	}
	for g := 0; g < gs; g++ {
		r := c.Sub()
		style := r.IntN(5)
		c.Go(wg, func() {
			for i := 0; i < ops; i++ {
				k := keys[r.IntN(len(keys))]
				kind := 0
				n := 1 + r.Int64N(1+r.Int64N(12))
				switch x := r.IntN(100); {
				case x < 25:
					kind = 1
				case x < 35 && signed:
					kind, n = 2, r.Int64N(21)-10
				}
				w.do(k, kind, n)
				d := time.Duration(0)
				switch style {
				case 0:
					d = time.Duration(r.Int64N(int64(f.ci)/2 + 1))
				case 1:
					d = time.Duration(r.Int64N(int64(4*f.ci) + 1))
				case 2:
					if r.IntN(8) == 0 {
						d = time.Duration(r.Int64N(int64(f.ea) * 2))
					}
				case 3: // return about when eviction becomes possible
					d = f.ea - 2*f.ei + time.Duration(r.Int64N(int64(4*f.ei)))
					if r.IntN(3) > 0 {
						d = time.Duration(r.Int64N(int64(f.ci)))
					}
					if d < 0 {
						d = 0
					}
				}
				if style == 4 && f.ei > 100*time.Microsecond { // return just when an eviction scan finds the key idle
					if r.IntN(3) == 0 {
						d = time.Duration(r.Int64N(int64(f.ci)))
					} else {
						at := time.Since(w.t0) + f.ea
						at += f.ei - at%f.ei
						d = at - time.Since(w.t0) + time.Duration(r.Int64N(30000)-10000)
					}
				}
				if d > 0 {
					time.Sleep(d)
				}
			}
		})
	}
}

// mischief makes persister calls slow, failing, and accompanied by traffic to the keys in flight.
func mischief(c *kit.C, w *world, keys []string, f conf, down *bool) {
	r := c.Sub()
	var mu sync.Mutex
	slow, inject := r.IntN(3), r.IntN(3)
	failP := []int{0, 0, 20, 50, 90}[r.IntN(5)]
	w.plan = func(n int, rows []core.Commit) (time.Duration, func(), bool) {
		mu.Lock()
		defer mu.Unlock()
		d := time.Duration(0)
		switch slow {
		case 1:
			d = time.Duration(r.Int64N(int64(f.ci)))
		case 2:
			if r.IntN(4) == 0 {
				d = time.Duration(r.Int64N(int64(3 * f.ci)))
			}
		}
		ok := r.IntN(100) >= failP
		if down != nil {
			ok = !*down
		}
		var during func()
		if inject > 0 && r.IntN(3) < inject && len(w.ops) > 0 {
			r2 := rand.New(rand.NewPCG(r.Uint64(), 1))
			during = func() {
				for i := r2.IntN(4); i >= 0; i-- {
					k := rows[r2.IntN(len(rows))].Key
					w.do(k, r2.IntN(2), 1+r2.Int64N(5))
					c.Label("operations on a key in flight")
				}
			}
		}
		return d, during, ok
	}
}

func TestC09(t *testing.T) {
	kit.Run(t, "C09",
		kit.Part{Name: "conserve", Share: 0.7, Fn: func(c *kit.C) { conserve(c, false) }},
		kit.Part{Name: "evict", Share: 0.3, Fn: func(c *kit.C) { conserve(c, true) }})
}

func conserve(c *kit.C, evict bool) {
	f := drawConf(c)
	if evict {
		f.ea, f.ei = c.Dur(30*ms, 80*ms), c.Dur(2*ms, 15*ms)
		if c.Pct(50) {
			f.high = 1 << 40
		}
	}
	o := storeOptions(c)
	limit := kit.Pick[int64](c, 5, 30, 1000, 1<<40)
	nk, gs, ops := c.Range(1, 4), c.Range(1, 4), c.Range(4, 30)
	keys := keyset(c, nk)
	d := c.Delays()
	if d.LongMax > 100*time.Microsecond {
		d.LongMax = 100 * time.Microsecond
	}
	signed := c.Pct(30)
	if c.Pct(4) { // batches of many keys
		keys, ops = manyKeys(c)
		gs = c.Range(2, 6)
		ops /= gs
		f.high = c.Int64N(3)
		f.ci = c.Dur(5*ms, 40*ms) * time.Duration(1+len(keys)/1100)
		if len(keys) > 1100 {
			o = vsa.Options{} // no aggregators
		}
		c.Label("many keys")
	}
	c.Desc("%+v options %+v limit %d %d keys %.20q goroutines %d ops %d delays %+v signed %v", f, o, limit, len(keys), keys, gs, ops, d, signed)
	var acked, rows int
	c.Bubble(d, func() {
		w := newWorld(c, limit, o)
		mischief(c, w, keys, f, nil)
		wk := f.worker(w)
		wk.Start()
		var wg sync.WaitGroup
		traffic(c, w, &wg, keys, f, gs, ops, signed)
		if evict && c.Pct(60) {
			wg.Wait()
			time.Sleep(f.ea + 3*f.ei)
			traffic(c, w, &wg, keys, f, gs, 3, signed)
		}
		wg.Wait()
		if c.Pct(40) {
			time.Sleep(c.Dur(0, 2*f.ea))
		}
		if c.Pct(30) {
			// the persister rejects some or all of what the shutdown tries
			left := c.Range(1, 5)
			w.mu.Lock()
			w.plan = func(int, []core.Commit) (time.Duration, func(), bool) { left--; return 0, nil, left < 0 }
			w.mu.Unlock()
			wk.Stop()
			for _, k := range w.keys() {
				if w.net(k) != w.durable(k) {
					c.Label("kept after a failed final flush")
				}
			}
			wk = f.worker(w) // the next one persists what is left
			wk.Start()
		}
		// from here on the persister is reachable and quiet
		w.mu.Lock()
		w.plan = nil
		w.mu.Unlock()
		wk.Stop()
		w.conserved()
		w.reallyHad()
		for k, v := range present(w.store) {
			pos := true
			for _, o := range w.ops[k] {
				pos = pos && o.amt >= 0
			}
			if _, V := v.State(); pos && V != 0 {
				c.Fail("key %q still holds %d in memory after a clean stop", k, V)
			}
		}
		for _, b := range w.bs {
			c.Hash(b.rows, b.ok, b.s)
			if b.ok {
				acked++
				rows += len(b.rows)
			}
		}
		n := 0
		for _, k := range w.keys() {
			ptr := map[*vsa.VSA]bool{}
			for _, o := range w.ops[k] {
				n++
				ptr[o.ptr] = true
				c.Hash(o.s, o.e, o.amt)
			}
			if len(ptr) > 1 {
				c.Label("keys evicted and recreated")
			}
		}
		w.store.CloseAll()
	})
	if acked == 0 {
		c.Trivial()
	}
}

// quiet is a pause long enough for everything in progress to end.
func quiet(f conf) { time.Sleep(3*f.ci + f.ei) }

func TestC10(t *testing.T) {
	kit.Run(t, "C10",
		kit.Part{Name: "outage", Share: 0.6, Fn: outage},
		kit.Part{Name: "hot", Share: 0.4, Fn: hot})
}

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func outage(c *kit.C) {
	f := drawConf(c)
	if c.Pct(50) {
		f.ea = time.Hour
	}
	o := storeOptions(c)
	o.UseCachedGate = false
	limit := kit.Pick[int64](c, 40, 1000, 1<<40)
	keys := keyset(c, c.Range(1, 4))
	d := c.Delays()
	d.LongMax = min(d.LongMax, 20*time.Microsecond)
	rounds := c.Range(1, 4)
	signed := c.Pct(30)
	most := 12
	if c.Pct(4) { // batches of many keys
		keys, most = manyKeys(c)
		f.high, f.low = 1, 0
		n := time.Duration(1 + len(keys)/1100)
		f.ci = n * c.Dur(20*ms, 60*ms)
		f.ei *= n
		rounds = min(rounds, 2)
		d.LongMax = min(d.LongMax, 50*time.Nanosecond) // a delay per key must not make a cycle long
		c.Label("many keys")
	}
	c.Desc("%+v options %+v limit %d %d keys %.20q rounds %d delays %+v", f, o, limit, len(keys), keys, rounds, d)
	rejected, due := 0, 0
	c.Bubble(d, func() {
		w := newWorld(c, limit, o)
		down := false
		wk := f.worker(w)
		wk.Start()
		for r := 0; r < rounds && !c.Failed(); r++ {
			mischief(c, w, keys, f, nil)
			var wg sync.WaitGroup
			traffic(c, w, &wg, keys, f, c.Range(1, 3), c.Range(1, most), signed)
			wg.Wait()
			// outage without traffic
			w.mu.Lock()
			down = true
			lat := time.Duration(c.Int64N(int64(f.ci)/8 + 1))
			if len(keys) > 20 { // evictions persist one key after another
				lat = time.Duration(c.Int64N(1000)) / time.Duration(1+len(keys)/1100)
			}
			w.plan = func(int, []core.Commit) (time.Duration, func(), bool) { return lat, nil, !down }
			from := len(w.bs)
			w.mu.Unlock()
			quiet(f)
			before := present(w.store)
			type sv struct{ s, v, a int64 }
			st := map[string]sv{}
			for k, v := range before {
				s, vv := v.State()
				st[k] = sv{s, vv, v.Available()}
			}
			time.Sleep(c.Dur(f.ci, 20*f.ci+2*f.ei))
			if c.Pct(30) && f.ea < time.Hour {
				time.Sleep(f.ea + 2*f.ei)
			}
			after := present(w.store)
			for k, v := range before {
				s, vv := v.State()
				if got := (sv{s, vv, v.Available()}); got != st[k] {
					c.Fail("key %q changed from %+v to %+v although every batch was rejected", k, st[k], got)
				}
				if after[k] != v && w.net(k) != w.durable(k) {
					c.Fail("key %q with %d unpersisted was removed although every batch was rejected", k, w.net(k)-w.durable(k))
				}
			}
			w.mu.Lock()
			last := map[string]bool{} // last batch of the key was rejected
			for _, b := range w.bs {
				for _, row := range b.rows {
					last[row.Key] = !b.ok
				}
			}
			rejected += len(w.bs) - from
			down = false
			w.mu.Unlock()
			must := map[string]bool{}
			for _, k := range w.keys() {
				u := abs(w.net(k) - w.durable(k))
				if u != 0 && u >= f.high && (f.low <= 0 || u <= f.low || (last[k] && f.ea == time.Hour)) {
					must[k] = true
				}
				if f.maxAge > 0 && u != 0 {
					must[k] = true
				}
			}
			time.Sleep(3*f.ci + lat*20)
			if f.maxAge > 0 {
				time.Sleep(f.maxAge)
			}
			for k := range must {
				due++
				if u := w.net(k) - w.durable(k); u != 0 {
					c.Fail("key %q: %d still unpersisted well after the persister recovered", k, u)
				}
			}
			c.Hash(rejected, due, len(w.bs))
		}
		w.mu.Lock()
		w.plan = nil
		w.mu.Unlock()
		wk.Stop()
		w.conserved()
		w.store.CloseAll()
	})
	c.LabelN("rejected in an outage", int64(rejected))
	c.LabelN("keys due after an outage", int64(due))
	if due == 0 || rejected == 0 {
		c.Trivial()
	}
}

// hot: a key that keeps being active at or above the threshold is persisted again and again.
func hot(c *kit.C) {
	f := conf{high: c.I64(1, 50), ci: c.Dur(ms, 20*ms), ea: time.Hour, ei: time.Hour}
	f.low = kit.Pick(c, 0, 1, f.high-1, f.high, f.high+5, f.high/2, 2*f.high)
	if c.Pct(30) {
		f.maxAge = c.Dur(ms, 100*ms)
	}
	step := c.Dur(50*time.Microsecond, f.ci)
	perCycle := int64(f.ci/step) + 1
	// at least a threshold per cycle
	n := (f.high+perCycle-1)/perCycle + c.Int64N(5)
	failP := kit.Pick(c, 0, 0, 10, 40)
	lat := kit.Pick(c, 0, 0, f.ci/3, 2*f.ci)
	cycles := c.Range(20, 60)
	c.Desc("%+v every %v consume %d, fail %d%%, latency %v, %d cycles", f, step, n, failP, lat, cycles)
	acks := 0
	c.Bubble(xpoint.Config{}, func() {
		w := newWorld(c, 1<<60, vsa.Options{})
		r := c.Sub()
		w.plan = func(int, []core.Commit) (time.Duration, func(), bool) { return lat, nil, r.IntN(100) >= failP }
		wk := f.worker(w)
		wk.Start()
		var wg sync.WaitGroup
		stop := make(chan struct{})
		c.Go(&wg, func() {
			time.Sleep(137 * time.Nanosecond)
			for {
				select {
				case <-stop:
					return
				default:
				}
				w.do("hot", 0, n)
				time.Sleep(step)
			}
		})
		time.Sleep(time.Duration(cycles) * f.ci)
		close(stop)
		wg.Wait()
		// While active, after an acknowledged batch the next attempt comes within the time to
		// gather a threshold beyond what arrived while the batch was in flight.
		w.mu.Lock()
		bs := append([]*batch(nil), w.bs...)
		w.mu.Unlock()
		end := time.Now()
		prev := end.Add(-time.Duration(cycles) * f.ci)
		gap := 2*lat + 4*f.ci + time.Duration(2*f.high/n+2)*step
		for _, b := range append(bs, nil) {
			at := end
			if b != nil {
				at = b.t0
			}
			if at.Sub(prev) > gap+ms {
				c.Fail("the key took at least a threshold per cycle but no batch was tried for %v (%d batches in all)", at.Sub(prev), len(bs))
				break
			}
			if b != nil && !b.t1.IsZero() {
				prev = b.t1
				if b.ok {
					acks++
				}
			}
		}
		w.plan = nil
		wk.Stop()
		w.conserved()
		c.Hash(f, step, n, acks)
	})
	c.LabelN("acknowledged while hot", int64(acks))
	if acks < 2 {
		c.Trivial()
	}
}

func TestC11(t *testing.T) {
	kit.Run(t, "C11", kit.Part{Name: "model", Fn: model})
}

// model: commit cycles happen at known instants, traffic at others, so what a cycle may and
// must write is known.
func model(c *kit.C) {
	f := conf{high: c.I64(-1, 15), ci: c.Dur(2*ms, 20*ms), ea: time.Hour, ei: time.Hour}
	if c.Pct(10) {
		f.high = 1 << 62
	}
	f.low = kit.Pick(c, -1, 0, 0, 0, 1, 2, f.high-1, f.high, f.high+3, 100)
	if c.Pct(60) {
		f.maxAge = c.Dur(f.ci/2, 8*f.ci)
	}
	keys := keyset(c, c.Range(1, 5))
	cycles := c.Range(10, 60)
	if c.Pct(4) { // hours and days
		k := kit.Pick[time.Duration](c, 1000, 50000, 1e6, 1e8)
		f.ci, f.maxAge, f.ea, f.ei = f.ci*k, f.maxAge*k, 1<<61, 1<<61
		c.Label("very slow settings")
	}
	scale := int64(1)
	if c.Pct(4) {
		scale = kit.Pick[int64](c, 1<<10, 1<<31, 1<<32, 1<<45)
		f.high, f.low = min(f.high, 15)*scale-c.Int64N(2), min(f.low, 15)*scale
		c.Label("large amounts")
	}
	crowd := c.IntN(250) == 0 // hundreds of keys at once
	if crowd {
		for i := c.Range(50, 1500); i > 0; i-- {
			keys = append(keys, fmt.Sprint("crowd-", i))
		}
		cycles = c.Range(2, 6)
		c.Label("hundreds of keys")
	}
	failP := kit.Pick(c, 0, 0, 15, 40)
	signed := c.Pct(40)
	rate := c.Range(0, 6)
	o := vsa.Options{Stripes: kit.Pick(c, 0, 1, 16), FastPathGuard: kit.Pick[int64](c, 0, 4)}
	limit := kit.Pick[int64](c, 50*scale, 1<<60)
	c.Desc("%+v %d keys %q cycles %d fail %d%% rate %d signed %v limit %d", f, len(keys), keys[:min(len(keys), 6)], cycles, failP, rate, signed, limit)
	type ks struct {
		net, dur int64
		last     time.Time // last access
		touched  bool
		disarmed bool // certainly: after an acknowledged threshold commit
		maybe    bool // after an acknowledged max-age commit
		rearm    int64
		failed   bool
	}
	wrote, held := 0, 0
	c.Bubble(xpoint.Config{}, func() {
		w := newWorld(c, limit, o)
		m := map[string]*ks{}
		for _, k := range keys {
			m[k] = &ks{}
		}
		r, r2 := c.Sub(), c.Sub()
		do := func(k string, r *rand.Rand) {
			kind, n := 0, 1+r.Int64N(1+r.Int64N(8))
			switch x := r.IntN(10); {
			case x < 2:
				kind = 1
			case x < 4 && signed:
				kind, n = 2, r.Int64N(21)-10
			}
			n *= scale
			e := m[k]
			op := w.do(k, kind, n)
			e.net += op.amt
			e.last, e.touched = time.Now(), true
		}
		var lat time.Duration
		var ok, injected bool
		w.plan = func(n int, rows []core.Commit) (time.Duration, func(), bool) {
			var during func()
			if injected {
				during = func() {
					for i := r2.IntN(5); i > 0; i-- {
						do(keys[r2.IntN(len(keys))], r2)
					}
				}
			}
			return lat, during, ok
		}
		wk := f.worker(w)
		start := time.Now()
		wk.Start()
		for cy := 1; cy <= cycles && !c.Failed(); cy++ {
			at := start.Add(time.Duration(cy) * f.ci)
			// traffic before the cycle, never at its instant
			for i := r.IntN(2*rate + 1); i > 0; i-- {
				room := time.Until(at) - 10
				if room <= 20 {
					break
				}
				time.Sleep(1 + time.Duration(r.Int64N(int64(room)/2)))
				do(keys[r.IntN(len(keys))], r)
			}
			if crowd && r.IntN(3) > 0 {
				if room := time.Until(at) - 10; room > 20 {
					time.Sleep(room / 2)
				}
				for _, k := range keys {
					if r.IntN(8) > 0 {
						do(k, r)
					}
				}
			}
			lat = time.Duration(r.Int64N(int64(f.ci)/3 + 1))
			ok = r.IntN(100) >= failP
			injected = r.IntN(3) == 0
			type rd struct {
				row  int64
				idle time.Duration
			}
			read := map[string]rd{}
			for k, e := range m {
				read[k] = rd{e.net - e.dur, at.Sub(e.last)}
			}
			nb := len(w.bs)
			time.Sleep(time.Until(at) + f.ci/2)
			var rows []core.Commit
			for _, b := range w.bs[nb:] {
				rows = append(rows, b.rows...)
				if !b.t0.Equal(at) || len(w.bs) != nb+1 {
					c.Label("cycles in several batches")
				}
			}
			got := map[string]int64{}
			for _, b := range rows {
				if _, dup := got[b.Key]; dup {
					c.Fail("cycle %d writes key %q twice", cy, b.Key)
				}
				got[b.Key] = b.Vector
			}
			for _, k := range keys {
				e, u := m[k], read[k]
				a := abs(u.row)
				byAge := f.maxAge > 0 && u.idle >= f.maxAge && e.touched && a != 0
				over := a != 0 && a >= f.high
				armed, surely := true, true
				if f.low > 0 && (e.disarmed || e.maybe) {
					if !(e.failed || a <= f.low || a >= e.rearm) {
						surely = false
						if e.disarmed {
							armed = false
						}
					} else {
						e.disarmed, e.maybe = false, false
					}
				}
				v, is := got[k]
				switch {
				case is && a == 0:
					c.Fail("cycle %d writes %d for key %q, which has nothing unpersisted", cy, v, k)
				case is && !byAge && !over:
					c.Fail("cycle %d writes key %q with only %d unpersisted (threshold %d) after %v idle", cy, k, u.row, f.high, u.idle)
				case is && !byAge && !armed:
					c.Fail("cycle %d commits key %q by threshold again with %d unpersisted: not at or below the low watermark %d nor at %d", cy, k, u.row, f.low, e.rearm)
				case !is && byAge:
					c.Fail("cycle %d does not write key %q: %d unpersisted, idle for %v", cy, k, u.row, u.idle)
				case !is && over && surely:
					c.Fail("cycle %d does not write key %q: %d unpersisted (threshold %d)", cy, k, u.row, f.high)
				}
				if over && !is {
					held++
				}
				if is {
					wrote++
					if ok {
						// what the cycle read must be below the threshold now
						if left := abs(u.row - v); left != 0 && left >= f.high {
							c.Fail("cycle %d leaves %d of key %q unpersisted", cy, left, k)
						}
						e.dur += v
						e.failed = false
						e.disarmed, e.maybe = over, !over || byAge
						if byAge {
							e.disarmed = false
						}
						// what is unpersisted when the batch is acknowledged
						left := abs(e.net - e.dur)
						e.rearm = 0
						if left > f.low {
							e.rearm = f.high + left
						}
					} else {
						e.failed = true
					}
				}
				c.Hash(k, is, u.row, byAge)
			}
		}
		w.plan = nil
		wk.Stop()
		w.conserved()
	})
	c.LabelN("rows judged", int64(wrote))
	c.LabelN("keys held back by hysteresis", int64(held))
	if wrote == 0 {
		c.Trivial()
	}
}

func TestC13(t *testing.T) {
	kit.Run(t, "C13", kit.Part{Name: "evict", Fn: evictions})
}

func evictions(c *kit.C) {
	f := drawConf(c)
	f.ea, f.ei = c.Dur(20*ms, 120*ms), c.Dur(2*ms, 25*ms)
	if c.Pct(60) {
		f.high, f.maxAge = 1<<40, 0
	}
	o := storeOptions(c)
	if c.Pct(4) { // hours and days
		k := kit.Pick[time.Duration](c, 1000, 50000, 1e6, 5e7)
		f.ci, f.maxAge, f.ea, f.ei = f.ci*k, f.maxAge*k, f.ea*k, f.ei*k
		o.CacheInterval *= k
		c.Label("very slow settings")
	}
	limit := kit.Pick[int64](c, 5, 30, 1000)
	keys := keyset(c, c.Range(1, 4))
	d := c.Delays()
	d.Max = min(d.Max, 10*time.Microsecond)
	d.LongMax = min(d.LongMax, 50*time.Microsecond)
	rounds := c.Range(1, 4)
	c.Desc("%+v options %+v limit %d keys %q rounds %d delays %+v", f, o, limit, keys, rounds, d)
	gone, kept := 0, 0
	c.Bubble(d, func() {
		w := newWorld(c, limit, o)
		down := false
		wk := f.worker(w)
		wk.Start()
		stop := make(chan struct{})
		var wg sync.WaitGroup
		prev := map[string]*vsa.VSA{}
		check := func() {
			now := time.Now() // before looking: removals seen below happened by then or later
			live := present(w.store)
			after := time.Now()
			w.mu.Lock()
			defer w.mu.Unlock()
			for k, ops := range w.ops {
				var lastOp *op
				busy := false
				for _, o := range ops {
					if o.e == 1<<62 {
						busy = true
						continue
					}
					if !o.t1.Before(now) { // while looking: its counter may be a new one not seen
						busy = true
					}
					if lastOp == nil || o.t0.After(lastOp.t0) {
						lastOp = o
					}
				}
				if lastOp == nil {
					continue
				}
				p := live[k]
				// the counter an access returned stays for the eviction age
				for _, o := range ops {
					if o.e < 1<<62 && now.Sub(o.t0) <= f.ea && after.Sub(o.t0) <= f.ea && o.t1.Before(now) && p != o.ptr {
						c.Fail("key %q was accessed %v ago (eviction age %v) but its counter %p is not the live one (%p)", k, after.Sub(o.t0), f.ea, o.ptr, p)
						return
					}
				}
				if q := prev[k]; q != nil && p != q {
					gone++
					if p == nil && !busy {
						n, d := int64(0), w.dur[k]
						for _, o := range ops {
							n += o.amt
						}
						if n != d {
							c.Fail("key %q was removed with net total %d but durable total %d", k, n, d)
						}
					}
				}
				prev[k] = p
			}
		}
		c.Go(&wg, func() { // monitor
			for {
				select {
				case <-stop:
					return
				case <-time.After(f.ei/3 + 31*time.Nanosecond):
				}
				check()
			}
		})
		for r := 0; r < rounds && !c.Failed(); r++ {
			down = c.Pct(30)
			if c.Pct(60) {
				mischief(c, w, keys, f, nil)
			} else {
				mischief(c, w, keys, f, &down)
			}
			var tg sync.WaitGroup
			traffic(c, w, &tg, keys, f, c.Range(1, 3), c.Range(2, 10), false)
			tg.Wait()
			if c.Pct(50) {
				// nobody asks any more, persister unreachable: keys with a remainder stay
				w.mu.Lock()
				w.plan = func(int, []core.Commit) (time.Duration, func(), bool) { return 0, nil, false }
				w.mu.Unlock()
				quiet(f)
				live := present(w.store)
				type sv struct{ s, v int64 }
				was := map[string]sv{}
				for k, v := range live {
					s, vv := v.State()
					was[k] = sv{s, vv}
				}
				time.Sleep(f.ea + 3*f.ei)
				now := present(w.store)
				for k, v := range live {
					if w.net(k) == w.durable(k) {
						continue
					}
					kept++
					s, vv := v.State()
					if now[k] != v || (sv{s, vv}) != was[k] {
						c.Fail("key %q (%d unpersisted) did not stay as it was while the persister failed", k, w.net(k)-w.durable(k))
					}
				}
			}
			w.mu.Lock()
			lat := time.Duration(c.Int64N(int64(f.ci)/8 + 1))
			w.plan = func(int, []core.Commit) (time.Duration, func(), bool) { return lat, nil, true }
			w.mu.Unlock()
			quiet(f)
			time.Sleep(f.ea + 3*f.ei + 30*lat)
			if n := len(present(w.store)); n != 0 {
				c.Fail("%d keys still in memory %v after the last request (eviction age %v, interval %v)", n, f.ea+6*f.ei, f.ea, f.ei)
			}
		}
		close(stop)
		wg.Wait()
		w.plan = nil
		wk.Stop()
		w.conserved()
		c.Hash(gone, kept, len(w.bs))
		for _, b := range w.bs {
			c.Hash(b.rows, b.ok)
		}
		w.store.CloseAll()
	})
	c.LabelN("removals seen", int64(gone))
	c.LabelN("keys kept through failing evictions", int64(kept))
	if gone == 0 {
		c.Trivial()
	}
}

func TestC07(t *testing.T) {
	kit.Run(t, "C07",
		kit.Part{Name: "worker", Share: 0.6, Fn: workerLife},
		kit.Part{Name: "store", Share: 0.4, Fn: storeLife})
}

// workerLife: any order and number of starts, stops and closes; the bubble reports what survives.
func workerLife(c *kit.C) {
	f := drawConf(c)
	f.ea, f.ei = c.Dur(10*ms, 60*ms), c.Dur(2*ms, 20*ms)
	o := storeOptions(c)
	if c.Pct(50) {
		o.UseCachedGate, o.CacheInterval = true, c.Dur(ms, 20*ms)
	}
	keys := keyset(c, c.Range(1, 4))
	script := ""
	for i := c.Range(1, 4); i > 0; i-- {
		script += kit.Pick(c, "T", "T", "S", "W", "C", "SS", "P")
	}
	start := c.Range(0, 2) // position of Start
	c.Desc("%+v options %+v keys %q script %s start %d", f, o, keys, script, start)
	c.Bubble(c.Delays(), func() {
		w := newWorld(c, 100, o)
		mischief(c, w, keys, f, nil)
		slow := c.Pct(15)
		if slow { // calls far slower than any interval
			r := c.Sub()
			w.plan = func(int, []core.Commit) (time.Duration, func(), bool) {
				return time.Duration(r.Int64N(int64(time.Minute))), nil, r.IntN(4) > 0
			}
			c.Label("very slow persister")
		}
		wk := f.worker(w)
		var wg sync.WaitGroup
		started, stopped, batches := false, false, -1
		stop := func() {
			wk.Stop()
			if started && !stopped {
				w.mu.Lock()
				batches = len(w.bs)
				if w.busy > 0 {
					c.Fail("the worker was stopped, but %d of its persister calls go on", w.busy)
				}
				w.mu.Unlock()
				c.Label("calls counted at the stop")
			}
			stopped = true
		}
		for i, a := range script {
			if i == start || (start == 0 && i == 0) {
				wk.Start()
				started = true
			}
			switch a {
			case 'T':
				traffic(c, w, &wg, keys, f, 2, c.Range(1, 6), false)
			case 'S':
				stop()
			case 'P':
				stopped = true
				for j := 0; j < 3; j++ {
					c.Go(&wg, wk.Stop)
				}
			case 'W':
				time.Sleep(c.Dur(0, 150*ms))
			case 'C':
				w.store.CloseAll()
			}
		}
		if !started {
			if c.Pct(50) {
				stop()
			}
			wk.Start()
			started = true
		}
		stop()
		stop()
		wg.Wait()
		if slow {
			w.store.CloseAll()
			time.Sleep(10 * time.Minute)
		}
		time.Sleep(500 * ms) // a worker started after it was stopped ends by itself
		if batches >= 0 && len(w.bs) != batches {
			c.Fail("the worker was stopped, but %d persister calls were made afterwards", len(w.bs)-batches)
		}
		w.store.CloseAll()
		w.store.CloseAll()
		c.Hash(script, start, len(w.bs))
		// operations on closed counters still work
		for k, v := range present(w.store) {
			s, vv := v.State()
			ok := v.TryConsume(1)
			_, v2 := v.State()
			if s2, _ := v.State(); s2 != s || v2-vv != map[bool]int64{true: 1, false: 0}[ok] {
				c.Fail("closed counter of %q: state (%d,%d) then consume %v then (%d,%d)", k, s, vv, ok, s2, v2)
			}
		}
	})
}

// storeLife: racing first requests, deletions, closes.
func storeLife(c *kit.C) {
	o := storeOptions(c)
	o.UseCachedGate, o.CacheInterval = true, c.Dur(ms, 20*ms)
	keys := keyset(c, c.Range(1, 3))
	gs := c.Range(2, 5)
	c.Desc("options %+v keys %q goroutines %d", o, keys, gs)
	made := 0
	c.Bubble(c.Delays(), func() {
		s := core.NewStoreWithOptions(50, o)
		if c.Pct(20) {
			s.CloseAll()
		}
		var wg sync.WaitGroup
		for g := 0; g < gs; g++ {
			r := c.Sub()
			c.Go(&wg, func() {
				for i := 0; i < 6; i++ {
					k := keys[r.IntN(len(keys))]
					switch x := r.IntN(10); {
					case x < 7:
						s.GetOrCreate(k).TryConsume(1)
					case x < 9:
						s.Delete(k)
					default:
						s.CloseAll()
					}
				}
			})
		}
		wg.Wait()
		made = len(present(s))
		s.CloseAll()
		c.Hash(gs, made, keys)
	})
	c.LabelN("counters left", int64(made))
}

func TestC08(t *testing.T) {
	kit.Run(t, "C08",
		kit.Part{Name: "identity", Share: 0.4, Fn: identity},
		kit.Part{Name: "isolation", Share: 0.35, Fn: isolation},
		kit.Part{Name: "iterate", Share: 0.25, Fn: iterate})
}

// identity: which counters concurrent lookups return, with deletions in between.
func identity(c *kit.C) {
	o := storeOptions(c)
	limit := c.I64(0, 60)
	keys := keyset(c, c.Range(1, 3))
	gs := c.Range(2, 6)
	dels := kit.Pick(c, 0, 0, 1, 2)
	c.Desc("options %+v limit %d keys %q goroutines %d deleters %d", o, limit, keys, gs, dels)
	type look struct {
		s, e int64
		p    *vsa.VSA
	}
	c.Bubble(c.Delays(), func() {
		s := core.NewStoreWithOptions(limit, o)
		looks, del := map[string][]look{}, map[string][]look{}
		var mu sync.Mutex
		var wg sync.WaitGroup
		var keep []*vsa.VSA // so that no address is used twice
		for g := 0; g < gs; g++ {
			r := c.Sub()
			isDel := g < dels
			c.Go(&wg, func() {
				for i := 0; i < 5; i++ {
					k := keys[r.IntN(len(keys))]
					l := look{s: c.Tick()}
					if isDel && r.IntN(2) == 0 {
						s.Delete(k)
						l.e = c.Tick()
						mu.Lock()
						del[k] = append(del[k], l)
						mu.Unlock()
						continue
					}
					l.p = s.GetOrCreate(k)
					l.e = c.Tick()
					mu.Lock()
					looks[k] = append(looks[k], l)
					keep = append(keep, l.p)
					mu.Unlock()
				}
			})
		}
		wg.Wait()
		owner := map[*vsa.VSA]string{}
		for k, ls := range looks {
			for _, a := range ls {
				if q, is := owner[a.p]; is && q != k {
					c.Fail("keys %q and %q got the same counter", q, k)
				}
				owner[a.p] = k
				c.Hash(k, a.s, a.e)
				for _, b := range ls {
					if a.p != b.p && a.e < b.s {
						// a's counter must have been removed between
						okDel := false
						for _, d := range del[k] {
							if d.e > a.s && d.s < b.e {
								okDel = true
							}
						}
						if !okDel {
							c.Fail("key %q: lookup [%d,%d] and lookup [%d,%d] returned different counters though nothing removed the key", k, a.s, a.e, b.s, b.e)
						}
						for _, z := range ls {
							if z.p == a.p && z.s > b.e {
								c.Fail("key %q: a removed counter came back", k)
							}
						}
					}
					if a.p != b.p && len(del[k]) == 0 {
						c.Fail("key %q: two live counters", k)
					}
				}
				for _, d := range del[k] {
					if a.e < d.s {
						for _, z := range ls {
							if z.p == a.p && z.s > d.e {
								c.Fail("key %q: lookup after the removal returned the removed counter", k)
							}
						}
					}
				}
			}
		}
		for k := range looks {
			if live := present(s); len(del[k]) == 0 && live[k] == nil {
				c.Fail("key %q vanished", k)
			}
		}
		c.LabelN("lookups", int64(len(keep)))
		// each counter has exactly the configured budget and options
		for p, k := range owner {
			if S, V := p.State(); S != limit || V != 0 {
				c.Fail("key %q starts at (%d,%d), limit %d", k, S, V, limit)
			}
		}
		s.CloseAll()
	})
	c.Bubble(xpoint.Config{}, func() { // options: same denials as a counter built with them
		s := core.NewStoreWithOptions(limit, o)
		a, b := s.GetOrCreate("k"), vsa.NewWithOptions(limit, o)
		pause := func() {
			if o.UseCachedGate {
				time.Sleep(3*o.CacheInterval + ms)
			}
		}
		na, nb := 0, 0
		for i := int64(0); i < limit+2; i++ {
			pause()
			if a.TryConsume(1) {
				na++
			}
			if b.TryConsume(1) {
				nb++
			}
		}
		if na != nb {
			c.Fail("a stored counter admits %d, a counter built with the same budget and options %d", na, nb)
		}
		if S, _ := a.State(); S != limit {
			c.Fail("budget %d, want %d", S, limit)
		}
		b.Close()
		s.CloseAll()
	})
}

// isolation: each goroutine owns a key and predicts its state exactly, whatever others do.
func isolation(c *kit.C) {
	o := storeOptions(c)
	o.CacheSlack, o.GroupSlack, o.UseCachedGate = 0, 0, false
	limit := c.I64(1, 40)
	keys := keyset(c, c.Range(2, 5))
	withWorker := c.Pct(50)
	f := drawConf(c)
	f.ea = kit.Pick(c, time.Hour, 100*ms)
	c.Desc("options %+v limit %d keys %q worker %v %+v", o, limit, keys, withWorker, f)
	d := c.Delays()
	d.LongMax = min(d.LongMax, 20*time.Microsecond)
	checked := 0
	c.Bubble(d, func() {
		w := newWorld(c, limit, o)
		var wk *core.Worker
		busy := keys[1:]
		if withWorker {
			w.plan = func(n int, rows []core.Commit) (time.Duration, func(), bool) {
				for _, r := range rows {
					known := false
					for _, k := range keys {
						known = known || k == r.Key
					}
					if !known {
						c.Fail("a batch carries key %q, which nobody used", r.Key)
					}
				}
				return 0, nil, true
			}
			wk = f.worker(w)
			wk.Start()
		}
		var wg sync.WaitGroup
		// the watched key: its total is owned here; commits keep its availability
		{
			r := c.Sub()
			c.Go(&wg, func() {
				k := keys[0]
				used := int64(0) // consumed and neither refunded nor evicted
				ptr := w.store.GetOrCreate(k)
				for i := 0; i < 15; i++ {
					v := w.store.GetOrCreate(k)
					if v != ptr { // evicted: starts over
						if f.ea == time.Hour || !withWorker {
							c.Fail("key %q lost its counter", k)
						}
						ptr, used = v, 0
					}
					switch r.IntN(3) {
					case 0, 1:
						n := 1 + r.Int64N(6)
						want := limit-used >= n
						if got := v.TryConsume(n); got != want {
							c.Fail("key %q: consume %d answers %v with %d of %d used", k, n, got, used, limit)
						} else if got {
							used += n
						}
					case 2:
						if v.TryRefund(1) {
							used--
						}
					}
					// a refund that arrives while its unit is being folded is compensated by the worker
					if a := v.Available(); a != limit-used {
						c.Fail("key %q: %d available, want %d", k, a, limit-used)
					}
					checked++
					time.Sleep(time.Duration(r.Int64N(int64(3 * f.ci))))
				}
			})
		}
		for g := 0; g < 2; g++ {
			r := c.Sub()
			c.Go(&wg, func() {
				for i := 0; i < 20; i++ {
					k := busy[r.IntN(len(busy))]
					switch r.IntN(6) {
					case 0, 1, 2:
						w.store.GetOrCreate(k).TryConsume(1 + r.Int64N(5))
					case 3:
						w.store.GetOrCreate(k).TryRefund(1 + r.Int64N(3))
					case 4:
						v := w.store.GetOrCreate(k)
						if !withWorker {
							_, x := v.State()
							v.Commit(x)
						}
					case 5:
						if !withWorker {
							w.store.Delete(k)
						}
					}
					time.Sleep(time.Duration(r.Int64N(int64(2 * f.ci))))
				}
			})
		}
		wg.Wait()
		if wk != nil {
			wk.Stop()
		}
		w.store.CloseAll()
		c.Hash(limit, keys, checked, len(w.bs))
	})
	c.LabelN("predicted states", int64(checked))
}

// iterate: iteration sees every stable key once, no key twice, no unknown key.
func iterate(c *kit.C) {
	stable := keyset(c, c.Range(1, 12))
	is := map[string]bool{}
	for _, k := range stable {
		is[k] = true
	}
	c.Desc("stable keys %q", stable)
	n := 0
	c.Bubble(c.Delays(), func() {
		s := core.NewStore(10)
		for _, k := range stable {
			s.GetOrCreate(k)
		}
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			r := c.Sub()
			c.Go(&wg, func() {
				for i := 0; i < 12; i++ {
					k := fmt.Sprintf("volatile %d", r.IntN(6))
					if r.IntN(2) == 0 {
						s.GetOrCreate(k)
					} else {
						s.Delete(k)
					}
				}
			})
		}
		c.Go(&wg, func() {
			for i := 0; i < 4; i++ {
				seen := map[string]int{}
				visit(s, func(k string, v *vsa.VSA) {
					seen[k]++
					if v != nil {
						v.TryConsume(1)
					}
					time.Sleep(time.Duration(len(seen)))
				})
				for _, k := range stable {
					if seen[k] != 1 {
						c.Fail("iteration visited key %q %d times", k, seen[k])
					}
				}
				for k, x := range seen {
					if x > 1 || (!is[k] && (len(k) < 9 || k[:9] != "volatile ")) {
						c.Fail("iteration visited %q %d times", k, x)
					}
					c.Hash(k)
				}
				n += len(seen)
			}
		})
		wg.Wait()
		s.CloseAll()
	})
	c.LabelN("visits", int64(n))
}
