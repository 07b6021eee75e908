package htfd

import (
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"vsa/internal/zzverif/kit"
	"vsa/internal/zzverif/xpoint"
	"vsa/plugin/tfd"
)

var plain = os.Getenv("VERIF_PLAIN") == "1"

// ---- C20 ----

func accumulate(c *kit.C) {
	p, order := kit.Pick(c, 1, 1, 2, 3, 8, 64, 0, -1), kit.Pick(c, 1, 1, 2, 3, 4, 8, 0, -3)
	count := kit.Pick(c, 1, 2, 10, 1000, 0, -1, math.MaxInt)
	cap := kit.Pick(c, 0, time.Nanosecond, time.Millisecond, time.Hour, -time.Second)
	acc := tfd.NewSAccumulator(p, order, count, cap)
	shards := shardsOf(acc)
	n := c.Range(0, 60)
	if c.Pct(5) {
		n = c.Range(200, 3000)
	}
	g := newCells(c, c.Range(1, 1+n))
	in, vec := tally{}, 0
	out := tally{}
	var outN, flushes, keyFlushes int
	var kept, copies [][]tfd.SBatch // what a flush returned is the caller's: later calls don't change it
	keep := func(bs []tfd.SBatch) {
		kept, copies = append(kept, bs), append(copies, append([]tfd.SBatch(nil), bs...))
	}
	settle := func(bs []tfd.SBatch) {
		keep(bs)
		out.batches(bs)
		outN += len(bs)
		flushes++
		if d := diff(in, out); d != "" {
			c.Fail("after %d flushes: %s", flushes, d)
		}
		if again := acc.FlushAll(); len(again) != 0 {
			c.Fail("a second flush with nothing ingested gave %d batches: %v", len(again), again[0])
		}
		in, out = tally{}, tally{}
	}
	for i := 0; i < n; i++ {
		cell := g.next()
		e := senv(cell, delta(c), seq(c))
		if c.Pct(10) {
			e.Footprint.Time.All = c.Pct(50)
			e.Footprint.Scope = tfd.ChannelVector
		}
		if c.Pct(5) {
			e.Channel = tfd.ChannelVector
			vec++
		} else {
			in.add(cell, e.Delta, e.SeqEnd)
		}
		acc.Ingest(e)
		if c.Pct(4) {
			settle(acc.FlushAll())
		} else if len(shards) > 0 && c.Pct(10) {
			k := g.next()[0]
			if c.Pct(10) {
				k = c.Uint64()
			}
			var bs []tfd.SBatch
			for _, s := range shards {
				s.FlushKey(k, &bs)
			}
			keep(bs)
			for _, b := range bs {
				if b.KeyID != k {
					c.Fail("a flush of key %x gave a batch of key %x", k, b.KeyID)
				}
			}
			// everything ingested for this key is out now, nothing of other keys
			sub, got := tally{}, tally{}
			for cell, e := range in {
				if cell[0] == k {
					sub[cell] = e
					delete(in, cell)
				}
			}
			got.batches(bs)
			if d := diff(sub, got); d != "" {
				c.Fail("flush of key %x: %s", k, d)
			}
			keyFlushes++
		}
	}
	cells := len(in)
	settle(acc.FlushAll())
	for i := range kept {
		for j := range kept[i] {
			if kept[i][j] != copies[i][j] {
				c.Fail("batch %d of flush %d was %v when it was returned, and is %v after later calls", j, i, copies[i][j], kept[i][j])
			}
		}
	}
	if n > 0 && flushes > 0 {
		c.Label(fmt.Sprintf("mode %d", g.mode))
	} else {
		c.Trivial()
	}
	if keyFlushes > 0 {
		c.Label("key flush")
	}
	if cells > 1<<uint(max(order, 1)) {
		c.Label("more cells than slots")
	}
	if vec > 0 {
		c.Label("vector ignored")
	}
	c.Events(int64(n))
	c.Desc("%d shards, order %d, threshold %d, mode %d: %d ingests, %d flushes, %d key flushes", p, order, count, g.mode, n, flushes, keyFlushes)
	c.Hash(p, order, g.mode, n, flushes, keyFlushes, outN)
}

// crowded: very many cells at once.
func crowded(c *kit.C) {
	p, order := kit.Pick(c, 1, 1, 2, 64), kit.Pick(c, 1, 4, 10)
	acc := tfd.NewSAccumulator(p, order, 0, 0)
	n := kit.Pick(c, 5000, 40000, 70000, 140000)
	base, step, few := c.Uint64(), c.Uint64()|1, c.Pct(30) // even steps make long probe sequences
	if c.Pct(30) {
		step = 1
	}
	rounds := c.Range(1, 2)
	c.Desc("%d shards, order %d, %d cells, step %x, few keys %v", p, order, n, step, few)
	for r := 0; r < rounds; r++ {
		in, out := tally{}, tally{}
		for j := 0; j < 2; j++ {
			for i := 0; i < n; i++ {
				cell := [2]uint64{base + uint64(i)*step, uint64(r)}
				if few {
					cell = [2]uint64{uint64(i % 3), base + uint64(i)*step}
				}
				e := senv(cell, int64(i%1000-300), uint64(j*n+i))
				in.add(cell, e.Delta, e.SeqEnd)
				acc.Ingest(e)
			}
		}
		bs := acc.FlushAll()
		out.batches(bs)
		if d := diff(in, out); d != "" {
			c.Fail("%d cells: %s", n, d)
		}
		if again := acc.FlushAll(); len(again) != 0 {
			c.Fail("a second flush with nothing ingested gave %d batches", len(again))
		}
	}
	c.Label("very many cells")
	c.Events(int64(2 * n * rounds))
	c.Hash(p, order, n, step, few, rounds)
}

func TestC20(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C20", kit.Part{Name: "accumulate", Fn: accumulate, CPU: 15 * time.Second}, kit.Part{Name: "crowded", Share: 0.0004, Fn: crowded, CPU: 60 * time.Second})
}

// ---- C21 ----

type sink struct {
	mu    sync.Mutex
	got   tally
	rows  int
	calls int
	pause func()
}

func (s *sink) OnSBatches(bs []tfd.SBatch) {
	if s.pause != nil {
		s.pause()
	}
	s.mu.Lock()
	s.got.batches(bs)
	s.rows += len(bs)
	s.calls++
	s.mu.Unlock()
}

func (s *sink) sum() int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	t := int64(0)
	for _, e := range s.got {
		t += e.net
	}
	return t
}

type sent struct {
	cell       [2]uint64
	d          int64
	call, done int64 // ticks
	ok         bool
}

type slowVSA struct {
	tfd.SimpleVSA
	pause func()
}

func (v slowVSA) Compress(b []tfd.SBatch) []tfd.SBatch {
	v.pause()
	return v.SimpleVSA.Compress(b)
}

func sleep(d time.Duration) {
	if d > 0 {
		time.Sleep(d)
	}
}

// lane is what producers, flushers and stoppers need of the S-lane.
type lane interface {
	Start()
	Stop()
	Flush()
	Ingest(tfd.Envelope)
	TryIngest(tfd.Envelope) bool
}

// pipeLane is the S-lane behind a pipeline.
type pipeLane struct{ *tfd.Pipeline }

func (p pipeLane) Flush()                        { p.FlushS() }
func (p pipeLane) Ingest(e tfd.Envelope)         { p.Handle(e, nil) }
func (p pipeLane) TryIngest(e tfd.Envelope) bool { p.Handle(e, nil); return true }

// service: producers, flushers and stoppers against one started service.
func service(c *kit.C) {
	run := func() {
		merged := c.Pct(40) // few cells, positive deltas; otherwise one cell per envelope
		unit := kit.Pick(c, time.Nanosecond*10, time.Microsecond, 100*time.Microsecond)
		if plain {
			unit = 20 * time.Microsecond
		}
		sk := &sink{got: tally{}}
		sr := c.Sub()
		slow := c.Pct(30)
		slowest := 20 * unit
		if !plain && c.Pct(6) {
			slow, slowest = true, kit.Pick(c, time.Second, time.Minute)
			c.Label("very slow sink")
		}
		base := kit.Pick[uint64](c, 0, 1, 1, math.MaxInt64-10, math.MaxUint64-5000)
		burst := c.Pct(2)
		var srMu sync.Mutex
		pause := func() {
			if slow {
				srMu.Lock()
				d := time.Duration(sr.Int64N(int64(slowest)))
				srMu.Unlock()
				sleep(d)
			}
		}
		sk.pause = pause
		var vsa tfd.VSATransformer = tfd.SimpleVSA{}
		switch c.IntN(3) {
		case 0:
			vsa = nil
		case 1:
			vsa = slowVSA{pause: pause}
		}
		opts := tfd.SServiceOptions{Buffer: kit.Pick(c, 1, 2, 8, 64, 0, -1), FlushInterval: kit.Pick(c, 3*unit, 50*unit, time.Hour, 0, -time.Second)}
		shards, order, count, tcap := c.Range(1, 4), c.Range(1, 6), kit.Pick(c, 1, 4, 100000), kit.Pick(c, unit, time.Hour)
		if burst { // thousands of envelopes queued
			opts.Buffer, slow = kit.Pick(c, 2000, 8192, 0), true
			order = 10
			c.Label("bursts")
		}
		var svc lane
		if c.Pct(30) {
			svc = pipeLane{tfd.NewPipeline(tfd.PipelineOptions{Shards: shards, OrderPow2: order, CountThresh: count, TimeCap: tcap, FlushInterval: opts.FlushInterval, Buffer: opts.Buffer, VSA: vsa, SSink: sk})}
			c.Label("through the pipeline")
		} else {
			svc = tfd.NewSService(tfd.NewSAccumulator(shards, order, count, tcap), vsa, sk, opts)
		}
		svc.Start()
		if c.Pct(20) {
			svc.Start()
		}
		var mu sync.Mutex
		var all []*sent
		var wg sync.WaitGroup
		np := c.Range(1, 5)
		stopEarly := c.Pct(30)
		stopDone := int64(0)
		type barrier struct {
			what       string
			call, done int64
			sum        int64
			have       map[[2]uint64]int64
		}
		var bars []barrier
		snapshot := func() (int64, map[[2]uint64]int64) {
			sk.mu.Lock()
			defer sk.mu.Unlock()
			m := map[[2]uint64]int64{}
			t := int64(0)
			for k, e := range sk.got {
				m[k] = e.net
				t += e.net
			}
			return t, m
		}
		for g := 0; g < np; g++ {
			r := c.Sub()
			n := c.Range(0, 25)
			try := kit.Pick(c, 0, 50, 100)
			gap := time.Duration(kit.Pick(c, 0, 1, 10)) * unit
			if burst && g < 2 {
				n, gap = c.Range(500, 3000), 0
			}
			c.Go(&wg, func() {
				for i := 0; i < n; i++ {
					s := &sent{cell: [2]uint64{uint64(g), uint64(i)}, d: 1 + r.Int64N(1000)}
					if merged {
						s.cell = [2]uint64{uint64(r.IntN(2)), 5}
					}
					mu.Lock()
					all = append(all, s)
					mu.Unlock()
					if gap > 0 {
						sleep(time.Duration(r.Int64N(int64(gap))))
					}
					s.call = c.Tick()
					if r.IntN(100) < try {
						s.ok = svc.TryIngest(senv(s.cell, s.d, base+uint64(i)))
						if !s.ok {
							c.Label("refused")
						}
					} else {
						svc.Ingest(senv(s.cell, s.d, base+uint64(i)))
						s.ok = true
					}
					s.done = c.Tick()
				}
			})
		}
		for g := c.IntN(3); g > 0; g-- {
			r := c.Sub()
			n := c.Range(1, 6)
			c.Go(&wg, func() {
				for i := 0; i < n; i++ {
					sleep(time.Duration(r.Int64N(int64(60 * unit))))
					b := barrier{what: "flush", call: c.Tick()}
					svc.Flush()
					b.sum, b.have = snapshot()
					b.done = c.Tick()
					mu.Lock()
					bars = append(bars, b)
					mu.Unlock()
				}
			})
		}
		stop := func(d time.Duration) {
			sleep(d)
			b := barrier{what: "stop", call: c.Tick()}
			svc.Stop()
			b.sum, b.have = snapshot()
			b.done = c.Tick()
			mu.Lock()
			bars = append(bars, b)
			if stopDone == 0 || b.call < stopDone {
				stopDone = b.call
			}
			mu.Unlock()
		}
		if stopEarly {
			for g := c.Range(1, 2); g > 0; g-- {
				d := time.Duration(c.Int64N(int64(100 * unit)))
				c.Go(&wg, func() { stop(d) })
			}
			c.Label("stop amid traffic")
		}
		wg.Wait()
		stop(0)
		svc.Flush()
		svc.Stop()
		// what must and may be in the sink at each barrier
		for _, b := range bars {
			if b.what == "flush" && stopDone != 0 && stopDone < b.done {
				continue // judged as of the stop
			}
			must, may := int64(0), int64(0)
			for _, s := range all {
				if !s.ok {
					continue
				}
				if s.call < b.done {
					may += s.d
				}
				// ingests that return after some stop was called may be dropped
				if s.done < b.call && (stopDone == 0 || s.done < stopDone) {
					must += s.d
					if !merged && b.have[s.cell] != s.d {
						c.Fail("an envelope ingested before the %s is not in the sink after it (cell %v: %d, want %d)", b.what, s.cell, b.have[s.cell], s.d)
					}
				}
			}
			if b.sum < must || b.sum > may {
				c.Fail("after the %s the sink has %d, but %d was ingested before and %d at all", b.what, b.sum, must, may)
			}
			c.Label(b.what)
		}
		// exactly once, nothing gained
		total, have := snapshot()
		sum, lost := int64(0), 0
		for _, s := range all {
			if !merged {
				h := have[s.cell]
				if h != 0 && h != s.d {
					c.Fail("cell %v has %d in the sink, want %d exactly once", s.cell, h, s.d)
				}
				if h != 0 && !s.ok {
					c.Fail("a refused envelope is in the sink")
				}
				if h == 0 && s.ok {
					lost++
				}
			}
			if s.ok {
				sum += s.d
			}
		}
		if total > sum || !stopEarly && total != sum {
			c.Fail("the sink has %d in the end, %d was ingested", total, sum)
		}
		if !merged {
			seen := map[[2]uint64]bool{}
			for _, s := range all {
				seen[s.cell] = true
			}
			for k := range have {
				if !seen[k] {
					c.Fail("cell %v came out of nowhere", k)
				}
			}
			for _, s := range all {
				if e := sk.got[s.cell]; e != nil && e.seq != base+s.cell[1] {
					c.Fail("cell %v has sequence %d, want %d", s.cell, e.seq, base+s.cell[1])
				}
			}
		}
		c.Events(int64(len(all)))
		if len(all) == 0 {
			c.Trivial()
		}
		c.Desc("%d producers, buffer %d, interval %v, merged %v, stop amid traffic %v: %d envelopes, %d barriers, %d sink calls", np, opts.Buffer, opts.FlushInterval, merged, stopEarly, len(all), len(bars), sk.calls)
		sig := []any{np, opts.Buffer, len(all), sk.calls, sk.rows}
		for _, s := range all {
			sig = append(sig, s.call, s.done)
		}
		c.Hash(sig...)
	}
	if plain {
		run()
	} else {
		c.Bubble(c.Delays(), run)
	}
}

// periodic: with no calls at all, everything is delivered within the interval plus the cap.
func periodic(c *kit.C) {
	c.Bubble(xpoint.Config{}, func() {
		interval := kit.Pick(c, time.Millisecond, 7*time.Millisecond, time.Second, 0, -1)
		cap := kit.Pick(c, time.Millisecond, 50*time.Millisecond, 10*time.Second, 0)
		sk := &sink{got: tally{}}
		var vsa tfd.VSATransformer
		if c.Pct(50) {
			vsa = tfd.SimpleVSA{}
		}
		svc := tfd.NewSService(tfd.NewSAccumulator(c.Range(1, 4), 4, kit.Pick(c, 1, 1000000), cap), vsa, sk, tfd.SServiceOptions{Buffer: 64, FlushInterval: interval})
		svc.Start()
		eff := interval
		if eff <= 0 {
			eff = 2 * time.Millisecond
		}
		want := int64(0)
		for i := c.Range(1, 4); i > 0; i-- {
			sleep(time.Duration(c.Int64N(int64(2 * eff))))
			for j := c.Range(1, 20); j > 0; j-- {
				d := c.I64(1, 9)
				svc.Ingest(senv([2]uint64{c.Uint64() % 5, 1}, d, 1))
				want += d
			}
			sleep(eff + max(cap, 0) + time.Nanosecond)
			synctest.Wait()
			if got := sk.sum(); got != want {
				c.Fail("%v after the last ingest (interval %v, cap %v) the sink has %d, want %d", eff+cap, interval, cap, got, want)
			}
		}
		// steady traffic does not postpone it
		if gap := eff / time.Duration(c.Range(2, 20)); gap > 0 && max(cap, 0) < 20*eff {
			type at struct {
				t   time.Time
				sum int64
			}
			var hist []at
			due := eff + max(cap, 0)
			for t0 := time.Now(); time.Since(t0) < 3*due; {
				svc.Ingest(senv([2]uint64{c.Uint64() % 5, 1}, 1, 1))
				want++
				hist = append(hist, at{time.Now(), want})
				sleep(gap)
				synctest.Wait()
				got, must := sk.sum(), int64(0)
				for _, h := range hist {
					if time.Since(h.t) > due {
						must = h.sum
					}
				}
				if got < must || got > want {
					c.Fail("under steady traffic (every %v; interval %v, cap %v) the sink has %d, %d was ingested more than %v ago", gap, interval, cap, got, must, due)
					break
				}
			}
			c.Label("steady traffic")
		}
		calls := sk.calls
		svc.Stop()
		if sk.sum() != want {
			c.Fail("after stop the sink has %d, want %d", sk.sum(), want)
		}
		c.Label("periodic")
		c.Events(int64(calls))
		c.Desc("periodic, interval %v, cap %v: %d sink calls", interval, cap, calls)
		c.Hash(interval, cap, want, calls)
	})
}

// saturated: producers keep the ingress buffer full all the time; the periodic flush happens nevertheless.
func saturated(c *kit.C) {
	now := tfd.Now
	defer func() { tfd.Now = now }()
	c.Bubble(xpoint.Config{}, func() {
		cost := c.Dur(time.Microsecond, 20*time.Microsecond) // of one ingest
		tfd.Now = func() time.Time {
			sleep(cost)
			return time.Now()
		}
		buffer := kit.Pick(c, 1, 4, 32)
		interval := time.Duration(c.Range(5, 60)) * cost
		cap := kit.Pick(c, time.Nanosecond, interval/2, interval)
		sk := &sink{got: tally{}}
		svc := tfd.NewSService(tfd.NewSAccumulator(1, 6, 1000000, cap), nil, sk, tfd.SServiceOptions{Buffer: buffer, FlushInterval: interval})
		svc.Start()
		// an envelope waits for those before it in the buffer, and which of two ready events the service takes first is open
		due := interval + cap + time.Duration(buffer+80)*cost
		end := time.Now().Add(5 * due)
		var mu sync.Mutex
		var at []time.Time // when ingests returned
		var wg sync.WaitGroup
		for p := c.Range(1, 3); p > 0; p-- {
			try := c.Pct(30)
			c.Go(&wg, func() {
				for time.Now().Before(end) {
					if e := senv([2]uint64{3, 1}, 1, 1); !try {
						svc.Ingest(e)
					} else if !svc.TryIngest(e) {
						sleep(cost / 2)
						continue
					}
					t := time.Now()
					mu.Lock()
					at = append(at, t)
					mu.Unlock()
				}
			})
		}
		for time.Now().Before(end) {
			sleep(interval / 2)
			t, n := time.Now().Add(-due), int64(0)
			got := sk.sum()
			mu.Lock()
			for int(n) < len(at) && at[n].Before(t) {
				n++
			}
			mu.Unlock()
			if got < n {
				c.Fail("buffer always full (%d, interval %v, cap %v, %v per ingest): the sink has %d, %d was ingested more than %v ago", buffer, interval, cap, cost, got, n, due)
				break
			}
		}
		wg.Wait()
		svc.Stop()
		if got := sk.sum(); got != int64(len(at)) {
			c.Fail("after stop the sink has %d, want %d", got, len(at))
		}
		c.Label("saturated")
		c.Events(int64(len(at)))
		c.Desc("saturated: buffer %d, interval %v, cap %v, %v per ingest: %d ingests", buffer, interval, cap, cost, len(at))
		c.Hash(interval, cap, len(at), sk.calls)
	})
}

// lifecycle: every order of start, stop, flush and ingest; once started or stopped, everything returns.
func lifecycle(c *kit.C) {
	var script []string
	report := c.TryBubble(c.Delays(), func() {
		sk := &sink{got: tally{}}
		svc := tfd.NewSService(tfd.NewSAccumulator(1, 2, 10, time.Second), nil, sk, tfd.SServiceOptions{Buffer: c.Range(1, 3), FlushInterval: kit.Pick(c, 50*time.Nanosecond, time.Hour)})
		var wg sync.WaitGroup
		var mu sync.Mutex
		n := c.Range(1, 5)
		ingested := int64(0)
		ever := false
		for g := 0; g < n; g++ {
			var ops []string
			for i := c.Range(1, 5); i > 0; i-- {
				ops = append(ops, kit.Pick(c, "start", "stop", "flush", "flush", "ingest", "ingest", "try", "vec"))
			}
			for _, o := range ops {
				ever = ever || o == "start" || o == "stop"
			}
			gap := kit.Pick(c, 0, 3, 200)
			r := c.Sub()
			script = append(script, strings.Join(ops, " "))
			c.Go(&wg, func() {
				for _, o := range ops {
					if gap > 0 {
						time.Sleep(time.Duration(r.IntN(gap)))
					}
					switch o {
					case "start":
						svc.Start()
					case "stop":
						svc.Stop()
					case "flush":
						svc.Flush()
					case "ingest":
						svc.Ingest(senv([2]uint64{1, 1}, 1, 1))
						mu.Lock()
						ingested++
						mu.Unlock()
					case "try":
						if svc.TryIngest(senv([2]uint64{1, 1}, 1, 1)) {
							mu.Lock()
							ingested++
							mu.Unlock()
						}
					case "vec":
						v := senv([2]uint64{1, 1}, 1<<40, 1)
						v.Channel = tfd.ChannelVector
						svc.Ingest(v)
						if !svc.TryIngest(v) {
							c.Fail("a vector envelope was refused instead of ignored")
						}
					}
				}
			})
		}
		// a last call makes it run or end, whatever the script was; several, in any order
		d := time.Duration(c.IntN(2000))
		last := kit.Pick(c, "stop", "stop", "start")
		if plain && last == "start" {
			last = "stop"
		}
		script = append(script, fmt.Sprintf("%s after %v", last, d))
		time.Sleep(d)
		if last == "start" {
			svc.Start()
		} else {
			svc.Stop()
		}
		wg.Wait() // deadlock here: some call never returns
		svc.Flush()
		if c.Pct(50) {
			svc.Flush()
			svc.Stop()
		}
		svc.Stop()
		svc.Ingest(senv([2]uint64{1, 1}, 1, 1)) // must return
		for i := 0; i < 5; i++ {
			svc.TryIngest(senv([2]uint64{1, 1}, 1, 1))
			svc.Ingest(senv([2]uint64{1, 1}, 1, 1))
		}
		if got := sk.sum(); got > ingested {
			c.Fail("the sink has %d, but only %d was ingested", got, ingested)
		}
		_ = ever
	})
	if report != "" {
		c.Fail("a call never returned, or a goroutine outlived the stop: %s", report)
	}
	c.Label("lifecycle")
	c.Events(int64(len(script)))
	c.Desc("lifecycle: %s", strings.Join(script, " | "))
	c.Hash(script)
}

func TestC21(t *testing.T) {
	kit.Quiet()
	if plain {
		kit.Run(t, "C21", kit.Part{Name: "threads", Fn: service, CPU: 20 * time.Second})
		return
	}
	kit.Run(t, "C21", kit.Part{Name: "service", Fn: service}, kit.Part{Name: "periodic", Share: 0.2, Fn: periodic}, kit.Part{Name: "saturated", Share: 0.03, Fn: saturated}, kit.Part{Name: "lifecycle", Fn: lifecycle})
}

// ---- C22 ----

type vrec struct {
	env        tfd.Envelope
	call, done int64
	who, i     int
	cb         []tfd.Envelope
}

func vlane(c *kit.C) {
	run := func() {
		sk := &sink{got: tally{}}
		pl := tfd.NewPipeline(tfd.PipelineOptions{Shards: c.Range(1, 2), OrderPow2: 4, CountThresh: 100, TimeCap: time.Hour, FlushInterval: time.Hour, Buffer: kit.Pick(c, 1, 8, 64), SSink: sk})
		pl.Start()
		keys := []uint64{kit.Pick(c, uint64(0), 1, c.Uint64()), 7, math.MaxUint64}[:c.Range(1, 3)]
		var mu sync.Mutex
		var recs []*vrec
		id := map[uint64]*vrec{} // by bucket: unique per envelope
		var wg sync.WaitGroup
		nc := c.Range(1, 4)
		scal := int64(0)
		many, first := 0, 0
		if c.Pct(2) { // a crowd of other keys, some there before
			first = c.Range(0, 3000)
			many = first + c.Range(10, 500)
			c.Label("thousands of keys")
		}
		crowd := func(lo, hi int) {
			for i := lo; i < hi; i++ {
				k := uint64(1000 + i)
				e := tfd.Envelope{Channel: tfd.ChannelVector, SeqEnd: k, Footprint: tfd.Footprint{KeyID: k, Scope: tfd.ChannelVector}}
				pl.Handle(e, nil)
				if d := pl.DrainV(k); len(d) != 1 || d[0].SeqEnd != k {
					c.Fail("key %d: drained %v", k, d)
				}
			}
		}
		crowd(0, first)
		c.Go(&wg, func() { crowd(first, many) })
		for g := 0; g < nc; g++ {
			r := c.Sub()
			n := c.Range(1, 10)
			only := -1
			if c.Pct(30) {
				only = c.IntN(len(keys))
			}
			pct := kit.Pick(c, 0, 30)
			gap := kit.Pick(c, 0, 30)
			c.Go(&wg, func() {
				for i := 0; i < n; i++ {
					if gap > 0 {
						time.Sleep(time.Duration(r.IntN(gap)))
					}
					k := keys[r.IntN(len(keys))]
					if only >= 0 {
						k = keys[only]
					}
					if r.IntN(100) < pct {
						pl.Handle(senv([2]uint64{k, 1}, 1, 1), func(tfd.Envelope) { c.Fail("a scalar envelope was persisted by the vector lane") })
						mu.Lock()
						scal++
						mu.Unlock()
						continue
					}
					v := &vrec{who: g, i: i}
					v.env = tfd.Envelope{Channel: tfd.ChannelVector, Delta: int64(r.Uint64()), SeqEnd: r.Uint64() >> uint(r.IntN(64)),
						Footprint: tfd.Footprint{KeyID: k, Scope: tfd.ChannelVector, Time: tfd.TimeFootprint{BucketID: uint64(g)<<32 | uint64(i), All: r.IntN(4) == 0}}}
					if r.IntN(5) == 0 {
						v.env.HashPrev[3] = 9 // what the caller puts here is replaced
					}
					mu.Lock()
					recs = append(recs, v)
					id[v.env.Footprint.Time.BucketID] = v
					mu.Unlock()
					var cb func(tfd.Envelope)
					with := r.IntN(10) > 0
					if with {
						cb = func(e tfd.Envelope) {
							if gap > 0 {
								time.Sleep(time.Duration(r.IntN(gap)))
							}
							v.cb = append(v.cb, e)
						}
					}
					v.call = c.Tick()
					pl.Handle(v.env, cb)
					v.done = c.Tick()
					want := v.env
					want.HashPrev = tfd.Hash128(k, v.env.SeqEnd)
					if with && len(v.cb) != 1 {
						c.Fail("a vector envelope was persisted %d times before its call returned", len(v.cb))
					} else if with && v.cb[0] != want {
						c.Fail("persisted %+v, want %+v", v.cb[0], want)
					}
				}
			})
		}
		// one drainer per key, so that what it drains is in order
		drained := map[uint64][]tfd.Envelope{}
		drainAt := map[uint64][]int64{}
		for _, k := range keys {
			r := c.Sub()
			n := c.IntN(4)
			c.Go(&wg, func() {
				for i := 0; i < n; i++ {
					time.Sleep(time.Duration(r.IntN(100)))
					d := pl.DrainV(k)
					t := c.Tick()
					mu.Lock()
					drained[k] = append(drained[k], d...)
					for range d {
						drainAt[k] = append(drainAt[k], t)
					}
					mu.Unlock()
				}
			})
		}
		wg.Wait()
		n := 0
		for _, k := range keys {
			drained[k] = append(drained[k], pl.DrainV(k)...)
			if d := pl.DrainV(k); len(d) != 0 {
				c.Fail("a second drain gave %d envelopes", len(d))
			}
			var list []*vrec
			seen := map[*vrec]bool{}
			for i, e := range drained[k] {
				v := id[e.Footprint.Time.BucketID]
				if v == nil || v.env.Footprint.KeyID != k {
					c.Fail("drained from key %x: %+v, never handled for it", k, e)
					continue
				}
				want := v.env
				want.HashPrev = tfd.Hash128(k, v.env.SeqEnd)
				if e != want {
					c.Fail("drained %+v, want %+v", e, want)
				}
				if seen[v] {
					c.Fail("drained twice: %+v", e)
				}
				seen[v] = true
				if i < len(drainAt[k]) && v.call > drainAt[k][i] {
					c.Fail("drained before handled")
				}
				list = append(list, v)
			}
			for _, v := range recs {
				if v.env.Footprint.KeyID == k && !seen[v] {
					c.Fail("handled but never drained: %+v", v.env)
				}
			}
			// the order of handling: one that returned before another began comes first
			latest := int64(0)
			for i := range list {
				if list[i].done < latest {
					c.Fail("key %x: an envelope whose call returned at %d was drained after one whose call began at %d", k, list[i].done, latest)
				}
				latest = max(latest, list[i].call)
			}
			n += len(list)
		}
		if d := pl.DrainV(123456); len(d) != 0 {
			c.Fail("a key without envelopes drained %d", len(d))
		}
		pl.FlushS()
		if sk.sum() != scal {
			c.Fail("%d scalar envelopes were handled, the sink has %d", scal, sk.sum())
		}
		pl.Stop()
		if scal > 0 {
			c.Label("scalar amid vectors")
		}
		c.Label("vectors")
		c.Events(int64(n))
		if n == 0 {
			c.Trivial()
		}
		c.Desc("%d callers, %d keys, %d vector and %d scalar envelopes", nc, len(keys), n, scal)
		var sig []any
		for _, v := range recs {
			sig = append(sig, v.who, v.i, v.call, v.done)
		}
		c.Hash(sig...)
	}
	if plain {
		run()
	} else {
		c.Bubble(c.Delays(), run)
	}
}

// wide: very many keys, each with few envelopes that wait for long.
func wide(c *kit.C) {
	n := kit.Pick(c, 300, 5000, 30000)
	gs := c.Range(1, 4)
	deep := c.Pct(15) // all of one key
	run := func() {
		if deep {
			n := 5 * n
			pl := tfd.NewPipeline(tfd.PipelineOptions{})
			id := c.Uint64()
			for i := 0; i < n; i++ {
				pl.Handle(tfd.Envelope{Channel: tfd.ChannelVector, Delta: int64(i), SeqEnd: uint64(i), Footprint: tfd.Footprint{KeyID: id, Scope: tfd.ChannelVector}}, nil)
			}
			d := pl.DrainV(id)
			if len(d) != n {
				c.Fail("%d envelopes of one key were handled, %d drained", n, len(d))
			}
			for i := range d {
				if d[i].Delta != int64(i) {
					c.Fail("envelope %d of %d of one key is number %d", i, n, d[i].Delta)
					break
				}
			}
			pl.Stop()
			return
		}
		pl := tfd.NewPipeline(tfd.PipelineOptions{})
		base, step := c.Uint64(), kit.Pick(c, uint64(1), 1<<32, 1<<20, 0x9e3779b97f4a7c15)
		var wg sync.WaitGroup
		for g := 0; g < gs; g++ {
			c.Go(&wg, func() {
				for i := 0; i < 2*n; i++ {
					k := i % n
					if k%gs == g {
						pl.Handle(tfd.Envelope{Channel: tfd.ChannelVector, Delta: int64(i), SeqEnd: uint64(i), Footprint: tfd.Footprint{KeyID: base + uint64(k)*step, Scope: tfd.ChannelVector}}, nil)
					}
				}
			})
		}
		wg.Wait()
		for k := 0; k < n && !c.Failed(); k++ {
			id := base + uint64(k)*step
			d := pl.DrainV(id)
			if len(d) != 2 || d[0].Delta != int64(k) || d[1].Delta != int64(k+n) || d[1].Footprint.KeyID != id || d[0].HashPrev != tfd.Hash128(id, uint64(k)) || d[1].HashPrev != tfd.Hash128(id, uint64(k+n)) {
				c.Fail("one of %d keys: two envelopes (%d, %d) were handled, drained %+v", n, k, k+n, d)
			}
		}
		pl.Stop()
	}
	if plain {
		run()
	} else {
		c.Bubble(xpoint.Config{}, run)
	}
	c.Label("many keys")
	c.Events(int64(2 * n))
	c.Desc("%d keys, %d callers", n, gs)
	c.Hash(n, gs)
}

// routers: the actors themselves, used directly.
func routers(c *kit.C) {
	run := func() {
		r := tfd.NewVRouter()
		k := c.Uint64()
		var wg sync.WaitGroup
		acts := make([]*tfd.VActor, 4)
		for g := range acts {
			c.Go(&wg, func() { acts[g] = r.Route(k) })
		}
		wg.Wait()
		for _, a := range acts {
			if a != acts[0] || a == r.Route(k+1) {
				c.Fail("a key has several actors, or keys share one")
			}
		}
		n := c.Range(1, 12)
		var want []tfd.Envelope
		for i := 0; i < n; i++ {
			e := tfd.Envelope{Channel: tfd.ChannelVector, Delta: int64(i), SeqEnd: seq(c), Footprint: tfd.Footprint{KeyID: k}}
			if c.Pct(20) {
				e.Channel = tfd.ChannelScalar
				acts[0].Enqueue(e)
				continue
			}
			acts[0].Enqueue(e)
			e.HashPrev = tfd.Hash128(k, e.SeqEnd)
			want = append(want, e)
			if c.Pct(10) {
				if d := acts[0].Drain(); len(d) != len(want) || len(want) > 0 && !reflect.DeepEqual(d, want) {
					c.Fail("drained %v, want %v", d, want)
				}
				want = nil
			}
		}
		if d := r.Route(k).Drain(); len(d) != len(want) || len(want) > 0 && !reflect.DeepEqual(d, want) {
			c.Fail("drained %v, want %v", d, want)
		}
		c.Events(int64(n))
		c.Label("direct")
		c.Desc("%d envelopes to one actor", n)
		c.Hash(n, len(want), k)
	}
	if plain {
		run()
	} else {
		c.Bubble(c.Delays(), run)
	}
}

func TestC22(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C22", kit.Part{Name: "pipeline", Fn: vlane}, kit.Part{Name: "actors", Share: 0.2, Fn: routers}, kit.Part{Name: "wide", Share: 0.004, Fn: wide})
}

// ---- C23 ----

var strs = []string{"k", "K", "k ", " k", "kk", "k\x00", "\x00", "\x00\x00", "a", "b", "ab", "ba", "é", "e\u0301", "\xff", "\xfe", "2024-01-01", "2024-01-02", strings.Repeat("x", 1000), strings.Repeat("x", 1001), "0", "1", "-1"}

func str(c *kit.C) string {
	if c.Pct(70) {
		return strs[c.IntN(len(strs))]
	}
	n := c.IntN(12)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(c.IntN(256))
	}
	return string(b)
}

var (
	hashMu   sync.Mutex
	hashSeen = map[uint64]string{}
)

func hashOf(c *kit.C, s string) uint64 {
	h := tfd.HashKey(s)
	hashMu.Lock()
	defer hashMu.Unlock()
	if o, ok := hashSeen[h]; ok && o != s {
		c.Fail("%q and %q have the same id %x", o, s, h)
	}
	if len(hashSeen) < 300000 {
		hashSeen[h] = s
	}
	return h
}

func drawOp(c *kit.C) tfd.Op {
	op := tfd.Op{Key: str(c), Bucket: str(c), Amount: delta(c), SeqEnd: seq(c), IsSingleKey: true, IsConservativeDelta: true}
	if c.Pct(20) {
		op.Bucket = ""
	}
	if c.Pct(5) {
		op.Key = ""
	}
	if c.Pct(60) {
		f := c.IntN(128)
		op.IsBackdated, op.IsCrossKey, op.ChangesPolicy, op.NeedsExternalDecision, op.IsGlobal = f&1 > 0, f&2 > 0, f&4 > 0, f&8 > 0, f&16 > 0
		op.IsSingleKey, op.IsConservativeDelta = f&32 > 0, f&64 > 0
	}
	return op
}

func classify(c *kit.C) {
	op := drawOp(c)
	ch, fp, d, err := tfd.Classify(op)
	c.Events(1)
	c.Desc("%+v -> %v %+v %d %v", op, ch, fp, d, err)
	c.Hash(op)
	if op.Key == "" {
		if err == nil || !errors.Is(err, tfd.ErrNoKey) {
			c.Fail("an operation without key gave %v", err)
		}
		if ch == tfd.ChannelScalar {
			c.Fail("an operation without key goes to the scalar lane")
		}
		c.Label("no key")
		return
	}
	if err != nil {
		c.Fail("%+v: %v", op, err)
	}
	elig := op.IsSingleKey && op.IsConservativeDelta && !op.IsBackdated && !op.IsCrossKey && !op.ChangesPolicy && !op.NeedsExternalDecision && !op.IsGlobal
	if ch == tfd.ChannelScalar {
		c.Label("scalar")
		if !elig {
			c.Fail("%+v goes to the scalar lane", op)
		}
	} else {
		c.Label("vector")
	}
	if fp.Scope != ch {
		c.Fail("%+v: lane %v, but the footprint says %v", op, ch, fp.Scope)
	}
	if d != op.Amount {
		c.Fail("%+v: amount %d", op, d)
	}
	if fp.KeyID != hashOf(c, op.Key) {
		c.Fail("%+v: key id %x", op, fp.KeyID)
	}
	if fp.Time.All != (op.Bucket == "") {
		c.Fail("%+v: all buckets = %v", op, fp.Time.All)
	}
	if op.Bucket != "" && fp.Time.BucketID != hashOf(c, op.Bucket) {
		c.Fail("%+v: bucket id %x", op, fp.Time.BucketID)
	}
}

// overwrite is an operation with a footprint whose order matters: it overwrites every cell it covers.
func overwrite(st map[[2]uint64]int, f tfd.Footprint, buckets []uint64, v int) {
	for _, b := range buckets {
		if f.Time.All || f.Time.BucketID == b {
			st[[2]uint64{f.KeyID, b}] = v
		}
	}
}

func disjoint(c *kit.C) {
	ids := []uint64{0, 1, c.Uint64(), math.MaxUint64}
	draw := func() tfd.Footprint {
		return tfd.Footprint{KeyID: kit.Pick(c, ids...), Time: tfd.TimeFootprint{BucketID: kit.Pick(c, ids...), All: c.Pct(30)}, Scope: kit.Pick(c, tfd.ChannelScalar, tfd.ChannelScalar, tfd.ChannelScalar, tfd.ChannelVector)}
	}
	f, g := draw(), draw()
	d := f.Disjoint(g)
	c.Events(1)
	c.Desc("%+v and %+v: %v", f, g, d)
	c.Hash(f, g)
	if d != g.Disjoint(f) {
		c.Fail("%+v and %+v: %v one way, %v the other", f, g, d, !d)
	}
	if !d {
		c.Label("not disjoint")
		return
	}
	c.Label("disjoint")
	if f.Scope != tfd.ChannelScalar || g.Scope != tfd.ChannelScalar {
		c.Fail("%+v and %+v are called disjoint, but one is ordered by policy", f, g)
	}
	a, b := map[[2]uint64]int{}, map[[2]uint64]int{}
	overwrite(a, f, ids, 1)
	overwrite(a, g, ids, 2)
	overwrite(b, g, ids, 2)
	overwrite(b, f, ids, 1)
	if !reflect.DeepEqual(a, b) {
		c.Fail("%+v and %+v are called disjoint, but their order matters: %v, %v", f, g, a, b)
	}
}

func reconstruct(c *kit.C) {
	var want = map[[2]uint64]int64{}
	var envs, vs []tfd.Envelope
	acc := tfd.NewSAccumulator(c.Range(1, 4), c.Range(1, 5), 10, time.Second)
	var groups [][]tfd.SBatch
	n := c.Range(0, 60)
	if c.Pct(5) {
		n = 400
	} else if c.Pct(1) {
		n = c.Range(1000, 10000)
	}
	gen := newCells(c, 1+n/2)
	useOps := c.Pct(50)
	sN := 0
	for i := 0; i < n; i++ {
		var e tfd.Envelope
		if useOps {
			op := drawOp(c)
			ch, fp, d, err := tfd.Classify(op)
			if err != nil {
				continue
			}
			e = tfd.Envelope{Channel: ch, Footprint: fp, Delta: d, SeqEnd: op.SeqEnd}
		} else {
			e = senv(gen.next(), delta(c), seq(c))
			if c.Pct(30) {
				e.Channel, e.Footprint.Scope = tfd.ChannelVector, tfd.ChannelVector
			}
		}
		envs = append(envs, e)
		want[[2]uint64{e.Footprint.KeyID, e.Footprint.Time.BucketID}] += e.Delta
		if e.Channel == tfd.ChannelScalar {
			sN++
			acc.Ingest(e)
			if c.Pct(20) {
				groups = append(groups, acc.FlushAll())
			}
		} else {
			vs = append(vs, e)
		}
	}
	groups = append(groups, acc.FlushAll())
	var sb []tfd.SBatch
	for _, g := range groups {
		if c.Pct(50) {
			g = tfd.SimpleVSA{}.Compress(g)
		}
		sb = append(sb, g...)
	}
	c.Shuffle(len(sb), func(i, j int) { sb[i], sb[j] = sb[j], sb[i] })
	if c.Pct(30) {
		k := c.IntN(len(sb) + 1)
		sb = append(tfd.SimpleVSA{}.Compress(append([]tfd.SBatch{}, sb[:k]...)), sb[k:]...)
	}
	c.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	check := func(what string, s *tfd.State) {
		cells := s.Cells()
		for k, v := range want {
			if cells[k] != v {
				c.Fail("%s: cell %x is %d, want %d", what, k, cells[k], v)
				return
			}
		}
		for k, v := range cells {
			if v != 0 && want[k] != v {
				c.Fail("%s: cell %x is %d, want nothing", what, k, v)
				return
			}
		}
	}
	base := tfd.NewState()
	base.BaselineApply(envs)
	check("in order", base)
	rec := tfd.NewState()
	if c.Pct(30) { // in several steps
		a, b := c.IntN(len(sb)+1), c.IntN(len(vs)+1)
		rec.Reconstruct(sb[:a], vs[b:])
		rec.Reconstruct(sb[a:], vs[:b])
	} else {
		rec.Reconstruct(sb, vs)
	}
	check("reconstructed", rec)
	c.Events(int64(len(envs)))
	c.Label("reconstruct")
	if len(envs) == 0 {
		c.Trivial()
	}
	c.Desc("%d scalar and %d vector envelopes in %d flushes, %d batches", sN, len(vs), len(groups), len(sb))
	c.Hash(len(envs), len(groups), len(sb), sN, c.Index)
}

func TestC23(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C23", kit.Part{Name: "classify", Fn: classify}, kit.Part{Name: "disjoint", Share: 0.5, Fn: disjoint}, kit.Part{Name: "reconstruct", Share: 0.5, Fn: reconstruct, CPU: 15 * time.Second})
}

// ---- C24 ----

func compressOne(c *kit.C, n int) {
	g := newCells(c, 1+c.IntN(n+1))
	var in []tfd.SBatch
	want := tally{}
	cancel := c.Pct(40)
	for i := 0; i < n; i++ {
		cell := g.next()
		b := tfd.SBatch{KeyID: cell[0], BucketID: cell[1], NetDelta: delta(c), SeqEnd: seq(c)}
		if e := want[cell]; cancel && e != nil && c.Pct(40) {
			b.NetDelta = -e.net // nets that become zero, some only for a while
		}
		want.add(cell, b.NetDelta, b.SeqEnd)
		in = append(in, b)
	}
	check := func(what string, out []tfd.SBatch) {
		got := tally{}
		got.batches(out)
		for k, e := range got {
			w := want[k]
			switch {
			case e.n > 1:
				c.Fail("%s: cell %x comes out %d times", what, k, e.n)
			case w == nil:
				c.Fail("%s: cell %x was never put in", what, k)
			case e.net != w.net || e.seq != w.seq:
				c.Fail("%s: cell %x is net %d seq %d, want net %d seq %d", what, k, e.net, e.seq, w.net, w.seq)
			case e.net == 0:
				c.Fail("%s: cell %x has net zero", what, k)
			}
		}
		for k, w := range want {
			if w.net != 0 && got[k] == nil {
				c.Fail("%s: cell %x with net %d was dropped", what, k, w.net)
			}
			if w.net == 0 {
				c.Label("zero net")
			}
		}
	}
	out := tfd.SimpleVSA{}.Compress(in)
	check("compressed", out)
	first := sortBatches(out)
	again := tfd.SimpleVSA{}.Compress(append([]tfd.SBatch{}, out...))
	check("compressed twice", again)
	if !reflect.DeepEqual(sortBatches(again), first) {
		c.Fail("compressing twice changed %v into %v", first, again)
	}
	c.Events(int64(n))
	c.Label(fmt.Sprintf("mode %d", g.mode))
	if n >= 60 && n <= 70 {
		c.Label("around the threshold")
	}
	c.Hash(n, g.mode, len(out), len(want))
}

func compress(c *kit.C) {
	n := c.Range(0, 70)
	switch c.IntN(6) {
	case 0:
		n = c.Range(60, 70)
	case 1:
		n = c.Range(70, 400)
	case 2:
		n = c.Range(0, 5)
	case 3:
		if c.Pct(1) {
			n = c.Range(1000, 40000)
			c.Label("huge")
		}
	}
	compressOne(c, n)
	c.Desc("%d batches", n)
	if n == 0 {
		if out := (tfd.SimpleVSA{}).Compress(nil); len(out) != 0 {
			c.Fail("nothing was compressed into %v", out)
		}
	}
}

func TestC24(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C24", kit.Part{Name: "compress", Fn: compress, CPU: 15 * time.Second})
}
