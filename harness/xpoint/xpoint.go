// Package xpoint injects delays. Every operation of the instrumented sync and sync/atomic
// packages calls Point; inside a synctest bubble a delay is a sleep in virtual time, so it
// decides the order of events without costing wall-clock time.
package xpoint

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

var (
	on    atomic.Bool
	gaps  atomic.Bool
	mu    sync.Mutex
	rng   *rand.Rand
	cfg   Config
	count int64
	since int
	next  int64 // next change point (Mode Pct)
	slept int64
)

// Config selects how delays are drawn.
type Config struct {
	P        float64       // probability of a short delay at a point
	Max      time.Duration // short delays are 1ns..Max
	LongGap  int64         // mean number of points between long delays, 0: none
	LongMax  time.Duration // long delays are 1ns..LongMax
	GoschedP float64       // probability of a bare yield
	Gaps     bool          // also between any two statements, at a quarter of P
}

// Start enables injection. Call it inside a bubble only.
func Start(seed uint64, c Config) {
	mu.Lock()
	rng = rand.New(rand.NewPCG(seed, 0x9e3779b97f4a7c15))
	cfg, count, since, slept = c, 0, 0, 0
	next = -1
	if c.LongGap > 0 {
		next = 1 + rng.Int64N(2*c.LongGap)
	}
	mu.Unlock()
	on.Store(true)
	gaps.Store(c.Gaps)
}

// Stop disables injection and reports how many points were passed and how many delays made.
func Stop() (points, delays int64) {
	on.Store(false)
	gaps.Store(false)
	mu.Lock()
	defer mu.Unlock()
	return count, slept
}

// Seen reports the points passed so far.
func Seen() int64 { mu.Lock(); defer mu.Unlock(); return count }

// Point is one injection point.
func Point() {
	if on.Load() {
		point(1)
	}
}

// Gap is an injection point between two statements.
func Gap() {
	if gaps.Load() {
		point(0.25)
	}
}

func point(share float64) {
	mu.Lock()
	count++
	since++
	var d time.Duration
	yield := false
	if next >= 0 && count >= next {
		next = count + 1 + rng.Int64N(2*cfg.LongGap)
		d = 1 + time.Duration(rng.Int64N(int64(cfg.LongMax)))
	} else if cfg.P > 0 && rng.Float64() < cfg.P*share {
		d = 1 + time.Duration(rng.Int64N(int64(cfg.Max)))
	} else if since > 1000 { // a spinning goroutine has to let virtual time pass
		d = 1
	} else if cfg.GoschedP > 0 && rng.Float64() < cfg.GoschedP {
		yield = true
	}
	if d > 0 {
		since = 0
		slept++
	}
	mu.Unlock()
	if d > 0 {
		time.Sleep(d)
	} else if yield {
		runtime.Gosched()
	}
}

// Intn is a draw from the injection stream, for choices the primitives make.
func Intn(n int) int {
	if n <= 1 || !on.Load() {
		return 0
	}
	mu.Lock()
	defer mu.Unlock()
	return rng.IntN(n)
}

// Stop2 disables injection without reading the counts.
func Stop2() { on.Store(false); gaps.Store(false) }
