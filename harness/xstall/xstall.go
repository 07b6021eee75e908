// Package xstall holds up the goroutines of an instrumented binary, as the scheduler of a busy machine may do: VERIF_STALL is
// "seed m us l us n": stalls in m of 1000 statements of the main package and l of 100000 of the other ones, of up to so many
// microseconds, n stalls at most.
package xstall

import (
	"fmt"
	"os"
	"sync/atomic"
	"time"
)

var (
	state                     atomic.Uint64
	mainPm, libPm, mainUs, us uint64
	left                      atomic.Int64
	on                        bool
)

func init() {
	var seed uint64
	var n int64
	if k, _ := fmt.Sscan(os.Getenv("VERIF_STALL"), &seed, &mainPm, &mainUs, &libPm, &us, &n); k == 6 {
		state.Store(seed*2654435761 + 12345)
		left.Store(n)
		on = true
	}
}

func draw() uint64 { // splitmix64
	z := state.Add(0x9e3779b97f4a7c15)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

func stall(pm, of, us uint64) {
	if !on || pm == 0 || left.Load() <= 0 {
		return
	}
	if r := draw(); r%of < pm && left.Add(-1) >= 0 {
		time.Sleep(time.Duration(r>>20%(us+1)) * time.Microsecond)
	}
}

// Main is a point in the main package.
func Main() { stall(mainPm, 1000, mainUs) }

// Gap is a point elsewhere.
func Gap() { stall(libPm, 100000, us) }
