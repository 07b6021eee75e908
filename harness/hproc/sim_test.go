package hproc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"vsa/internal/zzverif/kit"
	"vsa/plugin/tfd"
)

// ---- C29 ----

// scrape reads the simulator's metrics.
func scrape(k *client) (map[string]float64, bool) {
	a, err := k.do("GET", "/metrics", nil, nil)
	if err != nil || a.status != 200 {
		return nil, false
	}
	m := map[string]float64{}
	for _, l := range strings.Split(string(a.body), "\n") {
		if f := strings.Fields(l); len(f) == 2 && strings.HasPrefix(l, "tfd_") {
			if x, err := strconv.ParseFloat(f[1], 64); err == nil {
				m[f[0]] = x
			}
		}
	}
	return m, true
}

// pipe is a log device that takes what is written to it at its own pace.
type pipe struct {
	f    *os.File
	buf  bytes.Buffer
	done chan struct{}
}

// newPipe makes a pipe at path that takes a piece of data every gap, and nothing once it has taken
// stall bytes until free is closed. It ends once gone is closed and all is read.
func newPipe(path string, gap time.Duration, stall int, free, gone <-chan struct{}) (*pipe, error) {
	if err := syscall.Mkfifo(path, 0o600); err != nil {
		return nil, err
	}
	// not blocking, so that opening it waits for no writer; it then ends when there is none
	f, err := os.OpenFile(path, os.O_RDONLY|syscall.O_NONBLOCK, 0)
	if err != nil {
		return nil, err
	}
	p := &pipe{f: f, done: make(chan struct{})}
	go func() {
		defer close(p.done)
		b := make([]byte, 1<<16)
		for {
			if p.buf.Len() >= stall {
				<-free
			}
			n, err := f.Read(b)
			p.buf.Write(b[:n])
			if n == 0 && err != nil {
				select {
				case <-gone:
					return
				case <-time.After(time.Millisecond):
				}
			}
			time.Sleep(gap)
		}
	}()
	return p, nil
}

// records decodes a log of one JSON value per line.
func records[T any](c *kit.C, path string, dev *pipe) (out []T) {
	var b []byte
	var err error
	if dev != nil {
		<-dev.done
		dev.f.Close()
		b = dev.buf.Bytes()
	} else if b, err = os.ReadFile(path); err != nil {
		c.Fail("log: %v", err)
		return nil
	}
	for i, l := range strings.Split(string(b), "\n") {
		if l == "" {
			continue
		}
		var x T
		if err := json.Unmarshal([]byte(l), &x); err != nil {
			c.Fail("line %d of %s: %v in %q", i, filepath.Base(path), err, tail(l, 200))
			return nil
		}
		out = append(out, x)
	}
	return out
}

func simulate(c *kit.C) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "sim-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	sLog, vLog := filepath.Join(dir, "s.log"), filepath.Join(dir, "v.log")
	slow := c.Pct(60) // one burst a second, so that there are instants at which nothing happens
	keys, buckets := c.Range(1, 60), c.Range(1, 20)
	burst, qps := c.Range(1, 3000), 1
	if !slow {
		burst, qps = c.Range(1, 60), kit.Pick(c, 300, 2000, 20000)
	}
	cov := kit.Pick(c, 0.0, 0.5, 0.85, 1)
	heavy := c.Pct(6) // flushes of so many cells that the service falls behind the generator
	if heavy {
		slow, keys, buckets, burst, qps, cov = true, 3000, 64, 150000, 1, kit.Pick(c, 0.85, 1)
	}
	device := c.Pct(15) // a log device that stops taking data for a while
	if device {
		heavy, slow, keys, buckets, qps, cov = false, true, 3000, 64, 1, kit.Pick(c, 0.85, 1)
		burst = kit.Pick(c, 20000, 40000, 80000)
	}
	timed := c.Pct(30) && !heavy && !device
	run := c.Dur(100*time.Millisecond, 900*time.Millisecond)
	dur := time.Duration(0)
	if timed {
		dur = run
		if slow {
			dur = c.Dur(1300*time.Millisecond, 1700*time.Millisecond)
		}
	}
	args := []string{"-s_log=" + sLog, "-v_log=" + vLog, fmt.Sprintf("-keys=%d", keys), fmt.Sprintf("-buckets=%d", buckets), fmt.Sprintf("-burst=%d", burst),
		fmt.Sprintf("-qps=%d", qps), fmt.Sprintf("-s_coverage=%v", cov), fmt.Sprintf("-duration=%v", dur),
		fmt.Sprintf("-shards=%d", kit.Pick(c, 1, 4, 7)), fmt.Sprintf("-order_pow2=%d", kit.Pick(c, 1, 4, 10)), "-flush=" + kit.Pick(c, "1ms", "2ms", "50ms", "1h")}
	var sDev, vDev *pipe
	free, gone := make(chan struct{}), make(chan struct{})
	release, leave := sync.OnceFunc(func() { close(free) }), sync.OnceFunc(func() { close(gone) })
	defer leave()
	defer release()
	if device {
		args[len(args)-1] = "-flush=" + kit.Pick(c, "1ms", "10ms")
		stall := kit.Pick(c, 1, 100_000, 1<<20, 3<<20)
		gap := c.Dur(0, 300*time.Microsecond)
		if sDev, err = newPipe(sLog, gap, stall, free, gone); err == nil && c.Pct(30) {
			vDev, err = newPipe(vLog, gap, stall, free, gone)
		}
		if err != nil {
			panic(err)
		}
	}
	c.Desc("%v", args)
	began := time.Now().Round(0).Add(-time.Second)
	p := launchStalled(c, sometimes(c), "tfd-sim", "-http", args...)
	if p == nil {
		return
	}
	defer p.kill()
	t0 := time.Now()
	b := &book{sent: map[cell]int64{}, acc: map[cell]int64{}, open: map[cell][]int64{}}
	var wg sync.WaitGroup
	quit := make(chan struct{})
	stopClients := sync.OnceFunc(func() { close(quit) })
	defer wg.Wait()
	defer stopClients()
	late := c.Pct(50) && !timed // clients go on after the signal
	for n := c.IntN(4); n > 0; n-- {
		r := c.Sub()
		c.Go(&wg, func() {
			k := &client{addr: p.addr}
			defer k.close()
			for p.alive() && time.Since(t0) < 30*time.Second {
				select {
				case <-quit:
					return
				default:
				}
				x := cell{[]string{"a", "b c", "ü/&", "user:", "k%41"}[r.IntN(5)], fmt.Sprint(r.IntN(3))}
				amt := int64(1 + r.IntN(9))
				q := url.Values{"key": {x.key}, "bucket": {x.bucket}, "n": {strconv.FormatInt(amt, 10)}}
				if r.IntN(20) == 0 {
					q.Del("key")
				}
				a, err := k.do([]string{"POST", "GET"}[r.IntN(2)], "/consume", q, nil)
				if err == errNotSent {
					if !late {
						continue
					}
					return
				}
				b.Lock()
				switch {
				case !q.Has("key"):
					if err == nil && a.status != 400 {
						c.Fail("a consume without key was answered %d", a.status)
					}
				case err != nil:
					b.open[x] = append(b.open[x], amt)
				case a.status == 202:
					b.acc[x] += amt
				default:
					c.Fail("consume answered %d: %s", a.status, a.body)
				}
				b.Unlock()
				if r.IntN(3) == 0 {
					time.Sleep(time.Duration(r.IntN(3000)) * time.Microsecond)
				}
			}
		})
	}
	mk := &client{addr: p.addr}
	defer mk.close()
	last := map[string]float64{}
	look := func() bool {
		m, ok := scrape(mk)
		if ok {
			for _, n := range []string{"tfd_total_ops", "tfd_s_ops", "tfd_v_ops", "tfd_s_batches_in_total", "tfd_s_batches_out_total", "tfd_try_ingest_fail_total"} {
				if m[n] < last[n] {
					c.Fail("%s fell from %v to %v", n, last[n], m[n])
				}
			}
			// a scrape reads its counters one after the other
			if last["tfd_s_batches_out_total"] > m["tfd_s_batches_in_total"] {
				c.Fail("%v batches after compression, %v before", last["tfd_s_batches_out_total"], m["tfd_s_batches_in_total"])
			}
			if s, up := m["tfd_s_flush_interval_seconds_sum"], time.Since(t0).Seconds()+60; s > up {
				c.Fail("the intervals between flushes add up to %v s in a run of at most %v s", s, up)
			}
			last = m
			c.Label("scrapes")
		}
		return ok
	}
	// exact: nothing was generated between the last look and the end
	exact := false
	var seen time.Time
	switch {
	case slow && !timed:
		seen = t0 // the last instant known to lie before the burst
		moved, at := time.Now(), 0.0
		for p.alive() && time.Since(t0) < 20*time.Second {
			now := time.Now()
			look()
			if n := last["tfd_total_ops"]; n == 0 {
				seen = now
			} else if n == float64(burst) {
				// a scrape reads its counters one after the other: only in the next one are
				// the others up to date, but for the last operation, which may be under way
				exact = look() && last["tfd_total_ops"] == float64(burst)
				break
			} else if n > float64(burst) {
				break
			} else if n != at {
				moved, at = now, n
			} else if device && now.Sub(moved) > 150*time.Millisecond {
				c.Label("stopped while the log device stood still")
				break
			}
			time.Sleep(time.Millisecond)
		}
		time.Sleep(c.Dur(0, 60*time.Millisecond))
	case timed:
		for p.alive() && time.Since(t0) < dur+60*time.Second {
			look()
			time.Sleep(c.Dur(time.Millisecond, 30*time.Millisecond))
		}
	default:
		for time.Since(t0) < run {
			look()
			time.Sleep(c.Dur(time.Millisecond, 30*time.Millisecond))
		}
	}
	if !late {
		stopClients()
		if !device { // else they may be waiting for it
			wg.Wait()
		}
	}
	if !timed {
		if !p.alive() {
			c.Fail("the simulator ended by itself: %v\n%s", p.err, tail(p.text("err"), 3000))
		}
		_ = p.cmd.Process.Signal(kit.Pick(c, syscall.SIGTERM, syscall.SIGINT))
	}
	if device {
		time.Sleep(c.Dur(0, 300*time.Millisecond))
		release()
	}
	if !p.wait("end of the simulation") {
		return
	}
	leave()
	stopClients()
	wg.Wait()
	exact = exact && time.Since(seen) < 900*time.Millisecond
	if p.err != nil {
		c.Fail("the simulator ended with %v\n%s", p.err, tail(p.text("err"), 3000))
	}

	// what the logs hold
	userKey, userBucket := map[uint64]bool{}, map[uint64]bool{}
	for i := 0; i < keys; i++ {
		userKey[tfd.HashKey(fmt.Sprintf("user:%d", i))] = true
	}
	for j := 0; j < buckets; j++ {
		userBucket[tfd.HashKey(fmt.Sprintf("t1s/%d", j))] = true
	}
	own := map[[2]uint64]int64{}
	var sGen, vGen, sAcc int64
	from, to := uint64(began.UnixNano()), uint64(time.Now().UnixNano())
	lastSeq := map[uint64]uint64{}
	sl := records[tfd.SBatch](c, sLog, sDev)
	for _, x := range sl {
		if x.SeqEnd < from || x.SeqEnd > to {
			c.Fail("S record %+v has a sequence number that is no time of the run (%d to %d)", x, from, to)
		}
		if userKey[x.KeyID] && userBucket[x.BucketID] {
			if x.NetDelta <= 0 {
				c.Fail("generated operations each add 1, the S log has %+v", x)
			}
			sGen += x.NetDelta
		} else {
			own[[2]uint64{x.KeyID, x.BucketID}] += x.NetDelta
		}
	}
	for _, x := range records[tfd.Envelope](c, vLog, vDev) {
		if x.Channel != tfd.ChannelVector || !userKey[x.Footprint.KeyID] || !userBucket[x.Footprint.Time.BucketID] || x.Delta != 1 {
			c.Fail("the V log has %+v, which was never generated", x)
		}
		if want := tfd.Hash128(x.Footprint.KeyID, x.SeqEnd); x.HashPrev != want {
			c.Fail("V record %+v does not carry its audit link %x", x, want)
		}
		if x.SeqEnd < from || x.SeqEnd > to {
			c.Fail("V record %+v has a sequence number that is no time of the run (%d to %d)", x, from, to)
		}
		if x.SeqEnd < lastSeq[x.Footprint.KeyID] {
			c.Fail("V record %+v of a key comes after one with sequence %d", x, lastSeq[x.Footprint.KeyID])
		}
		lastSeq[x.Footprint.KeyID] = x.SeqEnd
		vGen++
	}
	var accN int64
	for x, n := range b.acc {
		sAcc += n
		_ = x
	}
	cells := map[cell]bool{}
	for x := range b.acc {
		cells[x] = true
	}
	for x := range b.open {
		cells[x] = true
	}
	for x := range cells {
		id := [2]uint64{tfd.HashKey(x.key), tfd.HashKey(x.bucket)}
		if got := own[id]; !explains(got, b.acc[x], b.open[x]) {
			c.Fail("cell %q: consumes of %d were answered 202 (unanswered: %v), the S log adds up to %d", x, b.acc[x], b.open[x], got)
		}
		delete(own, id)
		accN++
	}
	for id, n := range own {
		if n != 0 {
			c.Fail("the S log has %d for cell %v, which nobody used", n, id)
		}
	}
	total := sGen + vGen
	if float64(total) < last["tfd_total_ops"]-1 || float64(vGen) < last["tfd_v_ops"] { // the operation under way may have been counted
		c.Fail("%v operations (%v in V) had been counted, the logs hold %d (%d in V)", last["tfd_total_ops"], last["tfd_v_ops"], total, vGen)
	}
	if exact {
		if float64(total) != last["tfd_total_ops"] {
			c.Fail("%v operations were generated, the logs hold %d in S and %d in V", last["tfd_total_ops"], sGen, vGen)
		}
		if d := float64(vGen) - last["tfd_v_ops"]; d < 0 || d > 1 {
			c.Fail("%v operations went to V, its log has %d", last["tfd_v_ops"], vGen)
		}
		c.Label("exact")
	}
	if (cov == 1 && vGen > 0) || (cov == 0 && sGen > 0) {
		c.Fail("S coverage %v: %d in S, %d in V", cov, sGen, vGen)
	}
	if total >= 2000 && math.Abs(float64(sGen)/float64(total)-cov) > 0.1 {
		c.Fail("S coverage %v: %d of %d in S", cov, sGen, total)
	}
	c.Events(total)
	c.LabelN("generated", total)
	c.LabelN("consumed", sAcc)
	if late {
		c.Label("consumed after the signal")
	}
	if timed {
		c.Label("ended by itself")
	}
	if last["tfd_try_ingest_fail_total"] > 0 {
		c.Label("backpressure")
	}
	c.Hash(args[2:], total, sAcc, accN)
	if total+sAcc == 0 {
		c.Trivial()
	}
}

func TestC29(t *testing.T) {
	kit.Run(t, "C29", kit.Part{Name: "sim", Share: 1, Fn: simulate},
		kit.Part{Name: "boot", Share: 0.8, Fn: boot("tfd-sim")})
}
