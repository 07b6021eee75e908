// Package hsinks drives the log sinks and readers on real files.
package hsinks

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"path/filepath"
	"slices"
	"sync"
	"syscall"
	"testing"
	"time"

	"vsa/internal/sinks"
	"vsa/internal/zzverif/kit"
	"vsa/internal/zzverif/xpoint"
	"vsa/plugin/tfd"
)

var plain = os.Getenv("VERIF_PLAIN") == "1"

// log is one of the two sinks, with records identified by their sequence number.
type log interface {
	write(recs []rec) // one call
	one(r rec)
	flush() error
	close() error
}

// rec holds an S batch or a V envelope, whatever the log's kind is.
type rec struct {
	s tfd.SBatch
	v tfd.Envelope
}

type slog struct{ k *sinks.SBatchFileSink }

func (l slog) write(rs []rec) {
	b := make([]tfd.SBatch, len(rs))
	for i, r := range rs {
		b[i] = r.s
	}
	l.k.OnSBatches(b)
	for i := range b { // the caller may reuse its slice
		b[i] = tfd.SBatch{KeyID: 7, NetDelta: 7, SeqEnd: 7}
	}
}
func (l slog) one(r rec)    { l.k.OnSBatches([]tfd.SBatch{r.s}) }
func (l slog) flush() error { return l.k.Flush() }
func (l slog) close() error { return l.k.Close() }

type vlog struct{ k *sinks.VEnvFileSink }

func (l vlog) write(rs []rec) {
	b := make([]tfd.Envelope, len(rs))
	for i, r := range rs {
		b[i] = r.v
	}
	l.k.AppendAll(b)
	for i := range b {
		b[i] = tfd.Envelope{Delta: 7, SeqEnd: 7}
	}
}
func (l vlog) one(r rec)    { l.k.Append(r.v) }
func (l vlog) flush() error { return l.k.Flush() }
func (l vlog) close() error { return l.k.Close() }

type kind struct{ vec bool }

func (k kind) open(path string) (log, error) {
	if k.vec {
		s, err := sinks.NewVEnvFileSink(path)
		return vlog{s}, err
	}
	s, err := sinks.NewSBatchFileSink(path)
	return slog{s}, err
}

func (k kind) read(path string) ([]rec, error) {
	var out []rec
	if k.vec {
		e, err := sinks.ReadAllVLog(path)
		for _, x := range e {
			out = append(out, rec{v: x})
		}
		return out, err
	}
	b, err := sinks.ReadAllSLog(path)
	for _, x := range b {
		out = append(out, rec{s: x})
	}
	return out, err
}

func hostile(r *rand.Rand) uint64 {
	switch r.IntN(6) {
	case 0:
		e := []uint64{0, 1, math.MaxUint64, 1 << 63, 1<<63 - 1, 1<<53 + 1, 1<<53 - 1, 1 << 53, math.MaxUint64 - 1, 10, 1e18, 1e19, 123456789012345678}
		return e[r.IntN(len(e))]
	case 1:
		return uint64(r.IntN(100))
	default:
		return r.Uint64() >> r.IntN(64)
	}
}

// id spreads (writer, index) over all 64 bits, without collisions.
func id(w, i int) uint64 { return (uint64(w)<<32 | uint64(i)) * 0x9e3779b97f4a7c15 }

func (k kind) rec(r *rand.Rand, seq uint64) rec {
	if !k.vec {
		return rec{s: tfd.SBatch{KeyID: hostile(r), BucketID: hostile(r), NetDelta: int64(hostile(r)), SeqEnd: seq}}
	}
	e := tfd.Envelope{Channel: tfd.Channel(r.IntN(256)), Delta: int64(hostile(r)), SeqEnd: seq}
	if r.IntN(2) == 0 {
		e.Channel = tfd.Channel(r.IntN(2))
	}
	e.Footprint = tfd.Footprint{KeyID: hostile(r), Time: tfd.TimeFootprint{BucketID: hostile(r), All: r.IntN(2) == 0}, Scope: tfd.Channel(r.IntN(2))}
	for i := range e.HashPrev {
		if r.IntN(3) > 0 {
			e.HashPrev[i] = byte(r.Uint32())
		}
	}
	return rec{v: e}
}

func (r rec) seq() uint64 { return r.s.SeqEnd | r.v.SeqEnd }

func (k kind) String() string {
	if k.vec {
		return "V"
	}
	return "S"
}

func file(c *kit.C) string {
	return filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("log-%d", c.Index))
}

// ---- concurrent writers, readers and flushes, over several sessions ----

type writer struct {
	id       int
	done     []rec // append returned
	inflight []rec // the call in progress
}

func concurrent(c *kit.C) {
	k := kind{c.Pct(50)}
	path := file(c)
	defer os.Remove(path)
	sessions := c.Range(1, 3)
	nw := c.Range(1, 4)
	ops := c.Range(1, 12)
	big := c.IntN(400) == 0 || (plain && c.Pct(10))
	var mu sync.Mutex // guards ws; never held during a call into the code
	ws := make([]*writer, nw)
	for i := range ws {
		ws[i] = &writer{id: i}
	}
	snapshot := func() (done []int, max []int) {
		mu.Lock()
		defer mu.Unlock()
		for _, w := range ws {
			done = append(done, len(w.done))
			max = append(max, len(w.done)+len(w.inflight))
		}
		return
	}
	all := func(i int) []rec {
		mu.Lock()
		defer mu.Unlock()
		return append(append([]rec{}, ws[i].done...), ws[i].inflight...)
	}
	// judge compares what was read with what each writer wrote: per writer a prefix of it, of at least min records
	judge := func(when string, got []rec, min []int) {
		pos := make([]int, nw)
		lists := make([][]rec, nw)
		bySeq := map[uint64][2]int{}
		for i := range lists {
			lists[i] = all(i)
			for j, r := range lists[i] {
				bySeq[r.seq()] = [2]int{i, j}
			}
		}
		for _, g := range got {
			at, ok := bySeq[g.seq()]
			if !ok || lists[at[0]][at[1]] != g {
				c.Fail("%s: read %+v, which nobody wrote", when, g)
				return
			}
			if at[1] != pos[at[0]] {
				c.Fail("%s: record %d of writer %d was read where record %d was due (lost, repeated or reordered)", when, at[1], at[0], pos[at[0]])
				return
			}
			pos[at[0]]++
		}
		for i := range pos {
			if pos[i] < min[i] {
				c.Fail("%s: %d records of writer %d were read, %d were written before", when, pos[i], i, min[i])
			}
		}
		c.Events(int64(len(got)))
	}
	total, reads := 0, 0
	body := func() {
		for s := 0; s < sessions; s++ {
			l, err := k.open(path)
			if err != nil {
				c.Fail("open: %v", err)
				return
			}
			var wg sync.WaitGroup
			for _, w := range ws {
				r := c.Sub()
				n := r.IntN(ops + 1)
				c.Go(&wg, func() {
					for i := 0; i < n; i++ {
						m := 1
						single := r.IntN(2) == 0
						if !single {
							m = r.IntN(5)
							if big {
								m = 2000 + r.IntN(12000)
							}
						}
						rs := make([]rec, m)
						mu.Lock()
						for j := range rs {
							rs[j] = k.rec(r, id(w.id, len(w.done)+j))
						}
						w.inflight = append([]rec{}, rs...)
						mu.Unlock()
						if single {
							l.one(rs[0])
						} else {
							l.write(rs)
						}
						mu.Lock()
						w.done = append(w.done, w.inflight...)
						w.inflight = nil
						mu.Unlock()
						c.Tick()
						if !plain && r.IntN(4) == 0 {
							time.Sleep(time.Duration(r.IntN(150)) * time.Millisecond)
						}
					}
				})
			}
			if c.Pct(60) {
				r := c.Sub()
				n := r.IntN(4)
				c.Go(&wg, func() {
					for i := 0; i < n; i++ {
						if !plain {
							time.Sleep(time.Duration(r.IntN(200)) * time.Millisecond)
						}
						min := make([]int, nw)
						if r.IntN(3) > 0 {
							before, _ := snapshot()
							if err := l.flush(); err != nil {
								c.Fail("flush: %v", err)
							}
							min = before
						}
						got, err := k.read(path)
						if err != nil {
							c.Fail("read: %v", err)
						}
						judge("during the writes", got, min)
						mu.Lock()
						reads++
						mu.Unlock()
						c.Label("read amid writes")
					}
				})
			}
			wg.Wait()
			if c.Pct(30) {
				before, _ := snapshot()
				if err := l.flush(); err != nil {
					c.Fail("flush: %v", err)
				}
				got, err := k.read(path)
				if err != nil {
					c.Fail("read: %v", err)
				}
				judge("after a flush", got, before)
			}
			if err := l.close(); err != nil {
				c.Fail("close: %v", err)
			}
			before, _ := snapshot()
			got, err := k.read(path)
			if err != nil {
				c.Fail("read: %v", err)
			}
			judge(fmt.Sprintf("after close %d", s), got, before)
			total = len(got)
		}
	}
	if plain {
		body()
	} else {
		d := c.Delays()
		if big {
			d = xpoint.Config{P: 0.001, Max: 5}
		}
		c.Bubble(d, body)
	}
	if sessions > 1 {
		c.Label("reopened")
	}
	if big {
		c.Label("larger than the buffer")
	}
	c.LabelN("records", int64(total))
	c.Hash(k, nw, sessions, total, reads)
	for _, w := range ws {
		c.Hash(len(w.done))
	}
	if total == 0 {
		c.Trivial()
	}
	c.Desc("%s log: %d writers, %d sessions, %d records, %d reads amid writes", k, nw, sessions, total, reads)
}

// ---- equal records: each is a record of its own ----

func repeats(c *kit.C) {
	k := kind{c.Pct(50)}
	path := file(c)
	defer os.Remove(path)
	r := c.Sub()
	few := []rec{{}, k.rec(r, hostile(r)), k.rec(r, hostile(r))}
	var want []rec
	c.Bubble(c.Delays(), func() {
		for s := c.Range(1, 3); s > 0; s-- {
			l, err := k.open(path)
			if err != nil {
				c.Fail("open: %v", err)
				return
			}
			for i := c.Range(0, 6); i > 0; i-- {
				rs := make([]rec, r.IntN(6))
				for j := range rs {
					rs[j] = few[r.IntN(len(few))]
				}
				want = append(want, rs...)
				if len(rs) == 1 {
					l.one(rs[0])
				} else {
					l.write(rs)
				}
			}
			if err := l.close(); err != nil {
				c.Fail("close: %v", err)
			}
			got, err := k.read(path)
			if err != nil {
				c.Fail("read: %v", err)
			}
			if !slices.Equal(got, want) {
				c.Fail("%d records were written, some of them equal; %d are read, or others", len(want), len(got))
			}
		}
	})
	c.Events(int64(len(want)))
	c.Label("equal records")
	if len(want) == 0 {
		c.Trivial()
	}
	c.Desc("%s log: %d records of 3 values", k, len(want))
	c.Hash(k, len(want), want)
}

// ---- crashes: the file is cut at a byte, reopened and appended to, again and again ----

func cuts(c *kit.C) {
	k := kind{c.Pct(50)}
	path := file(c)
	copyPath := path + "-cut"
	defer os.Remove(path)
	defer os.Remove(copyPath)
	// must is what has to be read; a record that lacks nothing but its terminator may be
	type ent struct {
		r     rec
		end   int64
		maybe bool
	}
	var live []ent
	r := c.Sub()
	n := 0
	check := func(p, when string, want []ent) (seen map[uint64]bool) {
		got, err := k.read(p)
		if err != nil {
			c.Fail("%s: read: %v", when, err)
			return
		}
		c.Events(int64(len(got)) + 1)
		seen = map[uint64]bool{}
		i := 0
		for _, g := range got {
			for i < len(want) && want[i].maybe && want[i].r != g {
				i++
			}
			if i >= len(want) || want[i].r != g {
				c.Fail("%s: read %+v, expected %d records, this one is not the next (%d)", when, g, len(want), i)
				return
			}
			seen[g.seq()] = true
			i++
		}
		for ; i < len(want); i++ {
			if !want[i].maybe {
				c.Fail("%s: record %d of %d was not read", when, i, len(want))
				return
			}
		}
		return
	}
	upto := func(cut int64) []ent {
		var out []ent
		for _, e := range live {
			if e.end <= cut {
				out = append(out, e)
			} else if e.end == cut+1 {
				e.maybe = true
				out = append(out, e)
			}
		}
		return out
	}
	size := func() int64 {
		st, err := os.Stat(path)
		if err != nil {
			return 0
		}
		return st.Size()
	}
	rounds := c.Range(1, 4)
	ncuts := 0
	for round := 0; round < rounds && !c.Failed(); round++ {
		l, err := k.open(path)
		if err != nil {
			c.Fail("open: %v", err)
			return
		}
		m := c.Range(0, 4)
		if round == 0 && m == 0 {
			m = 1
		}
		from := size()
		for i := 0; i < m; i++ {
			x := k.rec(r, id(round, n))
			n++
			l.one(x)
			if err := l.flush(); err != nil {
				c.Fail("flush: %v", err)
			}
			live = append(live, ent{r: x, end: size()})
		}
		if err := l.close(); err != nil {
			c.Fail("close: %v", err)
		}
		check(path, "after close", live)
		// every cut within what this round wrote, and some before
		data, _ := os.ReadFile(path)
		lo := from
		if c.Pct(20) {
			lo = 0
		}
		for cut := lo; cut < int64(len(data)) && !c.Failed(); cut += int64(1 + c.IntN(9)) {
			_ = os.WriteFile(copyPath, data[:cut], 0o644)
			want := upto(cut)
			seen := check(copyPath, fmt.Sprintf("cut at %d of %d", cut, len(data)), want)
			ncuts++
			if c.Pct(30) && !c.Failed() {
				// reopen the cut file and go on
				l, err := k.open(copyPath)
				if err != nil {
					c.Fail("reopen of a cut log: %v", err)
					break
				}
				var more []ent
				for i := c.Range(0, 3); i > 0; i-- {
					x := k.rec(r, id(1000+round, n))
					n++
					more = append(more, ent{r: x})
					l.one(x)
				}
				if err := l.close(); err != nil {
					c.Fail("close: %v", err)
				}
				want2 := append([]ent{}, want...)
				for i := range want2 {
					if seen[want2[i].r.seq()] {
						want2[i].maybe = false // it was readable before
					}
				}
				check(copyPath, fmt.Sprintf("cut at %d of %d, reopened, %d more", cut, len(data), len(more)), append(want2, more...))
				c.Label("reopened after a cut")
			}
		}
		// go on from a crash
		if c.Pct(70) && len(data) > 0 {
			cut := c.I64(0, int64(len(data)))
			if c.Pct(50) {
				cut = c.I64(from, int64(len(data)))
			}
			_ = os.WriteFile(path, data[:cut], 0o644)
			live = upto(cut)
			seen := check(path, "after the crash", live)
			if !c.Failed() {
				for i := range live {
					live[i].maybe = live[i].maybe && !seen[live[i].r.seq()]
				}
			}
		}
	}
	c.LabelN("cuts", int64(ncuts))
	c.Hash(k, n, ncuts, size())
	c.Desc("%s log: %d rounds, %d records, %d cuts", k, rounds, n, ncuts)
}

// ---- a full disk: success is reported only for records that are there ----

func diskFull(c *kit.C) {
	k := kind{c.Pct(50)}
	path := file(c)
	defer os.Remove(path)
	r := c.Sub()
	var recs []rec
	n := c.Range(1, 40)
	big := c.Pct(30)
	if big {
		n = c.Range(3000, 20000)
	}
	for i := 0; i < n; i++ {
		recs = append(recs, k.rec(r, id(0, i)))
	}
	per := int64(110)
	if k.vec {
		per = 230
	}
	limit := c.I64(0, int64(n)*per*5/4)
	dev := c.Pct(10)
	if dev {
		path = "/dev/full"
		if st, err := os.Stat(path); err != nil || st.Mode().IsRegular() {
			c.Trivial()
			return
		}
	}
	var old syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old); err != nil {
		c.Inconclusive()
		return
	}
	l, err := k.open(path)
	if err != nil {
		c.Fail("open: %v", err)
		return
	}
	if !dev {
		lim := old
		lim.Cur = uint64(limit)
		if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &lim); err != nil {
			c.Inconclusive()
			return
		}
	}
	safe, failed := 0, 0 // records covered by a call that reported success
	i := 0
	for i < n {
		m := c.Range(1, 5)
		if big {
			m = c.Range(1, 9000)
		}
		if i+m > n {
			m = n - i
		}
		l.write(recs[i : i+m])
		i += m
		if c.Pct(20) {
			if err := l.flush(); err == nil {
				safe = i
			} else {
				failed++
			}
		}
	}
	cerr := l.close()
	_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
	if cerr == nil {
		safe = n
	} else {
		failed++
	}
	if dev {
		if safe > 0 {
			c.Fail("%d records were reported as written to a device that is full", safe)
		}
	} else {
		got, err := k.read(path)
		if err != nil {
			c.Fail("read: %v", err)
		}
		if len(got) < safe {
			c.Fail("%d records were reported as written (close: %v), %d are in the log", safe, cerr, len(got))
		}
		if len(got) > n {
			c.Fail("%d records read, %d written", len(got), n)
		} else {
			// what is there must be what was written, in order
			j := 0
			for _, g := range got {
				for j < n && recs[j] != g {
					j++
				}
				if j == n {
					c.Fail("read %+v out of order or never written", g)
					break
				}
				j++
			}
			for j := 0; j < safe && j < len(got); j++ {
				if got[j] != recs[j] {
					c.Fail("record %d was reported as written, another one is in its place", j)
					break
				}
			}
		}
		c.Events(int64(len(got)))
		// with space again, a new session works
		l, err := k.open(path)
		if err != nil {
			c.Fail("reopen: %v", err)
			return
		}
		x := k.rec(r, id(1, 0))
		l.one(x)
		if err := l.close(); err != nil {
			c.Fail("close: %v", err)
		}
		again, _ := k.read(path)
		if len(again) != len(got)+1 || again[len(again)-1] != x {
			c.Fail("after the disk had space again: %d records before, %d after one more", len(got), len(again))
		}
	}
	if failed > 0 {
		c.Label("disk full")
	} else {
		c.Label("disk large enough")
	}
	c.Hash(k, n, limit, safe, failed, dev)
	c.Desc("%s log: %d records into %d bytes, %d reported as written", k, n, limit, safe)
}

func TestC25(t *testing.T) {
	kit.Quiet()
	if plain {
		kit.Run(t, "C25", kit.Part{Name: "threads", Fn: concurrent})
		return
	}
	kit.Run(t, "C25",
		kit.Part{Name: "concurrent", Fn: concurrent},
		kit.Part{Name: "cuts", Share: 0.5, Fn: cuts},
		kit.Part{Name: "repeats", Share: 0.2, Fn: repeats},
		kit.Part{Name: "full", Share: 0.05, Fn: diskFull})
}
