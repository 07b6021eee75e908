package hvsa

import (
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"
	"testing"
	"time"

	"vsa"
	"vsa/internal/zzverif/kit"
	"vsa/internal/zzverif/xpoint"
)

// options draws any option set, including odd values.
func options(c *kit.C, slow bool) vsa.Options {
	var o vsa.Options
	if c.Pct(60) {
		o.Stripes = kit.Pick(c, -5, 0, 1, 3, 8, 9, 13, 16, 33, 64, 65, 1000, 1<<30)
	}
	switch c.IntN(4) {
	case 0:
		o.CheapUpdateChooser = true
	case 1:
		o.PerPUpdateChooser = true
	case 2:
		o.CheapUpdateChooser, o.PerPUpdateChooser = true, true
	}
	if c.Pct(35) {
		o.UseCachedGate = true
		o.CacheInterval = kit.Pick(c, 0, -time.Second, 5*time.Microsecond, 20*time.Microsecond, 300*time.Microsecond, time.Hour)
		if slow && o.CacheInterval > 0 && o.CacheInterval < 100*time.Microsecond {
			o.CacheInterval = 100 * time.Microsecond
		}
		o.CacheSlack = kit.Pick[int64](c, 0, 0, 0, 1, 3, 1000, -7)
	} else if c.Pct(10) {
		o.CacheSlack, o.CacheInterval = 5, 7
	}
	if c.Pct(40) {
		o.GroupCount = kit.Pick(c, -1, 1, 2, 3, 5, 7, 8, 16, 64, 1000)
		o.GroupSlack = kit.Pick[int64](c, 0, 0, 1, 4, 1000, -7)
	}
	if c.Pct(45) {
		o.FastPathGuard = kit.Pick[int64](c, -1, 1, 1, 2, 3, 5, 10, 100, 1<<40)
	}
	if c.Pct(40) {
		o.HierarchicalGroups = kit.Pick(c, -3, 1, 2, 3, 5, 7, 8, 64, 999)
	}
	return o
}

// denier says when a consumption may be denied although the units are there.
func denier(o vsa.Options) Denies {
	if o.UseCachedGate {
		return func(SV, int64) bool { return true }
	}
	if o.GroupCount > 1 && o.GroupSlack > 0 {
		return func(m SV, n int64) bool { return m.S-abs(m.V)-o.GroupSlack < n }
	}
	return nil
}

// do performs one call.
func do(v *vsa.VSA, o *Op) {
	switch o.K {
	case Consume:
		o.Ok = v.TryConsume(o.Arg)
	case Refund:
		o.Ok = v.TryRefund(o.Arg)
	case Update:
		v.Update(o.Arg)
	case Commit:
		v.Commit(o.Arg)
	case Check:
		o.Ok, o.R1 = v.CheckCommit(o.Arg)
	case State:
		o.R1, o.R2 = v.State()
	case Avail:
		o.R1 = v.Available()
	}
}

// mix is a weighting of the kinds, in order.
type mix [7]int

func (m mix) draw(r *rand.Rand) Kind {
	t := 0
	for _, w := range m {
		t += w
	}
	x := r.IntN(t)
	for k, w := range m {
		if x -= w; x < 0 {
			return Kind(k)
		}
	}
	panic("mix")
}

func arg(r *rand.Rand, k Kind, scale int64) int64 {
	switch k {
	case Consume, Refund:
		if r.IntN(12) == 0 {
			return -r.Int64N(3)
		}
		if r.IntN(15) == 0 {
			return math.MaxInt64
		}
		return 1 + r.Int64N(scale)
	case Update:
		return r.Int64N(2*scale+1) - scale
	case Commit:
		if r.IntN(15) == 0 {
			return []int64{math.MinInt64, math.MaxInt64, math.MinInt64 + 1}[r.IntN(3)]
		}
		return r.Int64N(3*scale+2) - scale
	case Check:
		return r.Int64N(2*scale+2) - 1
	}
	return 0
}

// history runs g goroutines with k calls each on v and returns the observed calls, followed by
// reads of the final state. committers read the vector and commit it, as the worker does.
func history(c *kit.C, v *vsa.VSA, g, k int, m mix, scale int64, bubble bool) []Op {
	var wg sync.WaitGroup
	all := make([][]Op, g+1)
	start := make(chan struct{})
	for i := 0; i < g; i++ {
		r := c.Sub()
		worker := i == 0 && m[Commit] > 0 && r.IntN(2) == 0 // commits what it read, like the background worker
		c.Go(&wg, func() {
			<-start
			var last int64
			for j := 0; j < k; j++ {
				o := Op{G: i, K: m.draw(r)}
				o.Arg = arg(r, o.K, scale)
				if worker {
					if j%2 == 0 {
						o.K, o.Arg = State, 0
					} else {
						o.K, o.Arg = Commit, last
					}
				}
				if bubble && r.IntN(2) == 0 {
					time.Sleep(time.Duration(1 + r.IntN(200)))
				}
				o.Call = c.Tick()
				do(v, &o)
				o.Ret = c.Tick()
				if o.K == State {
					last = o.R2
				}
				all[i] = append(all[i], o)
			}
		})
	}
	close(start)
	wg.Wait()
	for _, k := range []Kind{State, Avail, Check} {
		o := Op{G: g, K: k, Arg: 1}
		o.Call = c.Tick()
		do(v, &o)
		o.Ret = c.Tick()
		all[g] = append(all[g], o)
	}
	var ops []Op
	for _, a := range all {
		ops = append(ops, a...)
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	return ops
}

// judge checks a history against the model and records what was seen.
func judge(c *kit.C, init SV, ops []Op, o vsa.Options) {
	ok, decided := Linearizable(init, ops, denier(o))
	if !decided {
		c.Inconclusive()
		return
	}
	over, admits, denials := 0, 0, 0
	for i := range ops {
		if i > 0 && ops[i].Call < ops[i-1].Ret && ops[i].G != ops[i-1].G {
			over++
		}
		switch ops[i].K {
		case Consume:
			if ops[i].Ok {
				admits++
			} else {
				denials++
			}
		case Refund:
			if ops[i].Ok {
				c.Label("refunds applied")
			}
		}
		c.Hash(ops[i].G, ops[i].K, ops[i].Arg, ops[i].Ok, ops[i].R1, ops[i].R2, ops[i].Call, ops[i].Ret)
	}
	c.LabelN("admissions", int64(admits))
	c.LabelN("denials", int64(denials))
	c.LabelN("overlapping calls", int64(over))
	if over == 0 {
		c.Trivial()
	}
	c.Desc("S=%d V=%d options=%+v\n%s", init.S, init.V, o, dump(ops))
	if !ok {
		c.Fail("no sequential order of the (S,V) model explains this history; S=%d V=%d options %+v\n%s", init.S, init.V, o, dump(ops))
	}
}

func linCase(opts bool, m func(c *kit.C) mix, bubble bool) func(c *kit.C) {
	return func(c *kit.C) {
		d := c.Delays()
		var o vsa.Options
		if opts {
			o = options(c, d.LongMax > 10*time.Microsecond)
		}
		scale := kit.Pick[int64](c, 1, 2, 5, 40)
		s0 := c.I64(0, 4*scale)
		if c.Pct(5) {
			s0 = kit.Pick[int64](c, -3, 1<<61, 1)
		}
		g, k := c.Range(2, 5), c.Range(2, 5)
		mm := m(c)
		v0 := int64(0)
		if mm[Update] > 0 && c.Pct(40) {
			v0 = c.I64(-2*scale, 2*scale)
		} else if c.Pct(30) && s0 > 0 && s0 < 1000 {
			v0 = c.I64(0, s0)
		}
		var ops []Op
		run := func() {
			v := vsa.NewWithOptions(s0, o)
			if v0 != 0 {
				v.Update(v0)
			}
			ops = history(c, v, g, k, mm, scale, bubble)
			v.Close()
		}
		if bubble {
			c.Bubble(d, run)
		} else {
			run()
		}
		if c.Failed() {
			return
		}
		judge(c, SV{s0, v0}, ops, o)
	}
}

// conserve drives many more calls than the search could order, and checks totals.
func conserve(bubble bool) func(c *kit.C) {
	return func(c *kit.C) {
		d := c.Delays()
		if d.P > 0.5 {
			d.P = 0.2
		}
		o := options(c, true)
		budget := kit.Pick[int64](c, 1, 3, 17, 64, 200)
		g, k := c.Range(3, 12), c.Range(5, 30)
		if !bubble {
			g, k = c.Range(4, 16), c.Range(50, 600)
			budget = kit.Pick[int64](c, 1, 17, 300, 3000)
		}
		maxN := kit.Pick[int64](c, 1, 1, 3)
		refunds, commits := c.Pct(60), c.Pct(60)
		var mu sync.Mutex
		var admitted, asked, refunded, calls int64 // admitted: returned; asked: refunds invoked
		bad := ""
		run := func() {
			v := vsa.NewWithOptions(budget, o)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := 0; i < g; i++ {
				r := c.Sub()
				c.Go(&wg, func() {
					<-start
					for j := 0; j < k; j++ {
						switch x := r.IntN(10); {
						case x < 2 && refunds:
							mu.Lock()
							asked++
							mu.Unlock()
							ok := v.TryRefund(1)
							mu.Lock()
							if ok {
								refunded++
							} else {
								asked--
							}
							mu.Unlock()
						case x == 2 && commits && i < 2:
							if _, vec := v.CheckCommit(0); vec != 0 {
								v.Commit(vec)
							}
						case x == 3:
							if a := v.Available(); a < 0 {
								mu.Lock()
								bad = fmt.Sprintf("availability %d is negative", a)
								mu.Unlock()
							}
						default:
							n := 1 + r.Int64N(maxN)
							if v.TryConsume(n) {
								mu.Lock()
								admitted += n
								// refunds still to return may already have given units back
								if admitted-asked > budget && bad == "" {
									bad = fmt.Sprintf("%d units admitted, at most %d refunded, of a budget of %d", admitted, asked, budget)
								}
								mu.Unlock()
							}
						}
						mu.Lock()
						calls++
						mu.Unlock()
					}
				})
			}
			close(start)
			wg.Wait()
			s, vec := v.State()
			if bad == "" && admitted-refunded > budget {
				bad = fmt.Sprintf("%d admitted - %d refunded > budget %d", admitted, refunded, budget)
			}
			if bad == "" && (vec < 0 || s+0 > budget || (budget-s)+vec != admitted-refunded) {
				bad = fmt.Sprintf("final S=%d V=%d does not account for %d admitted - %d refunded of budget %d", s, vec, admitted, refunded, budget)
			}
			if a := v.Available(); bad == "" && a != budget-(admitted-refunded) {
				bad = fmt.Sprintf("final availability %d, want %d", a, budget-(admitted-refunded))
			}
			// with nothing else going on, what is left is admitted (a cached gate after its refresh)
			if !o.UseCachedGate && bad == "" && o.GroupSlack <= 0 {
				left := budget - (admitted - refunded)
				for x := left; x > 0; x-- {
					if !v.TryConsume(1) {
						bad = fmt.Sprintf("%d of %d remaining units refused", x, left)
						break
					}
				}
				if bad == "" && v.TryConsume(1) {
					bad = "consumed beyond the budget after draining it"
				}
			}
			v.Close()
		}
		if bubble {
			c.Bubble(d, run)
		} else {
			run()
		}
		if bad != "" {
			c.Fail("%s; budget %d, options %+v, %d goroutines x %d calls", bad, budget, o, g, k)
		}
		c.Events(calls)
		c.LabelN("admitted units", admitted)
		c.LabelN("refunded units", refunded)
		if admitted == budget || admitted-refunded == budget {
			c.Label("budget exhausted")
		}
		c.Hash(admitted, refunded, calls, budget, fmt.Sprint(o))
		c.Desc("budget=%d options=%+v goroutines=%d calls=%d admitted=%d refunded=%d", budget, o, g, calls, admitted, refunded)
	}
}

func TestC01(t *testing.T) {
	m := func(c *kit.C) mix { return mix{Consume: 10, Refund: c.IntN(5), Commit: c.IntN(5), State: 1, Avail: 1} }
	if plain() {
		kit.Run(t, "C01", kit.Part{Name: "totals-threads", Fn: conserve(false)},
			kit.Part{Name: "lin-threads", Share: 10, Fn: linCase(true, m, false)})
		return
	}
	kit.Run(t, "C01",
		kit.Part{Name: "lin", Fn: linCase(true, m, true)},
		kit.Part{Name: "totals", Share: 0.3, Fn: conserve(true)},
		kit.Part{Name: "stale", Share: 0.1, Fn: stale})
}

// stale: a gate whose cached value is arbitrarily old, then a burst, in every option set.
func stale(c *kit.C) {
	o := options(c, true)
	o.UseCachedGate = true
	o.CacheInterval = kit.Pick(c, time.Hour, time.Millisecond)
	budget := c.I64(1, 60)
	c.Bubble(xpoint.Config{P: 0.02, Max: 1000}, func() {
		v := vsa.NewWithOptions(budget, o)
		defer v.Close()
		var admitted int64
		for round := 0; round < 4; round++ {
			var wg sync.WaitGroup
			var mu sync.Mutex
			for i := 0; i < 4; i++ {
				r := c.Sub()
				c.Go(&wg, func() {
					for j := 0; j < 12; j++ {
						if n := 1 + r.Int64N(3); v.TryConsume(n) {
							mu.Lock()
							admitted += n
							mu.Unlock()
						}
						if r.IntN(6) == 0 {
							_, vec := v.State()
							v.Commit(vec)
						}
						c.Tick()
					}
				})
			}
			wg.Wait()
			if admitted > budget {
				c.Fail("admitted %d of budget %d with a stale gate, options %+v", admitted, budget, o)
				return
			}
			if c.Pct(50) {
				time.Sleep(c.Dur(0, 3*o.CacheInterval))
			}
		}
		c.Hash(budget, admitted, fmt.Sprint(o))
		c.LabelN("admitted under stale gate", admitted)
		c.Desc("stale gate: budget=%d admitted=%d options=%+v", budget, admitted, o)
	})
}

func TestC02(t *testing.T) {
	m := func(c *kit.C) mix {
		switch c.IntN(4) {
		case 0:
			return mix{4, 2, 4, 3, 1, 3, 2}
		case 1: // commits against snapshots
			return mix{2, 1, 2, 5, 1, 4, 3}
		case 2: // updates crossing zero
			return mix{3, 2, 8, 2, 1, 2, 2}
		default:
			return mix{8, 4, 0, 3, 1, 2, 2}
		}
	}
	if plain() {
		kit.Run(t, "C02", kit.Part{Name: "threads", Fn: linCase(false, m, false)})
		return
	}
	kit.Run(t, "C02", kit.Part{Name: "bubble", Fn: linCase(false, m, true)})
}

func TestC03(t *testing.T) {
	m := func(c *kit.C) mix { return mix{c.IntN(4), c.IntN(3), c.IntN(4), 8, 0, 3, 3} }
	if plain() {
		kit.Run(t, "C03", kit.Part{Name: "fixed-threads", Fn: fixedAvail(false)},
			kit.Part{Name: "lin-threads", Share: 3, Fn: linCase(true, m, false)})
		return
	}
	kit.Run(t, "C03",
		kit.Part{Name: "lin", Fn: linCase(true, m, true)},
		kit.Part{Name: "args", Share: 1, Fn: commitArgs},
		kit.Part{Name: "fixed", Share: 0.2, Fn: fixedAvail(true)},
		kit.Part{Name: "totals", Share: 0.2, Fn: conserve(true)})
}

// commitArgs applies commits with every kind of argument to every kind of state.
func commitArgs(c *kit.C) {
	o := options(c, true)
	o.UseCachedGate = false
	scale := kit.Pick[int64](c, 1, 10, 1<<20, 1<<60)
	m := SV{S: c.I64(-scale, scale)}
	v := vsa.NewWithOptions(m.S, o)
	defer v.Close()
	for i := 0; i < c.Range(1, 12); i++ {
		if c.Pct(50) {
			x := c.I64(-scale/4, scale/4)
			if abs(m.V+x) > 1<<61 {
				x = -m.V
			}
			v.Update(x)
			m.V += x
		}
		s0, v0 := v.State()
		a0 := v.Available()
		if s0 != m.S || v0 != m.V || a0 != s0-abs(v0) {
			c.Fail("state S=%d V=%d A=%d, want S=%d V=%d", s0, v0, a0, m.S, m.V)
			return
		}
		a := kit.Pick(c, v0, v0, -v0, v0/2, v0+1, v0-1, 1, -1, 0, 3*v0, math.MinInt64, math.MaxInt64, math.MinInt64+1, c.I64(-scale, scale))
		v.Commit(a)
		s1, v1 := v.State()
		a1 := v.Available()
		c.Tick()
		mag := abs(a)
		if a == math.MinInt64 {
			mag = math.MaxInt64
		}
		switch {
		case a1 != a0:
			c.Fail("commit(%d) on S=%d V=%d changed availability %d -> %d", a, s0, v0, a0, a1)
		case v0 > 0 && v1 < 0 || v0 < 0 && v1 > 0 || v0 == 0 && v1 != 0 || abs(v1) > abs(v0):
			c.Fail("commit(%d) moved the net %d -> %d", a, v0, v1)
		case s0-s1 != abs(v0)-abs(v1):
			c.Fail("commit(%d) moved S %d -> %d but the net %d -> %d", a, s0, s1, v0, v1)
		case abs(v0)-abs(v1) > mag:
			c.Fail("commit(%d) moved %d", a, abs(v0)-abs(v1))
		}
		m = m.commit(a)
		if s1 != m.S || v1 != m.V {
			c.Fail("commit(%d) on S=%d V=%d gave S=%d V=%d, want S=%d V=%d", a, s0, v0, s1, v1, m.S, m.V)
		}
		c.Hash(s0, v0, a)
		if v0 != 0 && s1 != s0 {
			c.Label("commits that moved something")
		}
		c.Desc("S=%d V=%d commit(%d) -> S=%d V=%d, options %+v", s0, v0, a, s1, v1, o)
		if c.Failed() {
			return
		}
	}
}

// fixedAvail: only commits and reads run, so availability and S-|V| are constant throughout,
// and S only ever falls.
func fixedAvail(bubble bool) func(c *kit.C) {
	return func(c *kit.C) {
		o := options(c, true)
		s0, v0 := c.I64(-5, 50), c.I64(-60, 60)
		reps := 25
		if !bubble {
			reps = 1500
		}
		run := func() {
			v := vsa.NewWithOptions(s0, o)
			defer v.Close()
			v.Update(v0)
			want := s0 - abs(v0)
			var wg sync.WaitGroup
			for i := 0; i < 5; i++ {
				r := c.Sub()
				c.Go(&wg, func() {
					lastS := s0
					for j := 0; j < reps && !c.Failed(); j++ {
						if i < 2 {
							switch r.IntN(6) {
							case 0:
								v.Commit(arg(r, Commit, 20))
							case 1: // keep it going: move the net between commits, never the sum
								v.Commit(-1)
							default:
								v.Commit(1)
							}
						} else {
							if a := v.Available(); a != want {
								c.Fail("availability read %d while only commits ran on S=%d V=%d, options %+v", a, s0, v0, o)
							}
							s, vec := v.State()
							if s-abs(vec) != want || s > lastS || (v0 >= 0) != (vec >= 0) && vec != 0 {
								c.Fail("state read S=%d V=%d (previous S=%d) while only commits ran on S=%d V=%d", s, vec, lastS, s0, v0)
							}
							lastS = s
							c.Events(2)
						}
					}
				})
			}
			wg.Wait()
			s, vec := v.State()
			c.Hash(s0, v0, s, vec, fmt.Sprint(o))
			c.Desc("only commits on S=%d V=%d, end S=%d V=%d, options %+v", s0, v0, s, vec, o)
		}
		if bubble {
			c.Bubble(c.Delays(), run)
		} else {
			run()
		}
	}
}

func TestC04(t *testing.T) {
	m := func(c *kit.C) mix { return mix{4, 9, c.IntN(3), c.IntN(5), 0, 2, 1} }
	if plain() {
		kit.Run(t, "C04", kit.Part{Name: "race-threads", Fn: refundRace(false)},
			kit.Part{Name: "lin-threads", Share: 3, Fn: linCase(true, m, false)})
		return
	}
	kit.Run(t, "C04",
		kit.Part{Name: "lin", Fn: linCase(true, m, true)},
		kit.Part{Name: "seq", Share: 0.7, Fn: refundSeq},
		kit.Part{Name: "race", Share: 0.3, Fn: refundRace(true)})
}

func refundSeq(c *kit.C) {
	o := options(c, true)
	o.UseCachedGate = false
	scale := kit.Pick[int64](c, 2, 20, 1<<60)
	m := SV{S: c.I64(0, scale)}
	v := vsa.NewWithOptions(m.S, o)
	defer v.Close()
	for i := 0; i < c.Range(2, 25); i++ {
		op := Op{K: kit.Pick(c, Consume, Consume, Update, Commit, Refund, Refund, Refund, Refund)}
		op.Arg = arg(c.Rand, op.K, max(1, scale/4))
		if op.K == Update && abs(m.V+op.Arg) > 1<<61 {
			continue
		}
		s0, v0 := v.State()
		do(v, &op)
		s1, v1 := v.State()
		if op.K == Refund {
			want := op.Arg > 0 && v0 > 0
			var moved int64
			if want {
				moved = min(op.Arg, v0)
				c.Label("refunds applied")
			}
			if op.Ok != want || s1 != s0 || v1 != v0-moved || v.Available() != s0-abs(v0)+moved {
				c.Fail("refund(%d) on S=%d V=%d returned %v and left S=%d V=%d A=%d", op.Arg, s0, v0, op.Ok, s1, v1, v.Available())
				return
			}
		}
		var ok bool
		if m, ok = Step(m, &op, denier(o)); !ok || m != (SV{s1, v1}) {
			c.Fail("%v on S=%d V=%d left S=%d V=%d, want %+v; options %+v", op, s0, v0, s1, v1, m, o)
			return
		}
		c.Tick()
		c.Hash(op.K, op.Arg, s1, v1)
	}
	c.Desc("sequential refunds: budget and scale %d, ended S=%d V=%d, options %+v", scale, m.S, m.V, o)
}

// refundRace: many refunders of random amounts against consumers and commits of a fixed pending net.
func refundRace(bubble bool) func(c *kit.C) {
	return func(c *kit.C) {
		o := options(c, true)
		pending := c.I64(0, 40)
		budget := pending + c.I64(0, 20)
		withCommit := c.Pct(50)
		g, k := 6, 8
		if !bubble {
			k = 400
			pending, budget = pending*20, budget*20
		}
		run := func() {
			v := vsa.NewWithOptions(budget, o)
			defer v.Close()
			v.Update(pending)
			var wg sync.WaitGroup
			var mu sync.Mutex
			var trues, falses, consumed int64
			for i := 0; i < g; i++ {
				r := c.Sub()
				c.Go(&wg, func() {
					for j := 0; j < k; j++ {
						switch {
						case i == 0 && withCommit:
							v.Commit(1 + r.Int64N(3))
						case i == 1 && r.IntN(2) == 0:
							if v.TryConsume(1) {
								mu.Lock()
								consumed++
								mu.Unlock()
							}
						default:
							ok := v.TryRefund(1)
							mu.Lock()
							if ok {
								trues++
							} else {
								falses++
							}
							mu.Unlock()
						}
						if _, vec := v.State(); vec < 0 {
							c.Fail("the net became %d, options %+v", vec, o)
							return
						}
						c.Events(2)
					}
				})
			}
			wg.Wait()
			s, vec := v.State()
			if vec < 0 || (budget-s)+vec != pending+consumed-trues || !withCommit && s != budget {
				c.Fail("pending %d + consumed %d, %d refunds said true: final S=%d (of %d) V=%d; options %+v", pending, consumed, trues, s, budget, vec, o)
			}
			c.LabelN("refunds applied", trues)
			c.LabelN("refunds refused", falses)
			c.Hash(pending, budget, trues, falses, consumed, s, fmt.Sprint(o))
			c.Desc("pending=%d budget=%d refunded=%d refused=%d consumed=%d final S=%d V=%d options=%+v", pending, budget, trues, falses, consumed, s, vec, o)
		}
		if bubble {
			c.Bubble(c.Delays(), run)
		} else {
			run()
		}
	}
}

func TestC05(t *testing.T) {
	if plain() {
		kit.Run(t, "C05", kit.Part{Name: "sum-threads", Fn: sumUpdates(false)})
		return
	}
	m := func(c *kit.C) mix { return mix{3, 2, 8, 2, 1, 2, 1} }
	kit.Run(t, "C05",
		kit.Part{Name: "program", Fn: program},
		kit.Part{Name: "lin", Fn: linCase(true, m, true)},
		kit.Part{Name: "sum", Share: 0.2, Fn: sumUpdates(true)})
}

// program: one sequential program under several option sets against the model.
func program(c *kit.C) {
	scale := kit.Pick[int64](c, 2, 10, 100, 1<<58)
	n := c.Range(3, 60)
	s0 := c.I64(0, 3*scale)
	m := mix{6, 3, 4, 2, 1, 2, 2}
	type prog struct {
		k     Kind
		a     int64
		sleep bool
	}
	var p []prog
	tot := int64(0)
	for i := 0; i < n; i++ {
		k := m.draw(c.Rand)
		a := arg(c.Rand, k, scale)
		if k == Update {
			if tot += abs(a); tot > 1<<61 {
				k, a = State, 0
			}
		}
		p = append(p, prog{k, a, c.Pct(20)})
	}
	for rep := 0; rep < 4; rep++ {
		o := options(c, true)
		if rep == 0 {
			o = vsa.Options{}
		}
		c.Bubble(xpoint.Config{}, func() {
			v := vsa.NewWithOptions(s0, o)
			defer v.Close()
			mod := SV{S: s0}
			iv := o.CacheInterval
			if iv <= 0 {
				iv = 100 * time.Microsecond
			}
			for i, x := range p {
				fresh := false
				if o.UseCachedGate && x.sleep {
					time.Sleep(2*iv + 1) // the gate has been refreshed since the last change
					fresh = true
				}
				op := Op{K: x.k, Arg: x.a}
				do(v, &op)
				den := denier(o)
				if fresh {
					slack := o.CacheSlack
					if o.GroupCount > 1 && o.GroupSlack > 0 {
						slack += o.GroupSlack
					}
					den = func(m SV, n int64) bool { return m.S-abs(m.V)-slack < n }
					c.Label("consumptions right after a refresh")
				}
				var ok bool
				before := mod
				if mod, ok = Step(mod, &op, den); !ok {
					c.Fail("call %d %v on %+v is not what the model allows; refreshed %v, options %+v", i, op, before, fresh, o)
					return
				}
				s, vec := v.State()
				if (SV{s, vec}) != mod || v.Available() != s-abs(vec) {
					c.Fail("after call %d %v: S=%d V=%d A=%d, want %+v; options %+v", i, op, s, vec, v.Available(), mod, o)
					return
				}
				c.Tick()
			}
			c.Hash(fmt.Sprint(p), fmt.Sprint(o), mod.S, mod.V)
			c.Desc("program of %d calls, S=%d scale %d, options %+v, end %+v", n, s0, scale, o, mod)
		})
		if c.Failed() {
			return
		}
	}
}

// sumUpdates: concurrent updates (and consumes, refunds) sum up exactly under every option set.
func sumUpdates(bubble bool) func(c *kit.C) {
	return func(c *kit.C) {
		o := options(c, true)
		g, k := c.Range(2, 10), c.Range(3, 20)
		if !bubble {
			g, k = c.Range(4, 24), c.Range(100, 2000)
			if runtime.GOMAXPROCS(0) > 64 { // more processors than a counter has stripes
				g, k = c.Range(16, 120), c.Range(100, 1000)
			}
		}
		big := kit.Pick[int64](c, 1, 3, 1000, 1<<40)
		neg := c.Pct(50)
		commit := !neg && c.Pct(50)
		run := func() {
			s0 := int64(1) << 60
			v := vsa.NewWithOptions(s0, o)
			defer v.Close()
			var wg sync.WaitGroup
			var mu sync.Mutex
			var want, calls int64
			for i := 0; i < g; i++ {
				r := c.Sub()
				c.Go(&wg, func() {
					var sum int64
					for j := 0; j < k; j++ {
						x := 1 + r.Int64N(big)
						switch y := r.IntN(8); {
						case y == 0:
							if v.TryConsume(x) {
								sum += x
							}
						case y == 1:
							if v.TryRefund(1) {
								sum--
							}
						case y == 2 && commit && i == 0:
							_, vec := v.State()
							v.Commit(vec)
						case y < 5 && neg:
							v.Update(-x)
							sum -= x
						default:
							v.Update(x)
							sum += x
						}
					}
					mu.Lock()
					want += sum
					calls += int64(k)
					mu.Unlock()
				})
			}
			wg.Wait()
			s, vec := v.State()
			if vec+(s0-s) != want || !commit && s != s0 {
				c.Fail("effects sum to %d, but V=%d and S fell by %d; options %+v", want, vec, s0-s, o)
			}
			if ok, x := v.CheckCommit(abs(vec)); !ok || x != vec {
				c.Fail("check at the exact net %d gave %v,%d", vec, ok, x)
			}
			if ok, _ := v.CheckCommit(abs(vec) + 1); ok {
				c.Fail("check above the net %d said true", vec)
			}
			// the cached gate agrees once it has been refreshed (observable through consumption)
			if bubble && o.UseCachedGate && o.CacheInterval < time.Second {
				iv := max(o.CacheInterval, 100*time.Microsecond)
				xpoint.Stop2() // a refresh made slow by injected delays may take longer than the interval
				time.Sleep(4*iv + 5*time.Millisecond)
				a := v.Available()
				slack := max(o.CacheSlack, 0)
				if o.GroupCount > 1 {
					slack += max(o.GroupSlack, 0)
				}
				if a-slack > 0 && !v.TryConsume(a-slack) {
					c.Fail("after a refresh the gate refuses %d of %d available units; options %+v", a-slack, a, o)
				}
				c.Label("gate checked after refresh")
			}
			c.Events(calls)
			c.Hash(want, calls, s, fmt.Sprint(o))
			c.Desc("%d goroutines x %d calls, effects sum to %d, V=%d, options %+v", g, k, want, vec, o)
		}
		if bubble {
			d := c.Delays()
			if d.P > 0.5 {
				d.P = 0.2
			}
			c.Bubble(d, run)
		} else {
			run()
		}
	}
}

// TestC07: counters and their goroutines.
func TestC07(t *testing.T) {
	kit.Run(t, "C07", kit.Part{Name: "counter", Fn: func(c *kit.C) {
		o := options(c, true)
		if c.Pct(60) {
			o.UseCachedGate = true
		}
		n := c.Range(1, 4)
		closeMode := c.IntN(4) // 0 before use, 1 after, 2 concurrently with use, 3 many closers
		budget := c.I64(0, 30)
		upd := c.Pct(40) // updates bypass the gate: totals are judged, the budget is not
		c.Bubble(c.Delays(), func() {
			for i := 0; i < n; i++ {
				v := vsa.NewWithOptions(budget, o)
				if !o.UseCachedGate && c.Pct(50) {
					continue // starts no goroutine: dropping it leaves nothing behind
				}
				if closeMode == 0 {
					v.Close()
				}
				var wg sync.WaitGroup
				var mu sync.Mutex
				var admitted, refunded, updated int64
				for j := 0; j < 3; j++ {
					r := c.Sub()
					c.Go(&wg, func() {
						for k := 0; k < 6; k++ {
							switch r.IntN(5) {
							case 0:
								if v.TryRefund(1) {
									mu.Lock()
									refunded++
									mu.Unlock()
								}
							case 1:
								_, vec := v.State()
								v.Commit(vec)
							case 2:
								if upd {
									x := r.Int64N(9)
									v.Update(x)
									mu.Lock()
									updated += x
									mu.Unlock()
									break
								}
								fallthrough
							default:
								if v.TryConsume(1) {
									mu.Lock()
									admitted++
									mu.Unlock()
								}
							}
							if closeMode == 3 || closeMode == 2 && k == 3 {
								v.Close()
							}
							c.Tick()
						}
					})
				}
				wg.Wait()
				v.Close()
				v.Close()
				s, vec := v.State()
				if !upd && admitted-refunded > budget || budget-s+vec != admitted-refunded+updated {
					c.Fail("closed counter: admitted %d refunded %d, budget %d, S=%d V=%d, options %+v", admitted, refunded, budget, s, vec, o)
				}
				if o.UseCachedGate {
					c.Label("gated counters closed")
				}
			}
			c.Hash(n, closeMode, budget, fmt.Sprint(o))
			c.Desc("%d counters, close mode %d, options %+v", n, closeMode, o)
		})
	}})
}
