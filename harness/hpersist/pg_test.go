package hpersist

import (
	"context"
	"database/sql"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"vsa/internal/ratelimiter/persistence"
	"vsa/internal/zzverif/kit"
	"vsa/internal/zzverif/xpoint"
)

type cell struct {
	scalar int64
	tok    *int64
}

func (c cell) String() string {
	if c.tok == nil {
		return fmt.Sprintf("%d/-", c.scalar)
	}
	return fmt.Sprintf("%d/%d", c.scalar, *c.tok)
}

func (c cell) eq(o cell) bool {
	return c.scalar == o.scalar && (c.tok == nil) == (o.tok == nil) && (c.tok == nil || *c.tok == *o.tok)
}

// pgModel is what the tables must say.
type pgModel struct {
	cells map[string]cell
	seen  map[string]string // commit id -> key
}

func (m *pgModel) clone() *pgModel {
	n := &pgModel{cells: map[string]cell{}, seen: map[string]string{}}
	for k, v := range m.cells {
		n.cells[k] = v
	}
	for k, v := range m.seen {
		n.seen[k] = v
	}
	return n
}

// apply returns the state after the batch, or why the batch must fail.
func (m *pgModel) apply(es []persistence.CommitEntry, create bool, lab func(string)) (*pgModel, string) {
	n := m.clone()
	for _, e := range es {
		if e.CommitID == "" {
			return m, "no commit id"
		}
	}
	for _, e := range es {
		if k, ok := n.seen[e.CommitID]; ok {
			if k != e.Key {
				return m, "commit id of another key"
			}
			lab("duplicate")
			continue
		}
		n.seen[e.CommitID] = e.Key
		c, ok := n.cells[e.Key]
		if !ok {
			if !create {
				lab("unknown key")
				continue
			}
			c = cell{}
		}
		if e.FencingToken != nil {
			if c.tok != nil && *e.FencingToken < *c.tok {
				lab("fenced off")
				n.cells[e.Key] = c
				continue
			}
			lab("token accepted")
			t := *e.FencingToken
			c.tok = &t
		}
		v := e.Vector
		if (v < 0 && c.scalar > math.MaxInt64+v) || (v > 0 && c.scalar < math.MinInt64+v) {
			return m, "scalar out of range"
		}
		c.scalar -= v
		n.cells[e.Key] = c
		lab("applied")
	}
	return n, ""
}

func (m *pgModel) String() string {
	var ks []string
	for k := range m.cells {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%q=%v ", k, m.cells[k])
	}
	return b.String()
}

// pgWorld is the store, its model, and the monitor that compares them at every commit.
type pgWorld struct {
	c      *kit.C
	d      *sqlDB
	create bool
	m      *pgModel
	log    []string
	bad    string // first violation (the store is locked when it is found)
	flaw   map[string]int64
	labels map[string]int64
}

type pgBatch struct {
	id int
	es []persistence.CommitEntry
}

func showPG(es []persistence.CommitEntry) string {
	var b strings.Builder
	for _, e := range es {
		t := "-"
		if e.FencingToken != nil {
			t = fmt.Sprint(*e.FencingToken)
		}
		fmt.Fprintf(&b, "(%q,%q,%d,%s)", e.Key, e.CommitID, e.Vector, t)
	}
	return b.String()
}

func (w *pgWorld) state() map[string]cell {
	out := map[string]cell{}
	for k, r := range w.d.tabs["counters"].rows {
		if r.com != nil {
			c := cell{scalar: r.com["scalar"].(int64)}
			if t, ok := r.com["last_token"].(int64); ok {
				c.tok = &t
			}
			out[k] = c
		}
	}
	return out
}

func (w *pgWorld) matches(got map[string]cell, m *pgModel, es []persistence.CommitEntry) string {
	for k, c := range m.cells {
		g, ok := got[k]
		if !ok {
			if c.scalar == 0 && c.tok == nil {
				continue // an uncreated row counts as zero
			}
			return fmt.Sprintf("row %q is missing, want %v", k, c)
		}
		if !g.eq(c) {
			return fmt.Sprintf("row %q is %v, want %v", k, g, c)
		}
	}
	for k, g := range got {
		if _, ok := m.cells[k]; ok {
			continue
		}
		mine := false
		for _, e := range es {
			mine = mine || e.Key == k
		}
		if !mine || !w.create || g.scalar != 0 || g.tok != nil {
			return fmt.Sprintf("row %q (%v) appeared", k, g)
		}
	}
	return ""
}

func newPG(c *kit.C, create bool) *pgWorld {
	w := &pgWorld{c: c, d: newSQL(), create: create, m: &pgModel{cells: map[string]cell{}, seen: map[string]string{}}, labels: map[string]int64{}}
	w.d.hook = func(context.Context, string, any) error { return nil }
	w.d.onCommit = func(tag any) {
		got := w.state()
		b, _ := tag.(*pgBatch)
		if b == nil {
			w.bad = "a transaction that belongs to no call changed the store"
			return
		}
		next, why := w.m.apply(b.es, create, func(string) {})
		if d := w.matches(got, next, b.es); d == "" && why == "" {
			w.m.apply(b.es, create, func(l string) { w.labels[l]++ })
			w.m = next
			w.log = append(w.log, fmt.Sprintf("commit of batch %d", b.id))
		} else if d2 := w.matches(got, w.m, b.es); d2 != "" && w.bad == "" {
			w.bad = fmt.Sprintf("a transaction of batch %d %s left the tables in a state that is neither before nor after the whole batch: %s (before: %v; batch must fail: %q)",
				b.id, showPG(b.es), d2, w.m, why)
		}
		for k := range got { // resynchronise rows created with zero
			if _, ok := w.m.cells[k]; !ok {
				w.m.cells[k] = cell{}
			}
		}
	}
	return w
}

func (w *pgWorld) seed(k string, scalar int64, tok *int64) {
	var t any
	if tok != nil {
		t = *tok
	}
	w.d.tabs["counters"].rows[k] = &row{com: map[string]any{"key": k, "scalar": scalar, "last_token": t}}
	w.m.cells[k] = cell{scalar, tok}
}

// acked checks that an acknowledged batch is in.
func (w *pgWorld) acked(b *pgBatch) {
	w.d.mu.Lock()
	defer w.d.mu.Unlock()
	if w.bad != "" {
		return
	}
	if _, why := w.m.apply(b.es, w.create, func(string) {}); why != "" {
		if why != "scalar out of range" { // later commits may have moved the scalar
			w.bad = fmt.Sprintf("batch %d %s must fail (%s) but was acknowledged", b.id, showPG(b.es), why)
			return
		}
	}
	for _, e := range b.es {
		if _, known := w.m.cells[e.Key]; !known && !w.create {
			continue
		}
		if w.m.seen[e.CommitID] != e.Key {
			n := w.m.clone()
			n2, _ := n.apply([]persistence.CommitEntry{e}, w.create, func(string) {})
			if c := n2.cells[e.Key]; c.eq(w.m.cells[e.Key]) {
				continue // zero vector, or fenced off: nothing to see
			}
			w.bad = fmt.Sprintf("batch %d was acknowledged, but its entry %s was never committed", b.id, showPG([]persistence.CommitEntry{e}))
			return
		}
	}
}

func (w *pgWorld) finish() {
	w.d.mu.Lock()
	defer w.d.mu.Unlock()
	for _, l := range w.log {
		w.c.Logf("%s", l)
	}
	for l, n := range w.labels {
		w.c.LabelN(l, n)
	}
	w.c.Events(int64(w.d.stmts))
	if w.d.unsup != nil {
		w.c.Logf("%v", w.d.unsup)
		w.c.Inconclusive()
		return
	}
	if w.bad != "" {
		w.c.Fail("%s", w.bad)
		return
	}
	for _, tb := range w.d.tabs {
		for k, r := range tb.rows {
			if r.owner != nil {
				w.c.Fail("a transaction was left open: row %q of %s is still locked", k, tb.name)
			}
		}
	}
}

// pgSpec draws the meaning of every commit id: its key, vector and token never change, except
// for the ids in clash, which are used with several keys.
type pgSpec struct {
	c     *kit.C
	keys  []string
	ents  map[string]persistence.CommitEntry
	clash bool
	big   bool
	toks  int
	n     int
}

func pgNames(c *kit.C) string {
	for {
		s := names[c.IntN(len(names))]
		if c.Pct(10) {
			s = kit.Twist(c.Rand, s)
		} else if c.Pct(1) {
			s = kit.Long(c.Rand) + s
		}
		if strings.IndexByte(s, 0) < 0 && utf8.ValidString(s) {
			return s
		}
	}
}

func (s *pgSpec) vec() int64 {
	if s.big && s.c.Pct(15) {
		return kit.Pick(s.c, int64(math.MaxInt64), math.MinInt64, math.MinInt64+1, 1<<62, -(1 << 62), 1<<53+1)
	}
	if s.c.Pct(5) {
		return 0
	}
	return s.c.I64(-20, 100)
}

func (s *pgSpec) batch(id int) *pgBatch {
	c := s.c
	b := &pgBatch{id: id}
	n := c.Range(1, 5)
	if c.IntN(400) == 0 {
		n = c.Range(100, 1500) // bulk
		c.Label("bulk batches")
	}
	for i := n; i > 0; i-- {
		if len(s.ents) > 0 && n < 100 && c.Pct(25) || len(b.es) > 0 && n >= 100 && c.Pct(2) {
			if n >= 100 {
				b.es = append(b.es, b.es[c.IntN(len(b.es))])
				continue
			}
			var ids []string
			for k := range s.ents {
				ids = append(ids, k)
			}
			sort.Strings(ids)
			b.es = append(b.es, s.ents[ids[c.IntN(len(ids))]])
			continue
		}
		if s.clash && c.Pct(15) {
			b.es = append(b.es, persistence.CommitEntry{Key: kit.Pick(c, s.keys...), CommitID: fmt.Sprintf("clash%d", c.IntN(3)), Vector: 7})
			continue
		}
		s.n++
		cid := fmt.Sprintf("c%d", s.n)
		if c.Pct(20) {
			if x := pgNames(c); x != "" {
				if _, used := s.ents[x]; !used {
					cid = x
				}
			}
		}
		e := persistence.CommitEntry{Key: kit.Pick(c, s.keys...), CommitID: cid, Vector: s.vec()}
		if c.Pct(s.toks) {
			t := c.I64(-1, 6)
			if s.big && c.Pct(10) {
				t = kit.Pick(c, int64(math.MaxInt64), math.MinInt64, 0)
			}
			e.FencingToken = &t
		}
		s.ents[cid] = e
		b.es = append(b.es, e)
	}
	return b
}

func pgSetup(c *kit.C, w *pgWorld) *pgSpec {
	s := &pgSpec{c: c, ents: map[string]persistence.CommitEntry{}, clash: c.Pct(30), big: c.Pct(30), toks: kit.Pick(c, 0, 40, 90)}
	for i := c.Range(1, 3); i > 0; i-- {
		s.keys = append(s.keys, pgNames(c))
	}
	for i, k := range s.keys {
		if !w.create || c.Pct(50) {
			if !w.create && i > 0 && c.Pct(10) {
				continue // unknown to the store
			}
			var t *int64
			if c.Pct(40) {
				x := c.I64(0, 4)
				t = &x
			}
			w.seed(k, kit.Pick(c, c.I64(-50, 1000), 0, 1<<53+1), t)
		}
	}
	w.seed("bystander", 77, nil)
	return s
}

// pgSeq: one client, faults; every outcome must be the model's.
func pgSeq(c *kit.C) {
	c.Bubble(xpoint.Config{}, func() {
		w := newPG(c, c.Pct(60))
		s := pgSetup(c, w)
		faults := kit.Pick(c, 0, 2, 8)
		fault := ""
		inCall := false
		w.d.hook = func(ctx context.Context, what string, tag any) error {
			if inCall && fault == "" && c.Pct(faults) && what != "rollback" {
				fault = what
				c.Label("fault " + what)
				return errConn
			}
			return nil
		}
		db := sql.OpenDB(connector{w.d})
		defer db.Close()
		p := persistence.NewPostgresPersister(db, w.create)
		var hist []*pgBatch
		oks := 0
		for i := c.Range(2, 12); i > 0 && w.bad == ""; i-- {
			var b *pgBatch
			if len(hist) > 0 && c.Pct(40) {
				b = hist[c.IntN(len(hist))]
				if c.Pct(30) {
					b = &pgBatch{id: b.id + 100, es: append([]persistence.CommitEntry{}, b.es...)}
					c.Shuffle(len(b.es), func(x, y int) { b.es[x], b.es[y] = b.es[y], b.es[x] })
					b.es = b.es[:c.Range(1, len(b.es))]
				}
			} else {
				b = s.batch(len(hist))
				hist = append(hist, b)
			}
			call := b
			if c.Pct(8) {
				es := append([]persistence.CommitEntry{}, b.es...)
				at := c.IntN(len(es) + 1)
				es = append(es[:at:at], append([]persistence.CommitEntry{{Key: kit.Pick(c, s.keys...), Vector: 3}}, b.es[at:]...)...)
				call = &pgBatch{id: b.id + 1000, es: es}
			}
			var nextM *pgModel
			var why string
			w.d.mu.Lock()
			before := w.m.clone()
			nextM, why = w.m.apply(call.es, w.create, func(string) {})
			w.d.mu.Unlock()
			fault, inCall = "", true
			ctx := context.WithValue(context.Background(), tagKey{}, call)
			if c.Pct(10) {
				w.d.cur, ctx = call, nil
			}
			err := p.CommitBatch(ctx, call.es)
			inCall = false
			c.Logf("%s must-fail=%q fault=%q -> %v", showPG(call.es), why, fault, err)
			w.d.mu.Lock()
			d := w.matches(w.state(), nextM, call.es)
			dPrev := w.matches(w.state(), before, call.es)
			w.d.mu.Unlock()
			unsup := w.d.unsup != nil
			switch {
			case unsup || w.bad != "":
			case why != "" && err == nil:
				w.bad = fmt.Sprintf("%s must fail (%s) but was acknowledged", showPG(call.es), why)
			case why != "" && dPrev != "":
				w.bad = fmt.Sprintf("%s failed (%s) but changed the store: %s", showPG(call.es), why, dPrev)
			case why != "":
				c.Label("refused: " + why)
			case fault == "" && err != nil:
				w.bad = fmt.Sprintf("nothing failed, but %s reported %v", showPG(call.es), err)
			case err == nil && d != "":
				w.bad = fmt.Sprintf("%s was acknowledged, but %s", showPG(call.es), d)
			case err != nil && d != "" && dPrev != "":
				w.bad = fmt.Sprintf("%s failed half-way: %s", showPG(call.es), dPrev)
			}
			if err == nil {
				oks++
				w.acked(call)
			}
		}
		// everything that is valid goes in when retried, exactly once
		faults = 0
		for _, b := range hist {
			if w.bad != "" || w.d.unsup != nil {
				break
			}
			w.d.mu.Lock()
			_, why := w.m.apply(b.es, w.create, func(string) {})
			w.d.mu.Unlock()
			err := p.CommitBatch(context.WithValue(context.Background(), tagKey{}, b), b.es)
			if (err == nil) != (why == "") {
				w.bad = fmt.Sprintf("retry of %s: %v, expected failure %q", showPG(b.es), err, why)
			}
			if err == nil {
				w.acked(b)
			}
		}
		if oks == 0 {
			c.Trivial()
		}
		c.Desc("sequential, create=%v, %d batches, faults %d%%: %v", w.create, len(hist), faults, w.m)
		c.Hash(w.m.String(), len(hist), w.labels)
		w.finish()
	})
}

// pgConc: several clients, lock waits, deadlocks, statement pauses, timeouts and faults.
func pgConc(c *kit.C) {
	c.Bubble(xpoint.Config{}, func() {
		w := newPG(c, c.Pct(60))
		s := pgSetup(c, w)
		s.big = false
		var batches []*pgBatch
		for i := c.Range(1, 4); i > 0; i-- {
			batches = append(batches, s.batch(i))
		}
		faults := kit.Pick(c, 0, 0, 3, 8)
		slow := kit.Pick(c, 3, 50, 100000)
		var hmu sync.Mutex
		hr := c.Sub()
		healed := 0
		var sig []string
		w.d.hook = func(ctx context.Context, what string, tag any) error {
			hmu.Lock()
			pause := time.Duration(hr.IntN(slow))
			if slow > 1000 && hr.IntN(40) == 0 {
				pause = 15 * time.Second
			}
			hit := healed == 0 && hr.IntN(100) < faults
			if b, ok := tag.(*pgBatch); ok && len(sig) < 200 && (what == "stmt-done" || what == "commit-done") {
				sig = append(sig, fmt.Sprint(b.id))
			}
			if what == "commit" && pause > time.Second {
				pause = time.Millisecond
			}
			hmu.Unlock()
			if pause > 0 {
				t := time.NewTimer(pause)
				select {
				case <-t.C:
				case <-ctx.Done():
					t.Stop()
					return ctx.Err()
				}
			}
			if hit {
				return errConn
			}
			return nil
		}
		n := c.Range(2, 4)
		shared := c.Pct(50)
		db := sql.OpenDB(connector{w.d})
		if c.Pct(30) {
			db.SetMaxOpenConns(c.Range(1, 2))
		}
		defer db.Close()
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			r := c.Sub()
			mydb := db
			if !shared {
				mydb = sql.OpenDB(connector{w.d})
				defer mydb.Close()
			}
			c.Go(&wg, func() {
				p := persistence.NewPostgresPersister(mydb, w.create)
				for _, i := range r.Perm(len(batches)) {
					b := batches[i]
					for try := 0; try < 8; try++ {
						ctx, cancel := context.WithValue(context.Background(), tagKey{}, b), context.CancelFunc(func() {})
						if r.IntN(4) == 0 {
							ctx, cancel = context.WithTimeout(ctx, time.Duration(1+r.IntN(4*slow)))
						}
						err := p.CommitBatch(ctx, b.es)
						cancel()
						if err == nil {
							w.acked(b)
							break
						}
						c.Label("failed call")
						if strings.Contains(err.Error(), "deadlock") {
							c.Label("deadlock")
						}
						time.Sleep(time.Duration(r.IntN(slow)))
					}
				}
			})
		}
		wg.Wait()
		// settled: what is valid goes in
		hmu.Lock()
		healed = 1
		slow = 1
		hmu.Unlock()
		p := persistence.NewPostgresPersister(db, w.create)
		for _, b := range batches {
			if w.bad != "" || w.d.unsup != nil {
				break
			}
			w.d.mu.Lock()
			_, why := w.m.apply(b.es, w.create, func(string) {})
			w.d.mu.Unlock()
			err := p.CommitBatch(context.WithValue(context.Background(), tagKey{}, b), b.es)
			if (err == nil) != (why == "") {
				w.bad = fmt.Sprintf("finally, %s: %v, expected failure %q", showPG(b.es), err, why)
			}
			if err == nil {
				w.acked(b)
			}
		}
		c.Label("concurrent")
		c.Desc("%d clients applying the same %d batches, create=%v, faults %d%%: %v", n, len(batches), w.create, faults, w.m)
		c.Hash(sig)
		w.finish()
	})
}

func TestC17(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C17", kit.Part{Name: "sequential", Fn: pgSeq}, kit.Part{Name: "concurrent", Fn: pgConc})
}
