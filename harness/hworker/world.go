package hworker

import (
	"errors"
	"fmt"
	"reflect"
	"sort"
	"sync"
	"time"
	"unsafe"

	"vsa"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/zzverif/kit"
)

func init() { kit.Quiet() }

var errDown = errors.New("persister down")

// batch is one CommitBatch call.
type batch struct {
	s, e   int64 // ticks
	t0, t1 time.Time
	rows   []core.Commit
	ok     bool
}

// op is one operation on a key.
type op struct {
	key    string
	s, e   int64
	t0, t1 time.Time
	amt    int64 // exact effect on the key's net
	ptr    *vsa.VSA
}

// world is a store, what was done to it and what was persisted.
type world struct {
	c     *kit.C
	store *core.Store
	mu    sync.Mutex
	ops   map[string][]*op
	bs    []*batch
	dur   map[string]int64
	// plan decides a call: how long it takes, what happens meanwhile, whether it succeeds.
	plan func(n int, rows []core.Commit) (d time.Duration, during func(), ok bool)
	busy int
	t0   time.Time // about when the worker starts
}

func newWorld(c *kit.C, limit int64, o vsa.Options) *world {
	return &world{c: c, store: core.NewStoreWithOptions(limit, o), ops: map[string][]*op{}, dur: map[string]int64{}, t0: time.Now()}
}

func (w *world) PrintFinalMetrics() {}

func (w *world) CommitBatch(rows []core.Commit) error {
	w.mu.Lock()
	b := &batch{s: w.c.Tick(), t0: time.Now(), rows: append([]core.Commit(nil), rows...)}
	n := len(w.bs)
	w.bs = append(w.bs, b)
	if w.busy++; w.busy > 1 {
		w.c.Label("overlapping persister calls")
	}
	w.mu.Unlock()
	d, during, ok := time.Duration(0), func() {}, true
	if w.plan != nil {
		d, during, ok = w.plan(n, b.rows)
	}
	if d > 0 {
		time.Sleep(d / 2)
	}
	if during != nil {
		during()
	}
	if d > 0 {
		time.Sleep(d - d/2)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.busy--
	b.e, b.t1, b.ok = w.c.Tick(), time.Now(), ok
	w.c.Logf("batch %d [%d,%d] at %v ok=%v %v", n, b.s, b.e, b.t0.UnixNano(), ok, b.rows)
	seen := map[string]bool{}
	for _, r := range b.rows {
		if r.Vector == 0 || seen[r.Key] {
			w.c.Fail("batch %d has a zero or repeated row: %v", n, b.rows)
		}
		seen[r.Key] = true
		if ok {
			w.dur[r.Key] += r.Vector
		}
	}
	if !ok {
		w.c.Label("rejected batches")
		return errDown
	}
	w.c.Label("acknowledged batches")
	return nil
}

// do looks the key up and performs one operation: kind 0 consume, 1 refund of one, 2 update.
func (w *world) do(key string, kind int, n int64) *op {
	o := &op{key: key, s: w.c.Tick(), t0: time.Now(), e: 1 << 62}
	w.mu.Lock()
	w.ops[key] = append(w.ops[key], o)
	w.mu.Unlock()
	v := w.store.GetOrCreate(key)
	ok := true
	amt := int64(0)
	switch kind {
	case 0:
		if ok = v.TryConsume(n); ok {
			amt = n
		}
	case 1:
		if ok = v.TryRefund(1); ok {
			amt = -1
		}
	case 2:
		v.Update(n)
		amt = n
	}
	w.mu.Lock()
	o.ptr, o.amt, o.t1 = v, amt, time.Now()
	o.e = w.c.Tick()
	w.mu.Unlock()
	w.c.Logf("op %q kind=%d n=%d ok=%v [%d,%d] at %v..%v on %p", key, kind, n, ok, o.s, o.e, o.t0.UnixNano(), o.t1.UnixNano(), v)
	return o
}

// net is the exact total of a key's finished operations.
func (w *world) net(key string) int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	t := int64(0)
	for _, o := range w.ops[key] {
		t += o.amt
	}
	return t
}

func (w *world) durable(key string) int64 {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.dur[key]
}

func (w *world) keys() []string {
	w.mu.Lock()
	defer w.mu.Unlock()
	var ks []string
	for k := range w.ops {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// reallyHad checks, for every acknowledged row, that it brought the durable total of its key
// to a net total the key had at some instant since the cycle began.
func (w *world) reallyHad() {
	w.mu.Lock()
	defer w.mu.Unlock()
	dur := map[string]int64{}
	prev := int64(0)
	for i, b := range w.bs {
		if b.ok {
			for _, r := range b.rows {
				dur[r.Key] += r.Vector
				if !had(w.ops[r.Key], prev, b.s, dur[r.Key]) {
					w.c.Fail("batch %d row %v brings the durable total of the key to %d, a net total it never had since the cycle began (ticks %d..%d)", i, r, dur[r.Key], prev, b.s)
				}
				w.c.Label("rows explained")
			}
		}
		prev = b.e
	}
}

// had tells whether the total was D at some instant in the ticks lo..hi.
func had(ops []*op, lo, hi, D int64) bool {
	ts := []int64{lo}
	for _, o := range ops {
		if o.s > lo && o.s <= hi {
			ts = append(ts, o.s)
		}
		if o.e > lo && o.e <= hi {
			ts = append(ts, o.e)
		}
	}
	for _, t := range ts {
		sum := int64(0)
		var fly []int64
		for _, o := range ops {
			if o.e <= t {
				sum += o.amt
			} else if o.s <= t && o.amt != 0 {
				fly = append(fly, o.amt)
			}
		}
		set := map[int64]bool{sum: true}
		for _, a := range fly {
			next := make(map[int64]bool, 2*len(set))
			for x := range set {
				next[x] = true
				next[x+a] = true
			}
			set = next
		}
		if set[D] {
			return true
		}
	}
	return false
}

// conserved checks the durable totals after a clean stop.
func (w *world) conserved() {
	for _, k := range w.keys() {
		if n, d := w.net(k), w.durable(k); n != d {
			w.c.Fail("key %q: admitted minus refunded is %d, durable total is %d", k, n, d)
		}
	}
}

var vsaPtr = reflect.TypeOf((*vsa.VSA)(nil))

// visit calls f for every key the store's iteration shows.
func visit(s *core.Store, f func(key string, v *vsa.VSA)) {
	m := reflect.ValueOf(s).MethodByName("ForEach")
	ft := m.Type().In(0)
	m.Call([]reflect.Value{reflect.MakeFunc(ft, func(a []reflect.Value) []reflect.Value {
		e := a[1].Elem()
		var p *vsa.VSA
		for i := 0; i < e.NumField(); i++ {
			if e.Field(i).Type() == vsaPtr {
				p = (*vsa.VSA)(unsafe.Pointer(e.Field(i).Pointer()))
				break
			}
		}
		f(a[0].String(), p)
		return nil
	})})
}

// present is the live counter of every key, without touching any.
func present(s *core.Store) map[string]*vsa.VSA {
	m := map[string]*vsa.VSA{}
	visit(s, func(k string, v *vsa.VSA) { m[k] = v })
	return m
}

// oddKeys are key strings that separators, encodings and normalisations might confuse.
var oddKeys = []string{"", "a", "A", "a ", " a", "ä", "a\u0308", "\x00", "a\x00", "a:b", "a:b:c", "a%3Ab", "a/b", "../a", "k\n", "\xff\xfe", "\xff", "0", "00", "-1",
	"user-1", "user-10", "user-1 0", "{a}", "{a}b", "*", "?", "null", "{\"k\":1}", "𝔘", string(make([]byte, 300))}

func keyset(c *kit.C, n int) []string {
	var ks []string
	seen := map[string]bool{}
	if n > 1 && c.Pct(2) { // two that differ far from their start
		k := kit.Long(c.Rand)
		ks = append(ks, k+"a", k+"b")
		seen[k+"a"], seen[k+"b"] = true, true
		c.Label("very long keys")
	}
	for len(ks) < n {
		k := ""
		switch c.IntN(4) {
		case 3:
			if len(ks) == 0 {
				continue
			}
			k = kit.Twist(c.Rand, ks[c.IntN(len(ks))])
		case 0:
			k = oddKeys[c.IntN(len(oddKeys))]
		case 1:
			k = fmt.Sprintf("key-%d", c.IntN(50))
		default:
			b := make([]byte, c.IntN(5))
			for i := range b {
				b[i] = byte(c.IntN(256))
			}
			k = string(b)
		}
		if !seen[k] {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	return ks
}

func storeOptions(c *kit.C) vsa.Options {
	var o vsa.Options
	if c.Pct(50) {
		return o
	}
	if c.Pct(50) {
		o.Stripes = kit.Pick(c, 1, 8, 13, 64)
	}
	if c.Pct(30) {
		o.UseCachedGate = true
		o.CacheInterval = c.Dur(2*time.Millisecond, 50*time.Millisecond)
		o.CacheSlack = c.Int64N(3)
	} else if c.Pct(30) {
		o.GroupCount = c.Range(1, 9)
		o.GroupSlack = c.Int64N(3)
	}
	if c.Pct(40) {
		o.FastPathGuard = c.I64(1, 20)
	}
	if c.Pct(30) {
		o.HierarchicalGroups = c.Range(2, 9)
	}
	o.CheapUpdateChooser = c.Pct(30)
	o.PerPUpdateChooser = c.Pct(30)
	return o
}

// manyKeys is a key set that makes batches of hundreds of rows, and the operations to spread over it.
func manyKeys(c *kit.C) (ks []string, ops int) {
	n := kit.Pick(c, 70, 130, 300, 600, 1100)
	if c.Pct(1) {
		n = c.Range(4000, 9000)
	}
	for i := 0; i < n; i++ {
		ks = append(ks, fmt.Sprintf("%d-key", i))
	}
	return ks, n + c.IntN(2*n)
}
