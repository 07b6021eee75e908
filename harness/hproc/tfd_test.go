package hproc

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand/v2"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"vsa/internal/zzverif/kit"
	"vsa/plugin/tfd"
)

// ---- C26 ----

type cell struct{ key, bucket string }

// book is what clients know about the cells.
type book struct {
	sync.Mutex
	sent map[cell]int64   // asked for, whatever became of it (positive-only cells)
	acc  map[cell]int64   // accepted
	open map[cell][]int64 // sent, no answer
	ids  map[cell][2]uint64
	kid  map[string]uint64
}

type accepted struct {
	Accepted *bool  `json:"accepted"`
	KeyID    uint64 `json:"key_id"`
	BucketID uint64 `json:"bucket_id"`
	Channel  string `json:"channel"`
}

func decode(b []byte, v any) error {
	if len(bytes.TrimSpace(b)) == 0 {
		return fmt.Errorf("empty body")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	if err := d.Decode(v); err != nil {
		return fmt.Errorf("%v in %q", err, tail(string(b), 300))
	}
	return nil
}

// explains tells whether got is acc plus some of the unanswered deltas.
func explains(got, acc int64, open []int64) bool {
	if len(open) > 16 {
		return true
	}
	for m := 0; m < 1<<len(open); m++ {
		s := acc
		for i, d := range open {
			if m>>i&1 == 1 {
				s += d
			}
		}
		if s == got {
			return true
		}
	}
	return false
}

func amount(r *rand.Rand) int64 {
	switch r.IntN(12) {
	case 0:
		e := []int64{0, -1, math.MaxInt64, math.MinInt64, 1 << 53, 1<<53 + 1}
		return e[r.IntN(len(e))]
	case 1:
		return -int64(r.IntN(1000))
	default:
		return int64(r.IntN(1000))
	}
}

func proxy(c *kit.C) {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "tfd")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	sLog, vLog := filepath.Join(dir, "s.log"), filepath.Join(dir, "v.log")
	bk := &book{sent: map[cell]int64{}, acc: map[cell]int64{}, open: map[cell][]int64{}, ids: map[cell][2]uint64{}, kid: map[string]uint64{}}
	rounds := c.Range(2, 3)
	nc := c.Range(1, 6)
	nkeys := kit.Pick(c, 1, 2, 8)
	nbuckets := kit.Pick(c, 1, 3, 40)
	long := ""
	if c.Pct(20) {
		long = kit.Long(c.Rand)
	}
	keyOf := func(owner string, i int) string {
		owner = long + owner
		switch i % 8 {
		case 1, 5:
			return fmt.Sprintf("%s&key=%d ü", owner, i)
		case 3: // takes its predecessor's name, but for its case
			return strings.ToUpper(fmt.Sprintf("%s:%d\x00", owner, i-1))
		case 7: // takes its predecessor's name, but for a blank
			return fmt.Sprintf("%s:%d\x00 ", owner, i-1)
		case 2, 6:
			return fmt.Sprintf("%s:%d\x00", owner, i)
		}
		return fmt.Sprintf("%s-%d", owner, i)
	}
	bucketOf := func(i int) string {
		if i == 0 {
			return ""
		}
		return fmt.Sprintf("b%d?/", i)
	}
	var answered, late, queries atomic.Int64
	allPrivate := func(owner string) (ks []string) {
		for i := 0; i < nkeys; i++ {
			ks = append(ks, keyOf(owner, i))
		}
		return
	}
	// query asks for one sum
	query := func(k *client, key, bucket string) (int64, error) {
		q := url.Values{"key": {key}, "sum": {"1"}}
		if bucket != "" {
			q.Set("bucket", bucket)
		}
		a, err := k.do("GET", "/state", q, nil)
		if err != nil {
			return 0, err
		}
		queries.Add(1)
		var m map[string]json.Number
		if a.status != 200 {
			c.Fail("state answered %d: %s", a.status, a.body)
			return 0, nil
		}
		if err := decode(a.body, &m); err != nil {
			c.Fail("state with sum=1: %v", err)
			return 0, nil
		}
		n, err := strconv.ParseInt(string(m["sum"]), 10, 64)
		if err != nil {
			c.Fail("state with sum=1: %s", a.body)
		}
		return n, nil
	}
	// dump asks for all cells (of one key, or of all)
	dump := func(k *client, key string) (map[string]int64, error) {
		q := url.Values{}
		if key != "" {
			q.Set("key", key)
		}
		a, err := k.do("GET", "/state", q, nil)
		if err != nil {
			return nil, err
		}
		queries.Add(1)
		m := map[string]int64{}
		if a.status != 200 {
			c.Fail("state answered %d: %s", a.status, a.body)
		} else if err := decode(a.body, &m); err != nil {
			c.Fail("state: %v", err)
		}
		return m, nil
	}
	// settle compares every answer with the books at a quiet moment, and learns what became of unanswered operations
	settle := func(k *client, when string) {
		all, err := dump(k, "")
		if err != nil {
			c.Fail("%s: state: %v", when, err)
			return
		}
		expect := map[string]int64{}
		bk.Lock()
		cells := map[cell]bool{}
		for x := range bk.acc {
			cells[x] = true
		}
		for x := range bk.open {
			cells[x] = true
		}
		bk.Unlock()
		byKey := map[string]int64{}
		for x := range cells {
			if _, ok := bk.ids[x]; !ok { // no answer told the ids of this cell
				id := [2]uint64{tfd.HashKey(x.key)}
				if x.bucket != "" {
					id[1] = tfd.HashKey(x.bucket)
				}
				bk.ids[x] = id
				c.Label("unanswered operation on a new cell")
			}
		}
		for x := range cells {
			var got int64
			var err error
			if x.bucket != "" {
				got, err = query(k, x.key, x.bucket)
				if err != nil {
					c.Fail("%s: state: %v", when, err)
					return
				}
			} else {
				id := bk.ids[x]
				got = all[fmt.Sprintf("%d:%d", id[0], id[1])]
			}
			if !explains(got, bk.acc[x], bk.open[x]) {
				c.Fail("%s: key %q bucket %q: accepted operations sum to %d (and %v without answer), state says %d", when, x.key, x.bucket, bk.acc[x], bk.open[x], got)
				return
			}
			bk.acc[x] = got
			bk.sent[x] = got
			delete(bk.open, x)
			byKey[x.key] += got
			id := bk.ids[x]
			expect[fmt.Sprintf("%d:%d", id[0], id[1])] += got
		}
		for id, v := range all {
			if v != expect[id] {
				c.Fail("%s: the dump has %d for %s, the operations sum to %d", when, v, id, expect[id])
				return
			}
		}
		for id, v := range expect {
			if v != all[id] {
				c.Fail("%s: the dump has %d for %s, the operations sum to %d", when, all[id], id, v)
				return
			}
		}
		for key, want := range byKey {
			got, err := query(k, key, "")
			if err != nil || got != want {
				c.Fail("%s: key %q in total: operations sum to %d, state says %d (%v)", when, key, want, got, err)
				return
			}
			m, err := dump(k, key)
			if err != nil {
				c.Fail("%s: state: %v", when, err)
				return
			}
			var sum int64
			for id, v := range m {
				if v != expect[id] {
					c.Fail("%s: the cells of key %q have %d for %s, the operations sum to %d", when, key, v, id, expect[id])
				}
				sum += v
			}
			if sum != want {
				c.Fail("%s: the cells of key %q sum to %d, the operations to %d", when, key, sum, want)
			}
		}
	}
	for round := 0; round < rounds && !c.Failed(); round++ {
		flags := []string{
			fmt.Sprintf("-shards=%d", kit.Pick(c, 1, 4, 0, 16)), fmt.Sprintf("-order_pow2=%d", kit.Pick(c, 1, 2, 10, -1)),
			fmt.Sprintf("-count_thresh=%d", kit.Pick(c, 1, 10, 4096)), "-time_cap=" + kit.Pick(c, "1us", "3ms", "10s"), "-flush=" + kit.Pick(c, "100us", "2ms", "10s"),
			"-s_log=" + sLog, "-v_log=" + vLog,
		}
		p := launchStalled(c, sometimes(c), "tfd-proxy", "-http", flags...)
		if p == nil {
			return
		}
		quiet := &client{addr: p.addr}
		if round > 0 {
			settle(quiet, fmt.Sprintf("after restart %d", round))
			c.Label("restart")
		}
		var signalled atomic.Bool
		var wg sync.WaitGroup
		atRest := c.Pct(25)
		for i := 0; i < nc; i++ {
			r := c.Sub()
			owner := fmt.Sprintf("own%d", i)
			slowOne := c.Pct(40)
			limitOps := 20 + c.IntN(150)
			forever := !atRest && c.Pct(80)
			c.Go(&wg, func() {
				k := &client{addr: p.addr}
				defer k.close()
				mine := allPrivate(owner)
				t0 := time.Now()
				for n := 0; p.alive() && (forever || n < limitOps) && time.Since(t0) < 100*time.Second && !c.Failed(); n++ {
					var pause func()
					if slowOne && r.IntN(30) == 0 {
						pause = func() { time.Sleep(time.Duration(5+r.IntN(100)) * time.Millisecond) }
					}
					shared := r.IntN(3) == 0
					x := cell{mine[r.IntN(len(mine))], bucketOf(r.IntN(nbuckets + 1))}
					if shared {
						x.key = keyOf("shared", r.IntN(nkeys))
						if x.bucket == "" {
							x.bucket = "b"
						}
					}
					verb := r.IntN(20)
					switch {
					case verb == 0: // a query: exact for what is mine
						if shared {
							bk.Lock()
							lo := bk.acc[x]
							bk.Unlock()
							got, err := query(k, x.key, x.bucket)
							if err != nil {
								if signalled.Load() {
									return
								}
								continue
							}
							bk.Lock()
							hi := bk.sent[x]
							bk.Unlock()
							if got < lo || got > hi {
								c.Fail("key %q bucket %q: %d had been accepted when the query was sent, %d been sent when it was answered, state says %d", x.key, x.bucket, lo, hi, got)
							}
							c.Label("query of a shared key")
							continue
						}
						b := x.bucket
						got, err := query(k, x.key, b)
						if err != nil {
							if signalled.Load() {
								return
							}
							continue
						}
						bk.Lock()
						want, open := bk.acc[x], bk.open[x]
						if b == "" {
							want, open = 0, nil
							for y, v := range bk.acc {
								if y.key == x.key {
									want += v
								}
							}
							for y, o := range bk.open {
								if y.key == x.key {
									open = append(open, o...)
								}
							}
						}
						ok := explains(got, want, open)
						bk.Unlock()
						if !ok {
							c.Fail("key %q bucket %q: accepted operations sum to %d (and %v without answer), state says %d", x.key, b, want, open, got)
						}
						c.Label("query of an own key")
						continue
					case verb == 1: // no key
						path := []string{"/consume", "/reverse", "/set_limit"}[r.IntN(3)]
						a, err := k.do("POST", path, url.Values{"bucket": {"x"}, "n": {"100"}, "rps": {"1"}}, nil)
						if err == nil && a.status != 400 {
							c.Fail("%s without key answered %d", path, a.status)
						}
						if err != nil && signalled.Load() {
							return
						}
						continue
					case verb == 2:
						a, err := k.do("POST", "/set_limit", url.Values{"key": {x.key}, "rps": {"10"}}, nil)
						if err == nil && a.status != 202 {
							c.Fail("set_limit answered %d", a.status)
						}
						if err != nil && signalled.Load() {
							return
						}
						continue
					}
					n := amount(r)
					path, d := "/consume", n
					if !shared && verb < 8 {
						path, d = "/reverse", -n
					}
					if shared {
						n = int64(r.IntN(50))
						d = n
					}
					q := url.Values{"key": {x.key}, "n": {strconv.FormatInt(n, 10)}}
					if x.bucket != "" {
						q.Set("bucket", x.bucket)
					}
					if n == 1 && r.IntN(2) == 0 {
						q.Del("n")
					}
					bk.Lock()
					if shared {
						bk.sent[x] += d
					}
					bk.Unlock()
					a, err := k.do("POST", path, q, pause)
					if err == errNotSent {
						if signalled.Load() {
							return
						}
						continue
					}
					bk.Lock()
					if err != nil {
						bk.open[x] = append(bk.open[x], d)
						bk.Unlock()
						continue
					}
					bk.acc[x] += d
					bk.Unlock()
					answered.Add(1)
					if signalled.Load() {
						late.Add(1)
					}
					var ac accepted
					if a.status != 202 {
						c.Fail("%s %v answered %d", path, q, a.status)
						return
					}
					if err := decode(a.body, &ac); err != nil {
						c.Fail("%s: %v", path, err)
						return
					}
					id := [2]uint64{ac.KeyID, ac.BucketID}
					bk.Lock()
					if old, ok := bk.ids[x]; ok && old != id {
						c.Fail("key %q bucket %q had ids %d, now %d", x.key, x.bucket, old, id)
					}
					if old, ok := bk.kid[x.key]; ok && old != ac.KeyID {
						c.Fail("key %q had id %d, now %d", x.key, old, ac.KeyID)
					}
					bk.ids[x], bk.kid[x.key] = id, ac.KeyID
					bk.Unlock()
				}
			})
		}
		if atRest { // all clients finish, one quiet comparison before the stop
			wg.Wait()
			settle(quiet, fmt.Sprintf("round %d at rest", round))
			c.Label("at rest")
			if c.Pct(40) { // what state has answered survives even this
				quiet.close()
				p.kill()
				c.Label("killed at rest")
				continue
			}
		} else {
			time.Sleep(c.Dur(0, 120*time.Millisecond))
		}
		quiet.close()
		signalled.Store(true)
		if !p.alive() {
			c.Fail("the proxy ended by itself: %v\n%s", p.err, tail(p.text("err"), 6000))
		}
		sig := kit.Pick(c, syscall.SIGTERM, syscall.SIGINT)
		_ = p.cmd.Process.Signal(sig)
		done := p.wait("stop")
		wg.Wait()
		if done && p.err != nil {
			c.Fail("stop by %v: %v\n%s", sig, p.err, tail(p.text("err"), 6000))
		}
		p.kill()
		if !done {
			return
		}
	}
	if !c.Failed() {
		p := launchStalled(c, sometimes(c), "tfd-proxy", "-http", "-s_log="+sLog, "-v_log="+vLog)
		if p == nil {
			return
		}
		k := &client{addr: p.addr}
		settle(k, "after the last restart")
		settle(k, "asked again")
		k.close()
		_ = p.cmd.Process.Signal(syscall.SIGTERM)
		if p.wait("stop") && p.err != nil {
			c.Fail("stop: %v", p.err)
		}
		p.kill()
	}
	c.Events(answered.Load() + queries.Load())
	c.LabelN("accepted", answered.Load())
	c.LabelN("accepted after the signal", late.Load())
	c.LabelN("queries", queries.Load())
	c.Hash(nc, nkeys, nbuckets, rounds, answered.Load())
	c.Desc("%d rounds, %d clients, %d keys, %d buckets: %d accepted, %d after the signal, %d queries", rounds, nc, nkeys, nbuckets, answered.Load(), late.Load(), queries.Load())
}

func TestC26(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C26", kit.Part{Name: "proxy", Fn: proxy, CPU: 10 * time.Minute},
		kit.Part{Name: "boot", Share: 1.2, Fn: boot("tfd-proxy"), CPU: 10 * time.Minute})
}
