package hworker

import (
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/prometheus/client_golang/prometheus"

	"vsa"
	"vsa/internal/ratelimiter/api"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/ratelimiter/telemetry/churn"
	"vsa/internal/zzverif/hvsa"
	"vsa/internal/zzverif/kit"
	"vsa/internal/zzverif/xpoint"
)

func mux(s *core.Store, limit int64) *http.ServeMux {
	m := http.NewServeMux()
	api.NewServer(s, limit).RegisterRoutes(m)
	return m
}

// spell encodes a key in one of the ways a client may.
func spell(r *rand.Rand, key string) string {
	switch r.IntN(3) {
	case 0:
		return url.QueryEscape(key)
	case 1: // everything percent-encoded
		var b strings.Builder
		for i := 0; i < len(key); i++ {
			fmt.Fprintf(&b, "%%%02x", key[i])
		}
		return b.String()
	}
	return strings.ReplaceAll(url.QueryEscape(key), "+", "%20")
}

func target(r *rand.Rand, path, key string) string {
	q := "api_key=" + spell(r, key)
	switch r.IntN(6) {
	case 0:
		q = "x=1&" + q
	case 1:
		q += "&api_key=other-key" // the first one counts
	case 2:
		q += "&y=" + spell(r, key)
	}
	return path + "?" + q
}

var methods = []string{"GET", "GET", "POST", "HEAD", "PUT", "DELETE", "PATCH", "OPTIONS"}

type answer struct {
	code int
	rem  int64
	ok   bool
}

// judge checks what every answer must look like, whatever the state.
func judge(c *kit.C, path, key string, limit int64, code int, h http.Header) answer {
	a := answer{code: code}
	if path == "/release" {
		if code != 204 {
			c.Fail("release of %q answered %d", key, code)
		}
		return a
	}
	if code != 200 && code != 429 {
		c.Fail("check of %q answered %d", key, code)
		return a
	}
	a.ok = code == 200
	want := map[bool]string{true: "OK", false: "Exceeded"}[a.ok]
	if got := h.Get("X-RateLimit-Status"); got != want {
		c.Fail("check of %q answered %d with status header %q", key, code, got)
	}
	if got := h.Get("X-RateLimit-Limit"); got != fmt.Sprint(limit) {
		c.Fail("check of %q: limit header %q, limit %d", key, got, limit)
	}
	rem, err := strconv.ParseInt(h.Get("X-RateLimit-Remaining"), 10, 64)
	if err != nil {
		c.Fail("check of %q: remaining header %q", key, h.Get("X-RateLimit-Remaining"))
	}
	a.rem = rem
	if n, err := strconv.Atoi(h.Get("Retry-After")); !a.ok && (err != nil || n <= 0) {
		c.Fail("denied check of %q: Retry-After %q", key, h.Get("Retry-After"))
	}
	return a
}

// newRequest is a request as clients send them: only the query says which key it is about,
// whatever the body and the headers hold.
func newRequest(r *rand.Rand, method, target string) *http.Request {
	var q *http.Request
	switch r.IntN(6) {
	case 0:
		q = httptest.NewRequest(method, target, strings.NewReader("api_key=other-key&x=1"))
		q.Header.Set("Content-Type", "application/x-www-form-urlencoded")
	case 1:
		q = httptest.NewRequest(method, target, strings.NewReader("--b\r\nContent-Disposition: form-data; name=\"api_key\"\r\n\r\nother-key\r\n--b--\r\n"))
		q.Header.Set("Content-Type", "multipart/form-data; boundary=b")
	case 2:
		q = httptest.NewRequest(method, target, strings.NewReader(`{"api_key":"other-key"}`))
		q.Header.Set("Content-Type", "application/json")
	default:
		q = httptest.NewRequest(method, target, nil)
	}
	if r.IntN(4) == 0 {
		q.Header.Set([]string{"api_key", "X-Api-Key", "Authorization", "Cookie", "X-Forwarded-For"}[r.IntN(5)], []string{"other-key", "api_key=other-key", "Bearer other-key"}[r.IntN(3)])
	}
	return q
}

func request(c *kit.C, r *rand.Rand, m http.Handler, path, key string, limit int64) answer {
	q := newRequest(r, methods[r.IntN(len(methods))], target(r, path, key))
	w := httptest.NewRecorder()
	m.ServeHTTP(w, q)
	return judge(c, path, key, limit, w.Code, w.Result().Header)
}

func apiKeys(c *kit.C, n int) []string {
	var ks []string
	for _, k := range keyset(c, n+1) {
		if k != "" && len(ks) < n {
			ks = append(ks, k)
		}
	}
	return ks
}

func TestC14(t *testing.T) {
	if os.Getenv("VERIF_PLAIN") == "1" {
		kit.Run(t, "C14", kit.Part{Name: "sockets", Fn: sockets})
		return
	}
	kit.Run(t, "C14",
		kit.Part{Name: "lin", Share: 0.5, Fn: apiLin},
		kit.Part{Name: "program", Share: 0.3, Fn: apiProgram},
		kit.Part{Name: "exact", Share: 0.2, Fn: apiExact})
}

// apiLin: concurrent requests are explained by the counter model; the remaining value is one the
// key had after the decision and before the answer.
func apiLin(c *kit.C) {
	o := storeOptions(c)
	limit := c.I64(0, 6)
	keys := apiKeys(c, c.Range(1, 2))
	gs := c.Range(2, 4)
	hist := map[string][]hvsa.Op{}
	overlap := false
	c.Bubble(c.Delays(), func() {
		s := core.NewStoreWithOptions(limit, o)
		m := mux(s, limit)
		var wg sync.WaitGroup
		var mu sync.Mutex
		for g := 0; g < gs; g++ {
			r := c.Sub()
			c.Go(&wg, func() {
				for i := 0; i < 3; i++ {
					k := keys[r.IntN(len(keys))]
					path := "/check"
					if r.IntN(4) == 0 {
						path = "/release"
					}
					t0 := c.Tick()
					a := request(c, r, m, path, k, limit)
					t1 := c.Tick()
					overlap = overlap || t1 > t0+1
					mu.Lock()
					id := int(t0)
					if path == "/release" {
						hist[k] = append(hist[k], hvsa.Op{K: hvsa.Release, Call: t0, Ret: t1, G: g})
					} else {
						hist[k] = append(hist[k], hvsa.Op{K: hvsa.Consume, Arg: 1, Ok: a.ok, Call: t0, Ret: t1, G: g, ID: id},
							hvsa.Op{K: hvsa.Avail, R1: a.rem, Call: t0, Ret: t1, G: g, After: id})
					}
					mu.Unlock()
				}
			})
		}
		wg.Wait()
		for k := range present(s) {
			if hist[k] == nil {
				c.Fail("key %q was touched, nobody asked for it", k)
			}
		}
		s.CloseAll()
	})
	var den hvsa.Denies
	if o.UseCachedGate {
		den = func(hvsa.SV, int64) bool { return true }
	} else if o.GroupCount > 1 && o.GroupSlack > 0 {
		den = func(m hvsa.SV, n int64) bool {
			v := m.V
			if v < 0 {
				v = -v
			}
			return m.S-v-o.GroupSlack < n
		}
	}
	for k, ops := range hist {
		ok, decided := hvsa.Linearizable(hvsa.SV{S: limit}, ops, den)
		if !decided {
			c.Inconclusive()
		} else if !ok {
			c.Fail("no order explains the answers for key %q (limit %d, options %+v): %v", k, limit, o, ops)
		}
		c.Hash(k, fmt.Sprint(ops))
	}
	c.Desc("limit %d options %+v histories %v", limit, o, hist)
	if !overlap {
		c.Trivial()
	}
}

// apiProgram: sequential requests, exact, including malformed ones.
func apiProgram(c *kit.C) {
	limit := c.I64(0, 8)
	if c.Pct(5) {
		limit = kit.Pick[int64](c, 1<<31-1, 1<<31, 1<<32+5, 1<<53+1, math.MaxInt64)
		c.Label("large budgets")
	}
	keys := apiKeys(c, c.Range(1, 4))
	n := c.Range(3, 40)
	c.Desc("limit %d keys %.40q %d requests", limit, keys, n)
	c.Bubble(xpoint.Config{}, func() {
		s := core.NewStore(limit)
		m := mux(s, limit)
		used := map[string]int64{}
		if limit > 8 && c.Pct(60) { // nearly used up
			for _, k := range keys {
				used[k] = limit - c.Int64N(10)
				if !s.GetOrCreate(k).TryConsume(used[k]) {
					c.Fail("consuming %d of %d was refused", used[k], limit)
				}
			}
		}
		for i := 0; i < n; i++ {
			if c.Pct(12) {
				bad := kit.Pick(c, "/check", "/check?", "/check?api_key=", "/check?api_key", "/check?API_KEY=a", "/check?api_key=%zz", "/check?key=a",
					"/release", "/release?api_key=", "/release?api_key=%4", "/check?api_key=&api_key=b", "/release?x=api_key")
				meth := kit.Pick(c, methods...)
				q := newRequest(c.Rand, meth, bad)
				w := httptest.NewRecorder()
				m.ServeHTTP(w, q)
				if w.Code != 400 {
					c.Fail("%s %s answered %d", meth, bad, w.Code)
				}
				c.Label("requests without key")
			} else {
				k := keys[c.IntN(len(keys))]
				if c.Pct(25) {
					request(c, c.Rand, m, "/release", k, limit)
					if used[k] > 0 {
						used[k]--
					} else {
						used[k] = 0
					}
				} else {
					a := request(c, c.Rand, m, "/check", k, limit)
					if want := used[k] < limit; a.ok != want {
						c.Fail("check of %q: admitted %v with %d of %d used", k, a.ok, used[k], limit)
					} else if want {
						used[k]++
					} else {
						used[k] = used[k]
					}
					if a.rem != limit-used[k] {
						c.Fail("check of %q: remaining %d, want %d", k, a.rem, limit-used[k])
					}
					c.Label("checks predicted")
				}
			}
			live := present(s)
			for k, v := range live {
				u, is := used[k]
				if !is {
					c.Fail("key %q was touched, nobody asked for it", k)
				} else if S, V := v.State(); S != limit || V != u {
					c.Fail("key %q is at (%d,%d), want (%d,%d)", k, S, V, limit, u)
				}
			}
			for k := range used {
				if live[k] == nil {
					c.Fail("key %q has no counter", k)
				}
			}
			c.Tick()
			if c.Failed() {
				break
			}
		}
		c.Hash(limit, used, n)
	})
}

// apiExact: exactly L of any number of concurrent checks succeed.
func apiExact(c *kit.C) {
	o := storeOptions(c)
	o.UseCachedGate, o.GroupSlack = false, 0
	limit := c.I64(0, 30)
	keys := apiKeys(c, c.Range(1, 3))
	gs := c.Range(2, 8)
	per := int(limit)*len(keys)/gs + c.Range(2, 12)
	withWorker := c.Pct(40)
	c.Desc("options %+v limit %d keys %q %d x %d checks, worker %v", o, limit, keys, gs, per, withWorker)
	c.Bubble(c.Delays(), func() {
		w := newWorld(c, limit, o)
		var wk *core.Worker
		if withWorker {
			wk = core.NewWorker(w.store, w, c.I64(1, 5), 0, ms, 0, time.Hour, time.Hour)
			wk.Start()
		}
		m := mux(w.store, limit)
		var wg sync.WaitGroup
		var mu sync.Mutex
		got, asked := map[string]int64{}, map[string]int64{}
		for g := 0; g < gs; g++ {
			r := c.Sub()
			c.Go(&wg, func() {
				for i := 0; i < per; i++ {
					k := keys[r.IntN(len(keys))]
					a := request(c, r, m, "/check", k, limit)
					mu.Lock()
					asked[k]++
					if a.ok {
						got[k]++
					}
					mu.Unlock()
					c.Tick()
					if r.IntN(4) == 0 {
						time.Sleep(time.Duration(r.Int64N(int64(ms))))
					}
				}
			})
		}
		wg.Wait()
		for k, n := range asked {
			if want := min(n, limit); got[k] != want {
				c.Fail("%d concurrent checks of %q with budget %d: %d succeeded", n, k, limit, got[k])
			}
			if n > limit {
				c.Label("keys driven past their budget")
			}
		}
		if wk != nil {
			wk.Stop()
			for k := range asked {
				if d := w.durable(k); d != got[k] {
					c.Fail("key %q: %d admitted, %d durable", k, got[k], d)
				}
			}
		}
		c.Hash(asked, got)
		w.store.CloseAll()
	})
}

// sockets: the same over real connections and threads.
var listened int

// listenAndServe starts the server with its own listener, which lasts as long as the process.
func listenAndServe(c *kit.C, s *core.Store, limit int64) string {
	ln, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+os.Getpid()>>16&127, os.Getpid()>>8&255, os.Getpid()&255))
	if err != nil {
		return ""
	}
	addr := ln.Addr().String()
	srv := api.NewServer(s, limit)
	if err := srv.ListenAndServe(addr); err == nil { // the address is taken
		c.Fail("ListenAndServe on an address in use returned no error")
	}
	ln.Close()
	listened++
	ended := make(chan error, 1)
	go func() { ended <- srv.ListenAndServe(addr) }()
	for t0 := time.Now(); time.Since(t0) < 20*time.Second; time.Sleep(time.Millisecond) {
		if x, err := net.Dial("tcp", addr); err == nil {
			x.Close()
			c.Label("own listener")
			return "http://" + addr
		}
		select {
		case err := <-ended:
			c.Logf("listen: %v", err)
			return ""
		default:
		}
	}
	c.Fail("ListenAndServe does not listen")
	return ""
}

func sockets(c *kit.C) {
	limit := c.I64(0, 200)
	keys := apiKeys(c, c.Range(1, 3))
	s := core.NewStore(limit)
	base := ""
	if listened < 40 && c.Pct(40) {
		base = listenAndServe(c, s, limit)
	}
	if base == "" {
		srv := httptest.NewServer(mux(s, limit))
		defer srv.Close()
		base = srv.URL
	}
	gs := c.Range(4, 16)
	per := int(limit)*len(keys)/gs + c.Range(5, 30)
	c.Desc("limit %d keys %q %d clients x %d checks over loopback", limit, keys, gs, per)
	var wg sync.WaitGroup
	var mu sync.Mutex
	got, asked := map[string]int64{}, map[string]int64{}
	cl := &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: gs}, Timeout: 50 * time.Second}
	defer cl.CloseIdleConnections()
	for g := 0; g < gs; g++ {
		r := c.Sub()
		c.Go(&wg, func() {
			for i := 0; i < per; i++ {
				k := keys[r.IntN(len(keys))]
				var body io.Reader
				if r.IntN(4) == 0 {
					body = strings.NewReader("api_key=other-key")
				}
				q, _ := http.NewRequest(methods[r.IntN(len(methods))], base+target(r, "/check", k), body)
				if body != nil {
					q.Header.Set("Content-Type", "application/x-www-form-urlencoded")
				}
				resp, err := cl.Do(q)
				if err != nil {
					c.Inconclusive()
					c.Logf("%v", err)
					return
				}
				_, _ = io.Copy(io.Discard, resp.Body)
				resp.Body.Close()
				a := judge(c, "/check", k, limit, resp.StatusCode, resp.Header)
				if a.rem < 0 || a.rem > limit || (a.ok && a.rem >= limit) {
					c.Fail("remaining %d of %d (admitted %v)", a.rem, limit, a.ok)
				}
				mu.Lock()
				asked[k]++
				if a.ok {
					got[k]++
				}
				mu.Unlock()
				c.Tick()
			}
		})
	}
	wg.Wait()
	for k, n := range asked {
		if want := min(n, limit); got[k] != want {
			c.Fail("%d concurrent checks of %q with budget %d: %d succeeded", n, k, limit, got[k])
		}
	}
	c.Hash(asked, got, limit)
}

// metrics reads the exported counters.
type metrics struct{ naive, rows, batches, batchSum, errs, tracked, reduction, churn float64 }

func (m metrics) minus(b metrics) metrics {
	return metrics{m.naive - b.naive, m.rows - b.rows, m.batches - b.batches, m.batchSum - b.batchSum, m.errs - b.errs, 0, 0, 0}
}

func gather(c *kit.C) (m metrics) {
	fs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		c.Fail("gather: %v", err)
	}
	for _, f := range fs {
		x := f.GetMetric()[0]
		switch f.GetName() {
		case "vsa_naive_writes_total":
			m.naive = x.GetCounter().GetValue()
		case "vsa_commits_rows_total":
			m.rows = x.GetCounter().GetValue()
		case "vsa_rows_per_batch":
			m.batches, m.batchSum = float64(x.GetHistogram().GetSampleCount()), x.GetHistogram().GetSampleSum()
		case "vsa_commit_errors_total":
			m.errs = x.GetCounter().GetValue()
		case "vsa_keys_tracked":
			m.tracked = x.GetGauge().GetValue()
		case "vsa_write_reduction_ratio":
			m.reduction = x.GetGauge().GetValue()
		case "vsa_churn_ratio":
			m.churn = x.GetGauge().GetValue()
		}
	}
	return m
}

// forget empties the telemetry's key aggregates, which outlive a case's virtual time.
func forget() {
	churn.Enable(churn.Config{Enabled: true, SampleRate: 1, Window: ms, LogInterval: ms})
	time.Sleep(20 * ms)
	churn.Enable(churn.Config{})
}

func TestC15(t *testing.T) {
	kit.Run(t, "C15",
		kit.Part{Name: "counts", Share: 0.6, Fn: churnCounts},
		kit.Part{Name: "same", Share: 0.2, Fn: churnSame},
		kit.Part{Name: "sampling", Share: 0.15, Fn: churnSampling},
		kit.Part{Name: "kpi", Share: 0.05, Fn: churnKPI},
		kit.Part{Name: "top", Share: 0.1, Fn: churnTop})
}

var kpiCases time.Duration

var (
	ansi        = regexp.MustCompile("\x1b\\[[0-9;]*[A-Za-z]")
	summaryLine = regexp.MustCompile(`churn summary: global_churn=(\S+) write_reduction_est=(\S+) naive=(\S+) commits=(\S+)`)
	topLine     = regexp.MustCompile(`top key=(\S+) churn=(\S+) abs=(\S+) net=(\S+)`)
)

// printed reads what has been printed to f since the offset.
func printed(f *os.File, off *int64) string {
	st, err := f.Stat()
	if err != nil {
		panic(err)
	}
	b := make([]byte, st.Size()-*off)
	if _, err := f.ReadAt(b, *off); err != nil && err != io.EOF {
		panic(err)
	}
	*off = st.Size()
	return ansi.ReplaceAllString(string(b), "")
}

// churnKPI: the ratios and the tracked-keys gauge describe the traffic of the configured window.
func churnKPI(c *kit.C) {
	kpiCases++
	at := kpiCases * 1000 * time.Hour // later than anything the telemetry remembers
	W, L := c.Dur(4*ms, 200*ms), c.Dur(ms, 20*ms)
	rate := kit.Pick(c, 1, 1, 0.4)
	steps := c.Range(3, 60)
	if c.Pct(15) { // many snapshots in a window
		L = max(W/time.Duration(c.Range(30, 150)), 20*time.Microsecond)
		steps = c.Range(60, 300)
	}
	keys := apiKeys(c, c.Range(1, 6))
	// the log: fixed lines, or lines that are overwritten in place
	live, term, noColor := kit.Pick(c, "0", "0", "1"), kit.Pick(c, "", "xterm"), kit.Pick(c, "", "1")
	os.Setenv("VSA_CHURN_LIVE", live)
	os.Setenv("TERM", term)
	os.Setenv("NO_COLOR", noColor)
	hashLen := kit.Pick(c, 8, 16, 2, 0, 100)
	out, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "log")
	if err != nil {
		panic(err)
	}
	stdout := os.Stdout
	os.Stdout = out
	defer func() {
		os.Stdout = stdout
		out.Close()
		os.Remove(out.Name())
	}()
	var off int64
	c.Desc("window %v interval %v rate %v steps %d keys %q live %q term %q", W, L, rate, steps, keys, live, term)
	c.Bubble(xpoint.Config{}, func() {
		time.Sleep(at)
		churn.Enable(churn.Config{Enabled: true, SampleRate: rate, Window: W, LogInterval: L, KeyHashLen: hashLen})
		type point struct {
			t                     time.Time
			naive, rows, abs, net float64
		}
		var now point
		var pts []point
		last := map[string]time.Time{}
		type sums struct{ abs, net int64 }
		sum := map[string]sums{}    // of the tracked keys
		name := map[string]string{} // printed name of a key
		before := gather(c)
		batches := 0.0
		tick := time.Now()
		for i := 0; i < steps; i++ {
			if i > 0 && c.Pct(3) { // off and on again; what happens meanwhile is not recorded
				churn.Enable(churn.Config{Enabled: false, SampleRate: kit.Pick(c, 0, 1, rate), Window: W, LogInterval: L})
				churn.ObserveRequest(keys[0], true)
				churn.ObserveBatch(1)
				churn.ObserveCommit(keys[0], 3)
				churn.ObserveCommitError(1)
				time.Sleep(c.Dur(0, W))
				churn.Enable(churn.Config{Enabled: true, SampleRate: rate, Window: W, LogInterval: L, KeyHashLen: hashLen})
				tick = time.Now()
				c.Label("switched off and on")
			}
			tick = tick.Add(L)
			time.Sleep(time.Until(tick.Add(-L / 2)))
			if c.Pct(70) { // traffic halfway between two snapshots
				for n := c.IntN(8); n > 0; n-- {
					k := kit.Pick(c, keys...)
					churn.ObserveRequest(k, true)
					now.naive++
					now.abs++
					last[k] = time.Now()
					sum[k] = sums{sum[k].abs + 1, sum[k].net}
					if c.Pct(20) {
						churn.ObserveRequest(k, false)
					}
				}
				if c.Pct(2) { // rows of keys that are tracked elsewhere
					n := c.Range(1, 5000)
					churn.ObserveBatch(n)
					now.rows += float64(n)
					batches++
				}
				if c.Pct(40) {
					n := c.Range(1, len(keys))
					churn.ObserveBatch(n)
					now.rows += float64(n)
					batches++
					for j := 0; j < n; j++ {
						v := c.Int64N(40) - 20
						if v == 0 {
							v = 1
						}
						churn.ObserveCommit(keys[j], v)
						now.net += float64(abs(v))
						last[keys[j]] = time.Now()
						sum[keys[j]] = sums{sum[keys[j]].abs, sum[keys[j]].net + abs(v)}
					}
				}
			}
			now.t = tick
			pts = append(pts, now)
			time.Sleep(time.Until(tick.Add(L / 4)))
			g := gather(c)
			said := printed(out, &off)
			shown := summaryLine.FindAllStringSubmatch(said, -1)
			if said == "" {
				c.Fail("step %d: nothing was logged", i)
			}
			// the snapshot compares with the oldest one of the window; the one just outside is accepted too
			start := now.t.Add(-W)
			first := 0
			for pts[first].t.Before(start) {
				first++
			}
			match := false
			var want []string
			for j := max(first-1, 0); j <= min(first+1, len(pts)-1); j++ {
				o := pts[j]
				wr := 1 - (now.rows-o.rows)/max(1, now.naive-o.naive)
				ch := (now.abs - o.abs) / max(1, now.net-o.net)
				want = append(want, fmt.Sprintf("%v/%v", wr, ch))
				ok := math.Abs(wr-g.reduction) < 1e-9 && (rate < 1 || math.Abs(ch-g.churn) < 1e-9)
				if ok && len(shown) > 0 {
					x := shown[len(shown)-1]
					if !close3(x[2], wr) || rate == 1 && !close3(x[1], ch) || x[3] != fmt.Sprint(now.naive-o.naive) || x[4] != fmt.Sprint(now.rows-o.rows) {
						ok = false
						want[len(want)-1] += fmt.Sprintf(" (%v naive, %v rows)", now.naive-o.naive, now.rows-o.rows)
					} else {
						c.Label("logged summaries compared")
					}
				}
				match = match || ok
			}
			if !match {
				c.Fail("step %d: write reduction/churn ratio %v/%v, logged %q, the window's traffic gives %v", i, g.reduction, g.churn, said, want)
			}
			lo, hi := 0.0, 0.0
			ambiguous := false
			for k, t := range last {
				if age := now.t.Sub(t); age < 2*W {
					lo++
					hi++
				} else if age == 2*W {
					hi++
					ambiguous = true
				} else {
					delete(sum, k)
				}
			}
			// the key with the most churn is named, with its sums
			if top := topLine.FindAllStringSubmatch(said, -1); rate == 1 && !ambiguous && len(shown) > 0 {
				best, bestAbs := -1.0, int64(0)
				for _, x := range sum {
					if f := float64(x.abs) / float64(max(1, x.net)); f > best || f == best && x.abs > bestAbs {
						best, bestAbs = f, x.abs
					}
				}
				if len(top) == 0 {
					if best >= 0 {
						c.Fail("step %d: no top key in %q, tracked are %v", i, said, sum)
					}
				} else {
					x := top[len(top)-1]
					ok := false
					for k, y := range sum {
						if f := float64(y.abs) / float64(max(1, y.net)); f == best && y.abs == bestAbs && close3(x[2], f) && x[3] == fmt.Sprint(y.abs) && x[4] == fmt.Sprint(y.net) && (name[x[1]] == "" || name[x[1]] == k || len(x[1]) < 8) {
							ok = true
							if len(sum) == 1 {
								name[x[1]] = k
							}
						}
					}
					if !ok {
						c.Fail("step %d: %q is the top key, tracked are %v", i, x[0], sum)
					}
					c.Label("top keys compared")
				}
			}
			if rate < 1 {
				lo = 0
			}
			if g.tracked < lo || g.tracked > hi {
				c.Fail("step %d: %v keys tracked, %v..%v were active in the last two windows", i, g.tracked, lo, hi)
			}
			if hi < float64(len(last)) {
				c.Label("idle keys dropped")
			}
			c.Label("KPI snapshots compared")
			c.Events(1)
			c.Hash(g.reduction, g.churn, g.tracked)
		}
		want := metrics{naive: now.naive, rows: now.rows, batches: batches, batchSum: now.rows}
		if got := gather(c).minus(before); got != want {
			c.Fail("telemetry counted %+v, what happened is %+v", got, want)
		}
		forget()
	})
}

// close3 tells whether a printed number is x rounded to three digits, either way.
func close3(s string, x float64) bool {
	f, err := strconv.ParseFloat(s, 64)
	return err == nil && math.Abs(f-x) <= 0.000501
}

func churnCounts(c *kit.C) {
	f := drawConf(c)
	f.ea, f.ei = c.Dur(20*ms, 120*ms), c.Dur(2*ms, 25*ms)
	o := storeOptions(c)
	limit := kit.Pick[int64](c, 3, 20, 1<<40)
	keys := apiKeys(c, c.Range(1, 5))
	rate := kit.Pick(c, 1, 1, 1, 0.5, 0, 7)
	off := c.Pct(20)
	d := c.Delays()
	d.LongMax = min(d.LongMax, 20*time.Microsecond)
	each, pace := c.Range(3, 25), int64(1)
	if c.Pct(2) { // batches of hundreds of rows
		keys, each = manyKeys(c)
		f.high, f.ci, pace = 1, c.Dur(20*ms, 60*ms)*time.Duration(1+len(keys)/1100), int64(len(keys))
		if len(keys) > 200 {
			o = vsa.Options{} // no aggregators
		}
		c.Label("many keys")
	}
	c.Desc("%+v limit %d %d keys %.20q rate %v off %v", f, limit, len(keys), keys[:min(len(keys), 6)], rate, off)
	c.Bubble(d, func() {
		cfg := churn.Config{Enabled: !off, SampleRate: rate, Window: time.Hour}
		if c.Pct(50) {
			cfg.LogInterval = c.Dur(5*ms, 50*ms)
		}
		if c.Pct(30) {
			churn.Enable(churn.Config{Enabled: off, SampleRate: 0.3})
		}
		churn.Enable(cfg)
		before := gather(c)
		w := newWorld(c, limit, o)
		mischief(c, w, keys, f, nil)
		plan := w.plan
		w.plan = func(n int, rows []core.Commit) (time.Duration, func(), bool) {
			d, _, ok := plan(n, rows) // traffic goes through the HTTP handlers only
			return d, nil, ok
		}
		m := mux(w.store, limit)
		wk := f.worker(w)
		wk.Start()
		var wg sync.WaitGroup
		var mu sync.Mutex
		admitted := 0.0
		used := map[string]bool{}
		for g := c.Range(1, 3); g > 0; g-- {
			r := c.Sub()
			n := 1 + c.IntN(each)
			c.Go(&wg, func() {
				for i := 0; i < n; i++ {
					k := keys[r.IntN(len(keys))]
					if r.IntN(4) == 0 {
						request(c, r, m, "/release", k, limit)
					} else if a := request(c, r, m, "/check", k, limit); a.ok {
						mu.Lock()
						admitted++
						used[k] = true
						mu.Unlock()
					}
					d := time.Duration(r.Int64N(int64(2*f.ci)/pace + 1))
					if r.IntN(8) == 0 && pace == 1 {
						d = time.Duration(r.Int64N(int64(2 * f.ea)))
					}
					time.Sleep(d)
				}
			})
		}
		wg.Wait()
		if c.Pct(50) {
			time.Sleep(f.ea + 3*f.ei)
		}
		wk.Stop()
		var want metrics
		for _, b := range w.bs {
			if b.ok {
				want.rows += float64(len(b.rows))
				want.batchSum += float64(len(b.rows))
				want.batches++
			} else {
				want.errs++
			}
		}
		want.naive = admitted
		if off {
			want = metrics{}
		}
		if cfg.LogInterval > 0 {
			time.Sleep(2 * cfg.LogInterval)
		}
		now := gather(c)
		if got := now.minus(before); got != want {
			c.Fail("telemetry counted %+v, what happened is %+v (off %v)", got, want, off)
		}
		if cfg.LogInterval > 0 && !off && rate >= 1 {
			active := map[string]bool{}
			for k := range used {
				active[k] = true
			}
			for _, b := range w.bs {
				for _, r := range b.rows {
					if b.ok {
						active[r.Key] = true
					}
				}
			}
			if now.tracked != float64(len(active)) {
				c.Fail("%v keys tracked, %d were active", now.tracked, len(active))
			}
			c.Label("tracked keys compared")
		}
		if cfg.LogInterval > 0 && !off && rate == 0 && now.tracked != 0 {
			c.Fail("%v keys tracked at sampling rate 0", now.tracked)
		}
		c.Hash(want, len(w.bs), admitted)
		c.LabelN("admissions counted", int64(want.naive))
		c.LabelN("errors counted", int64(want.errs))
		c.LabelN("batches counted", int64(want.batches))
		if want == (metrics{}) && !off {
			c.Trivial()
		}
		w.store.CloseAll()
		forget()
	})
}

// churnTop: what concurrent observations of the same, new keys add up to is what is logged of them.
func churnTop(c *kit.C) {
	keys := apiKeys(c, c.Range(1, 3))
	gs := c.Range(2, 4)
	os.Setenv("VSA_CHURN_LIVE", kit.Pick(c, "0", "1"))
	os.Setenv("TERM", kit.Pick(c, "", "xterm"))
	os.Setenv("NO_COLOR", "1")
	out, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "log")
	if err != nil {
		panic(err)
	}
	stdout := os.Stdout
	os.Stdout = out
	defer func() {
		os.Stdout = stdout
		out.Close()
		os.Remove(out.Name())
	}()
	var off int64
	d := c.Delays()
	d.LongMax = min(d.LongMax, 20*time.Microsecond)
	c.Desc("%d callers, keys %q", gs, keys)
	c.Bubble(d, func() {
		L := 50 * ms
		churn.Enable(churn.Config{Enabled: true, SampleRate: 1, Window: time.Hour, LogInterval: L, KeyHashLen: 16})
		abs, net := map[string]*atomic.Int64{}, map[string]*atomic.Int64{}
		for _, k := range keys {
			abs[k], net[k] = &atomic.Int64{}, &atomic.Int64{}
		}
		before := gather(c)
		rows := int64(0)
		var wg sync.WaitGroup
		for g := 0; g < gs; g++ {
			r := c.Sub()
			n := c.Range(1, 4)
			c.Go(&wg, func() {
				for i := 0; i < n; i++ {
					k := keys[r.IntN(len(keys))]
					if r.IntN(3) == 0 {
						v := 1 + r.Int64N(9)
						net[k].Add(v)
						if r.IntN(2) == 0 {
							v = -v
						}
						churn.ObserveBatch(1)
						churn.ObserveCommit(k, v)
						atomic.AddInt64(&rows, 1)
					} else {
						abs[k].Add(1)
						churn.ObserveRequest(k, true)
					}
				}
			})
		}
		wg.Wait()
		time.Sleep(2 * L)
		now := gather(c)
		said := printed(out, &off)
		top := topLine.FindAllStringSubmatch(said, -1)
		best, bestAbs, active, naive := -1.0, int64(0), 0, int64(0)
		for _, k := range keys {
			a, n := abs[k].Load(), net[k].Load()
			naive += a
			if a+n == 0 {
				continue
			}
			active++
			if f := float64(a) / float64(max(1, n)); f > best || f == best && a > bestAbs {
				best, bestAbs = f, a
			}
		}
		if g := now.minus(before); g.naive != float64(naive) || g.rows != float64(atomic.LoadInt64(&rows)) || now.tracked != float64(active) {
			c.Fail("%d admissions and %d rows of %d keys were observed, telemetry counted %+v", naive, rows, active, now.minus(before))
		}
		ok := false
		if len(top) > 0 {
			x := top[len(top)-1]
			for _, k := range keys {
				a, n := abs[k].Load(), net[k].Load()
				f := float64(a) / float64(max(1, n))
				ok = ok || a+n > 0 && f == best && a == bestAbs && close3(x[2], f) && x[3] == fmt.Sprint(a) && x[4] == fmt.Sprint(n)
			}
		}
		if !ok {
			var sums []string
			for _, k := range keys {
				sums = append(sums, fmt.Sprintf("%q: abs %d net %d", k, abs[k].Load(), net[k].Load()))
			}
			c.Fail("logged %q as the top key, observed was %v", said, sums)
		}
		c.Label("concurrent top keys compared")
		c.Events(int64(naive + rows))
		c.Hash(naive, rows, active, best)
		forget()
	})
}

// churnSame: one program gives the same answers, batches and states whatever the telemetry does.
func churnSame(c *kit.C) {
	f := drawConf(c)
	limit := c.I64(1, 30)
	keys := apiKeys(c, c.Range(1, 4))
	n := c.Range(5, 40)
	seed := c.Uint64()
	failP := kit.Pick(c, 0, 20)
	c.Desc("%+v limit %d keys %q %d requests", f, limit, keys, n)
	var first string
	for i, cfg := range []churn.Config{{}, {Enabled: true, SampleRate: 1, LogInterval: 3 * ms}, {Enabled: true, SampleRate: 0.5, Window: ms, LogInterval: ms}, {Enabled: true}} {
		var out strings.Builder
		c.Bubble(xpoint.Config{}, func() {
			churn.Enable(cfg)
			r := rand.New(rand.NewPCG(seed, 1))
			w := newWorld(c, limit, vsa.Options{})
			w.plan = func(int, []core.Commit) (time.Duration, func(), bool) { return 0, nil, r.IntN(100) >= failP }
			m := mux(w.store, limit)
			wk := f.worker(w)
			wk.Start()
			time.Sleep(7)
			for j := 0; j < n; j++ {
				k := keys[r.IntN(len(keys))]
				p := "/check"
				if r.IntN(4) == 0 {
					p = "/release"
				}
				a := request(c, r, m, p, k, limit)
				fmt.Fprintln(&out, k, p, a.code, a.rem)
				c.Tick()
				if r.IntN(2) == 0 {
					time.Sleep(time.Duration(r.Int64N(int64(2*f.ci)))/100*100 + 13)
				}
			}
			wk.Stop()
			for _, k := range w.keys() {
				fmt.Fprintln(&out, k, w.durable(k))
			}
			for _, k := range keys {
				if v := present(w.store)[k]; v != nil {
					s, vv := v.State()
					fmt.Fprintln(&out, k, s, vv, w.durable(k))
				}
			}
			w.store.CloseAll()
			forget()
		})
		if i == 0 {
			first = out.String()
			c.Hash(first)
		} else if out.String() != first {
			c.Fail("telemetry %+v changes the results:\n%s\nwithout:\n%s", cfg, out.String(), first)
		}
	}
}

// churnSampling: sampling is a monotone function of key and rate with about the right share.
func churnSampling(c *kit.C) {
	c.Bubble(xpoint.Config{}, func() {
		tracked := func(rate float64, keys ...string) float64 {
			churn.Enable(churn.Config{Enabled: true, SampleRate: rate, Window: time.Hour, LogInterval: ms})
			for _, k := range keys {
				if c.Pct(50) {
					churn.ObserveRequest(k, true)
				} else {
					churn.ObserveCommit(k, 1+c.Int64N(5))
				}
			}
			time.Sleep(2 * ms)
			n := gather(c).tracked
			forget()
			return n
		}
		if c.Pct(15) {
			rate := kit.Pick(c, 0.05, 0.25, 0.5, 0.9)
			n := 3000
			var ks []string
			for i := 0; i < n; i++ {
				ks = append(ks, fmt.Sprintf("%016x%016x", c.Uint64(), c.Uint64()))
			}
			got := tracked(rate, ks...)
			c.Desc("%v of %d random keys sampled at rate %v", got, n, rate)
			if d := got/float64(n) - rate; d > 0.06 || d < -0.06 {
				c.Fail("%v of %d random keys sampled at rate %v", got, n, rate)
			}
			c.Hash(got, rate)
			c.Label("shares measured")
			return
		}
		rates := []float64{-1, 0, 1e-12, 0.01, 0.2, c.Float64(), c.Float64(), 0.5, 0.9, 1 - 1e-12, 1, 5}
		for i := 0; i < 4; i++ {
			k := kit.Pick(c, apiKeys(c, 4)...)
			if c.Pct(60) {
				k = fmt.Sprintf("%x", c.Uint64())
			}
			a, b := rates[c.IntN(len(rates))], rates[c.IntN(len(rates))]
			if a > b {
				a, b = b, a
			}
			x := tracked(a, k)
			y := tracked(b, k)
			z := tracked(a, k)
			c.Events(3)
			if x > y {
				c.Fail("key %q is sampled at rate %v but not at %v", k, a, b)
			}
			if x != z {
				c.Fail("key %q at rate %v: sampled %v, then %v", k, a, x, z)
			}
			if (b >= 1 && y != 1) || (a <= 0 && x != 0) || (b <= 0 && y != 0) {
				c.Fail("key %q: sampled %v at rate %v and %v at rate %v", k, x, a, y, b)
			}
			c.Hash(k, a, b, x, y)
			c.Desc("key %q: %v at %v, %v at %v", k, x, a, y, b)
		}
	})
}

// capture returns what f prints.
func capture(f func()) string {
	old := os.Stdout
	w, err := os.CreateTemp(os.Getenv("VERIF_SCRATCH"), "out")
	if err != nil {
		panic(err)
	}
	defer os.Remove(w.Name())
	defer w.Close()
	os.Stdout = w
	f()
	os.Stdout = old
	b, err := os.ReadFile(w.Name())
	if err != nil {
		panic(err)
	}
	return string(b)
}

var summaryRow = regexp.MustCompile(`(?m)(Attempted|Admits|Refunds|Events \(A\+R\)|Writes|Batches|Write reduction)\s+(\S+)$`)

type summary struct{ attempted, admits, refunds, events, writes, batches int64 }

func summarize(c *kit.C, p core.Persister) (s summary) {
	out := capture(p.PrintFinalMetrics)
	got := map[string]string{}
	for _, x := range summaryRow.FindAllStringSubmatch(out, -1) {
		got[x[1]] = x[2]
	}
	num := func(k string) int64 {
		n, err := strconv.ParseInt(got[k], 10, 64)
		if err != nil {
			c.Fail("the summary has no number for %q:\n%s", k, out)
		}
		return n
	}
	s = summary{num("Attempted"), num("Admits"), num("Refunds"), num("Events (A+R)"), num("Writes"), num("Batches")}
	if s.events != s.admits+s.refunds {
		c.Fail("the summary shows %d events for %d admits and %d refunds", s.events, s.admits, s.refunds)
	}
	want := "n/a"
	if s.events > 0 {
		want = fmt.Sprintf("%.1f%%", 100*min(1, max(0, 1-float64(s.writes)/float64(s.events))))
	}
	if g := got["Write reduction"]; g != want && !near(g, want) {
		c.Fail("write reduction is shown as %s for %d writes and %d events", got["Write reduction"], s.writes, s.events)
	}
	return s
}

// near allows for a different rounding of the last shown digit.
func near(a, b string) bool {
	x, e1 := strconv.ParseFloat(strings.TrimSuffix(a, "%"), 64)
	y, e2 := strconv.ParseFloat(strings.TrimSuffix(b, "%"), 64)
	return e1 == nil && e2 == nil && x-y < 0.11 && y-x < 0.11
}

func TestC27(t *testing.T) {
	kit.Run(t, "C27", kit.Part{Name: "fleet", Fn: fleet})
}

// counting forwards to the mock persister and counts.
type counting struct {
	core.Persister
	mu            sync.Mutex
	rows, batches int64
	fail          func() bool
}

func (p *counting) CommitBatch(cs []core.Commit) error {
	if p.fail != nil && p.fail() {
		return errDown
	}
	if err := p.Persister.CommitBatch(cs); err != nil {
		return err
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	if len(cs) > 0 {
		p.rows += int64(len(cs))
		p.batches++
	}
	return nil
}

func fleet(c *kit.C) {
	f := drawConf(c)
	f.ea, f.ei = c.Dur(20*ms, 120*ms), c.Dur(2*ms, 25*ms)
	noEvict := c.Pct(40)
	if noEvict {
		f.ea = time.Hour
	}
	limit := kit.Pick[int64](c, 3, 40, 1<<40)
	keys := apiKeys(c, c.Range(1, 4))
	gs := c.Range(1, 6)
	direct := c.Pct(40)
	d := c.Delays()
	d.LongMax = min(d.LongMax, 20*time.Microsecond)
	c.Desc("%+v limit %d keys %q goroutines %d direct %v", f, limit, keys, gs, direct)
	c.Bubble(d, func() {
		mock := core.NewMockPersister()
		p := &counting{Persister: mock}
		store := core.NewStore(limit)
		before := summarize(c, mock)
		if before.writes != 0 || before.batches != 0 {
			c.Fail("a new persister starts with %+v", before)
		}
		m := mux(store, limit)
		wk := core.NewWorker(store, p, f.high, f.low, f.ci, f.maxAge, f.ea, f.ei)
		wk.Start()
		var wg sync.WaitGroup
		var mu sync.Mutex
		var want summary
		admitted := map[string]int64{}
		for g := 0; g < gs; g++ {
			r := c.Sub()
			n := c.Range(3, 20)
			c.Go(&wg, func() {
				for i := 0; i < n; i++ {
					k := keys[r.IntN(len(keys))]
					var x summary
					switch y := r.IntN(20); {
					case y < 10:
						x.attempted = 1
						if a := request(c, r, m, "/check", k, limit); a.ok {
							x.admits = 1
							mu.Lock()
							admitted[k]++
							mu.Unlock()
						}
					case y < 14:
						request(c, r, m, "/release", k, limit) // counted from the states below
					case y < 15:
						q := httptest.NewRequest("GET", "/check", nil)
						m.ServeHTTP(httptest.NewRecorder(), q)
					case y < 18 && direct:
						v := r.Int64N(9) - 3
						if r.IntN(8) == 0 {
							v *= 1 << r.IntN(40)
						}
						e := max(v, 0)
						switch r.IntN(3) {
						case 0:
							core.RecordAttempt(v)
							x.attempted = e
						case 1:
							core.RecordAdmit(v)
							x.admits = e
						default:
							core.RecordRefund(v)
							x.refunds = e
						}
					case y < 19:
						core.SetThresholdInt64(fmt.Sprintf("t%d", r.IntN(3)), r.Int64())
						core.SetThresholdBool("b", r.IntN(2) == 0)
						core.SetThresholdDuration("d", time.Duration(r.Int64()))
						core.SetThresholdFloat64("f", r.Float64())
					case direct:
						cs := make([]core.Commit, r.IntN(4))
						for j := range cs {
							cs[j] = core.Commit{Key: k, Vector: r.Int64()}
						}
						_ = p.CommitBatch(cs)
					}
					mu.Lock()
					want.attempted += x.attempted
					want.admits += x.admits
					want.refunds += x.refunds
					mu.Unlock()
					c.Tick()
					time.Sleep(time.Duration(r.Int64N(int64(2 * f.ci))))
				}
			})
		}
		wg.Wait()
		if !noEvict && c.Pct(50) {
			time.Sleep(f.ea + 3*f.ei)
		}
		wk.Stop()
		got := summarize(c, mock)
		again := summarize(c, mock)
		if got != again {
			c.Fail("reading the summary changed it from %+v to %+v", got, again)
		}
		// A refund that changed anything is an admission the totals lack.
		want.writes, want.batches = p.rows, p.batches
		g2 := got
		g2.attempted -= before.attempted
		g2.admits -= before.admits
		g2.refunds -= before.refunds
		g2.events = 0
		if noEvict && f.high > 1<<30 && !direct && f.maxAge == 0 && len(present(store)) == len(admitted) {
			// never evicted, never committed before the end: the final state still shows what was given back
			net := int64(0)
			for k, v := range present(store) {
				s, _ := v.State()
				net += admitted[k] - (limit - s)
			}
			if p.batches <= 1 {
				want.refunds += net
				c.Label("refunds counted exactly")
			} else {
				want.refunds = g2.refunds
			}
		} else if !direct {
			if g2.refunds < 0 || g2.refunds > want.admits {
				c.Fail("%d refunds counted for %d admissions", g2.refunds, want.admits)
			}
			want.refunds = g2.refunds
		} else {
			want.refunds = g2.refunds
		}
		if g2 != want {
			c.Fail("the summary counted %+v, what happened is %+v", g2, want)
		}
		c.Hash(want, before == summary{})
		store.CloseAll()
	})
	// refunds exactly, without a worker: what releases took back is what the counters lack
	c.Bubble(d, func() {
		mock := core.NewMockPersister()
		store := core.NewStore(limit)
		m := mux(store, limit)
		before := summarize(c, mock)
		var wg sync.WaitGroup
		var mu sync.Mutex
		adm := int64(0)
		for g := 0; g < gs; g++ {
			r := c.Sub()
			c.Go(&wg, func() {
				for i := 0; i < 8; i++ {
					k := keys[r.IntN(len(keys))]
					if r.IntN(2) == 0 {
						request(c, r, m, "/release", k, limit)
					} else if request(c, r, m, "/check", k, limit).ok {
						mu.Lock()
						adm++
						mu.Unlock()
					}
				}
			})
		}
		wg.Wait()
		net := int64(0)
		for _, v := range present(store) {
			_, V := v.State()
			net += V
		}
		after := summarize(c, mock)
		if got := after.refunds - before.refunds; got != adm-net {
			c.Fail("%d refunds counted, %d given back", got, adm-net)
		}
		c.Label("refund totals compared")
	})
}
