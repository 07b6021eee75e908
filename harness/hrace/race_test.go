// Package hrace runs concurrent uses of everything public under the race detector. The harness itself
// synchronizes as little as it can: goroutines share nothing but the code under test and a start signal.
package hrace

import (
	"context"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"testing"
	"time"

	"github.com/prometheus/client_golang/prometheus"
	"github.com/prometheus/client_golang/prometheus/promhttp"

	"vsa"
	"vsa/internal/ratelimiter/api"
	"vsa/internal/ratelimiter/core"
	"vsa/internal/ratelimiter/persistence"
	"vsa/internal/ratelimiter/telemetry/churn"
	"vsa/internal/sinks"
	"vsa/internal/zzverif/hpersist"
	"vsa/internal/zzverif/kit"
	"vsa/plugin/tfd"
)

type act func(r *rand.Rand, i int)

// storm runs each action n times on its own goroutine.
func storm(c *kit.C, n int, acts ...act) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	panics := make([]string, len(acts))
	for j, a := range acts {
		r := c.Sub()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					panics[j] = fmt.Sprintf("%v\n%s", e, debug.Stack())
				}
			}()
			<-start
			for i := 0; i < n; i++ {
				a(r, i)
			}
		}()
	}
	close(start)
	wg.Wait()
	for _, p := range panics {
		if p != "" {
			c.Fail("panic: %s", p)
		}
	}
	c.Events(int64(n * len(acts)))
}

func repeat(k int, a act) (out []act) {
	for i := 0; i < k; i++ {
		out = append(out, a)
	}
	return
}

// mix draws 2..8 actions from a menu; the first must entries are always in.
func mix(c *kit.C, must int, menu ...act) []act {
	out := append([]act{}, menu[:must]...)
	for n := c.Range(2, 8) - must; n > 0; n-- {
		out = append(out, menu[c.IntN(len(menu))])
	}
	if len(out) < 2 {
		out = append(out, menu[c.IntN(len(menu))])
	}
	return out
}

func options(c *kit.C) vsa.Options {
	var o vsa.Options
	o.Stripes = kit.Pick(c, 0, 1, 8, 64)
	switch c.IntN(4) {
	case 0:
		o.CheapUpdateChooser = true
	case 1:
		o.PerPUpdateChooser = true
	}
	if c.Pct(30) {
		o.UseCachedGate, o.CacheInterval, o.CacheSlack = true, kit.Pick(c, time.Duration(0), time.Microsecond, 50*time.Microsecond), c.I64(0, 3)
	}
	if c.Pct(30) {
		o.GroupCount, o.GroupSlack = kit.Pick(c, 2, 4), c.I64(0, 2)
	}
	if c.Pct(30) {
		o.FastPathGuard = c.I64(1, 100)
	}
	if c.Pct(30) {
		o.HierarchicalGroups = kit.Pick(c, 2, 4, 8)
	}
	return o
}

func counter(c *kit.C) {
	v := vsa.NewWithOptions(kit.Pick(c, int64(5), 1000, 1<<40), options(c))
	menu := []act{
		func(r *rand.Rand, i int) { v.TryConsume(1 + r.Int64N(3)) },
		func(r *rand.Rand, i int) { v.Update(r.Int64N(5) - 2) },
		func(r *rand.Rand, i int) { v.TryRefund(1 + r.Int64N(3)) },
		func(r *rand.Rand, i int) { _, x := v.CheckCommit(1); v.Commit(x) },
		func(r *rand.Rand, i int) { v.Commit(r.Int64N(10)) },
		func(r *rand.Rand, i int) { v.State() },
		func(r *rand.Rand, i int) { v.Available() },
		func(r *rand.Rand, i int) {
			if i%40 == 0 {
				v.Close()
			}
		},
	}
	storm(c, c.Range(20, 400), mix(c, 0, menu...)...)
	v.Close()
}

type persister struct {
	fail func() bool
	sum  int64
}

func (p *persister) CommitBatch(cs []core.Commit) error {
	for i := range cs {
		p.sum += cs[i].Vector + int64(len(cs[i].Key))
		cs[i] = core.Commit{} // the batch is ours now
	}
	return nil
}
func (p *persister) PrintFinalMetrics() {}

func keyname(r *rand.Rand, n int) string { return fmt.Sprintf("k%d", r.IntN(n)) }

func store(c *kit.C) {
	st := core.NewStoreWithOptions(100, options(c))
	nk := kit.Pick(c, 1, 3, 30)
	var p core.Persister = core.NewMockPersister()
	if c.Pct(50) {
		p = &persister{}
	}
	age := kit.Pick(c, time.Nanosecond, time.Millisecond, time.Hour)
	w := core.NewWorker(st, p, c.I64(1, 5), c.I64(0, 2), 50*time.Microsecond, kit.Pick(c, 0, time.Nanosecond, time.Millisecond), age, 70*time.Microsecond)
	started := c.Pct(90)
	if started {
		w.Start()
	}
	menu := []act{
		func(r *rand.Rand, i int) { st.GetOrCreate(keyname(r, nk)).TryConsume(1) },
		func(r *rand.Rand, i int) { st.GetOrCreate(keyname(r, nk)).TryRefund(1) },
		func(r *rand.Rand, i int) { st.GetOrCreate(keyname(r, nk)).State() },
		func(r *rand.Rand, i int) {
			if i%10 == 0 {
				st.Delete(keyname(r, nk))
			}
		},
		func(r *rand.Rand, i int) { core.RecordAttempt(1); core.RecordAdmit(1); core.RecordRefund(1) },
		func(r *rand.Rand, i int) {
			core.SetThreshold("a", "b")
			core.SetThresholdInt64("x", int64(i))
			core.SetThresholdBool("y", true)
			core.SetThresholdFloat64("z", 0.5)
			core.SetThresholdDuration("d", time.Second)
		},
		func(r *rand.Rand, i int) {
			if i%20 == 0 {
				p.PrintFinalMetrics()
			}
		},
		func(r *rand.Rand, i int) {
			if i%50 == 49 {
				w.Stop()
			}
		},
		func(r *rand.Rand, i int) {
			if i%50 == 49 {
				st.CloseAll()
			}
		},
		func(r *rand.Rand, i int) {
			if i%20 == 0 {
				time.Sleep(100 * time.Microsecond)
			}
			st.GetOrCreate(keyname(r, nk)).Available()
		},
	}
	storm(c, c.Range(50, 600), mix(c, 1, menu...)...)
	w.Stop()
	if c.Pct(50) {
		p.PrintFinalMetrics()
	}
	st.CloseAll()
}

func httpAPI(c *kit.C) {
	st := core.NewStoreWithOptions(50, options(c))
	mux := http.NewServeMux()
	api.NewServer(st, 50).RegisterRoutes(mux)
	w := core.NewWorker(st, core.NewMockPersister(), 3, 1, 50*time.Microsecond, time.Millisecond, kit.Pick(c, time.Microsecond, time.Hour), 90*time.Microsecond)
	w.Start()
	nk := kit.Pick(c, 1, 4, 40)
	hit := func(path string) act {
		return func(r *rand.Rand, i int) {
			req := httptest.NewRequest("GET", path+"?api_key="+url.QueryEscape(keyname(r, nk)), nil)
			if i%30 == 29 {
				req = httptest.NewRequest("POST", path, nil)
			}
			mux.ServeHTTP(httptest.NewRecorder(), req)
		}
	}
	gather := promhttp.HandlerFor(prometheus.DefaultGatherer, promhttp.HandlerOpts{})
	menu := []act{
		hit("/check"), hit("/release"),
		func(r *rand.Rand, i int) {
			if i%10 == 0 {
				gather.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest("GET", "/metrics", nil))
			}
		},
		func(r *rand.Rand, i int) {
			if i%15 == 0 { // one goroutine at a time reconfigures in telemetry(); here it is switched once in a while
				churn.Enable(churn.Config{Enabled: i%30 == 0, SampleRate: float64(r.IntN(3)) / 2, LogInterval: time.Duration(r.IntN(2)) * 20 * time.Microsecond})
			}
		},
		hit("/check"), hit("/check"),
	}
	storm(c, c.Range(30, 200), mix(c, 1, menu...)...)
	w.Stop()
	st.CloseAll()
	churn.Enable(churn.Config{})
}

func telemetry(c *kit.C) {
	// the real exporter renders through several paths, chosen by the environment when it is enabled
	for _, k := range []string{"VSA_CHURN_LIVE", "NO_COLOR", "TERM", "VSA_CHURN_ANSI"} {
		os.Unsetenv(k)
	}
	if c.Pct(50) {
		os.Setenv("VSA_CHURN_LIVE", kit.Pick(c, "0", "1"))
	}
	if c.Pct(30) {
		os.Setenv("NO_COLOR", "1")
	}
	if c.Pct(50) {
		os.Setenv("TERM", kit.Pick(c, "dumb", "xterm-256color"))
	}
	nk := kit.Pick(c, 1, 5, 200)
	cfg := func(r *rand.Rand) churn.Config {
		d := []time.Duration{0, 5 * time.Microsecond, 30 * time.Microsecond, time.Millisecond}
		return churn.Config{Enabled: r.IntN(4) > 0, SampleRate: float64(r.IntN(5)) / 4, LogInterval: d[r.IntN(4)], TopN: r.IntN(4), KeyHashLen: r.IntN(20), Window: time.Duration(r.IntN(3)) * 20 * time.Microsecond}
	}
	churn.Enable(cfg(c.Rand))
	menu := []act{
		func(r *rand.Rand, i int) { churn.ObserveRequest(keyname(r, nk), r.IntN(4) > 0) },
		func(r *rand.Rand, i int) { churn.ObserveCommit(keyname(r, nk), r.Int64N(9)-4) },
		func(r *rand.Rand, i int) { churn.ObserveBatch(r.IntN(5)); churn.ObserveCommitError(r.IntN(2)) },
		func(r *rand.Rand, i int) { churn.Enabled() },
		func(r *rand.Rand, i int) {
			if i%8 == 0 {
				_, _ = prometheus.DefaultGatherer.Gather()
			}
		},
	}
	acts := mix(c, 1, menu...)
	for k := c.Range(1, 2); k > 0; k-- {
		acts = append(acts, func(r *rand.Rand, i int) {
			if i%10 == 0 {
				churn.Enable(cfg(r))
			}
		})
	}
	storm(c, c.Range(50, 500), acts...)
	churn.Enable(churn.Config{})
}

type nullEvaler struct{}

func (nullEvaler) Eval(ctx context.Context, script string, keys []string, args ...interface{}) (interface{}, error) {
	n := len(script)
	for _, k := range keys {
		n += len(k)
	}
	for _, a := range args {
		n += len(fmt.Sprint(a))
	}
	return int64(1), nil
}

type nullProducer struct{}

func (nullProducer) Produce(ctx context.Context, topic string, key, value []byte, headers map[string]string) error {
	for i := range value { // the broker client owns the message
		value[i]++
	}
	for i := range key {
		key[i]++
	}
	for k := range headers {
		headers[k] += "!"
	}
	return nil
}

type keepImpl struct{}

func (keepImpl) CommitBatch(ctx context.Context, es []persistence.CommitEntry) error {
	for i := range es {
		es[i].Vector++
		es[i].CommitID += "x"
	}
	return nil
}

func shim(c *kit.C) {
	db := hpersist.OpenSQL()
	defer db.Close()
	impls := []persistence.IdempotentPersister{
		persistence.NewRedisPersister(nullEvaler{}, time.Hour), persistence.NewKafkaPersister(nullProducer{}, "t"),
		persistence.NewPostgresPersister(db, true), keepImpl{},
		persistence.NewRedisPersister(persistence.LoggingRedisEvaler{}, time.Hour), persistence.NewKafkaPersister(persistence.LoggingKafkaProducer{}, "t"),
	}
	impl := impls[c.IntN(len(impls))]
	n := c.Range(20, 200)
	if impl == impls[2] {
		n = c.Range(2, 10)
	}
	var shims []*persistence.IdemShim
	for i := c.Range(1, 2); i > 0; i-- {
		shims = append(shims, persistence.NewIdemShim(impl))
	}
	storm(c, n, repeat(c.Range(2, 8), func(r *rand.Rand, i int) {
		b := make([]core.Commit, r.IntN(4))
		for j := range b {
			b[j] = core.Commit{Key: fmt.Sprintf("k%d", j), Vector: r.Int64N(10) + 1}
		}
		s := shims[r.IntN(len(shims))]
		_ = s.CommitBatch(b)
		for j := range b {
			b[j].Key = "reused"
		}
		if i%20 == 0 {
			s.PrintFinalMetrics()
		}
	})...)
}

// sink keeps the slices it gets and writes to them: they are its own.
type sink struct {
	mu   sync.Mutex
	kept [][]tfd.SBatch
}

func (s *sink) OnSBatches(b []tfd.SBatch) {
	s.mu.Lock()
	for i := range b {
		b[i].SeqEnd++
	}
	s.kept = append(s.kept, b)
	s.mu.Unlock()
}

func env(r *rand.Rand, nk int) tfd.Envelope {
	e := tfd.Envelope{Channel: tfd.ChannelScalar, Delta: r.Int64N(9) - 3, SeqEnd: r.Uint64()}
	e.Footprint.KeyID = uint64(r.IntN(nk))
	e.Footprint.Time.BucketID = uint64(r.IntN(3))
	return e
}

func tempFile(c *kit.C) string {
	return filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("race-%d", c.Index))
}

func service(c *kit.C) {
	acc := tfd.NewSAccumulator(kit.Pick(c, 1, 4), kit.Pick(c, 1, 4, 8), kit.Pick(c, 1, 10, 1000), kit.Pick(c, time.Microsecond, time.Millisecond))
	sk := &sink{}
	s := tfd.NewSService(acc, tfd.SimpleVSA{}, sk, tfd.SServiceOptions{Buffer: kit.Pick(c, 1, 4, 4096), FlushInterval: kit.Pick(c, 10*time.Microsecond, time.Millisecond)})
	nk := kit.Pick(c, 1, 5, 300)
	if c.Pct(80) {
		s.Start()
	}
	rare := func(m int, f func()) act {
		return func(r *rand.Rand, i int) {
			if i%m == m-1 {
				f()
			}
		}
	}
	menu := []act{
		func(r *rand.Rand, i int) { s.Start() },
		func(r *rand.Rand, i int) { s.Ingest(env(r, nk)) },
		func(r *rand.Rand, i int) { s.TryIngest(env(r, nk)) },
		rare(8, s.Flush), rare(8, s.Flush),
		func(r *rand.Rand, i int) { s.Ingest(env(r, nk)) },
		rare(90, s.Stop),
	}
	storm(c, c.Range(20, 300), mix(c, 1, menu...)...)
	s.Stop()
	sk.mu.Lock()
	for _, b := range sk.kept {
		for i := range b {
			b[i].NetDelta = 0
		}
	}
	sk.mu.Unlock()
}

func pipeline(c *kit.C) {
	path := tempFile(c)
	defer os.Remove(path)
	defer os.Remove(path + "v")
	fs, err := sinks.NewSBatchFileSink(path)
	if err != nil {
		panic(err)
	}
	vs, err := sinks.NewVEnvFileSink(path + "v")
	if err != nil {
		panic(err)
	}
	p := tfd.NewPipeline(tfd.PipelineOptions{Shards: kit.Pick(c, 1, 4), OrderPow2: 3, CountThresh: kit.Pick(c, 1, 50), TimeCap: time.Millisecond,
		FlushInterval: kit.Pick(c, 20*time.Microsecond, time.Millisecond), Buffer: kit.Pick(c, 1, 64), VSA: tfd.SimpleVSA{}, SSink: fs})
	p.Start()
	nk := kit.Pick(c, 1, 4, 50)
	var kept sync.Mutex
	var envs []tfd.Envelope
	menu := []act{
		func(r *rand.Rand, i int) { p.Handle(env(r, nk), vs.Append) },
		func(r *rand.Rand, i int) {
			e := env(r, nk)
			e.Channel = tfd.ChannelVector
			p.Handle(e, vs.Append)
		},
		func(r *rand.Rand, i int) {
			e := env(r, nk)
			e.Channel = tfd.ChannelVector
			p.Handle(e, nil)
		},
		func(r *rand.Rand, i int) {
			if i%5 == 0 {
				es := p.DrainV(uint64(r.IntN(nk)))
				for j := range es { // they are the caller's
					es[j].Delta = 0
				}
				kept.Lock()
				envs = append(envs, es...)
				kept.Unlock()
			}
		},
		func(r *rand.Rand, i int) {
			if i%10 == 0 {
				p.FlushS()
				_ = fs.Flush()
				_ = vs.Flush()
				sb, _ := sinks.ReadAllSLog(path)
				ve, _ := sinks.ReadAllVLog(path + "v")
				s := tfd.NewState()
				s.Reconstruct(sb, ve)
				for range s.Cells() {
				}
			}
		},
		func(r *rand.Rand, i int) {
			_, _, _, _ = tfd.Classify(tfd.Op{Key: keyname(r, nk), Bucket: "b", Amount: 1, IsSingleKey: true, IsConservativeDelta: r.IntN(2) == 0})
		},
	}
	storm(c, c.Range(20, 250), mix(c, 2, menu...)...)
	p.Stop()
	_ = fs.Close()
	_ = vs.Close()
}

func logs(c *kit.C) {
	path := tempFile(c)
	defer os.Remove(path)
	defer os.Remove(path + "v")
	fs, err := sinks.NewSBatchFileSink(path)
	if err != nil {
		panic(err)
	}
	vs, err := sinks.NewVEnvFileSink(path + "v")
	if err != nil {
		panic(err)
	}
	menu := []act{
		func(r *rand.Rand, i int) {
			b := []tfd.SBatch{{KeyID: 1, NetDelta: int64(i)}, {KeyID: 2}}
			fs.OnSBatches(b)
			b[0].KeyID = 9
		},
		func(r *rand.Rand, i int) { vs.Append(env(r, 5)) },
		func(r *rand.Rand, i int) {
			b := []tfd.Envelope{env(r, 5), env(r, 5)}
			vs.AppendAll(b)
			b[1].Delta = 7
		},
		func(r *rand.Rand, i int) { _ = fs.Flush() },
		func(r *rand.Rand, i int) { _ = vs.Flush() },
		func(r *rand.Rand, i int) {
			if i%20 == 0 {
				_, _ = sinks.ReadAllSLog(path)
				_, _ = sinks.ReadAllVLog(path + "v")
			}
		},
		func(r *rand.Rand, i int) {
			if i == 30 {
				_ = fs.Close()
				_ = vs.Close()
			}
		},
	}
	storm(c, c.Range(20, 200), mix(c, 2, menu...)...)
	_ = fs.Close()
	_ = vs.Close()
}

func router(c *kit.C) {
	r0 := tfd.NewVRouter()
	nk := kit.Pick(c, 1, 3, 100)
	storm(c, c.Range(20, 200), repeat(c.Range(2, 6), func(r *rand.Rand, i int) {
		a := r0.Route(uint64(r.IntN(nk)))
		if r.IntN(5) == 0 {
			es := a.Drain()
			for j := range es {
				es[j].Delta = 1
			}
			return
		}
		a.Enqueue(env(r, nk))
	})...)
}

// everything at once, as the rate-limiter service wires it, over a loopback socket
func whole(c *kit.C) {
	st := core.NewStoreWithOptions(200, options(c))
	mux := http.NewServeMux()
	api.NewServer(st, 200).RegisterRoutes(mux)
	ts := httptest.NewServer(mux)
	churn.Enable(churn.Config{Enabled: c.Pct(70), SampleRate: 1, LogInterval: 50 * time.Microsecond})
	p := persistence.NewIdemShim(persistence.NewRedisPersister(nullEvaler{}, time.Hour))
	w := core.NewWorker(st, p, 3, 1, 100*time.Microsecond, time.Millisecond, time.Millisecond, 200*time.Microsecond)
	w.Start()
	storm(c, c.Range(5, 30), repeat(4, func(r *rand.Rand, i int) {
		path := []string{"/check", "/check", "/release"}[r.IntN(3)]
		resp, err := ts.Client().Get(ts.URL + path + "?api_key=" + keyname(r, 3))
		if err == nil {
			_, _ = io.Copy(io.Discard, resp.Body)
			resp.Body.Close()
		}
	})...)
	ts.Close()
	w.Stop()
	p.PrintFinalMetrics()
	st.CloseAll()
	churn.Enable(churn.Config{})
}

func stress(c *kit.C) {
	menu := []struct {
		name string
		f    func(*kit.C)
	}{{"counter", counter}, {"counter", counter}, {"store and worker", store}, {"store and worker", store}, {"http", httpAPI}, {"telemetry", telemetry}, {"telemetry", telemetry}, {"bridge and adapters", shim},
		{"scalar lane", service}, {"pipeline", pipeline}, {"logs", logs}, {"vector router", router}, {"service", whole}}
	m := menu[c.IntN(len(menu))]
	m.f(c)
	c.Label(m.name)
	c.Hash(m.name, c.Uint64())
	c.Desc("%s", m.name)
}

func TestC06(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C06", kit.Part{Name: "stress", Fn: stress, CPU: 40 * time.Second})
}
