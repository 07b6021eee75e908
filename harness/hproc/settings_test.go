package hproc

import (
	"encoding/json"
	"fmt"
	"math"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"testing"
	"time"

	"vsa/internal/zzverif/hpersist"
	"vsa/internal/zzverif/kit"
)

// ---- C30 ----

var (
	produced = regexp.MustCompile(`(?m)\[kafka-demo\] TOPIC=(\S*) KEY=(\S*) VALUE=(\{.*\}) HEADERS=`)
	evaluate = regexp.MustCompile(`(?m)\[redis-demo\] EVAL .*KEYS=\[counter:(\S+) (\S+)\] ARGS=\[(-?\d+) (\d+)\]$`)
	errLine  = regexp.MustCompile(`(?m)ERROR.*$`)
	row      = regexp.MustCompile(`(?m)(Attempted|Admits|Refunds|Events \(A\+R\)|Writes|Batches)\s+(-?\d+)$`)
)

const patience = 40 * time.Second // for what must happen in the end

type service struct {
	*proc
	k       *client
	srv     *hpersist.Server
	adapter string
	limit   int64
	topic   string
	cached  bool                 // the cached gate may count what has just been folded twice, until it is refreshed
	sent    map[string]time.Time // when the last request for a key was sent
	adm     map[string]int64
	att, rel, admits,
	refunds int64
}

// rows is what has been persisted: per key the rows' sum and their number.
func (s *service) rows() (sum map[string]int64, n map[string]int) {
	sum, n = map[string]int64{}, map[string]int{}
	add := func(k, v string) {
		x, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			s.c.Fail("persisted vector %q", v)
		}
		sum[k] += x
		n[k]++
	}
	switch s.adapter {
	case "mock":
		for _, m := range persisted.FindAllStringSubmatch(s.text("out"), -1) {
			add(m[1], m[2])
		}
	case "kafka":
		for _, m := range produced.FindAllStringSubmatch(s.text("out"), -1) {
			var v struct {
				Key string `json:"key"`
				VC  int64  `json:"vc"`
				ID  string `json:"commit_id"`
			}
			if m[1] != s.topic {
				s.c.Fail("produced to topic %q, configured %q", m[1], s.topic)
			}
			if err := json.Unmarshal([]byte(m[3]), &v); err != nil || v.ID != m[2] || v.ID == "" {
				s.c.Fail("produced %q (%v)", m[0], err)
			}
			add(v.Key, fmt.Sprint(v.VC))
		}
	case "logged redis":
		for _, m := range evaluate.FindAllStringSubmatch(s.text("out"), -1) {
			add(m[1], m[3])
		}
	case "redis":
		sc, err := s.srv.Scalars()
		if err != nil {
			s.c.Inconclusive()
		}
		for k, x := range sc {
			sum[k] = -x
			n[k] = 1 // at least
		}
	}
	return
}

func (s *service) check(key string) (admitted bool, ok bool) {
	s.sent[key] = time.Now()
	s.att++
	a, err := s.k.do("GET", "/check", url.Values{"api_key": {key}}, nil)
	if err != nil {
		s.c.Fail("check: %v; %s", err, tail(s.text("err"), 2000))
		return false, false
	}
	if got := a.header.Get("X-RateLimit-Limit"); got != strconv.FormatInt(s.limit, 10) {
		s.c.Fail("X-RateLimit-Limit is %q, configured %d", got, s.limit)
	}
	switch a.status {
	case 200:
		s.adm[key]++
		s.admits++
		return true, true
	case 429:
		return false, true
	}
	s.c.Fail("check answered %d", a.status)
	return false, false
}

// admit makes n admissions; the budget must allow them.
func (s *service) admit(key string, n int64) bool {
	for t0 := time.Now(); n > 0; n-- {
		if a, ok := s.check(key); !ok {
			return false
		} else if !a && s.cached && time.Since(t0) < patience {
			n++
			time.Sleep(100 * time.Microsecond)
		} else if !a {
			s.c.Fail("key %q denied after %d admissions of a budget of %d", key, s.adm[key], s.limit)
			return false
		}
	}
	return true
}

// soon waits until cond holds, which it must in the end.
func (s *service) soon(what string, cond func() bool) bool {
	t0 := time.Now()
	for !cond() {
		if !s.alive() {
			s.c.Fail("the service ended by itself: %v\n%s", s.err, tail(s.text("err"), 3000))
			return false
		}
		if time.Since(t0) > patience {
			s.c.Fail("%s: not after %v", what, patience)
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

func settings(c *kit.C) {
	s := &service{limit: c.I64(1, 60), topic: "vsa-commits", sent: map[string]time.Time{}, adm: map[string]int64{}}
	s.adapter = kit.Pick(c, "mock", "redis", "redis", "kafka", "logged redis")
	threshold := c.I64(1, 70)
	interval := c.Dur(time.Millisecond, 30*time.Millisecond)
	low := int64(0)
	if c.Pct(30) {
		low = c.I64(1, threshold)
	}
	maxAge, evAge, evInt := time.Duration(0), time.Hour, 10*time.Minute
	never := c.Pct(20) // no commit cycle before the end
	if never {
		interval = time.Hour
	}
	aged := c.Pct(40)
	if aged {
		maxAge = c.Dur(20*time.Millisecond, 600*time.Millisecond)
	} else if c.Pct(30) {
		maxAge = time.Hour
	}
	switch c.IntN(5) {
	case 0, 1:
		evAge, evInt = c.Dur(100*time.Millisecond, 700*time.Millisecond), c.Dur(2*time.Millisecond, 40*time.Millisecond)
	case 2:
		evAge, evInt = time.Millisecond, time.Hour
	case 3:
		evAge, evInt = time.Hour, time.Millisecond
	}
	evicts := evAge < time.Minute && evInt < time.Minute
	args := []string{fmt.Sprintf("-rate_limit=%d", s.limit), fmt.Sprintf("-commit_threshold=%d", threshold), fmt.Sprintf("-commit_low_watermark=%d", low),
		fmt.Sprintf("-commit_interval=%v", interval), fmt.Sprintf("-commit_max_age=%v", maxAge), fmt.Sprintf("-eviction_age=%v", evAge), fmt.Sprintf("-eviction_interval=%v", evInt)}
	shown := map[string]string{"rate_limit": fmt.Sprint(s.limit), "commit_threshold": fmt.Sprint(threshold), "commit_low_watermark": fmt.Sprint(low),
		"commit_interval": interval.String(), "commit_max_age": maxAge.String(), "eviction_age": evAge.String(), "eviction_interval": evInt.String()}
	ttl := 24 * time.Hour
	switch s.adapter {
	case "mock":
		if c.Pct(50) {
			args = append(args, "-persistence_adapter=mock")
		}
	case "kafka":
		args = append(args, "-persistence_adapter=kafka")
		if c.Pct(70) {
			s.topic = kit.Pick(c, "t", "a.b-c_d", "vsa")
			args = append(args, "-kafka_topic="+s.topic)
		}
	default:
		args = append(args, "-persistence_adapter=redis")
		if c.Pct(70) {
			ttl = c.Dur(time.Minute, 1000*time.Hour)
			args = append(args, fmt.Sprintf("-redis_marker_ttl=%v", ttl))
		}
		if s.adapter == "redis" {
			var err error
			if s.srv, err = hpersist.Serve(func() string { return "" }); err != nil {
				panic(err)
			}
			defer s.srv.Stop()
			args = append(args, "-redis_addr="+s.srv.Addr)
		}
	}
	churnOn := c.Pct(50)
	rate := kit.Pick(c, 1.0, 1, 0, 0.05, 0.25, 0.5, 0.95)
	if churnOn {
		args = append(args, "-churn_metrics", fmt.Sprintf("-churn_sample=%v", rate), "-churn_log_interval=2ms")
		shown["churn_sample"] = fmt.Sprint(rate)
	}
	shown["churn_metrics"] = fmt.Sprint(churnOn)
	maddr := ""
	if c.Pct(40) {
		ln, err := listen()
		if err != nil {
			panic(err)
		}
		maddr = ln.Addr().String()
		ln.Close()
		args = append(args, "-metrics_addr="+maddr)
	}
	shown["metrics_addr"] = maddr
	slack := int64(0)
	switch c.IntN(6) {
	case 0:
		slack = c.I64(0, min(8, s.limit-1))
		s.cached = true
		args = append(args, "-vsa_use_cached_gate", fmt.Sprintf("-vsa_cache_interval=%v", c.Dur(10*time.Microsecond, time.Millisecond)), fmt.Sprintf("-vsa_cache_slack=%d", slack))
		if c.Pct(40) { // the slack of the groups counts if there are groups
			n, x := c.Range(0, 4), c.I64(0, min(4, s.limit-1-slack))
			args = append(args, fmt.Sprintf("-vsa_group_count=%d", n), fmt.Sprintf("-vsa_group_slack=%d", x))
			if n > 1 {
				slack += x
			}
		}
	case 1:
		args = append(args, fmt.Sprintf("-vsa_group_count=%d", c.Range(2, 9)), fmt.Sprintf("-vsa_group_slack=%d", c.IntN(5)))
	case 2:
		args = append(args, fmt.Sprintf("-vsa_fast_path_guard=%d", c.Range(1, 70)), fmt.Sprintf("-vsa_hierarchical_groups=%d", c.Range(2, 9)))
	case 3:
		args = append(args, fmt.Sprintf("-vsa_stripes=%d", c.Range(1, 100)), kit.Pick(c, "-vsa_cheap_update_chooser", "-vsa_per_p_update_chooser"))
	}
	if !s.cached && c.Pct(15) { // slack of a gate that is off
		args = append(args, fmt.Sprintf("-vsa_cache_slack=%d", c.Range(1, 9)))
	}
	c.Desc("%v", args)
	s.proc = launch(c, "ratelimiter-api", "-http_addr", args...)
	if s.proc == nil {
		return
	}
	defer s.kill()
	shown["http_addr"] = s.addr
	s.k = &client{addr: s.addr}
	defer s.k.close()

	held := true // no key of this case has been evicted and none is about to
	must := func(key string) int64 { return s.adm[key] }

	// The budget, exactly, as long as nothing is evicted.
	if !evicts {
		full := "full"
		first := int64(-1)
		for i := int64(0); i < s.limit+3; i++ {
			a, ok := s.check(full)
			if !ok {
				return
			}
			if !a && first < 0 {
				first = s.adm[full]
			}
			if slack > 0 && c.Pct(20) {
				time.Sleep(2 * time.Millisecond)
			}
		}
		lo := s.limit - slack
		if s.cached && !never {
			lo = 0
		}
		if s.adm[full] > s.limit || (first >= 0 && first < lo) || (!s.cached && s.adm[full] != s.limit) {
			c.Fail("%d admissions, first denial after %d, of a budget of %d with slack %d", s.adm[full], first, s.limit, slack)
		}
		c.Label("budgets compared")
	}

	// One admission below the threshold: only age or eviction may persist it.
	below := "below"
	n := min(s.limit-slack, threshold-1)
	if n > 0 && !evicts {
		if !s.admit(below, n) {
			return
		}
		t0 := time.Now()
		for time.Since(t0) < 150*time.Millisecond {
			sum, _ := s.rows()
			now := time.Now()
			if sum[below] != 0 && (!aged || now.Sub(s.sent[below]) < maxAge) {
				c.Fail("%d admissions of a threshold of %d were persisted (%d) %v after the last request (max age %v, commit interval %v)", n, threshold, sum[below], now.Sub(s.sent[below]), maxAge, interval)
			}
			time.Sleep(3 * time.Millisecond)
		}
		c.Label("kept below the threshold")
		if aged && !never {
			if !s.soon("a remainder older than the maximum age is persisted", func() bool { sum, _ := s.rows(); return sum[below] == must(below) }) {
				return
			}
			c.Label("persisted by age")
		}
	}
	// At the threshold it is persisted.
	at := "at"
	if threshold <= s.limit-slack && !evicts {
		if !s.admit(at, threshold) {
			return
		}
		if !never {
			if !s.soon("a key at the threshold is persisted", func() bool { sum, _ := s.rows(); return sum[at] != 0 }) {
				return
			}
			c.Label("persisted at the threshold")
		}
	}
	if evicts {
		held = false
		key := "idle"
		var sofar int64
		for round := 0; round < 2; round++ {
			for t0 := time.Now(); ; time.Sleep(2 * (evAge + evInt)) {
				a, ok := s.check(key)
				if !ok {
					return
				}
				if a {
					break
				}
				// a request during an eviction keeps the key
				if (round == 0 && !s.cached) || time.Since(t0) > patience {
					c.Fail("a key has no budget (%d admitted of %d) although it is idle for longer than the eviction age", s.adm[key], s.limit)
					return
				}
			}
			sofar++
			for {
				sum, _ := s.rows()
				now := time.Now()
				if sum[key] >= sofar {
					if age := now.Sub(s.sent[key]); age < evAge && (threshold > 1 || never) && (!aged || age < maxAge) {
						c.Fail("a key was persisted %v after its last request (eviction age %v, max age %v)", age, evAge, maxAge)
					}
					break
				}
				if !s.alive() || now.Sub(s.sent[key]) > patience {
					c.Fail("an idle key had not been evicted and persisted after %v (alive: %v)", patience, s.alive())
					return
				}
				time.Sleep(2 * time.Millisecond)
			}
			// persisted by the commit cycle, perhaps: the eviction itself shows in the log
			if !s.soon("the eviction is done", func() bool { return strings.Count(s.text("out"), "Evicting ") > round }) {
				return
			}
		}
		c.Label("evicted")
	} else if strings.Contains(s.text("out"), "Evicting ") {
		c.Fail("a key was evicted (eviction age %v, interval %v)", evAge, evInt)
	}
	if never && !evicts {
		if sum, _ := s.rows(); len(sum) > 0 {
			c.Fail("persisted %v before the end although the first commit cycle is an hour away", sum)
		}
		c.Label("nothing before the first cycle")
	}
	// a release gives one back
	if held && c.Pct(50) && !aged && !s.cached {
		key := "rel"
		if !s.admit(key, 1) {
			return
		}
		if a, err := s.k.do("POST", "/release", url.Values{"api_key": {key}}, nil); err != nil || a.status != 204 {
			c.Fail("release: %v %v", a, err)
			return
		}
		if threshold > 1 || never {
			s.adm[key]--
			s.refunds++
			if !s.admit(key, s.limit) {
				return
			}
		} else {
			s.rel++ // it may have been persisted already
		}
	}

	// The metrics, on both addresses.
	get := func(addr string) map[string]float64 {
		k := &client{addr: addr}
		defer k.close()
		var a *answer
		var err error
		for t0 := time.Now(); time.Since(t0) < 10*time.Second; time.Sleep(5 * time.Millisecond) {
			if a, err = k.do("GET", "/metrics", nil, nil); err == nil {
				break
			}
		}
		if err != nil || a.status != 200 {
			c.Fail("metrics at %s: %v", addr, err)
			return nil
		}
		m := map[string]float64{}
		for _, l := range strings.Split(string(a.body), "\n") {
			if f := strings.Fields(l); len(f) == 2 && strings.HasPrefix(l, "vsa_") {
				m[f[0]], _ = strconv.ParseFloat(f[1], 64)
			}
		}
		return m
	}
	for _, addr := range []string{s.addr, maddr} {
		if addr == "" {
			continue
		}
		m := get(addr)
		want := float64(0)
		if churnOn {
			want = float64(s.admits)
		}
		if m != nil && m["vsa_naive_writes_total"] != want {
			c.Fail("metrics at %s: %v naive writes, %d admissions, telemetry %v", addr, m["vsa_naive_writes_total"], s.admits, churnOn)
		}
		if (!churnOn || rate == 0) && m["vsa_keys_tracked"] != 0 {
			c.Fail("%v keys tracked (telemetry %v, sampling %v)", m["vsa_keys_tracked"], churnOn, rate)
		}
		c.Label("metrics compared")
	}
	if churnOn && rate == 1 && held && s.admits > 0 {
		if !s.soon("the keys are tracked", func() bool { return get(s.addr)["vsa_keys_tracked"] == float64(len(s.adm)) }) {
			return
		}
		c.Label("keys tracked")
	}
	if churnOn && rate > 0 && rate < 1 && held && s.limit-slack > 0 && !s.cached {
		n := 600
		for i := 0; i < n; i++ {
			if _, ok := s.check(fmt.Sprintf("%x%x", c.Uint64(), c.Uint64())); !ok {
				return
			}
		}
		// a random key is tracked with the given probability; nothing is known of the others
		want, tol := rate*float64(n), 5.5*math.Sqrt(rate*(1-rate)*float64(n))
		others := float64(len(s.adm) - n)
		if !s.soon(fmt.Sprintf("of %d random keys and %v others %v are tracked", n, others, rate), func() bool {
			m := get(s.addr)["vsa_keys_tracked"]
			return m >= want-tol && m <= want+tol+others
		}) {
			return
		}
		c.Label("shares of keys tracked")
	}

	tEnd := time.Now()
	_ = s.cmd.Process.Signal(kit.Pick(c, syscall.SIGTERM, syscall.SIGINT))
	if !s.wait("shutdown") {
		return
	}
	if s.err != nil {
		c.Fail("the service ended with %v\n%s", s.err, tail(s.text("err"), 3000))
	}
	sum, cnt := s.rows()
	writes := int64(0)
	for key, a := range s.adm {
		if d := sum[key]; d > a || d < a-s.rel {
			c.Fail("key %q: %d to persist, %d persisted at exit; %s", key, a, d, errLine.FindAllString(s.text("out"), 5))
		}
		writes += int64(cnt[key])
		delete(sum, key)
	}
	if len(sum) > 0 {
		c.Fail("persisted %v, never asked for", sum)
	}
	out := s.text("out")
	if s.adapter == "mock" {
		got := map[string]int64{}
		for _, m := range row.FindAllStringSubmatch(out, -1) {
			got[m[1]], _ = strconv.ParseInt(m[2], 10, 64)
		}
		if got["Attempted"] != s.att || got["Admits"] != s.admits || got["Writes"] != writes || got["Refunds"] < s.refunds || got["Refunds"] > s.refunds+s.rel {
			c.Fail("the summary says %v; %d attempted, %d admitted, %d refunded (%d unknown), %d rows", got, s.att, s.admits, s.refunds, s.rel, writes)
		}
		for name, v := range shown {
			if !regexp.MustCompile(`(?m)(^|[^a-z_])` + name + `\s+` + regexp.QuoteMeta(v) + `\s*$`).MatchString(out) {
				c.Fail("the summary does not show %s = %q\n%s", name, v, tail(out, 3000))
			}
		}
		c.Label("summaries compared")
	}
	if s.adapter == "logged redis" {
		for _, m := range evaluate.FindAllStringSubmatch(out, -1) {
			if n, _ := strconv.ParseInt(m[4], 10, 64); time.Duration(n)*time.Second < ttl || time.Duration(n-1)*time.Second >= ttl {
				c.Fail("marker of %s s, configured %v", m[4], ttl)
			}
			c.Label("marker lives compared")
		}
	}
	if s.adapter == "redis" {
		for k, x := range s.srv.Markers() {
			// set between the start and the end of the run
			if x.IsZero() || x.Before(tEnd.Add(ttl-2*patience-time.Minute)) || x.After(time.Now().Add(ttl+time.Second)) {
				c.Fail("marker %q expires at %v, now is %v, configured %v", k, x, time.Now(), ttl)
			}
			c.Label("marker lives compared")
		}
	}
	c.Events(s.att + writes)
	c.Hash(args[:5], s.adapter, s.admits, writes)
	if s.admits == 0 {
		c.Trivial()
	}
}

// numbers: settings of unusual size or precision.
func numbers(c *kit.C) {
	big := func() int64 {
		return kit.Pick[int64](c, 1<<15, 1<<31-1, 1<<31, 1<<32+1, 1<<53+1, 1<<62+3, math.MaxInt64) - c.Int64N(2)
	}
	dur := func() time.Duration {
		u := kit.Pick[time.Duration](c, 1, 1000, 1000000, 1000000000)
		return c.Dur(time.Millisecond, 200*time.Hour) / u * u
	}
	s := &service{limit: big(), adapter: "mock", sent: map[string]time.Time{}, adm: map[string]int64{}}
	threshold, low := big(), int64(0)
	if c.Pct(50) {
		low = c.Int64N(threshold)
	}
	interval, maxAge, evAge, evInt, rate := time.Hour+dur(), dur()+time.Hour, dur()+time.Hour, dur()+time.Hour, c.Float64()
	if c.Pct(50) {
		interval = c.Dur(time.Millisecond, 20*time.Millisecond)
	}
	maddr := ""
	args := []string{fmt.Sprintf("-rate_limit=%d", s.limit), fmt.Sprintf("-commit_threshold=%d", threshold), fmt.Sprintf("-commit_low_watermark=%d", low),
		fmt.Sprintf("-commit_interval=%v", interval), fmt.Sprintf("-commit_max_age=%v", maxAge), fmt.Sprintf("-eviction_age=%v", evAge), fmt.Sprintf("-eviction_interval=%v", evInt),
		"-churn_metrics", fmt.Sprintf("-churn_sample=%v", rate), fmt.Sprintf("-churn_log_interval=%v", time.Hour)}
	shown := map[string]string{"rate_limit": fmt.Sprint(s.limit), "commit_threshold": fmt.Sprint(threshold), "commit_low_watermark": fmt.Sprint(low),
		"commit_interval": interval.String(), "commit_max_age": maxAge.String(), "eviction_age": evAge.String(), "eviction_interval": evInt.String(),
		"churn_metrics": "true", "metrics_addr": maddr}
	c.Desc("%v", args)
	s.proc = launch(c, "ratelimiter-api", "-http_addr", args...)
	if s.proc == nil {
		return
	}
	defer s.kill()
	s.k = &client{addr: s.addr}
	defer s.k.close()
	keys := []string{"a", "b", strings.Repeat("long", c.Range(3, 500)) + "1"}
	keys = append(keys, strings.TrimSuffix(keys[2], "1")+"2")
	for i := c.Range(3, 30); i > 0; i-- {
		k := keys[c.IntN(len(keys))]
		s.sent[k] = time.Now()
		s.att++
		a, err := s.k.do("GET", "/check", url.Values{"api_key": {k}}, nil)
		if err != nil {
			c.Fail("check: %v; %s", err, tail(s.text("err"), 2000))
			return
		}
		if a.status != 200 {
			c.Fail("request %d of a budget of %d was answered %d", s.adm[k]+1, s.limit, a.status)
			return
		}
		s.adm[k]++
		s.admits++
		l, r := a.header.Get("X-RateLimit-Limit"), a.header.Get("X-RateLimit-Remaining")
		if l != fmt.Sprint(s.limit) || r != fmt.Sprint(s.limit-s.adm[k]) {
			c.Fail("after %d of %d the response says %q of %q remain", s.adm[k], s.limit, r, l)
		}
	}
	time.Sleep(c.Dur(0, 60*time.Millisecond))
	if sum, _ := s.rows(); len(sum) > 0 {
		c.Fail("persisted %v; the threshold is %d", sum, threshold)
	}
	_ = s.cmd.Process.Signal(syscall.SIGTERM)
	if !s.wait("shutdown") {
		return
	}
	if s.err != nil {
		c.Fail("the service ended with %v\n%s", s.err, tail(s.text("err"), 3000))
	}
	sum, _ := s.rows()
	for k, a := range s.adm {
		if sum[k] != a {
			c.Fail("key %.50q... (%d bytes): %d to persist, %d persisted at exit", k, len(k), a, sum[k])
		}
		delete(sum, k)
	}
	if len(sum) > 0 {
		c.Fail("persisted %v, never asked for", sum)
	}
	out := s.text("out")
	for name, v := range shown {
		if !regexp.MustCompile(`(?m)(^|[^a-z_])` + name + `\s+` + regexp.QuoteMeta(v) + `\s*$`).MatchString(out) {
			c.Fail("the summary does not show %s = %q\n%s", name, v, tail(out, 3000))
		}
	}
	ok := false // a share may be rounded
	for _, m := range regexp.MustCompile(`(?m)(?:^|[^a-z_])churn_sample\s+(\S+)\s*$`).FindAllStringSubmatch(out, -1) {
		if x, err := strconv.ParseFloat(m[1], 64); err == nil && math.Abs(x-rate) < 0.0006 {
			ok = true
		}
	}
	if !ok {
		c.Fail("the summary does not show a sampled share of %v\n%s", rate, tail(out, 3000))
	}
	c.Label("large and precise settings")
	c.Events(s.att)
	c.Hash(args)
}

// refuse: settings the service can't honour end it before it listens.
func refuse(c *kit.C) {
	args := kit.Pick(c, []string{"-persistence_adapter=postgres"}, []string{"-persistence_adapter=nosuch"}, []string{"-persistence_adapter=Redis"}, []string{"-persistence_adapter=mock "},
		[]string{"-rate_limit=x"}, []string{"-commit_interval=5"}, []string{"-nosuch"})
	ln, err := listen()
	if err != nil {
		panic(err)
	}
	addr := ln.Addr().String()
	ln.Close()
	c.Desc("%v", args)
	cmd := exec.Command(os.Getenv("VERIF_BIN_ratelimiter_api"), append([]string{"-http_addr=" + addr}, args...)...)
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "refuse-")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	f, _ := os.Create(filepath.Join(dir, "out"))
	defer f.Close()
	cmd.Stdout, cmd.Stderr = f, f
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			c.Fail("%v: ended with success", args)
		}
	case <-time.After(patience):
		_ = cmd.Process.Kill()
		<-done
		c.Fail("%v: still running after %v", args, patience)
	}
	b, _ := os.ReadFile(f.Name())
	if strings.Contains(string(b), "listening on") || strings.Contains(string(b), "panic") {
		c.Fail("%v: %s", args, tail(string(b), 1000))
	}
	c.Label("settings refused")
	c.Events(1)
	c.Hash(args)
}

func TestC30(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C30", kit.Part{Name: "settings", Share: 0.9, Fn: settings, CPU: 10 * time.Minute}, kit.Part{Name: "numbers", Share: 0.15, Fn: numbers}, kit.Part{Name: "refuse", Share: 0.1, Fn: refuse})
}
