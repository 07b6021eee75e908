package hproc

import (
	"bytes"
	"fmt"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"sync"
	"testing"
	"time"

	"vsa/internal/zzverif/kit"
)

// ---- C31 ----

var loadLine = regexp.MustCompile(`(?m)^LoadGen: mode=(\S+) N=(\d+) c=(\d+) `)

func loadgen(c *kit.C) {
	bin := os.Getenv("VERIF_BIN_http_loadgen")
	n, conc := c.Range(1, 600), c.Range(1, 24)
	if c.Pct(10) {
		conc = c.Range(1, 2*n)
	}
	zipf := c.Pct(60)
	every, cold := kit.Pick(c, 5, 2, 3, 10, 7, 1, 0), kit.Pick(c, 50, 1, 2, 10, 6, 100)
	path := kit.Pick(c, "/check", "check", "/", "", "/a/b")
	base := ""
	param := kit.Pick(c, "api_key", "k", "a b", "ü&=")
	key, hot := kit.Pick(c, "alice-key", "a b", "ü&x=1", "%41", "+", ""), kit.Pick(c, "hot-1", "h o&t", "cold")
	timeout := 60 * time.Second
	short := c.Pct(15)
	if short {
		timeout = c.Dur(20*time.Millisecond, 400*time.Millisecond)
	}
	fault := kit.Pick(c, "", "", "", "status", "drop", "slow", "garbage")
	if short {
		fault = "slow"
	}
	ln, err := listen()
	if err != nil {
		panic(err)
	}
	var mu sync.Mutex
	keys := map[string]int{}
	now, peak, got, dropped := 0, 0, 0, 0
	bad := ""
	var first, last time.Time
	r := c.Sub()
	wantPath := path
	if !strings.HasPrefix(path, "/") {
		wantPath = "/" + path
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		mu.Lock()
		got++
		now++
		peak = max(peak, now)
		if first.IsZero() {
			first = time.Now()
		}
		last = time.Now()
		v := q.URL.Query()
		if q.Method != "GET" || q.URL.Path != wantPath || len(v) != 1 || len(v[param]) != 1 {
			bad = fmt.Sprintf("%s %s", q.Method, q.URL)
		} else {
			keys[v.Get(param)]++
		}
		d, f := time.Duration(0), r.IntN(100)
		if fault == "slow" {
			d = time.Duration(r.IntN(4000)) * time.Microsecond
		}
		if fault == "drop" && f < 20 {
			dropped++
		}
		mu.Unlock()
		time.Sleep(d)
		mu.Lock()
		now--
		mu.Unlock()
		switch {
		case fault == "status" && f < 50:
			w.WriteHeader([]int{500, 429, 404, 204}[f%4])
		case fault == "drop" && f < 20:
			panic(http.ErrAbortHandler)
		case fault == "garbage" && f < 20: // a failure that HTTP clients do not repair by themselves
			if conn, _, err := w.(http.Hijacker).Hijack(); err == nil {
				fmt.Fprint(conn, "no HTTP\r\n\r\n")
				conn.Close()
			}
		default:
			fmt.Fprint(w, strings.Repeat("x", f*50))
		}
	})}
	go srv.Serve(ln)
	defer srv.Close()
	base = "http://" + ln.Addr().String() + kit.Pick(c, "", "/", "//")
	args := []string{"-base=" + base, "-path=" + path, "-param=" + param, fmt.Sprintf("-n=%d", n), fmt.Sprintf("-c=%d", conc), fmt.Sprintf("-timeout=%v", timeout)}
	mode := "single"
	if zipf {
		mode = kit.Pick(c, "zipf", "ZIPF")
		args = append(args, "-mode="+mode, "-hot_key="+hot, fmt.Sprintf("-cold_keys=%d", cold), fmt.Sprintf("-hot_every=%d", every))
	} else {
		args = append(args, "-key="+key)
	}
	c.Desc("%v %s", args, fault)
	cmd := exec.Command(bin, args...)
	stall := sometimes(c)
	if s := os.Getenv("VERIF_BIN_http_loadgen_stalled"); s != "" && stall != "" {
		cmd.Path = s
		c.Label("stalled")
	}
	cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", kit.Pick(c, 1, 2, 8)), "VERIF_STALL="+stall)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	t0 := time.Now()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(timeout + 60*time.Second):
		_ = cmd.Process.Kill()
		<-done
		c.Fail("still running %v after its timeout", time.Minute)
		return
	}
	took := time.Since(t0)
	mu.Lock()
	defer mu.Unlock()
	if err != nil {
		c.Fail("it ended with %v: %s", err, tail(out.String(), 1000))
		return
	}
	if bad != "" {
		c.Fail("it sent %s", bad)
	}
	m := loadLine.FindStringSubmatch(out.String())
	if m == nil || m[1] != strings.ToLower(mode) || m[2] != fmt.Sprint(n) || m[3] != fmt.Sprint(conc) {
		c.Fail("it reports %q", out.String())
	}
	if peak > conc && dropped == 0 && took < timeout {
		c.Fail("%d requests at once, configured %d", peak, conc)
	}
	cut := took >= timeout || (first != time.Time{} && last.Sub(first) >= timeout)
	switch {
	case cut:
		if got > n {
			c.Fail("%d requests sent, configured %d", got, n)
		}
		c.Label("stopped by the timeout")
	case dropped > 0:
		if got < n || got > n+dropped {
			c.Fail("%d requests arrived, %d of them were dropped, configured %d", got, dropped, n)
		}
		c.Label("runs with failures")
	default:
		if got != n {
			c.Fail("%d requests sent, configured %d", got, n)
		}
		c.Label("complete runs")
	}
	if fault == "status" || fault == "garbage" {
		c.Label("runs with failures")
	}
	if !zipf {
		if keys[key] != got {
			c.Fail("keys %v, configured %q", keys, key)
		}
	} else {
		every = max(every, 2)
		colds, used := 0, 0
		for k, v := range keys {
			if k == hot {
				continue
			}
			var i int
			if _, err := fmt.Sscanf(k, "cold-%d", &i); err != nil || k != fmt.Sprintf("cold-%d", i) || i < 1 || i > cold {
				c.Fail("key %q, configured %d cold keys", k, cold)
			}
			colds += v
			used++
		}
		if !cut && dropped == 0 {
			// each worker sends one of every so many to a cold key
			lo, hi := n/every-conc, n/every+conc+1
			if colds < lo || colds > hi {
				c.Fail("%d of %d requests for cold keys, one in %d per worker configured (%d..%d)", colds, n, every, lo, hi)
			}
			// round robin: a worker that sends enough uses them all
			if per := n / conc; per >= every*(cold+1) {
				if used != cold {
					c.Fail("%d of %d cold keys used by workers that sent %d requests each, one in %d to a cold key", used, cold, per, every)
				}
				c.Label("all cold keys")
			}
			c.Label("skewed runs")
		}
	}
	c.Events(int64(got))
	c.Hash(mode, n, conc, path, param, len(keys))
}

func loadgenRefuses(c *kit.C) {
	args := kit.Pick(c, []string{"-n=0"}, []string{"-n=-1"}, []string{"-c=0"}, []string{"-mode=nosuch"}, []string{"-mode=zipf", "-cold_keys=0"}, []string{"-mode="}, []string{"-nosuch"})
	hits := 0
	ln, err := listen()
	if err != nil {
		panic(err)
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { hits++ })}
	go srv.Serve(ln)
	c.Desc("%v", args)
	cmd := exec.Command(os.Getenv("VERIF_BIN_http_loadgen"), append([]string{"-base=http://" + ln.Addr().String(), "-n=3"}, args...)...)
	b, err := cmd.CombinedOutput()
	srv.Close()
	if err == nil || hits > 0 || bytes.Contains(b, []byte("panic")) {
		c.Fail("%v: %d requests, %v: %s", args, hits, err, b)
	}
	c.Label("settings refused")
	c.Events(1)
	c.Hash(args)
}

func TestC31(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C31", kit.Part{Name: "run", Share: 0.95, Fn: loadgen, CPU: 10 * time.Minute}, kit.Part{Name: "refuse", Share: 0.05, Fn: loadgenRefuses})
}
