package hproc

import (
	"fmt"
	"net/url"
	"os"
	"path/filepath"
	"strconv"
	"syscall"
	"time"

	"vsa/internal/sinks"
	"vsa/internal/zzverif/kit"
	"vsa/plugin/tfd"
)

// boot starts a binary whose main package is held up now and then, as the scheduler of a busy machine may do, and signals it
// as soon as it has answered its first requests: from then on it has to end as gracefully as ever.
func boot(bin string) func(*kit.C) {
	return func(c *kit.C) {
		dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "boot-")
		if err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		sLog, vLog := filepath.Join(dir, "s.log"), filepath.Join(dir, "v.log")
		stall := ""
		if c.Pct(85) {
			stall = fmt.Sprintf("%d %d %d 0 0 %d", c.IntN(1<<30), c.Range(20, 300), c.Range(20000, 100000), c.Range(5, 40))
		}
		key := fmt.Sprintf("boot-%d", c.Index)
		method, path, want, addr := "POST", "/consume", 202, "-http"
		q := url.Values{"key": {key}, "bucket": {"b"}, "n": {"1"}}
		args := []string{"-s_log=" + sLog, "-v_log=" + vLog, "-flush=1h"}
		switch bin {
		case "ratelimiter-api":
			method, path, want, addr = "GET", "/check", 200, "-http_addr"
			q = url.Values{"api_key": {key}}
			args = []string{"-commit_interval=1h"}
		case "tfd-sim":
			args = append(args, "-qps=1", "-burst=1", "-duration=0")
		}
		if bin == "tfd-proxy" && c.Pct(40) { // one for the V log
			path = "/reverse"
		}
		p := launchStalled(c, stall, bin, addr, args...)
		if p == nil {
			return
		}
		defer p.kill()
		k := &client{addr: p.addr}
		defer k.close()
		var acc int64
		n := int64(c.Range(1, 3))
		for t0 := time.Now(); acc < n && p.alive() && time.Since(t0) < 60*time.Second; {
			a, err := k.do(method, path, q, nil)
			if err == errNotSent {
				continue
			}
			if err != nil || a.status != want {
				c.Fail("%s answered %v (%v)", path, a, err)
				return
			}
			acc++
		}
		if acc == 0 {
			c.Fail("no answer: %s", tail(p.text("err"), 3000))
			return
		}
		if c.Pct(30) {
			time.Sleep(c.Dur(0, 20*time.Millisecond))
		}
		sig := kit.Pick(c, syscall.SIGTERM, syscall.SIGINT)
		_ = p.cmd.Process.Signal(sig)
		if !p.wait("shutdown") {
			return
		}
		if p.err != nil {
			c.Fail("%d requests were answered, then came %v: the process ended with %v\n%s", acc, sig, p.err, tail(p.text("err"), 3000))
			return
		}
		var got int64
		switch bin {
		case "ratelimiter-api":
			for _, m := range persisted.FindAllStringSubmatch(p.text("out"), -1) {
				v, _ := strconv.ParseInt(m[2], 10, 64)
				if m[1] == key {
					got += v
				}
			}
		default:
			sl, err := sinks.ReadAllSLog(sLog)
			if err != nil {
				c.Fail("S log: %v", err)
			}
			vl, err := sinks.ReadAllVLog(vLog)
			if err != nil {
				c.Fail("V log: %v", err)
			}
			id := [2]uint64{tfd.HashKey(key), tfd.HashKey("b")}
			for _, x := range sl {
				if x.KeyID == id[0] && x.BucketID == id[1] {
					got += x.NetDelta
				}
			}
			for _, x := range vl {
				if x.Footprint.KeyID == id[0] && x.Footprint.Time.BucketID == id[1] {
					got -= x.Delta
				}
			}
		}
		if got != acc {
			c.Fail("%d operations were accepted before %v, but %d are durable after the exit", acc, sig, got)
		}
		c.Events(acc)
		c.Label("signalled after the first answers")
		c.Hash(stall, n, sig)
		c.Desc("%q %s: %d accepted, then %v", stall, bin, acc, sig)
	}
}
