package hpersist

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"vsa/internal/ratelimiter/core"
	"vsa/internal/ratelimiter/persistence"
	"vsa/internal/zzverif/kit"
)

// every commit id this process has seen
var idMu sync.Mutex
var idSeen = map[string]bool{}

func fresh(c *kit.C, id string) {
	idMu.Lock()
	defer idMu.Unlock()
	if id == "" {
		c.Fail("an entry was forwarded without commit id")
	}
	if idSeen[id] {
		c.Fail("commit id %q was used twice", id)
	}
	idSeen[id] = true
}

type impl struct {
	mu    sync.Mutex
	calls map[string][][]persistence.CommitEntry // by first key's caller prefix
	errs  map[string]error
}

func (i *impl) CommitBatch(ctx context.Context, es []persistence.CommitEntry) error {
	i.mu.Lock()
	defer i.mu.Unlock()
	who := "?"
	if len(es) > 0 {
		who, _, _ = strings.Cut(es[0].Key, "|")
	}
	i.calls[who] = append(i.calls[who], append([]persistence.CommitEntry{}, es...))
	if ctx == nil || ctx.Err() != nil {
		return errors.New("unusable context")
	}
	return i.errs[who]
}

type oddErr struct{ s []string }

func (o *oddErr) Error() string { return strings.Join(o.s, ",") }

func shimForward(c *kit.C) {
	im := &impl{calls: map[string][][]persistence.CommitEntry{}, errs: map[string]error{}}
	shims := []*persistence.IdemShim{persistence.NewIdemShim(im)}
	if c.Pct(40) {
		shims = append(shims, persistence.NewIdemShim(im))
	}
	var wg sync.WaitGroup
	n := c.Range(1, 4)
	total := 0
	for g := 0; g < n; g++ {
		who := fmt.Sprintf("g%d", g)
		im.mu.Lock()
		im.errs[who] = kit.Pick[error](c, nil, nil, errConn, &oddErr{[]string{"x"}}, fmt.Errorf("w: %w", errBroker))
		want := im.errs[who]
		im.mu.Unlock()
		var batches [][]core.Commit
		for i := c.Range(0, 5); i > 0; i-- {
			var b []core.Commit
			k := c.IntN(7)
			if c.Pct(3) {
				k = kit.Pick(c, 300, 300, 300, 1100, 5000)
			}
			for j := 0; j < k; j++ {
				b = append(b, core.Commit{Key: who + "|" + jsonNames[c.IntN(len(jsonNames))], Vector: rvec(c)})
			}
			batches = append(batches, b)
			total += len(b)
			c.Hash(len(b))
		}
		sh := shims[g%len(shims)]
		c.Go(&wg, func() {
			for _, b := range batches {
				in := append([]core.Commit{}, b...)
				im.mu.Lock()
				before := len(im.calls[who])
				im.mu.Unlock()
				err := sh.CommitBatch(b)
				im.mu.Lock()
				calls := im.calls[who][before:]
				im.mu.Unlock()
				for i := range in {
					if in[i] != b[i] {
						c.Fail("the worker's batch was changed")
					}
				}
				if len(b) == 0 {
					if len(calls) != 0 || err != nil {
						c.Fail("an empty batch caused %d calls, error %v", len(calls), err)
					}
					c.Label("empty batch")
					continue
				}
				if err != want {
					c.Fail("the adapter's error was %v, the worker got %v", want, err)
				}
				if want != nil {
					c.Label("error")
				}
				if len(calls) != 1 {
					c.Fail("one batch was forwarded %d times", len(calls))
					continue
				}
				es := calls[0]
				if len(es) != len(b) {
					c.Fail("a batch of %d commits was forwarded as %d entries", len(b), len(es))
					continue
				}
				for i, e := range es {
					if e.Key != b[i].Key || e.Vector != b[i].Vector {
						c.Fail("commit %d %v was forwarded as (%q, %d)", i, b[i], e.Key, e.Vector)
					}
					fresh(c, e.CommitID)
				}
			}
		})
	}
	wg.Wait()
	im.mu.Lock()
	if len(im.calls["?"]) > 0 {
		c.Fail("the backend was called with an empty batch")
	}
	im.mu.Unlock()
	c.Events(int64(total))
	if total == 0 {
		c.Trivial()
	}
	c.Desc("%d callers, %d shims, %d entries", n, len(shims), total)
	c.Hash(n, len(shims), total)
}

// shimProcs: ids of several processes started together are all different.
func shimProcs(c *kit.C) {
	n, k := c.Range(2, 4), 200
	var cmds []*exec.Cmd
	var outs []string
	for i := 0; i < n; i++ {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestShimChild$", "-test.count", "1")
		out := filepath.Join(os.Getenv("VERIF_SCRATCH"), fmt.Sprintf("ids-%d-%d", c.Index, i))
		cmd.Env = append(os.Environ(), "VERIF_CHILD="+out, "VERIF_CHILD_N="+strconv.Itoa(k))
		if cmd.Start() != nil {
			c.Inconclusive()
			return
		}
		cmds, outs = append(cmds, cmd), append(outs, out)
	}
	total := 0
	for i, cmd := range cmds {
		if cmd.Wait() != nil {
			c.Inconclusive()
			return
		}
		f, err := os.Open(outs[i])
		if err != nil {
			c.Inconclusive()
			return
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			fresh(c, strings.TrimPrefix(sc.Text(), "id:"))
			total++
		}
		f.Close()
		os.Remove(outs[i])
	}
	if total != n*k {
		c.Fail("%d processes forwarded %d entries of %d", n, total, n*k)
	}
	c.Events(int64(total))
	c.LabelN("process", int64(n))
	c.Desc("%d processes, %d ids", n, total)
	c.Hash(c.Index, n)
}

type childImpl struct{ w *bufio.Writer }

func (i childImpl) CommitBatch(_ context.Context, es []persistence.CommitEntry) error {
	for _, e := range es {
		fmt.Fprintf(i.w, "id:%s\n", e.CommitID)
	}
	return nil
}

func TestShimChild(t *testing.T) {
	out := os.Getenv("VERIF_CHILD")
	if out == "" {
		t.Skip()
	}
	f, err := os.Create(out)
	if err != nil {
		t.Fatal(err)
	}
	w := bufio.NewWriter(f)
	sh := persistence.NewIdemShim(childImpl{w})
	n, _ := strconv.Atoi(os.Getenv("VERIF_CHILD_N"))
	for i := 0; i < n; i += 4 {
		_ = sh.CommitBatch(make([]core.Commit, 4))
	}
	w.Flush()
	f.Close()
}

// capture runs f with os.Stdout in a file and returns what was printed.
func capture(c *kit.C, f func()) string {
	path := filepath.Join(os.Getenv("VERIF_SCRATCH"), "stdout")
	o, err := os.Create(path)
	if err != nil {
		c.Inconclusive()
		return ""
	}
	old := os.Stdout
	os.Stdout = o
	defer func() { os.Stdout = old }()
	f()
	o.Close()
	b, _ := os.ReadFile(path)
	return string(b)
}

var kafkaLine = regexp.MustCompile(`(?m)^\[kafka-demo\] TOPIC=(\S*) KEY=(\S+) VALUE=(\{.*\}) HEADERS=`)

func factory(c *kit.C) {
	var commits []core.Commit
	for i := c.Range(1, 5); i > 0; i-- {
		m := core.Commit{Key: fmt.Sprintf("key-%d-%d", i, c.IntN(1000)), Vector: rvec(c)}
		commits = append(commits, m)
	}
	name := kit.Pick(c, "", "mock", "redis", "redis", "redis-wire", "redis-wire", "redis-wire", "kafka", "kafka", "postgres", "other")
	c.Label("factory " + name)
	c.Hash(name, len(commits), c.Index%64)
	c.Desc("factory %q, %d commits", name, len(commits))
	var opts persistence.DemoOptions
	if c.Pct(50) {
		opts.RedisMarkerTTL = kit.Pick(c, time.Hour, 10*time.Minute, -1, 5*time.Minute+300*time.Millisecond, 30*time.Hour, 30*24*time.Hour)
	}
	switch name {
	case "postgres", "other":
		if name == "other" {
			name = kit.Pick(c, "Mock", "MOCK", " mock", "kafka2", "redi", "none", "memory", "sql", "\x00")
		}
		p, err := persistence.BuildPersister(name, opts)
		if err == nil || p != nil {
			c.Fail("BuildPersister(%q) gave %v, %v", name, p, err)
		}
	case "", "mock":
		if c.Pct(20) {
			commits[0].Key = kit.Long(c.Rand) + commits[0].Key
		}
		var err error
		out := capture(c, func() {
			var p core.Persister
			if p, err = persistence.BuildPersister(name, opts); err == nil {
				err = p.CommitBatch(commits)
			}
		})
		if err != nil {
			c.Fail("mock persister: %v", err)
		}
		for _, m := range commits {
			if !strings.Contains(out, fmt.Sprintf("  - KEY: %-20s VECTOR: %d\n", m.Key, m.Vector)) {
				c.Fail("the mock persister did not print %v: %q", m, out)
			}
		}
		c.Events(int64(len(commits)))
	case "kafka":
		topic := kit.Pick(c, "", "orders", "x-y")
		opts.KafkaTopic = topic
		if topic == "" {
			topic = "vsa-commits"
		}
		var err error
		out := capture(c, func() {
			var p core.Persister
			if p, err = persistence.BuildPersister("kafka", opts); err == nil {
				err = p.CommitBatch(commits)
			}
		})
		ms := kafkaLine.FindAllStringSubmatch(out, -1)
		if err != nil || len(ms) != len(commits) {
			c.Fail("kafka: %d messages for %d commits (%v): %q", len(ms), len(commits), err, out)
			return
		}
		for i, m := range ms {
			fresh(c, m[2])
			payload(c, &message{topic: m[1], key: []byte(m[2]), value: []byte(m[3])}, persistence.CommitEntry{Key: commits[i].Key, Vector: commits[i].Vector, CommitID: m[2]}, topic)
		}
		c.Events(int64(len(ms)))
	case "redis":
		var err error
		out := capture(c, func() {
			var p core.Persister
			if p, err = persistence.BuildPersister("redis", opts); err == nil {
				err = p.CommitBatch(commits)
			}
		})
		lines := strings.Split(strings.TrimSpace(out), "\n")
		if err != nil || len(lines) != len(commits) {
			c.Fail("redis logging client: %d lines for %d commits (%v)", len(lines), len(commits), err)
			return
		}
		for i, l := range lines {
			if !strings.Contains(l, persistence.RedisCounterKey(commits[i].Key)) || !strings.Contains(l, fmt.Sprintf("ARGS=[%d ", commits[i].Vector)) {
				c.Fail("redis logging client printed %q for %v", l, commits[i])
			}
		}
		c.Events(int64(len(lines)))
	case "redis-wire":
		for i := range commits { // the model adds: keep in range
			commits[i].Vector = c.I64(-1000, 1000)
		}
		began := time.Now()
		d := newRedis(time.Now)
		streak, r := 0, c.Sub()
		var mu sync.Mutex
		pct := kit.Pick(c, 0, 0, 20)
		addr, stop, err := serveRedis(d, func() string {
			mu.Lock()
			defer mu.Unlock()
			if streak < 1 && r.IntN(100) < pct {
				streak++
				return []string{"before", "after"}[r.IntN(2)]
			}
			streak = 0
			return ""
		})
		if err != nil {
			c.Inconclusive()
			return
		}
		defer stop()
		opts.RedisAddr = addr
		p, err := persistence.BuildPersister("redis", opts)
		if err != nil {
			c.Fail("redis: %v", err)
			return
		}
		want := map[string]int64{}
		calls := c.Range(1, 3)
		for i := 0; i < calls; i++ {
			if err := p.CommitBatch(commits); err != nil {
				c.Fail("redis: %v", err)
				return
			}
			for _, m := range commits {
				want[m.Key] -= m.Vector
			}
		}
		if d.unsup != nil {
			c.Inconclusive()
			return
		}
		for k, v := range want {
			if got, num := scalarOf(d, k); !num || got != v {
				c.Fail("redis: scalar of %q is %d after %d batches, want %d", k, got, calls, v)
			}
		}
		lasts(c, d, opts.RedisMarkerTTL, time.Since(began))
		c.Events(int64(d.evals))
		stop()
		if err := p.CommitBatch(commits); err == nil {
			c.Fail("the redis server is gone, but the worker got no error")
		}
	}
}

func TestC19(t *testing.T) {
	kit.Quiet()
	kit.Run(t, "C19", kit.Part{Name: "forward", Fn: shimForward}, kit.Part{Name: "processes", Share: 0.005, Fn: shimProcs}, kit.Part{Name: "factory", Share: 0.1, Fn: factory})
}
