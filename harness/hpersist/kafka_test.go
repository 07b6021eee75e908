package hpersist

import (
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"
	"unicode/utf8"

	"vsa/internal/ratelimiter/persistence"
	"vsa/internal/zzverif/kit"
	"vsa/internal/zzverif/xpoint"
)

type message struct {
	topic      string
	key, value []byte
	call       any
	sent       [2][]byte // key and value as they were passed: asynchronous producers send them later
	failed     bool      // the producer reported an error
	kept       bool      // the broker has it
}

type producer struct {
	mu    sync.Mutex
	msgs  []*message
	fault func() string
	pause func()
	torn  bool
}

var errBroker = errors.New("broker not available")

func (p *producer) Produce(ctx context.Context, topic string, key []byte, value []byte, headers map[string]string) error {
	m := &message{topic: topic, key: bytes.Clone(key), value: bytes.Clone(value), sent: [2][]byte{key, value}, call: ctx.Value(tagKey{})}
	f := p.fault()
	if err := ctx.Err(); err != nil {
		f = "before"
	}
	m.failed = f != ""
	m.kept = f != "before"
	p.mu.Lock()
	p.msgs = append(p.msgs, m)
	p.mu.Unlock()
	if p.pause != nil {
		p.pause()
	}
	if !bytes.Equal(m.key, key) || !bytes.Equal(m.value, value) {
		p.mu.Lock()
		p.torn = true
		p.mu.Unlock()
	}
	if err := ctx.Err(); err != nil && f == "before" {
		return err
	}
	if f != "" {
		return errBroker
	}
	return nil
}

func fffd(s string) string {
	b, _ := json.Marshal(s)
	var o string
	_ = json.Unmarshal(b, &o)
	return o
}

// payload checks that a message is exactly this entry.
func payload(c *kit.C, m *message, e persistence.CommitEntry, topic string) {
	if m.topic != topic {
		c.Fail("message to topic %q, want %q", m.topic, topic)
	}
	if m.sent[1] != nil && (!bytes.Equal(m.sent[0], m.key) || !bytes.Equal(m.sent[1], m.value)) {
		c.Fail("message %q with payload %q was changed to %q, %q after it had been handed to the producer", m.key, m.value, m.sent[0], m.sent[1])
	}
	if string(m.key) != e.CommitID {
		c.Fail("message key %q, want the commit id %q", m.key, e.CommitID)
	}
	dec := json.NewDecoder(bytes.NewReader(m.value))
	dec.UseNumber()
	var raw map[string]any
	if err := dec.Decode(&raw); err != nil || dec.More() {
		c.Fail("payload %q is not one JSON object: %v", m.value, err)
		return
	}
	var msg persistence.CommitMessage
	if err := json.Unmarshal(m.value, &msg); err != nil {
		c.Fail("payload %q does not decode: %v", m.value, err)
		return
	}
	if fmt.Sprint(raw["vc"]) != fmt.Sprint(e.Vector) || msg.Vector != e.Vector {
		c.Fail("payload %s has vector %v, want %d", m.value, raw["vc"], e.Vector)
	}
	tok, has := raw["fencing_token"]
	if has && tok == nil {
		has = false
	}
	if has != (e.FencingToken != nil) || has && fmt.Sprint(tok) != fmt.Sprint(*e.FencingToken) {
		c.Fail("payload %s has fencing token %v, want %v", m.value, tok, ptr(e.FencingToken))
	}
	for _, f := range []struct{ n, got, want string }{{"key", msg.Key, e.Key}, {"commit_id", msg.CommitID, e.CommitID}} {
		if s, _ := raw[f.n].(string); s != f.got {
			c.Fail("payload %s: field %s is %v", m.value, f.n, raw[f.n])
		}
		if f.got == f.want {
			continue
		}
		if !utf8.ValidString(f.want) && f.got == fffd(f.want) {
			c.FailAs("kafka-invalid-utf8", "payload %s carries %s %q for %q", m.value, f.n, f.got, f.want)
			continue
		}
		c.Fail("payload %s carries %s %q, want %q", m.value, f.n, f.got, f.want)
	}
}

func ptr(p *int64) string {
	if p == nil {
		return "none"
	}
	return fmt.Sprint(*p)
}

var jsonNames = append([]string{"<b>&", "\u2028\u2029", "\\u0041", "{\"key\":\"x\"}", "日本", "\x7f\x1b", strings.Repeat("long", 200), "e\u0301", "\U0001f600", "null"}, names...)

func kentry(c *kit.C, invalid bool) persistence.CommitEntry {
	str := func() string {
		for {
			s := jsonNames[c.IntN(len(jsonNames))]
			if c.Pct(30) {
				s = fmt.Sprintf("k%d", c.IntN(5))
			}
			if utf8.ValidString(s) || invalid {
				return s
			}
		}
	}
	e := persistence.CommitEntry{Key: str(), Vector: rvec(c)}
	if c.Pct(5) {
		e.Vector = math.MinInt64
	}
	for e.CommitID == "" {
		e.CommitID = str()
	}
	if c.Pct(40) {
		t := kit.Pick(c, 0, 1, -1, math.MaxInt64, math.MinInt64, c.I64(-100, 100), 1<<53+1)
		e.FencingToken = &t
	}
	return e
}

// kafkaSeq: one caller, failures at any message.
func kafkaSeq(c *kit.C) {
	pct := kit.Pick(c, 0, 15, 50)
	last := ""
	p := &producer{fault: func() string {
		last = ""
		if c.Pct(pct) {
			last = kit.Pick(c, "before", "after")
			c.Label("failure " + last)
		}
		return last
	}}
	topic := kit.Pick(c, "t", "vsa-commits", "", "a.b-c_1", "T T")
	k := persistence.NewKafkaPersister(p, topic)
	produced := 0
	invalid := c.Pct(2)
	for i := c.Range(1, 8); i > 0; i-- {
		n := c.Range(0, 6)
		if c.IntN(300) == 0 {
			n = c.Range(100, 1500)
			c.Label("bulk batches")
		}
		var es []persistence.CommitEntry
		for j := 0; j < n; j++ {
			es = append(es, kentry(c, invalid))
			if c.Pct(10) {
				es = append(es, es[c.IntN(len(es))])
			}
		}
		bad := -1
		if len(es) > 0 && c.Pct(15) {
			bad = c.IntN(len(es))
			es[bad].CommitID = ""
		}
		in := append([]persistence.CommitEntry{}, es...)
		start := len(p.msgs)
		ctx := context.Background()
		cancelled := false
		if c.Pct(5) {
			x, cancel := context.WithCancel(ctx)
			cancel()
			ctx, cancelled = x, true
		}
		last = ""
		t0 := time.Now()
		err := k.CommitBatch(ctx, es)
		t1 := time.Now()
		got := p.msgs[start:]
		c.Logf("%d entries, bad %d, cancelled %v, last fault %q -> %d messages, %v", len(es), bad, cancelled, last, len(got), err)
		for j := range es {
			if es[j] != in[j] {
				c.Fail("the caller's entries were changed")
			}
		}
		fails := 0
		for j, m := range got {
			if j >= len(es) {
				c.Fail("%d messages for %d entries", len(got), len(es))
				break
			}
			if bad >= 0 && j >= bad {
				c.Fail("a message was produced for or after the entry without commit id")
				break
			}
			payload(c, m, es[j], topic)
			var stamp struct {
				Ms int64 `json:"ts_unix_ms"`
			}
			const slack = 100 // the clock may be set
			if json.Unmarshal(m.value, &stamp) == nil && (stamp.Ms < t0.UnixMilli()-slack || stamp.Ms > t1.UnixMilli()+slack) {
				c.Fail("payload %s is stamped %d, produced %d..%d", m.value, stamp.Ms, t0.UnixMilli(), t1.UnixMilli())
			}
			if m.failed {
				fails++
				if j != len(got)-1 {
					c.Fail("production went on after a failed message")
				}
				if err == nil {
					c.Fail("a failed message was not reported")
				}
			}
		}
		if len(es) == 0 && (err != nil && !cancelled) {
			c.Fail("an empty batch reported %v", err)
		}
		if bad >= 0 && err == nil {
			c.Fail("an entry without commit id was accepted")
		}
		if bad >= 0 {
			c.Label("missing id")
		}
		if bad < 0 && fails == 0 && err != nil && !cancelled {
			c.Fail("nothing failed, but the call reported %v", err)
		}
		if err == nil && len(got) != len(es) {
			c.Fail("%d entries were acknowledged, but %d messages were produced", len(es), len(got))
		}
		produced += len(got)
		c.Hash(len(got), err == nil)
		for _, m := range got {
			c.Hash(string(m.key))
		}
	}
	c.Events(int64(produced))
	if produced == 0 {
		c.Trivial()
	}
	c.Desc("sequential, topic %q, failures %d%%, %d messages", topic, pct, produced)
}

type kcall struct {
	es   []persistence.CommitEntry
	done bool
}

// kafkaConc: concurrent callers that retry; a deduplicating consumer gets the exact totals.
func kafkaConc(c *kit.C) {
	c.Bubble(xpoint.Config{}, func() {
		var fmu sync.Mutex
		r := c.Sub()
		pct := kit.Pick(c, 0, 20, 50)
		p := &producer{fault: func() string {
			fmu.Lock()
			defer fmu.Unlock()
			if r.IntN(100) < pct {
				return []string{"before", "after"}[r.IntN(2)]
			}
			return ""
		}, pause: func() {
			fmu.Lock()
			d := time.Duration(r.IntN(10))
			fmu.Unlock()
			time.Sleep(d)
		}}
		k := persistence.NewKafkaPersister(p, "t")
		want := map[ck]int64{}
		var wg sync.WaitGroup
		var mu sync.Mutex
		var all []*kcall
		for g := c.Range(2, 4); g > 0; g-- {
			var batches [][]persistence.CommitEntry
			for i := c.Range(1, 3); i > 0; i-- {
				var es []persistence.CommitEntry
				for j := c.Range(1, 4); j > 0; j-- {
					e := kentry(c, false)
					id := ck{e.Key, e.CommitID}
					if v, ok := want[id]; ok {
						e.Vector = v
					}
					want[id] = e.Vector
					es = append(es, e)
				}
				batches = append(batches, es)
			}
			c.Go(&wg, func() {
				for _, es := range batches {
					for try := 0; ; try++ {
						if try > 5 {
							fmu.Lock()
							pct = 0
							fmu.Unlock()
						}
						call := &kcall{es: es}
						mu.Lock()
						all = append(all, call)
						mu.Unlock()
						err := k.CommitBatch(context.WithValue(context.Background(), tagKey{}, call), es)
						if err == nil {
							call.done = true
							break
						}
						if try > 20 {
							c.Fail("a working broker still fails: %v", err)
							break
						}
						c.Label("retry")
					}
				}
			})
		}
		wg.Wait()
		by := map[any][]*message{}
		for _, m := range p.msgs {
			by[m.call] = append(by[m.call], m)
		}
		for _, call := range all {
			ms := by[call]
			if len(ms) > len(call.es) || call.done && len(ms) != len(call.es) {
				c.Fail("%d messages for a call with %d entries", len(ms), len(call.es))
				continue
			}
			for i, m := range ms {
				payload(c, m, call.es[i], "t")
				if m.failed && i != len(ms)-1 {
					c.Fail("production went on after a failed message")
				}
			}
		}
		if p.torn {
			c.Fail("a message changed while it was being produced")
		}
		// the consumer
		seen := map[ck]bool{}
		total := map[string]int64{}
		dup := 0
		for _, m := range p.msgs {
			if !m.kept {
				continue
			}
			var msg persistence.CommitMessage
			_ = json.Unmarshal(m.value, &msg)
			id := ck{msg.Key, msg.CommitID}
			if seen[id] {
				dup++
				continue
			}
			seen[id] = true
			total[msg.Key] += msg.Vector
		}
		exp := map[string]int64{}
		for id, v := range want {
			exp[id.key] += v
		}
		for key, v := range exp {
			if total[key] != v {
				c.Fail("the consumer's total for %q is %d, want %d", key, total[key], v)
			}
		}
		if len(total) > len(exp) {
			c.Fail("the consumer saw keys that were never committed")
		}
		c.LabelN("duplicate", int64(dup))
		c.Events(int64(len(p.msgs)))
		c.Desc("%d calls, %d messages, %d duplicates", len(all), len(p.msgs), dup)
		var sig []string
		for _, m := range p.msgs {
			sig = append(sig, string(m.key))
		}
		c.Hash(sig)
	})
}

func TestC18(t *testing.T) {
	kit.Quiet()
	sort.Strings(jsonNames)
	kit.Run(t, "C18", kit.Part{Name: "sequential", Fn: kafkaSeq}, kit.Part{Name: "concurrent", Share: 0.5, Fn: kafkaConc})
}
