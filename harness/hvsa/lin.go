// Package hvsa drives the counter.
package hvsa

import (
	"fmt"
	"sort"
	"strings"
)

// Kind of a counter operation.
type Kind uint8

const (
	Consume Kind = iota
	Refund
	Update
	Commit
	Check
	State
	Avail
	Release // a refund of one whose outcome is not observed
)

var kindName = [...]string{"consume", "refund", "update", "commit", "check", "state", "avail", "release"}

// Op is one observed call.
type Op struct {
	K         Kind
	Arg       int64
	Ok        bool
	R1, R2    int64
	Call, Ret int64
	G         int
	ID, After int // an op with After != 0 follows the op with that ID
}

func (o Op) String() string {
	s := fmt.Sprintf("g%d [%d,%d] %s(%d)", o.G, o.Call, o.Ret, kindName[o.K], o.Arg)
	switch o.K {
	case Consume, Refund:
		s += fmt.Sprintf("=%v", o.Ok)
	case Check:
		s += fmt.Sprintf("=%v,%d", o.Ok, o.R1)
	case State:
		s += fmt.Sprintf("=S%d,V%d", o.R1, o.R2)
	case Avail:
		s += fmt.Sprintf("=%d", o.R1)
	}
	return s
}

// SV is the model: budget S, pending net V.
type SV struct{ S, V int64 }

func abs(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// Denies says which additional denials of a consumption are legitimate.
type Denies func(m SV, n int64) bool

// Step applies o to m as observed; ok is false if the model can't give that result.
func Step(m SV, o *Op, mayDeny Denies) (SV, bool) {
	switch o.K {
	case Consume:
		can := o.Arg > 0 && m.S-abs(m.V) >= o.Arg
		if o.Ok {
			if !can {
				return m, false
			}
			m.V += o.Arg
			return m, true
		}
		return m, !can || (mayDeny != nil && mayDeny(m, o.Arg))
	case Refund:
		can := o.Arg > 0 && m.V > 0
		if can != o.Ok {
			return m, false
		}
		if can {
			m.V -= min(o.Arg, m.V)
		}
		return m, true
	case Update:
		m.V += o.Arg
		return m, true
	case Commit:
		return m.commit(o.Arg), true
	case Check:
		if o.Ok != (abs(m.V) >= o.Arg) {
			return m, false
		}
		return m, !o.Ok || o.R1 == m.V
	case State:
		return m, o.R1 == m.S && o.R2 == m.V
	case Avail:
		return m, o.R1 == m.S-abs(m.V)
	}
	if o.K == Release {
		if m.V > 0 {
			m.V--
		}
		return m, true
	}
	panic("kind")
}

func (m SV) commit(arg int64) SV {
	mag := abs(arg)
	if mag < 0 || mag > abs(m.V) {
		mag = abs(m.V)
	}
	m.S -= mag
	if m.V > 0 {
		m.V -= mag
	} else {
		m.V += mag
	}
	return m
}

type memo struct {
	set uint64
	m   SV
}

// Linearizable searches for a sequential order of ops that respects real time and explains
// every result. decided is false when the search was cut off.
func Linearizable(init SV, ops []Op, mayDeny Denies) (ok, decided bool) {
	n := len(ops)
	if n > 64 {
		panic("history too long")
	}
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	seen := map[memo]struct{}{}
	after := make([]int, n)
	for i := range ops {
		after[i] = -1
		for j := range ops {
			if ops[i].After != 0 && ops[j].ID == ops[i].After {
				after[i] = j
			}
		}
	}
	budget := 400000
	var rec func(set uint64, m SV) bool
	cut := false
	full := uint64(1)<<uint(n) - 1
	if n == 64 {
		full = ^uint64(0)
	}
	rec = func(set uint64, m SV) bool {
		if set == full {
			return true
		}
		k := memo{set, m}
		if _, ok := seen[k]; ok {
			return false
		}
		if budget--; budget < 0 {
			cut = true
			return false
		}
		seen[k] = struct{}{}
		first := int64(1) << 62
		for i := 0; i < n; i++ {
			if set&(1<<uint(i)) == 0 && ops[i].Ret < first {
				first = ops[i].Ret
			}
		}
		for i := 0; i < n; i++ {
			if set&(1<<uint(i)) != 0 {
				continue
			}
			if a := after[i]; a >= 0 && set&(1<<uint(a)) == 0 {
				continue
			}
			if ops[i].Call > first {
				break
			}
			if m2, ok := Step(m, &ops[i], mayDeny); ok && rec(set|1<<uint(i), m2) {
				return true
			}
			if cut {
				return false
			}
		}
		return false
	}
	ok = rec(0, init)
	return ok, ok || !cut
}

func dump(ops []Op) string {
	var b strings.Builder
	for _, o := range ops {
		b.WriteString("    " + o.String() + "\n")
	}
	return b.String()
}
