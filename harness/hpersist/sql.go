package hpersist

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// A small transactional SQL store with the parts of PostgreSQL's semantics that matter here:
// read-committed statements, row locks kept until the transaction ends, unique keys that make an
// insert wait for a concurrent insert of the same key, re-evaluation of WHERE after a lock wait,
// deadlock detection, bigint range errors, and transactions that are dead after an error.

type sqlErr struct{ code, msg string }

func (e *sqlErr) Error() string { return "ERROR: " + e.msg + " (SQLSTATE " + e.code + ")" }

type column struct {
	name    string
	typ     string // text, bigint
	notNull bool
	def     any
}

type table struct {
	name string
	pk   string
	cols []column
	rows map[string]*row
}

type row struct {
	com   map[string]any // committed version, nil if none
	owner *dbtx
	pend  map[string]any // owner's version, nil: deleted or not written
	dirty bool
}

type sqlDB struct {
	mu    sync.Mutex
	tabs  map[string]*table
	unsup error
	// onCommit is called with the store locked, after a transaction's writes became visible.
	onCommit func(tag any)
	// hook is called before ("stmt", "begin", "commit", "rollback") and after ("stmt-done", "commit-done"); it may pause, and its error replaces the outcome.
	hook  func(ctx context.Context, what string, tag any) error
	cur   any // tag for contexts without one
	stmts int
	txs   int
}

type tagKey struct{}

func newSQL() *sqlDB {
	d := &sqlDB{tabs: map[string]*table{}}
	d.tabs["counters"] = &table{name: "counters", pk: "key", rows: map[string]*row{}, cols: []column{{"key", "text", true, nil}, {"scalar", "bigint", true, nil}, {"last_token", "bigint", false, nil}}}
	d.tabs["applied_commits"] = &table{name: "applied_commits", pk: "commit_id", rows: map[string]*row{}, cols: []column{{"commit_id", "text", true, nil}, {"key", "text", true, nil}, {"vc", "bigint", true, nil}, {"ts", "timestamptz", true, time.Unix(0, 0)}}}
	return d
}

type dbtx struct {
	d       *sqlDB
	tag     any
	locked  []*row
	aborted bool
	done    bool
	waitFor *dbtx
	ended   chan struct{}
}

func (d *sqlDB) begin(tag any) *dbtx { return &dbtx{d: d, tag: tag, ended: make(chan struct{})} }

// end finishes a transaction; the store is locked.
func (t *dbtx) end(commit bool) {
	if t.done {
		return
	}
	t.done = true
	wrote := false
	for _, r := range t.locked {
		if commit && r.dirty {
			r.com = r.pend
			wrote = true
		}
		r.owner, r.pend, r.dirty = nil, nil, false
	}
	for _, tb := range t.d.tabs {
		for k, r := range tb.rows {
			if r.com == nil && r.owner == nil {
				delete(tb.rows, k)
			}
		}
	}
	close(t.ended)
	if commit && wrote && t.d.onCommit != nil {
		t.d.onCommit(t.tag)
	}
}

func (t *dbtx) visible(r *row) map[string]any {
	if r.owner == t && r.dirty {
		return r.pend
	}
	return r.com
}

// await waits until no other transaction owns the row. The store is locked before and after.
func (t *dbtx) await(ctx context.Context, r *row) error {
	for r.owner != nil && r.owner != t {
		o := r.owner
		for w := o; w != nil; w = w.waitFor {
			if w == t {
				return &sqlErr{"40P01", "deadlock detected"}
			}
		}
		t.waitFor = o
		t.d.mu.Unlock()
		var err error
		select {
		case <-o.ended:
		case <-ctx.Done():
			err = ctx.Err()
		}
		t.d.mu.Lock()
		t.waitFor = nil
		if err != nil {
			return err
		}
	}
	return nil
}

// lock takes the row's lock, waiting for its owner.
func (t *dbtx) lock(ctx context.Context, r *row) error {
	if err := t.await(ctx, r); err != nil {
		return err
	}
	if r.owner == nil {
		r.owner = t
		t.locked = append(t.locked, r)
	}
	return nil
}

// ---- parsing ----

type stok struct {
	k, s string // id, num, str, par, op, eof
}

func sqlLex(q string) ([]stok, error) {
	var out []stok
	for i := 0; i < len(q); {
		ch := q[i]
		switch {
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case ch == '$':
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			out = append(out, stok{"par", q[i+1 : j]})
			i = j
		case ch == '\'':
			j := strings.IndexByte(q[i+1:], '\'')
			if j < 0 {
				return nil, unsupported("sql string")
			}
			out = append(out, stok{"str", q[i+1 : i+1+j]})
			i += j + 2
		case ch == '"':
			j := strings.IndexByte(q[i+1:], '"')
			if j < 0 {
				return nil, unsupported("sql identifier")
			}
			out = append(out, stok{"id", q[i+1 : i+1+j]})
			i += j + 2
		case ch >= '0' && ch <= '9':
			j := i
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			out = append(out, stok{"num", q[i:j]})
			i = j
		case ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9') {
				j++
			}
			out = append(out, stok{"id", strings.ToLower(q[i:j])})
			i = j
		default:
			op := ""
			for _, o := range []string{"<=", ">=", "<>", "!=", "::", "||", "<", ">", "=", "+", "-", "*", "(", ")", ",", ".", ";"} {
				if strings.HasPrefix(q[i:], o) {
					op = o
					break
				}
			}
			if op == "" {
				return nil, unsupported("sql character " + string(ch))
			}
			out = append(out, stok{"op", op})
			i += len(op)
		}
	}
	return append(out, stok{"eof", ""}), nil
}

type sexpr func(e *env) (any, error)

type env struct {
	row, excl map[string]any
	tab       string
	args      []any
	tx        *dbtx
}

type sqlParser struct {
	t    []stok
	i    int
	d    *sqlDB
	args []any
}

func (p *sqlParser) at(s string) bool { return p.t[p.i].s == s && p.t[p.i].k != "str" }
func (p *sqlParser) eat(ss ...string) bool {
	for j, s := range ss {
		if p.i+j >= len(p.t) || p.t[p.i+j].s != s || p.t[p.i+j].k == "str" {
			return false
		}
	}
	p.i += len(ss)
	return true
}
func (p *sqlParser) must(s string) {
	if !p.eat(s) {
		panic(unsupported(fmt.Sprintf("sql near %q (want %q)", p.t[p.i].s, s)))
	}
}
func (p *sqlParser) id() string {
	if p.t[p.i].k != "id" {
		panic(unsupported("sql near " + p.t[p.i].s))
	}
	p.i++
	return p.t[p.i-1].s
}

func (p *sqlParser) expr() sexpr { return p.or() }
func (p *sqlParser) or() sexpr {
	a := p.and()
	for p.eat("or") {
		l, r := a, p.and()
		a = func(e *env) (any, error) {
			x, err := l(e)
			if err != nil || x == true {
				return x, err
			}
			y, err := r(e)
			if err != nil || y == true {
				return y, err
			}
			if x == nil || y == nil {
				return nil, nil
			}
			return false, nil
		}
	}
	return a
}
func (p *sqlParser) and() sexpr {
	a := p.not()
	for p.eat("and") {
		l, r := a, p.not()
		a = func(e *env) (any, error) {
			x, err := l(e)
			if err != nil || x == false {
				return x, err
			}
			y, err := r(e)
			if err != nil || y == false {
				return y, err
			}
			if x == nil || y == nil {
				return nil, nil
			}
			return true, nil
		}
	}
	return a
}
func (p *sqlParser) not() sexpr {
	if p.eat("not") {
		a := p.not()
		return func(e *env) (any, error) {
			x, err := a(e)
			if b, ok := x.(bool); ok {
				return !b, err
			}
			return nil, err
		}
	}
	return p.cmp()
}
func (p *sqlParser) cmp() sexpr {
	a := p.sum()
	for {
		if p.eat("is", "not", "null") {
			l := a
			a = func(e *env) (any, error) { x, err := l(e); return x != nil, err }
			continue
		}
		if p.eat("is", "null") {
			l := a
			a = func(e *env) (any, error) { x, err := l(e); return x == nil, err }
			continue
		}
		distinct := 0
		if p.eat("is", "distinct", "from") {
			distinct = 1
		} else if p.eat("is", "not", "distinct", "from") {
			distinct = 2
		}
		op := ""
		if distinct == 0 {
			for _, o := range []string{"<=", ">=", "<>", "!=", "<", ">", "="} {
				if p.eat(o) {
					op = o
					break
				}
			}
			if op == "" {
				return a
			}
		}
		l, r := a, p.sum()
		a = func(e *env) (any, error) {
			x, err := l(e)
			if err != nil {
				return nil, err
			}
			y, err := r(e)
			if err != nil {
				return nil, err
			}
			if distinct > 0 && (x == nil || y == nil) {
				return ((x == nil) != (y == nil)) == (distinct == 1), nil
			}
			if x == nil || y == nil {
				return nil, nil
			}
			c := 0
			switch xv := x.(type) {
			case int64:
				yv, ok := y.(int64)
				if !ok {
					return nil, unsupported("comparison of different types")
				}
				if xv < yv {
					c = -1
				} else if xv > yv {
					c = 1
				}
			case string:
				yv, ok := y.(string)
				if !ok {
					return nil, unsupported("comparison of different types")
				}
				c = strings.Compare(xv, yv)
			default:
				return nil, unsupported("comparison")
			}
			switch {
			case distinct == 1:
				return c != 0, nil
			case distinct == 2:
				return c == 0, nil
			}
			switch op {
			case "<=":
				return c <= 0, nil
			case ">=":
				return c >= 0, nil
			case "<":
				return c < 0, nil
			case ">":
				return c > 0, nil
			case "=":
				return c == 0, nil
			}
			return c != 0, nil
		}
	}
}

func ints(x, y any) (int64, int64, error) {
	a, ok1 := x.(int64)
	b, ok2 := y.(int64)
	if !ok1 || !ok2 {
		return 0, 0, unsupported("arithmetic on other than bigint")
	}
	return a, b, nil
}

var errRange = &sqlErr{"22003", "bigint out of range"}

func (p *sqlParser) sum() sexpr {
	a := p.prod()
	for p.at("+") || p.at("-") {
		minus := p.at("-")
		p.i++
		l, r := a, p.prod()
		a = func(e *env) (any, error) {
			x, err := l(e)
			if err != nil {
				return nil, err
			}
			y, err := r(e)
			if err != nil || x == nil || y == nil {
				return nil, err
			}
			m, n, err := ints(x, y)
			if err != nil {
				return nil, err
			}
			if minus {
				if (n < 0 && m > math.MaxInt64+n) || (n > 0 && m < math.MinInt64+n) {
					return nil, errRange
				}
				return m - n, nil
			}
			if (n > 0 && m > math.MaxInt64-n) || (n < 0 && m < math.MinInt64-n) {
				return nil, errRange
			}
			return m + n, nil
		}
	}
	return a
}
func (p *sqlParser) prod() sexpr {
	a := p.unary()
	for p.eat("*") {
		l, r := a, p.unary()
		a = func(e *env) (any, error) {
			x, err := l(e)
			if err != nil {
				return nil, err
			}
			y, err := r(e)
			if err != nil || x == nil || y == nil {
				return nil, err
			}
			m, n, err := ints(x, y)
			if err != nil {
				return nil, err
			}
			if m != 0 && (m*n/m != n || m == -1 && n == math.MinInt64) {
				return nil, errRange
			}
			return m * n, nil
		}
	}
	return a
}
func (p *sqlParser) unary() sexpr {
	if p.eat("-") {
		a := p.unary()
		return func(e *env) (any, error) {
			x, err := a(e)
			if err != nil || x == nil {
				return nil, err
			}
			n, ok := x.(int64)
			if !ok {
				return nil, unsupported("minus")
			}
			if n == math.MinInt64 {
				return nil, errRange
			}
			return -n, nil
		}
	}
	a := p.atom()
	for p.eat("::") {
		t := p.id()
		if t != "bigint" && t != "int8" && t != "text" {
			panic(unsupported("cast to " + t))
		}
	}
	return a
}
func (p *sqlParser) atom() sexpr {
	t := p.t[p.i]
	switch t.k {
	case "num":
		p.i++
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			panic(unsupported("number " + t.s))
		}
		return func(*env) (any, error) { return n, nil }
	case "str":
		p.i++
		return func(*env) (any, error) { return t.s, nil }
	case "par":
		p.i++
		n, _ := strconv.Atoi(t.s)
		if n < 1 || n > len(p.args) {
			panic(&sqlErr{"42P02", "there is no parameter $" + t.s})
		}
		return func(e *env) (any, error) { return e.args[n-1], nil }
	case "op":
		if p.eat("(") {
			if p.at("select") {
				return p.sub(false)
			}
			a := p.expr()
			p.must(")")
			return a
		}
	case "id":
		p.i++
		switch t.s {
		case "exists":
			p.must("(")
			return p.sub(true)
		case "null":
			return func(*env) (any, error) { return nil, nil }
		case "true", "false":
			return func(*env) (any, error) { return t.s == "true", nil }
		case "coalesce", "greatest", "least":
			p.must("(")
			var as []sexpr
			for {
				as = append(as, p.expr())
				if !p.eat(",") {
					break
				}
			}
			p.must(")")
			return func(e *env) (any, error) {
				var best any
				for _, a := range as {
					x, err := a(e)
					if err != nil {
						return nil, err
					}
					if x == nil {
						continue
					}
					if best == nil {
						best = x
						if t.s == "coalesce" {
							return x, nil
						}
						continue
					}
					m, n, err := ints(best, x)
					if err != nil {
						return nil, err
					}
					if (t.s == "greatest") == (n > m) && n != m {
						best = x
					}
				}
				return best, nil
			}
		}
		name, src := t.s, ""
		if p.eat(".") {
			src, name = name, p.id()
		}
		if p.at("(") {
			panic(unsupported("function " + name))
		}
		return func(e *env) (any, error) {
			r := e.row
			if src == "excluded" {
				r = e.excl
			} else if src != "" && src != e.tab {
				return nil, unsupported("relation " + src)
			}
			v, ok := r[name]
			if !ok {
				return nil, &sqlErr{"42703", "column " + name + " does not exist"}
			}
			return v, nil
		}
	}
	panic(unsupported("sql near " + t.s))
}

// sub parses a subquery up to its closing parenthesis.
func (p *sqlParser) sub(exists bool) sexpr {
	p.must("select")
	_, es := p.exprList()
	p.must("from")
	tb := p.table()
	w := p.where()
	if p.eat("limit") {
		p.i++
	}
	p.must(")")
	return func(e *env) (any, error) {
		var out any
		n := 0
		for _, k := range e.tx.sorted(tb) {
			cur := e.tx.visible(tb.rows[k])
			if cur == nil {
				continue
			}
			m := map[string]any{}
			for k, v := range e.row {
				m[k] = v
			}
			for k, v := range cur {
				m[k] = v
			}
			in := &env{row: m, tab: tb.name, args: e.args, tx: e.tx}
			ok, err := truth(w(in))
			if err != nil {
				return nil, err
			}
			if !ok {
				continue
			}
			n++
			if out, err = es[0](in); err != nil {
				return nil, err
			}
		}
		if exists {
			return n > 0, nil
		}
		if n > 1 {
			return nil, &sqlErr{"21000", "more than one row returned by a subquery used as an expression"}
		}
		return out, nil
	}
}

type result struct {
	n    int64
	cols []string
	rows [][]any
}

func (p *sqlParser) table() *table {
	n := p.id()
	t := p.d.tabs[n]
	if t == nil {
		panic(&sqlErr{"42P01", "relation " + n + " does not exist"})
	}
	return t
}

func (p *sqlParser) where() sexpr {
	if p.eat("where") {
		return p.expr()
	}
	return func(*env) (any, error) { return true, nil }
}

type sassign struct {
	col string
	e   sexpr
}

func (p *sqlParser) assigns() []sassign {
	var out []sassign
	for {
		c := p.id()
		p.must("=")
		out = append(out, sassign{c, p.expr()})
		if !p.eat(",") {
			return out
		}
	}
}

func (p *sqlParser) exprList() ([]string, []sexpr) {
	var names []string
	var es []sexpr
	for {
		names = append(names, p.t[p.i].s)
		es = append(es, p.expr())
		if p.eat("as") {
			names[len(names)-1] = p.id()
		}
		if !p.eat(",") {
			return names, es
		}
	}
}

func (p *sqlParser) endOK() {
	p.eat(";")
	if p.t[p.i].k != "eof" {
		panic(unsupported("sql near " + p.t[p.i].s))
	}
}

func (tb *table) col(n string) *column {
	for i := range tb.cols {
		if tb.cols[i].name == n {
			return &tb.cols[i]
		}
	}
	return nil
}

func (tb *table) check(r map[string]any) error {
	for _, c := range tb.cols {
		v := r[c.name]
		if v == nil {
			if c.notNull {
				return &sqlErr{"23502", "null value in column " + c.name}
			}
			continue
		}
		switch c.typ {
		case "text":
			if _, ok := v.(string); !ok {
				return unsupported(fmt.Sprintf("%T for text", v))
			}
		case "bigint":
			if _, ok := v.(int64); !ok {
				return unsupported(fmt.Sprintf("%T for bigint", v))
			}
		}
	}
	return nil
}

func (t *dbtx) sorted(tb *table) []string {
	var ks []string
	for k := range tb.rows {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func truth(v any, err error) (bool, error) { b, _ := v.(bool); return b, err }

// exec runs one statement; the store is locked.
func (t *dbtx) exec(ctx context.Context, q string, args []any) (res result, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case unsupported:
				t.d.unsup, err = x, x
			case *sqlErr:
				err = x
			default:
				panic(r)
			}
		}
		if u, ok := err.(unsupported); ok {
			t.d.unsup = u
		}
		if err != nil {
			t.aborted = true
		}
	}()
	if t.aborted {
		return res, &sqlErr{"25P02", "current transaction is aborted, commands ignored until end of transaction block"}
	}
	toks, err := sqlLex(q)
	if err != nil {
		return res, err
	}
	for _, a := range args {
		if s, ok := a.(string); ok && strings.IndexByte(s, 0) >= 0 {
			return res, &sqlErr{"22021", "invalid byte sequence for encoding \"UTF8\": 0x00"}
		}
	}
	p := &sqlParser{t: toks, d: t.d, args: args}
	ev := func(tb *table, r, ex map[string]any) *env {
		return &env{row: r, excl: ex, tab: tb.name, args: args, tx: t}
	}
	ret := func(tb *table, names []string, es []sexpr, r map[string]any) error {
		if es == nil {
			return nil
		}
		var o []any
		for _, e := range es {
			v, err := e(ev(tb, r, nil))
			if err != nil {
				return err
			}
			o = append(o, v)
		}
		res.cols = names
		res.rows = append(res.rows, o)
		return nil
	}
	set := func(tb *table, r *row, as []sassign, cur, ex map[string]any) (map[string]any, error) {
		n := map[string]any{}
		for k, v := range cur {
			n[k] = v
		}
		for _, a := range as {
			if tb.col(a.col) == nil {
				return nil, &sqlErr{"42703", "column " + a.col + " does not exist"}
			}
			v, err := a.e(ev(tb, cur, ex))
			if err != nil {
				return nil, err
			}
			n[a.col] = v
		}
		if err := tb.check(n); err != nil {
			return nil, err
		}
		if n[tb.pk] != cur[tb.pk] {
			return nil, unsupported("change of a primary key")
		}
		r.pend, r.dirty = n, true
		return n, nil
	}
	switch {
	case p.eat("insert", "into"):
		tb := p.table()
		if p.eat("as") {
			panic(unsupported("alias"))
		}
		var cols []string
		p.must("(")
		for {
			cols = append(cols, p.id())
			if !p.eat(",") {
				break
			}
		}
		p.must(")")
		p.must("values")
		var vals [][]sexpr
		for {
			p.must("(")
			_, es := p.exprList()
			p.must(")")
			if len(es) != len(cols) {
				panic(&sqlErr{"42601", "INSERT has more target columns than expressions"})
			}
			vals = append(vals, es)
			if !p.eat(",") {
				break
			}
		}
		mode := "error"
		var as []sassign
		cond := func(*env) (any, error) { return true, nil }
		if p.eat("on", "conflict") {
			if p.eat("(") {
				c := p.id()
				p.must(")")
				if c != tb.pk {
					panic(&sqlErr{"42P10", "there is no unique or exclusion constraint matching the ON CONFLICT specification"})
				}
			}
			p.must("do")
			if p.eat("nothing") {
				mode = "nothing"
			} else {
				p.must("update")
				p.must("set")
				mode = "update"
				as = p.assigns()
				if p.at("where") {
					cond = p.where()
				}
			}
		}
		var names []string
		var es []sexpr
		if p.eat("returning") {
			names, es = p.exprList()
		}
		p.endOK()
		for _, vs := range vals {
			n := map[string]any{}
			for _, c := range tb.cols {
				n[c.name] = c.def
			}
			for i, c := range cols {
				if tb.col(c) == nil {
					return res, &sqlErr{"42703", "column " + c + " does not exist"}
				}
				if n[c], err = vs[i](ev(tb, nil, nil)); err != nil {
					return res, err
				}
			}
			if err := tb.check(n); err != nil {
				return res, err
			}
			k := n[tb.pk].(string)
			for {
				r := tb.rows[k]
				if r == nil {
					r = &row{owner: t, pend: n, dirty: true}
					tb.rows[k] = r
					t.locked = append(t.locked, r)
					res.n++
					if err := ret(tb, names, es, n); err != nil {
						return res, err
					}
					break
				}
				if cur := t.visible(r); cur == nil && r.owner == t { // deleted by this transaction
					r.pend, r.dirty = n, true
					res.n++
					break
				}
				if r.owner != nil && r.owner != t && (mode == "update" || r.com == nil || r.dirty && r.pend == nil) {
					// an insert or delete of the same key is in flight: wait for its outcome
					if err := t.await(ctx, r); err != nil {
						return res, err
					}
					continue
				}
				if mode == "error" {
					return res, &sqlErr{"23505", "duplicate key value violates unique constraint on " + tb.name}
				}
				if mode == "nothing" {
					break
				}
				if err := t.lock(ctx, r); err != nil {
					return res, err
				}
				cur := t.visible(r)
				ok, err := truth(cond(ev(tb, cur, n)))
				if err != nil {
					return res, err
				}
				if ok {
					nn, err := set(tb, r, as, cur, n)
					if err != nil {
						return res, err
					}
					res.n++
					if err := ret(tb, names, es, nn); err != nil {
						return res, err
					}
				}
				break
			}
		}
		return res, nil
	case p.at("update"), p.at("delete"):
		del := p.at("delete")
		p.i++
		if del {
			p.must("from")
		}
		tb := p.table()
		var as []sassign
		if !del {
			p.must("set")
			as = p.assigns()
		}
		w := p.where()
		var names []string
		var es []sexpr
		if p.eat("returning") {
			names, es = p.exprList()
		}
		p.endOK()
		for _, k := range t.sorted(tb) {
			r := tb.rows[k]
			if r == nil {
				continue
			}
			cur := t.visible(r)
			if cur == nil {
				continue
			}
			ok, err := truth(w(ev(tb, cur, nil)))
			if err != nil {
				return res, err
			}
			if !ok {
				continue
			}
			if r.owner != t {
				if err := t.lock(ctx, r); err != nil {
					return res, err
				}
				cur = t.visible(r)
				if cur == nil {
					continue
				}
				if ok, err = truth(w(ev(tb, cur, nil))); err != nil {
					return res, err
				}
				if !ok {
					continue
				}
			}
			nn := cur
			if del {
				r.pend, r.dirty = nil, true
			} else if nn, err = set(tb, r, as, cur, nil); err != nil {
				return res, err
			}
			res.n++
			if err := ret(tb, names, es, nn); err != nil {
				return res, err
			}
		}
		return res, nil
	case p.eat("select"):
		names, es := p.exprList()
		p.must("from")
		tb := p.table()
		w := p.where()
		forUpdate := p.eat("for", "update") || p.eat("for", "no", "key", "update")
		limit := -1
		if p.eat("limit") {
			limit, _ = strconv.Atoi(p.t[p.i].s)
			p.i++
			forUpdate = p.eat("for", "update") || forUpdate
		}
		p.endOK()
		res.cols = names
		for _, k := range t.sorted(tb) {
			r := tb.rows[k]
			if r == nil || limit >= 0 && len(res.rows) >= limit {
				continue
			}
			cur := t.visible(r)
			if cur == nil {
				continue
			}
			ok, err := truth(w(ev(tb, cur, nil)))
			if err != nil {
				return res, err
			}
			if ok && forUpdate {
				if err := t.lock(ctx, r); err != nil {
					return res, err
				}
				if cur = t.visible(r); cur == nil {
					continue
				}
				if ok, err = truth(w(ev(tb, cur, nil))); err != nil {
					return res, err
				}
			}
			if !ok {
				continue
			}
			if err := ret(tb, names, es, cur); err != nil {
				return res, err
			}
		}
		return res, nil
	}
	return res, unsupported("statement " + q)
}

// ---- database/sql driver ----

type connector struct{ d *sqlDB }

func (c connector) Connect(ctx context.Context) (driver.Conn, error) { return &conn{d: c.d}, nil }
func (c connector) Driver() driver.Driver                            { return nil }

type conn struct {
	d  *sqlDB
	tx *dbtx
	// broken: a connection that failed is not usable any more
	broken bool
}

func (c *conn) tag(ctx context.Context) any {
	if v := ctx.Value(tagKey{}); v != nil {
		return v
	}
	return c.d.cur
}

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &sqlStmt{c, q}, nil }
func (c *conn) Close() error {
	c.d.mu.Lock()
	defer c.d.mu.Unlock()
	if c.tx != nil {
		c.tx.end(false)
		c.tx = nil
	}
	return nil
}
func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }
func (c *conn) IsValid() bool             { return !c.broken }
func (c *conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	if o.Isolation > 2 { // above read committed
		c.d.mu.Lock()
		c.d.unsup = unsupported("isolation level")
		c.d.mu.Unlock()
	}
	tag := c.tag(ctx)
	if err := c.d.hook(ctx, "begin", tag); err != nil {
		return nil, err
	}
	if o.ReadOnly {
		return nil, unsupported("read-only transaction")
	}
	c.d.mu.Lock()
	c.tx = c.d.begin(tag)
	c.d.txs++
	c.d.mu.Unlock()
	return c, nil
}

func (c *conn) kill() {
	c.broken = true
	if c.tx != nil {
		c.d.mu.Lock()
		c.tx.end(false)
		c.d.mu.Unlock()
		c.tx = nil
	}
}

func (c *conn) Commit() error {
	if c.tx == nil {
		return driver.ErrBadConn
	}
	t := c.tx
	if err := c.d.hook(context.Background(), "commit", t.tag); err != nil {
		c.kill()
		return err
	}
	c.d.mu.Lock()
	ab := t.aborted
	t.end(!ab)
	c.tx = nil
	c.d.mu.Unlock()
	if err := c.d.hook(context.Background(), "commit-done", t.tag); err != nil {
		c.kill()
		return err
	}
	if ab {
		return errors.New("commit unexpectedly resulted in rollback")
	}
	return nil
}

func (c *conn) Rollback() error {
	if c.tx != nil {
		c.d.mu.Lock()
		c.tx.end(false)
		c.d.mu.Unlock()
		c.tx = nil
	}
	return nil
}

func (c *conn) run(ctx context.Context, q string, named []driver.NamedValue) (result, error) {
	args := make([]any, len(named))
	for _, n := range named {
		v := n.Value
		if b, ok := v.([]byte); ok {
			v = string(b)
		}
		args[n.Ordinal-1] = v
	}
	if c.broken {
		return result{}, errConn
	}
	auto := c.tx == nil
	tag := c.tag(ctx)
	if !auto {
		tag = c.tx.tag
	}
	if err := c.d.hook(ctx, "stmt", tag); err != nil {
		c.kill()
		return result{}, err
	}
	c.d.mu.Lock()
	t := c.tx
	if auto {
		t = c.d.begin(tag)
	}
	c.d.stmts++
	r, err := t.exec(ctx, q, args)
	if auto {
		t.end(err == nil)
	}
	c.d.mu.Unlock()
	if err != nil {
		return r, err
	}
	if err := c.d.hook(ctx, "stmt-done", tag); err != nil {
		c.kill()
		return result{}, err
	}
	return r, nil
}

func (c *conn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	r, err := c.run(ctx, q, a)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(r.n), nil
}

func (c *conn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	r, err := c.run(ctx, q, a)
	if err != nil {
		return nil, err
	}
	return &sqlRows{r: r}, nil
}

type sqlStmt struct {
	c *conn
	q string
}

func (s *sqlStmt) Close() error  { return nil }
func (s *sqlStmt) NumInput() int { return -1 }
func (s *sqlStmt) Exec(a []driver.Value) (driver.Result, error) {
	return s.ExecContext(context.Background(), nv(a))
}
func (s *sqlStmt) Query(a []driver.Value) (driver.Rows, error) {
	return s.QueryContext(context.Background(), nv(a))
}
func (s *sqlStmt) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.q, a)
}
func (s *sqlStmt) QueryContext(ctx context.Context, a []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.q, a)
}

func nv(a []driver.Value) []driver.NamedValue {
	var out []driver.NamedValue
	for i, v := range a {
		out = append(out, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	return out
}

type sqlRows struct {
	r result
	i int
}

func (r *sqlRows) Columns() []string { return r.r.cols }
func (r *sqlRows) Close() error      { return nil }
func (r *sqlRows) Next(dst []driver.Value) error {
	if r.i >= len(r.r.rows) {
		return io.EOF
	}
	for i, v := range r.r.rows[r.i] {
		dst[i] = v
	}
	r.i++
	return nil
}

// OpenSQL opens a database handle on a new SQL store.
func OpenSQL() *sql.DB {
	d := newSQL()
	d.hook = func(context.Context, string, any) error { return nil }
	d.onCommit = func(any) {}
	return sql.OpenDB(connector{d})
}
