// Package hpersist drives the persistence adapters against models of their backends.
package hpersist

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// A small interpreter of the part of Lua 5.1 that Redis scripts use, so that the adapter's real
// script is executed, whatever it says. Anything outside that part is unsupported, never guessed.

type unsupported string

func (u unsupported) Error() string { return "unsupported: " + string(u) }

type luaError struct{ v any }

func (e luaError) Error() string { return fmt.Sprint(e.v) }

type luaTable struct {
	m map[any]any
}

type luaFunc func(args []any) []any

type tok struct {
	k string // name, num, str, op, kw, eof
	s string
	n float64
}

var luaKw = map[string]bool{}

func init() {
	for _, k := range strings.Fields("and break do else elseif end false for function if in local nil not or repeat return then true until while") {
		luaKw[k] = true
	}
}

func luaLex(src string) []tok {
	var out []tok
	i := 0
	long := func(j int) (string, int, bool) { // [[...]] or [=[...]=]
		k := j + 1
		for k < len(src) && src[k] == '=' {
			k++
		}
		if k >= len(src) || src[k] != '[' {
			return "", 0, false
		}
		end := "]" + strings.Repeat("=", k-j-1) + "]"
		e := strings.Index(src[k+1:], end)
		if e < 0 {
			panic(luaError{"unfinished long string"})
		}
		return src[k+1 : k+1+e], k + 1 + e + len(end), true
	}
	for i < len(src) {
		ch := src[i]
		switch {
		case ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r':
			i++
		case strings.HasPrefix(src[i:], "--"):
			i += 2
			if i < len(src) && src[i] == '[' {
				if _, e, ok := long(i); ok {
					i = e
					continue
				}
			}
			for i < len(src) && src[i] != '\n' {
				i++
			}
		case ch == '[':
			if s, e, ok := long(i); ok {
				out = append(out, tok{k: "str", s: s})
				i = e
				continue
			}
			out = append(out, tok{k: "op", s: "["})
			i++
		case ch == '_' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z':
			j := i
			for j < len(src) && (src[j] == '_' || src[j] >= 'a' && src[j] <= 'z' || src[j] >= 'A' && src[j] <= 'Z' || src[j] >= '0' && src[j] <= '9') {
				j++
			}
			k := "name"
			if luaKw[src[i:j]] {
				k = "kw"
			}
			out = append(out, tok{k: k, s: src[i:j]})
			i = j
		case ch >= '0' && ch <= '9' || ch == '.' && i+1 < len(src) && src[i+1] >= '0' && src[i+1] <= '9':
			j := i
			for j < len(src) && (strings.IndexByte("0123456789abcdefABCDEFxX.", src[j]) >= 0 || (src[j] == '-' || src[j] == '+') && (src[j-1] == 'e' || src[j-1] == 'E')) {
				j++
			}
			n, ok := luaNumber(src[i:j])
			if !ok {
				panic(luaError{"malformed number"})
			}
			out = append(out, tok{k: "num", n: n, s: src[i:j]})
			i = j
		case ch == '"' || ch == '\'':
			var b strings.Builder
			j := i + 1
			for j < len(src) && src[j] != ch {
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					case '\\', '"', '\'':
						b.WriteByte(src[j])
					default:
						if src[j] >= '0' && src[j] <= '9' {
							n, k := 0, 0
							for k < 3 && j < len(src) && src[j] >= '0' && src[j] <= '9' {
								n = n*10 + int(src[j]-'0')
								j++
								k++
							}
							b.WriteByte(byte(n))
							continue
						}
						panic(unsupported("escape"))
					}
				} else {
					b.WriteByte(src[j])
				}
				j++
			}
			out = append(out, tok{k: "str", s: b.String()})
			i = j + 1
		default:
			done := false
			for _, op := range []string{"...", "..", "==", "~=", "<=", ">=", "+", "-", "*", "/", "%", "^", "#", "<", ">", "=", "(", ")", "{", "}", "]", ";", ":", ",", "."} {
				if strings.HasPrefix(src[i:], op) {
					out = append(out, tok{k: "op", s: op})
					i += len(op)
					done = true
					break
				}
			}
			if !done {
				panic(luaError{"unexpected symbol near " + string(ch)})
			}
		}
	}
	return append(out, tok{k: "eof"})
}

func luaNumber(s string) (float64, bool) {
	s = strings.TrimSpace(s)
	neg := strings.HasPrefix(s, "-")
	u := strings.TrimPrefix(s, "-")
	if strings.HasPrefix(u, "0x") || strings.HasPrefix(u, "0X") {
		n, err := strconv.ParseUint(u[2:], 16, 64)
		f := float64(n)
		if neg {
			f = -f
		}
		return f, err == nil
	}
	if u == "" || strings.ContainsAny(u, "_iInNpP") {
		return 0, false
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil && !math.IsInf(f, 0) {
		return 0, false
	}
	return f, true
}

type scope struct {
	vars map[string]*any
	up   *scope
}

func (s *scope) find(n string) *any {
	for ; s != nil; s = s.up {
		if v, ok := s.vars[n]; ok {
			return v
		}
	}
	return nil
}

func newScope(up *scope) *scope { return &scope{map[string]*any{}, up} }

func (s *scope) def(n string, v any) { x := v; s.vars[n] = &x }

// statements and expressions are compiled to closures
type flow int

const (
	next flow = iota
	brk
	ret
)

type lua struct {
	t     []tok
	p     int
	steps int
	res   []any
}

type stmt func(l *lua, s *scope) flow
type expr func(l *lua, s *scope) any

func (l *lua) tick() {
	if l.steps++; l.steps > 200000 {
		panic(unsupported("script runs too long"))
	}
}

func (l *lua) peek() tok { return l.t[l.p] }
func (l *lua) is(s string) bool {
	t := l.peek()
	return (t.k == "op" || t.k == "kw") && t.s == s
}
func (l *lua) accept(s string) bool {
	if l.is(s) {
		l.p++
		return true
	}
	return false
}
func (l *lua) expect(s string) {
	if !l.accept(s) {
		panic(luaError{fmt.Sprintf("'%s' expected near '%s'", s, l.peek().s)})
	}
}
func (l *lua) name() string {
	t := l.peek()
	if t.k != "name" {
		panic(luaError{"name expected near " + t.s})
	}
	l.p++
	return t.s
}

func (l *lua) block() stmt {
	var ss []stmt
	for {
		if t := l.peek(); t.k == "eof" || l.is("end") || l.is("else") || l.is("elseif") || l.is("until") {
			break
		}
		if l.accept(";") {
			continue
		}
		last := l.is("return")
		ss = append(ss, l.stmt())
		if last {
			l.accept(";")
			break
		}
	}
	return func(l *lua, s *scope) flow {
		in := newScope(s)
		for _, x := range ss {
			l.tick()
			if f := x(l, in); f != next {
				return f
			}
		}
		return next
	}
}

func truthy(v any) bool { return v != nil && v != false }

func (l *lua) exprs() []expr {
	es := []expr{l.expr(0)}
	for l.accept(",") {
		es = append(es, l.expr(0))
	}
	return es
}

// multi is what a call in last position expands to.
type multi []any

func evalAll(l *lua, s *scope, es []expr) []any {
	var out []any
	for i, e := range es {
		v := e(l, s)
		if m, ok := v.(multi); ok {
			if i == len(es)-1 {
				out = append(out, m...)
				continue
			}
			v = one(m)
		}
		out = append(out, v)
	}
	return out
}

func one(v any) any {
	if m, ok := v.(multi); ok {
		if len(m) == 0 {
			return nil
		}
		return m[0]
	}
	return v
}

func (l *lua) function() expr {
	l.expect("(")
	var ps []string
	for !l.is(")") {
		if l.is("...") {
			panic(unsupported("varargs"))
		}
		ps = append(ps, l.name())
		if !l.accept(",") {
			break
		}
	}
	l.expect(")")
	b := l.block()
	l.expect("end")
	return func(l *lua, s *scope) any {
		return luaFunc(func(a []any) []any {
			in := newScope(s)
			for i, p := range ps {
				var v any
				if i < len(a) {
					v = a[i]
				}
				in.def(p, v)
			}
			l.res = nil
			if b(l, in) == ret {
				return l.res
			}
			return nil
		})
	}
}

func (l *lua) stmt() stmt {
	switch {
	case l.accept("if"):
		type arm struct {
			c expr
			b stmt
		}
		var arms []arm
		c := l.expr(0)
		l.expect("then")
		arms = append(arms, arm{c, l.block()})
		var els stmt
		for {
			if l.accept("elseif") {
				c := l.expr(0)
				l.expect("then")
				arms = append(arms, arm{c, l.block()})
				continue
			}
			if l.accept("else") {
				els = l.block()
			}
			l.expect("end")
			break
		}
		return func(l *lua, s *scope) flow {
			for _, a := range arms {
				if truthy(one(a.c(l, s))) {
					return a.b(l, s)
				}
			}
			if els != nil {
				return els(l, s)
			}
			return next
		}
	case l.accept("while"):
		c := l.expr(0)
		l.expect("do")
		b := l.block()
		l.expect("end")
		return func(l *lua, s *scope) flow {
			for truthy(one(c(l, s))) {
				l.tick()
				if f := b(l, s); f == brk {
					break
				} else if f == ret {
					return ret
				}
			}
			return next
		}
	case l.accept("repeat"):
		b := l.block()
		l.expect("until")
		c := l.expr(0)
		return func(l *lua, s *scope) flow {
			for {
				l.tick()
				if f := b(l, s); f == brk {
					break
				} else if f == ret {
					return ret
				}
				if truthy(one(c(l, s))) {
					break
				}
			}
			return next
		}
	case l.accept("do"):
		b := l.block()
		l.expect("end")
		return b
	case l.accept("break"):
		return func(*lua, *scope) flow { return brk }
	case l.accept("return"):
		var es []expr
		if t := l.peek(); !(t.k == "eof" || l.is("end") || l.is("else") || l.is("elseif") || l.is("until") || l.is(";")) {
			es = l.exprs()
		}
		return func(l *lua, s *scope) flow { l.res = evalAll(l, s, es); return ret }
	case l.accept("for"):
		n := l.name()
		if l.accept("=") {
			es := l.exprs()
			l.expect("do")
			b := l.block()
			l.expect("end")
			return func(l *lua, s *scope) flow {
				v := evalAll(l, s, es)
				from, to, step := num(v[0]), num(v[1]), 1.0
				if len(v) > 2 {
					step = num(v[2])
				}
				for i := from; (step > 0 && i <= to) || (step < 0 && i >= to); i += step {
					l.tick()
					in := newScope(s)
					in.def(n, i)
					if f := b(l, in); f == brk {
						break
					} else if f == ret {
						return ret
					}
				}
				return next
			}
		}
		ns := []string{n}
		for l.accept(",") {
			ns = append(ns, l.name())
		}
		l.expect("in")
		es := l.exprs()
		l.expect("do")
		b := l.block()
		l.expect("end")
		return func(l *lua, s *scope) flow {
			v := evalAll(l, s, es)
			f, ok := v[0].(luaFunc)
			if !ok {
				panic(luaError{"attempt to call a non-function in for"})
			}
			for {
				l.tick()
				r := f(nil)
				if len(r) == 0 || r[0] == nil {
					return next
				}
				in := newScope(s)
				for i, n := range ns {
					var x any
					if i < len(r) {
						x = r[i]
					}
					in.def(n, x)
				}
				if f := b(l, in); f == brk {
					return next
				} else if f == ret {
					return ret
				}
			}
		}
	case l.accept("function"):
		n := l.name()
		f := l.function()
		return func(l *lua, s *scope) flow { assign(s, n, f(l, s)); return next }
	case l.accept("local"):
		if l.accept("function") {
			n := l.name()
			f := l.function()
			return func(l *lua, s *scope) flow { s.def(n, nil); *s.find(n) = f(l, s); return next }
		}
		ns := []string{l.name()}
		for l.accept(",") {
			ns = append(ns, l.name())
		}
		var es []expr
		if l.accept("=") {
			es = l.exprs()
		}
		return func(l *lua, s *scope) flow {
			v := evalAll(l, s, es)
			for i, n := range ns {
				var x any
				if i < len(v) {
					x = v[i]
				}
				s.def(n, x)
			}
			return next
		}
	}
	// assignment or call
	type target struct {
		n    string
		t, k expr
	}
	var ts []target
	for {
		start := l.p
		e, tt := l.suffixed()
		if l.is("=") || l.is(",") {
			if tt == nil {
				if l.t[start].k != "name" || l.p != start+1 {
					panic(luaError{"cannot assign"})
				}
				ts = append(ts, target{n: l.t[start].s})
			} else {
				ts = append(ts, target{t: tt[0], k: tt[1]})
			}
			if l.accept(",") {
				continue
			}
			break
		}
		return func(l *lua, s *scope) flow { e(l, s); return next }
	}
	l.expect("=")
	es := l.exprs()
	return func(l *lua, s *scope) flow {
		v := evalAll(l, s, es)
		for i, t := range ts {
			var x any
			if i < len(v) {
				x = v[i]
			}
			if t.t == nil {
				assign(s, t.n, x)
			} else {
				tab, ok := one(t.t(l, s)).(*luaTable)
				if !ok {
					panic(luaError{"attempt to index a non-table"})
				}
				tab.m[one(t.k(l, s))] = x
			}
		}
		return next
	}
}

func assign(s *scope, n string, v any) {
	if p := s.find(n); p != nil {
		*p = v
		return
	}
	panic(luaError{"Script attempted to create global variable '" + n + "'"})
}

// suffixed parses a primary with its suffixes; if it ends in an index, its table and key are returned too.
func (l *lua) suffixed() (expr, []expr) {
	var e expr
	var idx []expr
	t := l.peek()
	switch {
	case t.k == "name":
		l.p++
		n := t.s
		e = func(l *lua, s *scope) any {
			if p := s.find(n); p != nil {
				return *p
			}
			panic(luaError{"Script attempted to access nonexistent global variable '" + n + "'"})
		}
	case l.accept("("):
		x := l.expr(0)
		l.expect(")")
		e = func(l *lua, s *scope) any { return one(x(l, s)) }
	default:
		panic(luaError{"unexpected symbol near '" + t.s + "'"})
	}
	for {
		base := e
		switch {
		case l.accept("."):
			n := l.name()
			k := func(*lua, *scope) any { return n }
			idx = []expr{base, k}
			e = func(l *lua, s *scope) any { return index(one(base(l, s)), n) }
		case l.accept("["):
			k := l.expr(0)
			l.expect("]")
			idx = []expr{base, k}
			e = func(l *lua, s *scope) any { return index(one(base(l, s)), one(k(l, s))) }
		case l.is("(") || l.peek().k == "str" || l.is("{"):
			idx = nil
			args := l.args()
			e = func(l *lua, s *scope) any { return call(one(base(l, s)), evalAll(l, s, args)) }
		case l.accept(":"):
			n := l.name()
			args := l.args()
			idx = nil
			e = func(l *lua, s *scope) any {
				self := one(base(l, s))
				return call(index(self, n), append([]any{self}, evalAll(l, s, args)...))
			}
		default:
			return e, idx
		}
	}
}

func (l *lua) args() []expr {
	if t := l.peek(); t.k == "str" {
		l.p++
		return []expr{func(*lua, *scope) any { return t.s }}
	}
	if l.is("{") {
		return []expr{l.expr(0)}
	}
	l.expect("(")
	var es []expr
	if !l.is(")") {
		es = l.exprs()
	}
	l.expect(")")
	return es
}

func call(f any, args []any) any {
	fn, ok := f.(luaFunc)
	if !ok {
		panic(luaError{fmt.Sprintf("attempt to call a %s value", typeName(f))})
	}
	return multi(fn(args))
}

var stringLib *luaTable

func index(t, k any) any {
	switch x := t.(type) {
	case *luaTable:
		return x.m[k]
	case string:
		return stringLib.m[k]
	}
	panic(luaError{fmt.Sprintf("attempt to index a %s value", typeName(t))})
}

func typeName(v any) string {
	switch v.(type) {
	case nil:
		return "nil"
	case bool:
		return "boolean"
	case float64:
		return "number"
	case string:
		return "string"
	case *luaTable:
		return "table"
	}
	return "function"
}

func num(v any) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case string:
		if n, ok := luaNumber(x); ok {
			return n
		}
	}
	panic(luaError{fmt.Sprintf("attempt to perform arithmetic on a %s value", typeName(v))})
}

func str(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case float64:
		return numStr(x)
	}
	panic(luaError{fmt.Sprintf("attempt to concatenate a %s value", typeName(v))})
}

// numStr is C's "%.14g".
func numStr(x float64) string { return cG(x, 14) }

func cG(x float64, p int) string {
	if math.IsInf(x, 1) {
		return "inf"
	}
	if math.IsInf(x, -1) {
		return "-inf"
	}
	if math.IsNaN(x) {
		return "nan"
	}
	if x == 0 {
		return "0"
	}
	e := strconv.FormatFloat(x, 'e', p-1, 64)
	i := strings.IndexByte(e, 'e')
	ex, _ := strconv.Atoi(e[i+1:])
	trim := func(s string) string {
		if strings.Contains(s, ".") {
			s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
		}
		return s
	}
	if ex < -4 || ex >= p {
		return trim(e[:i]) + fmt.Sprintf("e%+03d", ex)
	}
	return trim(strconv.FormatFloat(x, 'f', p-1-ex, 64))
}

var binPrec = map[string][2]int{"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3},
	"..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}, "^": {10, 9}}

func (l *lua) expr(limit int) expr {
	var e expr
	t := l.peek()
	switch {
	case l.accept("not"):
		x := l.expr(8)
		e = func(l *lua, s *scope) any { return !truthy(one(x(l, s))) }
	case l.accept("-"):
		x := l.expr(8)
		e = func(l *lua, s *scope) any { return -num(one(x(l, s))) }
	case l.accept("#"):
		x := l.expr(8)
		e = func(l *lua, s *scope) any {
			switch v := one(x(l, s)).(type) {
			case string:
				return float64(len(v))
			case *luaTable:
				return float64(v.length())
			}
			panic(luaError{"attempt to get length"})
		}
	case t.k == "num":
		l.p++
		e = func(*lua, *scope) any { return t.n }
	case t.k == "str":
		l.p++
		e = func(*lua, *scope) any { return t.s }
	case l.accept("nil"):
		e = func(*lua, *scope) any { return nil }
	case l.accept("true"):
		e = func(*lua, *scope) any { return true }
	case l.accept("false"):
		e = func(*lua, *scope) any { return false }
	case l.accept("function"):
		e = l.function()
	case l.accept("{"):
		type item struct{ k, v expr }
		var items []item
		for !l.is("}") {
			switch {
			case l.accept("["):
				k := l.expr(0)
				l.expect("]")
				l.expect("=")
				items = append(items, item{k, l.expr(0)})
			case l.peek().k == "name" && l.t[l.p+1].k == "op" && l.t[l.p+1].s == "=":
				n := l.name()
				l.expect("=")
				items = append(items, item{func(*lua, *scope) any { return n }, l.expr(0)})
			default:
				items = append(items, item{nil, l.expr(0)})
			}
			if !l.accept(",") && !l.accept(";") {
				break
			}
		}
		l.expect("}")
		e = func(l *lua, s *scope) any {
			t := &luaTable{map[any]any{}}
			n := 1.0
			for i, it := range items {
				v := it.v(l, s)
				if it.k != nil {
					t.m[one(it.k(l, s))] = one(v)
					continue
				}
				if m, ok := v.(multi); ok && i == len(items)-1 {
					for _, x := range m {
						t.m[n] = x
						n++
					}
					continue
				}
				t.m[n] = one(v)
				n++
			}
			return t
		}
	default:
		e, _ = l.suffixed()
	}
	for {
		o := l.peek()
		pr, ok := binPrec[o.s]
		if !ok || (o.k != "op" && o.k != "kw") || pr[0] <= limit {
			return e
		}
		l.p++
		a, b := e, l.expr(pr[1])
		op := o.s
		e = func(l *lua, s *scope) any {
			x := one(a(l, s))
			switch op {
			case "and":
				if !truthy(x) {
					return x
				}
				return one(b(l, s))
			case "or":
				if truthy(x) {
					return x
				}
				return one(b(l, s))
			}
			y := one(b(l, s))
			switch op {
			case "==":
				return x == y
			case "~=":
				return x != y
			case "..":
				return str(x) + str(y)
			case "<", ">", "<=", ">=":
				if sx, ok := x.(string); ok {
					sy, ok := y.(string)
					if !ok {
						panic(luaError{"attempt to compare string with " + typeName(y)})
					}
					c := strings.Compare(sx, sy)
					return op == "<" && c < 0 || op == ">" && c > 0 || op == "<=" && c <= 0 || op == ">=" && c >= 0
				}
				fx, ok1 := x.(float64)
				fy, ok2 := y.(float64)
				if !ok1 || !ok2 {
					panic(luaError{"attempt to compare " + typeName(x) + " with " + typeName(y)})
				}
				return op == "<" && fx < fy || op == ">" && fx > fy || op == "<=" && fx <= fy || op == ">=" && fx >= fy
			}
			m, n := num(x), num(y)
			switch op {
			case "+":
				return m + n
			case "-":
				return m - n
			case "*":
				return m * n
			case "/":
				return m / n
			case "%":
				return m - math.Floor(m/n)*n
			}
			return math.Pow(m, n)
		}
	}
}

func (t *luaTable) length() int {
	n := 0
	for {
		if v, ok := t.m[float64(n+1)]; !ok || v == nil {
			return n
		}
		n++
	}
}

func tab(kv ...any) *luaTable {
	t := &luaTable{map[any]any{}}
	for i := 0; i+1 < len(kv); i += 2 {
		t.m[kv[i]] = kv[i+1]
	}
	return t
}

func list(ss []string) *luaTable {
	t := &luaTable{map[any]any{}}
	for i, s := range ss {
		t.m[float64(i+1)] = s
	}
	return t
}

func argStr(a []any, i int) string {
	if i >= len(a) {
		panic(luaError{"bad argument: string expected, got no value"})
	}
	return str(a[i])
}

func init() {
	stringLib = tab()
	lib := map[string]luaFunc{
		"len":   func(a []any) []any { return []any{float64(len(argStr(a, 0)))} },
		"lower": func(a []any) []any { return []any{strings.ToLower(argStr(a, 0))} },
		"upper": func(a []any) []any { return []any{strings.ToUpper(argStr(a, 0))} },
		"rep":   func(a []any) []any { return []any{strings.Repeat(argStr(a, 0), int(num(a[1])))} },
		"sub": func(a []any) []any {
			s := argStr(a, 0)
			i, j := int(num(a[1])), -1
			if len(a) > 2 && a[2] != nil {
				j = int(num(a[2]))
			}
			if i < 0 {
				i = max(len(s)+i+1, 1)
			} else if i == 0 {
				i = 1
			}
			if j < 0 {
				j = len(s) + j + 1
			} else if j > len(s) {
				j = len(s)
			}
			if i > j {
				return []any{""}
			}
			return []any{s[i-1 : j]}
		},
		"byte": func(a []any) []any {
			s, i := argStr(a, 0), 1
			if len(a) > 1 {
				i = int(num(a[1]))
			}
			if i < 1 || i > len(s) {
				return nil
			}
			return []any{float64(s[i-1])}
		},
		"find": func(a []any) []any {
			s, p := argStr(a, 0), argStr(a, 1)
			plain := len(a) > 3 && truthy(a[3])
			if strings.HasPrefix(p, "^") && !plain && !strings.ContainsAny(p[1:], "^$()%.[]*+-?") {
				if strings.HasPrefix(s, p[1:]) {
					return []any{1.0, float64(len(p) - 1)}
				}
				return []any{nil}
			}
			if !plain && strings.ContainsAny(p, "^$()%.[]*+-?") && p != "-" {
				panic(unsupported("string.find pattern " + p))
			}
			i := strings.Index(s, p)
			if i < 0 {
				return []any{nil}
			}
			return []any{float64(i + 1), float64(i + len(p))}
		},
		"format": func(a []any) []any {
			f := argStr(a, 0)
			var b strings.Builder
			n := 1
			for i := 0; i < len(f); i++ {
				if f[i] != '%' {
					b.WriteByte(f[i])
					continue
				}
				j := i + 1
				for j < len(f) && strings.IndexByte("-+ #0123456789.", f[j]) >= 0 {
					j++
				}
				spec := f[i+1 : j]
				switch f[j] {
				case '%':
					b.WriteByte('%')
					n--
				case 's':
					if spec != "" {
						panic(unsupported("format"))
					}
					b.WriteString(tostring(a[n]))
				case 'd', 'i':
					fmt.Fprintf(&b, "%"+spec+"d", cInt(num(a[n])))
				case 'f':
					fmt.Fprintf(&b, "%"+spec+"f", num(a[n]))
				case 'g':
					p := 6
					if strings.HasPrefix(spec, ".") {
						p, _ = strconv.Atoi(spec[1:])
					} else if spec != "" {
						panic(unsupported("format"))
					}
					b.WriteString(cG(num(a[n]), p))
				default:
					panic(unsupported("format %" + string(f[j])))
				}
				n++
				i = j
			}
			return []any{b.String()}
		},
	}
	for k, f := range lib {
		stringLib.m[k] = f
	}
}

// cInt is the conversion of a double to a 64-bit integer as x86 does it.
func cInt(x float64) int64 {
	if x != x || x >= 9223372036854775808.0 || x < -9223372036854775808.0 {
		return math.MinInt64
	}
	return int64(x)
}

func tostring(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return strconv.FormatBool(x)
	case string, float64:
		return str(v)
	}
	return typeName(v)
}

// luaRun executes a script with the given redis.call.
func luaRun(src string, keys, argv []string, rcall func(args []string) (any, error)) (res any, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case luaError:
				err = x
			case unsupported:
				err = x
			default:
				panic(r)
			}
		}
	}()
	l := &lua{t: luaLex(src)}
	g := newScope(nil)
	doCall := func(a []any, protected bool) []any {
		var ss []string
		for _, x := range a {
			switch v := x.(type) {
			case string:
				ss = append(ss, v)
			case float64:
				if v == math.Trunc(v) && math.Abs(v) < 1e17 {
					ss = append(ss, strconv.FormatInt(int64(v), 10))
				} else {
					ss = append(ss, cG(v, 17))
				}
			default:
				panic(luaError{"Lua redis lib command arguments must be strings or integers"})
			}
		}
		if len(ss) == 0 {
			panic(luaError{"Please specify at least one argument for this redis lib call"})
		}
		r, err := rcall(ss)
		if err != nil {
			if u, ok := err.(unsupported); ok {
				panic(u)
			}
			if protected {
				return []any{tab("err", err.Error())}
			}
			panic(luaError{err.Error()})
		}
		return []any{r}
	}
	g.def("redis", tab(
		"call", luaFunc(func(a []any) []any { return doCall(a, false) }),
		"pcall", luaFunc(func(a []any) []any { return doCall(a, true) }),
		"error_reply", luaFunc(func(a []any) []any { return []any{tab("err", argStr(a, 0))} }),
		"status_reply", luaFunc(func(a []any) []any { return []any{tab("ok", argStr(a, 0))} }),
		"replicate_commands", luaFunc(func(a []any) []any { return []any{true} }),
		"log", luaFunc(func(a []any) []any { return nil }), "LOG_NOTICE", 2.0, "LOG_WARNING", 3.0, "LOG_DEBUG", 0.0, "LOG_VERBOSE", 1.0))
	g.def("KEYS", list(keys))
	g.def("ARGV", list(argv))
	g.def("string", stringLib)
	g.def("math", tab("huge", math.Inf(1),
		"floor", luaFunc(func(a []any) []any { return []any{math.Floor(num(a[0]))} }),
		"ceil", luaFunc(func(a []any) []any { return []any{math.Ceil(num(a[0]))} }),
		"abs", luaFunc(func(a []any) []any { return []any{math.Abs(num(a[0]))} }),
		"max", luaFunc(func(a []any) []any { return []any{math.Max(num(a[0]), num(a[1]))} }),
		"min", luaFunc(func(a []any) []any { return []any{math.Min(num(a[0]), num(a[1]))} })))
	g.def("table", tab("insert", luaFunc(func(a []any) []any {
		t := a[0].(*luaTable)
		if len(a) != 2 {
			panic(unsupported("table.insert"))
		}
		t.m[float64(t.length()+1)] = a[1]
		return nil
	})))
	g.def("tonumber", luaFunc(func(a []any) []any {
		if len(a) > 1 {
			panic(unsupported("tonumber base"))
		}
		if len(a) == 1 {
			switch x := a[0].(type) {
			case float64:
				return []any{x}
			case string:
				if n, ok := luaNumber(x); ok {
					return []any{n}
				}
			}
		}
		return []any{nil}
	}))
	g.def("tostring", luaFunc(func(a []any) []any { return []any{tostring(a[0])} }))
	g.def("type", luaFunc(func(a []any) []any { return []any{typeName(a[0])} }))
	g.def("error", luaFunc(func(a []any) []any { panic(luaError{a[0]}) }))
	g.def("assert", luaFunc(func(a []any) []any {
		if !truthy(a[0]) {
			panic(luaError{"assertion failed!"})
		}
		return a
	}))
	g.def("pairs", luaFunc(func(a []any) []any {
		t, ok := a[0].(*luaTable)
		if !ok {
			panic(luaError{"bad argument to pairs"})
		}
		var ks []any
		for k := range t.m {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		i := 0
		return []any{luaFunc(func([]any) []any {
			if i >= len(ks) {
				return nil
			}
			i++
			return []any{ks[i-1], t.m[ks[i-1]]}
		})}
	}))
	g.def("ipairs", luaFunc(func(a []any) []any {
		t, ok := a[0].(*luaTable)
		if !ok {
			panic(luaError{"bad argument to ipairs"})
		}
		i := 0
		return []any{luaFunc(func([]any) []any {
			i++
			v := t.m[float64(i)]
			if v == nil {
				return nil
			}
			return []any{float64(i), v}
		})}
	}))
	g.def("pcall", luaFunc(func(a []any) (out []any) {
		defer func() {
			if r := recover(); r != nil {
				e, ok := r.(luaError)
				if !ok {
					panic(r)
				}
				out = []any{false, tostring(e.v)}
			}
		}()
		return append([]any{true}, []any(call(a[0], a[1:]).(multi))...)
	}))
	b := l.block()
	if l.peek().k != "eof" {
		panic(luaError{"'<eof>' expected near '" + l.peek().s + "'"})
	}
	if b(l, g) == ret && len(l.res) > 0 {
		res = l.res[0]
	}
	if t, ok := res.(*luaTable); ok {
		if e, ok := t.m["err"]; ok {
			return nil, luaError{e}
		}
	}
	return res, nil
}
