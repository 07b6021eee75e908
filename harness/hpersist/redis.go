package hpersist

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"
)

// redisDB models one Redis database: strings and hashes with expiry, and atomic scripts
// whose effects before an error stay.
type redisDB struct {
	mu    sync.Mutex
	str   map[string]string
	hash  map[string]map[string]string
	exp   map[string]time.Time
	now   func() time.Time
	evals int
	unsup error
	touch map[string]bool // keys written
}

func newRedis(now func() time.Time) *redisDB {
	return &redisDB{str: map[string]string{}, hash: map[string]map[string]string{}, exp: map[string]time.Time{}, now: now, touch: map[string]bool{}}
}

func (d *redisDB) expire() {
	for k, t := range d.exp {
		if !d.now().Before(t) {
			delete(d.str, k)
			delete(d.hash, k)
			delete(d.exp, k)
		}
	}
}

func (d *redisDB) exists(k string) bool {
	_, a := d.str[k]
	_, b := d.hash[k]
	return a || b
}

// redisInt parses an integer as Redis does.
func redisInt(s string) (int64, error) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strconv.FormatInt(n, 10) != s {
		return 0, errors.New("ERR value is not an integer or out of range")
	}
	return n, nil
}

func addInt(a, b int64) (int64, error) {
	if (b > 0 && a > math.MaxInt64-b) || (b < 0 && a < math.MinInt64-b) {
		return 0, errors.New("ERR increment or decrement would overflow")
	}
	return a + b, nil
}

var errType = errors.New("WRONGTYPE Operation against a key holding the wrong kind of value")
var errArgs = errors.New("ERR wrong number of arguments for command")
var errSyntax = errors.New("ERR syntax error")

// do executes one command. Results: nil (null), int64, string (bulk), *luaTable{ok} for status.
func (d *redisDB) do(a []string) (any, error) {
	d.expire()
	ok := tab("ok", "OK")
	cmd := strings.ToUpper(a[0])
	need := map[string]int{"EXISTS": 2, "GET": 2, "DEL": 2, "SET": 3, "SETNX": 3, "SETEX": 4, "PSETEX": 4, "EXPIRE": 3, "PEXPIRE": 3, "TTL": 2, "PTTL": 2, "HINCRBY": 4,
		"INCRBY": 3, "DECRBY": 3, "INCR": 2, "HGET": 3, "HSET": 4, "HSETNX": 4, "HEXISTS": 3, "HDEL": 3, "PERSIST": 2, "HINCRBYFLOAT": 4}
	n, known := need[cmd]
	if !known {
		return nil, unsupported("redis command " + cmd)
	}
	if len(a) < n {
		return nil, errArgs
	}
	k := a[1]
	switch cmd {
	case "EXISTS":
		c := int64(0)
		for _, k := range a[1:] {
			if d.exists(k) {
				c++
			}
		}
		return c, nil
	case "GET":
		if d.hash[k] != nil {
			return nil, errType
		}
		if v, ok := d.str[k]; ok {
			return v, nil
		}
		return nil, nil
	case "DEL":
		c := int64(0)
		for _, k := range a[1:] {
			if d.exists(k) {
				c++
				d.touch[k] = true
			}
			delete(d.str, k)
			delete(d.hash, k)
			delete(d.exp, k)
		}
		return c, nil
	case "SET", "SETNX", "SETEX", "PSETEX":
		val := a[2]
		var ttl time.Duration
		nx, xx, keep := cmd == "SETNX", false, false
		if cmd == "SETEX" || cmd == "PSETEX" {
			n, err := redisInt(a[2])
			if err != nil {
				return nil, err
			}
			unit := time.Second
			if cmd == "PSETEX" {
				unit = time.Millisecond
			}
			if n <= 0 {
				return nil, errors.New("ERR invalid expire time in 'setex' command")
			}
			ttl, val = clampTTL(n, unit), a[3]
		}
		if cmd == "SET" {
			for i := 3; i < len(a); i++ {
				switch strings.ToUpper(a[i]) {
				case "NX":
					nx = true
				case "XX":
					xx = true
				case "KEEPTTL":
					keep = true
				case "EX", "PX":
					if i+1 >= len(a) {
						return nil, errSyntax
					}
					n, err := redisInt(a[i+1])
					if err != nil {
						return nil, err
					}
					if n <= 0 {
						return nil, errors.New("ERR invalid expire time in 'set' command")
					}
					unit := time.Second
					if strings.ToUpper(a[i]) == "PX" {
						unit = time.Millisecond
					}
					ttl = clampTTL(n, unit)
					i++
				case "GET", "EXAT", "PXAT":
					return nil, unsupported("SET " + a[i])
				default:
					return nil, errSyntax
				}
			}
		}
		if (nx && d.exists(k)) || (xx && !d.exists(k)) {
			if cmd == "SETNX" {
				return int64(0), nil
			}
			return nil, nil
		}
		delete(d.hash, k)
		if !keep {
			delete(d.exp, k)
		}
		d.str[k] = val
		d.touch[k] = true
		if ttl > 0 {
			d.exp[k] = d.now().Add(ttl)
		}
		if cmd == "SETNX" {
			return int64(1), nil
		}
		return ok, nil
	case "EXPIRE", "PEXPIRE":
		n, err := redisInt(a[2])
		if err != nil {
			return nil, err
		}
		if len(a) > 3 {
			return nil, unsupported("EXPIRE options")
		}
		if !d.exists(k) {
			return int64(0), nil
		}
		unit := time.Second
		if cmd == "PEXPIRE" {
			unit = time.Millisecond
		}
		d.touch[k] = true
		if n <= 0 {
			delete(d.str, k)
			delete(d.hash, k)
			delete(d.exp, k)
		} else {
			d.exp[k] = d.now().Add(clampTTL(n, unit))
		}
		return int64(1), nil
	case "PERSIST":
		_, had := d.exp[k]
		delete(d.exp, k)
		if had {
			return int64(1), nil
		}
		return int64(0), nil
	case "TTL", "PTTL":
		if !d.exists(k) {
			return int64(-2), nil
		}
		t, has := d.exp[k]
		if !has {
			return int64(-1), nil
		}
		if cmd == "PTTL" {
			return t.Sub(d.now()).Milliseconds(), nil
		}
		return int64((t.Sub(d.now()) + time.Second/2) / time.Second), nil
	case "INCRBY", "DECRBY", "INCR":
		if d.hash[k] != nil {
			return nil, errType
		}
		by := int64(1)
		if cmd != "INCR" {
			n, err := redisInt(a[2])
			if err != nil {
				return nil, err
			}
			by = n
		}
		if cmd == "DECRBY" {
			if by == math.MinInt64 {
				return nil, errors.New("ERR decrement would overflow")
			}
			by = -by
		}
		cur := int64(0)
		if v, ok := d.str[k]; ok {
			n, err := redisInt(v)
			if err != nil {
				return nil, err
			}
			cur = n
		}
		s, err := addInt(cur, by)
		if err != nil {
			return nil, err
		}
		d.str[k] = strconv.FormatInt(s, 10)
		d.touch[k] = true
		return s, nil
	}
	if _, is := d.str[k]; is {
		return nil, errType
	}
	h := d.hash[k]
	switch cmd {
	case "HGET":
		if v, ok := h[a[2]]; ok {
			return v, nil
		}
		return nil, nil
	case "HEXISTS":
		if _, ok := h[a[2]]; ok {
			return int64(1), nil
		}
		return int64(0), nil
	}
	d.touch[k] = true
	if cmd == "HDEL" {
		c := int64(0)
		for _, f := range a[2:] {
			if _, ok := h[f]; ok {
				c++
			}
			delete(h, f)
		}
		if h != nil && len(h) == 0 {
			delete(d.hash, k)
			delete(d.exp, k)
		}
		return c, nil
	}
	cur, by := int64(0), int64(0)
	if cmd == "HINCRBY" {
		var err error
		if by, err = redisInt(a[3]); err != nil {
			return nil, err
		}
		if v, ok := h[a[2]]; ok {
			if cur, err = redisInt(v); err != nil {
				return nil, errors.New("ERR hash value is not an integer")
			}
		}
		if cur, err = addInt(cur, by); err != nil {
			return nil, err
		}
	}
	if h == nil {
		h = map[string]string{}
		d.hash[k] = h
	}
	switch cmd {
	case "HINCRBY":
		h[a[2]] = strconv.FormatInt(cur, 10)
		return cur, nil
	case "HINCRBYFLOAT":
		c, by := 0.0, 0.0
		var err error
		if v, ok := h[a[2]]; ok {
			if c, err = strconv.ParseFloat(v, 64); err != nil {
				return nil, errors.New("ERR hash value is not a float")
			}
		}
		if by, err = strconv.ParseFloat(a[3], 64); err != nil {
			return nil, errors.New("ERR value is not a valid float")
		}
		h[a[2]] = strconv.FormatFloat(c+by, 'f', -1, 64)
		return h[a[2]], nil
	case "HSET":
		c := int64(0)
		if len(a)%2 != 0 {
			return nil, errArgs
		}
		for i := 2; i+1 < len(a); i += 2 {
			if _, ok := h[a[i]]; !ok {
				c++
			}
			h[a[i]] = a[i+1]
		}
		return c, nil
	case "HSETNX":
		if _, ok := h[a[2]]; ok {
			return int64(0), nil
		}
		h[a[2]] = a[3]
		return int64(1), nil
	}
	return nil, unsupported(cmd)
}

func clampTTL(n int64, unit time.Duration) time.Duration {
	if n > int64(200*365*24*time.Hour/unit) {
		return 200 * 365 * 24 * time.Hour
	}
	return time.Duration(n) * unit
}

// eval runs a script atomically.
func (d *redisDB) eval(script string, keys, argv []string) (any, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.evals++
	r, err := luaRun(script, keys, argv, func(a []string) (any, error) {
		v, err := d.do(a)
		if err != nil {
			return nil, err
		}
		switch x := v.(type) {
		case int64:
			return float64(x), nil
		case nil:
			return false, nil
		}
		return v, nil
	})
	if u, ok := err.(unsupported); ok {
		d.unsup = u
	}
	if f, ok := r.(float64); ok {
		return cInt(f), err
	}
	if b, ok := r.(bool); ok {
		if b {
			return int64(1), err
		}
		return nil, err
	}
	return r, err
}

// argString renders an argument as go-redis does.
func argString(v any) (string, error) {
	switch x := v.(type) {
	case nil:
		return "", nil
	case string:
		return x, nil
	case []byte:
		return string(x), nil
	case int:
		return strconv.Itoa(x), nil
	case int64:
		return strconv.FormatInt(x, 10), nil
	case int32:
		return strconv.FormatInt(int64(x), 10), nil
	case uint64:
		return strconv.FormatUint(x, 10), nil
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64), nil
	case bool:
		if x {
			return "1", nil
		}
		return "0", nil
	case time.Duration:
		return strconv.FormatInt(x.Nanoseconds(), 10), nil
	}
	return "", fmt.Errorf("redis: can't marshal %T", v)
}

var errConn = errors.New("connection reset by peer")

// evaler is the client: it may fail before or after the server executed the call.
type evaler struct {
	d *redisDB
	// fault says what happens to call n: "", "before", "after".
	fault func(n int) string
	pause func()
	mu    sync.Mutex
	n     int
	lost  int
}

func (e *evaler) Eval(ctx context.Context, script string, keys []string, args ...interface{}) (interface{}, error) {
	e.mu.Lock()
	n := e.n
	e.n++
	e.mu.Unlock()
	var ss []string
	for _, a := range args {
		s, err := argString(a)
		if err != nil {
			return nil, err
		}
		ss = append(ss, s)
	}
	f := ""
	if e.fault != nil {
		f = e.fault(n)
	}
	if ctx != nil && ctx.Err() != nil {
		return nil, ctx.Err()
	}
	if e.pause != nil {
		e.pause()
	}
	if f == "before" {
		return nil, errConn
	}
	r, err := e.d.eval(script, keys, ss)
	if e.pause != nil {
		e.pause()
	}
	if f == "after" {
		e.mu.Lock()
		e.lost++
		e.mu.Unlock()
		return nil, errConn
	}
	return r, err
}

// serveRedis speaks RESP2 on a loopback socket. drop says, per command that carries a script,
// whether the connection breaks "before" or "after" it is executed.
func serveRedis(d *redisDB, drop func() string) (addr string, stop func(), err error) {
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return "", nil, err
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	conns := map[net.Conn]bool{}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			c, err := ln.Accept()
			if err != nil {
				return
			}
			mu.Lock()
			conns[c] = true
			mu.Unlock()
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					mu.Lock()
					delete(conns, c)
					mu.Unlock()
					c.Close()
				}()
				serveConn(d, c, drop)
			}()
		}
	}()
	return ln.Addr().String(), func() {
		ln.Close()
		mu.Lock()
		for c := range conns {
			c.Close()
		}
		mu.Unlock()
		wg.Wait()
	}, nil
}

func readCommand(r *bufio.Reader) ([]string, error) {
	line, err := r.ReadString('\n')
	if err != nil {
		return nil, err
	}
	if !strings.HasPrefix(line, "*") {
		return strings.Fields(line), nil
	}
	n, err := strconv.Atoi(strings.TrimSpace(line[1:]))
	if err != nil {
		return nil, err
	}
	var out []string
	for i := 0; i < n; i++ {
		h, err := r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		m, err := strconv.Atoi(strings.TrimSpace(h[1:]))
		if err != nil {
			return nil, err
		}
		b := make([]byte, m+2)
		if _, err := io.ReadFull(r, b); err != nil {
			return nil, err
		}
		out = append(out, string(b[:m]))
	}
	return out, nil
}

func reply(w *bufio.Writer, v any, err error) {
	switch x := v.(type) {
	case nil:
		if err == nil {
			w.WriteString("$-1\r\n")
		}
	case int64:
		if err == nil {
			fmt.Fprintf(w, ":%d\r\n", x)
		}
	case string:
		if err == nil {
			fmt.Fprintf(w, "$%d\r\n%s\r\n", len(x), x)
		}
	case *luaTable:
		if err == nil {
			if s, ok := x.m["ok"].(string); ok {
				fmt.Fprintf(w, "+%s\r\n", s)
			} else {
				n := x.length()
				fmt.Fprintf(w, "*%d\r\n", n)
				for i := 1; i <= n; i++ {
					e := x.m[float64(i)]
					if f, ok := e.(float64); ok {
						e = cInt(f)
					}
					reply(w, e, nil)
				}
			}
		}
	}
	if err != nil {
		s := strings.Map(func(r rune) rune {
			if r == '\r' || r == '\n' {
				return ' '
			}
			return r
		}, err.Error())
		if i := strings.IndexByte(s, ' '); i <= 0 || s[:i] != strings.ToUpper(s[:i]) {
			s = "ERR " + s
		}
		fmt.Fprintf(w, "-%s\r\n", s)
	}
}

func serveConn(d *redisDB, c net.Conn, drop func() string) {
	r, w := bufio.NewReader(c), bufio.NewWriter(c)
	var queued [][]string
	multi := false
	for {
		a, err := readCommand(r)
		if err != nil || len(a) == 0 {
			return
		}
		cmd := strings.ToUpper(a[0])
		f := ""
		run := func(a []string) (any, error) {
			switch strings.ToUpper(a[0]) {
			case "EVAL", "EVALSHA", "EVAL_RO":
				if len(a) < 3 {
					return nil, errArgs
				}
				n, err := strconv.Atoi(a[2])
				if err != nil || n < 0 || 3+n > len(a) {
					return nil, errors.New("ERR Number of keys can't be greater than number of args")
				}
				script := a[1]
				if strings.ToUpper(a[0]) == "EVALSHA" {
					return nil, errors.New("NOSCRIPT No matching script. Please use EVAL.")
				}
				return d.eval(script, a[3:3+n], a[3+n:])
			}
			d.mu.Lock()
			defer d.mu.Unlock()
			v, err := d.do(a)
			if u, ok := err.(unsupported); ok {
				d.unsup = u
				err = errors.New("ERR " + u.Error())
			}
			return v, err
		}
		switch cmd {
		case "HELLO":
			reply(w, nil, errors.New("ERR unknown command 'HELLO'"))
		case "CLIENT", "SELECT", "AUTH", "SCRIPT":
			w.WriteString("+OK\r\n")
		case "PING":
			w.WriteString("+PONG\r\n")
		case "MULTI":
			multi, queued = true, nil
			w.WriteString("+OK\r\n")
		case "EXEC":
			if f = drop(); f == "before" {
				return
			}
			multi = false
			fmt.Fprintf(w, "*%d\r\n", len(queued))
			for _, q := range queued {
				v, err := run(q)
				reply(w, v, err)
			}
		default:
			if multi {
				queued = append(queued, a)
				w.WriteString("+QUEUED\r\n")
				break
			}
			if f = drop(); f == "before" {
				return
			} else if f == "error" {
				reply(w, nil, errors.New("ERR injected"))
				break
			}
			v, err := run(a)
			reply(w, v, err)
		}
		if f == "after" {
			return
		}
		if w.Flush() != nil {
			return
		}
	}
}

// Server is a Redis model on a loopback socket.
type Server struct {
	Addr string
	Stop func()
	db   *redisDB
}

// Serve starts a server; fault is asked before each command: "", "before" (break the connection),
// "after" (break it once executed) or "error" (refuse the command without effect).
func Serve(fault func() string) (*Server, error) {
	d := newRedis(time.Now)
	addr, stop, err := serveRedis(d, fault)
	return &Server{Addr: addr, Stop: stop, db: d}, err
}

// Scalars returns every counter's stored scalar and whether a command was outside the model.
func (s *Server) Scalars() (map[string]int64, error) {
	s.db.mu.Lock()
	defer s.db.mu.Unlock()
	out := map[string]int64{}
	for k, h := range s.db.hash {
		if key, ok := strings.CutPrefix(k, "counter:"); ok {
			n, err := redisInt(h["scalar"])
			if err != nil {
				return nil, fmt.Errorf("counter %q has scalar %q", key, h["scalar"])
			}
			out[key] = n
		}
	}
	return out, s.db.unsup
}

// Executed is the number of scripts run.
func (s *Server) Executed() int { s.db.mu.Lock(); defer s.db.mu.Unlock(); return s.db.evals }

// Markers returns the time at which each key that is not a counter expires; zero if never.
func (s *Server) Markers() map[string]time.Time {
	s.db.mu.Lock()
	defer s.db.mu.Unlock()
	out := map[string]time.Time{}
	for k := range s.db.str {
		out[k] = s.db.exp[k]
	}
	return out
}
