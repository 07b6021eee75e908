// Package hproc drives the real binaries over loopback sockets and signals.
package hproc

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"vsa/internal/zzverif/kit"
)

// proc is one run of a binary.
type proc struct {
	c      *kit.C
	cmd    *exec.Cmd
	addr   string
	dir    string
	n      int
	exited chan struct{}
	err    error
}

var bootMu sync.Mutex
var bootN int

// listen finds a free address. Each test process has a loopback address of its own, so that a port found free here is not taken by another one.
func listen() (net.Listener, error) {
	n := os.Getpid()
	if ln, err := net.Listen("tcp", fmt.Sprintf("127.%d.%d.%d:0", 1+n>>16&63, n>>8&255, 1+n%254)); err == nil {
		return ln, nil
	}
	return net.Listen("tcp", "127.0.0.1:0")
}

// launch starts the binary with the flag that names its address and waits until it answers.
func launch(c *kit.C, bin, addrFlag string, args ...string) *proc {
	return launchStalled(c, "", bin, addrFlag, args...)
}

// sometimes is a stall for part of the cases: few and short ones, anywhere.
func sometimes(c *kit.C) string {
	if !c.Pct(30) {
		return ""
	}
	return fmt.Sprintf("%d %d 4000 %d 4000 %d", c.IntN(1<<30), kit.Pick(c, 0, 5, 50), kit.Pick(c, 1, 30, 1000), c.Range(1, 20))
}

// launchStalled is launch with the code held up as the stall says (see package xstall), where that can be built.
func launchStalled(c *kit.C, stall string, bin, addrFlag string, args ...string) *proc {
	path := os.Getenv("VERIF_BIN_" + strings.ReplaceAll(bin, "-", "_"))
	if path == "" {
		panic("no binary " + bin)
	}
	if stall != "" {
		if s := os.Getenv("VERIF_BIN_" + strings.ReplaceAll(bin, "-", "_") + "_stalled"); s != "" {
			path = s
			c.Label("stalled")
		}
	}
	for try := 0; ; try++ {
		ln, err := listen()
		if err != nil {
			panic(err)
		}
		addr := ln.Addr().String()
		ln.Close()
		bootMu.Lock()
		bootN++
		n := bootN
		bootMu.Unlock()
		p := &proc{c: c, addr: addr, dir: os.Getenv("VERIF_SCRATCH"), n: n, exited: make(chan struct{})}
		p.cmd = exec.Command(path, append([]string{addrFlag + "=" + addr}, args...)...)
		p.cmd.Dir = p.dir
		p.cmd.Env = append(os.Environ(), fmt.Sprintf("GOMAXPROCS=%d", kit.Pick(c, 1, 2, 4, 8)), "VERIF_STALL="+stall)
		o, _ := os.Create(p.file("out"))
		e, _ := os.Create(p.file("err"))
		p.cmd.Stdout, p.cmd.Stderr = o, e
		if err := p.cmd.Start(); err != nil {
			panic(err)
		}
		o.Close()
		e.Close()
		go func() {
			p.err = p.cmd.Wait()
			close(p.exited)
		}()
		t0 := time.Now()
		for {
			conn, err := net.DialTimeout("tcp", addr, time.Second)
			if err == nil {
				conn.Close()
				return p
			}
			select {
			case <-p.exited:
				if try < 5 && strings.Contains(p.text("err")+p.text("out"), "address already in use") {
					goto again
				}
				p.remove()
				c.Fail("the service ended at start: %v\n%s", p.err, p.text("err"))
				return nil
			case <-time.After(3 * time.Millisecond):
			}
			if time.Since(t0) > 60*time.Second {
				p.kill()
				c.Fail("the service does not listen after a minute")
				return nil
			}
		}
	again:
		p.remove()
	}
}

func (p *proc) file(what string) string {
	return filepath.Join(p.dir, fmt.Sprintf("proc-%d.%s", p.n, what))
}

func (p *proc) text(what string) string {
	b, _ := os.ReadFile(p.file(what))
	return string(b)
}

func (p *proc) remove() { os.Remove(p.file("out")); os.Remove(p.file("err")) }

func (p *proc) kill() {
	_ = p.cmd.Process.Kill()
	<-p.exited
	e := p.text("err")
	for _, what := range []string{"WARNING: DATA RACE", "panic:", "http: panic serving", "fatal error:"} {
		if i := strings.Index(e, what); i >= 0 {
			p.c.Fail("crash or race: %s", e[i:min(len(e), i+8000)])
			break
		}
	}
	p.remove()
}

// alive tells whether the process has not ended.
func (p *proc) alive() bool {
	select {
	case <-p.exited:
		return false
	default:
		return true
	}
}

// wait waits for the end; a process that does not end is a violation.
func (p *proc) wait(what string) bool {
	select {
	case <-p.exited:
		return true
	case <-time.After(60 * time.Second):
		_ = p.cmd.Process.Signal(syscall.SIGQUIT)
		time.Sleep(300 * time.Millisecond)
		_ = p.cmd.Process.Kill()
		<-p.exited
		p.c.Fail("%s: the process had not ended a minute after the signal\n%s", what, tail(p.text("err"), 6000))
		return false
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// client is one keep-alive HTTP/1.1 connection, redialled when it breaks.
type client struct {
	addr string
	conn net.Conn
	r    *bufio.Reader
}

var errNotSent = errors.New("not sent")

func (k *client) dial() error {
	if k.conn != nil {
		return nil
	}
	conn, err := net.DialTimeout("tcp", k.addr, 5*time.Second)
	if err != nil {
		return err
	}
	k.conn, k.r = conn, bufio.NewReader(conn)
	return nil
}

func (k *client) close() {
	if k.conn != nil {
		k.conn.Close()
		k.conn = nil
	}
}

type answer struct {
	status int
	header http.Header
	body   []byte
}

// do sends one request; pause, if set, runs after the first half of the bytes has been sent.
// errNotSent means that the server cannot have seen the request.
func (k *client) do(method, path string, q url.Values, pause func()) (*answer, error) {
	if err := k.dial(); err != nil {
		return nil, errNotSent
	}
	u := path
	if len(q) > 0 {
		u += "?" + q.Encode()
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "%s %s HTTP/1.1\r\nHost: %s\r\nContent-Length: 0\r\n\r\n", method, u, k.addr)
	raw := b.Bytes()
	_ = k.conn.SetDeadline(time.Now().Add(60 * time.Second))
	if pause != nil {
		h := len(raw) / 2
		if _, err := k.conn.Write(raw[:h]); err != nil {
			k.close()
			return nil, errNotSent
		}
		pause()
		raw = raw[h:]
	}
	if _, err := k.conn.Write(raw); err != nil {
		k.close()
		return nil, err
	}
	resp, err := http.ReadResponse(k.r, &http.Request{Method: method})
	if err != nil {
		k.close()
		return nil, err
	}
	body, err := io.ReadAll(resp.Body)
	resp.Body.Close()
	if err != nil {
		k.close()
		return nil, err
	}
	if resp.Close {
		k.close()
	}
	return &answer{status: resp.StatusCode, header: resp.Header, body: body}, nil
}

// census is what clients know about each key.
type census struct {
	sync.Mutex
	m map[string]*count
}

type count struct {
	admitted, uncertain, denied, released, uncertainRel int64
}

func (s *census) at(key string, f func(*count)) {
	s.Lock()
	if s.m == nil {
		s.m = map[string]*count{}
	}
	e := s.m[key]
	if e == nil {
		e = &count{}
		s.m[key] = e
	}
	f(e)
	s.Unlock()
}
