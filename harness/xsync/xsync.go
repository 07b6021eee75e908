// Package xsync replaces package sync in the code under test: same API, with an injection
// point at every operation, and locks built on channels so that a goroutine waiting for one
// counts as blocked for testing/synctest (virtual time goes on, deadlocks are found).
package xsync

import (
	"sync"

	"vsa/internal/zzverif/xpoint"
)

type Locker = sync.Locker

// Mutex hands over to a random waiter.
type Mutex struct {
	mu     sync.Mutex
	locked bool
	wait   []chan struct{}
}

func (m *Mutex) Lock() {
	xpoint.Point()
	m.mu.Lock()
	if !m.locked {
		m.locked = true
		m.mu.Unlock()
		xpoint.Point()
		return
	}
	c := make(chan struct{})
	m.wait = append(m.wait, c)
	m.mu.Unlock()
	<-c
	xpoint.Point()
}

func (m *Mutex) TryLock() bool {
	xpoint.Point()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	xpoint.Point()
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.wait) == 0 {
		m.locked = false
		return
	}
	i := xpoint.Intn(len(m.wait))
	c := m.wait[i]
	m.wait = append(m.wait[:i], m.wait[i+1:]...)
	close(c)
}

// RWMutex: a waiting writer keeps new readers out, as in package sync.
type RWMutex struct {
	mu      sync.Mutex
	readers int
	writer  bool
	rwait   []chan struct{}
	wwait   []chan struct{}
}

func (m *RWMutex) RLock() {
	xpoint.Point()
	m.mu.Lock()
	if !m.writer && len(m.wwait) == 0 {
		m.readers++
		m.mu.Unlock()
		xpoint.Point()
		return
	}
	c := make(chan struct{})
	m.rwait = append(m.rwait, c)
	m.mu.Unlock()
	<-c
	xpoint.Point()
}

func (m *RWMutex) TryRLock() bool {
	xpoint.Point()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.wwait) > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	xpoint.Point()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.wakeWriter()
	}
}

func (m *RWMutex) wakeWriter() {
	if len(m.wwait) == 0 {
		return
	}
	i := xpoint.Intn(len(m.wwait))
	c := m.wwait[i]
	m.wwait = append(m.wwait[:i], m.wwait[i+1:]...)
	m.writer = true
	close(c)
}

func (m *RWMutex) Lock() {
	xpoint.Point()
	m.mu.Lock()
	if !m.writer && m.readers == 0 && len(m.wwait) == 0 {
		m.writer = true
		m.mu.Unlock()
		xpoint.Point()
		return
	}
	c := make(chan struct{})
	m.wwait = append(m.wwait, c)
	m.mu.Unlock()
	<-c
	xpoint.Point()
}

func (m *RWMutex) TryLock() bool {
	xpoint.Point()
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	xpoint.Point()
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	if len(m.rwait) > 0 {
		m.readers += len(m.rwait)
		for _, c := range m.rwait {
			close(c)
		}
		m.rwait = nil
		return
	}
	m.wakeWriter()
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type Once struct {
	m    Mutex
	done bool
	mu   sync.Mutex
}

func (o *Once) Do(f func()) {
	xpoint.Point()
	o.mu.Lock()
	d := o.done
	o.mu.Unlock()
	if d {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			o.mu.Lock()
			o.done = true
			o.mu.Unlock()
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var a T1
	var b T2
	return func() (T1, T2) { o.Do(func() { a, b = f() }); return a, b }
}

type WaitGroup struct{ w sync.WaitGroup }

func (w *WaitGroup) Add(n int) { xpoint.Point(); w.w.Add(n) }
func (w *WaitGroup) Done()     { xpoint.Point(); w.w.Done() }
func (w *WaitGroup) Wait()     { xpoint.Point(); w.w.Wait(); xpoint.Point() }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() { defer w.Done(); f() }()
}

type Cond struct {
	L    Locker
	mu   sync.Mutex
	wait []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.wait = append(c.wait, ch)
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}

func (c *Cond) Signal() {
	xpoint.Point()
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.wait) > 0 {
		close(c.wait[0])
		c.wait = c.wait[1:]
	}
}

func (c *Cond) Broadcast() {
	xpoint.Point()
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, ch := range c.wait {
		close(ch)
	}
	c.wait = nil
}

// Pool may drop anything at any time, which is allowed.
type Pool struct {
	New func() any
	p   sync.Pool
}

func (p *Pool) Get() any {
	xpoint.Point()
	v := p.p.Get()
	if v == nil && p.New != nil {
		v = p.New()
	}
	xpoint.Point()
	return v
}
func (p *Pool) Put(x any) { xpoint.Point(); p.p.Put(x) }

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) {
	xpoint.Point()
	v, ok := m.m.Load(k)
	xpoint.Point()
	return v, ok
}
func (m *Map) Store(k, v any) { xpoint.Point(); m.m.Store(k, v); xpoint.Point() }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	xpoint.Point()
	a, l := m.m.LoadOrStore(k, v)
	xpoint.Point()
	return a, l
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	xpoint.Point()
	a, l := m.m.LoadAndDelete(k)
	xpoint.Point()
	return a, l
}
func (m *Map) Delete(k any) { xpoint.Point(); m.m.Delete(k); xpoint.Point() }
func (m *Map) Swap(k, v any) (any, bool) {
	xpoint.Point()
	a, l := m.m.Swap(k, v)
	xpoint.Point()
	return a, l
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	xpoint.Point()
	r := m.m.CompareAndSwap(k, o, n)
	xpoint.Point()
	return r
}
func (m *Map) CompareAndDelete(k, o any) bool {
	xpoint.Point()
	r := m.m.CompareAndDelete(k, o)
	xpoint.Point()
	return r
}
func (m *Map) Range(f func(k, v any) bool) {
	xpoint.Point()
	m.m.Range(func(k, v any) bool {
		xpoint.Point()
		return f(k, v)
	})
	xpoint.Point()
}
func (m *Map) Clear() { xpoint.Point(); m.m.Clear() }
