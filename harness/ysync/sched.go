// Package ysync stands in for package sync in code built to run under a schedule chosen from outside: one
// goroutine of a run goes at a time, and who goes next is decided at every lock.
package ysync

import (
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
)

// Sched runs a set of goroutines one at a time.
type Sched struct {
	// Pick is asked who goes on whenever more than one may: it gets who they are and whether the one at
	// hand (always the first) could go on itself.
	Pick  func(can []int, self bool) int
	th    []*thread
	cur   int
	done  chan struct{}
	Stuck bool // everyone waited for someone else
	Steps int
}

type thread struct {
	wake  chan struct{}
	state int // 0 may run, 1 waits, 2 ended
}

var active atomic.Pointer[Sched]

// Noise makes goroutines not under a schedule give way at random at every lock.
var Noise atomic.Bool

// Run runs fs under s and tells when all have ended or none can go on.
func (s *Sched) Run(fs []func()) {
	s.done = make(chan struct{})
	for range fs {
		s.th = append(s.th, &thread{wake: make(chan struct{}, 1)})
	}
	for i, f := range fs {
		go func() {
			<-s.th[i].wake
			f()
			s.th[i].state = 2
			s.next(false)
		}()
	}
	active.Store(s)
	s.cur = -1
	s.next(false)
	<-s.done
	active.Store(nil)
}

// next hands over to whoever is picked; self: the one at hand may go on itself. It tells whether that one goes on.
func (s *Sched) next(self bool) bool {
	var can []int
	if self {
		can = append(can, s.cur)
	}
	left := 0
	for i, t := range s.th {
		if t.state == 0 && (i != s.cur) {
			can = append(can, i)
		}
		if t.state != 2 {
			left++
		}
	}
	if len(can) == 0 {
		s.Stuck = left > 0
		close(s.done)
		return false
	}
	k := can[0]
	if len(can) > 1 {
		k = s.Pick(can, self)
	}
	s.Steps++
	if self && k == s.cur {
		return true
	}
	s.cur = k
	s.th[k].wake <- struct{}{}
	return false
}

func (s *Sched) point() {
	me := s.cur
	if !s.next(true) {
		<-s.th[me].wake
	}
}

func (s *Sched) block() {
	me := s.cur
	s.th[me].state = 1
	s.next(false)
	<-s.th[me].wake // for ever if nobody can go on
}

func (s *Sched) release() {
	for _, t := range s.th {
		if t.state == 1 {
			t.state = 0
		}
	}
}

// Point is a place where others may go first.
func Point() {
	if s := active.Load(); s != nil {
		s.point()
		return
	}
	if Noise.Load() {
		// nothing here may order the goroutines for the race detector
		for i := rand.Uint32() >> 29; i > 4; i-- {
			runtime.Gosched()
		}
	}
}

// Mutex is sync.Mutex.
type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	Point()
	s := active.Load()
	if s == nil {
		m.m.Lock()
		return
	}
	for !m.m.TryLock() {
		s.block()
	}
}

func (m *Mutex) TryLock() bool { Point(); return m.m.TryLock() }

func (m *Mutex) Unlock() {
	m.m.Unlock()
	if s := active.Load(); s != nil {
		s.release()
	}
}

// RWMutex is sync.RWMutex, with its rule that a waiting writer keeps new readers out.
type RWMutex struct {
	m    sync.RWMutex
	pend atomic.Int32
}

func (m *RWMutex) Lock() {
	Point()
	s := active.Load()
	if s == nil {
		m.m.Lock()
		return
	}
	if m.m.TryLock() {
		return
	}
	m.pend.Add(1)
	for !m.m.TryLock() {
		s.block()
	}
	m.pend.Add(-1)
}

func (m *RWMutex) TryLock() bool { Point(); return m.m.TryLock() }

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	if s := active.Load(); s != nil {
		s.release()
	}
}

func (m *RWMutex) RLock() {
	Point()
	s := active.Load()
	if s == nil {
		m.m.RLock()
		return
	}
	for m.pend.Load() > 0 || !m.m.TryRLock() {
		s.block()
	}
}

func (m *RWMutex) TryRLock() bool { Point(); return m.m.TryRLock() }

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	if s := active.Load(); s != nil {
		s.release()
	}
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// The rest of package sync.
type (
	Locker    = sync.Locker
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
)

// Once is sync.Once.
type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	Point()
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Cond is sync.Cond.
type Cond struct {
	L   Locker
	gen atomic.Uint64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	g := c.gen.Load()
	c.L.Unlock()
	for c.gen.Load() == g {
		if s := active.Load(); s != nil {
			s.block()
		} else {
			runtime.Gosched()
		}
	}
	c.L.Lock()
}

func (c *Cond) Signal() { c.Broadcast() }

func (c *Cond) Broadcast() {
	c.gen.Add(1)
	if s := active.Load(); s != nil {
		s.release()
	}
}

// Map is sync.Map.
type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool)              { Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                      { Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool)    { Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)     { Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                        { Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)           { Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool { Point(); return m.m.CompareAndSwap(k, old, new) }
func (m *Map) CompareAndDelete(k, old any) bool    { Point(); return m.m.CompareAndDelete(k, old) }
func (m *Map) Range(f func(key, value any) bool)   { Point(); m.m.Range(f) }
func (m *Map) Clear()                              { Point(); m.m.Clear() }
