// Package vsync is what instrumented copies of the code under test are built against.
// Disabled, it is the standard library's sync package. Enabled (inside a testing/synctest
// bubble) every Yield may put the goroutine to sleep in virtual time, so that the order in
// which goroutines take their steps is a function of one drawn seed, and locks wait in
// virtual time too, so that a lock held by a sleeping goroutine does not stall the bubble.
package vsync

import (
	"runtime"
	gosync "sync"
	"sync/atomic"
	"time"
)

type (
	Map       = gosync.Map
	Pool      = gosync.Pool
	WaitGroup = gosync.WaitGroup
	Cond      = gosync.Cond
	Locker    = gosync.Locker
)

func NewCond(l Locker) *Cond                             { return gosync.NewCond(l) }
func OnceFunc(f func()) func()                           { return gosync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return gosync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return gosync.OnceValues(f) }

// Sched is one schedule: a seeded source of decisions.
type Sched struct {
	mu     gosync.Mutex
	state  uint64
	mode   int // 0 uniform naps, 1 rare long stalls, 2 mostly quiet
	perMil uint64
	unit   time.Duration
	n      int64
	naps   int64
	limit  int64
	Hung   atomic.Bool
}

var cur atomic.Pointer[Sched]

// New makes a schedule. unit is the typical nap; a stall is up to a thousand units.
func New(seed uint64, mode int, perMil int, unit time.Duration) *Sched {
	return &Sched{state: seed, mode: mode, perMil: uint64(perMil), unit: unit, limit: 400000}
}

func Enable(s *Sched) { cur.Store(s) }
func Disable()        { cur.Store(nil) }

// Counts returns how many yield points were passed and how many naps were taken.
func (s *Sched) Counts() (yields, naps int64) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.n, s.naps
}

func (s *Sched) next() uint64 {
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (s *Sched) decide() (time.Duration, bool) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.n++
	if s.n > s.limit {
		s.Hung.Store(true)
		return 0, true
	}
	if s.next()%1000 >= s.perMil {
		return 0, false
	}
	s.naps++
	r := s.next()
	switch s.mode {
	case 1:
		return s.unit * time.Duration(1+r%1000), false
	case 2:
		if r%16 == 0 {
			return s.unit * time.Duration(1+(r>>8)%1000), false
		}
		return s.unit * time.Duration(1+(r>>8)%8), false
	default:
		return s.unit * time.Duration(1+r%16), false
	}
}

// Yield is a point where another goroutine may run.
func Yield() {
	s := cur.Load()
	if s == nil {
		return
	}
	d, stop := s.decide()
	if stop {
		select {} // the bubble reports a deadlock: the case takes more steps than any terminating run
	}
	if d > 0 {
		time.Sleep(d)
	}
}

// Val splits a read-modify-write: the value is read, then others may run.
func Val[T any](v T) T {
	Yield()
	return v
}

// wait is one turn of a lock's waiting loop.
func wait(turn *int) {
	*turn++
	if *turn > 20000 {
		if s := cur.Load(); s != nil {
			s.Hung.Store(true)
		}
		select {}
	}
	d := time.Microsecond
	if *turn > 200 {
		d = time.Duration(*turn-199) * 20 * time.Microsecond
	}
	time.Sleep(d)
}

type Mutex struct{ m gosync.Mutex }

func (m *Mutex) Lock() {
	if cur.Load() == nil {
		m.m.Lock()
		return
	}
	for t := 0; !m.m.TryLock(); {
		wait(&t)
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

// RWMutex prefers writers as the real one does: while a writer waits, no new reader gets in.
type RWMutex struct {
	m       gosync.RWMutex
	waiting atomic.Int32
}

func (m *RWMutex) Lock() {
	if cur.Load() == nil {
		m.m.Lock()
		return
	}
	m.waiting.Add(1)
	defer m.waiting.Add(-1)
	for t := 0; !m.m.TryLock(); {
		wait(&t)
	}
}
func (m *RWMutex) RLock() {
	if cur.Load() == nil {
		m.m.RLock()
		return
	}
	for t := 0; m.waiting.Load() > 0 || !m.m.TryRLock(); {
		wait(&t)
	}
}
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.waiting.Load() == 0 && m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// Gosched replaces runtime.Gosched in instrumented code: a spinning goroutine must let
// virtual time pass.
func Gosched() {
	if cur.Load() == nil {
		runtime.Gosched()
		return
	}
	s := cur.Load()
	if _, stop := s.decide(); stop {
		select {}
	}
	time.Sleep(time.Microsecond)
}
