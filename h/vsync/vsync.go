// Package vsync replaces package sync in the instrumented copy of the code.
//
// Its locks block on channels, so a goroutine waiting for one is "durably
// blocked" for testing/synctest: virtual time advances while a lock is held and
// a deadlock on a lock is detected. Which waiter gets a released lock is chosen
// by the schedule.
package vsync

import (
	"sync"

	"github.com/yields/ant/zverif/zsched"
)

type (
	Locker    = sync.Locker
	Cond      = sync.Cond
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
)

// NewCond mirrors sync.NewCond.
func NewCond(l Locker) *Cond { return sync.NewCond(l) }

type waiter struct {
	ch chan struct{}
	w  bool
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	mu      sync.Mutex
	readers int
	writer  bool
	queue   []waiter
}

func (m *RWMutex) writerWaiting() bool {
	for _, w := range m.queue {
		if w.w {
			return true
		}
	}
	return false
}

// Lock locks for writing.
func (m *RWMutex) Lock() {
	for {
		m.mu.Lock()
		if !m.writer && m.readers == 0 {
			m.writer = true
			m.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		m.queue = append(m.queue, waiter{ch, true})
		m.mu.Unlock()
		<-ch
	}
}

// TryLock mirrors sync.
func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer && m.readers == 0 {
		m.writer = true
		return true
	}
	return false
}

// wake wakes the waiters that might run now. Called with mu held.
func (m *RWMutex) wake() {
	if m.writer || len(m.queue) == 0 {
		return
	}
	i := zsched.Intn(len(m.queue))
	if m.queue[i].w {
		if m.readers > 0 {
			return
		}
		close(m.queue[i].ch)
		m.queue = append(m.queue[:i:i], m.queue[i+1:]...)
		return
	}
	// wake all readers.
	rest := m.queue[:0:0]
	for _, w := range m.queue {
		if w.w {
			rest = append(rest, w)
		} else {
			close(w.ch)
		}
	}
	m.queue = rest
}

// Unlock unlocks.
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked lock")
	}
	m.writer = false
	m.wake()
	m.mu.Unlock()
}

// RLock locks for reading; new readers queue behind a waiting writer.
func (m *RWMutex) RLock() {
	first := true
	for {
		m.mu.Lock()
		if !m.writer && (!first || !m.writerWaiting()) {
			m.readers++
			m.mu.Unlock()
			return
		}
		ch := make(chan struct{})
		m.queue = append(m.queue, waiter{ch, false})
		m.mu.Unlock()
		<-ch
		first = false
	}
}

// TryRLock mirrors sync.
func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer && !m.writerWaiting() {
		m.readers++
		return true
	}
	return false
}

// RUnlock unlocks.
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.readers == 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	if m.readers == 0 {
		m.wakeAny()
	}
	m.mu.Unlock()
}

func (m *RWMutex) wakeAny() {
	if len(m.queue) > 0 && !m.writer && m.readers == 0 {
		m.wake()
	}
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker mirrors sync.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Mutex is a mutual exclusion lock.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// Once mirrors sync.Once.
type Once struct {
	m    Mutex
	done bool
}

// Do mirrors sync.
func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc mirrors sync.
func OnceFunc(f func()) func() {
	var o Once
	var p any
	var ok bool
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

// OnceValue mirrors sync.
func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

// OnceValues mirrors sync.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	g := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { g(); return a, b }
}
