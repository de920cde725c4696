// Package sync stands in for the standard package in instrumented code: its
// locks give control back to the scheduler instead of blocking.
package sync

import (
	rs "sync"
	"sync/atomic"

	"verif/mc/sched"
)

type (
	Pool      = rs.Pool
	Map       = rs.Map
	WaitGroup = rs.WaitGroup
	Cond      = rs.Cond
	Locker    = rs.Locker
)

// NewCond is the standard one.
func NewCond(l Locker) *Cond { return rs.NewCond(l) }

// Mutex is a mutual exclusion lock.
type Mutex struct{ m rs.Mutex }

func (m *Mutex) Lock() {
	for !m.m.TryLock() {
		if !sched.Block() {
			m.m.Lock()
			return
		}
	}
}
func (m *Mutex) TryLock() bool { return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock(); sched.Released() }

// RWMutex is a reader/writer lock.
type RWMutex struct{ m rs.RWMutex }

func (m *RWMutex) Lock() {
	for !m.m.TryLock() {
		if !sched.Block() {
			m.m.Lock()
			return
		}
	}
}
func (m *RWMutex) RLock() {
	for !m.m.TryRLock() {
		if !sched.Block() {
			m.m.RLock()
			return
		}
	}
}
func (m *RWMutex) TryLock() bool  { return m.m.TryLock() }
func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock(); sched.Released() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock(); sched.Released() }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once runs a function once.
type Once struct {
	done atomic.Bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// OnceFunc, OnceValue and OnceValues as in the standard package.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[A, B any](f func() (A, B)) func() (A, B) {
	var o Once
	var a A
	var b B
	return func() (A, B) { o.Do(func() { a, b = f() }); return a, b }
}
