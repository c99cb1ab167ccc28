// Package vsync stands in for sync in the code under test: waiting for a lock
// is a schedule point of the simulator instead of blocking the process.
package vsync

import (
	"sync"

	"verifsim/hook"
)

type (
	Locker    = sync.Locker
	Pool      = sync.Pool
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

// Mutex is a sync.Mutex a simulated task can wait for.
type Mutex struct {
	m     sync.Mutex
	epoch uint64
}

func (m *Mutex) Lock() {
	for !m.TryLock() {
		if m.epoch != hook.Epoch { // left behind by a task of an earlier execution
			m.m = sync.Mutex{}
		} else if !hook.Block() {
			m.m.Lock()
			m.epoch = hook.Epoch
			return
		}
	}
}

func (m *Mutex) TryLock() bool {
	if !m.m.TryLock() {
		return false
	}
	m.epoch = hook.Epoch
	return true
}

func (m *Mutex) Unlock() { m.m.Unlock() }

// RWMutex is a sync.RWMutex a simulated task can wait for.
type RWMutex struct {
	m     sync.RWMutex
	epoch uint64
}

func (m *RWMutex) wait(try func() bool, lock func()) {
	for !try() {
		if m.epoch != hook.Epoch {
			m.m = sync.RWMutex{}
		} else if !hook.Block() {
			lock()
			break
		}
	}
	m.epoch = hook.Epoch
}

func (m *RWMutex) Lock()    { m.wait(m.m.TryLock, m.m.Lock) }
func (m *RWMutex) RLock()   { m.wait(m.m.TryRLock, m.m.RLock) }
func (m *RWMutex) Unlock()  { m.m.Unlock() }
func (m *RWMutex) RUnlock() { m.m.RUnlock() }
func (m *RWMutex) TryLock() bool {
	ok := m.m.TryLock()
	if ok {
		m.epoch = hook.Epoch
	}
	return ok
}
func (m *RWMutex) TryRLock() bool {
	ok := m.m.TryRLock()
	if ok {
		m.epoch = hook.Epoch
	}
	return ok
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// Once is a sync.Once a simulated task can wait for.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	v := OnceValue(func() struct{} { f(); return struct{}{} })
	return func() { v() }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	var r any
	ok := false
	return func() T {
		o.Do(func() {
			defer func() {
				if !ok {
					r = recover()
				}
			}()
			v = f()
			ok = true
		})
		if !ok {
			panic(r)
		}
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	type pair struct {
		t T
		u U
	}
	v := OnceValue(func() pair { t, u := f(); return pair{t, u} })
	return func() (T, U) { p := v(); return p.t, p.u }
}
