// Package vsync has locks whose waiters are visible to the simulation, with scheduling points around them.  Without
// a scheduler a lock is handed over in the order of arrival; with one, whoever runs first gets it.
package vsync

import (
	"sync"
	"unsafe"

	"verif.local/harness/shim/vrt"
)

// The race detector sees a lock only as the order in which it is held, not the order of attempts to take it.

type core struct {
	mu      sync.Mutex
	readers int
	writer  bool
	w       []waiter
}

type waiter struct {
	ch    chan struct{}
	write bool
}

// take acquires the lock; wait tells whether to wait for it.
//
//go:norace
func (m *core) take(write, wait bool) bool {
	vrt.SimRaceOff()
	defer vrt.SimRaceOn()
	for {
		m.mu.Lock()
		if !m.writer && (!write || m.readers == 0) && (vrt.SimControlled() || len(m.w) == 0) {
			if write {
				m.writer = true
			} else {
				m.readers++
			}
			m.mu.Unlock()
			return true
		}
		if !wait {
			m.mu.Unlock()
			return false
		}
		ch := make(chan struct{})
		m.w = append(m.w, waiter{ch, write})
		m.mu.Unlock()
		if <-ch; !vrt.SimControlled() {
			return true // handed over
		}
		vrt.P()
	}
}

// give releases the lock.
//
//go:norace
func (m *core) give(write bool) {
	vrt.SimRaceOff()
	defer vrt.SimRaceOn()
	m.mu.Lock()
	if write && !m.writer || !write && m.readers == 0 {
		m.mu.Unlock()
		panic("sync: unlock of unlocked mutex")
	}
	if write {
		m.writer = false
	} else {
		m.readers--
	}
	for len(m.w) > 0 {
		n := m.w[0]
		if !vrt.SimControlled() {
			if m.writer || n.write && m.readers > 0 {
				break
			}
			if n.write {
				m.writer = true
			} else {
				m.readers++
			}
		}
		close(n.ch)
		m.w = m.w[1:]
	}
	m.mu.Unlock()
}

// A Mutex is a mutual exclusion lock.
type Mutex struct{ c core }

//go:norace
func (m *Mutex) Lock() {
	vrt.P()
	m.c.take(true, true)
	vrt.SimRaceAcquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	vrt.P()
	if !m.c.take(true, false) {
		return false
	}
	vrt.SimRaceAcquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	vrt.SimRaceRelease(unsafe.Pointer(m))
	m.c.give(true)
	vrt.S(-1)
}

// Locker is sync.Locker.
type Locker = sync.Locker

// A RWMutex is a reader/writer lock.
type RWMutex struct {
	c    core
	r, w byte // what readers and writers release, for the race detector
}

//go:norace
func (m *RWMutex) Lock() {
	vrt.P()
	m.c.take(true, true)
	vrt.SimRaceAcquire(unsafe.Pointer(&m.r))
	vrt.SimRaceAcquire(unsafe.Pointer(&m.w))
}

//go:norace
func (m *RWMutex) Unlock() {
	vrt.SimRaceRelease(unsafe.Pointer(&m.w))
	m.c.give(true)
	vrt.S(-1)
}

//go:norace
func (m *RWMutex) RLock() {
	vrt.P()
	m.c.take(false, true)
	vrt.SimRaceAcquire(unsafe.Pointer(&m.w))
}

//go:norace
func (m *RWMutex) RUnlock() {
	vrt.SimRaceRelease(unsafe.Pointer(&m.r))
	m.c.give(false)
	vrt.S(-1)
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Pool is a pool that always returns what was put last.
type Pool struct {
	New   func() interface{}
	items []interface{}
	edge  byte
}

//go:norace
func (p *Pool) Get() interface{} {
	vrt.P()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		vrt.SimRaceAcquire(unsafe.Pointer(&p.edge))
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

//go:norace
func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	vrt.SimRaceRelease(unsafe.Pointer(&p.edge))
	p.items = append(p.items, x)
	vrt.P()
}
