// Package sync stands in for the standard package, under the simulator's schedule.
package sync

import (
	"sync"
	"sync/atomic"
	"unsafe"

	"github.com/sp301415/ringo-snark/simhook"
)

type (
	Map    = sync.Map
	Cond   = sync.Cond
	Locker = sync.Locker
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }

// Mutex is a mutual exclusion lock.
type Mutex struct{ held atomic.Bool }

//go:norace
func (m *Mutex) try() bool { return m.held.CompareAndSwap(false, true) }

func (m *Mutex) TryLock() bool {
	simhook.Y()
	if !m.held.CompareAndSwap(false, true) {
		return false
	}
	simhook.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Lock() {
	simhook.Y()
	for !m.held.CompareAndSwap(false, true) {
		if simhook.Active() {
			simhook.Blocked()
		}
	}
	simhook.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) Unlock() {
	simhook.RaceRelease(unsafe.Pointer(m))
	if !m.held.CompareAndSwap(true, false) {
		panic("sync: unlock of unlocked mutex")
	}
	simhook.Y()
}

// RWMutex is a reader/writer lock.
type RWMutex struct {
	w Mutex
	r atomic.Int64
}

func (m *RWMutex) Lock() {
	m.w.Lock()
	for m.r.Load() > 0 {
		if simhook.Active() {
			simhook.Blocked()
		}
	}
	simhook.RaceAcquire(unsafe.Pointer(&m.r))
}
func (m *RWMutex) Unlock() { m.w.Unlock() }
func (m *RWMutex) TryLock() bool {
	if !m.w.TryLock() {
		return false
	}
	if m.r.Load() > 0 {
		m.w.Unlock()
		return false
	}
	return true
}
func (m *RWMutex) RLock() {
	m.w.Lock()
	m.r.Add(1)
	m.w.Unlock()
}
func (m *RWMutex) TryRLock() bool {
	if !m.w.TryLock() {
		return false
	}
	m.r.Add(1)
	m.w.Unlock()
	return true
}
func (m *RWMutex) RUnlock() {
	simhook.RaceRelease(unsafe.Pointer(&m.r))
	if m.r.Add(-1) < 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	simhook.Y()
}
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once is a one-time action.
type Once struct {
	m    Mutex
	done atomic.Bool
}

func (o *Once) Do(f func()) {
	if o.done.Load() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done.Load() {
		defer o.done.Store(true)
		f()
	}
}

// WaitGroup waits for a number of threads.
type WaitGroup struct{ n atomic.Int64 }

func (w *WaitGroup) Add(d int) {
	if d < 0 {
		simhook.RaceRelease(unsafe.Pointer(w))
	}
	if w.n.Add(int64(d)) < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simhook.Y()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	simhook.Y()
	for w.n.Load() > 0 {
		if simhook.Active() {
			simhook.Blocked()
		}
	}
	simhook.RaceAcquire(unsafe.Pointer(w))
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simhook.Go(func() {
		defer w.Done()
		f()
	})
}

// Pool is a set of temporary objects. Which object is reused, if any, is the simulator's choice.
type Pool struct {
	noCopy [0]sync.Mutex
	items  *[poolCap]any
	n      int

	New func() any
}

const poolCap = 64

//go:norace
func (p *Pool) take() any {
	if p.n == 0 || simhook.DropPools || simhook.Choice(8) == 0 {
		return nil
	}
	k := p.n - 1
	if simhook.Choice(3) == 0 {
		k = int(simhook.Choice(uint64(p.n)))
	}
	x := p.items[k]
	p.n--
	p.items[k] = p.items[p.n]
	p.items[p.n] = nil
	return x
}

//go:norace
func (p *Pool) put(x any) {
	if p.items == nil {
		p.items = new([poolCap]any)
	}
	if p.n < poolCap {
		p.items[p.n] = x
		p.n++
	}
}

func dataPtr(x any) unsafe.Pointer { return (*[2]unsafe.Pointer)(unsafe.Pointer(&x))[1] }

func (p *Pool) Get() any {
	simhook.Y()
	x := p.take()
	if x == nil {
		if p.New == nil {
			return nil
		}
		return p.New()
	}
	simhook.RaceAcquire(dataPtr(x))
	simhook.Y()
	return x
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	simhook.RaceRelease(dataPtr(x))
	simhook.Y()
	p.put(x)
	simhook.Y()
}
