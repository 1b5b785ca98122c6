// Package sync stands in for the standard package in the instrumented copy.
package sync

import (
	"sync"
	"unsafe"

	"verif.local/mc/vs"
)

type Locker = sync.Locker
type Map = sync.Map

// Mutex is a lock known to the scheduler.
type Mutex struct{ state int32 }

func (m *Mutex) Lock() {
	vs.E.Pre(vs.KLock, unsafe.Pointer(m), 0)
	if !vs.E.Conc() {
		if vs.E.Aborting() {
			return
		}
		vs.E.SeqLocks++
		if m.state != 0 {
			panic(&vs.Failure{Kind: "deadlock", Msg: "lock is already held and nobody else is running"})
		}
	}
	m.state = 1
}

func (m *Mutex) TryLock() bool {
	vs.E.Pre(vs.KTry, unsafe.Pointer(m), 0)
	if m.state != 0 {
		vs.E.TryResult(false)
		return false
	}
	m.state = 1
	vs.E.TryResult(true)
	return true
}

func (m *Mutex) Unlock() {
	vs.E.Pre(vs.KUnlock, unsafe.Pointer(m), 0)
	if vs.E.Aborting() {
		return
	}
	if m.state == 0 {
		panic(&vs.Failure{Kind: "panic", Msg: "sync: unlock of unlocked mutex"})
	}
	m.state = 0
}

// RWMutex is a reader/writer lock known to the scheduler.
type RWMutex struct{ w, r int32 }

func (m *RWMutex) Lock() {
	vs.E.Pre(vs.KLock, unsafe.Pointer(m), 0)
	if !vs.E.Conc() && (m.w != 0 || m.r != 0) {
		if vs.E.Aborting() {
			return
		}
		panic(&vs.Failure{Kind: "deadlock", Msg: "lock is already held and nobody else is running"})
	}
	m.w = 1
}

func (m *RWMutex) TryLock() bool {
	vs.E.Pre(vs.KTry, unsafe.Pointer(m), 0)
	if m.w != 0 || m.r != 0 {
		vs.E.TryResult(false)
		return false
	}
	m.w = 1
	vs.E.TryResult(true)
	return true
}

func (m *RWMutex) Unlock() {
	vs.E.Pre(vs.KUnlock, unsafe.Pointer(m), 0)
	if vs.E.Aborting() {
		return
	}
	if m.w == 0 {
		panic(&vs.Failure{Kind: "panic", Msg: "sync: Unlock of unlocked RWMutex"})
	}
	m.w = 0
}

func (m *RWMutex) RLock() {
	vs.E.Pre(vs.KRLock, unsafe.Pointer(m), 0)
	if !vs.E.Conc() && m.w != 0 {
		if vs.E.Aborting() {
			return
		}
		panic(&vs.Failure{Kind: "deadlock", Msg: "lock is already held and nobody else is running"})
	}
	m.r++
}

func (m *RWMutex) RUnlock() {
	vs.E.Pre(vs.KRUnlock, unsafe.Pointer(m), 0)
	if vs.E.Aborting() {
		return
	}
	if m.r == 0 {
		panic(&vs.Failure{Kind: "panic", Msg: "sync: RUnlock of unlocked RWMutex"})
	}
	m.r--
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once runs f under a scheduler-known lock.
type Once struct {
	done uint32
	m    Mutex
}

func (o *Once) Do(f func()) {
	vs.E.Pre(vs.KLoad, unsafe.Pointer(&o.done), 0)
	d := o.done
	vs.E.Post(uint64(d), false)
	if d != 0 {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done == 0 {
		defer func() {
			vs.E.Pre(vs.KStore, unsafe.Pointer(&o.done), 0)
			o.done = 1
			vs.E.Post(1, true)
		}()
		f()
	}
}

// OnceFunc, OnceValue and OnceValues mirror the standard ones.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// Pool is a deterministic pool: last in, first out, emptied only
// where the harness collects garbage.
type Pool struct {
	New   func() any
	items []any
}

func (p *Pool) Get() any {
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	vs.E.Post(0, true)
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	vs.E.Pre(vs.KRMW, unsafe.Pointer(p), 0)
	vs.E.Post(1, true)
	if p.items == nil {
		vs.OnCollect(unsafe.Pointer(p), func() { p.items = nil })
	}
	p.items = append(p.items, x)
}

type WaitGroup = sync.WaitGroup
type Cond = sync.Cond

func NewCond(l Locker) *Cond { return sync.NewCond(l) }
