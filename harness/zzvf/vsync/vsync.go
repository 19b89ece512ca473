// Package vsync stands in for package sync when a harness is replayed.
package vsync

import (
	"sync"

	"github.com/folbricht/routedns/zzvf"
)

type (
	Locker = sync.Locker
	Pool   = sync.Pool
	Cond   = sync.Cond
)

func NewCond(l Locker) *Cond { return sync.NewCond(l) }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) {
		o.Do(func() { v, u = f() })
		return v, u
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock() {
	zzvf.Gate("lock")
	zzvf.Gate("lock+")
	m.m.Lock()
}

func (m *Mutex) Unlock() {
	m.m.Unlock()
	zzvf.Gate("unlock")
}

func (m *Mutex) TryLock() bool {
	zzvf.Gate("trylock")
	return m.m.TryLock()
}

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock() {
	zzvf.Gate("lock")
	zzvf.Gate("lock+")
	m.m.Lock()
}

func (m *RWMutex) Unlock() {
	m.m.Unlock()
	zzvf.Gate("unlock")
}

func (m *RWMutex) TryLock() bool {
	zzvf.Gate("trylock")
	return m.m.TryLock()
}

func (m *RWMutex) RLock() {
	zzvf.Gate("rlock")
	zzvf.Gate("rlock+")
	m.m.RLock()
}

func (m *RWMutex) RUnlock() {
	m.m.RUnlock()
	zzvf.Gate("runlock")
}

func (m *RWMutex) TryRLock() bool { return m.m.TryRLock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Once struct{ o sync.Once }

func (o *Once) Do(f func()) {
	zzvf.Gate("once")
	o.o.Do(f)
	zzvf.Gate("once+")
}

type WaitGroup struct{ w sync.WaitGroup }

func (w *WaitGroup) Add(n int) { w.w.Add(n) }

func (w *WaitGroup) Done() {
	w.w.Done()
	zzvf.Gate("wgdone")
}

func (w *WaitGroup) Wait() {
	zzvf.Gate("wait")
	zzvf.Gate("wait+")
	w.w.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.w.Add(1)
	zzvf.Go(func() {
		defer w.w.Done()
		f()
	})
}

type Map struct{ m sync.Map }

func (m *Map) Load(k any) (any, bool) {
	zzvf.Gate("syncmap")
	return m.m.Load(k)
}

func (m *Map) Store(k, v any) {
	zzvf.Gate("syncmap")
	m.m.Store(k, v)
}

func (m *Map) LoadOrStore(k, v any) (any, bool) {
	zzvf.Gate("syncmap")
	return m.m.LoadOrStore(k, v)
}

func (m *Map) LoadAndDelete(k any) (any, bool) {
	zzvf.Gate("syncmap")
	return m.m.LoadAndDelete(k)
}

func (m *Map) Delete(k any) {
	zzvf.Gate("syncmap")
	m.m.Delete(k)
}

func (m *Map) Range(f func(k, v any) bool) {
	zzvf.Gate("syncmap")
	m.m.Range(f)
}

func (m *Map) Swap(k, v any) (any, bool)           { return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool { return m.m.CompareAndSwap(k, old, new) }
func (m *Map) CompareAndDelete(k, old any) bool    { return m.m.CompareAndDelete(k, old) }
func (m *Map) Clear()                              { m.m.Clear() }
