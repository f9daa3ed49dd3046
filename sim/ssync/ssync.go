// Package ssync replaces package sync in the instrumented code: the same types, whose
// every blocking and waking is decided by the simulator.
package ssync

import (
	"sync"
	"unsafe"

	"verifsim/simrt"
)

type Locker = sync.Locker

// Mutex replaces sync.Mutex.
type Mutex struct {
	locked bool
}

func (m *Mutex) Lock() {
	if simrt.Aborting() {
		return
	}
	simrt.Op("lock")
	simrt.Block(func() bool { return !m.locked }, "Mutex.Lock")
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(m))
}

func (m *Mutex) TryLock() bool {
	if simrt.Aborting() {
		return true
	}
	simrt.Op("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *Mutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	if !m.locked {
		simrt.Fatal("fatal error: sync: unlock of unlocked mutex")
		return
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.locked = false
	simrt.Op("unlock")
}

// RWMutex replaces sync.RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	w       bool
	readers int
	waiting int
	rel     byte
}

func (m *RWMutex) Lock() {
	if simrt.Aborting() {
		return
	}
	simrt.Op("lock")
	m.waiting++
	simrt.Block(func() bool { return !m.w && m.readers == 0 }, "RWMutex.Lock")
	m.waiting--
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	simrt.RaceAcquire(unsafe.Pointer(&m.rel))
}

func (m *RWMutex) TryLock() bool {
	if simrt.Aborting() {
		return true
	}
	simrt.Op("trylock")
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	simrt.RaceAcquire(unsafe.Pointer(m))
	simrt.RaceAcquire(unsafe.Pointer(&m.rel))
	return true
}

func (m *RWMutex) Unlock() {
	if simrt.Aborting() {
		return
	}
	if !m.w {
		simrt.Fatal("fatal error: sync: Unlock of unlocked RWMutex")
		return
	}
	simrt.RaceRelease(unsafe.Pointer(m))
	m.w = false
	simrt.Op("unlock")
}

func (m *RWMutex) RLock() {
	if simrt.Aborting() {
		return
	}
	simrt.Op("rlock")
	simrt.Block(func() bool { return !m.w && m.waiting == 0 }, "RWMutex.RLock")
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(m))
}

func (m *RWMutex) TryRLock() bool {
	if simrt.Aborting() {
		return true
	}
	simrt.Op("tryrlock")
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	simrt.RaceAcquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RUnlock() {
	if simrt.Aborting() {
		return
	}
	if m.readers == 0 {
		simrt.Fatal("fatal error: sync: RUnlock of unlocked RWMutex")
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.rel))
	m.readers--
	simrt.Op("runlock")
}

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	n   int
	rel byte
}

func (w *WaitGroup) Add(d int) {
	if simrt.Aborting() {
		return
	}
	if d < 0 {
		simrt.RaceReleaseMerge(unsafe.Pointer(&w.rel))
	}
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	simrt.Op("wg.add")
}

func (w *WaitGroup) Done() { w.Add(-1) }

func (w *WaitGroup) Wait() {
	if simrt.Aborting() {
		return
	}
	simrt.Op("wg.wait")
	simrt.Block(func() bool { return w.n == 0 }, "WaitGroup.Wait")
	simrt.RaceAcquire(unsafe.Pointer(&w.rel))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() {
		defer w.Done()
		f()
	})
}

// Once replaces sync.Once.
type Once struct {
	done bool
	m    Mutex
	rel  byte
}

func (o *Once) Do(f func()) {
	if simrt.Aborting() {
		return
	}
	simrt.Op("once")
	if o.done {
		simrt.RaceAcquire(unsafe.Pointer(&o.rel))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.done {
		return
	}
	defer func() {
		if simrt.Aborting() {
			return
		}
		simrt.RaceReleaseMerge(unsafe.Pointer(&o.rel))
		o.done = true
	}()
	f()
}

// Cond replaces sync.Cond.
type Cond struct {
	L       Locker
	waiters []*condWaiter
}

type condWaiter struct{ woken bool }

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	if simrt.Aborting() {
		return
	}
	w := &condWaiter{}
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	simrt.Block(func() bool { return w.woken }, "Cond.Wait")
	simrt.RaceAcquire(unsafe.Pointer(w))
	c.L.Lock()
}

func (c *Cond) Signal() {
	if simrt.Aborting() {
		return
	}
	if len(c.waiters) > 0 {
		w := c.waiters[0]
		c.waiters = c.waiters[1:]
		simrt.RaceReleaseMerge(unsafe.Pointer(w))
		w.woken = true
	}
	simrt.Op("cond.signal")
}

func (c *Cond) Broadcast() {
	if simrt.Aborting() {
		return
	}
	for _, w := range c.waiters {
		simrt.RaceReleaseMerge(unsafe.Pointer(w))
		w.woken = true
	}
	c.waiters = nil
	simrt.Op("cond.broadcast")
}

// Map replaces sync.Map. It is a list, so that it never touches a real map from
// several goroutines in a race build.
type Map struct {
	keys []interface{}
	vals []interface{}
	rel  byte
}

func (m *Map) op(what string) {
	simrt.Op(what)
	simrt.RaceAcquire(unsafe.Pointer(&m.rel))
	simrt.RaceReleaseMerge(unsafe.Pointer(&m.rel))
}

func (m *Map) find(k interface{}) int {
	for i := range m.keys {
		if m.keys[i] == k {
			return i
		}
	}
	return -1
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	m.op("map.load")
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	return nil, false
}

func (m *Map) Store(k, v interface{}) { m.Swap(k, v) }

func (m *Map) Swap(k, v interface{}) (prev interface{}, loaded bool) {
	m.op("map.store")
	if i := m.find(k); i >= 0 {
		prev, m.vals[i] = m.vals[i], v
		return prev, true
	}
	m.keys, m.vals = append(m.keys, k), append(m.vals, v)
	return nil, false
}

func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	m.op("map.loadorstore")
	if i := m.find(k); i >= 0 {
		return m.vals[i], true
	}
	m.keys, m.vals = append(m.keys, k), append(m.vals, v)
	return v, false
}

func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	m.op("map.delete")
	i := m.find(k)
	if i < 0 {
		return nil, false
	}
	v := m.vals[i]
	m.remove(i)
	return v, true
}

func (m *Map) remove(i int) {
	m.keys = append(append([]interface{}{}, m.keys[:i]...), m.keys[i+1:]...)
	m.vals = append(append([]interface{}{}, m.vals[:i]...), m.vals[i+1:]...)
}

func (m *Map) Delete(k interface{}) { m.LoadAndDelete(k) }

func (m *Map) CompareAndSwap(k, old, new interface{}) bool {
	m.op("map.cas")
	if i := m.find(k); i >= 0 && m.vals[i] == old {
		m.vals[i] = new
		return true
	}
	return false
}

func (m *Map) CompareAndDelete(k, old interface{}) bool {
	m.op("map.cad")
	if i := m.find(k); i >= 0 && m.vals[i] == old {
		m.remove(i)
		return true
	}
	return false
}

func (m *Map) Clear() {
	m.op("map.clear")
	m.keys, m.vals = nil, nil
}

func (m *Map) Range(f func(k, v interface{}) bool) {
	m.op("map.range")
	keys := append([]interface{}{}, m.keys...)
	for i := len(keys) - 1; i > 0; i-- {
		j := simrt.Choice(i + 1)
		keys[i], keys[j] = keys[j], keys[i]
	}
	for _, k := range keys {
		if i := m.find(k); i >= 0 {
			if !f(k, m.vals[i]) {
				return
			}
		}
	}
}

// Pool replaces sync.Pool: Get returns a new or any pooled value.
type Pool struct {
	New   func() interface{}
	items []interface{}
	rel   byte
}

func (p *Pool) Get() interface{} {
	simrt.Op("pool.get")
	simrt.RaceAcquire(unsafe.Pointer(&p.rel))
	if n := len(p.items); n > 0 {
		if i := simrt.Choice(n + 1); i < n {
			v := p.items[i]
			p.items[i] = p.items[n-1]
			p.items = p.items[:n-1]
			return v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x == nil {
		return
	}
	simrt.RaceReleaseMerge(unsafe.Pointer(&p.rel))
	p.items = append(p.items, x)
	simrt.Op("pool.put")
}

// OnceFunc replaces sync.OnceFunc.
func OnceFunc(f func()) func() {
	var once Once
	var failed bool
	var p interface{}
	return func() {
		once.Do(func() {
			defer func() {
				if r := recover(); r != nil {
					failed, p = true, r
				}
			}()
			f()
		})
		if failed {
			panic(p)
		}
	}
}

// OnceValue replaces sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var v T
	g := OnceFunc(func() { v = f() })
	return func() T { g(); return v }
}

// OnceValues replaces sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	g := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { g(); return a, b }
}
