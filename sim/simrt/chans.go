package simrt

import (
	"reflect"
	"unsafe"
)

// Channels. Buffered channels stay real ones, used without blocking; the rendezvous
// of unbuffered channels and all waiting happen here.

type selState struct {
	done bool
	idx  int
	val  interface{}
	ok   bool
}

type waiter struct {
	sel  *selState
	idx  int
	send bool
	val  interface{}
	ch   unsafe.Pointer
	gone bool
}

var (
	waiters []*waiter
	closed  []unsafe.Pointer
)

func resetChans() { waiters, closed = nil, nil }

func isClosed(ch unsafe.Pointer) bool {
	for _, c := range closed {
		if c == ch {
			return true
		}
	}
	return false
}

// Case is one communication of a select.
type Case struct {
	ch       unsafe.Pointer
	send     bool
	val      interface{}
	buffered bool
	ready    func() bool                // without a partner: buffer space, buffered value, or closed
	do       func() (interface{}, bool) // performs it on the real channel
}

// Selected is the outcome of a select.
type Selected struct {
	Idx int
	val interface{}
	ok  bool
}

// SendCase is `ch <- v`.
func SendCase[T any](c chan<- T, v T) *Case { return sendCase(c, v) }

// SendCaseTo(ch)(v) is SendCase(ch, v) for v of any type that ch takes.
func SendCaseTo[T any](c chan<- T) func(T) *Case { return func(v T) *Case { return sendCase(c, v) } }

// RecvCase is `<-ch`.
func RecvCase[T any](c <-chan T) *Case { return recvCase(c) }

func sendCase(c, v interface{}) *Case {
	rc := reflect.ValueOf(c)
	p := rc.UnsafePointer()
	out := &Case{ch: p, send: true, val: v}
	if p == nil {
		return out
	}
	rv := reflect.ValueOf(v)
	if !rv.IsValid() {
		rv = reflect.Zero(rc.Type().Elem())
	}
	n := rc.Cap()
	out.buffered = n > 0
	out.ready = func() bool { return rc.Len() < n || isClosed(p) }
	out.do = func() (interface{}, bool) { rc.Send(rv); return nil, true }
	return out
}

func recvCase(c interface{}) *Case {
	rc := reflect.ValueOf(c)
	p := rc.UnsafePointer()
	out := &Case{ch: p}
	if p == nil {
		return out
	}
	out.buffered = rc.Cap() > 0
	out.ready = func() bool {
		if rc.Len() > 0 || isClosed(p) {
			return true
		}
		// No real sender ever waits on a channel: only a closed one yields here (one
		// closed by code that is not simulated, such as a context).
		v, _ := rc.TryRecv()
		return v.IsValid()
	}
	out.do = func() (interface{}, bool) {
		v, ok := rc.Recv()
		if !ok {
			return nil, false
		}
		return v.Interface(), true
	}
	return out
}

func (c *Case) isReady() bool {
	if c.ch == nil {
		return false
	}
	raceDisable()
	r := c.ready()
	raceEnable()
	return r
}

func (c *Case) partner(me *selState) *waiter {
	if c.ch == nil || c.buffered {
		return nil
	}
	for _, w := range waiters {
		if w.ch == c.ch && w.send != c.send && !w.gone && !w.sel.done && w.sel != me {
			return w
		}
	}
	return nil
}

// Select runs one select statement.
func Select(hasDefault bool, cases ...*Case) Selected {
	Op("chan")
	if aborting {
		// Unwinding.
		return Selected{Idx: -1}
	}
	for {
		var ready []int
		for i, c := range cases {
			if c.isReady() || c.partner(nil) != nil {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			i := ready[Choice(len(ready))]
			c := cases[i]
			if w := c.partner(nil); w != nil && !c.isReady() {
				w.sel.done, w.sel.idx = true, w.idx
				RaceAcquire(unsafe.Pointer(w))
				RaceReleaseMerge(unsafe.Pointer(w.sel))
				if c.send {
					w.sel.val, w.sel.ok = c.val, true
					return Selected{Idx: i, ok: true}
				}
				return Selected{Idx: i, val: w.val, ok: true}
			}
			v, ok := c.do()
			return Selected{Idx: i, val: v, ok: ok}
		}
		if hasDefault {
			return Selected{Idx: -1}
		}
		sel := &selState{}
		for i, c := range cases {
			if c.ch == nil || c.buffered {
				continue
			}
			w := &waiter{sel: sel, idx: i, send: c.send, val: c.val, ch: c.ch}
			RaceReleaseMerge(unsafe.Pointer(w))
			waiters = append(waiters, w)
		}
		Block(func() bool {
			if sel.done {
				return true
			}
			for _, c := range cases {
				if c.isReady() {
					return true
				}
			}
			return false
		}, "channel operation")
		keep := waiters[:0]
		for _, w := range waiters {
			if w.sel == sel {
				w.gone = true
			} else {
				keep = append(keep, w)
			}
		}
		waiters = keep
		if sel.done {
			RaceAcquire(unsafe.Pointer(sel))
			return Selected{Idx: sel.idx, val: sel.val, ok: sel.ok}
		}
	}
}

// Send is the statement `ch <- v`.
func Send[T any](c chan<- T, v T) { Select(false, SendCase(c, v)) }

// SendTo(ch)(v) is Send(ch, v) for v of any type that ch takes.
func SendTo[T any](c chan<- T) func(T) { return func(v T) { Send(c, v) } }

// Recv is the expression `<-ch`.
func Recv[T any](c <-chan T) T {
	v, _ := RecvVal(c, Select(false, RecvCase(c)))
	return v
}

// Recv2 is `v, ok := <-ch`.
func Recv2[T any](c <-chan T) (T, bool) { return RecvVal(c, Select(false, RecvCase(c))) }

// RecvVal is the value a select received.
func RecvVal[T any](_ <-chan T, s Selected) (T, bool) {
	v, _ := s.val.(T)
	return v, s.ok
}

// ChanIt is a loop over what is received from a channel.
type ChanIt[T any] struct{ c <-chan T }

// Range starts a loop over a channel: for v, it := Range(ch); it.Next(&v); { ... }
func Range[T any](c <-chan T) (v T, it ChanIt[T]) { return v, ChanIt[T]{c} }

// Next receives the next value, if there is one.
func (it ChanIt[T]) Next(v *T) bool {
	x, ok := Recv2(it.c)
	if ok {
		*v = x
	}
	return ok
}

// Close is close(ch).
func Close[T any](c chan<- T) { closeChan(c) }

func closeChan(c interface{}) {
	Op("close")
	if Aborting() {
		return
	}
	rc := reflect.ValueOf(c)
	rc.Close()
	markClosed(rc.UnsafePointer())
}

func markClosed(p unsafe.Pointer) { closed = append(closed, p) }

// Keys returns the keys of m in an order drawn from the seed.
func Keys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	order := shuffle(len(keys), func(i, j int) bool { return less(keys[i], keys[j]) })
	out := make([]K, len(keys))
	for i, k := range order {
		out[i] = keys[k]
	}
	return out
}

// Has reports whether k is still in m.
func Has[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }

// It iterates over a map in an order drawn from the seed.
type It[K comparable, V any] struct {
	m    map[K]V
	keys []K
}

// Iter starts an iteration; the first two results are only there to declare the loop
// variables.
func Iter[K comparable, V any](m map[K]V) (k K, v V, it *It[K, V]) {
	return k, v, &It[K, V]{m, Keys(m)}
}

// Next advances to the next entry that still exists.
func (it *It[K, V]) Next(k *K, v *V) bool {
	for len(it.keys) > 0 {
		*k = it.keys[0]
		it.keys = it.keys[1:]
		if val, ok := it.m[*k]; ok {
			*v = val
			return true
		}
	}
	return false
}
