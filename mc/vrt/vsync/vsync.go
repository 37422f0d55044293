// Package vsync stands in for sync in the instrumented build: under the scheduler of vrt every operation is a
// scheduling point and blocking is visible to the scheduler; otherwise the real primitives are used.
package vsync

import (
	"sync"
	"unsafe"

	"verif/mc/vrt"
)

type Locker = sync.Locker

type Mutex struct {
	real sync.Mutex
	held bool
}

//go:norace
func (m *Mutex) Blocked() bool { return m.held }

//go:norace
func (m *Mutex) Lock() {
	if !vrt.Active() {
		m.real.Lock()
		m.held = true
		return
	}
	vrt.Point()
	vrt.Block(m)
	m.held = true
	vrt.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *Mutex) TryLock() bool {
	if !vrt.Active() {
		if m.real.TryLock() {
			m.held = true
			return true
		}
		return false
	}
	vrt.Point()
	if m.held {
		return false
	}
	m.held = true
	vrt.Acquire(unsafe.Pointer(m))
	return true
}

//go:norace
func (m *Mutex) Unlock() {
	if !vrt.Active() {
		m.held = false
		m.real.Unlock()
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	vrt.Release(unsafe.Pointer(m))
	m.held = false
	vrt.Point()
}

type RWMutex struct {
	real    sync.RWMutex
	writer  bool
	readers int
	pending int  // writers that wait: they exclude new readers
	rel     byte // readers release here
}

type waitWriter struct{ m *RWMutex }
type waitReader struct{ m *RWMutex }

//go:norace
func (w waitWriter) Blocked() bool { return w.m.writer || w.m.readers > 0 }

//go:norace
func (w waitReader) Blocked() bool { return w.m.writer || w.m.pending > 0 }

//go:norace
func (m *RWMutex) Lock() {
	if !vrt.Active() {
		m.real.Lock()
		m.writer = true
		return
	}
	vrt.Point()
	m.pending++
	vrt.Block(waitWriter{m})
	m.pending--
	m.writer = true
	vrt.Acquire(unsafe.Pointer(m))
	vrt.Acquire(unsafe.Pointer(&m.rel))
}

//go:norace
func (m *RWMutex) Unlock() {
	if !vrt.Active() {
		m.writer = false
		m.real.Unlock()
		return
	}
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	vrt.Release(unsafe.Pointer(m))
	m.writer = false
	vrt.Point()
}

//go:norace
func (m *RWMutex) RLock() {
	if !vrt.Active() {
		m.real.RLock()
		m.readers++
		return
	}
	vrt.Point()
	vrt.Block(waitReader{m})
	m.readers++
	vrt.Acquire(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) RUnlock() {
	if !vrt.Active() {
		m.readers--
		m.real.RUnlock()
		return
	}
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	vrt.Release(unsafe.Pointer(&m.rel))
	m.readers--
	vrt.Point()
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if !vrt.Active() {
		return m.real.TryLock()
	}
	vrt.Point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	vrt.Acquire(unsafe.Pointer(m))
	vrt.Acquire(unsafe.Pointer(&m.rel))
	return true
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if !vrt.Active() {
		return m.real.TryRLock()
	}
	vrt.Point()
	if m.writer || m.pending > 0 {
		return false
	}
	m.readers++
	vrt.Acquire(unsafe.Pointer(m))
	return true
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// Once: calls during the running first call block, as with sync.Once.
type Once struct {
	m    Mutex
	done bool
}

//go:norace
func (o *Once) Do(f func()) {
	if o.done { // nothing can happen in between that matters: it stays done
		vrt.Acquire(unsafe.Pointer(&o.done))
		return
	}
	vrt.Point()
	if o.done {
		vrt.Acquire(unsafe.Pointer(&o.done))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer o.finish()
		f()
	}
}

//go:norace
func (o *Once) finish() {
	vrt.Release(unsafe.Pointer(&o.done))
	o.done = true
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

// Pool gives back the item that was put last, which is what brings out uses of an item that is still in use.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
	known bool
}

func (p *Pool) Get() any {
	vrt.Point()
	p.mu.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.mu.Unlock()
		return x
	}
	p.mu.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	vrt.Point()
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	first := !p.known
	p.known = true
	p.mu.Unlock()
	if first {
		vrt.OnCollect(func() {
			p.mu.Lock()
			p.items, p.known = nil, false
			p.mu.Unlock()
		})
	}
	vrt.Point()
}

// Map has a point at every operation.
type Map struct{ real sync.Map }

func (m *Map) Load(k any) (any, bool)           { vrt.Point(); return m.real.Load(k) }
func (m *Map) Store(k, v any)                   { vrt.Point(); m.real.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { vrt.Point(); return m.real.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { vrt.Point(); return m.real.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { vrt.Point(); m.real.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { vrt.Point(); return m.real.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { vrt.Point(); return m.real.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { vrt.Point(); return m.real.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { vrt.Point(); m.real.Range(f) }
func (m *Map) Clear() {
	vrt.Point()
	m.real.Range(func(k, _ any) bool { m.real.Delete(k); return true })
}

type WaitGroup struct {
	real sync.WaitGroup
	n    int
}

//go:norace
func (w *WaitGroup) Blocked() bool { return w.n > 0 }

//go:norace
func (w *WaitGroup) Add(d int) {
	if !vrt.Active() {
		w.real.Add(d)
		return
	}
	vrt.Point()
	if d < 0 {
		vrt.Release(unsafe.Pointer(w))
	}
	w.n += d
}

//go:norace
func (w *WaitGroup) Done() {
	if !vrt.Active() {
		w.real.Done()
		return
	}
	vrt.Release(unsafe.Pointer(w))
	w.n--
	vrt.Point()
}

//go:norace
func (w *WaitGroup) Wait() {
	if !vrt.Active() {
		w.real.Wait()
		return
	}
	vrt.Point()
	vrt.Block(w)
	vrt.Acquire(unsafe.Pointer(w))
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	vrt.Go(func() {
		defer w.Done()
		f()
	})
}

type Cond struct {
	L    Locker
	real *sync.Cond
	wake int
	gen  int
}

type condWait struct {
	c *Cond
	g int
}

//go:norace
func (w condWait) Blocked() bool { return w.c.gen == w.g && w.c.wake == 0 }

func NewCond(l Locker) *Cond { return &Cond{L: l, real: sync.NewCond(l)} }

//go:norace
func (c *Cond) Wait() {
	if !vrt.Active() {
		c.real.Wait()
		return
	}
	g := c.gen
	c.L.Unlock()
	vrt.Block(condWait{c, g})
	if c.wake > 0 {
		c.wake--
	}
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	if !vrt.Active() {
		c.real.Signal()
		return
	}
	c.wake++
	vrt.Point()
}

//go:norace
func (c *Cond) Broadcast() {
	if !vrt.Active() {
		c.real.Broadcast()
		return
	}
	c.gen++
	vrt.Point()
}
