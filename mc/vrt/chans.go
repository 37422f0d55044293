package vrt

import (
	"reflect"
	"unsafe"
)

// Channels of the instrumented code. Under the scheduler buffered channels are the real ones, used only when they do
// not block; a send on an unbuffered channel is an offer that a receiver takes. Outside the scheduler the real
// operations are used.

type chanState struct {
	ptr       uintptr
	keep      any // the channel, so that its address is not used again
	offers    []*offer
	receivers int // threads that wait for an offer
	rel, back byte
}

type offer struct {
	v     unsafe.Pointer
	taken bool
}

var (
	chans  [4096]chanState
	nchans int
)

//go:norace
func stateOf(ch any) *chanState {
	ptr := ptrOf(ch)
	for i := 0; i < nchans; i++ {
		if chans[i].ptr == ptr {
			return &chans[i]
		}
	}
	if nchans == len(chans) { // forget the oldest half
		k := copy(chans[:], chans[nchans/2:])
		for i := k; i < nchans; i++ {
			chans[i] = chanState{}
		}
		nchans = k
	}
	chans[nchans] = chanState{ptr: ptr, keep: ch}
	nchans++
	return &chans[nchans-1]
}

// closedAt is the place of the closed flag in a channel of the Go run time.
const closedAt = 28

func init() {
	for _, ch := range []any{make(chan int), make(chan string, 3), make(chan struct{})} {
		p := ptrOf(ch)
		v := reflect.ValueOf(ch)
		if isClosed(p) {
			panic("vrt: unknown layout of channels")
		}
		v.Close()
		if !isClosed(p) {
			panic("vrt: unknown layout of channels")
		}
	}
}

//go:norace
//go:nocheckptr
func isClosed(ptr uintptr) bool {
	ptr += closedAt
	return *(*uint32)(*(*unsafe.Pointer)(unsafe.Pointer(&ptr))) != 0
}

//go:norace
func resetChans() {
	for i := 0; i < nchans; i++ {
		chans[i] = chanState{}
	}
	nchans = 0
}

//go:norace
func ptrOf(ch any) uintptr { return reflect.ValueOf(ch).Pointer() }

//go:norace
func (s *chanState) first() *offer {
	for len(s.offers) > 0 && s.offers[0].taken {
		s.offers = s.offers[1:]
	}
	if len(s.offers) == 0 {
		return nil
	}
	return s.offers[0]
}

type selectCase interface {
	ready() bool
	run() // only if ready
	waits(n int)
}

type SendC[T any] struct {
	ch chan<- T
	v  T
	s  *chanState
}

type RecvC[T any] struct {
	ch  <-chan T
	s   *chanState
	Val T
	Ok  bool
}

//go:norace
func SendCase[T any](ch chan<- T, v T) *SendC[T] {
	c := &SendC[T]{ch: ch, v: v}
	if cur != nil && ch != nil {
		c.s = stateOf(ch)
	}
	return c
}

//go:norace
func RecvCase[T any](ch <-chan T) *RecvC[T] {
	c := &RecvC[T]{ch: ch}
	if cur != nil && ch != nil {
		c.s = stateOf(ch)
	}
	return c
}

//go:norace
func (c *SendC[T]) ready() bool {
	switch {
	case c.ch == nil:
		return false
	case isClosed(c.s.ptr):
		return true // panics
	case cap(c.ch) > 0:
		return len(c.ch) < cap(c.ch)
	}
	n := 0
	for _, o := range c.s.offers {
		if !o.taken {
			n++
		}
	}
	return c.s.receivers > n
}

//go:norace
func (c *SendC[T]) run() {
	if isClosed(c.s.ptr) || cap(c.ch) > 0 {
		c.ch <- c.v
		return
	}
	o := &offer{v: unsafe.Pointer(&c.v)}
	c.s.offers = append(c.s.offers, o)
	Release(unsafe.Pointer(&c.s.rel))
	Block(taken{o})
	Acquire(unsafe.Pointer(&c.s.back))
}

//go:norace
func (c *SendC[T]) waits(n int) {}

type taken struct{ o *offer }

//go:norace
func (t taken) Blocked() bool { return !t.o.taken }

//go:norace
func (c *RecvC[T]) ready() bool {
	if c.ch == nil {
		return false
	}
	if cap(c.ch) > 0 {
		return len(c.ch) > 0 || isClosed(c.s.ptr)
	}
	return c.s.first() != nil || isClosed(c.s.ptr)
}

//go:norace
func (c *RecvC[T]) run() {
	if cap(c.ch) > 0 || c.s.first() == nil {
		c.Val, c.Ok = <-c.ch
		return
	}
	o := c.s.first()
	c.Val, c.Ok = *(*T)(o.v), true
	Acquire(unsafe.Pointer(&c.s.rel))
	Release(unsafe.Pointer(&c.s.back))
	o.taken = true
}

//go:norace
func (c *RecvC[T]) waits(n int) {
	if c.ch != nil {
		c.s.receivers += n
	}
}

type selectWait struct{ cs []selectCase }

//go:norace
func (w selectWait) Blocked() bool {
	for _, c := range w.cs {
		if c.ready() {
			return false
		}
	}
	return true
}

//go:norace
func choose(cs []selectCase, def bool) int {
	point()
	for {
		k, n := -1, 0
		for i, c := range cs {
			if c.ready() {
				if k < 0 {
					k = i
				}
				n++
			}
		}
		if n > 1 {
			x := chooser.Choose(n, false)
			for i, c := range cs {
				if c.ready() {
					if x == 0 {
						k = i
						break
					}
					x--
				}
			}
		}
		if k >= 0 {
			cs[k].run()
			return k
		}
		if def {
			return len(cs)
		}
		for _, c := range cs {
			c.waits(1)
		}
		// a sender and a receiver that both wait in unbuffered operations meet: the sender makes its offer
		if len(cs) == 1 {
			if s, ok := cs[0].(interface{ offerNow() bool }); ok && s.offerNow() {
				return 0
			}
		}
		Block(selectWait{cs})
		for _, c := range cs {
			c.waits(-1)
		}
	}
}

// offerNow: a plain send on an unbuffered channel waits with its offer made.
//
//go:norace
func (c *SendC[T]) offerNow() bool {
	if c.ch == nil || cap(c.ch) > 0 || isClosed(c.s.ptr) {
		return false
	}
	o := &offer{v: unsafe.Pointer(&c.v)}
	c.s.offers = append(c.s.offers, o)
	Release(unsafe.Pointer(&c.s.rel))
	Block(takenOrClosed{o, c.s})
	if !o.taken {
		o.taken = true
		c.ch <- c.v // panics: closed
	}
	Acquire(unsafe.Pointer(&c.s.back))
	return true
}

type takenOrClosed struct {
	o *offer
	s *chanState
}

//go:norace
func (t takenOrClosed) Blocked() bool { return !t.o.taken && !isClosed(t.s.ptr) }

// Select returns the index of the case that was chosen, len(cs) for the default case.
//
//go:norace
func Select(def bool, cs ...any) int {
	if cur == nil {
		var rc []reflect.SelectCase
		for _, c := range cs {
			rc = append(rc, c.(interface{ reflected() reflect.SelectCase }).reflected())
		}
		if def {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i < len(cs) {
			if r, isRecv := cs[i].(interface {
				set(v reflect.Value, ok bool)
			}); isRecv {
				r.set(v, ok)
			}
		}
		return i
	}
	l := make([]selectCase, len(cs))
	for i, c := range cs {
		l[i] = c.(selectCase)
	}
	return choose(l, def)
}

func (c *SendC[T]) reflected() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: reflect.ValueOf(&c.v).Elem()}
}

func (c *RecvC[T]) reflected() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}

func (c *RecvC[T]) set(v reflect.Value, ok bool) {
	if c.Ok = ok; ok {
		reflect.ValueOf(&c.Val).Elem().Set(v)
	}
}

// To is the sending side of a channel.
type Sender[T any] struct{ ch chan<- T }

//go:norace
func To[T any](ch chan<- T) Sender[T] { return Sender[T]{ch} }

//go:norace
func (s Sender[T]) Case(v T) *SendC[T] { return SendCase(s.ch, v) }

//go:norace
func (s Sender[T]) Send(v T) {
	if cur == nil {
		s.ch <- v
		return
	}
	choose([]selectCase{SendCase(s.ch, v)}, false)
}

//go:norace
func Recv[T any](ch <-chan T) T {
	if cur == nil {
		return <-ch
	}
	c := RecvCase(ch)
	choose([]selectCase{c}, false)
	return c.Val
}

//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if cur == nil {
		v, ok := <-ch
		return v, ok
	}
	c := RecvCase(ch)
	choose([]selectCase{c}, false)
	return c.Val, c.Ok
}

//go:norace
func Close[T any](ch chan<- T) {
	if cur == nil {
		close(ch)
		return
	}
	point()
	close(ch)

}
