// Package vrt is the run time of the instrumented build of the parser (see instr): it counts steps, answers the
// choice of map iteration orders and is the scheduler of controlled goroutines.
package vrt

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
	"sync/atomic"
	"time"
)

// ---- steps

var (
	Steps int64
	Limit int64 // 0: none
)

// StepLimit is the panic value when Limit is exceeded.
type StepLimit struct{}

// F is called at every function entry.
//
//go:norace
func F() {
	Steps++
	if Limit > 0 && Steps > Limit {
		panic(StepLimit{})
	}
	if cur != nil && everyFunction {
		point()
	}
}

// L is called at every loop iteration.
//
//go:norace
func L() {
	Steps++
	if Limit > 0 && Steps > Limit {
		panic(StepLimit{})
	}
}

// MaxVars is the number of shared variables that are told apart.
const MaxVars = 4096

// Written has the shared variables that were written so far, Live those at whose uses threads are switched.
var Written, Live [MaxVars]bool

// R is called before a statement that reads the shared variable id, W before one that may change it.
//
//go:norace
func R(id int) {
	if cur != nil && Live[id%MaxVars] {
		point()
	}
}

//go:norace
func W(id int) {
	Written[id%MaxVars] = true
	if cur != nil {
		point()
	}
}

// ---- the clock

// Offset is added to the time the parser sees.
var Offset time.Duration

func Now() time.Time { return time.Now().Add(Offset) }

// ---- maps

// MapOrder, if set, chooses the iteration order of a map with n > 1 entries: a permutation of 0..n-1.
var MapOrder func(n int) []int

// Keys returns the keys of a map in the chosen order (by default sorted).
func Keys[M ~map[K]V, K comparable, V any](m M) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	var k0 K
	switch reflect.TypeOf(&k0).Elem().Kind() {
	case reflect.String:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).String() < reflect.ValueOf(ks[j]).String() })
	case reflect.Int, reflect.Int64, reflect.Int32:
		sort.Slice(ks, func(i, j int) bool { return reflect.ValueOf(ks[i]).Int() < reflect.ValueOf(ks[j]).Int() })
	default:
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprintf("%v", ks[i]) < fmt.Sprintf("%v", ks[j]) })
	}
	if MapOrder != nil && len(ks) > 1 {
		p := MapOrder(len(ks))
		r := make([]K, len(ks))
		for i, j := range p {
			r[i] = ks[j]
		}
		return r
	}
	return ks
}

// ReflectKeys does the same for reflect values (not used by the rewriting, for harnesses).
func ReflectKeys(v reflect.Value) []reflect.Value {
	ks := v.MapKeys()
	sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
	return ks
}

// ---- controlled scheduling

// Blocker is what a suspended thread waits for.
type Blocker interface{ Blocked() bool }

type thread struct {
	id     int
	resume chan struct{}
	done   bool
	on     Blocker // nil: runnable
	panicV interface{}
}

var (
	cur           *thread
	threads       []*thread
	chooser       Chooser
	everyFunction bool
	finished      chan struct{}
	deadlock      bool
	aborting      bool
	joined        sync.WaitGroup
	Points        int64 // points passed in the last run
	Switches      int64
)

type abort struct{}

// foreign counts the goroutines of the code under test that run outside the scheduler.
var foreign int64

// Uncontrolled: in the last run threads waited for goroutines outside the scheduler, or the code under test left a
// goroutine behind. The run says nothing about the code then.
var Uncontrolled bool
var nbodies int

// Active reports whether the calling code runs under the scheduler.
//
//go:norace
func Active() bool { return cur != nil }

//go:norace
func runnable(r []*thread) []*thread {
	// the current thread first, so that answer 0 means no preemption
	if cur != nil && !cur.done && (cur.on == nil || !cur.on.Blocked()) {
		r = append(r, cur)
	}
	// then the others in turn, so that answer 1 goes round
	from := 0
	if cur != nil {
		from = cur.id + 1
	}
	for i := range threads {
		t := threads[(from+i)%len(threads)]
		if t != cur && !t.done && (t.on == nil || !t.on.Blocked()) {
			r = append(r, t)
		}
	}
	return r
}

//go:norace
func pick() *thread {
	var buf [128]*thread
	r := runnable(buf[:0])
	if len(r) == 0 {
		return nil
	}
	if len(r) == 1 {
		return r[0]
	}
	return r[chooser.Choose(len(r), r[0] == cur)]
}

// transfer hands over to another thread and waits for its turn.
//
//go:norace
func transfer(t, n *thread) {
	Switches++
	cur = n
	raceOff()
	n.resume <- struct{}{}
	<-t.resume
	raceOn()
	if aborting {
		panic(abort{})
	}
}

//go:norace
func point() {
	if aborting {
		panic(abort{})
	}
	Points++
	t := cur
	n := pick()
	if n == nil || n == t {
		return
	}
	transfer(t, n)
}

// Point is a scheduling point of a shim.
//
//go:norace
func Point() {
	if cur != nil {
		point()
	}
}

// Block suspends the current thread as long as b is blocked.
//
//go:norace
func Block(b Blocker) {
	t := cur
	for b.Blocked() {
		t.on = b
		n := pick()
		if n == nil {
			Uncontrolled = true
			for i := 0; i < nbodies; i++ {
				if !threads[i].done {
					deadlock, Uncontrolled = true, false
				}
			}
			aborting = true
			panic(abort{})
		}
		if n != t {
			transfer(t, n)
		}
		t.on = nil
	}
}

//go:norace
func end(t *thread, r interface{}) {
	if r != nil {
		if _, ok := r.(abort); !ok {
			t.panicV = r
		}
	}
	t.done = true
	var n *thread
	if !aborting {
		n = pick()
	}
	if n == nil {
		for _, o := range threads {
			if !o.done {
				deadlock = deadlock || !aborting && o.id < nbodies
				Uncontrolled = Uncontrolled || !aborting && o.id >= nbodies
				aborting = true
				n = o
				break
			}
		}
	}
	cur = n
	raceOff()
	if n == nil {
		close(finished)
	} else {
		n.resume <- struct{}{}
	}
	raceOn()
}

//go:norace
func wait(t *thread) {
	raceOff()
	<-t.resume
	raceOn()
}

//go:norace
func stopping() bool { return aborting }

func (t *thread) run(body func()) {
	wait(t)
	defer func() {
		r := recover()
		joined.Done() // orders what the thread did before what follows Run
		end(t, r)
	}()
	if stopping() {
		return
	}
	body()
}

// Go starts a goroutine of the code under test.
//
//go:norace
func Go(body func()) {
	if cur == nil {
		atomic.AddInt64(&foreign, 1)
		go func() {
			defer atomic.AddInt64(&foreign, -1)
			body()
		}()
		return
	}
	t := &thread{id: len(threads), resume: make(chan struct{})}
	threads = append(threads, t)
	joined.Add(1)
	go t.run(body)
	point()
}

// Chooser answers the scheduling choices. Its methods must be marked norace and not grow slices.
type Chooser interface{ Choose(n int, cont bool) int }

// Run runs the bodies as controlled threads. ch answers the scheduling choices among n runnable threads; cont: the
// current thread could continue, which is answer 0. every: function entries are points, too.
// An uncaught panic of a thread is returned at its index.
//
//go:norace
func Run(bodies []func(), every bool, ch Chooser) (panics []interface{}, dead bool) {
	threads = make([]*thread, 0, 128)
	chooser = ch
	everyFunction = every
	finished = make(chan struct{})
	deadlock, aborting = false, false
	Points, Switches = 0, 0
	Uncontrolled, nbodies = false, len(bodies)
	resetChans()
	for i := range bodies {
		threads = append(threads, &thread{id: i, resume: make(chan struct{})})
	}
	joined.Add(len(bodies))
	for i := range bodies {
		go threads[i].run(bodies[i])
	}
	k := 0
	if len(threads) > 1 {
		k = ch.Choose(len(threads), false)
	}
	cur = threads[k]
	raceOff()
	threads[k].resume <- struct{}{}
	<-finished
	raceOn()
	joined.Wait()
	cur = nil
	for _, t := range threads {
		panics = append(panics, t.panicV)
	}
	if deadlock && atomic.LoadInt64(&foreign) > 0 {
		deadlock, Uncontrolled = false, true
	}
	return panics, deadlock
}

// Entry is an entry of a map.
type Entry[K comparable, V any] struct {
	K K
	V V
}

// Entries returns the entries of a map in the order of Keys.
func Entries[M ~map[K]V, K comparable, V any](m M) (r []Entry[K, V]) {
	for _, k := range Keys(m) {
		r = append(r, Entry[K, V]{k, m[k]})
	}
	return
}

var collect struct {
	mu sync.Mutex
	fs []func()
}

// OnCollect registers what the garbage collector does to a pool.
func OnCollect(f func()) {
	collect.mu.Lock()
	collect.fs = append(collect.fs, f)
	collect.mu.Unlock()
}

// Collect empties the pools.
func Collect() {
	collect.mu.Lock()
	fs := collect.fs
	collect.fs = nil
	collect.mu.Unlock()
	for _, f := range fs {
		f()
	}
}
