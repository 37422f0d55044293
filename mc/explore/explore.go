// Package explore is a stateless, choice-driven explorer: it enumerates every path of a choice tree
// whose number of deviations (non-default answers to Choose) is within a bound; answers to Pick are free
// and enumerated completely. Paths are explored in the order of their number of deviations.
package explore

import (
	"fmt"
	"sync"
	"sync/atomic"
	"time"
)

type point struct {
	n    uint16
	free bool
}

// Ctl answers the choices of one execution.
type Ctl struct {
	prefix []uint16
	pts    []point
	ans    []uint16
	cost   int
	skip   bool
	wid    int
}

func (c *Ctl) next(n int, free bool) int {
	if n <= 0 {
		panic("choice without alternatives")
	}
	if n == 1 {
		return 0
	}
	i := len(c.ans)
	a := 0
	if i < len(c.prefix) {
		a = int(c.prefix[i])
		if a >= n {
			panic(fmt.Sprintf("divergence: replayed answer %d of %d at choice %d", a, n, i))
		}
	}
	c.pts = append(c.pts, point{uint16(n), free})
	c.ans = append(c.ans, uint16(a))
	if !free && a != 0 {
		c.cost++
	}
	return a
}

// Choose is a choice whose alternatives other than 0 are deviations.
func (c *Ctl) Choose(n int) int { return c.next(n, false) }

// Pick is a free choice.
func (c *Ctl) Pick(n int) int { return c.next(n, true) }

// Skip marks the execution as not realizable; nothing is checked, its alternatives are still explored.
func (c *Ctl) Skip() { c.skip = true }

func (c *Ctl) Skipped() bool { return c.skip }

// Worker is the index of the worker goroutine that runs the execution.
func (c *Ctl) Worker() int { return c.wid }

func (c *Ctl) Answers() []int {
	r := make([]int, len(c.ans))
	for i, a := range c.ans {
		r[i] = int(a)
	}
	return r
}

type Stats struct {
	States      int64 // nodes of the choice tree visited
	Transitions int64 // edges of the choice tree taken
	Executions  int64
	Skipped     int64
	Exhaustive  bool // everything within the bound was explored
	Bound       int  // largest deviation bound completed (-1: not even 0)
}

type Failure struct {
	Answers []int
	Cost    int
	Msg     string
}

// Run explores the tree of body. body returns a message when the execution violates the property.
// It stops at the deadline or at the first failure (after the running executions).
func Run(body func(c *Ctl) string, bound, workers int, deadline time.Time) (Stats, *Failure) {
	type bucket [][]uint16
	var (
		mu      sync.Mutex
		cond    = sync.NewCond(&mu)
		buckets = make([]bucket, bound+1)
		busy    int
		level   int
		stop    bool
		fail    *Failure
		st      Stats
		capped  bool
		ticks   int64
	)
	buckets[0] = bucket{nil}
	st.Bound = -1

	worker := func(wid int) {
		mu.Lock()
		defer mu.Unlock()
		for {
			for !stop && len(buckets[level]) == 0 && busy > 0 {
				cond.Wait()
			}
			if stop {
				return
			}
			if len(buckets[level]) == 0 {
				// busy == 0
				st.Bound = level
				if level == bound {
					stop = true
					cond.Broadcast()
					return
				}
				level++
				cond.Broadcast()
				continue
			}
			b := buckets[level]
			k := 1
			if len(b) > 64*workers {
				k = 16
			}
			jobs := append([][]uint16(nil), b[len(b)-k:]...)
			buckets[level] = b[:len(b)-k]
			cur := level
			busy++
			mu.Unlock()

			type add struct {
				cost int
				p    []uint16
			}
			var adds []add
			var ns, nt, ne, nk int64
			var f *Failure
			late := false
			for len(jobs) > 0 {
				prefix := jobs[len(jobs)-1]
				jobs = jobs[:len(jobs)-1]
				c := Ctl{prefix: prefix, wid: wid}
				msg := body(&c)
				if len(c.ans) < len(prefix) {
					panic(fmt.Sprintf("divergence: %d choices, prefix %v", len(c.ans), prefix))
				}
				ne++
				if c.skip {
					nk++
				}
				ns += int64(len(c.pts)-len(prefix)) + 1
				nt += int64(len(c.pts) - len(prefix))
				if len(prefix) > 0 {
					nt++
				}
				if msg != "" && !c.skip {
					f = &Failure{Answers: c.Answers(), Cost: c.cost, Msg: msg}
					break
				}
				for i := len(c.pts) - 1; i >= len(prefix); i-- {
					cost := cur
					if !c.pts[i].free {
						cost++
					}
					if cost > bound {
						continue
					}
					for a := int(c.pts[i].n) - 1; a >= 1; a-- {
						p := make([]uint16, i+1)
						copy(p, c.ans[:i])
						p[i] = uint16(a)
						if cost == cur && len(adds) > 32 && len(jobs) < 256 {
							jobs = append(jobs, p)
						} else {
							adds = append(adds, add{cost, p})
						}
					}
				}
				if atomic.AddInt64(&ticks, 1)%64 == 0 && time.Now().After(deadline) {
					late = true
					break
				}
			}

			mu.Lock()
			busy--
			st.States += ns
			st.Transitions += nt
			st.Executions += ne
			st.Skipped += nk
			capped = capped || late
			for _, a := range adds {
				buckets[a.cost] = append(buckets[a.cost], a.p)
			}
			if f != nil && (fail == nil || f.Cost < fail.Cost) {
				fail = f
			}
			if fail != nil || capped {
				stop = true
			}
			cond.Broadcast()
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); worker(i) }(i)
	}
	wg.Wait()
	st.Exhaustive = fail == nil && !capped && st.Bound == bound
	return st, fail
}

// Replay runs body once with the given answers.
func Replay(body func(c *Ctl) string, answers []int) (string, bool) {
	p := make([]uint16, len(answers))
	for i, a := range answers {
		p[i] = uint16(a)
	}
	c := Ctl{prefix: p}
	msg := body(&c)
	return msg, !c.skip
}
