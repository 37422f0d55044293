// Command imc is built with the instrumented parser (see instr). It reads requests, one JSON value per line, and
// answers with one line each. Every request that depends on a cold parser is sent to a process of its own.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	"github.com/shellyln/go-open-soql-parser/soql/parser/types"

	"verif/mc/dump"
	"verif/mc/explore"
	"verif/mc/imcp"
	"verif/mc/vrt"
)

type outcome struct {
	q   *types.SoqlQuery
	err error
	pan string
}

func parse(s string) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vrt.StepLimit); ok {
				o = outcome{pan: "steps"}
				return
			}
			if !vrt.Active() {
				o = outcome{pan: fmt.Sprintf("panic: %v", r)}
				return
			}
			panic(r)
		}
	}()
	o.q, o.err = parser.Parse(s)
	return
}

func (o outcome) String() string {
	switch {
	case o.pan != "":
		return o.pan
	case o.err != nil && o.q != nil:
		return "both: " + o.err.Error()
	case o.err != nil:
		return "error: " + o.err.Error()
	}
	return dump.Value(o.q)
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMaxStack(512 << 20)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	enc := json.NewEncoder(os.Stdout)
	for {
		var r imcp.Request
		if err := dec.Decode(&r); err != nil {
			return
		}
		var a imcp.Answer
		switch r.Op {
		case "solo":
			solo(&r, &a)
		case "explore":
			conc(&r, &a)
		case "schedule":
			one(&r, &a)
		case "plain":
			for _, t := range r.Texts {
				a.Dumps = append(a.Dumps, parse(t).String())
			}
		case "free":
			free(&r, &a)
		case "sweep":
			sweep(&r, &a)
		case "sequence":
			sequence(&r, &a)
		case "after":
			after(&r, &a)
		case "history":
			history(&r, &a)
		case "heap":
			heap(&r, &a)
		case "clock":
			clock(&r, &a)
		case "maps":
			maps(&r, &a)
		case "steps":
			steps(&r, &a)
		default:
			a.Fail = "unknown request " + r.Op
		}
		enc.Encode(&a)
	}
}

func live(ids []int) {
	for _, i := range ids {
		vrt.Live[i] = true
	}
}

func written() (r []int) {
	for i, w := range vrt.Written {
		if w {
			r = append(r, i)
		}
	}
	return
}

// planner answers the choices of a schedule with a plan, then with the base schedule, and records them. The base
// schedule lets every thread run as far as it can, or, with a quantum, goes round the threads after so many points;
// backward: the other way round.
type planner struct {
	plan     []uint8
	quantum  int
	backward bool
	ran      int // points since the last switch
	k        int
	diverged int64
	rec      []int32 // numbers of runnable threads, negative if the current one can continue
	ans      []uint8
}

//go:norace
func (p *planner) Choose(n int, cont bool) int {
	x := p.base(n, cont)
	if p.k < len(p.plan) {
		if x = int(p.plan[p.k]); x >= n { // the parser does not behave as in the execution this one was derived from
			x = 0
			p.diverged++
		}
	}
	if p.k < len(p.rec) {
		c := int32(n)
		if cont {
			c = -c
		}
		p.rec[p.k] = c
		p.ans[p.k] = uint8(x)
	}
	p.k++
	return x
}

//go:norace
func (p *planner) base(n int, cont bool) int {
	if cont {
		if p.ran++; p.quantum == 0 || p.ran < p.quantum {
			return 0
		}
	}
	p.ran = 0
	switch {
	case p.backward:
		return n - 1
	case cont:
		return 1
	}
	return 0
}

func newPlanner(plan []uint8) *planner {
	return &planner{plan: plan, rec: make([]int32, 1<<17), ans: make([]uint8, 1<<17)}
}

func (p *planner) start(r *imcp.Request, plan []uint8) {
	p.quantum, p.backward = r.Quantum, r.Backward
	p.plan, p.k, p.diverged, p.ran = plan, 0, 0, 0
}

func (p *planner) choices() []int32 {
	if p.k < len(p.rec) {
		return p.rec[:p.k]
	}
	return p.rec
}

// solo parses the texts one after the other under the scheduler, as its only thread.
func solo(r *imcp.Request, a *imcp.Answer) {
	live(r.Live)
	for _, t := range r.Texts {
		var o outcome
		vrt.Written = [vrt.MaxVars]bool{}
		p, _ := vrt.Run([]func(){func() { o = parse(t) }}, r.Every, newPlanner(nil))
		if p[0] != nil {
			o.pan = fmt.Sprintf("panic: %v", p[0])
		}
		a.Uncontrolled = a.Uncontrolled || vrt.Uncontrolled
		a.Dumps = append(a.Dumps, o.String())
		a.Points = append(a.Points, vrt.Points)
	}
	a.Written = written()
}

// run runs one schedule; ch answers the choices.
func run(r *imcp.Request, a *imcp.Answer, ch vrt.Chooser) string {
	errs := vrt.RaceErrors()
	outs := make([]outcome, len(r.Texts))
	bodies := make([]func(), len(r.Texts))
	for i, t := range r.Texts {
		o := &outs[i]
		t := t
		bodies[i] = func() { *o = parse(t) }
	}
	panics, dead := vrt.Run(bodies, r.Every, ch)
	if vrt.Uncontrolled {
		a.Uncontrolled = true
		return ""
	}
	if dead {
		return "deadlock"
	}
	for i, p := range panics {
		if i >= len(outs) {
			if p != nil {
				return fmt.Sprintf("a goroutine of the parser panics: %v", p)
			}
			continue
		}
		if p != nil {
			outs[i] = outcome{pan: fmt.Sprintf("panic: %v", p)}
		}
		if s := outs[i].String(); s != r.Expect[i] {
			return fmt.Sprintf("call %d (%q) has another result than alone: %s", i, r.Texts[i], imcp.Diff(r.Expect[i], s))
		}
	}
	for i := range outs {
		for j := 0; j < i; j++ {
			if outs[i].q != nil && outs[i].q == outs[j].q {
				return "two calls return the same query object"
			}
		}
	}
	if vrt.RaceErrors() > errs {
		return "data race"
	}
	return ""
}

// one runs one schedule, given by its answers.
func one(r *imcp.Request, a *imcp.Answer) {
	live(r.Live)
	for _, t := range r.Warm {
		parse(t)
	}
	p := newPlanner(nil)
	p.start(r, bytes(r.Plan))
	a.Fail = run(r, a, p)
	for _, c := range p.choices() {
		a.Choices = append(a.Choices, int(c))
	}
	a.Diverged = p.diverged
	a.Points = []int64{vrt.Points}
	a.Executions = 1
	a.States = int64(p.k)
	a.Written = written()
}

func bytes(x []int) (r []uint8) {
	for _, i := range x {
		r = append(r, uint8(i))
	}
	return
}

func ints(x []uint8) (r []int) {
	for _, i := range x {
		r = append(r, int(i))
	}
	return
}

// conc explores all schedules of the texts within the preemption bound (or, with a quantum, all that deviate so often
// from going round), on a parser that has parsed the warm-up texts.
func conc(r *imcp.Request, a *imcp.Answer) {
	live(r.Live)
	for _, t := range r.Warm {
		parse(t)
	}
	deadline := time.Now().Add(time.Duration(r.Millis) * time.Millisecond)
	type node struct {
		plan []uint8
		cost int
	}
	todo := []node{{}} // few deviations first; from the other end when there are many
	root := true
	a.Complete = true
	p := newPlanner(nil)
	for len(todo) > 0 {
		var nd node
		if len(todo) < 200_000 {
			nd, todo = todo[0], todo[1:]
		} else {
			nd, todo = todo[len(todo)-1], todo[:len(todo)-1]
		}
		if time.Now().After(deadline) {
			a.Complete = false
			break
		}
		p.start(r, nd.plan)
		msg := run(r, a, p)
		ch := p.choices()
		if p.k > len(ch) {
			a.Complete = false
		}
		a.Diverged += p.diverged
		a.Executions++
		if n := len(ch) - len(nd.plan); n >= 0 {
			a.States += int64(n) + 1
		} else {
			a.Diverged++
		}
		if a.MaxPoints < vrt.Points {
			a.MaxPoints = vrt.Points
		}
		if msg != "" || a.Uncontrolled {
			a.Fail, a.Plan = msg, ints(nd.plan)
			break
		}
		kid := 0
		for i := len(nd.plan); i < len(ch); i++ {
			cost, n := nd.cost, int(ch[i])
			if n < 0 {
				n = -n
				cost++
			} else if r.Quantum > 0 {
				cost++
			}
			if cost > r.Bound {
				continue
			}
			for x := 0; x < n; x++ {
				if x == int(p.ans[i]) {
					continue
				}
				kid++
				if root && r.Shards > 0 && kid%r.Shards != r.Shard {
					continue
				}
				q := make([]uint8, i+1)
				copy(q, p.ans[:i])
				q[i] = uint8(x)
				todo = append(todo, node{q, cost})
			}
		}
		root = false
	}
	a.Written = written()
}

// sweep runs, for every text, that text, its successor and the probes concurrently with some schedules.
func sweep(r *imcp.Request, a *imcp.Answer) {
	live(r.Live)
	deadline := time.Now().Add(time.Duration(r.Millis) * time.Millisecond)
	p := newPlanner(nil)
	alone := func(t string) (s string) {
		var o outcome
		pan, dead := vrt.Run([]func(){func() { o = parse(t) }}, false, p)
		for i, w := range vrt.Written {
			vrt.Live[i] = vrt.Live[i] || w
		}
		switch {
		case vrt.Uncontrolled:
			a.Uncontrolled = true
		case dead:
			a.Fail = fmt.Sprintf("parsing %q after other texts does not return", t)
		case pan[0] != nil:
			return fmt.Sprintf("panic: %v", pan[0])
		}
		return o.String()
	}
	var probes []string
	for _, t := range r.Probes {
		probes = append(probes, alone(t))
	}
	prev, prevText := "", ""
	for i, t := range r.Texts {
		own := alone(t)
		if i == 0 {
			prev, prevText = own, t
			continue
		}
		q := imcp.Request{Texts: append([]string{prevText, t}, r.Probes...), Expect: append([]string{prev, own}, probes...), Every: r.Every}
		prev, prevText = own, t
		for _, quantum := range r.Plan {
			if a.Fail != "" || a.Uncontrolled {
				a.Plan = []int{i, quantum}
				return
			}
			if time.Now().After(deadline) {
				return
			}
			q.Quantum, q.Backward = quantum, false
			if quantum < 0 {
				q.Quantum, q.Backward = -quantum, true
			}
			p.start(&q, nil)
			a.Fail = run(&q, a, p)
			a.Executions++
			a.States += int64(p.k) + 1
			if a.MaxPoints < vrt.Points {
				a.MaxPoints = vrt.Points
			}
		}
	}
	a.Complete = a.Fail == "" && !a.Uncontrolled
	a.Written = written()
}

// after parses the texts, then the probes, which must have the expected results.
func after(r *imcp.Request, a *imcp.Answer) {
	for _, t := range r.Texts {
		parse(t)
	}
	for i, t := range r.Probes {
		if s := parse(t).String(); s != r.ProbeExpect[i] {
			a.Fail = fmt.Sprintf("the result of %q depends on earlier calls: %s", t, imcp.Diff(r.ProbeExpect[i], s))
			return
		}
	}
	a.Complete = true
}

// sequence parses the texts one after the other and reports the results.
func sequence(r *imcp.Request, a *imcp.Answer) {
	deadline := time.Now().Add(time.Duration(r.Millis) * time.Millisecond)
	for _, t := range r.Texts {
		if time.Now().After(deadline) {
			return
		}
		h := sha256.Sum256([]byte(parse(t).String()))
		a.Executions++
		a.Dumps = append(a.Dumps, base64.RawStdEncoding.EncodeToString(h[:12]))
	}
	a.Complete = true
}

// free runs the texts as ordinary goroutines, again and again (for code that the scheduler cannot control).
func free(r *imcp.Request, a *imcp.Answer) {
	for n := 0; n < r.Rounds; n++ {
		errs := vrt.RaceErrors()
		outs := make([]outcome, len(r.Texts))
		done := make(chan int, len(r.Texts))
		start := make(chan int)
		for i := range r.Texts {
			i := i
			go func() {
				<-start
				outs[i] = parse(r.Texts[i])
				done <- 1
			}()
		}
		close(start)
		late := time.After(time.Duration(r.Millis) * time.Millisecond)
		for range r.Texts {
			select {
			case <-done:
			case <-late:
				a.Fail = "the calls do not return"
				return
			}
		}
		a.Executions++
		for i := range outs {
			if s := outs[i].String(); s != r.Expect[i] {
				a.Fail = fmt.Sprintf("call %d (%q) has another result than alone: %s", i, r.Texts[i], imcp.Diff(r.Expect[i], s))
				return
			}
		}
		if vrt.RaceErrors() > errs {
			a.Fail = "data race"
			return
		}
	}
}

// history: the texts one after the other, some of the results overwritten; then the probes.
func history(r *imcp.Request, a *imcp.Answer) {
	type kept struct {
		o    outcome
		mem  []dump.Range
		text string
	}
	var keep []kept
	share := func(o outcome, text string) bool {
		if o.q == nil {
			return false
		}
		k := kept{o, dump.Memory(o.q), text}
		for _, x := range keep {
			if m := dump.Common(x.mem, k.mem); m != "" {
				a.Fail = fmt.Sprintf("the results of %q and %q share memory: %s", x.text, text, m)
				return true
			}
		}
		keep = append(keep, k)
		return false
	}
	for i, t := range r.Texts {
		o := parse(t)
		a.Executions++
		if s := o.String(); s != r.Expect[i] {
			a.Fail = fmt.Sprintf("result of call %d (%q) depends on earlier calls: %s", i, t, imcp.Diff(r.Expect[i], s))
			return
		}
		if share(o, t) {
			return
		}
		if r.Scribble[i] && o.q != nil {
			dump.Scribble(o.q)
		}
	}
	before := len(keep)
	for n := 0; n < r.Rounds; n++ {
		for i, t := range r.Probes {
			o := parse(t)
			a.Executions++
			if s := o.String(); s != r.ProbeExpect[i] {
				a.Fail = fmt.Sprintf("result of %q depends on earlier calls: %s", t, imcp.Diff(r.ProbeExpect[i], s))
				return
			}
			if len(keep) < before+64 {
				if share(o, t) {
					return
				}
			}
		}
	}
	// the results that were not touched are still the same
	for i, t := range r.Probes {
		if before+i < len(keep) && keep[before+i].text == t {
			if s := keep[before+i].o.String(); s != r.ProbeExpect[i] {
				a.Fail = fmt.Sprintf("the result of %q changed after it was returned: %s", t, imcp.Diff(r.ProbeExpect[i], s))
				return
			}
		}
	}
	runtime.KeepAlive(keep)
	a.Complete = true
}

// maps explores the iteration orders of the maps.
func maps(r *imcp.Request, a *imcp.Answer) {
	a.Complete = true
	deadline := time.Now().Add(time.Duration(r.Millis) * time.Millisecond)
	for i, t := range r.Texts {
		var order [][]int
		st, f := explore.Run(func(c *explore.Ctl) string {
			order = order[:0]
			vrt.MapOrder = func(n int) []int {
				ps := perms(n)
				p := ps[c.Choose(len(ps))]
				order = append(order, p)
				return p
			}
			o := parse(t)
			vrt.MapOrder = nil
			if s := o.String(); s != r.Expect[i] {
				return fmt.Sprintf("the result depends on the iteration order of a map (%v): %s", order, imcp.Diff(r.Expect[i], s))
			}
			return ""
		}, r.Bound, 1, deadline)
		a.Executions += st.Executions
		a.States += st.States
		a.Complete = a.Complete && st.Exhaustive
		if f != nil {
			a.Fail = f.Msg
			a.Plan = []int{i}
			return
		}
	}
}

// clock parses the texts at other times.
func clock(r *imcp.Request, a *imcp.Answer) {
	now := time.Now()
	for _, at := range []time.Time{now, now.Add(time.Hour), now.AddDate(0, 0, 1), now.AddDate(0, 1, 0), now.AddDate(1, 0, 0), now.AddDate(20, 5, 13),
		time.Date(2024, 2, 29, 23, 59, 59, 0, time.UTC), time.Date(2000, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(1999, 12, 31, 12, 0, 0, 0, time.UTC), time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC)} {
		vrt.Offset = at.Sub(now)
		for i, t := range r.Texts {
			a.Executions++
			if s := parse(t).String(); s != r.Expect[i] {
				a.Fail = fmt.Sprintf("the result of %q depends on the time (%v): %s", t, at, imcp.Diff(r.Expect[i], s))
				return
			}
		}
	}
	vrt.Offset = 0
	a.Complete = true
}

var permCache = map[int][][]int{}

// perms returns all permutations of up to 4 elements; of more, the reversal, the rotations and the exchanges of two elements.
func perms(n int) [][]int {
	if p := permCache[n]; p != nil {
		return p
	}
	var r [][]int
	id := make([]int, n)
	for i := range id {
		id[i] = i
	}
	if n <= 4 {
		var rec func(p []int, k int)
		rec = func(p []int, k int) {
			if k == n {
				r = append(r, append([]int(nil), p...))
				return
			}
			for i := k; i < n; i++ {
				p[k], p[i] = p[i], p[k]
				rec(p, k+1)
				p[k], p[i] = p[i], p[k]
			}
		}
		rec(id, 0)
	} else {
		r = append(r, append([]int(nil), id...))
		for k := 1; k < n; k++ {
			r = append(r, append(append([]int(nil), id[k:]...), id[:k]...))
		}
		rev := make([]int, n)
		for i := range rev {
			rev[i] = n - 1 - i
		}
		r = append(r, rev)
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				p := append([]int(nil), id...)
				p[i], p[j] = p[j], p[i]
				r = append(r, p)
			}
		}
	}
	permCache[n] = r
	return r
}

// heap measures the memory that is still in use after parsing the texts.
func heap(r *imcp.Request, a *imcp.Answer) {
	use := func() int64 {
		var m runtime.MemStats
		vrt.Collect()
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	for i := 0; i < 2; i++ {
		for _, t := range r.Warm {
			parse(string([]byte(t)))
		}
	}
	a.Points = append(a.Points, use())
	for _, t := range r.Texts {
		vrt.Steps, vrt.Limit = 0, 50_000_000
		parse(string([]byte(t))) // a copy: the request keeps the text itself
		vrt.Limit = 0
	}
	a.Points = append(a.Points, use())
	a.Executions = int64(len(r.Texts))
	if len(r.Limits) > 0 && a.Points[1]-a.Points[0] > r.Limits[0] {
		a.Fail = fmt.Sprintf("parsing %d texts leaves %d KB more memory in use than before", len(r.Texts), (a.Points[1]-a.Points[0])>>10)
	}
}

// steps counts the steps of parsing each text.
func steps(r *imcp.Request, a *imcp.Answer) {
	for _, t := range r.Warm {
		parse(t)
	}
	for i, t := range r.Texts {
		vrt.Steps, vrt.Limit = 0, 50_000_000
		o := parse(t) // this one may build parts of the parser, which stay
		if o.pan == "" {
			vrt.Steps, vrt.Limit = 0, r.Limits[i]
			o = parse(t)
		}
		vrt.Limit = 0
		switch {
		case o.pan == "steps":
			a.Points = append(a.Points, -vrt.Steps)
			a.Fail = fmt.Sprintf("more than %d steps", vrt.Steps)
		default:
			a.Points = append(a.Points, vrt.Steps)
		}
		switch {
		case o.pan != "":
			a.Dumps = append(a.Dumps, o.pan)
		case o.err != nil:
			a.Dumps = append(a.Dumps, "rejected")
		default:
			a.Dumps = append(a.Dumps, "accepted")
		}
	}
}
