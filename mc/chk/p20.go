package chk

import (
	"fmt"
	"os"
	"time"

	"verif/mc/imcp"
)

func init() { special["P20"] = runP20 }

// runP20 explores the interleavings of concurrent calls under the controlled scheduler, with the race detector watching
// the accesses (the scheduler's own hand-overs are hidden from it).
func runP20(cfg Config, cov *Coverage) *Violation {
	work, clean, err := cfg.scratch()
	if err != nil {
		fatal(err)
	}
	defer clean()
	b, err := buildImc(cfg, work, true)
	if err != nil {
		fatal(err)
	}
	thorough := cfg.Tier == "thorough"
	deadline := time.Now().Add(cfg.Budget * 3 / 2)
	texts := poolTexts
	if thorough {
		texts = append(append([]string(nil), poolTexts...), morePool...)
	}
	dumps, live, points, err := baseline(b, texts)
	if err == errBlocked {
		return freeP20(cfg, cov, b, texts)
	}
	if err != nil {
		return &Violation{Input: "", Msg: err.Error(), Extra: map[string]interface{}{}}
	}
	cov.Exhaustive = true
	cov.Extra["instrumented"] = b.stats
	cov.Extra["shared_variables_written"] = len(live)
	var phases []map[string]interface{}
	var bad *job
	blocked := false
	phase := func(name string, jobs []*job) bool {
		if bad != nil || blocked {
			return false
		}
		// no exploration takes more than its share of the time
		ms := int(time.Until(deadline)/time.Millisecond) / 4
		if ms < 2000 {
			ms = 2000
		}
		for _, j := range jobs {
			if j.req.Op == "explore" || j.req.Op == "sweep" {
				j.req.Millis, j.wait = ms, time.Duration(ms)*time.Millisecond+30*time.Second
			}
		}
		var ex, st, max, div int64
		ok := askAll(jobs, deadline, func(j *job) bool {
			ex += j.ans.Executions
			st += j.ans.States
			div += j.ans.Diverged
			if j.ans.MaxPoints > max {
				max = j.ans.MaxPoints
			}
			if j.hung || j.ans.Uncontrolled {
				blocked = true
				return true
			}
			if (j.err != "" || j.ans.Fail != "") && bad == nil {
				bad = j
				return true
			}
			return false
		})
		complete := ok
		for _, j := range jobs {
			complete = complete && j.run && (j.ans.Complete || j.req.Op == "schedule")
		}
		cov.Executions += ex
		cov.States += st
		cov.Transitions += st
		cov.Validated += ex
		cov.Exhaustive = cov.Exhaustive && complete
		phases = append(phases, map[string]interface{}{"phase": name, "explorations": len(jobs), "schedules": ex, "states": st, "max_points_of_a_run": max, "exhaustive_within_bound": complete, "diverged": div})
		return bad == nil
	}
	explore := func(bin string, every bool, bound int, warm []string, shards int, idx ...int) (r []*job) {
		if shards == 0 {
			shards = 1
		}
		for s := 0; s < shards; s++ {
			q := imcp.Request{Op: "explore", Every: every, Bound: bound, Live: live, Warm: warm, Shards: shards, Shard: s}
			for _, i := range idx {
				q.Texts = append(q.Texts, texts[i])
				q.Expect = append(q.Expect, dumps[i])
			}
			r = append(r, &job{bin: bin, req: q})
		}
		return
	}
	n := len(texts)

	// 1. cold start: every schedule in a process of its own
	cold := func(bin string, every bool, idx ...int) (r []*job) {
		q := imcp.Request{Op: "schedule", Every: every, Live: live}
		for _, i := range idx {
			q.Texts = append(q.Texts, texts[i])
			q.Expect = append(q.Expect, dumps[i])
		}
		root := &job{bin: bin, req: q, wait: 30 * time.Second}
		root.ask()
		r = append(r, root)
		if root.err != "" || root.ans.Fail != "" {
			return
		}
		for i, c := range root.ans.Choices {
			if c < 0 {
				c = -c
			}
			for x := 1; x < c; x++ {
				p := q
				p.Plan = make([]int, i+1)
				p.Plan[i] = x
				r = append(r, &job{bin: bin, req: p, wait: 30 * time.Second})
			}
		}
		return
	}
	var jobs []*job
	coldPairs := [][]int{{0, 0}, {1, 1}, {2, 2}, {0, 2}, {4, 4}, {3, 9}, {5, 1}, {6, 4}, {10, 10}}
	if thorough {
		for i := 0; i < n; i++ {
			for j := i; j < n; j++ {
				coldPairs = append(coldPairs, []int{i, j})
			}
		}
		coldPairs = append(coldPairs, []int{0, 1, 2}, []int{2, 2, 2}, []int{3, 3, 5})
	}
	for _, p := range coldPairs {
		jobs = append(jobs, cold(b.race, false, p...)...)
		if j := jobs[len(jobs)-1]; j.run && (j.err != "" || j.ans.Fail != "") {
			if j.hung || j.ans.Uncontrolled {
				blocked = true
			} else {
				bad = j
			}
			break
		}
	}
	if bad == nil && !blocked {
		phase("cold start, pairs, race detector, points at shared variables, 1 preemption", jobs)
	}
	if bad == nil && !blocked {
		jobs = cold(b.bin, true, 0, 0)
		if thorough {
			jobs = append(jobs, cold(b.bin, true, 0, 3)...)
			jobs = append(jobs, cold(b.bin, true, 1, 4)...)
		}
		phase("cold start, points at all function entries, 1 preemption", jobs)
	}

	// 2. warm, all pairs with the race detector
	jobs = nil
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			jobs = append(jobs, explore(b.race, false, 1, texts, 1, i, j)...)
		}
	}
	phase("after earlier calls, all pairs, race detector, points at shared variables, 1 preemption", jobs)

	// 3. warm, function entries
	jobs = nil
	for i := 0; i < n; i++ {
		sh := 1
		if points[i] > 40 {
			sh = 4
		}
		jobs = append(jobs, explore(b.bin, true, 1, texts, sh, i, i)...)
		if i > 0 {
			jobs = append(jobs, explore(b.bin, true, 1, texts, sh, i, i-1)...)
		}
	}
	phase("after earlier calls, points at all function entries, 1 preemption", jobs)

	// 4. two preemptions, three threads
	jobs = nil
	jobs = append(jobs, explore(b.bin, false, 2, texts, 8, 0, 0)...)
	jobs = append(jobs, explore(b.bin, false, 2, texts, 8, 1, 4)...)
	jobs = append(jobs, explore(b.bin, false, 2, texts, 8, 2, 3)...)
	jobs = append(jobs, explore(b.bin, false, 1, texts, 1, 0, 1, 2)...)
	jobs = append(jobs, explore(b.bin, false, 1, texts, 1, 3, 3, 5)...)
	jobs = append(jobs, explore(b.bin, false, 1, texts, 1, 4, 6, 9)...)
	phase("after earlier calls, 2 preemptions of pairs and 1 of triples, points at shared variables", jobs)
	// 5. many threads, in turn
	jobs = nil
	turn := func(bin string, every bool, warm []string, bound, quantum int, backward bool, size int, idx ...int) {
		for k := 0; len(idx) < size; k++ {
			idx = append(idx[:len(idx):len(idx)], idx[k])
		}
		j := explore(bin, every, bound, warm, 1, idx[:size]...)[0]
		j.req.Quantum, j.req.Backward = quantum, backward
		jobs = append(jobs, j)
	}
	var mixed []int
	for i := range texts {
		mixed = append(mixed, i)
	}
	for _, size := range []int{3, 5, 9, 17, 33, 64} {
		for _, quantum := range []int{1, 2, 3, 7} {
			for _, backward := range []bool{false, true} {
				for _, warm := range [][]string{nil, texts} {
					turn(b.bin, false, warm, 0, quantum, backward, size, mixed...)
					for i := 0; i < n; i++ {
						if size < 64 || i%4 == 0 {
							turn(b.bin, false, warm, 0, quantum, backward, size, i)
						}
					}
				}
			}
		}
	}
	for _, size := range []int{3, 8} {
		for _, quantum := range []int{1, 5, 40, 300} {
			for i := 0; i < n; i++ {
				turn(b.bin, true, nil, 0, quantum, false, size, i, (i+1)%n)
			}
		}
		turn(b.race, false, nil, 0, 1, false, size, mixed...)
		turn(b.race, false, texts, 0, 1, false, size, mixed...)
	}
	phase("3 to 64 threads in turn, after 1, 2, 3, 7 points (5, 40, 300 function entries), forward and backward, cold and after earlier calls", jobs)
	jobs = nil
	for i := 0; i < n; i++ {
		turn(b.bin, false, texts, 1, 1, false, 3, i, (i+1)%n, (i+2)%n)
		turn(b.bin, false, texts, 1, 1, false, 4, i)
	}
	phase("3 and 4 threads in turn, 1 deviation", jobs)

	// 6. many texts
	max := 100
	if thorough {
		max = 3000
	}
	sw := sweepTexts(max)
	for _, s := range [][]string{sw, reversed(sw), strided(sw)} {
		jobs = nil
		const chunk = 600
		for i := 0; i < len(s); i += chunk {
			to := i + chunk + 1
			if to > len(s) {
				to = len(s)
			}
			q := imcp.Request{Op: "sweep", Texts: s[i:to], Probes: []string{texts[0], texts[2]}, Live: live, Plan: []int{0, 1, -3}}
			jobs = append(jobs, &job{bin: b.bin, req: q})
			if &s[0] == &sw[0] && i%(3*chunk) == 0 {
				q.Plan = []int{1}
				jobs = append(jobs, &job{bin: b.race, req: q})
			}
		}
		phase("texts of all spaces, each with the next and two others: one after the other, in turn, and in turn backward after 3 points", jobs)
		if !thorough {
			break
		}
	}
	cov.Extra["texts_of_all_spaces"] = len(sw)
	if thorough {
		jobs = nil
		for i := 0; i < n; i++ {
			jobs = append(jobs, explore(b.bin, false, 2, texts, 8, i, i)...)
			jobs = append(jobs, explore(b.bin, false, 2, texts, 8, i, (i+1)%n)...)
			jobs = append(jobs, explore(b.race, false, 1, texts, 2, i, (i+3)%n, (i+5)%n)...)
		}
		phase("2 preemptions of pairs, triples", jobs)
		jobs = nil
		jobs = append(jobs, explore(b.bin, false, 3, texts, 16, 0, 0)...)
		phase("3 preemptions of a pair", jobs)
		jobs = nil
		jobs = append(jobs, explore(b.bin, true, 2, texts, 64, 0, 0)...)
		phase("2 preemptions of a pair at all function entries", jobs)
	}
	cov.Extra["phases"] = phases
	cov.Extra["texts"] = texts
	cov.Distinct = int64(len(texts))
	cov.Samples = append(cov.Samples, map[string]interface{}{"texts": texts[:2], "expected": []string{head(dumps[0], 300), head(dumps[1], 300)}})
	if blocked && bad == nil {
		return freeP20(cfg, cov, b, texts)
	}
	if bad == nil {
		return nil
	}
	v := imcViolation(bad, "concurrent calls")
	v.Input = head(v.Input, 2000)
	// once more as a single schedule
	if bad.req.Op == "explore" {
		q := bad.req
		q.Op, q.Plan = "schedule", bad.ans.Plan
		v.Extra["request"] = q
		n := 0
		for i := 0; i < 5; i++ {
			r := &job{bin: bad.bin, req: q}
			r.ask()
			if r.ans.Fail != "" || r.err != "" {
				n++
			}
		}
		if n == 0 {
			v.Extra["request"] = bad.req // needs the schedules before
		}
		v.Extra["reproduced"] = fmt.Sprintf("%d of 5", n)
	}
	return v
}

// freeP20: the code uses goroutines or channels that the scheduler does not control.
func freeP20(cfg Config, cov *Coverage, b *imcBuild, texts []string) *Violation {
	cov.Exhaustive = false
	cov.Extra["note"] = "the parser blocks in a way the scheduler cannot see; free runs under the race detector instead"
	var solo []*job
	for _, t := range texts {
		solo = append(solo, &job{bin: b.bin, req: imcp.Request{Op: "free", Texts: []string{t}, Expect: []string{""}, Rounds: 1}})
	}
	// the results alone: parse without any concurrency
	for _, j := range solo {
		j.req.Op = "plain"
	}
	askAll(solo, time.Time{}, nil)
	var dumps []string
	for i, j := range solo {
		if j.hung {
			return &Violation{Input: texts[i], Msg: "parsing does not return", Extra: map[string]interface{}{}}
		}
		if j.err != "" || len(j.ans.Dumps) == 0 {
			return &Violation{Input: texts[i], Msg: "parsing ends the process: " + j.err, Extra: map[string]interface{}{}}
		}
		dumps = append(dumps, j.ans.Dumps[0])
	}
	var jobs []*job
	var many, manyDumps []string
	for len(many) < 64 {
		many = append(many, texts...)
		manyDumps = append(manyDumps, dumps...)
	}
	for _, bin := range []string{b.bin, b.race} {
		jobs = append(jobs, &job{bin: bin, req: imcp.Request{Op: "free", Texts: many, Expect: manyDumps, Rounds: 200}})
	}
	for i := range texts {
		same := imcp.Request{Op: "free", Rounds: 100}
		for k := 0; k < 64; k++ {
			same.Texts = append(same.Texts, texts[i])
			same.Expect = append(same.Expect, dumps[i])
		}
		jobs = append(jobs, &job{bin: b.bin, req: same})
	}
	for i := range texts {
		for k := i; k < len(texts); k++ {
			jobs = append(jobs, &job{bin: b.race, req: imcp.Request{Op: "free", Texts: []string{texts[i], texts[k], texts[i]}, Expect: []string{dumps[i], dumps[k], dumps[i]}, Rounds: 30}})
		}
	}
	for _, j := range jobs {
		j.req.Millis, j.wait = 20000, 4*time.Minute
	}
	var bad *job
	askAll(jobs, time.Now().Add(cfg.Budget), func(j *job) bool {
		cov.Executions += j.ans.Executions
		cov.States += j.ans.Executions
		cov.Validated += j.ans.Executions
		if (j.err != "" || j.ans.Fail != "") && bad == nil {
			bad = j
			return true
		}
		return false
	})
	if bad != nil {
		return imcViolation(bad, "concurrent calls")
	}
	return nil
}

func fatal(err error) {
	fmt.Println(err)
	os.Exit(2)
}
