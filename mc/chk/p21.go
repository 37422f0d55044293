package chk

import (
	"fmt"
	"strings"
	"time"

	"verif/mc/dump"
	"verif/mc/explore"
	"verif/mc/imcp"
)

func init() { special["P21"] = runP21 }

// runP21 enumerates histories of calls, with and without overwriting the results, and the iteration orders of maps.
func runP21(cfg Config, cov *Coverage) *Violation {
	work, clean, err := cfg.scratch()
	if err != nil {
		fatal(err)
	}
	defer clean()
	b, err := buildImc(cfg, work, false)
	if err != nil {
		fatal(err)
	}
	thorough := cfg.Tier == "thorough"
	deadline := time.Now().Add(cfg.Budget * 3 / 2)
	texts := append(append([]string(nil), poolTexts...), morePool...)
	// every text alone
	var jobs []*job
	for _, t := range texts {
		jobs = append(jobs, &job{bin: b.bin, req: imcp.Request{Op: "plain", Texts: []string{t}}})
	}
	askAll(jobs, time.Time{}, nil)
	var dumps []string
	for i, j := range jobs {
		if j.err != "" {
			return &Violation{Input: texts[i], Msg: "parsing alone: " + j.err, Extra: map[string]interface{}{}}
		}
		dumps = append(dumps, j.ans.Dumps[0])
	}
	// the uninstrumented parser gives the same, with its random map orders
	for n := 0; n < 20; n++ {
		for i, t := range texts {
			o := Parse(t)
			s := ""
			switch {
			case o.Panic != "":
				continue // P18
			case o.Err != nil:
				s = "error: " + o.Err.Error()
			default:
				s = dump.Value(o.Q)
			}
			cov.Validated++
			if s != dumps[i] {
				return &Violation{Input: t, Msg: "another result in another process: " + imcp.Diff(dumps[i], s), Extra: map[string]interface{}{}}
			}
		}
	}
	cov.Exhaustive = true
	cov.Extra["instrumented"] = b.stats
	var phases []map[string]interface{}
	var bad *job
	phase := func(name string, jobs []*job) bool {
		var ex, st int64
		ok := askAll(jobs, deadline, func(j *job) bool {
			ex += j.ans.Executions
			st += j.ans.States
			if (j.err != "" || j.ans.Fail != "") && bad == nil {
				bad = j
				return true
			}
			return false
		})
		complete := ok
		for _, j := range jobs {
			complete = complete && j.run && j.ans.Complete
		}
		if st == 0 {
			st = ex
		}
		cov.Executions += ex
		cov.States += st
		cov.Transitions += ex
		cov.Validated += ex
		cov.Exhaustive = cov.Exhaustive && complete
		phases = append(phases, map[string]interface{}{"phase": name, "explorations": len(jobs), "calls": ex, "states": st, "exhaustive_within_bound": complete})
		cov.Extra["phases"] = phases
		return bad == nil
	}
	cov.Extra["texts"] = texts
	cov.Distinct = int64(len(texts))
	cov.Samples = append(cov.Samples, map[string]interface{}{"text": texts[1], "result": head(dumps[1], 400)})

	hist := func(scribble int, idx ...int) *job {
		q := imcp.Request{Op: "history", Probes: texts, ProbeExpect: dumps, Rounds: 1}
		for k, i := range idx {
			q.Texts = append(q.Texts, texts[i])
			q.Expect = append(q.Expect, dumps[i])
			q.Scribble = append(q.Scribble, scribble>>k&1 == 1)
		}
		return &job{bin: b.bin, req: q}
	}
	n := len(texts)
	mapTexts := append([]string(nil), texts...)
	mapDumps := append([]string(nil), dumps...)
	for _, s := range seeds {
		o := Parse(s.text)
		if o.Q != nil {
			mapTexts = append(mapTexts, s.text)
			mapDumps = append(mapDumps, dump.Value(o.Q))
		}
	}
	jobs = nil
	for i, t := range mapTexts {
		bound := 1
		if thorough {
			bound = 2
		}
		jobs = append(jobs, &job{bin: b.bin, req: imcp.Request{Op: "maps", Texts: []string{t}, Expect: []string{mapDumps[i]}, Bound: bound, Millis: int(cfg.Budget / time.Millisecond)}, wait: cfg.Budget + 30*time.Second})
	}
	ok := phase("iteration orders of maps", jobs)
	if ok {
		ok = phase("other times of day and dates", []*job{{bin: b.bin, req: imcp.Request{Op: "clock", Texts: mapTexts, Expect: mapDumps}}})
	}
	if ok {
		jobs = nil
		for i := 0; i < n; i++ {
			for k := 0; k < n; k++ {
				for s := 0; s < 4; s++ {
					jobs = append(jobs, hist(s, i, k))
				}
			}
		}
		ok = phase("all histories of two calls, results overwritten or kept, then all texts", jobs)
	}
	if ok {
		jobs = nil
		for i := 0; i < n; i++ {
			j := hist(0, i)
			j.req.Probes, j.req.ProbeExpect, j.req.Rounds = texts[i:i+1], dumps[i:i+1], 3000
			if thorough {
				j.req.Rounds = 70000
			}
			j.wait = 5 * time.Minute
			jobs = append(jobs, j)
		}
		j := hist(0, 0)
		j.req.Rounds = 200
		j.wait = 5 * time.Minute
		jobs = append(jobs, j)
		ok = phase("long histories of one text, and of all in turn", jobs)
	}
	if ok {
		ok = phase("iteration orders of maps, texts of other properties", mapJobs(b.bin, thorough, cov))
	}
	if ok {
		max, bases := 100, texts
		if thorough {
			max = 6000
			for _, s := range seeds {
				bases = append(bases[:len(bases):len(bases)], s.text)
			}
		}
		sw := sweepTexts(max)
		all := append(editTexts(texts, false), sw...)
		lists := [][]string{all, reversed(all), strided(all), reversed(strided(all)), editTexts(bases, true), reversed(editTexts(bases, true))}
		calls, distinct, complete, v := sequences(b, lists, deadline)
		cov.Executions += calls
		cov.States += calls
		cov.Transitions += calls
		cov.Validated += calls
		cov.Distinct += int64(distinct)
		cov.Exhaustive = cov.Exhaustive && complete
		phases = append(phases, map[string]interface{}{"phase": "texts of all properties and small edits of texts, in several orders", "explorations": len(lists), "texts": distinct, "calls": calls, "states": calls, "exhaustive_within_bound": complete})
		cov.Extra["phases"] = phases
		if v != nil {
			return v
		}
	}
	if ok && thorough {
		jobs = nil
		for i := 0; i < n; i++ {
			for k := 0; k < n; k++ {
				for l := 0; l < n; l++ {
					jobs = append(jobs, hist(i+k&7, i, k, l))
				}
			}
		}
		phase("all histories of three calls", jobs)
	}
	if bad == nil {
		return nil
	}
	v := imcViolation(bad, "history")
	c := 0
	for i := 0; i < 5; i++ {
		r := &job{bin: bad.bin, req: bad.req, wait: bad.wait}
		r.ask()
		if r.ans.Fail != "" || r.err != "" {
			c++
		}
	}
	v.Extra["reproduced"] = fmt.Sprintf("%d of 5", c)
	v.Input = head(v.Input, 2000)
	return v
}

// mapJobs: the texts of spaces with subqueries and many objects, each with all iteration orders that deviate once.
func mapJobs(bin string, thorough bool, cov *Coverage) (jobs []*job) {
	seen := map[string]bool{}
	var q imcp.Request
	flush := func() {
		if len(q.Texts) > 0 {
			q.Op, q.Bound, q.Millis = "maps", 1, 100000
			jobs = append(jobs, &job{bin: bin, req: q, wait: 2 * time.Minute})
		}
		q = imcp.Request{}
	}
	for _, sp := range spaces {
		bound := -1
		for _, p := range []struct {
			prefix          string
			quick, thorough int
		}{{"mix", 1, 2}, {"cond-subquery", 0, 1}, {"cond-condsub", 0, 1}, {"cond-rare-3", 0, 1}, {"names-decl", 0, 1}, {"agg-sub", 9, 9}, {"subtree-3", 1, 2}, {"subtree-4", 0, 1}, {"subtree-6", 0, 1}, {"cond-deep-declared", -1, 0}, {"joins", 0, 1}} {
			if strings.HasPrefix(sp.Name, p.prefix) {
				bound = p.quick
				if thorough {
					bound = p.thorough
				}
			}
		}
		if bound < 0 {
			continue
		}
		var texts []string
		explore.Run(func(c *explore.Ctl) string {
			if s := sp.Gen(c); !c.Skipped() && !seen[s] {
				seen[s] = true
				texts = append(texts, s)
			}
			return ""
		}, bound, 1, time.Now().Add(time.Minute))
		for _, t := range texts {
			o := Parse(t)
			if o.Q == nil {
				continue
			}
			q.Texts = append(q.Texts, t)
			q.Expect = append(q.Expect, dump.Value(o.Q))
			if len(q.Texts) == 25 {
				flush()
			}
		}
	}
	flush()
	cov.Extra["map_order_texts"] = len(seen)
	return
}
