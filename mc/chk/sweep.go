package chk

import (
	"strings"
	"time"

	"verif/mc/explore"
	"verif/mc/imcp"
)

// sweepTexts are texts of all spaces: of each the largest deviation bound below 2 with at most max texts; of larger ones
// every n-th, so that max remain.
func sweepTexts(max int) (all []string) {
	seen := map[string]bool{}
	for _, sp := range spaces {
		if sp.Gen == nil {
			continue
		}
		var best []string
		most := max
		if sp.Name == "trees" {
			most = 15 * max
		}
		for bound := 0; bound < 2; bound++ {
			var texts []string
			over := false
			explore.Run(func(c *explore.Ctl) string {
				s := sp.Gen(c)
				if c.Skipped() {
					return ""
				}
				texts = append(texts, s)
				if over = len(texts) > 40*most; over {
					return "enough"
				}
				return ""
			}, bound, 1, time.Now().Add(20*time.Second))
			if bound == 0 || !over && len(texts) <= 40*most && sp.Name == "trees" || !over && len(texts) <= most {
				best = texts
			}
			if over {
				break
			}
		}
		step := (len(best) + most - 1) / most
		for i := 0; i < len(best); i += step {
			if s := best[i]; len(s) < 400 && !seen[s] {
				seen[s] = true
				all = append(all, s)
			}
		}
	}
	return
}

// edits are texts that differ little from s: in layout, letter case, one character or one part.
func edits(s string) (r []string) {
	seen := map[string]bool{s: true}
	add := func(t string) {
		if !seen[t] {
			seen[t] = true
			r = append(r, t)
		}
	}
	for i := 0; i <= len(s); i++ {
		add(s[:i] + " " + s[i:])
		add(s[:i] + "\n" + s[i:])
		add(s[:i] + "--\n" + s[i:])
		if i == len(s) {
			break
		}
		c := s[i]
		add(s[:i] + s[i+1:])
		add(s[:i])
		add(s[i:])
		add(s[:i] + s[i:i+1] + s[i:])
		switch {
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			add(s[:i] + string(rune(c^0x20)) + s[i+1:])
			add(s[:i] + "z" + s[i+1:])
		case c >= '0' && c <= '9':
			add(s[:i] + string(rune('0'+(c-'0'+1)%10)) + s[i+1:])
		case c == ' ':
			add(s[:i] + "\t" + s[i+1:])
			add(s[:i] + "\r\n" + s[i+1:])
			add(s[:i] + " /**/ " + s[i+1:])
		case c == '\'':
			add(s[:i] + "\"" + s[i+1:])
		default:
			add(s[:i] + " " + s[i+1:])
		}
		if i+1 < len(s) && s[i] != s[i+1] {
			b := []byte(s)
			b[i], b[i+1] = b[i+1], b[i]
			add(string(b))
		}
	}
	add(strings.ToUpper(s))
	add(strings.ToLower(s))
	add(strings.ReplaceAll(s, " ", ""))
	add(strings.ReplaceAll(s, " ", "  "))
	add(strings.ReplaceAll(s, " ", "\n"))
	add(strings.TrimSpace(s))
	add(s + s)
	add(s + ";")
	add(s + " -- x")
	add(s + "\x00")
	return
}

// editTexts are sequences of texts with little difference: each base, its edits one by one, with the base in between.
func editTexts(bases []string, between bool) (r []string) {
	for _, b := range bases {
		r = append(r, b)
		for _, e := range edits(b) {
			r = append(r, e)
			if between {
				r = append(r, b)
			}
		}
	}
	return
}

func reversed(x []string) []string {
	r := make([]string, len(x))
	for i, s := range x {
		r[len(x)-1-i] = s
	}
	return r
}

// strided visits every text, but neighbours are far from each other.
func strided(x []string) (r []string) {
	const k = 97
	for o := 0; o < k; o++ {
		for i := o; i < len(x); i += k {
			r = append(r, x[i])
		}
	}
	return
}

// sequences parses each list in a process of its own; a text must have the same result wherever it is.
func sequences(b *imcBuild, lists [][]string, deadline time.Time) (calls int64, distinct int, complete bool, bad *Violation) {
	var jobs []*job
	for _, l := range lists {
		jobs = append(jobs, &job{bin: b.bin, req: imcp.Request{Op: "sequence", Texts: l, Millis: int(time.Until(deadline) / time.Millisecond)}, wait: time.Until(deadline) + time.Minute})
	}
	complete = askAll(jobs, deadline, nil)
	first := map[string]string{}
	for _, j := range jobs {
		if !j.run {
			complete = false
			continue
		}
		calls += j.ans.Executions
		if j.err != "" {
			return calls, len(first), false, imcViolation(j, "calls one after the other")
		}
		complete = complete && j.ans.Complete
		for i, t := range j.req.Texts[:len(j.ans.Dumps)] {
			h, ok := first[t]
			if !ok {
				first[t] = j.ans.Dumps[i]
			} else if h != j.ans.Dumps[i] {
				return calls, len(first), false, sequenceViolation(b, jobs, t)
			}
		}
	}
	return calls, len(first), complete, nil
}

// sequenceViolation finds a short history after which t has another result than alone.
func sequenceViolation(b *imcBuild, jobs []*job, t string) *Violation {
	alone := &job{bin: b.bin, req: imcp.Request{Op: "sequence", Texts: []string{t}, Millis: 60000}}
	alone.ask()
	full := &job{bin: b.bin, req: imcp.Request{Op: "plain", Texts: []string{t}}}
	full.ask()
	if alone.err != "" || full.err != "" {
		return &Violation{Input: t, Msg: "parsing alone: " + alone.err + full.err, Extra: map[string]interface{}{}}
	}
	for _, j := range jobs {
		for i, s := range j.req.Texts {
			if s != t || i >= len(j.ans.Dumps) || j.ans.Dumps[i] == alone.ans.Dumps[0] {
				continue
			}
			for n := 1; ; n *= 2 {
				from := i - n
				if from < 0 {
					from = 0
				}
				h := &job{bin: b.bin, req: imcp.Request{Op: "after", Texts: j.req.Texts[from:i], Probes: []string{t}, ProbeExpect: full.ans.Dumps}}
				h.ask()
				if h.ans.Fail != "" || h.err != "" {
					v := imcViolation(h, "calls one after the other")
					v.Input = head(v.Input, 2000)
					return v
				}
				if from == 0 {
					break
				}
			}
		}
	}
	return &Violation{Input: t, Msg: "the result differs between processes with the same history", Extra: map[string]interface{}{"request": alone.req, "race": false}}
}
