package chk

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/maphash"
	"math"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verif/mc/explore"
	"verif/mc/ref"
)

type Config struct {
	Prop    string
	Tier    string
	Dir     string // /verif
	Work    string // scratch directory
	Seed    int
	Workers int
	Budget  time.Duration
	Space   string // restrict to spaces with this prefix
}

// Coverage is collected over all spaces of a run.
type Coverage struct {
	States, Transitions, Executions, Distinct, Validated, Accepted, Rejected, Skipped int64
	Exhaustive                                                                        bool
	Spaces                                                                            []map[string]interface{}
	Samples                                                                           []interface{}
	Extra                                                                             map[string]interface{}
}

// Violation is what a check reports.
type Violation struct {
	Input string
	Msg   string
	Extra map[string]interface{}

	Space   string
	Answers []int // of a space whose inputs are not texts
}

// hashSet is a sharded set of texts (by 128-bit hash).
type hashSet struct {
	shard [64]struct {
		mu sync.Mutex
		m  map[[16]byte]struct{}
	}
	a, b maphash.Seed
}

func newHashSet() *hashSet {
	h := &hashSet{a: maphash.MakeSeed(), b: maphash.MakeSeed()}
	for i := range h.shard {
		h.shard[i].m = map[[16]byte]struct{}{}
	}
	return h
}

func (h *hashSet) add(s string) bool {
	var k [16]byte
	x := maphash.String(h.a, s)
	binary.LittleEndian.PutUint64(k[:], x)
	binary.LittleEndian.PutUint64(k[8:], maphash.String(h.b, s))
	sh := &h.shard[x%64]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if _, ok := sh.m[k]; ok {
		return false
	}
	sh.m[k] = struct{}{}
	return true
}

func (h *hashSet) size() int64 {
	n := 0
	for i := range h.shard {
		n += len(h.shard[i].m)
	}
	return int64(n)
}

const (
	resSkip = iota
	resAccept
	resReject
)

// CheckText decides one property on one text.
func CheckText(prop, s string) (string, int) {
	if prop == "P23" {
		return checkWasm(s)
	}
	res, why := ref.Analyze(s)
	o := Parse(s)
	if (o.Q == nil) == (o.Err == nil) && o.Panic == "" {
		return "Parse returned both a query and an error, or neither", resReject
	}
	if o.Panic != "" {
		if res != nil || prop == "P18" {
			return "Parse panicked: " + o.Panic, resReject
		}
		return "", resReject
	}
	if o.Err != nil {
		if prop == "P18" {
			return errorPosition(s, o.Err.Error(), res == nil && why == nil), resReject
		}
		if res != nil {
			return "a well-formed query is rejected: " + firstLine(o.Err.Error()), resReject
		}
		return "", resReject
	}
	if prop == "P18" {
		return "", resAccept
	}
	if res == nil {
		switch {
		case why == nil && (prop == "P17" || prop == "P14" || prop == "P15"):
			return "a text that is not in the language is accepted", resAccept
		case why != nil && (why.Prop == prop || why.Prop == "P19" && prop == "P11"):
			return "a query is accepted that should be rejected: " + why.Msg, resAccept
		}
		return "", resAccept
	}
	if prop == "P22" {
		return roundTrip(o.Q), resAccept
	}
	return Compare(prop, s, res, o.Q), resAccept
}

func firstLine(s string) string {
	return strings.ReplaceAll(s, "\n", " ")
}

func explain(prop, s string) interface{} {
	res, why := ref.Analyze(s)
	m := map[string]interface{}{"text": s}
	switch {
	case res != nil:
		m["model"] = fmt.Sprintf("accepted: %d queries, %d fields, %d objects, %d comparisons in the main query", len(res.Queries), len(res.Main.Items)+len(res.Main.Helpers), len(res.Main.From), len(res.Main.WhereCmps))
	case why != nil:
		m["model"] = "rejected (" + why.Prop + "): " + why.Msg
	default:
		m["model"] = "not in the language"
	}
	o := Parse(s)
	if o.Err != nil {
		m["implementation"] = "error: " + firstLine(o.Err.Error())
	} else {
		m["implementation"] = "accepted"
	}
	return m
}

// Run explores all spaces of a text property.
func runSpaces(cfg Config, cov *Coverage, list []Space, check func(prop, s string) (string, int)) *Violation {
	var mine []Space
	for _, sp := range list {
		if strings.Contains(sp.Props, cfg.Prop) && (cfg.Space == "" || strings.HasPrefix(sp.Name, cfg.Space)) {
			mine = append(mine, sp)
		}
	}
	start := time.Now()
	cov.Exhaustive = true
	all := newHashSet()
	for i, sp := range mine {
		// every space gets its share of what is left
		left := cfg.Budget - time.Since(start)
		share := left / time.Duration(len(mine)-i) * 5
		if share > left {
			share = left
		}
		if share < 200*time.Millisecond {
			share = 200 * time.Millisecond
		}
		bound := sp.Quick
		if cfg.Tier == "thorough" {
			bound = sp.Thorough
		}
		var mu sync.Mutex
		var accepted, rejected, validated int64
		var texts []string
		type bad struct {
			text, msg string
			answers   []int
		}
		var found []bad
		begin := time.Now()
		st, _ := explore.Run(func(c *explore.Ctl) string {
			var s string
			var run func() (string, int)
			if sp.Run != nil {
				s, run = sp.Run(c)
			} else {
				s = sp.Gen(c)
				run = func() (string, int) { return check(cfg.Prop, s) }
			}
			if c.Skipped() || !all.add(s) {
				return ""
			}
			msg, r := run()
			mu.Lock()
			defer mu.Unlock()
			validated++
			switch r {
			case resAccept:
				accepted++
			case resReject:
				rejected++
			}
			if msg != "" {
				if isKnown(cfg, s) {
					return ""
				}
				found = append(found, bad{s, msg, c.Answers()})
				return msg
			}
			if validated&(validated-1) == 0 {
				texts = append(texts, s)
			}
			return ""
		}, bound, cfg.Workers, time.Now().Add(share))
		cov.States += st.States
		cov.Transitions += st.Transitions
		cov.Executions += st.Executions
		cov.Skipped += st.Skipped
		cov.Validated += validated
		cov.Accepted += accepted
		cov.Rejected += rejected
		cov.Exhaustive = cov.Exhaustive && st.Exhaustive
		cov.Spaces = append(cov.Spaces, map[string]interface{}{
			"space": sp.Name, "deviation_bound": bound, "deviations_completed": st.Bound, "exhaustive": st.Exhaustive,
			"states": st.States, "transitions": st.Transitions, "executions": st.Executions, "new_texts": validated,
			"accepted": accepted, "rejected": rejected, "seconds": math.Round(time.Since(begin).Seconds()*10) / 10,
		})
		for _, t := range texts {
			if len(cov.Samples) < 12 && len(texts) > 0 && t == texts[len(texts)*2/3] {
				if sp.Run != nil {
					cov.Samples = append(cov.Samples, t)
				} else {
					cov.Samples = append(cov.Samples, explain(cfg.Prop, t))
				}
			}
		}
		if len(found) > 0 {
			sort.Slice(found, func(i, j int) bool { return len(found[i].text) < len(found[j].text) })
			v := &Violation{Input: found[0].text, Msg: found[0].msg, Extra: map[string]interface{}{}}
			v.Space = sp.Name
			if sp.Run != nil {
				v.Answers = found[0].answers
			}
			n := 0
			for i := 0; i < 5; i++ {
				if m := replayOne(cfg.Prop, v.Space, v.Answers, v.Input); m != "" {
					n++
				}
			}
			v.Extra["reproduced"] = fmt.Sprintf("%d of 5", n)
			cov.Exhaustive = false
			cov.Distinct = all.size()
			return v
		}
	}
	cov.Distinct = all.size()
	return nil
}

// ---- known findings

var knownInputs map[string][]string

func loadKnown(cfg Config) {
	knownInputs = map[string][]string{}
	b, err := os.ReadFile(filepath.Join(cfg.Dir, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=P01 input="..." what
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		k := strings.Index(l, " input=")
		if k < 0 {
			continue
		}
		q, err := strconv.QuotedPrefix(l[k+7:])
		if err != nil {
			continue
		}
		in, _ := strconv.Unquote(q)
		knownInputs[l[:k]] = append(knownInputs[l[:k]], in)
		if l[:k] == cfg.Prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", cfg.Prop, strings.TrimSpace(l[k+7+len(q):]))
		}
	}
}

func isKnown(cfg Config, s string) bool {
	for _, k := range knownInputs[cfg.Prop] {
		if k == s {
			return true
		}
	}
	return false
}

// ---- main

type runner func(cfg Config, cov *Coverage) *Violation

var special = map[string]runner{}

// Main runs the check of a property and returns the exit code.
func Main(cfg Config) int {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(8 << 30)
	debug.SetMaxStack(256 << 20)
	if f := os.Getenv("VERIF_SLOTS"); f != "" {
		if err := openSlots(f); err != nil {
			fmt.Println(err)
			return 2
		}
	}
	if cfg.Workers == 0 {
		cfg.Workers = runtime.NumCPU()
	}
	loadKnown(cfg)
	start := time.Now()
	cov := &Coverage{Extra: map[string]interface{}{}}
	run := special[cfg.Prop]
	if run == nil {
		run = func(cfg Config, cov *Coverage) *Violation { return runSpaces(cfg, cov, spaces, CheckText) }
	}
	v := run(cfg, cov)
	WriteEvidence(cfg, cov, v, start)
	return Report(cfg, v)
}

// WriteEvidence writes the evidence file.
func WriteEvidence(cfg Config, cov *Coverage, v *Violation, start time.Time) {
	c := map[string]interface{}{
		"states": cov.States, "transitions": cov.Transitions, "executions": cov.Executions, "distinct_inputs": cov.Distinct,
		"traces_validated_against_impl": cov.Validated, "exhaustive": cov.Exhaustive && v == nil,
	}
	if cov.Accepted+cov.Rejected > 0 {
		c["accepted"] = cov.Accepted
		c["rejected"] = cov.Rejected
	}
	if cov.Spaces != nil {
		c["spaces"] = cov.Spaces
	}
	if cov.Samples == nil {
		cov.Samples = []interface{}{}
	}
	c["samples"] = cov.Samples
	for k, x := range cov.Extra {
		c[k] = x
	}
	n := 0
	if v != nil {
		n = 1
	}
	e := map[string]interface{}{
		"property": cfg.Prop, "tier": cfg.Tier, "seed": cfg.Seed, "level": "model_checking", "coverage": c,
		"assumptions": assumptions(cfg.Prop), "wall_s": time.Since(start).Seconds(), "violations": n,
	}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(filepath.Join(cfg.Dir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(cfg.Dir, "evidence", cfg.Prop+".json"), append(b, '\n'), 0o644)
}

func assumptions(prop string) []string {
	return []string{
		"the reference model states the intended language; it is bound to the implementation by replaying every enumerated input on the real parser",
		"inputs outside the enumerated spaces behave like those inside (small scope)",
	}
}

// Report prints the verdict and returns the exit code.
func Report(cfg Config, v *Violation) int {
	if v == nil {
		fmt.Printf("OK property=%s tier=%s\n", cfg.Prop, cfg.Tier)
		return 0
	}
	h := sha256.Sum256([]byte(v.Input + v.Msg))
	path := filepath.Join(cfg.Dir, "evidence", fmt.Sprintf("replay-%s-%x.json", cfg.Prop, h[:4]))
	b, _ := json.MarshalIndent(map[string]interface{}{"property": cfg.Prop, "input": v.Input, "what": v.Msg, "details": v.Extra, "space": v.Space, "answers": v.Answers,
		"how_to_replay": fmt.Sprintf("./check.sh %s replay %s", cfg.Prop, path)}, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	fmt.Printf("input: %s\nwhat: %s\n", strconv.Quote(v.Input), v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", cfg.Prop, path)
	return 1
}

func replayOne(prop, space string, answers []int, input string) (msg string) {
	for _, sp := range spaces {
		if sp.Name == space && sp.Run != nil {
			explore.Replay(func(c *explore.Ctl) string {
				_, run := sp.Run(c)
				msg, _ = run()
				return msg
			}, answers)
			return
		}
	}
	msg, _ = CheckText(prop, input)
	return
}

// Replay re-runs a recorded input.
func Replay(cfg Config, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var r struct {
		Property, Input, Space string
		Answers                []int
		Details                struct {
			Request json.RawMessage
			Race    bool

			LastCalls string `json:"last_calls"`
		}
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		return 2
	}
	var msg string
	if r.Property == "P23" {
		if msg, err = replayWasm(cfg, r.Input, r.Details.LastCalls); err != nil {
			fmt.Println(err)
			return 2
		}
	} else if r.Details.Request != nil {
		if msg, err = replayImc(cfg, r.Details.Request, r.Details.Race); err != nil {
			fmt.Println(err)
			return 2
		}
	} else if self, _ := os.Executable(); r.Space != "" || special[r.Property] == nil {
		msg = Alone(self, r.Input)
	}
	if msg == "" && r.Details.Request == nil && r.Property != "P23" {
		msg = replayOne(r.Property, r.Space, r.Answers, r.Input)
	}
	if msg == "" {
		fmt.Println("holds on", strconv.Quote(r.Input))
		return 0
	}
	fmt.Printf("input: %s\nwhat: %s\nVIOLATION property=%s replay=%s\n", strconv.Quote(r.Input), msg, r.Property, file)
	return 1
}
