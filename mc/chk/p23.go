package chk

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"strings"
	"sync"
	"time"
	"unicode/utf8"

	"verif/mc/explore"
)

func init() { special["P23"] = runP23 }

// A call of a function the module exports. The arguments are texts, or other things as raw JSON
// ({"special": "NaN"} for those JSON lacks).
type wcall struct {
	F        string            `json:"f"`
	A        []json.RawMessage `json:"a"`
	ViaApply bool              `json:"viaApply,omitempty"`

	text  string // what is parsed
	judge int    // wString: any text may be returned, wAny: anything, but nothing may be thrown
}

const (
	wExact = iota
	wString
	wAny
)

type wresult struct {
	S *string
	E string // thrown
	T string // type of the result
}

type wmodule struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err tailWriter
}

type wasm struct {
	mu   sync.Mutex
	bin  string
	exec string
	js   string
	gogc string
	free []*wmodule
}

// theWasm is the module of this process.
var theWasm *wasm

func buildWasm(cfg Config, work string) error {
	w := &wasm{bin: filepath.Join(work, "go.wasm"), js: filepath.Join(cfg.Dir, "mc", "wasm", "harness.js")}
	root, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return err
	}
	for _, p := range []string{"lib/wasm", "misc/wasm"} {
		f := filepath.Join(strings.TrimSpace(string(root)), p, "wasm_exec.js")
		if _, err := os.Stat(f); err == nil {
			w.exec = f
		}
	}
	c := exec.Command("go", "build", "-o", w.bin, "github.com/shellyln/go-open-soql-parser/wasm")
	c.Dir = filepath.Join(cfg.Dir, "mc")
	c.Env = append(os.Environ(), "GOOS=js", "GOARCH=wasm", "CGO_ENABLED=0")
	if o, err := c.CombinedOutput(); err != nil {
		return fmt.Errorf("building the WebAssembly module: %v: %s", err, head(string(o), 2000))
	}
	theWasm = w
	return nil
}

func (w *wasm) start() (*wmodule, error) {
	m := &wmodule{cmd: exec.Command("node", "--stack-size=4000", w.js, w.exec, w.bin)}
	m.in, _ = m.cmd.StdinPipe()
	o, _ := m.cmd.StdoutPipe()
	m.out = bufio.NewReaderSize(o, 1<<20)
	m.cmd.Stderr = &m.err
	m.cmd.Env = append(os.Environ(), "WASM_GOGC="+w.gogc)
	return m, m.cmd.Start()
}

func (w *wasm) get() (*wmodule, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if n := len(w.free); n > 0 {
		m := w.free[n-1]
		w.free = w.free[:n-1]
		return m, nil
	}
	return w.start()
}

func (w *wasm) put(m *wmodule) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.free = append(w.free, m)
}

func (w *wasm) stop() {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, m := range w.free {
		m.in.Close()
		m.cmd.Process.Kill()
		m.cmd.Wait()
	}
	w.free = nil
}

// ask runs calls one after the other in one module.
func (w *wasm) ask(calls []wcall, fresh, pause bool) (r []wresult, fail string) {
	m, err := w.get()
	if err != nil {
		return nil, "node: " + err.Error()
	}
	b, _ := json.Marshal(map[string]interface{}{"fresh": fresh, "pause": pause, "calls": calls})
	t := time.AfterFunc(2*time.Minute, func() { m.cmd.Process.Kill() })
	_, err = m.in.Write(append(b, '\n'))
	var line []byte
	if err == nil {
		line, err = m.out.ReadBytes('\n')
	}
	if !t.Stop() {
		m.cmd.Wait()
		return nil, "no answer within two minutes"
	}
	if err != nil {
		m.cmd.Process.Kill()
		m.cmd.Wait()
		return nil, "the process that runs the module ended: " + firstLine(head(m.err.String(), 300))
	}
	w.put(m)
	var a struct{ R []wresult }
	if err := json.Unmarshal(line, &a); err != nil || len(a.R) != len(calls) {
		return nil, "not understood: " + head(string(line), 100)
	}
	return a.R, ""
}

var wmeta = regexp.MustCompile(`(?m)^ +"(date|elapsedTime)": .*\n`)

// wnative is what the native parser gives for a text.
func wnative(s string) (string, bool) {
	o := Parse(s)
	switch {
	case o.Panic != "":
		return "", false
	case o.Err != nil:
		return o.Err.Error(), true
	}
	b, err := json.Marshal(o.Q)
	if err != nil {
		return err.Error(), true
	}
	var buf bytes.Buffer
	json.Indent(&buf, b, "", "  ")
	return wmeta.ReplaceAllString(buf.String(), ""), true
}

func (c *wcall) judgeResult(r wresult) string {
	switch {
	case r.E != "":
		return "parseSoql throws: " + head(r.E, 200)
	case c.judge == wAny:
		return ""
	case r.S == nil:
		return "parseSoql returns no text but: " + r.T
	case c.judge == wString:
		return ""
	}
	want, ok := wnative(c.text)
	if !ok {
		return ""
	}
	got := wmeta.ReplaceAllString(*r.S, "")
	// strings leave JavaScript with their lone surrogates replaced, and Go with their invalid bytes replaced
	if !utf8.ValidString(want) {
		want = strings.ToValidUTF8(want, "\uFFFD")
		got = strings.ToValidUTF8(got, "\uFFFD")
		if len([]rune(want)) != len([]rune(got)) {
			return "" // runs of invalid bytes
		}
	}
	if got != want {
		return "parseSoql returns something else than the Go function: " + wdiff(want, got)
	}
	return ""
}

func wdiff(want, got string) string {
	n := 0
	for n < len(want) && n < len(got) && want[n] == got[n] {
		n++
	}
	from := n - 30
	if from < 0 {
		from = 0
	}
	cut := func(s string) string {
		if from > len(s) {
			return ""
		}
		return head(s[from:], 100)
	}
	return fmt.Sprintf("behind byte %d of %d: Go %q, JavaScript %q", from, len(want), cut(want), cut(got))
}

func textCall(s string) wcall {
	b, _ := json.Marshal(s)
	return wcall{F: "parseSoql", A: []json.RawMessage{b}, text: s}
}

// checkWasm is the check of one text.
func checkWasm(s string) (string, int) {
	s = strings.ToValidUTF8(s, "\uFFFD")
	c := textCall(s)
	r, fail := theWasm.ask([]wcall{c}, false, false)
	if fail != "" {
		return fail, resReject
	}
	if r[0].S != nil && strings.HasPrefix(*r[0].S, "{") {
		return c.judgeResult(r[0]), resAccept
	}
	return c.judgeResult(r[0]), resReject
}

func wasmSpaces(thorough bool) (r []Space) {
	own := func(name string, gen func(c *explore.Ctl) string) {
		r = append(r, Space{Name: name, Gen: gen, Props: "P23"})
	}
	var base []string
	base = append(base, poolTexts...)
	base = append(base, morePool...)
	for _, s := range seeds {
		base = append(base, s.text)
	}
	own("wasm-texts", func(c *explore.Ctl) string { return base[c.Pick(len(base))] })
	own("wasm-truncated", func(c *explore.Ctl) string {
		s := base[c.Pick(len(base))]
		return s[:c.Pick(len(s)+1)]
	})
	// every character below U+3000 and some beyond, in several places
	var runes []rune
	for i := rune(0); i < 0x3000; i++ {
		runes = append(runes, i)
	}
	runes = append(runes, 0x3000, 0xac00, 0xd7ff, 0xe000, 0xfdd0, 0xfeff, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x1f600, 0x20000, 0xe0001)
	places := []string{"select a from b where c = '%'", "select a%b from c", "%select a from b", "select a from b%", "select /*%*/ a from b", "select a from b where c = '\\%' and d = '%%x'", "select a from b where\n\n c = '%' ?"}
	own("wasm-characters", func(c *explore.Ctl) string {
		k := c.Pick(len(runes))
		p := places[0]
		if k < 0x300 || k >= 0x3000 {
			p = places[c.Pick(len(places))]
		} else {
			p = places[c.Choose(len(places))]
		}
		return strings.ReplaceAll(p, "%", string(runes[k]))
	})
	// long texts
	long := []struct{ before, unit, after string }{
		{"select a from b where c = '", "x", "'"}, {"select a from b where c = '", "é", "'"}, {"select a from b where c = '", "\\n", "'"}, {"select a /*", "\U0001f600", "*/ from b"}, {"select a", " ", "from b"}, {"select ", "a", " from b"}, {"select a from b where c = '", "z", ""},
		{"select a from b where c = '", "<", "'"},
	}
	own("wasm-long", func(c *explore.Ctl) string {
		u := long[c.Pick(len(long))]
		k := c.Pick(15) + 3 // 8 .. 131072
		n := 1<<k - 1 + c.Pick(3)
		if c.Pick(2) == 1 {
			// the length of the whole text
			n = (n - len(u.before) - len(u.after)) / len(u.unit)
			if n < 0 {
				n = 0
			}
		}
		return u.before + strings.Repeat(u.unit, n) + u.after
	})
	fams := families(false)
	own("wasm-repetitions", func(c *explore.Ctl) string {
		n := []int{2, 3, 9}[c.Choose(3)]
		return fams[c.Pick(len(fams))].text(n)
	})
	for i := range r {
		r[i].Quick, r[i].Thorough = 1, 2
	}
	r[2].Quick, r[4].Quick = 0, 0
	r[2].Thorough = 1
	// the texts of other properties
	for _, sp := range spaces {
		if sp.Gen == nil || !thorough && !strings.HasPrefix(sp.Name, "mix") && !strings.HasPrefix(sp.Name, "edit") && !strings.HasPrefix(sp.Name, "page") {
			continue
		}
		q := sp
		q.Props = "P23"
		q.Name = "wasm:" + sp.Name
		q.Quick, q.Thorough = 1, sp.Quick
		r = append(r, q)
	}
	return
}

func runP23(cfg Config, cov *Coverage) *Violation {
	work, clean, err := cfg.scratch()
	if err != nil {
		fatal(err)
	}
	defer clean()
	if err := buildWasm(cfg, work); err != nil {
		fatal(err)
	}
	defer func() { theWasm.stop() }()
	if v := wasmSequences(cfg, cov); v != nil {
		return v
	}
	theWasm.stop()
	theWasm.gogc = "400" // the garbage collector runs less often
	seq := cov.Exhaustive
	v := runSpaces(cfg, cov, wasmSpaces(cfg.Tier == "thorough"), CheckText)
	cov.Exhaustive = cov.Exhaustive && seq
	return v
}

func rawCall(raw ...string) wcall {
	c := wcall{F: "parseSoql", A: []json.RawMessage{}}
	for _, s := range raw {
		c.A = append(c.A, json.RawMessage(s))
	}
	return c
}

// callPool: the calls sequences are made of.
func callPool() (r []wcall) {
	for _, s := range poolTexts {
		r = append(r, textCall(s))
	}
	none := rawCall()
	r = append(r, none)
	for _, raw := range []string{`{"special":"undefined"}`, "null", "17", "true", `{"special":"NaN"}`, `{"special":"object"}`, `{"special":"symbol"}`, `{"special":"function"}`, `{"special":"String"}`, `[1,"select a from b"]`} {
		c := rawCall(raw)
		c.judge = wString
		r = append(r, c)
	}
	// a lone surrogate becomes U+FFFD
	for _, s := range []string{`\ud800`, `\udc00`, `\udc00\ud800`, `x\ud83d`} {
		c := rawCall(`"select a from b where c = '` + s + `'"`)
		json.Unmarshal([]byte(c.A[0]), &c.text)
		r = append(r, c)
	}
	more := textCall(poolTexts[1])
	more.A = append(more.A, json.RawMessage(`"select q from r"`), json.RawMessage(`1`))
	r = append(r, more)
	other := textCall(poolTexts[2])
	other.ViaApply = true
	r = append(r, other)
	r = append(r, wcall{F: "getVersion", A: []json.RawMessage{}, judge: wAny})
	return
}

// wasmSequences runs all sequences of two calls (three in the thorough tier) in modules of their own, and all
// sequences of three in one.
func wasmSequences(cfg Config, cov *Coverage) *Violation {
	pool := callPool()
	n := len(pool)
	type seq struct {
		calls        []wcall
		fresh, pause bool
	}
	var seqs []seq
	for i := range pool {
		seqs = append(seqs, seq{[]wcall{pool[i]}, true, false})
	}
	for i := range pool {
		for k := range pool {
			seqs = append(seqs, seq{[]wcall{pool[i], pool[k]}, true, (i+k)%2 == 0})
		}
	}
	if cfg.Tier == "thorough" {
		for i := range pool {
			for k := range pool {
				for l := range pool {
					seqs = append(seqs, seq{[]wcall{pool[i], pool[k], pool[l]}, true, (i+k+l)%2 == 0})
				}
			}
		}
	}
	// every sequence of three calls on one module, with the module going on: for each pair i k: i k l for all l
	for i := range pool {
		var calls []wcall
		for k := range pool {
			for l := range pool {
				calls = append(calls, pool[i], pool[k], pool[l])
			}
			if len(calls) >= 300 {
				seqs = append(seqs, seq{calls, false, false})
				calls = nil
			}
		}
		seqs = append(seqs, seq{calls, false, false})
	}
	var mu sync.Mutex
	next := 0
	var bad *Violation
	var wg sync.WaitGroup
	cov.Exhaustive = true
	deadline := time.Now().Add(cfg.Budget)
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next == len(seqs) || bad != nil || time.Now().After(deadline) {
					cov.Exhaustive = cov.Exhaustive && next == len(seqs)
					mu.Unlock()
					return
				}
				s := seqs[next]
				next++
				mu.Unlock()
				r, fail := theWasm.ask(s.calls, s.fresh, s.pause)
				at := 0
				for i := range r {
					if fail = s.calls[i].judgeResult(r[i]); fail != "" {
						at = i
						break
					}
				}
				mu.Lock()
				cov.Executions += int64(len(s.calls))
				cov.Validated += int64(len(s.calls))
				cov.States += int64(len(s.calls))
				cov.Transitions += int64(len(s.calls))
				if fail != "" && bad == nil {
					from := at - 3
					if from < 0 {
						from = 0
					}
					b, _ := json.Marshal(s.calls[from : at+1])
					bad = &Violation{Input: s.calls[at].text, Msg: fmt.Sprintf("call %d of a sequence, arguments %s: %s", at+1, s.calls[at].A, fail), Extra: map[string]interface{}{"last_calls": string(b), "fresh_module": s.fresh}}
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	cov.Extra["call_sequences"] = len(seqs)
	cov.Extra["calls_in_the_pool"] = n
	return bad
}

// replayWasm runs recorded calls again.
func replayWasm(cfg Config, text, calls string) (string, error) {
	work, clean, err := cfg.scratch()
	if err != nil {
		return "", err
	}
	defer clean()
	if err := buildWasm(cfg, work); err != nil {
		return "", err
	}
	defer theWasm.stop()
	if calls == "" {
		msg, _ := checkWasm(text)
		return msg, nil
	}
	var list []wcall
	if err := json.Unmarshal([]byte(calls), &list); err != nil {
		return "", err
	}
	list[len(list)-1].text = text
	r, fail := theWasm.ask(list, true, false)
	if fail != "" {
		return fail, nil
	}
	return list[len(list)-1].judgeResult(r[len(r)-1]), nil
}
