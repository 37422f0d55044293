package chk

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"time"

	"verif/mc/imcp"
	"verif/mc/instr"
)

// The checks of P20, P21 and P24 run imc: the parser and the library it is built on with inserted step counters and
// scheduling points, rebuilt from the current tree.

type imcBuild struct {
	bin, race string
	stats     instr.Stats
}

func (cfg Config) scratch() (string, func(), error) {
	if cfg.Work != "" {
		return cfg.Work, func() {}, nil
	}
	d, err := os.MkdirTemp("", "verif-imc")
	return d, func() { os.RemoveAll(d) }, err
}

func buildImc(cfg Config, work string, race bool) (*imcBuild, error) {
	mod := filepath.Join(cfg.Dir, "mc")
	var last error
	for _, plain := range []bool{false, true} {
		dir := filepath.Join(work, fmt.Sprintf("instrumented%v", plain))
		modfile, st, err := instr.Write(mod, "github.com/shellyln/go-open-soql-parser/soql/parser", dir, "verif/", plain)
		if err != nil {
			last = err
			continue
		}
		b := &imcBuild{bin: filepath.Join(work, "imc"), stats: st}
		build := func(out string, env string, args ...string) error {
			c := exec.Command("go", append(append([]string{"build"}, args...), "-modfile", modfile, "-o", out, "./cmd/imc")...)
			c.Dir = mod
			c.Env = append(os.Environ(), env)
			if o, err := c.CombinedOutput(); err != nil {
				return fmt.Errorf("building the instrumented parser: %v: %s", err, head(string(o), 2000))
			}
			return nil
		}
		if last = build(b.bin, "CGO_ENABLED=0"); last != nil {
			continue
		}
		if race {
			if last = build(b.bin+"-race", "CGO_ENABLED=1", "-race"); last != nil {
				continue
			}
			b.race = b.bin + "-race"
		}
		return b, nil
	}
	return nil, last
}

type job struct {
	bin    string
	req    imcp.Request
	wait   time.Duration
	ans    imcp.Answer
	err    string // the process failed
	hung   bool
	stderr string
	run    bool
}

// ask runs a job in a process of its own.
func (j *job) ask() {
	j.run = true
	in, _ := json.Marshal(&j.req)
	c := exec.Command(j.bin)
	c.Stdin = bytes.NewReader(in)
	var out bytes.Buffer
	var e tailWriter
	c.Stdout, c.Stderr = &out, &e
	c.Env = append(os.Environ(), "GORACE=atexit_sleep_ms=0 halt_on_error=0", "GOTRACEBACK=single")
	if err := c.Start(); err != nil {
		j.err = err.Error()
		return
	}
	w := j.wait
	if w == 0 {
		w = 60 * time.Second
	}
	var mu sync.Mutex
	t := time.AfterFunc(w, func() {
		mu.Lock()
		j.hung = true
		mu.Unlock()
		c.Process.Kill()
	})
	c.Wait()
	t.Stop()
	mu.Lock()
	defer mu.Unlock()
	j.stderr = e.String()
	if err := json.Unmarshal(out.Bytes(), &j.ans); err != nil {
		if j.hung {
			j.err = "no answer within " + w.String()
		} else {
			j.err = "the process ended: " + firstLine(head(j.stderr, 400))
		}
	} else {
		j.hung = false
	}
}

// askAll runs the jobs in parallel; stop is asked after each job whether to start no more.
func askAll(jobs []*job, deadline time.Time, stop func(*job) bool) (complete bool) {
	var mu sync.Mutex
	next, end := 0, false
	complete = true
	var wg sync.WaitGroup
	for w := 0; w < runtime.NumCPU(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if end || next == len(jobs) {
					mu.Unlock()
					return
				}
				if !deadline.IsZero() && time.Now().After(deadline) {
					complete, end = false, true
					mu.Unlock()
					return
				}
				j := jobs[next]
				next++
				mu.Unlock()
				j.ask()
				if stop != nil {
					mu.Lock()
					if stop(j) {
						end = true
					}
					mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	return
}

// poolTexts are parsed together in the checks of P20 and P21.
var poolTexts = []string{
	"select a from b",
	"select x.a, f(y, 'v') from b where c = 1 and (d > 2 or not e != null)",
	"select id, (select n from cs where q in ('a', :p)) from c order by z desc nulls last limit 3",
	"select a from b where x = TODAY and y not in (select id from d where e like 'f%')",
	"select n, count(id) k from b group by n having sum(v) > 1.5 offset 2",
	"select a from b where",
	"select a, count(id) from b group by c",
	"select id from c k, c.d K",
	"select fields(all) from c x -- k\n for view",
	"select a from b where d >= 2020-01-02T03:04:05Z and t = 23:59:01 and m includes ('a;b', 'c') and n = LAST_N_DAYS:3 limit :l",
	"select o.id, o.p.q.name, c.r.s from contact o, o.p w where w.z = true and o.y like 'a\\'%' and (o.x = 0x1F or w.q.v <> -1.5e3)",
	"",
}

// morePool is added for histories.
var morePool = []string{
	"select id, (select id from cs where s.x = c.y and c.z = 1) from c, c.d s where s.x = 1",
	"select name, count(id), max(a.b) from c, c.a group by name, a.b having count(id) > 1 order by name for update",
	"select id from b where a = 'x' or b = 'y' and not (c = 'z')",
	"select id from b where id in (select u from v where w = (x))",
	"select a.b.c.d, e.f.g from h where a.b.c.d = e.f.g or i.j = 1 and k.l = 2",
	"select a from b where c = 'unterminated",
	"select a from b where c = 99999999999999999999999",
	"select a from b where d = 2020-13-45",
	"select f(g(h(i, :j), 'k'), 1.5) z from b where f(g(1)) = NaN",
	"select a, a, B.a, b.A from b, B.c order by a, c.d",
	"select \"from\" from \"select\" where \"where\" = 'x'",
	"select a from b limit 1 limit 2",
	"\x00\u00e9 select",
	"select count() from c where d.e = 1 for view update",
}

// baseline parses every text alone in a process of its own.
func baseline(b *imcBuild, texts []string) (dumps []string, live []int, points []int64, err error) {
	var jobs []*job
	for _, t := range texts {
		jobs = append(jobs, &job{bin: b.bin, req: imcp.Request{Op: "solo", Texts: []string{t}}})
	}
	askAll(jobs, time.Time{}, nil)
	seen := map[int]bool{}
	for i, j := range jobs {
		if j.hung {
			return nil, nil, nil, errBlocked
		}
		if j.err != "" {
			return nil, nil, nil, fmt.Errorf("parsing %q alone: %s", texts[i], j.err)
		}
		dumps = append(dumps, j.ans.Dumps[0])
		points = append(points, j.ans.Points[0])
		for _, w := range j.ans.Written {
			if !seen[w] {
				seen[w] = true
				live = append(live, w)
			}
		}
	}
	return
}

var errBlocked = fmt.Errorf("the parser blocks in a way the scheduler cannot see")

// raceReport is the essence of a report of the race detector.
func raceReport(s string) string {
	k := strings.Index(s, "WARNING: DATA RACE")
	if k < 0 {
		return ""
	}
	s = s[k:]
	if k := strings.Index(s, "=================="); k > 0 {
		s = s[:k]
	}
	var r []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") || strings.Contains(l, "go-open-soql-parser") {
			r = append(r, l)
		}
	}
	return head(strings.Join(r, "; "), 900)
}

func imcViolation(j *job, what string) *Violation {
	msg := j.ans.Fail
	if msg == "" {
		msg = j.err
	}
	if r := raceReport(j.stderr); r != "" && strings.Contains(msg, "race") {
		msg += ": " + r
	}
	req := j.req
	return &Violation{
		Input: head(strings.Join(append(append([]string(nil), req.Texts...), req.Probes...), "  ||  "), 1500), Msg: what + ": " + msg,
		Extra: map[string]interface{}{"request": req, "race": strings.HasSuffix(j.bin, "-race"), "plan": j.ans.Plan},
	}
}

// replayImc runs a recorded request again.
func replayImc(cfg Config, reqJSON json.RawMessage, race bool) (string, error) {
	work, clean, err := cfg.scratch()
	if err != nil {
		return "", err
	}
	defer clean()
	b, err := buildImc(cfg, work, race)
	if err != nil {
		return "", err
	}
	j := &job{bin: b.bin}
	if race {
		j.bin = b.race
	}
	if err := json.Unmarshal(reqJSON, &j.req); err != nil {
		return "", err
	}
	j.ask()
	if j.err != "" {
		return j.err, nil
	}
	if r := raceReport(j.stderr); r != "" && j.ans.Fail != "" {
		return j.ans.Fail + ": " + r, nil
	}
	return j.ans.Fail, nil
}
