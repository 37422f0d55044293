package chk

import (
	"fmt"
	"os"
	"strings"
	"time"

	"verif/mc/imcp"
)

func init() { special["P24"] = runP24 }

// A family is a text with a part that is repeated n times.
type family struct {
	name string
	text func(n int) string
}

// nest: n times open, then the core, then n times end.
func nest(open, core, end string) func(n int) string {
	return func(n int) string { return strings.Repeat(open, n) + core + strings.Repeat(end, n) }
}

// list: n items with a separator, # in the item is its number.
func list(item, sep string) func(n int) string {
	return func(n int) string {
		var b strings.Builder
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(sep)
			}
			b.WriteString(strings.ReplaceAll(item, "#", fmt.Sprint(i)))
		}
		return b.String()
	}
}

// units that nest in a place of a query
type unit struct{ open, end string }

type place struct {
	name, before, core, after string
	units                     []unit
}

var nestPlaces = []place{
	{"where", "select a from b where ", "c = 1", "", []unit{
		{"(", ")"}, {"not (", ")"}, {"not not (", ")"}, {"( ( ", " ) )"}, {"(d = 2 and ", ")"}, {"(d = 2 or ", ")"}, {"(", " and d = 2)"}, {"(", " or d = 2)"}, {"not (d = 2 and not (", "))"}, {"d = 2 and ", ""}, {"d = 2 or ", ""}, {"", " and d = 2"}, {"", " or not d = 2"},
		{"id in (select d from e where ", ")"}, {"d not in (select e.d from e, e.f where ", ")"}, {"/*c*/(", "/*c*/)"}, {"d.e.f = 1 and (", ")"}}},
	{"having", "select a from b group by a having ", "count(id) = 1", "", []unit{
		{"(", ")"}, {"not (", ")"}, {"(max(d) = 2 and ", ")"}, {"(", " or d = 2)"}, {"", " or a = 2"}, {"a in (select d from e where x = 1 and (", "))"}}},
	{"select", "select ", "c", " from b", []unit{
		{"f(", ")"}, {"f(d, ", ")"}, {"f(", ", d)"}, {"f('x', ", ", 1)"}, {"c, ", ""}, {"", ", c"}, {"c.d.e, ", ""}, {"f(c), ", ""}, {"(select id from g), ", ""}, {"c d#, ", ""}, {"c.", ""}, {"(select id from e where id in (select ", " from g)), d"}, {"g(h(", "))"}, {"f ( ", " ) "}}},
	{"subselect", "select ", "id", " from b", []unit{
		{"id, (select ", " from cs)"}, {"(select ", " from cs where d = 1)"}, {"(select x.y, ", " from cs c, c.d e)"}, {"f(id), (select ", " from cs order by d)"}}},
	{"left", "select a from b where ", "c", " = 1", []unit{{"f(", ")"}, {"f(d, ", ")"}, {"f(", ", d)"}, {"c.", ""}, {"f(1, ", ", 'x')"}}},
	{"right", "select a from b where c = ", "d", "", []unit{{"f(", ")"}, {"f(d, ", ")"}, {"d.", ""}, {"f(:p, ", ", TODAY)"}}},
	{"function-in-having", "select a from b group by a having ", "max(c)", " > 1", []unit{{"f(", ")"}, {"f(a, ", ")"}}},
	{"group", "select a from b group by ", "a", "", []unit{{"a.", ""}, {"f(", ")"}, {"a, ", ""}}},
	{"order", "select a from b order by ", "a", "", []unit{{"a.", ""}, {"f(", ")"}, {"a desc nulls last, ", ""}}},
	{"list", "select a from b where c in (", "1", ")", []unit{{"1, ", ""}, {"'x', ", ""}, {":p, ", ""}, {"null, ", ""}, {"2020-01-02T03:04:05Z, ", ""}, {"TODAY, ", ""}, {"(", ")"}, {"-1.5e3 , ", ""}}},
	{"includes", "select a from b where c includes (", "'1'", ")", []unit{{"'a;b', ", ""}, {"", ", 'q'"}}},
	{"from", "select a from b", "", "", []unit{{", b.c", ""}, {", b.c d", ""}, {".c", ""}, {", e", ""}, {" x", ""}}},
	{"from#", "select a from b", "", "", []unit{{", b.c#", ""}, {", b.c# d#", ""}, {", x#.y", ""}, {", b x#", ""}}},
	{"objects", "select id from b where ", "x = 1", "", []unit{{"c#.d = 1 and ", ""}, {"c#.d = 1 or ", ""}, {"(c#.d.e = 1 and ", ")"}, {"f(c#.d) = 1 or ", ""}, {"not (c#.d = 1 or ", ")"}}},
	{"string", "select a from b where c = '", "", "'", []unit{{"x", ""}, {"\\n", ""}, {"\\'", ""}, {"\\u0041", ""}, {"\"", ""}, {"\\\\", ""}, {"é", ""}, {" ", ""}, {"\\q", ""}}},
	{"layout", "select a ", "", "from b", []unit{{" ", ""}, {"\n", ""}, {"/**/", ""}, {"/*", "*/"}, {"-- x\n", ""}, {"/* x", ""}, {"*/", ""}, {"--", "\n"}}},
	{"tail", "select a from b ", "", "", []unit{{" ", ""}, {"limit 1 ", ""}, {"offset 1 limit 1 ", ""}, {"for view ", ""}, {"/*x*/", ""}, {")", ""}, {"where a = 1 ", ""}, {"order by a ", ""}, {"\x00", ""}}},
	{"name", "select ", "a", " from b", []unit{{"a", ""}, {"a1_", ""}, {"\"", "\""}, {"é", ""}, {"_", ""}, {"9", ""}}},
	{"number", "select a from b where c = ", "1", "", []unit{{"1", ""}, {"0", ""}, {"-", ""}, {"1.", ""}, {"", ".0"}, {"", "e1"}, {"1_", ""}, {"+", ""}, {"0x", ""}, {"", "0"}}},
	{"date", "select a from b where c = ", "2020-01-02T03:04:05", "Z", []unit{{"1", ""}, {"", ".1"}, {"", "+01:00"}, {"", "0"}}},
}

// endings: how the text may go wrong behind the repeated part (the last one: nothing does).
var breaks = []struct {
	name string
	f    func(open, core, end string, after string) string
}{
	{"complete", func(o, c, e, a string) string { return o + c + e + a }},
	{"not closed", func(o, c, e, a string) string { return o + c + a }},
	{"no core", func(o, c, e, a string) string { return o + e + a }},
	{"error in the core", func(o, c, e, a string) string { return o + c + " ? " + e + a }},
	{"error behind", func(o, c, e, a string) string { return o + c + e + a + " ?" }},
	{"cut off", func(o, c, e, a string) string { return o }},
	{"one end too many", func(o, c, e, a string) string { return o + c + e + ")" + a }},
}

func number(s string, n int) string {
	if !strings.Contains(s, "#") {
		return strings.Repeat(s, n)
	}
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(strings.ReplaceAll(s, "#", fmt.Sprint(i)))
	}
	return b.String()
}

func families(thorough bool) (r []family) {
	for _, p := range nestPlaces {
		p := p
		for i, u := range p.units {
			u := u
			for _, b := range breaks {
				b := b
				r = append(r, family{fmt.Sprintf("%s %q...%q, %s", p.name, u.open, u.end, b.name), func(n int) string {
					return p.before + b.f(number(u.open, n), p.core, strings.Repeat(u.end, n), p.after)
				}})
			}
			// two units taking turns
			for k, v := range p.units {
				if k == i {
					continue
				}
				v := v
				for x, b := range breaks {
					b := b
					if x > 0 && !thorough && x != 3 && x != 1 {
						continue
					}
					r = append(r, family{fmt.Sprintf("%s %q...%q and %q...%q, %s", p.name, u.open, u.end, v.open, v.end, b.name), func(n int) string {
						return p.before + b.f(number(u.open+v.open, n/2), p.core, strings.Repeat(v.end+u.end, n/2), p.after)
					}})
				}
			}
		}
	}
	// several places at once
	add := func(name string, f func(n int) string) { r = append(r, family{name, f}) }
	add("everything", func(n int) string {
		return "select " + list("a#.b# c#", ", ")(n) + " from o" + number(", o.p# q#", n) + " where " + list("f(x#, 'y') = 1", " and ")(n) + " order by " + list("a#.b# desc", ", ")(n)
	})
	add("grouped", func(n int) string {
		return "select " + list("a#", ", ")(n) + ", " + list("max(b#) m#", ", ")(n) + " from o group by " + list("a#", ", ")(n) + " having " + list("count(c#) > 1", " or ")(n)
	})
	add("subqueries", func(n int) string {
		return "select id" + number(", (select id, x.y from cs# where a = 1 or b.c = 2)", n) + " from o"
	})
	add("correlated", func(n int) string {
		return "select id" + number(", (select id from cs# where x.y = o.z)", n) + " from a o, o.x" + number(", o.y# z#", n)
	})
	add("parents", func(n int) string {
		return "select " + list("a.b.c.d.e#", ", ")(n) + " from o where " + list("p#.q.r = s.t#", " or ")(n)
	})
	add("chain", func(n int) string {
		return "select a" + number(".b#", n) + " from o where c" + number(".d#", n) + " = 1"
	})
	add("chain of objects", func(n int) string {
		var b strings.Builder
		b.WriteString("select id from o a0")
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, ", a%d.x a%d", i, i+1)
		}
		return b.String() + fmt.Sprintf(" where a%d.z = 1", n)
	})
	add("in chain", func(n int) string {
		return "select id from o where " + strings.Repeat("id in (select x from y where ", n) + "z = 1" + strings.Repeat(" and w.v = 2)", n)
	})
	return
}

// The work may grow by this factor when the repeated part doubles from 8 on (a cubic effort has factor 8), beyond a constant part.
const growth = 10

// runP24 counts the steps of parsing each family with doubled repetitions.
func runP24(cfg Config, cov *Coverage) *Violation {
	work, clean, err := cfg.scratch()
	if err != nil {
		fatal(err)
	}
	defer clean()
	b, err := buildImc(cfg, work, false)
	if err != nil {
		fatal(err)
	}
	thorough := cfg.Tier == "thorough"
	sizes := []int{4, 8, 16, 32}
	if thorough {
		sizes = []int{4, 8, 16, 32, 64, 128}
	}
	fams := families(thorough)
	deadline := time.Now().Add(cfg.Budget * 3 / 2)
	cov.Exhaustive = true
	cov.Extra["instrumented"] = b.stats
	steps := make([][]int64, len(fams))
	worst, worstName := 0.0, ""
	var table []map[string]interface{}
	for si, n := range sizes {
		const chunk = 40
		var jobs []*job
		for from := 0; from < len(fams); from += chunk {
			to := from + chunk
			if to > len(fams) {
				to = len(fams)
			}
			q := imcp.Request{Op: "steps", Warm: poolTexts}
			for i := from; i < to; i++ {
				q.Texts = append(q.Texts, fams[i].text(n))
				limit := int64(3_000_000) // 100 times what the code takes
				if si > 1 {
					limit = (steps[i][si-1] + 5000) * growth
				}
				q.Limits = append(q.Limits, limit)
			}
			jobs = append(jobs, &job{bin: b.bin, req: q, wait: 5 * time.Minute})
		}
		if !askAll(jobs, deadline, nil) {
			cov.Exhaustive = false
		}
		for ji, j := range jobs {
			if !j.run {
				continue
			}
			if j.err != "" {
				v := &Violation{Input: strings.Join(j.req.Texts, "\n"), Msg: "parsing does not terminate or ends the process: " + j.err, Extra: map[string]interface{}{"request": j.req, "race": false}}
				// which one?
				for i, t := range j.req.Texts {
					one := &job{bin: b.bin, req: imcp.Request{Op: "steps", Texts: []string{t}, Limits: j.req.Limits[i : i+1]}, wait: time.Minute}
					one.ask()
					if one.err != "" {
						v.Input, v.Msg = t, "parsing does not terminate or ends the process: "+one.err
						v.Extra["request"] = one.req
						break
					}
				}
				return v
			}
			for k, s := range j.ans.Points {
				i := ji*chunk + k
				cov.Executions++
				cov.Validated++
				if s > 0 {
					cov.States += s
					cov.Transitions += s
				}
				if j.ans.Dumps[k] == "accepted" {
					cov.Accepted++
				} else {
					cov.Rejected++
				}
				steps[i] = append(steps[i], s)
				if s < 0 {
					return &Violation{Input: j.req.Texts[k], Msg: fmt.Sprintf("the effort explodes: family %s, repetitions and steps: %s, more than %d steps with %d repetitions", fams[i].name, trace(sizes, steps[i][:si]), -s, n),
						Extra: map[string]interface{}{"request": imcp.Request{Op: "steps", Texts: j.req.Texts[k : k+1], Limits: j.req.Limits[k : k+1]}, "race": false}}
				}
				if si > 1 {
					if f := float64(s) / float64(steps[i][si-1]+1); f > worst && steps[i][si-1] > 2000 {
						worst, worstName = f, fams[i].name
					}
				}
			}
		}
	}
	// memory that stays in use
	const keep, bigText = 1 << 20, 400 << 10
	var jobs []*job
	size := 32
	for from := 0; from < len(fams); from += 64 {
		q := imcp.Request{Op: "heap", Warm: append([]string(nil), poolTexts...), Limits: []int64{keep}}
		for i := from; i < from+64 && i < len(fams); i++ {
			if steps[i][len(steps[i])-1] > 0 {
				q.Warm = append(q.Warm, fams[i].text(2))
				q.Texts = append(q.Texts, fams[i].text(size))
			}
		}
		jobs = append(jobs, &job{bin: b.bin, req: q, wait: 2 * time.Minute})
	}
	// nothing is kept of the texts: thousands of different ones, after as many
	for _, f := range []string{
		"select f#(a#, 's#', :p#, #) x#, o#.y#, \"q#\" from t# u#, u#.v# w# where c# = #.5 and w#.z > LAST_N_DAYS:# and d# in ('#', 1#) and e = 2020-01-01T00:00:00.#Z order by x# /* # */ limit #",
		"select id#, (select k# from r# where s# = t#.u) from t# where v# in (select w# from z#) and not fn#() like 'l#%'",
		"select n#, count(id#) c# from t# group by n# having sum(a#) > # -- #",
		"select a# from b# where c# = 'd# ", "select a#, from b#", "select a#.b from c d#, d#.e f where d#.x = 1 or z in (:#)", "select t#.a from b# where 2020-#-01 = 1", "# select", "select count(a#), b# from c#",
	} {
		q := imcp.Request{Op: "heap", Limits: []int64{100 << 10}}
		for i := 0; i < 6000; i++ {
			if t := strings.ReplaceAll(f, "#", fmt.Sprint(10000+i)); i < 3000 {
				q.Warm = append(q.Warm, t)
			} else {
				q.Texts = append(q.Texts, t)
			}
		}
		jobs = append(jobs, &job{bin: b.bin, req: q, wait: 2 * time.Minute})
	}
	// nor anything of a single large one, whatever becomes of it: accepted, or rejected in the syntax or by a rule
	for _, f := range []string{
		"select a @from b where c = f(x, :p) and e in ('s', TODAY) order by a limit :q", "select a, max(d) x from b @group by a having count() > 1",
		"select a, (select b from cs where f(d.e) = 1) from d@, d.e f where g in (select h @from i)",
		"@", "select@", "@select a from", "select a from b where @", "select a from b where c = @'d", "select a from b where c in (1, @:", "select a from b where c = 2020-13-01@", "select a from b @where c = 2020-02-31",
		"select a from b limit @99999999999999999999", "select a from b @x y", "select a a, b a from c@", "select a from b@ order by x.y.z", "select a, a from b group by b@", "select id, (select fields(all) from cs @limit 1) from d", "select a from b group by a, A@", "select count(a, @b) from c",
		"select a@ from b, d.e f, d.g f", "select a from b where f(@) = ", "select a from b where f(c, (@", "select a from b where ((((@ c = 1",
	} {
		for _, fill := range []string{" ", "\n", "/*x*/", "-- xyz\n"} {
			jobs = append(jobs, &job{bin: b.bin, req: imcp.Request{Op: "heap", Warm: []string{strings.ReplaceAll(f, "@", strings.Repeat(fill, 3))},
				Texts: []string{strings.ReplaceAll(f, "@", strings.Repeat(fill, bigText/len(fill)))}, Limits: []int64{bigText / 2}}, wait: 2 * time.Minute})
		}
	}
	for _, f := range []string{"select @ from b", "select a from @", "select a from b where @ = 1", "select a from b where c = '@", "select a from b where c = '@'", "select a from b where c like '@'", "select @(a) from b", "select a from b where c = :@", "select a from b order by @", "select @, a from b group by @", "select a @ from b order by @", "select a from b where c = @", "select a from b where c = 1@", "@"} {
		jobs = append(jobs, &job{bin: b.bin, req: imcp.Request{Op: "heap", Warm: []string{strings.ReplaceAll(f, "@", "xx")},
			Texts: []string{strings.ReplaceAll(f, "@", strings.Repeat("x", bigText/4))}, Limits: []int64{bigText / 8}}, wait: 2 * time.Minute})
	}
	askAll(jobs, time.Time{}, nil)
	most, mostOf, mostBig := int64(0), int64(0), int64(0)
	for _, j := range jobs {
		if j.err != "" {
			return &Violation{Input: strings.Join(j.req.Texts, "\n"), Msg: "parsing does not terminate or ends the process: " + j.err, Extra: map[string]interface{}{"request": j.req, "race": false}}
		}
		if j.ans.Fail != "" {
			return &Violation{Input: strings.Join(j.req.Texts[:1], "\n"), Msg: j.ans.Fail, Extra: map[string]interface{}{"request": j.req, "race": false}}
		}
		cov.Executions += j.ans.Executions
		d := j.ans.Points[1] - j.ans.Points[0]
		if len(j.req.Texts) == 1 {
			if d > mostBig {
				mostBig = d
			}
		} else if len(j.req.Texts) > 64 {
			if d > mostOf {
				mostOf = d
			}
		} else if d > most {
			most = d
		}
	}
	cov.Extra["most_memory_left_behind_by_64_texts_KB"] = most >> 10
	cov.Extra["most_memory_left_behind_by_one_text_of_400_KB_KB"] = mostBig >> 10
	cov.Extra["most_memory_left_behind_by_3000_different_texts_KB"] = mostOf >> 10
	if os.Getenv("VERIF_DEBUG") != "" {
		for i, f := range fams {
			fmt.Printf("%.2f %s: %s\n", float64(steps[i][len(steps[i])-1])/float64(steps[i][len(steps[i])-2]+1), f.name, trace(sizes, steps[i]))
		}
	}
	for i, f := range fams {
		if i%97 == 0 {
			table = append(table, map[string]interface{}{"family": f.name, "steps": trace(sizes, steps[i]), "text": f.text(4)})
		}
	}
	cov.Distinct = cov.Executions
	cov.Extra["families"] = len(fams)
	cov.Extra["repetitions"] = sizes
	cov.Extra["largest_growth_when_doubled"] = fmt.Sprintf("%.2f: %s", worst, worstName)
	for _, t := range table {
		cov.Samples = append(cov.Samples, t)
	}
	return nil
}

func trace(sizes []int, steps []int64) string {
	var r []string
	for i, s := range steps {
		r = append(r, fmt.Sprintf("%d: %d", sizes[i], s))
	}
	return strings.Join(r, ", ")
}
