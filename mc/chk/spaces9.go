package chk

import (
	"fmt"
	"strconv"
	"strings"

	"verif/mc/explore"
)

// ---- trees of queries: every arrangement of few queries, some of more; each query deviates in one part

// treeShapes: of each query but the first its parent and its place (s: select list, w: condition).
var treeShapes = func() (r []string) {
	var all func(prefix string, n, i int)
	all = func(prefix string, n, i int) {
		if i == n {
			r = append(r, prefix)
			return
		}
		for p := 0; p < i; p++ {
			for _, place := range "sw" {
				all(prefix+strconv.Itoa(p)+string(place), n, i+1)
			}
		}
	}
	for n := 1; n <= 4; n++ {
		all("", n, 1)
	}
	return append(r, "0s1s2s3s4s", "0w1w2w3w4w", "0s0s0s0s0s", "0w0w0w0w0w", "0s1w2s3w4s", "0w1s2w3s", "0s0s0w1w1s2w", "0s0s0s0s0s0s0s0s", "0w0w0w0w0w0w0w0w", "0s0s1w2w0w5w")
}()

// treeVariants: the parts of a query: fields, FROM, condition, clauses. q: its name, p: its parent's name, r: its object.
var treeVariants = []string{
	"id|r q|q.x = 1|",
	// fields
	"q.o.x k|r q|q.x = 1|", "f(q.o.x, x)|r q|q.x = 1|", "f(p.x)|r q|q.x = 1|", "p.x|r q|x = 1|", "count()|r q|q.x = 1|", "count(id)|r q|q.x = 1|", "max(x) m|r q||group by id", "id, x|r q||group by x",
	"x, f(count(id))|r q||group by x", "f(count(id))|r q|x = 1|", "id k, x K|r q|q.x = 1|", "fields(all)|r q|q.x = 1|", "fields(1)|r q|x = 1|", "count(f(x))|r q|x = 1|", "count_distinct()|r q|x = 1|", "count_distinct(x)|r q|x = 1|",
	"id, id, q.id, Q.ID|r q|q.x = 1|", "q|r q|x = 1|", "z.x|r q|x = 1|", "q.id, \"q\".\"id\"|r q|\"q\".x = 1|", "f()|r q|g() = 1|",
	// objects
	"id|r|x = 1|", "id|r q, q.o u|u.x = 1|", "id|r q, o u|u.x = 1 or x = 2|", "id|r q, o q|q.x = 1|", "id|r q, p.o u|u.x = 1|", "id|p.r q|q.x = 1|", "u.x|r q, q.o u, u.v w|w.x = 1 and u.v.y = 2|", "id|r p|p.x = 1|", "id|r r|r.x = 1|", "id|r q, q.o p|p.x = 1|", "id|r q, contact u|u.x = 1|", "w.v.x|r q, q.o u, q.o w|u.v.x = 1|",
	// conditions
	"id|r q|q.x = p.x|", "id|r q|p.o.x = 1|", "id|r q|q.x = p.x and p.y = 1 or q.z = 2|", "id|r q|not (q.x = 1 and (q.y = 2 or not q.o.z = 3))|", "id|r q|count(id) = 1|", "id|r q|f(sum(x)) = 1|", "id|r q|fields(all) = 1|", "id|r q|z.x = 1|", "id|r q|u.v.w.x = 1 and u.v.y = 2|", "id|r q|f(p.x) = q.x|", "id|r q|f(q.o.x, :a, TODAY) = 1|",
	"id|r q|q.x in (1, 's', :a, null)|", "id|r q|q.x = :p and y not in (TODAY, LAST_N_DAYS:3)|", "id|r q|q.x includes ('a;b') or q.x not like 'a%'|", "id|r q|p.p.x = 1|", "id|r q|q.q.x = 1|", "id|r q||",
	// clauses
	"x|r q|x = 1|group by x", "x, count(id)|r q|x = 1|group by x having count(id) > 1 and x = 2", "id|r q|x = 1|having count(id) > 1", "x|r q||group by x having y = 1", "x|r q||group by x, q.o.y having not (max(y) > 1 or f(x) = 2)", "id|r q|x = 1|order by x desc nulls first, q.o.y, p.x", "id|r q|x = 1|order by count(id)", "id|r q|x = 1|order by f(x), z.y",
	"x|r q||group by x order by x, max(y)", "id|r q|x = 1|limit 3", "id|r q|x = 1|limit :l offset 2", "id|r q|x = 1|offset :p", "id|r q|x = 1|for view", "id|r q|x = 1|for update viewstat, tracking", "id|r q|x = 1|limit 1 limit 2", "id|r q|x = 1|limit 0x1", "id|r q|x = 1|where y = 2", "id|r q|x = |", "|r q|x = 1|", "id||x = 1|",
}

func init() {
	spaces = append(spaces, Space{Name: "trees", Quick: 1, Thorough: 2, Props: everyText, Gen: func(c *explore.Ctl) string {
		shape := treeShapes[c.Pick(len(treeShapes))]
		n := len(shape)/2 + 1
		fields, where := make([][]string, n), make([][]string, n)
		parts := make([][]string, n)
		text := make([]string, n)
		for i := 0; i < n; i++ {
			v := treeVariants[c.Choose(len(treeVariants))]
			parent, object := "nobody", "contact"
			if i > 0 {
				parent = fmt.Sprintf("q%c", shape[2*i-2])
				object = fmt.Sprintf("r%d", i)
			}
			parts[i] = strings.Split(treeNames(v, fmt.Sprintf("q%d", i), parent, object), "|")
		}
		for i := n - 1; i >= 0; i-- {
			p := parts[i]
			if p[0] != "" {
				fields[i] = append([]string{p[0]}, fields[i]...)
			}
			if p[2] != "" {
				where[i] = append([]string{p[2]}, where[i]...)
			}
			t := "select " + strings.Join(fields[i], ", ") + " from " + p[1]
			if len(where[i]) > 0 {
				t += " where " + strings.Join(where[i], " and ")
			}
			if p[3] != "" {
				t += " " + p[3]
			}
			text[i] = t
			if i > 0 {
				k := int(shape[2*i-2] - '0')
				if shape[2*i-1] == 's' {
					fields[k] = append([]string{"(" + t + ")"}, fields[k]...)
				} else {
					where[k] = append([]string{fmt.Sprintf("y%d in (%s)", i, t)}, where[k]...)
				}
			}
		}
		return text[0]
	}})
}

// treeNames puts the names of a query and its parent into a variant: the words q, Q, p and r outside parameters.
func treeNames(v, q, p, r string) string {
	var b strings.Builder
	word := func(w string, before byte) string {
		if before == ':' {
			return w
		}
		switch w {
		case "q":
			return q
		case "Q":
			return strings.ToUpper(q)
		case "p":
			return p
		case "r":
			return r
		}
		return w
	}
	for i := 0; i < len(v); {
		j := i
		for j < len(v) && (v[j] >= 'a' && v[j] <= 'z' || v[j] >= 'A' && v[j] <= 'Z' || v[j] == '_' || v[j] >= '0' && v[j] <= '9') {
			j++
		}
		if j == i {
			b.WriteByte(v[i])
			i++
			continue
		}
		before := byte(0)
		if i > 0 {
			before = v[i-1]
		}
		b.WriteString(word(v[i:j], before))
		i = j
	}
	return b.String()
}
