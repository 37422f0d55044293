package chk

import (
	"fmt"
	"strings"
)

// Truth functions of many variables as reduced ordered binary decision diagrams: the check still covers every one of
// the 2^n outcomes of the comparisons, but shares the equal ones.

type bddNode struct{ v, lo, hi int32 }

type bdd struct {
	n      int
	nodes  []bddNode
	unique map[bddNode]int32
	memo   map[[3]int32]int32
}

type bddTooLarge struct{}

func newBdd(n int) *bdd {
	b := &bdd{n: n, unique: map[bddNode]int32{}, memo: map[[3]int32]int32{}}
	b.nodes = []bddNode{{int32(n), 0, 0}, {int32(n), 1, 1}}
	return b
}

func (b *bdd) mk(v, lo, hi int32) int32 {
	if lo == hi {
		return lo
	}
	k := bddNode{v, lo, hi}
	if i, ok := b.unique[k]; ok {
		return i
	}
	if len(b.nodes) > 1<<20 {
		panic(bddTooLarge{})
	}
	i := int32(len(b.nodes))
	b.nodes = append(b.nodes, k)
	b.unique[k] = i
	return i
}

func (b *bdd) ite(f, g, h int32) int32 {
	switch {
	case f == 1:
		return g
	case f == 0:
		return h
	case g == h:
		return g
	case g == 1 && h == 0:
		return f
	}
	k := [3]int32{f, g, h}
	if r, ok := b.memo[k]; ok {
		return r
	}
	v := b.nodes[f].v
	if x := b.nodes[g].v; x < v {
		v = x
	}
	if x := b.nodes[h].v; x < v {
		v = x
	}
	part := func(i int32, hi bool) int32 {
		if b.nodes[i].v != v {
			return i
		}
		if hi {
			return b.nodes[i].hi
		}
		return b.nodes[i].lo
	}
	lo := b.ite(part(f, false), part(g, false), part(h, false))
	hi := b.ite(part(f, true), part(g, true), part(h, true))
	r := b.mk(v, lo, hi)
	b.memo[k] = r
	return r
}

// exists quantifies all variables that are not kept.
func (b *bdd) exists(f int32, keep []bool, memo map[int32]int32) int32 {
	if f < 2 {
		return f
	}
	if r, ok := memo[f]; ok {
		return r
	}
	x := b.nodes[f]
	lo, hi := b.exists(x.lo, keep, memo), b.exists(x.hi, keep, memo)
	var r int32
	if keep[x.v] {
		r = b.mk(x.v, lo, hi)
	} else {
		r = b.ite(lo, 1, hi)
	}
	memo[f] = r
	return r
}

// alg computes with truth functions of n variables: tables for few variables, decision diagrams for many. In the
// latter case a table holds the number of the diagram's node.
type alg struct {
	n int
	b *bdd
}

const tableVars = 9

func newAlg(n int) alg {
	if n <= tableVars {
		return alg{n: n}
	}
	return alg{n, newBdd(n)}
}

func (a alg) constant(v bool) table {
	if a.b == nil {
		return constant(a.n, v)
	}
	if v {
		return table{1}
	}
	return table{0}
}

func (a alg) variable(v int) table {
	if a.b == nil {
		return variable(a.n, v)
	}
	return table{uint64(a.b.mk(int32(v), 0, 1))}
}

func (a alg) and(x, y table) table {
	if a.b == nil {
		return append(table{}, x...).and(y)
	}
	return table{uint64(a.b.ite(int32(x[0]), int32(y[0]), 0))}
}

func (a alg) or(x, y table) table {
	if a.b == nil {
		return append(table{}, x...).or(y)
	}
	return table{uint64(a.b.ite(int32(x[0]), 1, int32(y[0])))}
}

func (a alg) not(x table) table {
	if a.b == nil {
		return append(table{}, x...).not(a.n)
	}
	return table{uint64(a.b.ite(int32(x[0]), 0, 1))}
}

func (a alg) equal(x, y table) bool { return x.equal(y) }

func (a alg) empty(x table) bool { return x.empty() }

func (a alg) project(x table, keep []bool) table {
	if a.b == nil {
		return project(x, a.n, keep)
	}
	return table{uint64(a.b.exists(int32(x[0]), keep, map[int32]int32{}))}
}

func (a alg) diff(x, y table) string {
	if a.b == nil {
		return diffRow(x, y, a.n)
	}
	f, g := int32(x[0]), int32(y[0])
	d := a.b.ite(f, a.b.ite(g, 0, 1), g)
	var s []string
	value := func(i int32) bool { return i == 1 }
	for d > 1 {
		x := a.b.nodes[d]
		hi := x.lo == 0
		s = append(s, fmt.Sprintf("c%d=%v", x.v, hi))
		step := func(i int32) int32 {
			if n := a.b.nodes[i]; i > 1 && n.v == x.v {
				if hi {
					return n.hi
				}
				return n.lo
			}
			return i
		}
		f, g, d = step(f), step(g), step(d)
	}
	for f > 1 { // f and g differ whatever the rest
		if a.b.nodes[f].lo == g || g > 1 {
			break
		}
		f = a.b.nodes[f].lo
	}
	return strings.Join(s, " ") + fmt.Sprintf(": %v instead of %v", value(f), !value(f))
}

func (a alg) node(n *node) table {
	if n == nil {
		return a.constant(true)
	}
	switch {
	case n.cmp != nil:
		t := a.variable(n.cmp.v)
		if n.cmp.neg {
			t = a.not(t)
		}
		return t
	case a.b == nil:
		return n.table(a.n)
	}
	switch x := a.node(n.l); {
	case n.r == nil:
		return a.not(x)
	case n.op == andOp:
		return a.and(x, a.node(n.r))
	default:
		return a.or(x, a.node(n.r))
	}
}
