package chk

import (
	"fmt"
	"strings"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"verif/mc/ref"
)

// node is a parsed postfix condition list.
type node struct {
	op   types.SoqlConditionOpcode // And, Or, Not; comparison otherwise
	l, r *node
	cmp  *cmp
}

type cmp struct {
	op   types.SoqlConditionOpcode
	l, r *types.SoqlFieldInfo
	key  string
	v    int // variable
	neg  bool
}

func parsePostfix(list []types.SoqlCondition) (root *node, cmps []*cmp, err string) {
	type item struct {
		leaf *types.SoqlFieldInfo
		n    *node
	}
	var st []item
	for i := range list {
		c := &list[i]
		switch c.Opcode {
		case types.SoqlConditionOpcode_FieldInfo:
			st = append(st, item{leaf: &c.Value})
		case types.SoqlConditionOpcode_Not:
			if len(st) < 1 || st[len(st)-1].n == nil {
				return nil, nil, fmt.Sprintf("operator %d (Not) lacks its operand", i)
			}
			st[len(st)-1].n = &node{op: c.Opcode, l: st[len(st)-1].n}
		case types.SoqlConditionOpcode_And, types.SoqlConditionOpcode_Or:
			if len(st) < 2 || st[len(st)-1].n == nil || st[len(st)-2].n == nil {
				return nil, nil, fmt.Sprintf("operator %d (%s) lacks an operand", i, c.Opcode)
			}
			n := &node{op: c.Opcode, l: st[len(st)-2].n, r: st[len(st)-1].n}
			st = append(st[:len(st)-2], item{n: n})
		default:
			if c.Opcode < types.SoqlConditionOpcode_Eq || c.Opcode > types.SoqlConditionOpcode_Excludes {
				return nil, nil, fmt.Sprintf("entry %d is %s", i, c.Opcode)
			}
			if len(st) < 2 || st[len(st)-1].leaf == nil || st[len(st)-2].leaf == nil {
				return nil, nil, fmt.Sprintf("comparison %d (%s) lacks an operand", i, c.Opcode)
			}
			x := &cmp{op: c.Opcode, l: st[len(st)-2].leaf, r: st[len(st)-1].leaf}
			x.key = fmt.Sprintf("%d/%s/%s", x.op, operandKey(x.l), operandKey(x.r))
			cmps = append(cmps, x)
			st = append(st[:len(st)-2], item{n: &node{op: c.Opcode, cmp: x}})
		}
	}
	if len(list) == 0 {
		return nil, nil, ""
	}
	if len(st) != 1 || st[0].n == nil {
		return nil, nil, fmt.Sprintf("%d values are left", len(st))
	}
	return st[0].n, cmps, ""
}

func operandKey(f *types.SoqlFieldInfo) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d:%s", f.Type, strings.ToLower(strings.Join(f.Name, "\x00")))
	if f.Type == types.SoqlFieldInfo_SubQuery {
		fmt.Fprintf(&b, "q%p", f.SubQuery)
	} else if f.Value != nil {
		fmt.Fprintf(&b, "=%v", f.Value)
	}
	for i := range f.Parameters {
		b.WriteString("(")
		b.WriteString(operandKey(&f.Parameters[i]))
	}
	return b.String()
}

func (n *node) hasNot() bool {
	if n == nil || n.cmp != nil {
		return false
	}
	return n.op == types.SoqlConditionOpcode_Not || n.l.hasNot() || n.r.hasNot()
}

// truth tables over n variables, 64 rows per word

type table []uint64

var patterns = [6]uint64{
	0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0,
	0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000,
}

func words(n int) int {
	if n <= 6 {
		return 1
	}
	return 1 << (n - 6)
}

func mask(n int) uint64 {
	if n >= 6 {
		return ^uint64(0)
	}
	return 1<<(1<<uint(n)) - 1
}

func constant(n int, v bool) table {
	t := make(table, words(n))
	if v {
		for i := range t {
			t[i] = mask(n)
		}
	}
	return t
}

func variable(n, v int) table {
	t := make(table, words(n))
	for i := range t {
		if v < 6 {
			t[i] = patterns[v] & mask(n)
		} else if i>>(uint(v)-6)&1 == 1 {
			t[i] = ^uint64(0)
		}
	}
	return t
}

func (t table) and(u table) table {
	for i := range t {
		t[i] &= u[i]
	}
	return t
}

func (t table) or(u table) table {
	for i := range t {
		t[i] |= u[i]
	}
	return t
}

func (t table) not(n int) table {
	for i := range t {
		t[i] = ^t[i] & mask(n)
	}
	return t
}

func (t table) equal(u table) bool {
	for i := range t {
		if t[i] != u[i] {
			return false
		}
	}
	return true
}

func (t table) row(i int) bool { return t[i>>6]>>(uint(i)&63)&1 == 1 }

func (t table) empty() bool {
	for _, w := range t {
		if w != 0 {
			return false
		}
	}
	return true
}

func (n *node) table(vars int) table {
	if n == nil {
		return constant(vars, true)
	}
	switch {
	case n.cmp != nil:
		t := variable(vars, n.cmp.v)
		if n.cmp.neg {
			t = t.not(vars)
		}
		return t
	case n.op == types.SoqlConditionOpcode_And:
		return n.l.table(vars).and(n.r.table(vars))
	case n.op == types.SoqlConditionOpcode_Or:
		return n.l.table(vars).or(n.r.table(vars))
	default:
		return n.l.table(vars).not(vars)
	}
}

func (a alg) ref(c *ref.Cond, v []int) table {
	if c == nil {
		return a.constant(true)
	}
	switch c.Op {
	case ref.CAnd:
		return a.and(a.ref(c.L, v), a.ref(c.R, v))
	case ref.COr:
		return a.or(a.ref(c.L, v), a.ref(c.R, v))
	case ref.CNot:
		return a.not(a.ref(c.L, v))
	}
	return a.variable(v[c.Index])
}

const andOp = types.SoqlConditionOpcode_And

func diffRow(a, b table, n int) string {
	for i := 0; i < 1<<uint(n); i++ {
		if a.row(i) != b.row(i) {
			s := make([]string, n)
			for k := range s {
				s[k] = fmt.Sprintf("c%d=%v", k, i>>uint(k)&1 == 1)
			}
			return strings.Join(s, " ") + fmt.Sprintf(": %v instead of %v", a.row(i), b.row(i))
		}
	}
	return ""
}

var opOf = map[string]types.SoqlConditionOpcode{
	"=": types.SoqlConditionOpcode_Eq, "!=": types.SoqlConditionOpcode_NotEq,
	"<": types.SoqlConditionOpcode_Lt, "<=": types.SoqlConditionOpcode_Le,
	">": types.SoqlConditionOpcode_Gt, ">=": types.SoqlConditionOpcode_Ge,
	"like": types.SoqlConditionOpcode_Like, "not like": types.SoqlConditionOpcode_NotLike,
	"in": types.SoqlConditionOpcode_In, "not in": types.SoqlConditionOpcode_NotIn,
	"includes": types.SoqlConditionOpcode_Includes, "excludes": types.SoqlConditionOpcode_Excludes,
}

var complement = func() map[types.SoqlConditionOpcode]types.SoqlConditionOpcode {
	m := map[types.SoqlConditionOpcode]types.SoqlConditionOpcode{}
	for _, p := range [][2]string{{"=", "!="}, {"<", ">="}, {">", "<="}, {"like", "not like"}, {"in", "not in"}, {"includes", "excludes"}} {
		m[opOf[p[0]]], m[opOf[p[1]]] = opOf[p[1]], opOf[p[0]]
	}
	return m
}()

// parity returns for every comparison whether it is under an odd number of NOTs.
func parity(c *ref.Cond, odd bool, out map[*ref.Cond]bool) {
	if c == nil {
		return
	}
	switch c.Op {
	case ref.CNot:
		parity(c.L, !odd, out)
	case ref.CCmp:
		out[c] = odd
	default:
		parity(c.L, odd, out)
		parity(c.R, odd, out)
	}
}
