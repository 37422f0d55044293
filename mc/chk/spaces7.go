package chk

import (
	"fmt"
	"strings"

	"verif/mc/explore"
)

// Large queries: everything that may be repeated, repeated until buffers, windows and hash tables have to grow.

var (
	quickSizes    = []int{1, 2, 3, 5, 9, 13, 17, 33, 40, 65, 100, 129}
	thoroughSizes = func() (r []int) {
		for i := 1; i <= 140; i++ {
			r = append(r, i)
		}
		return append(r, 180, 199, 200, 201, 254, 255, 256, 257, 300, 400, 511, 512, 513)
	}()
	fewSizes = []int{7, 9, 13, 17, 33, 40, 65}
)

const everyText = "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P14 P15 P16 P17 P18 P19 P22"

// sizedFamilies: the families of P24, in the sizes of the tier.
func sizedFamilies(c *explore.Ctl, sizes []int, breakTypes int, pairs bool) string {
	if c.Pick(6) == 0 {
		f := families(false)[len(families(false))-8:]
		return f[c.Pick(8)].text(sizes[c.Pick(len(sizes))])
	}
	p := nestPlaces[c.Pick(len(nestPlaces))]
	u := p.units[c.Pick(len(p.units))]
	b := breaks[c.Pick(breakTypes)]
	n := sizes[c.Pick(len(sizes))]
	if !pairs {
		return p.before + b.f(number(u.open, n), p.core, strings.Repeat(u.end, n), p.after)
	}
	v := p.units[c.Pick(len(p.units))]
	return p.before + b.f(number(u.open+v.open, n), p.core, strings.Repeat(v.end+u.end, n), p.after)
}

// largeCond writes a condition of n comparisons.
func largeCond(shape int, n int, op func(i int) string, neg func(i int) string, atom func(i int) string) string {
	var b strings.Builder
	switch shape {
	case 0: // flat
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(op(i))
			}
			b.WriteString(neg(i) + atom(i))
		}
	case 1: // nested to the right
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(op(i) + neg(i))
				if i < n-1 {
					b.WriteString("(")
				}
			}
			b.WriteString(atom(i))
		}
		if n > 2 {
			b.WriteString(strings.Repeat(")", n-2))
		}
	case 2: // nested to the left
		if n > 2 {
			for i := n - 1; i >= 2; i-- {
				b.WriteString(neg(i) + "(")
			}
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(op(i))
			}
			b.WriteString(atom(i))
			if i > 0 && i < n-1 {
				b.WriteString(")")
			}
		}
	case 3: // balanced
		var rec func(lo, hi, d int)
		rec = func(lo, hi, d int) {
			if hi-lo == 1 {
				b.WriteString(atom(lo))
				return
			}
			b.WriteString(neg(d) + "(")
			m := (lo + hi) / 2
			rec(lo, m, d+1)
			b.WriteString(op(d))
			rec(m, hi, d+1)
			b.WriteString(")")
		}
		rec(0, n, 0)
	case 4, 5: // groups of 2 or of 5
		k := shape*3 - 10
		for i := 0; i < n; i++ {
			if i%k == 0 {
				if i > 0 {
					b.WriteString(op(0))
				}
				b.WriteString(neg(i/k) + "(")
			} else {
				b.WriteString(op(1))
			}
			b.WriteString(atom(i))
			if i%k == k-1 || i == n-1 {
				b.WriteString(")")
			}
		}
	case 6: // a group at the end of a chain
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(op(1))
			}
			b.WriteString(neg(i) + atom(i))
		}
		b.WriteString(op(0) + "(x = -1 or account.x = -2)")
	}
	return b.String()
}

var condOps = []func(i int) string{
	func(i int) string { return " and " },
	func(i int) string { return " or " },
	func(i int) string { return []string{" and ", " or "}[i%2] },
	func(i int) string { return []string{" or ", " and "}[i%2] },
	func(i int) string { return []string{" or ", " and ", " and "}[i%3] },
}

var condNegs = []func(i int) string{
	func(i int) string { return "" },
	func(i int) string { return "not " },
	func(i int) string { return []string{"", "not "}[i%2] },
	func(i int) string { return []string{"not ", "", ""}[i%3] },
}

var condAtoms = []func(i, n int) string{
	func(i, n int) string { return fmt.Sprintf("x%d = %d", i, i) },
	func(i, n int) string { return fmt.Sprintf("account.x%d = %d", i, i) },
	func(i, n int) string { return fmt.Sprintf("%sx = %d", []string{"", "account."}[i%2], i) },
	func(i, n int) string { return fmt.Sprintf("%sx != :p%d", []string{"", "account.", "a.owner."}[i%3], i) },
	func(i, n int) string { return fmt.Sprintf("r%d.x > %d", i, i) },
	func(i, n int) string { return fmt.Sprintf("r%d.x <= '%d'", i%7, i) },
	func(i, n int) string { return fmt.Sprintf("%sx = %d", []string{"", "account."}[i/(n/2+1)], i) },
	func(i, n int) string {
		return fmt.Sprintf("%sx in (%d, 's')", map[bool]string{true: "account."}[i == n-1], i)
	},
	func(i, n int) string {
		return fmt.Sprintf("%sx like 'a%d'", map[bool]string{true: "account."}[i == 0], i)
	},
	func(i, n int) string { return fmt.Sprintf("x = account.y%d", i) },
	func(i, n int) string { return fmt.Sprintf("%sx = %d", []string{"", "account."}[i%2], i%5) },
	func(i, n int) string { return "x includes ('a')" },
	func(i, n int) string { return fmt.Sprintf("fn(x%d) < %d", i, i) },
	func(i, n int) string {
		return fmt.Sprintf("account.x%d not in (select x from y where z = %d)", i, i)
	},
}

// longList joins n items, the k-th of which (if any) is another one.
func longList(n int, sep string, item func(i int) string, k int, other string) string {
	l := make([]string, n)
	for i := range l {
		if l[i] = item(i); i == k {
			l[i] = other
		}
	}
	return strings.Join(l, sep)
}

// largeLists: lists of every clause in which one item repeats, or differs from, another one.
func largeLists(c *explore.Ctl, sizes []int, places int) string {
	n := sizes[c.Pick(len(sizes))] + 1
	k := []int{n - 1, 0, n / 2, -1, 1, n - 2}[c.Pick(places)]    // where
	of := []int{0, n - 1, n / 2, 1, n - 2}[c.Pick((places+2)/2)] // of which item
	if of < 0 || k < -1 {
		c.Skip()
		return ""
	}
	f := func(format string) func(i int) string {
		return func(i int) string { return strings.ReplaceAll(format, "#", fmt.Sprint(i)) }
	}
	switch c.Pick(14) {
	case 0: // items
		it := []string{"x#", "account.x#", "r#.x", "fn(x#) f#", "x# a#", "count(x#)"}[c.Pick(6)]
		o := []string{"x#", "X#", "contact.x#", "account.x#", "A.x#", "r#.x", "R#.X", "f#", "fn(x#) F#", "x# A#", "y a#", "z", "count()"}[c.Pick(13)]
		return "select " + longList(n, ", ", f(it), k, f(o)(of)) + " from contact c, account a where x0 = 1 or x1 = 2 or account.x2 = 3 order by x1, c.x2, a.y"
	case 1: // objects
		it := []string{"c.o# o#", "o#", "contact.o# q#"}[c.Pick(3)]
		o := []string{"c.o# o#", "C.O# z", "o#", "x o#", "c.o# p", "o#.x y", "z", "contact"}[c.Pick(8)]
		return "select id, o0.x, o1.y from contact c, " + longList(n, ", ", f(it), k, f(o)(of)) + " where o2.x = 1 and c.o3.y = 2 and q1.x.y = 3"
	case 2: // sort keys
		it := []string{"x# desc", "o#.x nulls last", "x#"}[c.Pick(3)]
		o := []string{"x#", "X#", "o#.x", "contact.o#.x asc", "n", "m", "O#.y"}[c.Pick(7)]
		return "select id n, x3 m, o1.x from contact, contact.o1 o1 order by " + longList(n, ", ", f(it), k, f(o)(of)) + " limit 3"
	case 3: // group keys
		it := []string{"x#", "o#.x"}[c.Pick(2)]
		o := []string{"x#", "X#", "o#.x", "n", "m", "y"}[c.Pick(6)]
		return "select max(id) n, x1 m from contact group by " + longList(n, ", ", f(it), k, f(o)(of)) + " having count(x2) > 1 or min(o1.x) < 2"
	case 4: // selected and grouped
		it := []string{"x#", "o#.x"}[c.Pick(2)]
		o := []string{"x#", "X#", "o#.x", "y", "fn(x#)", "max(x#)"}[c.Pick(6)]
		return "select " + longList(n, ", ", f(it), k, f(o)(of)) + " from contact group by " + longList(n, ", ", f(it), -1, "")
	case 5: // values
		it := []string{"#", "'s#'", ":p#", "-#.5", "LAST_N_DAYS:#", "2020-01-01", "null", "true"}[c.Pick(8)]
		o := []string{"#", "'s#'", ":p#", "TODAY", "-0.5", "12:00", "2021-02-03T04:05:06Z", "null", "x", "(1)"}[c.Pick(10)]
		return "select id from contact where x not in (" + longList(n, ", ", f(it), k, f(o)(of)) + ") and y = :p1"
	case 6: // parameters of a function
		it := []string{"x#", "#", "o#.x", "'#'", ":p#", "g(x#)"}[c.Pick(6)]
		o := []string{"x#", "o#.x", ":p#", "g(h(x#, 1))", "null", "count(x#)"}[c.Pick(6)]
		fn := "f(" + longList(n, ", ", f(it), k, f(o)(of)) + ")"
		return []string{"select " + fn + " from contact", "select id from contact where " + fn + " = 1", "select id from contact group by id having x = 1 and " + fn + " = 1"}[c.Pick(3)]
	case 7: // subqueries in the select list
		it := []string{"(select x from o#)", "(select x from o# q where q.y = c.z#)", "(select x, p.y from c.o# s# where x = 1)"}[c.Pick(3)]
		o := []string{"(select x from o#)", "(select y from c.o# z)", "id", "o#.x", "s#.x", "(select id, (select id from o#) from o#)"}[c.Pick(6)]
		return "select " + longList(n, ", ", f(it), k, f(o)(of)) + " from contact c where o1.x = 1 and z2 = 1"
	case 8: // path of a field
		o := []string{"x#", "X#", "", "y", "contact", "c"}[c.Pick(6)]
		path := longList(n, ".", f("x#"), k, f(o)(of))
		tail := "x0"
		if of > 0 {
			tail += longList(of, "", f(".x#"), 0, "")
		}
		return "select " + path + ", c." + path + ", " + tail + ", x0.y from contact c where " + path + " = 1 or contact." + path + " = 2 order by X0.x1.y"
	case 9: // path through declared objects
		return "select id from contact a0, " + longList(n, ", ", func(i int) string { return fmt.Sprintf("a%d.x a%d", i, i+1) }, k, f("a#.x b")(of)) + fmt.Sprintf(" where a%d.z = 1 and a%d.x.y = 2", of, n)
	case 10: // nested subqueries in conditions
		return "select id from contact where " + longList(n, " and ", f("x# in (select y from o# where z = #)"), k, f("x# not in (select y from p q where q.x.z = # and q.y.w = 1)")(of))
	case 11: // for, limit
		return "select id from contact limit " + strings.Repeat("0", n-2-k%2) + "7 offset " + longList(n, "", f("0"), k, "9")
	case 12: // equal and other parameters
		return "select id from contact where " + longList(n, []string{" and ", " or "}[c.Pick(2)], f("x = :p#"), k, f("y in (:p#, :P#, :q)")(of)) + " limit :p1 offset :l"
	default: // names
		long := strings.Repeat("ab_9", n)
		o := []string{long, strings.ToUpper(long), long + "1", "1" + long, long[1:], "\"" + long + "\"", "\"" + long + " é\""}[c.Pick(7)]
		return "select " + long + ", " + o + " from " + long + " a, a." + o + " where a." + o + "." + long + " = 1 and " + long + "." + o + " = :" + long + " order by " + o
	}
}

func init() {
	add := func(name, props string, quick, thorough func(c *explore.Ctl) string) {
		spaces = append(spaces, Space{Name: name, Gen: tiered(quick, thorough), Quick: 0, Thorough: 1, Props: props})
	}
	add("large-cond", "P01 P02 P03 P04 P05 P07 P09 P10", func(c *explore.Ctl) string {
		return largeCondText(c, fewSizes)
	}, func(c *explore.Ctl) string {
		return largeCondText(c, thoroughSizes[:70])
	})
	add("large-lists", everyText, func(c *explore.Ctl) string {
		return largeLists(c, []int{12, 40}, 4)
	}, func(c *explore.Ctl) string {
		return largeLists(c, []int{3, 4, 5, 7, 9, 10, 11, 13, 15, 17, 20, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129}, 6)
	})
	add("large-nest", everyText, func(c *explore.Ctl) string {
		return sizedFamilies(c, quickSizes, 4, false)
	}, func(c *explore.Ctl) string {
		if c.Pick(2) == 0 {
			return sizedFamilies(c, thoroughSizes, len(breaks), false)
		}
		return sizedFamilies(c, quickSizes, len(breaks), true)
	})
}

func largeCondText(c *explore.Ctl, sizes []int) string {
	n := sizes[c.Pick(len(sizes))]
	op := condOps[c.Pick(len(condOps))]
	neg := condNegs[c.Pick(len(condNegs))]
	a := condAtoms[c.Pick(len(condAtoms))]
	shape := c.Pick(7)
	return "select id from contact, account a where " + largeCond(shape, n, op, neg, func(i int) string { return a(i, n) })
}
