package chk

import (
	"fmt"
	"strings"

	"verif/mc/explore"
	"verif/mc/gen"
)

// ---- every size: each construct that may be repeated, in every size up to a bound (and around larger powers)

var (
	everySize = func() (r []int) {
		for i := 1; i <= 68; i++ {
			r = append(r, i)
		}
		return append(r, 99, 100, 101, 127, 128, 129, 130)
	}()
	fewerSizes    = append(append([]int(nil), everySize[:34]...), 64, 65, 100, 128)
	everySizeMore = func() (r []int) {
		for i := 69; i <= 270; i++ {
			r = append(r, i)
		}
		return append(r, 299, 300, 301, 399, 400, 401, 499, 500, 501, 511, 512, 513, 514, 999, 1000, 1001, 1023, 1024, 1025, 1026)
	}()
)

var sizedTexts = []func(n int) string{
	func(n int) string {
		return "select id from contact where x in (" + sizedList(n, ", ", "#", "'s#'") + ") and y = 1"
	},
	func(n int) string {
		return "select id from contact where x = 1 and y not in (" + sizedList(n, ",", ":p#", "TODAY", "LAST_N_DAYS:#", "null", "#.5") + ")"
	},
	func(n int) string {
		return "select " + sizedList(n, ", ", "x#", "account.x#", "fn(x#)", "y# a#") + " from contact where x1 = 1"
	},
	func(n int) string {
		return "select id, " + sizedList(n, ", ", "fn(#)", "fn(y) g#", "id") + " from contact"
	},
	func(n int) string {
		return "select " + sizedList(n, ", ", "x") + ", f(a), g(b) from contact order by x"
	},
	func(n int) string {
		return "select " + sizedList(n, ", ", "f(x)") + ", (select id from cases) expr1 from contact"
	},
	func(n int) string {
		return "select id from contact c, " + sizedList(n, ", ", "c.o# o#", "p#") + " where o1.x = 1 and p2.y.z = 2"
	},
	func(n int) string {
		return "select id from contact where " + sizedList(n, " and ", "x# = #", "account.x# = #", "f(x#) = #")
	},
	func(n int) string {
		return "select id from contact where " + sizedList(n, " or ", "x# = #", "not x# = #") + " and a.z = 1"
	},
	func(n int) string {
		return "select id, a.b from contact where (" + sizedList(n, ") and (", "a.x# = # or a.y > #", "x# = # or not y > #") + ")"
	},
	func(n int) string {
		return "select x0, count(id) from contact group by x0 having " + sizedList(n, " and ", "max(x#) = #", "not min(y#) in (#)")
	},
	func(n int) string {
		return "select max(id) m from contact group by " + sizedList(n, ", ", "x#", "a.x#") + " order by x1"
	},
	func(n int) string {
		return "select id from contact order by " + sizedList(n, ", ", "x# desc", "a.x# nulls last", "y#") + " limit 3"
	},
	func(n int) string {
		return "select fn(" + sizedList(n, ", ", "x#", "#", "'s#'", "g(x#)", ":p#", "a.b#") + ") from contact"
	},
	func(n int) string {
		return "select id from contact where fn(" + sizedList(n, ", ", "x#", "#", "'s#'", "g(h(x#))", ":p#", "a.b#") + ") = 1"
	},
	func(n int) string { return "select " + sizedList(n, ".", "x#") + " from contact" },
	func(n int) string {
		return "select id from contact where " + sizedList(n, ".", "x") + " = 1 and x.y = 2"
	},
	func(n int) string { return "select id from contact, " + sizedList(n, ".", "o#") + " q where q.y = 2" },
	func(n int) string {
		return "select id, " + sizedList(n, ", ", "(select id from r# s where s.x = # and s.y.z = 1)") + " from contact c where x = 1"
	},
	func(n int) string {
		return "select id, " + sizedList(n, ", ", "(select id from r# where f(c.x#) = 1)") + " from contact c"
	},
	func(n int) string {
		return "select id from contact where " + sizedList(n, " or ", "x# in (select y from lead# where z = # and a.b = 1)")
	},
	func(n int) string {
		return "select id from contact where x = '" + strings.Repeat("a", n-1) + "b' and y = '" + strings.Repeat("\\n", n) + "'"
	},
	func(n int) string {
		return "select " + strings.Repeat("a", n) + ", " + strings.Repeat("a", n) + "b z" + strings.Repeat("_", n) + " from contact order by z" + strings.Repeat("_", n)
	},
	func(n int) string {
		return "select id from contact " + strings.Repeat("k", n) + " where " + strings.Repeat("k", n) + ".x = :" + strings.Repeat("p", n)
	},
	func(n int) string {
		return "select" + strings.Repeat(" ", n) + "id from contact" + strings.Repeat("\n", n) + "where x =/*" + strings.Repeat("*", n-1) + " */ 1 --" + strings.Repeat("-", n)
	},
	func(n int) string {
		return "select id from contact limit " + strings.Repeat("0", n-1) + "1"
	},
	func(n int) string {
		return "select id from contact where x = 0." + strings.Repeat("3", n) + " and y = 0." + strings.Repeat("0", n) + "1"
	},
	func(n int) string {
		return "select id from contact where x = 0b" + strings.Repeat("1", n) + " or y = 1_" + strings.Repeat("0", n)
	},
}

// deepTexts: nested constructs; smaller sizes.
var deepTexts = []func(n int) string{
	func(n int) string {
		return "select id from contact where " + strings.Repeat("(", n) + "x = 1" + strings.Repeat(")", n) + " and a.y = 2"
	},
	func(n int) string {
		return "select id from contact where " + strings.Repeat("not (", n) + "x = 1 and a.y < 2" + strings.Repeat(")", n) + " or z like 'a'"
	},
	func(n int) string {
		return "select id from contact where " + sizedList(n, " and (", "x# = 1 or a.x# = 2") + strings.Repeat(")", n-1)
	},
	func(n int) string {
		return "select id from contact where " + sizedList(n, " or not (", "x# = 1 and y# in (2)") + strings.Repeat(")", n-1)
	},
	func(n int) string {
		return "select " + sizedList(n, "(x, ", "f#") + "(y, 1)" + strings.Repeat(")", n-1) + " from contact where z = 1"
	},
	func(n int) string {
		return "select id from contact where " + sizedList(n, "(", "f#") + "(:y, a.z)" + strings.Repeat(")", n-1) + " = 1"
	},
	func(n int) string {
		return "select x, " + sizedList(n, "(", "f#") + "(count(y), z)" + strings.Repeat(")", n-1) + " k from contact group by x"
	},
	func(n int) string {
		var b strings.Builder
		b.WriteString("select id from contact where x = 1")
		for i := 1; i < n; i++ {
			fmt.Fprintf(&b, " and y in (select z from o%d p, p.q r where r.x = %d", i, i)
		}
		return b.String() + strings.Repeat(")", n-1)
	},
	func(n int) string {
		var b strings.Builder
		b.WriteString("select id")
		for i := 1; i < n; i++ {
			b.WriteString(", (select id, k.x")
		}
		for i := n - 1; i > 0; i-- {
			fmt.Fprintf(&b, " from o%d k where k.y = 1)", i)
		}
		return b.String() + " from contact c where x = 1"
	},
	func(n int) string {
		var b strings.Builder
		b.WriteString("select id")
		for i := 1; i < n; i++ {
			fmt.Fprintf(&b, ", (select id, f(k%d.v)", i/2)
		}
		for i := n - 1; i > 0; i-- {
			fmt.Fprintf(&b, " from o%d k%d)", i, i)
		}
		return b.String() + " from contact k0"
	},
}

func sizedList(n int, sep string, items ...string) string {
	l := make([]string, n)
	for i := range l {
		l[i] = strings.ReplaceAll(items[i%len(items)], "#", fmt.Sprint(i))
	}
	return strings.Join(l, sep)
}

func sizesText(sizes []int, deep int) func(c *explore.Ctl) string {
	return func(c *explore.Ctl) string {
		k := c.Pick(len(sizedTexts) + len(deepTexts))
		n := sizes[c.Pick(len(sizes))]
		if k < len(sizedTexts) {
			return sizedTexts[k](n)
		}
		if n > deep {
			c.Skip()
			return ""
		}
		return deepTexts[k-len(sizedTexts)](n)
	}
}

// ---- the shapes of names, in every role

var nameShapes = []string{"a", "_", "$", "a$", "$a", "a_", "_a", "a1", "a1b2", "A", "aB", "$1", "_1", "__", "$$", "a$b", "a__c", "expr0", "EXPR1", "x", "fields", "null", "today", "count", strings.Repeat("ab", 40), "\"q\"", "\"q r\"", "\"\"", "\"1\"", "\"a.b\"", "\"é\"", "\"Ä\"", "\"a$\"", "\"from\""}

var nameRoles = []string{
	"select id, §.x, c.b.d.x from contact c, c.b.d §", "select id, §.x from contact § where §.y = 1 and z = 2", "select §.x, id from contact c, account.o § where §.y = 1 order by §.z",
	"select id § from contact c order by §", "select x §, max(y) from contact c group by §", "select x §, y §§ from contact order by §§, §", "select f(x) §, f(y) from contact order by §", "select § from contact where § = 1 and contact.x = 2 order by contact.§",
	"select §(x), f(§), f(g(x, §)) from contact where §(y) = :§ and f(§) = 2", "select id, (select §.x, §.o.y from r § where §.z = 1) from contact c", "select id, (select s.x from r s where s.y = §.x and f(§.z) = 1) from contact §",
	"select id from contact where x in (select §.y from lead §, §.o p where p.z = §.w)", "select §.§.§ from contact §, §.§ c where c.§.§ = 1", "select §, count(id) from contact group by § having max(§) > 1 limit :§ offset :§",
	"select fields(§), fields(c.§) from contact c", "select id, fields(§.all) from contact c, c.o §", "select id from § where §.x = 1 and y = 2", "select id, (select id from §.§) from contact", "select id, (select x from c.§ where c.§.y = 1 or c.§ = 1) from contact c",
	"select id, §.x, ¤.x from contact c, account §, owner ¤ where ¤.y = §.y", "select § , ¤ from contact where c.§ = 1 and f(¤) = 2", "select x §, y ¤ from contact order by ¤, §", "select id, §.¤ from contact, ¤.§ z where §.¤.x = 1 and ¤.x = 2", "select f(x) §, (select id from r §, § ¤) ¤ from contact",
}

func shapesText(c *explore.Ctl) string {
	t := nameRoles[c.Pick(len(nameRoles))]
	a := nameShapes[c.Pick(len(nameShapes))]
	b := ""
	if strings.Contains(t, "¤") {
		b = nameShapes[c.Pick(len(nameShapes))]
	}
	return strings.NewReplacer("§§", a+"2", "§", a, "¤", b).Replace(t)
}

func init() {
	spaces = append(spaces,
		Space{Name: "sizes", Gen: tiered(sizesText(everySize, 34), sizesText(append(append([]int(nil), everySize...), everySizeMore...), 70)), Quick: 0, Thorough: 1, Props: strings.Replace(everyText, " P22", "", 1)},
		Space{Name: "sizes-json", Gen: tiered(sizesText(fewerSizes, 8), sizesText(everySize, 12)), Quick: 0, Thorough: 1, Props: "P22"},
		Space{Name: "name-shapes", Gen: shapesText, Quick: 0, Thorough: 0, Props: everyText},
	)
	m := gen.Macros{
		// the operands of a comparison
		"opl": "[x|a.x|a.o.x|f(x)|f(a.x)|f()|f('s')]",
		"opr": "[@opo; @opv;|like @ops;|not like @ops;|in @opi;|not in @opi;|includes @opm;|excludes @opm;]",
		"opo": "[=|!=|<|<=|>|>=]",
		"opv": "[%|y|a.y|a.o.x|f(y)|f(a.y)|:p|TODAY|null|(select z from lead)]",
		"ops": "['s%'|y|a.y|:p]",
		"opi": "[(%)|('s', :p, %)|:p|(select a.z from lead where w = %)|a.y|f(y)]",
		"opm": "[('s')|('s;t', :p)|a.y]",
		// names that are aliases, fields and objects
		"aln": "[b|c|a|id|contact|x|B]",
		"alk": "[b|c.b|contact.b|a.b|account.b|C.B|x|c|a|c.c|contact|contact.contact|a.a|c.a.b]",
	}
	for k, v := range m {
		macros[k] = v
	}
	add := func(name, props string, quick, thorough int, t string) {
		spaces = append(spaces, Space{Name: name, Gen: tmpl(t), Quick: quick, Thorough: thorough, Props: props})
	}
	add("operands", "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P16 P22", 0, 1, "select id from contact c, account a where [not |][@opl; @opr;|y = % [and|or] @opl; @opr;|a.y = % [and|or] @opl; @opr;|f(y) = a.y [and|or] @opl; @opr;|(@opl; @opr; [and|or] a.y = %) and z = %|a.z != % or (x = % and @opl; @opr;)]{| and a.o.w = %}")
	add("operands-having", "P01 P02 P12 P09 P08 P16", 0, 1, "select name, max(v) from contact c, account a group by name having [not |][|y = % and |f(a.y) = % or |max(v) > % and ][f(x)|f(a.x)|max(x)|count()|f(name)|f()|a.x|f(g(x), x)|f(x, g(x))|f(1)] @opr;")
	add("operands-sub", "P02 P03 P05 P08 P09 P11", 0, 1, "select id, (select id from r s where [|not ][s.y = % [and|or] |][x|s.o.x|f(x)|f(c.x)|f(a.x)|f(s.x, c.x)] @opr;[| and s.z = %]) from contact c, account a")
	al := "P06 P07 P08 P09 P12 P13 P19 P04"
	add("alias-names", al, 0, 1, "select [c.x|a.x|f(x)|max(x)] @aln;[|, b|, a.b|, c.y @aln;] from contact c, account a [order by @alk;|group by @alk;|group by c.x order by @alk;|where @alk; = 1|where f(@alk;) = 1|group by x having max(@alk;) > 1]{| limit 1}")
	add("alias-names-two", al, 0, 1, "select x b, a.x c[|, y] from contact c, account a [order by|group by] @alk;, @alk;{, @alk;|}")
	add("alias-names-sub", al+" P11", 0, 1, "select id, c.b, x k, (select [s.x|o.x|f(x)] [b|s|c|x|k] from r s[| order by [b|s.b|k|c|c.b|o.b|x]| where [b|s.b|k|c.b|a.b] = 1| where f([b|s.b|k|c.b|a.b|c.k]) = 1| group by [b|s.x|x|k]]) [k2|b|c|s] from contact c, account a[| order by [b|k|k2|x|s|c.k]]")
	// conditions on relationships of several depths, which join or do not join each other
	m = gen.Macros{
		"jnp": "[x|a.x|a.b.x|a.b.d.x|a.e.x|f.x]",
		"jns": "[x|a.x|a.b.x|o.a.x]",
	}
	for k, v := range m {
		macros[k] = v
	}
	add("joins", "P03 P04 P05 P07 P09 P10 P21", 0, 1, "select id from contact where @jnp; = 1 [and|or] (@jnp; = 2 [and|or] @jnp; = 3){| or a.b.d.g.x = 4| and a.b.d.g.x = 4}")
	add("joins-sub", "P03 P05 P07 P09 P10 P11 P21", 0, 1, "select id, [(select id from cs k where @jns; = 1 [and|or] @jns; = 2)|(select id, (select id from ls where @jns; = 1 [and|or] @jns; = 2) from cs)] from contact where [x|a.x|a.b.x] = 1 [and|or] [a.b.x = 2|a.b.d.x = 2|id in (select z from lead where a.x = 1 and a.b.x = 2)]{| and a.e.x = 3}")
	// words that are literals, as parameters
	macros["lpw"] = "[null|TRUE|False|NaN|infinity|+Infinity|-Infinity|TODAY|this_week|LAST_N_DAYS:3|next_n_years:0|last_n_days|nulls|true_|$null|today1|null.x|x.null|TODAY.y|\"null\"|\"TODAY\"|null()|today(1)|(1)|null null|:null|: today|1|'null'|2020-01-02|23:59|0x1F]"
	lp := "P02 P03 P04 P08 P12 P14 P15 P16 P17 P22"
	add("param-words", lp, 1, 2, "select id from contact where [f(@lpw;)|f(x, @lpw;)|f( @lpw; , x)|g(f(@lpw;), 1)|x = f(@lpw;)|x = f(g(y, @lpw;))] [= 1|> :q]{| and y = TODAY|\n}")
	add("param-words-select", lp, 1, 2, "select [f(@lpw;)|f(x, @lpw;)|g(f(@lpw;))|count(@lpw;)|max(@lpw;) m|fields(@lpw;)]{| x1}, y from contact{| group by y| group by y having f(@lpw;) = 1| group by y having max(@lpw;) > f(y, null)| limit 1}")
	add("param-words-two", lp, 0, 1, "select f(@lpw;, @lpw;) from contact")
	macros["lpx"] = "[null|TRUE|NaN|TODAY|last_n_days:3|last_n_days|null.x|:null]"
	add("param-words-sub", "P02 P08 P11 P14 P16", 0, 1, "select id, (select f(@lpx;) from cs c where f(c.x, @lpx;) = 1) from contact where id in (select id from lead where f(@lpx;) = null)")
	// escapes at the borders of the planes and of the surrogates, alone and next to each other
	macros["esc"] = "[\\ud83d|\\uDE00|\\uD800|\\udc00|\\uDBFF|\\udfff|\\ud7FF|\\ue000|\\uffff|\\u0000|\\u{10FFFF}|\\u{110000}|\\u{d83d}|\\u{DE00}|\\u{dfff}|\\u{e000}|\\u{ffffff}|\\x00|\\xfF|\\777|\\u{1f600}|d83d|\\\\ude00|x|]"
	add("lit-escapes", "P14 P17 P22 P18 P02", 0, 0, "select id from contact where x = '@esc;@esc;[|@esc;]'")
	add("lit-escapes-names", "P06 P17 P02 P22", 0, 0, "select \"@esc;@esc;a\", \"@esc;\".x from contact")
	// every set of zeros in a fraction
	spaces = append(spaces, Space{Name: "lit-fraction", Gen: fractionText, Quick: 9, Thorough: 9, Props: "P14 P22"})
}

// fractionText is a query with a number, a time or a date-time with any of the digits behind the point zero.
func fractionText(c *explore.Ctl) string {
	n := 1 + c.Pick(9)
	b := make([]byte, n)
	for i := range b {
		b[i] = '0'
		if c.Pick(2) == 1 {
			b[i] = byte('1' + i)
		}
	}
	t := []string{"01:02:03.@", "23:59:59.@Z", "12:00:00.@", "2020-01-02T03:04:05.@Z", "2021-12-31T23:00:00.@-01:30", "0.@", "-12.@", "7.@e3", "(00:00:00.@, 1.@)"}[c.Pick(9)]
	op := "="
	if t[0] == '(' {
		op = "in"
	}
	return "select id from contact where x " + op + " " + strings.ReplaceAll(t, "@", string(b))
}
