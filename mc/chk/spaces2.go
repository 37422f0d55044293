package chk

import (
	"fmt"
	"strings"

	"verif/mc/explore"
	"verif/mc/gen"
)

func init() {
	for i, t := range mixTemplates {
		spaces = append(spaces, Space{Name: fmt.Sprintf("mix%d", i), Gen: tmpl(t), Quick: 3, Thorough: 4,
			Props: "P01 P02 P03 P04 P05 P06 P07 P08 P09 P10 P11 P12 P13 P16 P17 P19"})
	}
}

func init() {
	for k, v := range nameMacros {
		macros[k] = v
	}
	add := func(name, props string, quick, thorough int, t string) {
		spaces = append(spaces, Space{Name: name, Gen: tmpl(t), Quick: quick, Thorough: thorough, Props: props})
	}
	cond := func(name, props string, quick, thorough int, pre, post string, s condSpace) {
		spaces = append(spaces, Space{Name: name, Gen: condSpaceText(pre, post, s), Quick: quick, Thorough: thorough, Props: props})
	}

	// ---- condition trees
	objects := []string{"x = %", "account.y = %", "account.owner.z = %", "dept.w = %"}
	cond("cond-objects-3", "P01 P03 P04 P05", 2, 6, "select id from contact c where ", "", condSpace{atoms: objects, max: 3})
	cond("cond-objects-4", "P03 P04 P05", 0, 1, "select id from contact c where ", "", condSpace{atoms: objects, max: 4})
	cond("cond-rare-3", "P03 P04 P05 P01 P02", 2, 3, "select id from contact c where ", "", condSpace{
		atoms: []string{"x = %", "account.y = %"},
		rare: []string{"f(x) = %", "f(account.y) = %", "x = c.y%", "account.y = account.z%", "account.y = x%", "x = account.y%", "account.owner.z = account.y%",
			"id in (select id from lead where a = %)", "account.id not in (select id from lead where account.z = %)", "account.y in (%, %)", "account.y = f(account.z, %)",
			"account.y like 's%'", "account.y not in ('s%')", "account.y includes ('s%')", "account.y = :p%", "account.y = null", "account.y > TODAY", "a.b.c.d.e = %", "dept.x = dept.y%"},
		max: 3})
	cond("cond-two-4", "P01 P03 P05", 1, 3, "select id from contact c, account a where ", "", condSpace{atoms: []string{"x = %", "a.y != %"}, max: 4})
	cond("cond-one-5", "P01", 1, 2, "select id from contact c where ", "", condSpace{atoms: []string{"x < %"}, max: 5})
	cond("cond-one-6", "P01 P03", 0, 1, "select id from contact c where ", "", condSpace{atoms: []string{"a.x < %"}, max: 6})
	add("cond-groups", "P01 P03 P04 P05", 9, 9, "select id from contact c where (@grp;) [and|or] (@grp;)")
	deep := func(name string, atoms []string, n int) {
		spaces = append(spaces, Space{Name: name, Quick: 0, Thorough: 1, Props: "P03 P04 P05", Gen: tiered(
			func(c *explore.Ctl) string { return "select id from contact c where x = 1 and a.y = 2" },
			condSpaceText("select id from contact c where ", "", condSpace{atoms: atoms, max: n}))})
	}
	deep("cond-three-5", []string{"x = %", "a.y = %", "a.b.z = %"}, 5)
	deep("cond-two-6", []string{"x = %", "a.y = %"}, 6)
	deep("cond-two-7", []string{"x = %", "a.y = %"}, 7)
	cond("cond-having-4", "P01 P02", 1, 4, "select name from contact c group by name having ", "", condSpace{atoms: []string{"count(id) > %"}, rare: []string{"sum(x) in (%,2)", "max(x) like 's%'", "min(y) = fn(name)", "max(x) in (select x from lead where a = %)", "min(x) not in ('a%')"}, max: 4})
	cond("cond-having-5", "P01", 1, 2, "select name from contact c group by name having ", "", condSpace{atoms: []string{"sum(x) <= %"}, max: 5})
	cond("cond-subquery", "P01 P03 P04 P05 P11 P09", 2, 3, "select id, (select id from cases s where ", ") from contact c, account a", condSpace{atoms: []string{"s.x = %", "s.owner.y = %"}, rare: []string{"c.z = %", "s.x = a.z%", "s.owner.boss.v = %", "s.x in (select id from lead where q = %)", "account.z = s.owner.y"}, max: 3})
	cond("cond-condsub", "P01 P03 P04 P05 P11", 2, 3, "select id from contact c where x in (select id from lead l where ", ") and account.y = 99", condSpace{atoms: []string{"l.x = %", "l.owner.y = %"}, rare: []string{"l.owner.boss.v = %", "f(l.x) = %", "lead.owner.w in (%, null)", "contact.q = %"}, max: 3})
	cond("cond-deep", "P03 P04 P05 P07 P09", 1, 2, "select id from contact c where ", "", condSpace{atoms: []string{"x = %", "a.x = %", "a.b.x = %", "a.b.c.x = %", "a.d.x = %", "a.b.c.d.e.x = %"}, max: 3})
	cond("cond-deep-declared", "P03 P04 P05 P07", 1, 2, "select id, a.b.z from contact c, c.a q, q.b.c r where ", " order by r.z, q.y", condSpace{atoms: []string{"q.x = %", "a.b.x = %", "r.x = %", "r.d.x = %"}, max: 3})
	spaces = append(spaces,
		Space{Name: "cond-flat", Gen: flatCond, Quick: 1, Thorough: 2, Props: "P01 P02 P03 P05"},
		Space{Name: "cond-nest", Gen: nestCond, Quick: 2, Thorough: 4, Props: "P01 P02 P03"},
		Space{Name: "cond-spelling", Gen: tmpl("select id from contact where {|not|NOT |Not\n|(|not(|NOT((| not /* c */ }a = 1{ and | AND |\nand\t|)and(|  And not | and not(|/**/and/**/| or | OR | Or( |) or not(}b = 2{ and | or | AND NOT | OR NOT |) and (|) or not (}(c = 3 {and|or|Or} d = 4){|)|))| )}"), Quick: 3, Thorough: 5, Props: "P01 P17"},
	)

	// ---- comparisons
	add("ops", "P02 P14", 9, 9, "select id from contact c, account a where [|not |not (not (]@opcmp;[|)|))]")
	add("ops-pairs", "P02", 1, 3, "select id from contact c, account a where {|not |not (}@opcmp2; [and|or] {|not |(}@opcmp2;{|)|))}{| and {|not }@opcmp2;}")
	add("ops-having", "P02 P14 P12", 9, 9, "select name, sum(x) s from contact c, account a group by name having [|not ]@hleft; @hright;")
	add("ops-position", "P02", 9, 9, "select id, (select id from cases s where [|not ]s.x @opright;) from contact c where [y = 1 and |y = 1 or not ]id [|not ]in (select l.id from lead l where l.x [= 1|in (select y from lead)|not in ('a', :p)|like 'x%'])")
	add("fn-params", "P02 P08 P14 P16", 9, 9, "select [id|@fnp;|@fnp; fa|fn(@fnp;)|fn(x, @fnp;, 'y')] from contact c, account a where [a.b = 1|@fnp; = 1|a.b = @fnp;|not fn(@fnp;, @fnp;) > 2]")
}

var nameMacros = gen.Macros{
	"F": "[x|c.x|contact.x|C.x|CONTACT.X|account.x|a.x|c.account.x|contact.account.x|A.x|c.a.x|account.owner.x|a.owner.x|o.x|c.account.owner.x|\"c\".x|c.\"x\"|c.Account.Owner.x|dept.x|owner.x|c . Account /**/ . x]",
	"G": "[x|c.x|C.X|account.x|a.x|account.owner.x|a.owner.y|o.x|dept.x|y|x.y.z.w]",

	"at":  "[x|a.y] = %",
	"ao":  "[and|or]",
	"grp": "[@at; @ao; @at;|@at; @ao; @at; @ao; @at;|(@at; @ao; @at;) @ao; @at;|@at; @ao; (@at; @ao; @at;)]",

	"opcmp":   "[x|c.x|account.x|fn(x)|fn()|fn(a.x, 'v', 3)|a.owner.x] @opright;",
	"opcmp2":  "[x|a.y|f(x)] [= %|!= %|< %|<= %|> %|>= %|like 's%'|not like 's%'|in (%,0)|not in (%,0)|includes ('s%')|excludes ('s%')]",
	"oplit":   "[0|-5|1.5|'s'|''|true|FALSE|null|2020-02-29|2020-01-02T03:04:05.5+09:00|23:59|:prm|: prm|TODAY|next_n_weeks:12|NaN|-infinity|y|c.y|account.y|a.owner.y|fn(y)|fn(account.y, 1)|(select y from lead)|(select l.y from lead l where l.z = 1)|(1)|(1,'a',null,:p,TODAY,last_n_days:3,2020-01-02,1.5,true)]",
	"opright": "[=|!=|<|<=|>|>=|like|not like|in|not in|includes|excludes|LIKE|Not  Like|IN|NOT\nIN|INCLUDES|Excludes|<>|==|not] @oplit;",
	"hleft":   "[count()|count(id)|sum(x)|max(a.x)|fn(name)|fn(sum(x), 1)|name|count_distinct(x)]",
	"hright":  "[=|!=|<|<=|>|>=|like|not like|in|not in|includes|excludes] @oplit;",
	"fnp":     "[fn()|fn(x)|FN(c.x)|fn(a.x, x)|fn(x, a.owner.x, dept.y)|fn('s')|fn(1, 2.5, true, null)|fn(:p)|fn(x, :Q, 'z')|fn(g(x))|fn(g(h(a.x)), x)|fn( g( 'x' ) , y )|fn(2020-01-01)|fn(TODAY)|fn(limit)|fn((1))|fn(x y)|fn(,)|fn(x,)]",
}

// flatCond: up to 8 comparisons in one row, all AND/OR patterns, NOT as deviation.
func flatCond(c *explore.Ctl) string {
	n := 6 + c.Pick(3)
	atoms := [][]string{{"x = %", "a.y = %"}, {"a.y = %", "a.y = %"}, {"x = %", "a.b.y = %"}}[c.Pick(3)]
	var b strings.Builder
	b.WriteString("select id from contact c where ")
	for i := 0; i < n; i++ {
		if i > 0 {
			b.WriteString([]string{" and ", " or "}[c.Pick(2)])
		}
		switch c.Choose(3) {
		case 1:
			b.WriteString("not ")
		case 2:
			b.WriteString("(")
			b.WriteString(atoms[0])
			b.WriteString(" or x = %)")
			continue
		}
		b.WriteString(atoms[i%2])
	}
	return gen.Number(b.String())
}

// nestCond: nesting up to depth 9, at each level on the left, on the right or alone, with NOT as deviation.
func nestCond(c *explore.Ctl) string {
	depth := 2 + c.Pick(8)
	style := c.Pick(3)
	s := "x = %"
	for i := 0; i < depth; i++ {
		op := []string{" and ", " or "}[i%2]
		if i <= 3 && (style < 2 || i == 0) {
			op = []string{" and ", " or "}[c.Pick(2)]
		}
		not := ""
		if c.Choose(2) == 1 {
			not = "not "
		}
		atom := []string{"a.y = %", "x = %", "a.b.z = %"}[i%3]
		switch style {
		case 0:
			s = not + "(" + s + ")" + op + atom
		case 1:
			s = atom + op + not + "(" + s + ")"
		default:
			if c.Choose(2) == 1 {
				s = atom + op + not + "(" + s + ")"
			} else {
				s = not + "(" + s + ")"
			}
		}
	}
	return gen.Number("select id from contact c where " + s)
}
