package chk

import (
	"fmt"
	"strings"

	"verif/mc/explore"
	"verif/mc/gen"
)

func init() {
	for k, v := range macros3 {
		macros[k] = v
	}
	add := func(name, props string, quick, thorough int, t string) {
		spaces = append(spaces, Space{Name: name, Gen: tmpl(t), Quick: quick, Thorough: thorough, Props: props})
	}
	nm := "P06 P07 P08 P09 P04 P19"

	// ---- names: every spelling in every clause, two or three places at a time
	add("names", nm, 2, 3, "select {id|@F;|fn(@F;)|@F; n1}{|, @F;|, fn(1, @F;)|, @F; n2} from @decl;{| where @F; = 1| where 1x = 1| where fn(@F;) > 2| where a.y = @F;}{| and @F; in (1,2)}{| order by @F;| order by n1}{|, @F; desc}")
	add("names-group", nm+" P12 P13", 1, 2, "select {count(id)|sum(@F;)|fn(x, @F;)}{|, @F;|, @F; g1} from @decl;{| where @F; = 1} group by {@F;|g1|G1}{|, @F;}{| having sum(@F;) > 1| having fn(@F;) = max(@F;)}{| order by @F;| order by g1}")
	add("names-decl", "P06 P07 P09 P19 P04 P11", 3, 4, "select {id|@G;} from [contact|contact c|Contact C]{|, @obj;}{|, @obj;}{|, @obj;}{| where @G; = 1}{| order by @G;}")
	add("names-decl-sub", "P06 P07 P09 P11 P19", 2, 3, "select {id|@G;}, (select {id|s.x|s.owner.x|@G;}{|, (select t.x from s.kids t{| where t.x = s.x| where t.x = c.x| where t.owner.x = s.owner.y})} from {@sobj;}{|, @sobj2;}{|, @sobj2;}{| where @G; = 1| where s.x = @G;}{| order by s.x| order by @G;}) from [contact c|contact c, c.account a|contact c, account a, a.owner o|contact c, account.owner o]{| where @G; = 2}")
	add("names-case", "P06 P07 P09 P15", 2, 3, "select {c|C|contact|CONTACT|Contact}.{x|X}, {account|Account|a|A|c.Account|C.ACCOUNT|contact.A}.x, fn({A|a|account}.y) from {contact|Contact|CONTACT} {c|C}, {account|ACCOUNT|c.account|C.Account|contact.aCCount} {a|A}{|, a.owner o|, A.OWNER O} where {a|A|account|c.Account}.{owner|Owner|OWNER}.x = 1 and {c|C}.x = 2 order by {account|Account|A}.x, {a|A|ACCOUNT}.{owner|OWNER}.x")
	add("names-quoted", "P06 P07 P08 P14", 2, 3, "select {\"x\"|\"X y\"|\"a\".\"b\"|\"select\"|c.\"from\"|\"c\".x|\"C\".x|\"\\u0041\".x|\"x\\\"y\"|\"\"|\"a.b\"|\"a\".x}{| n}, fn({\"x\"|\"a b\".c|\"a\".x}) from {contact|\"contact\"|\"Con tact\"} c, {account|\"account\"|\"acc ount\"} a where {\"x\"|c.\"x\"|\"a\".x|\"acc ount\".x|\"limit\"|\"not\"} = {1|\"y\"|'y'} order by {\"x\"|\"n\"|n|\"a\".x|c.\"X\"}")
	add("names-long", nm, 2, 3, "select {c.p1.p2.p3.p4.p5.x|p1.p2.x|q.x|r.p4.x|r.x} , {p1.x|p1.p2.p3.x|r.p4.p5.x|q.p3.x} from contact c{, p1.p2 q|, c.p1.p2 q, q.p3 r|, p1.p2.p3 r, p1.p2 q|, p1.p2.p3.p4.p5.p6 r, p1 q}{| where {q.x|r.x|p1.p2.p3.p4.x} = 1}{| and {q.y|r.p4.y|c.p1.y} = 2} order by {c.p1.p2.x|q.x|p1.x|x}")

	// ---- select list and aliases
	add("items", "P08 P09 P16 P19", 9, 9, "select @itm;, @itm;[|, @itm3;] from contact c, account a[| order by [x|n1|N2|f1|expr0|y|a.x]]")
	add("items-4", "P08 P09", 9, 9, "select @itm4;, @itm4;, @itm4;, @itm4;[|, @itm4;] from contact c, account a[| where x = 1 and fn(w) = a.v]")
	add("items-alias", "P08 P19 P09", 3, 4, "select {x|fn(x)|c.x} {|expr0|EXPR0|expr1|n1}, {fn(y)|y|x} {|expr1|Expr1|expr0|N1|expr10}, {x|c.x|fn(x)|fields(all)|(select id from cases)} {|expr2|expr0|n1|n2}, {fn()|fn(fn(1))|x|C.X}{|, x, x, x, fn(2)} {|n2|expr1|EXPR3} from contact c")
	add("helpers", "P08 P09 P04 P07 P16", 2, 3, "select {id|x|c.x|fn(x)|x n}{|, a.y|, fn(a.y)|, fn(1, g(a.y, h(x)))} from contact c, account a{| where @hlp; = 1| where 1 = 1| where fn(@hlp;) = 1| where z = @hlp;| where z = fn(@hlp;, @hlp;)| where fn(g(@hlp;)) in (1)}{| and @hlp; = @hlp;}{| order by @hlp;| order by n| order by @hlp;, id}")
	add("helpers-group", "P08 P09 P12", 2, 3, "select {count(id)|sum(x)|x|a.y|x n|fn(a.y, g(x))}{|, max(@hlp;)|, fn(g(@hlp;))} from contact c, account a{| where @hlp; = 1} group by {x|n|a.y|c.x}{|, @hlp;}{| having sum(@hlp;) > 1| having fn(x, g(@hlp;)) = max(@hlp;)}{| order by @hlp;|order by n}")

	// ---- aggregation
	add("agg", "P12 P16 P19", 9, 9, "select @agi;[|, @agi;] from contact c, account a[| group by @agk;][| having count(id) > 1]")
	add("agg-3", "P12", 9, 9, "select @agj;, @agj;, @agj; from contact c, account a[| group by @agk2;[|, @agk2;]]")
	add("agg-having", "P12 P16 P08 P09", 9, 9, "select [name|name nm|sum(x) s|fn(name) k] from contact c, account a group by [name|nm|k|name, a.x|k, a.x] having @agh; [= 1|in (1,2)|= @agh;|> :p]")
	add("agg-where", "P12 P19", 9, 9, "select [id|count()|name] from contact c, account a where [count() = 1|x = count(id)|fn(count(id)) = 1|x = 1 and count_distinct(x) > 1|not sum(x) = 1|x in (select count(id) from lead)|x = fields(all)|fields(all) = 1|fn(fields(all)) = 1|sum(x) = max(y)|x in (select name from lead group by name having count(id) > 1)|x in (select id from lead where count() = 1)|Count(id) = 1][| group by name]")
	add("agg-sub", "P12 P11 P10", 9, 9, "select [id|name|count(id)|sum(x)|count() k], (select [id|count()|count(id) k|s.id|name nm|sum(s.x), s.name] from cases s[| group by name| group by nm| group by s.name]) from contact c[| group by name]")
	add("agg-case", "P12 P13", 3, 4, "select {Count|COUNT|count|cOUNT_dISTINCT}({id|c.ID|a.x}) {|k|K}, {name|Name|c.name} {|nm|NM|Nm} from contact c, account a group by {name|nm|NM|C.NAME|Name|contact.name|c.nm}{|, {a.x|A.X|account.x}}{| having {COUNT|Sum}({id|x}) > 1| having count() > 1 and fn(name) = 1}{| order by {nm|NM|name|k|K|a.x}}")

	// ---- sorting, paging, FOR
	ord := "P13 P17"
	add("order", ord+" P04", 9, 9, "select id, name nm, fn(x) f1, account.y from contact c, account a order by @ok1;[| asc| desc| ASC| Desc][| nulls first| nulls last| NULLS LAST| Nulls\nFirst][|, @ok1;[| desc]]")
	add("order-3", ord+" P19 P04 P09", 2, 3, "select id, name nm, a.y ay, (select id from cases) cs, fn(x) f1 from contact c, account a order by @ok1;{| asc| desc}{| nulls last}, {x|@ok1;}{| desc}{| nulls first| nulls last}, {y|@ok1;}{| desc}{| nulls last}{|, account.owner.z|, a.owner.z|, @ok1;}")
	add("page-for", ord+" P04 P16 P15", 9, 9, "select id from contact c, account a[| where x = 1 and a.y = 2]@pg;@fr;")
	add("page-for-sub", ord+" P16 P04", 9, 9, "select id, (select id from cases s@pg2;@fr2;) from contact c where x in (select id from lead l, l.owner o@pg2;@fr2;)[| limit 7]")
	add("page-values", ord+" P14", 9, 9, "select id from contact [limit|LIMIT|offset|Offset] @pval;[| offset @pval;| limit @pval;]")
	add("clauses", "P17 P13 P01 P19", 5, 6, "select id from contact c{| where x = 1}{| group by id}{| having count(id) > 1}{| order by id}{| limit 1}{| offset 2}{| for view}{| where y = 2| group by id| having sum(x) = 1| order by id| limit 3| offset 4| for update| from contact| and z = 1| x| ,| )| ;}")
	add("for-lex", "P13 P17 P15", 2, 3, "select id from contact {|c |for |c for |forview |for x |c x |limit 1 |order by id |where a = 1 |where a = b |order by id desc nulls last }{for|FOR|For|fo|forr|for for}{ |  |\n|/**/|} {view|VIEW|reference|Reference|update|Update|vie|viewx|tracking|viewstat|}{|,|, | , |/**/,/**/| |\n}{|view|reference|tracking|viewstat|update|VIEWSTAT|x|viewstat, tracking|tracking, viewstat|tracking ,viewstat|view, view}")

	// ---- meta information
	add("meta", "P16", 2, 3, "select {id|@mfn;|@mfn; k}{|, @mfn;|, (select {id|@mfn;} from cases s{| where s.x = @mval;| where @mfn; = @mval;}{| order by id}{| limit :Lim}{| offset :off}) q1} from contact c, account a{| where @mcond;}{| and @mcond;}{| or not @mcond;}{| limit :P1| limit 1 offset :p2}")
	add("meta-agg", "P16", 3, 4, "select {name|name nm|@mfn;}{|, @mfn;|, count(id)|, COUNT(), sum(a.x) tot} from contact c, account a{| where @mcond;} group by {name|nm} {|having {Sum(x) > :hp|max(x) in (:h1, TODAY)|min(x) = hfn(name, :h2)|F(name) = @mval;|max(x) in (select x from lead where y = :deep and z < last_90_days and g1(w) = 2)}} {|limit :lim}")
	add("meta-fields", "P16", 3, 3, "select {fields(all)|FIELDS(c.std)|id}{|, Fields(x)|, fn(x)} from contact c{| where id in (select l.id from lead l where l.a = {:a|:A|today} and l.b in ({:b|:B|:a|next_n_days:1|NEXT_WEEK}, {TODAY|:c|1|'today'|':d'}))}")
}

var macros3 = gen.Macros{
	"decl":  "[contact|contact c|contact c, account a|contact c, c.account a, a.owner o|contact c, c.account.owner o|contact, account.owner|contact c, contact.account a|CONTACT C, ACCOUNT A|contact c, account.owner o, account a]",
	"obj":   "[account|account a|c.account a|contact.account a|account.owner o|c.account.owner o|a.owner o|account.owner|dept d|d.head h|o.boss|account o|C.Account A|\"account\" a|account b|contact]",
	"sobj":  "[cases s|cases|c.cases s|C.Cases S|contact.cases s|c.cases|account.cases s|a.cases s|a.owner.cases s|account.owner.cases|o.cases s]",
	"sobj2": "[s.owner|s.owner p|s.owner.boss b|c.cases.owner p|s.account p]",
	"itm":   "[x|c.x|C.X|a.x|account.x|x n1|a.x n2|fn(x)|fn(x) f1|fn(a.x, y)|fn()|fields(all)|fields(c.all)|fields(a.all)|fields(contact.std)|fields(account.std)|(select id from cases)|(select id from cases) n2|FN(c.x)|y n1|y N1|y expr0|fn(expr0)|a.owner.x|fields(all) q]",
	"itm3":  "[x|a.x|y|y n1|fn(x)|fn(y) expr1|fn(fn(z)) f2|(select id from cases) n3|(select id from kids)|fields(x)|expr0]",
	"itm4":  "[x|c.x|a.x|fn(x)|x n%|fn(y) n%|fields(all)|(select id from cases)]",
	"hlp":   "[x|c.x|C.X|contact.x|a.y|account.y|A.Y|account.owner.z|a.owner.z|w|id|n]",
	"agi":   "[name|c.name|Name|name nm|a.x|a.x ax|account.x|fn(name)|fn(name) k|count()|count() n|count(id)|COUNT(c.id) n|count_distinct(x)|Count_Distinct(a.x) n|count_distinct()|count_distinct(x, y)|count(x, y)|count(1)|count('x')|count(fn(x))|count_distinct(fn(x))|count_distinct(1)|sum(x)|sum(a.x) n|fn(sum(x))|fn(sum(x), name)|fn(sum(x), y)|fn('a')|fn('a') k|fn()|fn(count(id))|fn(fn(count()))|fn(fn(name))|(select id from cases)|fields(all)|fields(a.all)|x]",
	"agk":   "[name|nm|NM|c.name|C.NAME|k|n|a.x|account.x|ax|name, a.x|nm, ax|x|name, name|nm, name|k, name|a.x, account.x]",
	"agj":   "[name|name n%|a.x|fn(name) n%|fn(a.x, 'y')|count()|count(id) n%|sum(x)|fn(sum(x), name)|fn('a')|c.Name]",
	"agk2":  "[name|a.x|n1|n2|n3|c.name]",
	"agh":   "[count()|count(id)|COUNT(a.y)|count_distinct(x)|count(1)|count(x, y)|count_distinct()|sum(x)|sum(a.owner.x)|fn(name)|fn('x')|fn()|fn(sum(x))|fn(sum(x), name)|fn(sum(x), y)|fn(fn(x))|fn(fn(x), g(name))|name|a.x|fn(count(id))|fn(fields(all))|fields(all)|fn(nm)|fn(k)|fn(name, g(x))]",
	"ok1":   "[id|c.id|name|nm|NM|f1|y|account.y|A.y|a.z|x|contact.name|account.owner.z|ay|cs|dept.x|fn(x)|count()]",
	"pg":    "[| limit 5| limit 5 offset 6| offset 6 limit 5| offset 6| limit :l| limit :l offset :o| offset :O limit 4| LIMIT 1| Limit 2 OFFSET 3| limit 0| limit :x offset :x| limit 5 limit 6| offset 5 offset 6|\nlimit\t5\noffset /**/ 6]",
	"fr":    "[| for view| for reference| for update| for view, reference| for reference, view| for update tracking| for update viewstat| for update tracking, viewstat| for update viewstat, tracking| FOR VIEW ,Reference| For Update Tracking,ViewStat| for  view| for view reference| for update, tracking| for| for view, update| for tracking| for view, view]",
	"pg2":   "[| limit 5| offset 6 limit 5| limit :l offset :o]",
	"fr2":   "[| for view| for view, reference| for update| for update viewstat, tracking]",
	"pval":  "[0|1|10|1_000|+5|-5|9223372036854775807|9223372036854775808|0x10|1.5|1e3|:p|: q|:p.q|'1'|x|00|01||:1|5x]",
	"mfn":   "[f1(x)|F1(a.y)|G1(f1(x), :fp)|g1()|h1(:Fp, 'today')|h1(h2(h3(:zz)))|f1(:fp, :gp, :fp)]",
	"mval":  "[1|:p1|:P1|:p2|TODAY|last_n_days:3|Next_Week|(1, :q1, TODAY)|(:q2)|('x', last_n_weeks:2, :Q1, :p1)|mf(y, :mp)|(select id from lead where z = :sp)|(select id from lead l where l.z in (:sp, tomorrow) and sf(l.w) = 1 limit :sl)]",
	"mcond": "[x = @mval;|a.y in (:q1)|@mfn; = @mval;|x != @mval;]",
}

// ---- trees of subqueries

type subGen struct {
	c     *explore.Ctl
	n     int // queries left
	id    int
	maxD  int
	alias []string
}

func (g *subGen) query(depth int, kind int, outer []string) string {
	// kind 0: main, 1: select list, 2: condition
	c := g.c
	g.id++
	me := fmt.Sprintf("q%d", g.id)
	var from string
	switch kind {
	case 0, 2:
		from = []string{"contact", "lead", "task"}[(g.id+depth)%3] + " " + me
	default:
		par := outer[len(outer)-1]
		switch c.Choose(3) {
		case 0:
			from = "cases " + me
		case 1:
			from = par + ".cases " + me
		default:
			from = par + ".owner.kids " + me
		}
	}
	if kind != 1 {
		outer = nil
	}
	scope := append(append([]string{}, outer...), me)
	items := []string{[]string{me + ".id", "id", "x, " + me + ".x", "fn(" + me + ".y)"}[c.Choose(4)]}
	if c.Choose(2) == 1 {
		from += ", " + me + ".account a" + me
	}
	var conds []string
	if k := c.Choose(5 + 3*len(outer)); k > 0 {
		switch {
		case k < 5:
			conds = append(conds, []string{me + ".v = %", me + ".owner.v = %", me + ".account.boss.v = %", "f(" + me + ".account.w) = %"}[k-1])
		default:
			o := outer[(k-5)/3]
			conds = append(conds, []string{me + ".v = " + o + ".id", o + ".z = " + me + ".owner.v", "f(" + o + ".u) = %"}[(k-5)%3])
		}
	}
	for i := 0; i < 2 && g.n > 0 && depth < g.maxD; i++ {
		if c.Pick(2) == 0 {
			break
		}
		g.n--
		items = append(items, "("+g.query(depth+1, 1, scope)+")")
	}
	for i := 0; i < 2 && g.n > 0 && depth < g.maxD; i++ {
		if c.Pick(2) == 0 {
			break
		}
		g.n--
		conds = append(conds, me+".k in ("+g.query(depth+1, 2, nil)+")")
	}
	s := "select " + strings.Join(items, ", ") + " from " + from
	if len(conds) > 0 {
		s += " where " + strings.Join(conds, []string{" and ", " or "}[c.Choose(2)])
	}
	switch k := c.Choose(3 + len(outer)); {
	case k == 1:
		s += " order by " + me + ".w"
	case k == 2:
		s += " limit %"
	case k > 2:
		s += " order by " + outer[k-3] + ".o"
	}
	return s
}

func subTree(queries, depth int) func(c *explore.Ctl) string {
	return func(c *explore.Ctl) string {
		g := &subGen{c: c, n: queries - 1, maxD: depth}
		return gen.Number(g.query(1, 0, nil))
	}
}

func init() {
	all := "P03 P05 P07 P09 P10 P11 P16 P08"
	spaces = append(spaces,
		Space{Name: "subtree-3", Gen: subTree(3, 3), Quick: 3, Thorough: 5, Props: all},
		Space{Name: "subtree-json", Gen: subTree(4, 3), Quick: 1, Thorough: 3, Props: "P22"},
		Space{Name: "subtree-4", Gen: subTree(4, 4), Quick: 2, Thorough: 4, Props: all},
		Space{Name: "subtree-6", Gen: subTree(6, 5), Quick: 0, Thorough: 2, Props: all},
	)
}
