package chk

import (
	"strings"

	"verif/mc/explore"
	"verif/mc/gen"
)

// Space is a bounded set of texts, enumerated by a choice-driven generator.
type Space struct {
	Name     string
	Gen      func(c *explore.Ctl) string
	Run      func(c *explore.Ctl) (string, func() (string, int)) // instead of Gen: description of the input and its check
	Quick    int                                                 // deviation bounds
	Thorough int
	Props    string
}

func tmpl(text string) func(c *explore.Ctl) string {
	t := gen.Compile(text, macros)
	return t.Text
}

var spaces []Space

var macros = gen.Macros{
	// a field of the query `from contact c, account a` in any spelling
	"f":      "{name|c.name|contact.name|C.NAME|account.name|a.name|c.account.name|contact.account.name|account.owner.name|a.owner.title|c.account.owner.name|dept.name|\"name\"|Account.Name|id|c.id|Name|c.A.name|a.Owner.\"x\"\"y\"}",
	"ff":     "{x1|c.x1|account.x1|a.x1|account.owner.x1|dept.x1}",
	"lit":    "{%|'s%'|%.5|true|null|2020-01-02|2020-01-02T03:04:05Z|03:04:05|:p%|TODAY|LAST_N_DAYS:%|@fn;|@ff;|(select id from lead)}",
	"fn":     "{fn(@ff;)|fn()|fn(@ff;, @ff;)|fn(fn2(@ff;))|fn('x')|fn(1)|fn(@ff;, 'x')|fn(:q)|fn(@ff;, fn2(@ff;))|FN (null)}",
	"op":     "{=|!=|<|<=|>|>=}",
	"cmp":    "{@f; @op; @lit;|@f; {like 's%'|not like 's%'|in (%,%)|not in (%, 's', null)|includes ('a','b')|excludes ('a')|in (select id from lead where name = %)|in :p|not in (select id from lead l where l.x = % and l.owner.name = 'y')|in (TODAY, :p%, LAST_N_DAYS:2)}|@fn; @op; @lit;|@fn; in (%)}",
	"cond":   "{@cmp;|not @cmp;|(@cmp;)|not (@cmp;)|@cmp; and @cmp;|@cmp; or @cmp;|not @cmp; and @cmp;|not (@cmp; or @cmp;)|@cmp; or @cmp; and @cmp;|(@cmp; or @cmp;) and @cmp;|not (@cmp; and not (@cmp; or @cmp;))}",
	"where":  "{| where @cond;}",
	"item":   "{@f;|@fn;|@f; f1|@fn; f2|(select id from cases)|(select id from c.cases k where k.x = %) f3|fields(all)|fields(c.all)|fields(a.std)|fields(nope.all)|count()|count(@f;)|count(@f;) n|count_distinct(@f;)|sum(@f;)|max(@f;) m|fn(count(id))|fields()|fields(1)|fn(fields(all))|count(a, b)|count(1)}",
	"from":   "{contact c, account a|contact|contact c|contact c, c.account a|contact c, account.owner o, account a|contact c, c.account a, a.owner o|contact c, account, account.owner|contact a|contact c, account c|contact c, account C|x.contact|contact as, account a|contact c, account a, dept d|contact c, contact.account a|CONTACT c, C.account.owner a}",
	"key":    "{@f;|f1|f2|F3|m|n|x1|expr0}",
	"okey":   "@key;{| asc| desc}{| nulls first| nulls last}",
	"order":  "{| order by @okey;| order by @okey;, @okey;| order by id, @okey;, @okey;}",
	"group":  "{| group by @key;| group by @key;, @key;| group by name, @key;}",
	"having": "{| having @hcmp;| having @hcmp; and @hcmp;| having not (@hcmp; or @hcmp;) and @hcmp;}",
	"hcmp":   "{count(id) > %|count() = %|sum(@f;) @op; %|fn(@ff;) = fn2(@ff;)|not max(@f;) in (%)|fn(sum(@f;)) < %|fn(@f;, sum(x)) < %|count_distinct(@f;) > :p|max(x) in (select x from lead)|min(x) > TODAY}",
	"page":   "{| limit %| limit % offset %| offset % limit %| offset %| limit :l| limit :l offset :o| offset :o limit %| limit 0}",
	"for":    "{| for view| for reference| for update| for view, reference| for reference, view| for update tracking| for update viewstat| for update tracking, viewstat| for update viewstat, tracking}",

	// a select-list subquery of `from contact c, account a`
	"sf":    "{id|s.id|cases.id|c.cases.id|contact.cases.id|s.owner.name|owner.name|S.ID|c.name|account.name|contact.name}",
	"sw":    "{id|s.id|cases.x|owner.name|s.owner.name|c.name|contact.name|C.email|account.name|a.name|a.zip|c.account.owner.name|account.owner.name}",
	"sfrom": "{cases s|c.cases s|contact.cases s|cases|account.cases s|a.cases s|cases s, s.owner o|c.Cases s}",
	"scond": "{s.x = %|@sw; = %|@sw; = @sw;|fn(@sw;) = %|@sw; in (select id from lead where y = %)|not (@sw; = % or s.z = @sw;)}",
	"ssub":  "(select @sf;{|, @sf;|, fn(@sw;)|, (select id from kids)|, (select id from s.kids k where k.x = s.y and k.z = c.w)} from @sfrom;{| where @scond;| where @scond; and s.q = %}{| order by @sw;}{| limit %}{| for view})",
}

// Mix: whole queries around rich defaults, every point a deviation.
var mixTemplates = []string{
	"select {@item;|@item;, @item;|id, @item;, @item;} from @from;@where;@group;{@having;}@order;@page;@for;",
	"select c.id, account.name, {fn(x)|@item;} from contact c, account a where {a.z = %|@cmp;} and (account.owner.y = % {or|and} {not |}{x = %|@cmp;}){| or @cmp;} order by @okey;, c.id limit 5@for;",
	"select {name|@f;} nm, {sum(amount)|@item;} total, {id from|max(x) from} contact c, account a where {a.z = %|@cmp;} group by {name|nm|@key;}, {id|@key;}{ having sum(amount) > %|@having;}{ order by nm|@order;}@page;",
	"select id, @ssub; from contact c, account a{| where @cmp;} order by {name|@okey;}@page;@for;",
	"select id, @ssub; k1, @ssub; k2 from contact c, account a@where;",
	"select id, (select id, (select id from kids q where {q.x = s.y|q.x = c.y|q.x = a.y|q.parent.z = %|q.x in (select z from lead)}{| and q.u = {c.u|s.u|account.u}}) from {cases|c.cases} s where {s.a = %|s.a = c.b|s.a = a.b}) from contact c{, account a|}{| where c.b = % and a.v = %} order by id",
	"select id from contact c where {account.x = %|@cmp;} and id in (select {id|contact.id|l.id} from lead l{|, l.owner o} where {l.owner.name = %|l.x = % or l.owner.y = %|l.z in (select id from task t where t.who.x = %)}{| order by l.y}{| limit 3}{| for update}){| or id not in (select id from lead)} @page;",
	"select id, (select id from cases s where s.id in (select c.id from ccc c, c.owner o where o.x = % {and|or} c.y = %)) from contact c where {x = %|@cmp;}",
}

// condition trees over comparisons of given kinds

type condSpace struct {
	atoms []string // free
	rare  []string // deviations
	max   int      // comparisons
	ops   []string
}

// text of a condition with at most n comparisons: free shapes, free atoms; a NOT is a deviation, and so are
// parentheses around a single comparison. A group (in parentheses) has at least two operands.
func (s *condSpace) cond(c *explore.Ctl, n int, group bool, b *strings.Builder) int {
	used := 0
	for k := 0; ; k++ {
		if c.Choose(2) == 1 {
			b.WriteString("not ")
		}
		left := n - used
		if group && k == 0 {
			left-- // for the second operand
		}
		if left >= 2 && c.Pick(2) == 1 {
			b.WriteString("(")
			used += s.cond(c, left, true, b)
			b.WriteString(")")
		} else if n <= 4 && c.Choose(2) == 1 {
			b.WriteString("(")
			s.atom(c, b)
			b.WriteString(")")
			used++
		} else {
			s.atom(c, b)
			used++
		}
		if used >= n {
			return used
		}
		ops := []string{" and ", " or ", ""}
		if group && k == 0 {
			ops = ops[:2]
		}
		o := ops[c.Pick(len(ops))]
		if o == "" {
			return used
		}
		b.WriteString(o)
	}
}

func (s *condSpace) atom(c *explore.Ctl, b *strings.Builder) {
	if len(s.rare) > 0 {
		if k := c.Choose(len(s.rare) + 1); k > 0 {
			b.WriteString(s.rare[k-1])
			return
		}
	}
	b.WriteString(s.atoms[c.Pick(len(s.atoms))])
}

func condSpaceText(pre, post string, s condSpace) func(c *explore.Ctl) string {
	return func(c *explore.Ctl) string {
		var b strings.Builder
		b.WriteString(pre)
		s.cond(c, s.max, false, &b)
		b.WriteString(post)
		return gen.Number(b.String())
	}
}
