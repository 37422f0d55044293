package chk

import (
	"fmt"
	"strings"
	"sync"

	"verif/mc/explore"
	"verif/mc/gen"
)

// Names used twice, names of known functions, products of clauses.

func init() {
	m := gen.Macros{
		"shn": "[x.t|c.t|t|x.o.t|c.x.t|y.t|C.t]",
		"sho": "[x|c|y|z|lead|contact]",
		"fnn": "[format|FORMAT|toLabel|convertCurrency|convertTimezone|avg|Min|max|sum|grouping|cube|rollup|calendar_month|calendar_year|day_only|fiscal_quarter|hour_in_day|week_in_year|distance|geolocation|count|count_distinct|fields|coalesce|concat|length|upper|lower|abs|round|now|any|first|group_concat|exists|all|iif|case|nvl]",
		"fna": "[|x|count(id)|COUNT()|count_distinct(x)|sum(x)|name|f(count(id))|'s'|a.x, name|fields(all)|sum(count(x)), 1]",
		"lim": "[| limit 0| limit 5| limit :l|\nLIMIT :O]",
		"off": "[| offset 0| offset 6| offset :o| OFFSET :L]",
	}
	for k, v := range m {
		macros[k] = v
	}
	add := func(name, props string, quick, thorough int, t string) {
		spaces = append(spaces, Space{Name: name, Gen: tmpl(t), Quick: quick, Thorough: thorough, Props: props})
	}
	nm := "P06 P07 P08 P09 P10 P11 P04 P19"
	shadow := "select id{|, @shn;|, f(@shn;)}, (select {@sho;.id|@shn;|f(@shn;)}{|, (select @shn; from {s|x|c|y|z}.k [x|c|y|z|z2]{| where @shn; = 4})} from {r|x.r|c.s.r} @sho;{|, @sho;.s y|, s z|, @sho;.u x}{| where @shn; = %| where x.id in (select x.id from lead x where x.t = 1)}{| order by @shn;}), x.t from contact c{|, o x|, o x, x.o y|, x|, x.y z}{| where @shn; = 3 or @shn; = 4}{| order by @shn;}"
	add("names-shadow", "P06 P11", 2, 3, shadow)
	add("names-shadow-once", "P07 P08 P09 P10 P04 P19", 1, 3, shadow)
	add("names-shadow-cond", nm, 1, 3, "select {id|@shn;|(select y.id from c.r y, y.s z)} from contact c{|, o x|, x|, o x, x.o y} where @shn; in (select {id|@sho;.id|@shn;} from {lead|o|x|contact} [x|c|y|]{|, s y|, @sho;.u x|, o x}{| where @shn; = %}{| and y.k in (select c.id from task c, c.o x where @shn; = 1)})[| or @shn; = 3]{| order by @shn;}")
	add("names-shadow-two", nm, 0, 2, "select id, (select {@shn;|f(@shn;)} from r [x|y|c]{| where @shn; = %}{| order by @shn;}) q1, (select {@shn;|f(@shn;)} from s [x|y|c]{|, x.t y}{| where @shn; = %}{| where f(c.t) = 1}) q2, c.t from contact c[|, o x] where {@shn; = 5|z in (select x.id from o x where x.t = 1)}")
	// helper fields of sibling subqueries
	add("helpers-siblings", "P07 P08 P09 P10 P11 P04", 2, 3, "select id{|, c.o|, a.v|, f(w)}, (select id{|, x} from r s{ where s.k in (select id from lead l where {l.z = 1|f(l.z) = l.w}{| order by l.y})| where f(s.o) = 1| where c.o = s.o|}{| order by s.x}) q1, (select id{|, s.y} from t s{ where f(c.{o|w}) = 1| where s.o = c.{w|o|id}| where a.v = s.v| where f(c.o, a.v) = f(s.o)|}{| order by {s.o|c.o}}) q2{|, (select id from u s where f(c.w) = c.o) q3} from contact c, account a{| where f(c.o) = a.v| where k in (select id from task where w = 1)}{| order by c.o, w}")
	// names of known functions
	add("fn-names", "P12 P08 P16 P19", 9, 9, "select [name, |id, name, |]@fnn;(@fna;)[| k] from contact c, account a[| group by name]")
	add("fn-names-clauses", "P12 P02 P16 P08", 9, 9, "select name[|, max(x)] from contact c, account a [where [x = @fnn;(@fna;)|@fnn;(@fna;) > 1]|group by name having [@fnn;(@fna;) > 1|not @fnn;(name, @fnn;()) = 'x']]")
	add("fn-names-nest", "P12 P08", 9, 9, "select name, @fnn;(@fnn;([id|x, 1|])) from contact c[| group by name]")
	// paging: all combinations, in both orders, for every kind of query
	pg := "P13 P04 P16 P17 P11"
	add("page-product", pg+" P03 P05", 9, 9, "select id[|, (select id from r s[@lim;@off;|@off;@lim;] )] from contact c[| where x = 1 and a.y = 2]{@lim;@off;|@off;@lim;}")
	add("page-product-sub", pg, 9, 9, "select id, (select id from r s[| where s.x = c.y]@lim;@off;) from contact c[| where x in (select id from lead@lim;@off;)]@lim;@off;")
	// directions
	dir := "[| asc| desc][| nulls first| nulls last]"
	add("order-dirs", "P13 P04 P09", 0, 1, "select id, a.y from contact c, account a order by x"+dir+", a.y"+dir+", id"+dir+"{|, z"+dir+"|, f"+dir+", a.y"+dir+"}")
	add("order-dirs-sub", "P13 P11", 0, 1, "select id, (select id from r s order by s.x"+dir+", s.y"+dir+") from contact c where x in (select id from lead order by z"+dir+"{|, w"+dir+"}) order by v"+dir)
	// deep and repeated parts of paths, functions and aliases that differ in little
	add("names-near", "P06 P07 P08 P09 P19", 2, 3, "select {a.b|ab|a.bc|ab.c|a_b|a.b.c|\"a.b\"|A.B|aB.c} {|a|ab|a_b|n%}, {f(a.b)|f(ab)|ab.c|a.bc|a.b|a} {|f|ab|A_B} from {ab|a|abc} {|c|a|ab|abc}{|, a b|, a.b|, ab.c a|, a ab|, b.a}{| where {a.b|ab.c|a.bc|\"a.b\"} = 1}{| order by {a.b|ab|ab.c|a.bc|f|n1}}")
}

// ---- layout at every place of small queries

// smallSeeds: queries in which a clause follows each kind of element; the model decides what the text is, so every
// place gets every kind of layout on its own.
var smallHeads = []string{
	"select id from contact", "select id from contact c", "select id from c.d, e.f", "select id, (select id from s) from contact",
	"select id from contact where x = 1", "select id from contact c where x in (1, 2)", "select id from contact where x = y", "select id from contact where x = TODAY", "select id from contact where not (x = :p)", "select id from contact where x = f(y)", "select id from contact where x = null",
	"select x from contact group by x", "select x from contact group by x, a.y", "select x from contact group by x having count(x) > 1", "select count() from contact",
	"select id from contact order by x", "select id from contact order by a.x desc", "select id from contact order by x nulls last", "select id from contact order by x asc nulls first",
	"select id from contact limit 1", "select id from contact limit :p", "select id from contact offset 2", "select id from contact limit 1 offset :o",
}

var smallTails = [][]string{
	{}, {"where", "y", "=", "1"}, {"group", "by", "id"}, {"having", "count", "(", "id", ")", ">", "1"}, {"order", "by", "id"}, {"order", "by", "id", "nulls", "first"}, {"limit", "3"}, {"offset", "4"}, {"offset", ":", "q"},
	{"for", "view"}, {"for", "reference", ",", "view"}, {"for", "update"}, {"for", "update", "tracking", ",", "viewstat"}, {"and", "y", "=", "2"}, {"or", "not", "y", "like", "'a'"}, {",", "z"}, {"desc"}, {"nulls", "last"}, {"in", "(", "1", ")"}, {"from", "d"}, {"by"}, {"ascx"}, {"limitx", "1"}, {"orderby", "x"}, {"not"}, {"for"}, {"as", "k"},
}

var smallGaps = []string{" ", "", "\n", "\t", "\r", "\f", "\v", "/**/", "/* x */", " /**/", "/**/ ", "--\n", " --x\r\n", "-- y", "\u00a0", "/*", "  \r\n\t", "*/", "-", "//\n"}

// editGaps: the gaps that may change the language.
var editGaps = []string{"", "/**/", "\u00a0", "/*", "*/", "-", "//\n", "-- y"}

func smallLayout(c *explore.Ctl, plain bool, defs int) (text, base string, fold bool) {
	gaps := smallGaps
	if !plain {
		gaps = editGaps
	}
	h := smallHeads[c.Pick(len(smallHeads))]
	t := smallTails[c.Pick(len(smallTails))]
	wrap := c.Pick(3)
	toks := strings.Fields([]string{"", "select a , ( ", "select a from b where x in ( "}[wrap] + strings.NewReplacer(",", " , ", "(", " ( ", ")", " ) ", "=", " = ", ">", " > ", ":", " : ", ".", " . ").Replace(h) + " " + strings.Join(t, " ") + []string{"", " ) from b", " ) and y = 3"}[wrap])
	def := []string{" ", "/**/", "\n", "--\n"}[c.Pick(defs)]
	var b strings.Builder
	for i, w := range toks {
		opt := i == 0 || isPunct(w) || isPunct(toks[i-1]) || toks[i-1] == ":"
		g := def
		if opt && def == " " {
			g = ""
		}
		if k := c.Choose(len(gaps) + 1); k > 0 {
			g = gaps[k-1]
			if plain && (g == "" && !opt || strings.HasSuffix(g, "y") || g == "/*" || g == "*/" || g == "-" || g == "//\n") {
				c.Skip()
			}
		}
		b.WriteString(g)
		if keywords[w] && plain {
			if k := c.Choose(3); k > 0 {
				w = casings(w)[k*3-3]
			}
		}
		b.WriteString(w)
	}
	if k := c.Choose(len(gaps) + 1); k > 0 {
		b.WriteString(gaps[k-1])
		if g := gaps[k-1]; plain && (g == "/*" || g == "*/" || g == "-" || g == "//\n") {
			c.Skip()
		}
	}
	return b.String(), strings.Join(toks, " "), true
}

// smallBases has the results of the texts without layout.
var smallBases sync.Map

func smallRun(defs int) func(c *explore.Ctl) (string, func() (string, int)) {
	return func(c *explore.Ctl) (string, func() (string, int)) {
		text, base, fold := smallLayout(c, true, defs)
		return text, func() (string, int) {
			v, ok := smallBases.Load(base)
			if !ok {
				v, _ = smallBases.LoadOrStore(base, Parse(base))
			}
			b, o := v.(Outcome), Parse(text)
			r := resAccept
			if o.Err != nil {
				r = resReject
			}
			if m := same(b, o, fold); m != "" {
				return fmt.Sprintf("another layout or letter case of %q changes the result: %s", base, m), r
			}
			return "", r
		}
	}
}

func init() {
	spaces = append(spaces,
		Space{Name: "layout-small", Quick: 1, Thorough: 2, Props: "P15", Run: smallRun(1)},
		Space{Name: "layout-small-all", Quick: 0, Thorough: 2, Props: "P15", Run: smallRun(4)},
		Space{Name: "layout-edit", Quick: 1, Thorough: 2, Props: "P17", Gen: func(c *explore.Ctl) string {
			text, _, _ := smallLayout(c, false, 1)
			return text
		}},
	)
}
