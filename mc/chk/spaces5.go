package chk

import (
	"fmt"
	"reflect"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/shellyln/go-open-soql-parser/soql/parser/types"
	"verif/mc/explore"
)

// Seeds are whole queries; tokens are separated by one blank. A token with ^ is (part of) a reference to an object.
var seedTexts = []string{
	"select id , ^c . name , ^account . name nm from ^contact ^c , ^account ^a where ^a . x = 1 and not ( ^c . y != 'it' or z in ( 1 , 'a' , null , : p , TODAY ) ) order by ^c . name desc nulls last , nm limit 10 offset 5 for view , reference",
	"select ^c . ^account . ^owner . name , fn ( ^a . x , 'v' , 3 , g ( ) ) f1 from ^contact ^c , ^c . ^account ^a where fn ( y , : q ) >= LAST_N_DAYS:3 or ^account . z like 'a%' and ^c . w not in ( select id from lead l where l . x = TRUE and l . k not like 'b' ) limit : lim offset : off",
	"select name nm , count ( id ) n , sum ( ^a . amount ) from ^contact ^c , ^account ^a where x includes ( 'a;b' , 'c' ) and y excludes ( 'd' ) group by name , ^a . k having count ( id ) > 1 and not max ( x ) <= 2.5e3 order by nm asc nulls first for update tracking , viewstat",
	"select id , ( select ^s . id , ^owner . name , fn ( ^s . q ) from ^c . cases ^s , ^s . ^owner ^o where ^s . x = ^c . email and ^o . y = false order by ^s . z limit 3 for reference ) cs from ^contact ^c where id in ( select ^contact . id from ^contact where z < 2020-01-02T03:04:05Z ) offset 2 limit 1 for view",
	"select fields ( all ) , fields ( ^c . std ) from ^contact ^c where a = Infinity and b <> 1",
	"select fields ( all ) , fields ( ^c . std ) from ^contact ^c where a = Infinity or not not_a = nan and d = 2020-12-31 and e = 23:59 and f = 0x1F and g = NEXT_QUARTER",
	"select \"x\" . y , ^c . \"select\" fr from ^contact ^c where \"a.b\" = 'c' and limits = orders",
	"select count ( ) from contact where x = y and fn ( ) = fn ( fn ( 1 ) ) for update viewstat",
	"select a1 , a2 , a3 , a1 , f ( a1 ) , f ( a1 ) from contact , ^account , ^account . ^owner where ( ( ( p = 1 ) ) and ( q = 2 or ( r = 3 and s = 4 ) ) ) or not ( t = : u ) for update",
	"select x a , y A from contact",
	"select id from contact c , account C",
	"select id from a . contact",
	"select name from contact group by name , Name",
}

var keywords = func() map[string]bool {
	m := map[string]bool{}
	for _, w := range split("select from where and or not in like includes excludes group by having order asc desc nulls first last limit offset for view reference update tracking viewstat true false null infinity nan today last_n_days:3 next_quarter") {
		m[w] = true
	}
	return m
}()

type seed struct {
	text  string
	toks  []string
	names []bool // object references
	opt   []bool // no layout is needed before token i
}

func isPunct(s string) bool { return len(s) > 0 && strings.IndexByte("(),=<>!.", s[0]) >= 0 }

var seeds = func() (r []seed) {
	for _, t := range seedTexts {
		var s seed
		for _, k := range strings.Split(t, " ") {
			name := strings.HasPrefix(k, "^")
			s.toks = append(s.toks, strings.TrimPrefix(k, "^"))
			s.names = append(s.names, name)
		}
		s.opt = make([]bool, len(s.toks)+1)
		for i := range s.opt {
			s.opt[i] = i == 0 || i == len(s.toks) || isPunct(s.toks[i]) || isPunct(s.toks[i-1]) || s.toks[i-1] == ":"
		}
		s.text = strings.Join(s.toks, " ")
		r = append(r, s)
	}
	return
}()

// layout variants; the first is the one of the seed
var gaps = []string{" ", "\n", "\t", "\r\n", "\r", "  ", "\f", "\v", "/**/", "/* ' */", "/*)*//*\n*/", " -- it's\n", "--\r\n", "-- /* \n ", "\u00a0", "\u0085", "/*-- */", " /* \" select */ ", "/***/", "--*/\r"}
var gapsAll = []string{" ", "", "\n", "/**/", " -- (\n", "\t\r\n", "/* ' */"}

func (s *seed) build(gap func(i int) string, tok func(i int) string) string {
	var b strings.Builder
	for i := range s.toks {
		b.WriteString(gap(i))
		b.WriteString(tok(i))
	}
	b.WriteString(gap(len(s.toks)))
	return b.String()
}

func (s *seed) variant(c *explore.Ctl) (text string, fold bool) {
	base := gapsAll[c.Pick(len(gapsAll))]
	kw := c.Pick(3) // all keywords as written, in lower or in upper case
	text = s.build(func(i int) string {
		v := base
		if v == "" && !s.opt[i] {
			v = " "
		}
		if (i == 0 || i == len(s.toks)) && base == " " {
			v = ""
		}
		if k := c.Choose(len(gaps) + 2); k == 1 {
			if v = " "; s.opt[i] {
				v = ""
			}
		} else if k > 1 {
			v = gaps[k-2]
		}
		return v
	}, func(i int) string {
		t := s.toks[i]
		if keywords[strings.ToLower(t)] && !s.names[i] {
			switch kw {
			case 1:
				t = strings.ToLower(t)
			case 2:
				t = strings.ToUpper(t)
			}
			if k := c.Choose(5); k > 0 {
				t = casings(t)[k-1]
			}
		}
		if s.names[i] {
			if k := c.Choose(4); k > 0 {
				if v := casings(t)[k-1]; v != t {
					t, fold = v, true
				}
				if k == 2 {
					t, fold = strings.ToUpper(t), true
				}
			}
		}
		return t
	})
	return
}

// same compares two results in everything but the source text and time stamps.
func same(a, b Outcome, fold bool) string {
	if a.Panic != "" || b.Panic != "" {
		if a.Panic != b.Panic {
			return "panic: " + a.Panic + b.Panic
		}
		return ""
	}
	if (a.Err == nil) != (b.Err == nil) {
		if a.Err != nil {
			return "rejected / accepted: " + firstLine(a.Err.Error())
		}
		return "accepted / rejected: " + firstLine(b.Err.Error())
	}
	if a.Err != nil {
		return ""
	}
	return DiffQueries(a.Q, b.Q, fold)
}

// DiffQueries compares two query graphs with their back references, ignoring source and time stamps.
func DiffQueries(a, b *types.SoqlQuery, fold bool) string {
	d := &differ{fold: fold, seen: map[[2]uintptr]bool{}, l: map[uintptr]uintptr{}}
	return d.diff("query", reflect.ValueOf(a), reflect.ValueOf(b))
}

type differ struct {
	fold bool
	src  bool // compare the source text, too
	seen map[[2]uintptr]bool
	l    map[uintptr]uintptr
}

var metaType = reflect.TypeOf(types.SoqlQueryMeta{})

func (d *differ) diff(at string, a, b reflect.Value) string {
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%s: %v and %v", at, a, b)
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: types %s and %s", at, a.Type(), b.Type())
	}
	if a.Type() == timeType {
		if !a.Interface().(time.Time).Equal(b.Interface().(time.Time)) {
			return fmt.Sprintf("%s: %v and %v", at, a, b)
		}
		return ""
	}
	switch a.Kind() {
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: one is nil", at)
			}
			return ""
		}
		// the same shape of references
		p, q := a.Pointer(), b.Pointer()
		if r, ok := d.l[p]; ok && r != q {
			return fmt.Sprintf("%s: refers to another place", at)
		}
		d.l[p] = q
		if d.seen[[2]uintptr{p, q}] {
			return ""
		}
		d.seen[[2]uintptr{p, q}] = true
		return d.diff(at, a.Elem(), b.Elem())
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: one is nil", at)
			}
			return ""
		}
		return d.diff(at, a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d elements", at, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if m := d.diff(fmt.Sprintf("%s[%d]", at, i), a.Index(i), b.Index(i)); m != "" {
				return m
			}
		}
	case reflect.Map:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d and %d entries", at, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			x := b.MapIndex(k)
			if !x.IsValid() {
				return fmt.Sprintf("%s: no entry %v", at, k)
			}
			if m := d.diff(fmt.Sprintf("%s[%v]", at, k), a.MapIndex(k), x); m != "" {
				return m
			}
		}
	case reflect.Struct:
		t := a.Type()
		for i := 0; i < t.NumField(); i++ {
			n := t.Field(i).Name
			if t == metaType && (n == "Date" || n == "ElapsedTime" || n == "Source" && !d.src) {
				continue
			}
			if m := d.diff(at+"."+n, a.Field(i), b.Field(i)); m != "" {
				return m
			}
		}
	case reflect.String:
		x, y := a.String(), b.String()
		if x != y && !(d.fold && strings.EqualFold(x, y)) {
			return fmt.Sprintf("%s: %q and %q", at, x, y)
		}
	case reflect.Float64:
		return diff(at, a, b, false)
	default:
		if a.Interface() != b.Interface() {
			return fmt.Sprintf("%s: %v and %v", at, a, b)
		}
	}
	return ""
}

func init() {
	base := make([]Outcome, len(seeds))
	layout := func(from, to int) func(c *explore.Ctl) (string, func() (string, int)) {
		return func(c *explore.Ctl) (string, func() (string, int)) {
			k := from + c.Pick(to-from)
			s := &seeds[k]
			text, fold := s.variant(c)
			return text, func() (string, int) {
				o := Parse(text)
				b := base[k]
				if b.Q == nil && b.Err == nil {
					b = Parse(s.text)
				}
				r := resAccept
				if o.Err != nil {
					r = resReject
				}
				if m := same(b, o, fold); m != "" {
					return fmt.Sprintf("another layout or letter case of %q changes the result: %s", s.text, m), r
				}
				return "", r
			}
		}
	}
	_ = base
	for k := range seeds {
		spaces = append(spaces, Space{Name: fmt.Sprintf("layout%d", k), Run: layout(k, k+1), Quick: 1, Thorough: 2, Props: "P15"})
	}

	// ---- token edits of the seeds
	vocab := split("select from where and or not in like group by having order limit offset for view update , ( ) . : = != 1 -1 1.5 'x' \"q\" name count null TODAY fields asc nulls")
	edit := func(k int) func(c *explore.Ctl) string {
		s := &seeds[k]
		return func(c *explore.Ctl) string {
			var out []string
			for i := 0; i <= len(s.toks); i++ {
				if e := c.Choose(len(vocab) + 1); e > 0 {
					out = append(out, vocab[e-1])
				}
				if i == len(s.toks) {
					break
				}
				switch e := c.Choose(len(vocab) + 5); e {
				case 0:
					out = append(out, s.toks[i])
				case 1: // deleted
				case 2: // doubled
					out = append(out, s.toks[i], s.toks[i])
				case 3: // swapped with the next
					if i+1 < len(s.toks) {
						out = append(out, s.toks[i+1], s.toks[i])
						i++
					}
				case 4: // end
					return strings.Join(out, " ")
				default:
					out = append(out, vocab[e-5])
				}
			}
			return strings.Join(out, " ")
		}
	}
	for k := range seeds[:9] {
		spaces = append(spaces, Space{Name: fmt.Sprintf("edit%d", k), Gen: edit(k), Quick: 1, Thorough: 2, Props: "P17 P18"})
	}
	// short queries, two edits
	for i, t := range []string{"select id from contact c where x = 1 order by id", "select name , count ( ) from contact group by name limit 1", "select ( select id from cs ) from c for view"} {
		seeds = append(seeds, seed{toks: split(t)})
		spaces = append(spaces, Space{Name: fmt.Sprintf("edit-short%d", i), Gen: edit(len(seeds) - 1), Quick: 1, Thorough: 2, Props: "P17 P18"})
	}
	seeds = seeds[:len(seedTexts)]

	// ---- token sequences in every place of a query
	places := []struct{ pre, post string }{
		{"select id from contact ", ""}, {"select ", " from contact"}, {"select id from ", ""}, {"select id from contact where ", ""}, {"select id from contact where x = 1 ", ""},
		{"select id from contact group by ", ""}, {"select count ( ) from contact group by id ", ""}, {"select id from contact order by ", ""}, {"select id from contact order by id ", ""},
		{"select id from contact limit ", ""}, {"select id from contact for ", ""}, {"", ""}, {"select id from contact where x in ( ", " )"}, {"select f ( ", " ) from contact"}, {"select ( select id from ", " ) from contact"}, {"select id from contact c ", " where x = 1"},
	}
	toks := split("select from where and or not in like group by having order limit offset for view reference update tracking , ( ) . : = < 1 'x' \"q\" id count null TODAY LAST_N_DAYS asc desc nulls first")
	seq := func(min, max int) func(c *explore.Ctl) string {
		return func(c *explore.Ctl) string {
			p := places[c.Pick(len(places))]
			return sequence(p.pre, p.post, " ", toks, min, max)(c)
		}
	}
	spaces = append(spaces, Space{Name: "tokens", Gen: tiered(seq(0, 2), seq(3, 3)), Quick: 0, Thorough: 1, Props: "P17 P18"})
	some := split("and or not x = 1 ( ) ,")
	seq2 := func(min, max int) func(c *explore.Ctl) string {
		p := []struct{ pre, post string }{{"select id from contact where ", ""}, {"select id from contact where x = 1 ", ""}}
		return func(c *explore.Ctl) string {
			p := p[c.Pick(2)]
			return sequence(p.pre, p.post, " ", some, min, max)(c)
		}
	}
	spaces = append(spaces, Space{Name: "tokens-cond", Gen: tiered(seq2(0, 4), seq2(5, 6)), Quick: 0, Thorough: 1, Props: "P17 P18"})

	// ---- no layout between words, reserved words as names and aliases
	add := func(name, props string, quick, thorough int, t string) {
		spaces = append(spaces, Space{Name: name, Gen: tmpl(t), Quick: quick, Thorough: thorough, Props: props})
	}
	rw := "[select|from|where|having|offset|limit|order|order by|group|group by|by|for|for view|for update|forview|for viewx|asc|nulls|and|or|not|like|in|includes|null|true|today|last_n_days|infinity|fields|count|fromage|selected|limit1|orders|x1|$x|_x|\"from\"|1x|é|x-y]"
	add("reserved-item", "P17 P18 P08", 9, 9, "select [id |x.|fn(1) |fields(all) |fn(|(select id from cases) |id, |]"+rw+"[|.y|, z|)|(1)|(1) k] from contact c")
	add("reserved-object", "P17 P18 P07", 9, 9, "select id from [|contact |contact c, |contact c, c.|contact c, account |x.]"+rw+"[|.y| z|, d| where x = 1]")
	add("reserved-clause", "P17 P18", 9, 9, "select count(id) from contact [where x = 1 and |where |where x = |where not |group by |group by id having |group by id |order by |order by id |limit |limit 1 |offset |for |where x in (|where x = 1 |where x in (1) |where f(x) = ]"+rw+"[| = 1|)|, y| 1| desc]")
	add("glue", "P17 P15", 3, 4, "select{ ||/**/}id{ ||\n}from{ |}contact{ |}c{ |}where{ |}{x|'x'|(x}{ |}{=|like|in|!=|not in|< =|! =|NOT  LIKE|not like|notlike|includes}{ |}{1|'y'|y|('a')|:p|:  p|(1)}{| )}{ |}{and|or|and not|AND(|)and(|}{ |}y{ |}={ |}{2|'z'|null|z|(2)}{ |}order{ |}by{ |}{id|\"i\"}{ |}{desc|}{ |}{nulls|nullslast}{ |}{last|}{ |}limit{ |}{1|:l|}{ |}{offset|}{ |}{for|}{ |}{view|}")

	// ---- character edits, truncations and strange bytes
	chars := []string{"", "'", "\"", "(", ")", ",", ".", ":", "\\", "*", "/*", "--", "\x00", "\x80", "\xff\xfe", "é", "\U0001F600", "\u00a0", "\n", "\r", "\t", " ", "1", "-", "_", "%", "=", "!", "&", "\ufeff", "\u2028"}
	for k := range seeds[:9] {
		text := seeds[k].text
		spaces = append(spaces, Space{Name: fmt.Sprintf("chars%d", k), Quick: 1, Thorough: 1, Props: "P18 P17", Gen: func(c *explore.Ctl) string {
			var b strings.Builder
			for i := 0; i < len(text); i++ {
				// 0: kept, then inserted before, then replaced by, then cut off
				switch e := c.Choose(2*len(chars) + 1); {
				case e == 0:
					b.WriteByte(text[i])
				case e == 2*len(chars):
					return b.String()
				case e < len(chars):
					b.WriteString(chars[e])
					b.WriteByte(text[i])
				default:
					b.WriteString(chars[e-len(chars)])
				}
			}
			return b.String()
		}})
	}
	nasty := []string{"s", "select", " ", "(", ")", "'", "\"", "\\", "\n", "\r", "\x00", "\xff", "é", "/*", "*/", "--", "0", ".", ":", "id from c"}
	spaces = append(spaces,
		Space{Name: "bytes-start", Quick: 0, Thorough: 1, Props: "P18 P17", Gen: tiered(sequence("", "", "", nasty, 0, 3), sequence("", "", "", nasty, 4, 4))},
		Space{Name: "bytes-select", Quick: 0, Thorough: 1, Props: "P18", Gen: tiered(sequence("select ", "", "", nasty, 0, 3), sequence("select ", "", "", nasty, 4, 4))},
		Space{Name: "bytes-where", Quick: 0, Thorough: 1, Props: "P18", Gen: tiered(sequence("select id\r\nfrom c\nwhere x = ", "", "", nasty, 0, 3), sequence("select id\nfrom c\rwhere x = ", "", "", nasty, 4, 4))},
		Space{Name: "runes", Quick: 9, Thorough: 9, Props: "P18 P17", Gen: func(c *explore.Ctl) string {
			var ch string
			switch c.Pick(3) {
			case 0:
				ch = string([]byte{byte(c.Pick(256))})
			case 1:
				ch = string(rune(0x80 + c.Pick(0x180)))
			default:
				r := []rune{0x3000, 0x2003, 0x200b, 0xfeff, 0x2028, 0x2029, 0x212a, 0x17f, 0x130, 0x131, 0xff21, 0x10ffff, 0xfffd}
				ch = string(r[c.Pick(len(r))])
			}
			p := []string{"select id from contact", "select~id from contact", "select id~from contact", "select id from contact~", "~select id from contact", "select i~d from contact", "select id from contact where x = ~1", "select id from contact where x = '~'", "select id from contact where x =~1", "select id from con~tact", "select id from contact where ~x = 1", "select \"~\" from contact", "select id from contact limit 1~", "select id from contact limit ~1", "sele~ct id from contact", "select id /*~*/ from contact --~\n", "s~elect id from contact", "select id from contact li~mit 1", "select id from contact where x ~li~ke 'a'"}
			return strings.ReplaceAll(p[c.Pick(len(p))], "~", ch)
		}},
	)
	// every prefix and every suffix of the seeds, with other line breaks
	spaces = append(spaces, Space{Name: "cut", Quick: 9, Thorough: 9, Props: "P18 P17", Gen: func(c *explore.Ctl) string {
		s := seeds[c.Pick(len(seeds))].text
		nl := []string{" ", "\n", "\r\n", "\r"}[c.Pick(4)]
		k := c.Pick(len(s) + 1)
		if c.Pick(2) == 0 {
			s = s[:k]
		} else {
			s = s[k:]
		}
		return strings.ReplaceAll(s, " ", nl)
	}})
	_ = utf8.RuneError
}
