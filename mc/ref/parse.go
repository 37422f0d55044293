// Package ref is the reference model of the query language: an own parser, name resolution and rules,
// written independently of the implementation and without any use of it.
package ref

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"
)

type Kind int

const (
	KField Kind = iota + 1
	KFieldSet
	KFunc
	KSub
	KNull
	KInt
	KFloat
	KBool
	KStr
	KDate
	KDateTime
	KTime
	KList
	KParam
	KDateLit
)

// Operand is a selected item, a function parameter, an operand of a comparison or a list item.
type Operand struct {
	Kind   Kind
	Raw    []string // the name as written: field path, function name, parameter or date literal name
	Name   []string // the resolved name
	Alias  string
	Params []*Operand
	I      int64
	F      float64
	B      bool
	S      string
	T      time.Time
	N      int
	List   []*Operand
	Sub    *Query
	Agg    bool
}

type CondOp int

const (
	CCmp CondOp = iota
	CAnd
	COr
	CNot
)

type Cond struct {
	Op   CondOp
	L, R *Cond // And, Or; Not has L only
	// comparison
	Left, Right *Operand
	Cmp         string // "=", "!=", "<", "<=", ">", ">=", "like", "not like", "in", "not in", "includes", "excludes"
	Index       int    // number of the comparison in the clause, in written order
}

type Obj struct {
	Raw      []string
	Name     []string
	Alias    string
	Implicit bool
}

type Key struct {
	Raw       []string
	Field     *Operand // resolved
	Desc      bool
	NullsLast bool
}

type Paging struct {
	Offset, Limit           int64
	OffsetParam, LimitParam string
}

type For struct{ View, Reference, Update, Tracking, Viewstat bool }

type Query struct {
	Items    []*Operand
	Declared []*Obj
	Where    *Cond
	Having   *Cond
	GroupBy  []*Key
	OrderBy  []*Key
	Paging   Paging
	For      For

	// set by the model
	Encl       *Query // enclosing query
	InSelect   bool
	InCond     bool
	Depth      int
	Agg        bool
	From       []*Obj // primary first
	Helpers    map[string]bool
	Correlated bool
	Subs       []*Query // select-list subqueries, then subqueries in WHERE, then in HAVING
	scope      map[string][]string
	WhereCmps  []*Cond
	HavingCmps []*Cond
}

type syntaxErr struct {
	pos int
	msg string
}

type parser struct {
	s   string
	far int
}

func (p *parser) fail(pos int, msg string) { panic(syntaxErr{pos, msg}) }

// ParseSyntax parses a text; ok is false if the text is not in the language.
func ParseSyntax(s string) (q *Query, ok bool) {
	p := &parser{s: s}
	defer func() {
		if r := recover(); r != nil {
			if _, isSyntax := r.(syntaxErr); !isSyntax {
				panic(r)
			}
			q, ok = nil, false
		}
	}()
	i := p.sp0(0)
	q, i, ok = p.query(i, false)
	if !ok {
		return nil, false
	}
	i = p.sp0(i)
	if i != len(s) {
		return nil, false
	}
	return q, true
}

func isWordByte(b byte) bool {
	return 'A' <= b && b <= 'Z' || 'a' <= b && b <= 'z' || '0' <= b && b <= '9' || b == '_' || b == '$'
}

func (p *parser) wordAt(i int) bool { return i >= 0 && i < len(p.s) && isWordByte(p.s[i]) }

// boundary reports whether a word starts or ends at i.
func (p *parser) boundary(i int) bool {
	return p.wordAt(i-1) != p.wordAt(i)
}

func (p *parser) space(i int) int {
	if i >= len(p.s) {
		return -1
	}
	switch c := p.s[i]; {
	case c == ' ' || '\t' <= c && c <= '\r':
		return i + 1
	case strings.HasPrefix(p.s[i:], "\u0085") || strings.HasPrefix(p.s[i:], "\u00a0"):
		return i + 2
	case strings.HasPrefix(p.s[i:], "--"):
		for i += 2; i < len(p.s); i++ {
			if strings.HasPrefix(p.s[i:], "\r\n") {
				return i + 2
			}
			if p.s[i] == '\r' || p.s[i] == '\n' {
				return i + 1
			}
		}
		return i
	case strings.HasPrefix(p.s[i:], "/*"):
		if j := strings.Index(p.s[i+2:], "*/"); j >= 0 {
			return i + 2 + j + 2
		}
	}
	return -1
}

func (p *parser) sp0(i int) int {
	for {
		j := p.space(i)
		if j < 0 {
			return i
		}
		i = j
	}
}

func (p *parser) sp1(i int) (int, bool) {
	j := p.space(i)
	if j < 0 {
		return i, false
	}
	return p.sp0(j), true
}

func (p *parser) is(i int, s string) bool { return strings.HasPrefix(p.s[i:], s) }

// word matches a keyword in any letter case, without a check of its end.
func (p *parser) word(i int, w string) (int, bool) {
	if i+len(w) > len(p.s) {
		return i, false
	}
	for k := 0; k < len(w); k++ {
		c := p.s[i+k]
		if 'A' <= c && c <= 'Z' {
			c += 'a' - 'A'
		}
		d := w[k]
		if 'A' <= d && d <= 'Z' {
			d += 'a' - 'A'
		}
		if c != d {
			return i, false
		}
	}
	return i + len(w), true
}

// keyword is word with a boundary behind it.
func (p *parser) keyword(i int, w string) (int, bool) {
	j, ok := p.word(i, w)
	if !ok || !p.boundary(j) {
		return i, false
	}
	return j, true
}

func (p *parser) reserved(i int) bool {
	for _, w := range []string{"select", "from", "where", "having", "offset", "limit"} {
		if _, ok := p.keyword(i, w); ok {
			return true
		}
	}
	for _, w := range []string{"order", "group"} {
		if j, ok := p.word(i, w); ok {
			if j, ok = p.sp1(j); ok {
				if _, ok = p.keyword(j, "by"); ok {
					return true
				}
			}
		}
	}
	if j, ok := p.word(i, "for"); ok {
		if j, ok = p.sp1(j); ok {
			for _, w := range []string{"view", "reference", "update"} {
				if _, ok := p.keyword(j, w); ok {
					return true
				}
			}
		}
	}
	return false
}

func (p *parser) symbol(i int) (string, int, bool) {
	if !p.wordAt(i) || '0' <= p.s[i] && p.s[i] <= '9' {
		return "", i, false
	}
	j := i
	for p.wordAt(j) {
		j++
	}
	return p.s[i:j], j, true
}

func (p *parser) name1(i int) (string, int, bool) {
	if s, j, ok := p.symbol(i); ok {
		return s, j, true
	}
	return p.quoted(i, '"', false)
}

// path matches name1 { "." name1 } with layout around the dots and behind the last name.
func (p *parser) path(i int) ([]string, int, bool) {
	s, j, ok := p.name1(i)
	if !ok {
		return nil, i, false
	}
	r := []string{s}
	j = p.sp0(j)
	for p.is(j, ".") {
		s, k, ok := p.name1(p.sp0(j + 1))
		if !ok {
			break
		}
		r = append(r, s)
		j = p.sp0(k)
	}
	return r, j, true
}

func isHex(c byte) bool {
	return '0' <= c && c <= '9' || 'a' <= c && c <= 'f' || 'A' <= c && c <= 'F'
}

func (p *parser) run(i, max int, f func(byte) bool) int {
	j := i
	for j < len(p.s) && j-i < max && f(p.s[j]) {
		j++
	}
	return j
}

// quoted matches a quoted string. Unknown escapes make it no match; an end of text or (if not multiline)
// a line break is an error.
func (p *parser) quoted(i int, q byte, multiline bool) (string, int, bool) {
	if i >= len(p.s) || p.s[i] != q {
		return "", i, false
	}
	var b strings.Builder
	for j := i + 1; ; {
		if j >= len(p.s) {
			p.fail(j, "unterminated string")
		}
		c := p.s[j]
		switch {
		case c == q:
			return b.String(), j + 1, true
		case !multiline && (c == '\r' || c == '\n'):
			p.fail(j, "line break in a quoted name")
		case c != '\\':
			r, n := utf8.DecodeRuneInString(p.s[j:])
			b.WriteRune(r)
			j += n
		default:
			j++
			if j >= len(p.s) {
				return "", i, false
			}
			c = p.s[j]
			switch c {
			case '\\', '\'', '"', '`':
				b.WriteByte(c)
				j++
			case 'n', 'N':
				b.WriteByte('\n')
				j++
			case 'r', 'R':
				b.WriteByte('\r')
				j++
			case 'v', 'V':
				b.WriteByte('\v')
				j++
			case 't', 'T':
				b.WriteByte('\t')
				j++
			case 'b', 'B':
				b.WriteByte('\b')
				j++
			case 'f', 'F':
				b.WriteByte('\f')
				j++
			case '_', '%':
				b.WriteByte('\\')
				b.WriteByte(c)
				j++
			default:
				from, to, base := 0, 0, 16
				pair := rune(-1)
				if c == 'u' && p.run(j+1, 4, isHex) == j+5 && p.is(j+5, "\\u") && p.run(j+7, 4, isHex) == j+11 {
					hi, _ := strconv.ParseInt(p.s[j+1:j+5], 16, 32)
					lo, _ := strconv.ParseInt(p.s[j+7:j+11], 16, 32)
					if hi>>10 == 0x36 && lo>>10 == 0x37 {
						pair = 0x10000 + rune(hi&0x3ff)<<10 + rune(lo&0x3ff)
					}
				}
				switch {
				case pair >= 0:
					b.WriteRune(pair)
					j += 11
					continue
				case c == 'u' && p.run(j+1, 4, isHex) == j+5:
					from, to = j+1, j+5
					j += 5
				case c == 'u' && p.is(j+1, "{"):
					k := p.run(j+2, 6, isHex)
					if k == j+2 || !p.is(k, "}") {
						return "", i, false
					}
					from, to = j+2, k
					j = k + 1
				case c == 'x' && p.run(j+1, 2, isHex) == j+3:
					from, to = j+1, j+3
					j += 3
				case p.run(j, 3, func(c byte) bool { return '0' <= c && c <= '7' }) == j+3:
					from, to, base = j, j+3, 8
					j += 3
				default:
					return "", i, false
				}
				n, _ := strconv.ParseInt(p.s[from:to], base, 32)
				if n > utf8.MaxRune || 0xd800 <= n && n < 0xe000 {
					p.fail(j, "not a character")
				}
				b.WriteRune(rune(n))
			}
		}
	}
}

// ---- literals

func isDigit(c byte) bool { return '0' <= c && c <= '9' }

func (p *parser) pattern(i int, pat string) (int, bool) {
	// d: digit, 1: 0-1, 2: 0-2, 3: 0-3, 5: 0-5, 6: 0-6, others: themselves
	for k := 0; k < len(pat); k++ {
		if i >= len(p.s) {
			return i, false
		}
		c, max := p.s[i], byte(0)
		switch pat[k] {
		case 'd':
			max = '9'
		case '1', '2', '3', '5', '6':
			max = pat[k]
		default:
			if c != pat[k] {
				return i, false
			}
			i++
			continue
		}
		if c < '0' || c > max {
			return i, false
		}
		i++
	}
	return i, true
}

func (p *parser) dateText(i int) (int, bool) {
	if p.is(i, "-") {
		i++
	}
	j := p.run(i, 1<<30, isDigit)
	if j-i < 4 {
		return i, false
	}
	return p.pattern(j, "-1d-3d")
}

// clock matches hh:mm[:ss[.f{1,9}]].
func (p *parser) clock(i int) (int, bool) {
	j, ok := p.pattern(i, "2d:5d")
	if !ok {
		return i, false
	}
	if k, ok := p.pattern(j, ":6d"); ok {
		j = k
		if p.is(j, ".") {
			if k := p.run(j+1, 9, isDigit); k > j+1 {
				j = k
			}
		}
	}
	return j, true
}

func daysIn(y, m int) int {
	switch m {
	case 2:
		if y%4 == 0 && (y%100 != 0 || y%400 == 0) {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

// date evaluates yyyy-mm-dd.
func (p *parser) date(i, j int) (y, m, d int) {
	t := p.s[i:j]
	if len(t) != 10 {
		p.fail(i, "year out of range")
	}
	y, m, d = atoi(t[:4]), atoi(t[5:7]), atoi(t[8:10])
	if m < 1 || m > 12 || d < 1 || d > daysIn(y, m) {
		p.fail(i, "no such day")
	}
	return
}

func (p *parser) clockValue(i, j int) (h, m, s, ns int) {
	t := p.s[i:j]
	h, m = atoi(t[:2]), atoi(t[3:5])
	if len(t) > 5 {
		s = atoi(t[6:8])
	}
	if len(t) > 9 {
		ns = atoi((t[9:] + "000000000")[:9])
	}
	if h > 23 || s > 59 {
		p.fail(i, "no such time")
	}
	return
}

func (p *parser) dateTime(i int) (*Operand, int, bool) {
	j, ok := p.dateText(i)
	if !ok || !p.is(j, "T") {
		return nil, i, false
	}
	k, ok := p.clock(j + 1)
	if !ok {
		return nil, i, false
	}
	e, off := 0, 0
	if p.is(k, "Z") {
		e = k + 1
	} else if p.is(k, "+") || p.is(k, "-") {
		if e, ok = p.pattern(k+1, "dd:5d"); !ok {
			return nil, i, false
		}
		off = atoi(p.s[k+1:k+3])*3600 + atoi(p.s[k+4:k+6])*60
		if p.s[k] == '-' {
			off = -off
		}
	} else {
		return nil, i, false
	}
	if !p.boundary(e) {
		return nil, i, false
	}
	y, mo, d := p.date(i, j)
	h, m, s, ns := p.clockValue(j+1, k)
	if off > 24*3600+59*60 || off < -(24*3600+59*60) {
		p.fail(i, "no such offset")
	}
	t := time.Date(y, time.Month(mo), d, h, m, s, ns, time.UTC).Add(-time.Duration(off) * time.Second)
	if t.Year() < 0 || t.Year() > 9999 {
		p.fail(i, "year out of range")
	}
	return &Operand{Kind: KDateTime, T: t}, e, true
}

func (p *parser) dateOnly(i int) (*Operand, int, bool) {
	j, ok := p.dateText(i)
	if !ok || !p.boundary(j) {
		return nil, i, false
	}
	y, m, d := p.date(i, j)
	return &Operand{Kind: KDate, T: time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)}, j, true
}

func (p *parser) timeOnly(i int) (*Operand, int, bool) {
	j, ok := p.clock(i)
	if !ok || !p.boundary(j) {
		return nil, i, false
	}
	h, m, s, ns := p.clockValue(i, j)
	return &Operand{Kind: KTime, T: time.Date(1970, 1, 1, h, m, s, ns, time.UTC)}, j, true
}

func digitOr_(c byte) bool { return isDigit(c) || c == '_' }

// intPart matches 0 or a number without leading zeros; digit separators are allowed behind the first digit.
func (p *parser) intPart(i int) (int, bool) {
	if i >= len(p.s) || !isDigit(p.s[i]) {
		return i, false
	}
	if p.s[i] == '0' {
		return p.run(i+1, 1<<30, func(c byte) bool { return c == '_' }), true
	}
	return p.run(i, 1<<30, digitOr_), true
}

func (p *parser) sign(i int) int {
	if p.is(i, "+") || p.is(i, "-") {
		return i + 1
	}
	return i
}

func (p *parser) exponent(i int) (int, bool) {
	if !p.is(i, "e") && !p.is(i, "E") {
		return i, false
	}
	j := p.sign(i + 1)
	if j >= len(p.s) || !isDigit(p.s[j]) {
		return i, false
	}
	return p.run(j, 1<<30, digitOr_), true
}

func (p *parser) floatText(i int) (int, bool) {
	j := p.sign(i)
	if k, ok := p.intPart(j); ok {
		if p.is(k, ".") {
			k = p.run(k+1, 1<<30, digitOr_)
			if e, ok := p.exponent(k); ok {
				k = e
			}
			return k, true
		}
		return p.exponent(k)
	}
	if p.is(j, ".") {
		k := p.run(j+1, 1<<30, digitOr_)
		if k == j+1 {
			return i, false
		}
		if e, ok := p.exponent(k); ok {
			k = e
		}
		return k, true
	}
	return i, false
}

func plain(s string) string { return strings.ReplaceAll(s, "_", "") }

func (p *parser) intValue(i, j, base int) int64 {
	n, err := strconv.ParseInt(plain(p.s[i:j]), base, 64)
	if err != nil {
		p.fail(i, "integer out of range")
	}
	return n
}

func (p *parser) integer(i int) (int64, int, bool) {
	j, ok := p.intPart(p.sign(i))
	if !ok {
		return 0, i, false
	}
	n := p.intValue(i, j, 10)
	if !p.boundary(j) {
		return 0, i, false
	}
	return n, j, true
}

func (p *parser) number(i int) (*Operand, int, bool) {
	for _, r := range []struct {
		prefix string
		base   int
		digit  func(byte) bool
	}{
		{"0b", 2, func(c byte) bool { return c == '0' || c == '1' }},
		{"0o", 8, func(c byte) bool { return '0' <= c && c <= '7' }},
		{"0x", 16, isHex},
	} {
		j, ok := p.word(i, r.prefix)
		if !ok || j >= len(p.s) || !r.digit(p.s[j]) {
			continue
		}
		k := p.run(j, 1<<30, func(c byte) bool { return r.digit(c) || c == '_' })
		n := p.intValue(j, k, r.base)
		if !p.boundary(k) {
			return nil, i, false
		}
		return &Operand{Kind: KInt, I: n}, k, true
	}
	if j, ok := p.floatText(i); ok {
		f, err := strconv.ParseFloat(plain(p.s[i:j]), 64)
		if err != nil {
			p.fail(i, "number out of range")
		}
		if !p.boundary(j) {
			return nil, i, false
		}
		return &Operand{Kind: KFloat, F: f}, j, true
	}
	if n, j, ok := p.integer(i); ok {
		return &Operand{Kind: KInt, I: n}, j, true
	}
	for _, w := range []struct {
		text string
		v    float64
	}{{"infinity", math.Inf(1)}, {"+infinity", math.Inf(1)}, {"-infinity", math.Inf(-1)}, {"nan", math.NaN()}} {
		if j, ok := p.keyword(i, w.text); ok {
			return &Operand{Kind: KFloat, F: w.v}, j, true
		}
	}
	return nil, i, false
}

var dateLits, dateLitsN = func() (a, b []string) {
	for _, u := range []string{"WEEK", "MONTH", "QUARTER", "YEAR", "FISCAL_QUARTER", "FISCAL_YEAR"} {
		for _, d := range []string{"LAST_", "THIS_", "NEXT_"} {
			a = append(a, d+u)
		}
	}
	for _, u := range []string{"DAYS", "WEEKS", "MONTHS", "QUARTERS", "YEARS", "FISCAL_QUARTERS", "FISCAL_YEARS"} {
		for _, d := range []string{"LAST_N_", "NEXT_N_"} {
			b = append(b, d+u)
		}
	}
	a = append(a, "YESTERDAY", "TODAY", "TOMORROW", "LAST_90_DAYS", "NEXT_90_DAYS")
	return
}()

// DateLiteralNames returns the names without and with a count.
func DateLiteralNames() ([]string, []string) { return dateLits, dateLitsN }

func (p *parser) literal(i int) (*Operand, int, bool) {
	o, j, ok := p.literal0(i)
	if !ok {
		return nil, i, false
	}
	return o, p.sp0(j), true
}

func (p *parser) literal0(i int) (*Operand, int, bool) {
	if i >= len(p.s) {
		return nil, i, false
	}
	for _, f := range []func(int) (*Operand, int, bool){p.dateTime, p.dateOnly, p.timeOnly, p.number} {
		if o, j, ok := f(i); ok {
			return o, j, true
		}
	}
	if s, j, ok := p.quoted(i, '\'', true); ok {
		return &Operand{Kind: KStr, S: s}, j, true
	}
	if j, ok := p.keyword(i, "true"); ok {
		return &Operand{Kind: KBool, B: true}, j, true
	}
	if j, ok := p.keyword(i, "false"); ok {
		return &Operand{Kind: KBool}, j, true
	}
	if j, ok := p.keyword(i, "null"); ok {
		return &Operand{Kind: KNull}, j, true
	}
	if p.is(i, ":") {
		if s, j, ok := p.symbol(p.sp0(i + 1)); ok {
			return &Operand{Kind: KParam, Raw: []string{s}}, j, true
		}
		return nil, i, false
	}
	if w, j, ok := p.symbol(i); ok {
		u := strings.ToUpper(w)
		for _, n := range dateLitsN {
			if n == u && p.is(j, ":") && !p.is(j+1, "-") {
				if c, k, ok := p.integer(j + 1); ok {
					return &Operand{Kind: KDateLit, Raw: []string{n}, N: int(c)}, k, true
				}
			}
		}
		for _, n := range dateLits {
			if n == u {
				return &Operand{Kind: KDateLit, Raw: []string{n}}, j, true
			}
		}
	}
	return nil, i, false
}

func (p *parser) list(i int) (*Operand, int, bool) {
	if !p.is(i, "(") {
		return nil, i, false
	}
	r := &Operand{Kind: KList}
	j := i + 1
	for {
		o, k, ok := p.literal(p.sp0(j))
		if !ok {
			return nil, i, false
		}
		r.List = append(r.List, o)
		if p.is(k, ",") {
			j = k + 1
			continue
		}
		if p.is(k, ")") {
			return r, p.sp0(k + 1), true
		}
		return nil, i, false
	}
}

// ---- operands

func (p *parser) param(i int) (*Operand, int, bool) {
	if o, j, ok := p.function(i); ok {
		return o, j, true
	}
	if o, j, ok := p.literal(i); ok {
		return o, j, true
	}
	if n, j, ok := p.path(i); ok {
		return &Operand{Kind: KField, Raw: n}, j, true
	}
	return nil, i, false
}

func (p *parser) function(i int) (*Operand, int, bool) {
	n, j, ok := p.symbol(i)
	if !ok {
		return nil, i, false
	}
	j = p.sp0(j)
	if !p.is(j, "(") {
		return nil, i, false
	}
	f := &Operand{Kind: KFunc, Raw: []string{n}}
	j = p.sp0(j + 1)
	if o, k, ok := p.param(j); ok {
		f.Params = append(f.Params, o)
		j = p.sp0(k)
		for p.is(j, ",") {
			o, k, ok := p.param(p.sp0(j + 1))
			if !ok {
				break
			}
			f.Params = append(f.Params, o)
			j = p.sp0(k)
		}
	}
	if !p.is(j, ")") {
		p.fail(j, "')' is expected")
	}
	return f, p.sp0(j + 1), true
}

func (p *parser) subquery(i int) (*Operand, int, bool) {
	if !p.is(i, "(") {
		return nil, i, false
	}
	q, j, ok := p.query(p.sp0(i+1), true)
	if !ok {
		return nil, i, false
	}
	j = p.sp0(j)
	if !p.is(j, ")") {
		return nil, i, false
	}
	return &Operand{Kind: KSub, Sub: q}, p.sp0(j + 1), true
}

// ---- conditions

var cmpOps = []string{"!=", "<=", ">=", "=", "<", ">"}

func (p *parser) cmpOp(i int) (string, int, bool) {
	for _, o := range cmpOps {
		if p.is(i, o) {
			return o, i + len(o), true
		}
	}
	if j, ok := p.word(i, "not"); ok {
		if j, ok = p.sp1(j); ok {
			for _, o := range []string{"like", "in"} {
				if k, ok := p.keyword(j, o); ok {
					return "not " + o, k, true
				}
			}
		}
	}
	for _, o := range []string{"like", "in", "includes", "excludes"} {
		if j, ok := p.keyword(i, o); ok {
			return o, j, true
		}
	}
	return "", i, false
}

func (p *parser) comparison(i int, having bool) (*Cond, int) {
	if p.reserved(i) {
		p.fail(i, "reserved word")
	}
	l, j, ok := p.function(i)
	if !ok && !having {
		var n []string
		if n, j, ok = p.path(i); ok {
			l = &Operand{Kind: KField, Raw: n}
		}
	}
	if !ok {
		p.fail(i, "operand expected")
	}
	op, j, ok := p.cmpOp(j)
	if !ok {
		p.fail(j, "operator expected")
	}
	j = p.sp0(j)
	r, k, ok := p.literal(j)
	if !ok {
		r, k, ok = p.subquery(j)
	}
	if !ok {
		r, k, ok = p.function(j)
	}
	if !ok && !having {
		var n []string
		if n, k, ok = p.path(j); ok {
			r = &Operand{Kind: KField, Raw: n}
		}
	}
	if !ok {
		r, k, ok = p.list(j)
	}
	if !ok {
		p.fail(j, "operand expected")
	}
	return &Cond{Op: CCmp, Left: l, Right: r, Cmp: op}, k
}

func (p *parser) condUnary(i int, having bool) (*Cond, int) {
	not := false
	if j, ok := p.keyword(i, "not"); ok {
		not = true
		i = p.sp0(j)
	}
	var c *Cond
	if p.is(i, "(") {
		c, i = p.condOr(p.sp0(i+1), having)
		if !p.is(i, ")") {
			p.fail(i, "')' is expected")
		}
		i = p.sp0(i + 1)
	} else {
		c, i = p.comparison(i, having)
	}
	if not {
		c = &Cond{Op: CNot, L: c}
	}
	return c, i
}

func (p *parser) condAnd(i int, having bool) (*Cond, int) {
	c, i := p.condUnary(i, having)
	for {
		j, ok := p.keyword(i, "and")
		if !ok {
			return c, i
		}
		var d *Cond
		d, i = p.condUnary(p.sp0(j), having)
		c = &Cond{Op: CAnd, L: c, R: d}
	}
}

func (p *parser) condOr(i int, having bool) (*Cond, int) {
	c, i := p.condAnd(i, having)
	for {
		j, ok := p.keyword(i, "or")
		if !ok {
			return c, i
		}
		var d *Cond
		d, i = p.condAnd(p.sp0(j), having)
		c = &Cond{Op: COr, L: c, R: d}
	}
}

// ---- clauses

func (p *parser) aliasOpt(i int) (string, int) {
	if !p.reserved(i) {
		if s, j, ok := p.symbol(i); ok {
			return s, j
		}
	}
	return "", i
}

func (p *parser) item(i int) (*Operand, int) {
	if p.reserved(i) {
		p.fail(i, "reserved word")
	}
	o, j, ok := p.function(i)
	if !ok {
		var n []string
		if n, j, ok = p.path(i); ok {
			o = &Operand{Kind: KField, Raw: n}
		}
	}
	if !ok {
		o, j, ok = p.subquery(i)
	}
	if !ok {
		p.fail(i, "item expected")
	}
	o.Alias, j = p.aliasOpt(j)
	return o, p.sp0(j)
}

func (p *parser) object(i int) (*Obj, int) {
	if p.reserved(i) {
		p.fail(i, "reserved word")
	}
	n, j, ok := p.path(i)
	if !ok {
		p.fail(i, "object expected")
	}
	o := &Obj{Raw: n}
	if o.Alias, j = p.aliasOpt(j); o.Alias != "" {
		j = p.sp0(j)
	}
	return o, j
}

func (p *parser) pagingValue(i int) (n int64, s string, j int) {
	if n, j, ok := p.integer(i); ok {
		return n, "", p.sp0(j)
	}
	if p.is(i, ":") {
		if s, j, ok := p.symbol(p.sp0(i + 1)); ok {
			return 0, s, p.sp0(j)
		}
	}
	p.fail(i, "number expected")
	return
}

func (p *parser) query(i int, sub bool) (*Query, int, bool) {
	j, ok := p.word(i, "select")
	if !ok {
		return nil, i, false
	}
	if j, ok = p.sp1(j); !ok {
		return nil, i, false
	}
	q := &Query{}
	for {
		var o *Operand
		o, j = p.item(j)
		q.Items = append(q.Items, o)
		if !p.is(j, ",") {
			break
		}
		j = p.sp0(j + 1)
	}
	if j, ok = p.word(j, "from"); ok {
		j, ok = p.sp1(j)
	}
	if !ok {
		p.fail(j, "FROM expected")
	}
	for {
		var o *Obj
		o, j = p.object(j)
		q.Declared = append(q.Declared, o)
		if !p.is(j, ",") {
			break
		}
		j = p.sp0(j + 1)
	}
	if k, ok := p.keyword(j, "where"); ok {
		q.Where, j = p.condOr(p.sp0(k), false)
	}
	if k, ok := p.word(j, "group"); ok {
		if k, ok = p.sp1(k); ok {
			if k, ok = p.word(k, "by"); ok {
				k, ok = p.sp1(k)
			}
			if !ok {
				p.fail(k, "BY expected")
			}
			n, k, ok := p.path(k)
			if !ok {
				p.fail(k, "key expected")
			}
			q.GroupBy = append(q.GroupBy, &Key{Raw: n})
			for p.is(k, ",") {
				n, l, ok := p.path(p.sp0(k + 1))
				if !ok {
					break
				}
				q.GroupBy = append(q.GroupBy, &Key{Raw: n})
				k = l
			}
			j = k
			if k, ok := p.keyword(j, "having"); ok {
				q.Having, j = p.condOr(p.sp0(k), true)
			}
		}
	}
	if k, ok := p.keyword(j, "order"); ok {
		if k, ok = p.sp1(k); ok {
			if k, ok = p.word(k, "by"); ok {
				k, ok = p.sp1(k)
			}
		}
		if !ok {
			p.fail(k, "BY expected")
		}
		for {
			n, l, ok := p.path(k)
			if !ok {
				p.fail(k, "key expected")
			}
			key := &Key{Raw: n}
			if m, ok := p.keyword(l, "asc"); ok {
				l = p.sp0(m)
			} else if m, ok := p.keyword(l, "desc"); ok {
				key.Desc = true
				l = p.sp0(m)
			}
			if m, ok := p.word(l, "nulls"); ok {
				if m, ok = p.sp1(m); ok {
					if e, ok := p.keyword(m, "first"); ok {
						l = p.sp0(e)
					} else if e, ok := p.keyword(m, "last"); ok {
						key.NullsLast = true
						l = p.sp0(e)
					}
				}
			}
			q.OrderBy = append(q.OrderBy, key)
			k = l
			if !p.is(k, ",") {
				break
			}
			k = p.sp0(k + 1)
		}
		j = k
	}
	limit := func(i int) (int, bool) {
		if k, ok := p.word(i, "limit"); ok {
			if k, ok = p.sp1(k); ok {
				q.Paging.Limit, q.Paging.LimitParam, k = p.pagingValue(k)
				return k, true
			}
		}
		return i, false
	}
	offset := func(i int) (int, bool) {
		if k, ok := p.word(i, "offset"); ok {
			if k, ok = p.sp1(k); ok {
				q.Paging.Offset, q.Paging.OffsetParam, k = p.pagingValue(k)
				return k, true
			}
		}
		return i, false
	}
	if k, ok := offset(j); ok {
		j, _ = limit(k)
	} else if k, ok := limit(j); ok {
		j, _ = offset(k)
	}
	if k, ok := p.word(j, "for"); ok {
		if l, ok := p.forClause(k, &q.For); ok {
			j = l
		} else if p.boundary(k) {
			p.fail(j, "FOR clause")
		}
	}
	k := p.sp0(j)
	if sub && !p.is(k, ")") || !sub && k != len(p.s) {
		p.fail(k, "unexpected token")
	}
	return q, j, true
}

func (p *parser) forClause(i int, f *For) (int, bool) {
	i, ok := p.sp1(i)
	if !ok {
		return i, false
	}
	two := func(i int, a, b string, fa, fb *bool) (int, bool) {
		j, ok := p.keyword(i, a)
		if !ok {
			return i, false
		}
		*fa = true
		j = p.sp0(j)
		if p.is(j, ",") {
			if k, ok := p.keyword(p.sp0(j+1), b); ok {
				*fb = true
				j = p.sp0(k)
			}
		}
		return j, true
	}
	if j, ok := two(i, "view", "reference", &f.View, &f.Reference); ok {
		return j, true
	}
	if j, ok := two(i, "reference", "view", &f.Reference, &f.View); ok {
		return j, true
	}
	if j, ok := p.keyword(i, "update"); ok {
		f.Update = true
		j = p.sp0(j)
		if k, ok := two(j, "tracking", "viewstat", &f.Tracking, &f.Viewstat); ok {
			return k, true
		}
		if k, ok := two(j, "viewstat", "tracking", &f.Viewstat, &f.Tracking); ok {
			return k, true
		}
		return j, true
	}
	return i, false
}

func (o *Operand) String() string {
	return fmt.Sprintf("%d:%s", o.Kind, strings.Join(o.Name, "\x00"))
}
