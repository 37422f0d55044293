package chk

import (
	"strings"

	"verif/mc/explore"
	"verif/mc/gen"
	"verif/mc/ref"
)

// sequence: all strings of up to max units between pre and post; with sep between the units.
func sequence(pre, post, sep string, units []string, min, max int) func(c *explore.Ctl) string {
	return func(c *explore.Ctl) string {
		n := min + c.Pick(max-min+1)
		var b strings.Builder
		b.WriteString(pre)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(sep)
			}
			b.WriteString(units[c.Pick(len(units))])
		}
		b.WriteString(post)
		return b.String()
	}
}

func split(s string) []string { return strings.Fields(s) }

// tiered: one generator for the quick tier (deviation bound 0) and a deeper one (bound 1) on top of it.
func tiered(quick, thorough func(c *explore.Ctl) string) func(c *explore.Ctl) string {
	return func(c *explore.Ctl) string {
		if c.Choose(2) == 0 {
			return quick(c)
		}
		return thorough(c)
	}
}

func casings(w string) []string {
	alt := []byte(strings.ToLower(w))
	for i := range alt {
		if i%2 == 1 && 'a' <= alt[i] && alt[i] <= 'z' {
			alt[i] -= 32
		}
	}
	return []string{strings.ToUpper(w), strings.ToLower(w), strings.ToUpper(w[:1]) + strings.ToLower(w[1:]), string(alt)}
}

// positions where a literal can be written
var litPlaces = [][2]string{
	{"select id from contact where x = ", ""},
	{"select id from contact where x = ", " and y = 1"},
	{"select id from contact where x in (", ")"},
	{"select id from contact where x in (1, ", ", 'z')"},
	{"select id from contact where fn(", ") = 2"},
	{"select fn(y, ", ") from contact"},
	{"select id from contact where x = fn(y, ", ", 3)"},
	{"select name from contact group by name having max(x) > ", ""},
	{"select id from contact where not x != ", ""},
	{"select id from contact where (x < ", ")"},
	{"select id from contact where y = 1 or x >= ", "\norder by id"},
	{"select id, (select id from cases where x = ", " limit 2) from contact"},
}

func places(n int, inner func(c *explore.Ctl) string) func(c *explore.Ctl) string {
	return func(c *explore.Ctl) string {
		p := litPlaces[c.Pick(n)]
		return p[0] + inner(c) + p[1]
	}
}

func init() {
	lit := "P14 P17 P22 P02"
	add := func(name, props string, quick, thorough int, g func(c *explore.Ctl) string) {
		spaces = append(spaces, Space{Name: name, Gen: g, Quick: quick, Thorough: thorough, Props: props})
	}
	num := split("0 1 7 9 + - . _ e E x b o A :")
	add("lit-number-chars", "P14 P17", 0, 1, tiered(
		places(1, sequence("", "", "", num, 1, 4)),
		places(2, sequence("", "", "", num, 5, 5))))
	add("lit-number-list", "P14 P17 P22", 0, 1, tiered(
		places(12, sequence("", "", "", split("0 1 9 - . _ e x"), 1, 3)),
		places(12, sequence("", "", "", split("0 1 9 - . _ e x"), 4, 4))))
	add("lit-number-parts", lit, 9, 9, places(3, tmpl("[|+|-][0|00|1|9|10|1_0|1__0_|0_|01|123_456_789|9223372036854775807|9223372036854775808|18446744073709551615|12345678901234567890|_1][|.|.0|.5|.125|._5|.5_5|.5_|..5|. 5][|e1|E1|e+2|e-2|e0|e_1|e1_0|e|e400|e-400|E308|e 1|e+|e1.5]")))
	add("lit-radix", lit, 9, 9, places(4, tmpl("[|+|-][0x|0X|0o|0O|0b|0B|00x|x][|0|1|7|8|9|10|101|1_0|_1|1_|f|F|fF_0a|g|777|1.5|1e2|7fffffffffffffff|FFFFFFFFFFFFFFFF|8000000000000000|7777777777777777777777|777777777777777777777|1000000000000000000000|111111111111111111111111111111111111111111111111111111111111111|1000000000000000000000000000000000000000000000000000000000000000]")))
	add("lit-special", lit, 9, 9, places(12, tmpl("[|+|-|not ]["+strings.Join(flat(casings("infinity"), casings("nan"), casings("null"), casings("true"), casings("false"),
		[]string{"inf", "Inf", "infinityx", "nanx", "NaN0", "nullx", "nul", "truex", "tru", "fals", "null.x", "true.x", "true(1)", "null()", "null null", "nil", "undefined", "infinity.0", "\"null\"", "'null'", "t", "f", "yes"}), "|")+"][|/**/| -- c\n|_|$|1|.|+]")))
	// strings
	units := []string{"a", "\\n", "\\R", "\\v", "\\T", "\\b", "\\F", "\\\\", "\\'", "\\\"", "\\`", "\\_", "\\%", "\\u0041", "\\u00e9", "\\u{1F600}", "\\u{a}", "\\x41", "\\xe9", "\\101", "\\377", "\\400", "\\000",
		"\\u", "\\u12", "\\u{}", "\\u{110000}", "\\u{12345678}", "\\ud800", "\\uDBFF\\uDFFF", "\\x", "\\xg0", "\\18", "\\8", "\\a", "\\e", "\\q", "\\N", "\\V", "\\U0041", "\\X41", "'", "''", "\"", "\n", "\r\n", "\t", "é", "\u4e16", "\U0001F600", "\x00", "\x80", "--", "/*", "%", "`"}
	add("lit-string-units", "P14 P17", 0, 1, tiered(
		places(1, sequence("'", "'", "", units, 0, 2)),
		places(2, sequence("'", "'", "", units, 3, 3))))
	add("lit-string-json", "P22 P02", 0, 1, tiered(
		places(3, sequence("'", "'", "", []string{"a", "\\n", "\\\"", "\\\\", "\\u0000", "\\u2028", "\\u{1F600}", "\\u{7f}", "\\ud800", "<", "&", "\"", "\t", "é", "\\x80", "\u2029", "\\%"}, 0, 2)),
		places(2, sequence("'", "'", "", []string{"a", "\\n", "\\\"", "\\\\", "\\u0000", "\\u2028", "\\u{1F600}", "\\u{7f}", "\\ud800", "<", "&", "\"", "\t", "é", "\\x80", "\u2029", "\\%"}, 3, 3))))
	add("lit-string-escapes", lit, 9, 9, func(c *explore.Ctl) string {
		// every byte behind a backslash
		b := byte(c.Pick(256))
		tail := []string{"", "41", "041", "0041", "{41}", "41}", "{4"}[c.Pick(7)]
		return "select id from contact where x = '" + []string{"", "p", "\\\\"}[c.Pick(3)] + "\\" + string([]byte{b}) + tail + "q'"
	})
	add("lit-string-bytes", "P14 P17 P22", 9, 9, func(c *explore.Ctl) string {
		b := byte(c.Pick(256))
		return "select id from contact where x = '" + []string{"", "p", "é"}[c.Pick(3)] + string([]byte{b}) + []string{"", "q", "\x80", "\xbf\xbf"}[c.Pick(4)] + "'"
	})
	// dates and times
	add("lit-date-chars", "P14 P17", 0, 1, tiered(
		places(1, sequence("", "", "", split("2020 12 - : T Z 0 3 . +"), 1, 4)),
		places(1, sequence("", "", "", split("2020 12 - : T Z 0 3 . +"), 5, 6))))
	add("lit-date", lit, 9, 9, places(2, tmpl("[2020|2019|2000|1900|0000|0001|9999|10000|-2020|202|2021][-|/|][00|01|02|04|12|13|1|19][-|][00|01|28|29|30|31|32|1|39][|x|-| |T]")))
	add("lit-time", lit, 9, 9, places(2, tmpl("[00|01|12|19|23|24|29|30|1|09]:[00|01|59|60|5|30][|:00|:59|:60|:61|:5|:30][|.|.5|.05|.123|.123456|.123456789|.1234567890|.000000001][|Z|x| |:]")))
	add("lit-datetime", "P14 P17 P22", 9, 9, places(1, tmpl("[2020-02-29|2019-02-29|2020-12-31|0000-01-01|9999-12-31|10000-01-01|2020-1-01]T[00:00|23:59|24:00|12:34:56|23:59:59.999999999|12:34:60|12:34:5|12:34:56.|1:00|00:30:00.5|06:07:08.000000001][Z|z||+00:00|-00:00|+09:00|-09:30|+14:00|+23:59|+24:00|-24:59|+25:00|+9:00|+0900|+09:60|-00:01|+00:01| Z|ZZ]")))
	// date literals
	a, n := ref.DateLiteralNames()
	add("lit-date-names", "P14 P16 P17 P22", 9, 9, func(c *explore.Ctl) string {
		var w string
		if c.Pick(2) == 0 {
			w = a[c.Pick(len(a))]
		} else {
			w = n[c.Pick(len(n))]
		}
		w = casings(w)[c.Pick(4)]
		w += []string{"", ":1", ":0", ":01", ":365", ":+3", ":-3", ": 3", " :3", ":", ":1_0", ":x", ":1.5", ":9223372036854775807", ":32767", ":32768", ":65536", ":65537", ":2147483647", ":2147483648", ":4294967296", ":4294967299", ":9007199254740993", ":8589934595", ":+4294967297", ":-4294967297", ":-2147483649", ":000000000000000000003", ":9223372036854775808", ":18446744073709551617", "x", "_", "()", ".x", ":0x1", ":1e2"}[c.Pick(36)]
		p := litPlaces[[]int{0, 2, 5}[c.Pick(3)]]
		return p[0] + w + p[1]
	})
	add("lit-date-names-wrong", "P14 P17", 9, 9, places(3, tmpl("[THIS|LAST|NEXT|LAST_N|NEXT_N|THIS_N|LAST_90|NEXT_90|LAST_30|][_|][DAY|DAYS|WEEK|WEEKS|MONTH|MONTHS|QUARTER|QUARTERS|YEAR|YEARS|FISCAL_QUARTER|FISCAL_QUARTERS|FISCAL_YEAR|FISCAL_YEARS|TODAY|YESTERDAY|TOMORROW|N_DAYS_AGO][|:3|:-3]")))
	add("lit-param", lit+" P16", 9, 9, places(12, tmpl(":[| |\n|/**/][p|P1|_x|$y|a.b|1p|'p'|\"p\"|select|null|p-1|p q|p:q||TODAY|é]")))
	// lists
	item := []string{"1", "-2.5", "'s'", "null", "TRUE", "2020-01-02", "2020-01-02T00:00:00+01:00", "12:30", "TODAY", "LAST_N_DAYS:3", ":p", "NaN", "x", "fn()", "(1)", "", "''", "0x1F"}
	add("lit-list", lit+" P16", 0, 1, tiered(func(c *explore.Ctl) string {
		return "select id from contact where x " + []string{"in", "not in", "includes", "="}[c.Pick(4)] + " (" + sequence("", "", ",", item, 0, 2)(c) + ")"
	}, func(c *explore.Ctl) string {
		return "select id from contact where x in " + sequence("(", ")", []string{",", " , ", "\n,/**/"}[c.Pick(3)], item, 3, 3)(c)
	}))
	add("lit-list-long", lit, 2, 3, tmpl("select id from contact where x in {( |(}{1|:p|null|'a'|TODAY|x}{,|, | , |;| }{2|:q|2020-02-30|2020-02-28|Null}{,}{3|4.5|true|LAST_N_WEEKS:2}{,}{'x'|'\\u0041'|'|-1}{,}{5|12:00|2020-01-01T00:00Z},6,7,8,9,10{)| )|,)|))|}"))
}

func flat(l ...[]string) (r []string) {
	for _, x := range l {
		r = append(r, x...)
	}
	return
}

var _ = gen.Number
