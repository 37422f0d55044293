// Package gen generates texts from templates: {a|b|c} is a choice whose alternatives other than the first are
// deviations, [a|b|c] is a free choice, @name; stands for a macro, ` quotes the next character.
package gen

import (
	"fmt"
	"strings"

	"verif/mc/explore"
)

type part struct {
	lit  string
	alts []*Tmpl
	free bool
}

type Tmpl struct{ parts []part }

type Macros map[string]string

type compiler struct {
	m     Macros
	cache map[string]*Tmpl
	depth int
}

// Compile parses a template.
func Compile(s string, m Macros) *Tmpl {
	c := &compiler{m: m, cache: map[string]*Tmpl{}}
	t, rest := c.seq(s, "")
	if rest != "" {
		panic("template: unexpected " + rest)
	}
	return t
}

func (c *compiler) seq(s, stop string) (*Tmpl, string) {
	t := &Tmpl{}
	var lit strings.Builder
	flush := func() {
		if lit.Len() > 0 {
			t.parts = append(t.parts, part{lit: lit.String()})
			lit.Reset()
		}
	}
	for s != "" {
		ch := s[0]
		switch {
		case stop != "" && strings.IndexByte(stop, ch) >= 0:
			flush()
			return t, s
		case ch == '`':
			lit.WriteByte(s[1])
			s = s[2:]
		case ch == '{' || ch == '[':
			flush()
			end := byte('}')
			if ch == '[' {
				end = ']'
			}
			p := part{free: ch == '['}
			for {
				a, rest := c.seq(s[1:], "|"+string(end))
				if rest == "" {
					panic("template: unclosed " + s)
				}
				p.alts = append(p.alts, a)
				s = rest
				if s[0] == end {
					s = s[1:]
					break
				}
			}
			t.parts = append(t.parts, p)
		case ch == '@':
			k := strings.IndexByte(s, ';')
			name := s[1:k]
			s = s[k+1:]
			flush()
			sub, ok := c.cache[name]
			if !ok {
				body, known := c.m[name]
				if !known {
					panic("template: no macro " + name)
				}
				if c.depth++; c.depth > 50 {
					panic("template: recursive macro " + name)
				}
				sub, _ = c.seq(body, "")
				c.depth--
				c.cache[name] = sub
			}
			t.parts = append(t.parts, sub.parts...)
		default:
			lit.WriteByte(ch)
			s = s[1:]
		}
	}
	flush()
	return t, ""
}

func (t *Tmpl) write(c *explore.Ctl, b *strings.Builder) {
	for i := range t.parts {
		p := &t.parts[i]
		if p.alts == nil {
			b.WriteString(p.lit)
			continue
		}
		var k int
		if p.free {
			k = c.Pick(len(p.alts))
		} else {
			k = c.Choose(len(p.alts))
		}
		p.alts[k].write(c, b)
	}
}

// Text generates one text. A % in the text is replaced by consecutive numbers, which makes literals distinct.
func (t *Tmpl) Text(c *explore.Ctl) string {
	var b strings.Builder
	t.write(c, &b)
	return Number(b.String())
}

// Number replaces each % by a consecutive number.
func Number(s string) string {
	if !strings.Contains(s, "%") {
		return s
	}
	var b strings.Builder
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '%' {
			n++
			fmt.Fprint(&b, n)
		} else {
			b.WriteByte(s[i])
		}
	}
	return b.String()
}
