package chk

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

var posRe = regexp.MustCompile(`(?s)--> Line (-?\d+), Col (-?\d+)\n(.*)$`)

// lines splits a text at CR LF, CR and LF.
func lines(s string) []string {
	s = strings.ReplaceAll(s, "\r\n", "\n")
	s = strings.ReplaceAll(s, "\r", "\n")
	return strings.Split(s, "\n")
}

// errorPosition checks the position in a message; syntax: the message must have one.
func errorPosition(text, msg string, syntax bool) string {
	// the quoted source may look like a position: take the first one
	i := strings.Index(msg, "\n --> Line ")
	if i < 0 {
		if syntax {
			return "the error names no position: " + firstLine(msg)
		}
		return ""
	}
	m := posRe.FindStringSubmatch(msg[i:])
	if m == nil {
		return "the error names no position: " + firstLine(msg)
	}
	line, _ := strconv.Atoi(m[1])
	col, _ := strconv.Atoi(m[2])
	ls := lines(text)
	if line < 1 || line > len(ls) {
		// a position between CR and LF counts as behind the line break
		if line != len(ls)+1 {
			return fmt.Sprintf("the error is at line %d of %d", line, len(ls))
		}
	}
	l := ls[line-1]
	if col < 1 || col > len(l)+1 {
		return fmt.Sprintf("the error is at column %d of a line with %d bytes", col, len(l))
	}
	if q := strings.ReplaceAll(l, "\t", "    "); !strings.Contains(m[3], " > | "+q) {
		return fmt.Sprintf("the error does not quote line %d: %s", line, firstLine(msg))
	}
	return ""
}
