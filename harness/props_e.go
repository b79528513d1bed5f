package main

import (
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

func init() {
	register(&prop{
		id: "C02", quick: 40000, thorough: 800000,
		rule: "A case is a text that is malformed by construction: a token list rejected by a recogniser of a superset of the grammar, or a text with a lexical defect. It counts as non-trivial when the defect is not within the first three tokens; distinct by text.",
		assume: []string{"the recogniser accepts every text the grammar accepts (it takes any word for a name where this is not excluded for certain)",
			"a text is malformed from the first token on that no continuation of the preceding ones allows"},
		minObs: map[string]int64{"malformed texts": 15000, "errors with a position": 15000, "shifted texts": 3000, "positions bounded from below": 3000, "defects in subqueries": 1000, "words without white space between them": 2000},
		run:    malformed,
		once: func(x *T) {
			for _, s := range badLiterals {
				for _, f := range []string{"select Id from A where x = %", "select Id from A where x in (1, %)", "select Id from A where (a = 1 and f(%) = 2)", "select Id from A where x = 1 and y in (select Id from B where z = % limit 5)"} {
					s := strings.Replace(f, "%", s, 1)
					x.count("malformed literals", 1)
					judgeMalformed(x, s, len(s), 0, "a malformed literal")
				}
			}
			for _, s := range badTexts {
				x.count("malformed clauses", 1)
				judgeMalformed(x, s, len(s), 0, "a malformed clause")
			}
		},
	})
}

var badLiterals = []string{"2020-1-01", "2020-01-1", "2020-01-01T", "2020-01-01T00:00", "2020-01-01T00:00:00", "2020-01-01T00:00:00+", "2020-01-01T00:00:00+09", "20-01-01", "1:20:30",
	"2020-13-01", "2020-00-10", "2021-02-29", "2020-04-31", "2020-01-32", "2020-01-00", "1900-02-29", "24:00:00", "23:60:00", "23:59:60", "2020-01-01T24:00:00Z", "2020-01-01T00:60:00Z", "2021-02-29T00:00:00Z",
	"1e", "1.5e", "1e+", "0x", "0xg", "0b2", "0b", "0o8", "0o", "--1", "1.2.3", "1..2", "1a", "'a", "'", "'a''b'", "'\\", ":", ":1", ":'a'", "LAST_N_DAYS:", "LAST_N_DAYS:x", "TODAY:1", "[1]", "{1}", "1 2", "'a' 'b'", "()", "(", ")", "1)", "(1", ",", "1,", "not 1", "\"a"}

var badTexts = []string{
	"", " ", "-- select Id from A", "/* select Id from A", "select", "select Id", "select from A", "select Id from", "Id from A", "from A", "select Id, from A", "select , Id from A", "select Id Name x from A", "select * from A", "select Id from A, ", "select Id from , A",
	"select Id from A where", "select Id from A where a", "select Id from A where a =", "select Id from A where = 1", "select Id from A where a == 1", "select Id from A where a <> 1", "select Id from A where a = 1 and", "select Id from A where a = 1 or", "select Id from A where and a = 1", "select Id from A where a = 1 b = 2",
	"select Id from A where not", "select Id from A where not not a = 1", "select Id from A where a not = 1", "select Id from A where a not 'x'", "select Id from A where a not includes ('x')", "select Id from A where ()", "select Id from A where (a = 1", "select Id from A where a = 1)", "select Id from A where 1 = 1", "select Id from A where (a) = 1",
	"select Id from A where a in 1, 2", "select Id from A where a in (1 2)", "select Id from A where a in (1,)", "select Id from A where a in (,1)", "select Id from A where a in ()", "select Id from A where a in (b)", "select Id from A where a in ((1))", "select Id from A where a like", "select Id from A where a between 1 and 2", "select Id from A where a is null",
	"select Id from A group by", "select Id from A group by ,a", "select Id from A group by a,", "select Id from A group a", "select Id from A g group a", "select Id from A having", "select Id from A group by a having", "select Id from A group by a having count() >", "select Id from A group by a having count() > 1 group by b",
	"select Id from A order by", "select Id from A order by a b", "select Id from A order by a asc desc", "select Id from A order by a nulls", "select Id from A order by a nulls first last", "select Id from A order by a first", "select Id from A order by a,", "select Id from A order by a nulls last desc", "select Id from A o order a",
	"select Id from A limit", "select Id from A limit x", "select Id from A limit 1.5", "select Id from A limit 'a'", "select Id from A limit 1, 2", "select Id from A limit 1 limit 2", "select Id from A offset", "select Id from A offset 1 offset 2", "select Id from A offset 1 limit 2 offset 3", "select Id from A limit null", "select Id from A limit 1 where a = 1",
	"select Id from A a for", "select Id from A a for all", "select Id from A for view view reference", "select Id from A for update tracking viewstat", "select Id from A for view,", "select Id from A for view limit 1", "select Id from A for update view",
	"select Id from A order by a where b = 1", "select Id from A group by a where b = 1", "select Id from A limit 1 order by a", "select Id from A order by a group by b", "select Id from A where a = 1 where b = 2", "select Id from A from B", "select Id select Name from A", "select Id from A;", "select Id from A select Id from A", "(select Id from A)", "select Id from A)", "select (Id) from A", "select (select Id from B from A", "select (select Id) from A", "select () from A",
	"selectId from A", "select Id fromA", "select Id from A wherea = 1", "select Id from A where a = 1 orderby b", "select Id from A order by b limit5", "select Id from A where a = 1and b = 2x", "select Id.  from A", "select .Id from A", "select a..b from A", "select f( from A", "select f) from A", "select f(,) from A", "select f(a,) from A", "select f(a b) from A", "select f(a)(b) from A", "select f(a).b from A",
	"delete from A", "update A set b = 1", "find {x} in all fields", "select Id from A where a = 'x\ny", "select Id from A where a = \"x", "select \"Id from A", "select Id from A -", "select Id from A /", "select Id from A */", "select Id from A - - x y z",
}

var errForm = regexp.MustCompile(`(?s)^(.+?)\n --> Line (\d+), Col (\d+)\n(.*)$`)

// splitLines splits at \r\n, \n and \r.
func splitLines(s string) (lines []string, starts []int) {
	start := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' || s[i] == '\r' {
			lines = append(lines, s[start:i])
			starts = append(starts, start)
			if s[i] == '\r' && i+1 < len(s) && s[i+1] == '\n' {
				i++
			}
			start = i + 1
		}
	}
	return append(lines, s[start:]), append(starts, start)
}

// errPos checks the form of a syntax error of the text and returns its message and position.
func errPos(src, e string) (msg string, pos, line, col int, bad string) {
	m := errForm.FindStringSubmatch(e)
	if m == nil {
		return "", 0, 0, 0, "the error does not say where it is"
	}
	msg = m[1]
	line, _ = strconv.Atoi(m[2])
	col, _ = strconv.Atoi(m[3])
	lines, starts := splitLines(src)
	if line < 1 || line > len(lines) || col < 1 {
		return msg, 0, line, col, "the position is outside of the text"
	}
	l := lines[line-1]
	if col > len(l)+1 {
		return msg, 0, line, col, "the column is beyond the end of the line"
	}
	pos = starts[line-1] + col - 1
	tabs := func(s string) string { return strings.ReplaceAll(s, "\t", "    ") }
	ex, _ := splitLines(m[4])
	if len(ex) < 2 {
		return msg, pos, line, col, "the error does not show the line"
	}
	caret, shown := ex[len(ex)-1], ex[len(ex)-2]
	if shown != " > | "+tabs(l) {
		return msg, pos, line, col, "the line shown is not the line " + strconv.Itoa(line) + " of the text: " + strconv.Quote(shown)
	}
	at := len(tabs(l[:col-1]))
	if strings.TrimRight(caret, " ") != "   | "+strings.Repeat(" ", at)+"^^^^" {
		return msg, pos, line, col, "the marker is not below the column " + strconv.Itoa(col)
	}
	if line > 1 && (len(ex) < 3 || ex[len(ex)-3] != "   | "+tabs(lines[line-2])) {
		return msg, pos, line, col, "the line before is not shown"
	}
	return msg, pos, line, col, ""
}

// judgeMalformed expects an error located between lo and hi.
func judgeMalformed(x *T, s string, hi, lo int, what string) {
	x.count("malformed texts", 1)
	q, err, ok := x.parse(s)
	if !ok {
		return
	}
	if err == nil || q != nil {
		x.failKind("accepted", "a malformed text was accepted (%s)", what)
		return
	}
	msg, pos, line, col, bad := errPos(s, err.Error())
	if bad != "" {
		x.failf("%s (%s): %v", bad, what, err)
		return
	}
	x.count("errors with a position", 1)
	if line > 1 {
		x.count("errors beyond the first line", 1)
	}
	if pos > hi {
		x.failf("the position (line %d, column %d, offset %d) is beyond the defect, which ends at %d (%s): %v", line, col, pos, hi, what, err)
		return
	}
	if lo > 0 {
		x.count("positions bounded from below", 1)
		if pos < lo {
			x.failf("the position (line %d, column %d, offset %d) is before the clause with the defect, which starts at %d (%s): %v", line, col, pos, lo, what, err)
			return
		}
	}
	if x.r.Intn(4) != 0 {
		return
	}
	// the same text further down
	n := 1 + x.r.Intn(5)
	pre, wl, wc := "", line, col
	switch x.r.Intn(3) {
	case 0:
		pre = strings.Repeat([]string{"\n", "\r\n", "\r"}[x.r.Intn(3)], n)
		wl += n
		if strings.HasSuffix(pre, "\r") && strings.HasPrefix(s, "\n") {
			wl--
		}
	case 1:
		pre = strings.Repeat([]string{" ", "\t"}[x.r.Intn(2)], n)
		if line == 1 {
			wc += n
		}
	case 2:
		pre = strings.Repeat("-- select\n", n) + strings.Repeat(" ", n)
		wl += n
		if line == 1 {
			wc += n
		}
	}
	x.count("shifted texts", 1)
	_, err2, ok := x.parse(pre + s)
	if !ok {
		return
	}
	if err2 == nil {
		x.failKind("accepted", "a malformed text was accepted after white space (%s)", what)
		return
	}
	m2, _, l2, c2, bad := errPos(pre+s, err2.Error())
	if bad != "" {
		x.failf("%s (%s): %v", bad, what, err2)
	} else if m2 != msg || l2 != wl || c2 != wc {
		x.failf("with %q before the text, the error %q moved from line %d, column %d to %q at line %d, column %d", pre, msg, line, col, m2, l2, c2)
	}
}

// separated joins tokens with white space or comments between any two of them.
func separated(r *rand.Rand, toks []tok, wild bool) (string, []int) {
	var b strings.Builder
	pos := make([]int, len(toks))
	for i, k := range toks {
		if i > 0 {
			if wild {
				b.WriteString(space(r, layoutWild, true))
			} else {
				b.WriteString(" ")
			}
		}
		pos[i] = b.Len()
		b.WriteString(k.s)
	}
	return b.String(), pos
}

var clauseWords = map[string]bool{"select": true, "from": true, "where": true, "group": true, "having": true, "order": true, "offset": true, "limit": true, "for": true}

// clauseStart is the first token of the innermost clause that the token k belongs to.
func clauseStart(toks []tok, k int) (int, int) {
	stack := []int{-1}
	for i := 0; i < k; i++ {
		switch {
		case toks[i].s == "(" && !toks[i].word:
			stack = append(stack, -1)
		case toks[i].s == ")" && !toks[i].word:
			if len(stack) > 1 {
				stack = stack[:len(stack)-1]
			}
		case toks[i].kw && clauseWords[low(toks[i].s)]:
			stack[len(stack)-1] = i
		}
	}
	n := 0
	for _, c := range stack {
		if c >= 0 {
			n++
		}
	}
	for i := len(stack) - 1; i >= 0; i-- {
		if stack[i] >= 0 {
			return stack[i], n
		}
	}
	return 0, n
}

var badChars = []string{"#", "@", ";", "^", "~", "?", "&", "|", "%", "{", "}", "[", "]", "\\", "`", "*", "/", "!", "&&", "||", "=>", "+", "::", "\x00", "\u200b", "¿"}

const wordChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"

// badEscapes are no escape sequences, whatever follows (but for a hexadecimal or octal digit, hence the z).
var badEscapes = []string{`\x4z`, `\xz`, `\u12z`, `\u004z`, `\uz`, `\u{}`, `\u{z}`, `\u{1234567}`, `\u{41z`, `\8`, `\9`, `\1z`, `\12z`, `\18z`, `\q`, `\z`, `\ `, `\(`, `\-`, "\\\u00e9"}

var insertable = strings.Fields(`select from where and or not group by having order asc desc nulls first last offset limit for view reference update tracking viewstat
 in like includes excludes ( ) ( ) , , , . . = != < <= > >= : 'a' "a" 1 -1 1.5 null TRUE 2020-01-01 10:20:30 TODAY LAST_N_DAYS:3 Id Account x count(`)

// glueable says if a and b written together are a single word, or if a is a literal, no token at all.
func glueable(a, b string) bool {
	if ka := classify(a).kind; strings.HasSuffix(a+b, "(") || strings.HasSuffix(a, "(") || ka != tkWord && ka != tkNum && ka != tkLit || classify(b).kind != tkWord && !(ka == tkWord && strings.Trim(b, "0123456789") == "") {
		return false
	} else if ka != tkWord { // no exponent, radix, zone or further digit
		hex := strings.HasPrefix(strings.TrimLeft(low(a), "+-"), "0x") && strings.ContainsAny(b[:1], "abcdefABCDEF")
		return !hex && !strings.ContainsAny(b[:1], "0123456789bBeEoOxXtTzZ_$") && b[0] < 0x80 && a[len(a)-1] != '.'
	}
	return true
}

func malformed(x *T) {
	r := x.r
	cfg := smallCfg(r)
	cfg.Boost = 2
	c := generate(x, cfg, layoutPlain)
	toks := append([]tok{}, c.toks...)
	wild := r.Intn(2) == 0
	nt := len(toks)
	if nt < 4 {
		return
	}
	switch r.Intn(11) {
	case 3: // a character that is part of no token, or of no literal, within a token
		for k, i := 0, r.Intn(nt); k < nt; k++ {
			j := (i + k) % nt
			q := toks[j].s
			quoted := len(q) > 2 && (q[0] == '\'' || q[0] == '"')
			if len(q) < 2 || !quoted && !(q[0] < 0x80 && classify(q).kind == tkWord && strings.Trim(q, wordChars) == "") {
				continue
			}
			at, ch := 1+r.Intn(len(q)-1), ""
			if quoted {
				at = 1 + r.Intn(2)*(len(q)-2)
				ch = badEscapes[r.Intn(len(badEscapes))]
			} else {
				ch = string("#@^~?&|%{}[];!\\`"[r.Intn(16)])
			}
			toks[j].s = q[:at] + ch + q[at:]
			s, pos := separated(r, toks, wild)
			lo := pos[0]
			if j > 0 {
				cs, _ := clauseStart(toks, j)
				lo = pos[cs]
			}
			judgeMalformed(x, s, pos[j]+len(toks[j].s), lo, "an illegal character within a token")
			x.count("illegal characters within tokens", 1)
			if j > 3 {
				x.nontrivial(s)
			}
			return
		}
		return
	case 0, 1: // a character that is part of no token
		k := r.Intn(nt + 1)
		ch := badChars[r.Intn(len(badChars))]
		toks = append(toks[:k], append([]tok{{s: ch}}, toks[k:]...)...)
		s, pos := separated(r, toks, wild)
		lo := 0
		cs, depth := clauseStart(toks, k)
		if k > 0 && ch != "\u200b" {
			lo = pos[cs]
		}
		if depth > 1 {
			x.count("defects in subqueries", 1)
		}
		judgeMalformed(x, s, pos[k]+len(ch), lo, "an illegal character")
		if k > 3 {
			x.nontrivial(s)
		}
		return
	case 2: // cut off within a literal, a quoted name or a comment
		k := r.Intn(nt)
		for i := 0; i < nt; i++ {
			if j := (k + i) % nt; j > 0 && len(toks[j].s) > 1 && (toks[j].s[0] == '\'' || toks[j].s[0] == '"') {
				k = j
				break
			}
		}
		s, pos := separated(r, toks[:k+1], wild)
		what := ""
		lo := pos[0]
		if q := toks[k].s; q[0] == '\'' || q[0] == '"' {
			// no cut right after a backslash or before an escaped quote: any cut within leaves it open
			s = s[:pos[k]+1+r.Intn(len(q)-1)]
			what = "cut off within quotes"
		} else {
			s += " /* " + []string{"", "*", "/", "* /", "'", "\n"}[r.Intn(6)]
			what = "a comment without end"
		}
		cs, _ := clauseStart(toks, k)
		lo = pos[cs]
		_ = lo
		judgeMalformed(x, s, len(s), 0, what)
		if k > 3 {
			x.nontrivial(s)
		}
		return
	}
	// token-level defects, judged by the recogniser
	n := 1
	if r.Intn(3) == 0 {
		n = 2
	}
	for ; n > 0 && len(toks) > 0; n-- {
		nt = len(toks)
		i := r.Intn(nt)
		ins := func() tok {
			if r.Intn(3) == 0 {
				return c.toks[r.Intn(len(c.toks))]
			}
			s := insertable[r.Intn(len(insertable))]
			return tok{s: s, word: s != "(" && s != ")"}
		}
		switch r.Intn(11) {
		case 9, 10: // two words without the white space between them
			for k := 0; k < nt-1; k++ {
				j := (i + k) % nt
				if j+1 < nt && glueable(toks[j].s, toks[j+1].s) {
					t := tok{s: toks[j].s + toks[j+1].s, word: true}
					t.bad = classify(toks[j].s).kind != tkWord
					toks = append(toks[:j], append([]tok{t}, toks[j+2:]...)...)
					x.count("words without white space between them", 1)
					break
				}
			}
		case 0, 1:
			toks = append(toks[:i], toks[i+1:]...)
		case 2, 3:
			toks = append(toks[:i], append([]tok{ins()}, toks[i:]...)...)
		case 4:
			toks[i] = ins()
		case 5:
			j := r.Intn(nt)
			if r.Intn(2) == 0 && i+1 < nt {
				j = i + 1
			}
			toks[i], toks[j] = toks[j], toks[i]
		case 6:
			toks = toks[:i]
		case 7: // a keyword misspelled
			for k := 0; k < nt; k++ {
				if j := (i + k) % nt; toks[j].kw {
					t := toks[j]
					switch r.Intn(3) {
					case 0:
						t.s += "x"
					case 1:
						t.s = t.s[1:]
					case 2:
						t.s = t.s[:len(t.s)-1]
					}
					t.kw = false
					toks[j] = t
					break
				}
			}
		case 8: // two spans swapped, e.g. clauses
			a := []int{r.Intn(nt + 1), r.Intn(nt + 1), r.Intn(nt + 1)}
			for k := range a { // prefer clause boundaries
				for d := 0; d < nt && r.Intn(4) > 0; d++ {
					if j := (a[k] + d) % nt; toks[j].kw && clauseWords[low(toks[j].s)] {
						a[k] = j
						break
					}
				}
			}
			if a[0] > a[1] {
				a[0], a[1] = a[1], a[0]
			}
			if a[1] > a[2] {
				a[1], a[2] = a[2], a[1]
			}
			if a[0] > a[1] {
				a[0], a[1] = a[1], a[0]
			}
			t := append([]tok{}, toks[:a[0]]...)
			t = append(t, toks[a[1]:a[2]]...)
			t = append(t, toks[a[0]:a[1]]...)
			toks = append(t, toks[a[2]:]...)
		}
	}
	for i := range toks {
		if toks[i].s == "count(" {
			toks[i].s = "count"
			toks = append(toks[:i+1], append([]tok{{s: "("}}, toks[i+1:]...)...)
		}
	}
	well, far := recognise(toks)
	if well {
		x.count("texts the recogniser does not reject", 1)
		return
	}
	s, pos := separated(r, toks, wild)
	hi := len(s)
	if far < len(toks) {
		hi = pos[far] + len(toks[far].s)
	}
	if _, d := clauseStart(toks, far); d > 1 {
		x.count("defects in subqueries", 1)
	}
	judgeMalformed(x, s, hi, 0, "the token "+strconv.Itoa(far)+" cannot stand where it is")
	if far > 3 {
		x.nontrivial(s)
	}
}
