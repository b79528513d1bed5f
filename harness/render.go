package main

import (
	"math/rand"
	"strconv"
	"strings"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// tok is a token of the source text.
type tok struct {
	s    string
	word bool   // needs a separator from an adjacent word
	kw   bool   // keyword: any letter case
	sp1  bool   // must be followed by white space or a comment
	glue bool   // must not be followed by white space
	name string // the unquoted spelling of an identifier which may be quoted
	bad  bool   // part of no text
	role byte   // of other words: f function, a alias name, p parameter, l literal
}

type renderer struct {
	flat bool // no needless parentheses around operands of the same operator
	r    *rand.Rand
	toks []tok
	quot int // percentage of needless quotation
	span map[*mQuery][2]int
}

func (w *renderer) kw(s string)  { w.toks = append(w.toks, tok{s: s, word: true, kw: true}) }
func (w *renderer) kw1(s string) { w.toks = append(w.toks, tok{s: s, word: true, kw: true, sp1: true}) }
func (w *renderer) pu(s string)  { w.toks = append(w.toks, tok{s: s}) }
func (w *renderer) id(s string)  { w.toks = append(w.toks, tok{s: s, word: true}) }
func (w *renderer) as(role byte) { w.toks[len(w.toks)-1].role = role }

func quoteSym(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, c := range s {
		switch c {
		case '"', '\\':
			b.WriteByte('\\')
			b.WriteRune(c)
		case '\n':
			b.WriteString("\\n")
		case '\r':
			b.WriteString("\\r")
		default:
			b.WriteRune(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (w *renderer) path(p []string) {
	for i, s := range p {
		if i > 0 {
			w.pu(".")
		}
		if !isIdent(s) || w.r.Intn(100) < w.quot {
			w.pu(quoteSym(s))
		} else {
			w.id(s)
		}
		w.toks[len(w.toks)-1].name = s
	}
}

func (w *renderer) lit(l *mLit) {
	if l.Type == t.SoqlFieldInfo_ParameterizedValue {
		w.pu(":")
		w.id(l.Name)
		w.as('p')
		return
	}
	if l.IsStr {
		w.pu(l.Text)
	} else {
		w.id(l.Text)
	}
	w.as('l')
}

func (w *renderer) opd(o *mOpd) {
	switch o.Kind {
	case opdField:
		w.path(o.Ref.Spell)
	case opdFieldSet:
		w.id(flipCase(w.r, "fields"))
		w.pu("(")
		w.path(o.Ref.Spell)
		w.pu(")")
	case opdFunc:
		w.id(o.Fn.Name)
		w.as('f')
		w.pu("(")
		for i, a := range o.Fn.Args {
			if i > 0 {
				w.pu(",")
			}
			w.opd(a)
		}
		w.pu(")")
	case opdLit:
		w.lit(o.Lit)
	case opdList:
		w.pu("(")
		for i, l := range o.List {
			if i > 0 {
				w.pu(",")
			}
			w.lit(l)
		}
		w.pu(")")
	case opdSub:
		w.pu("(")
		w.query(o.Sub)
		w.pu(")")
	}
}

func (w *renderer) cmp(op t.SoqlConditionOpcode) {
	switch op {
	case t.SoqlConditionOpcode_Eq:
		w.pu("=")
	case t.SoqlConditionOpcode_NotEq:
		w.pu("!=")
	case t.SoqlConditionOpcode_Lt:
		w.pu("<")
	case t.SoqlConditionOpcode_Le:
		w.pu("<=")
	case t.SoqlConditionOpcode_Gt:
		w.pu(">")
	case t.SoqlConditionOpcode_Ge:
		w.pu(">=")
	case t.SoqlConditionOpcode_Like:
		w.kw("like")
	case t.SoqlConditionOpcode_NotLike:
		w.kw1("not")
		w.kw("like")
	case t.SoqlConditionOpcode_In:
		w.kw("in")
	case t.SoqlConditionOpcode_NotIn:
		w.kw1("not")
		w.kw("in")
	case t.SoqlConditionOpcode_Includes:
		w.kw("includes")
	case t.SoqlConditionOpcode_Excludes:
		w.kw("excludes")
	}
}

// cond writes the condition. outer: 0 top level / parenthesised, 1 operand of or, 2 operand of and, 3 operand of not
func (w *renderer) cond(c *mCond, outer int) {
	level := map[condKind]int{condOr: 1, condAnd: 2, condNot: 3, condLeaf: 4}[c.Kind]
	need := level < outer || outer == 3 && level == 3 || level == outer && (c.Kind == condAnd || c.Kind == condOr) && !w.flat && w.r.Intn(2) == 0
	n := c.Paren
	if need && n == 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		w.pu("(")
	}
	switch c.Kind {
	case condAnd, condOr:
		for i, k := range c.Kids {
			if i > 0 {
				if c.Kind == condAnd {
					w.kw("and")
				} else {
					w.kw("or")
				}
			}
			w.cond(k, level)
		}
	case condNot:
		w.kw("not")
		w.cond(c.Kids[0], 3)
	default:
		w.opd(c.L)
		w.cmp(c.Op)
		w.opd(c.R)
	}
	for i := 0; i < n; i++ {
		w.pu(")")
	}
}

func (w *renderer) num(n *mNum) {
	if n.Param != "" {
		w.pu(":")
		w.id(n.Param)
		w.as('p')
	} else {
		w.id(n.Text)
	}
}

func (w *renderer) query(q *mQuery) {
	if w.span != nil {
		start := len(w.toks)
		defer func() { w.span[q] = [2]int{start, len(w.toks)} }()
	}
	w.kw1("select")
	for i, s := range q.Sels {
		if i > 0 {
			w.pu(",")
		}
		w.opd(s.Opd)
		if s.Alias != "" {
			w.id(s.Alias)
			w.as('a')
		}
	}
	w.kw1("from")
	for i, d := range q.Decls {
		if i > 0 {
			w.pu(",")
		}
		w.path(d.Spell)
		if d.Alias != "" {
			w.id(d.Alias)
			w.as('a')
		}
	}
	if q.Where != nil {
		w.kw("where")
		w.cond(q.Where, 0)
	}
	if len(q.Groups) > 0 {
		w.kw1("group")
		w.kw1("by")
		for i, g := range q.Groups {
			if i > 0 {
				w.pu(",")
			}
			w.path(g.Spell)
		}
	}
	if q.Having != nil {
		w.kw("having")
		w.cond(q.Having, 0)
	}
	if len(q.Orders) > 0 {
		w.kw1("order")
		w.kw1("by")
		for i, o := range q.Orders {
			if i > 0 {
				w.pu(",")
			}
			w.path(o.Spell)
			if o.Dir != "" {
				w.kw(o.Dir)
			}
			if o.Nulls != "" {
				w.kw1("nulls")
				w.kw(o.Nulls)
			}
		}
	}
	off := func() {
		if q.Offset != nil {
			w.kw1("offset")
			w.num(q.Offset)
		}
	}
	lim := func() {
		if q.Limit != nil {
			w.kw1("limit")
			w.num(q.Limit)
		}
	}
	if q.LimFirst {
		lim()
		off()
	} else {
		off()
		lim()
	}
	if len(q.For) > 0 {
		w.kw1("for")
		for _, s := range q.For {
			if s == "," {
				w.pu(",")
			} else {
				w.kw(s)
			}
		}
	}
}

// unambiguous quotes names that would be a keyword together with the next word.
func unambiguous(toks []tok) []tok {
	for i := range toks {
		k := &toks[i]
		if k.name == "" || k.s[0] == '"' || i+1 == len(toks) {
			continue
		}
		next := low(strings.Trim(toks[i+1].s, "\""))
		switch low(k.s) {
		case "order", "group":
			if next != "by" {
				continue
			}
		case "for":
			if next != "view" && next != "reference" && next != "update" {
				continue
			}
		default:
			continue
		}
		k.s, k.word = quoteSym(k.name), false
	}
	return toks
}

func tokens(r *rand.Rand, q *mQuery) []tok {
	w := &renderer{r: r, quot: []int{0, 0, 5, 30}[r.Intn(4)]}
	w.query(q)
	return unambiguous(w.toks)
}

type layoutStyle int

const (
	layoutPlain layoutStyle = iota
	layoutCompact
	layoutWild
)

var wsChars = []string{" ", " ", " ", "\t", "\n", "\r\n", "\r", "\v", "\f", "\u0085", "\u00a0"}

func comment(r *rand.Rand) string {
	body := []string{"", " c ", "'", "\"", "select Id from X", "(", ")", " * ", "/*", "--", "é", "名", "\\", ":p", "'unterminated", "**", ";"}[r.Intn(17)]
	if r.Intn(2) == 0 {
		return "--" + body + []string{"\n", "\r", "\r\n"}[r.Intn(3)]
	}
	if r.Intn(4) == 0 {
		body += "\n" + body
	}
	return "/*" + body + "*/"
}

func space(r *rand.Rand, st layoutStyle, must bool) string {
	switch st {
	case layoutPlain:
		return " "
	case layoutCompact:
		if must {
			return " "
		}
		return ""
	}
	s := ""
	for n := r.Intn(3); n > 0; n-- {
		if r.Intn(4) == 0 {
			s += comment(r)
		} else {
			s += wsChars[r.Intn(len(wsChars))]
		}
	}
	if must && s == "" {
		s = wsChars[r.Intn(len(wsChars))]
	}
	return s
}

// layout joins the tokens. It returns the text and the byte offset of every token.
func layout(r *rand.Rand, toks []tok, st layoutStyle) (string, []int) {
	var b strings.Builder
	pos := make([]int, len(toks))
	if st == layoutWild {
		b.WriteString(space(r, st, false))
	}
	for i, k := range toks {
		if i > 0 {
			p := toks[i-1]
			must := p.sp1 || p.word && k.word
			if st == layoutPlain && !must && (p.s == "(" || k.s == ")" || k.s == "," || p.s == "." || k.s == "." || k.s == "(" && p.word && !p.kw || p.s == ":") {
				// natural looking
			} else {
				b.WriteString(space(r, st, must))
			}
		}
		pos[i] = b.Len()
		s := k.s
		if k.kw {
			switch st {
			case layoutPlain:
				s = strings.ToUpper(s)
			case layoutWild:
				s = flipCase(r, s)
			}
		}
		b.WriteString(s)
	}
	if st == layoutWild {
		b.WriteString(space(r, st, false))
		if r.Intn(6) == 0 {
			b.WriteString("-- the end")
		}
	}
	return b.String(), pos
}

func randStyle(r *rand.Rand) layoutStyle {
	return []layoutStyle{layoutPlain, layoutCompact, layoutWild}[r.Intn(3)]
}

func numText(v int64) string { return strconv.FormatInt(v, 10) }
