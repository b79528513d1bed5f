package main

import "strings"

// A recogniser of a superset of the grammar on token lists: the words of the language may be
// used as names wherever that is not certainly excluded, and everything decided later than
// the grammar is left out. What it rejects is malformed; what it accepts is undecided.

type tokKind int

const (
	tkWord   tokKind = iota // identifier or keyword, true, null, TODAY
	tkQuoted                // "name"
	tkNum                   // number, date, time
	tkStr
	tkLit // LAST_N_DAYS:3
	tkPunct
	tkBad // part of no text
)

type rtok struct {
	kind tokKind
	s    string // words in lower case
}

func classify(s string) rtok {
	if s == "" {
		return rtok{tkBad, s}
	}
	c := s[0]
	switch {
	case c == '"':
		if len(s) >= 3 && strings.HasSuffix(s, "\"") {
			return rtok{tkQuoted, s}
		}
		return rtok{tkBad, s}
	case c == '\'':
		if len(s) >= 2 && strings.HasSuffix(s, "'") {
			return rtok{tkStr, s}
		}
		return rtok{tkBad, s}
	case c >= '0' && c <= '9', c == '.' && len(s) > 1, (c == '-' || c == '+') && len(s) > 1:
		return rtok{tkNum, s}
	case c == '_', c >= 'a' && c <= 'z', c >= 'A' && c <= 'Z', c >= 0x80, c == '$':
		if strings.Contains(s, ":") {
			return rtok{tkLit, s}
		}
		return rtok{tkWord, low(s)}
	}
	switch s {
	case "(", ")", ",", ".", ":", "=", "!=", "<", "<=", ">", ">=":
		return rtok{tkPunct, s}
	}
	return rtok{tkBad, s}
}

// set of end positions
type ends map[int]struct{}

type recog struct {
	t    []rtok
	memo map[[2]int]ends
	far  int // the first token that cannot follow what precedes it
}

const (
	rQuery = iota
	rName
	rFn
	rArg
	rLit
	rCond
	rAnd
	rNot
	rPrim
	rCmp
)

func one(p int) ends { return ends{p: {}} }

func (g *recog) at(p int) rtok {
	if p > g.far {
		g.far = p
	}
	if p < len(g.t) {
		return g.t[p]
	}
	return rtok{tkBad, ""}
}

func (g *recog) punct(p int, s string) bool {
	k := g.at(p)
	return k.kind == tkPunct && k.s == s
}

func (g *recog) word(p int, s ...string) bool {
	k := g.at(p)
	if k.kind != tkWord {
		return false
	}
	for _, w := range s {
		if k.s == w {
			return true
		}
	}
	return false
}

var hardWords = map[string]bool{"select": true, "from": true, "where": true, "having": true, "offset": true, "limit": true}

func (g *recog) ident(p int, guarded bool) bool {
	k := g.at(p)
	if k.kind == tkQuoted {
		return true
	}
	return k.kind == tkWord && !(guarded && hardWords[k.s])
}

// then applies f to every position of s.
func (s ends) then(f func(p int) ends) ends {
	r := ends{}
	for p := range s {
		for e := range f(p) {
			r[e] = struct{}{}
		}
	}
	return r
}

func (s ends) add(o ends) ends {
	for e := range o {
		s[e] = struct{}{}
	}
	return s
}

func (g *recog) p(s string) func(int) ends {
	return func(p int) ends {
		if g.punct(p, s) {
			return one(p + 1)
		}
		return nil
	}
}

func (g *recog) w(s ...string) func(int) ends {
	return func(p int) ends {
		if g.word(p, s...) {
			return one(p + 1)
		}
		return nil
	}
}

func seq(p int, fs ...func(int) ends) ends {
	s := one(p)
	for _, f := range fs {
		s = s.then(f)
	}
	return s
}

func opt(f func(int) ends) func(int) ends {
	return func(p int) ends { return one(p).add(f(p)) }
}

func alt(fs ...func(int) ends) func(int) ends {
	return func(p int) ends {
		r := ends{}
		for _, f := range fs {
			r.add(f(p))
		}
		return r
	}
}

// sepBy: item (sep item)*
func sepBy(item, sep func(int) ends) func(int) ends {
	return func(p int) ends {
		all := ends{}
		cur := item(p)
		for len(cur) > 0 {
			fresh := ends{}
			for e := range cur {
				if _, ok := all[e]; !ok {
					all[e] = struct{}{}
					fresh[e] = struct{}{}
				}
			}
			cur = fresh.then(sep).then(item)
		}
		return all
	}
}

func (g *recog) rule(n int, guarded bool) func(int) ends {
	return func(p int) ends {
		id := n
		if guarded {
			id += 100
		}
		k := [2]int{id, p}
		if r, ok := g.memo[k]; ok {
			return r
		}
		g.memo[k] = nil
		r := g.eval(n, p, guarded)
		g.memo[k] = r
		return r
	}
}

func (g *recog) eval(n, p int, guarded bool) ends {
	r := func(n int) func(int) ends { return g.rule(n, false) }
	id := func(p int) ends {
		if g.ident(p, false) {
			return one(p + 1)
		}
		return nil
	}
	alias := func(p int) ends {
		if g.ident(p, true) {
			return one(p + 1)
		}
		return nil
	}
	kind := func(k tokKind) func(int) ends {
		return func(p int) ends {
			if g.at(p).kind == k {
				return one(p + 1)
			}
			return nil
		}
	}
	num := alt(kind(tkNum), func(p int) ends { return seq(p, g.p(":"), id) })
	switch n {
	case rName:
		if !g.ident(p, guarded) {
			return nil
		}
		return sepBy(id, g.p("."))(p)
	case rFn:
		if !g.ident(p, guarded) {
			return nil
		}
		return seq(p, r(rName), g.p("("), opt(sepBy(r(rArg), g.p(","))), g.p(")"))
	case rArg:
		return alt(r(rFn), r(rName), r(rLit))(p)
	case rLit:
		return alt(kind(tkNum), kind(tkStr), kind(tkLit), kind(tkWord), func(p int) ends { return seq(p, g.p(":"), id) })(p)
	case rCond:
		return sepBy(r(rAnd), g.w("or"))(p)
	case rAnd:
		return sepBy(r(rNot), g.w("and"))(p)
	case rNot:
		return seq(p, opt(g.w("not")), r(rPrim))
	case rPrim:
		return alt(r(rCmp), func(p int) ends { return seq(p, g.p("("), r(rCond), g.p(")")) })(p)
	case rCmp:
		left := alt(g.rule(rFn, true), g.rule(rName, true))
		op := alt(g.p("="), g.p("!="), g.p("<"), g.p("<="), g.p(">"), g.p(">="), g.w("like", "in", "includes", "excludes"),
			func(p int) ends { return seq(p, g.w("not"), g.w("like", "in")) })
		list := func(p int) ends { return seq(p, g.p("("), sepBy(r(rLit), g.p(",")), g.p(")")) }
		sub := func(p int) ends { return seq(p, g.p("("), r(rQuery), g.p(")")) }
		return seq(p, left, op, alt(r(rFn), r(rName), r(rLit), list, sub))
	case rQuery:
		sel := func(p int) ends {
			return seq(p, alt(g.rule(rFn, true), g.rule(rName, true), func(p int) ends { return seq(p, g.p("("), r(rQuery), g.p(")")) }), opt(alias))
		}
		ob := func(p int) ends { return seq(p, g.rule(rName, true), opt(alias)) }
		grp := alt(r(rFn), r(rName))
		ord := func(p int) ends {
			return seq(p, grp, opt(g.w("asc", "desc")), opt(func(p int) ends { return seq(p, g.w("nulls"), g.w("first", "last")) }))
		}
		comma := g.p(",")
		off := func(p int) ends { return seq(p, g.w("offset"), num) }
		lim := func(p int) ends { return seq(p, g.w("limit"), num) }
		trk := sepBy(g.w("tracking", "viewstat"), comma)
		return seq(p, g.w("select"), sepBy(sel, comma), g.w("from"), sepBy(ob, comma),
			opt(func(p int) ends { return seq(p, g.w("where"), r(rCond)) }),
			opt(func(p int) ends { return seq(p, g.w("group"), g.w("by"), sepBy(grp, comma)) }),
			opt(func(p int) ends { return seq(p, g.w("having"), r(rCond)) }),
			opt(func(p int) ends { return seq(p, g.w("order"), g.w("by"), sepBy(ord, comma)) }),
			opt(alt(off, lim, func(p int) ends { return seq(p, off, lim) }, func(p int) ends { return seq(p, lim, off) })),
			opt(func(p int) ends {
				return seq(p, g.w("for"), alt(sepBy(g.w("view", "reference"), comma), func(p int) ends { return seq(p, g.w("update"), opt(trk)) }))
			}))
	}
	return nil
}

// recognise says whether the tokens may be a query, and if not, which token is the first one
// that cannot stand where it is (len(toks): the text ends too early).
func recognise(toks []tok) (bool, int) {
	g := &recog{memo: map[[2]int]ends{}}
	for _, k := range toks {
		if k.bad {
			g.t = append(g.t, rtok{tkBad, k.s})
		} else {
			g.t = append(g.t, classify(k.s))
		}
	}
	e := g.rule(rQuery, false)(0)
	if _, ok := e[len(g.t)]; ok {
		return true, 0
	}
	if _, ok := e[g.far]; !ok {
		for p := range e {
			if p > g.far {
				g.far = p
			}
		}
	}
	return false, g.far
}
