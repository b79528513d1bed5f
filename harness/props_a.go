package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

const cfgNote = "queries are generated from a model whose meaning is known by construction; constructs excluded from the generator are listed in DESIGN.md"

func init() {
	// ---- clause fidelity ----
	register(&prop{
		id: "C03", quick: 14000, thorough: 300000,
		rule:   "A query counts as non-trivial when it has at least three clauses besides SELECT and FROM (over all of its subqueries); distinct by source text.",
		assume: []string{cfgNote},
		minObs: map[string]int64{"select items": 1000, "order by items": 300, "group by items": 300, "for clauses": 100, "offset/limit clauses": 300, "subqueries": 300},
		run: func(x *T) {
			c := runCase(x, defaultCfg())
			if c == nil {
				return
			}
			n := 0
			for _, p := range c.pairs {
				n += clauseCheck(x, p)
			}
			if n >= 3 {
				x.nontrivial(c.src)
			}
		},
	})

	// ---- literals ----
	register(&prop{
		id: "C04", quick: 14000, thorough: 300000,
		rule:   "A query counts as non-trivial when it has at least two literals of different types; distinct by source text.",
		assume: []string{cfgNote, "floating point: correctly rounded decimal conversion of the Go library is the reference"},
		minObs: map[string]int64{"Int": 1000, "Float": 300, "String": 1000, "Date": 300, "DateTime": 300, "Time": 300, "Bool": 300, "Null": 100, "ParameterizedValue": 500, "DateTimeLiteralName": 500, "lists": 500, "unrepresentable literals rejected": 100},
		run: func(x *T) {
			if x.idx%12 == 0 {
				badLiteral(x)
				return
			}
			cfg := defaultCfg()
			cfg.NonFinite = true
			cfg.Where, cfg.MaxDepth, cfg.Func = 95, 2, 40
			cfg.OwnCond = 2
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			types := map[t.SoqlFieldInfoType]bool{}
			for _, p := range c.pairs {
				p.eachOpd(func(where string, m *mOpd, o *t.SoqlFieldInfo) {
					if err := both(m, o, func(m *mOpd, o *t.SoqlFieldInfo) error {
						switch m.Kind {
						case opdLit:
							x.count(m.Lit.Type.String(), 1)
							types[m.Lit.Type] = true
							return litIs(m.Lit, o)
						case opdList:
							x.count("lists", 1)
							x.max("max. list length", len(m.List))
							for _, l := range m.List {
								x.count(l.Type.String(), 1)
								types[l.Type] = true
							}
							return opdIs(m, o)
						}
						return nil
					}); err != nil {
						x.failf("%s of the %s: %v", where, p.name(), err)
					}
				})
				for k, n := range []*mNum{p.m.Offset, p.m.Limit} {
					if n == nil {
						continue
					}
					v, pn := p.o.OffsetAndLimit.Offset, p.o.OffsetAndLimit.OffsetParamName
					if k == 1 {
						v, pn = p.o.OffsetAndLimit.Limit, p.o.OffsetAndLimit.LimitParamName
					}
					if v != n.Val || pn != n.Param {
						x.failf("offset/limit %q %d became %q %d", n.Param, n.Val, pn, v)
					}
				}
			}
			if len(types) >= 2 {
				x.nontrivial(c.src)
			}
		},
	})

	// ---- conditions ----
	register(&prop{
		id: "C05", quick: 16000, thorough: 300000,
		rule:   "A query counts as non-trivial when a condition has at least three comparisons and two different logical operators; distinct by source text.",
		assume: []string{cfgNote, "conditions of up to 8 comparisons are compared on every three-valued assignment, larger ones on 4096 sampled assignments"},
		minObs: map[string]int64{"conditions": 2000, "comparisons": 4000, "truth assignments": 100000, "having conditions": 200},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.Where, cfg.CondSize, cfg.Agg, cfg.FancyLit = 100, 9, 25, false
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			nt := false
			for _, p := range c.pairs {
				for k, m := range []*mCond{p.m.Where, p.m.Having} {
					o, list, name := p.where, p.o.Where, "where"
					if k == 1 {
						o, list, name = p.having, p.o.Having, "having"
					}
					if m == nil {
						if o != nil {
							x.failf("the %s has a %s condition which was not written", p.name(), name)
						}
						continue
					}
					x.count("conditions", 1)
					x.count("having conditions", k)
					ml, ol := m.leaves(nil), o.leaves(nil)
					x.count("comparisons", len(ml))
					x.max("max. comparisons in one condition", len(ml))
					for i := range list {
						if list[i].Opcode == t.SoqlConditionOpcode_Not {
							x.failf("the %s condition of the %s still has a Not operator", name, p.name())
						}
					}
					for i := range ml {
						if err := opdIs(ml[i].L, ol[i].l); err != nil {
							x.failf("left side of %s comparison %d of the %s: %v", name, i, p.name(), err)
						}
						if err := opdIs(ml[i].R, ol[i].r); err != nil {
							x.failf("right side of %s comparison %d of the %s: %v", name, i, p.name(), err)
						}
					}
					msg, n := sameLogic(x.r, m, o)
					x.count("truth assignments", n)
					if msg != "" {
						x.failf("%s condition of the %s: %s", name, p.name(), msg)
					}
					kinds := map[condKind]bool{}
					countKinds(m, kinds)
					if len(ml) >= 3 && len(kinds) >= 3 {
						nt = true
					}
				}
			}
			if nt {
				x.nontrivial(c.src)
			}
		},
	})

	// ---- names ----
	register(&prop{
		id: "C07", quick: 14000, thorough: 300000,
		rule:   "A query counts as non-trivial when it refers to a field by an alias, an absolute or a relative relationship path (more than one segment); distinct by source text.",
		assume: []string{cfgNote},
		minObs: map[string]int64{"field references": 5000, "qualified references": 1500, "references through an alias": 300, "objects": 2000,
			"references to select items by alias name": 1000, "aliases written at a later step of a path": 500,
			"outcomes compared in another letter case": 15000, "rejections compared in another letter case": 5000},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.Paths, cfg.Alias, cfg.Extras, cfg.FancyLit, cfg.Agg = 60, 60, 55, false, 35
			if x.r.Intn(3) == 0 {
				cfg.CaseFlip, cfg.SelSub, cfg.Correl, cfg.Func = 70, 60, 40, 40
			}
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			nt := false
			for _, p := range c.pairs {
				check := func(where string, r *mRef, o *t.SoqlFieldInfo, set bool) {
					x.count("field references", 1)
					if len(r.Spell) > 1 {
						x.count("qualified references", 1)
						nt = true
						for q := p.m; q != nil; q = q.selectParent() {
							for _, d := range q.Decls {
								if d.Alias != "" && low(d.Alias) == low(r.Spell[0]) {
									x.count("references through an alias", 1)
								}
							}
						}
					}
					var err error
					if set {
						err = opdIs(&mOpd{Kind: opdFieldSet, Ref: r}, o)
					} else {
						err = fieldIs(r, o)
					}
					if err != nil {
						x.failf("%s of the %s: %v", where, p.name(), err)
					}
				}
				p.eachOpd(func(where string, m *mOpd, o *t.SoqlFieldInfo) {
					if err := both(m, o, func(m *mOpd, o *t.SoqlFieldInfo) error {
						if m.Kind == opdField || m.Kind == opdFieldSet {
							check(where, m.Ref, o, m.Kind == opdFieldSet)
						}
						return nil
					}); err != nil {
						x.failf("%s of the %s: %v", where, p.name(), err)
					}
				})
				if len(p.o.GroupBy) == len(p.m.Groups) {
					for i, g := range p.m.Groups {
						if g.Ref != nil {
							check("group by item "+strconv.Itoa(i), g.Ref, &p.o.GroupBy[i], false)
							continue
						}
						x.count("references to select items by alias name", 1)
						if err := opdIs(g.Alias.Opd, &p.o.GroupBy[i]); err != nil {
							x.failf("group by item %d of the %s (alias name %s): %v", i, p.name(), g.Alias.Alias, err)
						}
					}
				} else {
					x.failf("the %s has %d group by items instead of %d", p.name(), len(p.o.GroupBy), len(p.m.Groups))
				}
				if len(p.o.OrderBy) == len(p.m.Orders) {
					for i, g := range p.m.Orders {
						if g.Ref != nil {
							check("order by item "+strconv.Itoa(i), g.Ref, &p.o.OrderBy[i].Field, false)
							continue
						}
						x.count("references to select items by alias name", 1)
						if err := opdIs(g.Alias.Opd, &p.o.OrderBy[i].Field); err != nil {
							x.failf("order by item %d of the %s (alias name %s): %v", i, p.name(), g.Alias.Alias, err)
						}
					}
				} else {
					x.failf("the %s has %d order by items instead of %d", p.name(), len(p.o.OrderBy), len(p.m.Orders))
				}
				for _, d := range p.m.Decls {
					n := 0
					for i := range p.o.From {
						if eqFoldPath(p.o.From[i].Name, d.Path) {
							n++
						}
					}
					x.count("objects", 1)
					if n != 1 {
						x.failf("the declared object %s of the %s (written %s) is %d times in From", strings.Join(d.Path, "."), p.name(), strings.Join(d.Spell, "."), n)
					}
				}
				if !eqFoldPath(p.o.From[0].Name, p.m.head()) {
					x.failf("the first object of the %s is %q", p.name(), p.o.From[0].Name)
				}
			}
			if nt {
				x.nontrivial(c.src)
			}
			s := semanticSoup(x.r)
			if x.r.Intn(3) == 0 {
				s, _ = layout(x.r, c.toks, layoutPlain)
			}
			otherCase(x, s)
		},
	})
}

// flipNames changes the letter case of everything but string literals.
func flipNames(r *rand.Rand, s string, pct int) string {
	b := []byte(s)
	in, quoted := false, false
	for i := 0; i < len(b); i++ {
		switch c := b[i]; {
		case (in || quoted) && c == '\\':
			i++
		case c == '"' && !in:
			quoted = !quoted
		case c == '\'' && !quoted:
			in = !in
		case in || r.Intn(100) >= pct:
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			b[i] ^= 0x20
		}
	}
	return string(b)
}

// otherCase compares the outcome for a text, accepted or not, with the one for the text in
// another letter case.
func otherCase(x *T, s string) {
	outcome := func(s string) (string, bool) {
		q, err, ok := x.parse(s)
		if err != nil {
			return "error " + low(err.Error()), ok
		}
		return low(dump(q, dumpOpts{skip: skipText})), ok
	}
	w, ok := outcome(s)
	if !ok {
		return
	}
	for i, pct := range []int{100, 50, 15} {
		if i == 0 && x.r.Intn(4) > 0 {
			continue
		}
		v := flipNames(x.r, s, pct)
		g, ok := outcome(v)
		if !ok {
			return
		}
		x.count("outcomes compared in another letter case", 1)
		if strings.HasPrefix(w, "error ") {
			x.count("rejections compared in another letter case", 1)
		}
		if g != w {
			x.failf("in another letter case, the outcome differs from the one of\n%s\n%s", s, firstDiff(w, g))
			return
		}
	}
}

func countKinds(m *mCond, kinds map[condKind]bool) {
	kinds[m.Kind] = true
	for _, k := range m.Kids {
		countKinds(k, kinds)
	}
}

// clauseCheck compares every clause of the query with what was written.
func clauseCheck(x *T, p *pair) int {
	m, o := p.m, p.o
	n := 0
	bad := func(format string, a ...interface{}) { x.failf("%s: %s", p.name(), fmt.Sprintf(format, a...)) }

	// select
	x.count("select items", len(m.Sels))
	x.max("max. select items", len(m.Sels))
	for i, s := range m.Sels {
		f := &o.Fields[i]
		if err := opdIs(s.Opd, f); err != nil {
			bad("select item %d: %v", i, err)
		}
		if s.Alias != "" && f.AliasName != s.Alias {
			bad("select item %d has the alias name %q instead of %q", i, f.AliasName, s.Alias)
		}
		if f.NotSelected {
			bad("select item %d is marked as not selected", i)
		}
		if s.Opd.Kind == opdSub {
			x.count("subqueries", 1)
		}
	}
	for i := len(m.Sels); i < len(o.Fields); i++ {
		if !o.Fields[i].NotSelected {
			bad("field %d (%s) is not in the select clause", i, fInfo(&o.Fields[i]))
		}
	}

	// from
	x.count("from items", len(m.Decls))
	decl := m.declared()
	if !eqFoldPath(o.From[0].Name, m.head()) {
		bad("the first object is %q", o.From[0].Name)
	}
	seen := map[string]bool{}
	for i := range o.From {
		k := pathKey(o.From[i].Name)
		seen[k] = true
		want := decl[k]
		if o.From[i].AliasName != want {
			bad("the object %q has the alias name %q instead of %q", o.From[i].Name, o.From[i].AliasName, want)
		}
	}
	for k := range decl {
		if !seen[k] {
			bad("the object %q is not in the From list", k)
		}
	}

	// group by
	if len(m.Groups) > 0 {
		n++
	}
	if len(o.GroupBy) != len(m.Groups) {
		bad("%d group by items instead of %d", len(o.GroupBy), len(m.Groups))
	} else {
		x.count("group by items", len(m.Groups))
		for i, g := range m.Groups {
			if g.Ref != nil {
				if err := fieldIs(g.Ref, &o.GroupBy[i]); err != nil {
					bad("group by item %d: %v", i, err)
				}
			} else if err := opdIs(g.Alias.Opd, &o.GroupBy[i]); err != nil {
				bad("group by item %d (alias name %s): %v", i, g.Alias.Alias, err)
			}
		}
	}

	// conditions
	for k, c := range []*mCond{m.Where, m.Having} {
		oc, name := o.Where, "where"
		if k == 1 {
			oc, name = o.Having, "having"
		}
		if (c == nil) != (len(oc) == 0) {
			bad("the %s clause was written: %v, in the result: %v", name, c != nil, len(oc) != 0)
		}
		if c != nil {
			n++
			x.count(name+" clauses", 1)
		}
	}

	// order by
	if len(m.Orders) > 0 {
		n++
	}
	if len(o.OrderBy) != len(m.Orders) {
		bad("%d order by items instead of %d", len(o.OrderBy), len(m.Orders))
	} else {
		x.count("order by items", len(m.Orders))
		x.max("max. order by items", len(m.Orders))
		for i, g := range m.Orders {
			f := &o.OrderBy[i]
			if g.Ref != nil {
				if err := fieldIs(g.Ref, &f.Field); err != nil {
					bad("order by item %d: %v", i, err)
				}
			} else if err := opdIs(g.Alias.Opd, &f.Field); err != nil {
				bad("order by item %d (alias name %s): %v", i, g.Alias.Alias, err)
			}
			if f.Desc != (g.Dir == "desc") || f.NullsLast != (g.Nulls == "last") {
				bad("order by item %d: %q %q became desc=%v nulls last=%v", i, g.Dir, g.Nulls, f.Desc, f.NullsLast)
			}
		}
	}

	// offset, limit
	want := t.SoqlOffsetAndLimitClause{}
	if m.Offset != nil {
		want.Offset, want.OffsetParamName = m.Offset.Val, m.Offset.Param
	}
	if m.Limit != nil {
		want.Limit, want.LimitParamName = m.Limit.Val, m.Limit.Param
	}
	if m.Offset != nil || m.Limit != nil {
		n++
		x.count("offset/limit clauses", 1)
	}
	if o.OffsetAndLimit != want {
		bad("offset and limit became %+v instead of %+v", o.OffsetAndLimit, want)
	}

	// for
	wf := t.SoqlForClause{}
	for _, s := range m.For {
		switch s {
		case "view":
			wf.View = true
		case "reference":
			wf.Reference = true
		case "update":
			wf.Update = true
		case "tracking":
			wf.UpdateTracking = true
		case "viewstat":
			wf.UpdateViewstat = true
		}
	}
	if len(m.For) > 0 {
		n++
		x.count("for clauses", 1)
	}
	if o.For != wf {
		bad("for %v became %+v", m.For, o.For)
	}
	return n
}

// badLiteral checks that literals whose value does not exist or does not fit are rejected.
func badLiteral(x *T) {
	r := x.r
	var s string
	switch r.Intn(10) {
	case 9: // a count that does not exist or does not fit
		s = dateLitsN[r.Intn(len(dateLitsN))] + ":" + []string{"-1", "0x1", "1.5", "'1'", ":p", "null",
			strconv.FormatUint(9223372036854775808+uint64(r.Int63n(1<<62)), 10), "-" + strconv.FormatInt(1+r.Int63(), 10)}[r.Intn(8)]
	case 0:
		s = strconv.FormatUint(9223372036854775808+uint64(r.Int63n(1<<62)), 10)
	case 1:
		s = "-" + strconv.FormatUint(9223372036854775809+uint64(r.Int63n(1<<62)), 10)
	case 2:
		s = "0x" + strconv.FormatInt(int64(8+r.Intn(8)), 16) + fmt.Sprintf("%015x", r.Int63n(1<<60))
	case 3:
		s = fmt.Sprintf("%d.%de%d", 1+r.Intn(9), r.Intn(100), 310+r.Intn(400))
	case 4: // no such date
		s = []string{"2021-02-29", "2021-02-30", "1900-02-29", "2021-04-31", "2020-13-01", "2020-00-10", "2020-01-00", "2020-06-31", "2023-09-31", "2023-11-31", "2023-12-32"}[r.Intn(11)]
	case 5:
		s = []string{"2021-02-29", "2021-02-30", "2100-02-29", "2021-04-31", "2020-13-01"}[r.Intn(5)] + "T" + fmt.Sprintf("%02d:%02d:%02dZ", r.Intn(24), r.Intn(60), r.Intn(60))
	case 6: // no such time
		s = []string{fmt.Sprintf("%02d:10:20", 24+r.Intn(70)), fmt.Sprintf("10:%02d:20", 60+r.Intn(40)), fmt.Sprintf("10:10:%02d", 60+r.Intn(40))}[r.Intn(3)]
	case 7:
		s = "2021-03-04T" + []string{fmt.Sprintf("%02d:10:20", 24+r.Intn(70)), fmt.Sprintf("10:%02d:20", 60+r.Intn(40)), fmt.Sprintf("10:10:%02d", 60+r.Intn(40))}[r.Intn(3)] + "Z"
	case 8: // unknown escape sequence
		s = "'a" + []string{`\q`, `\z`, `\x4`, `\xg0`, `\u12`, `\u{}`, `\u{g}`, `\9`, `\12`, `\u{1234567}`}[r.Intn(10)] + "'"
	}
	src := "select Id from Account where " + []string{"x = " + s, "x in (1, " + s + ", 2)", "f(" + s + ") = 1", "a = 1 and (b = 2 or c = " + s + ")"}[r.Intn(4)]
	_, err, ok := x.parse(src)
	if !ok {
		return
	}
	if err == nil {
		x.failf("the literal %s was accepted", s)
		return
	}
	x.count("unrepresentable literals rejected", 1)
	x.nontrivial(src)
}
