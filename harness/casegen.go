package main

import (
	"fmt"
	"strings"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// A case of the model-based properties: a query with its intended meaning, and the result.
type qcase struct {
	q     *mQuery
	toks  []tok
	span  map[*mQuery][2]int
	src   string
	o     *t.SoqlQuery
	pairs []*pair
	g     *gen
}

// generate makes a query and its source text without parsing.
func generate(x *T, cfg genCfg, st layoutStyle) *qcase {
	g := newGen(x.r, cfg)
	c := &qcase{g: g, q: g.query(), span: map[*mQuery][2]int{}}
	if g.boosted != "" {
		x.count("boosted: "+g.boosted, 1)
	}
	if g.stepAlias > 0 {
		x.count("aliases written at a later step of a path", g.stepAlias)
	}
	if g.sameAlias > 0 {
		x.count("object aliases that another subquery has, too", g.sameAlias)
	}
	if g.sameChild > 0 {
		x.count("subqueries on relationships with the same name, of different objects", g.sameChild)
	}
	if g.relAlias > 0 {
		x.count("object aliases that are the name of a relationship elsewhere", g.relAlias)
	}
	if g.qualified > 0 {
		x.count("sort and grouping fields qualified because of an alias of that name", g.qualified)
	}
	w := &renderer{r: x.r, quot: []int{0, 0, 5, 30}[x.r.Intn(4)], span: c.span}
	w.query(c.q)
	c.toks = unambiguous(w.toks)
	c.src, _ = layout(x.r, c.toks, st)
	return c
}

// runCase generates a valid query, parses it and pairs the model with the result.
// It returns nil if that already failed.
func runCase(x *T, cfg genCfg) *qcase { return runCaseIn(x, cfg, randStyle(x.r)) }

func runCaseIn(x *T, cfg genCfg, st layoutStyle) *qcase {
	c := generate(x, cfg, st)
	c.o = x.mustParse(c.src)
	if c.o == nil {
		return nil
	}
	var err error
	c.pairs, err = pairUp(c.q, c.o, nil, nil)
	if err != nil {
		x.failf("the structure of the result differs from the query: %v", err)
		return nil
	}
	x.count("queries incl. subqueries", len(c.pairs))
	x.max("max. queries in one text", len(c.pairs))
	for _, q := range c.q.all() {
		seen := map[string]bool{}
		for _, s := range q.selSubs() {
			if seen[pathKey(s.head())] {
				x.count("select-subqueries on a relationship read by another one", 1)
			}
			seen[pathKey(s.head())] = true
		}
	}
	return c
}

func (p *pair) name() string {
	return fmt.Sprintf("%v query %s", p.m.Place, strings.Join(p.m.head(), "."))
}

// checkOpds compares all operands of the query (select list, grouping, ordering, conditions).
func (p *pair) eachOpd(fn func(where string, m *mOpd, o *t.SoqlFieldInfo)) {
	for i, s := range p.m.Sels {
		fn(fmt.Sprintf("select item %d", i), s.Opd, &p.o.Fields[i])
	}
	for k, c := range []*mCond{p.m.Where, p.m.Having} {
		name, ol := "where", p.where.leaves(nil)
		if k == 1 {
			name, ol = "having", p.having.leaves(nil)
		}
		for i, l := range c.leaves(nil) {
			fn(fmt.Sprintf("left side of %s comparison %d", name, i), l.L, ol[i].l)
			fn(fmt.Sprintf("right side of %s comparison %d", name, i), l.R, ol[i].r)
		}
	}
}

// both visits operands of the model and the result in parallel, including function parameters.
func both(m *mOpd, o *t.SoqlFieldInfo, fn func(m *mOpd, o *t.SoqlFieldInfo) error) error {
	if err := fn(m, o); err != nil {
		return err
	}
	if m.Kind == opdFunc {
		if o.Type != t.SoqlFieldInfo_Function || len(o.Parameters) != len(m.Fn.Args) {
			return fmt.Errorf("the call of %s with %d parameters became %s", m.Fn.Name, len(m.Fn.Args), fInfo(o))
		}
		for i, a := range m.Fn.Args {
			if err := both(a, &o.Parameters[i], fn); err != nil {
				return err
			}
		}
	}
	return nil
}

// selfContent is the kind, name and value of one operand, without parameters.
func kindOf(m *mOpd) t.SoqlFieldInfoType {
	switch m.Kind {
	case opdField:
		return t.SoqlFieldInfo_Field
	case opdFieldSet:
		return t.SoqlFieldInfo_FieldSet
	case opdFunc:
		return t.SoqlFieldInfo_Function
	case opdSub:
		return t.SoqlFieldInfo_SubQuery
	case opdList:
		return t.SoqlFieldInfo_Literal_List
	}
	return m.Lit.Type
}
