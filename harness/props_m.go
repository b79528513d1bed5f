package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// C30: clauses and options do not influence each other. A text is parsed again with another
// limit, sort direction, comparison operator etc. in some of its queries; only what says so may change.

// edit changes one aspect of a query of the model. It returns what of the results is left out
// when they are compared, and what is to be erased of them, or false when there is nothing to change.
type edit struct {
	name  string
	do    func(e *editor, q *mQuery) bool
	skip  []string
	erase func(e *editor, q *t.SoqlQuery)
}

type editor struct {
	r     *rand.Rand
	g     *gen
	src   string
	n     int
	extra map[int]int // query id: index of the select item that was added
	ids   map[*mQuery]int
}

func (e *editor) fresh() string {
	for {
		e.n++
		s := fmt.Sprintf("%s%d", []string{"Zz", "wv", "Yx_"}[e.r.Intn(3)], e.r.Intn(100)+100*e.n)
		if !strings.Contains(e.src, low(s)) {
			return s
		}
	}
}

// eachConds calls fn with each condition list of the query.
func eachConds(q *t.SoqlQuery, fn func(l []t.SoqlCondition)) {
	fn(q.Where)
	fn(q.PostProcessWhere)
	fn(q.Having)
	for i := range q.From {
		if p := q.From[i].PerObjectQuery; p != nil {
			fn(p.Where)
		}
	}
}

func isLiteral(f *t.SoqlFieldInfo) bool {
	switch f.Type {
	case t.SoqlFieldInfo_Field, t.SoqlFieldInfo_Function, t.SoqlFieldInfo_SubQuery, t.SoqlFieldInfo_FieldSet, t.SoqlFieldInfo_Literal_List:
		return false
	}
	return true
}

var edits = []edit{
	{
		name: "limit and offset",
		do: func(e *editor, q *mQuery) bool {
			q.Limit, q.Offset = nil, nil
			k := e.r.Intn(4)
			if k&1 > 0 {
				q.Limit = e.g.num()
			}
			if k&2 > 0 {
				q.Offset = e.g.num()
			}
			q.LimFirst = e.r.Intn(2) == 0
			return true
		},
		skip: []string{"SoqlQuery.OffsetAndLimit", "SoqlQueryMeta.Parameters"},
	},
	{
		name: "FOR",
		do: func(e *editor, q *mQuery) bool {
			q.For = [][]string{nil, nil, {"view"}, {"reference"}, {"view", ",", "reference"}, {"update"}, {"update", "viewstat"}, {"update", "viewstat", ",", "tracking"}}[e.r.Intn(8)]
			return true
		},
		skip: []string{"SoqlQuery.For"},
	},
	{
		name: "sort directions",
		do: func(e *editor, q *mQuery) bool {
			for _, o := range q.Orders {
				o.Dir = []string{"", "asc", "desc"}[e.r.Intn(3)]
				o.Nulls = []string{"", "first", "last"}[e.r.Intn(3)]
			}
			return len(q.Orders) > 0
		},
		skip: []string{"SoqlOrderByInfo.Desc", "SoqlOrderByInfo.NullsLast"},
	},
	{
		name: "ORDER BY selected items",
		do: func(e *editor, q *mQuery) bool {
			sel := map[string]bool{}
			for _, s := range q.Sels {
				if s.Opd.Kind == opdField {
					sel[s.Opd.Ref.key()] = true
				}
			}
			for _, o := range q.Orders {
				if o.Alias == nil && (o.Ref == nil || !sel[o.Ref.key()]) {
					return false
				}
			}
			was := len(q.Orders)
			q.Orders = nil
			return was > 0
		},
		skip: []string{"SoqlQuery.OrderBy"},
	},
	{
		name: "comparison operators",
		do: func(e *editor, q *mQuery) bool {
			n, all, op := 0, e.r.Intn(4) == 0, e.r.Intn(8)
			for _, c := range []*mCond{q.Where, q.Having} {
				for _, l := range c.leaves(nil) {
					ops := []t.SoqlConditionOpcode{t.SoqlConditionOpcode_Eq, t.SoqlConditionOpcode_NotEq, t.SoqlConditionOpcode_Lt, t.SoqlConditionOpcode_Le,
						t.SoqlConditionOpcode_Gt, t.SoqlConditionOpcode_Ge, t.SoqlConditionOpcode_Like, t.SoqlConditionOpcode_NotLike}
					has := false
					for _, o := range ops {
						has = has || o == l.Op
					}
					if !has || !all && e.r.Intn(2) == 0 {
						continue
					}
					l.Op = ops[e.r.Intn(len(ops))]
					if all {
						l.Op = ops[op]
					}
					n++
				}
			}
			return n > 0
		},
		erase: func(e *editor, q *t.SoqlQuery) {
			eachConds(q, func(l []t.SoqlCondition) {
				for i := range l {
					if isCmp(l[i].Opcode) {
						l[i].Opcode = t.SoqlConditionOpcode_Eq
					}
				}
			})
		},
	},
	{
		name: "literals of comparisons",
		do: func(e *editor, q *mQuery) bool {
			n, all := 0, e.r.Intn(4) == 0
			for _, c := range []*mCond{q.Where, q.Having} {
				for _, l := range c.leaves(nil) {
					if l.R.Kind == opdLit && (all || e.r.Intn(2) == 0) {
						v := e.g.lit()
						if all || e.r.Intn(4) == 0 {
							v = &mLit{Type: t.SoqlFieldInfo_Literal_Null, Text: "null"}
						}
						l.R = &mOpd{Kind: opdLit, Lit: v}
						n++
					}
				}
			}
			return n > 0
		},
		skip: []string{"SoqlQueryMeta.Parameters", "SoqlQueryMeta.DateTimeLiterals"},
		erase: func(e *editor, q *t.SoqlQuery) {
			eachConds(q, func(l []t.SoqlCondition) {
				for i := range l {
					if l[i].Opcode == t.SoqlConditionOpcode_FieldInfo && isLiteral(&l[i].Value) {
						l[i].Value = t.SoqlFieldInfo{Type: t.SoqlFieldInfo_Literal_Null}
					}
				}
			})
		},
	},
	{
		name: "alias names of select items",
		do: func(e *editor, q *mQuery) bool {
			seen := map[string]int{}
			for _, s := range q.Sels {
				if s.Opd.Kind == opdField {
					seen[s.Opd.Ref.key()]++
				}
			}
			n := 0
			for _, s := range q.Sels {
				if s.Alias == "" && (s.Opd.Kind == opdFunc || s.Opd.Kind == opdField && seen[s.Opd.Ref.key()] == 1) && e.r.Intn(2) == 0 {
					s.Alias = e.fresh()
					n++
				}
			}
			return n > 0
		},
		skip: []string{"SoqlFieldInfo.AliasName"},
	},
	{
		name: "alias names of objects",
		do: func(e *editor, q *mQuery) bool {
			n, seen := 0, map[string]int{}
			for _, d := range q.Decls {
				seen[pathKey(d.Path)]++
			}
			for _, d := range q.Decls {
				if seen[pathKey(d.Path)] == 1 && d.Alias == "" && e.r.Intn(2) == 0 {
					d.Alias = e.fresh()
					n++
				}
			}
			return n > 0
		},
		skip: []string{"SoqlObjectInfo.AliasName"},
	},
	{
		name: "objects declared that are in use",
		do: func(e *editor, q *mQuery) bool {
			own, decl, n := q.ownPaths(), map[string]bool{}, map[int]int{}
			for _, d := range q.Decls {
				decl[pathKey(d.Path)] = true
			}
			for _, p := range own {
				n[len(p)]++
			}
			done := false
			for _, k := range sortedPathKeys(own) {
				p := own[k]
				// the order of objects with paths of the same length may depend on their declaration
				if decl[k] || !hasPrefix(p, q.head()) || e.r.Intn(3) == 0 {
					continue
				}
				alone := true
				for i := len(q.head()) + 1; i <= len(p); i++ {
					alone = alone && n[i] == 1
				}
				if !alone {
					continue
				}
				e.g.inFrom = true
				q.Decls = append(q.Decls, &mDecl{Path: p, Spell: e.g.spellPath(q, p, q.head(), q.Place != placeSelect)})
				e.g.inFrom = false
				done = true
			}
			return done
		},
	},
	{
		name: "a further comparison",
		do: func(e *editor, q *mQuery) bool {
			l := &mCond{Kind: condLeaf, L: fnOpd(e.fresh(), litOpd("1")), Op: t.SoqlConditionOpcode_Eq, R: &mOpd{Kind: opdLit, Lit: e.g.lit()}}
			if q.Where == nil {
				q.Where = l
			} else {
				q.Where = &mCond{Kind: condAnd, Kids: []*mCond{q.Where, l}}
			}
			return true
		},
		skip:  []string{"SoqlQueryMeta.Parameters", "SoqlQueryMeta.DateTimeLiterals", "SoqlQueryMeta.Functions", "SoqlQueryMeta.NextColumnId"},
		erase: func(e *editor, q *t.SoqlQuery) { q.Where, q.PostProcessWhere = nil, nil },
	},
	{
		name: "a further select item",
		do: func(e *editor, q *mQuery) bool {
			e.extra[e.ids[q]] = len(q.Sels)
			q.Sels = append(q.Sels, &mSel{Opd: fnOpd(e.fresh(), litOpd("1")), Alias: []string{"", e.fresh()}[e.r.Intn(2)]})
			return true
		},
		skip: []string{"SoqlQueryMeta.Functions", "SoqlQueryMeta.NextColumnId"},
	},
}

func sortedPathKeys(m map[string][]string) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func clausesApart(x *T) {
	r := x.r
	cfg := defaultCfg()
	cfg.MaxDepth = 1 + r.Intn(3)
	cfg.Agg = []int{10, 60}[r.Intn(2)]
	if r.Intn(2) == 0 {
		cfg.SelSub, cfg.CondSub = 40, 30
	}
	if r.Intn(2) == 0 {
		cfg.Paths, cfg.CondSize = 70, 3
	}
	c := generate(x, cfg, layoutPlain)
	text := func() string {
		w := &renderer{r: r, flat: true}
		w.query(c.q)
		s, _ := layout(r, unambiguous(w.toks), layoutPlain)
		return s
	}
	c.src = text()
	c.o = x.mustParse(c.src)
	if c.o == nil {
		return
	}
	var err error
	if c.pairs, err = pairUp(c.q, c.o, nil, nil); err != nil {
		x.failf("the structure of the result differs from the query: %v", err)
		return
	}
	e := &editor{r: r, g: c.g, src: low(c.src), extra: map[int]int{}, ids: map[*mQuery]int{}}
	for _, p := range c.pairs {
		e.ids[p.m] = p.o.QueryId
	}
	skip := map[string]bool{}
	var names []string
	var erase []func(e *editor, q *t.SoqlQuery)
	for n := 1 + r.Intn(3); n > 0; n-- {
		d := edits[r.Intn(len(edits))]
		done := 0
		for _, q := range c.q.all() {
			if _, ok := e.extra[e.ids[q]]; (r.Intn(2) == 0 || q == c.q) && !ok && d.do(e, q) {
				done++
			}
		}
		if done == 0 {
			continue
		}
		x.count("changed: "+d.name, done)
		names = append(names, d.name)
		for _, s := range d.skip {
			skip[s] = true
		}
		if d.erase != nil {
			erase = append(erase, d.erase)
		}
	}
	if len(names) == 0 {
		return
	}
	b := text()
	qb := x.mustParse(b)
	if qb == nil {
		return
	}
	if b != c.src {
		x.nontrivial(b)
	}
	x.count("results compared", 1)
	for k, q := range []*t.SoqlQuery{c.o, qb} {
		for id, l := range q.Meta.QueryGraph {
			for _, f := range erase {
				f(e, l.Query)
			}
			if i, ok := e.extra[id]; ok && k == 1 {
				if i >= len(l.Query.Fields) || l.Query.Fields[i].Type != t.SoqlFieldInfo_Function {
					x.failf("the item that was added to the select list of\n%s\nis not in the result at its place", c.src)
					return
				}
				l.Query.Fields = append(append([]t.SoqlFieldInfo{}, l.Query.Fields[:i]...), l.Query.Fields[i+1:]...)
			}
		}
	}
	o := dumpOpts{skip: func(f string) bool { return skip[f] || skipText(f) }, renumber: true, str: low}
	if da, db := dump(c.o, o), dump(qb, o); da != db {
		x.failf("with other %s, more differs from the result of\n%s\n%s", strings.Join(names, " and "), c.src, firstDiff(da, db))
	}
}

func init() {
	register(&prop{
		id: "C30", quick: 20000, thorough: 300000,
		rule:   "A case is a generated query, and the same with one or two aspects of some of its queries changed: limit and offset, FOR, sort directions, a sorting by selected items left out, comparison operators, literals, alias names of items and objects, a comparison or a select item added. It counts as non-trivial when the texts differ; distinct by text.",
		assume: []string{"ids are compared up to renumbering", cfgNote},
		minObs: map[string]int64{"results compared": 12000, "changed: limit and offset": 2000, "changed: sort directions": 1000, "changed: ORDER BY selected items": 200, "changed: comparison operators": 1000, "changed: literals of comparisons": 1000, "changed: a further comparison": 2000, "changed: objects declared that are in use": 500},
		run:    clausesApart,
	})
}
