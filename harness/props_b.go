package main

import (
	"sort"
	"strconv"
	"strings"
	"time"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// fromOf finds the object of the query by its path key.
func (p *pair) fromOf(key string) *t.SoqlObjectInfo {
	for i := range p.o.From {
		if pathKey(p.o.From[i].Name) == key {
			return &p.o.From[i]
		}
	}
	return nil
}

// owner is the query which provides the object of the field: the query itself, or the
// parent if the field is correlated.
func (p *pair) owner(f *t.SoqlFieldInfo) (*pair, *t.SoqlObjectInfo) {
	k := objKeyOf(f)
	if ob := p.fromOf(k); ob != nil {
		return p, ob
	}
	if p.m.Place == placeSelect && p.parent != nil {
		if ob := p.parent.fromOf(k); ob != nil {
			return p.parent, ob
		}
	}
	return nil, nil
}

// scope is the root of the select chain: the names and the columns are shared below it.
func (p *pair) scope() *pair {
	for p.m.Place == placeSelect {
		p = p.parent
	}
	return p
}

// conds counts the conditions' subqueries on the way to the query, and returns the query around the last one
func (p *pair) conds() (int, *pair) {
	n := 0
	var outer *pair
	for q := p; q != nil; q = q.parent {
		if q.m.Place == placeCond {
			n++
			if outer == nil {
				outer = q.parent
			}
		}
	}
	return n, outer
}

func (p *pair) inCond() bool {
	for ; p != nil; p = p.parent {
		if p.m.Place == placeCond {
			return true
		}
	}
	return false
}

func init() {
	// ---- per-object queries ----
	register(&prop{
		id: "C08", quick: 14000, thorough: 300000,
		rule:   "A query counts as non-trivial when it reads at least three objects; distinct by source text.",
		assume: []string{cfgNote},
		minObs: map[string]int64{"per-object queries": 4000, "per-object fields": 6000, "per-object sort items": 500, "per-object field sets": 100},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.Paths, cfg.Extras, cfg.OrderBy, cfg.For, cfg.Page, cfg.FancyLit = 60, 50, 65, 45, 55, false
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			n := 0
			for _, p := range c.pairs {
				n += len(p.o.From)
				perObjectCheck(x, p)
			}
			if n >= 3 {
				x.nontrivial(c.src)
			}
		},
	})

	// ---- filter decomposition ----
	register(&prop{
		id: "C09", quick: 16000, thorough: 300000,
		rule:   "A query counts as non-trivial when a where condition has comparisons of at least two different objects or kinds (own field, function, subquery); distinct by source text.",
		assume: []string{cfgNote, "conditions of up to 8 distinct comparisons are compared on every three-valued assignment, larger ones on 4096 sampled assignments"},
		minObs: map[string]int64{"where conditions decomposed": 2000, "per-object conditions": 1500, "post-process conditions": 1000, "fully pushed conditions": 300, "truth assignments": 100000},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.Where, cfg.CondSize, cfg.Paths, cfg.Func, cfg.FancyLit = 100, 9, 50, 12, false
			cfg.OwnCond, cfg.CondSub = 12, 8
			if x.r.Intn(2) == 0 {
				cfg.Func, cfg.CondSub, cfg.OwnCond = 4, 2, 6
			}
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			nt := false
			for _, p := range c.pairs {
				if filterCheck(x, p) >= 2 {
					nt = true
				}
			}
			if nt {
				x.nontrivial(c.src)
			}
		},
	})

	// ---- fetch plan ----
	register(&prop{
		id: "C10", quick: 14000, thorough: 300000,
		rule:   "A query counts as non-trivial when some field is needed but not selected; distinct by source text.",
		assume: []string{cfgNote},
		minObs: map[string]int64{"column indexes": 8000, "not selected columns": 1500, "correlated columns": 100},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.Func, cfg.Correl, cfg.DupCols, cfg.FancyLit = 35, 20, 15, false
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			ns := 0
			for _, p := range c.pairs {
				ns += fetchCheck(x, p, c)
			}
			if ns > 0 {
				x.nontrivial(c.src)
			}
		},
	})

	// ---- ids ----
	register(&prop{
		id: "C11", quick: 14000, thorough: 300000,
		rule:   "A query counts as non-trivial when it has at least one subquery and some column is referred to more than once; distinct by source text.",
		assume: []string{cfgNote, "the relationship a select-subquery reads is not also read as a to-one relationship by the query around it"},
		minObs: map[string]int64{"columns": 8000, "views": 4000, "queries": 4000, "columns shared between clauses": 1000, "aliased sort/group columns": 100},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.SelSub, cfg.CondSub, cfg.Agg, cfg.FancyLit, cfg.DupCols = 45, 18, 30, false, 12
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			shared := idCheck(x, c)
			if len(c.pairs) > 1 && shared > 0 {
				x.nontrivial(c.src)
			}
		},
	})

	// ---- graphs ----
	register(&prop{
		id: "C12", quick: 12000, thorough: 300000,
		rule:   "A query counts as non-trivial when it has at least two queries and four views; distinct by source text.",
		assume: []string{cfgNote, "the relationship a select-subquery reads is not also read as a to-one relationship by the query around it"},
		minObs: map[string]int64{"view graph leaves": 4000, "query graph leaves": 4000, "conditional queries": 300, "to-many views": 300},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.SelSub, cfg.CondSub, cfg.FancyLit = 45, 18, false
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			graphCheck(x, c)
			if len(c.pairs) > 1 && len(c.o.Meta.ViewGraph) >= 4 {
				x.nontrivial(c.src)
			}
		},
	})

	// ---- correlated subqueries ----
	register(&prop{
		id: "C13", quick: 14000, thorough: 300000,
		rule:   "A query counts as non-trivial when a select-subquery refers to a field of its parent query; distinct by source text.",
		assume: []string{cfgNote, "references over two levels (to the parent of the parent) are not generated"},
		minObs: map[string]int64{"correlated subqueries": 800, "uncorrelated subqueries": 800, "correlated references": 1000, "columns added to the parent": 300, "correlated references to a relationship of the parent": 50},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.SelSub, cfg.Correl, cfg.Agg, cfg.Where, cfg.FancyLit, cfg.MaxDepth = 85, 25, 8, 85, false, 4
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			nt := false
			for _, p := range c.pairs {
				if correlCheck(x, p) {
					nt = true
				}
			}
			if nt {
				x.nontrivial(c.src)
			}
		},
	})

	// ---- implicit alias names ----
	register(&prop{
		id: "C16", quick: 14000, thorough: 300000,
		rule:   "A query counts as non-trivial when it has at least two items which need an implicit alias name; distinct by source text.",
		assume: []string{cfgNote},
		minObs: map[string]int64{"implicit alias names": 3000, "explicit alias names": 3000, "repeated columns": 300, "skipped alias names": 30},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.Func, cfg.DupCols, cfg.FancyLit, cfg.Agg = 40, 30, false, 35
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			n := 0
			for _, p := range c.pairs {
				n += aliasCheck(x, p)
			}
			if n >= 2 {
				x.nontrivial(c.src)
			}
		},
	})

	// ---- meta ----
	register(&prop{
		id: "C17", quick: 14000, thorough: 300000,
		rule:   "A query counts as non-trivial when it uses at least one function, one parameter and one date literal; distinct by source text.",
		assume: []string{cfgNote, "whether the pseudo function FIELDS() is listed among the functions is not decided"},
		minObs: map[string]int64{"functions": 2000, "parameters": 2000, "date literals": 1000},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.Func, cfg.Where, cfg.Page = 35, 85, 50
			before := time.Now()
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			metaCheck(x, c, before, time.Now())
		},
	})

	// ---- join flags ----
	register(&prop{
		id: "C23", quick: 14000, thorough: 300000,
		rule:   "A query counts as non-trivial when an object other than the first one of the query has a direct condition; distinct by source text.",
		assume: []string{cfgNote, "the InnerJoin flag of the view graph is not decided for the first object of a conditional subquery"},
		minObs: map[string]int64{"objects": 4000, "inner-joined objects": 500, "objects with conditions": 1000, "objects with conditions that are not inner-joined": 300, "inner joins propagated to an intermediate object": 50},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.Where, cfg.CondSize, cfg.Paths, cfg.Func, cfg.FancyLit, cfg.CondSub = 95, 7, 60, 10, false, 6
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			nt := false
			for _, p := range c.pairs {
				if joinCheck(x, p, c) {
					nt = true
				}
			}
			if nt {
				x.nontrivial(c.src)
			}
		},
	})

	// ---- From ----
	register(&prop{
		id: "C24", quick: 14000, thorough: 300000,
		rule:   "A query counts as non-trivial when some object of it is declared implicitly; distinct by source text.",
		assume: []string{cfgNote},
		minObs: map[string]int64{"objects": 4000, "implicit objects": 1500, "declared objects": 3000},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.Paths, cfg.Extras, cfg.Alias, cfg.FancyLit = 60, 55, 55, false
			c := runCase(x, cfg)
			if c == nil {
				return
			}
			nt := false
			for _, p := range c.pairs {
				if fromCheck(x, p) {
					nt = true
				}
			}
			if nt {
				x.nontrivial(c.src)
			}
		},
	})
}

func perObjectCheck(x *T, p *pair) {
	m, o := p.m, p.o
	total := 0
	for i := range o.From {
		ob := &o.From[i]
		po := ob.PerObjectQuery
		key := pathKey(ob.Name)
		x.count("per-object queries", 1)
		if po == nil || len(po.From) != 1 || !eqFoldPath(po.From[0].Name, ob.Name) || po.From[0].AliasName != ob.AliasName || po.From[0].ViewId != ob.ViewId {
			x.failf("the per-object query of %q of the %s is missing or reads something else", ob.Name, p.name())
			continue
		}
		// the fields of the object, in the order of the query
		var want []*t.SoqlFieldInfo
		for j := range o.Fields {
			f := &o.Fields[j]
			if (f.Type == t.SoqlFieldInfo_Field || f.Type == t.SoqlFieldInfo_FieldSet) && objKeyOf(f) == key {
				want = append(want, f)
			}
		}
		if len(want) != len(po.Fields) {
			x.failf("the per-object query of %q of the %s has %d fields instead of %d", ob.Name, p.name(), len(po.Fields), len(want))
		} else {
			total += len(want)
			x.count("per-object fields", len(want))
			for j, f := range want {
				g := &po.Fields[j]
				if f.Type == t.SoqlFieldInfo_FieldSet {
					x.count("per-object field sets", 1)
				}
				if g.Type != f.Type || nameKeyOf(g) != nameKeyOf(f) || g.AliasName != f.AliasName || g.NotSelected != f.NotSelected || g.ColumnId != f.ColumnId || g.ViewId != f.ViewId {
					x.failf("field %d of the per-object query of %q of the %s is %s instead of %s", j, ob.Name, p.name(), content(g), content(f))
				}
			}
		}
		// what was written
		k := 0
		for _, s := range m.Sels {
			if (s.Opd.Kind == opdField || s.Opd.Kind == opdFieldSet) && pathKey(s.Opd.Ref.Obj) == key {
				if k >= len(po.Fields) || opdIs(s.Opd, &po.Fields[k]) != nil || po.Fields[k].NotSelected {
					x.failf("the selected item %s is not at %d of the per-object query of %q of the %s", strings.Join(s.Opd.Ref.Spell, "."), k, ob.Name, p.name())
				}
				k++
			}
		}
		for ; k < len(po.Fields); k++ {
			if !po.Fields[k].NotSelected {
				x.failf("the per-object query of %q of the %s selects %s, which was not selected", ob.Name, p.name(), fInfo(&po.Fields[k]))
			}
		}
		// sort items
		var ord []*mOrder
		for _, g := range m.Orders {
			r := g.Ref
			if g.Alias != nil && g.Alias.Opd.Kind == opdField {
				r = g.Alias.Opd.Ref
			}
			if r != nil && pathKey(r.Obj) == key {
				ord = append(ord, g)
			}
		}
		if len(ord) != len(po.OrderBy) {
			x.failf("the per-object query of %q of the %s has %d sort items instead of %d", ob.Name, p.name(), len(po.OrderBy), len(ord))
		} else {
			x.count("per-object sort items", len(ord))
			for j, g := range ord {
				r := g.Ref
				if r == nil {
					r = g.Alias.Opd.Ref
				}
				f := &po.OrderBy[j]
				if err := fieldIs(r, &f.Field); err != nil || f.Desc != (g.Dir == "desc") || f.NullsLast != (g.Nulls == "last") {
					x.failf("sort item %d of the per-object query of %q of the %s is %s desc=%v nulls last=%v (%v)", j, ob.Name, p.name(), fInfo(&f.Field), f.Desc, f.NullsLast, err)
				}
			}
		}
		lim := t.SoqlOffsetAndLimitClause{}
		if i == 0 {
			lim = o.OffsetAndLimit
			if m.Limit != nil && (lim.Limit != m.Limit.Val || lim.LimitParamName != m.Limit.Param) || m.Offset != nil && (lim.Offset != m.Offset.Val || lim.OffsetParamName != m.Offset.Param) {
				x.failf("offset and limit of the %s are %+v", p.name(), lim)
			}
		}
		if po.OffsetAndLimit != lim {
			x.failf("offset and limit of the per-object query of %q of the %s are %+v instead of %+v", ob.Name, p.name(), po.OffsetAndLimit, lim)
		}
		if po.For != o.For || len(m.For) > 0 && po.For == (t.SoqlForClause{}) {
			x.failf("the for clause of the per-object query of %q of the %s is %+v", ob.Name, p.name(), po.For)
		}
		if len(po.GroupBy) != 0 || len(po.Having) != 0 {
			x.failf("the per-object query of %q of the %s is an aggregation", ob.Name, p.name())
		}
	}
	// every field is fetched by exactly one object, unless it belongs to the parent query
	own := 0
	for j := range o.Fields {
		f := &o.Fields[j]
		if (f.Type == t.SoqlFieldInfo_Field || f.Type == t.SoqlFieldInfo_FieldSet) && p.fromOf(objKeyOf(f)) != nil {
			own++
		}
	}
	if own != total {
		x.failf("the per-object queries of the %s have %d fields, the query has %d of its own", p.name(), total, own)
	}
}

// atomKey identifies a comparison.
func atomKey(c *oCond) string {
	return content(c.l) + " " + strconv.Itoa(int(c.op)) + " " + content(c.r)
}

func (c *oCond) conjuncts(out []*oCond) []*oCond {
	if c == nil {
		return out
	}
	if c.l == nil && c.op == t.SoqlConditionOpcode_And {
		return c.kids[1].conjuncts(c.kids[0].conjuncts(out))
	}
	return append(out, c)
}

// solely reports whether the comparison can be decided by the object alone.
func solely(c *oCond, key string) bool {
	for _, f := range []*t.SoqlFieldInfo{c.l, c.r} {
		switch f.Type {
		case t.SoqlFieldInfo_Field:
			if objKeyOf(f) != key {
				return false
			}
		case t.SoqlFieldInfo_Function, t.SoqlFieldInfo_SubQuery:
			return false
		}
	}
	return true
}

func filterCheck(x *T, p *pair) int {
	o := p.o
	bad := func(format string, a ...interface{}) {
		x.failf("%s: "+format+"\nwhere: %s", append(append([]interface{}{p.name()}, a...), p.where.String())...)
	}
	post, err := rpn(o.PostProcessWhere)
	if err != nil {
		bad("the post-process condition is broken: %v", err)
		return 0
	}
	if p.where == nil {
		if post != nil {
			bad("a post-process condition without a where clause: %s", post)
		}
		for i := range o.From {
			if len(o.From[i].PerObjectQuery.Where) > 0 {
				bad("%q has a condition without a where clause", o.From[i].Name)
			}
		}
		return 0
	}
	x.count("where conditions decomposed", 1)

	idx := map[string]int{}
	var leaves []*oCond
	groups := map[string]bool{}
	for _, l := range p.where.leaves(nil) {
		k := atomKey(l)
		if _, ok := idx[k]; !ok {
			idx[k] = len(leaves)
			leaves = append(leaves, l)
		}
		own := false
		for i := range o.From {
			if ok := pathKey(o.From[i].Name); solely(l, ok) && (l.l.Type == t.SoqlFieldInfo_Field || l.r.Type == t.SoqlFieldInfo_Field) {
				groups[ok] = true
				own = true
			}
		}
		if !own {
			groups["-"] = true
		}
	}
	atoms, n := assignments(x.r, len(leaves), false)
	x.count("truth assignments", n)
	missing := ""
	leaf := func(c *oCond) tri {
		i, ok := idx[atomKey(c)]
		if !ok {
			missing = c.String()
			return newTri(len(atoms[0].T))
		}
		return atoms[i]
	}
	words := 1
	if len(atoms) > 0 {
		words = len(atoms[0].T)
	}
	one := newTri(words)
	for i := range one.T {
		one.T[i] = ^uint64(0)
	}

	whole := evalO(p.where, leaf)
	all := one
	if post != nil {
		x.count("post-process conditions", 1)
		all = evalO(post, leaf)
	} else {
		x.count("fully pushed conditions", 1)
	}
	for i := range o.From {
		ob := &o.From[i]
		key := pathKey(ob.Name)
		w, err := rpn(ob.PerObjectQuery.Where)
		if err != nil {
			bad("the condition of the per-object query of %q is broken: %v", ob.Name, err)
			return 0
		}
		got := one
		if w != nil {
			x.count("per-object conditions", 1)
			for _, l := range w.leaves(nil) {
				if !solely(l, key) {
					bad("the per-object query of %q has the condition %s", ob.Name, l)
				}
			}
			got = evalO(w, leaf)
			all = all.and(got)
		}
		want := evalO(p.where, func(c *oCond) tri {
			if solely(c, key) {
				return leaf(c)
			}
			return one
		})
		// Rows of a correct result must never be filtered out, and what can be filtered must be.
		if !got.eq(want) {
			dropped := false
			for k := range whole.T {
				if whole.T[k]&^got.T[k] != 0 {
					dropped = true
				}
			}
			bad("the condition of the per-object query of %q is %s (drops rows of the result: %v)", ob.Name, w, dropped)
		}
		if taut := want.eq(one); taut != (w == nil) {
			bad("the condition of the per-object query of %q is %s; nothing to filter: %v", ob.Name, w, taut)
		}
	}
	if missing != "" {
		bad("the comparison %s is not in the where condition", missing)
		return 0
	}
	if !all.sameTrue(whole) {
		bad("the per-object conditions and the post-process condition together are not equivalent to the where condition; post-process: %s", post)
	}
	for _, c := range post.conjuncts(nil) {
		for i := range o.From {
			key := pathKey(o.From[i].Name)
			only, has := true, false
			for _, l := range c.leaves(nil) {
				if !solely(l, key) {
					only = false
				}
				if l.l.Type == t.SoqlFieldInfo_Field || l.r.Type == t.SoqlFieldInfo_Field {
					has = true
				}
			}
			if only && has {
				bad("%s is already decided by the per-object query of %q, but it is still in the post-process condition", c, o.From[i].Name)
			}
		}
	}
	return len(groups)
}

// upRefs are the references of the select-subqueries to the query.
func upRefs(m *mQuery) map[string]*mRef {
	r := map[string]*mRef{}
	for _, s := range m.selSubs() {
		for _, f := range s.refs {
			if f.Up {
				r[f.key()] = f
			}
		}
	}
	return r
}

func fetchCheck(x *T, p *pair, c *qcase) int {
	m, o := p.m, p.o
	bad := func(format string, a ...interface{}) {
		x.failf("%s: "+format, append([]interface{}{p.name()}, a...)...)
	}
	// what must be in the list of the fields: selected items, then whatever else is needed, once
	selected := map[string]bool{}
	for _, s := range m.Sels {
		if s.Opd.Kind == opdField {
			selected[s.Opd.Ref.key()] = true
		}
	}
	need := map[string]bool{}
	for _, r := range m.refs {
		if !selected[r.key()] {
			need[r.key()] = true
		}
	}
	for k := range upRefs(m) {
		if !selected[k] {
			need[k] = true
		}
	}
	got := map[string]bool{}
	for i := len(m.Sels); i < len(o.Fields); i++ {
		f := &o.Fields[i]
		k := nameKeyOf(f)
		if f.Type != t.SoqlFieldInfo_Field || !f.NotSelected {
			bad("%s is neither selected nor a column to be fetched", fInfo(f))
			continue
		}
		x.count("not selected columns", 1)
		if !need[k] {
			bad("%s is fetched but neither selected nor needed", fInfo(f))
		}
		if got[k] {
			bad("%s is fetched twice", fInfo(f))
		}
		got[k] = true
	}
	for k := range need {
		if !got[k] {
			bad("%s is needed but not fetched", strings.ReplaceAll(k, "\x00", ""))
		}
	}
	for i := 0; i < len(m.Sels); i++ {
		if o.Fields[i].NotSelected {
			bad("the selected %s is marked as not selected", fInfo(&o.Fields[i]))
		}
	}
	// every reference leads to the column fetched by the object
	eachRef(o, func(where string, f *t.SoqlFieldInfo, depth int) {
		if f.Type != t.SoqlFieldInfo_Field {
			return
		}
		x.count("column indexes", 1)
		ow, ob := p.owner(f)
		if ow == nil {
			bad("%s in %s is of an unknown object", fInfo(f), where)
			return
		}
		if ow != p {
			x.count("correlated columns", 1)
		}
		po := ob.PerObjectQuery
		if f.ColIndex < 0 || f.ColIndex >= len(po.Fields) {
			bad("column index %d of %s in %s: the object fetches %d columns", f.ColIndex, fInfo(f), where, len(po.Fields))
			return
		}
		if g := &po.Fields[f.ColIndex]; g.Type != t.SoqlFieldInfo_Field || nameKeyOf(g) != nameKeyOf(f) {
			bad("column index %d of %s in %s leads to %s", f.ColIndex, fInfo(f), where, fInfo(g))
		}
	})
	// per object: positions, and no needless column
	for i := range o.From {
		po := o.From[i].PerObjectQuery
		seen := map[string]bool{}
		for j := range po.Fields {
			f := &po.Fields[j]
			if f.Type != t.SoqlFieldInfo_Field {
				continue
			}
			k := nameKeyOf(f)
			if f.NotSelected && (seen[k] || selected[k] || !need[k]) {
				bad("the per-object query of %q fetches %s needlessly", o.From[i].Name, fInfo(f))
			}
			if f.ColIndex != j {
				bad("column %d of the per-object query of %q has the index %d", j, o.From[i].Name, f.ColIndex)
			}
			seen[k] = true
		}
	}
	return len(got)
}

func idCheck(x *T, c *qcase) int {
	meta := c.o.Meta
	bad := x.failf

	// queries
	qids := map[int]bool{}
	for _, p := range c.pairs {
		x.count("queries", 1)
		if qids[p.o.QueryId] {
			bad("query id %d is used twice", p.o.QueryId)
		}
		qids[p.o.QueryId] = true
		if p.parent == nil && p.o.QueryId != 1 {
			bad("the id of the primary query is %d", p.o.QueryId)
		}
		if p.parent != nil && p.o.QueryId <= p.parent.o.QueryId {
			bad("the id %d of the %s is not after the id %d of its parent", p.o.QueryId, p.name(), p.parent.o.QueryId)
		}
	}
	contiguous(x, "query", qids, meta.NextQueryId)

	// views
	vids := map[int]bool{}
	for _, p := range c.pairs {
		for i := range p.o.From {
			x.count("views", 1)
			v := p.o.From[i].ViewId
			if vids[v] {
				bad("view id %d is used twice", v)
			}
			vids[v] = true
		}
	}
	contiguous(x, "view", vids, meta.NextViewId)
	for _, p := range c.pairs {
		for i := range p.o.From {
			name := p.o.From[i].Name
			want := 0
			if len(name) > 1 {
				k := pathKey(name[:len(name)-1])
				for q := p; q != nil; {
					if ob := q.fromOf(k); ob != nil {
						want = ob.ViewId
						break
					}
					if q.m.Place != placeSelect {
						break
					}
					q = q.parent
				}
				if want == 0 {
					bad("the parent object of %q of the %s is not in any From list", name, p.name())
				}
			}
			if p.o.From[i].ParentViewId != want {
				bad("the parent view of %q of the %s is %d instead of %d", name, p.name(), p.o.From[i].ParentViewId, want)
			}
		}
	}

	// columns
	cids := map[int]bool{}
	ident := map[int]string{} // what the id stands for
	use := map[string]int{}
	shared := 0
	fns := 0
	for _, p := range c.pairs {
		sc := p.scope().o.QueryId
		aliasRef := map[*t.SoqlFieldInfo]bool{}
		for i, g := range p.m.Orders {
			if i < len(p.o.OrderBy) && g.Alias != nil && g.Alias.Opd.Kind != opdField {
				aliasRef[&p.o.OrderBy[i].Field] = true
			}
		}
		for i, g := range p.m.Groups {
			if i < len(p.o.GroupBy) && g.Alias != nil && g.Alias.Opd.Kind != opdField {
				aliasRef[&p.o.GroupBy[i]] = true
			}
		}
		inAlias := false
		eachRef(p.o, func(where string, f *t.SoqlFieldInfo, depth int) {
			if depth == 0 {
				inAlias = aliasRef[f]
			}
			switch f.Type {
			case t.SoqlFieldInfo_Field:
				own, ob := p.owner(f)
				k := strconv.Itoa(sc) + " " + nameKeyOf(f)
				if ob != nil {
					k = strconv.Itoa(own.o.QueryId) + " " + nameKeyOf(f)
				}
				x.count("columns", 1)
				if f.ColumnId <= 0 {
					bad("%s in %s of the %s has no column id", fInfo(f), where, p.name())
					return
				}
				if w, ok := ident[f.ColumnId]; ok && w != k {
					bad("column id %d stands for %s and for %s", f.ColumnId, w, k)
				}
				ident[f.ColumnId] = k
				if id, ok := use[k]; ok {
					shared++
					x.count("columns shared between clauses", 1)
					if id != f.ColumnId {
						bad("%s in %s of the %s has the column id %d, elsewhere %d", fInfo(f), where, p.name(), f.ColumnId, id)
					}
				}
				use[k] = f.ColumnId
				cids[f.ColumnId] = true
				if ob != nil && f.ViewId != ob.ViewId {
					bad("%s in %s of the %s has the view id %d instead of %d", fInfo(f), where, p.name(), f.ViewId, ob.ViewId)
				}
			case t.SoqlFieldInfo_Function:
				if inAlias {
					return // compared below
				}
				if depth == 0 && f.ColumnId <= 0 || depth > 0 && f.Aggregated && f.ColumnId <= 0 {
					bad("%s in %s of the %s has no column id", fInfo(f), where, p.name())
				}
				fallthrough
			case t.SoqlFieldInfo_FieldSet, t.SoqlFieldInfo_SubQuery:
				if inAlias {
					return
				}
				if f.ColumnId <= 0 {
					if f.Type != t.SoqlFieldInfo_Function {
						bad("%s in %s of the %s has no column id", fInfo(f), where, p.name())
					}
					return
				}
				fns++
				if w, ok := ident[f.ColumnId]; ok {
					bad("column id %d of %s in %s of the %s also stands for %s", f.ColumnId, fInfo(f), where, p.name(), w)
				}
				ident[f.ColumnId] = "computed " + strconv.Itoa(fns)
				cids[f.ColumnId] = true
				if f.Type == t.SoqlFieldInfo_FieldSet {
					if ob := p.fromOf(objKeyOf(f)); ob != nil && ob.ViewId != f.ViewId {
						bad("%s of the %s has the view id %d instead of %d", fInfo(f), p.name(), f.ViewId, ob.ViewId)
					}
				}
			default:
				if f.ColumnId != 0 {
					bad("the literal %s has the column id %d", fInfo(f), f.ColumnId)
				}
			}
		})
		itemOf := func(s *mSel) *t.SoqlFieldInfo {
			for i := range p.m.Sels {
				if p.m.Sels[i] == s {
					return &p.o.Fields[i]
				}
			}
			return nil
		}
		for i, g := range p.m.Orders {
			if g.Alias != nil && i < len(p.o.OrderBy) {
				x.count("aliased sort/group columns", 1)
				if w := itemOf(g.Alias); w.ColumnId != p.o.OrderBy[i].Field.ColumnId {
					bad("sort item %d of the %s has the column id %d, the select item %s has %d", i, p.name(), p.o.OrderBy[i].Field.ColumnId, g.Alias.Alias, w.ColumnId)
				}
			}
		}
		for i, g := range p.m.Groups {
			if g.Alias != nil && i < len(p.o.GroupBy) {
				x.count("aliased sort/group columns", 1)
				if w := itemOf(g.Alias); w.ColumnId != p.o.GroupBy[i].ColumnId {
					bad("grouping item %d of the %s has the column id %d, the select item %s has %d", i, p.name(), p.o.GroupBy[i].ColumnId, g.Alias.Alias, w.ColumnId)
				}
			}
		}
	}
	contiguous(x, "column", cids, meta.NextColumnId)
	return shared
}

func contiguous(x *T, what string, ids map[int]bool, next int) {
	if next != len(ids)+1 {
		x.failf("next %s id is %d, but %d ids are in use", what, next, len(ids))
	}
	for id := range ids {
		if id < 1 || id >= next {
			x.failf("%s id %d is not between 1 and %d", what, id, next-1)
		}
	}
}

func graphCheck(x *T, c *qcase) {
	meta := c.o.Meta
	bad := x.failf
	if len(meta.QueryGraph) != len(c.pairs) {
		bad("the query graph has %d leaves for %d queries", len(meta.QueryGraph), len(c.pairs))
	}
	views, maxQ, maxV := 0, 0, 0
	for _, p := range c.pairs {
		x.count("query graph leaves", 1)
		l, ok := meta.QueryGraph[p.o.QueryId]
		if !ok {
			bad("the %s is not in the query graph", p.name())
			continue
		}
		if l.Query != p.o {
			bad("the leaf %d of the query graph refers to another query than the %s", p.o.QueryId, p.name())
		}
		want := 0
		if p.parent != nil {
			want = p.parent.o.QueryId
		}
		if l.ParentQueryId != want {
			bad("the parent query of the %s is %d instead of %d", p.name(), l.ParentQueryId, want)
		}
		if l.Depth != p.m.Depth {
			bad("the depth of the %s is %d instead of %d", p.name(), l.Depth, p.m.Depth)
		}
		if p.m.Depth > maxQ {
			maxQ = p.m.Depth
		}
		cond := p.m.Place == placeCond
		if cond {
			x.count("conditional queries", 1)
		}
		if l.IsConditional != cond && (cond || !p.inCond()) {
			bad("the %s is conditional=%v in the query graph", p.name(), l.IsConditional)
		}
		wantParent := (*t.SoqlQuery)(nil)
		if p.m.Place == placeSelect {
			wantParent = p.parent.o
		}
		if p.m.Place != placeCond && p.o.Parent != wantParent {
			bad("the parent pointer of the %s is wrong", p.name())
		}
		for i := range p.o.From {
			ob := &p.o.From[i]
			views++
			x.count("view graph leaves", 1)
			v, ok := meta.ViewGraph[ob.ViewId]
			if !ok {
				bad("the view %q of the %s is not in the view graph", ob.Name, p.name())
				continue
			}
			many := p.m.Place == placeSelect && i == 0
			if many {
				x.count("to-many views", 1)
			}
			if low(v.Name) != low(ob.Name[len(ob.Name)-1]) || v.ParentViewId != ob.ParentViewId || v.QueryId != p.o.QueryId || v.QueryDepth != p.m.Depth {
				bad("the leaf of the view %q of the %s is %+v", ob.Name, p.name(), v)
			}
			if v.Many != many {
				bad("the view %q of the %s: many=%v", ob.Name, p.name(), v.Many)
			}
			if v.NonResult != p.inCond() {
				bad("the view %q of the %s: not for the result=%v", ob.Name, p.name(), v.NonResult)
			}
			if v.Object != ob || v.Query != p.o {
				bad("the leaf of the view %q of the %s refers to another object or query", ob.Name, p.name())
			}
			// the objects of a condition's subquery are below the primary object of the query around it
			if conds, outer := p.conds(); conds <= 1 {
				want := len(ob.Name)
				if outer != nil {
					want += len(outer.o.From[0].Name)
					x.count("views of conditions' subqueries with depth", 1)
				}
				if v.Depth != want {
					bad("the depth of the view %q of the %s is %d", ob.Name, p.name(), v.Depth)
				}
			}
			if v.Depth > maxV {
				maxV = v.Depth
			}
			// following the parents ends at a root
			n, id := 0, ob.ViewId
			for id != 0 && n <= len(meta.ViewGraph) {
				u, ok := meta.ViewGraph[id]
				if !ok {
					bad("the view graph refers to the unknown view %d", id)
					break
				}
				id = u.ParentViewId
				n++
			}
			if n != len(ob.Name) {
				bad("there are %d views on the way from %q of the %s to the root", n, ob.Name, p.name())
			}
		}
	}
	if len(meta.ViewGraph) != views {
		bad("the view graph has %d leaves for %d views", len(meta.ViewGraph), views)
	}
	if meta.MaxQueryDepth != maxQ {
		bad("the maximum query depth is %d instead of %d", meta.MaxQueryDepth, maxQ)
	}
	if meta.MaxViewDepth != maxV {
		bad("the maximum view depth is %d instead of %d", meta.MaxViewDepth, maxV)
	}
}

func correlCheck(x *T, p *pair) bool {
	m, o := p.m, p.o
	bad := func(format string, a ...interface{}) {
		x.failf("%s: "+format, append([]interface{}{p.name()}, a...)...)
	}
	if m.Place != placeSelect {
		if o.IsCorelated {
			bad("is marked as correlated")
		}
		if o.Parent != nil {
			bad("has a parent")
		}
		return false
	}
	if o.Parent != p.parent.o {
		bad("the parent pointer is wrong")
	}
	ups := map[string]*mRef{}
	for _, r := range m.refs {
		if r.Up {
			ups[r.key()] = r
		}
	}
	if o.IsCorelated != (len(ups) > 0) {
		bad("correlated=%v, but it has %d references to the parent", o.IsCorelated, len(ups))
	}
	if len(ups) == 0 {
		x.count("uncorrelated subqueries", 1)
		return false
	}
	x.count("correlated subqueries", 1)
	pa := p.parent
	for _, r := range m.refs {
		if !r.Up {
			continue
		}
		x.count("correlated references", 1)
		if len(r.Obj) > len(pa.m.head()) {
			x.count("correlated references to a relationship of the parent", 1)
		}
		n := 0
		for i := range pa.o.Fields {
			f := &pa.o.Fields[i]
			if f.Type == t.SoqlFieldInfo_Field && nameKeyOf(f) == r.key() {
				n++
				sel := false
				for _, s := range pa.m.Sels {
					if s.Opd.Kind == opdField && s.Opd.Ref.key() == r.key() {
						sel = true
					}
				}
				if f.NotSelected == sel {
					bad("%s is in the fields of the parent with not selected=%v", fInfo(f), f.NotSelected)
				}
				if f.NotSelected {
					x.count("columns added to the parent", 1)
				}
			}
		}
		if n == 0 {
			bad("%s is not in the fields of the parent", strings.Join(r.Spell, "."))
		}
	}
	for i := range o.From {
		for k := 1; k <= len(o.From[i].Name); k++ {
			_ = k
		}
		if m.anc[pathKey(o.From[i].Name)] {
			bad("reads the object %q of the parent again", o.From[i].Name)
		}
	}
	eachRef(o, func(where string, f *t.SoqlFieldInfo, depth int) {
		if f.Type != t.SoqlFieldInfo_Field {
			return
		}
		r := ups[nameKeyOf(f)]
		if r == nil {
			return
		}
		ob := pa.fromOf(pathKey(r.Obj))
		if ob == nil {
			bad("the object of %s is not read by the parent", fInfo(f))
			return
		}
		if f.ViewId != ob.ViewId {
			bad("%s in %s has the view id %d instead of %d of the parent", fInfo(f), where, f.ViewId, ob.ViewId)
		}
		po := ob.PerObjectQuery
		if f.ColIndex < 0 || f.ColIndex >= len(po.Fields) || nameKeyOf(&po.Fields[f.ColIndex]) != r.key() {
			bad("%s in %s has the column index %d, which the parent does not fetch as that", fInfo(f), where, f.ColIndex)
		} else if po.Fields[f.ColIndex].ColumnId != f.ColumnId {
			bad("%s in %s has the column id %d, the parent has %d", fInfo(f), where, f.ColumnId, po.Fields[f.ColIndex].ColumnId)
		}
	})
	// The reference is not a column to be fetched by the subquery itself.
	for i := range o.From {
		for j := range o.From[i].PerObjectQuery.Fields {
			if f := &o.From[i].PerObjectQuery.Fields[j]; f.Type == t.SoqlFieldInfo_Field && ups[nameKeyOf(f)] != nil {
				bad("fetches %s, which belongs to the parent", fInfo(f))
			}
		}
	}
	return true
}

func aliasCheck(x *T, p *pair) int {
	m, o := p.m, p.o
	bad := func(format string, a ...interface{}) {
		x.failf("%s: "+format, append([]interface{}{p.name()}, a...)...)
	}
	explicit := map[string]bool{}
	for _, s := range m.Sels {
		if s.Alias != "" {
			explicit[low(s.Alias)] = true
		}
	}
	n, need := 0, 0
	seen := map[string]bool{}
	names := map[string]bool{}
	for i, s := range m.Sels {
		f := &o.Fields[i]
		want := s.Alias
		if s.Alias != "" {
			x.count("explicit alias names", 1)
		} else {
			auto := s.Opd.Kind == opdFunc
			if s.Opd.Kind == opdField {
				k := s.Opd.Ref.key()
				auto = seen[k]
				seen[k] = true
				if auto {
					x.count("repeated columns", 1)
				}
			}
			if auto {
				need++
				x.count("implicit alias names", 1)
				for {
					want = "expr" + strconv.Itoa(n)
					n++
					if !explicit[want] {
						break
					}
					x.count("skipped alias names", 1)
				}
			}
		}
		if f.AliasName != want {
			bad("select item %d (%s) has the alias name %q instead of %q", i, fInfo(f), f.AliasName, want)
		}
		if f.AliasName != "" {
			if names[low(f.AliasName)] {
				bad("the alias name %q is used twice", f.AliasName)
			}
			names[low(f.AliasName)] = true
		}
	}
	for i := len(m.Sels); i < len(o.Fields); i++ {
		if o.Fields[i].AliasName != "" {
			bad("the column %s, which is not selected, has the alias name %q", fInfo(&o.Fields[i]), o.Fields[i].AliasName)
		}
	}
	return need
}

func metaCheck(x *T, c *qcase, before, after time.Time) {
	meta := c.o.Meta
	if meta == nil {
		x.failf("there is no meta information")
		return
	}
	fn, par, dl := map[string]bool{}, map[string]bool{}, map[string]bool{}
	lit := func(l *mLit) {
		switch l.Type {
		case t.SoqlFieldInfo_ParameterizedValue:
			par[low(l.Name)] = true
			x.count("parameters", 1)
		case t.SoqlFieldInfo_DateTimeLiteralName:
			dl[low(l.Name)] = true
			x.count("date literals", 1)
		}
	}
	for _, p := range c.pairs {
		p.m.walkAll(func(o *mOpd, depth int) {
			switch o.Kind {
			case opdFunc:
				fn[low(o.Fn.Name)] = true
				x.count("functions", 1)
			case opdLit:
				lit(o.Lit)
			case opdList:
				for _, l := range o.List {
					lit(l)
				}
			}
		})
		for _, n := range []*mNum{p.m.Offset, p.m.Limit} {
			if n != nil && n.Param != "" {
				par[low(n.Param)] = true
				x.count("parameters", 1)
			}
		}
	}
	cmp := func(what string, want map[string]bool, got map[string]struct{}) {
		var miss, extra []string
		for k := range want {
			if _, ok := got[k]; !ok {
				miss = append(miss, k)
			}
		}
		for k := range got {
			if !want[k] && !(what == "functions" && k == "fields") {
				extra = append(extra, k)
			}
		}
		sort.Strings(miss)
		sort.Strings(extra)
		if len(miss) > 0 || len(extra) > 0 {
			x.failf("%s: missing %q, surplus %q", what, miss, extra)
		}
	}
	cmp("functions", fn, meta.Functions)
	cmp("parameters", par, meta.Parameters)
	cmp("date literals", dl, meta.DateTimeLiterals)
	if meta.Source != c.src {
		x.failf("the source is %q", meta.Source)
	}
	if meta.Version != "0.9" {
		x.failf("the version is %q", meta.Version)
	}
	if meta.Date.Before(before.Add(-time.Second)) || meta.Date.After(after.Add(time.Second)) || meta.Date.Location() != time.UTC {
		x.failf("the date %v is not when the query was parsed (%v)", meta.Date, before)
	}
	if meta.ElapsedTime < 0 || meta.ElapsedTime > after.Sub(before)+time.Second {
		x.failf("the elapsed time is %v", meta.ElapsedTime)
	}
	if len(fn) > 0 && len(par) > 0 && len(dl) > 0 {
		x.nontrivial(c.src)
	}
}

func joinCheck(x *T, p *pair, c *qcase) bool {
	o := p.o
	nt := false
	anyInner := func(name []string) bool {
		for i := 1; i < len(o.From); i++ {
			if f := o.From[i].Name; hasPrefix(f, name) && o.From[i].InnerJoin {
				if hasPrefix(f, p.m.head()) && !hasPrefix(name, p.m.head()) {
					continue // the first object of the query is in between
				}
				return true
			}
		}
		return false
	}
	for i := range o.From {
		ob := &o.From[i]
		key := pathKey(ob.Name)
		x.count("objects", 1)
		has := false
		for _, l := range p.where.leaves(nil) {
			for _, f := range []*t.SoqlFieldInfo{l.l, l.r} {
				if f.Type == t.SoqlFieldInfo_Field && objKeyOf(f) == key {
					has = true
				}
			}
		}
		if has {
			x.count("objects with conditions", 1)
			nt = nt || i > 0
		}
		if ob.HasConditions != has {
			x.failf("the object %q of the %s: has conditions=%v", ob.Name, p.name(), ob.HasConditions)
		}
		// Can the object alone reject a row? (the condition has no Not: all of its own comparisons false, others true)
		filters := false
		if p.where != nil {
			v := evalO(p.where, func(l *oCond) tri {
				if solely(l, key) {
					return tri{[]uint64{0}, []uint64{1}}
				}
				return tri{[]uint64{1}, []uint64{0}}
			})
			filters = v.T[0]&1 == 0
		}
		want := filters && i > 0
		if want {
			x.count("inner-joined objects", 1)
		} else if has && i > 0 {
			x.count("objects with conditions that are not inner-joined", 1)
		}
		if ob.InnerJoin != want {
			x.failf("the object %q of the %s: inner join=%v, but its filter exists=%v; where: %s", ob.Name, p.name(), ob.InnerJoin, filters, p.where.String())
		}
		if filters != (len(ob.PerObjectQuery.Where) > 0) {
			x.failf("the object %q of the %s: per-object filter exists=%v instead of %v; where: %s", ob.Name, p.name(), len(ob.PerObjectQuery.Where) > 0, filters, p.where.String())
		}
		l := c.o.Meta.ViewGraph[ob.ViewId]
		if i > 0 {
			w := anyInner(ob.Name)
			if w && !ob.InnerJoin {
				x.count("inner joins propagated to an intermediate object", 1)
			}
			if l.InnerJoin != w {
				x.failf("the view of %q of the %s: inner join=%v instead of %v", ob.Name, p.name(), l.InnerJoin, w)
			}
		} else if p.m.Place != placeCond && l.InnerJoin {
			x.failf("the view of the first object %q of the %s is inner-joined", ob.Name, p.name())
		}
	}
	return nt
}

func fromCheck(x *T, p *pair) bool {
	m, o := p.m, p.o
	want := m.ownPaths()
	seen := map[string]bool{}
	nt := false
	for i := range o.From {
		k := pathKey(o.From[i].Name)
		x.count("objects", 1)
		if _, ok := want[k]; !ok {
			x.failf("the object %q of the %s is not needed", o.From[i].Name, p.name())
		}
		if seen[k] {
			x.failf("the object %q of the %s is listed twice", o.From[i].Name, p.name())
		}
		seen[k] = true
		if i > 1 && len(o.From[i].Name) < len(o.From[i-1].Name) {
			x.failf("the object %q of the %s is listed after the deeper %q", o.From[i].Name, p.name(), o.From[i-1].Name)
		}
	}
	if !eqFoldPath(o.From[0].Name, m.head()) {
		x.failf("the first object of the %s is %q", p.name(), o.From[0].Name)
	}
	decl := m.declared()
	if len(m.Decls) > len(decl) {
		x.count("objects declared again", len(m.Decls)-len(decl))
	}
	for k, w := range want {
		if !seen[k] {
			x.failf("the object %q of the %s is missing in From", w, p.name())
		}
		if _, ok := decl[k]; ok {
			x.count("declared objects", 1)
		} else {
			nt = true
			x.count("implicit objects", 1)
		}
	}
	for i := range o.From {
		if a := decl[pathKey(o.From[i].Name)]; o.From[i].AliasName != a {
			x.failf("the object %q of the %s has the alias name %q instead of %q", o.From[i].Name, p.name(), o.From[i].AliasName, a)
		}
	}
	return nt
}
