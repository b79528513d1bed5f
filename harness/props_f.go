package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// The rules on which queries are refused. An accepted query is changed at one place, in two ways
// which differ as little as possible: one breaks a rule, the other (the twin) does not.

type mut struct {
	g   *gen
	r   *rand.Rand
	bad bool
	src string
	n   int
	// undo takes back what was changed in other queries; see looks at the accepted result.
	undo func()
	see  func(x *T, o *t.SoqlQuery)
}

type mutator struct {
	name string
	// fn changes the query and reports whether the rule is applicable to it.
	fn func(m *mut, q *mQuery) bool
}

// fresh makes a name that is not in the text yet.
func (m *mut) fresh() string {
	for i := 0; ; i++ {
		s := fmt.Sprintf("%s%d", []string{"Zq", "wk", "Ux_"}[m.r.Intn(3)], m.r.Intn(90)+m.n*100)
		m.n++
		if !strings.Contains(m.src, low(s)) {
			return s
		}
	}
}

func (m *mut) field(q *mQuery) *mRef {
	n := m.fresh()
	obj := q.head()
	if m.r.Intn(4) == 0 {
		obj = cat(obj, m.fresh())
	}
	return m.respell(q, &mRef{Obj: obj, Name: n})
}

func (m *mut) respell(q *mQuery, r *mRef) *mRef {
	return &mRef{Obj: r.Obj, Name: r.Name, Spell: m.g.spellField(q, r.Obj, r.Name)}
}

func fOpd(r *mRef) *mOpd { return &mOpd{Kind: opdField, Ref: r} }

func fnOpd(name string, a ...*mOpd) *mOpd { return &mOpd{Kind: opdFunc, Fn: &mFn{Name: name, Args: a}} }

func litOpd(s string) *mOpd {
	return &mOpd{Kind: opdLit, Lit: &mLit{Type: t.SoqlFieldInfo_Literal_Int, Text: s}}
}

// wrap puts an operand into 0 to 2 further function calls.
func (m *mut) wrap(o *mOpd) *mOpd {
	for k := m.r.Intn(3); k > 0; k-- {
		a := []*mOpd{o}
		if m.r.Intn(2) == 0 {
			a = append(a, litOpd("1"))
		}
		if m.r.Intn(3) == 0 {
			a = append([]*mOpd{litOpd("null")}, a...)
		}
		o = fnOpd([]string{"f", "toLabel", "NVL"}[m.r.Intn(3)], a...)
	}
	return o
}

func (m *mut) addSel(q *mQuery, s *mSel) {
	i := m.r.Intn(len(q.Sels) + 1)
	if m.r.Intn(3) == 0 {
		i = []int{0, len(q.Sels)}[m.r.Intn(2)]
	}
	q.Sels = append(append(append([]*mSel{}, q.Sels[:i]...), s), q.Sels[i:]...)
}

func (m *mut) addGroup(q *mQuery, g *mGroup) {
	i := m.r.Intn(len(q.Groups) + 1)
	q.Groups = append(append(append([]*mGroup{}, q.Groups[:i]...), g), q.Groups[i:]...)
}

func (m *mut) addOrder(q *mQuery, o *mOrder) {
	i := m.r.Intn(len(q.Orders) + 1)
	q.Orders = append(append(append([]*mOrder{}, q.Orders[:i]...), o), q.Orders[i:]...)
}

func (m *mut) addDecl(q *mQuery, path []string, alias string) {
	d := &mDecl{Path: path, Alias: alias, Spell: m.g.spellPath(q, path, q.head(), q.Place != placeSelect)}
	q.Decls = append(append([]*mDecl{}, q.Decls...), d)
}

// addLeaf puts a comparison anywhere into the condition.
func (m *mut) addLeaf(c *mCond, l *mCond) *mCond {
	if c == nil {
		return l
	}
	if c.Kind == condLeaf || m.r.Intn(3) == 0 {
		k := []*mCond{c, l}
		if m.r.Intn(2) == 0 {
			k[0], k[1] = k[1], k[0]
		}
		return &mCond{Kind: []condKind{condAnd, condOr}[m.r.Intn(2)], Kids: k}
	}
	d := *c
	d.Kids = append([]*mCond{}, c.Kids...)
	i := m.r.Intn(len(d.Kids))
	d.Kids[i] = m.addLeaf(d.Kids[i], l)
	return &d
}

func (m *mut) leaf(l, r *mOpd) *mCond {
	return &mCond{Kind: condLeaf, Op: []t.SoqlConditionOpcode{t.SoqlConditionOpcode_Eq, t.SoqlConditionOpcode_NotEq, t.SoqlConditionOpcode_Gt}[m.r.Intn(3)], L: l, R: r}
}

func (m *mut) either(bad, good *mOpd) *mOpd {
	if m.bad {
		return bad
	}
	return good
}

func (m *mut) orderOf(q *mQuery, r *mRef) *mOrder {
	return &mOrder{Ref: r, Spell: m.g.uncapture(q, r).Spell}
}

func (m *mut) groupOf(q *mQuery, r *mRef) *mGroup {
	return &mGroup{Ref: r, Spell: m.g.uncapture(q, r).Spell}
}

func hasCount(o *mOpd) bool {
	f := false
	walkOpd(o, 0, func(o *mOpd, _ int) {
		if o.Kind == opdFunc {
			n := low(o.Fn.Name)
			f = f || n == "count" || n == "count_distinct"
		}
	})
	return f
}

var semanticRules = []mutator{
	{"duplicate object alias", func(m *mut, q *mQuery) bool {
		a := m.fresh()
		var have []string
		for _, d := range q.Decls {
			if d.Alias != "" {
				have = append(have, d.Alias)
			}
		}
		b := m.fresh()
		p, p2 := cat(q.head(), m.fresh()), cat(q.head(), m.fresh())
		if len(have) > 0 {
			a = have[m.r.Intn(len(have))]
		} else {
			m.addDecl(q, p, a)
		}
		if m.bad {
			b = flipCase(m.r, a)
		}
		m.addDecl(q, p2, b)
		return true
	}},
	{"duplicate field alias", func(m *mut, q *mQuery) bool {
		a, b := m.fresh(), m.fresh()
		var have []string
		for _, d := range q.Sels {
			if d.Alias != "" {
				have = append(have, d.Alias)
			}
		}
		item := func() *mOpd {
			if q.IsAgg {
				return fnOpd("max", fOpd(m.field(q)))
			}
			if m.r.Intn(3) == 0 {
				return fnOpd("f", fOpd(m.field(q)))
			}
			return fOpd(m.field(q))
		}
		o1, o2 := item(), item()
		if len(have) > 0 {
			a = have[m.r.Intn(len(have))]
		} else {
			m.addSel(q, &mSel{Opd: o1, Alias: a})
		}
		if m.bad {
			b = flipCase(m.r, a)
		}
		m.addSel(q, &mSel{Opd: o2, Alias: b})
		return true
	}},
	{"duplicate grouping item", func(m *mut, q *mQuery) bool {
		if !q.IsAgg {
			return false
		}
		if len(q.Groups) == 0 {
			m.addGroup(q, m.groupOf(q, m.field(q)))
		}
		g := q.Groups[m.r.Intn(len(q.Groups))]
		var d *mGroup
		switch {
		case g.Ref != nil:
			d = m.groupOf(q, m.respell(q, g.Ref))
		case g.Alias.Opd.Kind == opdField && m.r.Intn(2) == 0:
			d = m.groupOf(q, m.respell(q, g.Alias.Opd.Ref)) // by its name and by its alias
		default:
			d = &mGroup{Alias: g.Alias, Spell: []string{flipCase(m.r, g.Alias.Alias)}}
		}
		f := m.field(q)
		if !m.bad {
			d = m.groupOf(q, f)
		}
		m.addGroup(q, d)
		return true
	}},
	{"duplicate sort item", func(m *mut, q *mQuery) bool {
		if len(q.Orders) == 0 {
			m.addOrder(q, m.orderOf(q, m.respell(q, &mRef{Obj: q.head(), Name: m.fresh()})))
		}
		g := q.Orders[m.r.Intn(len(q.Orders))]
		var d *mOrder
		switch {
		case g.Ref != nil:
			d = m.orderOf(q, m.respell(q, g.Ref))
		case g.Alias.Opd.Kind == opdField && m.r.Intn(2) == 0:
			d = m.orderOf(q, m.respell(q, g.Alias.Opd.Ref))
		default:
			d = &mOrder{Alias: g.Alias, Spell: []string{flipCase(m.r, g.Alias.Alias)}}
		}
		d.Dir = []string{"", "asc", "desc"}[m.r.Intn(3)]
		f := m.respell(q, &mRef{Obj: q.head(), Name: m.fresh()})
		if !m.bad {
			d = m.orderOf(q, f)
		}
		m.addOrder(q, d)
		return true
	}},
	{"qualified primary object", func(m *mut, q *mQuery) bool {
		if q.Place == placeSelect {
			return false
		}
		d := *q.Decls[0]
		d.Spell = cat(d.Spell, m.fresh())
		if m.bad {
			q.Decls = append([]*mDecl{&d}, q.Decls[1:]...)
		}
		return true
	}},
	{"item of an ancestor selected", func(m *mut, q *mQuery) bool {
		if q.Place != placeSelect {
			return false
		}
		obj := q.Parent.head()
		if m.bad {
			obj = obj[:1+m.r.Intn(len(obj))]
		}
		// the name at the start of the path must still stand for the ancestor here
		if p, ok := q.known[low(obj[0])]; !ok || len(p) != 1 || !sameName(p[0], obj[0]) {
			return false
		}
		ref := fOpd(&mRef{Obj: obj, Spell: cat(obj, m.fresh())})
		if m.bad {
			m.addSel(q, &mSel{Opd: ref})
		} else {
			q.Where = m.addLeaf(q.Where, m.leaf(ref, litOpd("1")))
		}
		return true
	}},
	{"field of a query further out", func(m *mut, q *mQuery) bool {
		if q.Place != placeSelect || q.Parent.Place != placeSelect {
			return false
		}
		// a field that this query reads may be referred to
		out := q.Parent.Parent
		if out.Place == placeSelect && m.r.Intn(2) == 0 {
			out = out.Parent
		}
		obj := out.head()
		if p, ok := q.known[low(obj[0])]; !ok || len(p) != 1 || !sameName(p[0], obj[0]) {
			return false
		}
		name := m.fresh()
		ref := fOpd(&mRef{Obj: obj, Spell: cat(obj, name)})
		if m.r.Intn(3) == 0 {
			ref = m.wrap(ref)
		}
		q.Where = m.addLeaf(q.Where, m.leaf(ref, litOpd("1")))
		if m.bad {
			return true
		}
		saved := *out
		m.undo = func() { *out = saved }
		r := m.respell(out, &mRef{Obj: obj, Name: name})
		if m.r.Intn(2) == 0 {
			m.addSel(out, &mSel{Opd: fOpd(r)})
		} else {
			out.Where = m.addLeaf(out.Where, m.leaf(fOpd(r), litOpd("2")))
		}
		m.see = func(x *T, o *t.SoqlQuery) {
			n := 0
			for _, l := range o.Meta.QueryGraph {
				eachRef(l.Query, func(where string, f *t.SoqlFieldInfo, _ int) {
					if f.Type != t.SoqlFieldInfo_Field || !sameName(f.Name[len(f.Name)-1], name) {
						return
					}
					v, ok := o.Meta.ViewGraph[f.ViewId]
					if !ok || len(v.Object.Name) != len(obj) || !eqFoldPath(v.Object.Name, obj) {
						x.failf("%s: %s is of the view %d", where, fInfo(f), f.ViewId)
						return
					}
					c := v.Object.PerObjectQuery.Fields
					if f.ColIndex < 0 || f.ColIndex >= len(c) || c[f.ColIndex].Key != f.Key || c[f.ColIndex].ColumnId != f.ColumnId {
						x.failf("%s: the column %d of %s is not it", where, f.ColIndex, fInfo(f))
					}
					n++
				})
			}
			x.count("references to fields of queries further out", n)
		}
		return true
	}},
	{"item of a sibling selected", func(m *mut, q *mQuery) bool {
		if q.Place != placeSelect || q.IsAgg {
			return false
		}
		var c [][]string
		for _, p := range sortedPaths(q.Parent.reg) {
			if hasPrefix(p, q.Parent.head()) && !hasPrefix(q.head(), p) && !hasPrefix(p, q.head()) {
				c = append(c, p)
			}
		}
		if len(c) == 0 {
			return false
		}
		obj := c[m.r.Intn(len(c))]
		if p, ok := q.known[low(obj[0])]; !ok || len(p) != 1 || !sameName(p[0], obj[0]) {
			return false
		}
		ref := fOpd(&mRef{Obj: obj, Spell: cat(obj, m.fresh())})
		inFn := m.r.Intn(2) == 0
		if m.bad {
			if inFn {
				ref = m.wrap(fnOpd("g", ref))
			}
			m.addSel(q, &mSel{Opd: ref})
		} else {
			q.Where = m.addLeaf(q.Where, m.leaf(ref, litOpd("1")))
		}
		return true
	}},
	{"parameters of count", func(m *mut, q *mQuery) bool {
		if !q.IsAgg {
			return false
		}
		a, b := fOpd(m.field(q)), fOpd(m.field(q))
		good := fnOpd(flipCase(m.r, []string{"count", "count_distinct"}[m.r.Intn(2)]), a)
		lit := &mOpd{Kind: opdLit, Lit: m.g.lit()}
		n := "count"
		var bad *mOpd
		k := m.r.Intn(8)
		if k >= 4 {
			n = "count_distinct"
		}
		n = flipCase(m.r, n)
		switch k % 4 {
		case 0:
			bad = fnOpd(n, a, b)
		case 1:
			bad = fnOpd(n, lit)
		case 2:
			bad = fnOpd(n, fnOpd("f", a))
		default:
			bad = fnOpd(n, a, lit)
			if k == 7 {
				bad = fnOpd(n)
			}
		}
		o := m.wrap(m.either(bad, good))
		if m.r.Intn(3) == 0 {
			if len(q.Groups) == 0 {
				m.addGroup(q, m.groupOf(q, m.field(q)))
			}
			if m.r.Intn(3) == 0 {
				q.Having = m.addLeaf(q.Having, m.leaf(fnOpd("count"), o))
			} else {
				q.Having = m.addLeaf(q.Having, m.leaf(o, litOpd("1")))
			}
		} else {
			m.addSel(q, &mSel{Opd: o})
		}
		return true
	}},
	{"count in a where clause", func(m *mut, q *mQuery) bool {
		n := flipCase(m.r, []string{"count", "count_distinct"}[m.r.Intn(2)])
		a := []*mOpd{fOpd(m.field(q))}
		if m.r.Intn(3) == 0 && low(n) == "count" {
			a = nil
		}
		g := []string{"max", "counts", "cnt"}[m.r.Intn(3)]
		if !m.bad {
			n = g
		}
		o := m.wrap(fnOpd(n, a...))
		if m.r.Intn(4) == 0 {
			q.Where = m.addLeaf(q.Where, m.leaf(fOpd(m.field(q)), o))
		} else {
			q.Where = m.addLeaf(q.Where, m.leaf(o, litOpd("1")))
		}
		return true
	}},
	{"sorting by an object not read", func(m *mut, q *mQuery) bool {
		rel, f := m.fresh(), m.fresh()
		obj := cat(q.head(), rel)
		sp := m.g.spellPath(q, obj, q.head(), true)
		if !m.bad {
			if m.r.Intn(2) == 0 && !q.IsAgg {
				m.addSel(q, &mSel{Opd: fOpd(m.respell(q, &mRef{Obj: obj, Name: m.fresh()}))})
			} else {
				m.addDecl(q, obj, "")
			}
		}
		m.addOrder(q, &mOrder{Spell: cat(sp, f)})
		return true
	}},
	{"FIELDS()", func(m *mut, q *mQuery) bool {
		n := flipCase(m.r, "fields")
		all := fOpd(&mRef{Spell: []string{[]string{"All", "standard", "CUSTOM"}[m.r.Intn(3)]}})
		g := &mSel{Opd: fnOpd(n, all)}
		alias := m.fresh()
		if m.r.Intn(3) > 0 {
			alias = ""
		}
		sel := func(o *mOpd) *mSel {
			if !m.bad && !q.IsAgg { // not for a field set
				return &mSel{Opd: o}
			}
			return &mSel{Opd: o, Alias: alias}
		}
		if q.IsAgg {
			g.Opd = fnOpd("max", all)
			if m.r.Intn(3) == 0 {
				if m.bad {
					g.Opd = fnOpd(n, all)
				}
				m.addSel(q, sel(g.Opd))
				return true
			}
		}
		switch m.r.Intn(8) {
		case 0:
			m.addSel(q, sel(m.either(fnOpd(n), g.Opd)))
		case 1:
			m.addSel(q, sel(m.either(fnOpd(n, all, all), g.Opd)))
		case 2:
			m.addSel(q, sel(m.either(fnOpd(n, &mOpd{Kind: opdLit, Lit: m.g.lit()}), g.Opd)))
		case 3:
			m.addSel(q, sel(m.either(fnOpd(n, fnOpd("f", all)), g.Opd)))
		case 4:
			m.addSel(q, sel(m.either(m.wrap(fnOpd("f", fnOpd(n, all))), g.Opd)))
		case 5:
			o := m.wrap(fnOpd([]string{"fieldz", n}[b2i(m.bad)], all))
			if m.r.Intn(2) == 0 {
				q.Where = m.addLeaf(q.Where, m.leaf(o, litOpd("1")))
			} else {
				q.Where = m.addLeaf(q.Where, m.leaf(fOpd(m.field(q)), o))
			}
		case 6:
			if !q.IsAgg {
				return false
			}
			if len(q.Groups) == 0 {
				m.addGroup(q, m.groupOf(q, m.field(q)))
			}
			q.Having = m.addLeaf(q.Having, m.leaf(m.wrap(fnOpd([]string{"max", n}[b2i(m.bad)], all)), litOpd("1")))
		default:
			u := fOpd(&mRef{Spell: []string{m.fresh(), "ALL"}})
			m.addSel(q, sel(m.either(fnOpd(n, u), g.Opd)))
		}
		return true
	}},
	{"subquery in the select list of an aggregation", func(m *mut, q *mQuery) bool {
		if !q.IsAgg {
			return false
		}
		s := &mQuery{Place: placeSelect, Parent: q, Decls: []*mDecl{{Spell: []string{m.fresh()}}}, Sels: []*mSel{{Opd: fOpd(&mRef{Spell: []string{"Id"}})}}}
		s.Decls[0].Path = cat(q.head(), s.Decls[0].Spell...)
		m.addSel(q, &mSel{Opd: m.either(&mOpd{Kind: opdSub, Sub: s}, fnOpd("count"))})
		return true
	}},
	{"having without group by", func(m *mut, q *mQuery) bool {
		if len(q.Groups) > 0 {
			return false
		}
		h := m.leaf(fnOpd("max", fOpd(m.field(q))), litOpd("1"))
		if q.IsAgg {
			q.Having = h
			f := m.field(q)
			if !m.bad {
				m.addGroup(q, m.groupOf(q, f))
			}
		} else if m.bad {
			q.Having = h
		} else {
			q.Where = m.addLeaf(q.Where, h)
		}
		return true
	}},
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// group makes the field a grouping item, or adds nothing or a grouping item that is not this field.
func (m *mut) group(q *mQuery, f *mRef) {
	f2 := m.respell(q, f)
	if m.r.Intn(3) != 0 {
		if !m.bad {
			m.addGroup(q, m.groupOf(q, f2))
		}
		return
	}
	// by the alias name of another item, which may be the name of the field, too
	s := &mSel{Opd: fOpd(f2), Alias: m.fresh()}
	if m.r.Intn(2) == 0 {
		s.Alias = flipCase(m.r, f.Name)
	}
	if m.bad {
		s.Opd = fOpd(m.field(q))
		if m.r.Intn(4) == 0 {
			s.Opd = fnOpd("max", s.Opd)
		}
	}
	m.addSel(q, s)
	m.addGroup(q, &mGroup{Alias: s, Spell: []string{flipCase(m.r, s.Alias)}})
}

var groupingRules = []mutator{
	{"ungrouped select item", func(m *mut, q *mQuery) bool {
		if !q.IsAgg {
			return false
		}
		f := m.field(q)
		s := &mSel{Opd: fOpd(f)}
		byAlias := m.r.Intn(3) == 0
		if byAlias || m.r.Intn(3) == 0 {
			s.Alias = m.fresh()
		}
		m.addSel(q, s)
		switch {
		case byAlias && !m.bad:
			m.addGroup(q, &mGroup{Alias: s, Spell: []string{flipCase(m.r, s.Alias)}})
		case byAlias && m.r.Intn(2) == 0:
			// a field of the alias's name is something else
			m.addGroup(q, m.groupOf(q, &mRef{Obj: q.head(), Name: s.Alias, Spell: []string{flipCase(m.r, s.Alias)}}))
		case !byAlias:
			m.group(q, f)
		}
		return true
	}},
	{"ungrouped parameter of a scalar function", func(m *mut, q *mQuery) bool {
		if !q.IsAgg {
			return false
		}
		f := m.field(q)
		inner := fnOpd([]string{"max", "count", "count_distinct"}[m.r.Intn(3)], fOpd(m.field(q)))
		switch m.r.Intn(5) {
		case 0:
			inner = fnOpd("g", litOpd("1")) // not an aggregate function
		case 1:
			inner = fnOpd("g", inner)
		}
		a := []*mOpd{fOpd(f), inner}
		if m.r.Intn(3) == 0 {
			a = append(a, litOpd("1"))
		}
		m.r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
		o := m.wrap(fnOpd("coalesce", a...))
		switch k := m.r.Intn(4); k {
		case 0, 1:
			m.addSel(q, &mSel{Opd: o})
		default:
			if len(q.Groups) == 0 {
				m.addGroup(q, m.groupOf(q, m.field(q)))
			}
			l := m.leaf(o, litOpd("1"))
			if k == 3 {
				l = m.leaf(fnOpd("max", fOpd(m.field(q))), o)
			}
			q.Having = m.addLeaf(q.Having, l)
		}
		m.group(q, f)
		return true
	}},
	{"grouping item removed", func(m *mut, q *mQuery) bool {
		if !q.IsAgg || len(q.Groups) < 2 {
			return false
		}
		for _, s := range q.Sels {
			if s.Opd.Kind != opdField {
				continue
			}
			var rest []*mGroup
			hit := false
			for _, g := range q.Groups {
				if g.Ref != nil && g.Ref.key() == s.Opd.Ref.key() || g.Alias == s {
					hit = true
				} else {
					rest = append(rest, g)
				}
			}
			for _, o := range q.Sels { // the same field may be grouped by the alias of another item
				if o != s && o.Opd.Kind == opdField && o.Opd.Ref.key() == s.Opd.Ref.key() {
					hit = false
				}
			}
			if hit && len(rest) > 0 {
				if m.bad {
					q.Groups = rest
				}
				return true
			}
		}
		return false
	}},
	{"count() next to plain items", func(m *mut, q *mQuery) bool {
		if q.IsAgg || len(q.selSubs()) > 0 {
			return false
		}
		plain := false
		for _, s := range q.Sels {
			plain = plain || s.Opd.Kind == opdField
		}
		if !plain {
			return false
		}
		n := flipCase(m.r, []string{"count", "count_distinct"}[m.r.Intn(2)])
		g := []string{"max", "county"}[m.r.Intn(2)]
		if !m.bad {
			n = g
		}
		m.addSel(q, &mSel{Opd: m.wrap(fnOpd(n, fOpd(m.field(q))))})
		return true
	}},
	{"sum of an ungrouped item is an aggregate", func(m *mut, q *mQuery) bool {
		// the counterpart: no grouping is needed for the parameters of an aggregate function
		if !q.IsAgg {
			return false
		}
		f := fOpd(m.field(q))
		o := fnOpd("sum", f)
		if m.bad {
			o = f
		}
		m.addSel(q, &mSel{Opd: o})
		return true
	}},
}

// ruleCase applies one of the rules to one of the queries of a generated tree.
func ruleCase(x *T, rules []mutator, c *qcase) {
	qs := c.q.all()
	var q *mQuery
	var rule mutator
	seed := x.r.Int63()
	var see func(x *T, o *t.SoqlQuery)
	apply := func(bad bool) (string, bool) {
		saved := *q
		m := &mut{g: c.g, r: rand.New(rand.NewSource(seed)), bad: bad, src: low(c.src)}
		g := *c.g
		g.r = m.r
		m.g = &g
		ok := rule.fn(m, q)
		var s string
		if ok {
			w := &renderer{r: rand.New(rand.NewSource(seed + 1)), quot: 5}
			w.query(c.q)
			s, _ = layout(w.r, unambiguous(w.toks), layoutPlain)
		}
		*q = saved
		if m.undo != nil {
			m.undo()
		}
		see = m.see
		return s, ok
	}
	var bad, good string
	for try := 0; ; try++ {
		if try > 12 {
			x.count("no rule applicable", 1)
			return
		}
		q, rule = qs[x.r.Intn(len(qs))], rules[x.r.Intn(len(rules))]
		var ok, ok2 bool
		if bad, ok = apply(true); !ok {
			continue
		}
		if good, ok2 = apply(false); ok2 {
			break
		}
	}
	where := fmt.Sprintf("%s, %v query at depth %d", rule.name, q.Place, q.Depth)
	o, err, ok := x.parse(good)
	if !ok {
		return
	}
	if err != nil || o == nil {
		x.failKind("rejected", "a query that keeps the rule was rejected (%s): %v", where, err)
		return
	}
	x.count("accepted: "+rule.name, 1)
	if see != nil {
		see(x, o)
	}
	o, err, ok = x.parse(bad)
	if !ok {
		return
	}
	if err == nil || o != nil {
		x.failKind("accepted", "a query against the rule was accepted (%s); its twin is %s", where, good)
		return
	}
	if strings.Contains(err.Error(), "\n --> Line") {
		x.count("rejected as malformed", 1)
	}
	x.count("rejected: "+rule.name, 1)
	x.count("rejected in a "+q.Place.String()+" query", 1)
	if q.Depth > 2 {
		x.count("rejected below depth 2", 1)
	}
	if q.Depth > 1 || len(qs) > 1 {
		x.nontrivial(bad)
	}
}

// wantAggregated says whether the operand is an aggregate function.
func wantAggregated(o *mOpd, agg bool) bool {
	if o.Kind != opdFunc {
		return false
	}
	n := low(o.Fn.Name)
	if n == "count" || n == "count_distinct" {
		return true
	}
	if !agg {
		return false
	}
	field := false
	for _, a := range o.Fn.Args {
		switch a.Kind {
		case opdField:
			field = true
		case opdFunc:
			return false
		}
	}
	return field
}

func aggregation(x *T) {
	cfg := defaultCfg()
	cfg.Agg = 65
	cfg.CondSub = 20
	c := runCase(x, cfg)
	if c == nil {
		return
	}
	nt := 0
	for _, p := range c.pairs {
		if p.o.IsAggregation != p.m.IsAgg && (!p.o.IsAggregation || len(p.m.Groups) == 0) {
			x.failf("the %s is an aggregation: %v, in the result: %v", p.name(), p.m.IsAgg, p.o.IsAggregation)
		}
		if p.m.IsAgg {
			x.count("aggregation queries", 1)
		} else {
			x.count("other queries", 1)
		}
		check := func(where string, m *mOpd, o *t.SoqlFieldInfo, agg bool) {
			err := both(m, o, func(m *mOpd, o *t.SoqlFieldInfo) error {
				w := wantAggregated(m, agg)
				if o.Aggregated != w {
					return fmt.Errorf("%s is an aggregate function: %v, in the result: %v", fInfo(o), w, o.Aggregated)
				}
				if m.Kind == opdFunc {
					if w {
						x.count("aggregate functions", 1)
					} else {
						x.count("other functions", 1)
					}
					if p.m.IsAgg {
						nt++
					}
				}
				return nil
			})
			if err != nil {
				x.failf("%s of the %s: %v", where, p.name(), err)
			}
		}
		for i, s := range p.m.Sels {
			check("select item "+strconv.Itoa(i), s.Opd, &p.o.Fields[i], p.m.IsAgg)
		}
		for i, l := range p.m.Where.leaves(nil) {
			ol := p.where.leaves(nil)[i]
			check("a where comparison", l.L, ol.l, false)
			check("a where comparison", l.R, ol.r, false)
		}
		for i, l := range p.m.Having.leaves(nil) {
			ol := p.having.leaves(nil)[i]
			check("a having comparison", l.L, ol.l, true)
			check("a having comparison", l.R, ol.r, true)
		}
		for i, g := range p.m.Groups {
			if g.Alias != nil && i < len(p.o.GroupBy) {
				check("grouping item "+strconv.Itoa(i), g.Alias.Opd, &p.o.GroupBy[i], true)
			}
		}
		for i, g := range p.m.Orders {
			if g.Alias != nil && i < len(p.o.OrderBy) {
				check("sort item "+strconv.Itoa(i), g.Alias.Opd, &p.o.OrderBy[i].Field, p.m.IsAgg)
			}
		}
	}
	if nt > 0 {
		x.nontrivial(c.src)
	}
	ruleCase(x, groupingRules, c)
}

func init() {
	ruleObs := func(rules []mutator, n int64) map[string]int64 {
		o := map[string]int64{}
		for _, r := range rules {
			o["rejected: "+r.name] = n
			o["accepted: "+r.name] = n
		}
		return o
	}
	o := ruleObs(groupingRules, 200)
	o["aggregate functions"], o["other functions"], o["aggregation queries"], o["other queries"] = 5000, 5000, 5000, 5000
	register(&prop{
		id: "C14", quick: 9000, thorough: 350000,
		rule: "A case is a generated query tree with aggregation queries at any place, and a pair of variants of it which differ in whether one item is grouped. It counts as non-trivial when an aggregation query with functions is in it, or the changed query is part of a tree; distinct by text.",
		assume: []string{"a function other than count and count_distinct is an aggregate function of an aggregation query if and only if a parameter is a field and none is a function call",
			"the parser does not know which functions aggregate, so that f(x) in an aggregation query is one"},
		minObs: o,
		run:    aggregation,
	})
	o = ruleObs(semanticRules, 60)
	o["rejected in a primary query"], o["rejected in a select-subquery query"], o["rejected in a conditional-subquery query"], o["rejected below depth 2"] = 2000, 1000, 1000, 400
	register(&prop{
		id: "C15", quick: 14000, thorough: 350000,
		rule:   "A case is a generated query tree changed at one query in it in two ways, one against a rule and one in accordance with it. It counts as non-trivial when the tree has more than one query; distinct by text.",
		assume: []string{"the twin differs from the query against the rule in nothing else that matters"},
		minObs: o,
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.Agg = 35
			cfg.CondSub = 20
			cfg.SelSub = 50
			if x.r.Intn(3) == 0 {
				cfg.MaxDepth = 3 + x.r.Intn(3)
				cfg.SelSub = 80
			}
			if c := generate(x, cfg, layoutPlain); c != nil {
				ruleCase(x, semanticRules, c)
			}
		},
	})
}
