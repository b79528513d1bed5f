package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strings"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// C28: the plan is executed against made-up data, and the query is evaluated directly from
// its intended meaning. Both must give the same rows.
//
// The data is a function of a seed: every row has a value for every field, a row or nothing for every
// to-one relationship and up to three rows for every child relationship. Values are
// null (-1) or 0..3; functions, parameters and literals have such values, too.

const null = -1

type prow struct{ id uint64 }

type world struct {
	seed  uint64
	roots int
	steps int // rows read, negative
	x     *T
	// conditional subqueries do not depend on the row they are evaluated for
	subs map[interface{}][]int
}

func (w *world) h(a ...interface{}) uint64 {
	f := fnv.New64a()
	fmt.Fprint(f, w.seed)
	for _, v := range a {
		fmt.Fprintf(f, "|%v", v)
	}
	v := f.Sum64()
	v ^= v >> 29
	v *= 0xbf58476d1ce4e5b9
	return v ^ v>>32
}

func (w *world) val(h uint64) int {
	if h%6 == 0 {
		return null
	}
	return int(h >> 8 % 4)
}

func (w *world) field(r *prow, name string) int {
	if r == nil {
		return null
	}
	return w.val(w.h("field", r.id, low(name)))
}

func (w *world) one(r *prow, step string) *prow {
	if r == nil {
		return nil
	}
	h := w.h("one", r.id, low(step))
	if h%4 == 0 {
		return nil
	}
	return &prow{w.h("row", low(step), h>>8%9)}
}

func (w *world) many(r *prow, step string) []*prow {
	if r == nil {
		return nil
	}
	h := w.h("many", r.id, low(step))
	var out []*prow
	for i := uint64(0); i < h%4; i++ {
		out = append(out, &prow{w.h("child", h, i)})
	}
	return out
}

func (w *world) table(name string) []*prow {
	var out []*prow
	for i := 0; i < w.roots; i++ {
		out = append(out, &prow{w.h("root", low(name), i)})
	}
	return out
}

func (w *world) fn(name string, args []int) int { return w.val(w.h("fn", low(name), args)) }

// aggFn does not depend on the order of the rows.
func (w *world) aggFn(name string, rows [][]int) int {
	s := uint64(0)
	for _, a := range rows {
		s += w.h("agg", low(name), a)
	}
	return w.val(w.h("aggregate", low(name), s))
}

func (w *world) param(name string) int { return w.val(w.h("param", low(name))) }

func (w *world) literal(v interface{}) int {
	if v == nil {
		return null
	}
	if d, ok := v.(t.SoqlDateTimeLiteralName); ok {
		v = fmt.Sprint("date literal ", low(d.Name), d.N)
	}
	return int(w.h("literal", v) >> 8 % 4)
}

func (w *world) count(v int64, param string) int {
	if param != "" {
		return int(w.h("count", low(param)) >> 8 % 5)
	}
	return int(w.h("count", v) >> 8 % 5)
}

// truth: 1 true, 0 false, null unknown
func (w *world) compare(op t.SoqlConditionOpcode, l int, r []int) int {
	not := func(v int) int {
		if v == null {
			return null
		}
		return 1 - v
	}
	is := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	any := func(f func(v int) int) int {
		res := 0
		for _, v := range r {
			switch f(v) {
			case 1:
				return 1
			case null:
				res = null
			}
		}
		return res
	}
	first := null
	if len(r) > 0 {
		first = r[0]
	}
	two := func(f func() bool) int {
		if l == null || first == null {
			return null
		}
		return is(f())
	}
	each := func(f func(v int) bool) int {
		if l == null {
			return null
		}
		return any(func(v int) int {
			if v == null {
				return null
			}
			return is(f(v))
		})
	}
	switch op {
	case t.SoqlConditionOpcode_Eq:
		return two(func() bool { return l == first })
	case t.SoqlConditionOpcode_NotEq:
		return two(func() bool { return l != first })
	case t.SoqlConditionOpcode_Lt:
		return two(func() bool { return l < first })
	case t.SoqlConditionOpcode_Le:
		return two(func() bool { return l <= first })
	case t.SoqlConditionOpcode_Gt:
		return two(func() bool { return l > first })
	case t.SoqlConditionOpcode_Ge:
		return two(func() bool { return l >= first })
	case t.SoqlConditionOpcode_Like:
		return two(func() bool { return w.h("like", l, first)%2 == 0 })
	case t.SoqlConditionOpcode_NotLike:
		return two(func() bool { return w.h("like", l, first)%2 != 0 })
	case t.SoqlConditionOpcode_In:
		return each(func(v int) bool { return l == v })
	case t.SoqlConditionOpcode_NotIn:
		return not(each(func(v int) bool { return l == v }))
	case t.SoqlConditionOpcode_Includes:
		return each(func(v int) bool { return w.h("includes", l, v)%3 == 0 })
	case t.SoqlConditionOpcode_Excludes:
		return not(each(func(v int) bool { return w.h("includes", l, v)%3 == 0 }))
	}
	panic("opcode " + op.String())
}

func and3(a, b int) int {
	if a == 0 || b == 0 {
		return 0
	}
	if a == null || b == null {
		return null
	}
	return 1
}

func or3(a, b int) int {
	if a == 1 || b == 1 {
		return 1
	}
	if a == null || b == null {
		return null
	}
	return 0
}

// a result: rows of cells; a cell is a value or the text of a nested result
type cell struct {
	v   int
	sub string
}

type table [][]cell

func (tb table) String() string {
	var b strings.Builder
	for _, r := range tb {
		b.WriteByte('[')
		for i, c := range r {
			if i > 0 {
				b.WriteByte(' ')
			}
			if c.sub != "" {
				b.WriteString(c.sub)
			} else if c.v == null {
				b.WriteString("null")
			} else {
				fmt.Fprint(&b, c.v)
			}
		}
		b.WriteByte(']')
	}
	return "{" + b.String() + "}"
}

// once evaluates a conditional subquery.
func (w *world) once(q interface{}, run func() table) []int {
	if v, ok := w.subs[q]; ok {
		return v
	}
	if w.subs == nil {
		w.subs = map[interface{}][]int{}
	}
	v := w.column(run())
	w.subs[q] = v
	w.x.count("conditional subqueries executed", 1)
	return v
}

func (w *world) column(tb table) []int {
	var out []int
	for _, r := range tb {
		if r[0].sub != "" {
			out = append(out, w.val(w.h("table", r[0].sub)))
		} else {
			out = append(out, r[0].v)
		}
	}
	return out
}

type sortKey struct {
	v               int
	desc, nullsLast bool
}

// finish sorts and pages.
func finish(rows table, keys [][]sortKey, off, lim int) table {
	idx := make([]int, len(rows))
	for i := range idx {
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool {
		ka, kb := keys[idx[a]], keys[idx[b]]
		for i := range ka {
			x, y := ka[i].v, kb[i].v
			if x == y {
				continue
			}
			if x == null || y == null {
				return (x == null) != ka[i].nullsLast
			}
			return (x < y) != ka[i].desc
		}
		return false
	})
	var out table
	for _, i := range idx {
		out = append(out, rows[i])
	}
	if off > len(out) {
		off = len(out)
	}
	out = out[off:]
	if lim > 0 && lim < len(out) {
		out = out[:lim]
	}
	return out
}

// ---- the meaning of the query ----

type rEnv struct {
	q   *mQuery
	row *prow
	up  *rEnv
}

func (w *world) rowOf(e *rEnv, path []string) *prow {
	for ; e != nil; e = e.up {
		if h := e.q.head(); hasPrefix(path, h) {
			r := e.row
			for _, s := range path[len(h):] {
				r = w.one(r, s)
			}
			return r
		}
	}
	panic("no row for " + strings.Join(path, "."))
}

// mEval gives the values of an operand for one row, or for a group of rows.
func (w *world) mEval(o *mOpd, rows []*rEnv, group, agg bool) []int {
	switch o.Kind {
	case opdField:
		if len(rows) == 0 {
			return []int{null}
		}
		e := rows[0]
		if o.Ref.Up {
			e = e.up
		}
		return []int{w.field(w.rowOf(e, o.Ref.Obj), o.Ref.Name)}
	case opdFunc:
		args := func(rows []*rEnv, group bool) []int {
			var a []int
			for _, p := range o.Fn.Args {
				a = append(a, w.mEval(p, rows, group, agg)...)
			}
			return a
		}
		if group && wantAggregated(o, agg) {
			var all [][]int
			for i := range rows {
				all = append(all, args(rows[i:i+1], false))
			}
			return []int{w.aggFn(o.Fn.Name, all)}
		}
		return []int{w.fn(o.Fn.Name, args(rows, group))}
	case opdLit:
		return []int{w.mLit(o.Lit)}
	case opdList:
		var a []int
		for _, l := range o.List {
			a = append(a, w.mLit(l))
		}
		return a
	case opdSub:
		return w.once(o.Sub, func() table { return w.mQuery(o.Sub, nil) })
	}
	return []int{null}
}

func (w *world) mLit(l *mLit) int {
	switch l.Type {
	case t.SoqlFieldInfo_ParameterizedValue:
		return w.param(l.Name)
	case t.SoqlFieldInfo_DateTimeLiteralName:
		return w.literal(t.SoqlDateTimeLiteralName{Name: l.Name, N: l.N})
	}
	return w.literal(l.Val)
}

func (w *world) mCond(c *mCond, rows []*rEnv, group bool) int {
	switch c.Kind {
	case condNot:
		if v := w.mCond(c.Kids[0], rows, group); v != null {
			return 1 - v
		}
		return null
	case condAnd, condOr:
		v := w.mCond(c.Kids[0], rows, group)
		for _, k := range c.Kids[1:] {
			if c.Kind == condAnd {
				v = and3(v, w.mCond(k, rows, group))
			} else {
				v = or3(v, w.mCond(k, rows, group))
			}
		}
		return v
	}
	return w.compare(c.Op, w.mEval(c.L, rows, group, group)[0], w.mEval(c.R, rows, group, group))
}

func (w *world) mQuery(q *mQuery, up *rEnv) table {
	head := q.head()
	var base []*prow
	if q.Place == placeSelect {
		base = w.many(w.rowOf(up, head[:len(head)-1]), head[len(head)-1])
	} else {
		base = w.table(head[0])
	}
	var rows []*rEnv
	for _, r := range base {
		w.steps--
		e := &rEnv{q, r, up}
		if q.Where == nil || w.mCond(q.Where, []*rEnv{e}, false) == 1 {
			rows = append(rows, e)
		}
	}
	var groups [][]*rEnv
	if q.IsAgg {
		at := map[string]int{}
		if len(q.Groups) == 0 {
			groups = append(groups, nil)
			at["[]"] = 0
		}
		for _, e := range rows {
			k := []int{}
			for _, g := range q.Groups {
				if g.Ref != nil {
					k = append(k, w.mEval(&mOpd{Kind: opdField, Ref: g.Ref}, []*rEnv{e}, false, false)...)
				} else {
					k = append(k, w.mEval(g.Alias.Opd, []*rEnv{e}, false, false)...)
				}
			}
			s := fmt.Sprint(k)
			if _, ok := at[s]; !ok {
				at[s] = len(groups)
				groups = append(groups, nil)
			}
			groups[at[s]] = append(groups[at[s]], e)
		}
		var kept [][]*rEnv
		for _, g := range groups {
			if q.Having == nil || w.mCond(q.Having, g, true) == 1 {
				kept = append(kept, g)
			}
		}
		groups = kept
	} else {
		for i := range rows {
			groups = append(groups, rows[i:i+1])
		}
	}
	var out table
	var keys [][]sortKey
	for _, g := range groups {
		var r []cell
		for _, s := range q.Sels {
			if s.Opd.Kind == opdSub {
				r = append(r, cell{sub: w.mQuery(s.Opd.Sub, g[0]).String()})
			} else {
				r = append(r, cell{v: w.mEval(s.Opd, g, q.IsAgg, q.IsAgg)[0]})
			}
		}
		var k []sortKey
		for _, o := range q.Orders {
			opd := &mOpd{Kind: opdField, Ref: o.Ref}
			if o.Alias != nil {
				opd = o.Alias.Opd
			}
			k = append(k, sortKey{w.mEval(opd, g, q.IsAgg, q.IsAgg)[0], o.Dir == "desc", o.Nulls == "last"})
		}
		out, keys = append(out, r), append(keys, k)
	}
	off, lim := 0, 0
	if q.Offset != nil && (q.Offset.Param != "" || q.Offset.Val != 0) {
		off = w.count(q.Offset.Val, q.Offset.Param)
	}
	if q.Limit != nil && (q.Limit.Param != "" || q.Limit.Val != 0) { // 0: not limited
		lim = w.count(q.Limit.Val, q.Limit.Param)
	}
	return finish(out, keys, off, lim)
}

// ---- the execution of the plan ----

type oEnv struct {
	rows map[int]*prow // by view
	recs map[int][]int // by view: the fetched columns; nil: no row
}

type executor struct {
	*world
	views map[int]t.SoqlViewGraphLeaf
	err   string
}

func (w *executor) fail(f string, a ...interface{}) int {
	if w.err == "" {
		w.err = fmt.Sprintf(f, a...)
	}
	return null
}

// oEval gives the values of an operand for one row, or for a group of rows.
func (w *executor) oEval(f *t.SoqlFieldInfo, rows []*oEnv, group bool) []int {
	switch f.Type {
	case t.SoqlFieldInfo_Field:
		if len(rows) == 0 {
			return []int{null}
		}
		rec, ok := rows[0].recs[f.ViewId]
		if !ok {
			return []int{w.fail("%s is read from the view %d, which is not at hand", fInfo(f), f.ViewId)}
		}
		if rec == nil {
			return []int{null}
		}
		if f.ColIndex < 0 || f.ColIndex >= len(rec) {
			return []int{w.fail("%s is read at the index %d of %d columns", fInfo(f), f.ColIndex, len(rec))}
		}
		return []int{rec[f.ColIndex]}
	case t.SoqlFieldInfo_Function:
		args := func(rows []*oEnv, group bool) []int {
			var a []int
			for i := range f.Parameters {
				a = append(a, w.oEval(&f.Parameters[i], rows, group)...)
			}
			return a
		}
		if len(f.Name) != 1 {
			return []int{w.fail("the function %s has no name", fInfo(f))}
		}
		if group && f.Aggregated {
			var all [][]int
			for i := range rows {
				all = append(all, args(rows[i:i+1], false))
			}
			return []int{w.aggFn(f.Name[0], all)}
		}
		return []int{w.fn(f.Name[0], args(rows, group))}
	case t.SoqlFieldInfo_ParameterizedValue:
		return []int{w.param(f.Name[0])}
	case t.SoqlFieldInfo_Literal_List:
		var a []int
		for _, l := range f.Value.([]t.SoqlListItem) {
			if l.Type == t.SoqlFieldInfo_ParameterizedValue {
				a = append(a, w.param(l.Value.(string)))
			} else {
				a = append(a, w.literal(l.Value))
			}
		}
		return a
	case t.SoqlFieldInfo_SubQuery:
		return w.once(f.SubQuery, func() table { return w.run(f.SubQuery, nil) })
	case t.SoqlFieldInfo_FieldSet:
		return []int{null}
	}
	return []int{w.literal(f.Value)}
}

func (w *executor) oCond(l []t.SoqlCondition, rows []*oEnv, group bool) int {
	type item struct {
		v []int
	}
	var st []item
	for i := range l {
		switch op := l[i].Opcode; op {
		case t.SoqlConditionOpcode_FieldInfo:
			st = append(st, item{w.oEval(&l[i].Value, rows, group)})
		case t.SoqlConditionOpcode_Unknown:
			st = append(st, item{[]int{null}})
		case t.SoqlConditionOpcode_Noop:
		default:
			if len(st) < 2 {
				return w.fail("the condition is not a postfix list")
			}
			a, b := st[len(st)-2].v, st[len(st)-1].v
			st = st[:len(st)-2]
			v := 0
			switch op {
			case t.SoqlConditionOpcode_And:
				v = and3(a[0], b[0])
			case t.SoqlConditionOpcode_Or:
				v = or3(a[0], b[0])
			default:
				v = w.compare(op, a[0], b)
			}
			st = append(st, item{[]int{v}})
		}
	}
	if len(st) != 1 {
		return w.fail("the condition is not a postfix list")
	}
	return st[0].v[0]
}

func (w *executor) run(o *t.SoqlQuery, up *oEnv) table {
	if w.err != "" {
		return nil
	}
	from := map[int]*t.SoqlObjectInfo{}
	for i := range o.From {
		from[o.From[i].ViewId] = &o.From[i]
	}
	last := func(ob *t.SoqlObjectInfo) string { return ob.Name[len(ob.Name)-1] }
	// the row of a view, by way of its parent view
	var rowOf func(e *oEnv, view int) *prow
	rowOf = func(e *oEnv, view int) *prow {
		if r, ok := e.rows[view]; ok {
			return r
		}
		ob := from[view]
		if ob == nil {
			w.fail("the view %d is neither in the query nor in the ones around it", view)
			return nil
		}
		if ob == &o.From[0] || ob.ParentViewId == 0 {
			w.fail("the view %d (%q) has no parent", view, ob.Name)
			return nil
		}
		r := w.one(rowOf(e, ob.ParentViewId), last(ob))
		e.rows[view] = r
		return r
	}
	extend := func() *oEnv {
		e := &oEnv{map[int]*prow{}, map[int][]int{}}
		if up != nil {
			for k, v := range up.rows {
				e.rows[k] = v
			}
			for k, v := range up.recs {
				e.recs[k] = v
			}
		}
		return e
	}
	// fetch applies the per-object query to one row.
	fetch := func(e *oEnv, ob *t.SoqlObjectInfo, r *prow) bool {
		if r == nil {
			e.recs[ob.ViewId] = nil
			return false
		}
		po := ob.PerObjectQuery
		rec := []int{}
		for i := range po.Fields {
			f := &po.Fields[i]
			if f.Type == t.SoqlFieldInfo_Field {
				rec = append(rec, w.field(r, f.Name[len(f.Name)-1]))
			} else {
				rec = append(rec, null)
			}
		}
		e.recs[ob.ViewId] = rec
		if len(po.Where) > 0 {
			one := &oEnv{nil, map[int][]int{ob.ViewId: rec}}
			if w.oCond(po.Where, []*oEnv{one}, false) != 1 {
				e.recs[ob.ViewId] = nil
				w.x.count("rows left out by per-object filters", 1)
				return false
			}
		}
		return true
	}
	head := &o.From[0]
	var base []*prow
	if up == nil {
		base = w.table(last(head))
	} else {
		base = w.many(rowOf(extend(), head.ParentViewId), last(head))
	}
	var rows []*oEnv
next:
	for _, r := range base {
		w.steps--
		e := extend()
		e.rows[head.ViewId] = r
		if !fetch(e, head, r) {
			continue
		}
		for i := 1; i < len(o.From); i++ {
			ob := &o.From[i]
			if !fetch(e, ob, rowOf(e, ob.ViewId)) {
				if ob.InnerJoin || w.views[ob.ViewId].InnerJoin {
					w.x.count("rows left out by inner joins", 1)
					continue next
				}
			}
		}
		if len(o.PostProcessWhere) > 0 && w.oCond(o.PostProcessWhere, []*oEnv{e}, false) != 1 {
			w.x.count("rows left out by post filters", 1)
			continue
		}
		rows = append(rows, e)
	}
	var groups [][]*oEnv
	if o.IsAggregation {
		at := map[string]int{}
		if len(o.GroupBy) == 0 {
			groups = append(groups, nil)
			at["[]"] = 0
		}
		for _, e := range rows {
			k := []int{}
			for i := range o.GroupBy {
				k = append(k, w.oEval(&o.GroupBy[i], []*oEnv{e}, false)...)
			}
			s := fmt.Sprint(k)
			if _, ok := at[s]; !ok {
				at[s] = len(groups)
				groups = append(groups, nil)
			}
			groups[at[s]] = append(groups[at[s]], e)
		}
		var kept [][]*oEnv
		for _, g := range groups {
			if len(o.Having) == 0 || w.oCond(o.Having, g, true) == 1 {
				kept = append(kept, g)
			}
		}
		groups = kept
		w.x.count("groups", len(groups))
	} else {
		for i := range rows {
			groups = append(groups, rows[i:i+1])
		}
	}
	var out table
	var keys [][]sortKey
	for _, g := range groups {
		var r []cell
		for i := range o.Fields {
			f := &o.Fields[i]
			switch {
			case f.NotSelected:
			case f.Type == t.SoqlFieldInfo_SubQuery:
				r = append(r, cell{sub: w.run(f.SubQuery, g[0]).String()})
			default:
				r = append(r, cell{v: w.oEval(f, g, o.IsAggregation)[0]})
			}
		}
		var k []sortKey
		for i := range o.OrderBy {
			ob := &o.OrderBy[i]
			k = append(k, sortKey{w.oEval(&ob.Field, g, o.IsAggregation)[0], ob.Desc, ob.NullsLast})
		}
		out, keys = append(out, r), append(keys, k)
	}
	w.x.count("rows", len(out))
	if len(out) > 1 && len(o.OrderBy) > 0 {
		w.x.count("results sorted", 1)
	}
	p := o.OffsetAndLimit
	off, lim := 0, 0
	if p.Offset != 0 || p.OffsetParamName != "" {
		off = w.count(p.Offset, p.OffsetParamName)
	}
	if p.Limit != 0 || p.LimitParamName != "" {
		lim = w.count(p.Limit, p.LimitParamName)
	}
	return finish(out, keys, off, lim)
}

func planExecution(x *T) {
	cfg := defaultCfg()
	cfg.FancyLit = x.r.Intn(3) == 0
	cfg.Where, cfg.SelSub, cfg.Correl, cfg.Boost = 80, 45, 20, 6
	cfg.Agg = []int{10, 10, 60}[x.r.Intn(3)]
	if x.r.Intn(2) == 0 {
		cfg.CondSize, cfg.Func, cfg.CondSub = 4, 8, 5
	}
	c := runCase(x, cfg)
	if c == nil {
		return
	}
	for i := 0; i < 3; i++ {
		seed := x.r.Uint64()
		a := &world{seed: seed, roots: 24, x: x}
		want := a.mQuery(c.q, nil)
		b := &executor{world: &world{seed: seed, roots: 24, x: x}, views: c.o.Meta.ViewGraph}
		got := b.run(c.o, nil)
		x.count("executions", 1)
		x.count("rows read", -b.steps)
		if b.err != "" {
			x.failf("the plan cannot be executed: %s", b.err)
			return
		}
		if len(want) > 0 {
			x.count("executions with a result", 1)
			if len(want) > 1 && want.String() != "" {
				x.nontrivial(c.src)
			}
		}
		if w, g := want.String(), got.String(); w != g {
			x.failf("executing the plan on made-up data gives %d rows: %s\ninstead of %d rows: %s", len(got), head(g, 400), len(want), head(w, 400))
			return
		}
	}
}

func init() {
	register(&prop{
		id: "C28", quick: 10000, thorough: 400000,
		rule: "A case is a valid query executed against three made-up databases. It counts as non-trivial when an execution gives at least two rows; distinct by text.",
		assume: []string{cfgNote, "comparisons with null are unknown, also those with the null literal; functions, parameters and literals have arbitrary values, functions of null may have a value",
			"limit and offset are applied at the end, not by the per-object queries (these are C08)", "rows of equal sort keys keep the order in which they are read"},
		minObs: map[string]int64{"executions": 20000, "executions with a result": 10000, "rows": 100000, "rows left out by inner joins": 20000, "rows left out by per-object filters": 50000, "rows left out by post filters": 30000, "results sorted": 5000, "groups": 10000, "conditional subqueries executed": 3000},
		run:    planExecution,
	})
}
