package main

import (
	"strings"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// The abstract model of a query. The generator builds it with every name already
// resolved, so the expected result is known by construction, independently of the parser.

type place int

const (
	placePrimary place = iota
	placeSelect
	placeCond
)

func (p place) String() string {
	return [...]string{"primary", "select-subquery", "conditional-subquery"}[p]
}

// mRef is a reference to a field.
type mRef struct {
	Obj   []string // fully qualified path of the object
	Name  string   // field name as written
	Spell []string // segments as written in the source
	Up    bool     // the object belongs to the parent query (correlated)
}

func (r *mRef) key() string { return pathKey(r.Obj) + "\x00." + low(r.Name) }

type opdKind int

const (
	opdField opdKind = iota
	opdFunc
	opdLit
	opdList
	opdSub
	opdFieldSet
)

type mOpd struct {
	Kind opdKind
	Ref  *mRef
	Fn   *mFn
	Lit  *mLit
	List []*mLit
	Sub  *mQuery
}

type mFn struct {
	Name string
	Args []*mOpd
}

type mLit struct {
	Type  t.SoqlFieldInfoType
	Val   interface{} // expected value (params: none)
	Name  string      // parameter name or date literal name as written
	N     int
	Text  string // source text
	IsStr bool   // delimited by quotes (no word boundary needed)
}

type condKind int

const (
	condLeaf condKind = iota
	condAnd
	condOr
	condNot
)

type mCond struct {
	Kind   condKind
	Kids   []*mCond
	Paren  int // number of redundant parentheses
	L, R   *mOpd
	Op     t.SoqlConditionOpcode
	leafNo int
}

type mSel struct {
	Opd   *mOpd
	Alias string
}

type mGroup struct {
	Ref   *mRef
	Alias *mSel // grouping by the alias of a select item
	Spell []string
}

type mOrder struct {
	Ref   *mRef
	Alias *mSel
	Spell []string
	Dir   string // "", "asc", "desc"
	Nulls string // "", "first", "last"
}

type mDecl struct {
	Path  []string
	Alias string
	Spell []string
}

type mNum struct {
	Val   int64
	Text  string
	Param string
}

type mQuery struct {
	Place    place
	Parent   *mQuery // syntactic parent
	Decls    []*mDecl
	Sels     []*mSel
	Where    *mCond
	Groups   []*mGroup
	Having   *mCond
	Orders   []*mOrder
	Offset   *mNum
	Limit    *mNum
	LimFirst bool
	For      []string // words after FOR: e.g. "view", ",", "reference"
	IsAgg    bool
	Depth    int // query depth, 1-based

	known map[string][]string // lower-cased single-segment names usable as a prefix -> object path
	reg   map[string][]string // objects of this query registered so far (path key -> path)
	anc   map[string]bool     // objects of the ancestors of the select chain
	refs  []*mRef             // all field references made by the query (incl. function parameters)
}

func (q *mQuery) head() []string { return q.Decls[0].Path }

// selectParent is the parent whose names are visible (nil for primary and conditional queries).
func (q *mQuery) selectParent() *mQuery {
	if q.Place == placeSelect {
		return q.Parent
	}
	return nil
}

func low(s string) string { return strings.ToLower(s) }

func pathKey(p []string) string { return low(strings.Join(p, "\x00.")) }

func hasPrefix(p, prefix []string) bool {
	if len(p) < len(prefix) {
		return false
	}
	for i := range prefix {
		if !sameName(p[i], prefix[i]) {
			return false
		}
	}
	return true
}

func cat(a []string, b ...string) []string {
	r := make([]string, 0, len(a)+len(b))
	r = append(r, a...)
	return append(r, b...)
}

// declared returns the alias name of each declared object: its first one, that of the primary object only if
// it is written with its first declaration.
func (q *mQuery) declared() map[string]string {
	m := map[string]string{pathKey(q.head()): q.Decls[0].Alias}
	for _, d := range q.Decls[1:] {
		if k := pathKey(d.Path); m[k] == "" && k != pathKey(q.head()) {
			m[k] = d.Alias
		}
	}
	return m
}

// leaves returns the comparisons of the condition in source order.
func (c *mCond) leaves(out []*mCond) []*mCond {
	if c == nil {
		return out
	}
	if c.Kind == condLeaf {
		return append(out, c)
	}
	for _, k := range c.Kids {
		out = k.leaves(out)
	}
	return out
}

// condSubs returns conditional subqueries of the query in source order.
func (q *mQuery) condSubs() []*mQuery {
	var r []*mQuery
	for _, c := range []*mCond{q.Where, q.Having} {
		for _, l := range c.leaves(nil) {
			if l.R.Kind == opdSub {
				r = append(r, l.R.Sub)
			}
		}
	}
	return r
}

func (q *mQuery) selSubs() []*mQuery {
	var r []*mQuery
	for _, s := range q.Sels {
		if s.Opd.Kind == opdSub {
			r = append(r, s.Opd.Sub)
		}
	}
	return r
}

// all returns the query and all of its subqueries.
func (q *mQuery) all() []*mQuery {
	r := []*mQuery{q}
	for _, s := range q.selSubs() {
		r = append(r, s.all()...)
	}
	for _, s := range q.condSubs() {
		r = append(r, s.all()...)
	}
	return r
}

// ownPaths returns the object paths that must be in the From list of the query:
// the prefix closure of all paths needed, without those owned by an ancestor.
func (q *mQuery) ownPaths() map[string][]string {
	m := map[string][]string{}
	add := func(p []string) {
		for i := 1; i <= len(p); i++ {
			k := pathKey(p[:i])
			if !q.anc[k] {
				m[k] = p[:i]
			}
		}
	}
	for _, d := range q.Decls {
		add(d.Path)
	}
	for _, r := range q.refs {
		add(r.Obj)
	}
	return m
}

// walkOpd visits the operand and nested function parameters.
func walkOpd(o *mOpd, depth int, fn func(o *mOpd, depth int)) {
	if o == nil {
		return
	}
	fn(o, depth)
	if o.Kind == opdFunc {
		for _, a := range o.Fn.Args {
			walkOpd(a, depth+1, fn)
		}
	}
}

// walkAll visits every operand written in the query (not in the subqueries).
func (q *mQuery) walkAll(fn func(o *mOpd, depth int)) {
	for _, s := range q.Sels {
		walkOpd(s.Opd, 0, fn)
	}
	for _, c := range []*mCond{q.Where, q.Having} {
		for _, l := range c.leaves(nil) {
			walkOpd(l.L, 0, fn)
			walkOpd(l.R, 0, fn)
		}
	}
}

// sameName: names are the same if their lower-case forms are.
func sameName(a, b string) bool { return low(a) == low(b) }
