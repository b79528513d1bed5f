package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"
	"time"
	"unicode"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// genCfg weighs what the generator produces. Probabilities are in percent.
type genCfg struct {
	MaxDepth  int // query nesting depth
	Agg       int // aggregation query
	SelSub    int // select-subquery (root and nested)
	CondSub   int // conditional subquery per comparison
	Correl    int // correlated reference per field reference in a select-subquery
	Where     int
	CondSize  int // max number of comparisons
	Func      int // function in a select list / comparison
	OrderBy   int
	Page      int // offset/limit
	For       int
	Extras    int // additional FROM entries
	Alias     int
	Hostile   int // hostile identifiers
	FieldSet  int
	CaseFlip  int // change the case of a used name
	DupCols   int // repeat a column in the select list
	SameRel   int // select-subquery on a relationship read elsewhere, too
	Paths     int // how often a field is in a related object
	OwnCond   int // how often both sides of a comparison are fields
	NonFinite bool
	FancyLit  bool
	Boost     int  // how often one dimension of the query is much larger than usual
	AsciiOnly bool // no identifiers outside ASCII
	Relative  bool // avoid paths that start with the name of the primary object
}

func defaultCfg() genCfg {
	return genCfg{
		MaxDepth: 3, Agg: 20, SelSub: 35, CondSub: 12, Correl: 12, Where: 70, CondSize: 6,
		Func: 20, OrderBy: 40, Page: 35, For: 20, Extras: 35, Alias: 40, Hostile: 25,
		FieldSet: 6, CaseFlip: 20, DupCols: 8, SameRel: 20, Paths: 40, OwnCond: 12, FancyLit: true, Boost: 12,
	}
}

var objNames = []string{"Account", "Contact", "Opportunity", "Case", "Lead", "Task", "Invoice__c", "Order", "Group", "User", "Product2", "ns__Thing__c"}
var relNames = []string{"Owner", "Parent", "CreatedBy", "Manager", "Account", "Profile", "Region__r", "Campaign", "Asset", "Foo__r"}
var childNames = []string{"Contacts", "Opportunities", "Cases", "Tasks", "Lines__r", "Children", "Members", "Events", "Notes1", "Assets"}
var fldNames = []string{"Id", "Name", "Amount", "CloseDate", "Industry", "Phone", "Email", "Status__c", "Score", "CreatedDate", "Type", "Foo", "x", "Y1", "Account", "Owner"}
var fnNames = []string{"max", "min", "sum", "avg", "toLabel", "format", "calendar_year", "convertCurrency", "HOUR_IN_DAY", "DISTANCE", "f", "grouping"}
var hostileWords = []string{
	"fromage", "selected", "select_1", "whereabouts", "orderly", "order_by", "grouped", "group1", "havingX", "offset0", "limits", "limit_",
	"format1", "forview", "fore", "android", "and1", "orbit", "or_", "notes", "nothing", "not1", "inbox", "in_", "likely", "like1", "includes1", "excludesX",
	"ascii", "asc1", "descr", "desc_", "nullsX", "nulls1", "firstName", "lastName", "trueish", "true1", "falsey", "false_", "nullable", "null1",
	"viewer", "references", "updated", "tracking1", "viewstats", "nand", "NaN1", "infinity_", "Infinity2", "todayX", "today_", "yesterday1", "tomorrow_",
	"last_week1", "LAST_N_DAYS_X", "this_yearX", "last_n_days", "byline", "by1", "_", "_x", "e5", "E1e5", "a$b", "x$1", "_1", "T00", "Z", "fields1", "count1", "countX", "Fieldset",
	"x0b1", "expr", "expression0", "exprX", "tracking", "viewstat", "first", "last", "view", "scope", "using", "with", "rollup",
}

// Words of the language that are names where they are not expected.
var softWords = strings.Fields("order group by and or in like includes excludes asc desc nulls for view update reference Order Group BY tracking viewstat first last")
var quotedNames = []string{
	"select", "from", "where", "order", "not", "null", "true", "today", "My Field", "a.b", "a . b", "x-y", "1st", "名前", "naïve", "qu\"ote", "back\\slash", "it's",
	"tab\there", "semi;colon", "(paren)", "comma,name", "--dash", "/*star*/", ":p", " lead", "trail ", "new\nline", "😀", "100%", "from x where", "Éa", "Имя", "Straße", "ñandú", "ωmega", "x²",
}

// Names that some comparisons take for the same: the lower-case forms differ.
var foldNames = []string{"οδος", "οδοσ", "ΟΔΟΣ", "ſub", "sub", "Sub", "µm", "μm"}

type gen struct {
	subAliases []string // alias names of objects of the select-subqueries
	children   []string // names of their relationships
	sameAlias  int
	sameChild  int
	r          *rand.Rand
	c          genCfg
	used       map[string]bool // names that must not be reused in the tree (aliases, child relationships)
	segs       map[string]bool // relationship and object names in use in the tree
	fld        []string        // field name pool of the case
	rel        []string
	budg       int  // remaining subqueries
	inSel      bool // generating the select clause

	nSel, nGroup, nOrder, nList, nStr, nPath, nArg, nFrom, nPool int // limits
	boosted                                                      string
	skew                                                         bool       // conditions are nested as deep as their number allows
	stepAlias                                                    int        // steps after the first one written as an alias name
	inFrom                                                       bool       // the last step of a declared path is not written as an alias name
	blocked                                                      [][]string // paths that are hidden by an alias name
	relAlias                                                     int        // alias names that are names of relationships
	absolute                                                     int        // paths that start with the name of the primary object
	qualified                                                    int        // sort and grouping fields that an alias name would capture
}

func newGen(r *rand.Rand, c genCfg) *gen {
	g := &gen{r: r, c: c, budg: 5, nSel: 5, nGroup: 3, nOrder: 3, nList: 4, nStr: 6, nPath: 6, nArg: 4, nFrom: 3, nPool: 6}
	if g.p(c.Boost) {
		// The queries of a tree get one dimension beyond what people write every day.
		switch r.Intn(11) {
		case 0:
			g.nSel, g.nPool, g.boosted = 40, 40, "select items"
		case 1:
			g.nGroup, g.nPool, g.boosted = 14, 30, "grouping items"
			if c.Agg > 0 {
				g.c.Agg = 100
			}
		case 2:
			g.nOrder, g.nPool, g.boosted = 14, 30, "sort items"
			if c.OrderBy > 0 {
				g.c.OrderBy = 100
			}
		case 3:
			g.nList, g.boosted = 120, "list items"
		case 4:
			g.nStr, g.boosted = 120, "string length"
		case 5:
			g.nPath, g.boosted = 16, "path length"
			if c.Paths > 0 {
				g.c.Paths = 80
			}
		case 6:
			g.nArg, g.boosted = 16, "function arguments"
			if c.Func > 0 {
				g.c.Func = 50
			}
		case 7:
			g.nFrom, g.boosted = 14, "from items"
			g.c.Extras = 85
		case 8:
			if c.Where > 0 {
				g.c.CondSize, g.c.Where, g.boosted = 40, 100, "comparisons"
			}
		case 9:
			if c.MaxDepth > 1 {
				g.c.MaxDepth, g.budg, g.boosted = 9, 9, "query depth"
				if c.SelSub > 0 {
					g.c.SelSub = 60
				}
				if c.CondSub > 0 {
					g.c.CondSub = 40
				}
			}
		default:
			if c.MaxDepth > 1 {
				g.budg, g.boosted = 14, "subqueries"
				if c.SelSub > 0 {
					g.c.SelSub = 90
				}
				if c.CondSub > 0 {
					g.c.CondSub = 50
				}
			}
		}
		if g.boosted != "" && g.p(7) {
			g.enlarge()
		}
	}
	return g
}

// enlarge takes the boosted dimension beyond sizes that a byte or a table of a fixed size holds.
func (g *gen) enlarge() {
	switch g.boosted {
	case "select items":
		g.nSel, g.nPool = 700, 700
	case "grouping items":
		g.nGroup, g.nPool = 150, 300
	case "sort items":
		g.nOrder, g.nPool = 400, 400
	case "list items":
		g.nList = 3000
	case "string length":
		g.nStr = 6000
	case "path length":
		g.nPath = 60
	case "function arguments":
		g.nArg = 300
	case "from items":
		g.nFrom = 80
		g.c.Extras = 98
	case "comparisons":
		g.c.CondSize = 300
	default:
		return
	}
	g.boosted += ", far more"
}

func (g *gen) p(pct int) bool { return g.r.Intn(100) < pct }

func (g *gen) pick(a []string) string { return a[g.r.Intn(len(a))] }

var reservedAlone = map[string]bool{}

func init() {
	for _, w := range strings.Fields("select from where having offset limit not true false null nan infinity count count_distinct fields") {
		reservedAlone[w] = true
	}
	for _, d := range dateLits {
		reservedAlone[low(d)] = true
	}
}

// ident makes a bare identifier.
func (g *gen) ident(base []string) string {
	if g.p(g.c.Hostile) {
		if g.p(20) {
			return g.pick(softWords)
		}
		return g.pick(hostileWords)
	}
	s := g.pick(base)
	if g.p(25) {
		s += strconv.Itoa(g.r.Intn(30))
	}
	return s
}

func isIdent(s string) bool {
	if s == "" || reservedAlone[low(s)] {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		ok := c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '$' && i > 0 && i < len(s)-1 || c >= '0' && c <= '9' && i > 0
		if !ok {
			return false
		}
	}
	return true
}

// name makes a name that may need quotation.
func (g *gen) name(base []string) string {
	if g.p(g.c.Hostile/4) && !g.c.AsciiOnly {
		if g.p(20) {
			return g.pick(foldNames)
		}
		return g.pick(quotedNames)
	}
	return g.ident(base)
}

// flipCase changes the case of some letters, if they have exactly two forms.
func flipCase(r *rand.Rand, s string) string {
	var b strings.Builder
	for _, c := range s {
		o := unicode.SimpleFold(c)
		switch {
		case c < 0x80: // also where there is a third form, which is not ASCII
			if o = c ^ 0x20; !unicode.IsLetter(c) {
				o = c
			}
		case unicode.SimpleFold(o) != c || unicode.ToLower(o) != unicode.ToLower(c):
			o = c
		}
		if r.Intn(2) == 0 {
			c = o
		}
		b.WriteRune(c)
	}
	return b.String()
}

// useName returns the name as written at this use.
func (g *gen) useName(s string) string {
	if g.p(g.c.CaseFlip) {
		return flipCase(g.r, s)
	}
	return s
}

func (g *gen) usePath(p []string) []string {
	r := make([]string, len(p))
	for i, s := range p {
		r[i] = g.useName(s)
	}
	return r
}

// fresh makes a bare name which is not used by any other role in the tree.
func (g *gen) fresh(base []string) string {
	for i := 0; ; i++ {
		s := g.ident(base)
		if i > 3 {
			s += strconv.Itoa(g.r.Intn(1000))
		}
		k := low(s)
		if !isIdent(s) || g.used[k] || g.segs[k] {
			continue
		}
		g.used[k] = true
		return s
	}
}

func (g *gen) query() *mQuery {
	g.used, g.subAliases, g.children = map[string]bool{}, nil, nil
	g.segs = map[string]bool{}
	g.fld, g.rel = nil, nil
	for i := 0; i < 3+g.r.Intn(g.nPool); i++ {
		g.fld = append(g.fld, g.name(fldNames))
	}
	for i := 0; i < 2+g.r.Intn(3); i++ {
		s := g.name(relNames)
		g.rel = append(g.rel, s)
		g.segs[low(s)] = true
	}
	if g.p(g.c.Hostile/6) && !g.c.AsciiOnly {
		k := g.r.Intn(len(foldNames))
		for _, s := range []string{foldNames[k], foldNames[(k+1)%len(foldNames)]} {
			g.rel = append(g.rel, s)
			g.segs[low(s)] = true
			g.fld = append(g.fld, s)
		}
	}
	return g.genQuery(placePrimary, nil, 1)
}

func (g *gen) genQuery(pl place, parent *mQuery, depth int) *mQuery {
	if pl == placeCond {
		// Nothing is inherited: the names may be reused freely.
		saved, savedSegs, savedAliases, savedChildren := g.used, g.segs, g.subAliases, g.children
		g.used, g.segs, g.subAliases, g.children = map[string]bool{}, map[string]bool{}, nil, nil
		for _, s := range g.rel {
			g.segs[low(s)] = true
		}
		defer func() { g.used, g.segs, g.subAliases, g.children = saved, savedSegs, savedAliases, savedChildren }()
	}
	q := &mQuery{Place: pl, Parent: parent, Depth: depth,
		known: map[string][]string{}, reg: map[string][]string{}, anc: map[string]bool{}}

	if pl == placeSelect {
		for k, v := range parent.known {
			q.known[k] = v
		}
		for k := range parent.anc {
			q.anc[k] = true
		}
		for k := range parent.ownPaths() {
			q.anc[k] = true
		}
	}

	q.IsAgg = g.p(g.c.Agg)
	g.genFrom(q)
	g.genSelect(q)
	g.genWhere(q)
	g.genHavingGroup(q)
	g.genOrder(q)
	g.genTail(q)
	g.genSubs(q)
	for _, gr := range q.Groups {
		if gr.Ref != nil {
			gr.Spell = g.uncapture(q, gr.Ref).Spell
		}
	}
	for _, o := range q.Orders {
		if o.Ref != nil {
			o.Spell = g.uncapture(q, o.Ref).Spell
		}
	}
	return q
}

func (q *mQuery) register(p []string) {
	for i := 1; i <= len(p); i++ {
		k := pathKey(p[:i])
		if !q.anc[k] {
			if _, ok := q.reg[k]; !ok {
				q.reg[k] = append([]string{}, p[:i]...)
			}
		}
	}
}

// child makes the name of a to-many relationship below an object.
func (g *gen) child(q *mQuery, base []string) string {
	if len(g.children) > 0 && g.p(12) {
		// of another object, too
		s := g.pick(g.children)
		k := pathKey(cat(base, s))
		_, hides := q.known[low(s)]
		ok := !hides && !q.anc[k] && g.used[low(s)]
		for p := q.Parent; p != nil; p = p.selectParent() {
			for _, o := range p.selSubs() {
				ok = ok && (len(o.Decls) == 0 || pathKey(o.head()) != k)
			}
			for r := range p.reg {
				ok = ok && r != k
			}
		}
		if ok {
			g.sameChild++
			return g.useName(s)
		}
	}
	s := g.fresh(childNames)
	g.children = append(g.children, s)
	return s
}

// objAlias makes an alias for an object path.
func (g *gen) objAlias(q *mQuery, path []string) string {
	s := g.objAlias1(q, path)
	if q.Place == placeSelect {
		g.subAliases = append(g.subAliases, s)
	}
	return s
}

func (g *gen) objAlias1(q *mQuery, path []string) string {
	if q.Place == placeSelect && len(g.subAliases) > 0 && g.p(15) {
		// an alias of another subquery
		s := g.pick(g.subAliases)
		if _, hides := q.known[low(s)]; !hides && !g.segs[low(s)] {
			g.sameAlias++
			return g.useName(s)
		}
	}
	last := path[len(path)-1]
	if q.Place == placeSelect && g.p(8) {
		// an alias of the parent is hidden by the alias of the subquery
		for _, d := range q.Parent.Decls {
			own := false
			for _, o := range q.Decls {
				own = own || low(o.Alias) == low(d.Alias)
			}
			if d.Alias != "" && !own && !g.segs[low(d.Alias)] {
				return g.useName(d.Alias)
			}
		}
	}
	_, hides := q.known[low(last)]
	if g.p(10) && isIdent(last) && !g.used[low(last)] && !hides {
		// alias that is the same as the relationship name itself, if nothing else is named so.
		same := 0
		for i := range path {
			if low(path[i]) == low(last) {
				same++
			}
		}
		if same == 1 {
			g.used[low(last)] = true
			return g.useName(last)
		}
	}
	if g.p(12) {
		// The name of a relationship, but of another object's.
		s := g.pick(g.rel)
		if _, hides := q.known[low(s)]; isIdent(s) && !g.used[low(s)] && !hides && low(s) != low(last) {
			b := cat(path[:len(path)-1], s)
			for p := q; p != nil; p = p.selectParent() {
				for _, r := range p.reg {
					if hasPrefix(r, b) {
						return g.fresh(aliasNames)
					}
				}
			}
			g.blocked = append(g.blocked, b)
			g.used[low(s)] = true
			g.relAlias++
			return g.useName(s)
		}
	}
	if g.p(8) {
		// the name of a field
		if s := g.pick(g.fld); isIdent(s) && !g.used[low(s)] && !g.segs[low(s)] {
			g.used[low(s)] = true
			return g.useName(s)
		}
	}
	return g.fresh(aliasNames)
}

var aliasNames = []string{"a", "b", "con", "acc", "opp", "own", "t0", "o"}

// okPath tells whether no step of the path is taken for an alias name.
func (g *gen) okPath(path []string) bool {
	for _, b := range g.blocked {
		if hasPrefix(path, b) {
			return false
		}
	}
	return true
}

func (g *gen) genFrom(q *mQuery) {
	head := &mDecl{}
	if q.Place == placeSelect {
		pa := q.Parent
		base := pa.head()
		if g.p(20) {
			paths := sortedPaths(pa.reg)
			var cand [][]string
			for _, p := range paths {
				if hasPrefix(p, pa.head()) {
					cand = append(cand, p)
				}
			}
			if len(cand) > 0 {
				base = cand[g.r.Intn(len(cand))]
			}
		}
		n := 1
		if g.p(12) {
			n = 2
		}
		path := base
		for i := 0; i < n; i++ {
			path = cat(path, g.child(q, path))
		}
		var sib [][]string
		for _, s := range pa.selSubs() {
			if len(s.Decls) > 0 {
				sib = append(sib, s.head())
			}
		}
		if len(sib) > 0 && g.p(g.c.SameRel) {
			path = sib[g.r.Intn(len(sib))]
			base = pa.head()
		}
		for _, s := range path[len(base):] {
			g.segs[low(s)] = true
		}
		// what is below the head belongs to this query, even if an ancestor reads the same path
		for k := range q.anc {
			if k == pathKey(path) || strings.HasPrefix(k, pathKey(path)+".") {
				delete(q.anc, k)
			}
		}
		for a, p := range q.known {
			if hasPrefix(p, path) {
				delete(q.known, a)
			}
		}
		head.Path = path
		head.Spell = g.spellPath(q, path, pa.head(), true)
	} else {
		s := g.pick(objNames)
		if g.p(g.c.Hostile) {
			s = g.name(objNames)
		}
		if g.p(6) {
			// a relationship has the name of the object
			s = g.pick(g.rel)
		}
		for n := 0; g.used[low(s)] || n > 0 && g.segs[low(s)]; n++ {
			s = g.pick(objNames) + strconv.Itoa(g.r.Intn(100))
		}
		g.segs[low(s)] = true
		head.Path = []string{s}
		head.Spell = []string{s}
	}
	q.Decls = append(q.Decls, head)
	q.register(head.Path)
	if g.p(g.c.Alias) {
		head.Alias = g.objAlias(q, head.Path)
		q.known[low(head.Alias)] = head.Path
	}
	if q.Place != placeSelect {
		q.known[low(head.Path[0])] = head.Path
	}

	for n := 0; n < g.nFrom && g.p(g.c.Extras); n++ {
		// a relationship below the head or below another declared object
		base := q.Decls[g.r.Intn(len(q.Decls))].Path
		path := cat(base, g.pick(g.rel))
		if g.p(25) {
			path = cat(path, g.pick(g.rel))
		}
		if g.p(25) {
			// an object which was so far only a step on the way to another one
			for _, p := range sortedPaths(q.reg) {
				if hasPrefix(p, q.head()) && len(p) > len(q.head()) && g.p(50) {
					path = p
				}
			}
		}
		dup := false
		for _, d := range q.Decls {
			if pathKey(d.Path) == pathKey(path) {
				dup = true
			}
		}
		again := g.p(10)
		if again {
			// an object declared before gets another alias name
			path = q.Decls[g.r.Intn(len(q.Decls))].Path
		} else if dup || len(path) > g.nPath || !g.okPath(path) {
			continue
		}
		d := &mDecl{Path: path}
		g.inFrom = true
		d.Spell = g.spellPath(q, path, q.head(), q.Place != placeSelect && !(g.c.Relative && q.Parent == nil))
		g.inFrom = false
		if again || g.p(80) {
			d.Alias = g.objAlias(q, path)
			q.known[low(d.Alias)] = path
		}
		q.Decls = append(q.Decls, d)
		q.register(path)
	}
}

// spellPath writes an object path: absolute, by an alias, or relative to the head.
func (g *gen) spellPath(q *mQuery, path, head []string, relOK bool) []string {
	type opt struct {
		s []string
		k int // the steps from here on are written one by one
	}
	opts := []opt{}
	// absolute: needs the root name to be known and not hidden by an alias
	if p, ok := q.known[low(path[0])]; ok && len(p) == 1 && sameName(p[0], path[0]) {
		opts = append(opts, opt{g.usePath(path), 1})
	}
	root := len(opts)
	for p := q; g.c.Relative && p != nil; p = p.selectParent() {
		if p.Place == placeCond {
			root = 0
		}
	}
	for _, a := range sortedKeys(q.known) {
		p := q.known[a]
		if len(p) == 1 && low(p[0]) == a {
			continue
		}
		if hasPrefix(path, p) {
			o := opt{cat([]string{g.aliasSpell(q, a)}, g.usePath(path[len(p):])...), len(p)}
			opts = append(opts, o, o)
		}
	}
	if relOK && hasPrefix(path, head) && len(path) > len(head) {
		if _, ok := q.known[low(path[len(head)])]; !ok {
			o := opt{g.usePath(path[len(head):]), len(head)}
			opts = append(opts, o, o, o)
		}
	}
	if root > 0 && g.c.Relative {
		if len(opts) > root {
			opts = opts[root:]
		} else {
			g.absolute++
		}
	}
	o := opts[g.r.Intn(len(opts))]
	if g.p(20) {
		// An alias name may stand for its relationship at a later step, too.
		for i := o.k; i < len(path)-b2i(g.inFrom); i++ {
			for _, a := range sortedKeys(q.known) {
				if p := q.known[a]; len(p) == i+1 && pathKey(p) == pathKey(path[:i+1]) && g.p(70) {
					o.s[len(o.s)-len(path)+i] = g.aliasSpell(q, a)
					g.stepAlias++
				}
			}
		}
	}
	return o.s
}

func (g *gen) aliasSpell(q *mQuery, a string) string {
	s := a
	for p := q; p != nil; p = p.selectParent() {
		for _, d := range p.Decls {
			if low(d.Alias) == a {
				s = d.Alias
				return g.useName(s)
			}
		}
	}
	return g.useName(s)
}

// spellField writes a reference to a field.
func (g *gen) spellField(q *mQuery, obj []string, name string) []string {
	nm := g.useName(name)
	if pathKey(obj) == pathKey(q.head()) && g.p(75) {
		return []string{nm}
	}
	return cat(g.spellPath(q, obj, q.head(), true), nm)
}

// uncapture qualifies a sort or grouping field which would otherwise be taken for the alias name of a selected item.
func (g *gen) uncapture(q *mQuery, r *mRef) *mRef {
	if len(r.Spell) == 1 {
		for _, s := range q.Sels {
			if s.Alias != "" && sameName(s.Alias, r.Spell[0]) {
				r.Spell = cat(g.spellPath(q, r.Obj, q.head(), true), r.Spell[0])
				g.qualified++
				break
			}
		}
	}
	return r
}

// objPath chooses the object of a field reference.
func (g *gen) objPath(q *mQuery) []string {
	if !g.p(g.c.Paths) {
		return q.head()
	}
	var cand [][]string
	for _, p := range sortedPaths(q.reg) {
		if hasPrefix(p, q.head()) {
			cand = append(cand, p)
		}
	}
	base := cand[g.r.Intn(len(cand))]
	if g.p(50) && len(base) < g.nPath {
		n := 1
		if g.p(20) {
			n = 2
		}
		if g.nPath > 6 {
			n = 1 + g.r.Intn(g.nPath-len(base))
		}
		for i := 0; i < n; i++ {
			if b := cat(base, g.pick(g.rel)); g.okPath(b) {
				base = b
			}
		}
	}
	return base
}

func (g *gen) ref(q *mQuery, up bool) *mRef {
	r := &mRef{}
	if up && q.Place == placeSelect && g.p(g.c.Correl) {
		pa := q.Parent
		var paths [][]string
		for _, p := range sortedPaths(pa.reg) {
			// In the select clause only the ancestors in a straight line can be referred to.
			if !g.inSel || hasPrefix(q.head(), p) {
				paths = append(paths, p)
			}
		}
		r.Obj = paths[g.r.Intn(len(paths))]
		r.Up = true
	} else {
		r.Obj = g.objPath(q)
	}
	r.Name = g.pick(g.fld)
	if r.Up {
		r.Spell = cat(g.spellUp(q, r.Obj), g.useName(r.Name))
	} else {
		r.Spell = g.spellField(q, r.Obj, r.Name)
	}
	r.Name = r.Spell[len(r.Spell)-1]
	if !r.Up {
		q.register(r.Obj)
	}
	q.refs = append(q.refs, r)
	return r
}

func (g *gen) spellUp(q *mQuery, obj []string) []string {
	return g.spellPath(q, obj, q.head(), false)
}

func (g *gen) opdRef(q *mQuery, up bool) *mOpd { return &mOpd{Kind: opdField, Ref: g.ref(q, up)} }

func (g *gen) fnName() string {
	s := g.ident(fnNames)
	for !isIdent(s) {
		s = g.pick(fnNames)
	}
	return g.useName(s)
}

// fn makes a function call. agg: -1 don't care, otherwise the fields are limited to the grouped ones where needed.
func (g *gen) fn(q *mQuery, depth int, up bool) *mOpd {
	f := &mFn{Name: g.fnName()}
	n := g.r.Intn(g.nArg)
	if depth > 0 && g.nArg > 16 {
		n = g.r.Intn(4)
	}
	if g.p(60) && g.nArg < 5 {
		n = 1
	}
	for i := 0; i < n; i++ {
		f.Args = append(f.Args, g.fnArg(q, depth, up))
	}
	return &mOpd{Kind: opdFunc, Fn: f}
}

func (g *gen) fnArg(q *mQuery, depth int, up bool) *mOpd {
	switch k := g.r.Intn(10); {
	case k < 6:
		return g.opdRef(q, up)
	case k < 8 && depth < 3:
		return g.fn(q, depth+1, up)
	default:
		return &mOpd{Kind: opdLit, Lit: g.lit()}
	}
}

// aggFn makes an aggregate function for an aggregation query.
func (g *gen) aggFn(q *mQuery) *mOpd {
	switch g.r.Intn(4) {
	case 0:
		f := &mFn{Name: g.useName("count")}
		if g.p(60) {
			f.Args = append(f.Args, g.opdRef(q, false))
		}
		return &mOpd{Kind: opdFunc, Fn: f}
	case 1:
		return &mOpd{Kind: opdFunc, Fn: &mFn{Name: g.useName("count_distinct"), Args: []*mOpd{g.opdRef(q, false)}}}
	default:
		f := &mFn{Name: g.fnName(), Args: []*mOpd{g.opdRef(q, false)}}
		if g.p(30) {
			f.Args = append(f.Args, &mOpd{Kind: opdLit, Lit: g.lit()})
		}
		return &mOpd{Kind: opdFunc, Fn: f}
	}
}

// groupedRef refers to one of the grouping fields.
func (g *gen) groupedRef(q *mQuery) *mOpd {
	var cand []*mRef
	for _, gr := range q.Groups {
		if gr.Ref != nil {
			cand = append(cand, gr.Ref)
		} else if gr.Alias.Opd.Kind == opdField {
			cand = append(cand, gr.Alias.Opd.Ref)
		}
	}
	if len(cand) == 0 {
		return nil
	}
	gr := cand[g.r.Intn(len(cand))]
	r := &mRef{Obj: gr.Obj, Name: gr.Name}
	r.Spell = g.spellField(q, r.Obj, r.Name)
	r.Name = r.Spell[len(r.Spell)-1]
	q.refs = append(q.refs, r)
	return &mOpd{Kind: opdField, Ref: r}
}

// scalarAggFn makes a non-aggregate function in an aggregation query: its direct
// fields must be grouped, nested functions are aggregate functions.
func (g *gen) scalarAggFn(q *mQuery) *mOpd {
	f := &mFn{Name: g.fnName()}
	switch g.r.Intn(6) {
	case 0: // only literals
		f.Args = append(f.Args, &mOpd{Kind: opdFunc, Fn: &mFn{Name: g.fnName()}})
		if g.p(60) {
			f.Args[0].Fn.Args = append(f.Args[0].Fn.Args, &mOpd{Kind: opdLit, Lit: g.lit()})
		}
	case 1:
		f.Args = append(f.Args, g.scalarAggFn(q))
	default:
		f.Args = append(f.Args, g.aggFn(q))
	}
	if gr := g.groupedRef(q); gr != nil && g.p(50) {
		f.Args = append(f.Args, gr)
		if g.p(40) {
			f.Args[0], f.Args[1] = f.Args[1], f.Args[0]
		}
	}
	if g.p(30) {
		f.Args = append(f.Args, &mOpd{Kind: opdLit, Lit: g.lit()})
	}
	return &mOpd{Kind: opdFunc, Fn: f}
}

func (g *gen) selAlias(q *mQuery) string {
	for {
		s := g.ident([]string{"n", "cnt", "total", "nm", "k", "label", "al", "c1", "z"})
		if g.p(15) {
			// a name which fields have as well
			s = g.useName(g.pick(g.fld))
		} else if a := q.Decls[g.r.Intn(len(q.Decls))].Alias; a != "" && g.p(8) {
			// or the alias of an object
			s = g.useName(a)
		}
		if g.p(8) {
			s = "expr" + strconv.Itoa(g.r.Intn(4))
		}
		k := low(s)
		if !isIdent(s) {
			continue
		}
		ok := true
		for _, sl := range q.Sels {
			if low(sl.Alias) == k {
				ok = false
			}
		}
		if ok {
			return s
		}
	}
}

func (g *gen) genSelect(q *mQuery) {
	if q.IsAgg {
		// grouping fields are decided first
		if g.p(80) {
			seen := map[string]bool{}
			for i, n := 0, 1+g.r.Intn(g.nGroup); i < n; i++ {
				r := g.ref(q, false)
				if seen[r.key()] {
					q.refs = q.refs[:len(q.refs)-1]
					continue
				}
				seen[r.key()] = true
				q.Groups = append(q.Groups, &mGroup{Ref: r, Spell: r.Spell})
			}
		}
		n := 1 + g.r.Intn(g.nSel)
		for i := 0; i < n; i++ {
			s := &mSel{}
			switch k := g.r.Intn(10); {
			case k < 4 && len(q.Groups) > 0:
				s.Opd = g.groupedRef(q)
			case k < 6 && len(q.Groups) > 0:
				s.Opd = g.scalarAggFn(q)
			case k < 7:
				// only literals: neither aggregate nor grouped
				s.Opd = &mOpd{Kind: opdFunc, Fn: &mFn{Name: g.fnName(), Args: []*mOpd{{Kind: opdLit, Lit: g.lit()}}}}
			default:
				s.Opd = g.aggFn(q)
			}
			if g.p(g.c.Alias) {
				s.Alias = g.selAlias(q)
			}
			q.Sels = append(q.Sels, s)
		}
		if len(q.Groups) == 0 {
			// count() makes it an aggregation query
			s := &mSel{Opd: &mOpd{Kind: opdFunc, Fn: &mFn{Name: g.useName("count")}}}
			if g.p(40) {
				s.Opd.Fn.Args = []*mOpd{g.opdRef(q, false)}
			}
			for n := 0; n < 2 && g.p(30); n++ {
				// which is a parameter of another one
				a := []*mOpd{s.Opd}
				if g.p(60) {
					a = append(a, g.aggFn(q))
				}
				if g.p(40) {
					a = append(a, &mOpd{Kind: opdLit, Lit: g.lit()})
				}
				g.r.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
				s.Opd = &mOpd{Kind: opdFunc, Fn: &mFn{Name: g.fnName(), Args: a}}
			}
			pos := g.r.Intn(len(q.Sels) + 1)
			if g.p(30) {
				pos = 0
			}
			q.Sels = append(q.Sels[:pos], append([]*mSel{s}, q.Sels[pos:]...)...)
		} else if g.p(15) {
			// grouping by the alias of a select item
			for _, s := range q.Sels {
				if s.Alias != "" && s.Opd.Kind == opdFunc {
					q.Groups = append(q.Groups, &mGroup{Alias: s, Spell: []string{g.useName(s.Alias)}})
					break
				}
			}
		}
		if len(q.Groups) > 0 && g.p(15) {
			// a field which is grouped by its alias
			r := g.ref(q, false)
			for _, gr := range q.Groups {
				if gr.Ref != nil && gr.Ref.key() == r.key() || gr.Alias != nil && gr.Alias.Opd.Kind == opdField {
					q.refs = q.refs[:len(q.refs)-1]
					return
				}
			}
			s := &mSel{Opd: &mOpd{Kind: opdField, Ref: r}, Alias: g.selAlias(q)}
			pos := g.r.Intn(len(q.Sels) + 1)
			q.Sels = append(q.Sels[:pos], append([]*mSel{s}, q.Sels[pos:]...)...)
			q.Groups = append(q.Groups, &mGroup{Alias: s, Spell: []string{g.useName(s.Alias)}})
			if g.p(40) {
				// the field is selected once more
				s := &mSel{Opd: g.groupedRef(q)}
				if g.p(40) {
					s.Opd = g.scalarAggFn(q)
				}
				pos := g.r.Intn(len(q.Sels) + 1)
				q.Sels = append(q.Sels[:pos], append([]*mSel{s}, q.Sels[pos:]...)...)
			}
			g.r.Shuffle(len(q.Groups), func(i, j int) { q.Groups[i], q.Groups[j] = q.Groups[j], q.Groups[i] })
		}
		return
	}

	n := 1 + g.r.Intn(g.nSel)
	for i := 0; i < n; i++ {
		s := &mSel{}
		switch {
		case g.p(g.c.FieldSet):
			s.Opd = g.fieldSet(q)
		case g.p(g.c.Func):
			g.inSel = true
			s.Opd = g.fn(q, 0, true)
			g.inSel = false
		case g.p(g.c.DupCols) && len(q.Sels) > 0:
			// the same column again (with or without an alias name)
			prev := q.Sels[g.r.Intn(len(q.Sels))]
			if prev.Opd.Kind != opdField {
				s.Opd = g.opdRef(q, false)
				break
			}
			r := &mRef{Obj: prev.Opd.Ref.Obj, Name: prev.Opd.Ref.Name}
			r.Spell = g.spellField(q, r.Obj, r.Name)
			r.Name = r.Spell[len(r.Spell)-1]
			q.refs = append(q.refs, r)
			s.Opd = &mOpd{Kind: opdField, Ref: r}
		default:
			s.Opd = g.opdRef(q, false)
		}
		if s.Opd.Kind != opdFieldSet && g.p(g.c.Alias) {
			s.Alias = g.selAlias(q)
		}
		q.Sels = append(q.Sels, s)
	}
}

func (g *gen) fieldSet(q *mQuery) *mOpd {
	r := &mRef{Obj: q.head(), Name: g.pick([]string{"ALL", "Standard", "custom"})}
	d := q.Decls[g.r.Intn(len(q.Decls))]
	if d.Alias != "" && g.p(40) {
		r.Obj = d.Path
		r.Spell = []string{g.useName(d.Alias), r.Name}
		if p := q.known[low(d.Alias)]; pathKey(p) != pathKey(d.Path) {
			r.Obj, r.Spell = q.head(), []string{r.Name}
		}
	} else {
		r.Spell = []string{r.Name}
	}
	return &mOpd{Kind: opdFieldSet, Ref: r}
}

var cmpOps = []t.SoqlConditionOpcode{
	t.SoqlConditionOpcode_Eq, t.SoqlConditionOpcode_NotEq, t.SoqlConditionOpcode_Lt, t.SoqlConditionOpcode_Le, t.SoqlConditionOpcode_Gt, t.SoqlConditionOpcode_Ge,
	t.SoqlConditionOpcode_Like, t.SoqlConditionOpcode_NotLike,
	t.SoqlConditionOpcode_In, t.SoqlConditionOpcode_NotIn, t.SoqlConditionOpcode_Includes, t.SoqlConditionOpcode_Excludes,
}

func (g *gen) cond(q *mQuery, size int, leaf func() *mCond) *mCond {
	if size <= 1 {
		return leaf()
	}
	switch k := g.r.Intn(10); {
	case k < 2:
		return &mCond{Kind: condNot, Kids: []*mCond{g.cond(q, size, leaf)}}
	default:
		c := &mCond{Kind: condAnd}
		if k >= 6 {
			c.Kind = condOr
		}
		n := 2
		if size > 3 && g.p(40) {
			n = 3
		}
		for i := 0; i < n; i++ {
			s := size / n
			if g.skew {
				s = 1
			}
			if i == 0 {
				s = size - (n-1)*s
			}
			c.Kids = append(c.Kids, g.cond(q, s, leaf))
		}
		g.r.Shuffle(len(c.Kids), func(i, j int) { c.Kids[i], c.Kids[j] = c.Kids[j], c.Kids[i] })
		return c
	}
}

func (g *gen) decorate(c *mCond) {
	if g.p(8) {
		c.Paren = 1 + g.r.Intn(2)
	}
	for _, k := range c.Kids {
		g.decorate(k)
	}
}

func (g *gen) genWhere(q *mQuery) {
	if !g.p(g.c.Where) {
		return
	}
	size := 1 + g.r.Intn(g.c.CondSize)
	g.skew = g.p(30)
	// A few objects and fields make repeated comparisons likely.
	q.Where = g.cond(q, size, func() *mCond {
		c := &mCond{Kind: condLeaf, Op: cmpOps[g.r.Intn(len(cmpOps))]}
		if g.p(g.c.Func) {
			c.L = g.fn(q, 0, true)
		} else {
			c.L = g.opdRef(q, true)
		}
		switch {
		case g.p(g.c.CondSub):
			c.R = &mOpd{Kind: opdSub}
			if g.p(70) {
				c.Op = []t.SoqlConditionOpcode{t.SoqlConditionOpcode_In, t.SoqlConditionOpcode_NotIn}[g.r.Intn(2)]
			}
		case g.p(g.c.OwnCond):
			c.R = g.opdRef(q, true)
		case g.p(8):
			c.R = g.fn(q, 1, true)
		case c.Op >= t.SoqlConditionOpcode_In || g.p(8):
			c.R = &mOpd{Kind: opdList, List: g.list()}
		default:
			c.R = &mOpd{Kind: opdLit, Lit: g.lit()}
		}
		if g.p(8) {
			c.Kind = condLeaf
			return &mCond{Kind: condNot, Kids: []*mCond{c}}
		}
		return c
	})
	g.decorate(q.Where)
}

func (g *gen) genHavingGroup(q *mQuery) {
	if !q.IsAgg || len(q.Groups) == 0 || !g.p(60) {
		return
	}
	size := 1 + g.r.Intn(4)
	if size > g.c.CondSize {
		size = g.c.CondSize
	}
	q.Having = g.cond(q, size, func() *mCond {
		c := &mCond{Kind: condLeaf, Op: cmpOps[g.r.Intn(len(cmpOps))]}
		if g.p(25) {
			c.L = g.scalarAggFn(q)
		} else {
			c.L = g.aggFn(q)
		}
		switch {
		case g.p(g.c.CondSub):
			c.R = &mOpd{Kind: opdSub}
		case g.p(15):
			c.R = g.aggFn(q)
		case c.Op >= t.SoqlConditionOpcode_In:
			c.R = &mOpd{Kind: opdList, List: g.list()}
		default:
			c.R = &mOpd{Kind: opdLit, Lit: g.lit()}
		}
		return c
	})
	g.decorate(q.Having)
}

func (g *gen) genOrder(q *mQuery) {
	if !g.p(g.c.OrderBy) {
		return
	}
	seen := map[string]bool{}
	for i, n := 0, 1+g.r.Intn(g.nOrder); i < n; i++ {
		o := &mOrder{Dir: g.pick([]string{"", "asc", "desc"}), Nulls: g.pick([]string{"", "", "first", "last"})}
		var al []*mSel
		for _, s := range q.Sels {
			if s.Alias != "" {
				al = append(al, s)
			}
		}
		key := ""
		if len(al) > 0 && g.p(35) {
			o.Alias = al[g.r.Intn(len(al))]
			o.Spell = []string{g.useName(o.Alias.Alias)}
			key = "a " + low(o.Alias.Alias)
			if o.Alias.Opd.Kind == opdField {
				key = o.Alias.Opd.Ref.key()
			}
		} else {
			var cand [][]string
			for _, p := range sortedPaths(q.reg) {
				if hasPrefix(p, q.head()) {
					cand = append(cand, p)
				}
			}
			obj := cand[g.r.Intn(len(cand))]
			if g.p(50) {
				obj = q.head()
			}
			r := &mRef{Obj: obj, Name: g.pick(g.fld)}
			r.Spell = g.spellField(q, r.Obj, r.Name)
			r.Name = r.Spell[len(r.Spell)-1]
			o.Ref, o.Spell = r, r.Spell
			key = r.key()
		}
		if seen[key] {
			continue
		}
		seen[key] = true
		if o.Ref != nil {
			q.refs = append(q.refs, o.Ref)
		}
		q.Orders = append(q.Orders, o)
	}
}

func (g *gen) num() *mNum {
	if g.p(35) {
		return &mNum{Param: g.paramName()}
	}
	v := int64(1 + g.r.Intn(2000))
	switch g.r.Intn(5) {
	case 0:
		v = int64(g.r.Intn(4))
	case 1:
		v = []int64{1, 1, 10, 100, 200, 1000, 2000, 50000}[g.r.Intn(8)]
	case 2:
		v = []int64{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt32, math.MaxInt32 + 1, 1 << 53, 1<<53 + 1, 255, 256, 65535, 65536}[g.r.Intn(10)]
	}
	return &mNum{Val: v, Text: decText(g.r, v)}
}

func (g *gen) genTail(q *mQuery) {
	if g.p(g.c.Page) {
		k := g.r.Intn(3)
		if k != 0 {
			q.Limit = g.num()
		}
		if k != 1 {
			q.Offset = g.num()
		}
		q.LimFirst = g.p(50)
	}
	if g.p(g.c.For) {
		q.For = [][]string{
			{"view"}, {"reference"}, {"view", ",", "reference"}, {"reference", ",", "view"},
			{"update"}, {"update", "tracking"}, {"update", "viewstat"}, {"update", "tracking", ",", "viewstat"}, {"update", "viewstat", ",", "tracking"},
		}[g.r.Intn(9)]
	}
}

// genSubs adds the subqueries last: everything of the query itself is known then.
func (g *gen) genSubs(q *mQuery) {
	if !q.IsAgg && q.Depth < g.c.MaxDepth {
		for i := 0; i < 3 && g.budg > 0 && g.p(g.c.SelSub); i++ {
			g.budg--
			s := &mSel{Opd: &mOpd{Kind: opdSub, Sub: g.genQuery(placeSelect, q, q.Depth+1)}}
			if g.p(g.c.Alias) {
				s.Alias = g.selAlias(q)
			}
			pos := g.r.Intn(len(q.Sels) + 1)
			q.Sels = append(q.Sels[:pos], append([]*mSel{s}, q.Sels[pos:]...)...)
		}
	}
	for _, c := range []*mCond{q.Where, q.Having} {
		for _, l := range c.leaves(nil) {
			if l.R.Kind == opdSub && l.R.Sub == nil {
				if g.budg <= 0 || q.Depth >= g.c.MaxDepth {
					l.R = &mOpd{Kind: opdList, List: g.list()}
					continue
				}
				g.budg--
				l.R.Sub = g.genQuery(placeCond, q, q.Depth+1)
			}
		}
	}
}

// ---- literals ----

func decText(r *rand.Rand, v int64) string {
	s := strconv.FormatInt(v, 10)
	if len(s) > 2 && r.Intn(5) == 0 {
		k := 2 + r.Intn(len(s)-2)
		s = s[:k] + "_" + s[k:]
	}
	return s
}

func (g *gen) paramName() string {
	for {
		s := g.ident([]string{"p", "Param", "id", "v1", "ids", "Q"})
		if isIdent(s) {
			return g.useName(s)
		}
	}
}

func (g *gen) list() []*mLit {
	n := 1 + g.r.Intn(g.nList)
	r := make([]*mLit, n)
	for i := range r {
		r[i] = g.lit()
	}
	return r
}

var dateLits = strings.Fields("YESTERDAY TODAY TOMORROW LAST_WEEK THIS_WEEK NEXT_WEEK LAST_MONTH THIS_MONTH NEXT_MONTH LAST_90_DAYS NEXT_90_DAYS " +
	"THIS_QUARTER LAST_QUARTER NEXT_QUARTER THIS_YEAR LAST_YEAR NEXT_YEAR THIS_FISCAL_QUARTER LAST_FISCAL_QUARTER NEXT_FISCAL_QUARTER " +
	"THIS_FISCAL_YEAR LAST_FISCAL_YEAR NEXT_FISCAL_YEAR")
var dateLitsN = strings.Fields("LAST_N_DAYS NEXT_N_DAYS NEXT_N_WEEKS LAST_N_WEEKS NEXT_N_MONTHS LAST_N_MONTHS NEXT_N_QUARTERS LAST_N_QUARTERS " +
	"NEXT_N_YEARS LAST_N_YEARS NEXT_N_FISCAL_QUARTERS LAST_N_FISCAL_QUARTERS NEXT_N_FISCAL_YEARS LAST_N_FISCAL_YEARS")

func (g *gen) kw(s string) string {
	switch g.r.Intn(3) {
	case 0:
		return low(s)
	case 1:
		return flipCase(g.r, s)
	}
	return s
}

func (g *gen) lit() *mLit {
	k := g.r.Intn(12)
	if !g.c.FancyLit && k < 8 {
		if g.p(50) {
			v := int64(g.r.Intn(10))
			return &mLit{Type: t.SoqlFieldInfo_Literal_Int, Val: v, Text: strconv.FormatInt(v, 10)}
		}
		s := g.pick([]string{"a", "b%", "x y", ""})
		return &mLit{Type: t.SoqlFieldInfo_Literal_String, Val: s, Text: "'" + s + "'", IsStr: true}
	}
	switch k {
	case 0, 1:
		return g.intLit()
	case 2:
		return g.floatLit()
	case 3, 4:
		return g.strLit()
	case 5:
		return g.dateLit()
	case 6:
		return g.dateTimeLit()
	case 7:
		return g.timeLit()
	case 8:
		switch g.r.Intn(4) {
		case 0:
			return &mLit{Type: t.SoqlFieldInfo_Literal_Bool, Val: true, Text: g.kw("true")}
		case 1:
			return &mLit{Type: t.SoqlFieldInfo_Literal_Bool, Val: false, Text: g.kw("FALSE")}
		}
		return &mLit{Type: t.SoqlFieldInfo_Literal_Null, Val: nil, Text: g.kw("null")}
	case 9, 10:
		n := g.paramName()
		return &mLit{Type: t.SoqlFieldInfo_ParameterizedValue, Name: n, Text: ":" + n}
	default:
		if g.p(50) {
			d := g.pick(dateLits)
			return &mLit{Type: t.SoqlFieldInfo_DateTimeLiteralName, Name: d, Text: g.kw(d)}
		}
		d := g.pick(dateLitsN)
		n := g.r.Intn(400)
		if g.p(25) {
			n = int(g.int64())
		}
		return &mLit{Type: t.SoqlFieldInfo_DateTimeLiteralName, Name: d, N: n, Text: g.kw(d) + ":" + decText(g.r, int64(n))}
	}
}

func (g *gen) int64() int64 {
	switch g.r.Intn(6) {
	case 0:
		return int64(g.r.Intn(10))
	case 1:
		return []int64{0, 1, math.MaxInt64, math.MaxInt64 - 1, 1<<53 + 1, 1 << 53, 1 << 31, 1<<31 - 1, 1 << 32, 255, 256, 65536}[g.r.Intn(12)]
	case 2:
		return g.r.Int63()
	default:
		return g.r.Int63() >> uint(g.r.Intn(62))
	}
}

// separate puts separators between the digits of some numbers.
func (g *gen) separate(s string) string {
	if len(s) < 2 || !g.p(20) {
		return s
	}
	pct := []int{0, 30, 100}[g.r.Intn(3)]
	k := 1 + g.r.Intn(len(s)-1)
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		if i > 0 && (i == k || g.p(pct)) {
			b.WriteByte('_')
		}
		b.WriteByte(s[i])
	}
	return b.String()
}

// digits makes n digits.
func (g *gen) digits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('0' + g.r.Intn(10))
	}
	return string(b)
}

// Floating point numbers that are hard to round, and the limits of the range.
var hardFloats = strings.Fields("9007199254740993.0 9007199254740992.9999 4503599627370497.5 1.00000000000000011102230246251565404236316680908203125 1.00000000000000011102230246251565404236316680908203124 " +
	"1.7976931348623157e308 2.2250738585072014e-308 2.2250738585072011e-308 5e-324 4.9406564584124654e-324 2e-324 1e-400 1e23 8.5e22 123456789012345678901234567890.5 0.1e0 0.30000000000000004 16777217.0 3.4028235e39 1e-46 0.0 0e0 .0 0.000e-5")

func (g *gen) intLit() *mLit {
	v := g.int64()
	l := &mLit{Type: t.SoqlFieldInfo_Literal_Int}
	under := g.separate
	switch g.r.Intn(7) {
	case 0:
		l.Text = g.kw("0x") + under(flipCase(g.r, strconv.FormatInt(v, 16)))
	case 1:
		l.Text = g.kw("0b") + under(strconv.FormatInt(v, 2))
	case 2:
		l.Text = g.kw("0o") + under(strconv.FormatInt(v, 8))
	case 3:
		if v == 0 {
			v = 1
		}
		l.Text = "-" + under(strconv.FormatInt(v, 10))
		v = -v
		if g.p(10) {
			v, l.Text = math.MinInt64, "-9223372036854775808"
		}
	case 4:
		if v == 0 {
			v = 7
		}
		l.Text = "+" + under(strconv.FormatInt(v, 10))
	default:
		if v == 0 {
			l.Text = "0"
		} else {
			l.Text = under(strconv.FormatInt(v, 10))
		}
	}
	l.Val = v
	return l
}

func (g *gen) floatLit() *mLit {
	l := &mLit{Type: t.SoqlFieldInfo_Literal_Float}
	if g.c.NonFinite && g.p(40) {
		switch g.r.Intn(4) {
		case 0:
			l.Text, l.Val = g.kw("NaN"), math.NaN()
		case 1:
			l.Text, l.Val = g.kw("Infinity"), math.Inf(1)
		case 2:
			l.Text, l.Val = "+"+g.kw("Infinity"), math.Inf(1)
		default:
			l.Text, l.Val = "-"+g.kw("Infinity"), math.Inf(-1)
		}
		return l
	}
	ip := strconv.Itoa(g.r.Intn(3000))
	fp := strconv.Itoa(g.r.Intn(100000))
	ex := strconv.Itoa(g.r.Intn(280))
	if g.p(40) { // as many digits as you like
		if g.p(50) {
			ip = strconv.Itoa(1+g.r.Intn(9)) + g.digits(g.r.Intn(22))
		}
		fp = g.digits(1 + g.r.Intn(30))
	}
	if g.p(10) {
		ex = "0" + ex
	}
	ip, fp, ex = g.separate(ip), g.separate(fp), g.separate(ex)
	ex = g.pick([]string{"e", "E"}) + g.pick([]string{"", "+", "-"}) + ex
	s := ""
	switch g.r.Intn(5) {
	case 4:
		s = g.pick(hardFloats)
	case 0:
		s = ip + "." + fp
	case 1:
		s = "." + fp
	case 2:
		s = ip + "." + fp + ex
	default:
		s = ip + ex
	}
	s = g.pick([]string{"", "", "-", "+"}) + s
	l.Text = s
	v, err := strconv.ParseFloat(strings.ReplaceAll(s, "_", ""), 64)
	if err != nil {
		panic(err)
	}
	l.Val = v
	return l
}

var strPieces = []struct{ src, val string }{
	{"\\\\", "\\"}, {"\\'", "'"}, {"\\\"", "\""}, {"\"", "\""}, {"\\`", "`"}, {"`", "`"}, {"\\n", "\n"}, {"\\N", "\n"}, {"\\r", "\r"}, {"\\R", "\r"},
	{"\\t", "\t"}, {"\\T", "\t"}, {"\\v", "\v"}, {"\\V", "\v"}, {"\\b", "\b"}, {"\\B", "\b"}, {"\\f", "\f"}, {"\\F", "\f"}, {"\\_", "\\_"}, {"\\%", "\\%"}, {"%", "%"}, {"_", "_"},
	{"\\u0041", "A"}, {"\\u00e9", "é"}, {"\\u3042", "あ"}, {"\\u{1F600}", "😀"}, {"\\u{41}", "A"}, {"\\u{a}", "\n"}, {"\\x41", "A"}, {"\\xE9", "é"}, {"\\101", "A"}, {"\\000", "\x00"}, {"\\x00", "\x00"}, {"\\x7f", "\x7f"},
	{"é", "é"}, {"あ", "あ"}, {"😀", "😀"}, {"\n", "\n"}, {"\r\n", "\r\n"}, {"\t", "\t"}, {"--", "--"}, {"/*", "/*"}, {"*/", "*/"}, {";", ";"}, {"(", "("}, {")", ")"}, {":", ":"}, {",", ","}, {"<&>", "<&>"},
	{"\u2028", "\u2028"}, {" or 1=1", " or 1=1"}, {"from", "from"}, {"9", "9"}, {"ff", "ff"}, {"}", "}"},
}

func (g *gen) strLit() *mLit {
	var s, v strings.Builder
	s.WriteByte('\'')
	n := g.r.Intn(g.nStr)
	for i := 0; i < n; i++ {
		switch g.r.Intn(3) {
		case 0:
			w := g.pick([]string{"a", "abc", "Foo", "x y", "0", "select", "WHERE"})
			s.WriteString(w)
			v.WriteString(w)
		case 1:
			p := strPieces[g.r.Intn(len(strPieces))]
			s.WriteString(p.src)
			v.WriteString(p.val)
		default:
			c := rune(0)
			switch g.r.Intn(4) {
			case 0:
				c = rune(g.r.Intn(0x80))
			case 1:
				c = rune(g.r.Intn(0x100))
			case 2:
				c = rune(g.r.Intn(0xd800))
			default:
				c = rune(0x10000 + g.r.Intn(0x100000))
			}
			switch g.r.Intn(3) {
			case 0:
				if c < 0x10000 {
					fmt.Fprintf(&s, "\\u%04x", c)
				} else {
					fmt.Fprintf(&s, "\\u{%X}", c)
				}
			case 1:
				fmt.Fprintf(&s, "\\u{%x}", c)
			default:
				if c == '\'' || c == '\\' {
					s.WriteByte('\\')
				}
				s.WriteRune(c)
			}
			v.WriteRune(c)
		}
	}
	s.WriteByte('\'')
	return &mLit{Type: t.SoqlFieldInfo_Literal_String, Val: v.String(), Text: s.String(), IsStr: true}
}

func (g *gen) ymd() time.Time {
	y := 1900 + g.r.Intn(200)
	if g.p(15) {
		y = 1 + g.r.Intn(9997)
	}
	d := time.Date(y, time.Month(1+g.r.Intn(12)), 1+g.r.Intn(28), 0, 0, 0, 0, time.UTC)
	if g.p(20) {
		d = d.AddDate(0, 1, -d.Day()) // last day of the month
	}
	return d
}

func (g *gen) dateLit() *mLit {
	d := g.ymd()
	return &mLit{Type: t.SoqlFieldInfo_Literal_Date, Val: d, Text: d.Format("2006-01-02")}
}

func (g *gen) hms() (string, time.Duration) {
	h, m, s, ns := g.r.Intn(24), g.r.Intn(60), g.r.Intn(60), 0
	txt := fmt.Sprintf("%02d:%02d", h, m)
	if g.p(75) {
		txt += fmt.Sprintf(":%02d", s)
		if g.p(50) {
			n := 1 + g.r.Intn(9)
			f := ""
			for i := 0; i < n; i++ {
				f += strconv.Itoa(g.r.Intn(10))
			}
			txt += "." + f
			ns, _ = strconv.Atoi((f + "000000000")[:9])
		}
	} else {
		s = 0
	}
	return txt, time.Duration(h)*time.Hour + time.Duration(m)*time.Minute + time.Duration(s)*time.Second + time.Duration(ns)
}

func (g *gen) dateTimeLit() *mLit {
	d := g.ymd()
	txt, dur := g.hms()
	v := d.Add(dur)
	s := d.Format("2006-01-02") + "T" + txt
	if g.p(50) {
		s += "Z"
	} else {
		h, m := g.r.Intn(15), []int{0, 0, 30, 45}[g.r.Intn(4)]
		if g.p(20) {
			h, m = g.r.Intn(24), g.r.Intn(60)
		}
		off := time.Duration(h)*time.Hour + time.Duration(m)*time.Minute
		if g.p(50) {
			s += fmt.Sprintf("+%02d:%02d", h, m)
			v = v.Add(-off)
		} else {
			s += fmt.Sprintf("-%02d:%02d", h, m)
			v = v.Add(off)
		}
	}
	return &mLit{Type: t.SoqlFieldInfo_Literal_DateTime, Val: v, Text: s}
}

func (g *gen) timeLit() *mLit {
	txt, dur := g.hms()
	return &mLit{Type: t.SoqlFieldInfo_Literal_Time, Val: time.Date(1970, 1, 1, 0, 0, 0, 0, time.UTC).Add(dur), Text: txt}
}
