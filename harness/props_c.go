package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

func init() {
	// ---- totality ----
	register(&prop{
		id: "C01", quick: 60000, thorough: 1500000,
		rule:   "A text counts as non-trivial when it contains at least one token of the language; distinct by text.",
		assume: []string{"a process that dies while parsing is attributed to the text being parsed", "more than 60 s of CPU time or 3 GiB of live heap for one text counts as a hang"},
		minObs: map[string]int64{"accepted": 5000, "rejected": 20000, "texts: valid": 1000, "texts: mutated bytes": 1000, "texts: mutated tokens": 1000, "texts: nested": 1000, "texts: random bytes": 500, "texts: token soup": 1000, "texts: spliced": 1000, "texts: semantic soup": 1000, "texts: wide or deep": 200, "huge texts": 20},
		run: func(x *T) {
			s, kind := hostile(x.r)
			x.count("texts: "+kind, 1)
			x.max("max. text length", len(s))
			totality(x, s)
			if len(s) > 0 && strings.ContainsAny(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ(),'\"=") {
				x.nontrivial(s)
			}
		},
		once: func(x *T) {
			for _, s := range hugeTexts() {
				x.count("huge texts", 1)
				totality(x, s)
			}
		},
	})

	// ---- layout ----
	register(&prop{
		id: "C06", quick: 8000, thorough: 200000,
		rule:   "A query counts as non-trivial when its variants differ in at least 10 bytes; distinct by source text.",
		assume: []string{"white space, comments, letter case of the keywords and needless quotation of names are varied; letter case of names is C07"},
		minObs: map[string]int64{"variants": 20000, "variants with comments": 5000, "variants with other quotation": 5000, "variants with line breaks": 5000, "rejections compared": 4000, "results of texts of random names compared": 1000},
		run: func(x *T) {
			for i := 0; i < 2; i++ {
				soupLayout(x)
			}
			cfg := defaultCfg()
			c := generate(x, cfg, layoutPlain)
			q := x.mustParse(c.src)
			if q == nil {
				return
			}
			want := dump(q, dumpOpts{skip: skipText})
			for i := 0; i < 3; i++ {
				toks := append([]tok{}, c.toks...)
				if i > 0 {
					pct := []int{10, 50, 90}[x.r.Intn(3)]
					n := 0
					for k := range toks {
						if nm := toks[k].name; nm != "" && isIdent(nm) {
							if x.r.Intn(100) < pct {
								toks[k].s, toks[k].word = quoteSym(nm), false
							} else {
								toks[k].s, toks[k].word = nm, true
							}
							if toks[k].s != c.toks[k].s {
								n++
							}
						}
					}
					unambiguous(toks)
					if n > 0 {
						x.count("variants with other quotation", 1)
					}
				}
				st := []layoutStyle{layoutCompact, layoutWild, layoutWild}[i]
				s, _ := layout(x.r, toks, st)
				x.count("variants", 1)
				if strings.Contains(s, "/*") || strings.Contains(s, "--") {
					x.count("variants with comments", 1)
				}
				if strings.ContainsAny(s, "\r\n") {
					x.count("variants with line breaks", 1)
				}
				p := x.mustParse(s)
				if p == nil {
					return
				}
				if got := dump(p, dumpOpts{skip: skipText}); got != want {
					x.failf("the result differs from the one of\n%s\n%s", c.src, firstDiff(want, got))
				}
				if len(s) >= len(c.src)+10 || len(s)+10 <= len(c.src) {
					x.nontrivial(s)
				}
			}
		},
	})

	// ---- JSON ----
	register(&prop{
		id: "C18", quick: 6000, thorough: 150000,
		rule:   "A query counts as non-trivial when its JSON form is at least 5000 bytes; distinct by source text.",
		assume: []string{"numbers that JSON cannot represent and date-times whose UTC year is not 0..9999 are known findings; they are not generated", "the JSON form repeats a subquery wherever it is referred to; nesting is limited to 4"},
		minObs: map[string]int64{"hints added": 2000, "values of other types added": 2000, "round trips": 5000, "bytes of JSON": 1000000},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.MaxDepth = 1 + x.r.Intn(4)
			c := generate(x, cfg, randStyle(x.r))
			q := x.mustParse(c.src)
			if q == nil {
				return
			}
			if jsonTrip(x, q) >= 5000 {
				x.nontrivial(c.src)
			}
			if x.idx%3 == 0 {
				dress(x, q, map[*t.SoqlQuery]bool{})
				jsonTrip(x, q)
			}
		},
		once: func(x *T) { knownFindings(x, jsonKnown) },
	})

	// ---- determinism and isolation ----
	register(&prop{
		id: "C20", quick: 3600, thorough: 120000,
		rule:   "A query counts as non-trivial when its result has at least two queries or three objects; distinct by source text.",
		assume: []string{"strings are immutable and may be shared"},
		minObs: map[string]int64{"repeated parses": 10000, "memory blocks compared": 100000, "results overwritten": 2500, "texts parsed in between": 2000, "texts compared between processes": 500},
		run:    isolation,
		parent: orderIndependence,
	})

	// ---- conditional subqueries ----
	register(&prop{
		id: "C25", quick: 7000, thorough: 250000,
		rule:   "A query counts as non-trivial when it has a conditional subquery with a condition or a subquery of its own; distinct by source text.",
		assume: []string{"ids are compared up to renumbering", cfgNote},
		minObs: map[string]int64{"select-subqueries compared": 2000, "conditional subqueries compared": 4000, "of those, nested": 500, "of those, with select-subqueries": 200, "conditional subqueries exchanged": 3000},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.CondSub, cfg.Where, cfg.Agg, cfg.SelSub = 45, 100, 20, 20
			c := generate(x, cfg, randStyle(x.r))
			if len(c.q.all()) == 1 {
				cfg.CondSub = 100
				c = generate(x, cfg, randStyle(x.r))
			}
			c.o = x.mustParse(c.src)
			if c.o == nil {
				return
			}
			var err error
			if c.pairs, err = pairUp(c.q, c.o, nil, nil); err != nil {
				x.failf("the structure of the result differs from the query: %v", err)
				return
			}
			skip := func(f string) bool { return f == "SoqlQuery.Meta" }
			for _, p := range c.pairs {
				if p.m.Place != placeCond {
					continue
				}
				sp := c.span[p.m]
				s, _ := layout(x.r, c.toks[sp[0]:sp[1]], randStyle(x.r))
				q := x.mustParse(s)
				if q == nil {
					continue
				}
				x.count("conditional subqueries compared", 1)
				if p.parent != nil && p.parent.inCond() {
					x.count("of those, nested", 1)
				}
				if len(p.m.selSubs()) > 0 {
					x.count("of those, with select-subqueries", 1)
				}
				a := dump(q, dumpOpts{skip: skip, renumber: true})
				b := dump(p.o, dumpOpts{skip: skip, renumber: true})
				if a != b {
					x.failf("as a conditional subquery of\n%s\nthe result is another one: %s", c.src, firstDiff(a, b))
				}
				if len(p.m.all()) > 1 || p.m.Where != nil {
					x.nontrivial(c.src)
				}
			}
			exchanged(x, c)
			wrapped(x)
		},
	})
}

// exchanged puts another subquery in the place of one of the conditional subqueries: nothing else
// of the result changes.
func exchanged(x *T, c *qcase) {
	var subs []*pair
	for _, p := range c.pairs {
		if p.m.Place == placeCond {
			subs = append(subs, p)
		}
	}
	if len(subs) == 0 {
		return
	}
	p := subs[x.r.Intn(len(subs))]
	sp := c.span[p.m]
	const mark = "VerifOther"
	var toks []tok
	toks = append(toks, c.toks[:sp[0]]...)
	for _, w := range []string{"select", "Id", "from", mark} {
		toks = append(toks, tok{s: w, word: true})
	}
	toks = append(toks, c.toks[sp[1]:]...)
	s, _ := layout(x.r, toks, randStyle(x.r))
	q := x.mustParse(s)
	if q == nil {
		return
	}
	x.count("conditional subqueries exchanged", 1)
	skip := func(f string) bool { return f == "SoqlQuery.Meta" }
	a := dump(c.o, dumpOpts{skip: skip, renumber: true, opaque: func(v interface{}) bool {
		s, ok := v.(*t.SoqlQuery)
		return ok && s.QueryId == p.o.QueryId
	}})
	n := 0
	b := dump(q, dumpOpts{skip: skip, renumber: true, opaque: func(v interface{}) bool {
		s, ok := v.(*t.SoqlQuery)
		if ok && len(s.From) > 0 && len(s.From[0].Name) == 1 && s.From[0].Name[0] == mark {
			n++
			return true
		}
		return false
	}})
	if n == 0 {
		x.failf("the subquery exchanged for another one of\n%s\nis not in the result", c.src)
	} else if a != b {
		x.failf("exchanging a conditional subquery of\n%s\nchanges more: %s", c.src, firstDiff(a, b))
	}
}

// wrapped compares a query with the same one as the select-subquery of another query.
func wrapped(x *T) {
	cfg := smallCfg(x.r)
	if x.r.Intn(3) == 0 {
		cfg = defaultCfg()
	}
	cfg.MaxDepth = 3
	cfg.Agg = 25
	cfg.Relative = true
	c := generate(x, cfg, layoutPlain)
	if c.g.absolute > 0 {
		x.count("queries with the name of the object at the start of a path (left out)", 1)
		return
	}
	const outer = "VerifOuter"
	var toks []tok
	id := func(l ...string) {
		for _, w := range l {
			toks = append(toks, tok{s: w, word: true})
		}
	}
	id("select", "Id")
	toks = append(toks, tok{s: ","}, tok{s: "("})
	toks = append(toks, c.toks...)
	toks = append(toks, tok{s: ")"})
	id("from", outer)
	s, _ := layout(x.r, toks, layoutPlain)
	a := x.mustParse(c.src)
	b := x.mustParse(s)
	if a == nil || b == nil {
		return
	}
	if len(b.Fields) != 2 || b.Fields[1].SubQuery == nil {
		x.failf("the select-subquery is not in the result")
		return
	}
	x.count("select-subqueries compared", 1)
	sub := b.Fields[1].SubQuery
	if sub.IsCorelated || sub.Parent != b {
		x.failf("a subquery without references to the query around it: correlated %v, parent missing %v", sub.IsCorelated, sub.Parent != b)
		return
	}
	sub.Parent = nil
	(&unwrapper{prefix: outer, done: map[interface{}]bool{}}).query(sub)
	for i := range sub.From {
		if i == 0 {
			sub.From[i].ParentViewId = 0
		}
		if p := sub.From[i].PerObjectQuery; i == 0 && p != nil && len(p.From) > 0 {
			p.From[0].ParentViewId = 0
		}
	}
	skip := func(f string) bool { return f == "SoqlQuery.Meta" }
	da := dump(a, dumpOpts{skip: skip, renumber: true})
	db := dump(sub, dumpOpts{skip: skip, renumber: true})
	if da != db {
		x.failf("as the select-subquery of another query, the result differs from that of\n%s\n%s", c.src, firstDiff(da, db))
		return
	}
	if x.r.Intn(4) == 0 && len(c.toks) > 8 {
		x.nontrivial(c.src)
	}
	// the graphs, with ids and depths moved by one
	graph := func(m *t.SoqlQueryMeta, by int) string {
		var out []string
		for id, l := range m.QueryGraph {
			if id > by {
				out = append(out, fmt.Sprintf("query %d: parent %d depth %d conditional %v", id-by, l.ParentQueryId-by, l.Depth-by, l.IsConditional && id > 1+by))
			}
		}
		cond := map[int]bool{}
		for id, l := range m.QueryGraph {
			for k := id; k > by; k = m.QueryGraph[k].ParentQueryId {
				cond[id] = cond[id] || l.IsConditional || m.QueryGraph[k].IsConditional
			}
		}
		for id, l := range m.ViewGraph {
			if id > by {
				parent, depth := l.ParentViewId-by, l.Depth-by
				if parent < 0 {
					parent = 0
				}
				if cond[l.QueryId] {
					depth = 0
				}
				out = append(out, fmt.Sprintf("view %d: %q parent %d query %d depth %d/%d many %v inner %v nonresult %v", id-by, low(l.Name), parent, l.QueryId-by, depth, l.QueryDepth-by,
					l.Many && id > 1+by, l.InnerJoin, l.NonResult))
			}
		}
		sort.Strings(out)
		out = append(out, fmt.Sprintf("functions %v parameters %v date literals %v", m.Functions, m.Parameters, m.DateTimeLiterals), fmt.Sprint("queries ", m.NextQueryId-by, " views ", m.NextViewId-by, " depth ", m.MaxQueryDepth-by))
		return strings.Join(out, "\n")
	}
	if ga, gb := graph(a.Meta, 0), graph(b.Meta, 1); ga != gb {
		x.failf("as the select-subquery of another query, the graphs and lists differ from those of\n%s\n%s", c.src, firstDiff(ga, gb))
	}
}

// unwrapper takes the first step off the names of a result that start with the prefix.
type unwrapper struct {
	prefix string
	done   map[interface{}]bool
}

func (u *unwrapper) name(n *[]string, key *string) {
	if len(*n) > 1 && (*n)[0] == u.prefix {
		*n = append([]string{}, (*n)[1:]...)
		if k := strings.IndexByte(*key, '.'); k >= 0 {
			*key = (*key)[k+1:]
		}
	}
}

func (u *unwrapper) field(f *t.SoqlFieldInfo) {
	if u.done[f] {
		return
	}
	u.done[f] = true
	u.name(&f.Name, &f.Key)
	for i := range f.Parameters {
		u.field(&f.Parameters[i])
	}
	u.query(f.SubQuery)
}

func (u *unwrapper) query(q *t.SoqlQuery) {
	if q == nil || u.done[q] {
		return
	}
	u.done[q] = true
	for _, l := range [][]t.SoqlFieldInfo{q.Fields, q.GroupBy} {
		for i := range l {
			u.field(&l[i])
		}
	}
	for _, l := range [][]t.SoqlCondition{q.Where, q.Having, q.PostProcessWhere} {
		for i := range l {
			u.field(&l[i].Value)
		}
	}
	for i := range q.OrderBy {
		u.field(&q.OrderBy[i].Field)
	}
	for i := range q.From {
		if o := &q.From[i]; !u.done[o] {
			u.done[o] = true
			u.name(&o.Name, &o.Key)
			u.query(o.PerObjectQuery)
		}
	}
}

// totality judges one call: no panic, exactly one of a query and an error, and an accepted
// query is structurally complete.
func totality(x *T, s string) {
	q, err, ok := x.parse(s)
	if !ok {
		return
	}
	if (q == nil) == (err == nil) {
		x.failf("query: %v, error: %v", q != nil, err)
		return
	}
	if err != nil {
		x.count("rejected", 1)
		if strings.TrimSpace(err.Error()) == "" {
			x.failf("the error has no text")
		}
		return
	}
	x.count("accepted", 1)
	if q.Meta == nil || q.Meta.Source != s {
		x.failf("the result has no meta information of the text")
	}
	if msg := wellFormed(q, 0, map[*t.SoqlQuery]bool{}); msg != "" {
		x.failf("the result is broken: %s", msg)
	}
}

func wellFormed(q *t.SoqlQuery, depth int, seen map[*t.SoqlQuery]bool) string {
	if seen[q] {
		return ""
	}
	seen[q] = true
	if len(q.From) == 0 {
		return "the From list is empty"
	}
	if len(q.Fields) == 0 {
		return "the Fields list is empty"
	}
	if q.QueryId <= 0 {
		return "no query id"
	}
	var fld func(f *t.SoqlFieldInfo) string
	fld = func(f *t.SoqlFieldInfo) string {
		switch f.Type {
		case t.SoqlFieldInfo_Field, t.SoqlFieldInfo_FieldSet:
			if len(f.Name) < 2 {
				return fmt.Sprintf("%v with the name %q", f.Type, f.Name)
			}
		case t.SoqlFieldInfo_Function, t.SoqlFieldInfo_ParameterizedValue, t.SoqlFieldInfo_DateTimeLiteralName:
			if len(f.Name) != 1 || f.Name[0] == "" {
				return fmt.Sprintf("%v with the name %q", f.Type, f.Name)
			}
			for i := range f.Parameters {
				if m := fld(&f.Parameters[i]); m != "" {
					return m
				}
			}
		case t.SoqlFieldInfo_SubQuery:
			if f.SubQuery == nil {
				return "a subquery without its query"
			}
			return wellFormed(f.SubQuery, depth+1, seen)
		case t.SoqlFieldInfo_Literal_Null:
			if f.Value != nil {
				return "null with a value"
			}
		case t.SoqlFieldInfo_Literal_List:
			l, ok := f.Value.([]t.SoqlListItem)
			if !ok {
				return fmt.Sprintf("a list of the type %T", f.Value)
			}
			if len(l) == 0 {
				return "an empty list"
			}
		default:
			if f.Type <= 0 || f.Type >= t.SoqlFieldInfo_EndOfConstDefinitions_ {
				return fmt.Sprintf("an item of the type %d", int(f.Type))
			}
			if f.Value == nil {
				return fmt.Sprintf("%v without a value", f.Type)
			}
		}
		return ""
	}
	for i := range q.Fields {
		if m := fld(&q.Fields[i]); m != "" {
			return m
		}
	}
	for i := range q.GroupBy {
		if m := fld(&q.GroupBy[i]); m != "" {
			return m
		}
	}
	for i := range q.OrderBy {
		if m := fld(&q.OrderBy[i].Field); m != "" {
			return m
		}
	}
	conds := func(name string, c []t.SoqlCondition) string {
		if _, err := rpn(c); err != nil {
			return fmt.Sprintf("the condition %s: %v", name, err)
		}
		for i := range c {
			if c[i].Opcode == t.SoqlConditionOpcode_FieldInfo {
				if m := fld(&c[i].Value); m != "" {
					return m
				}
			}
		}
		return ""
	}
	if m := conds("where", q.Where); m != "" {
		return m
	}
	if m := conds("having", q.Having); m != "" {
		return m
	}
	if m := conds("post-process", q.PostProcessWhere); m != "" {
		return m
	}
	for i := range q.From {
		o := &q.From[i]
		if len(o.Name) == 0 || o.ViewId <= 0 {
			return fmt.Sprintf("the object %q with the view id %d", o.Name, o.ViewId)
		}
		if o.PerObjectQuery == nil || len(o.PerObjectQuery.From) != 1 {
			return fmt.Sprintf("the object %q has no query of its own", o.Name)
		}
		if m := conds("per object", o.PerObjectQuery.Where); m != "" {
			return m
		}
	}
	return ""
}

// ---- hostile texts ----

var soup = strings.Fields(`select SELECT from FROM where WHERE and AND or OR not NOT group by having order asc desc nulls first last offset limit for view reference update tracking viewstat
 in like includes excludes ( ) ( ) , , . = != < <= > >= <> == : - + * / -- /* */ ' " '' "" 'a' "a" 1 0 -1 1.5 1e5 .5 0x1F 0b1 0o7 1_000 99999999999999999999 1e999 null NULL true false NaN Infinity -Infinity
 2020-01-01 2020-13-45 2020-01-01T00:00:00Z 2020-01-01T00:00:00+09:00 10:20:30 25:61:61 10:20:30.123 TODAY LAST_N_DAYS:3 LAST_N_DAYS NEXT_N_WEEKS:99999999999 :p :1 : Id Name Account Contact a b Owner.Name Account.Name a.b.c a. .a
 count() count(Id) COUNT_DISTINCT(Id) max(Id) f() f( fields(all) FIELDS(custom) fields() TYPEOF WHEN THEN ELSE END WITH SECURITY_ENFORCED USING SCOPE ALL ROWS ROLLUP CUBE using scope
 'a\'b' 'a\\' 'a\ '\u12 '\x ; # @ $ ^ & | ~ ? ! % { } [ ] \ `)

func genText(r *rand.Rand) []tok {
	return tokens(r, newGen(r, smallCfg(r)).query())
}

func smallCfg(r *rand.Rand) genCfg {
	c := defaultCfg()
	c.MaxDepth = 1 + r.Intn(3)
	if r.Intn(2) == 0 {
		c.CondSize = 3
	}
	c.NonFinite = r.Intn(8) == 0
	return c
}

func hostile(r *rand.Rand) (string, string) {
	switch r.Intn(12) {
	case 0:
		s, _ := layout(r, genText(r), randStyle(r))
		return s, "valid"
	case 1, 2:
		s, _ := layout(r, genText(r), randStyle(r))
		return mutateBytes(r, s), "mutated bytes"
	case 3, 4, 5:
		s, _ := layout(r, mutateTokens(r, genText(r)), randStyle(r))
		return s, "mutated tokens"
	case 6:
		a, b := genText(r), genText(r)
		i, j := r.Intn(len(a)+1), r.Intn(len(b)+1)
		t := append(append([]tok{}, a[:i]...), b[j:]...)
		if r.Intn(3) == 0 { // a part of the query within itself
			k := r.Intn(len(a) + 1)
			if k < i {
				k, i = i, k
			}
			l := r.Intn(len(a) + 1)
			t = append(append(append([]tok{}, a[:l]...), a[i:k]...), a[l:]...)
		}
		s, _ := layout(r, t, randStyle(r))
		return s, "spliced"
	case 7:
		n := 1 + r.Intn(25)
		var b strings.Builder
		if r.Intn(2) == 0 {
			b.WriteString("select Id from Account where ")
		}
		for i := 0; i < n; i++ {
			b.WriteString(soup[r.Intn(len(soup))])
			if r.Intn(4) > 0 {
				b.WriteByte(' ')
			}
		}
		return b.String(), "token soup"
	case 8:
		n := r.Intn(60)
		b := make([]byte, n)
		for i := range b {
			switch r.Intn(3) {
			case 0:
				b[i] = byte(r.Intn(256))
			case 1:
				b[i] = byte(32 + r.Intn(95))
			default:
				b[i] = " ()',.\"\\-/*\n\x00\xff\xc3\xed\xa0"[r.Intn(17)]
			}
		}
		s := string(b)
		if r.Intn(2) == 0 {
			s = []string{"select ", "select Id from ", "select Id from A where ", "select Id from A where x = '", "select Id from A where x = \"", "select \"", "select Id from A order by ", "select Id from A limit ", "/*", "--"}[r.Intn(10)] + s
		}
		return s, "random bytes"
	case 9, 10:
		return semanticSoup(r), "semantic soup"
	default:
		if r.Intn(10) == 0 {
			// one of the families whose cost C22 measures, of any size
			f := newFamily(r)
			return f.text(1 + r.Intn(f.sizes[len(f.sizes)-1]*5/2)), "wide or deep"
		}
		return nested(r), "nested"
	}
}

func mutateBytes(r *rand.Rand, s string) string {
	b := []byte(s)
	for n := 1 + r.Intn(6); n > 0; n-- {
		if len(b) == 0 {
			break
		}
		i := r.Intn(len(b))
		switch r.Intn(7) {
		case 0:
			b[i] = byte(r.Intn(256))
		case 1:
			b = append(b[:i], b[i+1:]...)
		case 2:
			const chars = "()',.\"\\-/*:;=<>!%_ \n\t\x00\xff0aZ"
			c := chars[r.Intn(len(chars))]
			b = append(b[:i], append([]byte{c}, b[i:]...)...)
		case 3: // delete a span
			j := i + r.Intn(len(b)-i)
			if j-i > 20 {
				j = i + 20
			}
			b = append(b[:i], b[j:]...)
		case 4: // repeat a span
			j := i + r.Intn(len(b)-i)
			if j-i > 40 {
				j = i + 40
			}
			b = append(b[:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		case 5:
			j := r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		case 6:
			if r.Intn(3) == 0 {
				b = b[:i]
			} else {
				b[i] ^= 0x20
			}
		}
	}
	return string(b)
}

func mutateTokens(r *rand.Rand, k []tok) []tok {
	k = append([]tok{}, k...)
	for n := 1 + r.Intn(4); n > 0 && len(k) > 0; n-- {
		i := r.Intn(len(k))
		switch r.Intn(7) {
		case 0:
			k = append(k[:i], k[i+1:]...)
		case 1:
			k = append(k[:i], append([]tok{k[i]}, k[i:]...)...)
		case 2:
			j := r.Intn(len(k))
			k[i], k[j] = k[j], k[i]
		case 3:
			k[i] = k[r.Intn(len(k))]
		case 4:
			k[i] = tok{s: soup[r.Intn(len(soup))], word: true}
		case 5:
			k = append(k[:i], append([]tok{{s: soup[r.Intn(len(soup))], word: true}}, k[i:]...)...)
		case 6:
			j := i + r.Intn(len(k)-i)
			if j-i > 8 {
				j = i + 8
			}
			k = append(k[:i], k[j:]...)
		}
	}
	return k
}

// semanticSoup makes texts which are grammatical but whose names are chosen at random, so
// most of the decisions are left to the phases after the grammar.
func semanticSoup(r *rand.Rand) string {
	s, _ := soupPair(r)
	return s
}

// soupLayout lays a text of random names out in another way; most of these are rejected.
func soupLayout(x *T) {
	toks := soupTokens(semanticSoup(x.r))
	a, _ := layout(x.r, toks, layoutPlain)
	pct := []int{0, 10, 50}[x.r.Intn(3)]
	for i := range toks {
		k := &toks[i]
		switch {
		case k.kw || k.s == "TODAY" || strings.HasPrefix(k.s, "LAST_N_DAYS"):
			k.s = flipNames(x.r, k.s, 50)
		case k.name != "" && x.r.Intn(100) < pct:
			k.s, k.word = quoteSym(k.name), false
		}
	}
	b, _ := layout(x.r, toks, layoutWild)
	qa, ea, ok := x.parse(a)
	if !ok {
		return
	}
	qb, eb, ok := x.parse(b)
	if !ok {
		return
	}
	if (ea == nil) != (eb == nil) {
		x.failf("laid out in another way, the outcome is %v instead of %v for\n%s", eb, ea, a)
		return
	}
	if ea != nil {
		x.count("rejections compared", 1)
		return
	}
	x.count("results of texts of random names compared", 1)
	if da, db := dump(qa, dumpOpts{skip: skipText}), dump(qb, dumpOpts{skip: skipText}); da != db {
		x.failf("the result differs from the one of\n%s\n%s", a, firstDiff(da, db))
	}
}

// soupPair makes such a text and the same with select items, grouping items and operands
// of AND and OR in another order.
func soupPair(r *rand.Rand) (string, string) {
	type pair [2]string
	one := func(s string) pair { return pair{s, s} }
	add := func(p ...pair) pair {
		var o pair
		for _, q := range p {
			o[0] += q[0]
			o[1] += q[1]
		}
		return o
	}
	names := []string{"Account", "Contact", "a", "c", "Id", "Name", "Owner", "Parent", "x", "ACCOUNT", "ID", "Contacts", "Tasks"}
	pick := func(a []string) string { return a[r.Intn(len(a))] }
	path := func() string {
		s := pick(names)
		for r.Intn(3) == 0 {
			s += "." + pick(names)
		}
		return s
	}
	var query func(d int) pair
	var fn func(d int) string
	fn = func(d int) string {
		n := r.Intn(4)
		var a []string
		for i := 0; i < n; i++ {
			switch k := r.Intn(6); {
			case k == 0 && d < 3:
				a = append(a, fn(d+1))
			case k == 1:
				a = append(a, pick([]string{"1", "'s'", ":p", "null", "TODAY", "2020-01-01", "LAST_N_DAYS:2"}))
			default:
				a = append(a, path())
			}
		}
		return pick([]string{"count", "COUNT_DISTINCT", "max", "f", "fields", "count", "grouping"}) + "(" + strings.Join(a, ",") + ")"
	}
	alias := func() string {
		if r.Intn(3) == 0 {
			return " " + pick([]string{"a", "b", "c", "x", "Id", "Account", "expr0", "expr1", "n"})
		}
		return ""
	}
	opd := func() string {
		switch r.Intn(4) {
		case 0:
			return fn(0)
		default:
			return path()
		}
	}
	var cond func(d, n int) (pair, bool) // closed: operators around it do not take it apart
	cond = func(d, n int) (pair, bool) {
		if n <= 1 {
			l := opd() + " "
			switch r.Intn(6) {
			case 0:
				if d < 3 {
					return add(one(l+pick([]string{"in", "not in", "="})+" ("), query(d+1), one(")")), true
				}
				fallthrough
			case 1:
				return one(l + pick([]string{"in", "not in", "includes", "excludes"}) + " (1, 'a', :p)"), true
			case 2:
				return one(l + pick([]string{"=", "<", "!="}) + " " + opd()), true
			default:
				return one(l + pick([]string{"=", "!=", "<", "like", "not like"}) + " " + pick([]string{"1", "'s'", ":p", "null", "TODAY"})), true
			}
		}
		k := 1 + r.Intn(n-1)
		a, ca := cond(d, k)
		b, cb := cond(d, n-k)
		op := pick([]string{" and ", " or "})
		s := pair{a[0] + op + b[0], a[1] + op + b[1]}
		paren := r.Intn(4)
		if paren < 3 && ca && cb && r.Intn(2) == 0 {
			s[1] = b[1] + op + a[1]
		}
		switch paren {
		case 0:
			return add(one("not ("), s, one(")")), true
		case 1, 2:
			return add(one("("), s, one(")")), true
		}
		return s, false
	}
	list := func(max int, f func() pair, shuffle bool) pair {
		var a, b []string
		for n := 1 + r.Intn(max); n > 0; n-- {
			p := f()
			a, b = append(a, p[0]), append(b, p[1])
		}
		if shuffle {
			r.Shuffle(len(b), func(i, j int) { b[i], b[j] = b[j], b[i] })
		}
		return pair{strings.Join(a, ", "), strings.Join(b, ", ")}
	}
	query = func(d int) pair {
		s := add(one("select "), list(5, func() pair {
			switch k := r.Intn(7); {
			case k == 0 && d < 3:
				return add(one("("), query(d+1), one(")"+alias()))
			case k <= 2:
				return one(fn(0) + alias())
			}
			return one(path() + alias())
		}, true))
		s = add(s, one(" from "), list(3, func() pair { return one(path() + alias()) }, false))
		if r.Intn(2) == 0 {
			c, _ := cond(d, 1+r.Intn(5))
			s = add(s, one(" where "), c)
		}
		if r.Intn(3) == 0 {
			s = add(s, one(" group by "), list(3, func() pair { return one(path()) }, true))
			if r.Intn(2) == 0 {
				c, _ := cond(d, 1+r.Intn(3))
				s = add(s, one(" having "), c)
			}
		}
		if r.Intn(3) == 0 {
			s = add(s, one(" order by "), list(3, func() pair {
				return one(path() + pick([]string{"", " asc", " desc"}) + pick([]string{"", " nulls first", " nulls last"}))
			}, false))
		}
		return add(s, one(pick([]string{"", "", "", " limit 5", " offset 3 limit :l"})+pick([]string{"", "", "", " for view", " for update tracking"})))
	}
	p := query(1)
	return p[0], p[1]
}

type nestUnit struct{ pre, post string }

// nested makes deeply nested texts, complete or cut off.
func nested(r *rand.Rand) string {
	units := []nestUnit{{"(", ")"}, {"not (", ")"}, {"(a = 1 and ", ")"}, {"(", " or b = 2)"}, {"x in (select Id from A where ", ")"}, {"not x in (select Id, (select Id from Rs) from A where ", " and y = 1)"}, {"(not a = 1 or ", ")"}}
	fns := []nestUnit{{"f(", ")"}, {"f(1, ", ")"}, {"f(", ", x)"}, {"max(", ")"}, {"f(g(h(", ", 1)))"}}
	n := 1 + r.Intn(40)
	if r.Intn(10) == 0 {
		n = 1 + r.Intn(150)
	}
	if r.Intn(200) == 0 {
		n = 400 + r.Intn(3000)
	}
	m := n
	switch r.Intn(4) {
	case 0:
		m = r.Intn(n + 1)
	case 1:
		m = n + 1 + r.Intn(2)
	}
	wrap := func(us []nestUnit, core string) string {
		var pre, post []string
		for i := 0; i < n; i++ {
			u := us[r.Intn(len(us))]
			if r.Intn(3) > 0 && i > 0 {
				u = us[0]
			}
			pre = append(pre, u.pre)
			post = append(post, u.post)
		}
		var b strings.Builder
		for _, s := range pre {
			b.WriteString(s)
		}
		b.WriteString(core)
		for i := 0; i < m; i++ {
			if i < n {
				b.WriteString(post[n-1-i])
			} else {
				b.WriteString(")")
			}
		}
		return b.String()
	}
	switch r.Intn(7) {
	case 0, 1, 2:
		i := r.Intn(len(units))
		units[0], units[i] = units[i], units[0]
		core := []string{"a = 1", "a = 1", "", "a in (1,2)", "not a = 1", "(", "a = '", "a in (select Id from B)"}[r.Intn(8)]
		return "select Id from A where " + wrap(units, core)
	case 3:
		s := wrap(fns, []string{"Id", "1", "", "'", "a.b.c"}[r.Intn(5)])
		return []string{"select " + s + " from A", "select Id from A where " + s + " = 1", "select Id from A where x = " + s, "select count() from A group by a having " + s + " > 1"}[r.Intn(4)]
	case 4:
		if n > 60 {
			n = 60
		}
		if m > n+1 {
			m = n + 1
		}
		s := strings.Repeat("select (", n) + "select Id from X"
		for i := 0; i < m; i++ {
			s += fmt.Sprintf(") from R%d", i)
			if r.Intn(3) == 0 {
				s += " where a = 1"
			}
		}
		return s
	case 5:
		seg := []string{"a", "\"b c\"", "Owner"}[r.Intn(3)]
		return "select " + strings.Repeat(seg+".", n) + "x from A" + []string{"", " where " + strings.Repeat("A.", n) + "y = 1", " order by " + strings.Repeat("b.", n) + "z"}[r.Intn(3)]
	default:
		return "select Id from A where x in " + strings.Repeat("(", m) + "1" + strings.Repeat(")", n)
	}
}

func hugeTexts() []string {
	rep := strings.Repeat
	var names []string
	for i := 0; i < 20000; i++ {
		names = append(names, fmt.Sprintf("F%d", i))
	}
	r := []string{
		"", " ", "\x00", "\n", "\xff", "\ufeffselect Id from A", "select", "SELECT Id FROM", "--", "/*", "/**/", "'", "\"", "(", ")", ";",
		"select Id from A" + rep(" ", 1<<20), rep("\n", 1<<20), rep("\x00", 1<<18), rep("\xff", 1<<18), rep("(", 1<<20), rep(")", 1<<20),
		"select Id from A where " + rep("(", 1<<20), "select " + rep("f(", 1<<19), "select " + rep("(select ", 1<<17), rep("select Id from A where x in (", 1<<15),
		"select Id from A where " + rep("not ", 1<<17), "select Id from A where " + rep("not (", 1<<18),
		"select Id from A where x = '" + rep("a", 1<<20) + "'", "select Id from A where x = '" + rep("a", 1<<20), "select Id from A where x = '" + rep("\\", 1<<18),
		"select Id from A where x in (" + rep("1,", 20000) + "1)", "select " + strings.Join(names, ",") + " from A", "select Id from A /*" + rep("*", 1<<20), "select Id from A /*" + rep("*", 1<<20) + "/", "select Id from A --" + rep("-", 1<<20),
		"select " + rep("a", 1<<20) + " from A", "select \"" + rep("a", 1<<20) + "\" from A", "select Id from A limit " + rep("9", 1<<18), "select Id from A where x = 1." + rep("3", 1<<18), "select Id from A where x = 0x" + rep("f", 1<<18),
		"select Id from A where x = 1e" + rep("9", 1000), "select Id from A where x = LAST_N_DAYS:" + rep("9", 1000), "select Id from A where " + rep("x = 1 and ", 400), "select Id from A where " + rep("x = 1 and ", 400) + "y = 2", "select Id from A " + rep("/**/", 1<<17),
		"select " + rep("a.", 600) + "b from A", "select Id from A order by " + rep("b,", 20000), "select Id from " + rep("A,", 20000) + "B",
	}
	return r
}

// ---- JSON ----

func jsonTrip(x *T, q *t.SoqlQuery) int {
	o := dumpOpts{jsonOnly: true, tree: true}
	want := dump(q, o)
	b, err := json.Marshal(q)
	if err != nil {
		x.failf("the result cannot be written as JSON: %v", err)
		return 0
	}
	if dump(q, o) != want {
		x.failf("writing the result as JSON changed it")
	}
	var p t.SoqlQuery
	if err := json.Unmarshal(b, &p); err != nil {
		x.failf("the JSON form cannot be read back: %v", err)
		return len(b)
	}
	x.count("round trips", 1)
	x.count("bytes of JSON", len(b))
	x.max("max. bytes of one JSON form", len(b))
	if got := dump(&p, o); got != want {
		x.failf("the JSON form reads back as another query: %s", firstDiff(want, got))
		return len(b)
	}
	c, err := json.Marshal(&p)
	if err != nil || string(b) != string(c) {
		i := 0
		for i < len(b) && i < len(c) && b[i] == c[i] {
			i++
		}
		x.failf("the JSON form of what was read back differs at byte %d: %s <> %s (%v)", i, head(string(b[i:]), 80), head(string(c[i:]), 80), err)
	}
	return len(b)
}

// dress adds what the types provide for but the parser does not produce: hints, binary values and
// time ranges, as values of their own and within lists.
func dress(x *T, q *t.SoqlQuery, seen map[*t.SoqlQuery]bool) {
	if q == nil || seen[q] {
		return
	}
	seen[q] = true
	r := x.r
	hints := func() []t.SoqlQueryHint {
		var h []t.SoqlQueryHint
		for i := r.Intn(3); i >= 0; i-- {
			h = append(h, t.SoqlQueryHint{Name: []string{"a", "", "\"<é>"}[r.Intn(3)], Value: []string{"", "x", "\u2028&"}[r.Intn(3)]})
		}
		x.count("hints added", len(h))
		return h
	}
	moment := func() time.Time {
		tm := time.Unix(r.Int63n(200000000000)-60000000000, r.Int63n(1000000000))
		if r.Intn(2) == 0 {
			return tm.UTC()
		}
		return tm.In(time.FixedZone("", (r.Intn(57)-28)*1800))
	}
	value := func() (t.SoqlFieldInfoType, interface{}) {
		x.count("values of other types added", 1)
		if r.Intn(2) == 0 {
			b := make([]byte, r.Intn(40))
			r.Read(b)
			return t.SoqlFieldInfo_Literal_Blob, b
		}
		return t.SoqlFieldInfo_Literal_DateTimeRange, t.SoqlTimeRange{Start: moment(), End: moment()}
	}
	var fld func(f *t.SoqlFieldInfo)
	fld = func(f *t.SoqlFieldInfo) {
		if r.Intn(6) == 0 {
			f.Hints = hints()
		}
		switch f.Type {
		case t.SoqlFieldInfo_Literal_Null, t.SoqlFieldInfo_Literal_Int, t.SoqlFieldInfo_Literal_Float, t.SoqlFieldInfo_Literal_Bool, t.SoqlFieldInfo_Literal_String:
			if r.Intn(2) == 0 {
				f.Type, f.Value = value()
			}
		case t.SoqlFieldInfo_Literal_List:
			l, ok := f.Value.([]t.SoqlListItem)
			if !ok {
				return
			}
			l = append([]t.SoqlListItem(nil), l...)
			for i := range l {
				if r.Intn(2) == 0 {
					l[i].Type, l[i].Value = value()
				}
			}
			if r.Intn(4) == 0 {
				l = append(l, t.SoqlListItem{Type: t.SoqlFieldInfo_Literal_List, Value: append([]t.SoqlListItem(nil), l...)})
			}
			f.Value = l
		}
		for i := range f.Parameters {
			fld(&f.Parameters[i])
		}
		dress(x, f.SubQuery, seen)
	}
	for i := range q.Fields {
		fld(&q.Fields[i])
	}
	for _, c := range [][]t.SoqlCondition{q.Where, q.Having, q.PostProcessWhere} {
		for i := range c {
			if c[i].Opcode == t.SoqlConditionOpcode_FieldInfo {
				fld(&c[i].Value)
			}
		}
	}
	for i := range q.GroupBy {
		fld(&q.GroupBy[i])
	}
	for i := range q.OrderBy {
		fld(&q.OrderBy[i].Field)
	}
	for i := range q.From {
		if r.Intn(3) == 0 {
			q.From[i].Hints = hints()
		}
		dress(x, q.From[i].PerObjectQuery, seen)
	}
}

func jsonKnown(x *T, src string) {
	q := x.mustParse(src)
	if q != nil {
		jsonTrip(x, q)
	}
}

var _ = parser.Parse
