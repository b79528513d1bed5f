package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// ---- names and values are opaque (C26) ----

var soupWords = map[string]bool{}

func init() {
	for _, w := range strings.Fields("select from where and or not in includes excludes like group by having order asc desc nulls first last limit offset for view update tracking null") {
		soupWords[w] = true
	}
}

var soupLex = regexp.MustCompile(`'[^']*'|[A-Za-z_][A-Za-z0-9_]*(:[0-9]+)?|[0-9][0-9-]*|[<>!]?=|\S`)

// soupTokens splits a text of semanticSoup.
func soupTokens(s string) []tok {
	var out []tok
	for _, w := range soupLex.FindAllString(s, -1) {
		k := tok{s: w}
		c := w[0] | 0x20
		prev := ""
		if len(out) > 0 {
			prev = out[len(out)-1].s
		}
		switch {
		case w[0] == '\'':
			k.role = 'l'
		case w[0] >= '0' && w[0] <= '9':
			k.word = true
			if prev != "limit" && prev != "offset" {
				k.role = 'l'
			}
		case c >= 'a' && c <= 'z' || w[0] == '_':
			k.word = true
			switch {
			case soupWords[low(w)]:
				k.kw = true
			case w == "TODAY" || strings.HasPrefix(w, "LAST_N_DAYS"):
			case prev == ":":
				k.role = 'p'
			case len(out) > 0 && out[len(out)-1].word && !out[len(out)-1].kw || prev == ")":
				k.role = 'a'
			default:
				k.name = w
			}
		case w == "(" && len(out) > 0 && out[len(out)-1].name != "":
			out[len(out)-1].role, out[len(out)-1].name = 'f', ""
		}
		if k.kw && len(w) > 1 {
			k.sp1 = true
		}
		out = append(out, k)
	}
	return out
}

var (
	fixedName = regexp.MustCompile(`^(?i:count|count_distinct|fields|expr[0-9]+)$`)
	// names given to items without alias depend on the order
	implicitAlias = regexp.MustCompile(`^(?i:expr[0-9]+)$`)
	plainName     = regexp.MustCompile(`zq([xs])([0-9]+)z`)
)

const plainInt = 910000000

// otherNames are names of all kinds.
func otherName(r *rand.Rand, bare bool) string {
	for {
		var s string
		switch r.Intn(7) {
		case 0, 1:
			s = hostileWords[r.Intn(len(hostileWords))]
			if r.Intn(3) == 0 {
				s = softWords[r.Intn(len(softWords))]
			}
		case 2:
			if bare {
				continue
			}
			s = quotedNames[r.Intn(len(quotedNames))]
		case 3: // a word of the language with something attached
			w := strings.Fields("select from where order group having offset limit for by and or not in like includes excludes asc desc nulls true false null nan infinity count count_distinct fields first last view update tracking viewstat reference today last_n_days this_year x0 e1 expr")
			s = w[r.Intn(len(w))] + []string{"_", "s", "1", "__c", "$a", "A"}[r.Intn(6)]
			if r.Intn(3) == 0 {
				s = []string{"_", "a", "x_", "E"}[r.Intn(4)] + w[r.Intn(len(w))]
			}
		case 4:
			n := 1 + r.Intn(8)
			if r.Intn(8) == 0 {
				n = 100 + r.Intn(300)
			}
			for i := 0; i < n; i++ {
				s += string("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"[r.Intn(63)])
			}
		case 5:
			if bare {
				continue
			}
			for n := 1 + r.Intn(6); n > 0; n-- {
				s += string([]rune(" .,'\"\\/*-():;éあ😀%\n\tß0aZ`")[r.Intn(24)])
			}
		default:
			s = string("abcxyzINTOZ_"[r.Intn(12)])
		}
		if s == "" || bare && !isIdent(s) || fixedName.MatchString(s) || plainName.MatchString(s) {
			continue
		}
		return s
	}
}

func opaqueNames(x *T) {
	r := x.r
	var toks []tok
	if x.idx%2 == 0 {
		cfg := defaultCfg()
		cfg.MaxDepth = 1 + r.Intn(3)
		cfg.CaseFlip = 0
		if r.Intn(2) == 0 {
			cfg.Agg = 60
		}
		toks = generate(x, cfg, layoutPlain).toks
		x.count("generated queries", 1)
	} else {
		toks = soupTokens(semanticSoup(r))
		x.count("texts of random names", 1)
	}
	// every name and every second literal gets a number
	id, bare := map[string]int{}, map[int]bool{}
	litOf := map[int]int{} // token -> literal number
	var lits []string
	for i, k := range toks {
		nm := k.name
		if k.role == 'f' || k.role == 'a' || k.role == 'p' {
			nm = k.s
		}
		if nm != "" && !fixedName.MatchString(nm) {
			if _, ok := id[low(nm)]; !ok {
				id[low(nm)] = len(id)
			}
			if k.name == "" {
				bare[id[low(nm)]] = true
			}
		}
		if k.role == 'l' && r.Intn(3) > 0 && (k.s[0] == '\'' || isDigits(k.s)) {
			litOf[i] = len(lits)
			lits = append(lits, k.s)
		}
	}
	other, taken := make([]string, len(id)), map[string]bool{}
	alike := r.Intn(3) == 0
	common := [2]string{strings.Repeat("Name", 1+r.Intn(40)), strings.Repeat("_x", 1+r.Intn(80))}
	for i := range other {
		for {
			s := otherName(r, bare[i])
			if alike && r.Intn(2) == 0 {
				// names made of others, and long ones which differ in one place
				a, b := other[r.Intn(i+1)], other[r.Intn(i+1)]
				if bare[i] {
					s = []string{a + b, a + "_" + b, a + a, b + "1"}[r.Intn(4)]
				} else {
					s = a + []string{".", ".", ".", "", "_", " ", ",", "\x00", "\"", "/"}[r.Intn(10)] + b
				}
				if c := strconv.Itoa(r.Intn(100)); r.Intn(2) == 0 {
					s = []string{common[0] + c, common[0] + c + common[1], "x" + c + common[1]}[r.Intn(3)]
				}
				if s == "" || len(s) > 2000 || bare[i] && !isIdent(s) || fixedName.MatchString(s) || plainName.MatchString(s) || !utf8.ValidString(s) {
					continue
				}
			}
			if k := low(s); !taken[k] && strings.ToLower(strings.ToUpper(s)) == k {
				taken[k] = true
				other[i] = s
				break
			}
		}
	}
	if r.Intn(4) == 0 {
		// a name that looks like two steps of a path beginning at the same place
		type step struct{ before, name int }
		at := func(i int) int {
			if i < 0 || i >= len(toks) || toks[i].name == "" {
				return -1
			}
			n, ok := id[low(toks[i].name)]
			if !ok {
				return -1
			}
			return n
		}
		var steps []step
		after := map[int][]int{}
		for i := range toks {
			if n := at(i); n >= 0 {
				b := -1
				if i > 1 && toks[i-1].s == "." {
					b = at(i - 2)
				}
				after[b] = append(after[b], n)
				if b >= 0 {
					pb := -1
					if i > 3 && toks[i-3].s == "." {
						pb = at(i - 4)
					}
					for _, c := range after[pb] {
						if c != b && c != n && !bare[c] {
							steps = append(steps, step{c, i})
						}
					}
				}
			}
		}
		if len(steps) > 0 {
			st := steps[r.Intn(len(steps))]
			v := other[at(st.name-2)] + "." + other[at(st.name)]
			if !taken[low(v)] && !fixedName.MatchString(v) && !plainName.MatchString(v) {
				taken[low(v)] = true
				other[st.before] = v
				x.count("names that look like a path", 1)
			}
		}
	}
	g := &gen{r: r, c: defaultCfg(), nStr: 6}
	ints, strs, texts := map[int]int64{}, map[int]string{}, map[int]string{}
	for i, s := range lits {
		if s[0] == '\'' {
			l := g.strLit()
			strs[i], texts[i] = l.Val.(string), l.Text
		} else {
			l := g.intLit()
			ints[i], texts[i] = l.Val.(int64), l.Text
		}
	}
	build := func(plain bool) []tok {
		out := append([]tok(nil), toks...)
		for i := range out {
			k := &out[i]
			if n, ok := litOf[i]; ok {
				switch {
				case !plain:
					k.s = texts[n]
				case k.s[0] == '\'':
					k.s = "'zqs" + strconv.Itoa(n) + "z'"
				default:
					k.s = strconv.Itoa(plainInt + n)
				}
				continue
			}
			nm := k.name
			if k.role == 'f' || k.role == 'a' || k.role == 'p' {
				nm = k.s
			}
			n, ok := id[low(nm)]
			if nm == "" || !ok {
				continue
			}
			s := "zqx" + strconv.Itoa(n) + "z"
			if !plain {
				s = other[n]
			}
			k.s, k.word = s, true
			if k.name != "" {
				k.name = s
			}
			if !isIdent(s) || !plain && k.name != "" && r.Intn(10) == 0 {
				k.s, k.word = quoteSym(s), false
			}
		}
		return unambiguous(out)
	}
	a, _ := layout(r, build(true), layoutPlain)
	b, _ := layout(r, build(false), layoutPlain)
	translate := func(s string) string {
		return plainName.ReplaceAllStringFunc(s, func(w string) string {
			m := plainName.FindStringSubmatch(w)
			n, _ := strconv.Atoi(m[2])
			if m[1] == "s" {
				return strs[n]
			}
			return other[n]
		})
	}
	skip := func(f string) bool { return skipText(f) || strings.HasSuffix(f, ".Key") }
	qa, ea, ok := x.parse(a)
	if !ok {
		return
	}
	qb, eb, ok := x.parse(b)
	if !ok {
		return
	}
	x.count("names replaced", len(other))
	x.count("literals replaced", len(lits))
	if len(other) >= 4 {
		x.nontrivial(b)
	}
	if (ea == nil) != (eb == nil) {
		x.failf("with other names and values, the outcome is %v instead of %v for\n%s", eb, ea, a)
		return
	}
	if ea != nil {
		x.count("rejections compared", 1)
		if strings.Contains(ea.Error(), "--> Line") {
			return
		}
		x.count("rejections by the rules compared", 1)
		if w := translate(ea.Error()); w != eb.Error() {
			x.failf("with other names and values, the error is %q instead of %q for\n%s", eb, w, a)
		}
		return
	}
	x.count("results compared", 1)
	da := dump(qa, dumpOpts{skip: skip, str: translate, num: func(v int64) int64 {
		if n, ok := ints[int(v-plainInt)]; ok && v >= plainInt {
			return n
		}
		return v
	}})
	if db := dump(qb, dumpOpts{skip: skip, str: func(s string) string { return s }}); da != db {
		x.failf("with other names and values, the result differs from the one of\n%s\n%s", a, firstDiff(da, db))
	}
}

func isDigits(s string) bool {
	for _, c := range s {
		if c < '0' || c > '9' {
			return false
		}
	}
	return s != ""
}

// ---- the order of independent items (C27) ----

// orderFree describes a result by what does not depend on the order of items.
func orderFree(q *t.SoqlQuery) string {
	var out []string
	add := func(f string, a ...interface{}) { out = append(out, low(fmt.Sprintf(f, a...))) }
	keys := func(m map[string]struct{}) []string {
		var r []string
		for k := range m {
			r = append(r, k)
		}
		sort.Strings(r)
		return r
	}
	m := q.Meta
	add("functions %q parameters %q date literals %q", keys(m.Functions), keys(m.Parameters), keys(m.DateTimeLiterals))
	add("depths %d %d queries %d views %d columns %d", m.MaxQueryDepth, m.MaxViewDepth, m.NextQueryId, m.NextViewId, m.NextColumnId)
	for _, l := range m.QueryGraph {
		add("query depth %d conditional %v", l.Depth, l.IsConditional)
	}
	var fields func(l []t.SoqlFieldInfo) string
	fields = func(l []t.SoqlFieldInfo) string {
		var r []string
		for i := range l {
			f := &l[i]
			s := fmt.Sprintf("%v %q %v selected=%v aggregated=%v", f.Type, f.Name, f.Value, !f.NotSelected, f.Aggregated)
			if f.AliasName != "" && !implicitAlias.MatchString(f.AliasName) {
				s += " alias " + f.AliasName
			}
			if f.Type == t.SoqlFieldInfo_Function {
				for k := range f.Parameters {
					s += " (" + fields(f.Parameters[k:k+1]) + ")"
				}
			}
			r = append(r, low(s))
		}
		sort.Strings(r)
		return strings.Join(r, "; ")
	}
	conds := func(l []t.SoqlCondition) string {
		var r []string
		for i := range l {
			s := l[i].Opcode.String()
			if l[i].Opcode == t.SoqlConditionOpcode_FieldInfo {
				s = fields([]t.SoqlFieldInfo{l[i].Value})
			}
			r = append(r, low(s))
		}
		sort.Strings(r)
		return strings.Join(r, "; ")
	}
	for _, l := range m.ViewGraph {
		o := l.Object
		add("view %q depth %d/%d many=%v inner=%v no result=%v; object %q alias %q conditions=%v inner=%v", l.Name, l.Depth, l.QueryDepth, l.Many, l.InnerJoin, l.NonResult,
			o.Name, o.AliasName, o.HasConditions, o.InnerJoin)
		if p := o.PerObjectQuery; p != nil {
			add("per object %q: %s where %s order %d %+v %+v", o.Name, fields(p.Fields), conds(p.Where), len(p.OrderBy), p.OffsetAndLimit, p.For)
		}
	}
	for _, l := range m.QueryGraph {
		p := l.Query
		add("query %q: %s where %s post %s having %s group %s aggregation=%v", p.From[0].Name, fields(p.Fields), conds(p.Where), conds(p.PostProcessWhere), conds(p.Having), fields(p.GroupBy), p.IsAggregation)
		for i := range p.OrderBy {
			add("query %q sort %d: %s %v %v", p.From[0].Name, i, fields([]t.SoqlFieldInfo{p.OrderBy[i].Field}), p.OrderBy[i].Desc, p.OrderBy[i].NullsLast)
		}
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// permute changes the order of select items, grouping items and operands.
func permute(r *rand.Rand, q *mQuery) {
	for _, m := range q.all() {
		r.Shuffle(len(m.Sels), func(i, j int) { m.Sels[i], m.Sels[j] = m.Sels[j], m.Sels[i] })
		r.Shuffle(len(m.Groups), func(i, j int) { m.Groups[i], m.Groups[j] = m.Groups[j], m.Groups[i] })
		var sh func(c *mCond)
		sh = func(c *mCond) {
			if c == nil {
				return
			}
			if c.Kind == condAnd || c.Kind == condOr {
				r.Shuffle(len(c.Kids), func(i, j int) { c.Kids[i], c.Kids[j] = c.Kids[j], c.Kids[i] })
			}
			for _, k := range c.Kids {
				sh(k)
			}
		}
		sh(m.Where)
		sh(m.Having)
	}
}

func itemOrder(x *T) {
	r := x.r
	var a, b string
	if x.idx%2 == 0 {
		cfg := defaultCfg()
		cfg.MaxDepth = 1 + r.Intn(3)
		cfg.Agg = []int{10, 70}[r.Intn(2)]
		c := generate(x, cfg, layoutPlain)
		a = c.src
		permute(r, c.q)
		b, _ = layout(r, tokens(r, c.q), layoutPlain)
		x.count("generated queries", 1)
	} else {
		a, b = soupPair(r)
		x.count("texts of random names", 1)
	}
	qa, ea, ok := x.parse(a)
	if !ok {
		return
	}
	qb, eb, ok := x.parse(b)
	if !ok {
		return
	}
	if a != b {
		x.nontrivial(b)
	}
	if (ea == nil) != (eb == nil) {
		x.failf("with its items in another order, the outcome is %v instead of %v for\n%s", eb, ea, a)
		return
	}
	if ea != nil {
		x.count("rejections compared", 1)
		return
	}
	x.count("results compared", 1)
	if da, db := orderFree(qa), orderFree(qb); da != db {
		x.failf("with its items in another order, the result differs from the one of\n%s\n%s", a, firstDiff(da, db))
	}
}

var _ = json.Marshal

func init() {
	register(&prop{
		id: "C26", quick: 14000, thorough: 300000,
		rule:   "A case is a text, generated as a valid query or of random names, with two sets of names and values for it. It counts as non-trivial when it has at least four different names; distinct by text.",
		assume: []string{"count, count_distinct, fields and expr<n> have a meaning and are not replaced; names are replaced by others that are different in any letter case"},
		minObs: map[string]int64{"results compared": 5000, "rejections by the rules compared": 2000, "names replaced": 50000, "literals replaced": 20000},
		run:    opaqueNames,
	})
	register(&prop{
		id: "C27", quick: 14000, thorough: 300000,
		rule:   "A case is a text, generated as a valid query or of random names, and the same with its items in another order. It counts as non-trivial when the two texts differ; distinct by text.",
		assume: []string{"the items put in another order are select items, grouping items and operands of AND and OR, at every level"},
		minObs: map[string]int64{"results compared": 5000, "rejections compared": 2000},
		run:    itemOrder,
	})
}
