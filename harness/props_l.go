package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"time"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// C29: decoding of JSON documents other than those that were just written.

// jnode is a JSON value that keeps its order and spelling.
type jnode struct {
	kind byte // '{', '[' or 0: raw
	keys []string
	kids []*jnode
	raw  string
}

func readJSON(b []byte) *jnode {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var read func() *jnode
	read = func() *jnode {
		tk, err := d.Token()
		if err != nil {
			panic(err)
		}
		switch v := tk.(type) {
		case json.Delim:
			n := &jnode{kind: byte(v)}
			for d.More() {
				if v == '{' {
					k, _ := d.Token()
					n.keys = append(n.keys, k.(string))
				}
				n.kids = append(n.kids, read())
			}
			_, _ = d.Token()
			return n
		case json.Number:
			return &jnode{raw: v.String()}
		default:
			s, _ := json.Marshal(v)
			return &jnode{raw: string(s)}
		}
	}
	return read()
}

func (n *jnode) write(b *strings.Builder, sp func() string) {
	if n.kind == 0 {
		b.WriteString(n.raw)
		return
	}
	b.WriteByte(n.kind)
	for i, k := range n.kids {
		if i > 0 {
			b.WriteString(sp() + ",")
		}
		b.WriteString(sp())
		if n.kind == '{' {
			s, _ := json.Marshal(n.keys[i])
			b.WriteString(string(s) + sp() + ":" + sp())
		}
		k.write(b, sp)
	}
	b.WriteString(sp())
	b.WriteByte(n.kind + 2)
}

func (n *jnode) text(sp func() string) string {
	var b strings.Builder
	n.write(&b, sp)
	return b.String()
}

func noSpace() string { return "" }

func (n *jnode) each(fn func(*jnode)) {
	fn(n)
	for _, k := range n.kids {
		k.each(fn)
	}
}

func (n *jnode) get(key string) *jnode {
	for i, k := range n.keys {
		if k == key {
			return n.kids[i]
		}
	}
	return nil
}

func (n *jnode) drop(i int) {
	n.keys = append(n.keys[:i:i], n.keys[i+1:]...)
	n.kids = append(n.kids[:i:i], n.kids[i+1:]...)
}

// unfit has, for each type of literals, values that are not of this type.
var unfit = map[string][]string{
	"Int":          {`1.5`, `"1"`, `true`, `{}`, `[]`, `[1]`, `9223372036854775808`, `-9223372036854775809`, `1e30`},
	"Float":        {`"1.5"`, `false`, `{}`, `[1.5]`, `1e999`, `"NaN"`},
	"Bool":         {`0`, `1`, `"true"`, `{}`, `[]`},
	"String":       {`0`, `1.5`, `true`, `{}`, `["a"]`},
	"Blob":         {`0`, `true`, `{}`, `"*"`, `"YQ="`},
	"Date":         {`0`, `true`, `{}`, `[]`, `""`, `"today"`, `"2020-01-02"`, `"2020-13-02T00:00:00Z"`, `"2020-01-32T00:00:00Z"`},
	"DateTime":     {`0`, `false`, `{}`, `[]`, `""`, `"now"`, `"2020-01-02 03:04:05"`, `"2020-01-02T25:00:00Z"`},
	"Time":         {`0`, `true`, `{}`, `[]`, `""`, `"12:00"`, `"12:00:00Z"`},
	"List":         {`0`, `true`, `{}`, `"a"`, `[1]`, `["a"]`, `[[]]`, `[{"type":"Int","value":"x"}]`, `[{"type":"Bool"}]`, `[{"type":"Null"},{"type":"String","value":7}]`},
	"DateTimeName": {`0`, `true`, `[]`, `"today"`, `{"name":5}`, `{"n":"x"}`, `{"name":"today","n":1.5}`},
}

// attrs has, for attributes of any part, values that are not of their type.
var attrs = map[string][]string{
	"columnId": {`"1"`, `1.5`, `{}`, `[]`, `true`}, "colIndex": {`"1"`, `true`, `0.5`}, "viewId": {`"1"`, `{}`, `1.5`},
	"queryId": {`"1"`, `[]`, `1e40`}, "notSelected": {`1`, `"true"`}, "aggregated": {`0`, `"x"`}, "aliasName": {`1`, `[]`, `{}`},
	"name": {`1`, `{}`, `true`}, "desc": {`1`, `"desc"`}, "nullsLast": {`1`, `[]`}, "isAggregation": {`1`}, "limit": {`"1"`, `1.5`, `{}`},
	"offset": {`"1"`, `[]`}, "parameters": {`1`, `"a"`, `[1]`}, "from": {`{}`, `"a"`, `[1]`}, "where": {`{}`, `[1]`, `"a=b"`},
	"groupBy": {`{}`, `["a"]`}, "orderBy": {`{}`, `["a"]`}, "fields": {`{}`, `["a"]`}, "subQuery": {`[]`, `"select"`, `1`},
	"perObjectQuery": {`[]`, `1`}, "queryGraph": {`[]`, `1`, `{"x":{}}`}, "viewGraph": {`[]`, `{"1":5}`}, "innerJoin": {`1`}, "depth": {`"1"`},
}

func decodePlan(x *T, doc string) (q *t.SoqlQuery, err error) {
	x.begin(doc)
	q = &t.SoqlQuery{}
	err = json.Unmarshal([]byte(doc), q)
	return q, err
}

func planText(q *t.SoqlQuery) string {
	if q == nil {
		return "none"
	}
	return dump(q, dumpOpts{})
}

// accepted documents can be written, and what is written stays as it is.
func settles(x *T, doc string) {
	q, err := decodePlan(x, doc)
	if err != nil {
		x.count("documents rejected", 1)
		return
	}
	x.count("documents accepted", 1)
	a, err := json.Marshal(q)
	if err != nil {
		x.failf("the document is accepted, but its content cannot be written: %v", err)
		return
	}
	p := &t.SoqlQuery{}
	if err := json.Unmarshal(a, p); err != nil {
		x.failf("the document is accepted, but what is written for it, %s, is not: %v", head(string(a), 600), err)
		return
	}
	b, err := json.Marshal(p)
	if err != nil || !bytes.Equal(a, b) {
		x.failf("the content of the document is written as\n%s\nand after reading it again as\n%s (%v)", head(string(a), 600), head(string(b), 600), err)
	}
}

func hostileJSON(r *rand.Rand, doc string) (string, string) {
	b := []byte(doc)
	switch r.Intn(5) {
	case 0:
		return string(b[:r.Intn(len(b)+1)]), "truncated"
	case 1:
		for i := 1 + r.Intn(4); i > 0; i-- {
			const set = "\"\\{}[]:,0123456789eE+-.truefalsn \x00\xff\n"
			b[r.Intn(len(b))] = set[r.Intn(len(set))]
		}
		return string(b), "altered bytes"
	case 2:
		i := r.Intn(len(b))
		j := i + r.Intn(60)
		if j > len(b) {
			j = len(b)
		}
		k := r.Intn(len(b))
		return doc[:k] + doc[i:j] + doc[k:], "spliced"
	case 3:
		n := readJSON(b)
		var all []*jnode
		n.each(func(k *jnode) { all = append(all, k) })
		for i := 1 + r.Intn(3); i > 0; i-- {
			*all[r.Intn(len(all))] = *all[r.Intn(len(all))].copy(6)
		}
		return n.text(noSpace), "exchanged parts"
	}
	n := readJSON(b)
	var all []*jnode
	n.each(func(k *jnode) {
		if k.kind != 0 && len(k.kids) > 0 {
			all = append(all, k)
		}
	})
	for i := 1 + r.Intn(3); i > 0; i-- {
		k := all[r.Intn(len(all))]
		if len(k.kids) == 0 {
			continue
		}
		j := r.Intn(len(k.kids))
		switch {
		case r.Intn(3) == 0:
			k.kids[j] = &jnode{raw: []string{`null`, `0`, `-1`, `""`, `"Field"`, `"List"`, `"SubQuery"`, `[]`, `{}`, `[null]`, `1e400`, `true`}[r.Intn(12)]}
		case k.kind == '{':
			k.drop(j)
		default:
			k.kids = append(k.kids[:j:j], k.kids[j+1:]...)
		}
	}
	return n.text(noSpace), "removed parts"
}

// copy cuts deep parts off, so that the parts of a document do not grow without limit.
func (n *jnode) copy(depth int) *jnode {
	if depth == 0 && n.kind != 0 {
		return &jnode{raw: "null"}
	}
	c := &jnode{kind: n.kind, keys: append([]string{}, n.keys...), raw: n.raw}
	for _, k := range n.kids {
		c.kids = append(c.kids, k.copy(depth-1))
	}
	return c
}

func nestedJSON(r *rand.Rand, n int) string {
	switch r.Intn(5) {
	case 0:
		return strings.Repeat("[", n)
	case 1:
		return strings.Repeat(`{"fields":[{"parameters":[`, n)
	case 2:
		return `{"fields":[` + strings.Repeat(`{"parameters":[`, n) + strings.Repeat(`]}`, n) + `]}`
	case 3:
		return `{"where":[{"opcode":"FieldInfo","value":` + strings.Repeat(`{"type":"List","value":[`, n) + strings.Repeat(`]}`, n) + `}]}`
	}
	return strings.Repeat(`{"fields":[{"type":"SubQuery","subQuery":`, n) + `{}` + strings.Repeat(`}]}`, n)
}

func jsonDocuments(x *T) {
	cfg := defaultCfg()
	cfg.MaxDepth = 1 + x.r.Intn(2)
	cfg.FancyLit = true
	c := generate(x, cfg, randStyle(x.r))
	q := x.mustParse(c.src)
	if q == nil {
		return
	}
	if x.r.Intn(3) == 0 {
		dress(x, q, map[*t.SoqlQuery]bool{})
	}
	q.Meta.Date, q.Meta.ElapsedTime = time.Unix(1700000000, 0).UTC(), 12345
	b, err := json.Marshal(q)
	if err != nil || len(b) > 200000 {
		return // C18
	}
	doc := string(b)
	x.nontrivial(doc)
	plain, err := decodePlan(x, doc)
	if err != nil {
		x.failf("the document of %s is rejected: %v", c.src, err)
		return
	}
	want := planText(plain)

	// other spellings of the document
	for i := 0; i < 2; i++ {
		n := readJSON(b)
		n.each(func(k *jnode) {
			if k.kind != '{' {
				return
			}
			if x.r.Intn(3) > 0 {
				x.r.Shuffle(len(k.kids), func(a, b int) {
					k.keys[a], k.keys[b] = k.keys[b], k.keys[a]
					k.kids[a], k.kids[b] = k.kids[b], k.kids[a]
				})
			}
		})
		pct := []int{0, 10, 60}[x.r.Intn(3)]
		s := n.text(func() string {
			if x.r.Intn(100) < pct {
				return []string{" ", "\n", "\t", "\r\n  "}[x.r.Intn(4)]
			}
			return ""
		})
		p, err := decodePlan(x, s)
		x.count("documents spelt in another way", 1)
		if err != nil {
			x.failf("the document in another spelling is rejected: %v", err)
			return
		}
		if got := planText(p); got != want {
			x.failf("the document in another spelling is read differently: %s", firstDiff(want, got))
			return
		}
	}

	// a value that is not of its type
	n := readJSON(b)
	var at []func() string
	n.each(func(k *jnode) {
		if k.kind != '{' {
			return
		}
		typ, val := k.get("type"), k.get("value")
		if typ != nil && val != nil {
			name := strings.Trim(typ.raw, `"`)
			if val.kind == '{' && val.get("name") != nil {
				name = "DateTimeName"
			}
			if bad := unfit[name]; bad != nil {
				at = append(at, func() string {
					if x.r.Intn(5) == 0 {
						for i, s := range k.keys {
							if s == "value" {
								k.drop(i)
								break
							}
						}
						return name + " without a value"
					}
					v := bad[x.r.Intn(len(bad))]
					*val = jnode{raw: v}
					return name + " " + v
				})
			}
		}
	})
	if len(at) > 0 {
		what := at[x.r.Intn(len(at))]()
		s := n.text(noSpace)
		x.count("literals with values of other types", 1)
		if _, err := decodePlan(x, s); err == nil {
			x.failf("a document with the literal %s is accepted", what)
			return
		}
	}
	n = readJSON(b)
	at = nil
	names := map[*jnode]bool{} // tables by names of the query, not attributes
	n.each(func(k *jnode) {
		for _, s := range []string{"functions", "parameters", "dateTimeLiterals", "hints"} {
			if m := k.get(s); m != nil && m.kind == '{' {
				m.each(func(k *jnode) { names[k] = true })
			}
		}
		for i, s := range k.keys {
			if bad := attrs[s]; bad != nil && k.get("opcode") == nil && !names[k] {
				i, s := i, s
				at = append(at, func() string {
					v := bad[x.r.Intn(len(bad))]
					k.kids[i] = &jnode{raw: v}
					return s + " " + v
				})
			}
		}
	})
	if len(at) > 0 {
		what := at[x.r.Intn(len(at))]()
		s := n.text(noSpace)
		x.count("attributes of other types", 1)
		if _, err := decodePlan(x, s); err == nil {
			x.failf("a document with the attribute %s is accepted", what)
			return
		}
	}

	// anything
	for i := 0; i < 6; i++ {
		s, kind := hostileJSON(x.r, doc)
		x.count("documents: "+kind, 1)
		settles(x, s)
	}
	if x.idx%50 == 0 {
		x.count("documents: nested", 1)
		settles(x, nestedJSON(x.r, 1+x.r.Intn(1000)))
	}
}

func init() {
	register(&prop{
		id: "C29", quick: 2500, thorough: 60000,
		rule:   "A case is the JSON document of a result and variations of it. Distinct by document.",
		assume: []string{"unknown names of types and operators, and surplus attributes, are not judged", "the spelling of names of types and operators by escape sequences is not varied"},
		minObs: map[string]int64{"documents spelt in another way": 3000, "literals with values of other types": 1000, "attributes of other types": 2000, "documents accepted": 2000, "documents rejected": 3000, "documents: truncated": 1000, "documents: altered bytes": 1000, "documents: exchanged parts": 1000, "documents: removed parts": 1000, "documents: spliced": 1000, "documents: nested": 20},
		run:    jsonDocuments,
		once: func(x *T) {
			for _, s := range []string{"", "null", "0", "[]", "{}", `"a"`, "true", "{", `{"fields":null}`, strings.Repeat("[", 1000000), strings.Repeat(`{"meta":`, 100000), fmt.Sprintf("{%q:1}", "where")} {
				settles(x, s)
			}
		},
	})
}
