package main

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// C33: what a program that has nothing but the JSON document reads from it and writes to it.
// The keys and names are those of the tables below, not those of the code.

var jsonKeys = map[string]map[string]string{
	"SoqlQueryHint":            keyTable("Name Value"),
	"SoqlFieldInfo":            keyTable("Type Name Value AliasName Parameters SubQuery NotSelected Aggregated Hints ColumnId ColIndex ViewId Key"),
	"SoqlListItem":             keyTable("Type Value"),
	"SoqlDateTimeLiteralName":  keyTable("Name N"),
	"SoqlTimeRange":            {"Start": "Start", "End": "End"},
	"SoqlObjectInfo":           keyTable("Name AliasName HasConditions InnerJoin Hints PerObjectQuery ViewId ParentViewId Key"),
	"SoqlCondition":            keyTable("Opcode Value"),
	"SoqlOrderByInfo":          keyTable("Field Desc NullsLast"),
	"SoqlOffsetAndLimitClause": keyTable("Offset Limit OffsetParamName LimitParamName"),
	"SoqlForClause":            keyTable("View Reference Update UpdateTracking UpdateViewstat"),
	"SoqlViewGraphLeaf":        keyTable("Name ParentViewId QueryId Depth QueryDepth Many InnerJoin NonResult"),
	"SoqlQueryGraphLeaf":       keyTable("ParentQueryId Depth IsConditional"),
	"SoqlQueryMeta":            keyTable("Version Date ElapsedTime Source MaxQueryDepth MaxViewDepth NextQueryId NextViewId NextColumnId QueryGraph ViewGraph Functions Parameters DateTimeLiterals"),
	"SoqlQuery":                keyTable("Fields From Where GroupBy Having OrderBy OffsetAndLimit For IsAggregation IsCorelated PostProcessWhere QueryId Meta"),
}

// keyTable: the key is the name of the attribute with a small letter at the beginning.
func keyTable(names string) map[string]string {
	m := map[string]string{}
	for _, n := range strings.Fields(names) {
		m[n] = strings.ToLower(n[:1]) + n[1:]
	}
	return m
}

var typeNames = map[t.SoqlFieldInfoType]string{
	t.SoqlFieldInfo_Field: "Field", t.SoqlFieldInfo_FieldSet: "FieldSet", t.SoqlFieldInfo_Function: "Function", t.SoqlFieldInfo_SubQuery: "SubQuery",
	t.SoqlFieldInfo_Literal_Null: "Null", t.SoqlFieldInfo_Literal_Int: "Int", t.SoqlFieldInfo_Literal_Float: "Float", t.SoqlFieldInfo_Literal_Bool: "Bool",
	t.SoqlFieldInfo_Literal_String: "String", t.SoqlFieldInfo_Literal_Blob: "Blob", t.SoqlFieldInfo_Literal_Date: "Date", t.SoqlFieldInfo_Literal_DateTime: "DateTime",
	t.SoqlFieldInfo_Literal_Time: "Time", t.SoqlFieldInfo_Literal_DateTimeRange: "DateTimeRange", t.SoqlFieldInfo_Literal_List: "List",
	t.SoqlFieldInfo_ParameterizedValue: "ParameterizedValue", t.SoqlFieldInfo_DateTimeLiteralName: "DateTimeLiteralName",
}

var opcodeNames = map[t.SoqlConditionOpcode]string{
	t.SoqlConditionOpcode_Noop: "Noop", t.SoqlConditionOpcode_Unknown: "Unknown", t.SoqlConditionOpcode_FieldInfo: "FieldInfo",
	t.SoqlConditionOpcode_Not: "Not", t.SoqlConditionOpcode_And: "And", t.SoqlConditionOpcode_Or: "Or",
	t.SoqlConditionOpcode_Eq: "Eq", t.SoqlConditionOpcode_NotEq: "NotEq", t.SoqlConditionOpcode_Lt: "Lt", t.SoqlConditionOpcode_Le: "Le",
	t.SoqlConditionOpcode_Gt: "Gt", t.SoqlConditionOpcode_Ge: "Ge", t.SoqlConditionOpcode_Like: "Like", t.SoqlConditionOpcode_NotLike: "NotLike",
	t.SoqlConditionOpcode_In: "In", t.SoqlConditionOpcode_NotIn: "NotIn", t.SoqlConditionOpcode_Includes: "Includes", t.SoqlConditionOpcode_Excludes: "Excludes",
}

func emptyJSON(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.Slice, reflect.Map:
		return v.Len() == 0
	}
	return v.IsZero()
}

// jsonReader compares a document with the value that was written.
type jsonReader struct {
	x    *T
	path []string
	err  string
}

func (r *jsonReader) fail(format string, a ...interface{}) {
	if r.err == "" {
		r.err = strings.Join(r.path, ".") + ": " + fmt.Sprintf(format, a...)
	}
}

func (r *jsonReader) at(p string, f func()) {
	if r.err != "" {
		return
	}
	r.path = append(r.path, p)
	f()
	r.path = r.path[:len(r.path)-1]
}

func (n *jnode) asString() (string, bool) {
	if n.kind != 0 || len(n.raw) == 0 || n.raw[0] != '"' {
		return "", false
	}
	var s string
	err := json.Unmarshal([]byte(n.raw), &s)
	return s, err == nil
}

func (n *jnode) brief() string {
	var b strings.Builder
	n.write(&b, func() string { return "" })
	if b.Len() > 60 {
		return b.String()[:60] + "..."
	}
	return b.String()
}

func (r *jsonReader) val(n *jnode, v reflect.Value) {
	r.x.count("values read", 1)
	null := n.kind == 0 && n.raw == "null"
	str := func(want string) {
		if s, ok := n.asString(); !ok || s != want {
			r.fail("%s instead of %q", n.brief(), want)
		}
	}
	switch c := v.Interface().(type) {
	case t.SoqlFieldInfoType:
		r.x.count("types and operators read", 1)
		str(typeNames[c])
		return
	case t.SoqlConditionOpcode:
		r.x.count("types and operators read", 1)
		str(opcodeNames[c])
		return
	case time.Time:
		s, ok := n.asString()
		if got, err := time.Parse(time.RFC3339Nano, s); !ok || err != nil || !got.Equal(c) {
			r.fail("%s instead of %s", n.brief(), c.Format(time.RFC3339Nano))
		}
		return
	case []byte:
		if c != nil {
			str(base64.StdEncoding.EncodeToString(c))
			return
		}
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			if !null {
				r.fail("%s instead of null", n.brief())
			}
			return
		}
		r.val(n, v.Elem())
	case reflect.String:
		str(v.String())
	case reflect.Bool:
		if n.kind != 0 || n.raw != strconv.FormatBool(v.Bool()) {
			r.fail("%s instead of %v", n.brief(), v.Bool())
		}
	case reflect.Int, reflect.Int64:
		if n.kind != 0 || n.raw != strconv.FormatInt(v.Int(), 10) {
			r.fail("%s instead of %d", n.brief(), v.Int())
		}
	case reflect.Float64:
		f, err := strconv.ParseFloat(n.raw, 64)
		if n.kind != 0 || err != nil || math.Float64bits(f) != math.Float64bits(v.Float()) {
			r.fail("%s instead of %v", n.brief(), v.Float())
		}
	case reflect.Slice:
		if null && v.Len() == 0 {
			return
		}
		if n.kind != '[' || len(n.kids) != v.Len() {
			r.fail("%s instead of a list of %d items", n.brief(), v.Len())
			return
		}
		for i := range n.kids {
			r.at(strconv.Itoa(i), func() { r.val(n.kids[i], v.Index(i)) })
		}
	case reflect.Map:
		if null && v.Len() == 0 {
			return
		}
		if n.kind != '{' || len(n.kids) != v.Len() {
			r.fail("%s instead of %d entries", n.brief(), v.Len())
			return
		}
		for _, k := range v.MapKeys() {
			k := k
			r.at(fmt.Sprint(k.Interface()), func() {
				if e := n.get(fmt.Sprint(k.Interface())); e == nil {
					r.fail("missing")
				} else {
					r.val(e, v.MapIndex(k))
				}
			})
		}
	case reflect.Struct:
		r.object(n, v)
	default:
		r.fail("a value of type %v in the result", v.Type())
	}
}

func (r *jsonReader) object(n *jnode, v reflect.Value) {
	if n.kind != '{' {
		r.fail("%s instead of an object", n.brief())
		return
	}
	keys := jsonKeys[v.Type().Name()]
	own := map[string]bool{}
	for _, k := range keys {
		own[k] = true
	}
	seen := map[string]bool{}
	for _, k := range n.keys {
		if seen[k] {
			r.fail("the key %q occurs twice", k)
		}
		seen[k] = true
		if !own[k] && v.NumField() == knownFields(v.Type()) && v.NumField() > 0 {
			r.fail("the unknown key %q", k)
		}
	}
	for i := 0; i < v.NumField(); i++ {
		name := v.Type().Field(i).Name
		key, ok := keys[name]
		if !ok {
			continue
		}
		fv := v.Field(i)
		if c, ok := v.Interface().(t.SoqlCondition); ok && name == "Value" && c.Opcode != t.SoqlConditionOpcode_FieldInfo {
			continue // only operands have a value
		}
		r.at(key, func() {
			if e := n.get(key); e != nil {
				r.val(e, fv)
			} else if !emptyJSON(fv) {
				r.fail("missing")
			} else {
				r.x.count("attributes left out", 1)
			}
		})
	}
}

// Number of the attributes of each type that are in the tables, or never in a document.
var internalFields = map[string]int{"SoqlFieldInfo": 1, "SoqlQuery": 1, "SoqlViewGraphLeaf": 2, "SoqlQueryGraphLeaf": 1}

func knownFields(ty reflect.Type) int { return len(jsonKeys[ty.Name()]) + internalFields[ty.Name()] }

// jsonWriter writes a document as another program would.
type jsonWriter struct {
	r       *rand.Rand
	b       strings.Builder
	explain int // percentage of empty attributes that are written
}

func (w *jsonWriter) sp() {
	if w.r.Intn(12) == 0 {
		w.b.WriteString([]string{" ", "\n", "\t", "  "}[w.r.Intn(4)])
	}
}

func (w *jsonWriter) str(s string) {
	if w.r.Intn(3) == 0 { // everything else than letters and digits as \u
		w.b.WriteByte('"')
		for _, c := range s {
			switch {
			case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9':
				w.b.WriteRune(c)
			case c >= 0x10000:
				c -= 0x10000
				fmt.Fprintf(&w.b, "\\u%04x\\u%04X", 0xd800+c>>10, 0xdc00+c&0x3ff)
			default:
				fmt.Fprintf(&w.b, "\\u%04X", c)
			}
		}
		w.b.WriteByte('"')
		return
	}
	b, _ := json.Marshal(s)
	w.b.Write(b)
}

func (w *jsonWriter) val(v reflect.Value) {
	w.sp()
	defer w.sp()
	switch c := v.Interface().(type) {
	case t.SoqlFieldInfoType:
		w.b.WriteString(`"` + typeNames[c] + `"`)
		return
	case t.SoqlConditionOpcode:
		w.b.WriteString(`"` + opcodeNames[c] + `"`)
		return
	case time.Time:
		w.b.WriteString(`"` + c.Format(time.RFC3339Nano) + `"`)
		return
	case []byte:
		if c != nil {
			w.b.WriteString(`"` + base64.StdEncoding.EncodeToString(c) + `"`)
			return
		}
	}
	list := func(open, end byte, n int, f func(i int)) {
		w.b.WriteByte(open)
		for i := 0; i < n; i++ {
			if i > 0 {
				w.b.WriteByte(',')
			}
			f(i)
		}
		w.b.WriteByte(end)
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			w.b.WriteString("null")
			return
		}
		w.val(v.Elem())
	case reflect.String:
		w.str(v.String())
	case reflect.Bool:
		w.b.WriteString(strconv.FormatBool(v.Bool()))
	case reflect.Int, reflect.Int64:
		w.b.WriteString(strconv.FormatInt(v.Int(), 10))
	case reflect.Float64:
		w.b.WriteString(strconv.FormatFloat(v.Float(), 'e', -1, 64))
	case reflect.Slice:
		if v.IsNil() {
			w.b.WriteString("null")
			return
		}
		list('[', ']', v.Len(), func(i int) { w.val(v.Index(i)) })
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i].Interface()) < fmt.Sprint(keys[j].Interface()) })
		w.r.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
		list('{', '}', len(keys), func(i int) {
			w.str(fmt.Sprint(keys[i].Interface()))
			w.b.WriteByte(':')
			w.val(v.MapIndex(keys[i]))
		})
	case reflect.Struct:
		var f []int
		for i := 0; i < v.NumField(); i++ {
			name := v.Type().Field(i).Name
			fv := v.Field(i)
			if jsonKeys[v.Type().Name()][name] == "" {
				continue
			}
			if c, ok := v.Interface().(t.SoqlCondition); ok && name == "Value" && c.Opcode != t.SoqlConditionOpcode_FieldInfo {
				continue
			}
			if emptyJSON(fv) && (w.r.Intn(100) >= w.explain || name == "Type" || fv.Kind() == reflect.Slice || fv.Kind() == reflect.Map) {
				continue
			}
			f = append(f, i)
		}
		w.r.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
		list('{', '}', len(f), func(i int) {
			w.str(jsonKeys[v.Type().Name()][v.Type().Field(f[i]).Name])
			w.b.WriteByte(':')
			w.val(v.Field(f[i]))
		})
	}
}

func init() {
	register(&prop{
		id: "C33", quick: 4000, thorough: 120000,
		rule:   "A query counts as non-trivial when its document has at least 5000 bytes; distinct by source text.",
		assume: []string{"the keys and names of the format are those of the release that was examined", "what JSON cannot represent is left out, as for C18", "attributes added to the format later are not judged"},
		minObs: map[string]int64{"documents read": 4000, "documents written": 4000, "values read": 1000000, "attributes left out": 500000, "types and operators read": 200000, "hints added": 2000, "values of other types added": 2000},
		run: func(x *T) {
			cfg := defaultCfg()
			cfg.MaxDepth = 1 + x.r.Intn(4)
			c := generate(x, cfg, randStyle(x.r))
			q := x.mustParse(c.src)
			if q == nil {
				return
			}
			if x.idx%3 == 0 {
				dress(x, q, map[*t.SoqlQuery]bool{})
			}
			doc, err := json.Marshal(q)
			if err != nil {
				x.failf("the result cannot be written as JSON: %v", err)
				return
			}
			r := &jsonReader{x: x, path: []string{"document"}}
			r.val(readJSON(doc), reflect.ValueOf(q))
			if r.err != "" {
				x.failf("the document does not say what the result says: %s", r.err)
				return
			}
			x.count("documents read", 1)
			if len(doc) >= 5000 {
				x.nontrivial(c.src)
			}

			w := &jsonWriter{r: x.r, explain: []int{0, 10, 60}[x.r.Intn(3)]}
			w.val(reflect.ValueOf(q))
			p := &t.SoqlQuery{}
			if err := json.Unmarshal([]byte(w.b.String()), p); err != nil {
				x.failf("a document of another program is rejected: %v", err)
				return
			}
			x.count("documents written", 1)
			o := dumpOpts{jsonOnly: true, tree: true}
			if a, b := dump(q, o), dump(p, o); a != b {
				x.failf("a document of another program is read as something else: %s", firstDiff(a, b))
			}
		},
	})
}
