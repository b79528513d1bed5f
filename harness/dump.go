package main

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
)

// dumpOpts says what of a result is not compared.
type dumpOpts struct {
	jsonOnly bool                     // only what is visible in the JSON form
	tree     bool                     // shared pointers are written out again (needs an acyclic value)
	renumber bool                     // ids are numbered by their first occurrence
	skip     func(path string) bool   // fields (Type.Field) left out
	str      func(s string) string    // strings are replaced
	num      func(v int64) int64      // numbers are replaced
	opaque   func(v interface{}) bool // pointers not followed
}

// skipVolatile leaves out what legitimately differs between two calls.
func skipVolatile(f string) bool {
	return f == "SoqlQueryMeta.Date" || f == "SoqlQueryMeta.ElapsedTime"
}

// skipText leaves out what depends on the text rather than on its meaning.
func skipText(f string) bool { return skipVolatile(f) || f == "SoqlQueryMeta.Source" }

type dumper struct {
	b    strings.Builder
	o    dumpOpts
	seen map[uintptr]int
	ids  map[string]map[int64]int
}

var idKind = map[string]string{"ColumnId": "c", "ViewId": "v", "ParentViewId": "v", "QueryId": "q", "ParentQueryId": "q"}

// dump writes a result as canonical text: equal texts, equal results. Shared and cyclic
// pointers are written once and numbered, so the pointer structure is compared, too.
func dump(v interface{}, o dumpOpts) string {
	d := &dumper{o: o, seen: map[uintptr]int{}, ids: map[string]map[int64]int{}}
	d.val(reflect.ValueOf(v), 0)
	return d.b.String()
}

func (d *dumper) nl(ind int) {
	d.b.WriteByte('\n')
	for i := 0; i < ind; i++ {
		d.b.WriteByte(' ')
	}
}

var timeType = reflect.TypeOf(time.Time{})

func (d *dumper) val(v reflect.Value, ind int) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	if v.Type() == timeType {
		tm := v.Interface().(time.Time)
		_, off := tm.Zone()
		fmt.Fprintf(&d.b, "time %d.%09d zone %d", tm.Unix(), tm.Nanosecond(), off)
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteString(v.Elem().Type().String())
		d.b.WriteByte(' ')
		d.val(v.Elem(), ind)
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if d.o.opaque != nil && d.o.opaque(v.Interface()) {
			d.b.WriteString("(left out)")
			return
		}
		if n, ok := d.seen[v.Pointer()]; ok && !d.o.tree {
			fmt.Fprintf(&d.b, "-> #%d", n)
			return
		}
		n := len(d.seen) + 1
		d.seen[v.Pointer()] = n
		if !d.o.tree {
			fmt.Fprintf(&d.b, "#%d ", n)
		}
		d.val(v.Elem(), ind)
	case reflect.Struct:
		t := v.Type()
		d.b.WriteString(t.Name())
		d.b.WriteString("{")
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if d.o.jsonOnly && f.Tag.Get("json") == "-" {
				continue
			}
			if d.o.skip != nil && d.o.skip(t.Name()+"."+f.Name) {
				continue
			}
			if v.Field(i).IsZero() || v.Field(i).Kind() == reflect.Slice && v.Field(i).Len() == 0 || v.Field(i).Kind() == reflect.Map && v.Field(i).Len() == 0 {
				continue
			}
			d.nl(ind + 1)
			d.b.WriteString(f.Name)
			d.b.WriteString(": ")
			if k := idKind[f.Name]; d.o.renumber && k != "" && v.Field(i).CanInt() {
				if d.ids[k] == nil {
					d.ids[k] = map[int64]int{}
				}
				n, ok := d.ids[k][v.Field(i).Int()]
				if !ok {
					n = len(d.ids[k]) + 1
					d.ids[k][v.Field(i).Int()] = n
				}
				fmt.Fprintf(&d.b, "%s%d", k, n)
				continue
			}
			d.val(v.Field(i), ind+1)
		}
		d.b.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(&d.b, "[%d", v.Len())
		for i := 0; i < v.Len(); i++ {
			d.nl(ind + 1)
			d.val(v.Index(i), ind+1)
		}
		d.b.WriteString("]")
	case reflect.Map:
		keys := v.MapKeys()
		names := map[string]string{}
		for _, k := range keys {
			if k.Kind() == reflect.String {
				names[k.String()] = k.String()
				if d.o.str != nil {
					names[k.String()] = low(d.o.str(k.String()))
				}
			}
		}
		sort.Slice(keys, func(i, j int) bool {
			if keys[i].Kind() == reflect.Int {
				return keys[i].Int() < keys[j].Int()
			}
			return names[keys[i].String()] < names[keys[j].String()]
		})
		fmt.Fprintf(&d.b, "map[%d", len(keys))
		for _, k := range keys {
			d.nl(ind + 1)
			if k.Kind() == reflect.String && d.o.str != nil {
				fmt.Fprintf(&d.b, "%v = ", names[k.String()])
			} else {
				fmt.Fprintf(&d.b, "%v = ", k)
			}
			d.val(v.MapIndex(k), ind+1)
		}
		d.b.WriteString("]")
	case reflect.Float64, reflect.Float32:
		f := v.Float()
		if math.IsNaN(f) {
			d.b.WriteString("NaN")
		} else {
			fmt.Fprintf(&d.b, "float %x", math.Float64bits(f))
		}
	case reflect.String:
		s := v.String()
		if d.o.str != nil {
			s = d.o.str(s)
		}
		fmt.Fprintf(&d.b, "%q", s)
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		d.b.WriteString(v.Kind().String())
	default:
		// the numeric value: names given to constants do not matter here
		switch {
		case v.CanInt() && d.o.num != nil:
			fmt.Fprintf(&d.b, "%d", d.o.num(v.Int()))
		case v.CanInt():
			fmt.Fprintf(&d.b, "%d", v.Int())
		case v.CanUint():
			fmt.Fprintf(&d.b, "%d", v.Uint())
		case v.Kind() == reflect.Bool:
			fmt.Fprintf(&d.b, "%v", v.Bool())
		default:
			fmt.Fprintf(&d.b, "%#v", v.Interface())
		}
	}
}

// firstDiff shows where two dumps differ.
func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "(end)", "(end)"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			from := i - 4
			if from < 0 {
				from = 0
			}
			to := i
			if to > len(la) {
				to = len(la)
			}
			return fmt.Sprintf("line %d of the dumps: %s <> %s\nafter:\n%s", i+1, strings.TrimSpace(x), strings.TrimSpace(y), strings.Join(la[from:to], "\n"))
		}
	}
	return ""
}
