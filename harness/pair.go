package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// oCond is a condition of the result, rebuilt from the reverse Polish notation.
type oCond struct {
	op   t.SoqlConditionOpcode
	kids []*oCond
	l, r *t.SoqlFieldInfo
	size int
}

func isCmp(op t.SoqlConditionOpcode) bool {
	return op >= t.SoqlConditionOpcode_Eq && op <= t.SoqlConditionOpcode_Excludes
}

// rpn rebuilds the tree. It fails if the list is not a single well-formed expression.
func rpn(conds []t.SoqlCondition) (*oCond, error) {
	if len(conds) == 0 {
		return nil, nil
	}
	type item struct {
		c *oCond
		f *t.SoqlFieldInfo
	}
	var st []item
	for i := range conds {
		c := &conds[i]
		switch {
		case c.Opcode == t.SoqlConditionOpcode_FieldInfo:
			st = append(st, item{f: &c.Value})
		case c.Opcode == t.SoqlConditionOpcode_Not:
			if len(st) < 1 || st[len(st)-1].c == nil {
				return nil, fmt.Errorf("operand of Not at %d is missing", i)
			}
			k := st[len(st)-1].c
			st[len(st)-1] = item{c: &oCond{op: c.Opcode, kids: []*oCond{k}}}
		case c.Opcode == t.SoqlConditionOpcode_And || c.Opcode == t.SoqlConditionOpcode_Or:
			if len(st) < 2 || st[len(st)-1].c == nil || st[len(st)-2].c == nil {
				return nil, fmt.Errorf("operand of %v at %d is missing", c.Opcode, i)
			}
			a, b := st[len(st)-2].c, st[len(st)-1].c
			st = append(st[:len(st)-2], item{c: &oCond{op: c.Opcode, kids: []*oCond{a, b}}})
		case isCmp(c.Opcode):
			if len(st) < 2 || st[len(st)-1].f == nil || st[len(st)-2].f == nil {
				return nil, fmt.Errorf("operand of %v at %d is missing", c.Opcode, i)
			}
			a, b := st[len(st)-2].f, st[len(st)-1].f
			st = append(st[:len(st)-2], item{c: &oCond{op: c.Opcode, l: a, r: b}})
		default:
			return nil, fmt.Errorf("unexpected opcode %v at %d", c.Opcode, i)
		}
	}
	if len(st) != 1 || st[0].c == nil {
		return nil, fmt.Errorf("%d items are left on the stack", len(st))
	}
	return st[0].c, nil
}

func (c *oCond) leaves(out []*oCond) []*oCond {
	if c == nil {
		return out
	}
	if c.l != nil {
		return append(out, c)
	}
	for _, k := range c.kids {
		out = k.leaves(out)
	}
	return out
}

func (c *oCond) String() string {
	if c == nil {
		return "(none)"
	}
	if c.l != nil {
		return fInfo(c.l) + " " + c.op.String() + " " + fInfo(c.r)
	}
	if len(c.kids) == 1 {
		return "Not(" + c.kids[0].String() + ")"
	}
	return "(" + c.kids[0].String() + " " + c.op.String() + " " + c.kids[1].String() + ")"
}

func fInfo(f *t.SoqlFieldInfo) string {
	switch f.Type {
	case t.SoqlFieldInfo_Field, t.SoqlFieldInfo_FieldSet, t.SoqlFieldInfo_ParameterizedValue:
		return f.Type.String() + ":" + strings.Join(f.Name, ".")
	case t.SoqlFieldInfo_Function:
		s := strings.Join(f.Name, ".") + "("
		for i := range f.Parameters {
			if i > 0 {
				s += ", "
			}
			s += fInfo(&f.Parameters[i])
		}
		return s + ")"
	case t.SoqlFieldInfo_SubQuery:
		return "(SubQuery)"
	}
	return fmt.Sprintf("%v:%v", f.Type, f.Value)
}

// content is the full identity of an operand in the result (used to match copies of it).
func content(f *t.SoqlFieldInfo) string {
	s := fmt.Sprintf("%d|%q|%q|%v|%v|%d|%d|%d|", f.Type, f.Name, f.AliasName, f.NotSelected, f.Aggregated, f.ColumnId, f.ColIndex, f.ViewId)
	switch v := f.Value.(type) {
	case nil:
	case time.Time:
		s += "t" + v.Format(time.RFC3339Nano)
	case float64:
		s += fmt.Sprintf("f%x", math.Float64bits(v))
	case []t.SoqlListItem:
		for _, it := range v {
			g := t.SoqlFieldInfo{Type: it.Type, Value: it.Value}
			s += "[" + content(&g) + "]"
		}
	default:
		s += fmt.Sprintf("%T%#v", v, v)
	}
	for i := range f.Parameters {
		s += "(" + content(&f.Parameters[i]) + ")"
	}
	if f.SubQuery != nil {
		s += fmt.Sprintf("sub%p", f.SubQuery)
	}
	return s
}

type pair struct {
	m *mQuery
	o *t.SoqlQuery
	// conditions
	where, having *oCond
	parent        *pair
}

// pairUp matches the queries of the model with those of the result.
func pairUp(m *mQuery, o *t.SoqlQuery, parent *pair, out []*pair) ([]*pair, error) {
	if o == nil {
		return nil, fmt.Errorf("the query is missing")
	}
	p := &pair{m: m, o: o, parent: parent}
	out = append(out, p)
	var err error
	if p.where, err = rpn(o.Where); err != nil {
		return nil, fmt.Errorf("the where condition is broken: %v", err)
	}
	if p.having, err = rpn(o.Having); err != nil {
		return nil, fmt.Errorf("the having condition is broken: %v", err)
	}
	if len(o.From) == 0 {
		return nil, fmt.Errorf("the From list is empty")
	}
	if len(o.Fields) < len(m.Sels) {
		return nil, fmt.Errorf("%d fields for %d select items", len(o.Fields), len(m.Sels))
	}
	for i, s := range m.Sels {
		if s.Opd.Kind == opdSub {
			if o.Fields[i].Type != t.SoqlFieldInfo_SubQuery || o.Fields[i].SubQuery == nil {
				return nil, fmt.Errorf("select item %d is not a subquery", i)
			}
			if out, err = pairUp(s.Opd.Sub, o.Fields[i].SubQuery, p, out); err != nil {
				return nil, err
			}
		}
	}
	for k, c := range []*mCond{m.Where, m.Having} {
		ml := c.leaves(nil)
		var ol []*oCond
		if k == 0 {
			ol = p.where.leaves(nil)
		} else {
			ol = p.having.leaves(nil)
		}
		if len(ml) != len(ol) {
			return nil, fmt.Errorf("%d comparisons were written but the result has %d", len(ml), len(ol))
		}
		for i := range ml {
			if ml[i].R.Kind == opdSub {
				if ol[i].r.Type != t.SoqlFieldInfo_SubQuery || ol[i].r.SubQuery == nil {
					return nil, fmt.Errorf("the right side of comparison %d is not a subquery", i)
				}
				if out, err = pairUp(ml[i].R.Sub, ol[i].r.SubQuery, p, out); err != nil {
					return nil, err
				}
			}
		}
	}
	return out, nil
}

func eqFoldPath(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if low(a[i]) != low(b[i]) {
			return false
		}
	}
	return true
}

// fieldIs reports whether f is the field of the reference.
func fieldIs(r *mRef, f *t.SoqlFieldInfo) error {
	if f.Type != t.SoqlFieldInfo_Field {
		return fmt.Errorf("%s instead of the field %s", fInfo(f), strings.Join(r.Spell, "."))
	}
	n := len(f.Name)
	if n == 0 || !eqFoldPath(r.Obj, f.Name[:n-1]) || f.Name[n-1] != r.Name {
		return fmt.Errorf("%q was resolved to %q instead of %q", r.Spell, f.Name, cat(r.Obj, r.Name))
	}
	return nil
}

func sameValue(typ t.SoqlFieldInfoType, want, got interface{}) bool {
	switch w := want.(type) {
	case nil:
		return got == nil
	case int64:
		g, ok := got.(int64)
		return ok && g == w
	case float64:
		g, ok := got.(float64)
		return ok && (math.Float64bits(g) == math.Float64bits(w) || math.IsNaN(g) && math.IsNaN(w))
	case bool:
		g, ok := got.(bool)
		return ok && g == w
	case string:
		g, ok := got.(string)
		return ok && g == w
	case time.Time:
		g, ok := got.(time.Time)
		return ok && g.Equal(w) && g.Location() == time.UTC
	}
	return false
}

func litIs(l *mLit, f *t.SoqlFieldInfo) error {
	if f.Type != l.Type {
		return fmt.Errorf("literal %s became %v instead of %v", l.Text, f.Type, l.Type)
	}
	switch l.Type {
	case t.SoqlFieldInfo_ParameterizedValue:
		if len(f.Name) != 1 || f.Name[0] != l.Name {
			return fmt.Errorf("parameter %s became %q", l.Text, f.Name)
		}
	case t.SoqlFieldInfo_DateTimeLiteralName:
		v, ok := f.Value.(t.SoqlDateTimeLiteralName)
		if !ok || len(f.Name) != 1 || low(f.Name[0]) != low(l.Name) || low(v.Name) != low(l.Name) || v.N != l.N {
			return fmt.Errorf("date literal %s became %q %#v", l.Text, f.Name, f.Value)
		}
	default:
		if !sameValue(l.Type, l.Val, f.Value) {
			return fmt.Errorf("literal %s became %#v instead of %#v", l.Text, f.Value, l.Val)
		}
	}
	return nil
}

func listItemIs(l *mLit, it t.SoqlListItem) error {
	if it.Type != l.Type {
		return fmt.Errorf("list item %s became %v instead of %v", l.Text, it.Type, l.Type)
	}
	switch l.Type {
	case t.SoqlFieldInfo_ParameterizedValue:
		if s, ok := it.Value.(string); !ok || s != l.Name {
			return fmt.Errorf("parameter %s became %#v", l.Text, it.Value)
		}
	case t.SoqlFieldInfo_DateTimeLiteralName:
		v, ok := it.Value.(t.SoqlDateTimeLiteralName)
		if !ok || low(v.Name) != low(l.Name) || v.N != l.N {
			return fmt.Errorf("date literal %s became %#v", l.Text, it.Value)
		}
	default:
		if !sameValue(l.Type, l.Val, it.Value) {
			return fmt.Errorf("literal %s became %#v instead of %#v", l.Text, it.Value, l.Val)
		}
	}
	return nil
}

// opdIs reports whether f is the operand as written (not looking into subqueries).
func opdIs(o *mOpd, f *t.SoqlFieldInfo) error {
	switch o.Kind {
	case opdField:
		return fieldIs(o.Ref, f)
	case opdFieldSet:
		n := len(f.Name)
		if f.Type != t.SoqlFieldInfo_FieldSet || n == 0 || !eqFoldPath(o.Ref.Obj, f.Name[:n-1]) || f.Name[n-1] != o.Ref.Name {
			return fmt.Errorf("FIELDS(%s) became %v %q", strings.Join(o.Ref.Spell, "."), f.Type, f.Name)
		}
	case opdFunc:
		if f.Type != t.SoqlFieldInfo_Function || len(f.Name) != 1 || f.Name[0] != o.Fn.Name {
			return fmt.Errorf("function %s became %s", o.Fn.Name, fInfo(f))
		}
		if len(f.Parameters) != len(o.Fn.Args) {
			return fmt.Errorf("function %s has %d parameters instead of %d", o.Fn.Name, len(f.Parameters), len(o.Fn.Args))
		}
		for i, a := range o.Fn.Args {
			if err := opdIs(a, &f.Parameters[i]); err != nil {
				return fmt.Errorf("parameter %d of %s: %v", i, o.Fn.Name, err)
			}
		}
	case opdLit:
		return litIs(o.Lit, f)
	case opdList:
		v, ok := f.Value.([]t.SoqlListItem)
		if f.Type != t.SoqlFieldInfo_Literal_List || !ok || len(v) != len(o.List) {
			return fmt.Errorf("a list of %d items became %s", len(o.List), fInfo(f))
		}
		for i, l := range o.List {
			if err := listItemIs(l, v[i]); err != nil {
				return err
			}
		}
	case opdSub:
		if f.Type != t.SoqlFieldInfo_SubQuery || f.SubQuery == nil {
			return fmt.Errorf("a subquery became %s", fInfo(f))
		}
	}
	return nil
}

// walkField visits the field and nested function parameters.
func walkField(f *t.SoqlFieldInfo, depth int, fn func(f *t.SoqlFieldInfo, depth int)) {
	fn(f, depth)
	if f.Type == t.SoqlFieldInfo_Function {
		for i := range f.Parameters {
			walkField(&f.Parameters[i], depth+1, fn)
		}
	}
}

// eachRef visits every field, function, ... of a query result (without subqueries).
func eachRef(o *t.SoqlQuery, fn func(where string, f *t.SoqlFieldInfo, depth int)) {
	for i := range o.Fields {
		walkField(&o.Fields[i], 0, func(f *t.SoqlFieldInfo, d int) { fn("Fields", f, d) })
	}
	for i := range o.GroupBy {
		walkField(&o.GroupBy[i], 0, func(f *t.SoqlFieldInfo, d int) { fn("GroupBy", f, d) })
	}
	for i := range o.OrderBy {
		walkField(&o.OrderBy[i].Field, 0, func(f *t.SoqlFieldInfo, d int) { fn("OrderBy", f, d) })
	}
	for i := range o.Where {
		if o.Where[i].Opcode == t.SoqlConditionOpcode_FieldInfo {
			walkField(&o.Where[i].Value, 0, func(f *t.SoqlFieldInfo, d int) { fn("Where", f, d) })
		}
	}
	for i := range o.Having {
		if o.Having[i].Opcode == t.SoqlConditionOpcode_FieldInfo {
			walkField(&o.Having[i].Value, 0, func(f *t.SoqlFieldInfo, d int) { fn("Having", f, d) })
		}
	}
}

func objKeyOf(f *t.SoqlFieldInfo) string {
	if len(f.Name) == 0 {
		return ""
	}
	return pathKey(f.Name[:len(f.Name)-1])
}

func nameKeyOf(f *t.SoqlFieldInfo) string {
	if len(f.Name) == 0 {
		return ""
	}
	return objKeyOf(f) + "\x00." + low(f.Name[len(f.Name)-1])
}
