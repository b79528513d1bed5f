package main

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
)

// memory blocks (start, end) reachable from a result, without strings.
type block struct {
	a, b uintptr
	what string
}

func blocks(v reflect.Value, what string, seen map[uintptr]bool, out []block) []block {
	if !v.IsValid() || v.Type() == timeType {
		return out
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			out = blocks(v.Elem(), what, seen, out)
		}
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return out
		}
		seen[v.Pointer()] = true
		if n := v.Elem().Type().Size(); n > 0 {
			out = append(out, block{v.Pointer(), v.Pointer() + n, what})
		}
		out = blocks(v.Elem(), what, seen, out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out = blocks(v.Field(i), v.Type().Name()+"."+v.Type().Field(i).Name, seen, out)
		}
	case reflect.Slice:
		if v.Cap() > 0 && v.Type().Elem().Size() > 0 {
			// the whole capacity: an append to one of them must not be visible in the other
			out = append(out, block{v.Pointer(), v.Pointer() + uintptr(v.Cap())*v.Type().Elem().Size(), what + "[]"})
		}
		for i := 0; i < v.Len(); i++ {
			out = blocks(v.Index(i), what, seen, out)
		}
	case reflect.Map:
		if v.IsNil() || seen[v.Pointer()] {
			return out
		}
		seen[v.Pointer()] = true
		out = append(out, block{v.Pointer(), v.Pointer() + 1, what + "{}"})
		for _, k := range v.MapKeys() {
			out = blocks(v.MapIndex(k), what, seen, out)
		}
	}
	return out
}

func overlap(a, b []block) (string, bool) {
	type ev struct {
		block
		first bool
	}
	var l []ev
	for _, e := range a {
		l = append(l, ev{e, true})
	}
	for _, e := range b {
		l = append(l, ev{e, false})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].a < l[j].a })
	var endA, endB uintptr
	var whatA, whatB string
	for _, e := range l {
		if e.first {
			if e.a < endB {
				return e.what + " and " + whatB, true
			}
			if e.b > endA {
				endA, whatA = e.b, e.what
			}
		} else {
			if e.a < endA {
				return whatA + " and " + e.what, true
			}
			if e.b > endB {
				endB, whatB = e.b, e.what
			}
		}
	}
	return "", false
}

// scribble overwrites everything reachable from a result.
func scribble(v reflect.Value, seen map[uintptr]bool) int {
	n := 0
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			if v.Elem().Kind() == reflect.Slice {
				n += scribble(v.Elem(), seen)
			}
			if v.CanSet() {
				v.Set(reflect.Zero(v.Type()))
				n++
			}
		}
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		n += scribble(v.Elem(), seen)
	case reflect.Struct:
		if v.Type() == timeType {
			return 0
		}
		for i := 0; i < v.NumField(); i++ {
			n += scribble(v.Field(i), seen)
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() > 0 && seen[v.Pointer()] {
			return 0
		}
		for i := 0; i < v.Len(); i++ {
			n += scribble(v.Index(i), seen)
		}
		// and the spare capacity
		w := v.Slice(0, v.Cap())
		for i := v.Len(); i < v.Cap(); i++ {
			if w.Index(i).Kind() == reflect.String {
				w.Index(i).SetString("scribbled")
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return n
		}
		for _, k := range v.MapKeys() {
			e := v.MapIndex(k)
			if e.Kind() == reflect.Struct {
				for i := 0; i < e.NumField(); i++ {
					if e.Field(i).Kind() == reflect.Ptr {
						n += scribble(e.Field(i), seen)
					}
				}
			}
		}
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
			n++
		}
		if v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf("scribbled"), reflect.Zero(v.Type().Elem()))
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
			n++
		}
	case reflect.Int, reflect.Int64:
		if v.CanSet() {
			v.SetInt(-77)
			n++
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
			n++
		}
	}
	return n
}

func isolation(x *T) {
	o := dumpOpts{skip: skipVolatile}
	cfg := defaultCfg()
	cfg.MaxDepth = 1 + x.r.Intn(4)
	c := generate(x, cfg, randStyle(x.r))
	q1 := x.mustParse(c.src)
	if q1 == nil {
		return
	}
	d1 := dump(q1, o)
	_, e1, _ := x.parse(c.src + "\n)")
	for i := x.r.Intn(3); i > 0; i-- {
		s, _ := hostile(x.r)
		if x.r.Intn(2) == 0 {
			s = variant(x.r, c.src)
		}
		x.parse(s)
		x.count("texts parsed in between", 1)
	}
	q2 := x.mustParse(c.src)
	if q2 == nil {
		return
	}
	x.count("repeated parses", 1)
	if d := dump(q2, o); d != d1 {
		x.failf("parsing the same text again gives another result: %s", firstDiff(d1, d))
		return
	}
	if d := dump(q1, o); d != d1 {
		x.failf("a later call changed an earlier result: %s", firstDiff(d1, d))
		return
	}
	b1 := blocks(reflect.ValueOf(q1), "result", map[uintptr]bool{}, nil)
	b2 := blocks(reflect.ValueOf(q2), "result", map[uintptr]bool{}, nil)
	x.count("memory blocks compared", len(b1)+len(b2))
	if what, bad := overlap(b1, b2); bad {
		x.failf("two results share memory: %s", what)
	}
	scribble(reflect.ValueOf(q1), map[uintptr]bool{})
	x.count("results overwritten", 1)
	if d := dump(q2, o); d != d1 {
		x.failf("overwriting one result changed another: %s", firstDiff(d1, d))
		return
	}
	// again and again: what is kept of a text may be kept only after some calls
	last := b2
	for n := []int{1, 1, 1, 1, 1, 1, 2, 2, 3, 5, 9, 24}[x.r.Intn(12)]; n > 0; n-- {
		q3 := x.mustParse(c.src)
		if q3 == nil {
			return
		}
		x.count("repeated parses", 1)
		if d := dump(q3, o); d != d1 {
			x.failf("after other results have been overwritten, the result differs: %s", firstDiff(d1, d))
			return
		}
		b3 := blocks(reflect.ValueOf(q3), "result", map[uintptr]bool{}, nil)
		if what, bad := overlap(last, b3); bad {
			x.failf("two results share memory: %s", what)
			return
		}
		if x.r.Intn(3) == 0 {
			scribble(reflect.ValueOf(q3), map[uintptr]bool{})
		} else {
			last = b3
			q2 = q3
		}
		runtime.KeepAlive(q3)
	}
	runtime.KeepAlive(q2)
	_, e2, _ := x.parse(c.src + "\n)")
	if e1 == nil || e2 == nil || e1.Error() != e2.Error() {
		x.input = c.src + "\n)"
		x.failf("the errors of two calls differ: %v <> %v", e1, e2)
	}
	if len(c.q.all()) > 1 || len(c.q.ownPaths()) > 2 {
		x.nontrivial(c.src)
	}
	// any text, between texts like it
	s := c.src
	switch x.r.Intn(4) {
	case 0:
		s, _ = hostile(x.r)
	case 1, 2:
		s = semanticSoup(x.r)
	default:
		s = variant(x.r, s)
	}
	outcome := func() string {
		q, err, _ := x.parse(s)
		if err != nil {
			return "error " + err.Error()
		}
		return dump(q, o)
	}
	w1 := outcome()
	for i := 1 + x.r.Intn(3); i > 0; i-- {
		x.parse(variant(x.r, s))
		x.count("texts parsed in between", 1)
	}
	if w2 := outcome(); w1 != w2 {
		x.failf("parsing the same text again, after texts like it, gives another outcome: %s", firstDiff(w1, w2))
	}
	x.count("repeated parses", 1)
}

func orderText(seed int64, i int) string {
	r := rand.New(rand.NewSource(caseSeed(seed, "order", i)))
	if i%3 != 0 {
		// texts like the one before
		return variant(r, orderText(seed, i-1))
	}
	if r.Intn(3) == 0 {
		return semanticSoup(r)
	}
	if r.Intn(3) == 0 {
		s, _ := hostile(r)
		return s
	}
	s, _ := layout(r, genText(r), randStyle(r))
	return s
}

// variant makes a text that a careless comparison takes for the given one.
func variant(r *rand.Rand, s string) string {
	pos := func() int { return r.Intn(len(s) + 1) }
	switch r.Intn(9) {
	case 0, 1:
		return low(s)
	case 2:
		return strings.ToUpper(s)
	case 3:
		return flipCase(r, s)
	case 4:
		return strings.Join(strings.Fields(s), " ")
	case 5:
		return s + []string{" ", "\n", "\t-- x", "/* x */", " limit 7", ")", ", x", "x"}[r.Intn(8)]
	case 6:
		return []string{" ", "\n", "/* x */", "\t\r\n", ";"}[r.Intn(5)] + s
	case 7:
		// the same length, another digit or letter
		b := []byte(s)
		for n := 0; n < 50 && len(b) > 0; n++ {
			i := r.Intn(len(b))
			if c := b[i]; c >= 'a' && c < 'z' || c >= '0' && c < '9' || c >= 'A' && c < 'Z' {
				b[i]++
				break
			}
		}
		return string(b)
	}
	i := pos()
	return s[:i] + []string{" ", "(", "'", "1", "\x00"}[r.Intn(5)] + s[i:]
}

// orderChild prints one hash per text, parsed in the given order.
func orderChild(seed int64, n int, order string) {
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	switch order {
	case "reverse":
		for i := range idx {
			idx[i] = n - 1 - i
		}
	case "shuffle":
		rand.New(rand.NewSource(seed)).Shuffle(n, func(i, j int) { idx[i], idx[j] = idx[j], idx[i] })
	}
	out := make([]string, n)
	for _, i := range idx {
		s := orderText(seed, i)
		func() {
			defer func() {
				if e := recover(); e != nil {
					out[i] = fmt.Sprint("panic ", e)
				}
			}()
			q, err := parser.Parse(s)
			if err != nil {
				out[i] = fmt.Sprintf("e%x", hash64(err.Error()))
			} else {
				out[i] = fmt.Sprintf("q%x", hash64(dump(q, dumpOpts{skip: skipVolatile})))
			}
		}()
	}
	for i, s := range out {
		fmt.Println(i, s)
	}
}

// orderIndependence compares the results of fresh processes that parse the same texts in
// another order.
func orderIndependence(p *parentRun) {
	n := 1800
	if p.tier == "thorough" {
		n = 18000
	}
	self, _ := os.Executable()
	run := func(order string) ([]string, error) {
		b, e, err := runLimited(250*time.Second, nil, self, "order", strconv.FormatInt(p.seed, 10), strconv.Itoa(n), order)
		if err != nil {
			return nil, fmt.Errorf("%v: %s", err, tail(e, 1500))
		}
		return strings.Split(strings.TrimSpace(b), "\n"), nil
	}
	want, err := run("forward")
	if err != nil {
		p.fail(failure{Index: -2, Kind: "crash", Detail: err.Error()})
		return
	}
	for _, o := range []string{"reverse", "shuffle"} {
		got, err := run(o)
		if err != nil {
			p.fail(failure{Index: -2, Kind: "crash", Detail: err.Error()})
			return
		}
		for i := range want {
			p.res.Evals++
			p.res.Counters["texts compared between processes"]++
			if i >= len(got) || got[i] != want[i] {
				p.fail(failure{Index: -2, Kind: "history", Input: orderText(p.seed, i), Detail: "the result depends on what the process parsed before (order: " + o + ")"})
				return
			}
		}
	}
}
