package main

import (
	"fmt"
	"math"
	"math/rand"
	"runtime"
	"strconv"
	"strings"
	"time"
)

// The cost of a call, measured on families of texts which double in size.

type family struct {
	name  string
	sizes []int
	text  func(n int) string
}

type widthUnit struct {
	name, pre string
	units     []string // %d is the number of the unit
	sep, post string
	max       int
}

var widths = []widthUnit{
	{"select items", "select ", []string{"F%d", "F%d a%d", "Owner.F%d", "R%d.F", "f(F%d)", "f(g(F%d), 'x') b%d", "Id", "A.F%d"}, ", ", " from A", 256},
	{"grouped items", "select count() from A group by ", []string{"F%d", "R%d.F", "Owner.F%d", "A.F%d"}, ", ", "", 256},
	{"sort items", "select Id from A order by ", []string{"F%d", "F%d desc nulls last", "A.F%d asc"}, ", ", " limit 5", 256},
	{"from items", "select Id from A a, ", []string{"A.R%d r%d", "R%d", "a.R%d s%d", "a.R%d.S t%d"}, ", ", " where Id = 1", 128},
	{"list items", "select Id from A where x in (", []string{"%d", "'s%d'", ":p%d", "2020-01-01", "1.5e%d", "TODAY", "null", "LAST_N_DAYS:%d"}, ", ", ")", 1024},
	{"arguments", "select f(", []string{"F%d", "%d", "g(F%d)", "'s'", "R%d.F"}, ", ", ") from A", 256},
	{"and chain", "select Id from A where ", []string{"F%d = %d", "F%d in (1, 2)", "not F%d = 1", "(F%d = 1 or G = 2)", "f(F%d) > 1", "R%d.F != null", "F%d not like 'x'", "Id = 1"}, " and ", "", 128},
	{"or chain", "select Id from A where ", []string{"F%d = %d", "F%d not in (1, 2)", "not F%d = 1", "(F%d = 1 and G = 2)", "f(F%d) > 1", "Owner.F%d != null", "Id = 1"}, " or ", "", 128},
	{"mixed chain", "select Id from A where F = 1", []string{" and F%d = 1", " or F%d = 1", " and not G%d = 1", " or not R%d.G = 1", " and (F = 1 or G%d = 2)"}, "", "", 128},
	{"having chain", "select count() from A group by F having ", []string{"max(F%d) > 1", "count(F%d) in (1, 2)", "not min(F%d) = 1", "(sum(F%d) = 1 or f(G) = 2)"}, " and ", "", 128},
	{"select-subqueries", "select Id, ", []string{"(select F%d from Rs%d)", "(select Id, Owner.F%d from Rs%d r where r.F = A.G%d)", "(select Id from Rs%d where x in (1, 2) order by F limit 5)"}, ", ", " from A", 64},
	{"conditional subqueries", "select Id from A where ", []string{"F%d in (select Id from B where G = %d)", "F not in (select F%d from B, B.C c)", "F%d = 1"}, " and ", "", 64},
	{"path", "select ", []string{"R%d", "R", "Owner", "\"x y\""}, ".", ".F from A", 64},
	{"path in a condition", "select Id from A where A.", []string{"R%d", "R", "Owner"}, ".", ".F = 1", 64},
	{"string", "select Id from A where x = '", []string{"a", "\\n", "\\u{1F600}", "é", "\\'", "\\\\", "--", "%d"}, "", "'", 8192},
	{"name", "select a", []string{"b", "_", "9", "é"[:0] + "Z"}, "", " from A", 8192},
	{"quoted name", "select \"", []string{"b", " ", "\\\"", "é"}, "", "\" from A", 8192},
	{"digits", "select Id from A where x = 1", []string{"0", "1", "1_1"}, "", ".5", 4096},
	{"blanks", "select Id", []string{" ", "\n", "\t", "/* x */", "-- x\n", "/**/", "/* ' */"}, "", " from A", 4096},
	{"blanks at the end", "select Id from A ", []string{" ", "\n", "\t", "/* x */", "-- x\n"}, "", "", 4096},
	{"blanks between tokens", "select", []string{" "}, "", "f ( a , 'x' ) n from A where ( x = 1 )", 4096},
}

var condNest = []nestUnit{{"(", ")"}, {"not (", ")"}, {"(a = 1 and ", ")"}, {"(", " or b = 2)"}, {"(", " and b = 2)"}, {"(not a = 1 or ", ")"}, {"(f(x) = 1 and (b in (1,2) or ", "))"}, {"(a = 1 or b = 1 and ", " and not c = 2)"}}
var subNest = []nestUnit{{"x in (select Id from A where ", ")"}, {"x not in (select Id, F from A a, a.B b where ", ")"}, {"x in (select Id from A where b = 1 and ", " and c = 2 order by d)"}, {"(x in (select Id from A where ", ") or b = 2)"}}
var fnNest = []nestUnit{{"f(", ")"}, {"f(1, ", ")"}, {"f(", ", x)"}, {"max(", ")"}, {"f('a', g(", "), b.c)"}}
var selNest = []nestUnit{{"(select ", " from Rs)"}, {"(select Id, ", " from Rs)"}, {"(select ", ", F from Rs r where r.x = 1 limit 5)"}, {"Id, (select ", " from Rs order by F)"}}

// newFamily makes a random family: a random sequence of units is repeated n times.
func newFamily(r *rand.Rand) family {
	seq := func(k int) []int {
		s := make([]int, 1+r.Intn(3))
		for i := range s {
			s[i] = r.Intn(k)
		}
		return s
	}
	broken := r.Intn(3) == 0
	tail := ""
	how := r.Intn(4)
	if broken {
		tail = []string{" #", " where", " )", " and"}[r.Intn(4)]
	}
	label := ""
	if broken {
		label = ", malformed"
	}
	doubling := func(from, to int) []int {
		var s []int
		for ; from <= to; from *= 2 {
			s = append(s, from)
		}
		return s
	}
	nest := func(name, pre string, us []nestUnit, cores []string, post string, max int) family {
		sq := seq(len(us))
		core := cores[r.Intn(len(cores))]
		return family{"nesting: " + name + label, doubling(max/8, max), func(n int) string {
			var b strings.Builder
			b.WriteString(pre)
			for i := 0; i < n; i++ {
				b.WriteString(us[sq[i%len(sq)]].pre)
			}
			if broken && how == 0 { // cut off
				return b.String()
			}
			b.WriteString(core)
			if broken && how == 1 {
				b.WriteString(" ?")
			}
			for i := n - 1; i >= 0; i-- {
				if broken && how == 2 && i == 0 {
					break
				}
				b.WriteString(us[sq[i%len(sq)]].post)
			}
			b.WriteString(post)
			b.WriteString(tail)
			return b.String()
		}}
	}
	switch k := r.Intn(12); k {
	case 0, 1:
		return nest("conditions", "select Id from A where ", condNest, []string{"a = 1", "a in (1, 2)", "not a = 1"}, "", 192)
	case 2:
		return nest("conditions of having", "select count() from A group by a having ", condNest[:5], []string{"max(a) = 1"}, "", 192)
	case 3:
		return nest("conditional subqueries", "select Id from A where ", subNest, []string{"a = 1", "a in (select Id from B)"}, "", 48)
	case 4:
		return nest("function calls", []string{"select ", "select Id from A where ", "select Id from A where x = "}[0], fnNest, []string{"x", "1", "a.b"}, " from A", 192)
	case 5:
		return nest("function calls in a condition", "select Id from A where ", fnNest, []string{"x", "1", "a.b"}, " = 1", 192)
	case 6:
		return nest("select-subqueries", "select ", selNest, []string{"Id", "Owner.F", "f(x)"}, " from A", 48)
	}
	u := widths[r.Intn(len(widths))]
	us := make([]string, 1+r.Intn(3))
	for i := range us {
		us[i] = u.units[r.Intn(len(u.units))]
	}
	return family{"width: " + u.name + label, doubling(u.max/8, u.max), func(n int) string {
		var b strings.Builder
		b.WriteString(u.pre)
		for i := 0; i < n; i++ {
			if i > 0 {
				b.WriteString(u.sep)
			}
			b.WriteString(strings.ReplaceAll(us[i%len(us)], "%d", fmt.Sprint(i)))
		}
		if broken && how == 0 {
			return b.String()
		}
		b.WriteString(u.post)
		b.WriteString(tail)
		return b.String()
	}}
}

type cost struct {
	bytes, objects uint64
	cpu            time.Duration
}

func measure(x *T, s string) (cost, bool, bool) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	c0 := cpuNanos()
	q, _, ok := x.parse(s)
	c1 := cpuNanos()
	runtime.ReadMemStats(&b)
	return cost{b.TotalAlloc - a.TotalAlloc, b.Mallocs - a.Mallocs, time.Duration(c1 - c0)}, q != nil, ok
}

const (
	maxGrowth   = 9       // a cubic cost grows by a factor of 8
	maxExponent = 2.4     // over all doublings of a family
	costFloor   = 1 << 16 // below it the constant part prevails
)

func costCase(x *T) {
	f := newFamily(x.r)
	var first, last cost
	for i, n := range f.sizes {
		s := f.text(n)
		if i == 0 {
			if _, _, ok := measure(x, s); !ok {
				return
			}
		}
		c, accepted, ok := measure(x, s)
		if !ok {
			return
		}
		if accepted {
			x.count("accepted", 1)
		} else {
			x.count("rejected", 1)
		}
		x.count("doublings of "+strings.Split(f.name, ":")[0], 1)
		x.max("max. bytes allocated by one call", int(c.bytes))
		x.max("max. ms of CPU of one call", int(c.cpu/time.Millisecond))
		if i > 0 {
			for k, v := range map[string][2]uint64{"bytes": {last.bytes, c.bytes}, "objects": {last.objects, c.objects}} {
				base := v[0]
				if k == "bytes" && base < costFloor {
					base = costFloor
				} else if base < costFloor/64 {
					base = costFloor / 64
				}
				x.max("max. growth in % ("+k+")", int(v[1]*100/base))
				if v[1] > base*maxGrowth {
					x.failf("%s: with the size doubled from %d to %d, the allocated %s grew from %d to %d", f.name, n/2, n, k, v[0], v[1])
					return
				}
			}
			if c.cpu > 400*time.Millisecond && c.cpu > 25*(last.cpu+20*time.Millisecond) {
				c2, _, _ := measure(x, s) // once more, in case something else was in the way
				if c2.cpu > 400*time.Millisecond && c2.cpu > 25*(last.cpu+20*time.Millisecond) {
					x.failf("%s: with the size doubled from %d to %d, the CPU time grew from %v to %v", f.name, n/2, n, last.cpu, c2.cpu)
					return
				}
			}
		}
		if c.bytes > 2<<30 {
			x.failf("%s: a text of %d bytes needed %d bytes of memory", f.name, len(s), c.bytes)
			return
		}
		if i == 0 {
			first = c
		}
		last = c
		x.nontrivial(s)
	}
	base := first.bytes
	if base < costFloor {
		base = costFloor
	}
	e := math.Log(float64(last.bytes)/float64(base)) / math.Log(float64(f.sizes[len(f.sizes)-1])/float64(f.sizes[0]))
	x.max("max. exponent of the growth, times 100", int(100*e))
	if e > maxExponent {
		x.failf("%s: from %d to %d units, the allocated memory grew from %d to %d bytes (exponent %.2f)", f.name, f.sizes[0], f.sizes[len(f.sizes)-1], first.bytes, last.bytes, e)
	}
}

func liveHeap() uint64 {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.HeapAlloc
}

// freshText makes a query of about 50 names and values that are in no other text.
func freshText(r *rand.Rand, serial *int) string {
	n := func(p string) string {
		*serial++
		return p + "_of_some_length_" + strconv.Itoa(*serial)
	}
	var sb strings.Builder
	sb.WriteString("select Id")
	for i := 0; i < 8; i++ {
		sb.WriteString(", " + n("fld") + " " + n("al") + ", " + n("rel") + "." + n("fld") + ", " + n("fn") + "(" + n("fld") + ", '" + n("str") + "')")
	}
	sb.WriteString(", (select " + n("fld") + " from " + n("Children") + " " + n("al") + ")")
	sb.WriteString(" from " + n("Obj") + " " + n("o") + " where " + n("fld") + " = :" + n("par") + " and " + n("fld") + " in ('" + n("str") + "', :" + n("par") + ", " + strconv.Itoa(1000+*serial) + ")")
	sb.WriteString(" and not " + n("rel") + "." + n("fld") + " = LAST_N_DAYS:" + strconv.Itoa(*serial) + " and x in (select " + n("fld") + " from " + n("Obj") + " where " + n("fld") + " = 1." + strconv.Itoa(*serial) + ")")
	sb.WriteString(" order by " + n("fld") + " limit :" + n("par") + " offset " + strconv.Itoa(1+*serial))
	return sb.String()
}

// retention parses many different texts: nothing of them may remain, and the cost of a
// call may not depend on what was parsed before.
func retention(x *T) {
	r := x.r
	n := 600
	if x.tier == "thorough" {
		n = 6000
	}
	probe := "select Id, f(Owner.Name) n, (select Id from Contacts where x in (1, 2)) from Account where (a = 1 or not b like 'x%') and c in (select Id from B where d = TODAY) order by Id limit 5"
	cfg := defaultCfg()
	cfg.MaxDepth = 5
	one := func() {
		var s string
		switch r.Intn(4) {
		case 0:
			s = newFamily(r).text(12)
		case 1:
			s, _ = hostile(r)
			if len(s) > 5000 {
				return
			}
		default:
			w := &renderer{r: r}
			w.query(newGen(r, cfg).query())
			s, _ = layout(r, unambiguous(w.toks), layoutPlain)
		}
		x.parse(s)
		x.count("texts parsed for retention", 1)
	}
	for i := 0; i < n; i++ {
		one()
	}
	measure(x, probe)
	before, _, ok := measure(x, probe)
	if !ok {
		return
	}
	h0 := liveHeap()
	for i := 0; i < n; i++ {
		one()
	}
	x.begin(probe)
	h1 := liveHeap()
	after, _, _ := measure(x, probe)
	grown := int64(h1) - int64(h0)
	if grown > 0 {
		x.count("bytes of live heap more after the second half", int(grown))
	}
	x.count("bytes of live heap", int(h1))
	if grown > 2<<20+int64(n)*256 {
		x.failf("after %d texts, %d bytes are live; after another %d, %d bytes", n, h0, n, h1)
	}
	// texts of names and values that never come again
	m, serial := 300, 0
	if x.tier == "thorough" {
		m = 5000
	}
	batch := func() {
		for i := 0; i < m; i++ {
			s := freshText(r, &serial)
			if x.mustParse(s) == nil {
				return
			}
			x.parse(s + " )")
			x.count("texts of new names parsed for retention", 2)
		}
		x.begin(probe)
	}
	batch()
	g0 := liveHeap()
	batch()
	g1 := liveHeap()
	x.count("names and values parsed for retention", serial)
	grown = int64(g1) - int64(g0)
	if grown > 0 {
		x.count("bytes of live heap more after the second half of new names", int(grown))
	}
	if grown > 256<<10+int64(m)*64 {
		x.failf("after %d texts of new names, %d bytes are live; after another %d, %d bytes", m, g0, m, g1)
	}
	after, _, _ = measure(x, probe)
	x.count("bytes allocated for the probe", int(after.bytes))
	if after.bytes > before.bytes+before.bytes/4 || after.objects > before.objects+before.objects/4 {
		x.failf("the same text cost %+v, and after %d other texts %+v", before, n, after)
	}
}

func init() {
	register(&prop{
		id: "C22", quick: 900, thorough: 16000,
		rule: "A case is a family of texts made of randomly chosen units nested or repeated 1, 2, 4 and 8 times a base size, complete or malformed; the memory allocated and the CPU time used by each call are measured. Distinct by text.",
		assume: []string{"the memory allocated by a call is a measure of the work it does",
			"over the sizes tried, the cost may grow by a factor of 9 at one doubling and with the power 2.4 over all of them; a change from linear to quadratic cost is not noticed"},
		minObs: map[string]int64{"accepted": 500, "rejected": 200, "texts parsed for retention": 500, "names and values parsed for retention": 20000, "doublings of nesting": 300, "doublings of width": 300},
		run:    costCase,
		once:   retention,
	})
}
