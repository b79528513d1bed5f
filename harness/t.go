package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// T is the context of one case.
type T struct {
	p     *prop
	tier  string
	seed  int64
	idx   int
	r     *rand.Rand
	dir   string
	cur   *os.File
	res   *shardResult
	hash  map[uint64]struct{}
	input string
	failN int
	quiet bool
	known string // set while running a listed known finding
}

func (x *T) count(name string, n int) {
	if n != 0 {
		x.res.Counters[name] += int64(n)
	}
}

func (x *T) max(name string, n int) {
	if int64(n) > x.res.Counters[name] {
		x.res.Counters[name] = int64(n)
	}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// nontrivial records the input as one of the distinct non-trivial cases.
func (x *T) nontrivial(s string) {
	h := hash64(s)
	if _, ok := x.hash[h]; !ok {
		x.hash[h] = struct{}{}
		if len(x.res.Samples) < 1 || len(x.res.Samples) < 2 && len(s) < 300 {
			x.res.Samples = append(x.res.Samples, head(s, 1200))
		}
	}
}

func (x *T) failf(format string, a ...interface{}) {
	x.failKind("violation", format, a...)
}

func (x *T) failKind(kind, format string, a ...interface{}) {
	x.failN++
	if x.known != "" {
		return
	}
	if len(x.res.Fails) < 30 {
		x.res.Fails = append(x.res.Fails, failure{Index: x.idx, Input: x.input, Detail: fmt.Sprintf(format, a...), Kind: kind})
	}
}

var (
	caseSerial int64
	caseCPU    int64
)

func cpuNanos() int64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return ru.Utime.Nano() + ru.Stime.Nano()
}

// begin publishes the input which is going to be handed to the parser, so that a
// crash of the process can be attributed to it.
func (x *T) begin(s string) {
	x.input = s
	if x.cur != nil {
		buf := make([]byte, 16+len(s))
		binary.LittleEndian.PutUint64(buf, uint64(int64(x.idx)))
		binary.LittleEndian.PutUint64(buf[8:], uint64(len(s)))
		copy(buf[16:], s)
		x.cur.WriteAt(buf, 0)
	}
	atomic.StoreInt64(&caseCPU, cpuNanos())
	atomic.AddInt64(&caseSerial, 1)
}

func readCurrent(dir string) (int, string, string) {
	b, err := os.ReadFile(filepath.Join(dir, "current"))
	if err != nil || len(b) < 16 {
		return -1, "", ""
	}
	n := int(binary.LittleEndian.Uint64(b[8:]))
	idx := int(int64(binary.LittleEndian.Uint64(b)))
	if 16+n > len(b) {
		n = len(b) - 16
	}
	kind, _ := os.ReadFile(filepath.Join(dir, "kind"))
	return idx, string(b[16 : 16+n]), string(kind)
}

// watchdog ends the process when a single call takes an absurd amount of CPU time or memory.
func watchdog(dir string) {
	serial := int64(-1)
	for {
		time.Sleep(500 * time.Millisecond)
		now := atomic.LoadInt64(&caseSerial)
		if now != serial {
			serial = now
			continue
		}
		if now == 0 {
			continue
		}
		kind := ""
		if cpuNanos()-atomic.LoadInt64(&caseCPU) > int64(60*time.Second) {
			kind = "hang: more than 60 s of CPU time for one input"
		} else {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				kind = "blow-up: more than 3 GiB of live heap for one input"
			}
		}
		if kind != "" && atomic.LoadInt64(&caseSerial) == now {
			os.WriteFile(filepath.Join(dir, "kind"), []byte(kind), 0o644)
			os.Exit(3)
		}
	}
}

// parse calls the parser. A panic is a failure of any property.
func (x *T) parse(s string) (q *t.SoqlQuery, err error, ok bool) {
	x.begin(s)
	x.res.Evals++
	defer func() {
		if e := recover(); e != nil {
			x.failKind("panic", "Parse panicked: %v\n%s", e, head(string(debug.Stack()), 2500))
			q, err, ok = nil, nil, false
		}
	}()
	q, err = parser.Parse(s)
	return q, err, true
}

// mustParse parses a query which is valid by construction.
func (x *T) mustParse(s string) *t.SoqlQuery {
	q, err, ok := x.parse(s)
	if !ok {
		return nil
	}
	if err != nil {
		x.failKind("rejected", "a valid query was rejected: %v", err)
		return nil
	}
	if q == nil {
		x.failf("Parse returned neither a query nor an error")
		return nil
	}
	return q
}

func caseSeed(seed int64, id string, idx int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, idx)
	return int64(h.Sum64() &^ (1 << 63))
}

func newT(p *prop, tier string, seed int64, dir string) *T {
	x := &T{p: p, tier: tier, seed: seed, dir: dir, res: &shardResult{Counters: map[string]int64{}}, hash: map[uint64]struct{}{}}
	if dir != "" {
		x.cur, _ = os.OpenFile(filepath.Join(dir, "current"), os.O_RDWR|os.O_CREATE, 0o644)
	}
	return x
}

func (x *T) setCase(i int) {
	x.idx = i
	x.r = rand.New(rand.NewSource(caseSeed(x.seed, x.p.id, i)))
	x.input = ""
}

func (p *prop) cases(tier string) int {
	n := p.quick
	if tier == "thorough" {
		n = p.thorough
	}
	return n
}

// safely runs a case. A result so odd that the monitor itself panics is a failure.
func (x *T) safely(fn func(x *T)) {
	defer func() {
		if e := recover(); e != nil {
			x.failKind("monitor panic", "%v\n%s", e, head(string(debug.Stack()), 2500))
		}
	}()
	fn(x)
}

func childMain(id, tier string, seed int64, shard, nshards int, dir string) {
	debug.SetGCPercent(300)
	p := props[id]
	x := newT(p, tier, seed, dir)
	if os.Getenv("VERIF_NO_WATCHDOG") == "" {
		go watchdog(dir)
	}
	if shard < 0 {
		x.setCase(-1)
		x.safely(p.once)
	} else {
		n := p.cases(tier)
		for i := shard; i < n; i += nshards {
			x.setCase(i)
			x.safely(p.run)
			if len(x.res.Fails) >= 12 {
				break
			}
		}
	}
	for h := range x.hash {
		x.res.Hashes = append(x.res.Hashes, h)
	}
	b, err := json.Marshal(x.res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	tmp := filepath.Join(dir, "result.tmp")
	os.WriteFile(tmp, b, 0o644)
	os.Rename(tmp, filepath.Join(dir, "result.json"))
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property, Tier, Input, Detail string
		Seed                          int64
		Index                         int
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[f.Property]
	if p == nil {
		return 2
	}
	x := newT(p, f.Tier, f.Seed, "")
	x.setCase(f.Index)
	if p.parent != nil && (p.run == nil || f.Index == -2) {
		dir, _ := os.MkdirTemp("", "vh-replay-")
		defer os.RemoveAll(dir)
		pr := &parentRun{p: p, tier: f.Tier, seed: f.Seed, work: dir, res: x.res, extra: map[string]interface{}{}, seen: map[uint64]struct{}{}, only: &f.Index}
		p.parent(pr)
		if pr.err != nil {
			fmt.Fprintln(os.Stderr, pr.err)
			return 2
		}
	} else if f.Index >= 0 && p.run != nil {
		p.run(x)
	} else if p.once != nil {
		p.once(x)
	} else {
		fmt.Println("this failure has no single-process replay; rerun the check")
		return 2
	}
	for _, g := range x.res.Fails {
		if g.Index == f.Index {
			fmt.Printf("input:\n%s\n%s: %s\nVIOLATION property=%s replay=%s\n", g.Input, g.Kind, g.Detail, f.Property, file)
			return 1
		}
	}
	fmt.Println("the failure does not occur on the current tree")
	return 0
}

func genMain(n int, seed int64) {
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(caseSeed(seed, "gen", i)))
		q := newGen(r, defaultCfg()).query()
		s, _ := layout(r, tokens(r, q), layoutPlain)
		fmt.Println(strings.ReplaceAll(s, "\n", " "))
	}
}

func parseMain() {
	b, _ := os.ReadFile("/dev/stdin")
	q, err := parser.Parse(string(b))
	if err != nil {
		fmt.Println(err)
		return
	}
	j, err := json.MarshalIndent(q, "", " ")
	fmt.Println(string(j), err)
}

func extraMain(args []string) bool {
	switch args[0] {
	case "order":
		orderChild(atoi(args[1]), int(atoi(args[2])), args[3])
	case "envchild":
		envChild(args[1], args[2])
	case "jsonserial":
		jsonSerial(atoi(args[1]), int(atoi(args[2])))
	case "jsonworker":
		jsonWorker(atoi(args[1]), int(atoi(args[2])), args[3])
	case "raceserial":
		raceSerial(atoi(args[1]), int(atoi(args[2])))
	case "raceworker":
		b, err := os.ReadFile(args[3])
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		raceWorker(atoi(args[1]), int(atoi(args[2])), strings.Fields(string(b)))
	default:
		return false
	}
	return true
}
