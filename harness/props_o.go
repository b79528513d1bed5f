package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
)

// C32: the outcome does not depend on the platform or the environment. The same texts are parsed by
// processes with other settings, and by other builds of the parser.

var countPat = regexp.MustCompile(`\bN: (-?\d+)`)

var longNum = regexp.MustCompile(`[0-9_]{10}`)

// envOutcome is what is observed of a text. wide tells that a number in it needs more than 32 bits.
func envOutcome(s string) (o string, wide bool) {
	defer func() {
		if e := recover(); e != nil {
			o = fmt.Sprint("panic: ", e)
		}
	}()
	q, err := parser.Parse(s)
	if err != nil {
		return "error " + err.Error(), false
	}
	plainTime(q)
	o = "query " + dump(q, dumpOpts{})
	for _, m := range countPat.FindAllStringSubmatch(o, -1) {
		if n, err := strconv.ParseInt(m[1], 10, 64); err == nil && (n > math.MaxInt32 || n < math.MinInt32) {
			wide = true
		}
	}
	if q.Meta.MaxQueryDepth <= 4 {
		doc := encoded(q)
		o += "\ndocument " + doc + "\ndecoded " + decoded([]byte(doc), false)
	}
	return o, wide
}

// envChild prints the outcome of one text, or a hash for each of them.
func envChild(file, only string) {
	b, err := os.ReadFile(file)
	var l [][]byte
	if err == nil {
		err = json.Unmarshal(b, &l)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if only != "" {
		k, _ := strconv.Atoi(only)
		o, _ := envOutcome(string(l[k]))
		fmt.Print(o)
		return
	}
	for _, s := range l {
		o, wide := envOutcome(string(s))
		fmt.Printf("%s %x %d\n", o[:1], hash64(o), b2i(wide))
	}
}

func envTexts(seed int64, n int) [][]byte {
	var l [][]byte
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(caseSeed(seed, "env", i)))
		var s string
		switch r.Intn(8) {
		case 0:
			if s, _ = hostile(r); len(s) > 4000 {
				s = s[:4000]
			}
		case 1:
			s = semanticSoup(r)
		case 2, 3:
			s, _ = layout(r, genText(r), randStyle(r))
		default:
			c := defaultCfg()
			c.MaxDepth = 1 + r.Intn(2)
			c.Where, c.CondSize = 90, 8
			s, _ = layout(r, tokens(r, newGen(r, c).query()), randStyle(r))
		}
		l = append(l, []byte(s))
	}
	return l
}

type envCfg struct {
	name string
	env  []string
	bin  string
	dir  string
	bits int
}

func environments(p *parentRun) {
	self, _ := os.Executable()
	zi := "ZONEINFO=" + filepath.Join(runtime.GOROOT(), "lib", "time", "zoneinfo.zip")
	if z := os.Getenv("VERIF_ZONEINFO"); z != "" {
		zi = "ZONEINFO=" + z
	}
	cfgs := []envCfg{
		{name: "time zone UTC", env: []string{"TZ=UTC"}},
		{name: "time zone Asia/Tokyo", env: []string{"TZ=Asia/Tokyo", zi}},
		{name: "time zone America/St_Johns", env: []string{"TZ=America/St_Johns", zi}},
		{name: "one processor, frequent garbage collection", env: []string{"GOMAXPROCS=1", "GOGC=3"}},
		{name: "no garbage collection", env: []string{"GOGC=off", "GOMEMLIMIT=4GiB"}},
		{name: "other language, directory and user", env: []string{"LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "HOME=/nonexistent", "USER=nobody"}, dir: "/"},
	}
	for _, b := range []struct{ name, v string }{{"32-bit build", "VERIF_BIN_386"}, {"build without optimisation", "VERIF_BIN_NOOPT"}, {"build for newer processors", "VERIF_BIN_V3"}} {
		f := os.Getenv(b.v)
		if f == "" {
			p.err = fmt.Errorf("no %s", b.name)
			return
		}
		c := envCfg{name: b.name, bin: f, bits: 64}
		if b.v == "VERIF_BIN_386" {
			c.bits = 32
		}
		if b.v == "VERIF_BIN_V3" {
			info, _ := os.ReadFile("/proc/cpuinfo")
			if !strings.Contains(string(info), "avx2") || !strings.Contains(string(info), "bmi2") || !strings.Contains(string(info), " fma ") {
				continue
			}
		}
		cfgs = append(cfgs, c)
	}
	n := 1600
	if p.tier == "thorough" {
		n = 40000
	}
	texts := envTexts(p.seed, n)
	file := filepath.Join(p.work, "texts")
	b, _ := json.Marshal(texts)
	os.WriteFile(file, b, 0o644)
	defer os.Remove(file)
	run := func(c envCfg, only string) (string, error) {
		bin := c.bin
		if bin == "" {
			bin = self
		}
		o, e, err := runLimited(400*time.Second, c.env, bin, "envchild", file, only)
		if err != nil {
			err = fmt.Errorf("%v: %s", err, tail(e, 2000))
		}
		return o, err
	}
	want, err := run(envCfg{}, "")
	if err != nil {
		p.fail(failure{Index: -2, Kind: "crash", Detail: err.Error()})
		return
	}
	wants := strings.Split(strings.TrimSpace(want), "\n")
	if len(wants) != n {
		p.err = fmt.Errorf("%d outcomes of %d texts", len(wants), n)
		return
	}
	for k, s := range texts {
		if wants[k][0] == 'q' && len(s) > 60 {
			p.seen[hash64(string(s))] = struct{}{}
			if len(p.res.Samples) < 4 {
				p.res.Samples = append(p.res.Samples, head(string(s), 600))
			}
		}
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	for _, c := range cfgs {
		wg.Add(1)
		sem <- struct{}{}
		go func(c envCfg) {
			defer func() { <-sem; wg.Done() }()
			out, err := run(c, "")
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				p.fail(failure{Index: -2, Kind: "crash", Detail: c.name + ": " + err.Error()})
				return
			}
			got := strings.Split(strings.TrimSpace(out), "\n")
			fails := 0
			for k := range wants {
				p.res.Evals++
				p.res.Counters["texts compared: "+c.name]++
				if k < len(got) && got[k] == wants[k] {
					if got[k][0] == 'q' {
						p.res.Counters["results compared"]++
					}
					continue
				}
				if c.bits == 32 && k < len(got) && got[k][0] == 'e' && (strings.HasSuffix(wants[k], " 1") || wants[k][0] == 'e' && longNum.Match(texts[k])) {
					p.res.Counters["counts of more than 32 bits rejected by the 32-bit build"]++
					continue
				}
				if fails++; fails > 5 {
					continue
				}
				a, _ := run(envCfg{}, strconv.Itoa(k))
				b, _ := run(c, strconv.Itoa(k))
				p.fail(failure{Index: -2, Kind: "environment", Input: string(texts[k]), Detail: "with another environment (" + c.name + "), the outcome differs: " + firstDiff(a, b)})
			}
		}(c)
	}
	wg.Wait()
}

func init() {
	register(&prop{
		id: "C32", quick: 1, thorough: 1,
		rule: "A case is a text parsed, and its result encoded and decoded, under one setting or build. Counted as distinct non-trivial are the accepted texts of more than 60 bytes.",
		assume: []string{"the builds are those the installed toolchain makes for processors that run here: amd64 (two levels, with and without optimisation) and 386",
			"a date literal with a count of more than 32 bits is rejected by the 32-bit build"},
		minObs: map[string]int64{"results compared": 5000, "texts compared: 32-bit build": 1500, "texts compared: time zone Asia/Tokyo": 1500, "texts compared: build without optimisation": 1500},
		parent: environments,
	})
}
