package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
)

// Concurrent use. The parser is built with the race detector and called by several goroutines of
// a fresh process at once: its lazily built state is then set up under contention.

type raceReport struct {
	Parses, Overlapping, MaxInFlight int64
	Pairs                            map[string]int64 // how many calls were under way when one began
	Counts                           map[string]int64
	Texts                            []string
	Mismatch                         []failure
}

func raceTexts(seed int64, idx int) []string {
	r := rand.New(rand.NewSource(caseSeed(seed, "race", idx)))
	n := 12 + r.Intn(30)
	out := make([]string, n)
	for i := range out {
		if r.Intn(4) == 0 {
			out[i], _ = hostile(r)
			if len(out[i]) > 4000 {
				out[i] = out[i][:4000]
			}
		} else {
			out[i], _ = layout(r, genText(r), randStyle(r))
		}
	}
	return out
}

// outcome is the result of one call as text.
func outcome(s string, overwrite bool) (o string) {
	defer func() {
		if e := recover(); e != nil {
			o = fmt.Sprint("panic: ", e)
		}
	}()
	q, err := parser.Parse(s)
	if err != nil {
		return "error " + err.Error()
	}
	o = "query " + dump(q, dumpOpts{skip: skipVolatile})
	if overwrite {
		scribble(reflect.ValueOf(q), map[uintptr]bool{})
	}
	return o
}

func raceSerial(seed int64, idx int) {
	var h []string
	for _, s := range raceTexts(seed, idx) {
		h = append(h, fmt.Sprintf("%x", hash64(outcome(s, false))))
	}
	fmt.Println(strings.Join(h, " "))
}

func raceWorker(seed int64, idx int, want []string) {
	texts := raceTexts(seed, idx)
	r := rand.New(rand.NewSource(caseSeed(seed, "raceplan", idx)))
	runtime.GOMAXPROCS([]int{2, 4, 8, 8, 16}[r.Intn(5)])
	g := 2 + r.Intn(15)
	rep := raceReport{Pairs: map[string]int64{}, Texts: texts}
	same := r.Intn(3) == 0 // all of them begin with the same text
	rounds := 2
	for round := 0; round < rounds; round++ { // the first one is a cold start
		plans := make([][]int, g)
		over := make([]bool, g)
		gaps := make([]int, g)
		for i := range plans {
			plans[i] = r.Perm(len(texts))
			if same {
				for k := range plans[i] {
					plans[i][k] = k
				}
			}
			if len(plans[i]) > 16 {
				plans[i] = plans[i][:16]
			}
			over[i] = r.Intn(2) == 0
			gaps[i] = r.Intn(4)
		}
		type obs struct {
			text   int
			hash   string
			flight int64
		}
		got := make([][]obs, g)
		var flight int64
		start := make(chan struct{})
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				<-start
				for _, k := range plans[i] {
					n := atomic.AddInt64(&flight, 1)
					o := outcome(texts[k], over[i])
					atomic.AddInt64(&flight, -1)
					got[i] = append(got[i], obs{k, fmt.Sprintf("%x", hash64(o)), n})
					for y := 0; y < gaps[i]; y++ {
						runtime.Gosched()
					}
				}
			}(i)
		}
		close(start)
		wg.Wait()
		for i := range got {
			for _, o := range got[i] {
				rep.Parses++
				if o.flight > 1 {
					rep.Overlapping++
				}
				if o.flight > rep.MaxInFlight {
					rep.MaxInFlight = o.flight
				}
				rep.Pairs[strconv.FormatInt(o.flight, 10)]++
				if o.hash != want[o.text] && len(rep.Mismatch) < 5 {
					rep.Mismatch = append(rep.Mismatch, failure{Input: texts[o.text], Kind: "concurrency",
						Detail: fmt.Sprintf("the result of a call among %d concurrent ones differs from the result of a call alone", g)})
				}
			}
		}
		// what the concurrent calls leave behind
		for k, s := range texts {
			if h := fmt.Sprintf("%x", hash64(outcome(s, false))); h != want[k] && len(rep.Mismatch) < 5 {
				rep.Mismatch = append(rep.Mismatch, failure{Input: s, Kind: "concurrency", Detail: "after concurrent calls, the result of a call alone differs"})
			}
		}
	}
	b, _ := json.Marshal(rep)
	fmt.Println(string(b))
}

func runLimited(limit time.Duration, env []string, name string, args ...string) (out, errs string, err error) {
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, name, args...)
	cmd.Env = append(os.Environ(), env...)
	var o bytes.Buffer
	var e strings.Builder
	cmd.Stdout = &o
	cmd.Stderr = &limitedWriter{w: &e, n: 1 << 20}
	err = cmd.Run()
	if ctx.Err() != nil {
		err = ctx.Err()
	}
	return o.String(), e.String(), err
}

// concurrency runs processes that call the functions of the parser concurrently; mode tells which.
func concurrency(p *parentRun, mode string) {
	bin := os.Getenv("VERIF_RACE_BIN")
	if bin == "" {
		p.err = fmt.Errorf("no build with the race detector")
		return
	}
	n := 40
	if p.tier == "thorough" {
		n = 1500
	}
	self, _ := os.Executable()
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	flights := map[string]int64{}
	for i := 0; i < n; i++ {
		if p.only != nil && *p.only != i {
			continue
		}
		mu.Lock()
		stop := len(p.res.Fails) >= 5
		mu.Unlock()
		if stop {
			break
		}
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer func() { <-sem; wg.Done() }()
			args := []string{strconv.FormatInt(p.seed, 10), strconv.Itoa(i)}
			want, e, err := runLimited(150*time.Second, nil, self, append([]string{mode + "serial"}, args...)...)
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				p.fail(failure{Index: i, Kind: "crash", Detail: fmt.Sprintf("a process which makes one call after another failed: %v\n%s", err, tail(e, 2000))})
				return
			}
			mu.Unlock()
			wf := filepath.Join(p.work, "want"+strconv.Itoa(i))
			os.WriteFile(wf, []byte(want), 0o644)
			o, e, err := runLimited(150*time.Second, []string{"GORACE=exitcode=66 halt_on_error=1 history_size=3", "GOTRACEBACK=single"}, bin, append(append([]string{mode + "worker"}, args...), wf)...)
			os.Remove(wf)
			mu.Lock()
			if strings.Contains(e, "WARNING: DATA RACE") {
				p.fail(failure{Index: i, Kind: "data race", Input: strings.Join(raceTexts(p.seed, i)[:3], "\n"), Detail: head(e, 4000)})
				return
			}
			if err != nil {
				p.fail(failure{Index: i, Kind: "crash", Detail: fmt.Sprintf("a process with concurrent calls failed: %v\n%s", err, tail(e, 2500))})
				return
			}
			var rep raceReport
			if err := json.Unmarshal([]byte(o), &rep); err != nil {
				p.err = err
				return
			}
			p.res.Evals += rep.Parses
			c := p.res.Counters
			c["processes started cold"]++
			c["concurrent calls"] += rep.Parses
			for k, v := range rep.Counts {
				c[k] += v
			}
			c["calls that began during another one"] += rep.Overlapping
			if rep.MaxInFlight > c["max. calls at once"] {
				c["max. calls at once"] = rep.MaxInFlight
			}
			for k, v := range rep.Pairs {
				flights[k] += v
			}
			for _, s := range rep.Texts {
				if _, ok := p.seen[hash64(s)]; !ok {
					p.seen[hash64(s)] = struct{}{}
					if len(p.res.Samples) < 4 {
						p.res.Samples = append(p.res.Samples, head(s, 600))
					}
				}
			}
			for _, f := range rep.Mismatch {
				f.Index = i
				p.fail(f)
			}
		}(i)
	}
	wg.Wait()
	p.extra["calls_by_number_under_way"] = flights
}

func init() {
	register(&prop{
		id: "C19", quick: 40, thorough: 1500,
		rule: "A case is a call of Parse by one of 2 to 16 goroutines that begin at once in a fresh process built with the race detector. Counted as distinct non-trivial are the texts parsed this way.",
		assume: []string{"the race detector reports accesses that the observed synchronisation does not order; code that no goroutine executed in the runs is not judged",
			"the calls share no data: a caller that shares one result between goroutines has to synchronise by itself"},
		minObs: map[string]int64{"calls that began during another one": 1000, "processes started cold": 30},
		parent: func(p *parentRun) { concurrency(p, "race") },
	})
}
