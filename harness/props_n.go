package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
	t "github.com/shellyln/go-open-soql-parser/soql/parser/types"
)

// C31: encoding and decoding by several goroutines at once, some of which encode the same result.
// What is to come out is made by another process, which does one after another.

type jsonCase struct {
	Text    []byte
	Doc     []byte // the document of the result
	Decoded string // what is read from it
	Bad     []byte // a damaged document
	BadOut  string
}

// plainTime sets what depends on the time to fixed values.
func plainTime(q *t.SoqlQuery) {
	q.Meta.Date = time.Unix(1700000000, 0).UTC()
	q.Meta.ElapsedTime = 0
}

// decoded describes what is read from a document.
func decoded(doc []byte, overwrite bool) (o string) {
	defer func() {
		if e := recover(); e != nil {
			o = fmt.Sprint("panic: ", e)
		}
	}()
	b := append([]byte{}, doc...)
	q := &t.SoqlQuery{}
	err := json.Unmarshal(b, q)
	for i := range b {
		b[i] = '#' // the result must not depend on the buffer from here on
	}
	if err != nil {
		return "error " + err.Error()
	}
	again, err := json.Marshal(q)
	o = fmt.Sprintf("query %x, again %x %v", hash64(dump(q, dumpOpts{})), hash64(string(again)), err)
	if overwrite {
		scribble(reflect.ValueOf(q), map[uintptr]bool{})
	}
	return o
}

func encoded(q *t.SoqlQuery) (o string) {
	defer func() {
		if e := recover(); e != nil {
			o = fmt.Sprint("panic: ", e)
		}
	}()
	b, err := json.Marshal(q)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

func jsonSerial(seed int64, idx int) {
	r := rand.New(rand.NewSource(caseSeed(seed, "json", idx)))
	var out []jsonCase
	for _, s := range raceTexts(seed, idx) {
		q, err := parser.Parse(s)
		if err != nil || q.Meta.MaxQueryDepth > 6 { // documents double with each level of conditional subqueries
			continue
		}
		plainTime(q)
		c := jsonCase{Text: []byte(s)}
		if c.Doc, err = json.Marshal(q); err != nil || len(c.Doc) > 100000 {
			continue
		}
		c.Decoded = decoded(c.Doc, false)
		c.Bad = []byte(mutateBytes(r, string(c.Doc)))
		c.BadOut = decoded(c.Bad, false)
		out = append(out, c)
	}
	b, _ := json.Marshal(out)
	fmt.Println(string(b))
}

func jsonWorker(seed int64, idx int, file string) {
	b, err := os.ReadFile(file)
	var cs []jsonCase
	if err == nil {
		err = json.Unmarshal(b, &cs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := rand.New(rand.NewSource(caseSeed(seed, "jsonplan", idx)))
	runtime.GOMAXPROCS([]int{2, 4, 8, 8, 16}[r.Intn(5)])
	rep := raceReport{Pairs: map[string]int64{}, Counts: map[string]int64{}}
	shared := make([]*t.SoqlQuery, len(cs))
	before := make([]string, len(cs))
	for i := range cs {
		rep.Texts = append(rep.Texts, string(cs[i].Text))
		if shared[i], err = parser.Parse(string(cs[i].Text)); err != nil {
			rep.Mismatch = append(rep.Mismatch, failure{Input: rep.Texts[i], Kind: "concurrency", Detail: "accepted by one process and rejected by another one"})
			cs = nil
			break
		}
		plainTime(shared[i])
		before[i] = dump(shared[i], dumpOpts{})
	}
	g := 2 + r.Intn(15)
	var mu sync.Mutex
	differs := func(k int, what, got, want string) {
		mu.Lock()
		defer mu.Unlock()
		if len(rep.Mismatch) < 5 {
			rep.Mismatch = append(rep.Mismatch, failure{Input: rep.Texts[k], Kind: "concurrency",
				Detail: fmt.Sprintf("%s, among calls of %d goroutines, differs from that alone\n%s", what, g, firstDiff(got, want))})
		}
	}
	for round := 0; round < 2 && len(cs) > 0; round++ { // the first one is a cold start
		var flight int64
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(r *rand.Rand) {
				defer wg.Done()
				<-start
				for n := 0; n < 16; n++ {
					k := r.Intn(len(cs))
					if n == 0 {
						k = 0
					}
					c := cs[k]
					f := atomic.AddInt64(&flight, 1)
					var what string
					switch r.Intn(5) {
					case 0, 1:
						what = "documents written of a result in common"
						if o := encoded(shared[k]); o != string(c.Doc) {
							differs(k, "the document of a result", o, string(c.Doc))
						}
					case 2:
						what = "documents read"
						if o := decoded(c.Doc, r.Intn(2) == 0); o != c.Decoded {
							differs(k, "the query read from a document", o, c.Decoded)
						}
					case 3:
						what = "damaged documents read"
						if o := decoded(c.Bad, r.Intn(2) == 0); o != c.BadOut {
							differs(k, "the outcome of reading the damaged document\n"+head(string(c.Bad), 3000)+"\n", o, c.BadOut)
						}
					case 4:
						what = "documents written of a new result"
						q, err := parser.Parse(string(c.Text))
						if err != nil {
							differs(k, "the result", err.Error(), "")
							break
						}
						plainTime(q)
						if o := encoded(q); o != string(c.Doc) {
							differs(k, "the document of a new result", o, string(c.Doc))
						}
						scribble(reflect.ValueOf(q), map[uintptr]bool{})
					}
					atomic.AddInt64(&flight, -1)
					mu.Lock()
					rep.Counts[what]++
					rep.Parses++
					if f > 1 {
						rep.Overlapping++
					}
					if f > rep.MaxInFlight {
						rep.MaxInFlight = f
					}
					rep.Pairs[fmt.Sprint(f)]++
					mu.Unlock()
				}
			}(rand.New(rand.NewSource(r.Int63())))
		}
		close(start)
		wg.Wait()
		for i := range cs {
			if o := dump(shared[i], dumpOpts{}); o != before[i] {
				differs(i, "a result of which documents were written", o, before[i])
			}
			if o := encoded(shared[i]); o != string(cs[i].Doc) {
				differs(i, "the document of a result, written afterwards", o, string(cs[i].Doc))
			}
		}
	}
	out, _ := json.Marshal(rep)
	fmt.Println(string(out))
}

func init() {
	register(&prop{
		id: "C31", quick: 40, thorough: 1500,
		rule: "A case is the encoding of a result, in common with other goroutines or not, or the decoding of a document, intact or damaged, by one of 2 to 16 goroutines that begin at once in a fresh process built with the race detector. Counted as distinct non-trivial are the texts the documents are from.",
		assume: []string{"the race detector reports accesses that the observed synchronisation does not order; code that no goroutine executed in the runs is not judged",
			"goroutines share results only for encoding"},
		minObs: map[string]int64{"calls that began during another one": 1000, "processes started cold": 30, "documents written of a result in common": 1000, "documents read": 500, "damaged documents read": 500, "documents written of a new result": 500},
		parent: func(p *parentRun) { concurrency(p, "json") },
	})
}
