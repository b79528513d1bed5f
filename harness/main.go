// Command verifharness runs the real parser under generated workloads and judges every
// execution with the monitor of one property.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type prop struct {
	id       string
	quick    int // number of cases
	thorough int
	rule     string
	assume   []string
	run      func(x *T)         // one case (nil: no sharded workload)
	once     func(x *T)         // once per run, in its own process
	parent   func(p *parentRun) // in the parent process, after the shards
	shards   int
	minObs   map[string]int64 // a run that observed less than this decides nothing
}

var props = map[string]*prop{}

func register(p *prop) { props[p.id] = p }

type failure struct {
	Index  int    `json:"index"`
	Input  string `json:"input"`
	Detail string `json:"detail"`
	Kind   string `json:"kind"`
	Known  string `json:"known,omitempty"`
}

type shardResult struct {
	Evals    int64            `json:"evals"`
	Counters map[string]int64 `json:"counters"`
	Hashes   []uint64         `json:"hashes"`
	Samples  []string         `json:"samples"`
	Fails    []failure        `json:"fails"`
	Known    []string         `json:"known"`
}

type parentRun struct {
	p     *prop
	tier  string
	seed  int64
	work  string
	res   *shardResult
	extra map[string]interface{}
	seen  map[uint64]struct{}
	only  *int // replay of one case
	err   error
}

func (p *parentRun) fail(f failure) { p.res.Fails = append(p.res.Fails, f) }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: verifharness run ID TIER SEED EVIDENCEDIR | child ... | replay FILE | list | gen N SEED")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(runProperty(os.Args[2], os.Args[3], atoi(os.Args[4]), os.Args[5]))
	case "child":
		childMain(os.Args[2], os.Args[3], atoi(os.Args[4]), int(atoi(os.Args[5])), int(atoi(os.Args[6])), os.Args[7])
	case "replay":
		os.Exit(replayMain(os.Args[2]))
	case "gen":
		genMain(int(atoi(os.Args[2])), atoi(os.Args[3]))
	case "parse":
		parseMain()
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	default:
		if !extraMain(os.Args[1:]) {
			os.Exit(2)
		}
	}
}

func atoi(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		fmt.Fprintln(os.Stderr, "bad number", s)
		os.Exit(2)
	}
	return n
}

func runProperty(id, tier string, seed int64, evdir string) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	work, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	cov := filepath.Join(work, "cov")
	os.Mkdir(cov, 0o755)

	total := &shardResult{Counters: map[string]int64{}}
	hashes := map[uint64]struct{}{}
	pr := &parentRun{p: p, tier: tier, seed: seed, work: work, res: total, extra: map[string]interface{}{}, seen: hashes}

	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if p.shards > 0 {
		n = p.shards
	}
	var jobs []int
	if p.run != nil {
		for i := 0; i < n; i++ {
			jobs = append(jobs, i)
		}
	}
	if p.once != nil {
		jobs = append(jobs, -1)
	}

	self, _ := os.Executable()
	var mu sync.Mutex
	var wg sync.WaitGroup
	var broken []string
	for _, sh := range jobs {
		wg.Add(1)
		go func(sh int) {
			defer wg.Done()
			dir := filepath.Join(work, "s"+strconv.Itoa(sh))
			os.Mkdir(dir, 0o755)
			cmd := exec.Command(self, "child", id, tier, strconv.FormatInt(seed, 10), strconv.Itoa(sh), strconv.Itoa(n), dir)
			cmd.Env = append(os.Environ(), "GOCOVERDIR="+cov, "GOTRACEBACK=single")
			var out strings.Builder
			cmd.Stdout = os.Stderr
			cmd.Stderr = &limitedWriter{w: &out, n: 1 << 20}
			err := cmd.Run()
			mu.Lock()
			defer mu.Unlock()
			r := &shardResult{}
			b, rerr := os.ReadFile(filepath.Join(dir, "result.json"))
			if rerr == nil {
				rerr = json.Unmarshal(b, r)
			}
			if rerr != nil {
				// The process died: attribute it to the input being processed.
				idx, in, kind := readCurrent(dir)
				msg := tail(out.String(), 3000)
				if in == "" && idx < 0 {
					broken = append(broken, fmt.Sprintf("shard %d died before the first case: %v\n%s", sh, err, msg))
					return
				}
				if kind == "" {
					kind = "crash"
				}
				if strings.Contains(fmt.Sprint(err), "signal: killed") && kind == "crash" {
					broken = append(broken, fmt.Sprintf("shard %d was killed (out of memory?) at case %d", sh, idx))
					return
				}
				total.Fails = append(total.Fails, failure{Index: idx, Input: in, Kind: kind,
					Detail: fmt.Sprintf("the process running the parser died (%v)\n%s", err, head(msg, 3000))})
				return
			}
			total.Evals += r.Evals
			for k, v := range r.Counters {
				if strings.HasPrefix(k, "max.") {
					if v > total.Counters[k] {
						total.Counters[k] = v
					}
				} else {
					total.Counters[k] += v
				}
			}
			for _, h := range r.Hashes {
				hashes[h] = struct{}{}
			}
			if len(total.Samples) < 6 {
				total.Samples = append(total.Samples, r.Samples...)
			}
			total.Fails = append(total.Fails, r.Fails...)
			total.Known = append(total.Known, r.Known...)
		}(sh)
	}
	wg.Wait()
	if p.parent != nil && len(broken) == 0 {
		p.parent(pr)
		if pr.err != nil {
			broken = append(broken, pr.err.Error())
		}
	}

	known := map[string]bool{}
	var fails []failure
	for _, f := range total.Fails {
		if f.Known != "" {
			known[f.Known] = true
			continue
		}
		fails = append(fails, f)
	}
	for _, k := range total.Known {
		known[k] = true
	}
	var kl []string
	for k := range known {
		kl = append(kl, k)
	}
	sort.Strings(kl)

	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	coverage := map[string]interface{}{
		"evaluations":         total.Evals,
		"distinct_nontrivial": len(hashes),
		"rule":                p.rule,
		"samples":             total.Samples,
		"observed":            total.Counters,
	}
	for k, v := range pr.extra {
		coverage[k] = v
	}
	if c := coverPercent(cov); c != nil {
		coverage["statement_coverage"] = c
	}
	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": coverage, "assumptions": append([]string{}, p.assume...),
		"wall_s": time.Since(start).Seconds(), "violations": len(fails),
	}
	if len(kl) > 0 {
		coverage["known_findings_seen"] = kl
	}
	os.MkdirAll(evdir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}

	if len(fails) > 0 {
		sort.SliceStable(fails, func(i, j int) bool { return len(fails[i].Input) < len(fails[j].Input) })
		f := fails[0]
		rd := filepath.Join(evdir, "replays")
		os.MkdirAll(rd, 0o755)
		rp := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", id, tier, f.Index))
		b, _ := json.MarshalIndent(map[string]interface{}{
			"property": id, "tier": tier, "seed": seed, "index": f.Index, "kind": f.Kind, "input": f.Input, "detail": f.Detail,
			"other_failures": len(fails) - 1,
			"how":            "bash /verif/run.sh replay " + rp,
		}, "", " ")
		os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Printf("property %s: %d failing case(s); the shortest input:\n%s\n%s: %s\n", id, len(fails), head(f.Input, 4000), f.Kind, head(f.Detail, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	if len(broken) > 0 {
		for _, b := range broken {
			fmt.Fprintln(os.Stderr, "INCONCLUSIVE:", b)
		}
		return 2
	}
	for k, v := range p.minObs {
		if total.Counters[k] < v {
			fmt.Fprintf(os.Stderr, "INCONCLUSIVE: observed only %d %q (expected at least %d)\n", total.Counters[k], k, v)
			return 2
		}
	}
	if total.Evals == 0 {
		fmt.Fprintln(os.Stderr, "INCONCLUSIVE: nothing was executed")
		return 2
	}
	for _, k := range kl {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	fmt.Printf("property %s held on %d executions (%d distinct non-trivial), %.1fs\n", id, total.Evals, len(hashes), time.Since(start).Seconds())
	return 0
}

func coverPercent(dir string) map[string]string {
	if ents, err := os.ReadDir(dir); err != nil || len(ents) == 0 {
		return nil
	}
	out, err := exec.Command("go", "tool", "covdata", "percent", "-i="+dir).Output()
	if err != nil {
		return nil
	}
	m := map[string]string{}
	sc := bufio.NewScanner(strings.NewReader(string(out)))
	for sc.Scan() {
		f := strings.Fields(sc.Text())
		if len(f) >= 3 {
			m[strings.TrimPrefix(f[0], "github.com/shellyln/go-open-soql-parser/")] = f[2]
		}
	}
	return m
}

type limitedWriter struct {
	w *strings.Builder
	n int
}

func (l *limitedWriter) Write(b []byte) (int, error) {
	if l.n > 0 {
		k := len(b)
		if k > l.n {
			k = l.n
		}
		l.w.Write(b[:k])
		l.n -= k
	}
	return len(b), nil
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n…\n" + s[len(s)-n/2:]
	}
	return s
}
