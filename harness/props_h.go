package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/shellyln/go-open-soql-parser/soql/parser"
)

// The WebAssembly build, as published for JavaScript, against the native build.

type wasmProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	err *strings.Builder
}

var theWasm *wasmProc

func startWasm() (*wasmProc, error) {
	f, ex, dr := os.Getenv("VERIF_WASM"), os.Getenv("VERIF_WASM_EXEC"), os.Getenv("VERIF_WASM_DRIVER")
	if f == "" || ex == "" || dr == "" {
		return nil, fmt.Errorf("no WebAssembly build")
	}
	w := &wasmProc{cmd: exec.Command("node", dr, ex, f), err: &strings.Builder{}}
	w.cmd.Stderr = &limitedWriter{w: w.err, n: 1 << 16}
	var err error
	if w.in, err = w.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := w.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	w.out = bufio.NewReaderSize(o, 1<<20)
	return w, w.cmd.Start()
}

type wasmAnswer struct {
	Type string `json:"type"`
	V    string `json:"v"`
}

// call calls an exported function of the module. The process is started anew after a failure.
func wasmCall(fn string, args ...string) (a wasmAnswer, err error) {
	if theWasm == nil {
		if theWasm, err = startWasm(); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	w := theWasm
	if args == nil {
		args = []string{}
	}
	b, _ := json.Marshal(map[string]interface{}{"fn": fn, "args": args})
	_, err = w.in.Write(append(b, '\n'))
	if err == nil {
		var line []byte
		if line, err = w.out.ReadBytes('\n'); err == nil {
			err = json.Unmarshal(line, &a)
		}
	}
	if err != nil {
		w.in.Close()
		w.cmd.Wait()
		err = fmt.Errorf("the module died: %v\n%s", err, tail(w.err.String(), 1500))
		theWasm = nil
	}
	return a, err
}

var (
	metaDate    = regexp.MustCompile(`(?m)^    "date": "[^"]*",?$`)
	metaElapsed = regexp.MustCompile(`(?m)^    "elapsedTime": \d+,?\n`)
)

func untimed(s string) string {
	return metaElapsed.ReplaceAllString(metaDate.ReplaceAllString(s, "date"), "")
}

// native is what the module has to return for the text.
func native(s string) string {
	q, err := parser.Parse(s)
	if err != nil {
		return err.Error()
	}
	b, err := json.Marshal(q)
	if err != nil {
		return err.Error()
	}
	var buf bytes.Buffer
	if err := json.Indent(&buf, b, "", "  "); err != nil {
		return err.Error()
	}
	return buf.String()
}

func sameAsNative(x *T, s string) {
	if !utf8.ValidString(s) {
		s = strings.ToValidUTF8(s, "\ufffd")
	}
	q, _, ok := x.parse(s)
	if !ok {
		return
	}
	if q != nil && q.Meta.MaxQueryDepth > 6 {
		// a subquery is written out twice per level above it
		x.count("too deep to write out", 1)
		return
	}
	want := native(s)
	a, err := wasmCall("parseSoql", s)
	if err != nil {
		x.failKind("crash", "%v", err)
		return
	}
	if a.Type != "string" {
		x.failf("parseSoql returned a value of the type %s: %s", a.Type, head(a.V, 600))
		return
	}
	if q == nil {
		x.count("error texts compared", 1)
	} else {
		x.count("results compared", 1)
		x.count("bytes of results compared", len(want))
		if len(s) > 60 {
			x.nontrivial(s)
		}
	}
	g, w := untimed(a.V), untimed(want)
	if g != w {
		x.failf("parseSoql and the native parser differ: %s", firstDiff(w, g))
	}
}

func init() {
	register(&prop{
		id: "C21", quick: 2400, thorough: 40000,
		rule: "A case is a text given to parseSoql of the WebAssembly build, run by Node.js, and to the native parser. It counts as non-trivial when it is accepted and longer than 60 bytes; distinct by text.",
		assume: []string{"texts are valid Unicode, as JavaScript strings without lone surrogates are",
			"results with more than six levels of subqueries are not compared: their JSON text doubles with each level",
			"the lines with the date and the duration of the call differ legitimately"},
		minObs: map[string]int64{"results compared": 1000, "error texts compared": 200},
		run: func(x *T) {
			r := x.r
			var s string
			switch k := r.Intn(10); {
			case k < 6:
				cfg := smallCfg(r)
				cfg.NonFinite = r.Intn(4) == 0
				cfg.MaxDepth = []int{1, 2, 2, 2, 3}[r.Intn(5)]
				cfg.Boost = 1
				s = generate(x, cfg, randStyle(r)).src
			case k < 7:
				t := genText(r)
				if len(t) > 3 {
					t = t[:r.Intn(len(t))]
				}
				s, _ = layout(r, t, randStyle(r))
			default:
				s, _ = hostile(r)
				if len(s) > 3000 {
					s = s[:3000]
				}
			}
			sameAsNative(x, s)
		},
		once: func(x *T) {
			for _, s := range []string{"", " ", "select Id from A", "select Id from A where x = 'é😀\\u{1F600}'", "select \"名前\" from \"😀\"", "select Id from A where x = NaN", "select Id from A where (x = '\n", "select Id\n\tfrom A where x = 'é' and y == 1"} {
				sameAsNative(x, s)
			}
			for _, n := range []int{50, 200, 400, 499, 501, 700, 3000, 20000} {
				x.count("nested texts", 1)
				sameAsNative(x, "select Id from A where "+strings.Repeat("(", n)+"x = 1"+strings.Repeat(")", n))
				sameAsNative(x, "select "+strings.Repeat("f(", n)+"x"+strings.Repeat(")", n)+" from A")
			}
			x.begin("(no argument)")
			a, err := wasmCall("parseSoql")
			b, err2 := wasmCall("parseSoql", "")
			if err != nil || err2 != nil || a.Type != "string" || a != b || a.V != native("") {
				x.failf("parseSoql() without an argument: %v %v %v", a, err, err2)
			}
			x.begin("(getVersion)")
			if a, err := wasmCall("getVersion"); err != nil || a.Type != "string" {
				x.failf("getVersion(): %v %v", a, err)
			}
			// the module goes on after whatever it was given
			r := rand.New(rand.NewSource(x.seed))
			for i := 0; i < 40; i++ {
				s, _ := hostile(r)
				if len(s) < 3000 {
					sameAsNative(x, s)
				}
				sameAsNative(x, "select Id, Owner.Name n from A where x in (select y from B) order by n")
			}
		},
	})
}
