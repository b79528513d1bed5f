package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"
)

// known-findings.txt: lines "known: property=<id> <what fails> | <input>" are inputs for which the
// code is known to break the property. A listed input that fails is reported as a
// KNOWN-FINDING; everything else that fails is a violation. Lines "fixed: ..." are a record only.

type knownFinding struct{ prop, what, input string }

func loadKnown() ([]knownFinding, error) {
	file := os.Getenv("VERIF_KNOWN")
	if file == "" {
		return nil, nil
	}
	f, err := os.Open(file)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var r []knownFinding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := sc.Text()
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		i := strings.Index(l, " ")
		j := strings.Index(l, " | ")
		if i < 0 || j < i {
			return nil, fmt.Errorf("bad line in %s: %s", file, l)
		}
		r = append(r, knownFinding{l[:i], l[i+1 : j], l[j+3:]})
	}
	return r, sc.Err()
}

// knownFindings runs the oracle on the listed inputs of the property.
func knownFindings(x *T, oracle func(x *T, src string)) {
	l, err := loadKnown()
	if err != nil {
		x.failKind("setup", "%v", err)
		return
	}
	for _, k := range l {
		if k.prop != x.p.id {
			continue
		}
		x.count("known findings tried", 1)
		x.known, x.failN = k.what, 0
		oracle(x, k.input)
		if x.failN > 0 {
			x.res.Known = append(x.res.Known, k.what)
		}
		x.known = ""
	}
}
