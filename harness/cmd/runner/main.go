// Command runner executes one harness natively on recorded inputs.
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime/debug"

	"symh/sym"
)

var table = map[string]func(){}

type request struct {
	Harness string      `json:"harness"`
	Tier    int         `json:"tier"`
	Tries   int         `json:"tries"`
	Dir     string      `json:"dir"`
	Inputs  []sym.Input `json:"inputs"`
}

type response struct {
	Failures []string  `json:"failures"`
	Observed []sym.Obs `json:"observed"`
	Panic    string    `json:"panic"`
	Stack    string    `json:"stack"`
	Diverged string    `json:"diverged"`
}

func one(f func(), in []sym.Input) (r response) {
	sym.Reset(in)
	defer func() {
		r.Failures = sym.Failures
		r.Observed = sym.Observed
		if p := recover(); p != nil {
			if s, ok := p.(sym.Stop); ok {
				r.Diverged = s.Why
				return
			}
			r.Panic = fmt.Sprint(p)
			r.Stack = string(debug.Stack())
		}
	}()
	f()
	return
}

func main() {
	log.SetOutput(io.Discard)
	var rq request
	if err := json.NewDecoder(os.Stdin).Decode(&rq); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f := table[rq.Harness]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no harness", rq.Harness)
		os.Exit(2)
	}
	sym.TierN = rq.Tier
	sym.Dir = rq.Dir
	var r response
	for i := 0; i < rq.Tries || i == 0; i++ {
		r = one(f, rq.Inputs)
		if len(r.Failures) > 0 || r.Panic != "" {
			break
		}
	}
	b, _ := json.Marshal(r)
	fmt.Printf("\n@@RESULT %s\n", b)
}
