package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Check is one run of one property.
type Check struct {
	prop, only, dir, repo, out, tier string
	budget                           float64
	workers                          int
	dbg, list                        bool
	t0                               time.Time
	maxPaths                         int64

	w      *World
	scr    string // scratch directory
	runner string
	runErr error
	runCh  chan struct{}
	known  []knownFinding
	seed   int64
}

type knownFinding struct {
	prop, harness, msg, what string
}

type request struct {
	Harness string     `json:"harness"`
	Tier    int        `json:"tier"`
	Tries   int        `json:"tries"`
	Dir     string     `json:"dir"`
	Inputs  []inputVal `json:"inputs"`
}

type response struct {
	Failures []string `json:"failures"`
	Observed []obsVal `json:"observed"`
	Panic    string   `json:"panic"`
	Stack    string   `json:"stack"`
	Diverged string   `json:"diverged"`
	timeout  bool
	crashed  string
}

func (r *response) bad() bool {
	return len(r.Failures) > 0 || r.Panic != "" || r.timeout || r.crashed != ""
}

func (r *response) why() string {
	switch {
	case len(r.Failures) > 0:
		return strings.Join(r.Failures, "; ")
	case r.Panic != "":
		return "panic: " + r.Panic
	case r.timeout:
		return "does not terminate"
	}
	return r.crashed
}

type violation struct {
	harness string
	cand    *Candidate
	resp    *response
	replay  string
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
}

var harnessRe = regexp.MustCompile(`(?m)^func ([A-Z][0-9]{2,3}_\w+)\(\) \{`)

// buildRunner compiles the harnesses and /repo natively.
func (c *Check) buildRunner() {
	defer close(c.runCh)
	files, _ := filepath.Glob(filepath.Join(c.dir, "props", "*.go"))
	var tb bytes.Buffer
	tb.WriteString("package main\n\nimport \"symh/props\"\n\nfunc init() {\n")
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			c.runErr = err
			return
		}
		for _, m := range harnessRe.FindAllSubmatch(src, -1) {
			fmt.Fprintf(&tb, "\ttable[%q] = props.%s\n", m[1], m[1])
		}
	}
	tb.WriteString("}\n")
	tf := filepath.Join(c.scr, "table.go")
	os.WriteFile(tf, tb.Bytes(), 0644)
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(c.dir, "cmd/runner/table.go"): tf}})
	of := filepath.Join(c.scr, "overlay.json")
	os.WriteFile(of, ov, 0644)
	c.runner = filepath.Join(c.scr, "runner")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", c.runner, "./cmd/runner")
	cmd.Dir = c.dir
	cmd.Env = goEnv()
	if out, err := cmd.CombinedOutput(); err != nil {
		c.runErr = fmt.Errorf("building the native runner: %v\n%s", err, out)
	}
}

// native runs one harness on concrete inputs against the real code.
func (c *Check) native(h string, in []inputVal, tries int, timeout time.Duration) *response {
	<-c.runCh
	if c.runErr != nil {
		return nil
	}
	dir, err := os.MkdirTemp(c.scr, "run")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	rq, _ := json.Marshal(request{h, c.w.tier, tries, dir, in})
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.runner)
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GODEBUG=")
	cmd.Dir = dir
	cmd.Stdin = bytes.NewReader(rq)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	err = cmd.Run()
	var r response
	if ctx.Err() != nil {
		r.timeout = true
		return &r
	}
	b := out.Bytes()
	if i := bytes.LastIndex(b, []byte("\n@@RESULT ")); i >= 0 {
		if json.Unmarshal(b[i+10:], &r) == nil {
			return &r
		}
	}
	r = response{}
	s := errb.String()
	if len(s) > 2000 {
		s = s[:2000]
	}
	r.crashed = fmt.Sprintf("runner died: %v %s", err, s)
	if strings.Contains(s, "fatal error") || strings.Contains(s, "panic") {
		return &r
	}
	return nil
}

func (c *Check) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.out, "known_findings.txt"))
	if err != nil {
		return
	}
	re := regexp.MustCompile(`^known: property=(\S+) harness=(\S+) assert="([^"]*)" (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			c.known = append(c.known, knownFinding{m[1], m[2], m[3], m[4]})
		}
	}
}

// isKnown tells whether every failure of this replay is listed.
func (c *Check) isKnown(h string, r *response) []knownFinding {
	if r.Panic != "" || r.timeout || r.crashed != "" {
		return nil
	}
	var out []knownFinding
	for _, f := range r.Failures {
		ok := false
		for _, k := range c.known {
			if k.prop == c.prop && k.harness == h && k.msg == f {
				out = append(out, k)
				ok = true
			}
		}
		if !ok {
			return nil
		}
	}
	return out
}

func (c *Check) docs() map[string]string {
	d := map[string]string{}
	fset := token.NewFileSet()
	files, _ := filepath.Glob(filepath.Join(c.dir, "props", "*.go"))
	for _, f := range files {
		a, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			continue
		}
		for _, dd := range a.Decls {
			if fd, ok := dd.(*ast.FuncDecl); ok && fd.Doc != nil {
				d[fd.Name.Name] = strings.Join(strings.Fields(fd.Doc.Text()), " ")
			}
		}
	}
	return d
}

var fontName = regexp.MustCompile(`/F[0-9]+ `)
var numTok = regexp.MustCompile(`-?[0-9]+\.[0-9]+`)

// sameObs compares an observation of the executor with a native one; numbers
// printed from symbolic reals are compared as numbers.
func sameObs(a, b obsVal) bool {
	if a.Label != b.Label {
		return false
	}
	if a.Hex == b.Hex {
		return true
	}
	x, _ := hex.DecodeString(a.Hex)
	y, _ := hex.DecodeString(b.Hex)
	// fonts are numbered in any order
	x, y = fontName.ReplaceAll(x, []byte("/F ")), fontName.ReplaceAll(y, []byte("/F "))
	xs, ys := numTok.FindAllString(string(x), -1), numTok.FindAllString(string(y), -1)
	if len(xs) != len(ys) || numTok.ReplaceAllString(string(x), "#") != numTok.ReplaceAllString(string(y), "#") {
		return false
	}
	for i := range xs {
		u, _ := strconv.ParseFloat(xs[i], 64)
		v, _ := strconv.ParseFloat(ys[i], 64)
		if d := u - v; d > 0.0101 || d < -0.0101 {
			return false
		}
	}
	return true
}

func (c *Check) run() int {
	c.t0 = time.Now()
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		c.seed = s
	}
	scr, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.scr = scr
	defer os.RemoveAll(scr)
	c.runCh = make(chan struct{})
	go c.buildRunner()
	w, err := load(c.dir, c.repo, c.dbg)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.w = w
	w.seed = c.seed
	if c.tier == "thorough" {
		w.tier = 1
	}
	hs := w.harnesses(c.prop)
	if c.only != "" {
		k := 0
		for _, f := range hs {
			if f.Name() == c.only {
				hs[k] = f
				k++
			}
		}
		hs = hs[:k]
	}
	if c.list {
		for _, f := range hs {
			fmt.Println(f.Name())
		}
		return 0
	}
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", c.prop)
		return 2
	}
	c.loadKnown()
	vms := make([]*VM, c.workers)
	var wg sync.WaitGroup
	for i := range vms {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			vms[i] = NewVM(w, i)
			vms[i].initVM()
			vms[i].dbg = c.dbg
		}(i)
	}
	wg.Wait()
	<-c.runCh
	if c.runErr != nil {
		fmt.Fprintln(os.Stderr, c.runErr)
		return 2
	}
	if c.budget == 0 {
		c.budget = 480
		if w.tier == 1 {
			c.budget = 800
		}
	}
	tload := time.Since(c.t0)

	docs := c.docs()
	var viols []*violation
	knownHit := map[string]knownFinding{}
	var notes []string
	validated, mismatched := 0, 0
	bounds := map[string]string{}
	perHarness := []map[string]any{}
	fnHits := map[string]int{}
	blkHit := map[string]map[int]bool{}
	blkTot := map[string]int{}
	complete := true
	var samples []any

	for hi, f := range hs {
		left := c.budget - time.Since(c.t0).Seconds()
		if left < 1 {
			complete = false
			notes = append(notes, f.Name()+": no time left, not explored")
			continue
		}
		share := left
		if n := len(hs) - hi; n > 1 {
			share = left * 0.6
		}
		st0 := w.st
		h := w.runHarness(vms, f, time.Duration(share*float64(time.Second)), c.maxPaths)
		st := w.st
		bounds[h.name] = docs[h.name]
		if !h.complete {
			complete = false
			notes = append(notes, h.name+": stopped before exhaustion")
		}
		for _, k := range sortedKeys(h.unsup) {
			notes = append(notes, fmt.Sprintf("%s: %s (%d paths)", h.name, k, h.unsup[k]))
			complete = false
		}
		if h.finished == 0 && len(h.cands) == 0 {
			notes = append(notes, h.name+": VACUOUS, no path reached the end")
		}
		for n, m := range h.fnHits {
			fnHits[n] += m
			blkTot[n] = h.blkTot[n]
			if blkHit[n] == nil {
				blkHit[n] = map[int]bool{}
			}
			for b := range h.blkHit[n] {
				blkHit[n][b] = true
			}
		}
		if fn := os.Getenv("SYMGO_COVER"); fn != "" {
			if w, err := os.OpenFile(fn, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
				for l := range h.lines {
					fmt.Fprintln(w, l)
				}
				w.Close()
			}
		}
		// counterexamples count only when the real code shows them
		type res struct {
			cand *Candidate
			r    *response
		}
		var rs = make([]res, len(h.cands))
		sem := make(chan bool, c.workers)
		var wg sync.WaitGroup
		for i, cd := range h.cands {
			wg.Add(1)
			go func(i int, cd *Candidate) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				to := 30 * time.Second
				if cd.Kind == "hang" {
					to = 20 * time.Second
				}
				rs[i] = res{cd, c.native(h.name, cd.Inputs, 40, to)}
			}(i, cd)
		}
		wg.Wait()
		for _, x := range rs {
			if x.r == nil || !x.r.bad() {
				if x.cand.Kind != "fallback" {
					d := ""
					if x.r != nil {
						d = x.r.Diverged
					}
					notes = append(notes, fmt.Sprintf("%s: counterexample not reproduced natively (%s): %s: %s [%s] at %s", h.name, d, x.cand.Kind, x.cand.Msg, inputsStr(x.cand.Inputs), x.cand.Where))
					complete = false
				}
				continue
			}
			if ks := c.isKnown(h.name, x.r); len(ks) > 0 {
				for _, k := range ks {
					knownHit[k.msg] = k
				}
				continue
			}
			viols = append(viols, &violation{harness: h.name, cand: x.cand, resp: x.r})
		}
		// validation of the executor against the real code
		okn, badn := 0, 0
		var mu sync.Mutex
		for _, s := range h.samples {
			wg.Add(1)
			go func(s *Candidate) {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				r := c.native(h.name, s.Inputs, 1, 30*time.Second)
				mu.Lock()
				defer mu.Unlock()
				if fn := os.Getenv("SYMGO_DUMP"); fn != "" {
					if w, err := os.OpenFile(fn, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
						b, _ := json.Marshal(request{h.name, c.w.tier, 1, "", s.Inputs})
						w.Write(append(b, '\n'))
						w.Close()
					}
				}
				if r == nil || r.timeout {
					return
				}
				if r.bad() {
					if ks := c.isKnown(h.name, r); len(ks) > 0 {
						for _, k := range ks {
							knownHit[k.msg] = k
						}
						return
					}
					// the real code fails on the inputs of a path the solver generated
					viols = append(viols, &violation{harness: h.name, cand: s, resp: r})
					return
				}
				same := len(r.Observed) == len(s.Obs)
				for i := 0; same && i < len(s.Obs); i++ {
					same = sameObs(s.Obs[i], r.Observed[i])
				}
				if same {
					okn++
				} else {
					badn++
					if badn <= 2 {
						notes = append(notes, fmt.Sprintf("%s: executor and native run differ on %s: %v", h.name, inputsStr(s.Inputs), obsDiff(s.Obs, r.Observed)))
					}
				}
			}(s)
		}
		wg.Wait()
		validated += okn
		mismatched += badn
		if len(h.samples) > 0 && len(samples) < 6 {
			samples = append(samples, map[string]any{"harness": h.name, "inputs": inputsStr(h.samples[len(h.samples)-1].Inputs)})
		}
		ph := map[string]any{"harness": h.name, "paths": h.paths, "finished": h.finished, "complete": h.complete, "wall_s": round(h.wall.Seconds()),
			"forks": st.forks - st0.forks, "assertions": st.asserts - st0.asserts, "assertion_queries": st.assertQueries - st0.assertQueries,
			"solver_queries": st.queries - st0.queries, "solver_s": round(float64(st.solverNs-st0.solverNs) / 1e9), "validated": okn, "reached": h.reach, "infeasible_or_assumed_away": st.pathsAssume - st0.pathsAssume}
		perHarness = append(perHarness, ph)
		fmt.Printf("%s: paths=%d complete=%v wall=%.1fs asserts=%d (symbolic %d) queries=%d solver=%.1fs candidates=%d validated=%d/%d\n",
			h.name, h.paths, h.complete, h.wall.Seconds(), st.asserts-st0.asserts, st.assertQueries-st0.assertQueries, st.queries-st0.queries, float64(st.solverNs-st0.solverNs)/1e9, len(h.cands), okn, okn+badn)
		if len(viols) > 0 {
			break
		}
	}
	for _, n := range notes {
		if len(n) > 1200 {
			n = n[:1200] + "..."
		}
		fmt.Println("note:", n)
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].resp.why() < viols[j].resp.why() })
	c.evidence(perHarness, bounds, fnHits, blkHit, blkTot, complete, notes, samples, validated, mismatched, viols, knownHit, tload)
	for _, k := range sortedKeys(knownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.prop, knownHit[k].what)
	}
	if len(viols) == 0 {
		fmt.Printf("%s %s: held on everything explored (%.1fs, exhaustive=%v)\n", c.prop, c.tier, time.Since(c.t0).Seconds(), complete)
		return 0
	}
	rd := filepath.Join(c.out, "evidence", "replay")
	os.MkdirAll(rd, 0755)
	seen := map[string]bool{}
	n := 0
	for _, v := range viols {
		k := v.harness + v.resp.why()
		if seen[k] || n >= 5 {
			continue
		}
		seen[k] = true
		n++
		p := filepath.Join(rd, fmt.Sprintf("%s-%d.json", c.prop, n))
		b, _ := json.MarshalIndent(map[string]any{"property": c.prop, "harness": v.harness, "tier": w.tier, "inputs": v.cand.Inputs, "solver_message": v.cand.Msg,
			"where": v.cand.Where, "native_result": v.resp.why(), "native_stack": v.resp.Stack,
			"how": "bin/symgo -replay " + p}, "", " ")
		os.WriteFile(p, append(b, '\n'), 0644)
		fmt.Printf("  %s: %s\n    inputs: %s\n", v.harness, v.resp.why(), inputsStr(v.cand.Inputs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, p)
	}
	return 1
}

func obsDiff(a, b []obsVal) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("%d observations against %d", len(a), len(b))
		}
		if !sameObs(a[i], b[i]) {
			x, _ := hex.DecodeString(a[i].Hex)
			y, _ := hex.DecodeString(b[i].Hex)
			k := 0
			for k < len(x) && k < len(y) && x[k] == y[k] {
				k++
			}
			lo := max(0, k-40)
			return fmt.Sprintf("%s at %d: vm %q native %q", a[i].Label, k, x[lo:min(len(x), k+40)], y[lo:min(len(y), k+40)])
		}
	}
	return fmt.Sprintf("%d observations against %d", len(a), len(b))
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func inputsStr(in []inputVal) string {
	var s []string
	for _, i := range in {
		switch i.Kind {
		case "bytes":
			b, _ := hex.DecodeString(i.Hex)
			s = append(s, fmt.Sprintf("%s=%q", i.Name, b))
		case "float":
			s = append(s, fmt.Sprintf("%s=%v", i.Name, i.F))
		default:
			s = append(s, fmt.Sprintf("%s=%d", i.Name, i.Int))
		}
	}
	return strings.Join(s, " ")
}

func (c *Check) evidence(per []map[string]any, bounds map[string]string, fnHits map[string]int, blkHit map[string]map[int]bool, blkTot map[string]int,
	complete bool, notes []string, samples []any, validated, mismatched int, viols []*violation, known map[string]knownFinding, tload time.Duration) {
	st := c.w.st
	var fns []string
	hit, tot := 0, 0
	for _, n := range sortedKeys(fnHits) {
		hit += len(blkHit[n])
		tot += blkTot[n]
		fns = append(fns, fmt.Sprintf("%s (%d/%d blocks)", strings.ReplaceAll(n, "github.com/signintech/", ""), len(blkHit[n]), blkTot[n]))
	}
	if notes == nil {
		notes = []string{}
	}
	kn := []string{}
	for _, k := range sortedKeys(known) {
		kn = append(kn, known[k].what)
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states":                        st.paths + st.forks,
			"transitions":                   st.steps,
			"states_meaning":                "nodes of the symbolic execution tree: forks plus path ends; transitions: SSA instructions executed",
			"traces_validated_against_impl": validated,
			"traces_differing_from_impl":    mismatched,
			"samples":                       samples,
			"exhaustive":                    complete,
			"paths":                         st.paths,
			"paths_infeasible":              st.pathsAssume,
			"paths_unsupported":             st.pathsUnsup,
			"assertions_evaluated":          st.asserts,
			"assertions_sent_to_solver":     st.assertQueries,
			"solver":                        "z3-new " + c.w.solverVersion(),
			"solver_queries":                st.queries,
			"solver_sat":                    st.nsat,
			"solver_unsat":                  st.nunsat,
			"solver_unknown":                st.nunk,
			"solver_s":                      round(float64(st.solverNs) / 1e9),
			"branches_decided_by_domain":    st.domDecided,
			"functions_encoded":             fns,
			"blocks_executed":               hit,
			"blocks_in_those_functions":     tot,
			"bounds":                        bounds,
			"harnesses":                     per,
			"notes":                         notes,
			"known_findings_seen":           kn,
			"encoding_regenerated_from":     c.repo,
			"load_s":                        round(tload.Seconds()),
		},
		"assumptions": []string{
			"Go SSA (x/tools/go/ssa) of the current /repo source is executed by the interpreter in /verif/engine; its models of fmt, regexp, strconv, compress/zlib, crypto and os are listed in DESIGN.md",
			"float64 arithmetic on symbolic values is reasoned about as real arithmetic; formatting tolerances are part of the assertions",
			"only counterexamples reproduced by the natively compiled code are reported",
		},
		"violations": len(viols),
		"wall_s":     round(time.Since(c.t0).Seconds()),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.out, "evidence"), 0755)
	os.WriteFile(filepath.Join(c.out, "evidence", c.prop+".json"), append(b, '\n'), 0644)
}

func (w *World) solverVersion() string {
	out, err := exec.Command("z3-new", "--version").Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(out))
}

// replayFile runs a recorded counterexample against the real code.
func (c *Check) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r struct {
		Property, Harness string
		Tier              int
		Inputs            []inputVal
	}
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c.scr, _ = os.MkdirTemp("", "symgo")
	defer os.RemoveAll(c.scr)
	c.runCh = make(chan struct{})
	c.w = &World{tier: r.Tier}
	c.buildRunner()
	if c.runErr != nil {
		fmt.Fprintln(os.Stderr, c.runErr)
		return 2
	}
	x := c.native(r.Harness, r.Inputs, 40, 60*time.Second)
	if x == nil || !x.bad() {
		fmt.Println("not reproduced")
		return 0
	}
	fmt.Println(r.Harness+":", x.why())
	bufio.NewWriter(os.Stdout).Flush()
	return 1
}
