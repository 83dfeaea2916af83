package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	tokADD = token.ADD
	tokSUB = token.SUB
)

type stats struct {
	domDecided, unknown, forks          int64
	paths, pathsAssume, pathsUnsup      int64
	asserts, assertQueries, assertConst int64
	steps                               int64
	queries, nsat, nunsat, nunk         int64
	solverNs                            int64
	jobs                                int64
}

type World struct {
	prog          *ssa.Program
	repoPath      string
	progMu        sync.Mutex
	sizes         types.Sizes
	rtErrType     types.Type
	errStrType    types.Type
	wrapErrType   types.Type
	regexpType    types.Type
	reProgType    types.Type
	poolType      types.Type
	modelPkg      *ssa.Package
	propsPkg      *ssa.Package
	st            stats
	solverTimeout int
	maxEnum       int
	stop          atomic.Bool
	dbgInit       bool
	tier          int
	seed          int64

	mu       sync.Mutex
	cond     *sync.Cond
	queue    []*Job
	idle     int
	nworkers int
	done     bool

	h *HarnessRun
}

type Job struct {
	fn     *ssa.Function
	prefix []dec
}

type inputVal struct {
	Name string  `json:"n"`
	Kind string  `json:"k"`
	Int  int64   `json:"i,omitempty"`
	Hex  string  `json:"x,omitempty"`
	F    float64 `json:"f,omitempty"`
}

type obsVal struct {
	Label string `json:"l"`
	Hex   string `json:"x"`
}

type Candidate struct {
	Kind   string // assert, panic, hang
	Msg    string
	Where  string
	Inputs []inputVal
	Obs    []obsVal
}

type HarnessRun struct {
	name      string
	cands     []*Candidate
	seen      map[string]int
	unsup     map[string]int
	samples   []*Candidate // validation samples
	nsample   int
	reach     map[string]int
	paths     int64
	finished  int64
	complete  bool
	wall      time.Duration
	stepLimit int64
	fnHits    map[string]int
	blkHit    map[string]map[int]bool
	lines     map[string]bool // lines executed, where SYMGO_COVER asks for them
	blkTot    map[string]int
	ending    bool
	maxPaths  int64
}

func (w *World) denyInit(path string) bool {
	switch path {
	case "unicode", "time", "strings", "bytes", "strconv", "errors", "io", "bufio", "sort", "slices", "math", "math/bits", "encoding/binary", "encoding/base64", "image", "image/color",
		"unicode/utf8", "unicode/utf16", "internal/oserror", "io/fs", "io/ioutil", "regexp", "regexp/syntax", "cmp", "iter", "maps", "path", "encoding/hex", "hash", "compress/zlib", "crypto/rc4", "encoding":
		return false
	}
	if strings.HasPrefix(path, w.repoPath) || strings.HasPrefix(path, "symh/") {
		return false
	}
	return true
}

func (vm *VM) assumeChecked(t *Term) {
	if t == vm.tc.F {
		panic(pathEnd{"assume"})
	}
	if t == vm.tc.T {
		return
	}
	vm.assume(t)
	if len(vm.log) < len(vm.prefix) {
		return
	}
	// feasibility
	if !t.multi && t.v1 != nil && t.v1.w > 0 && t.v1.w <= 8 {
		d := *t.v1.dom
		if d[0]|d[1]|d[2]|d[3] == 0 {
			panic(pathEnd{"assume"})
		}
		if t.v1.ent == 0 {
			return
		}
	}
	if vm.model != nil {
		return
	}
	r, m := vm.sol.Check(vm.pcT, nil, vm.allVars())
	if r == Unsat {
		panic(pathEnd{"assume"})
	}
	vm.model = m
}

func (vm *VM) assertion(c Val, msg string) {
	atomic.AddInt64(&vm.w.st.asserts, 1)
	if c.X == nil {
		if c.N == 1 {
			atomic.AddInt64(&vm.w.st.assertConst, 1)
			return
		}
		m := vm.currentModel()
		if m == nil && len(vm.pc) > 0 {
			panic(pathEnd{"infeasible"})
		}
		vm.candidate("assert", msg, m)
		panic(pathEnd{"violation"})
	}
	if len(vm.log) < len(vm.prefix) {
		// checked by the job this one was split from
		vm.assume(c.X.(*Term))
		return
	}
	t := c.X.(*Term)
	atomic.AddInt64(&vm.w.st.assertQueries, 1)
	r, m := vm.sol.Check(vm.pcT, vm.tc.Not(t), vm.queryVars(t))
	switch r {
	case Unknown:
		vm.note("solver unknown on assertion: " + msg)
	case Sat:
		vm.candidate("assert", msg, m)
	}
	if r != Unsat {
		vm.assumeChecked(t)
	} else {
		// implied: no need to assert it
	}
}

func (vm *VM) note(s string) {
	vm.w.mu.Lock()
	vm.w.h.unsup[s]++
	vm.w.mu.Unlock()
}

func (vm *VM) uncaughtPanic(fr *Frame) {
	if vm.noFork {
		vm.unsupported("panic inside a synchronous call")
	}
	if vm.initMode {
		vm.unsupported("panic in init")
	}
	msg := "panic"
	if i, ok := fr.pval.X.(*Iface); ok {
		if kindOf(i.T).k == kString {
			if s, ok := concStr(i.V); ok {
				msg = "panic: " + s
			}
		} else {
			msg = "panic: " + i.T.String()
		}
	}
	m := vm.currentModel()
	if m == nil && len(vm.pc) > 0 {
		panic(pathEnd{"infeasible"})
	}
	vm.candidateAt("panic", msg, m, fr.ppos)
	panic(uncaught{})
}

func (vm *VM) candidate(kind, msg string, m *Model) { vm.candidateAt(kind, msg, m, vm.where()) }

func (vm *VM) candidateAt(kind, msg string, m *Model, where string) {
	c := &Candidate{Kind: kind, Msg: msg, Where: where, Inputs: vm.modelInputs(m)}
	vm.w.mu.Lock()
	defer vm.w.mu.Unlock()
	h := vm.w.h
	k := kind + "|" + msg
	if kind == "panic" {
		// group panics by site
		if i := strings.Index(where, " < "); i > 0 {
			k += "|" + where[:i]
		}
	}
	h.seen[k]++
	if h.seen[k] <= 3 {
		h.cands = append(h.cands, c)
	}
	if !h.ending {
		// there is a counterexample: look on for a while only
		h.ending = true
		w := vm.w
		time.AfterFunc(25*time.Second, func() {
			if w.h == h {
				w.stop.Store(true)
			}
		})
	}
}

// fallback keeps the inputs of a path the executor could not finish, so that
// the native code is at least tried on them.
func (vm *VM) fallback(why string, m *Model) {
	vm.w.mu.Lock()
	h := vm.w.h
	k := "fallback|" + why
	h.seen[k]++
	n := h.seen[k]
	vm.w.mu.Unlock()
	if n > 4 {
		return
	}
	c := &Candidate{Kind: "fallback", Msg: why, Inputs: vm.modelInputs(m)}
	vm.w.mu.Lock()
	h.cands = append(h.cands, c)
	vm.w.mu.Unlock()
}

func (vm *VM) currentModelQuiet() (m *Model) {
	defer func() {
		if r := recover(); r != nil {
			m = nil
		}
	}()
	return vm.currentModel()
}

func (vm *VM) modelInputs(m *Model) []inputVal {
	if m == nil {
		m = &Model{bv: map[*Term]uint64{}, re: map[*Term]*big.Rat{}}
	}
	var out []inputVal
	for _, in := range vm.inputs {
		iv := inputVal{Name: in.name, Kind: in.kind}
		switch in.kind {
		case "int":
			iv.Int = in.off
			if in.t != nil {
				iv.Int += int64(vm.evalDom(in.t, m))
			}
		case "bytes":
			var sb strings.Builder
			for _, b := range in.v.X.([]Val) {
				fmt.Fprintf(&sb, "%02x", byte(vm.evalDom(b.X.(*Term), m)))
			}
			iv.Hex = sb.String()
		case "float":
			if r, ok := m.re[in.f.t]; ok {
				iv.F, _ = r.Float64()
			} else {
				iv.F = in.f.lo
			}
		}
		out = append(out, iv)
	}
	return out
}

// evalDom evaluates an input variable: a variable the model leaves out takes a
// value from its domain.
func (vm *VM) evalDom(t *Term, m *Model) uint64 {
	if v, ok := m.bv[t]; ok {
		return v
	}
	if t.w <= 8 && t.dom != nil {
		for i := 0; i < 1<<uint(t.w); i++ {
			if t.dom[i>>6]>>uint(i&63)&1 == 1 {
				return uint64(i)
			}
		}
	}
	return 0
}

func (vm *VM) evalStr(v Val, m *Model) string {
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		if b[i].X == nil {
			out[i] = byte(b[i].N)
		} else {
			out[i] = byte(vm.tc.Eval(b[i].X.(*Term), m))
		}
	}
	return string(out)
}

var tokRe = regexp.MustCompile(`9[0-9]{5}\.77`)

// sample records a finished path for validation against the native code.
func (vm *VM) sample() {
	vm.w.mu.Lock()
	n := vm.w.h.nsample
	vm.w.h.nsample++
	keep := n < 6 || (n < 4000 && n%(1+n/8) == 0)
	vm.w.mu.Unlock()
	if !keep {
		return
	}
	m := vm.currentModel()
	if m == nil {
		if len(vm.pc) > 0 {
			return
		}
		m = &Model{bv: map[*Term]uint64{}, re: map[*Term]*big.Rat{}}
	}
	// complete the model for variables outside the path condition
	for _, in := range vm.inputs {
		if in.t != nil {
			m.bv[in.t] = vm.evalDom(in.t, m)
		}
		if bs, ok := in.v.X.([]Val); ok {
			for _, b := range bs {
				t := b.X.(*Term)
				m.bv[t] = vm.evalDom(t, m)
			}
		}
	}
	c := &Candidate{Kind: "sample", Inputs: vm.modelInputs(m)}
	for _, o := range vm.obs {
		str := tokRe.ReplaceAllStringFunc(vm.evalStr(o.v, m), func(t string) string {
			f := vm.tokenOf(t)
			if f == nil {
				return t
			}
			x, _ := vm.tc.EvalR(f.t, m).Float64()
			return fmt.Sprintf("%.3f", x)
		})
		c.Obs = append(c.Obs, obsVal{o.label, fmt.Sprintf("%x", str)})
	}
	vm.w.mu.Lock()
	vm.w.h.samples = append(vm.w.h.samples, c)
	vm.w.mu.Unlock()
}

// ---- jobs

func (w *World) take() *Job {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.idle++
	for {
		if len(w.queue) > 0 {
			j := w.queue[0]
			w.queue = w.queue[1:]
			w.idle--
			return j
		}
		if w.idle == w.nworkers || w.done {
			w.done = true
			w.cond.Broadcast()
			return nil
		}
		w.cond.Wait()
	}
}

func (vm *VM) donate() {
	w := vm.w
	w.mu.Lock()
	need := w.idle > len(w.queue)
	w.mu.Unlock()
	if !need {
		return
	}
	for _, c := range vm.choices {
		if !c.donated {
			c.donated = true
			j := &Job{fn: vm.job.fn, prefix: append(append([]dec(nil), vm.log[:c.logLen]...), c.decs[len(c.decs)-1])}
			w.mu.Lock()
			w.queue = append(w.queue, j)
			w.cond.Signal()
			w.mu.Unlock()
			return
		}
	}
}

func (vm *VM) runJob(j *Job) {
	w := vm.w
	atomic.AddInt64(&w.st.jobs, 1)
	vm.job = j
	vm.tick++
	vm.serial = vm.tick
	vm.rootSerial = vm.tick
	vm.prefix = j.prefix
	vm.log = vm.log[:0]
	vm.decs = vm.decs[:0]
	vm.choices = vm.choices[:0]
	vm.model = nil
	vm.truncPC(0)
	vm.inputs, vm.obs, vm.reach, vm.tokens, vm.ufs = nil, nil, nil, nil, nil
	vm.freshN, vm.mapOrdN = 0, 0
	vm.imDirty = true
	vm.steps = 0
	vm.stepLimit = w.h.stepLimit
	vm.explMaps = false
	vm.resume = false
	vm.noFork = false
	vm.baseDepth = 0
	vm.stack = vm.stack[:0]
	f := vm.fnOf(j.fn)
	fr := vm.newFrame(f, nil, nil)
	vm.stack = append(vm.stack[:0:0], fr)
	for {
		st0 := vm.steps
		why := vm.runSafe(0)
		atomic.AddInt64(&w.st.steps, vm.steps-st0)
		if why == "stopped" {
			break
		}
		atomic.AddInt64(&w.st.paths, 1)
		n := atomic.AddInt64(&w.h.paths, 1)
		switch {
		case why == "":
			w.mu.Lock()
			w.h.finished++
			for _, r := range vm.reach {
				w.h.reach[r]++
			}
			w.mu.Unlock()
			vm.sample()
		case why == "assume" || why == "infeasible":
			atomic.AddInt64(&w.st.pathsAssume, 1)
		case why == "steps":
			if m := vm.currentModel(); m != nil || len(vm.pc) == 0 {
				vm.candidate("hang", "step limit reached", m)
			}
		case strings.HasPrefix(why, "unsupported"):
			atomic.AddInt64(&w.st.pathsUnsup, 1)
			vm.note(why)
			if m := vm.currentModelQuiet(); m != nil || len(vm.pc) == 0 {
				vm.fallback(why, m)
			}
		}
		if w.h.maxPaths > 0 && n >= w.h.maxPaths {
			w.stop.Store(true)
		}
		vm.noFork = false
		vm.baseDepth = 0
		vm.donate()
		if !vm.popChoice() {
			break
		}
		if len(vm.log) <= len(vm.prefix) && len(vm.prefix) > 0 {
			// never backtrack into the prefix
			break
		}
	}
	// back to the root state
	vm.undoTo(0)
	vm.truncPC(0)
	vm.choices = nil
	vm.serial = 0
	vm.stack = nil
}

func (w *World) runHarness(vms []*VM, fn *ssa.Function, budget time.Duration, maxPaths int64) *HarnessRun {
	h := &HarnessRun{name: fn.Name(), seen: map[string]int{}, unsup: map[string]int{}, reach: map[string]int{}, stepLimit: 60_000_000, maxPaths: maxPaths,
		fnHits: map[string]int{}, blkHit: map[string]map[int]bool{}, blkTot: map[string]int{}}
	w.h = h
	w.queue = []*Job{{fn: fn}}
	w.idle = 0
	w.done = false
	w.nworkers = len(vms)
	w.stop.Store(false)
	t0 := time.Now()
	timer := time.AfterFunc(budget, func() { w.stop.Store(true) })
	var wg sync.WaitGroup
	for _, vm := range vms {
		for _, f := range vm.fns {
			f.hits = 0
			for _, b := range f.blocks {
				b.visited = false
			}
		}
		wg.Add(1)
		go func(vm *VM) {
			defer wg.Done()
			vm.tc = NewTermCtx()
			vm.sol.Close()
			vm.sol = NewSolver(vm.tc, w.solverTimeout)
			for {
				j := w.take()
				if j == nil {
					break
				}
				if w.stop.Load() {
					continue
				}
				vm.runJob(j)
				if vm.tc.n > 3_000_000 {
					vm.flushSolver()
					vm.tc = NewTermCtx()
					vm.sol.Close()
					vm.sol = NewSolver(vm.tc, w.solverTimeout)
				}
			}
			vm.flushSolver()
			vm.sol.Close()
		}(vm)
	}
	wg.Wait()
	timer.Stop()
	h.complete = !w.stop.Load()
	h.wall = time.Since(t0)
	if os.Getenv("SYMGO_COVER") != "" {
		h.lines = map[string]bool{}
	}
	for _, vm := range vms {
		for _, f := range vm.fns {
			if !f.repo || f.hits == 0 {
				continue
			}
			h.fnHits[f.name] += f.hits
			h.blkTot[f.name] = len(f.blocks)
			m := h.blkHit[f.name]
			if m == nil {
				m = map[int]bool{}
				h.blkHit[f.name] = m
			}
			for _, b := range f.blocks {
				if b.visited {
					m[b.idx] = true
					if h.lines != nil {
						for _, in := range f.fn.Blocks[b.idx].Instrs {
							if p := in.Pos(); p.IsValid() {
								q := f.fn.Prog.Fset.Position(p)
								h.lines[fmt.Sprintf("%s:%d", q.Filename, q.Line)] = true
							}
						}
					}
				}
			}
		}
	}
	return h
}

func (vm *VM) flushSolver() {
	s := vm.sol
	atomic.AddInt64(&vm.w.st.queries, int64(s.Queries))
	atomic.AddInt64(&vm.w.st.nsat, int64(s.NSat))
	atomic.AddInt64(&vm.w.st.nunsat, int64(s.NUnsat))
	atomic.AddInt64(&vm.w.st.nunk, int64(s.NUnk))
	atomic.AddInt64(&vm.w.st.solverNs, int64(s.Time))
	s.Queries, s.NSat, s.NUnsat, s.NUnk, s.Time = 0, 0, 0, 0, 0
}

// initVM runs package initialisation.
func (vm *VM) initVM() {
	vm.initMode = true
	vm.stepLimit = 200_000_000
	f := vm.fnOf(vm.w.propsPkg.Func("init"))
	fr := vm.newFrame(f, nil, nil)
	vm.stack = append(vm.stack[:0], fr)
	why := vm.runSafe(0)
	if why != "" {
		fmt.Fprintln(os.Stderr, "init:", why)
	}
	vm.initMode = false
	vm.steps = 0
	vm.journal = vm.journal[:0]
	vm.tick++
	vm.serial = 0
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
