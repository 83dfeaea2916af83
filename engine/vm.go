package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type instr struct {
	exec func(vm *VM, fr *Frame) bool
	pos  token.Pos
	src  ssa.Instruction
}

type Block struct {
	idx     int
	ins     []instr
	phis    []phi
	visited bool
}

type phi struct {
	dst   int
	edges []opnd // by predecessor index
}

type Intrinsic func(vm *VM, fr *Frame, args []Val) Val

type Fn struct {
	fn     *ssa.Function
	name   string
	intr   Intrinsic
	blocks []*Block
	nregs  int
	nparam int
	ready  bool
	regOf  map[ssa.Value]int
	isInit bool
	repo   bool
	hits   int
	recov  *Block
	res    *types.Tuple
}

type deferred struct {
	fn   *Closure
	args []Val
	bi   func(vm *VM, fr *Frame)
}

type Frame struct {
	fn        *Fn
	regs      []Val
	blk       *Block
	pc        int
	prev      int // previous block index
	dst       int // register in caller for the result
	defers    []deferred
	panicking bool
	recovered bool
	pval      Val
	isDefer   bool
	shared    bool
	ppos      string
}

func (f *Frame) clone() *Frame {
	g := *f
	g.regs = append([]Val(nil), f.regs...)
	g.defers = append([]deferred(nil), f.defers...)
	g.shared = false
	return &g
}

type jent struct {
	o   *Obj
	i   int
	old Val
	fn  func()
}

type pcEnt struct {
	t       *Term
	v       *Term // domain var changed
	oldDom  *[4]uint64
	entVars []*Term
	nvars   int
}

// dec is one logged decision; v is the value tried by a concretisation.
type dec struct {
	b bool
	v uint64
}

// imark is the state at the start of the current instruction, to which a
// choice point returns (the instruction is re-executed from its beginning).
type imark struct {
	jn, inLen, obsLen, reachLen, tokLen, ufLen, freshN, mapOrdN int
}

type choice struct {
	frames  []*Frame
	im      imark
	decs    []dec
	alt     *Term // condition of the alternative
	pcLen   int
	logLen  int
	steps   int64
	serial  uint64
	donated bool
}

type VM struct {
	prog    *ssa.Program
	w       *World
	tc      *TermCtx
	sol     *Solver
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]*Obj

	slotCache map[types.Type]int
	canonMap  typeutil.Map
	canonPtr  map[types.Type]types.Type
	implCache map[[2]types.Type]bool
	methCache map[methKey]*Fn
	offCache  map[*types.Struct][]int

	stack   []*Frame
	journal []jent
	im      imark
	serial  uint64 // serial of the top choice point
	tick    uint64
	choices []*choice

	decs   []dec
	decPos int

	pc     []pcEnt
	pcT    []*Term
	pcVars []*Term
	log    []dec  // decisions since root
	prefix []dec  // to replay
	model  *Model // satisfies pc, or nil

	inputs  []inputRec
	obs     []obsRec
	reach   []string
	tokens  []*FSym
	runs    map[string]*Term // printed digits of a value
	ufs     []*UFApp
	freshN  int
	imDirty bool // inputs, obs, reach, tokens, ufs, freshN or mapOrdN changed
	mapOrdN int

	steps, stepLimit int64
	initMode         bool
	pathLabel        string
	files            map[string]Val

	job        *Job
	rootSerial uint64
	resume     bool
	baseDepth  int
	noFork     bool
	nid        int
	id         int
	statPath   int
	dbg        bool
	uni        *types.Package
	explMaps   bool
	stepTot    int64
	maxMap     int
}

type inputRec struct {
	name string
	kind string
	v    Val // symbolic or concrete
	t    *Term
	f    *FSym
	off  int64
}

type obsRec struct {
	label string
	v     Val
	kind  byte // 's' string 'i' int 'b' bytes
}

type methKey struct {
	t    types.Type
	name string
}

// control-flow panics
type pathEnd struct{ why string }
type unsupported struct{ what string }
type goPanic struct{ v Val }

func (vm *VM) unsupported(f string, a ...any) {
	panic(unsupported{fmt.Sprintf(f, a...)})
}

func NewVM(w *World, id int) *VM {
	vm := &VM{w: w, prog: w.prog, tc: NewTermCtx(), fns: map[*ssa.Function]*Fn{}, globals: map[*ssa.Global]*Obj{},
		slotCache: map[types.Type]int{}, canonPtr: map[types.Type]types.Type{}, implCache: map[[2]types.Type]bool{},
		methCache: map[methKey]*Fn{}, id: id, files: map[string]Val{}, runs: map[string]*Term{}}
	vm.canonMap.SetHasher(typeutil.MakeHasher())
	vm.sol = NewSolver(vm.tc, w.solverTimeout)
	vm.stepLimit = 1 << 60
	return vm
}

func (vm *VM) canon(t types.Type) types.Type {
	if c, ok := vm.canonPtr[t]; ok {
		return c
	}
	if c := vm.canonMap.At(t); c != nil {
		vm.canonPtr[t] = c.(types.Type)
		return c.(types.Type)
	}
	vm.canonMap.Set(t, t)
	vm.canonPtr[t] = t
	return t
}

func (vm *VM) newObj(n int) *Obj {
	if n > 1<<26 {
		vm.unsupported("allocation of %d slots", n)
	}
	return &Obj{s: make([]Val, n), birth: vm.tick}
}

func (vm *VM) set(o *Obj, i int, v Val) {
	if o.birth < vm.serial {
		vm.journal = append(vm.journal, jent{o: o, i: i, old: o.s[i]})
	}
	o.s[i] = v
}

func (vm *VM) undoFn(f func()) {
	if vm.serial > 0 {
		vm.journal = append(vm.journal, jent{fn: f})
	}
}

func (vm *VM) undoTo(m int) {
	for i := len(vm.journal) - 1; i >= m; i-- {
		e := &vm.journal[i]
		if e.fn != nil {
			e.fn()
		} else {
			e.o.s[e.i] = e.old
		}
		*e = jent{}
	}
	vm.journal = vm.journal[:m]
}

func (vm *VM) global(g *ssa.Global) *Obj {
	o := vm.globals[g]
	if o == nil {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		o = &Obj{s: make([]Val, vm.slots(t))}
		vm.globals[g] = o
	}
	return o
}

// ---- path condition

func (vm *VM) allVars() []*Term { return vm.pcVars }

// assume adds a term to the path condition (no feasibility check).
func (vm *VM) assume(t *Term) {
	if t == vm.tc.T {
		return
	}
	if t.op == OAnd {
		vm.assume(t.a)
		vm.assume(t.b)
		return
	}
	e := pcEnt{t: t, nvars: len(vm.pcVars)}
	for _, v := range vm.tc.FV(t) {
		if !v.inPC {
			v.inPC = true
			vm.pcVars = append(vm.pcVars, v)
		}
	}
	if vm.model != nil && vm.tc.Eval(t, vm.model) != 1 {
		vm.model = nil
	}
	if !t.multi && t.v1 != nil && t.v1.w > 0 && t.v1.w <= 8 {
		v := t.v1
		tt := vm.tc.truth(t)
		nd := *tt
		if v.dom != nil {
			for i := range nd {
				nd[i] &= v.dom[i]
			}
		}
		e.v = v
		e.oldDom = v.dom
		v.dom = &nd
	} else {
		e.entVars = vm.tc.FV(t)
		for _, v := range e.entVars {
			v.ent++
		}
	}
	vm.pc = append(vm.pc, e)
	vm.pcT = append(vm.pcT, t)
}

func (vm *VM) truncPC(n int) {
	for i := len(vm.pc) - 1; i >= n; i-- {
		e := &vm.pc[i]
		if e.v != nil {
			e.v.dom = e.oldDom
		}
		for _, v := range e.entVars {
			v.ent--
		}
		for _, v := range vm.pcVars[e.nvars:] {
			v.inPC = false
		}
		vm.pcVars = vm.pcVars[:e.nvars]
	}
	vm.pc = vm.pc[:n]
	vm.pcT = vm.pcT[:n]
}

func fullDom(w int) [4]uint64 {
	var d [4]uint64
	n := 1 << uint(w)
	for i := 0; i < n; i++ {
		d[i>>6] |= 1 << uint(i&63)
	}
	return d
}

// feasible reports whether pc ∧ t and pc ∧ ¬t are satisfiable.
func (vm *VM) feasible(t *Term) (canT, canF bool) {
	if !t.multi && t.v1 != nil && t.v1.w > 0 && t.v1.w <= 8 {
		v := t.v1
		tt := vm.tc.truth(t)
		d := fullDom(v.w)
		if v.dom != nil {
			d = *v.dom
		}
		var a, b bool
		for i := range d {
			if d[i]&tt[i] != 0 {
				a = true
			}
			if d[i]&^tt[i] != 0 {
				b = true
			}
		}
		if !a || !b {
			atomic.AddInt64(&vm.w.st.domDecided, 1)
			return a, b
		}
		if v.ent == 0 {
			atomic.AddInt64(&vm.w.st.domDecided, 1)
			return true, true
		}
	}
	// model reuse
	if vm.model != nil {
		if vm.tc.Eval(t, vm.model) == 1 {
			canT = true
		} else {
			canF = true
		}
	}
	if !canT {
		r, m := vm.sol.Check(vm.pcT, t, vm.queryVars(t))
		if r == Unknown {
			atomic.AddInt64(&vm.w.st.unknown, 1)
		}
		canT = r != Unsat
		if r == Sat && vm.model == nil {
			vm.model = m
		}
		if !canT && !canF {
			return false, true
		}
	}
	if !canF {
		r, m := vm.sol.Check(vm.pcT, vm.tc.Not(t), vm.queryVars(t))
		if r == Unknown {
			atomic.AddInt64(&vm.w.st.unknown, 1)
		}
		canF = r != Unsat
		if r == Sat && vm.model == nil {
			vm.model = m
		}
	}
	return
}

func (vm *VM) queryVars(t *Term) []*Term {
	vs := vm.pcVars[:len(vm.pcVars):len(vm.pcVars)]
	for _, v := range vm.tc.FV(t) {
		if !v.inPC {
			vs = append(vs, v)
		}
	}
	return vs
}

// currentModel returns a model of the path condition (nil if none found).
func (vm *VM) currentModel() *Model {
	if vm.model != nil {
		return vm.model
	}
	r, m := vm.sol.Check(vm.pcT, nil, vm.allVars())
	if r != Sat {
		return nil
	}
	vm.model = m
	return m
}

func (vm *VM) modelOK(m *Model) bool {
	for _, e := range vm.pc {
		if vm.tc.Eval(e.t, m) != 1 {
			return false
		}
	}
	return true
}

// decide returns a truth value for the condition, forking when both are possible.
func (vm *VM) decide(t *Term) bool { return vm.decideV(t, 0) }

func (vm *VM) decideV(t *Term, v uint64) bool {
	if t.op == OConst {
		return t.k == 1
	}
	if vm.noFork {
		a, b := vm.feasible(t)
		if a && b {
			vm.unsupported("fork inside a synchronous call")
		}
		return a
	}
	if vm.decPos < len(vm.decs) {
		b := vm.decs[vm.decPos].b
		vm.decPos++
		return b
	}
	if len(vm.log) < len(vm.prefix) {
		b := vm.prefix[len(vm.log)].b
		vm.take(t, b, v)
		return b
	}
	if vm.initMode {
		vm.unsupported("symbolic decision in init")
	}
	var t0 time.Time
	if forkProf != nil {
		t0 = time.Now()
	}
	a, b := vm.feasible(t)
	if forkProf != nil {
		forkProf.note(vm.where(), a && b, time.Since(t0))
	}
	if a && b {
		vm.pushChoice(vm.tc.Not(t), v)
		vm.take(t, true, v)
		return true
	}
	if !a && !b {
		panic(pathEnd{"infeasible"})
	}
	vm.take(t, a, v)
	return a
}

// nextV is the value logged for the next decision when replaying.
func (vm *VM) nextV() (uint64, bool) {
	if vm.decPos < len(vm.decs) {
		return vm.decs[vm.decPos].v, true
	}
	if len(vm.log) < len(vm.prefix) {
		return vm.prefix[len(vm.log)].v, true
	}
	return 0, false
}

// concretize forks over the feasible values of a bit-vector term.
func (vm *VM) concretize(t *Term) uint64 {
	for n := 0; ; n++ {
		if t.isC() {
			return t.k
		}
		if n > vm.w.maxEnum {
			vm.unsupported("too many values for a symbolic size or index")
		}
		v, ok := vm.nextV()
		if !ok {
			v, ok = vm.someValue(t)
			if !ok {
				panic(pathEnd{"infeasible"})
			}
		}
		if vm.decideV(vm.tc.Eq(t, vm.tc.BV(t.w, v)), v) {
			return v
		}
	}
}

// someValue picks a feasible value of t under the path condition.
func (vm *VM) someValue(t *Term) (uint64, bool) {
	if !t.multi && t.v1 != nil && t.v1.w > 0 && t.v1.w <= 8 && t.v1.ent == 0 {
		d := fullDom(t.v1.w)
		if t.v1.dom != nil {
			d = *t.v1.dom
		}
		m := &Model{bv: map[*Term]uint64{}}
		for i := 0; i < 1<<uint(t.v1.w); i++ {
			if d[i>>6]>>uint(i&63)&1 == 1 {
				m.bv[t.v1] = uint64(i)
				return vm.tc.Eval(t, m), true
			}
		}
		return 0, false
	}
	if vm.model != nil {
		return vm.tc.Eval(t, vm.model), true
	}
	vm.model = nil
	r, m := vm.sol.Check(vm.pcT, nil, vm.queryVars(t))
	if r == Unsat {
		return 0, false
	}
	if r == Unknown {
		vm.unsupported("solver unknown when picking a value")
	}
	vm.model = m
	return vm.tc.Eval(t, m), true
}

func (vm *VM) take(t *Term, b bool, v uint64) {
	if !b {
		t = vm.tc.Not(t)
	}
	vm.assume(t)
	vm.log = append(vm.log, dec{b, v})
	vm.decs = append(vm.decs, dec{b, v})
	vm.decPos++
}

func (vm *VM) pushChoice(alt *Term, v uint64) {
	c := &choice{im: vm.im, decs: append(append([]dec(nil), vm.decs[:vm.decPos]...), dec{false, v}), alt: alt,
		pcLen: len(vm.pc), logLen: len(vm.log), steps: vm.steps}
	n := len(vm.stack)
	c.frames = make([]*Frame, n)
	copy(c.frames, vm.stack)
	for i := 0; i < n-1; i++ {
		c.frames[i].shared = true
	}
	if n > 0 {
		c.frames[n-1] = vm.stack[n-1].clone()
	}
	vm.tick++
	c.serial = vm.tick
	vm.serial = vm.tick
	vm.choices = append(vm.choices, c)
	atomic.AddInt64(&vm.w.st.forks, 1)
}

func (vm *VM) popChoice() bool {
	for {
		n := len(vm.choices)
		if n == 0 {
			return false
		}
		c := vm.choices[n-1]
		vm.choices[n-1] = nil
		vm.choices = vm.choices[:n-1]
		if n >= 2 {
			vm.serial = vm.choices[n-2].serial
		} else {
			vm.serial = vm.rootSerial
		}
		if c.donated {
			continue
		}
		vm.undoTo(c.im.jn)
		vm.truncPC(c.pcLen)
		vm.log = vm.log[:c.logLen]
		vm.inputs = vm.inputs[:c.im.inLen]
		vm.obs = vm.obs[:c.im.obsLen]
		vm.reach = vm.reach[:c.im.reachLen]
		vm.tokens = vm.tokens[:c.im.tokLen]
		vm.ufs = vm.ufs[:c.im.ufLen]
		vm.freshN = c.im.freshN
		vm.mapOrdN = c.im.mapOrdN
		vm.imDirty = true
		vm.steps = c.steps
		vm.stack = c.frames
		vm.tick++ // objects born from now on are newer than anything before
		vm.model = nil
		vm.assume(c.alt)
		vm.log = append(vm.log, c.decs[len(c.decs)-1])
		vm.decs = append(vm.decs[:0], c.decs...)
		vm.decPos = 0
		vm.im.jn = len(vm.journal)
		vm.resume = true
		return true
	}
}

// inputs created by an instruction being replayed: lists may already hold the
// entries, so instructions that add to lists must not decide before adding.

// ---- execution

func (vm *VM) top() *Frame { return vm.stack[len(vm.stack)-1] }

func (vm *VM) push(fr *Frame) {
	if len(vm.stack) > 3000 {
		vm.unsupported("call depth")
	}
	vm.stack = append(vm.stack, fr)
}

// run executes until the stack depth drops to base.
func (vm *VM) run(base int) {
	for len(vm.stack) > base {
		fr := vm.stack[len(vm.stack)-1]
		if fr.shared {
			fr = fr.clone()
			vm.stack[len(vm.stack)-1] = fr
		}
		if fr.panicking && !vm.resume {
			vm.unwind(fr)
			continue
		}
		vm.steps++
		if vm.steps&0xfff == 0 {
			if vm.steps > vm.stepLimit {
				panic(pathEnd{"steps"})
			}
			if vm.w.stop.Load() {
				panic(pathEnd{"stopped"})
			}
		}
		vm.begin()
		in := &fr.blk.ins[fr.pc]
		if in.exec(vm, fr) {
			fr.pc++
		}
	}
}

func (vm *VM) begin() {
	vm.im.jn = len(vm.journal)
	if vm.imDirty {
		vm.imDirty = false
		vm.mark()
	}
	if vm.resume {
		vm.resume = false
	} else {
		vm.decs = vm.decs[:0]
	}
	vm.decPos = 0
}

// mark notes the lengths that change rarely.
func (vm *VM) mark() {
	vm.im = imark{len(vm.journal), len(vm.inputs), len(vm.obs), len(vm.reach), len(vm.tokens), len(vm.ufs), vm.freshN, vm.mapOrdN}
}

// runSafe runs and converts Go-level panics of the interpreted program.
// It returns the reason the path ended.
func (vm *VM) runSafe(base int) (why string) {
	for {
		done, w := vm.runOnce(base)
		if done {
			return w
		}
	}
}

func (vm *VM) runOnce(base int) (done bool, why string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				done, why = true, x.why
			case goPanic:
				vm.decs = vm.decs[:0]
				vm.decPos = 0
				done = false
				if vm.initMode && !vm.anyDefers() {
					vm.initSkip(fmt.Sprintf("panic %v", x.v.X), base)
					return
				}
				vm.startPanic(x.v)
			case unsupported:
				if vm.initMode {
					vm.initSkip(x.what, base)
					done = false
					return
				}
				done, why = true, "unsupported: "+x.what+" at "+vm.where()
			case uncaught:
				done, why = true, "panic"
			default:
				if vm.initMode {
					vm.initSkip(fmt.Sprint(r), base)
					done = false
					return
				}
				if vm.dbg || os.Getenv("SYMGO_CRASH") != "" {
					fmt.Fprintln(os.Stderr, "ENGINE PANIC at", vm.where())
					panic(r)
				}
				done, why = true, fmt.Sprintf("unsupported: engine: %v at %s", r, vm.where())
			}
		}
	}()
	vm.run(base)
	return true, ""
}

type uncaught struct{}

func (vm *VM) initSkip(what string, base int) {
	if vm.w.dbgInit {
		fmt.Fprintln(os.Stderr, "init skip:", what, vm.where())
	}
	vm.decs = vm.decs[:0]
	vm.decPos = 0
	popped := (*Frame)(nil)
	for len(vm.stack) > base {
		fr := vm.top()
		if fr.fn.isInit {
			// the failing call gets a zero result; the pc of a caller is
			// already past the call when a callee frame was pushed
			fr.panicking = false
			if popped == nil {
				fr.pc++
			} else if popped.dst >= 0 {
				fr.regs[popped.dst] = vm.zeroResults(popped.fn)
			}
			return
		}
		popped = fr
		vm.stack = vm.stack[:len(vm.stack)-1]
	}
}

func (vm *VM) where() string {
	s := ""
	for i := len(vm.stack) - 1; i >= 0 && i > len(vm.stack)-7; i-- {
		fr := vm.stack[i]
		pos := token.NoPos
		if fr.blk != nil {
			for j := min(fr.pc, len(fr.blk.ins)-1); j >= 0; j-- {
				if fr.blk.ins[j].pos.IsValid() {
					pos = fr.blk.ins[j].pos
					break
				}
			}
		}
		p := vm.prog.Fset.Position(pos)
		s += fmt.Sprintf("%s(%s:%d) < ", fr.fn.name, shortFile(p.Filename), p.Line)
	}
	return s
}

func shortFile(f string) string {
	n := 0
	for i := len(f) - 1; i >= 0; i-- {
		if f[i] == '/' {
			n++
			if n == 2 {
				return f[i+1:]
			}
		}
	}
	return f
}

// ---- Go panics

func (vm *VM) startPanic(v Val) {
	fr := vm.top()
	if fr.shared {
		fr = fr.clone()
		vm.stack[len(vm.stack)-1] = fr
	}
	fr.panicking = true
	fr.recovered = false
	fr.pval = v
	fr.ppos = vm.where()
}

func (vm *VM) unwind(fr *Frame) {
	vm.begin()
	if n := len(fr.defers); n > 0 {
		d := fr.defers[n-1]
		fr.defers = fr.defers[:n-1]
		if d.bi != nil {
			d.bi(vm, fr)
			return
		}
		vm.callDeferred(fr, d)
		return
	}
	if fr.recovered {
		fr.panicking = false
		if fr.fn.recov != nil {
			fr.prev = fr.blk.idx
			fr.blk = fr.fn.recov
			fr.pc = 0
			return
		}
		// return zero values
		vm.ret(fr, vm.zeroResults(fr.fn))
		return
	}
	if len(vm.stack) <= vm.baseDepth+1 {
		vm.uncaughtPanic(fr)
	}
	vm.stack = vm.stack[:len(vm.stack)-1]
	par := vm.top()
	if par.shared {
		par = par.clone()
		vm.stack[len(vm.stack)-1] = par
	}
	par.panicking = true
	par.recovered = false
	par.pval = fr.pval
	par.ppos = fr.ppos
}

func (vm *VM) zeroResults(f *Fn) Val {
	switch f.res.Len() {
	case 0:
		return Val{}
	case 1:
		return vm.zero(f.res.At(0).Type())
	}
	return vm.zero(f.res)
}

func (vm *VM) callDeferred(fr *Frame, d deferred) {
	if d.bi != nil {
		d.bi(vm, fr)
		return
	}
	if d.fn.fn.intr != nil {
		d.fn.fn.intr(vm, fr, d.args)
		return
	}
	nf := vm.newFrame(d.fn.fn, d.args, d.fn.free)
	nf.dst = -1
	nf.isDefer = true
	vm.push(nf)
}

func (vm *VM) newFrame(f *Fn, args []Val, free []Val) *Frame {
	if !f.ready {
		vm.compile(f)
	}
	f.hits++
	fr := &Frame{fn: f, regs: make([]Val, f.nregs), blk: f.blocks[0], dst: -1}
	n := copy(fr.regs, args)
	copy(fr.regs[n:], free)
	f.blocks[0].visited = true
	return fr
}

func (vm *VM) ret(fr *Frame, v Val) {
	vm.stack = vm.stack[:len(vm.stack)-1]
	if len(vm.stack) == 0 {
		return
	}
	if fr.dst >= 0 {
		par := vm.top()
		if par.shared {
			par = par.clone()
			vm.stack[len(vm.stack)-1] = par
		}
		par.regs[fr.dst] = v
	}
}

// call invokes a closure; returns true if the pc should advance (intrinsic done).
func (vm *VM) call(fr *Frame, f *Fn, free []Val, args []Val, dst int) bool {
	if f.intr == nil && !f.ready {
		vm.compile(f)
	}
	if f.intr != nil {
		r := f.intr(vm, fr, args)
		if _, ok := r.X.(redirectCall); ok {
			rc := r.X.(redirectCall)
			return vm.call(fr, rc.fn, rc.free, rc.args, dst)
		}
		if dst >= 0 {
			fr.regs[dst] = r
		}
		return true
	}
	nf := vm.newFrame(f, args, free)
	nf.dst = dst
	fr.pc++
	vm.push(nf)
	return false
}

// redirectCall is returned by an intrinsic to continue in another function.
type redirectCall struct {
	fn   *Fn
	free []Val
	args []Val
}

func (vm *VM) rtPanic(msg string) {
	panic(goPanic{Val{X: &Iface{T: vm.w.rtErrType, V: strVal("runtime error: " + msg)}}})
}

var startTime = time.Now()

func (vm *VM) anyDefers() bool {
	for _, f := range vm.stack {
		if len(f.defers) > 0 {
			return true
		}
	}
	return false
}
