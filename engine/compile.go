package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// opnd is a register or a constant.
type opnd struct {
	r int // register, or -1
	v Val
}

func (o *opnd) get(fr *Frame) Val {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.v
}

func (vm *VM) fnOf(f *ssa.Function) *Fn {
	if x, ok := vm.fns[f]; ok {
		return x
	}
	x := &Fn{fn: f, name: f.String(), res: f.Signature.Results()}
	if f.Pkg != nil {
		x.repo = strings.HasPrefix(f.Pkg.Pkg.Path(), vm.w.repoPath)
		x.isInit = f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
		if f.Name() == "init" && f.Synthetic != "" && vm.w.denyInit(f.Pkg.Pkg.Path()) {
			x.intr = func(vm *VM, fr *Frame, args []Val) Val { return Val{} }
		}
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		x.repo = strings.HasPrefix(f.Origin().Pkg.Pkg.Path(), vm.w.repoPath)
	}
	if f.Parent() != nil {
		p := f
		for p.Parent() != nil {
			p = p.Parent()
		}
		if p.Pkg != nil {
			x.repo = strings.HasPrefix(p.Pkg.Pkg.Path(), vm.w.repoPath)
		}
	}
	name := x.name
	if f.Origin() != nil {
		name = f.Origin().String()
	}
	if in := intrinsicFor(name); in != nil && x.intr == nil {
		x.intr = in
	}
	vm.fns[f] = x
	return x
}

type compiler struct {
	vm *VM
	f  *Fn
}

func (c *compiler) reg(v ssa.Value) int {
	if r, ok := c.f.regOf[v]; ok {
		return r
	}
	r := c.f.nregs
	c.f.nregs++
	c.f.regOf[v] = r
	return r
}

func (c *compiler) op(v ssa.Value) opnd {
	vm := c.vm
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{-1, vm.constVal(x)}
	case *ssa.Global:
		return opnd{-1, Val{X: vm.global(x)}}
	case *ssa.Function:
		return opnd{-1, Val{X: &Closure{fn: vm.fnOf(x)}}}
	case *ssa.Builtin:
		return opnd{-1, Val{}}
	}
	return opnd{r: c.reg(v)}
}

func (vm *VM) constVal(x *ssa.Const) Val {
	if x.Value == nil {
		return vm.zero(x.Type())
	}
	t := x.Type()
	if tp, ok := t.(*types.TypeParam); ok {
		_ = tp
		vm.unsupported("type parameter constant")
	}
	k := kindOf(t)
	switch k.k {
	case kInt:
		v := constant.ToInt(x.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Val{N: k.norm(uint64(i))}
		}
		u, _ := constant.Uint64Val(v)
		return Val{N: k.norm(u)}
	case kBool:
		return boolVal(constant.BoolVal(x.Value))
	case kString:
		return strVal(constant.StringVal(x.Value))
	case kFloat:
		f, _ := constant.Float64Val(constant.ToFloat(x.Value))
		if k.w == 32 {
			g, _ := constant.Float32Val(constant.ToFloat(x.Value))
			f = float64(g)
		}
		return fbits(f)
	}
	if b, ok := t.Underlying().(*types.Basic); ok {
		if b.Info()&types.IsComplex != 0 {
			re, _ := constant.Float64Val(constant.Real(x.Value))
			im, _ := constant.Float64Val(constant.Imag(x.Value))
			return Val{X: complex(re, im)}
		}
		if b.Kind() == types.UnsafePointer {
			return Val{}
		}
	}
	vm.unsupported("constant %s of type %s", x, t)
	return Val{}
}

func (vm *VM) compile(f *Fn) {
	if f.ready {
		return
	}
	if f.fn.Blocks == nil {
		vm.unsupported("no body: %s", f.name)
	}
	c := &compiler{vm: vm, f: f}
	f.regOf = map[ssa.Value]int{}
	for _, p := range f.fn.Params {
		c.reg(p)
	}
	f.nparam = f.nregs
	for _, p := range f.fn.FreeVars {
		c.reg(p)
	}
	f.blocks = make([]*Block, len(f.fn.Blocks))
	for i, b := range f.fn.Blocks {
		f.blocks[i] = &Block{idx: b.Index}
	}
	if f.fn.Recover != nil {
		f.recov = f.blocks[f.fn.Recover.Index]
	}
	for i, b := range f.fn.Blocks {
		blk := f.blocks[i]
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ex := c.instr(in, b)
			blk.ins = append(blk.ins, instr{exec: ex, pos: in.Pos(), src: in})
		}
	}
	f.ready = true
}

type edge struct {
	to   *Block
	dst  []int
	src  []opnd
	prev int
}

func (c *compiler) edge(b *ssa.BasicBlock, k int) *edge {
	to := b.Succs[k]
	n := 0
	for j := 0; j < k; j++ {
		if b.Succs[j] == to {
			n++
		}
	}
	pi := -1
	for j, p := range to.Preds {
		if p == b {
			if n == 0 {
				pi = j
				break
			}
			n--
		}
	}
	e := &edge{to: c.f.blocks[to.Index], prev: b.Index}
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		e.dst = append(e.dst, c.reg(ph))
		e.src = append(e.src, c.op(ph.Edges[pi]))
	}
	return e
}

func (e *edge) jump(fr *Frame) {
	switch len(e.dst) {
	case 0:
	case 1:
		fr.regs[e.dst[0]] = e.src[0].get(fr)
	default:
		var tmp [16]Val
		t := tmp[:0]
		for i := range e.src {
			t = append(t, e.src[i].get(fr))
		}
		for i, d := range e.dst {
			fr.regs[d] = t[i]
		}
	}
	fr.prev = e.prev
	fr.blk = e.to
	fr.pc = 0
	e.to.visited = true
}

func (c *compiler) bad(f string, a ...any) func(*VM, *Frame) bool {
	msg := fmt.Sprintf(f, a...)
	return func(vm *VM, fr *Frame) bool {
		vm.unsupported("%s", msg)
		return false
	}
}

func (c *compiler) instr(in ssa.Instruction, b *ssa.BasicBlock) func(vm *VM, fr *Frame) bool {
	vm := c.vm
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.reg(v)
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		n := vm.slots(x.Type().Underlying().(*types.Pointer).Elem())
		return func(vm *VM, fr *Frame) bool {
			fr.regs[dst] = Val{X: vm.newObj(n)}
			return true
		}
	case *ssa.BinOp:
		return c.binop(x, dst)
	case *ssa.UnOp:
		return c.unop(x, dst)
	case *ssa.Call:
		return c.call(&x.Call, dst, in)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var o opnd
		if y, ok := x.(*ssa.ChangeInterface); ok {
			o = c.op(y.X)
		} else {
			o = c.op(x.(*ssa.ChangeType).X)
		}
		return func(vm *VM, fr *Frame) bool {
			fr.regs[dst] = o.get(fr)
			return true
		}
	case *ssa.Convert:
		o := c.op(x.X)
		return c.convert(x.X.Type(), x.Type(), o, dst)
	case *ssa.MultiConvert:
		o := c.op(x.X)
		return c.convert(x.X.Type(), x.Type(), o, dst)
	case *ssa.Defer:
		return c.deferInstr(x)
	case *ssa.Extract:
		o := c.op(x.Tuple)
		i := x.Index
		return func(vm *VM, fr *Frame) bool {
			fr.regs[dst] = o.get(fr).X.([]Val)[i]
			return true
		}
	case *ssa.Field:
		o := c.op(x.X)
		st := x.X.Type().Underlying().(*types.Struct)
		off := vm.fieldOff(st, x.Field)
		n := vm.slots(x.Type())
		agg := isAgg(x.Type())
		return func(vm *VM, fr *Frame) bool {
			a := o.get(fr).X.([]Val)
			if agg {
				fr.regs[dst] = Val{X: a[off : off+n : off+n]}
			} else {
				fr.regs[dst] = a[off]
			}
			return true
		}
	case *ssa.FieldAddr:
		o := c.op(x.X)
		st := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		off := vm.fieldOff(st, x.Field)
		return func(vm *VM, fr *Frame) bool {
			p := o.get(fr)
			switch q := p.X.(type) {
			case *Obj:
				fr.regs[dst] = Val{N: p.N + uint64(off), X: q}
			case nil:
				vm.nilPanic()
			case *SymPtr:
				r := *q
				r.sub += off
				fr.regs[dst] = Val{X: &r}
			default:
				vm.unsupported("field of %T", p.X)
			}
			return true
		}
	case *ssa.Go:
		return c.bad("go statement")
	case *ssa.If:
		o := c.op(x.Cond)
		e0, e1 := c.edge(b, 0), c.edge(b, 1)
		return func(vm *VM, fr *Frame) bool {
			v := o.get(fr)
			var t bool
			if v.X == nil {
				t = v.N != 0
			} else {
				t = vm.decide(v.X.(*Term))
			}
			if t {
				e0.jump(fr)
			} else {
				e1.jump(fr)
			}
			return false
		}
	case *ssa.Index:
		return c.index(x, dst)
	case *ssa.IndexAddr:
		return c.indexAddr(x, dst)
	case *ssa.Jump:
		e := c.edge(b, 0)
		return func(vm *VM, fr *Frame) bool {
			e.jump(fr)
			return false
		}
	case *ssa.Lookup:
		return c.lookup(x, dst)
	case *ssa.MakeChan:
		return c.bad("channel")
	case *ssa.MakeClosure:
		fn := vm.fnOf(x.Fn.(*ssa.Function))
		var ops []opnd
		for _, bnd := range x.Bindings {
			ops = append(ops, c.op(bnd))
		}
		return func(vm *VM, fr *Frame) bool {
			free := make([]Val, len(ops))
			for i := range ops {
				free[i] = ops[i].get(fr)
			}
			fr.regs[dst] = Val{X: &Closure{fn: fn, free: free}}
			return true
		}
	case *ssa.MakeInterface:
		o := c.op(x.X)
		t := vm.canon(x.X.Type())
		return func(vm *VM, fr *Frame) bool {
			fr.regs[dst] = Val{X: &Iface{T: t, V: o.get(fr)}}
			return true
		}
	case *ssa.MakeMap:
		return func(vm *VM, fr *Frame) bool {
			fr.regs[dst] = Val{X: &MapObj{idx: map[any]int{}}}
			return true
		}
	case *ssa.MakeSlice:
		l, cp := c.op(x.Len), c.op(x.Cap)
		lk, ck := kindOf(x.Len.Type()), kindOf(x.Cap.Type())
		es := vm.slots(x.Type().Underlying().(*types.Slice).Elem())
		return func(vm *VM, fr *Frame) bool {
			n := int(int64(vm.conc(l.get(fr), lk)))
			m := int(int64(vm.conc(cp.get(fr), ck)))
			if n < 0 || n > 1<<40 {
				vm.rtPanic("makeslice: len out of range")
			}
			if m < n || m > 1<<40 {
				vm.rtPanic("makeslice: cap out of range")
			}
			if m > 1<<26 {
				vm.unsupported("huge allocation")
			}
			fr.regs[dst] = Val{X: &Slice{o: vm.newObj(m * es), len: n, cap: m, es: es}}
			return true
		}
	case *ssa.MapUpdate:
		m, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(vm *VM, fr *Frame) bool {
			mv := m.get(fr)
			if mv.X == nil {
				panic(goPanic{vm.rtErr("assignment to entry in nil map")})
			}
			vm.mapSet(mv.X.(*MapObj), kt, k.get(fr), v.get(fr))
			return true
		}
	case *ssa.Next:
		return c.next(x, dst)
	case *ssa.Panic:
		o := c.op(x.X)
		return func(vm *VM, fr *Frame) bool {
			panic(goPanic{o.get(fr)})
		}
	case *ssa.Range:
		o := c.op(x.X)
		_, isMap := x.X.Type().Underlying().(*types.Map)
		return func(vm *VM, fr *Frame) bool {
			v := o.get(fr)
			it := &RangeIter{pos: vm.newObj(1), isStr: !isMap, str: v}
			if isMap && v.X != nil {
				it.m = v.X.(*MapObj)
				for i := range it.m.ents {
					if it.m.ents[i].live {
						it.order = append(it.order, i)
					}
				}
				if vm.explMaps && len(it.order) > 1 && vm.mapOrdN < vm.maxMap && fr.fn.repo {
					name := fmt.Sprintf("maporder%d", vm.mapOrdN)
					vm.mapOrdN++
					vm.imDirty = true
					if vm.decide(vm.tc.Var(name, wBool)) {
						for i, j := 0, len(it.order)-1; i < j; i, j = i+1, j-1 {
							it.order[i], it.order[j] = it.order[j], it.order[i]
						}
					}
				}
			}
			fr.regs[dst] = Val{X: it}
			return true
		}
	case *ssa.Return:
		var ops []opnd
		for _, r := range x.Results {
			ops = append(ops, c.op(r))
		}
		return func(vm *VM, fr *Frame) bool {
			switch len(ops) {
			case 0:
				vm.ret(fr, Val{})
			case 1:
				vm.ret(fr, ops[0].get(fr))
			default:
				t := make([]Val, len(ops))
				for i := range ops {
					t[i] = ops[i].get(fr)
				}
				vm.ret(fr, Val{X: t})
			}
			return false
		}
	case *ssa.RunDefers:
		return func(vm *VM, fr *Frame) bool {
			for {
				n := len(fr.defers)
				if n == 0 {
					return true
				}
				d := fr.defers[n-1]
				fr.defers = fr.defers[:n-1]
				if d.bi != nil {
					d.bi(vm, fr)
					continue
				}
				vm.callDeferred(fr, d)
				return false
			}
		}
	case *ssa.Select:
		return c.bad("select")
	case *ssa.Send:
		return c.bad("send")
	case *ssa.Slice:
		return c.slice(x, dst)
	case *ssa.SliceToArrayPointer:
		o := c.op(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(vm *VM, fr *Frame) bool {
			v := o.get(fr)
			if v.X == nil {
				if n > 0 {
					vm.rtPanic("cannot convert slice to array pointer")
				}
				fr.regs[dst] = Val{}
				return true
			}
			s := v.X.(*Slice)
			if s.len < n {
				vm.rtPanic(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.len, n))
			}
			fr.regs[dst] = Val{X: s.o, N: uint64(s.off)}
			return true
		}
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		t := x.Val.Type()
		if isAgg(t) {
			return func(vm *VM, fr *Frame) bool {
				vm.storeAgg(a.get(fr), v.get(fr).X.([]Val))
				return true
			}
		}
		k := kindOf(t)
		return func(vm *VM, fr *Frame) bool {
			p := a.get(fr)
			if o, ok := p.X.(*Obj); ok {
				vm.set(o, int(p.N), v.get(fr))
				return true
			}
			vm.storeSlow(p, v.get(fr), k)
			return true
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x, dst)
	}
	return c.bad("instruction %T", in)
}

func (vm *VM) nilPanic() { vm.rtPanic("invalid memory address or nil pointer dereference") }

func (vm *VM) rtErr(msg string) Val {
	return Val{X: &Iface{T: vm.w.rtErrType, V: strVal(msg)}}
}

// conc returns the concrete value of an integer slot (forking if symbolic).
func (vm *VM) conc(v Val, k kindInfo) uint64 {
	if v.X == nil {
		return v.N
	}
	t := v.X.(*Term)
	return k.norm(vm.concretize(t))
}

func (vm *VM) storeAgg(p Val, v []Val) {
	switch o := p.X.(type) {
	case *Obj:
		for i := range v {
			vm.set(o, int(p.N)+i, v[i])
		}
	case nil:
		vm.nilPanic()
	case *SymPtr:
		i := int(vm.concretize(o.idx))
		for j := range v {
			vm.set(o.o, o.base+i*o.es+o.sub+j, v[j])
		}
	default:
		vm.unsupported("store to %T", p.X)
	}
}

func (vm *VM) storeSlow(p Val, v Val, k kindInfo) {
	switch o := p.X.(type) {
	case *Obj:
		vm.set(o, int(p.N), v)
	case nil:
		vm.nilPanic()
	case *SymPtr:
		if k.k == kInt && o.n <= 64 && vm.scalarRange(o, k) {
			nt := vm.term(v, k)
			for i := 0; i < o.n; i++ {
				q := o.base + i*o.es + o.sub
				eq := vm.tc.Eq(o.idx, vm.tc.BV(64, uint64(i)))
				if eq == vm.tc.F {
					continue
				}
				vm.set(o.o, q, vm.val(vm.tc.Ite(eq, nt, vm.term(o.o.s[q], k)), k))
			}
			return
		}
		i := int(vm.concretize(o.idx))
		vm.set(o.o, o.base+i*o.es+o.sub, v)
	default:
		vm.unsupported("store to %T", p.X)
	}
}

func (vm *VM) scalarRange(p *SymPtr, k kindInfo) bool {
	for i := 0; i < p.n; i++ {
		s := &p.o.s[p.base+i*p.es+p.sub]
		if s.X == nil {
			continue
		}
		t, ok := s.X.(*Term)
		if !ok || (k.k == kInt && t.w != k.w) {
			return false
		}
	}
	return true
}

func (vm *VM) load(p Val, t types.Type, n int, agg bool, k kindInfo) Val {
	switch o := p.X.(type) {
	case *Obj:
		if !agg {
			return o.s[p.N]
		}
		r := make([]Val, n)
		copy(r, o.s[p.N:int(p.N)+n])
		return Val{X: r}
	case nil:
		vm.nilPanic()
	case *SymPtr:
		if !agg && (k.k == kInt || k.k == kBool) && o.n <= 1024 && vm.scalarRange(o, k) {
			return vm.val(vm.selTerm(o.idx, o.n, func(i int) *Term { return vm.term(o.o.s[o.base+i*o.es+o.sub], k) }), k)
		}
		i := int(vm.concretize(o.idx))
		q := o.base + i*o.es + o.sub
		if !agg {
			return o.o.s[q]
		}
		r := make([]Val, n)
		copy(r, o.o.s[q:q+n])
		return Val{X: r}
	}
	vm.unsupported("load from %T", p.X)
	return Val{}
}

// selTerm builds the value selected by idx (known < n), grouping equal runs.
func (vm *VM) selTerm(idx *Term, n int, at func(int) *Term) *Term {
	if idx.umax < uint64(n-1) {
		n = int(idx.umax) + 1
	}
	r := at(n - 1)
	for i := n - 2; i >= 0; i-- {
		t := at(i)
		if t == r && r.op != OIte {
			continue
		}
		// find start of run ending at i
		j := i
		for j > 0 && at(j-1) == t {
			j--
		}
		r = vm.tc.Ite(vm.tc.Ule(idx, vm.tc.BV(64, uint64(i))), t, r)
		i = j
	}
	return r
}

func (c *compiler) unop(x *ssa.UnOp, dst int) func(vm *VM, fr *Frame) bool {
	vm := c.vm
	o := c.op(x.X)
	t := x.Type()
	k := kindOf(t)
	switch x.Op {
	case token.MUL:
		n := vm.slots(t)
		agg := isAgg(t)
		return func(vm *VM, fr *Frame) bool {
			p := o.get(fr)
			if ob, ok := p.X.(*Obj); ok && !agg {
				fr.regs[dst] = ob.s[p.N]
				return true
			}
			fr.regs[dst] = vm.load(p, t, n, agg, k)
			return true
		}
	case token.NOT:
		return func(vm *VM, fr *Frame) bool {
			v := o.get(fr)
			if v.X == nil {
				fr.regs[dst] = Val{N: 1 - v.N}
			} else {
				fr.regs[dst] = vm.boolv(vm.tc.Not(v.X.(*Term)))
			}
			return true
		}
	case token.SUB:
		return func(vm *VM, fr *Frame) bool {
			v := o.get(fr)
			switch k.k {
			case kInt:
				if v.X == nil {
					fr.regs[dst] = Val{N: k.norm(-v.N)}
				} else {
					fr.regs[dst] = vm.val(vm.tc.Sub(vm.tc.BV(k.w, 0), v.X.(*Term)), k)
				}
			case kFloat:
				if v.X == nil {
					fr.regs[dst] = fbits(-v.f())
				} else {
					fr.regs[dst] = vm.fneg(v)
				}
			default:
				vm.unsupported("negation")
			}
			return true
		}
	case token.XOR:
		return func(vm *VM, fr *Frame) bool {
			v := o.get(fr)
			if v.X == nil {
				fr.regs[dst] = Val{N: k.norm(^v.N)}
			} else {
				fr.regs[dst] = vm.val(vm.tc.BNot(v.X.(*Term)), k)
			}
			return true
		}
	}
	return c.bad("unary %s", x.Op)
}

func (c *compiler) binop(x *ssa.BinOp, dst int) func(vm *VM, fr *Frame) bool {
	a, b := c.op(x.X), c.op(x.Y)
	xt := x.X.Type()
	op := x.Op
	k := kindOf(xt)
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if k.k == kInt || k.k == kBool {
			return func(vm *VM, fr *Frame) bool {
				p, q := a.get(fr), b.get(fr)
				if p.X == nil && q.X == nil {
					fr.regs[dst] = boolVal((p.N == q.N) != neg)
					return true
				}
				t := vm.tc.Eq(vm.term(p, k), vm.term(q, k))
				if neg {
					t = vm.tc.Not(t)
				}
				fr.regs[dst] = vm.boolv(t)
				return true
			}
		}
		return func(vm *VM, fr *Frame) bool {
			t := vm.eqTerm(xt, a.get(fr), b.get(fr))
			if neg {
				t = vm.tc.Not(t)
			}
			fr.regs[dst] = vm.boolv(t)
			return true
		}
	case token.SHL, token.SHR:
		yk := kindOf(x.Y.Type())
		return func(vm *VM, fr *Frame) bool {
			fr.regs[dst] = vm.shift(op == token.SHL, k, yk, a.get(fr), b.get(fr))
			return true
		}
	}
	switch k.k {
	case kInt:
		var fast func(p, q uint64) uint64
		switch op {
		case token.ADD:
			fast = func(p, q uint64) uint64 { return k.norm(p + q) }
		case token.SUB:
			fast = func(p, q uint64) uint64 { return k.norm(p - q) }
		case token.MUL:
			fast = func(p, q uint64) uint64 { return k.norm(p * q) }
		case token.AND:
			fast = func(p, q uint64) uint64 { return p & q }
		case token.OR:
			fast = func(p, q uint64) uint64 { return p | q }
		case token.XOR:
			fast = func(p, q uint64) uint64 { return k.norm(p ^ q) }
		case token.AND_NOT:
			fast = func(p, q uint64) uint64 { return k.norm(p &^ q) }
		case token.LSS:
			fast = func(p, q uint64) uint64 {
				if k.signed {
					return b2u(int64(p) < int64(q))
				}
				return b2u(p < q)
			}
		case token.LEQ:
			fast = func(p, q uint64) uint64 {
				if k.signed {
					return b2u(int64(p) <= int64(q))
				}
				return b2u(p <= q)
			}
		case token.GTR:
			fast = func(p, q uint64) uint64 {
				if k.signed {
					return b2u(int64(p) > int64(q))
				}
				return b2u(p > q)
			}
		case token.GEQ:
			fast = func(p, q uint64) uint64 {
				if k.signed {
					return b2u(int64(p) >= int64(q))
				}
				return b2u(p >= q)
			}
		}
		return func(vm *VM, fr *Frame) bool {
			p, q := a.get(fr), b.get(fr)
			if fast != nil && p.X == nil && q.X == nil {
				fr.regs[dst] = Val{N: fast(p.N, q.N)}
				return true
			}
			fr.regs[dst] = vm.intBin(op, k, p, q)
			return true
		}
	case kFloat:
		return func(vm *VM, fr *Frame) bool {
			fr.regs[dst] = vm.floatBin(op, k, a.get(fr), b.get(fr))
			return true
		}
	case kString:
		return func(vm *VM, fr *Frame) bool {
			p, q := a.get(fr), b.get(fr)
			if op == token.ADD {
				fr.regs[dst] = vm.concat(p, q)
				return true
			}
			ps, ok1 := concStr(p)
			qs, ok2 := concStr(q)
			var t *Term
			if ok1 && ok2 {
				r := false
				switch op {
				case token.LSS:
					r = ps < qs
				case token.LEQ:
					r = ps <= qs
				case token.GTR:
					r = ps > qs
				case token.GEQ:
					r = ps >= qs
				}
				t = vm.tc.Bool(r)
			} else {
				switch op {
				case token.LSS:
					t = vm.strLess(p, q)
				case token.LEQ:
					t = vm.tc.Not(vm.strLess(q, p))
				case token.GTR:
					t = vm.strLess(q, p)
				case token.GEQ:
					t = vm.tc.Not(vm.strLess(p, q))
				}
			}
			fr.regs[dst] = vm.boolv(t)
			return true
		}
	}
	return c.bad("binop %s on %s", op, xt)
}

func (vm *VM) concat(p, q Val) Val {
	if p.X == nil {
		return q
	}
	if q.X == nil {
		return p
	}
	ps, ok1 := p.X.(string)
	qs, ok2 := q.X.(string)
	if ok1 && ok2 {
		return Val{X: ps + qs}
	}
	pb, qb := strBytes(p), strBytes(q)
	r := make([]Val, 0, len(pb)+len(qb))
	r = append(append(r, pb...), qb...)
	return mkStr(r)
}

func (vm *VM) strLess(p, q Val) *Term {
	pb, qb := strBytes(p), strBytes(q)
	n := min(len(pb), len(qb))
	r := vm.tc.Bool(len(pb) < len(qb))
	for i := n - 1; i >= 0; i-- {
		x, y := vm.byteT(pb[i]), vm.byteT(qb[i])
		r = vm.tc.Or(vm.tc.Ult(x, y), vm.tc.And(vm.tc.Eq(x, y), r))
	}
	return r
}

func (vm *VM) intBin(op token.Token, k kindInfo, p, q Val) Val {
	tc := vm.tc
	if p.X == nil && q.X == nil {
		switch op {
		case token.QUO, token.REM:
			if q.N == 0 {
				vm.rtPanic("integer divide by zero")
			}
			if k.signed {
				a, b := int64(p.N), int64(q.N)
				if b == -1 {
					if op == token.QUO {
						return Val{N: k.norm(uint64(-a))}
					}
					return Val{}
				}
				if op == token.QUO {
					return Val{N: k.norm(uint64(a / b))}
				}
				return Val{N: k.norm(uint64(a % b))}
			}
			if op == token.QUO {
				return Val{N: p.N / q.N}
			}
			return Val{N: p.N % q.N}
		}
	}
	a, b := vm.term(p, k), vm.term(q, k)
	switch op {
	case token.ADD:
		return vm.val(tc.Add(a, b), k)
	case token.SUB:
		return vm.val(tc.Sub(a, b), k)
	case token.MUL:
		return vm.val(tc.Mul(a, b), k)
	case token.AND:
		return vm.val(tc.BAnd(a, b), k)
	case token.OR:
		return vm.val(tc.BOr(a, b), k)
	case token.XOR:
		return vm.val(tc.BXor(a, b), k)
	case token.AND_NOT:
		return vm.val(tc.BAnd(a, tc.BNot(b)), k)
	case token.QUO, token.REM:
		if vm.decide(tc.Eq(b, tc.BV(k.w, 0))) {
			vm.rtPanic("integer divide by zero")
		}
		if k.signed {
			la, _ := tc.srange(a)
			lb, _ := tc.srange(b)
			if la >= 0 && lb >= 0 {
				if op == token.QUO {
					return vm.val(tc.Udiv(a, b), k)
				}
				return vm.val(tc.Urem(a, b), k)
			}
			if op == token.QUO {
				return vm.val(tc.Sdiv(a, b), k)
			}
			return vm.val(tc.Srem(a, b), k)
		}
		if op == token.QUO {
			return vm.val(tc.Udiv(a, b), k)
		}
		return vm.val(tc.Urem(a, b), k)
	case token.LSS:
		if k.signed {
			return vm.boolv(tc.Slt(a, b))
		}
		return vm.boolv(tc.Ult(a, b))
	case token.LEQ:
		if k.signed {
			return vm.boolv(tc.Sle(a, b))
		}
		return vm.boolv(tc.Ule(a, b))
	case token.GTR:
		if k.signed {
			return vm.boolv(tc.Slt(b, a))
		}
		return vm.boolv(tc.Ult(b, a))
	case token.GEQ:
		if k.signed {
			return vm.boolv(tc.Sle(b, a))
		}
		return vm.boolv(tc.Ule(b, a))
	}
	vm.unsupported("int op %s", op)
	return Val{}
}

func (vm *VM) shift(left bool, k, yk kindInfo, p, q Val) Val {
	if q.X == nil {
		if yk.signed && int64(q.N) < 0 {
			vm.rtPanic("negative shift amount")
		}
		n := q.N
		if p.X == nil {
			if left {
				if n >= 64 {
					return Val{}
				}
				return Val{N: k.norm(p.N << n)}
			}
			if k.signed {
				if n > 63 {
					n = 63
				}
				return Val{N: uint64(int64(p.N) >> n)}
			}
			if n >= 64 {
				return Val{}
			}
			return Val{N: p.N >> n}
		}
		a := p.X.(*Term)
		if n >= uint64(k.w) {
			if left || !k.signed {
				return Val{}
			}
			n = uint64(k.w - 1)
		}
		nt := vm.tc.BV(k.w, n)
		if left {
			return vm.val(vm.tc.Shl(a, nt), k)
		}
		if k.signed {
			return vm.val(vm.tc.Ashr(a, nt), k)
		}
		return vm.val(vm.tc.Lshr(a, nt), k)
	}
	y := q.X.(*Term)
	if yk.signed && vm.decide(vm.tc.Slt(y, vm.tc.BV(y.w, 0))) {
		vm.rtPanic("negative shift amount")
	}
	a := vm.term(p, k)
	var yt, big *Term
	big = vm.tc.F
	if y.w > k.w {
		big = vm.tc.Not(vm.tc.Ult(y, vm.tc.BV(y.w, uint64(k.w))))
		yt = vm.tc.Extract(k.w-1, 0, y)
	} else {
		yt = vm.tc.Zext(y, k.w)
	}
	var r *Term
	switch {
	case left:
		r = vm.tc.Ite(big, vm.tc.BV(k.w, 0), vm.tc.Shl(a, yt))
	case k.signed:
		r = vm.tc.Ite(big, vm.tc.Ashr(a, vm.tc.BV(k.w, uint64(k.w-1))), vm.tc.Ashr(a, yt))
	default:
		r = vm.tc.Ite(big, vm.tc.BV(k.w, 0), vm.tc.Lshr(a, yt))
	}
	return vm.val(r, k)
}

// ---- equality

func (vm *VM) strEq(p, q Val) *Term {
	ps, ok1 := concStr(p)
	qs, ok2 := concStr(q)
	if ok1 && ok2 {
		return vm.tc.Bool(ps == qs)
	}
	pb, qb := strBytes(p), strBytes(q)
	if len(pb) != len(qb) {
		return vm.tc.F
	}
	return vm.bytesEq(pb, qb)
}

func (vm *VM) bytesEq(pb, qb []Val) *Term {
	for i := range pb {
		if pb[i].X == nil && qb[i].X == nil && pb[i].N != qb[i].N {
			return vm.tc.F
		}
	}
	r := vm.tc.T
	for i := range pb {
		if pb[i].X == nil && qb[i].X == nil {
			continue
		}
		r = vm.tc.And(r, vm.tc.Eq(vm.byteT(pb[i]), vm.byteT(qb[i])))
		if r == vm.tc.F {
			return r
		}
	}
	return r
}

func (vm *VM) eqTerm(t types.Type, a, b Val) *Term {
	tc := vm.tc
	switch u := t.Underlying().(type) {
	case *types.Basic:
		k := kindOf(t)
		switch k.k {
		case kInt, kBool:
			if a.X == nil && b.X == nil {
				return tc.Bool(a.N == b.N)
			}
			return tc.Eq(vm.term(a, k), vm.term(b, k))
		case kString:
			return vm.strEq(a, b)
		case kFloat:
			if a.X == nil && b.X == nil {
				return tc.Bool(a.f() == b.f())
			}
			return tc.Eq(vm.real(a), vm.real(b))
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return vm.ptrEq(a, b)
		}
	case *types.Pointer:
		return vm.ptrEq(a, b)
	case *types.Interface:
		if a.X == nil || b.X == nil {
			return tc.Bool(a.X == nil && b.X == nil)
		}
		x, ok1 := a.X.(*Iface)
		y, ok2 := b.X.(*Iface)
		if !ok1 || !ok2 {
			vm.unsupported("interface compare %T %T", a.X, b.X)
		}
		if x.T != y.T {
			return tc.F
		}
		if !types.Comparable(x.T) {
			vm.rtPanic("comparing uncomparable type " + x.T.String())
		}
		return vm.eqTerm(x.T, x.V, y.V)
	case *types.Struct:
		x, y := a.X.([]Val), b.X.([]Val)
		r := tc.T
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			n := vm.slots(ft)
			if u.Field(i).Name() != "_" {
				r = tc.And(r, vm.eqTerm(ft, vm.sub(x, off, n, ft), vm.sub(y, off, n, ft)))
			}
			off += n
		}
		return r
	case *types.Array:
		x, y := a.X.([]Val), b.X.([]Val)
		r := tc.T
		n := vm.slots(u.Elem())
		for i := 0; i < int(u.Len()); i++ {
			r = tc.And(r, vm.eqTerm(u.Elem(), vm.sub(x, i*n, n, u.Elem()), vm.sub(y, i*n, n, u.Elem())))
		}
		return r
	case *types.Slice, *types.Map, *types.Signature:
		return tc.Bool(a.X == nil && b.X == nil)
	case *types.Chan:
		return tc.Bool(a.X == b.X)
	}
	vm.unsupported("compare %s", t)
	return nil
}

func (vm *VM) sub(a []Val, off, n int, t types.Type) Val {
	if isAgg(t) {
		return Val{X: a[off : off+n : off+n]}
	}
	return a[off]
}

func (vm *VM) ptrEq(a, b Val) *Term {
	if _, ok := a.X.(*SymPtr); ok {
		vm.unsupported("comparing symbolic pointers")
	}
	return vm.tc.Bool(a.X == b.X && (a.N == b.N || a.X == nil))
}

// ---- index

func (vm *VM) boundsIdx(v Val, k kindInfo, n int) (int, *Term) {
	if v.X == nil {
		i := int64(v.N)
		if (k.signed && i < 0) || uint64(i) >= uint64(n) {
			vm.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := v.X.(*Term)
	if k.signed {
		t = vm.tc.Sext(t, 64)
	} else {
		t = vm.tc.Zext(t, 64)
	}
	if !vm.decide(vm.tc.Ult(t, vm.tc.BV(64, uint64(n)))) {
		vm.rtPanic(fmt.Sprintf("index out of range [?] with length %d", n))
	}
	if t.isC() {
		return int(t.k), nil
	}
	return 0, t
}

func (c *compiler) indexAddr(x *ssa.IndexAddr, dst int) func(vm *VM, fr *Frame) bool {
	vm := c.vm
	o, ix := c.op(x.X), c.op(x.Index)
	k := kindOf(x.Index.Type())
	var es, alen int
	isArr := false
	switch u := x.X.Type().Underlying().(type) {
	case *types.Slice:
		es = vm.slots(u.Elem())
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		es = vm.slots(at.Elem())
		alen = int(at.Len())
		isArr = true
	default:
		return c.bad("IndexAddr %s", x.X.Type())
	}
	return func(vm *VM, fr *Frame) bool {
		v := o.get(fr)
		var ob *Obj
		base, n := 0, alen
		if isArr {
			switch q := v.X.(type) {
			case *Obj:
				ob = q
				base = int(v.N)
			case nil:
				vm.nilPanic()
			case *SymPtr:
				i := int(vm.concretize(q.idx))
				ob = q.o
				base = q.base + i*q.es + q.sub
			default:
				vm.unsupported("index of %T", v.X)
			}
		} else if v.X != nil {
			s := v.X.(*Slice)
			ob, base, n = s.o, s.off, s.len
		} else {
			n = 0
		}
		i, t := vm.boundsIdx(ix.get(fr), k, n)
		if t == nil {
			fr.regs[dst] = Val{X: ob, N: uint64(base + i*es)}
		} else {
			fr.regs[dst] = Val{X: &SymPtr{o: ob, base: base, es: es, n: n, idx: t}}
		}
		return true
	}
}

func (c *compiler) index(x *ssa.Index, dst int) func(vm *VM, fr *Frame) bool {
	vm := c.vm
	o, ix := c.op(x.X), c.op(x.Index)
	k := kindOf(x.Index.Type())
	if kindOf(x.X.Type()).k == kString {
		return func(vm *VM, fr *Frame) bool {
			fr.regs[dst] = vm.strIndex(o.get(fr), ix.get(fr), k)
			return true
		}
	}
	at, ok := x.X.Type().Underlying().(*types.Array)
	if !ok {
		return c.bad("Index %s", x.X.Type())
	}
	es := vm.slots(at.Elem())
	agg := isAgg(at.Elem())
	ek := kindOf(at.Elem())
	n := int(at.Len())
	return func(vm *VM, fr *Frame) bool {
		a := o.get(fr).X.([]Val)
		i, t := vm.boundsIdx(ix.get(fr), k, n)
		if t != nil {
			p := &SymPtr{o: &Obj{s: a}, es: es, n: n, idx: t}
			fr.regs[dst] = vm.load(Val{X: p}, at.Elem(), es, agg, ek)
			return true
		}
		fr.regs[dst] = vm.sub(a, i*es, es, at.Elem())
		return true
	}
}

func (vm *VM) strIndex(s, ix Val, k kindInfo) Val {
	n := strLen(s)
	i, t := vm.boundsIdx(ix, k, n)
	if t == nil {
		return strAt(s, i)
	}
	b := strBytes(s)
	return vm.val(vm.selTerm(t, n, func(i int) *Term { return vm.byteT(b[i]) }), kindInfo{kInt, false, 8})
}

// ---- slicing

func (c *compiler) slice(x *ssa.Slice, dst int) func(vm *VM, fr *Frame) bool {
	vm := c.vm
	o := c.op(x.X)
	var lo, hi, mx *opnd
	var lk, hk, mk kindInfo
	if x.Low != nil {
		q := c.op(x.Low)
		lo, lk = &q, kindOf(x.Low.Type())
	}
	if x.High != nil {
		q := c.op(x.High)
		hi, hk = &q, kindOf(x.High.Type())
	}
	if x.Max != nil {
		q := c.op(x.Max)
		mx, mk = &q, kindOf(x.Max.Type())
	}
	isStr := kindOf(x.X.Type()).k == kString
	alen, es := -1, 1
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		alen = int(at.Len())
		es = vm.slots(at.Elem())
	case *types.Slice:
		es = vm.slots(u.Elem())
	}
	return func(vm *VM, fr *Frame) bool {
		v := o.get(fr)
		l, h, m := int64(0), int64(-1), int64(-1)
		ln, cp := 0, 0
		var ob *Obj
		off := 0
		if isStr {
			ln = strLen(v)
			cp = ln
		} else if alen >= 0 {
			switch q := v.X.(type) {
			case *Obj:
				ob = q
				off = int(v.N)
			case *SymPtr:
				ob = q.o
				off = q.base + int(vm.concretize(q.idx))*q.es + q.sub
			default:
				vm.nilPanic()
			}
			ln, cp = alen, alen
		} else if v.X != nil {
			s := v.X.(*Slice)
			ob, off, ln, cp = s.o, s.off, s.len, s.cap
		}
		sz := func(p *opnd, k kindInfo) int64 {
			pv := p.get(fr)
			if pv.X != nil {
				// split off out-of-range values first
				t := pv.X.(*Term)
				if k.signed {
					t = vm.tc.Sext(t, 64)
				} else {
					t = vm.tc.Zext(t, 64)
				}
				if !vm.decide(vm.tc.Ule(t, vm.tc.BV(64, uint64(cp)))) {
					vm.rtPanic("slice bounds out of range")
				}
			}
			return int64(vm.conc(pv, k))
		}
		if lo != nil {
			l = sz(lo, lk)
		}
		if hi != nil {
			h = sz(hi, hk)
		} else {
			h = int64(ln)
		}
		if mx != nil {
			m = sz(mx, mk)
		} else {
			m = int64(cp)
		}
		if l < 0 || h < l || m < h || m > int64(cp) {
			vm.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cp))
		}
		if isStr {
			fr.regs[dst] = substr(v, int(l), int(h))
			return true
		}
		if v.X == nil {
			fr.regs[dst] = Val{}
			return true
		}
		fr.regs[dst] = Val{X: &Slice{o: ob, off: off + int(l)*es, len: int(h - l), cap: int(m - l), es: es}}
		return true
	}
}

// ---- maps

type ikey struct {
	t types.Type
	k any
}

// mapKey gives a comparable Go value for a concrete key.
func (vm *VM) mapKey(t types.Type, v Val) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if kindOf(t).k == kString {
			s, ok := concStr(v)
			return s, ok
		}
		if v.X != nil {
			if o, ok := v.X.(*Obj); ok {
				return [2]any{o, v.N}, true
			}
			return nil, false
		}
		return v.N, true
	case *types.Pointer, *types.Chan:
		return [2]any{v.X, v.N}, true
	case *types.Interface:
		if v.X == nil {
			return nil, true
		}
		i := v.X.(*Iface)
		if !types.Comparable(i.T) {
			vm.rtPanic("hash of unhashable type " + i.T.String())
		}
		k, ok := vm.mapKey(i.T, i.V)
		return ikey{i.T, k}, ok
	case *types.Struct:
		a := v.X.([]Val)
		s := ""
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			n := vm.slots(u.Field(i).Type())
			k, ok := vm.mapKey(u.Field(i).Type(), vm.sub(a, off, n, u.Field(i).Type()))
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%#v|", k)
			off += n
		}
		return s, true
	case *types.Array:
		a := v.X.([]Val)
		n := vm.slots(u.Elem())
		s := ""
		for i := 0; i < int(u.Len()); i++ {
			k, ok := vm.mapKey(u.Elem(), vm.sub(a, i*n, n, u.Elem()))
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%#v|", k)
		}
		return s, true
	}
	vm.unsupported("map key %s", t)
	return nil, false
}

// mapFind returns the entry index or -1 (forking on symbolic keys).
func (vm *VM) mapFind(m *MapObj, kt types.Type, k Val) (int, any, bool) {
	key, ok := vm.mapKey(kt, k)
	if ok && m.nsym == 0 {
		if i, have := m.idx[key]; have {
			return i, key, true
		}
		return -1, key, true
	}
	if ok {
		if i, have := m.idx[key]; have {
			return i, key, true
		}
	}
	for i := range m.ents {
		e := &m.ents[i]
		if !e.live {
			continue
		}
		if ok {
			if _, c := vm.mapKey(kt, e.k); c {
				continue // concrete against concrete: already decided above
			}
		}
		if vm.decide(vm.eqTerm(kt, e.k, k)) {
			return i, key, ok
		}
	}
	return -1, key, ok
}

func (vm *VM) mapSet(m *MapObj, kt types.Type, k, v Val) {
	i, key, conc := vm.mapFind(m, kt, k)
	if i >= 0 {
		old := m.ents[i].v
		m.ents[i].v = v
		vm.undoFn(func() { m.ents[i].v = old })
		return
	}
	n := len(m.ents)
	m.ents = append(m.ents, ment{k: k, v: v, live: true})
	m.n++
	if conc {
		m.idx[key] = n
	} else {
		m.nsym++
	}
	vm.undoFn(func() {
		m.ents = m.ents[:n]
		m.n--
		if conc {
			delete(m.idx, key)
		} else {
			m.nsym--
		}
	})
}

func (vm *VM) mapDelete(m *MapObj, kt types.Type, k Val) {
	i, _, _ := vm.mapFind(m, kt, k)
	if i < 0 {
		return
	}
	ek, conc := vm.mapKey(kt, m.ents[i].k)
	m.ents[i].live = false
	m.n--
	if conc {
		delete(m.idx, ek)
	} else {
		m.nsym--
	}
	vm.undoFn(func() {
		m.ents[i].live = true
		m.n++
		if conc {
			m.idx[ek] = i
		} else {
			m.nsym++
		}
	})
}

func (c *compiler) lookup(x *ssa.Lookup, dst int) func(vm *VM, fr *Frame) bool {
	o, ix := c.op(x.X), c.op(x.Index)
	if kindOf(x.X.Type()).k == kString {
		k := kindOf(x.Index.Type())
		return func(vm *VM, fr *Frame) bool {
			fr.regs[dst] = vm.strIndex(o.get(fr), ix.get(fr), k)
			return true
		}
	}
	mt := x.X.Type().Underlying().(*types.Map)
	kt, vt := mt.Key(), mt.Elem()
	ok := x.CommaOk
	return func(vm *VM, fr *Frame) bool {
		m := o.get(fr)
		i := -1
		if m.X != nil {
			i, _, _ = vm.mapFind(m.X.(*MapObj), kt, ix.get(fr))
		}
		var v Val
		if i >= 0 {
			v = m.X.(*MapObj).ents[i].v
		} else {
			v = vm.zero(vt)
		}
		if ok {
			fr.regs[dst] = Val{X: []Val{v, boolVal(i >= 0)}}
		} else {
			fr.regs[dst] = v
		}
		return true
	}
}

func (c *compiler) next(x *ssa.Next, dst int) func(vm *VM, fr *Frame) bool {
	o := c.op(x.Iter)
	tup := x.Type().(*types.Tuple)
	return func(vm *VM, fr *Frame) bool {
		it := o.get(fr).X.(*RangeIter)
		p := int(it.pos.s[0].N)
		if it.isStr {
			if p >= strLen(it.str) {
				fr.regs[dst] = Val{X: []Val{{}, {}, {}}}
				return true
			}
			r, n := vm.decodeRune(it.str, p)
			fr.regs[dst] = Val{X: []Val{{N: 1}, {N: uint64(p)}, r}}
			vm.set(it.pos, 0, Val{N: uint64(p + n)})
			return true
		}
		for p < len(it.order) && !it.m.ents[it.order[p]].live {
			p++
		}
		if p >= len(it.order) {
			z := []Val{{}, {}, {}}
			if tup.At(1).Type() != nil && !isInvalid(tup.At(1).Type()) {
				z[1] = vm.zero(tup.At(1).Type())
			}
			if !isInvalid(tup.At(2).Type()) {
				z[2] = vm.zero(tup.At(2).Type())
			}
			fr.regs[dst] = Val{X: z}
			vm.set(it.pos, 0, Val{N: uint64(p)})
			return true
		}
		e := &it.m.ents[it.order[p]]
		fr.regs[dst] = Val{X: []Val{{N: 1}, e.k, e.v}}
		vm.set(it.pos, 0, Val{N: uint64(p + 1)})
		return true
	}
}

func isInvalid(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.Invalid
}

// ---- type assertions and methods

func (vm *VM) implements(t types.Type, it *types.Interface, key types.Type) bool {
	k := [2]types.Type{t, key}
	if r, ok := vm.implCache[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	vm.implCache[k] = r
	return r
}

func (c *compiler) typeAssert(x *ssa.TypeAssert, dst int) func(vm *VM, fr *Frame) bool {
	vm := c.vm
	o := c.op(x.X)
	at := x.AssertedType
	it, isI := at.Underlying().(*types.Interface)
	ct := vm.canon(at)
	ok := x.CommaOk
	return func(vm *VM, fr *Frame) bool {
		v := o.get(fr)
		hit := false
		var r Val
		if v.X != nil {
			i := v.X.(*Iface)
			if isI {
				hit = vm.implements(i.T, it, ct)
				r = v
			} else {
				hit = i.T == ct
				r = i.V
			}
		}
		if !hit {
			if !ok {
				d := "nil"
				if v.X != nil {
					d = v.X.(*Iface).T.String()
				}
				vm.rtPanic("interface conversion: interface is " + d + ", not " + at.String())
			}
			r = vm.zero(at)
		}
		if ok {
			fr.regs[dst] = Val{X: []Val{r, boolVal(hit)}}
		} else {
			fr.regs[dst] = r
		}
		return true
	}
}

func (vm *VM) method(t types.Type, m *types.Func) *Fn {
	name := m.Name()
	if !m.Exported() && m.Pkg() != nil {
		name = m.Pkg().Path() + "." + name
	}
	k := methKey{t, name}
	if f, ok := vm.methCache[k]; ok {
		return f
	}
	vm.w.progMu.Lock()
	sel := vm.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	var f *ssa.Function
	if sel != nil {
		f = vm.prog.MethodValue(sel)
	}
	vm.w.progMu.Unlock()
	if f == nil {
		vm.unsupported("method %s of %s", name, t)
	}
	fn := vm.fnOf(f)
	vm.methCache[k] = fn
	return fn
}

// methodByName finds an exported method of a dynamic type, or nil.
func (vm *VM) methodByName(t types.Type, name string) *Fn {
	k := methKey{t, name}
	if f, ok := vm.methCache[k]; ok {
		return f
	}
	vm.w.progMu.Lock()
	defer vm.w.progMu.Unlock()
	sel := vm.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	f := vm.prog.MethodValue(sel)
	if f == nil {
		return nil
	}
	fn := vm.fnOf(f)
	vm.methCache[k] = fn
	return fn
}

// ---- calls

func (c *compiler) call(cc *ssa.CallCommon, dst int, in ssa.Instruction) func(vm *VM, fr *Frame) bool {
	vm := c.vm
	ops := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		ops[i] = c.op(a)
	}
	if cc.IsInvoke() {
		rv := c.op(cc.Value)
		m := cc.Method
		return func(vm *VM, fr *Frame) bool {
			v := rv.get(fr)
			if v.X == nil {
				vm.nilPanic()
			}
			i := v.X.(*Iface)
			f := vm.method(i.T, m)
			args := make([]Val, len(ops)+1)
			args[0] = i.V
			for j := range ops {
				args[j+1] = ops[j].get(fr)
			}
			return vm.call(fr, f, nil, args, dst)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return c.builtin(b, cc, ops, dst)
	}
	if f := cc.StaticCallee(); f != nil {
		if _, isClosure := cc.Value.(*ssa.MakeClosure); !isClosure {
			fn := vm.fnOf(f)
			return func(vm *VM, fr *Frame) bool {
				args := make([]Val, len(ops))
				for j := range ops {
					args[j] = ops[j].get(fr)
				}
				return vm.call(fr, fn, nil, args, dst)
			}
		}
	}
	fv := c.op(cc.Value)
	return func(vm *VM, fr *Frame) bool {
		v := fv.get(fr)
		if v.X == nil {
			vm.nilPanic()
		}
		cl := v.X.(*Closure)
		args := make([]Val, len(ops))
		for j := range ops {
			args[j] = ops[j].get(fr)
		}
		return vm.call(fr, cl.fn, cl.free, args, dst)
	}
}

func (c *compiler) deferInstr(x *ssa.Defer) func(vm *VM, fr *Frame) bool {
	cc := &x.Call
	ops := make([]opnd, len(cc.Args))
	for i, a := range cc.Args {
		ops[i] = c.op(a)
	}
	get := func(fr *Frame, n int) []Val {
		args := make([]Val, n, n+len(ops))
		for j := range ops {
			args = append(args, ops[j].get(fr))
		}
		return args
	}
	if cc.IsInvoke() {
		rv := c.op(cc.Value)
		m := cc.Method
		return func(vm *VM, fr *Frame) bool {
			v := rv.get(fr)
			if v.X == nil {
				vm.nilPanic()
			}
			i := v.X.(*Iface)
			args := get(fr, 1)
			args[0] = i.V
			fr.defers = append(fr.defers, deferred{fn: &Closure{fn: vm.method(i.T, m)}, args: args})
			return true
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		name := b.Name()
		return func(vm *VM, fr *Frame) bool {
			switch name {
			case "close", "print", "println", "recover":
			case "delete", "clear", "copy":
				now := make([]opnd, len(ops))
				for i := range ops {
					now[i] = opnd{r: -1, v: ops[i].get(fr)}
				}
				run := c.builtin(b, cc, now, -1)
				fr.defers = append(fr.defers, deferred{bi: func(vm *VM, fr *Frame) { run(vm, fr) }})
			default:
				vm.unsupported("deferred builtin %s", name)
			}
			return true
		}
	}
	fv := c.op(cc.Value)
	return func(vm *VM, fr *Frame) bool {
		v := fv.get(fr)
		if v.X == nil {
			vm.nilPanic()
		}
		fr.defers = append(fr.defers, deferred{fn: v.X.(*Closure), args: get(fr, 0)})
		return true
	}
}

// ---- conversions

func (c *compiler) convert(from, to types.Type, o opnd, dst int) func(vm *VM, fr *Frame) bool {
	fk, tk := kindOf(from), kindOf(to)
	simple := func(f func(vm *VM, v Val) Val) func(vm *VM, fr *Frame) bool {
		return func(vm *VM, fr *Frame) bool {
			fr.regs[dst] = f(vm, o.get(fr))
			return true
		}
	}
	switch {
	case fk.k == kInt && tk.k == kInt:
		return simple(func(vm *VM, v Val) Val { return vm.convInt(v, fk, tk) })
	case fk.k == kInt && tk.k == kFloat:
		return simple(func(vm *VM, v Val) Val {
			if v.X == nil {
				var f float64
				if fk.signed {
					f = float64(int64(v.N))
				} else {
					f = float64(v.N)
				}
				if tk.w == 32 {
					if fk.signed {
						f = float64(float32(int64(v.N)))
					} else {
						f = float64(float32(v.N))
					}
				}
				return fbits(f)
			}
			return vm.intToFloat(v.X.(*Term), fk)
		})
	case fk.k == kFloat && tk.k == kInt:
		return simple(func(vm *VM, v Val) Val {
			if v.X == nil {
				f := v.f()
				if tk.signed {
					return Val{N: tk.norm(uint64(int64(f)))}
				}
				return Val{N: tk.norm(uint64(f))}
			}
			return vm.floatToInt(v.X.(*FSym), tk)
		})
	case fk.k == kFloat && tk.k == kFloat:
		return simple(func(vm *VM, v Val) Val {
			if v.X == nil {
				if tk.w == 32 {
					return fbits(float64(float32(v.f())))
				}
				return v
			}
			if tk.w == 32 && fk.w != 32 {
				return vm.toFloat32(v)
			}
			return v
		})
	case tk.k == kString && fk.k == kInt:
		return simple(func(vm *VM, v Val) Val {
			return mkStr(vm.encodeRune(vm.convInt(v, fk, kindInfo{kInt, true, 64}), kindInfo{kInt, true, 64}))
		})
	case tk.k == kString && fk.k == kString:
		return simple(func(vm *VM, v Val) Val { return v })
	}
	if sl, ok := from.Underlying().(*types.Slice); ok && tk.k == kString {
		ek := kindOf(sl.Elem())
		if ek.w == 8 {
			return simple(func(vm *VM, v Val) Val {
				sv := sliceVals(v)
				for i := range sv {
					if sv[i].X != nil {
						return Val{X: &SymStr{append([]Val(nil), sv...)}}
					}
				}
				return mkStr(sv)
			})
		}
		return simple(func(vm *VM, v Val) Val {
			var b []Val
			for _, r := range sliceVals(v) {
				b = append(b, vm.encodeRune(r, ek)...)
			}
			return mkStr(b)
		})
	}
	if sl, ok := to.Underlying().(*types.Slice); ok && fk.k == kString {
		ek := kindOf(sl.Elem())
		if ek.w == 8 {
			return simple(func(vm *VM, v Val) Val {
				n := strLen(v)
				ob := vm.newObj(roundCap(n, 1))
				if s, ok := v.X.(string); ok {
					for i := 0; i < n; i++ {
						ob.s[i].N = uint64(s[i])
					}
				} else {
					copy(ob.s, strBytes(v))
				}
				cp := len(ob.s)
				return Val{X: &Slice{o: ob, len: n, cap: cp, es: 1}}
			})
		}
		return simple(func(vm *VM, v Val) Val {
			var rs []Val
			for p := 0; p < strLen(v); {
				r, n := vm.decodeRune(v, p)
				rs = append(rs, r)
				p += n
			}
			return vm.byteSlots(rs)
		})
	}
	// pointers, unsafe.Pointer, and identical underlying types
	if _, ok := to.Underlying().(*types.Pointer); ok {
		return simple(func(vm *VM, v Val) Val { return v })
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return simple(func(vm *VM, v Val) Val { return v })
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return simple(func(vm *VM, v Val) Val {
			if v.X == nil {
				return v
			}
			vm.unsupported("unsafe pointer to integer")
			return v
		})
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return simple(func(vm *VM, v Val) Val { return v })
	}
	return c.bad("convert %s to %s", from, to)
}

func (vm *VM) convInt(v Val, fk, tk kindInfo) Val {
	if v.X == nil {
		return Val{N: tk.norm(v.N)}
	}
	t, ok := v.X.(*Term)
	if !ok {
		vm.unsupported("integer conversion of %T", v.X)
	}
	if tk.w <= fk.w {
		return vm.val(vm.tc.Extract(tk.w-1, 0, t), tk)
	}
	if fk.signed {
		return vm.val(vm.tc.Sext(t, tk.w), tk)
	}
	return vm.val(vm.tc.Zext(t, tk.w), tk)
}

var rk = kindInfo{kInt, true, 32}

// decodeRune decodes at byte p of a string (as Go's range does).
func (vm *VM) decodeRune(s Val, p int) (Val, int) {
	if cs, ok := s.X.(string); ok {
		for i, r := range cs[p:] {
			if i == 0 {
				n := len(string(r))
				if r == 0xFFFD && !strings.HasPrefix(cs[p:], "\uFFFD") {
					n = 1
				}
				return Val{N: uint64(int64(r))}, n
			}
		}
	}
	return vm.decodeBytes(strBytes(s)[p:])
}

func (vm *VM) decodeBytes(b []Val) (Val, int) {
	tc := vm.tc
	bad := Val{N: 0xFFFD}
	b0 := vm.byteT(b[0])
	in := func(t *Term, lo, hi uint64) bool {
		return vm.decide(tc.And(tc.Ule(tc.BV(8, lo), t), tc.Ule(t, tc.BV(8, hi))))
	}
	ext := func(t *Term, n int) *Term { return tc.Zext(tc.Extract(n-1, 0, t), 32) }
	if in(b0, 0, 0x7f) {
		return vm.val(tc.Zext(b0, 32), rk), 1
	}
	shl := func(t *Term, n uint64) *Term { return tc.Shl(t, tc.BV(32, n)) }
	if in(b0, 0xC2, 0xDF) {
		if len(b) < 2 || !in(vm.byteT(b[1]), 0x80, 0xBF) {
			return bad, 1
		}
		return vm.val(tc.BOr(shl(ext(b0, 5), 6), ext(vm.byteT(b[1]), 6)), rk), 2
	}
	if in(b0, 0xE0, 0xEF) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(b0, 0xE0, 0xE0) {
			lo = 0xA0
		} else if in(b0, 0xED, 0xED) {
			hi = 0x9F
		}
		if len(b) < 3 || !in(vm.byteT(b[1]), lo, hi) || !in(vm.byteT(b[2]), 0x80, 0xBF) {
			return bad, 1
		}
		return vm.val(tc.BOr(tc.BOr(shl(ext(b0, 4), 12), shl(ext(vm.byteT(b[1]), 6), 6)), ext(vm.byteT(b[2]), 6)), rk), 3
	}
	if in(b0, 0xF0, 0xF4) {
		lo, hi := uint64(0x80), uint64(0xBF)
		if in(b0, 0xF0, 0xF0) {
			lo = 0x90
		} else if in(b0, 0xF4, 0xF4) {
			hi = 0x8F
		}
		if len(b) < 4 || !in(vm.byteT(b[1]), lo, hi) || !in(vm.byteT(b[2]), 0x80, 0xBF) || !in(vm.byteT(b[3]), 0x80, 0xBF) {
			return bad, 1
		}
		t := tc.BOr(shl(ext(b0, 3), 18), shl(ext(vm.byteT(b[1]), 6), 12))
		t = tc.BOr(t, tc.BOr(shl(ext(vm.byteT(b[2]), 6), 6), ext(vm.byteT(b[3]), 6)))
		return vm.val(t, rk), 4
	}
	return bad, 1
}

// encodeRune gives the UTF-8 bytes of an integer slot.
func (vm *VM) encodeRune(v Val, k kindInfo) []Val {
	if v.X == nil {
		r := int64(v.N)
		if r < 0 || r > math.MaxInt32 {
			r = 0xFFFD
		}
		return strBytes(strVal(string(rune(r))))
	}
	tc := vm.tc
	t := v.X.(*Term)
	w := t.w
	lt := func(n uint64) bool { return vm.decide(tc.Ult(t, tc.BV(w, n))) }
	bits := func(hi, lo int) *Term { return tc.Zext(tc.Extract(hi, lo, t), 8) }
	mk := func(x *Term) Val { return vm.val(x, kindInfo{kInt, false, 8}) }
	or := func(x *Term, c uint64) Val { return mk(tc.BOr(x, tc.BV(8, c))) }
	if lt(0x80) {
		return []Val{mk(tc.Extract(7, 0, t))}
	}
	if lt(0x800) {
		return []Val{or(bits(10, 6), 0xC0), or(bits(5, 0), 0x80)}
	}
	if lt(0x10000) {
		if !lt(0xD800) && lt(0xE000) {
			return strBytes(strVal("\uFFFD"))
		}
		return []Val{or(bits(15, 12), 0xE0), or(bits(11, 6), 0x80), or(bits(5, 0), 0x80)}
	}
	if lt(0x110000) {
		return []Val{or(bits(20, 18), 0xF0), or(bits(17, 12), 0x80), or(bits(11, 6), 0x80), or(bits(5, 0), 0x80)}
	}
	return strBytes(strVal("\uFFFD"))
}
