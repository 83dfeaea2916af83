package main

import (
	"regexp"
	"regexp/syntax"
	"unicode"
)

type natRe struct {
	re     *regexp.Regexp
	prog   *syntax.Prog
	empty  bool // has empty-width assertions
	prefix string
	full   bool
	ncap   int
}

func compileRe(expr string) (*natRe, error) {
	re, err := regexp.Compile(expr)
	if err != nil {
		return nil, err
	}
	sre, err := syntax.Parse(expr, syntax.Perl)
	if err != nil {
		return nil, err
	}
	n := &natRe{re: re}
	p, err := syntax.Compile(sre.Simplify())
	if err != nil {
		return nil, err
	}
	n.prog = p
	n.ncap = p.NumCap
	n.prefix, n.full = re.LiteralPrefix()
	for i := range p.Inst {
		if p.Inst[i].Op == syntax.InstEmptyWidth {
			n.empty = true
		}
	}
	return n, nil
}

// exec matches at or after pos; it returns capture positions or nil.
func (vm *VM) reExec(n *natRe, s Val, pos, ncap int) []int {
	if cs, ok := concStr(s); ok && !n.empty {
		if pos > len(cs) {
			return nil
		}
		m := n.re.FindStringSubmatchIndex(cs[pos:])
		if m == nil {
			return nil
		}
		r := make([]int, len(m))
		for i := range m {
			r[i] = m[i]
			if m[i] >= 0 {
				r[i] += pos
			}
		}
		if len(r) > ncap && ncap >= 2 {
			r = r[:ncap]
		}
		return r
	}
	b := strBytes(s)
	for st := pos; st <= len(b); st++ {
		if n.prefix != "" {
			if !vm.prefixAt(b, st, n.prefix) {
				continue
			}
			if n.full {
				return []int{st, st + len(n.prefix)}
			}
		}
		caps := make([]int, n.ncap)
		for i := range caps {
			caps[i] = -1
		}
		caps[0] = st
		steps := 0
		if r := vm.reRun(n.prog, b, uint32(n.prog.Start), st, caps, &steps); r != nil {
			if len(r) > ncap && ncap >= 2 {
				r = r[:ncap]
			}
			return r
		}
	}
	return nil
}

func (vm *VM) prefixAt(b []Val, st int, p string) bool {
	if st+len(p) > len(b) {
		return false
	}
	t := vm.tc.T
	for i := 0; i < len(p); i++ {
		if b[st+i].X == nil && byte(b[st+i].N) != p[i] {
			return false
		}
	}
	for i := 0; i < len(p); i++ {
		if b[st+i].X != nil {
			t = vm.tc.And(t, vm.tc.Eq(vm.byteT(b[st+i]), vm.tc.BV(8, uint64(p[i]))))
		}
	}
	return vm.decide(t)
}

// reRun is a backtracking matcher with leftmost-first semantics. Conditions on
// symbolic bytes are decided (forking the path).
func (vm *VM) reRun(p *syntax.Prog, b []Val, pc uint32, pos int, caps []int, steps *int) []int {
	for {
		*steps++
		if *steps > 200000 {
			vm.unsupported("regexp backtracking too long")
		}
		in := &p.Inst[pc]
		switch in.Op {
		case syntax.InstFail:
			return nil
		case syntax.InstMatch:
			r := append([]int(nil), caps...)
			r[1] = pos
			return r
		case syntax.InstNop:
			pc = in.Out
		case syntax.InstCapture:
			if int(in.Arg) < len(caps) {
				c := append([]int(nil), caps...)
				c[in.Arg] = pos
				caps = c
			}
			pc = in.Out
		case syntax.InstAlt, syntax.InstAltMatch:
			if r := vm.reRun(p, b, in.Out, pos, caps, steps); r != nil {
				return r
			}
			pc = in.Arg
		case syntax.InstEmptyWidth:
			if !vm.reEmpty(syntax.EmptyOp(in.Arg), b, pos) {
				return nil
			}
			pc = in.Out
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if pos >= len(b) {
				return nil
			}
			n, ok := vm.reRune(in, b, pos)
			if !ok {
				return nil
			}
			pos += n
			pc = in.Out
		default:
			vm.unsupported("regexp op %v", in.Op)
		}
	}
}

// asciiOnly reports whether the instruction only matches single-byte runes.
func asciiOnly(in *syntax.Inst) bool {
	if in.Op == syntax.InstRuneAny || in.Op == syntax.InstRuneAnyNotNL {
		return false
	}
	if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
		return false
	}
	for _, r := range in.Rune {
		if r > unicode.MaxASCII {
			return false
		}
	}
	return true
}

func (vm *VM) reRune(in *syntax.Inst, b []Val, pos int) (int, bool) {
	c := b[pos]
	if c.X == nil && c.N < 0x80 {
		return 1, in.MatchRune(rune(c.N))
	}
	if asciiOnly(in) {
		if c.X == nil {
			return 1, false
		}
		t := vm.tc.F
		x := vm.byteT(c)
		for r := 0; r < 128; r++ {
			if in.MatchRune(rune(r)) {
				e := r
				for e+1 < 128 && in.MatchRune(rune(e+1)) {
					e++
				}
				t = vm.tc.Or(t, vm.tc.And(vm.tc.Ule(vm.tc.BV(8, uint64(r)), x), vm.tc.Ule(x, vm.tc.BV(8, uint64(e)))))
				r = e
			}
		}
		return 1, vm.decide(t)
	}
	r, n := vm.decodeBytes(b[pos:])
	if r.X == nil {
		return n, in.MatchRune(rune(r.N))
	}
	// symbolic rune: split on the runes the class distinguishes
	rt := r.X.(*Term)
	t := vm.tc.F
	if in.Op == syntax.InstRuneAny {
		return n, true
	}
	if in.Op == syntax.InstRuneAnyNotNL {
		return n, !vm.decide(vm.tc.Eq(rt, vm.tc.BV(32, '\n')))
	}
	if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
		vm.unsupported("symbolic case folding in regexp")
	}
	rs := in.Rune
	if len(rs) == 1 {
		return n, vm.decide(vm.tc.Eq(rt, vm.tc.BV(32, uint64(rs[0]))))
	}
	for i := 0; i+1 < len(rs); i += 2 {
		t = vm.tc.Or(t, vm.tc.And(vm.tc.Ule(vm.tc.BV(32, uint64(rs[i])), rt), vm.tc.Ule(rt, vm.tc.BV(32, uint64(rs[i+1])))))
	}
	return n, vm.decide(t)
}

func (vm *VM) reEmpty(op syntax.EmptyOp, b []Val, pos int) bool {
	at := func(i int) rune {
		if i < 0 || i >= len(b) {
			return -1
		}
		if b[i].X != nil {
			vm.unsupported("regexp assertion next to a symbolic byte")
		}
		return rune(b[i].N)
	}
	if op&(syntax.EmptyBeginText) != 0 && pos != 0 {
		return false
	}
	if op&(syntax.EmptyEndText) != 0 && pos != len(b) {
		return false
	}
	rest := op &^ (syntax.EmptyBeginText | syntax.EmptyEndText)
	if rest == 0 {
		return true
	}
	return syntax.EmptyOpContext(at(pos-1), at(pos))&rest == rest
}
