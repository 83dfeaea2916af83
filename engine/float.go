package main

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
	"math/bits"
)

// Symbolic floats are exact real terms; a rounding error variable is added
// whenever the double result could be inexact.

func (vm *VM) real(v Val) *Term {
	switch f := v.X.(type) {
	case nil:
		x := v.f()
		if math.IsNaN(x) || math.IsInf(x, 0) {
			vm.unsupported("NaN or Inf with symbolic float")
		}
		return vm.tc.RFloat(x)
	case *FSym:
		return f.t
	}
	panic(fmt.Sprintf("real of %T", v.X))
}

func granOf(f float64) int {
	if f == 0 {
		return 0
	}
	m := math.Float64bits(f)
	e := int(m>>52&0x7ff) - 1075
	man := m&(1<<52-1) | 1<<52
	e += bits.TrailingZeros64(man)
	if e >= 0 {
		return 0
	}
	return -e
}

func (vm *VM) fs(v Val) FSym {
	if f, ok := v.X.(*FSym); ok {
		return *f
	}
	x := v.f()
	return FSym{t: vm.real(v), lo: x, hi: x, gran: granOf(x)}
}

func (vm *VM) mkF(f FSym) Val {
	if f.t.op == ORConst {
		if x, exact := f.t.r.Float64(); exact {
			return fbits(x)
		}
	}
	return Val{X: &f}
}

func (vm *VM) fresh(prefix string, w int) *Term {
	vm.freshN++
	vm.imDirty = true
	return vm.tc.Var(fmt.Sprintf("%s!%d_%d", prefix, vm.freshN, w), w)
}

// rnd adds the rounding error of one operation where needed.
func (vm *VM) rnd(f FSym, eps float64) Val {
	m := math.Max(math.Abs(f.lo), math.Abs(f.hi))
	if f.t.op == ORConst {
		x, _ := f.t.r.Float64()
		if eps > 1e-10 {
			x = float64(float32(x))
		}
		return fbits(x)
	}
	if eps < 1e-10 && f.gran >= 0 && f.gran < 900 && m*math.Pow(2, float64(f.gran)) <= 1<<53 {
		return vm.mkF(f)
	}
	e := vm.fresh("fe", wReal)
	b := vm.tc.RFloat(m * eps)
	vm.assume(vm.tc.RLe(e, b))
	vm.assume(vm.tc.RLe(vm.tc.RSub(vm.tc.RFloat(0), b), e))
	d := m * eps * 1.001
	return vm.mkF(FSym{t: vm.tc.RAdd(f.t, e), lo: f.lo - d, hi: f.hi + d, gran: -1})
}

const eps64 = 1.0 / (1 << 53)
const eps32 = 1.0 / (1 << 24)

func (vm *VM) fneg(v Val) Val {
	f := vm.fs(v)
	return vm.mkF(FSym{t: vm.tc.RSub(vm.tc.RFloat(0), f.t), lo: -f.hi, hi: -f.lo, gran: f.gran})
}

func maxGran(a, b int) int {
	if a < 0 || b < 0 {
		return -1
	}
	return max(a, b)
}

func (vm *VM) floatBin(op token.Token, k kindInfo, p, q Val) Val {
	if p.X == nil && q.X == nil {
		a, b := p.f(), q.f()
		var r float64
		switch op {
		case token.ADD:
			r = a + b
		case token.SUB:
			r = a - b
		case token.MUL:
			r = a * b
		case token.QUO:
			r = a / b
		case token.LSS:
			return boolVal(a < b)
		case token.LEQ:
			return boolVal(a <= b)
		case token.GTR:
			return boolVal(a > b)
		case token.GEQ:
			return boolVal(a >= b)
		default:
			vm.unsupported("float op %s", op)
		}
		if k.w == 32 {
			r = float64(float32(r))
		}
		return fbits(r)
	}
	a, b := vm.fs(p), vm.fs(q)
	tc := vm.tc
	switch op {
	case token.LSS:
		return vm.boolv(tc.RLt(a.t, b.t))
	case token.LEQ:
		return vm.boolv(tc.RLe(a.t, b.t))
	case token.GTR:
		return vm.boolv(tc.RLt(b.t, a.t))
	case token.GEQ:
		return vm.boolv(tc.RLe(b.t, a.t))
	}
	var r FSym
	switch op {
	case token.ADD:
		r = FSym{tc.RAdd(a.t, b.t), a.lo + b.lo, a.hi + b.hi, maxGran(a.gran, b.gran)}
		if p.X == nil && p.f() == 0 {
			return q
		}
		if q.X == nil && q.f() == 0 {
			return p
		}
	case token.SUB:
		r = FSym{tc.RSub(a.t, b.t), a.lo - b.hi, a.hi - b.lo, maxGran(a.gran, b.gran)}
		if q.X == nil && q.f() == 0 {
			return p
		}
	case token.MUL, token.QUO:
		var c [4]float64
		if op == token.MUL {
			c = [4]float64{a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi}
			r.t = tc.RMul(a.t, b.t)
			if a.gran >= 0 && b.gran >= 0 {
				r.gran = a.gran + b.gran
			} else {
				r.gran = -1
			}
			if (p.X == nil && p.f() == 0) || (q.X == nil && q.f() == 0) {
				return Val{}
			}
			if p.X == nil && p.f() == 1 {
				return q
			}
			if q.X == nil && q.f() == 1 {
				return p
			}
		} else {
			if b.lo <= 0 && b.hi >= 0 {
				if q.X == nil {
					vm.unsupported("symbolic float divided by zero")
				}
				if vm.decide(tc.Eq(b.t, tc.RFloat(0))) {
					vm.unsupported("symbolic float divided by zero")
				}
				if b.gran != 0 {
					vm.unsupported("symbolic float divisor around zero")
				}
				// a whole number that is not zero
				if b.lo >= 0 || b.hi > 0 && vm.decide(tc.RLt(tc.RFloat(0), b.t)) {
					b.lo = 1
				} else {
					b.hi = -1
				}
			}
			c = [4]float64{a.lo / b.lo, a.lo / b.hi, a.hi / b.lo, a.hi / b.hi}
			r.gran = -1
			if q.X == nil {
				inv := new(big.Rat).Inv(ratF(q.f()))
				r.t = tc.RMul(a.t, tc.RConst(inv))
				if fr, ex := math.Frexp(q.f()); fr == 0.5 && a.gran >= 0 { // power of two
					r.gran = max(0, a.gran+ex-1)
				}
				if q.f() == 1 {
					return p
				}
			} else {
				r.t = tc.RDiv(a.t, b.t)
			}
		}
		r.lo, r.hi = c[0], c[0]
		for _, x := range c {
			r.lo = math.Min(r.lo, x)
			r.hi = math.Max(r.hi, x)
		}
	default:
		vm.unsupported("float op %s", op)
	}
	if k.w == 32 {
		return vm.rnd(r, eps32)
	}
	return vm.rnd(r, eps64)
}

func (vm *VM) toFloat32(v Val) Val {
	f := vm.fs(v)
	m := math.Max(math.Abs(f.lo), math.Abs(f.hi))
	if f.gran >= 0 && m*math.Pow(2, float64(f.gran)) <= 1<<24 {
		return v
	}
	return vm.rnd(f, eps32)
}

func (vm *VM) intToFloat(t *Term, k kindInfo) Val {
	var f FSym
	if k.signed {
		lo, hi := vm.tc.srange(t)
		f = FSym{vm.tc.S2R(t), float64(lo), float64(hi), 0}
	} else {
		f = FSym{vm.tc.U2R(t), 0, float64(t.umax), 0}
	}
	return vm.rnd(f, eps64)
}

// floatToInt truncates towards zero.
func (vm *VM) floatToInt(f *FSym, k kindInfo) Val {
	tc := vm.tc
	if math.Abs(f.lo) > 1<<40 || math.Abs(f.hi) > 1<<40 {
		vm.unsupported("symbolic float to int out of range %g %g %s", f.lo, f.hi, f.t.String())
	}
	neg := false
	if f.lo < 0 {
		neg = f.hi <= 0 || vm.decide(tc.RLt(f.t, tc.RFloat(0)))
	}
	m := f.hi
	ft := f.t
	if neg {
		m = -f.lo
		ft = tc.RSub(tc.RFloat(0), f.t)
	}
	w := max(1, bitlen(uint64(m)))
	iv := vm.fresh("fi", w)
	r := tc.U2R(iv)
	vm.assume(tc.RLe(r, ft))
	vm.assume(tc.RLt(ft, tc.RAdd(r, tc.RFloat(1))))
	var t *Term
	if k.w >= w {
		t = tc.Zext(iv, k.w)
	} else {
		t = tc.Extract(k.w-1, 0, iv)
	}
	if neg {
		t = tc.Sub(tc.BV(k.w, 0), t)
	}
	return vm.val(t, k)
}

// fmtToken renders a symbolic float printed with two decimals as a unique token.
func (vm *VM) fmtToken(f *FSym) string {
	n := len(vm.tokens)
	vm.tokens = append(vm.tokens, f)
	vm.imDirty = true
	return fmt.Sprintf("9%05d.77", n+10000)
}

// tokenOf finds the symbolic float behind a printed token.
func (vm *VM) tokenOf(s string) *FSym {
	if len(s) == 9 && s[0] == '9' && s[6:] == ".77" {
		var n int
		if _, err := fmt.Sscanf(s[1:6], "%d", &n); err == nil && n >= 10000 && n-10000 < len(vm.tokens) {
			return vm.tokens[n-10000]
		}
	}
	return nil
}
