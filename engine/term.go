package main

// Hash-consed terms over Bool, bit-vectors (1..64 bits) and Real, with the
// simplifications that keep path conditions small.

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota // bv or bool constant
	OVar
	ONot // bool
	OAnd // bool
	OOr  // bool
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OBAdd
	OBSub
	OBMul
	OBUdiv
	OBUrem
	OBSdiv
	OBSrem
	OBAnd
	OBOr
	OBXor
	OBNot
	OBShl
	OBLshr
	OBAshr
	OConcat
	OExtract // k = hi<<8|lo
	OZext
	OSext
	// reals
	ORConst
	ORAdd
	ORSub
	ORMul
	ORDiv
	ORLt
	ORLe
	OU2R // unsigned bv to real
	OS2R // signed bv to real
)

const (
	wBool = 0
	wReal = -1
)

type Term struct {
	op      Op
	w       int
	k       uint64
	a, b, c *Term
	r       *big.Rat
	name    string
	id      int
	umax    uint64 // bv: unsigned upper bound
	lz      int    // bv: known trailing zero bits
	v1      *Term  // the only variable, when exactly one
	multi   bool   // more than one variable
	fv      []*Term
	tt      *[4]uint64 // truth table for unary bool term over an 8-bit (or less) var
	sent    bool       // defined in solver
	dom     *[4]uint64 // var: current domain (w<=8)
	ent     int        // var: number of multi-variable constraints asserted
	evGen   uint32
	evV     uint64
	evR     *big.Rat
	inPC    bool
	den     int // real variable: multiple of 1/den
	uf      *UFApp
	sknown  bool // slo, shi are known
	slo     int64
	shi     int64
}

// UFApp records that a variable is one output byte of an uninterpreted
// function application (md5, rc4 keystream).
type UFApp struct {
	inj bool
	fn  string
	in  []*Term
	out []*Term
}

type tkey struct {
	op      Op
	w       int
	k       uint64
	a, b, c *Term
	s       string
}

type TermCtx struct {
	tab   map[tkey]*Term
	n     int
	evGen uint32
	T, F  *Term
	all   []*Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[tkey]*Term{}}
	c.T = c.mk(tkey{op: OConst, w: wBool, k: 1}, nil)
	c.F = c.mk(tkey{op: OConst, w: wBool, k: 0}, nil)
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func bitlen(x uint64) int { return bits.Len64(x) }

func (c *TermCtx) mk(k tkey, r *big.Rat) *Term {
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: k.op, w: k.w, k: k.k, a: k.a, b: k.b, c: k.c, name: "", r: r, id: c.n}
	c.n++
	c.tab[k] = t
	if k.op == OVar {
		t.name = k.s
	}
	// vars
	if t.op == OVar {
		t.v1 = t
	} else {
		for _, x := range [3]*Term{t.a, t.b, t.c} {
			if x == nil {
				continue
			}
			if x.multi {
				t.multi = true
			} else if x.v1 != nil {
				if t.v1 == nil {
					t.v1 = x.v1
				} else if t.v1 != x.v1 {
					t.multi = true
				}
			}
		}
	}
	if t.w > 0 {
		t.umax = c.calcUmax(t)
		t.lz = calcLz(t)
	}
	return t
}

func (c *TermCtx) calcUmax(t *Term) uint64 {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		return m
	case OZext:
		return t.a.umax
	case OIte:
		return max(t.b.umax, t.c.umax)
	case OBAnd:
		return min(t.a.umax, t.b.umax)
	case OBOr, OBXor:
		l := max(bitlen(t.a.umax), bitlen(t.b.umax))
		return mask(l)
	case OBAdd:
		s, cy := bits.Add64(t.a.umax, t.b.umax, 0)
		if cy == 0 && s <= m {
			return s
		}
		return m
	case OBMul:
		hi, lo := bits.Mul64(t.a.umax, t.b.umax)
		if hi == 0 && lo <= m {
			return lo
		}
		return m
	case OBUdiv:
		if t.b.op == OConst && t.b.k != 0 {
			return t.a.umax / t.b.k
		}
		return m
	case OBUrem:
		if t.b.op == OConst && t.b.k != 0 {
			return min(t.b.k-1, t.a.umax)
		}
		return m
	case OConcat:
		return t.a.umax<<uint(t.b.w) | mask(bitlen(t.b.umax))
	case OExtract:
		hi, lo := int(t.k>>8), int(t.k&255)
		v := t.a.umax >> uint(lo)
		if bitlen(t.a.umax)-1 <= hi {
			return v
		}
		return mask(hi - lo + 1)
	}
	return m
}

func calcLz(t *Term) int {
	switch t.op {
	case OConst:
		if t.k == 0 {
			return t.w
		}
		return bits.TrailingZeros64(t.k)
	case OConcat:
		if t.b.op == OConst && t.b.k == 0 {
			return t.b.w + t.a.lz
		}
		return t.b.lz
	case OZext:
		if t.a.lz == t.a.w {
			return t.w
		}
		return t.a.lz
	case OBAdd, OBOr, OBXor:
		return min(t.a.lz, t.b.lz)
	case OBMul:
		return min(t.w, t.a.lz+t.b.lz)
	case OIte:
		return min(t.b.lz, t.c.lz)
	}
	return 0
}

func (c *TermCtx) BV(w int, k uint64) *Term { return c.mk(tkey{op: OConst, w: w, k: k & mask(w)}, nil) }
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}
func (c *TermCtx) Var(name string, w int) *Term {
	return c.mk(tkey{op: OVar, w: w, s: name}, nil)
}
func (c *TermCtx) RConst(r *big.Rat) *Term {
	k := tkey{op: ORConst, w: wReal, s: r.RatString()}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := c.mk(k, new(big.Rat).Set(r))
	return t
}
func (c *TermCtx) RFloat(f float64) *Term {
	r := new(big.Rat)
	r.SetFloat64(f)
	return c.RConst(r)
}

func (t *Term) isC() bool { return t.op == OConst }

func sx(k uint64, w int) int64 {
	if w >= 64 {
		return int64(k)
	}
	s := uint(64 - w)
	return int64(k<<s) >> s
}

// ---- booleans

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OConst:
		return c.Bool(a.k == 0)
	case ONot:
		return a.a
	case OUlt:
		return c.Ule(a.b, a.a)
	case OUle:
		return c.Ult(a.b, a.a)
	case OSlt:
		return c.mk(tkey{op: OSle, w: wBool, a: a.b, b: a.a}, nil)
	case OSle:
		return c.mk(tkey{op: OSlt, w: wBool, a: a.b, b: a.a}, nil)
	case ORLt:
		return c.mk(tkey{op: ORLe, w: wBool, a: a.b, b: a.a}, nil)
	case ORLe:
		return c.mk(tkey{op: ORLt, w: wBool, a: a.b, b: a.a}, nil)
	}
	return c.mk(tkey{op: ONot, w: wBool, a: a}, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a == c.F || b == c.F {
		return c.F
	}
	if a == c.T {
		return b
	}
	if b == c.T || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(tkey{op: OAnd, w: wBool, a: a, b: b}, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a == c.T || b == c.T {
		return c.T
	}
	if a == c.F {
		return b
	}
	if b == c.F || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(tkey{op: OOr, w: wBool, a: a, b: b}, nil)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.k == b.k)
	}
	if a.op == ORConst && b.op == ORConst {
		return c.Bool(a.r.Cmp(b.r) == 0)
	}
	if a.w == wBool {
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.k == 1 {
				return a
			}
			return c.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && a.w > 0 {
		k := b.k
		if k > a.umax {
			return c.F
		}
		switch a.op {
		case OZext:
			return c.Eq(a.a, c.BV(a.a.w, k))
		case OSext:
			lo := k & mask(a.a.w)
			if uint64(sx(lo, a.a.w))&mask(a.w) != k {
				return c.F
			}
			return c.Eq(a.a, c.BV(a.a.w, lo))
		case OConcat:
			return c.And(c.Eq(a.a, c.BV(a.a.w, k>>uint(a.b.w))), c.Eq(a.b, c.BV(a.b.w, k)))
		case OBAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.BV(a.w, k-a.b.k))
			}
		case OBXor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.BV(a.w, k^a.b.k))
			}
		case OBNot:
			return c.Eq(a.a, c.BV(a.w, ^k))
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				if a.b.k == k {
					if a.c.k == k {
						return c.T
					}
					return a.a
				}
				if a.c.k == k {
					return c.Not(a.a)
				}
				return c.F
			}
			if a.b.op == OConst {
				e := c.Eq(a.c, b)
				if a.b.k == k {
					return c.Or(a.a, e)
				}
				return c.And(c.Not(a.a), e)
			}
			if a.c.op == OConst {
				e := c.Eq(a.b, b)
				if a.c.k == k {
					return c.Or(c.Not(a.a), e)
				}
				return c.And(a.a, e)
			}
		}
	}
	if a.w > 0 && a.op == OZext && b.op == OZext {
		if a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		x, y := a.a, b.a
		if x.w < y.w {
			x = c.Zext(x, y.w)
		} else {
			y = c.Zext(y, x.w)
		}
		return c.Eq(x, y)
	}
	if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
		return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(tkey{op: OEq, w: wBool, a: a, b: b}, nil)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isC() && b.isC() {
		return c.Bool(a.k < b.k)
	}
	if b.isC() {
		if b.k == 0 {
			return c.F
		}
		if a.umax < b.k {
			return c.T
		}
		if a.op == OZext {
			return c.Ult(a.a, c.BV(a.a.w, b.k))
		}
		if b.k == 1 {
			return c.Eq(a, c.BV(a.w, 0))
		}
	}
	if a.isC() {
		if b.umax <= a.k {
			return c.F
		}
		if b.op == OZext {
			return c.Ult(c.BV(b.a.w, a.k), b.a)
		}
		if a.k == 0 {
			return c.Not(c.Eq(b, c.BV(b.w, 0)))
		}
	}
	if a.op == OZext && b.op == OZext {
		w := max(a.a.w, b.a.w)
		return c.Ult(c.Zext(a.a, w), c.Zext(b.a, w))
	}
	return c.mk(tkey{op: OUlt, w: wBool, a: a, b: b}, nil)
}

func (c *TermCtx) Ule(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.isC() && b.isC() {
		return c.Bool(a.k <= b.k)
	}
	if b.isC() {
		if a.umax <= b.k {
			return c.T
		}
		if b.k == mask(b.w) {
			return c.T
		}
		return c.Ult(a, c.BV(a.w, b.k+1))
	}
	if a.isC() {
		if a.k == 0 {
			return c.T
		}
		if b.umax < a.k {
			return c.F
		}
		return c.Ult(c.BV(a.w, a.k-1), b)
	}
	if a.op == OZext && b.op == OZext {
		w := max(a.a.w, b.a.w)
		return c.Ule(c.Zext(a.a, w), c.Zext(b.a, w))
	}
	return c.mk(tkey{op: OUle, w: wBool, a: a, b: b}, nil)
}

// srange gives signed bounds of a term.
func (c *TermCtx) srange(t *Term) (int64, int64) {
	if !t.sknown {
		t.slo, t.shi = c.srange1(t)
		t.sknown = true
	}
	return t.slo, t.shi
}

func (c *TermCtx) srange1(t *Term) (int64, int64) {
	half := uint64(1) << uint(t.w-1)
	const lim = 1 << 61
	fits := func(lo, hi int64) bool {
		return t.w == 64 || (lo >= -int64(half) && hi < int64(half))
	}
	switch t.op {
	case OConst:
		v := sx(t.k, t.w)
		return v, v
	case OIte:
		l1, h1 := c.srange(t.b)
		l2, h2 := c.srange(t.c)
		return min(l1, l2), max(h1, h2)
	case OSext:
		return c.srange(t.a)
	case OBAdd, OBSub, OBMul:
		if t.umax < half {
			break
		}
		l1, h1 := c.srange(t.a)
		l2, h2 := c.srange(t.b)
		if l1 < -lim || h1 > lim || l2 < -lim || h2 > lim {
			break
		}
		var lo, hi int64
		switch t.op {
		case OBAdd:
			lo, hi = l1+l2, h1+h2
		case OBSub:
			lo, hi = l1-h2, h1-l2
		case OBMul:
			const m = 1 << 30
			if l1 < -m || h1 > m || l2 < -m || h2 > m {
				return full(t, half)
			}
			lo = min(l1*l2, l1*h2, h1*l2, h1*h2)
			hi = max(l1*l2, l1*h2, h1*l2, h1*h2)
		}
		if fits(lo, hi) {
			return lo, hi
		}
	case OConcat:
		if t.a.isC() && t.b.w < 62 {
			k := sx(t.a.k, t.a.w)
			if k > -(1<<uint(61-t.b.w)) && k < 1<<uint(61-t.b.w) {
				lo := k << uint(t.b.w)
				return lo, lo + int64(t.b.umax)
			}
		}
	case OBSdiv:
		l1, h1 := c.srange(t.a)
		if t.b.isC() && sx(t.b.k, t.b.w) > 0 {
			d := sx(t.b.k, t.b.w)
			return l1 / d, h1 / d
		}
		if l1 > -lim && h1 < lim {
			m := max(-l1, h1, 1)
			return -m, m
		}
	case OBSrem:
		if t.b.isC() && sx(t.b.k, t.b.w) > 0 {
			d := sx(t.b.k, t.b.w)
			l1, h1 := c.srange(t.a)
			lo, hi := -(d - 1), d-1
			if l1 >= 0 {
				lo = 0
			}
			if h1 <= 0 {
				hi = 0
			}
			return max(lo, min(l1, 0)), min(hi, max(h1, 0))
		}
	}
	return full(t, half)
}

func full(t *Term, half uint64) (int64, int64) {
	if t.umax < half {
		return 0, int64(t.umax)
	}
	if t.w == 64 {
		return math.MinInt64, math.MaxInt64
	}
	return -int64(half), int64(half) - 1
}

// exactS tells that a signed operation of two operands does not overflow.
func (c *TermCtx) exactS(t *Term) bool {
	half := int64(1) << uint(min(t.w, 62)-1)
	l1, h1 := c.srange(t.a)
	l2, h2 := c.srange(t.b)
	const m = 1 << 30
	switch t.op {
	case OBAdd, OBSub:
		const lim = 1 << 59
		if l1 < -lim || h1 > lim || l2 < -lim || h2 > lim {
			return false
		}
		if t.op == OBSub {
			l2, h2 = -h2, -l2
		}
		return t.w == 64 || (l1+l2 >= -half && h1+h2 < half)
	case OBMul:
		if l1 < -m || h1 > m || l2 < -m || h2 > m {
			return false
		}
		lo := min(l1*l2, l1*h2, h1*l2, h1*h2)
		hi := max(l1*l2, l1*h2, h1*l2, h1*h2)
		return t.w == 64 || (lo >= -half && hi < half)
	}
	return false
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.isC() && b.isC() {
		return c.Bool(sx(a.k, a.w) < sx(b.k, b.w))
	}
	la, ha := c.srange(a)
	lb, hb := c.srange(b)
	if ha < lb {
		return c.T
	}
	if la >= hb {
		return c.F
	}
	if la >= 0 && lb >= 0 {
		return c.Ult(a, b)
	}
	// x + k < m  with x nonneg and no overflow
	if b.isC() && a.op == OBAdd && a.b.isC() {
		lx, hx := c.srange(a.a)
		k := sx(a.b.k, a.w)
		m := sx(b.k, b.w)
		if lx >= 0 && hx < 1<<40 && k > -(1<<40) && k < 1<<40 && m > -(1<<40) && m < 1<<40 && a.w == 64 {
			return c.Slt(a.a, c.BV(a.w, uint64(m-k)))
		}
	}
	if a.isC() && b.op == OBAdd && b.b.isC() {
		lx, hx := c.srange(b.a)
		k := sx(b.b.k, b.w)
		m := sx(a.k, a.w)
		if lx >= 0 && hx < 1<<40 && k > -(1<<40) && k < 1<<40 && m > -(1<<40) && m < 1<<40 && b.w == 64 {
			return c.Slt(c.BV(b.w, uint64(m-k)), b.a)
		}
	}
	return c.mk(tkey{op: OSlt, w: wBool, a: a, b: b}, nil)
}

func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *TermCtx) Ite(p, a, b *Term) *Term {
	if p == c.T {
		return a
	}
	if p == c.F {
		return b
	}
	if a == b {
		return a
	}
	if a.w == wBool {
		if a == c.T && b == c.F {
			return p
		}
		if a == c.F && b == c.T {
			return c.Not(p)
		}
		return c.Or(c.And(p, a), c.And(c.Not(p), b))
	}
	if a.w > 0 {
		// narrow
		n := max(bitlen(a.umax), bitlen(b.umax))
		if n < a.w && n > 0 && (a.op == OZext || a.isC()) && (b.op == OZext || b.isC()) {
			if a.op == OZext {
				n = max(n, a.a.w)
			}
			if b.op == OZext {
				n = max(n, b.a.w)
			}
			if n < a.w {
				return c.Zext(c.Ite(p, c.Extract(n-1, 0, a), c.Extract(n-1, 0, b)), a.w)
			}
		}
	}
	if p.op == ONot {
		return c.mk(tkey{op: OIte, w: a.w, a: p.a, b: b, c: a}, nil)
	}
	return c.mk(tkey{op: OIte, w: a.w, a: p, b: a, c: b}, nil)
}

// ---- bit-vectors

func (c *TermCtx) Zext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return c.BV(w, a.k)
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	return c.mk(tkey{op: OZext, w: w, a: a}, nil)
}

func (c *TermCtx) Sext(a *Term, w int) *Term {
	if a.w == w {
		return a
	}
	if a.isC() {
		return c.BV(w, uint64(sx(a.k, a.w)))
	}
	if a.umax < uint64(1)<<uint(a.w-1) {
		return c.Zext(a, w)
	}
	if a.op == OBSub && a.a.isC() && a.a.k == 0 && a.b.umax < uint64(1)<<uint(a.w-1) {
		return c.Sub(c.BV(w, 0), c.Zext(a.b, w))
	}
	return c.mk(tkey{op: OSext, w: w, a: a}, nil)
}

func (c *TermCtx) Extract(hi, lo int, a *Term) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.isC() {
		return c.BV(w, a.k>>uint(lo))
	}
	if a.umax>>uint(lo) == 0 {
		return c.BV(w, 0)
	}
	switch a.op {
	case OExtract:
		l := int(a.k & 255)
		return c.Extract(hi+l, lo+l, a.a)
	case OZext:
		if hi < a.a.w {
			return c.Extract(hi, lo, a.a)
		}
		if lo >= a.a.w {
			return c.BV(w, 0)
		}
		return c.Zext(c.Extract(a.a.w-1, lo, a.a), w)
	case OSext:
		if hi < a.a.w {
			return c.Extract(hi, lo, a.a)
		}
	case OConcat:
		bw := a.b.w
		if hi < bw {
			return c.Extract(hi, lo, a.b)
		}
		if lo >= bw {
			return c.Extract(hi-bw, lo-bw, a.a)
		}
		return c.Concat(c.Extract(hi-bw, 0, a.a), c.Extract(bw-1, lo, a.b))
	case OBAnd, OBOr, OBXor:
		if a.b.isC() || lo > 0 || a.a.op == OConcat || a.a.op == OZext {
			return c.bitop(a.op, c.Extract(hi, lo, a.a), c.Extract(hi, lo, a.b))
		}
	case OBAdd:
		if lo == 0 {
			return c.Add(c.Extract(hi, 0, a.a), c.Extract(hi, 0, a.b))
		}
	case OBMul:
		if lo == 0 {
			return c.Mul(c.Extract(hi, 0, a.a), c.Extract(hi, 0, a.b))
		}
	case OBSub:
		if lo == 0 {
			return c.Sub(c.Extract(hi, 0, a.a), c.Extract(hi, 0, a.b))
		}
	case OIte:
		return c.Ite(a.a, c.Extract(hi, lo, a.b), c.Extract(hi, lo, a.c))
	}
	return c.mk(tkey{op: OExtract, w: w, k: uint64(hi)<<8 | uint64(lo), a: a}, nil)
}

func (c *TermCtx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.isC() && b.isC() {
		return c.BV(w, a.k<<uint(b.w)|b.k)
	}
	if a.isC() && a.k == 0 {
		return c.Zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.k&255 == (b.k>>8)+1 {
		return c.Extract(int(a.k>>8), int(b.k&255), a.a)
	}
	if a.op == OExtract && a.a == b && int(a.k&255) == b.w {
		// impossible widths; fallthrough
	}
	if a.op == OZext {
		return c.Zext(c.Concat(a.a, b), w)
	}
	return c.mk(tkey{op: OConcat, w: w, a: a, b: b}, nil)
}

func (c *TermCtx) bitop(op Op, a, b *Term) *Term {
	switch op {
	case OBAnd:
		return c.BAnd(a, b)
	case OBOr:
		return c.BOr(a, b)
	}
	return c.BXor(a, b)
}

func (c *TermCtx) BAnd(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return c.BV(a.w, a.k&b.k)
		}
		if b.k == 0 {
			return b
		}
		if b.k == mask(a.w) {
			return a
		}
		if b.k&(b.k+1) == 0 { // low mask
			n := bitlen(b.k)
			if a.umax <= b.k {
				return a
			}
			return c.Zext(c.Extract(n-1, 0, a), a.w)
		}
		lo := bits.TrailingZeros64(b.k)
		sh := b.k >> uint(lo)
		if sh&(sh+1) == 0 { // contiguous
			n := bitlen(sh)
			e := c.Extract(lo+n-1, lo, a)
			return c.Zext(c.Concat(e, c.BV(lo, 0)), a.w)
		}
		if a.op == OZext && a.a.w < a.w {
			return c.Zext(c.BAnd(a.a, c.BV(a.a.w, b.k)), a.w)
		}
	} else {
		if a.op == OZext && b.op == OZext {
			w := min(a.a.w, b.a.w)
			return c.Zext(c.BAnd(c.Extract(w-1, 0, a), c.Extract(w-1, 0, b)), a.w)
		}
		if a.id > b.id {
			a, b = b, a
		}
	}
	return c.mk(tkey{op: OBAnd, w: a.w, a: a, b: b}, nil)
}

func (c *TermCtx) disjoint(a, b *Term) *Term {
	// a has trailing zeros covering b
	if bl := bitlen(b.umax); bl > 0 && bl <= a.lz && bl < a.w {
		return c.Concat(c.Extract(a.w-1, bl, a), c.Extract(bl-1, 0, b))
	}
	return nil
}

func (c *TermCtx) BOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return c.BV(a.w, a.k|b.k)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return b
		}
	}
	if t := c.disjoint(a, b); t != nil {
		return t
	}
	if t := c.disjoint(b, a); t != nil {
		return t
	}
	if t := c.narrow2(OBOr, a, b); t != nil {
		return t
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(tkey{op: OBOr, w: a.w, a: a, b: b}, nil)
}

func (c *TermCtx) narrow2(op Op, a, b *Term) *Term {
	n := max(bitlen(a.umax), bitlen(b.umax), 1)
	if n < a.w && (a.op == OZext || b.op == OZext) {
		if a.op == OZext {
			n = max(n, a.a.w)
		}
		if b.op == OZext {
			n = max(n, b.a.w)
		}
		if n < a.w {
			return c.Zext(c.bitop(op, c.Extract(n-1, 0, a), c.Extract(n-1, 0, b)), a.w)
		}
	}
	return nil
}

func (c *TermCtx) BXor(a, b *Term) *Term {
	if a == b {
		return c.BV(a.w, 0)
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return c.BV(a.w, a.k^b.k)
		}
		if b.k == 0 {
			return a
		}
		if b.k == mask(a.w) {
			return c.BNot(a)
		}
		if a.op == OBXor && a.b.isC() {
			return c.BXor(a.a, c.BV(a.w, a.b.k^b.k))
		}
	} else {
		if a.op == OBXor {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
		}
		if b.op == OBXor {
			if b.a == a {
				return b.b
			}
			if b.b == a {
				return b.a
			}
		}
		// (x^k)^y -> (x^y)^k with constants last
		if a.op == OBXor && a.b.isC() {
			return c.BXor(c.BXor(a.a, b), a.b)
		}
		if b.op == OBXor && b.b.isC() {
			return c.BXor(c.BXor(a, b.a), b.b)
		}
	}
	if t := c.narrow2(OBXor, a, b); t != nil {
		return t
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(tkey{op: OBXor, w: a.w, a: a, b: b}, nil)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.isC() {
		return c.BV(a.w, ^a.k)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(tkey{op: OBNot, w: a.w, a: a}, nil)
}

func (c *TermCtx) Add(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return c.BV(a.w, a.k+b.k)
		}
		if b.k == 0 {
			return a
		}
		if a.op == OBAdd && a.b.isC() {
			return c.Add(a.a, c.BV(a.w, a.b.k+b.k))
		}
	} else {
		if a.op == OBAdd && a.b.isC() {
			return c.Add(c.Add(a.a, b), a.b)
		}
		if b.op == OBAdd && b.b.isC() {
			return c.Add(c.Add(a, b.a), b.b)
		}
		if a.op == OBSub && a.b == b {
			return a.a
		}
		if b.op == OBSub && b.b == a {
			return b.a
		}
	}
	if t := c.disjoint(a, b); t != nil {
		return t
	}
	if t := c.disjoint(b, a); t != nil {
		return t
	}
	s, cy := bits.Add64(a.umax, b.umax, 0)
	if cy == 0 && s <= mask(a.w) {
		n := bitlen(s)
		if n < a.w && n > 0 && (a.op == OZext || a.isC()) && (b.op == OZext || b.isC()) {
			return c.Zext(c.Add(c.Extract(n-1, 0, a), c.Extract(n-1, 0, b)), a.w)
		}
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(tkey{op: OBAdd, w: a.w, a: a, b: b}, nil)
}

func (c *TermCtx) Sub(a, b *Term) *Term {
	if a == b {
		return c.BV(a.w, 0)
	}
	if b.isC() {
		return c.Add(a, c.BV(a.w, -b.k))
	}
	if a.isC() && a.k == 0 && b.op == OBSub && b.a.isC() && b.a.k == 0 {
		return b.b
	}
	if a.op == OBAdd && a.b == b {
		return a.a
	}
	if a.op == OBAdd && a.a == b {
		return a.b
	}
	// (x + k1) - (x + k2) and (x+k1) - x
	xa, ka := a, uint64(0)
	if a.op == OBAdd && a.b.isC() {
		xa, ka = a.a, a.b.k
	}
	xb, kb := b, uint64(0)
	if b.op == OBAdd && b.b.isC() {
		xb, kb = b.a, b.b.k
	}
	if xa == xb {
		return c.BV(a.w, ka-kb)
	}
	return c.mk(tkey{op: OBSub, w: a.w, a: a, b: b}, nil)
}

// Neg is 0-a.
func (c *TermCtx) Neg(a *Term) *Term {
	if a.op == OBSub && a.a.isC() && a.a.k == 0 {
		return a.b
	}
	if a.op == OBMul && a.b.isC() && a.a.op == OBSub && a.a.a.isC() && a.a.a.k == 0 {
		return c.Mul(a.a.b, a.b)
	}
	return c.Sub(c.BV(a.w, 0), a)
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if a.isC() {
			return c.BV(a.w, a.k*b.k)
		}
		if b.k == 0 {
			return b
		}
		if b.k == 1 {
			return a
		}
		if b.k == mask(b.w) {
			return c.Neg(a)
		}
		if b.k&(b.k-1) == 0 {
			return c.Shl(a, c.BV(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		if sx(b.k, b.w) < 0 && a.op == OBSub && a.a.isC() && a.a.k == 0 {
			return c.Mul(a.b, c.BV(a.w, -b.k))
		}
	}
	hi, lo := bits.Mul64(a.umax, b.umax)
	if hi == 0 && lo <= mask(a.w) {
		n := bitlen(lo)
		if n < a.w && n > 0 && (a.op == OZext || a.isC()) && (b.op == OZext || b.isC()) {
			return c.Zext(c.Mul(c.Extract(n-1, 0, a), c.Extract(n-1, 0, b)), a.w)
		}
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(tkey{op: OBMul, w: a.w, a: a, b: b}, nil)
}

func (c *TermCtx) narrowDiv(op Op, a, b *Term) *Term {
	n := max(bitlen(a.umax), bitlen(b.umax), 1)
	if n < a.w {
		x, y := c.Extract(n-1, 0, a), c.Extract(n-1, 0, b)
		if op == OBUdiv {
			return c.Zext(c.Udiv(x, y), a.w)
		}
		return c.Zext(c.Urem(x, y), a.w)
	}
	return nil
}

// mulC takes apart a product with a constant that does not overflow.
func (c *TermCtx) mulC(a *Term) (*Term, uint64, bool) {
	w := a.w
	if a.op == OZext {
		a = a.a
	}
	if a.op != OBMul || !a.b.isC() || a.b.k == 0 || a.a.umax > mask(a.w)/a.b.k {
		return nil, 0, false
	}
	return c.Zext(a.a, w), a.b.k, true
}

func (c *TermCtx) Udiv(a, b *Term) *Term {
	if b.isC() && b.k != 0 {
		if a.isC() {
			return c.BV(a.w, a.k/b.k)
		}
		if b.k == 1 {
			return a
		}
		if a.umax < b.k {
			return c.BV(a.w, 0)
		}
		if x, k, ok := c.mulC(a); ok { // x*k/m in lowest terms
			g, y := k, b.k
			for y != 0 {
				g, y = y, g%y
			}
			if g > 1 {
				return c.Udiv(c.Mul(x, c.BV(a.w, k/g)), c.BV(a.w, b.k/g))
			}
		}
		if b.k&(b.k-1) == 0 {
			return c.Lshr(a, c.BV(a.w, uint64(bits.TrailingZeros64(b.k))))
		}
		if t := c.narrowDiv(OBUdiv, a, b); t != nil {
			return t
		}
	}
	// the machine never divides by zero here: x/(kx) is 0
	if x, k, ok := c.mulC(b); ok && k > 1 && x == a {
		return c.BV(a.w, 0)
	}
	if !b.isC() {
		if t := c.narrowDiv(OBUdiv, a, b); t != nil {
			return t
		}
	}
	return c.mk(tkey{op: OBUdiv, w: a.w, a: a, b: b}, nil)
}

func (c *TermCtx) Urem(a, b *Term) *Term {
	if b.isC() && b.k != 0 {
		if a.isC() {
			return c.BV(a.w, a.k%b.k)
		}
		if a.umax < b.k {
			return a
		}
		if b.k&(b.k-1) == 0 {
			return c.BAnd(a, c.BV(a.w, b.k-1))
		}
		if t := c.narrowDiv(OBUrem, a, b); t != nil {
			return t
		}
	}
	return c.mk(tkey{op: OBUrem, w: a.w, a: a, b: b}, nil)
}

func (c *TermCtx) Sdiv(a, b *Term) *Term {
	la, _ := c.srange(a)
	lb, _ := c.srange(b)
	if la >= 0 && lb >= 0 {
		return c.Udiv(a, b)
	}
	if a.isC() && b.isC() && b.k != 0 {
		return c.BV(a.w, uint64(sx(a.k, a.w)/sx(b.k, b.w)))
	}
	if _, ha := c.srange(a); ha <= 0 && lb >= 0 {
		if n := c.Neg(a); n.op != OBSub {
			return c.Neg(c.Udiv(n, b))
		}
	}
	if _, ha := c.srange(a); ha <= 0 {
		if _, hb := c.srange(b); hb <= 0 {
			n, m := c.Neg(a), c.Neg(b)
			if n.op != OBSub && m.op != OBSub {
				return c.Udiv(n, m)
			}
		}
	}
	return c.mk(tkey{op: OBSdiv, w: a.w, a: a, b: b}, nil)
}

func (c *TermCtx) Srem(a, b *Term) *Term {
	la, _ := c.srange(a)
	lb, _ := c.srange(b)
	if la >= 0 && lb >= 0 {
		return c.Urem(a, b)
	}
	if a.isC() && b.isC() && b.k != 0 {
		return c.BV(a.w, uint64(sx(a.k, a.w)%sx(b.k, b.w)))
	}
	if _, ha := c.srange(a); ha <= 0 && lb >= 0 {
		if n := c.Neg(a); n.op != OBSub {
			return c.Neg(c.Urem(n, b))
		}
	}
	return c.mk(tkey{op: OBSrem, w: a.w, a: a, b: b}, nil)
}

func (c *TermCtx) Shl(a, b *Term) *Term {
	if b.isC() {
		n := b.k
		if n == 0 {
			return a
		}
		if n >= uint64(a.w) {
			return c.BV(a.w, 0)
		}
		if a.isC() {
			return c.BV(a.w, a.k<<n)
		}
		return c.Concat(c.Extract(a.w-1-int(n), 0, a), c.BV(int(n), 0))
	}
	return c.mk(tkey{op: OBShl, w: a.w, a: a, b: b}, nil)
}

func (c *TermCtx) Lshr(a, b *Term) *Term {
	if b.isC() {
		n := b.k
		if n == 0 {
			return a
		}
		if n >= uint64(a.w) {
			return c.BV(a.w, 0)
		}
		return c.Zext(c.Extract(a.w-1, int(n), a), a.w)
	}
	return c.mk(tkey{op: OBLshr, w: a.w, a: a, b: b}, nil)
}

func (c *TermCtx) Ashr(a, b *Term) *Term {
	if a.umax < uint64(1)<<uint(a.w-1) {
		return c.Lshr(a, b)
	}
	if b.isC() {
		n := min(b.k, uint64(a.w-1))
		if n == 0 {
			return a
		}
		if a.isC() {
			return c.BV(a.w, uint64(sx(a.k, a.w)>>n))
		}
		return c.Sext(c.Extract(a.w-1, int(n), a), a.w)
	}
	return c.mk(tkey{op: OBAshr, w: a.w, a: a, b: b}, nil)
}

// ---- reals

func (c *TermCtx) RAdd(a, b *Term) *Term {
	if a.op == ORConst && b.op == ORConst {
		return c.RConst(new(big.Rat).Add(a.r, b.r))
	}
	if a.op == ORConst && a.r.Sign() == 0 {
		return b
	}
	if b.op == ORConst && b.r.Sign() == 0 {
		return a
	}
	return c.mk(tkey{op: ORAdd, w: wReal, a: a, b: b}, nil)
}
func (c *TermCtx) RSub(a, b *Term) *Term {
	if a.op == ORConst && b.op == ORConst {
		return c.RConst(new(big.Rat).Sub(a.r, b.r))
	}
	if b.op == ORConst && b.r.Sign() == 0 {
		return a
	}
	if a == b {
		return c.RConst(new(big.Rat))
	}
	return c.mk(tkey{op: ORSub, w: wReal, a: a, b: b}, nil)
}
func (c *TermCtx) RMul(a, b *Term) *Term {
	if a.op == ORConst && b.op == ORConst {
		return c.RConst(new(big.Rat).Mul(a.r, b.r))
	}
	one := big.NewRat(1, 1)
	if a.op == ORConst && a.r.Cmp(one) == 0 {
		return b
	}
	if b.op == ORConst && b.r.Cmp(one) == 0 {
		return a
	}
	if a.op == ORConst && a.r.Sign() == 0 {
		return a
	}
	if b.op == ORConst && b.r.Sign() == 0 {
		return b
	}
	return c.mk(tkey{op: ORMul, w: wReal, a: a, b: b}, nil)
}
func (c *TermCtx) RDiv(a, b *Term) *Term {
	if b.op == ORConst && b.r.Sign() != 0 {
		return c.RMul(a, c.RConst(new(big.Rat).Inv(b.r)))
	}
	return c.mk(tkey{op: ORDiv, w: wReal, a: a, b: b}, nil)
}
func (c *TermCtx) RLt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.op == ORConst && b.op == ORConst {
		return c.Bool(a.r.Cmp(b.r) < 0)
	}
	return c.mk(tkey{op: ORLt, w: wBool, a: a, b: b}, nil)
}
func (c *TermCtx) RLe(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.op == ORConst && b.op == ORConst {
		return c.Bool(a.r.Cmp(b.r) <= 0)
	}
	return c.mk(tkey{op: ORLe, w: wBool, a: a, b: b}, nil)
}
func (c *TermCtx) U2R(a *Term) *Term {
	if a.isC() {
		return c.RConst(new(big.Rat).SetInt(new(big.Int).SetUint64(a.k)))
	}
	if a.op == OZext {
		return c.U2R(a.a)
	}
	m := mask(a.w)
	switch {
	case a.op == OBAdd && a.a.umax <= m/2 && a.b.umax <= m/2:
		return c.RAdd(c.U2R(a.a), c.U2R(a.b))
	case a.op == OBMul && a.b.isC() && a.b.k > 0 && a.a.umax <= m/a.b.k:
		return c.RMul(c.U2R(a.a), c.U2R(a.b))
	case a.op == OBMul && a.a.isC() && a.a.k > 0 && a.b.umax <= m/a.a.k:
		return c.RMul(c.U2R(a.b), c.U2R(a.a))
	}
	return c.mk(tkey{op: OU2R, w: wReal, a: a}, nil)
}
func (c *TermCtx) S2R(a *Term) *Term {
	if a.isC() {
		return c.RConst(new(big.Rat).SetInt64(sx(a.k, a.w)))
	}
	l, _ := c.srange(a)
	if a.op != OBAdd && a.op != OBSub && l >= 0 {
		return c.U2R(a)
	}
	if a.op == OSext {
		return c.S2R(a.a)
	}
	if (a.op == OBAdd || a.op == OBSub) && c.exactS(a) {
		if a.op == OBAdd {
			return c.RAdd(c.S2R(a.a), c.S2R(a.b))
		}
		return c.RSub(c.S2R(a.a), c.S2R(a.b))
	}
	if a.op == OConcat && a.a.isC() && a.b.w < 62 && a.a.w+a.b.w <= 64 {
		k := new(big.Int).Lsh(big.NewInt(sx(a.a.k, a.a.w)), uint(a.b.w))
		return c.RAdd(c.U2R(a.b), c.RConst(new(big.Rat).SetInt(k)))
	}
	if a.op == OBMul && (a.a.isC() || a.b.isC()) && c.exactS(a) {
		return c.RMul(c.S2R(a.a), c.S2R(a.b))
	}
	if l >= 0 {
		return c.U2R(a)
	}
	return c.mk(tkey{op: OS2R, w: wReal, a: a}, nil)
}

// ---- free variables

func (c *TermCtx) FV(t *Term) []*Term {
	if t.fv != nil {
		return t.fv
	}
	if t.op == OVar {
		t.fv = []*Term{t}
		return t.fv
	}
	if !t.multi {
		if t.v1 != nil {
			t.fv = []*Term{t.v1}
		}
		return t.fv
	}
	seen := map[*Term]bool{}
	var out []*Term
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x == nil {
			continue
		}
		for _, v := range c.FV(x) {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	t.fv = out
	return out
}

// ---- evaluation

type Model struct {
	bv map[*Term]uint64
	re map[*Term]*big.Rat
}

// Eval evaluates a bool/bv term under m (missing variables are 0).
func (c *TermCtx) Eval(t *Term, m *Model) uint64 {
	c.evGen++
	return c.ev(t, m, c.evGen)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) ev(t *Term, m *Model, g uint32) uint64 {
	if t.op == OConst {
		return t.k
	}
	if t.evGen == g {
		return t.evV
	}
	var v uint64
	switch t.op {
	case OVar:
		v = m.bv[t]
	case ONot:
		v = 1 - c.ev(t.a, m, g)
	case OAnd:
		v = c.ev(t.a, m, g)
		if v == 1 {
			v = c.ev(t.b, m, g)
		}
	case OOr:
		v = c.ev(t.a, m, g)
		if v == 0 {
			v = c.ev(t.b, m, g)
		}
	case OEq:
		if t.a.w == wReal {
			v = b2u(c.evr(t.a, m, g).Cmp(c.evr(t.b, m, g)) == 0)
		} else {
			v = b2u(c.ev(t.a, m, g) == c.ev(t.b, m, g))
		}
	case OUlt:
		v = b2u(c.ev(t.a, m, g) < c.ev(t.b, m, g))
	case OUle:
		v = b2u(c.ev(t.a, m, g) <= c.ev(t.b, m, g))
	case OSlt:
		v = b2u(sx(c.ev(t.a, m, g), t.a.w) < sx(c.ev(t.b, m, g), t.a.w))
	case OSle:
		v = b2u(sx(c.ev(t.a, m, g), t.a.w) <= sx(c.ev(t.b, m, g), t.a.w))
	case ORLt:
		v = b2u(c.evr(t.a, m, g).Cmp(c.evr(t.b, m, g)) < 0)
	case ORLe:
		v = b2u(c.evr(t.a, m, g).Cmp(c.evr(t.b, m, g)) <= 0)
	case OIte:
		if c.ev(t.a, m, g) == 1 {
			v = c.ev(t.b, m, g)
		} else {
			v = c.ev(t.c, m, g)
		}
	case OBNot:
		v = ^c.ev(t.a, m, g)
	case OConcat:
		v = c.ev(t.a, m, g)<<uint(t.b.w) | c.ev(t.b, m, g)
	case OExtract:
		v = c.ev(t.a, m, g) >> (t.k & 255)
	case OZext:
		v = c.ev(t.a, m, g)
	case OSext:
		v = uint64(sx(c.ev(t.a, m, g), t.a.w))
	default:
		x, y := c.ev(t.a, m, g), c.ev(t.b, m, g)
		w := t.w
		switch t.op {
		case OBAdd:
			v = x + y
		case OBSub:
			v = x - y
		case OBMul:
			v = x * y
		case OBUdiv:
			if y == 0 {
				v = mask(w)
			} else {
				v = x / y
			}
		case OBUrem:
			if y == 0 {
				v = x
			} else {
				v = x % y
			}
		case OBSdiv:
			sx1, sy := sx(x, w), sx(y, w)
			if sy == 0 {
				if sx1 >= 0 {
					v = mask(w)
				} else {
					v = 1
				}
			} else if sy == -1 {
				v = -x
			} else {
				v = uint64(sx1 / sy)
			}
		case OBSrem:
			sx1, sy := sx(x, w), sx(y, w)
			if sy == 0 {
				v = x
			} else if sy == -1 {
				v = 0
			} else {
				v = uint64(sx1 % sy)
			}
		case OBAnd:
			v = x & y
		case OBOr:
			v = x | y
		case OBXor:
			v = x ^ y
		case OBShl:
			if y >= uint64(w) {
				v = 0
			} else {
				v = x << y
			}
		case OBLshr:
			if y >= uint64(w) {
				v = 0
			} else {
				v = x >> y
			}
		case OBAshr:
			n := min(y, uint64(w-1))
			v = uint64(sx(x, w) >> n)
		default:
			panic(fmt.Sprintf("eval op %d", t.op))
		}
	}
	if t.w > 0 {
		v &= mask(t.w)
	}
	t.evGen = g
	t.evV = v
	return v
}

func (c *TermCtx) EvalR(t *Term, m *Model) *big.Rat {
	c.evGen++
	return c.evr(t, m, c.evGen)
}

func (c *TermCtx) evr(t *Term, m *Model, g uint32) *big.Rat {
	if t.op == ORConst {
		return t.r
	}
	if t.evGen == g && t.evR != nil {
		return t.evR
	}
	var v *big.Rat
	switch t.op {
	case OVar:
		v = m.re[t]
		if v == nil {
			v = new(big.Rat)
		}
	case ORAdd:
		v = new(big.Rat).Add(c.evr(t.a, m, g), c.evr(t.b, m, g))
	case ORSub:
		v = new(big.Rat).Sub(c.evr(t.a, m, g), c.evr(t.b, m, g))
	case ORMul:
		v = new(big.Rat).Mul(c.evr(t.a, m, g), c.evr(t.b, m, g))
	case ORDiv:
		d := c.evr(t.b, m, g)
		if d.Sign() == 0 {
			v = new(big.Rat)
		} else {
			v = new(big.Rat).Quo(c.evr(t.a, m, g), d)
		}
	case OIte:
		if c.ev(t.a, m, g) == 1 {
			v = c.evr(t.b, m, g)
		} else {
			v = c.evr(t.c, m, g)
		}
	case OU2R:
		v = new(big.Rat).SetInt(new(big.Int).SetUint64(c.ev(t.a, m, g)))
	case OS2R:
		v = new(big.Rat).SetInt64(sx(c.ev(t.a, m, g), t.a.w))
	default:
		panic(fmt.Sprintf("evalr op %d", t.op))
	}
	t.evGen = g
	t.evR = v
	return v
}

// truth returns the truth table of a bool term over its only variable (w<=8).
func (c *TermCtx) truth(t *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	var tt [4]uint64
	m := &Model{bv: map[*Term]uint64{}}
	n := 1 << uint(t.v1.w)
	for i := 0; i < n; i++ {
		m.bv[t.v1] = uint64(i)
		if c.Eval(t, m) == 1 {
			tt[i>>6] |= 1 << uint(i&63)
		}
	}
	t.tt = &tt
	return t.tt
}

// ---- printing

func sortStr(w int) string {
	switch w {
	case wBool:
		return "Bool"
	case wReal:
		return "Real"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func ratStr(r *big.Rat) string {
	n := new(big.Int).Abs(r.Num())
	s := n.String() + ".0"
	if !r.IsInt() {
		s = fmt.Sprintf("(/ %s.0 %s.0)", n.String(), r.Denom().String())
	}
	if r.Sign() < 0 {
		s = "(- " + s + ")"
	}
	return s
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OIte: "ite",
	OBAdd: "bvadd", OBSub: "bvsub", OBMul: "bvmul", OBUdiv: "bvudiv", OBUrem: "bvurem", OBSdiv: "bvsdiv", OBSrem: "bvsrem", OBAnd: "bvand", OBOr: "bvor",
	OBXor: "bvxor", OBNot: "bvnot", OBShl: "bvshl", OBLshr: "bvlshr", OBAshr: "bvashr", OConcat: "concat",
	ORAdd: "+", ORSub: "-", ORMul: "*", ORDiv: "/", ORLt: "<", ORLe: "<="}

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		if t.w == wBool {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case ORConst:
		return ratStr(t.r)
	case OVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&255, t.a.ref())
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OU2R, OS2R:
		var sb strings.Builder
		sb.WriteString("(+ 0.0")
		for i := 0; i < t.a.w; i++ {
			if t.op == OU2R && i >= bitlen(t.a.umax) {
				break
			}
			v := new(big.Int).Lsh(big.NewInt(1), uint(i)).String() + ".0"
			if t.op == OS2R && i == t.a.w-1 {
				v = "(- " + v + ")"
			}
			fmt.Fprintf(&sb, " (ite (= ((_ extract %d %d) %s) #b1) %s 0.0)", i, i, t.a.ref(), v)
		}
		sb.WriteString(")")
		return sb.String()
	}
	s := "(" + opNames[t.op] + " " + t.a.ref()
	if t.b != nil {
		s += " " + t.b.ref()
	}
	if t.c != nil {
		s += " " + t.c.ref()
	}
	return s + ")"
}

func (t *Term) String() string {
	switch t.op {
	case OConst, ORConst, OVar:
		return t.ref()
	}
	s := "(" + opNames[t.op]
	if t.op == OExtract {
		s = fmt.Sprintf("(ex[%d:%d]", t.k>>8, t.k&255)
	} else if t.op == OZext {
		s = fmt.Sprintf("(zx%d", t.w)
	} else if t.op == OSext {
		s = fmt.Sprintf("(sx%d", t.w)
	}
	for _, x := range [3]*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.String()
		}
	}
	return s + ")"
}
