package main

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"strings"
)

// Val is one slot. Concrete scalars live in N (signed integers sign-extended to
// 64 bits, unsigned zero-extended, bools 0/1, floats as float64 bits). X holds
// everything else:
//
//	*Term            symbolic integer or bool
//	*FSym            symbolic float
//	string, *SymStr  strings (nil is "")
//	*Obj             pointer; N is the slot offset
//	*SymPtr          pointer with a symbolic index
//	*Slice           slice (nil is nil)
//	*MapObj          map (nil is nil)
//	*Iface           interface (nil is nil)
//	*Closure         func (nil is nil)
//	[]Val            struct/array value (flattened), or tuple (not flattened)
type Val struct {
	N uint64
	X any
}

type Obj struct {
	s     []Val
	birth uint64
	meta  any
}

type Slice struct {
	o             *Obj
	off, len, cap int // in slots for off, in elements for len and cap
	es            int // slots per element
}

type SymStr struct{ b []Val }

type Iface struct {
	T types.Type
	V Val
}

type Closure struct {
	fn   *Fn
	free []Val
}

type SymPtr struct {
	o    *Obj
	base int
	es   int
	n    int
	idx  *Term // 64-bit, known in range
	sub  int
}

// FSym is a symbolic float: an exact real term, an interval and a granularity
// (the value is a multiple of 2^-gran when gran >= 0).
type FSym struct {
	t      *Term
	lo, hi float64
	gran   int
}

type ment struct {
	k, v Val
	live bool
}

type MapObj struct {
	idx  map[any]int
	ents []ment
	n    int
	nsym int
	id   int
}

type RangeIter struct {
	pos   *Obj // slot 0: position
	str   Val
	isStr bool
	m     *MapObj
	order []int
}

func fbits(f float64) Val { return Val{N: math.Float64bits(f)} }
func (v Val) f() float64  { return math.Float64frombits(v.N) }

func strVal(s string) Val {
	if s == "" {
		return Val{}
	}
	return Val{X: s}
}

func boolVal(b bool) Val {
	if b {
		return Val{N: 1}
	}
	return Val{}
}

func intVal(i int) Val { return Val{N: uint64(int64(i))} }

func strLen(v Val) int {
	switch s := v.X.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v.X))
}

// strAt returns byte i as a slot.
func strAt(v Val, i int) Val {
	switch s := v.X.(type) {
	case string:
		return Val{N: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Val) []Val {
	switch s := v.X.(type) {
	case nil:
		return nil
	case string:
		r := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			r[i].N = uint64(s[i])
		}
		return r
	case *SymStr:
		return s.b
	}
	panic(fmt.Sprintf("strBytes of %T", v.X))
}

// mkStr builds a string value from bytes (the slice is kept if symbolic).
func mkStr(b []Val) Val {
	if len(b) == 0 {
		return Val{}
	}
	for i := range b {
		if b[i].X != nil {
			return Val{X: &SymStr{b}}
		}
	}
	var sb strings.Builder
	sb.Grow(len(b))
	for i := range b {
		sb.WriteByte(byte(b[i].N))
	}
	return Val{X: sb.String()}
}

func substr(v Val, lo, hi int) Val {
	if lo == hi {
		return Val{}
	}
	switch s := v.X.(type) {
	case string:
		return Val{X: s[lo:hi]}
	case *SymStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("substr")
}

func concStr(v Val) (string, bool) {
	switch s := v.X.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func (s *Slice) at(i int) *Val { return &s.o.s[s.off+i*s.es] }

func sliceVals(v Val) []Val {
	if v.X == nil {
		return nil
	}
	s := v.X.(*Slice)
	if s.len == 0 {
		return nil
	}
	return s.o.s[s.off : s.off+s.len*s.es]
}

func concBytes(v Val) ([]byte, bool) {
	sv := sliceVals(v)
	r := make([]byte, len(sv))
	for i := range sv {
		if sv[i].X != nil {
			return nil, false
		}
		r[i] = byte(sv[i].N)
	}
	return r, true
}

func (vm *VM) bytesVal(b []byte) Val {
	o := vm.newObj(len(b))
	for i, c := range b {
		o.s[i].N = uint64(c)
	}
	return Val{X: &Slice{o: o, len: len(b), cap: len(b), es: 1}}
}

func (vm *VM) byteSlots(b []Val) Val {
	o := vm.newObj(len(b))
	copy(o.s, b)
	return Val{X: &Slice{o: o, len: len(b), cap: len(b), es: 1}}
}

func ratF(f float64) *big.Rat { return new(big.Rat).SetFloat64(f) }

// ---- type info

type kindInfo struct {
	k      int // 0 other, 1 int, 2 bool, 3 float, 4 string
	signed bool
	w      int
}

const (
	kOther = iota
	kInt
	kBool
	kFloat
	kString
)

func kindOf(t types.Type) kindInfo {
	switch b := t.Underlying().(type) {
	case *types.Basic:
		switch b.Kind() {
		case types.Bool, types.UntypedBool:
			return kindInfo{k: kBool, w: wBool}
		case types.Int, types.Int64, types.UntypedInt:
			return kindInfo{kInt, true, 64}
		case types.Int8:
			return kindInfo{kInt, true, 8}
		case types.Int16:
			return kindInfo{kInt, true, 16}
		case types.Int32, types.UntypedRune:
			return kindInfo{kInt, true, 32}
		case types.Uint, types.Uint64, types.Uintptr:
			return kindInfo{kInt, false, 64}
		case types.Uint8:
			return kindInfo{kInt, false, 8}
		case types.Uint16:
			return kindInfo{kInt, false, 16}
		case types.Uint32:
			return kindInfo{kInt, false, 32}
		case types.Float32:
			return kindInfo{kFloat, true, 32}
		case types.Float64, types.UntypedFloat:
			return kindInfo{kFloat, true, 64}
		case types.String, types.UntypedString:
			return kindInfo{k: kString}
		}
	}
	return kindInfo{}
}

func (k kindInfo) norm(n uint64) uint64 {
	if k.w >= 64 || k.k != kInt {
		return n
	}
	if k.signed {
		return uint64(sx(n, k.w))
	}
	return n & mask(k.w)
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func (vm *VM) slots(t types.Type) int {
	if n, ok := vm.slotCache[t]; ok {
		return n
	}
	n := 1
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n = 0
		for i := 0; i < u.NumFields(); i++ {
			n += vm.slots(u.Field(i).Type())
		}
	case *types.Array:
		n = int(u.Len()) * vm.slots(u.Elem())
	case *types.Tuple:
		n = 1
	}
	vm.slotCache[t] = n
	return n
}

func (vm *VM) fieldOff(st *types.Struct, f int) int {
	n := 0
	for i := 0; i < f; i++ {
		n += vm.slots(st.Field(i).Type())
	}
	return n
}

func (vm *VM) zero(t types.Type) Val {
	if isAgg(t) {
		return Val{X: make([]Val, vm.slots(t))}
	}
	if tp, ok := t.(*types.Tuple); ok {
		r := make([]Val, tp.Len())
		for i := range r {
			r[i] = vm.zero(tp.At(i).Type())
		}
		return Val{X: r}
	}
	return Val{}
}

// term turns a scalar slot into a term of the given kind.
func (vm *VM) term(v Val, k kindInfo) *Term {
	if v.X != nil {
		if t, ok := v.X.(*Term); ok {
			return t
		}
		panic(fmt.Sprintf("term of %T", v.X))
	}
	if k.k == kBool {
		return vm.tc.Bool(v.N != 0)
	}
	return vm.tc.BV(k.w, v.N)
}

// val turns a term back into a slot.
func (vm *VM) val(t *Term, k kindInfo) Val {
	if t.op == OConst {
		if k.k == kBool {
			return Val{N: t.k}
		}
		if k.signed {
			return Val{N: uint64(sx(t.k, t.w))}
		}
		return Val{N: t.k}
	}
	return Val{X: t}
}

func (vm *VM) boolv(t *Term) Val {
	if t.op == OConst {
		return Val{N: t.k}
	}
	return Val{X: t}
}

// byteT: an 8-bit slot as a term
func (vm *VM) byteT(v Val) *Term {
	if v.X == nil {
		return vm.tc.BV(8, v.N)
	}
	return v.X.(*Term)
}
