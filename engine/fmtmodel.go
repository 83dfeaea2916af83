package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"
)

// fmtBytes implements fmt formatting over possibly symbolic arguments.
func (vm *VM) fmtBytes(format string, args []Val) []Val {
	var out []Val
	lit := func(s string) { out = append(out, strBytes(strVal(s))...) }
	argi := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			lit(format[i:])
			break
		}
		lit(format[i : i+j])
		i += j
		st := i
		i++
		flags := ""
		for i < len(format) && strings.IndexByte("+-# 0", format[i]) >= 0 {
			flags += string(format[i])
			i++
		}
		width, prec := -1, -1
		num := func() int {
			if i < len(format) && format[i] == '*' {
				i++
				if argi < len(args) {
					v := args[argi].X.(*Iface).V
					argi++
					return int(int64(v.N))
				}
				return -1
			}
			n := -1
			for i < len(format) && format[i] >= '0' && format[i] <= '9' {
				if n < 0 {
					n = 0
				}
				n = n*10 + int(format[i]-'0')
				i++
			}
			return n
		}
		width = num()
		if i < len(format) && format[i] == '.' {
			i++
			prec = num()
			if prec < 0 {
				prec = 0
			}
		}
		if i >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb, n := utf8.DecodeRuneInString(format[i:])
		i += n
		_ = st
		if verb == '%' {
			lit("%")
			continue
		}
		if argi >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		a := args[argi]
		argi++
		out = append(out, vm.fmtVerb(flags, width, prec, verb, a)...)
	}
	if argi < len(args) {
		lit("%!(EXTRA ...)")
	}
	return out
}

func (vm *VM) pad(b []Val, flags string, width int) []Val {
	if width <= len(b) {
		return b
	}
	c := byte(' ')
	if strings.Contains(flags, "0") && !strings.Contains(flags, "-") {
		c = '0'
	}
	p := strBytes(strVal(strings.Repeat(string(c), width-len(b))))
	if strings.Contains(flags, "-") {
		return append(append([]Val(nil), b...), p...)
	}
	return append(p, b...)
}

func (vm *VM) fmtVerb(flags string, width, prec int, verb rune, a Val) []Val {
	spec := "%" + flags
	if width >= 0 {
		spec += fmt.Sprint(width)
	}
	if prec >= 0 {
		spec += fmt.Sprintf(".%d", prec)
	}
	if verb == 'w' {
		verb = 'v'
	}
	spec += string(verb)
	nat := func(x any) []Val { return strBytes(strVal(fmt.Sprintf(spec, x))) }
	if a.X == nil {
		return nat(nil)
	}
	i := a.X.(*Iface)
	if verb == 'T' {
		return strBytes(strVal(i.T.String()))
	}
	// errors and stringers
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'x' || verb == 'X' {
		if !strings.Contains(flags, "#") {
			for _, mn := range []string{"Error", "String"} {
				if f := vm.methodByName(i.T, mn); f != nil && f.fn.Signature.Params().Len() == 0 && f.fn.Signature.Results().Len() == 1 && kindOf(f.fn.Signature.Results().At(0).Type()).k == kString {
					if _, isPtr := i.T.Underlying().(*types.Pointer); isPtr && i.V.X == nil {
						return strBytes(strVal("<nil>"))
					}
					s := vm.callSync(f, nil, []Val{i.V})
					return vm.fmtStr(spec, flags, width, prec, verb, s)
				}
			}
		}
	}
	k := kindOf(i.T)
	v := i.V
	switch k.k {
	case kString:
		return vm.fmtStr(spec, flags, width, prec, verb, v)
	case kBool:
		b := v.N != 0
		if v.X != nil {
			b = vm.decide(v.X.(*Term))
		}
		return nat(b)
	case kFloat:
		if f, ok := v.X.(*FSym); ok {
			if prec < 0 {
				vm.unsupported("symbolic float printed with %s", spec)
			}
			return vm.pad(strBytes(strVal(vm.fmtToken(f))), flags, width)
		}
		if k.w == 32 {
			return nat(float32(v.f()))
		}
		return nat(v.f())
	case kInt:
		if v.X == nil {
			if k.signed {
				if k.w == 32 {
					return nat(int32(v.N))
				}
				return nat(int64(v.N))
			}
			if k.w == 8 {
				return nat(uint8(v.N))
			}
			return nat(v.N)
		}
		t := v.X.(*Term)
		switch verb {
		case 'd', 'v':
			return vm.pad(vm.decDigits(t, k), flags, width)
		case 'x', 'X':
			return vm.hexNum(t, k, verb == 'X', flags, width)
		case 'c':
			return vm.encodeRune(v, k)
		}
		vm.unsupported("symbolic integer printed with %s", spec)
	}
	switch u := i.T.Underlying().(type) {
	case *types.Slice, *types.Array:
		var el types.Type
		var sv []Val
		if s, ok := u.(*types.Slice); ok {
			el = s.Elem()
			sv = sliceVals(v)
		} else {
			el = u.(*types.Array).Elem()
			sv = v.X.([]Val)
		}
		ek := kindOf(el)
		if ek.k == kInt && ek.w == 8 && !ek.signed {
			switch verb {
			case 's', 'q':
				return vm.fmtStr(spec, flags, width, prec, verb, mkStr(append([]Val(nil), sv...)))
			case 'x', 'X':
				var out []Val
				for _, b := range sv {
					out = append(out, vm.hexByte(b, verb == 'X')...)
				}
				return out
			}
		}
		es := vm.slots(el)
		out := strBytes(strVal("["))
		for p := 0; p+es <= len(sv) && es > 0; p += es {
			if p > 0 {
				out = append(append([]Val(nil), out...), Val{N: ' '})
			}
			ev := vm.sub(sv, p, es, el)
			if _, isI := el.Underlying().(*types.Interface); !isI {
				ev = Val{X: &Iface{T: vm.canon(el), V: ev}}
			}
			out = append(append([]Val(nil), out...), vm.fmtVerb(flags, width, prec, verb, ev)...)
		}
		return append(append([]Val(nil), out...), Val{N: ']'})
	case *types.Pointer:
		if v.X == nil {
			return strBytes(strVal("<nil>"))
		}
		return strBytes(strVal("0xc000000000"))
	}
	return strBytes(strVal("{" + i.T.String() + "}"))
}

func (vm *VM) fmtStr(spec, flags string, width, prec int, verb rune, s Val) []Val {
	if cs, ok := concStr(s); ok {
		return strBytes(strVal(fmt.Sprintf(spec, cs)))
	}
	switch verb {
	case 's', 'v':
		b := strBytes(s)
		if prec >= 0 && prec < len(b) {
			b = b[:prec]
		}
		return vm.pad(b, flags, width)
	case 'x', 'X':
		var out []Val
		for _, c := range strBytes(s) {
			out = append(out, vm.hexByte(c, verb == 'X')...)
		}
		return out
	}
	vm.unsupported("symbolic string printed with %s", spec)
	return nil
}

var u8k = kindInfo{kInt, false, 8}

func (vm *VM) hexDigit(t4 *Term, upper bool) Val {
	tc := vm.tc
	d := tc.Zext(t4, 8)
	al := uint64('a' - 10)
	if upper {
		al = 'A' - 10
	}
	return vm.val(tc.Ite(tc.Ult(d, tc.BV(8, 10)), tc.Add(d, tc.BV(8, '0')), tc.Add(d, tc.BV(8, al))), u8k)
}

func (vm *VM) hexByte(b Val, upper bool) []Val {
	t := vm.byteT(b)
	return []Val{vm.hexDigit(vm.tc.Extract(7, 4, t), upper), vm.hexDigit(vm.tc.Extract(3, 0, t), upper)}
}

// nonneg splits off the sign.
func (vm *VM) nonneg(t *Term, k kindInfo) (*Term, bool) {
	if k.signed && vm.decide(vm.tc.Slt(t, vm.tc.BV(t.w, 0))) {
		return vm.tc.Sub(vm.tc.BV(t.w, 0), t), true
	}
	return t, false
}

func (vm *VM) hexNum(t *Term, k kindInfo, upper bool, flags string, width int) []Val {
	t, neg := vm.nonneg(t, k)
	nd := 1
	maxd := (bitlen(t.umax) + 3) / 4
	if strings.Contains(flags, "0") && width > 1 && !neg {
		nd = width
	}
	for nd < maxd && !vm.decide(vm.tc.Ult(t, vm.tc.BV(t.w, uint64(1)<<uint(4*nd)))) {
		nd++
	}
	var out []Val
	if neg {
		out = append(out, Val{N: '-'})
	}
	for d := nd - 1; d >= 0; d-- {
		lo := 4 * d
		if lo >= t.w {
			out = append(out, Val{N: '0'})
			continue
		}
		hi := min(lo+3, t.w-1)
		out = append(out, vm.hexDigit(vm.tc.Zext(vm.tc.Extract(hi, lo, t), 4), upper))
	}
	return vm.pad(out, flags, width)
}

// decDigits prints a symbolic integer in decimal: it forks on the number of
// digits and introduces one variable per digit.
func (vm *VM) decDigits(t *Term, k kindInfo) []Val {
	tc := vm.tc
	t, neg := vm.nonneg(t, k)
	var out []Val
	if neg {
		out = append(out, Val{N: '-'})
	}
	nd := 1
	p := uint64(10)
	for p <= t.umax && !vm.decide(tc.Ult(t, tc.BV(t.w, p))) {
		nd++
		if p > 1<<63/10 {
			break
		}
		p *= 10
	}
	if nd == 1 {
		return append(out, vm.val(tc.Add(tc.Zext(tc.Extract(min(3, t.w-1), 0, t), 8), tc.BV(8, '0')), u8k))
	}
	w := min(t.w, bitlen(p)+1)
	w = max(w, 5)
	if w > t.w {
		t = tc.Zext(t, w)
	}
	x := tc.Extract(w-1, 0, t)
	var sum *Term = tc.BV(w, 0)
	mul := uint64(1)
	ds := make([]*Term, nd)
	for d := 0; d < nd; d++ {
		v := vm.fresh("dg", 4)
		vm.assume(tc.Ult(v, tc.BV(4, 10)))
		ds[d] = v
		sum = tc.Add(sum, tc.Mul(tc.Zext(v, w), tc.BV(w, mul)))
		mul *= 10
	}
	vm.assume(tc.Eq(x, sum))
	first := len(out)
	for d := nd - 1; d >= 0; d-- {
		out = append(out, vm.val(tc.Add(tc.Zext(ds[d], 8), tc.BV(8, '0')), u8k))
	}
	if key := runKey(out[first:]); key != "" {
		old := vm.runs[key]
		vm.runs[key] = t
		vm.undoFn(func() { vm.runs[key] = old })
	}
	return out
}

// sprint implements fmt.Sprint / Sprintln spacing.
func (vm *VM) sprint(args []Val, ln bool) []Val {
	var out []Val
	prevStr := true
	for i, a := range args {
		isStr := a.X != nil && kindOf(a.X.(*Iface).T).k == kString
		if i > 0 && (ln || (!isStr && !prevStr)) {
			out = append(out, Val{N: ' '})
		}
		out = append(out, vm.fmtVerb("", -1, -1, 'v', a)...)
		prevStr = isStr
	}
	if ln {
		out = append(out, Val{N: '\n'})
	}
	return out
}
