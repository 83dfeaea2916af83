package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// roundCap mirrors the allocator's size classes: the capacity given for n
// elements of es bytes.
func roundCap(n, es int) int {
	if es == 0 {
		return n
	}
	b := n * es
	if b <= 32768 {
		i := sort.SearchInts(sizeClasses, b)
		return sizeClasses[i] / es
	}
	p := (b + 8191) / 8192 * 8192
	return p / es
}

func growCap(newLen, oldCap int) int {
	nc := oldCap
	dbl := nc + nc
	if newLen > dbl {
		return newLen
	}
	if oldCap < 256 {
		return dbl
	}
	for {
		nc += (nc + 3*256) >> 2
		if nc >= newLen {
			break
		}
	}
	return nc
}

// appendVals implements append for n new elements given as slots.
func (vm *VM) appendVals(sv Val, add []Val, es, bytes int) Val {
	if es == 0 {
		vm.unsupported("append of zero-size elements")
	}
	n := len(add) / es
	if sv.X == nil {
		if n == 0 {
			return sv
		}
		sv = Val{X: &Slice{o: vm.newObj(0), es: es}}
	}
	s := sv.X.(*Slice)
	if s.len+n <= s.cap {
		base := s.off + s.len*es
		tmp := add
		if s.o.birth < vm.serial {
			for i := range tmp {
				vm.set(s.o, base+i, tmp[i])
			}
		} else {
			copy(s.o.s[base:base+len(tmp)], tmp)
		}
		return Val{X: &Slice{o: s.o, off: s.off, len: s.len + n, cap: s.cap, es: es}}
	}
	nc := roundCap(growCap(s.len+n, s.cap), max(bytes, 1))
	if nc > 1<<26 {
		vm.unsupported("huge slice")
	}
	o := vm.newObj(nc * es)
	copy(o.s, s.o.s[s.off:s.off+s.len*es])
	copy(o.s[s.len*es:], add)
	return Val{X: &Slice{o: o, len: s.len + n, cap: nc, es: es}}
}

func (c *compiler) builtin(b *ssa.Builtin, cc *ssa.CallCommon, ops []opnd, dst int) func(vm *VM, fr *Frame) bool {
	vm := c.vm
	set := func(f func(vm *VM, fr *Frame) Val) func(vm *VM, fr *Frame) bool {
		return func(vm *VM, fr *Frame) bool {
			v := f(vm, fr)
			if dst >= 0 {
				fr.regs[dst] = v
			}
			return true
		}
	}
	switch b.Name() {
	case "append":
		st := cc.Args[0].Type().Underlying().(*types.Slice)
		es := vm.slots(st.Elem())
		bs := int(vm.w.sizes.Sizeof(st.Elem()))
		isStr := kindOf(cc.Args[1].Type()).k == kString
		return set(func(vm *VM, fr *Frame) Val {
			a, x := ops[0].get(fr), ops[1].get(fr)
			var add []Val
			if isStr {
				add = strBytes(x)
			} else {
				add = sliceVals(x)
			}
			return vm.appendVals(a, add, es, bs)
		})
	case "copy":
		isStr := kindOf(cc.Args[1].Type()).k == kString
		return set(func(vm *VM, fr *Frame) Val {
			d, x := ops[0].get(fr), ops[1].get(fr)
			if d.X == nil {
				return Val{}
			}
			ds := d.X.(*Slice)
			var src []Val
			if isStr {
				src = strBytes(x)
			} else {
				src = sliceVals(x)
			}
			es := max(ds.es, 1)
			n := min(ds.len, len(src)/es)
			if ds.o.birth < vm.serial {
				tmp := append([]Val(nil), src[:n*es]...)
				for i := range tmp {
					vm.set(ds.o, ds.off+i, tmp[i])
				}
			} else {
				copy(ds.o.s[ds.off:ds.off+n*es], src[:n*es])
			}
			return intVal(n)
		})
	case "len", "cap":
		isCap := b.Name() == "cap"
		t := cc.Args[0].Type()
		if kindOf(t).k == kString {
			return set(func(vm *VM, fr *Frame) Val { return intVal(strLen(ops[0].get(fr))) })
		}
		switch u := t.Underlying().(type) {
		case *types.Slice:
			return set(func(vm *VM, fr *Frame) Val {
				v := ops[0].get(fr)
				if v.X == nil {
					return Val{}
				}
				if isCap {
					return intVal(v.X.(*Slice).cap)
				}
				return intVal(v.X.(*Slice).len)
			})
		case *types.Map:
			return set(func(vm *VM, fr *Frame) Val {
				v := ops[0].get(fr)
				if v.X == nil {
					return Val{}
				}
				return intVal(v.X.(*MapObj).n)
			})
		case *types.Array:
			n := int(u.Len())
			return set(func(vm *VM, fr *Frame) Val { return intVal(n) })
		case *types.Pointer:
			n := int(u.Elem().Underlying().(*types.Array).Len())
			return set(func(vm *VM, fr *Frame) Val { return intVal(n) })
		}
	case "delete":
		kt := cc.Args[0].Type().Underlying().(*types.Map).Key()
		return set(func(vm *VM, fr *Frame) Val {
			m := ops[0].get(fr)
			if m.X != nil {
				vm.mapDelete(m.X.(*MapObj), kt, ops[1].get(fr))
			}
			return Val{}
		})
	case "clear":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
			kt := cc.Args[0].Type().Underlying().(*types.Map).Key()
			return set(func(vm *VM, fr *Frame) Val {
				m := ops[0].get(fr)
				if m.X != nil {
					mo := m.X.(*MapObj)
					for i := range mo.ents {
						if mo.ents[i].live {
							vm.mapDelete(mo, kt, mo.ents[i].k)
						}
					}
				}
				return Val{}
			})
		}
		el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		return set(func(vm *VM, fr *Frame) Val {
			v := ops[0].get(fr)
			if v.X != nil {
				s := v.X.(*Slice)
				_ = el
				for i := 0; i < s.len*s.es; i++ {
					vm.set(s.o, s.off+i, Val{})
				}
			}
			return Val{}
		})
	case "print", "println":
		return set(func(vm *VM, fr *Frame) Val { return Val{} })
	case "recover":
		return set(func(vm *VM, fr *Frame) Val {
			n := len(vm.stack)
			if n < 2 || !fr.isDefer {
				return Val{}
			}
			par := vm.stack[n-2]
			if !par.panicking || par.recovered {
				return Val{}
			}
			if par.shared {
				par = par.clone()
				vm.stack[n-2] = par
			}
			par.recovered = true
			return par.pval
		})
	case "min", "max":
		isMax := b.Name() == "max"
		k := kindOf(cc.Args[0].Type())
		return set(func(vm *VM, fr *Frame) Val {
			r := ops[0].get(fr)
			for _, o := range ops[1:] {
				v := o.get(fr)
				if k.k == kInt {
					if r.X == nil && v.X == nil {
						less := r.N < v.N
						if k.signed {
							less = int64(r.N) < int64(v.N)
						}
						if less == isMax {
							r = v
						}
						continue
					}
					a, bb := vm.term(r, k), vm.term(v, k)
					lt := vm.tc.Ult(a, bb)
					if k.signed {
						lt = vm.tc.Slt(a, bb)
					}
					if isMax {
						r = vm.val(vm.tc.Ite(lt, bb, a), k)
					} else {
						r = vm.val(vm.tc.Ite(lt, a, bb), k)
					}
					continue
				}
				if k.k == kFloat {
					if r.X == nil && v.X == nil {
						if (r.f() < v.f()) == isMax {
							r = v
						}
						continue
					}
					if vm.decide(vm.tc.RLt(vm.real(r), vm.real(v))) == isMax {
						r = v
					}
					continue
				}
				vm.unsupported("min/max")
			}
			return r
		})
	case "ssa:wrapnilchk":
		return set(func(vm *VM, fr *Frame) Val {
			v := ops[0].get(fr)
			if v.X == nil {
				vm.nilPanic()
			}
			return v
		})
	case "SliceData":
		return set(func(vm *VM, fr *Frame) Val {
			v := ops[0].get(fr)
			if v.X == nil {
				return Val{}
			}
			s := v.X.(*Slice)
			return Val{X: s.o, N: uint64(s.off)}
		})
	case "StringData":
		return set(func(vm *VM, fr *Frame) Val {
			b := strBytes(ops[0].get(fr))
			if len(b) == 0 {
				return Val{}
			}
			o := vm.newObj(len(b))
			copy(o.s, b)
			return Val{X: o}
		})
	case "String":
		k := kindOf(cc.Args[1].Type())
		return set(func(vm *VM, fr *Frame) Val {
			p := ops[0].get(fr)
			n := int(int64(vm.conc(ops[1].get(fr), k)))
			if n == 0 {
				return Val{}
			}
			o := p.X.(*Obj)
			sl := o.s[p.N : int(p.N)+n]
			for i := range sl {
				if sl[i].X != nil {
					return Val{X: &SymStr{append([]Val(nil), sl...)}}
				}
			}
			return mkStr(sl)
		})
	case "Slice":
		k := kindOf(cc.Args[1].Type())
		es := vm.slots(cc.Args[0].Type().Underlying().(*types.Pointer).Elem())
		return set(func(vm *VM, fr *Frame) Val {
			p := ops[0].get(fr)
			n := int(int64(vm.conc(ops[1].get(fr), k)))
			if p.X == nil {
				return Val{}
			}
			return Val{X: &Slice{o: p.X.(*Obj), off: int(p.N), len: n, cap: n, es: es}}
		})
	}
	return c.bad("builtin %s(%v)", b.Name(), fmt.Sprint(cc.Args))
}
