package main

import (
	"bytes"
	"compress/zlib"
	"crypto/md5"
	"fmt"
	"go/types"
	"io"
	"math"
	"math/big"
	"strconv"
	"strings"
	"unicode/utf8"
)

var intrinsics = map[string]Intrinsic{}

func intrinsicFor(name string) Intrinsic {
	return intrinsics[name]
}

func reg(name string, f Intrinsic) { intrinsics[name] = f }

func tuple(v ...Val) Val { return Val{X: v} }

func nop(vm *VM, fr *Frame, a []Val) Val { return Val{} }

// callSync runs a function to completion inside an intrinsic; it must not fork.
func (vm *VM) callSync(f *Fn, free []Val, args []Val) Val {
	if f.intr != nil {
		r := f.intr(vm, vm.top(), args)
		if rc, ok := r.X.(redirectCall); ok {
			return vm.callSync(rc.fn, rc.free, rc.args)
		}
		return r
	}
	sd, sp, sim, sr := append([]dec(nil), vm.decs...), vm.decPos, vm.im, vm.resume
	nchoice := len(vm.choices)
	// a holder frame receives the result
	h := &Frame{fn: f, regs: make([]Val, 1), blk: &Block{}}
	base := len(vm.stack)
	vm.stack = append(vm.stack, h)
	nf := vm.newFrame(f, args, free)
	nf.dst = 0
	vm.push(nf)
	sb := vm.baseDepth
	nofork := vm.noFork
	vm.noFork = true
	vm.baseDepth = base + 1
	vm.resume = false
	defer func() { vm.noFork = nofork; vm.baseDepth = sb }()
	vm.run(base + 1)
	if len(vm.choices) != nchoice {
		vm.unsupported("fork inside a synchronous call")
	}
	r := vm.stack[base].regs[0]
	vm.stack = vm.stack[:base]
	vm.decs, vm.decPos, vm.im, vm.resume = sd, sp, sim, sr
	vm.imDirty = true
	return r
}

func (vm *VM) modelFn(name string) *Fn {
	f := vm.w.modelPkg.Func(name)
	if f == nil {
		vm.unsupported("no model function %s", name)
	}
	return vm.fnOf(f)
}

func redirect(name string) Intrinsic {
	return func(vm *VM, fr *Frame, a []Val) Val {
		return Val{X: redirectCall{fn: vm.modelFn(name), args: a}}
	}
}

func mustStr(vm *VM, v Val, what string) string {
	s, ok := concStr(v)
	if !ok {
		vm.unsupported("symbolic %s", what)
	}
	return s
}

func (vm *VM) errorVal(msg string) Val {
	o := vm.newObj(1)
	o.s[0] = strVal(msg)
	return Val{X: &Iface{T: vm.canon(vm.w.errStrType), V: Val{X: o}}}
}

// findSub returns the first position of sub in b at or after p, deciding
// symbolic matches one position at a time.
func (vm *VM) findSub(b, sub []Val, from, to, step int) int {
	for i := from; i != to; i += step {
		if i < 0 || i+len(sub) > len(b) {
			continue
		}
		if vm.decide(vm.bytesEq(b[i:i+len(sub)], sub)) {
			return i
		}
	}
	return -1
}

func indexBytes(vm *VM, b, sub []Val) Val {
	if len(sub) == 0 {
		return Val{}
	}
	return intVal(vm.findSub(b, sub, 0, len(b)-len(sub)+1, 1))
}

func lastIndexBytes(vm *VM, b, sub []Val) Val {
	if len(sub) > len(b) {
		return intVal(-1)
	}
	if len(sub) == 0 {
		return intVal(len(b))
	}
	return intVal(vm.findSub(b, sub, len(b)-len(sub), -1, -1))
}

func init() {
	// ---- strings and bytes searching
	si := func(vm *VM, fr *Frame, a []Val) Val {
		s, ok1 := concStr(a[0])
		t, ok2 := concStr(a[1])
		if ok1 && ok2 {
			return intVal(strings.Index(s, t))
		}
		if strLen(a[1]) > strLen(a[0]) {
			return intVal(-1)
		}
		return indexBytes(vm, strBytes(a[0]), strBytes(a[1]))
	}
	reg("strings.Index", si)
	reg("internal/bytealg.IndexString", si)
	reg("internal/stringslite.Index", si)
	bi := func(vm *VM, fr *Frame, a []Val) Val {
		if len(sliceVals(a[1])) > len(sliceVals(a[0])) {
			return intVal(-1)
		}
		return indexBytes(vm, sliceVals(a[0]), sliceVals(a[1]))
	}
	reg("bytes.Index", bi)
	reg("internal/bytealg.Index", bi)
	reg("strings.LastIndex", func(vm *VM, fr *Frame, a []Val) Val { return lastIndexBytes(vm, strBytes(a[0]), strBytes(a[1])) })
	reg("bytes.LastIndex", func(vm *VM, fr *Frame, a []Val) Val { return lastIndexBytes(vm, sliceVals(a[0]), sliceVals(a[1])) })
	sib := func(vm *VM, fr *Frame, a []Val) Val { return indexBytes(vm, strBytes(a[0]), []Val{a[1]}) }
	bib := func(vm *VM, fr *Frame, a []Val) Val { return indexBytes(vm, sliceVals(a[0]), []Val{a[1]}) }
	reg("strings.IndexByte", sib)
	reg("internal/bytealg.IndexByteString", sib)
	reg("internal/stringslite.IndexByte", sib)
	reg("bytes.IndexByte", bib)
	reg("internal/bytealg.IndexByte", bib)
	lb := func(vm *VM, fr *Frame, a []Val) Val { return lastIndexBytes(vm, strBytes(a[0]), []Val{a[1]}) }
	reg("strings.LastIndexByte", lb)
	reg("internal/bytealg.LastIndexByteString", lb)
	blb := func(vm *VM, fr *Frame, a []Val) Val { return lastIndexBytes(vm, sliceVals(a[0]), []Val{a[1]}) }
	reg("bytes.LastIndexByte", blb)
	reg("internal/bytealg.LastIndexByte", blb)
	cnt := func(vm *VM, b []Val, c Val) Val {
		n := 0
		for i := range b {
			if vm.decide(vm.tc.Eq(vm.byteT(b[i]), vm.byteT(c))) {
				n++
			}
		}
		return intVal(n)
	}
	reg("internal/bytealg.CountString", func(vm *VM, fr *Frame, a []Val) Val { return cnt(vm, strBytes(a[0]), a[1]) })
	reg("internal/bytealg.Count", func(vm *VM, fr *Frame, a []Val) Val { return cnt(vm, sliceVals(a[0]), a[1]) })
	beq := func(vm *VM, fr *Frame, a []Val) Val {
		x, y := sliceVals(a[0]), sliceVals(a[1])
		if len(x) != len(y) {
			return Val{}
		}
		return vm.boolv(vm.bytesEq(x, y))
	}
	reg("bytes.Equal", beq)
	reg("internal/bytealg.Equal", beq)
	cmp := func(vm *VM, p, q Val) Val {
		if vm.decide(vm.strEq(p, q)) {
			return Val{}
		}
		if vm.decide(vm.strLess(p, q)) {
			return intVal(-1)
		}
		return intVal(1)
	}
	reg("internal/bytealg.CompareString", func(vm *VM, fr *Frame, a []Val) Val { return cmp(vm, a[0], a[1]) })
	reg("strings.Compare", func(vm *VM, fr *Frame, a []Val) Val { return cmp(vm, a[0], a[1]) })
	bcmp := func(vm *VM, fr *Frame, a []Val) Val {
		return cmp(vm, Val{X: &SymStr{sliceVals(a[0])}}, Val{X: &SymStr{sliceVals(a[1])}})
	}
	reg("internal/bytealg.Compare", bcmp)
	reg("bytes.Compare", bcmp)
	reg("internal/bytealg.MakeNoZero", func(vm *VM, fr *Frame, a []Val) Val {
		n := int(int64(a[0].N))
		c := roundCap(n, 1)
		return Val{X: &Slice{o: vm.newObj(c), len: n, cap: c, es: 1}}
	})
	reg("strings.EqualFold", func(vm *VM, fr *Frame, a []Val) Val {
		s, ok1 := concStr(a[0])
		t, ok2 := concStr(a[1])
		if ok1 && ok2 {
			return boolVal(strings.EqualFold(s, t))
		}
		x, y := strBytes(a[0]), strBytes(a[1])
		if len(x) != len(y) {
			vm.unsupported("EqualFold of symbolic strings")
		}
		r := vm.tc.T
		low := func(v Val) *Term {
			t := vm.byteT(v)
			up := vm.tc.And(vm.tc.Ule(vm.tc.BV(8, 'A'), t), vm.tc.Ule(t, vm.tc.BV(8, 'Z')))
			return vm.tc.Ite(up, vm.tc.Add(t, vm.tc.BV(8, 32)), t)
		}
		for i := range x {
			r = vm.tc.And(r, vm.tc.Eq(low(x[i]), low(y[i])))
		}
		return vm.boolv(r)
	})

	// ---- utf8
	drs := func(vm *VM, fr *Frame, a []Val) Val {
		if strLen(a[0]) == 0 {
			return tuple(Val{N: 0xFFFD}, Val{})
		}
		r, n := vm.decodeRune(a[0], 0)
		return tuple(r, intVal(n))
	}
	reg("unicode/utf8.DecodeRuneInString", drs)
	drb := func(vm *VM, fr *Frame, a []Val) Val {
		b := sliceVals(a[0])
		if len(b) == 0 {
			return tuple(Val{N: 0xFFFD}, Val{})
		}
		r, n := vm.decodeBytes(b)
		return tuple(r, intVal(n))
	}
	reg("unicode/utf8.DecodeRune", drb)
	reg("unicode/utf8.RuneCountInString", func(vm *VM, fr *Frame, a []Val) Val {
		if s, ok := concStr(a[0]); ok {
			return intVal(utf8.RuneCountInString(s))
		}
		n := 0
		for p := 0; p < strLen(a[0]); n++ {
			_, k := vm.decodeRune(a[0], p)
			p += k
		}
		return intVal(n)
	})
	reg("unicode/utf8.AppendRune", func(vm *VM, fr *Frame, a []Val) Val {
		b := vm.encodeRune(a[1], rk)
		return vm.appendVals(a[0], b, 1, 1)
	})
	reg("unicode/utf8.EncodeRune", func(vm *VM, fr *Frame, a []Val) Val {
		b := vm.encodeRune(a[1], rk)
		s := a[0].X.(*Slice)
		if s.len < len(b) {
			vm.rtPanic("index out of range")
		}
		for i := range b {
			vm.set(s.o, s.off+i, b[i])
		}
		return intVal(len(b))
	})

	// ---- strconv on floats
	reg("strconv.FormatFloat", func(vm *VM, fr *Frame, a []Val) Val {
		if f, ok := a[0].X.(*FSym); ok {
			return strVal(vm.fmtToken(f))
		}
		return strVal(strconv.FormatFloat(a[0].f(), byte(a[1].N), int(int64(a[2].N)), int(int64(a[3].N))))
	})
	reg("strconv.AppendFloat", func(vm *VM, fr *Frame, a []Val) Val {
		var s string
		if f, ok := a[1].X.(*FSym); ok {
			s = vm.fmtToken(f)
		} else {
			s = strconv.FormatFloat(a[1].f(), byte(a[2].N), int(int64(a[3].N)), int(int64(a[4].N)))
		}
		return vm.appendVals(a[0], strBytes(strVal(s)), 1, 1)
	})
	reg("strconv.ParseFloat", func(vm *VM, fr *Frame, a []Val) Val {
		s, ok := concStr(a[0])
		if !ok {
			if v, ok := vm.symNum(strBytes(a[0])); ok {
				return tuple(v, Val{})
			}
			s = vm.concretizeStr(a[0])
		}
		if f := vm.tokenOf(s); f != nil {
			return tuple(Val{X: f}, Val{})
		}
		f, err := strconv.ParseFloat(s, int(int64(a[1].N)))
		if err != nil {
			return tuple(fbits(f), vm.errorVal(err.Error()))
		}
		return tuple(fbits(f), Val{})
	})
	reg("strconv.Itoa", func(vm *VM, fr *Frame, a []Val) Val {
		if a[0].X == nil {
			return strVal(strconv.Itoa(int(int64(a[0].N))))
		}
		return mkStr(vm.decDigits(a[0].X.(*Term), kindInfo{kInt, true, 64}))
	})
	fmtint := func(vm *VM, v Val, base Val, signed bool) Val {
		if v.X == nil && base.X == nil {
			if signed {
				return strVal(strconv.FormatInt(int64(v.N), int(base.N)))
			}
			return strVal(strconv.FormatUint(v.N, int(base.N)))
		}
		k := kindInfo{kInt, signed, 64}
		switch vm.conc(base, kindInfo{kInt, true, 64}) {
		case 10:
			return mkStr(vm.decDigits(v.X.(*Term), k))
		case 16:
			return mkStr(vm.hexNum(v.X.(*Term), k, false, "", -1))
		}
		vm.unsupported("FormatInt base")
		return Val{}
	}
	reg("strconv.FormatInt", func(vm *VM, fr *Frame, a []Val) Val { return fmtint(vm, a[0], a[1], true) })
	reg("strconv.FormatUint", func(vm *VM, fr *Frame, a []Val) Val { return fmtint(vm, a[0], a[1], false) })

	// ---- fmt
	reg("fmt.Sprintf", func(vm *VM, fr *Frame, a []Val) Val {
		return mkStr(vm.fmtBytes(mustStr(vm, a[0], "format"), sliceVals(a[1])))
	})
	reg("fmt.Sprint", func(vm *VM, fr *Frame, a []Val) Val { return mkStr(vm.sprint(sliceVals(a[0]), false)) })
	reg("fmt.Sprintln", func(vm *VM, fr *Frame, a []Val) Val { return mkStr(vm.sprint(sliceVals(a[0]), true)) })
	reg("fmt.Appendf", func(vm *VM, fr *Frame, a []Val) Val {
		return vm.appendVals(a[0], vm.fmtBytes(mustStr(vm, a[1], "format"), sliceVals(a[2])), 1, 1)
	})
	wr := func(vm *VM, w Val, b []Val) Val {
		if w.X == nil {
			vm.nilPanic()
		}
		i := w.X.(*Iface)
		if strings.Contains(i.T.String(), "os.File") {
			if _, ok := i.V.X.(*Obj); !ok {
				return tuple(intVal(len(b)), Val{})
			}
			return vmFileWrite(vm, i.V, b)
		}
		m := vm.methodByName(i.T, "Write")
		if m == nil {
			vm.unsupported("Fprintf to %s", i.T)
		}
		return Val{X: redirectCall{fn: m, args: []Val{i.V, vm.byteSlots(b)}}}
	}
	reg("fmt.Fprintf", func(vm *VM, fr *Frame, a []Val) Val {
		return wr(vm, a[0], vm.fmtBytes(mustStr(vm, a[1], "format"), sliceVals(a[2])))
	})
	reg("fmt.Fprint", func(vm *VM, fr *Frame, a []Val) Val { return wr(vm, a[0], vm.sprint(sliceVals(a[1]), false)) })
	reg("fmt.Fprintln", func(vm *VM, fr *Frame, a []Val) Val { return wr(vm, a[0], vm.sprint(sliceVals(a[1]), true)) })
	pr := func(vm *VM, fr *Frame, a []Val) Val { return tuple(Val{}, Val{}) }
	reg("fmt.Printf", pr)
	reg("fmt.Println", pr)
	reg("fmt.Print", pr)
	reg("fmt.Errorf", func(vm *VM, fr *Frame, a []Val) Val {
		f := mustStr(vm, a[0], "format")
		args := sliceVals(a[1])
		msg := mkStr(vm.fmtBytes(f, args))
		// position of %w
		var wrapped Val
		n := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] == '%' {
				i++
				for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
					i++
				}
				if i < len(f) && f[i] != '%' {
					if f[i] == 'w' && n < len(args) {
						wrapped = args[n]
					}
					n++
				}
			}
		}
		if wrapped.X != nil {
			o := vm.newObj(2)
			o.s[0] = msg
			o.s[1] = wrapped
			return Val{X: &Iface{T: vm.canon(vm.w.wrapErrType), V: Val{X: o}}}
		}
		o := vm.newObj(1)
		o.s[0] = msg
		return Val{X: &Iface{T: vm.canon(vm.w.errStrType), V: Val{X: o}}}
	})

	// ---- regexp
	comp := func(must bool) Intrinsic {
		return func(vm *VM, fr *Frame, a []Val) Val {
			expr := mustStr(vm, a[0], "regular expression")
			n, err := compileRe(expr)
			if err != nil {
				if must {
					panic(goPanic{vm.rtErr("regexp: Compile: " + err.Error())})
				}
				return tuple(Val{}, vm.errorVal(err.Error()))
			}
			st := vm.w.regexpType.Underlying().(*types.Struct)
			o := vm.newObj(vm.slots(st))
			fld := func(name string) int {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Name() == name {
						return vm.fieldOff(st, i)
					}
				}
				vm.unsupported("regexp field %s", name)
				return 0
			}
			o.s[fld("expr")] = strVal(expr)
			o.s[fld("numSubexp")] = intVal(n.re.NumSubexp())
			names := n.re.SubexpNames()
			so := vm.newObj(len(names))
			for i, s := range names {
				so.s[i] = strVal(s)
			}
			o.s[fld("subexpNames")] = Val{X: &Slice{o: so, len: len(names), cap: len(names), es: 1}}
			pst := vm.w.reProgType.Underlying().(*types.Struct)
			po := vm.newObj(vm.slots(pst))
			for i := 0; i < pst.NumFields(); i++ {
				if pst.Field(i).Name() == "NumCap" {
					po.s[vm.fieldOff(pst, i)] = intVal(n.prog.NumCap)
				}
			}
			o.s[fld("prog")] = Val{X: po}
			o.meta = n
			if must {
				return Val{X: o}
			}
			return tuple(Val{X: o}, Val{})
		}
	}
	reg("regexp.MustCompile", comp(true))
	reg("regexp.Compile", comp(false))
	reg("errors.Is", redirect("ErrorsIs"))
	reg("symh/models.md5sum", func(vm *VM, fr *Frame, a []Val) Val {
		return Val{X: vm.md5(sliceVals(a[0]))}
	})
	reg("(*regexp.Regexp).find", func(vm *VM, fr *Frame, a []Val) Val {
		// re, r io.RuneReader, b []byte, s string, pos int, ncap int, dstCap []int
		n, ok := a[0].X.(*Obj).meta.(*natRe)
		if !ok {
			vm.unsupported("regexp without program")
		}
		if a[1].X != nil {
			vm.unsupported("regexp on a reader")
		}
		s := a[3]
		if a[2].X != nil {
			sv := sliceVals(a[2])
			s = mkStr(append([]Val(nil), sv...))
		}
		m := vm.reExec(n, s, int(int64(a[4].N)), int(int64(a[5].N)))
		if m == nil {
			return Val{}
		}
		ncap := int(int64(a[5].N))
		if ncap == 0 {
			// match only: a non-nil empty slice
			o := vm.newObj(0)
			return Val{X: &Slice{o: o, es: 1}}
		}
		var add []Val
		for _, x := range m {
			add = append(add, intVal(x))
		}
		return vm.appendVals(a[6], add, 1, 8)
	})

	// ---- math
	f1 := func(name string, f func(float64) float64) {
		reg("math."+name, func(vm *VM, fr *Frame, a []Val) Val {
			if a[0].X != nil {
				vm.unsupported("math.%s of a symbolic float", name)
			}
			return fbits(f(a[0].f()))
		})
	}
	f1("Sqrt", math.Sqrt)
	f1("Log", math.Log)
	f1("Log2", math.Log2)
	f1("Log10", math.Log10)
	f1("Exp", math.Exp)
	f1("Sin", math.Sin)
	f1("Cos", math.Cos)
	f1("Tan", math.Tan)
	fl := func(name string, f func(float64) float64) {
		reg("math."+name, func(vm *VM, fr *Frame, a []Val) Val {
			fs, ok := a[0].X.(*FSym)
			if !ok {
				return fbits(f(a[0].f()))
			}
			ik := kindInfo{kInt, true, 64}
			t := vm.floatToInt(fs, ik)
			r := vm.intToFloat(vm.term(t, ik), ik)
			if t.X == nil {
				r = fbits(float64(int64(t.N)))
			}
			one := fbits(1)
			switch name {
			case "Floor":
				if vm.decide(vm.tc.RLt(fs.t, vm.real(r))) {
					return vm.floatBin(tokSUB, kindInfo{kFloat, true, 64}, r, one)
				}
			case "Ceil":
				if vm.decide(vm.tc.RLt(vm.real(r), fs.t)) {
					return vm.floatBin(tokADD, kindInfo{kFloat, true, 64}, r, one)
				}
			case "Round":
				d := vm.floatBin(tokSUB, kindInfo{kFloat, true, 64}, a[0], r)
				if vm.decide(vm.tc.RLe(vm.tc.RFloat(0.5), vm.real(d))) {
					return vm.floatBin(tokADD, kindInfo{kFloat, true, 64}, r, one)
				}
				if vm.decide(vm.tc.RLe(vm.real(d), vm.tc.RFloat(-0.5))) {
					return vm.floatBin(tokSUB, kindInfo{kFloat, true, 64}, r, one)
				}
			}
			return r
		})
	}
	fl("Floor", math.Floor)
	fl("Ceil", math.Ceil)
	fl("Trunc", math.Trunc)
	fl("Round", math.Round)
	reg("math.Abs", func(vm *VM, fr *Frame, a []Val) Val {
		f, ok := a[0].X.(*FSym)
		if !ok {
			return fbits(math.Abs(a[0].f()))
		}
		if f.lo >= 0 {
			return a[0]
		}
		neg := vm.fneg(a[0])
		nf := vm.fs(neg)
		return vm.mkF(FSym{t: vm.tc.Ite(vm.tc.RLt(f.t, vm.tc.RFloat(0)), nf.t, f.t), lo: 0, hi: math.Max(math.Abs(f.lo), math.Abs(f.hi)), gran: f.gran})
	})
	mm := func(name string, isMax bool) {
		reg("math."+name, func(vm *VM, fr *Frame, a []Val) Val {
			if a[0].X == nil && a[1].X == nil {
				if isMax {
					return fbits(math.Max(a[0].f(), a[1].f()))
				}
				return fbits(math.Min(a[0].f(), a[1].f()))
			}
			if vm.decide(vm.tc.RLt(vm.real(a[0]), vm.real(a[1]))) == isMax {
				return a[1]
			}
			return a[0]
		})
	}
	mm("Max", true)
	mm("Min", false)
	reg("math.Pow", func(vm *VM, fr *Frame, a []Val) Val {
		if a[0].X != nil || a[1].X != nil {
			vm.unsupported("math.Pow of a symbolic float")
		}
		return fbits(math.Pow(a[0].f(), a[1].f()))
	})
	reg("math.Mod", func(vm *VM, fr *Frame, a []Val) Val {
		if a[0].X != nil || a[1].X != nil {
			vm.unsupported("math.Mod of a symbolic float")
		}
		return fbits(math.Mod(a[0].f(), a[1].f()))
	})
	reg("math.IsNaN", func(vm *VM, fr *Frame, a []Val) Val {
		return boolVal(a[0].X == nil && math.IsNaN(a[0].f()))
	})
	reg("math.IsInf", func(vm *VM, fr *Frame, a []Val) Val {
		return boolVal(a[0].X == nil && math.IsInf(a[0].f(), int(int64(a[1].N))))
	})
	reg("math.Inf", func(vm *VM, fr *Frame, a []Val) Val { return fbits(math.Inf(int(int64(a[0].N)))) })
	bitsOf := func(vm *VM, fr *Frame, a []Val) Val {
		if a[0].X != nil {
			vm.unsupported("bits of a symbolic float")
		}
		return Val{N: a[0].N}
	}
	reg("math.Float64bits", bitsOf)
	reg("math.Float64frombits", bitsOf)
	reg("math.Float32bits", func(vm *VM, fr *Frame, a []Val) Val {
		if a[0].X != nil {
			vm.unsupported("bits of a symbolic float")
		}
		return Val{N: uint64(math.Float32bits(float32(a[0].f())))}
	})
	reg("math.Float32frombits", func(vm *VM, fr *Frame, a []Val) Val {
		if a[0].X != nil {
			vm.unsupported("symbolic float bits")
		}
		return fbits(float64(math.Float32frombits(uint32(a[0].N))))
	})

	// ---- crypto
	reg("crypto/md5.Sum", func(vm *VM, fr *Frame, a []Val) Val { return Val{X: vm.md5(sliceVals(a[0]))} })
	reg("crypto/md5.New", redirect("NewMD5"))
	reg("crypto/rc4.NewCipher", func(vm *VM, fr *Frame, a []Val) Val {
		key := sliceVals(a[0])
		if len(key) < 1 || len(key) > 256 {
			return tuple(Val{}, vm.errorVal("crypto/rc4: invalid key size "+strconv.Itoa(len(key))))
		}
		o := vm.newObj(258)
		cb, ok := concVals(key)
		if !ok {
			o.meta = append([]Val(nil), key...)
			return tuple(Val{X: o}, Val{})
		}
		var s [256]byte
		for i := range s {
			s[i] = byte(i)
		}
		j := byte(0)
		for i := 0; i < 256; i++ {
			j += s[i] + cb[i%len(cb)]
			s[i], s[j] = s[j], s[i]
		}
		for i := range s {
			o.s[i].N = uint64(s[i])
		}
		return tuple(Val{X: o}, Val{})
	})
	reg("(*crypto/rc4.Cipher).XORKeyStream", func(vm *VM, fr *Frame, a []Val) Val {
		o := a[0].X.(*Obj)
		src := append([]Val(nil), sliceVals(a[2])...)
		if len(src) == 0 {
			return Val{}
		}
		d := a[1].X.(*Slice)
		if d.len < len(src) {
			vm.rtPanic("index out of range")
		}
		var ks []Val
		if key, ok := o.meta.([]Val); ok {
			// symbolic key: keystream bytes are an uninterpreted function of
			// the key and the position (slot 256 holds the position)
			p := int(o.s[256].N)
			ks = vm.ufBytes("rc4", key, p, len(src))
			vm.set(o, 256, intVal(p+len(src)))
		} else {
			var s [256]byte
			for i := range s {
				s[i] = byte(o.s[i].N)
			}
			i, j := byte(o.s[256].N), byte(o.s[257].N)
			for range src {
				i++
				j += s[i]
				s[i], s[j] = s[j], s[i]
				ks = append(ks, Val{N: uint64(s[s[i]+s[j]])})
			}
			for q := range s {
				vm.set(o, q, Val{N: uint64(s[q])})
			}
			vm.set(o, 256, Val{N: uint64(i)})
			vm.set(o, 257, Val{N: uint64(j)})
		}
		for i := range src {
			vm.set(d.o, d.off+i, vm.val(vm.tc.BXor(vm.byteT(src[i]), vm.byteT(ks[i])), u8k))
		}
		return Val{}
	})

	// ---- compression
	reg("compress/zlib.NewWriterLevel", func(vm *VM, fr *Frame, a []Val) Val {
		if l := int64(a[1].N); l < -2 || l > 9 {
			return tuple(Val{}, vm.errorVal("zlib: invalid compression level"))
		}
		o := vm.newObj(64)
		o.meta = vm.newZW(a[0])
		return tuple(Val{X: o}, Val{})
	})
	reg("compress/zlib.NewWriter", func(vm *VM, fr *Frame, a []Val) Val {
		o := vm.newObj(64)
		o.meta = vm.newZW(a[0])
		return Val{X: o}
	})
	zm := func(name string) Intrinsic {
		return func(vm *VM, fr *Frame, a []Val) Val {
			o := a[0].X.(*Obj)
			args := append([]Val{o.meta.(Val)}, a[1:]...)
			return Val{X: redirectCall{fn: vm.modelFn(name), args: args}}
		}
	}
	reg("(*compress/zlib.Writer).Write", zm("ZWrite"))
	reg("(*compress/zlib.Writer).Close", zm("ZClose"))
	reg("(*compress/zlib.Writer).Flush", zm("ZFlush"))
	reg("compress/zlib.NewReader", redirect("NewZReader"))
	reg("image.DecodeConfig", redirect("DecodeConfig"))
	reg("symh/models.deflate", func(vm *VM, fr *Frame, a []Val) Val {
		sv := sliceVals(a[0])
		if b, ok := concVals(sv); ok {
			var buf bytes.Buffer
			w := zlib.NewWriter(&buf)
			w.Write(b)
			w.Close()
			return vm.bytesVal(buf.Bytes())
		}
		out := []Val{{N: 0x78}, {N: 0x01}}
		for p := 0; ; {
			n := min(len(sv)-p, 65535)
			last := uint64(0)
			if p+n == len(sv) {
				last = 1
			}
			out = append(out, Val{N: last}, Val{N: uint64(n & 255)}, Val{N: uint64(n >> 8)}, Val{N: uint64(^n & 255)}, Val{N: uint64(^n >> 8 & 255)})
			out = append(out, sv[p:p+n]...)
			p += n
			if last == 1 {
				break
			}
		}
		out = append(out, Val{}, Val{}, Val{}, Val{})
		return vm.byteSlots(out)
	})
	reg("symh/models.inflate", func(vm *VM, fr *Frame, a []Val) Val {
		sv := sliceVals(a[0])
		if b, ok := concVals(sv); ok {
			r, err := zlib.NewReader(bytes.NewReader(b))
			if err != nil {
				return tuple(Val{}, strVal(err.Error()), Val{})
			}
			d, err := io.ReadAll(r)
			msg := Val{}
			if err != nil {
				msg = strVal(err.Error())
			}
			return tuple(vm.bytesVal(d), msg, Val{N: 1})
		}
		// stored blocks with a concrete framing
		var out []Val
		p := 2
		c := func(i int) uint64 {
			if i >= len(sv) || sv[i].X != nil {
				vm.unsupported("inflating symbolic data")
			}
			return sv[i].N
		}
		if c(0) != 0x78 || c(1) != 0x01 {
			vm.unsupported("inflating symbolic data")
		}
		for {
			h := c(p)
			if h > 1 {
				vm.unsupported("inflating symbolic data")
			}
			n := int(c(p+1) | c(p+2)<<8)
			if p+5+n > len(sv) {
				vm.unsupported("inflating truncated symbolic data")
			}
			out = append(out, sv[p+5:p+5+n]...)
			p += 5 + n
			if h == 1 {
				break
			}
		}
		if len(sv)-p < 4 {
			return tuple(vm.byteSlots(out), strVal("unexpected EOF"), Val{N: 1})
		}
		return tuple(vm.byteSlots(out), Val{}, Val{N: 1})
	})
	reg("hash/crc32.ChecksumIEEE", func(vm *VM, fr *Frame, a []Val) Val { return vm.crc(sliceVals(a[0])) })

	// ---- runtime, unsafe, sync
	reg("internal/abi.NoEscape", func(vm *VM, fr *Frame, a []Val) Val { return a[0] })
	reg("internal/abi.Escape", func(vm *VM, fr *Frame, a []Val) Val { return a[0] })
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"runtime.KeepAlive", "runtime.GC", "runtime.Gosched", "runtime.SetFinalizer", "internal/race.Enable", "internal/race.Disable", "log.Printf", "log.Println", "log.Print",
		"(*log.Logger).Printf", "(*log.Logger).Println", "math/rand.Seed", "image.RegisterFormat", "internal/godebug.New", "(*internal/godebug.Setting).IncNonDefault",
		"(*strings.Builder).copyCheck", "time.Sleep"} {
		reg(n, nop)
	}
	reg("(*internal/godebug.Setting).Value", func(vm *VM, fr *Frame, a []Val) Val { return Val{} })
	reg("internal/godebug.New", func(vm *VM, fr *Frame, a []Val) Val { return Val{X: vm.newObj(8)} })
	fatal := func(vm *VM, fr *Frame, a []Val) Val {
		panic(goPanic{vm.rtErr("log.Fatal: process exit")})
	}
	reg("log.Fatalf", fatal)
	reg("log.Fatal", fatal)
	reg("log.Fatalln", fatal)
	reg("os.Exit", fatal)
	reg("(*sync.Once).Do", func(vm *VM, fr *Frame, a []Val) Val {
		o := a[0].X.(*Obj)
		if o.s[a[0].N].N != 0 {
			return Val{}
		}
		vm.set(o, int(a[0].N), Val{N: 1})
		c := a[1].X.(*Closure)
		return Val{X: redirectCall{fn: c.fn, free: c.free}}
	})
	reg("(*sync.Pool).Get", func(vm *VM, fr *Frame, a []Val) Val {
		st := vm.w.poolType.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "New" {
				f := a[0].X.(*Obj).s[int(a[0].N)+vm.fieldOff(st, i)]
				if f.X == nil {
					return Val{}
				}
				c := f.X.(*Closure)
				return Val{X: redirectCall{fn: c.fn, free: c.free}}
			}
		}
		return Val{}
	})
	reg("(*sync.Pool).Put", nop)
	reg("math/rand.Intn", func(vm *VM, fr *Frame, a []Val) Val {
		// one fixed outcome: random passwords are outside the bounds
		n := vm.conc(a[0], kindInfo{kInt, true, 64})
		return Val{N: 7 % n}
	})
	reg("crypto/internal/fips140/alias.InexactOverlap", func(vm *VM, fr *Frame, a []Val) Val { return Val{} })
	reg("crypto/internal/fips140only.Enforced", func(vm *VM, fr *Frame, a []Val) Val { return Val{} })
	reg("time.Now", func(vm *VM, fr *Frame, a []Val) Val {
		return vm.zero(fr.fn.fn.Prog.ImportedPackage("time").Type("Time").Type())
	})
	reg("(time.Time).UTC", func(vm *VM, fr *Frame, a []Val) Val { return a[0] })
	reg("(time.Time).UnixNano", nop)

	// ---- files
	reg("os.ReadFile", func(vm *VM, fr *Frame, a []Val) Val {
		v, ok := vm.files[mustStr(vm, a[0], "file name")]
		if !ok {
			return tuple(Val{}, vm.errorVal("open: no such file or directory"))
		}
		return tuple(vm.byteSlots(sliceVals(v)), Val{})
	})
	reg("os.WriteFile", func(vm *VM, fr *Frame, a []Val) Val {
		name := mustStr(vm, a[0], "file name")
		if strings.Contains(name, "none/") {
			return vm.errorVal("open: no such file or directory")
		}
		vm.setFile(name, vm.byteSlots(sliceVals(a[1])))
		return Val{}
	})
	reg("os.Stat", func(vm *VM, fr *Frame, a []Val) Val {
		if _, ok := vm.files[mustStr(vm, a[0], "file name")]; !ok {
			return tuple(Val{}, vm.errorVal("stat: no such file or directory"))
		}
		return tuple(Val{}, Val{})
	})
	reg("os.IsNotExist", func(vm *VM, fr *Frame, a []Val) Val { return boolVal(a[0].X != nil) })
	openFile := func(vm *VM, name string, flag uint64) Val {
		if strings.Contains(name, "none/") {
			return tuple(Val{}, vm.errorVal("open: no such file or directory"))
		}
		_, ok := vm.files[name]
		if ok && flag&0x40 != 0 && flag&0x80 != 0 {
			return tuple(Val{}, vm.errorVal("open: file exists"))
		}
		if !ok && flag&0x40 == 0 {
			return tuple(Val{}, vm.errorVal("open: no such file or directory"))
		}
		if !ok || flag&0x200 != 0 {
			vm.setFile(name, vm.byteSlots(nil))
		}
		o := vm.newObj(4)
		o.meta = fileH{name, flag&0x400 != 0}
		return tuple(Val{X: o}, Val{})
	}
	reg("os.Open", func(vm *VM, fr *Frame, a []Val) Val { return openFile(vm, mustStr(vm, a[0], "file name"), 0) })
	reg("os.Create", func(vm *VM, fr *Frame, a []Val) Val {
		return openFile(vm, mustStr(vm, a[0], "file name"), 0x242)
	})
	reg("os.OpenFile", func(vm *VM, fr *Frame, a []Val) Val {
		return openFile(vm, mustStr(vm, a[0], "file name"), vm.conc(a[1], kindInfo{kInt, true, 64}))
	})
	reg("os.Remove", func(vm *VM, fr *Frame, a []Val) Val {
		name := mustStr(vm, a[0], "file name")
		if _, ok := vm.files[name]; !ok {
			return vm.errorVal("remove: no such file or directory")
		}
		vm.delFile(name)
		return Val{}
	})
	reg("os.Rename", func(vm *VM, fr *Frame, a []Val) Val {
		name := mustStr(vm, a[0], "file name")
		v, ok := vm.files[name]
		if !ok {
			return vm.errorVal("rename: no such file or directory")
		}
		vm.delFile(name)
		vm.setFile(mustStr(vm, a[1], "file name"), v)
		return Val{}
	})
	fileWrite := func(vm *VM, f Val, b []Val) Val {
		o := f.X.(*Obj)
		h, ok := o.meta.(fileH)
		if !ok {
			return tuple(intVal(len(b)), Val{})
		}
		d := append([]Val(nil), sliceVals(vm.files[h.name])...)
		p := int(o.s[0].N)
		if h.app {
			p = len(d)
		}
		for len(d) < p {
			d = append(d, Val{})
		}
		for i, c := range b {
			if p+i < len(d) {
				d[p+i] = c
			} else {
				d = append(d, c)
			}
		}
		vm.setFile(h.name, vm.byteSlots(d))
		vm.set(o, 0, intVal(p+len(b)))
		return tuple(intVal(len(b)), Val{})
	}
	vmFileWrite = fileWrite
	reg("(*os.File).Write", func(vm *VM, fr *Frame, a []Val) Val { return fileWrite(vm, a[0], sliceVals(a[1])) })
	reg("(*os.File).WriteString", func(vm *VM, fr *Frame, a []Val) Val { return fileWrite(vm, a[0], strBytes(a[1])) })
	reg("(*os.File).Sync", nop)
	reg("(*os.File).Close", nop)
	reg("(*os.File).Truncate", func(vm *VM, fr *Frame, a []Val) Val {
		h, ok := a[0].X.(*Obj).meta.(fileH)
		n := int(vm.conc(a[1], kindInfo{kInt, true, 64}))
		if ok {
			d := append([]Val(nil), sliceVals(vm.files[h.name])...)
			for len(d) < n {
				d = append(d, Val{})
			}
			vm.setFile(h.name, vm.byteSlots(d[:n]))
		}
		return Val{}
	})
	reg("(*os.File).Read", func(vm *VM, fr *Frame, a []Val) Val {
		o := a[0].X.(*Obj)
		d := sliceVals(vm.files[o.meta.(fileH).name])
		p := int(o.s[0].N)
		dst := a[1].X.(*Slice)
		if p >= len(d) {
			return tuple(Val{}, vm.globalVal("io", "EOF"))
		}
		n := min(dst.len, len(d)-p)
		for i := 0; i < n; i++ {
			vm.set(dst.o, dst.off+i, d[p+i])
		}
		vm.set(o, 0, intVal(p+n))
		return tuple(intVal(n), Val{})
	})

	// ---- sym API
	reg("symh/sym.Byte", func(vm *VM, fr *Frame, a []Val) Val {
		name := mustStr(vm, a[0], "name")
		t := vm.fresh(name, 8)
		vm.inputs = append(vm.inputs, inputRec{name: name, kind: "int", t: t})
		vm.imDirty = true
		return Val{X: t}
	})
	reg("symh/sym.Bytes", func(vm *VM, fr *Frame, a []Val) Val {
		name := mustStr(vm, a[0], "name")
		n := int(int64(a[1].N))
		b := make([]Val, n)
		for i := range b {
			b[i] = Val{X: vm.fresh(name, 8)}
		}
		vm.inputs = append(vm.inputs, inputRec{name: name, kind: "bytes", v: Val{X: b}})
		vm.imDirty = true
		return vm.byteSlots(b)
	})
	reg("symh/sym.Bool", func(vm *VM, fr *Frame, a []Val) Val {
		name := mustStr(vm, a[0], "name")
		t := vm.fresh(name, 1)
		vm.inputs = append(vm.inputs, inputRec{name: name, kind: "int", t: t})
		vm.imDirty = true
		return Val{X: vm.tc.Eq(t, vm.tc.BV(1, 1))}
	})
	mkInt := func(vm *VM, name string, lo, hi int64) Val {
		if lo > hi {
			vm.unsupported("empty range")
		}
		if lo == hi {
			vm.inputs = append(vm.inputs, inputRec{name: name, kind: "int", off: lo})
			vm.imDirty = true
			return Val{N: uint64(lo)}
		}
		w := bitlen(uint64(hi - lo))
		v := vm.fresh(name, w)
		vm.assume(vm.tc.Ule(v, vm.tc.BV(w, uint64(hi-lo))))
		vm.inputs = append(vm.inputs, inputRec{name: name, kind: "int", t: v, off: lo})
		vm.imDirty = true
		return Val{X: vm.tc.Add(vm.tc.Zext(v, 64), vm.tc.BV(64, uint64(lo)))}
	}
	reg("symh/sym.Int", func(vm *VM, fr *Frame, a []Val) Val {
		return mkInt(vm, mustStr(vm, a[0], "name"), int64(a[1].N), int64(a[2].N))
	})
	reg("symh/sym.Choice", func(vm *VM, fr *Frame, a []Val) Val {
		n := int64(a[1].N)
		v := mkInt(vm, mustStr(vm, a[0], "name"), 0, n-1)
		if v.X == nil {
			return v
		}
		t := v.X.(*Term)
		for i := int64(0); i < n-1; i++ {
			if vm.decide(vm.tc.Eq(t, vm.tc.BV(64, uint64(i)))) {
				return Val{N: uint64(i)}
			}
		}
		return Val{N: uint64(n - 1)}
	})
	reg("symh/sym.Float", func(vm *VM, fr *Frame, a []Val) Val {
		name := mustStr(vm, a[0], "name")
		lo, hi := a[1].f(), a[2].f()
		vm.freshN++
		vm.imDirty = true
		t := vm.tc.Var(fmt.Sprintf("%s!%d", name, vm.freshN), wReal)
		t.den = 16
		f := &FSym{t: t, lo: lo, hi: hi, gran: 4}
		vm.assume(vm.tc.RLe(vm.tc.RFloat(lo), t))
		vm.assume(vm.tc.RLe(t, vm.tc.RFloat(hi)))
		vm.inputs = append(vm.inputs, inputRec{name: name, kind: "float", f: f})
		vm.imDirty = true
		return Val{X: f}
	})
	reg("symh/sym.Assume", func(vm *VM, fr *Frame, a []Val) Val {
		if a[0].X == nil {
			if a[0].N == 0 {
				panic(pathEnd{"assume"})
			}
			return Val{}
		}
		t := a[0].X.(*Term)
		vm.assumeChecked(t)
		return Val{}
	})
	reg("symh/sym.Assert", func(vm *VM, fr *Frame, a []Val) Val {
		vm.assertion(a[0], mustStr(vm, a[1], "message"))
		return Val{}
	})
	reg("symh/sym.Reach", func(vm *VM, fr *Frame, a []Val) Val {
		vm.reach = append(vm.reach, mustStr(vm, a[0], "label"))
		vm.imDirty = true
		return Val{}
	})
	reg("symh/sym.Symbolic", func(vm *VM, fr *Frame, a []Val) Val { return Val{N: 1} })
	reg("symh/sym.Tier", func(vm *VM, fr *Frame, a []Val) Val { return intVal(vm.w.tier) })
	reg("symh/sym.Concrete", func(vm *VM, fr *Frame, a []Val) Val {
		return Val{N: vm.conc(a[0], kindInfo{kInt, true, 64})}
	})
	reg("symh/sym.Fork", func(vm *VM, fr *Frame, a []Val) Val {
		if a[0].X == nil {
			return a[0]
		}
		return boolVal(vm.decide(a[0].X.(*Term)))
	})
	reg("symh/sym.MapOrders", func(vm *VM, fr *Frame, a []Val) Val {
		n := int(int64(a[0].N))
		old, oe := vm.maxMap, vm.explMaps
		vm.maxMap = n
		vm.explMaps = n > 0
		vm.mapOrdN = 0
		vm.imDirty = true
		vm.undoFn(func() { vm.maxMap = old; vm.explMaps = oe })
		return Val{}
	})
	// both sides of a boolean connective without forking
	reg("symh/sym.And", func(vm *VM, fr *Frame, a []Val) Val {
		bk := kindInfo{k: kBool, w: wBool}
		return vm.boolv(vm.tc.And(vm.term(a[0], bk), vm.term(a[1], bk)))
	})
	reg("symh/sym.Or", func(vm *VM, fr *Frame, a []Val) Val {
		bk := kindInfo{k: kBool, w: wBool}
		return vm.boolv(vm.tc.Or(vm.term(a[0], bk), vm.term(a[1], bk)))
	})
	reg("symh/sym.IteInt", func(vm *VM, fr *Frame, a []Val) Val {
		bk := kindInfo{k: kBool, w: wBool}
		ik := kindInfo{kInt, true, 64}
		return vm.val(vm.tc.Ite(vm.term(a[0], bk), vm.term(a[1], ik), vm.term(a[2], ik)), ik)
	})
	reg("symh/sym.Num", func(vm *VM, fr *Frame, a []Val) Val {
		s, ok := concStr(a[0])
		if !ok {
			if v, ok := vm.symNum(strBytes(a[0])); ok {
				return v
			}
			s = vm.concretizeStr(a[0])
		}
		if f := vm.tokenOf(s); f != nil {
			// the printed value is within half a unit of the second decimal
			r := vm.fresh("num", wReal)
			d := vm.tc.RFloat(0.005000001)
			vm.assume(vm.tc.RLe(vm.tc.RSub(f.t, d), r))
			vm.assume(vm.tc.RLe(r, vm.tc.RAdd(f.t, d)))
			return Val{X: &FSym{t: r, lo: f.lo - 0.006, hi: f.hi + 0.006, gran: -1}}
		}
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			return fbits(-1e9)
		}
		return fbits(f)
	})
	reg("symh/sym.Observe", func(vm *VM, fr *Frame, a []Val) Val {
		vm.obs = append(vm.obs, obsRec{label: mustStr(vm, a[0], "label"), v: a[1]})
		vm.imDirty = true
		return Val{}
	})
	reg("symh/sym.File", func(vm *VM, fr *Frame, a []Val) Val {
		vm.setFile(mustStr(vm, a[0], "name"), vm.byteSlots(sliceVals(a[1])))
		return a[0]
	})
	reg("symh/sym.ReadBack", func(vm *VM, fr *Frame, a []Val) Val {
		v, ok := vm.files[mustStr(vm, a[0], "name")]
		if !ok {
			return Val{}
		}
		return vm.byteSlots(sliceVals(v))
	})
}

// symNum reads a decimal number some digits of which are symbolic.
func (vm *VM) symNum(b []Val) (Val, bool) {
	tc := vm.tc
	neg := false
	if len(b) > 0 && b[0].X == nil && b[0].N == '-' {
		neg = true
		b = b[1:]
	}
	var r *Term
	var f FSym
	if t := vm.runs[runKey(b)]; t != nil {
		r = tc.U2R(t)
		f.hi = math.Min(float64(t.umax), math.Pow10(len(b))-1) // it has been printed with so many digits
	} else {
		n, frac := 0, -1
		var sum *Term = tc.BV(64, 0)
		for _, c := range b {
			if c.X == nil && c.N == '.' && frac < 0 {
				frac = 0
				continue
			}
			var d *Term
			if c.X == nil {
				if c.N < '0' || c.N > '9' {
					return Val{}, false
				}
				d = tc.BV(64, c.N-'0')
			} else {
				t := c.X.(*Term)
				x := tc.Sub(t, tc.BV(8, '0'))
				if !vm.decide(tc.Ult(x, tc.BV(8, 10))) {
					return Val{}, false
				}
				d = tc.Zext(tc.Extract(3, 0, x), 64)
			}
			sum = tc.Add(tc.Mul(sum, tc.BV(64, 10)), d)
			n++
			if frac >= 0 {
				frac++
			}
		}
		if n == 0 || n > 15 {
			return Val{}, false
		}
		r = tc.U2R(sum)
		f.hi = math.Pow10(n)
		if frac > 0 {
			r = tc.RMul(r, tc.RConst(new(big.Rat).SetFrac64(1, int64(math.Pow10(frac)))))
			f.hi = math.Pow10(n - frac)
			f.gran = -1
		}
	}
	f.t = r
	if neg {
		f.t = tc.RSub(tc.RFloat(0), r)
		f.lo, f.hi = -f.hi, 0
	}
	return vm.rnd(f, eps64), true
}

func runKey(b []Val) string {
	k := ""
	for _, c := range b {
		t, ok := c.X.(*Term)
		if !ok {
			return ""
		}
		k += fmt.Sprintf("%d,", t.id)
	}
	return k
}

func (vm *VM) setFile(name string, v Val) {
	old, have := vm.files[name]
	vm.files[name] = v
	vm.undoFn(func() {
		if have {
			vm.files[name] = old
		} else {
			delete(vm.files, name)
		}
	})
}

func (vm *VM) delFile(name string) {
	old := vm.files[name]
	delete(vm.files, name)
	vm.undoFn(func() { vm.files[name] = old })
}

func (vm *VM) globalVal(pkg, name string) Val {
	p := vm.prog.ImportedPackage(pkg)
	return vm.global(p.Var(name)).s[0]
}

func concVals(v []Val) ([]byte, bool) {
	r := make([]byte, len(v))
	for i := range v {
		if v[i].X != nil {
			return nil, false
		}
		r[i] = byte(v[i].N)
	}
	return r, true
}

// concretizeStr forks over the values of the symbolic bytes of a short string.
func (vm *VM) concretizeStr(v Val) string {
	b := strBytes(v)
	out := make([]byte, len(b))
	for i := range b {
		if b[i].X == nil {
			out[i] = byte(b[i].N)
		} else {
			out[i] = byte(vm.concretize(b[i].X.(*Term)))
		}
	}
	return string(out)
}

func (vm *VM) newZW(w Val) Val {
	o := vm.newObj(vm.slots(vm.w.modelPkg.Type("ZW").Type()))
	o.s[0] = w
	return Val{X: o}
}

func (vm *VM) crc(b []Val) Val {
	cb, ok := concVals(b)
	if !ok {
		vm.unsupported("crc32 of symbolic data")
	}
	var c uint32 = 0xffffffff
	for _, x := range cb {
		c ^= uint32(x)
		for i := 0; i < 8; i++ {
			if c&1 == 1 {
				c = c>>1 ^ 0xedb88320
			} else {
				c >>= 1
			}
		}
	}
	return Val{N: uint64(^c)}
}

func (vm *VM) md5(b []Val) []Val {
	if cb, ok := concVals(b); ok {
		s := md5.Sum(cb)
		r := make([]Val, 16)
		for i := range s {
			r[i].N = uint64(s[i])
		}
		return r
	}
	r := vm.ufBytes("md5", b, 0, 16)
	// different data have different digests (assumed)
	tc := vm.tc
	var app *UFApp
	for _, u := range vm.ufs {
		if u.fn == "md5" && len(u.out) == 16 && u.out[0] == r[0].X.(*Term) {
			app = u
		}
	}
	if app != nil && !app.inj {
		app.inj = true
		vm.undoFn(func() { app.inj = false })
		for _, u := range vm.ufs {
			if u == app || u.fn != "md5" || !u.inj {
				continue
			}
			in, out := tc.F, tc.T
			if len(u.in) == len(app.in) {
				in = tc.T
				for i := range u.in {
					in = tc.And(in, tc.Eq(u.in[i], app.in[i]))
				}
			}
			for i := range u.out {
				out = tc.And(out, tc.Eq(u.out[i], app.out[i]))
			}
			vm.assume(tc.Or(in, tc.Not(out)))
		}
	}
	return r
}

// ufBytes gives n output bytes (from position p) of an uninterpreted function
// of the input bytes, with congruence against earlier applications.
func (vm *VM) ufBytes(fn string, in []Val, p, n int) []Val {
	tc := vm.tc
	ts := make([]*Term, len(in))
	for i := range in {
		ts[i] = vm.byteT(in[i])
	}
	same := func(a, b []*Term) *Term {
		if len(a) != len(b) {
			return tc.F
		}
		r := tc.T
		for i := range a {
			r = tc.And(r, tc.Eq(a[i], b[i]))
			if r == tc.F {
				return r
			}
		}
		return r
	}
	var app *UFApp
	for _, u := range vm.ufs {
		if u.fn == fn && same(u.in, ts) == tc.T {
			app = u
		}
	}
	if app == nil {
		app = &UFApp{fn: fn, in: ts}
		vm.ufs = append(vm.ufs, app)
		vm.imDirty = true
	}
	for len(app.out) < p+n {
		// output bytes are named after the application, so that growing the
		// list is repeatable across backtracking
		k := len(app.out)
		v := vm.fresh(fn, 8)
		for _, u := range vm.ufs {
			if u != app && u.fn == fn && len(u.out) > k {
				if e := same(u.in, ts); e != tc.F {
					vm.assume(tc.Or(tc.Not(e), tc.Eq(v, u.out[k])))
				}
			}
		}
		app.out = append(app.out, v)
		vm.undoFn(func() { app.out = app.out[:k] })
	}
	r := make([]Val, n)
	for i := range r {
		r[i] = Val{X: app.out[p+i]}
	}
	return r
}

// fileH is the handle behind an opened file.
type fileH struct {
	name string
	app  bool
}

var vmFileWrite func(vm *VM, f Val, b []Val) Val
