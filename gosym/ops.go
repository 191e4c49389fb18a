package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) binop(op token.Token, xt, yt types.Type, x, y Value) Value {
	ts := in.ts
	switch op {
	case token.EQL:
		return in.eqMixed(xt, yt, x, y)
	case token.NEQ:
		return ts.Not(in.eqMixed(xt, yt, x, y))
	}
	switch a := x.(type) {
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return in.strConcat(a, b)
		case token.LSS:
			return in.strLt(a, b)
		case token.GTR:
			return in.strLt(b, a)
		case token.LEQ:
			return ts.Not(in.strLt(b, a))
		case token.GEQ:
			return ts.Not(in.strLt(a, b))
		}
	case *Term:
		b := y.(*Term)
		bt, ok := xt.Underlying().(*types.Basic)
		if !ok {
			return unsup("binop %v on %v", op, xt)
		}
		if bt.Info()&types.IsFloat != 0 {
			switch op {
			case token.ADD:
				return ts.FBin("add", a, b)
			case token.SUB:
				return ts.FBin("sub", a, b)
			case token.MUL:
				return ts.FBin("mul", a, b)
			case token.QUO:
				return ts.FBin("div", a, b)
			case token.LSS:
				return ts.FLt(a, b)
			case token.GTR:
				return ts.FLt(b, a)
			case token.LEQ:
				return ts.FLe(a, b)
			case token.GEQ:
				return ts.FLe(b, a)
			}
		}
		w, signed := intWidth(bt)
		_ = w
		switch op {
		case token.ADD:
			return ts.Bin(OpAdd, a, b)
		case token.SUB:
			return ts.Bin(OpSub, a, b)
		case token.MUL:
			return ts.Bin(OpMul, a, b)
		case token.QUO, token.REM:
			if in.fork(ts.Eq(b, ts.BV(b.w, 0))) {
				in.rtPanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && signed:
				return ts.Bin(OpSDiv, a, b)
			case op == token.QUO:
				return ts.Bin(OpUDiv, a, b)
			case signed:
				return ts.Bin(OpSRem, a, b)
			}
			return ts.Bin(OpURem, a, b)
		case token.AND:
			if a.w == 0 {
				return ts.And(a, b)
			}
			return ts.Bin(OpBAnd, a, b)
		case token.OR:
			if a.w == 0 {
				return ts.Or(a, b)
			}
			return ts.Bin(OpBOr, a, b)
		case token.XOR:
			return ts.Bin(OpBXor, a, b)
		case token.AND_NOT:
			return ts.Bin(OpBAnd, a, ts.BNot(b))
		case token.SHL, token.SHR:
			_, ysigned := intWidth(yt.Underlying().(*types.Basic))
			if ysigned {
				if in.fork(ts.Bin(OpSLT, b, ts.BV(b.w, 0))) {
					in.rtPanic("negative shift amount")
				}
			}
			// saturate the count to the width of a
			var cnt *Term
			var big *Term = ts.fls
			if b.w > a.w {
				big = ts.Not(ts.Bin(OpULT, b, ts.BV(b.w, uint64(a.w))))
				cnt = ts.Extract(b, 0, a.w)
			} else if b.w < a.w {
				cnt = ts.ZExt(b, a.w)
			} else {
				cnt = b
			}
			cnt = ts.Ite(big, ts.BV(a.w, uint64(a.w)), cnt)
			if a.w == 8 && !big.IsFalse() {
				_ = cnt // width 8 holds counts up to 255
			}
			if op == token.SHL {
				return ts.Bin(OpShl, a, cnt)
			}
			if signed {
				return ts.Bin(OpAShr, a, cnt)
			}
			return ts.Bin(OpLShr, a, cnt)
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			o := OpULT
			if signed {
				o = OpSLT
			}
			switch op {
			case token.LSS:
				return ts.Bin(o, a, b)
			case token.GTR:
				return ts.Bin(o, b, a)
			case token.LEQ:
				return ts.Not(ts.Bin(o, b, a))
			case token.GEQ:
				return ts.Not(ts.Bin(o, a, b))
			}
		}
	}
	return unsup("binop %v on %T", op, x)
}

func (in *Interp) eqMixed(xt, yt types.Type, x, y Value) *Term {
	_, xi := xt.Underlying().(*types.Interface)
	_, yi := yt.Underlying().(*types.Interface)
	if xi && !yi {
		if b, ok := yt.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return in.ts.Bool(x.(Iface).t == nil)
		}
		y = Iface{t: yt, v: y}
	} else if yi && !xi {
		x = Iface{t: xt, v: x}
		xt = yt
	}
	return in.eq(xt, x, y)
}

func (in *Interp) convert(from, to types.Type, v Value) Value {
	ts := in.ts
	fu, tu := from.Underlying(), to.Underlying()
	if types.Identical(fu, tu) {
		return v
	}
	// strings
	if fb, ok := fu.(*types.Basic); ok {
		if tb, ok := tu.(*types.Basic); ok {
			if tb.Info()&types.IsString != 0 {
				if fb.Info()&types.IsString != 0 {
					return v
				}
				// int -> string
				r := in.conc(v.(*Term))
				_, sg := intWidth(fb)
				x := int64(r)
				if sg {
					x = sext(r, v.(*Term).w)
				}
				if x < 0 || x > utf8.MaxRune {
					return Str{s: "\uFFFD"}
				}
				return Str{s: string(rune(x))}
			}
			if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
				if fb.Kind() == types.Uintptr || tb.Kind() == types.Uintptr {
					return unsup("unsafe uintptr conversion")
				}
				return v
			}
			t := v.(*Term)
			fw, fs := intWidth(fb)
			tw, tsg := intWidth(tb)
			if fw == 255 || tw == 255 {
				return unsup("convert %v to %v", from, to)
			}
			ff, tf := fb.Info()&types.IsFloat != 0, tb.Info()&types.IsFloat != 0
			switch {
			case ff && tf:
				return ts.FCvt(t, tw)
			case ff && !tf:
				return ts.FToInt(t, tsg, tw)
			case !ff && tf:
				return ts.FFromInt(t, fs, tw)
			}
			if tw == fw {
				return t
			}
			if tw < fw {
				return ts.Extract(t, 0, tw)
			}
			if fs {
				return ts.SExt(t, tw)
			}
			return ts.ZExt(t, tw)
		}
		if sl, ok := tu.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			s := v.(Str)
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Byte {
				bs := in.strBytes(s)
				n := len(bs)
				c := roundupsize(n)
				if n <= 32 {
					c = 32
				}
				if n == 0 {
					c = 0
				}
				a := &ArrV{e: make([]Value, c)}
				for i := range a.e {
					if i < n {
						a.e[i] = bs[i]
					} else {
						a.e[i] = ts.BV(8, 0)
					}
				}
				return Slice{a, 0, n, c}
			}
			// []rune
			var rs []Value
			for i := 0; i < s.Len(); {
				r, n := in.decodeRune(s, i)
				rs = append(rs, r)
				i += n
			}
			return Slice{&ArrV{e: rs}, 0, len(rs), len(rs)}
		}
		if fb.Kind() == types.UnsafePointer {
			u := v.(UPtr)
			if u.v == nil {
				return in.zero(to)
			}
			return u.v
		}
	}
	if sl, ok := fu.(*types.Slice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			s := v.(Slice)
			eb := sl.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Byte {
				bs := make([]*Term, s.len)
				for i := range bs {
					in.onRead(&s.arr.e[s.off+i])
					bs[i] = s.arr.e[s.off+i].(*Term)
				}
				return mkStr(bs)
			}
			r := Str{}
			for i := 0; i < s.len; i++ {
				t := s.arr.e[s.off+i].(*Term)
				r = in.strConcat(r, in.runeToStr(t))
			}
			return r
		}
	}
	if _, ok := fu.(*types.Pointer); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Kind() == types.UnsafePointer {
			if p, ok := v.(Ptr); ok && p == nil {
				return UPtr{}
			}
			return UPtr{v}
		}
		return v
	}
	return unsup("convert %v to %v", from, to)
}

func (in *Interp) runeToStr(t *Term) Str {
	if t.op != OpConst {
		if in.fork(in.ts.Bin(OpULT, t, in.ts.BV(32, 0x80))) {
			return mkStr([]*Term{in.ts.Extract(t, 0, 8)})
		}
	}
	x := int32(in.conc(t))
	return Str{s: string(rune(x))}
}

func (in *Interp) builtin(g *G, fr *Frame, b *ssa.Builtin, args []Value, ins *ssa.Call, dst int) {
	set := func(v Value) {
		if dst >= 0 {
			fr.regs[dst] = v
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			set(in.int(x.Len()))
		case Slice:
			set(in.int(x.len))
		case *MapV:
			n := 0
			if x != nil {
				in.onReadObj(x)
				n = x.live
			}
			set(in.int(n))
		case *ChanV:
			n := 0
			if x != nil {
				n = len(x.buf)
			}
			set(in.int(n))
		case *ArrV:
			set(in.int(len(x.e)))
		case Ptr:
			set(in.int(len((*x).(*ArrV).e)))
		default:
			unsup("len of %T", x)
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			set(in.int(x.cap))
		case *ChanV:
			n := 0
			if x != nil {
				n = x.cap
			}
			set(in.int(n))
		case *ArrV:
			set(in.int(len(x.e)))
		case Ptr:
			set(in.int(len((*x).(*ArrV).e)))
		default:
			unsup("cap of %T", x)
		}
	case "append":
		s := args[0].(Slice)
		st := b.Type().(*types.Signature).Results().At(0).Type().Underlying().(*types.Slice)
		var vals []Value
		switch y := args[1].(type) {
		case Slice:
			for i := 0; i < y.len; i++ {
				in.onRead(&y.arr.e[y.off+i])
				vals = append(vals, copyVal(y.arr.e[y.off+i]))
			}
		case Str:
			for _, t := range in.strBytes(y) {
				vals = append(vals, t)
			}
		default:
			unsup("append %T", y)
		}
		if len(vals) == 0 {
			set(s)
			return
		}
		set(in.appendVals(s, st.Elem(), vals))
	case "copy":
		d := args[0].(Slice)
		var vals []Value
		switch y := args[1].(type) {
		case Slice:
			for i := 0; i < y.len && i < d.len; i++ {
				in.onRead(&y.arr.e[y.off+i])
				vals = append(vals, copyVal(y.arr.e[y.off+i]))
			}
		case Str:
			for i, t := range in.strBytes(y) {
				if i < d.len {
					vals = append(vals, t)
				}
			}
		}
		for i, v := range vals {
			in.onWrite(&d.arr.e[d.off+i])
			storeTo(&d.arr.e[d.off+i], v)
		}
		set(in.int(len(vals)))
	case "delete":
		m := args[0].(*MapV)
		if m != nil {
			in.onWriteObj(m)
			mt := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Map)
			in.mapDelete(m, mt.Key(), args[1])
		}
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				in.onWriteObj(x)
				*x = *newMap()
			}
		case Slice:
			et := b.Type().(*types.Signature).Params().At(0).Type().Underlying().(*types.Slice).Elem()
			for i := 0; i < x.len; i++ {
				storeTo(&x.arr.e[x.off+i], in.zero(et))
			}
		}
	case "close":
		in.chanClose(g, args[0].(*ChanV))
	case "panic":
		panic(goPanic{args[0].(Iface)})
	case "recover":
		set(in.doRecover(g, fr))
	case "print", "println":
	case "min", "max":
		t := b.Type().(*types.Signature).Params().At(0).Type()
		acc := args[0]
		for _, a := range args[1:] {
			var lt *Term
			if b.Name() == "min" {
				lt = in.binop(token.LSS, t, t, a, acc).(*Term)
			} else {
				lt = in.binop(token.GTR, t, t, a, acc).(*Term)
			}
			if at, ok := a.(*Term); ok {
				acc = in.ts.Ite(lt, at, acc.(*Term))
			} else if in.fork(lt) {
				acc = a
			}
		}
		set(acc)
	case "Sizeof":
		set(in.ts.BV(64, uint64(in.sizes.Sizeof(b.Type().(*types.Signature).Params().At(0).Type()))))
	case "ssa:deferstack":
		set(deferStack{fr})
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p == nil {
			in.rtPanic("value method called using nil pointer")
		}
		set(args[0])
	case "String": // unsafe.String
		n := in.concInt(args[1])
		switch p := args[0].(type) {
		case DataPtr:
			bs := make([]*Term, n)
			for i := range bs {
				bs[i] = p.sl.arr.e[p.sl.off+i].(*Term)
			}
			set(mkStr(bs))
		case StrDataPtr:
			set(in.strSlice(p.s, 0, n))
		default:
			if n == 0 {
				set(Str{})
				return
			}
			unsup("unsafe.String of %T", p)
		}
	case "SliceData":
		s := args[0].(Slice)
		if s.arr == nil {
			set(Ptr(nil))
		} else {
			set(DataPtr{s})
		}
	case "StringData":
		set(StrDataPtr{args[0].(Str)})
	case "Slice":
		n := in.concInt(args[1])
		switch p := args[0].(type) {
		case DataPtr:
			set(Slice{p.sl.arr, p.sl.off, n, n})
		case StrDataPtr:
			bs := in.strBytes(p.s)
			a := &ArrV{e: make([]Value, n)}
			for i := range a.e {
				a.e[i] = bs[i]
			}
			set(Slice{a, 0, n, n})
		case Ptr:
			if p == nil && n == 0 {
				set(Slice{})
				return
			}
			unsup("unsafe.Slice")
		default:
			unsup("unsafe.Slice of %T", p)
		}
	default:
		unsup("builtin %s", b.Name())
	}
}

func (in *Interp) doRecover(g *G, fr *Frame) Value {
	// fr is the function calling recover; it must be a deferred call of an
	// unwinding frame.
	if fr.isDefer && fr.owner != nil && fr.owner.unwinding != nil && !fr.owner.unwinding.recovered {
		fr.owner.unwinding.recovered = true
		return fr.owner.unwinding.val
	}
	return Iface{}
}

var _ = fmt.Sprint
