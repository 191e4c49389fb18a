package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term (bool, ints, floats), Str, *Value (pointer), *StructV, *ArrV, Slice,
//	*MapV, Iface, *ssa.Function, *Closure, *ssa.Builtin, *ChanV, Tuple,
//	*MapIter, *StrIter, UPtr, DataPtr
type Value interface{}

type Ptr = *Value

type Str struct {
	s string  // concrete content when b == nil
	b []*Term // symbolic bytes (8 bit)
}

func (s Str) Len() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

type StructV struct{ f []Value }
type ArrV struct{ e []Value }
type Slice struct {
	arr           *ArrV
	off, len, cap int
}
type Iface struct {
	t types.Type
	v Value
}
type Closure struct {
	fn  *ssa.Function
	env []Value
}
type Tuple []Value

type mapEntry struct {
	k, v Value
	dead bool
}
type MapV struct {
	ents  []*mapEntry
	index map[string]*mapEntry
	nsym  int
	live  int
	cell  Value // identity for race detection
}
type MapIter struct {
	m     *MapV
	order []*mapEntry
	i     int
}
type StrIter struct {
	s Str
	i int
}
type UPtr struct{ v Value }     // unsafe.Pointer
type DataPtr struct{ sl Slice } // unsafe.SliceData
type StrDataPtr struct{ s Str } // unsafe.StringData

type waiter struct {
	g      *G
	val    Value
	ok     bool
	selIdx int
	sel    *selState
}
type selState struct{ done bool }

type ChanV struct {
	cap    int
	buf    []Value
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
	vc     vclock
	bufVC  []vclock
	isTime bool // timer channel: fires at fireAt, or at any moment with TimersMayFire
	fireAt int64
	et     types.Type
}

type unsupported struct{ msg string }

func unsup(format string, a ...interface{}) Value {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

func intWidth(b *types.Basic) (w uint8, signed bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Float32:
		return 32, true
	case types.Float64, types.UntypedFloat:
		return 64, true
	}
	return 255, false
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return Str{}
		}
		if u.Kind() == types.UnsafePointer {
			return UPtr{}
		}
		if u.Kind() == types.UntypedNil {
			return nil
		}
		w, _ := intWidth(u)
		if w == 255 {
			return nil // complex: unsupported when used
		}
		if w == 0 {
			return in.ts.fls
		}
		return in.ts.BV(w, 0)
	case *types.Pointer:
		return Ptr(nil)
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrV{e: make([]Value, u.Len())}
		for i := range a.e {
			a.e[i] = in.zero(u.Elem())
		}
		return a
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = in.zero(u.At(i).Type())
		}
		return tu
	}
	return unsup("zero of %v", t)
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case *StructV:
		n := &StructV{f: make([]Value, len(x.f))}
		for i, e := range x.f {
			n.f[i] = copyVal(e)
		}
		return n
	case *ArrV:
		n := &ArrV{e: make([]Value, len(x.e))}
		for i, e := range x.e {
			n.e[i] = copyVal(e)
		}
		return n
	}
	return v
}

func storeTo(addr Ptr, v Value) {
	switch x := v.(type) {
	case *StructV:
		if d, ok := (*addr).(*StructV); ok {
			if d == x {
				return
			}
			for i := range x.f {
				storeTo(&d.f[i], x.f[i])
			}
			return
		}
		*addr = copyVal(v)
	case *ArrV:
		if d, ok := (*addr).(*ArrV); ok {
			if d == x {
				return
			}
			for i := range x.e {
				storeTo(&d.e[i], x.e[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

func (in *Interp) constValue(c *ssa.Const) Value {
	if c.Value == nil {
		return in.zero(c.Type())
	}
	t := c.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		return unsup("const of type %v", c.Type())
	}
	switch {
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return Str{s: constant.StringVal(c.Value)}
		}
		return Str{s: string(rune(c.Int64()))}
	case b.Info()&types.IsBoolean != 0:
		return in.ts.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if b.Kind() == types.Float32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			return in.f32(f32)
		}
		return in.f64(f)
	case b.Info()&types.IsInteger != 0:
		w, signed := intWidth(b)
		if signed {
			return in.ts.BV(w, uint64(c.Int64()))
		}
		return in.ts.BV(w, c.Uint64())
	}
	return unsup("const %v", c)
}

// ---- strings ----

func (in *Interp) strByte(s Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return in.ts.BV(8, uint64(s.s[i]))
}

func (in *Interp) strBytes(s Str) []*Term {
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = in.ts.BV(8, uint64(s.s[i]))
	}
	return r
}

func mkStr(b []*Term) Str {
	for _, t := range b {
		if t.op != OpConst {
			return Str{b: b}
		}
	}
	var sb strings.Builder
	for _, t := range b {
		sb.WriteByte(byte(t.val))
	}
	return Str{s: sb.String()}
}

func (in *Interp) strConcat(a, b Str) Str {
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	if a.Len() == 0 {
		return b
	}
	if b.Len() == 0 {
		return a
	}
	x := in.strBytes(a)
	y := in.strBytes(b)
	r := make([]*Term, 0, len(x)+len(y))
	r = append(append(r, x...), y...)
	return mkStr(r)
}

func (in *Interp) strSlice(s Str, lo, hi int) Str {
	if s.b == nil {
		return Str{s: s.s[lo:hi]}
	}
	return mkStr(s.b[lo:hi])
}

func (in *Interp) strEq(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return in.ts.Bool(a.s == b.s)
	}
	if a.Len() != b.Len() {
		return in.ts.fls
	}
	r := in.ts.tru
	for i := 0; i < a.Len(); i++ {
		r = in.ts.And(r, in.ts.Eq(in.strByte(a, i), in.strByte(b, i)))
		if r.IsFalse() {
			return r
		}
	}
	return r
}

func (in *Interp) strLt(a, b Str) *Term {
	if a.b == nil && b.b == nil {
		return in.ts.Bool(a.s < b.s)
	}
	la, lb := a.Len(), b.Len()
	n := la
	if lb < n {
		n = lb
	}
	r := in.ts.Bool(la < lb)
	for i := n - 1; i >= 0; i-- {
		x, y := in.strByte(a, i), in.strByte(b, i)
		r = in.ts.Or(in.ts.Bin(OpULT, x, y), in.ts.And(in.ts.Eq(x, y), r))
	}
	return r
}

// ---- equality ----

func (in *Interp) eq(t types.Type, a, b Value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return in.strEq(a.(Str), b.(Str))
		}
		if u.Kind() == types.UnsafePointer {
			return in.ts.Bool(a.(UPtr).v == b.(UPtr).v)
		}
		if u.Info()&types.IsFloat != 0 {
			return in.ts.FEq(a.(*Term), b.(*Term))
		}
		return in.ts.Eq(a.(*Term), b.(*Term))
	case *types.Struct:
		x, y := a.(*StructV), b.(*StructV)
		r := in.ts.tru
		for i := range x.f {
			r = in.ts.And(r, in.eq(u.Field(i).Type(), x.f[i], y.f[i]))
			if r.IsFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		x, y := a.(*ArrV), b.(*ArrV)
		r := in.ts.tru
		for i := range x.e {
			r = in.ts.And(r, in.eq(u.Elem(), x.e[i], y.e[i]))
		}
		return r
	case *types.Interface:
		x, okx := a.(Iface)
		y, oky := b.(Iface)
		if okx && oky {
			if x.t == nil || y.t == nil {
				return in.ts.Bool(x.t == nil && y.t == nil)
			}
			if !types.Identical(x.t, y.t) {
				return in.ts.fls
			}
			if !types.Comparable(x.t) {
				panic(goPanic{in.runtimeError("comparing uncomparable type " + x.t.String())})
			}
			return in.eq(x.t, x.v, y.v)
		}
		return unsup("iface eq mixed").(*Term)
	case *types.Slice:
		// only comparison with nil
		x, y := a.(Slice), b.(Slice)
		return in.ts.Bool(x.arr == nil && y.arr == nil)
	case *types.Map:
		return in.ts.Bool(a.(*MapV) == b.(*MapV))
	case *types.Chan:
		return in.ts.Bool(a.(*ChanV) == b.(*ChanV))
	case *types.Pointer:
		x, okx := a.(Ptr)
		y, oky := b.(Ptr)
		if okx && oky {
			return in.ts.Bool(x == y)
		}
		return in.ts.Bool(a == b)
	case *types.Signature:
		return in.ts.Bool(isNilFunc(a) && isNilFunc(b))
	}
	return unsup("eq of %v", t).(*Term)
}

func isNilFunc(v Value) bool {
	switch f := v.(type) {
	case *ssa.Function:
		return f == nil
	case nil:
		return true
	}
	return false
}

// ---- maps ----

// concKey returns a canonical string for a concrete key.
func concKey(v Value) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.op == OpConst {
			return fmt.Sprintf("i%d", x.val), true
		}
		return "", false
	case Str:
		if x.b == nil {
			return "s" + x.s, true
		}
		return "", false
	case Ptr:
		return fmt.Sprintf("p%p", x), true
	case *ChanV:
		return fmt.Sprintf("c%p", x), true
	case Iface:
		if x.t == nil {
			return "nil", true
		}
		k, ok := concKey(x.v)
		return x.t.String() + ":" + k, ok
	case *StructV:
		var sb strings.Builder
		for _, f := range x.f {
			k, ok := concKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	case *ArrV:
		var sb strings.Builder
		for _, f := range x.e {
			k, ok := concKey(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return sb.String(), true
	}
	return "", false
}

func newMap() *MapV { return &MapV{index: map[string]*mapEntry{}} }

func (in *Interp) mapFind(m *MapV, kt types.Type, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	ck, conc := concKey(k)
	if conc {
		if e, ok := m.index[ck]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	type cand struct {
		e *mapEntry
		c *Term
	}
	var cands []cand
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		c := in.eq(kt, k, e.k)
		if c.IsTrue() {
			return e
		}
		if c.IsFalse() {
			continue
		}
		if v, ok := in.known(c); ok {
			if v {
				return e
			}
			continue
		}
		cands = append(cands, cand{e, c})
	}
	for _, c := range cands {
		if in.fork(c.c) {
			return c.e
		}
	}
	return nil
}

func (in *Interp) mapSet(m *MapV, kt types.Type, k, v Value) {
	if e := in.mapFind(m, kt, k); e != nil {
		e.v = v
		return
	}
	e := &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	m.live++
	if ck, ok := concKey(k); ok {
		m.index[ck] = e
	} else {
		m.nsym++
	}
}

func (in *Interp) mapDelete(m *MapV, kt types.Type, k Value) {
	e := in.mapFind(m, kt, k)
	if e == nil {
		return
	}
	in.mapDelEntry(m, e)
}

func (in *Interp) mapDelEntry(m *MapV, e *mapEntry) {
	e.dead = true
	m.live--
	if ck, ok := concKey(e.k); ok {
		delete(m.index, ck)
	} else {
		m.nsym--
	}
	if len(m.ents) > 16 && m.live < len(m.ents)/2 {
		var n []*mapEntry
		for _, x := range m.ents {
			if !x.dead {
				n = append(n, x)
			}
		}
		m.ents = n
	}
}

func (m *MapV) liveEntries() []*mapEntry {
	if m == nil {
		return nil
	}
	r := make([]*mapEntry, 0, m.live)
	for _, e := range m.ents {
		if !e.dead {
			r = append(r, e)
		}
	}
	return r
}

// ---- slice growth (runtime.growslice) ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return (n + 8191) / 8192 * 8192
}

func growCap(oldCap, newLen, esize int) int {
	newcap := oldCap
	doublecap := newcap + newcap
	if newLen > doublecap {
		newcap = newLen
	} else {
		const threshold = 256
		if oldCap < threshold {
			newcap = doublecap
		} else {
			for newcap < newLen {
				newcap += (newcap + 3*threshold) >> 2
			}
		}
	}
	if esize == 0 {
		return newLen
	}
	return roundupsize(newcap*esize) / esize
}

func (in *Interp) appendVals(s Slice, et types.Type, vals []Value) Slice {
	n := s.len + len(vals)
	if n <= s.cap {
		for i, v := range vals {
			storeTo(&s.arr.e[s.off+s.len+i], v)
			in.onWrite(&s.arr.e[s.off+s.len+i])
		}
		return Slice{s.arr, s.off, n, s.cap}
	}
	nc := growCap(s.cap, n, int(in.sizes.Sizeof(et)))
	if nc < n {
		nc = n
	}
	na := &ArrV{e: make([]Value, nc)}
	for i := 0; i < s.len; i++ {
		in.onRead(&s.arr.e[s.off+i])
		na.e[i] = copyVal(s.arr.e[s.off+i])
	}
	for i, v := range vals {
		na.e[s.len+i] = copyVal(v)
	}
	for i := n; i < nc; i++ {
		na.e[i] = in.zero(et)
	}
	return Slice{na, 0, n, nc}
}
