package main

// Hash-consed SMT terms: sorts are Bool (w==0) and bit-vectors of w<=64 bits.
// Floating point values are carried as their IEEE bit patterns (BV32/BV64);
// comparisons are encoded exactly over the bits, arithmetic on symbolic
// operands is an uninterpreted function of the operands (commutativity of +
// and * is built in), arithmetic on constants is computed exactly.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpShl
	OpLShr
	OpAShr
	OpULT
	OpULE
	OpSLT
	OpSLE
	OpExtract // val = lo, w = width
	OpZExt
	OpSExt
	OpConcat
	OpUF // name
)

var opNames = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv",
	OpURem: "bvurem", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor",
	OpBNot: "bvnot", OpNeg: "bvneg", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
	OpULT: "bvult", OpULE: "bvule", OpSLT: "bvslt", OpSLE: "bvsle", OpConcat: "concat",
}

type Term struct {
	op   Op
	w    uint8 // 0 = Bool
	val  uint64
	args []*Term
	name string
	id   int
	def  bool // already defined in the solver
	sg   int  // solver generation where def holds
}

type termKey struct {
	op         Op
	w          uint8
	val        uint64
	a0, a1, a2 int
	name       string
}

type TermStore struct {
	tab    map[termKey]*Term
	nextID int
	tru    *Term
	fls    *Term
	small  [9][]*Term
	ivals  map[int]ival
	ufs    map[string]string // name -> declaration
	vars   map[string]*Term
	exact  bool // float arithmetic in the solver's floating-point theory
}

func NewTermStore() *TermStore {
	s := &TermStore{tab: make(map[termKey]*Term, 1<<14), ufs: map[string]string{}, ivals: map[int]ival{}, vars: map[string]*Term{}}
	s.tru = s.mk(OpConst, 0, 1, "")
	s.fls = s.mk(OpConst, 0, 0, "")
	return s
}

func (s *TermStore) mk(op Op, w uint8, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, w: w, val: val, name: name, a0: -1, a1: -1, a2: -1}
	if len(args) > 3 {
		// n-ary UF: fold ids in the name
		var sb strings.Builder
		sb.WriteString(name)
		for _, a := range args {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
		k.name = sb.String()
	} else {
		for i, a := range args {
			switch i {
			case 0:
				k.a0 = a.id
			case 1:
				k.a1 = a.id
			case 2:
				k.a2 = a.id
			}
		}
	}
	if t, ok := s.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, val: val, name: name, id: s.nextID}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	s.nextID++
	s.tab[k] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (s *TermStore) BV(w uint8, v uint64) *Term { return s.mk(OpConst, w, v&mask(w), "") }
func (s *TermStore) Bool(b bool) *Term {
	if b {
		return s.tru
	}
	return s.fls
}
func (s *TermStore) Var(name string, w uint8) *Term {
	if v := s.vars[name]; v != nil && v.w != w {
		// the same input of another width on another path
		name = fmt.Sprintf("%s~%d", name, w)
	}
	t := s.mk(OpVar, w, 0, name)
	s.vars[name] = t
	return t
}

func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) IsTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) IsFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (s *TermStore) Not(a *Term) *Term {
	if a.op == OpConst {
		return s.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return s.mk(OpNot, 0, 0, "", a)
}

func (s *TermStore) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return s.fls
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() || a == b {
		return a
	}
	if s.Not(a) == b {
		return s.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OpAnd, 0, 0, "", a, b)
}

func (s *TermStore) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return s.tru
	}
	if a.IsFalse() {
		return b
	}
	if b.IsFalse() || a == b {
		return a
	}
	if s.Not(a) == b {
		return s.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return s.mk(OpOr, 0, 0, "", a, b)
}

func (s *TermStore) Ite(c, a, b *Term) *Term {
	if c.op == OpConst {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.IsTrue() {
			return s.Or(c, b)
		}
		if a.IsFalse() {
			return s.And(s.Not(c), b)
		}
		if b.IsTrue() {
			return s.Or(s.Not(c), a)
		}
		if b.IsFalse() {
			return s.And(c, a)
		}
	}
	if c.op == OpNot {
		return s.Ite(c.args[0], b, a)
	}
	return s.mk(OpIte, a.w, 0, "", c, a, b)
}

func (s *TermStore) Eq(a, b *Term) *Term {
	if a == b {
		return s.tru
	}
	if a.op == OpConst && b.op == OpConst {
		return s.Bool(a.val == b.val)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 1 {
				return a
			}
			return s.Not(a)
		}
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if b.op == OpConst {
		// (= (ite c x y) k) with constant branches
		if a.op == OpIte && (a.args[1].op == OpConst || a.args[2].op == OpConst) {
			return s.Ite(a.args[0], s.Eq(a.args[1], b), s.Eq(a.args[2], b))
		}
		if a.op == OpZExt {
			in := a.args[0]
			if b.val&^mask(in.w) != 0 {
				return s.fls
			}
			return s.Eq(in, s.BV(in.w, b.val))
		}
		if a.op == OpAdd && a.args[1].op == OpConst {
			return s.Eq(a.args[0], s.BV(a.w, b.val-a.args[1].val))
		}
	} else {
		if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
			return s.Eq(a.args[0], b.args[0])
		}
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return s.mk(OpEq, 0, 0, "", a, b)
}

func (s *TermStore) isZextLike(t *Term) (*Term, bool) {
	if t.op == OpZExt {
		return t.args[0], true
	}
	return nil, false
}

// Bin builds a bit-vector operation.
func (s *TermStore) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %v width %d %d", opNames[op], a.w, b.w))
	}
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		if v, ok := foldBV(op, a.val, b.val, w); ok {
			switch op {
			case OpULT, OpULE, OpSLT, OpSLE:
				return s.Bool(v == 1)
			}
			return s.BV(w, v)
		}
	}
	switch op {
	case OpAdd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return a
			}
			if a.op == OpAdd && a.args[1].op == OpConst {
				return s.Bin(OpAdd, a.args[0], s.BV(w, a.args[1].val+b.val))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpSub:
		if b.op == OpConst {
			return s.Bin(OpAdd, a, s.BV(w, -b.val))
		}
		if a == b {
			return s.BV(w, 0)
		}
	case OpMul:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OpBAnd:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
		}
		if a == b {
			return a
		}
		if b.op != OpConst && a.id > b.id {
			a, b = b, a
		}
	case OpBOr:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if a == b {
			return a
		}
		if b.op != OpConst && a.id > b.id {
			a, b = b, a
		}
	case OpBXor:
		if a.op == OpConst {
			a, b = b, a
		}
		if b.op == OpConst && b.val == 0 {
			return a
		}
		if a == b {
			return s.BV(w, 0)
		}
	case OpShl, OpLShr, OpAShr:
		if b.op == OpConst && b.val == 0 {
			return a
		}
	case OpULT:
		if a == b {
			return s.fls
		}
		if b.op == OpConst && b.val == 0 {
			return s.fls
		}
		if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
			return s.Bin(op, a.args[0], b.args[0])
		}
		if x, ok := s.isZextLike(a); ok && b.op == OpConst {
			if b.val > mask(x.w) {
				return s.tru
			}
			return s.Bin(op, x, s.BV(x.w, b.val))
		}
		if x, ok := s.isZextLike(b); ok && a.op == OpConst {
			if a.val >= mask(x.w) {
				return s.fls
			}
			return s.Bin(op, s.BV(x.w, a.val), x)
		}
	case OpULE:
		return s.Not(s.Bin(OpULT, b, a))
	case OpSLT:
		if a == b {
			return s.fls
		}
		ax, aok := s.isZextLike(a)
		bx, bok := s.isZextLike(b)
		if aok && bok && ax.w == bx.w {
			return s.Bin(OpULT, ax, bx)
		}
		if aok && b.op == OpConst {
			if sext(b.val, w) < 0 {
				return s.fls
			}
			return s.Bin(OpULT, a, b)
		}
		if bok && a.op == OpConst {
			if sext(a.val, w) < 0 {
				return s.tru
			}
			return s.Bin(OpULT, a, b)
		}
	case OpSLE:
		return s.Not(s.Bin(OpSLT, b, a))
	}
	rw := w
	switch op {
	case OpULT, OpSLT:
		rw = 0
	}
	return s.mk(op, rw, 0, "", a, b)
}

func foldBV(op Op, a, b uint64, w uint8) (uint64, bool) {
	m := mask(w)
	bo := func(x bool) (uint64, bool) {
		if x {
			return 1, true
		}
		return 0, true
	}
	switch op {
	case OpAdd:
		return (a + b) & m, true
	case OpSub:
		return (a - b) & m, true
	case OpMul:
		return (a * b) & m, true
	case OpUDiv:
		if b == 0 {
			return m, true
		}
		return a / b, true
	case OpURem:
		if b == 0 {
			return a, true
		}
		return a % b, true
	case OpSDiv:
		if b == 0 {
			if sext(a, w) < 0 {
				return 1, true
			}
			return m, true
		}
		if sext(b, w) == -1 {
			return (-a) & m, true
		}
		return uint64(sext(a, w)/sext(b, w)) & m, true
	case OpSRem:
		if b == 0 {
			return a, true
		}
		if sext(b, w) == -1 {
			return 0, true
		}
		return uint64(sext(a, w)%sext(b, w)) & m, true
	case OpBAnd:
		return a & b, true
	case OpBOr:
		return a | b, true
	case OpBXor:
		return a ^ b, true
	case OpShl:
		if b >= uint64(w) {
			return 0, true
		}
		return (a << b) & m, true
	case OpLShr:
		if b >= uint64(w) {
			return 0, true
		}
		return a >> b, true
	case OpAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m, true
	case OpULT:
		return bo(a < b)
	case OpULE:
		return bo(a <= b)
	case OpSLT:
		return bo(sext(a, w) < sext(b, w))
	case OpSLE:
		return bo(sext(a, w) <= sext(b, w))
	}
	return 0, false
}

func (s *TermStore) BNot(a *Term) *Term {
	if a.op == OpConst {
		return s.BV(a.w, ^a.val)
	}
	return s.mk(OpBNot, a.w, 0, "", a)
}
func (s *TermStore) Neg(a *Term) *Term {
	if a.op == OpConst {
		return s.BV(a.w, -a.val)
	}
	return s.mk(OpNeg, a.w, 0, "", a)
}
func (s *TermStore) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	if a.op == OpConst {
		return s.BV(w, a.val>>lo)
	}
	if (a.op == OpZExt || a.op == OpSExt) && lo == 0 {
		in := a.args[0]
		if w <= in.w {
			return s.Extract(in, 0, w)
		}
		if a.op == OpZExt {
			return s.ZExt(in, w)
		}
		return s.SExt(in, w)
	}
	return s.mk(OpExtract, w, uint64(lo), "", a)
}
func (s *TermStore) ZExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return s.BV(w, a.val)
	}
	if a.op == OpZExt {
		return s.ZExt(a.args[0], w)
	}
	return s.mk(OpZExt, w, 0, "", a)
}
func (s *TermStore) SExt(a *Term, w uint8) *Term {
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return s.BV(w, uint64(sext(a.val, a.w)))
	}
	if a.op == OpZExt {
		return s.ZExt(a.args[0], w)
	}
	return s.mk(OpSExt, w, 0, "", a)
}

// UF applies an uninterpreted function with a bit-vector result of width w.
func (s *TermStore) UF(name string, w uint8, args ...*Term) *Term {
	if _, ok := s.ufs[name]; !ok {
		var sb strings.Builder
		for _, a := range args {
			sb.WriteString(sortName(a.w) + " ")
		}
		s.ufs[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.TrimSpace(sb.String()), sortName(w))
	}
	return s.mk(OpUF, w, 0, name, args...)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ---- floating point over bit patterns ----

func (s *TermStore) fpParts(w uint8) (signMask, expMask, fracMask uint64) {
	if w == 32 {
		return 1 << 31, 0xff << 23, (1 << 23) - 1
	}
	return 1 << 63, 0x7ff << 52, (1 << 52) - 1
}

func (s *TermStore) FIsNaN(a *Term) *Term {
	sm, em, _ := s.fpParts(a.w)
	abs := s.Bin(OpBAnd, a, s.BV(a.w, ^sm))
	return s.Bin(OpULT, s.BV(a.w, em), abs)
}

func fconst(t *Term) float64 {
	if t.w == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

// FLt is IEEE a<b.
func (s *TermStore) FLt(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return s.Bool(fconst(a) < fconst(b))
	}
	sm, _, _ := s.fpParts(a.w)
	an := s.Bin(OpSLT, a, s.BV(a.w, 0))
	bn := s.Bin(OpSLT, b, s.BV(b.w, 0))
	aa := s.Bin(OpBAnd, a, s.BV(a.w, ^sm))
	ba := s.Bin(OpBAnd, b, s.BV(b.w, ^sm))
	zz := s.And(s.Eq(aa, s.BV(a.w, 0)), s.Eq(ba, s.BV(b.w, 0)))
	lt := s.Ite(an,
		s.Ite(bn, s.Bin(OpULT, ba, aa), s.tru),
		s.Ite(bn, s.fls, s.Bin(OpULT, aa, ba)))
	return s.And(s.And(s.Not(s.FIsNaN(a)), s.Not(s.FIsNaN(b))), s.And(s.Not(zz), lt))
}

func (s *TermStore) FEq(a, b *Term) *Term {
	if a.op == OpConst && b.op == OpConst {
		return s.Bool(fconst(a) == fconst(b))
	}
	sm, _, _ := s.fpParts(a.w)
	if a == b {
		return s.Not(s.FIsNaN(a))
	}
	aa := s.Bin(OpBAnd, a, s.BV(a.w, ^sm))
	ba := s.Bin(OpBAnd, b, s.BV(b.w, ^sm))
	zz := s.And(s.Eq(aa, s.BV(a.w, 0)), s.Eq(ba, s.BV(b.w, 0)))
	return s.And(s.And(s.Not(s.FIsNaN(a)), s.Not(s.FIsNaN(b))), s.Or(s.Eq(a, b), zz))
}

func (s *TermStore) FLe(a, b *Term) *Term { return s.Or(s.FLt(a, b), s.FEq(a, b)) }

func (s *TermStore) FBin(op string, a, b *Term) *Term {
	w := a.w
	if a.op == OpConst && b.op == OpConst {
		if w == 32 {
			x, y := math.Float32frombits(uint32(a.val)), math.Float32frombits(uint32(b.val))
			var r float32
			switch op {
			case "add":
				r = x + y
			case "sub":
				r = x - y
			case "mul":
				r = x * y
			case "div":
				r = x / y
			}
			return s.BV(32, uint64(math.Float32bits(r)))
		}
		x, y := math.Float64frombits(a.val), math.Float64frombits(b.val)
		var r float64
		switch op {
		case "add":
			r = x + y
		case "sub":
			r = x - y
		case "mul":
			r = x * y
		case "div":
			r = x / y
		}
		return s.BV(64, math.Float64bits(r))
	}
	if op == "add" || op == "mul" {
		if a.id > b.id {
			a, b = b, a
		}
	}
	// exact identities usable on bit patterns: x*1 = x, x/1 = x (up to NaN payload)
	one := uint64(0x3f800000)
	if w == 64 {
		one = 0x3ff0000000000000
	}
	if (op == "mul" || op == "div") && b.op == OpConst && b.val == one {
		return a
	}
	if op == "mul" && a.op == OpConst && a.val == one {
		return b
	}
	if s.exact {
		return s.fpOp(fmt.Sprintf("x%s%d", op, w), w, fmt.Sprintf("(fp.%s RNE %s %s)", op, toFP("a0", w), toFP("a1", w)), a, b)
	}
	return s.UF(fmt.Sprintf("f%s%d", op, w), w, a, b)
}

// toFP reads a bit pattern as a number of the solver's floating-point theory.
func toFP(a string, w uint8) string {
	return fmt.Sprintf("((_ to_fp %s) %s)", fpSort(w), a)
}

func fpSort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

// fpOp applies a function given by a floating-point expression over its
// arguments a0, a1; its value is the bit pattern, with one pattern for NaN.
func (s *TermStore) fpOp(name string, w uint8, expr string, args ...*Term) *Term {
	if _, ok := s.ufs[name]; !ok {
		var sb strings.Builder
		for i, a := range args {
			fmt.Fprintf(&sb, "(a%d %s)", i, sortName(a.w))
		}
		nan := s.BV(w, uint64(math.Float32bits(float32(math.NaN()))))
		if w == 64 {
			nan = s.BV(w, math.Float64bits(math.NaN()))
		}
		s.ufs[name] = fmt.Sprintf("(define-fun %s (%s) %s (let ((r %s)) (ite (fp.isNaN r) %s (fp.to_ieee_bv r))))", name, sb.String(), sortName(w), expr, constSMT(nan))
	}
	return s.mk(OpUF, w, 0, name, args...)
}

// FCvt converts between float widths.
func (s *TermStore) FCvt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		if w == 32 {
			return s.BV(32, uint64(math.Float32bits(float32(math.Float64frombits(a.val)))))
		}
		return s.BV(64, math.Float64bits(float64(math.Float32frombits(uint32(a.val)))))
	}
	if w == 32 && a.op == OpUF && a.name == "fcvt32to64" {
		return a.args[0]
	}
	if w == 32 && a.op == OpUF && a.name == "xcvt32to64" {
		return a.args[0]
	}
	if s.exact {
		return s.fpOp(fmt.Sprintf("xcvt%dto%d", a.w, w), w, fmt.Sprintf("((_ to_fp %s) RNE %s)", fpSort(w), toFP("a0", a.w)), a)
	}
	return s.UF(fmt.Sprintf("fcvt%dto%d", a.w, w), w, a)
}

// FFromInt converts an integer to float.
func (s *TermStore) FFromInt(a *Term, signed bool, w uint8) *Term {
	if a.op == OpConst {
		var f64 float64
		var f32 float32
		if signed {
			v := sext(a.val, a.w)
			f64, f32 = float64(v), float32(v)
		} else {
			f64, f32 = float64(a.val), float32(a.val)
		}
		if w == 32 {
			return s.BV(32, uint64(math.Float32bits(f32)))
		}
		return s.BV(64, math.Float64bits(f64))
	}
	if s.exact {
		conv := "to_fp_unsigned"
		if signed {
			conv = "to_fp"
		}
		return s.fpOp(fmt.Sprintf("xi2f_%v_%d_%d", signed, a.w, w), w, fmt.Sprintf("((_ %s %s) RNE a0)", conv, fpSort(w)), a)
	}
	return s.UF(fmt.Sprintf("i2f_%v_%d_%d", signed, a.w, w), w, a)
}

// FToInt converts float to int.
func (s *TermStore) FToInt(a *Term, signed bool, w uint8) *Term {
	if a.op == OpConst {
		f := fconst(a)
		if signed {
			return s.BV(w, uint64(int64(f)))
		}
		return s.BV(w, uint64(f))
	}
	return s.UF(fmt.Sprintf("f2i_%v_%d_%d", signed, a.w, w), w, a)
}

// ---- evaluation under a model ----

type Model struct {
	vals map[string]uint64
	memo map[int]evalRes
}
type evalRes struct {
	v  uint64
	ok bool
}

func (m *Model) Eval(t *Term) (uint64, bool) {
	switch t.op {
	case OpConst:
		return t.val, true
	case OpVar:
		v := m.vals[t.name] // absent: default 0 (unconstrained so far)
		return v, true
	case OpUF:
		return 0, false
	}
	if r, ok := m.memo[t.id]; ok {
		return r.v, r.ok
	}
	v, ok := m.eval1(t)
	m.memo[t.id] = evalRes{v, ok}
	return v, ok
}

func (m *Model) eval1(t *Term) (uint64, bool) {
	switch t.op {
	case OpAnd:
		a, ok1 := m.Eval(t.args[0])
		if ok1 && a == 0 {
			return 0, true
		}
		b, ok2 := m.Eval(t.args[1])
		if ok2 && b == 0 {
			return 0, true
		}
		return 1, ok1 && ok2
	case OpOr:
		a, ok1 := m.Eval(t.args[0])
		if ok1 && a == 1 {
			return 1, true
		}
		b, ok2 := m.Eval(t.args[1])
		if ok2 && b == 1 {
			return 1, true
		}
		return 0, ok1 && ok2
	case OpIte:
		c, ok := m.Eval(t.args[0])
		if !ok {
			return 0, false
		}
		if c == 1 {
			return m.Eval(t.args[1])
		}
		return m.Eval(t.args[2])
	}
	var av [3]uint64
	for i, a := range t.args {
		v, ok := m.Eval(a)
		if !ok {
			return 0, false
		}
		if i < 3 {
			av[i] = v
		}
	}
	switch t.op {
	case OpNot:
		return av[0] ^ 1, true
	case OpEq:
		if av[0] == av[1] {
			return 1, true
		}
		return 0, true
	case OpBNot:
		return ^av[0] & mask(t.w), true
	case OpNeg:
		return (-av[0]) & mask(t.w), true
	case OpExtract:
		return (av[0] >> t.val) & mask(t.w), true
	case OpZExt:
		return av[0], true
	case OpSExt:
		return uint64(sext(av[0], t.args[0].w)) & mask(t.w), true
	}
	v, ok := foldBV(t.op, av[0], av[1], t.args[0].w)
	return v, ok
}

// ---- SMT-LIB printing ----

func (t *Term) smt1(ref func(*Term) string) string {
	switch t.op {
	case OpConst:
		return constSMT(t)
	case OpVar:
		return "|" + t.name + "|"
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(t.val)+int(t.w)-1, t.val, ref(t.args[0]))
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.args[0].w, ref(t.args[0]))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	if t.op == OpUF {
		sb.WriteString(t.name)
	} else {
		sb.WriteString(opNames[t.op])
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

func constSMT(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w)/4, t.val)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

func (t *Term) String() string {
	var f func(t *Term, d int) string
	f = func(t *Term, d int) string {
		if d > 6 {
			return "..."
		}
		return t.smt1(func(a *Term) string { return f(a, d+1) })
	}
	return f(t, 0)
}

func sortedKeys(m map[string]uint64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = bits.Len
