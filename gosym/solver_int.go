package main

import (
	"fmt"
	"math/big"
	"strconv"
)

// Integer encoding. A query all of whose operations provably stay within the
// range of their machine type (interval analysis from the input ranges) is
// sent to the solver as linear integer arithmetic instead of bit-vectors;
// both readings agree on such terms, and integers are far cheaper for sums
// of differences. Queries with any other term use bit-vectors.

type ival struct {
	ok     bool
	arith  bool // contains an arithmetic operation
	lo, hi *big.Int
}

func pow2(n uint8) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func (s *TermStore) ival(t *Term) ival {
	if r, ok := s.ivals[t.id]; ok {
		return r
	}
	r := s.ival1(t)
	s.ivals[t.id] = r
	return r
}

func inSigned(v ival, w uint8) bool {
	h := pow2(w - 1)
	return v.hi.Cmp(h) < 0 && v.lo.Cmp(new(big.Int).Neg(h)) >= 0
}

func inUnsigned(v ival, w uint8) bool {
	return v.lo.Sign() >= 0 && v.hi.Cmp(pow2(w)) < 0
}

func (s *TermStore) ival1(t *Term) ival {
	bad := ival{}
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return ival{ok: true, lo: big.NewInt(0), hi: big.NewInt(1)}
		}
		var v *big.Int
		if t.w == 64 {
			v = big.NewInt(int64(t.val))
		} else {
			v = new(big.Int).SetUint64(t.val)
		}
		return ival{true, false, v, v}
	case OpVar:
		if t.w == 0 {
			return ival{ok: true, lo: big.NewInt(0), hi: big.NewInt(1)}
		}
		if t.w == 64 {
			h := pow2(63)
			return ival{true, false, new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))}
		}
		return ival{true, false, big.NewInt(0), new(big.Int).Sub(pow2(t.w), big.NewInt(1))}
	case OpUF, OpUDiv, OpSDiv, OpURem, OpSRem, OpBAnd, OpBOr, OpBXor, OpBNot, OpShl, OpLShr, OpAShr, OpConcat:
		return bad
	}
	a := make([]ival, len(t.args))
	arith := false
	for i, x := range t.args {
		a[i] = s.ival(x)
		if !a[i].ok {
			return bad
		}
		arith = arith || a[i].arith
	}
	b01 := ival{true, arith, big.NewInt(0), big.NewInt(1)}
	fits := func(lo, hi *big.Int) ival {
		r := ival{true, true, lo, hi}
		if inSigned(r, t.w) || inUnsigned(r, t.w) {
			return r
		}
		return bad
	}
	switch t.op {
	case OpNot, OpAnd, OpOr:
		if t.w != 0 {
			return bad
		}
		return b01
	case OpIte:
		if t.w == 0 {
			return b01
		}
		r := ival{true, arith, a[1].lo, a[1].hi}
		if a[2].lo.Cmp(r.lo) < 0 {
			r.lo = a[2].lo
		}
		if a[2].hi.Cmp(r.hi) > 0 {
			r.hi = a[2].hi
		}
		if inSigned(r, t.w) || inUnsigned(r, t.w) {
			return r
		}
		return bad
	case OpEq, OpULT, OpULE, OpSLT, OpSLE:
		w := t.args[0].w
		if w == 0 {
			return b01
		}
		sg := inSigned(a[0], w) && inSigned(a[1], w)
		us := inUnsigned(a[0], w) && inUnsigned(a[1], w)
		switch t.op {
		case OpEq:
			if sg || us {
				return b01
			}
		case OpULT, OpULE:
			if us {
				return b01
			}
		default:
			if sg {
				return b01
			}
		}
		return bad
	case OpAdd:
		return fits(new(big.Int).Add(a[0].lo, a[1].lo), new(big.Int).Add(a[0].hi, a[1].hi))
	case OpSub:
		return fits(new(big.Int).Sub(a[0].lo, a[1].hi), new(big.Int).Sub(a[0].hi, a[1].lo))
	case OpNeg:
		return fits(new(big.Int).Neg(a[0].hi), new(big.Int).Neg(a[0].lo))
	case OpMul:
		if t.args[0].op != OpConst && t.args[1].op != OpConst {
			return bad
		}
		var lo, hi *big.Int
		for _, x := range []*big.Int{a[0].lo, a[0].hi} {
			for _, y := range []*big.Int{a[1].lo, a[1].hi} {
				p := new(big.Int).Mul(x, y)
				if lo == nil || p.Cmp(lo) < 0 {
					lo = p
				}
				if hi == nil || p.Cmp(hi) > 0 {
					hi = p
				}
			}
		}
		return fits(lo, hi)
	case OpZExt:
		if inUnsigned(a[0], t.args[0].w) {
			return ival{true, arith, a[0].lo, a[0].hi}
		}
		return bad
	case OpExtract:
		r := ival{true, arith, a[0].lo, a[0].hi}
		if t.val == 0 && (inSigned(r, t.w) || inUnsigned(r, t.w)) {
			return r
		}
		return bad
	case OpSExt:
		if inSigned(a[0], t.args[0].w) {
			return ival{true, arith, a[0].lo, a[0].hi}
		}
		return bad
	}
	return bad
}

var intOps = map[Op]string{OpAdd: "+", OpSub: "-", OpNeg: "-", OpMul: "*", OpULT: "<", OpSLT: "<", OpULE: "<=", OpSLE: "<=",
	OpEq: "=", OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite"}

func (s *Solver) refInt(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return constSMT(t)
		}
		v := s.ts.ival(t).lo
		if v.Sign() < 0 {
			return "(- " + new(big.Int).Neg(v).String() + ")"
		}
		return v.String()
	case OpVar:
		if !s.decl[t.name] {
			s.decl[t.name] = true
			if t.w == 0 {
				s.send(fmt.Sprintf("(declare-const |%s| Bool)\n", t.name))
			} else {
				iv := s.ts.ival(t)
				s.send(fmt.Sprintf("(declare-const |%s| Int)\n", t.name))
				// global bounds: asserted at level 0 through a fresh stack
				s.bounds = append(s.bounds, fmt.Sprintf("(assert (and (<= %s |%s|) (<= |%s| %s)))\n", intLit(iv.lo), t.name, t.name, intLit(iv.hi)))
			}
		}
		return "|" + t.name + "|"
	case OpZExt, OpSExt, OpExtract:
		return s.refInt(t.args[0])
	}
	if s.idef[t.id] {
		return "t" + strconv.Itoa(t.id)
	}
	body := "(" + intOps[t.op]
	for _, a := range t.args {
		body += " " + s.refInt(a)
	}
	body += ")"
	sort := "Bool"
	if t.w != 0 {
		sort = "Int"
	}
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sort, body))
	s.idef[t.id] = true
	return "t" + strconv.Itoa(t.id)
}

func intLit(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

// useInt reports whether the query can and should use the integer encoding.
func (s *Solver) useInt(pc []*Term, extra *Term) bool {
	arith := false
	for _, t := range pc {
		iv := s.ts.ival(t)
		if !iv.ok {
			return false
		}
		arith = arith || iv.arith
	}
	if extra != nil {
		iv := s.ts.ival(extra)
		if !iv.ok {
			return false
		}
		arith = arith || iv.arith
	}
	return arith
}
