package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
)

// Sorts: k=0 Bool, k=1 BitVec(w), k=2 Float(w in {32,64})
type Sort struct {
	k uint8
	w uint8
}

var SBool = Sort{0, 1}

func BV(w int) Sort { return Sort{1, uint8(w)} }
func FP(w int) Sort { return Sort{2, uint8(w)} }

func (s Sort) String() string {
	switch s.k {
	case 0:
		return "Bool"
	case 1:
		return fmt.Sprintf("(_ BitVec %d)", s.w)
	}
	if s.w == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OXorB
	OEq // structural equality on any sort (FP: identity of values, NaN=NaN, +0 != -0)
	OIte
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OExtract // v = hi<<8|lo
	OZExt
	OSExt
	OConcat
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OFNaN
	OFtoF
	OSItoF
	OUItoF
	OFtoSI // round toward zero; out of range/NaN: 0x80..0 (amd64)
	OBitsF // BV -> FP reinterpretation
)

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OXorB: "xor", OEq: "=", OIte: "ite",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor",
	OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr", OBNot: "bvnot", ONeg: "bvneg",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFNaN: "fp.isNaN",
}

type Term struct {
	fp      bool // contains floats
	heavy   bool // contains arithmetic that is better solved from scratch
	op      Op
	sort    Sort
	id      int32
	a, b, c *Term
	v       uint64
	name    string
}

type tkey struct {
	op      Op
	sort    Sort
	a, b, c int32
	v       uint64
	name    string
}

// TermCtx hash-conses terms. One per worker.
type TermCtx struct {
	tab  map[tkey]*Term
	next int32
	T, F *Term
	// evaluation memo
	evalGen  int32
	evalMemo []evalEnt
	smallBV  [65][]*Term
	sl       sliceCtx
}

type evalEnt struct {
	gen int32
	v   uint64
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: make(map[tkey]*Term, 1<<12)}
	c.T = c.mk(OConst, SBool, nil, nil, nil, 1, "")
	c.F = c.mk(OConst, SBool, nil, nil, nil, 0, "")
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TermCtx) mk(op Op, s Sort, x, y, z *Term, v uint64, name string) *Term {
	k := tkey{op, s, tid(x), tid(y), tid(z), v, name}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, id: c.next, a: x, b: y, c: z, v: v, name: name}
	t.fp = s.k == 2 || x != nil && x.fp || y != nil && y.fp || z != nil && z.fp
	switch op {
	case OFAdd, OFSub, OFMul, OFDiv, OFtoF, OSItoF, OUItoF, OFtoSI, OMul, OUDiv, OSDiv, OURem, OSRem:
		t.heavy = true
	default:
		t.heavy = x != nil && x.heavy || y != nil && y.heavy || z != nil && z.heavy
	}
	c.next++
	c.tab[k] = t
	return t
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := uint(64 - w)
	return int64(v<<sh) >> sh
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

func (c *TermCtx) Const(v uint64, w int) *Term {
	v &= mask(w)
	if v < 256 {
		tb := c.smallBV[w]
		if tb == nil {
			tb = make([]*Term, 256)
			c.smallBV[w] = tb
		}
		if tb[v] == nil {
			tb[v] = c.mk(OConst, BV(w), nil, nil, nil, v, "")
		}
		return tb[v]
	}
	return c.mk(OConst, BV(w), nil, nil, nil, v, "")
}

func (c *TermCtx) F64(f float64) *Term {
	if f != f {
		return c.mk(OConst, FP(64), nil, nil, nil, 0x7FF8000000000001, "")
	}
	return c.mk(OConst, FP(64), nil, nil, nil, math.Float64bits(f), "")
}
func (c *TermCtx) F32(f float32) *Term {
	if f != f {
		return c.mk(OConst, FP(32), nil, nil, nil, 0x7FC00000, "")
	}
	return c.mk(OConst, FP(32), nil, nil, nil, uint64(math.Float32bits(f)), "")
}

func (c *TermCtx) constOf(s Sort, v uint64) *Term {
	switch s.k {
	case 0:
		return c.Bool(v != 0)
	case 1:
		return c.Const(v, int(s.w))
	}
	if s.w == 32 {
		return c.F32(math.Float32frombits(uint32(v)))
	}
	return c.F64(math.Float64frombits(v))
}

func (c *TermCtx) Var(name string, s Sort) *Term {
	return c.mk(OVar, s, nil, nil, nil, 0, name)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort.k == 0 && t.v == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort.k == 0 && t.v == 0 }

// ---- Boolean constructors

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.v == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(ONot, SBool, a, nil, nil, 0, "")
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.F
	}
	return c.mk(OAnd, SBool, a, b, nil, 0, "")
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.T
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.T
	}
	return c.mk(OOr, SBool, a, b, nil, 0, "")
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v", a.sort, b.sort))
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.v == b.v)
	}
	if a.sort.k == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && a.sort.k == 1 {
		switch a.op {
		case OIte:
			if a.b.op == OConst && a.c.op == OConst {
				x, y := a.b.v == b.v, a.c.v == b.v
				switch {
				case x && y:
					return c.T
				case x:
					return a.a
				case y:
					return c.Not(a.a)
				default:
					return c.F
				}
			}
			if a.c.op == OConst && a.c.v != b.v {
				return c.And(a.a, c.Eq(a.b, b))
			}
			if a.b.op == OConst && a.b.v != b.v {
				return c.And(c.Not(a.a), c.Eq(a.c, b))
			}
		case OZExt:
			if b.v > mask(int(a.a.sort.w)) {
				return c.F
			}
			return c.Eq(a.a, c.Const(b.v, int(a.a.sort.w)))
		case OSExt:
			w := int(a.a.sort.w)
			lo := b.v & mask(w)
			if uint64(sext(lo, w))&mask(int(a.sort.w)) != b.v {
				return c.F
			}
			return c.Eq(a.a, c.Const(lo, w))
		case OAdd:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(b.v-a.b.v, int(a.sort.w)))
			}
		case OBXor:
			if a.b.op == OConst {
				return c.Eq(a.a, c.Const(b.v^a.b.v, int(a.sort.w)))
			}
		}
	}
	if a.op == OConst || (b.op != OConst && a.id > b.id) {
		a, b = b, a
	}
	// x + k == x
	if a.sort.k == 1 {
		if a.op == OAdd && a.b.op == OConst && a.a == b {
			return c.F
		}
		if b.op == OAdd && b.b.op == OConst && b.a == a {
			return c.F
		}
		if a.op == OAdd && b.op == OAdd && a.b.op == OConst && b.b.op == OConst && a.a == b.a {
			return c.Bool(a.b.v == b.b.v)
		}
		if a.op == b.op && (a.op == OZExt || a.op == OSExt) && a.a.sort == b.a.sort {
			return c.Eq(a.a, b.a)
		}
	}
	return c.mk(OEq, SBool, a, b, nil, 0, "")
}

func (c *TermCtx) Ite(g, a, b *Term) *Term {
	if g.op == OConst {
		if g.v == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.sort != b.sort {
		panic("ite sort mismatch")
	}
	if a.sort.k == 0 {
		if a.isTrue() {
			return c.Or(g, b)
		}
		if a.isFalse() {
			return c.And(c.Not(g), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.isFalse() {
			return c.And(g, a)
		}
	}
	if g.op == ONot {
		return c.Ite(g.a, b, a)
	}
	if b.op == OIte && b.a == g {
		return c.Ite(g, a, b.c)
	}
	if a.op == OIte && a.a == g {
		return c.Ite(g, a.b, b)
	}
	return c.mk(OIte, a.sort, g, a, b, 0, "")
}

// ---- Bit-vector constructors

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	w := int(a.sort.w)
	if a.op == OConst && b.op == OConst {
		v, s := evalBin(op, a.v, b.v, w)
		return c.constOf(s, v)
	}
	switch op {
	case OAdd:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			if b.v == 0 {
				return a
			}
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, a.a, c.Const(a.b.v+b.v, w))
			}
			if a.op == OSub && a.a.op == OConst {
				return c.Bin(OSub, c.Const(a.a.v+b.v, w), a.b)
			}
		} else {
			// a + (x - a) = x
			if b.op == OSub && b.b == a {
				return b.a
			}
			if a.op == OSub && a.b == b {
				return a.a
			}
			// (x + k) + y -> (x+y)+k
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, c.Bin(OAdd, a.a, b), a.b)
			}
			if b.op == OAdd && b.b.op == OConst {
				return c.Bin(OAdd, c.Bin(OAdd, a, b.a), b.b)
			}
			if b.op == ONeg {
				return c.Bin(OSub, a, b.a)
			}
			if a.op == ONeg {
				return c.Bin(OSub, b, a.a)
			}
			if a.id > b.id && !(a.op == OAdd) {
				a, b = b, a
			}
		}
	case OSub:
		if a == b {
			return c.Const(0, w)
		}
		if b.op == OConst {
			return c.Bin(OAdd, a, c.Const(-b.v, w))
		}
		if a.op == OAdd {
			if a.a == b {
				return a.b
			}
			if a.b == b {
				return a.a
			}
			if a.b.op == OConst {
				return c.Bin(OAdd, c.Bin(OSub, a.a, b), a.b)
			}
		}
		if b.op == OAdd {
			if b.a == a {
				return c.Neg(b.b)
			}
			if b.b == a {
				return c.Neg(b.a)
			}
			if b.b.op == OConst {
				return c.Bin(OAdd, c.Bin(OSub, a, b.a), c.Const(-b.b.v, w))
			}
		}
		if a.op == OConst && a.v == 0 {
			return c.Neg(b)
		}
		if a.op == OSub && b.op == OSub && a.b == b.b {
			return c.Bin(OSub, a.a, b.a)
		}
		if b.op == ONeg {
			return c.Bin(OAdd, a, b.a)
		}
	case OMul:
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			switch b.v {
			case 0:
				return b
			case 1:
				return a
			}
			if b.v == mask(w) {
				return c.Neg(a)
			}
		}
	case OUDiv, OSDiv:
		if b.op == OConst && b.v == 1 {
			return a
		}
		if op == OUDiv && b.op == OConst && bits.OnesCount64(b.v) == 1 {
			return c.Bin(OLShr, a, c.Const(uint64(bits.TrailingZeros64(b.v)), w))
		}
		if op == OSDiv && b.op == OConst && sext(b.v, w) > 0 {
			if bits.OnesCount64(b.v) == 1 {
				neg := c.Bin(OSlt, a, c.Const(0, w))
				x := c.Bin(OAdd, a, c.Ite(neg, c.Const(b.v-1, w), c.Const(0, w)))
				return c.Bin(OAShr, x, c.Const(uint64(bits.TrailingZeros64(b.v)), w))
			}
			if n := max(c.sbits(a), c.sbits(b)) + 2; n < w-4 {
				return c.SExt(c.Bin(OSDiv, c.Extract(a, n-1, 0), c.Const(b.v, n)), w)
			}
		}
	case OURem:
		if b.op == OConst && bits.OnesCount64(b.v) == 1 {
			return c.Bin(OBAnd, a, c.Const(b.v-1, w))
		}
	case OSRem:
		if b.op == OConst && b.v == 1 {
			return c.Const(0, w)
		}
	case OBAnd:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.v == 0 {
				return b
			}
			if b.v == mask(w) {
				return a
			}
			if a.op == OZExt && b.v&mask(int(a.a.sort.w)) == mask(int(a.a.sort.w)) {
				return a
			}
		}
	case OBOr:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.op == OConst {
			if b.v == 0 {
				return a
			}
			if b.v == mask(w) {
				return b
			}
		}
	case OBXor:
		if a.op == OConst {
			a, b = b, a
		}
		if a == b {
			return c.Const(0, w)
		}
		if b.op == OConst && b.v == 0 {
			return a
		}
	case OShl, OLShr, OAShr:
		if b.op == OConst {
			if b.v == 0 {
				return a
			}
			if b.v >= uint64(w) && op != OAShr {
				return c.Const(0, w)
			}
		}
		if a.op == OConst && a.v == 0 {
			return a
		}
	case OUlt:
		if a == b {
			return c.F
		}
		if b.op == OConst && b.v == 0 {
			return c.F
		}
		if a.op == OZExt && b.op == OConst {
			m := mask(int(a.a.sort.w))
			if b.v > m {
				return c.T
			}
			return c.Bin(OUlt, a.a, c.Const(b.v, int(a.a.sort.w)))
		}
		if b.op == OZExt && a.op == OConst {
			m := mask(int(b.a.sort.w))
			if a.v >= m {
				return c.F
			}
			return c.Bin(OUlt, c.Const(a.v, int(b.a.sort.w)), b.a)
		}
	case OUle:
		if a == b {
			return c.T
		}
		if a.op == OConst && a.v == 0 {
			return c.T
		}
		if b.op == OConst && b.v == mask(w) {
			return c.T
		}
		if a.op == OZExt && b.op == OConst {
			m := mask(int(a.a.sort.w))
			if b.v >= m {
				return c.T
			}
			return c.Bin(OUle, a.a, c.Const(b.v, int(a.a.sort.w)))
		}
		if b.op == OZExt && a.op == OConst {
			m := mask(int(b.a.sort.w))
			if a.v > m {
				return c.F
			}
			return c.Bin(OUle, c.Const(a.v, int(b.a.sort.w)), b.a)
		}
	case OSlt, OSle:
		if a == b {
			return c.Bool(op == OSle)
		}
		// comparisons of zero-extended values against non-negative constants
		if a.op == OZExt && b.op == OConst && sext(b.v, w) >= 0 {
			u := OUlt
			if op == OSle {
				u = OUle
			}
			return c.Bin(u, a, b)
		}
		if a.op == OZExt && b.op == OConst && sext(b.v, w) < 0 {
			return c.F
		}
		if b.op == OZExt && a.op == OConst && sext(a.v, w) >= 0 {
			u := OUlt
			if op == OSle {
				u = OUle
			}
			return c.Bin(u, a, b)
		}
		if b.op == OZExt && a.op == OConst && sext(a.v, w) < 0 {
			return c.T
		}
		if a.op == OZExt && b.op == OZExt && a.a.sort == b.a.sort {
			u := OUlt
			if op == OSle {
				u = OUle
			}
			return c.Bin(u, a.a, b.a)
		}
		if b.op == OConst && op == OSlt && sext(b.v, w) == minS(w) {
			return c.F
		}
		if a.op == OConst && op == OSle && sext(a.v, w) == minS(w) {
			return c.T
		}
	}
	s := a.sort
	switch op {
	case OUlt, OUle, OSlt, OSle:
		s = SBool
	}
	return c.mk(op, s, a, b, nil, 0, "")
}

func minS(w int) int64 { return sext(uint64(1)<<uint(w-1), w) }

func evalBin(op Op, a, b uint64, w int) (uint64, Sort) {
	m := mask(w)
	bv := BV(w)
	switch op {
	case OAdd:
		return (a + b) & m, bv
	case OSub:
		return (a - b) & m, bv
	case OMul:
		return (a * b) & m, bv
	case OUDiv:
		if b == 0 {
			return m, bv
		}
		return a / b, bv
	case OURem:
		if b == 0 {
			return a, bv
		}
		return a % b, bv
	case OSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1, bv
			}
			return m, bv
		}
		if y == -1 {
			return uint64(-x) & m, bv
		}
		return uint64(x/y) & m, bv
	case OSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a, bv
		}
		if y == -1 {
			return 0, bv
		}
		return uint64(x%y) & m, bv
	case OBAnd:
		return a & b, bv
	case OBOr:
		return a | b, bv
	case OBXor:
		return a ^ b, bv
	case OShl:
		if b >= uint64(w) {
			return 0, bv
		}
		return (a << b) & m, bv
	case OLShr:
		if b >= uint64(w) {
			return 0, bv
		}
		return a >> b, bv
	case OAShr:
		x := sext(a, w)
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(x>>b) & m, bv
	case OUlt:
		return b2u(a < b), SBool
	case OUle:
		return b2u(a <= b), SBool
	case OSlt:
		return b2u(sext(a, w) < sext(b, w)), SBool
	case OSle:
		return b2u(sext(a, w) <= sext(b, w)), SBool
	}
	panic("evalBin op " + strconv.Itoa(int(op)))
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.op == OConst {
		return c.Const(-a.v, int(a.sort.w))
	}
	if a.op == ONeg {
		return a.a
	}
	if a.op == OSub {
		return c.Bin(OSub, a.b, a.a)
	}
	return c.mk(ONeg, a.sort, a, nil, nil, 0, "")
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.op == OConst {
		return c.Const(^a.v, int(a.sort.w))
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(OBNot, a.sort, a, nil, nil, 0, "")
}

func (c *TermCtx) Extract(a *Term, hi, lo int) *Term {
	w := hi - lo + 1
	if a.op == OConst {
		return c.Const(a.v>>uint(lo), w)
	}
	if lo == 0 && w == int(a.sort.w) {
		return a
	}
	if (a.op == OZExt || a.op == OSExt) && lo == 0 {
		iw := int(a.a.sort.w)
		if w == iw {
			return a.a
		}
		if w < iw {
			return c.Extract(a.a, hi, lo)
		}
		if a.op == OZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	}
	if a.op == OZExt && lo >= int(a.a.sort.w) {
		return c.Const(0, w)
	}
	if a.op == OExtract {
		l2 := int(a.v & 255)
		return c.Extract(a.a, hi+l2, lo+l2)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.c, hi, lo))
	}
	return c.mk(OExtract, BV(w), a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

func (c *TermCtx) ZExt(a *Term, w int) *Term {
	if int(a.sort.w) == w {
		return a
	}
	if a.op == OConst {
		return c.Const(a.v, w)
	}
	if a.op == OZExt {
		return c.ZExt(a.a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.ZExt(a.b, w), c.ZExt(a.c, w))
	}
	return c.mk(OZExt, BV(w), a, nil, nil, 0, "")
}

func (c *TermCtx) SExt(a *Term, w int) *Term {
	if int(a.sort.w) == w {
		return a
	}
	if a.op == OConst {
		return c.Const(uint64(sext(a.v, int(a.sort.w))), w)
	}
	if a.op == OZExt {
		return c.ZExt(a.a, w)
	}
	if a.op == OSExt {
		return c.SExt(a.a, w)
	}
	if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
		return c.Ite(a.a, c.SExt(a.b, w), c.SExt(a.c, w))
	}
	return c.mk(OSExt, BV(w), a, nil, nil, 0, "")
}

// Resize converts between integer widths.
func (c *TermCtx) Resize(a *Term, w int, signed bool) *Term {
	aw := int(a.sort.w)
	switch {
	case aw == w:
		return a
	case aw > w:
		return c.Extract(a, w-1, 0)
	case signed:
		return c.SExt(a, w)
	default:
		return c.ZExt(a, w)
	}
}

// ---- Floating point

func fpv(v uint64, w int) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}

func fpb(f float64, w int) uint64 {
	if f != f {
		if w == 32 {
			return 0x7FC00000
		}
		return 0x7FF8000000000001
	}
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalFBin(op Op, a, b uint64, w int) uint64 {
	if w == 32 {
		x, y := math.Float32frombits(uint32(a)), math.Float32frombits(uint32(b))
		var r float32
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		case OFDiv:
			r = x / y
		case OFLt:
			return b2u(x < y)
		case OFLe:
			return b2u(x <= y)
		case OFEq:
			return b2u(x == y)
		}
		return fpb(float64(r), 32)
	}
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	var r float64
	switch op {
	case OFAdd:
		r = x + y
	case OFSub:
		r = x - y
	case OFMul:
		r = x * y
	case OFDiv:
		r = x / y
	case OFLt:
		return b2u(x < y)
	case OFLe:
		return b2u(x <= y)
	case OFEq:
		return b2u(x == y)
	}
	return fpb(r, 64)
}

// exactInt reports whether t is the conversion of an integer small enough for the
// conversion to be exact, returning the integer term (sign-extended to 64 bits).
func (c *TermCtx) exactInt(t *Term) (*Term, bool) {
	prec := 53
	if t.sort.w == 32 {
		prec = 24
	}
	switch t.op {
	case OConst:
		f := fpv(t.v, int(t.sort.w))
		if f == math.Trunc(f) && math.Abs(f) < float64(int64(1)<<uint(prec)) && !(f == 0 && math.Signbit(f)) {
			return c.Const(uint64(int64(f)), 64), true
		}
	case OSItoF:
		if c.sbits(t.a) <= prec {
			return c.SExt(t.a, 64), true
		}
	case OUItoF:
		if c.ubits(t.a) <= prec {
			return c.ZExt(t.a, 64), true
		}
	case OFtoF:
		if t.sort.w == 64 {
			return c.exactInt(t.a)
		}
		if t.a.op == OSItoF && c.sbits(t.a.a) <= 24 {
			return c.SExt(t.a.a, 64), true
		}
	case OIte:
		if x, ok := c.exactInt(t.b); ok {
			if y, ok := c.exactInt(t.c); ok {
				return c.Ite(t.a, x, y), true
			}
		}
	}
	return nil, false
}

// exactDy reports whether t is n*2^-s for an integer term n (64 bits, magnitude
// below 2^bits with bits within the precision), so that float arithmetic on it
// is exact as long as the precision suffices. Zeros are all positive.
func (c *TermCtx) exactDy(t *Term) (n *Term, bits_ int, s int, ok bool) {
	if t.op == OConst {
		f := fpv(t.v, int(t.sort.w))
		if f != f || math.IsInf(f, 0) || (f == 0 && math.Signbit(f)) {
			return nil, 0, 0, false
		}
		for s = 0; s < 40; s++ {
			if f == math.Trunc(f) {
				break
			}
			f *= 2
		}
		if f != math.Trunc(f) || math.Abs(f) >= 1<<24 {
			return nil, 0, 0, false
		}
		n = c.Const(uint64(int64(f)), 64)
		return n, c.sbits(n), s, true
	}
	if x, ok := c.exactInt(t); ok {
		b := c.sbits(x)
		if b <= 53 {
			return x, b, 0, true
		}
		return nil, 0, 0, false
	}
	if t.op == OFtoF && t.sort.w == 64 {
		return c.exactDy(t.a)
	}
	if t.op == OFMul && t.b.op == OConst {
		f := fpv(t.b.v, int(t.b.sort.w))
		fr, e := math.Frexp(f)
		if fr == 0.5 && e <= 0 && e > -40 {
			if x, ok := c.exactInt(t.a); ok {
				return x, c.sbits(x), 1 - e, true
			}
		}
	}
	return nil, 0, 0, false
}

// mkDy builds the float n*2^-s (n of at most prec significant bits).
func (c *TermCtx) mkDy(n *Term, s int, w int) *Term {
	f := c.ItoF(n, w, true)
	if s == 0 {
		return f
	}
	k := c.constOf(FP(w), fpb(math.Ldexp(1, -s), w))
	if f.op == OConst {
		return c.constOf(FP(w), evalFBin(OFMul, f.v, k.v, w))
	}
	return c.mk(OFMul, FP(w), f, k, nil, 0, "")
}

// dyArith folds exact arithmetic.
func (c *TermCtx) dyArith(op Op, a, b *Term) *Term {
	w := int(a.sort.w)
	prec := 53
	if w == 32 {
		prec = 24
	}
	x, xb, xs, ok := c.exactDy(a)
	if !ok {
		return nil
	}
	y, yb, ys, ok := c.exactDy(b)
	if !ok {
		return nil
	}
	switch op {
	case OFAdd, OFSub:
		s := max(xs, ys)
		if max(xb+s-xs, yb+s-ys)+1 > prec {
			return nil
		}
		if s > xs {
			x = c.Bin(OMul, x, c.Const(1<<uint(s-xs), 64))
		}
		if s > ys {
			y = c.Bin(OMul, y, c.Const(1<<uint(s-ys), 64))
		}
		o := OAdd
		if op == OFSub {
			o = OSub
		}
		return c.mkDy(c.Bin(o, x, y), s, w)
	case OFMul:
		if a.op == OConst {
			a, b, x, y, xb, yb, xs, ys = b, a, y, x, yb, xb, ys, xs
		}
		if b.op != OConst || sext(y.v, 64) <= 0 || xb+yb > prec || xs+ys >= 40 {
			return nil
		}
		s := xs + ys
		k := y.v
		for s > 0 && k%2 == 0 {
			k, s = k/2, s-1
		}
		return c.mkDy(c.Bin(OMul, x, c.Const(k, 64)), s, w)
	case OFDiv:
		if b.op != OConst || ys != 0 || sext(y.v, 64) <= 0 || y.v&(y.v-1) != 0 {
			return nil
		}
		s := xs + bits.Len64(y.v) - 1
		if s >= 40 {
			return nil
		}
		return c.mkDy(x, s, w)
	case OFLt, OFLe, OFEq:
		s := max(xs, ys)
		if max(xb+s-xs, yb+s-ys)+1 > 62 {
			return nil
		}
		if s > xs {
			x = c.Bin(OMul, x, c.Const(1<<uint(s-xs), 64))
		}
		if s > ys {
			y = c.Bin(OMul, y, c.Const(1<<uint(s-ys), 64))
		}
		switch op {
		case OFLt:
			return c.Bin(OSlt, x, y)
		case OFLe:
			return c.Bin(OSle, x, y)
		}
		return c.Eq(x, y)
	}
	return nil
}

// sbits: number of significant bits of the magnitude of a signed value.
func (c *TermCtx) sbits(t *Term) int {
	switch t.op {
	case OAdd, OSub:
		if n := max(c.sbits(t.a), c.sbits(t.b)) + 1; n < int(t.sort.w)-1 {
			return n
		}
	case OAShr:
		if t.b.op == OConst && t.b.v < 64 {
			return min(int(t.sort.w), max(1, c.sbits(t.a)-int(t.b.v))+1)
		}
	case OSDiv:
		return min(int(t.sort.w), c.sbits(t.a)+1)
	case OMul:
		if n := c.sbits(t.a) + c.sbits(t.b); n < int(t.sort.w)-1 {
			return n
		}
	case OConst:
		v := sext(t.v, int(t.sort.w))
		if v < 0 {
			v = -v
		}
		return bits.Len64(uint64(v))
	case OSExt:
		return c.sbits(t.a)
	case OZExt:
		return c.ubits(t.a)
	case OIte:
		return max(c.sbits(t.b), c.sbits(t.c))
	}
	return int(t.sort.w)
}

func (c *TermCtx) ubits(t *Term) int {
	switch t.op {
	case OConst:
		return bits.Len64(t.v)
	case OZExt:
		return c.ubits(t.a)
	case OIte:
		return max(c.ubits(t.b), c.ubits(t.c))
	}
	return int(t.sort.w)
}

func (c *TermCtx) FBin(op Op, a, b *Term) *Term {
	w := int(a.sort.w)
	rel := op == OFLt || op == OFLe || op == OFEq
	if a.op == OConst && b.op == OConst {
		r := evalFBin(op, a.v, b.v, w)
		if rel {
			return c.Bool(r != 0)
		}
		return c.constOf(a.sort, r)
	}
	if rel {
		if x, ok := c.exactInt(a); ok {
			if y, ok := c.exactInt(b); ok {
				switch op {
				case OFLt:
					return c.Bin(OSlt, x, y)
				case OFLe:
					return c.Bin(OSle, x, y)
				default:
					return c.Eq(x, y)
				}
			}
		}
		if r := c.dyArith(op, a, b); r != nil {
			return r
		}
		if op == OFEq && a == b {
			return c.Not(c.FNaN(a))
		}
		if op == OFEq && a.id > b.id {
			a, b = b, a
		}
		raw := c.mk(op, SBool, a, b, nil, 0, "")
		// conversions are monotone: give the solver the fact on the operands
		if a.op == b.op && a.a != nil && b.a != nil && a.a.sort == b.a.sort {
			switch a.op {
			case OSItoF:
				switch op {
				case OFLt:
					return c.And(c.Bin(OSlt, a.a, b.a), raw)
				case OFLe:
					return c.Or(c.Bin(OSle, a.a, b.a), raw)
				default:
					return c.Or(c.Eq(a.a, b.a), raw)
				}
			case OFtoF:
				switch op {
				case OFLt:
					return c.And(c.FBin(OFLt, a.a, b.a), raw)
				case OFLe:
					return c.Or(c.FBin(OFLe, a.a, b.a), raw)
				default:
					return c.Or(c.FBin(OFEq, a.a, b.a), raw)
				}
			}
		}
		return raw
	}
	if r := c.dyArith(op, a, b); r != nil {
		return r
	}
	if op == OFMul && a.op == OConst {
		a, b = b, a
	}
	if op == OFAdd || op == OFSub {
		// finite*0 is a zero of some sign; adding it to a positive zero or a
		// nonzero number changes nothing
		for i, t := range []*Term{b, a} {
			if t.op == OFMul && t.b.op == OConst && fpv(t.b.v, w) == 0 && (op == OFAdd || i == 0) {
				o := a
				if i == 1 {
					o = b
				}
				_, _, _, ok1 := c.exactDy(o)
				_, _, _, ok2 := c.exactDy(t.a)
				if ok1 && ok2 {
					return o
				}
			}
		}
	}
	if (op == OFMul || op == OFDiv) && b.op == OConst && fpv(b.v, w) == 1 {
		return a // NaN payloads aside
	}
	return c.mk(op, a.sort, a, b, nil, 0, "")
}

func (c *TermCtx) FNeg(a *Term) *Term {
	if a.op == OConst {
		return c.constOf(a.sort, fpb(-fpv(a.v, int(a.sort.w)), int(a.sort.w)))
	}
	return c.mk(OFNeg, a.sort, a, nil, nil, 0, "")
}

func (c *TermCtx) FNaN(a *Term) *Term {
	if a.op == OConst {
		f := fpv(a.v, int(a.sort.w))
		return c.Bool(f != f)
	}
	if a.op == OSItoF || a.op == OUItoF {
		return c.F
	}
	if a.op == OFtoF {
		return c.FNaN(a.a)
	}
	if _, _, _, ok := c.exactDy(a); ok {
		return c.F
	}
	if a.op == OIte {
		x, y := c.FNaN(a.b), c.FNaN(a.c)
		if x == y {
			return x
		}
	}
	return c.mk(OFNaN, SBool, a, nil, nil, 0, "")
}

func (c *TermCtx) FtoF(a *Term, w int) *Term {
	if int(a.sort.w) == w {
		return a
	}
	if a.op == OConst {
		return c.constOf(FP(w), fpb(fpv(a.v, int(a.sort.w)), w))
	}
	if a.op == OFtoF && w == 32 && int(a.a.sort.w) == 32 {
		return a.a
	}
	if a.op == OFMul || a.op == OSItoF {
		if x, b, s, ok := c.exactDy(a); ok && (w == 64 || b <= 24) {
			return c.mkDy(x, s, w)
		}
	}
	return c.mk(OFtoF, FP(w), a, nil, nil, 0, "")
}

func (c *TermCtx) ItoF(a *Term, w int, signed bool) *Term {
	if a.op == OConst {
		return c.constOf(FP(w), evalItoF(a.v, int(a.sort.w), w, signed))
	}
	op := OUItoF
	if signed {
		op = OSItoF
		if a.op == OZExt {
			op = OUItoF
		}
	}
	if op == OUItoF && a.op == OZExt {
		a = a.a
	}
	if op == OSItoF && a.op == OSExt {
		a = a.a
	}
	return c.mk(op, FP(w), a, nil, nil, 0, "")
}

func evalItoF(v uint64, iw, fw int, signed bool) uint64 {
	if signed {
		s := sext(v, iw)
		if fw == 32 {
			return uint64(math.Float32bits(float32(s)))
		}
		return math.Float64bits(float64(s))
	}
	if fw == 32 {
		return uint64(math.Float32bits(float32(v)))
	}
	return math.Float64bits(float64(v))
}

// FtoSI converts to a signed integer of width w, truncating.
func (c *TermCtx) FtoSI(a *Term, w int) *Term {
	if a.op == OConst {
		return c.Const(evalFtoSI(a.v, int(a.sort.w), w), w)
	}
	if x, ok := c.exactInt(a); ok {
		return c.Resize(x, w, true)
	}
	if a.op == OFDiv && a.b.op == OConst {
		// rounding x/k never reaches the next whole number while |x|+k is within the precision
		prec := 53
		if a.sort.w == 32 {
			prec = 24
		}
		if x, ok := c.exactInt(a.a); ok {
			if k, ok := c.exactInt(a.b); ok && sext(k.v, 64) > 0 && c.sbits(x) < prec-1 && k.v < 1<<uint(prec-2) {
				return c.Resize(c.Bin(OSDiv, x, k), w, true)
			}
		}
	}
	if x, b, s, ok := c.exactDy(a); ok && b+1 < 62 {
		neg := c.Bin(OSlt, x, c.Const(0, 64))
		x = c.Bin(OAdd, x, c.Ite(neg, c.Const(1<<uint(s)-1, 64), c.Const(0, 64)))
		return c.Resize(c.Bin(OAShr, x, c.Const(uint64(s), 64)), w, true)
	}
	return c.mk(OFtoSI, BV(w), a, nil, nil, 0, "")
}

func evalFtoSI(v uint64, fw, w int) uint64 {
	f := fpv(v, fw)
	// amd64: conversion goes through int64 (cvttsd2sq), then truncation
	var r int64
	if f != f || f >= 9223372036854775808.0 || f < -9223372036854775808.0 {
		r = math.MinInt64
	} else {
		r = int64(f)
	}
	return uint64(r) & mask(w)
}

func (c *TermCtx) BitsF(a *Term) *Term {
	if a.op == OConst {
		return c.constOf(FP(int(a.sort.w)), a.v)
	}
	return c.mk(OBitsF, FP(int(a.sort.w)), a, nil, nil, 0, "")
}

// ---- evaluation under a model

type Model map[string]uint64

func (c *TermCtx) newEval() {
	c.evalGen++
	if int(c.next) > len(c.evalMemo) {
		n := make([]evalEnt, int(c.next)*2)
		copy(n, c.evalMemo)
		c.evalMemo = n
	}
}

func (c *TermCtx) Eval(t *Term, m Model) uint64 {
	c.newEval()
	return c.ev(t, m)
}

func (c *TermCtx) ev(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.v
	}
	if t.op == OVar {
		return m[t.name] & mask(int(t.sort.w))
	}
	e := &c.evalMemo[t.id]
	if e.gen == c.evalGen {
		return e.v
	}
	var r uint64
	w := int(t.sort.w)
	switch t.op {
	case ONot:
		r = 1 - c.ev(t.a, m)
	case OAnd:
		r = c.ev(t.a, m)
		if r != 0 {
			r = c.ev(t.b, m)
		}
	case OOr:
		r = c.ev(t.a, m)
		if r == 0 {
			r = c.ev(t.b, m)
		}
	case OXorB:
		r = c.ev(t.a, m) ^ c.ev(t.b, m)
	case OEq:
		x, y := c.ev(t.a, m), c.ev(t.b, m)
		if t.a.sort.k == 2 {
			fx, fy := fpv(x, int(t.a.sort.w)), fpv(y, int(t.a.sort.w))
			r = b2u(x == y || (fx != fx && fy != fy))
		} else {
			r = b2u(x == y)
		}
	case OIte:
		if c.ev(t.a, m) != 0 {
			r = c.ev(t.b, m)
		} else {
			r = c.ev(t.c, m)
		}
	case OExtract:
		r = (c.ev(t.a, m) >> (t.v & 255)) & mask(w)
	case OZExt:
		r = c.ev(t.a, m)
	case OSExt:
		r = uint64(sext(c.ev(t.a, m), int(t.a.sort.w))) & mask(w)
	case OConcat:
		r = c.ev(t.a, m)<<uint(t.b.sort.w) | c.ev(t.b, m)
	case OBNot:
		r = ^c.ev(t.a, m) & mask(w)
	case ONeg:
		r = -c.ev(t.a, m) & mask(w)
	case OFAdd, OFSub, OFMul, OFDiv, OFLt, OFLe, OFEq:
		r = evalFBin(t.op, c.ev(t.a, m), c.ev(t.b, m), int(t.a.sort.w))
	case OFNeg:
		r = fpb(-fpv(c.ev(t.a, m), w), w)
	case OFNaN:
		f := fpv(c.ev(t.a, m), int(t.a.sort.w))
		r = b2u(f != f)
	case OFtoF:
		r = fpb(fpv(c.ev(t.a, m), int(t.a.sort.w)), w)
	case OSItoF:
		r = evalItoF(c.ev(t.a, m), int(t.a.sort.w), w, true)
	case OUItoF:
		r = evalItoF(c.ev(t.a, m), int(t.a.sort.w), w, false)
	case OFtoSI:
		r = evalFtoSI(c.ev(t.a, m), int(t.a.sort.w), w)
	case OBitsF:
		r = fpb(fpv(c.ev(t.a, m), w), w)
	default:
		r, _ = evalBin(t.op, c.ev(t.a, m), c.ev(t.b, m), int(t.a.sort.w))
	}
	e = &c.evalMemo[t.id]
	e.gen, e.v = c.evalGen, r
	return r
}

// ---- SMT-LIB printing of one node (children referenced by ref)

func smtConst(t *Term) string {
	switch t.sort.k {
	case 0:
		if t.v == 1 {
			return "true"
		}
		return "false"
	case 1:
		return fmt.Sprintf("(_ bv%d %d)", t.v, t.sort.w)
	}
	if t.sort.w == 32 {
		return fmt.Sprintf("((_ to_fp 8 24) (_ bv%d 32))", t.v)
	}
	return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.v)
}

func fpParams(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func smtNode(t *Term, ref func(*Term) string) string {
	switch t.op {
	case OConst:
		return smtConst(t)
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.v>>8, t.v&255, ref(t.a))
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.sort.w-t.a.sort.w, ref(t.a))
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.sort.w-t.a.sort.w, ref(t.a))
	case OFtoF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpParams(t.sort.w), ref(t.a))
	case OSItoF:
		return fmt.Sprintf("((_ to_fp %s) RNE %s)", fpParams(t.sort.w), ref(t.a))
	case OUItoF:
		return fmt.Sprintf("((_ to_fp_unsigned %s) RNE %s)", fpParams(t.sort.w), ref(t.a))
	case OBitsF:
		return fmt.Sprintf("((_ to_fp %s) %s)", fpParams(t.sort.w), ref(t.a))
	case OFtoSI:
		a := ref(t.a)
		// in range of int64 -> fp.to_sbv, else indefinite integer; truncated to width
		var lo, hi string
		if t.a.sort.w == 64 {
			lo = fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", math.Float64bits(-9223372036854775808.0))
			hi = fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", math.Float64bits(9223372036854775808.0))
		} else {
			lo = fmt.Sprintf("((_ to_fp 8 24) (_ bv%d 32))", math.Float32bits(-9223372036854775808.0))
			hi = fmt.Sprintf("((_ to_fp 8 24) (_ bv%d 32))", math.Float32bits(9223372036854775808.0))
		}
		s := fmt.Sprintf("(ite (and (fp.leq %s %s) (fp.lt %s %s)) ((_ fp.to_sbv 64) RTZ %s) (_ bv9223372036854775808 64))", lo, a, a, hi, a)
		if t.sort.w < 64 {
			s = fmt.Sprintf("((_ extract %d 0) %s)", t.sort.w-1, s)
		}
		return s
	}
	n, ok := opNames[t.op]
	if !ok {
		panic("smtNode: op " + strconv.Itoa(int(t.op)))
	}
	s := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + ref(x)
		}
	}
	return s + ")"
}

func (t *Term) String() string {
	return t.str(6)
}

func (t *Term) str(d int) string {
	if t.op == OVar {
		return t.name
	}
	if t.op == OConst {
		if t.sort.k == 2 {
			return fmt.Sprint(fpv(t.v, int(t.sort.w)))
		}
		if t.sort.k == 0 {
			return fmt.Sprint(t.v == 1)
		}
		return fmt.Sprint(sext(t.v, int(t.sort.w)))
	}
	if d == 0 {
		return "…"
	}
	return smtNode(t, func(x *Term) string { return x.str(d - 1) })
}
