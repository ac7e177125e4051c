package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms: hash-consed bit-vector / boolean / float64 expressions.

type Op uint8

const (
	OConst Op = iota
	OVar
	OSel // select from an SMT array variable: name=array, a0=index(64)
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	ONot // bvnot
	ONeg
	OShl
	OLshr
	OAshr
	OZext
	OSext
	OExtract // c = lo, w = width
	OIte
	OEq
	OUlt
	OSlt
	OBNot
	OBAnd
	OBOr
	OFConst // float64 const, c = bits
	OFFromU
	OFFromS
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFLt
	OFEq
	OFToS // float -> signed bv (truncation)
)

const wFP = 200

type Term struct {
	op         Op
	w          uint8 // 0 = Bool, wFP = float64, else bit width
	c          uint64
	a0, a1, a2 *Term
	name       string
	id         int32
	nvars      bool // contains variables
	emitted    int32
	umin, umax uint64
}

type tkey struct {
	op         Op
	w          uint8
	c          uint64
	i0, i1, i2 int32
	name       string
}

type TB struct {
	tab    map[tkey]*Term
	n      int32
	True   *Term
	False  *Term
	vars   []*Term // in creation order
	arrays map[string]bool
	sels   []*Term
}

func NewTB() *TB {
	b := &TB{tab: make(map[tkey]*Term, 1<<14), arrays: map[string]bool{}}
	b.True = b.mk(OConst, 0, 1, nil, nil, nil, "")
	b.False = b.mk(OConst, 0, 0, nil, nil, nil, "")
	return b
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return math.MaxUint64
	}
	return (uint64(1) << w) - 1
}

func (b *TB) mk(op Op, w uint8, c uint64, a0, a1, a2 *Term, name string) *Term {
	k := tkey{op, w, c, tid(a0), tid(a1), tid(a2), name}
	if t, ok := b.tab[k]; ok {
		return t
	}
	b.n++
	t := &Term{op: op, w: w, c: c, a0: a0, a1: a1, a2: a2, name: name, id: b.n}
	t.nvars = op == OVar || op == OSel || (a0 != nil && a0.nvars) || (a1 != nil && a1.nvars) || (a2 != nil && a2.nvars)
	if w != wFP {
		t.umin, t.umax = b.rng(t)
	}
	b.tab[k] = t
	if op == OVar {
		b.vars = append(b.vars, t)
	}
	if op == OSel {
		b.sels = append(b.sels, t)
	}
	return t
}

// rng computes a sound unsigned range.
func (b *TB) rng(t *Term) (uint64, uint64) {
	m := mask(t.w)
	switch t.op {
	case OConst:
		return t.c, t.c
	case OZext:
		return t.a0.umin, t.a0.umax
	case OSext:
		if t.a0.umax < uint64(1)<<(t.a0.w-1) {
			return t.a0.umin, t.a0.umax
		}
	case OAnd:
		x := t.a0.umax
		if t.a1.umax < x {
			x = t.a1.umax
		}
		return 0, x
	case OOr:
		lo := t.a0.umin
		if t.a1.umin > lo {
			lo = t.a1.umin
		}
		n := bits.Len64(t.a0.umax | t.a1.umax)
		return lo, mask(uint8(n)) & m
	case OXor:
		n := bits.Len64(t.a0.umax | t.a1.umax)
		return 0, mask(uint8(n)) & m
	case OAdd:
		hi, c := bits.Add64(t.a0.umax, t.a1.umax, 0)
		if c == 0 && hi <= m {
			return t.a0.umin + t.a1.umin, hi
		}
	case OSub:
		if t.a0.umin >= t.a1.umax {
			return t.a0.umin - t.a1.umax, t.a0.umax - t.a1.umin
		}
	case OMul:
		h, l := bits.Mul64(t.a0.umax, t.a1.umax)
		if h == 0 && l <= m {
			return t.a0.umin * t.a1.umin, l
		}
	case OUDiv:
		if t.a1.umin > 0 {
			return t.a0.umin / t.a1.umax, t.a0.umax / t.a1.umin
		}
	case OURem:
		if t.a1.umin > 0 {
			x := t.a1.umax - 1
			if t.a0.umax < x {
				x = t.a0.umax
			}
			return 0, x
		}
	case OShl:
		if t.a1.op == OConst && t.a1.c < 64 {
			if bits.Len64(t.a0.umax)+int(t.a1.c) <= int(t.w) {
				return t.a0.umin << t.a1.c, t.a0.umax << t.a1.c
			}
		}
	case OLshr:
		if t.a1.op == OConst {
			if t.a1.c >= 64 {
				return 0, 0
			}
			return t.a0.umin >> t.a1.c, t.a0.umax >> t.a1.c
		}
		return 0, t.a0.umax
	case OAshr:
		if t.a0.umax < uint64(1)<<(t.w-1) {
			if t.a1.op == OConst && t.a1.c < 64 {
				return t.a0.umin >> t.a1.c, t.a0.umax >> t.a1.c
			}
			return 0, t.a0.umax
		}
	case OExtract:
		if t.c == 0 && t.a0.umax <= m {
			return t.a0.umin, t.a0.umax
		}
	case OIte:
		if t.w != 0 && t.w != wFP {
			lo, hi := t.a1.umin, t.a1.umax
			if t.a2.umin < lo {
				lo = t.a2.umin
			}
			if t.a2.umax > hi {
				hi = t.a2.umax
			}
			return lo, hi
		}
	}
	if t.w == 0 {
		return 0, 1
	}
	return 0, m
}

func (b *TB) Const(w uint8, c uint64) *Term {
	if w == 0 {
		if c != 0 {
			return b.True
		}
		return b.False
	}
	return b.mk(OConst, w, c&mask(w), nil, nil, nil, "")
}
func (b *TB) Int(i int) *Term { return b.Const(64, uint64(int64(i))) }
func (b *TB) Bool(x bool) *Term {
	if x {
		return b.True
	}
	return b.False
}
func (b *TB) Var(name string, w uint8) *Term { return b.mk(OVar, w, 0, nil, nil, nil, name) }
func (b *TB) Select(arr string, idx *Term) *Term {
	b.arrays[arr] = true
	return b.mk(OSel, 8, 0, idx, nil, nil, arr)
}
func (b *TB) F(f float64) *Term {
	return b.mk(OFConst, wFP, math.Float64bits(f), nil, nil, nil, "")
}

func (t *Term) isConst() bool { return t.op == OConst || t.op == OFConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.c == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.c == 0 }
func (t *Term) sval() int64   { return sext64(t.c, t.w) }
func sext64(c uint64, w uint8) int64 {
	if w >= 64 {
		return int64(c)
	}
	s := 64 - w
	return int64(c<<s) >> s
}

func commut(op Op) bool {
	return op == OAdd || op == OMul || op == OAnd || op == OOr || op == OXor || op == OEq || op == OBAnd || op == OBOr
}

func foldBV(op Op, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		a, d := sext64(x, w), sext64(y, w)
		if d == 0 {
			if a >= 0 {
				return m
			}
			return 1
		}
		if d == -1 {
			return uint64(-a) & m
		}
		return uint64(a/d) & m
	case OSRem:
		a, d := sext64(x, w), sext64(y, w)
		if d == 0 {
			return x
		}
		if d == -1 {
			return 0
		}
		return uint64(a%d) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext64(x, w)>>y) & m
	}
	panic("foldBV")
}

// exactMul gives the constant factor of a product that does not wrap.
func exactMul(x *Term) uint64 {
	if x.op != OMul || x.a1.op != OConst {
		return 0
	}
	if h, l := bits.Mul64(x.a0.umax, x.a1.c); h != 0 || l > mask(x.w) {
		return 0
	}
	return x.a1.c
}

func (b *TB) Bin(op Op, x, y *Term) *Term {
	if x.w != y.w {
		panic(fmt.Sprintf("Bin width mismatch op %d %d %d", op, x.w, y.w))
	}
	w := x.w
	if x.op == OConst && y.op == OConst {
		return b.Const(w, foldBV(op, w, x.c, y.c))
	}
	if commut(op) && (x.op == OConst || (y.op != OConst && x.id > y.id)) {
		x, y = y, x
	}
	m := mask(w)
	switch op {
	case OAdd:
		if y.op == OConst {
			if y.c == 0 {
				return x
			}
			if x.op == OAdd && x.a1.op == OConst {
				return b.Bin(OAdd, x.a0, b.Const(w, x.a1.c+y.c))
			}
			if x.op == OSub && x.a1.op == OConst {
				return b.Bin(OAdd, x.a0, b.Const(w, y.c-x.a1.c))
			}
		}
		// (a - b) + b
		if x.op == OSub && x.a1 == y {
			return x.a0
		}
		if y.op == OSub && y.a1 == x {
			return y.a0
		}
	case OSub:
		if x == y {
			return b.Const(w, 0)
		}
		if y.op == OConst {
			return b.Bin(OAdd, x, b.Const(w, -y.c))
		}
		if x.op == OAdd {
			if x.a0 == y {
				return x.a1
			}
			if x.a1 == y {
				return x.a0
			}
			// (a + c) - (b + d)
			if x.a1.op == OConst && y.op == OAdd && y.a1.op == OConst {
				return b.Bin(OAdd, b.Bin(OSub, x.a0, y.a0), b.Const(w, x.a1.c-y.a1.c))
			}
			if x.a1.op == OConst {
				return b.Bin(OAdd, b.Bin(OSub, x.a0, y), x.a1)
			}
		}
		if y.op == OAdd {
			if y.a0 == x {
				return b.Un(ONeg, y.a1)
			}
			if y.a1 == x {
				return b.Un(ONeg, y.a0)
			}
			if y.a1.op == OConst {
				return b.Bin(OAdd, b.Bin(OSub, x, y.a0), b.Const(w, -y.a1.c))
			}
		}
	case OMul:
		if y.op == OConst {
			if y.c == 0 {
				return y
			}
			if y.c == 1 {
				return x
			}
			if y.c&(y.c-1) == 0 {
				return b.Bin(OShl, x, b.Const(w, uint64(bits.TrailingZeros64(y.c))))
			}
		}
	case OUDiv:
		if y.op == OConst {
			if y.c == 1 {
				return x
			}
			if y.c != 0 && y.c&(y.c-1) == 0 {
				return b.Bin(OLshr, x, b.Const(w, uint64(bits.TrailingZeros64(y.c))))
			}
			if y.c != 0 && x.umax < y.c {
				return b.Const(w, 0)
			}
			if k := exactMul(x); k != 0 && y.c != 0 {
				if k%y.c == 0 {
					return b.Bin(OMul, x.a0, b.Const(w, k/y.c))
				}
				if y.c%k == 0 {
					return b.Bin(OUDiv, x.a0, b.Const(w, y.c/k))
				}
			}
		}
	case OURem:
		if y.op == OConst && y.c != 0 {
			if k := exactMul(x); k != 0 && k%y.c == 0 {
				return b.Const(w, 0)
			}
			if y.c&(y.c-1) == 0 {
				return b.Bin(OAnd, x, b.Const(w, y.c-1))
			}
			if x.umax < y.c {
				return x
			}
		}
	case OSDiv, OSRem:
		if w < 64 || true {
			half := uint64(1) << (w - 1)
			if x.umax < half && y.umax < half {
				if op == OSDiv {
					return b.Bin(OUDiv, x, y)
				}
				return b.Bin(OURem, x, y)
			}
		}
	case OAnd:
		if x == y {
			return x
		}
		if y.op == OConst {
			if y.c == 0 {
				return y
			}
			if y.c == m {
				return x
			}
			if y.c&(y.c+1) == 0 && x.umax <= y.c {
				return x
			}
			if x.op == OAnd && x.a1.op == OConst {
				return b.Bin(OAnd, x.a0, b.Const(w, x.a1.c&y.c))
			}
		}
	case OOr:
		if x == y {
			return x
		}
		if y.op == OConst {
			if y.c == 0 {
				return x
			}
			if y.c == m {
				return y
			}
		}
		if p := b.pieces(x); p != nil {
			if q := b.pieces(y); q != nil {
				if r := joinPieces(p, q); r != nil {
					return b.concat(w, r)
				}
			}
		}
	case OXor:
		if x == y {
			return b.Const(w, 0)
		}
		if y.op == OConst && y.c == 0 {
			return x
		}
	case OShl, OLshr, OAshr:
		if y.op == OConst {
			if y.c == 0 {
				return x
			}
			if y.c >= uint64(w) && op != OAshr {
				return b.Const(w, 0)
			}
		}
		if x.op == OConst && x.c == 0 {
			return x
		}
		if y.op == OConst && y.c < 64 && op != OAshr {
			if p := b.pieces(x); p != nil {
				d := int(y.c)
				if op == OLshr {
					d = -d
				}
				if r := b.shiftPieces(p, d, w); r != nil && !(len(r) == 1 && len(p) == 1 && op == OShl && p[0].s == 0) {
					return b.concat(w, r)
				}
			}
		}
		if op == OAshr && x.umax < uint64(1)<<(w-1) {
			return b.Bin(OLshr, x, y)
		}
		if op == OLshr && y.op == OConst && y.c < 64 && x.umax>>y.c == 0 {
			return b.Const(w, 0)
		}
	}
	return b.mk(op, w, 0, x, y, nil, "")
}

func (b *TB) Un(op Op, x *Term) *Term {
	if x.op == OConst {
		if op == ONot {
			return b.Const(x.w, ^x.c)
		}
		return b.Const(x.w, -x.c)
	}
	if x.op == op {
		return x.a0
	}
	return b.mk(op, x.w, 0, x, nil, nil, "")
}

func (b *TB) Zext(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		return b.Extract(x, 0, w)
	}
	if x.op == OConst {
		return b.Const(w, x.c)
	}
	if x.op == OZext {
		return b.Zext(x.a0, w)
	}
	if x.op == OOr || x.op == OShl {
		if p := b.pieces(x); p != nil {
			return b.concat(w, p)
		}
	}
	if x.op == OIte && x.a1.op == OConst && x.a2.op == OConst {
		return b.Ite(x.a0, b.Const(w, x.a1.c), b.Const(w, x.a2.c))
	}
	return b.mk(OZext, w, 0, x, nil, nil, "")
}
func (b *TB) Sext(x *Term, w uint8) *Term {
	if w == x.w {
		return x
	}
	if w < x.w {
		return b.Extract(x, 0, w)
	}
	if x.op == OConst {
		return b.Const(w, uint64(x.sval()))
	}
	if x.umax < uint64(1)<<(x.w-1) {
		return b.Zext(x, w)
	}
	return b.mk(OSext, w, 0, x, nil, nil, "")
}
func (b *TB) Extract(x *Term, lo uint8, w uint8) *Term {
	if lo == 0 && w == x.w {
		return x
	}
	if x.op == OConst {
		return b.Const(w, x.c>>lo)
	}
	if x.op == OOr || x.op == OShl {
		if p := b.pieces(x); p != nil {
			if r := b.shiftPieces(p, -int(lo), w); r != nil {
				return b.concat(w, r)
			}
		}
	}
	if x.op == OZext || x.op == OSext {
		if lo == 0 {
			if w <= x.a0.w {
				return b.Extract(x.a0, 0, w)
			}
			if x.op == OZext {
				return b.Zext(x.a0, w)
			}
			return b.Sext(x.a0, w)
		}
		if x.op == OZext && lo >= x.a0.w {
			return b.Const(w, 0)
		}
		if lo+w <= x.a0.w {
			return b.Extract(x.a0, lo, w)
		}
	}
	if x.op == OExtract {
		return b.Extract(x.a0, lo+uint8(x.c), w)
	}
	if x.op == OIte && (x.a1.op == OConst || x.a2.op == OConst) {
		return b.Ite(x.a0, b.Extract(x.a1, lo, w), b.Extract(x.a2, lo, w))
	}
	if lo == 0 && (x.op == OAdd || x.op == OAnd || x.op == OOr || x.op == OXor || x.op == OSub) && x.w > w {
		return b.Bin(x.op, b.Extract(x.a0, 0, w), b.Extract(x.a1, 0, w))
	}
	if x.op == OLshr && x.a1.op == OConst && x.a1.c+uint64(lo)+uint64(w) <= uint64(x.w) {
		return b.Extract(x.a0, lo+uint8(x.a1.c), w)
	}
	if x.op == OShl && x.a1.op == OConst {
		if uint64(lo) >= x.a1.c {
			// bits [lo,lo+w) of a0<<c = bits [lo-c ...) of a0
			return b.Extract(x.a0, lo-uint8(x.a1.c), w)
		}
		if uint64(lo)+uint64(w) <= x.a1.c {
			return b.Const(w, 0)
		}
	}
	if x.op == OOr || x.op == OAnd || x.op == OXor {
		return b.Bin(x.op, b.Extract(x.a0, lo, w), b.Extract(x.a1, lo, w))
	}
	return b.mk(OExtract, w, uint64(lo), x, nil, nil, "")
}

func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isTrue() {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.isTrue() && y.isFalse() {
			return c
		}
		if x.isFalse() && y.isTrue() {
			return b.Not(c)
		}
		if x.isTrue() {
			return b.Or(c, y)
		}
		if x.isFalse() {
			return b.And(b.Not(c), y)
		}
		if y.isTrue() {
			return b.Or(b.Not(c), x)
		}
		if y.isFalse() {
			return b.And(c, x)
		}
	}
	if c.op == OBNot {
		return b.Ite(c.a0, y, x)
	}
	return b.mk(OIte, x.w, 0, c, x, y, "")
}

func (b *TB) Not(x *Term) *Term {
	if x.op == OConst {
		return b.Bool(x.c == 0)
	}
	if x.op == OBNot {
		return x.a0
	}
	return b.mk(OBNot, 0, 0, x, nil, nil, "")
}
func (b *TB) And(x, y *Term) *Term {
	if x.isFalse() || y.isFalse() {
		return b.False
	}
	if x.isTrue() {
		return y
	}
	if y.isTrue() || x == y {
		return x
	}
	if x.op == OBNot && x.a0 == y || y.op == OBNot && y.a0 == x {
		return b.False
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OBAnd, 0, 0, x, y, nil, "")
}
func (b *TB) Or(x, y *Term) *Term {
	if x.isTrue() || y.isTrue() {
		return b.True
	}
	if x.isFalse() {
		return y
	}
	if y.isFalse() || x == y {
		return x
	}
	if x.op == OBNot && x.a0 == y || y.op == OBNot && y.a0 == x {
		return b.True
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OBOr, 0, 0, x, y, nil, "")
}

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.w != y.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", x.w, y.w))
	}
	if x.w == wFP {
		return b.FEq(x, y)
	}
	if x.op == OConst && y.op == OConst {
		return b.Bool(x.c == y.c)
	}
	if x.op == OConst || (y.op != OConst && x.id > y.id) {
		x, y = y, x
	}
	if x.w == 0 {
		if y.isTrue() {
			return x
		}
		if y.isFalse() {
			return b.Not(x)
		}
		return b.mk(OEq, 0, 0, x, y, nil, "")
	}
	if x.umin > y.umax || x.umax < y.umin {
		return b.False
	}
	if y.op == OConst {
		switch x.op {
		case OZext:
			return b.Eq(x.a0, b.Const(x.a0.w, y.c))
		case OAdd:
			if x.a1.op == OConst {
				return b.Eq(x.a0, b.Const(x.w, y.c-x.a1.c))
			}
		case OIte:
			if x.a1.op == OConst || x.a2.op == OConst {
				return b.Ite(x.a0, b.Eq(x.a1, y), b.Eq(x.a2, y))
			}
		case OXor:
			if x.a1.op == OConst {
				return b.Eq(x.a0, b.Const(x.w, y.c^x.a1.c))
			}
		case OShl:
			if x.a1.op == OConst {
				if y.c&mask(uint8(x.a1.c)) != 0 {
					return b.False
				}
			}
		}
	} else if x.op == OZext && y.op == OZext && x.a0.w == y.a0.w {
		return b.Eq(x.a0, y.a0)
	} else if x.op == OAdd && y.op == OAdd && x.a1 == y.a1 {
		return b.Eq(x.a0, y.a0)
	} else if x.op == OAdd && x.a0 == y {
		return b.Eq(x.a1, b.Const(x.w, 0))
	} else if x.op == OAdd && x.a1 == y {
		return b.Eq(x.a0, b.Const(x.w, 0))
	} else if y.op == OAdd && y.a0 == x {
		return b.Eq(y.a1, b.Const(x.w, 0))
	} else if y.op == OAdd && y.a1 == x {
		return b.Eq(y.a0, b.Const(x.w, 0))
	}
	return b.mk(OEq, 0, 0, x, y, nil, "")
}

func (b *TB) Ult(x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		return b.Bool(x.c < y.c)
	}
	if x == y {
		return b.False
	}
	if x.umax < y.umin {
		return b.True
	}
	if x.umin >= y.umax {
		return b.False
	}
	if x.op == OZext && y.op == OConst {
		return b.Ult(x.a0, b.Const(x.a0.w, y.c)) // y.c <= x.umax here, so it fits
	}
	if y.op == OZext && x.op == OConst {
		return b.Ult(b.Const(y.a0.w, x.c), y.a0)
	}
	if x.op == OZext && y.op == OZext && x.a0.w == y.a0.w {
		return b.Ult(x.a0, y.a0)
	}
	if y.op == OConst && y.c == 1 {
		return b.Eq(x, b.Const(x.w, 0))
	}
	if y.op == OConst && y.c > 0 {
		if k := exactMul(x); k > 1 {
			return b.Ult(x.a0, b.Const(x.w, (y.c-1)/k+1))
		}
	}
	if x.op == OConst {
		if k := exactMul(y); k > 1 {
			return b.Ult(b.Const(x.w, x.c/k), y.a0)
		}
	}
	if x.op == OConst && x.c == 0 {
		return b.Not(b.Eq(y, x))
	}
	return b.mk(OUlt, 0, 0, x, y, nil, "")
}
func (b *TB) Ule(x, y *Term) *Term { return b.Not(b.Ult(y, x)) }
func (b *TB) Slt(x, y *Term) *Term {
	if x.op == OConst && y.op == OConst {
		return b.Bool(x.sval() < y.sval())
	}
	if x == y {
		return b.False
	}
	half := uint64(1) << (x.w - 1)
	if x.umax < half && y.umax < half {
		return b.Ult(x, y)
	}
	if x.umin >= half && y.umax < half {
		return b.True
	}
	if y.umin >= half && x.umax < half {
		return b.False
	}
	return b.mk(OSlt, 0, 0, x, y, nil, "")
}
func (b *TB) Sle(x, y *Term) *Term { return b.Not(b.Slt(y, x)) }

func (b *TB) FBin(op Op, x, y *Term) *Term {
	if x.op == OFConst && y.op == OFConst {
		f, g := math.Float64frombits(x.c), math.Float64frombits(y.c)
		switch op {
		case OFAdd:
			return b.F(f + g)
		case OFSub:
			return b.F(f - g)
		case OFMul:
			return b.F(f * g)
		case OFDiv:
			return b.F(f / g)
		}
	}
	return b.mk(op, wFP, 0, x, y, nil, "")
}
func (b *TB) FLt(x, y *Term) *Term {
	if x.op == OFConst && y.op == OFConst {
		return b.Bool(math.Float64frombits(x.c) < math.Float64frombits(y.c))
	}
	return b.mk(OFLt, 0, 0, x, y, nil, "")
}
func (b *TB) FEq(x, y *Term) *Term {
	if x.op == OFConst && y.op == OFConst {
		return b.Bool(math.Float64frombits(x.c) == math.Float64frombits(y.c))
	}
	if x == y && (x.op == OFDiv || x.op == OFFromU || x.op == OFFromS) {
		return b.True // finite by construction in the supported uses
	}
	// conv(a)/k == conv(b)/k  with |a|,|b| < 2^40 : injective
	if x.op == OFDiv && y.op == OFDiv && x.a1 == y.a1 && x.a1.op == OFConst && x.a0.op == OFFromU && y.a0.op == OFFromU &&
		x.a0.a0.umax < 1<<40 && y.a0.a0.umax < 1<<40 && x.a0.a0.w == y.a0.a0.w {
		return b.Eq(x.a0.a0, y.a0.a0)
	}
	// conv(a)/k == v with a < 2^40 : the one integer that can give v
	if x.op == OFConst {
		x, y = y, x
	}
	if y.op == OFConst && x.op == OFDiv && x.a1.op == OFConst && x.a0.op == OFFromU && x.a0.a0.umax < 1<<40 {
		k, v := math.Float64frombits(x.a1.c), math.Float64frombits(y.c)
		a := math.Round(v * k)
		if k >= 1 && v >= 0 && !math.IsInf(v, 0) {
			if a < 1<<40 && a/k == v {
				return b.Eq(x.a0.a0, b.Const(x.a0.a0.w, uint64(a)))
			}
			return b.False
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OFEq, 0, 0, x, y, nil, "")
}
func (b *TB) FFrom(x *Term, signed bool) *Term {
	if x.op == OConst {
		if signed {
			return b.F(float64(x.sval()))
		}
		return b.F(float64(x.c))
	}
	if signed && x.umax < uint64(1)<<(x.w-1) {
		signed = false
	}
	if !signed {
		for x.op == OZext {
			x = x.a0
		}
		if x.w < 64 {
			x = b.mk(OZext, 64, 0, x, nil, nil, "")
		}
		return b.mk(OFFromU, wFP, 0, x, nil, nil, "")
	}
	return b.mk(OFFromS, wFP, 0, b.Sext(x, 64), nil, nil, "")
}
func (b *TB) FToS(x *Term, w uint8) *Term {
	if x.op == OFConst {
		return b.Const(w, uint64(int64(math.Float64frombits(x.c))))
	}
	return b.mk(OFToS, w, 0, x, nil, nil, "")
}

// ---- evaluation under a model

type Model struct {
	vars map[string]uint64
	arr  map[string]map[uint64]uint64
}

func NewModel() *Model {
	return &Model{vars: map[string]uint64{}, arr: map[string]map[uint64]uint64{}}
}

type evaluator struct {
	m    *Model
	memo map[*Term]uint64
}

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst, OFConst:
		return t.c
	case OVar:
		return e.m.vars[t.name]
	}
	if v, ok := e.memo[t]; ok {
		return v
	}
	v := e.eval1(t)
	e.memo[t] = v
	return v
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
func (e *evaluator) eval1(t *Term) uint64 {
	switch t.op {
	case OSel:
		return e.m.arr[t.name][e.eval(t.a0)]
	case OAdd, OSub, OMul, OUDiv, OURem, OSDiv, OSRem, OAnd, OOr, OXor, OShl, OLshr, OAshr:
		return foldBV(t.op, t.w, e.eval(t.a0), e.eval(t.a1))
	case ONot:
		return ^e.eval(t.a0) & mask(t.w)
	case ONeg:
		return -e.eval(t.a0) & mask(t.w)
	case OZext:
		return e.eval(t.a0)
	case OSext:
		return uint64(sext64(e.eval(t.a0), t.a0.w)) & mask(t.w)
	case OExtract:
		return (e.eval(t.a0) >> t.c) & mask(t.w)
	case OIte:
		if e.eval(t.a0) != 0 {
			return e.eval(t.a1)
		}
		return e.eval(t.a2)
	case OEq:
		return b2u(e.eval(t.a0) == e.eval(t.a1))
	case OUlt:
		return b2u(e.eval(t.a0) < e.eval(t.a1))
	case OSlt:
		return b2u(sext64(e.eval(t.a0), t.a0.w) < sext64(e.eval(t.a1), t.a1.w))
	case OBNot:
		return 1 - e.eval(t.a0)
	case OBAnd:
		return e.eval(t.a0) & e.eval(t.a1)
	case OBOr:
		return e.eval(t.a0) | e.eval(t.a1)
	case OFFromU:
		return math.Float64bits(float64(e.eval(t.a0)))
	case OFFromS:
		return math.Float64bits(float64(int64(e.eval(t.a0))))
	case OFAdd, OFSub, OFMul, OFDiv:
		f, g := math.Float64frombits(e.eval(t.a0)), math.Float64frombits(e.eval(t.a1))
		switch t.op {
		case OFAdd:
			f += g
		case OFSub:
			f -= g
		case OFMul:
			f *= g
		default:
			f /= g
		}
		return math.Float64bits(f)
	case OFLt:
		return b2u(math.Float64frombits(e.eval(t.a0)) < math.Float64frombits(e.eval(t.a1)))
	case OFEq:
		return b2u(math.Float64frombits(e.eval(t.a0)) == math.Float64frombits(e.eval(t.a1)))
	case OFToS:
		return uint64(int64(math.Float64frombits(e.eval(t.a0)))) & mask(t.w)
	}
	panic(fmt.Sprintf("eval op %d", t.op))
}

// ---- SMT-LIB printing

func sortStr(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case wFP:
		return "Float64"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.c, t.w)
	case OVar:
		return "|" + t.name + "|"
	case OFConst:
		return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.c)
	}
	return fmt.Sprintf("t%d", t.id)
}

var smtOp = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem",
	OAnd: "bvand", OOr: "bvor", OXor: "bvxor", ONot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OEq: "=", OUlt: "bvult", OSlt: "bvslt", OBNot: "not", OBAnd: "and", OBOr: "or", OIte: "ite", OFLt: "fp.lt", OFEq: "fp.eq"}

func body(t *Term) string {
	switch t.op {
	case OSel:
		return fmt.Sprintf("(select |%s| %s)", t.name, ref(t.a0))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a0.w, ref(t.a0))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a0.w, ref(t.a0))
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.c+uint64(t.w)-1, t.c, ref(t.a0))
	case OFFromU:
		return fmt.Sprintf("((_ to_fp_unsigned 11 53) RNE %s)", ref(t.a0))
	case OFFromS:
		return fmt.Sprintf("((_ to_fp 11 53) RNE %s)", ref(t.a0))
	case OFAdd:
		return fmt.Sprintf("(fp.add RNE %s %s)", ref(t.a0), ref(t.a1))
	case OFSub:
		return fmt.Sprintf("(fp.sub RNE %s %s)", ref(t.a0), ref(t.a1))
	case OFMul:
		return fmt.Sprintf("(fp.mul RNE %s %s)", ref(t.a0), ref(t.a1))
	case OFDiv:
		return fmt.Sprintf("(fp.div RNE %s %s)", ref(t.a0), ref(t.a1))
	case OFToS:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, ref(t.a0))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(smtOp[t.op])
	for _, a := range []*Term{t.a0, t.a1, t.a2} {
		if a != nil {
			sb.WriteByte(' ')
			sb.WriteString(ref(a))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}
