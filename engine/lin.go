package main

import (
	"strconv"
	"strings"
)

// Linear reasoning over path facts: comparisons of sums that cannot overflow
// are brought to the form  sum of atoms <= bound, and the bounds known on the
// current path decide implied comparisons without a solver query.

const linMax = int64(1) << 40

type lin struct {
	atoms []*Term
	coef  []int64
	c     int64
}

type cmpLin struct {
	ok   bool
	key  string
	l    *lin // without constant, first coefficient positive
	sign int64
	d    int64
	op   Op // OSlt or OEq
}

type bnd struct{ lo, hi int64 }

func (m *M) linOf(t *Term) *lin {
	if l, ok := m.linMemo[t]; ok {
		return l
	}
	l := m.linOf1(t)
	m.linMemo[t] = l
	return l
}

func (m *M) linAtom(t *Term) *lin {
	if t.w == 0 || t.w == wFP || t.umax > uint64(linMax) {
		return nil
	}
	return &lin{atoms: []*Term{t}, coef: []int64{1}}
}

// linOf1 returns t as an exact integer sum (signed reading at 64 bits,
// unsigned below), or nil.
func (m *M) linOf1(t *Term) *lin {
	if t.w == 0 || t.w == wFP {
		return nil
	}
	if t.op == OConst {
		v := int64(t.c)
		if t.w < 64 {
			v = int64(t.c & mask(t.w))
		}
		if v > linMax || v < -linMax {
			return nil
		}
		return &lin{c: v}
	}
	var l *lin
	switch t.op {
	case OAdd, OSub:
		x, y := m.linOf(t.a0), m.linOf(t.a1)
		if x != nil && y != nil {
			k := int64(1)
			if t.op == OSub {
				k = -1
			}
			l = linAdd(x, y, k)
		}
	case OMul:
		if t.a1.op == OConst && t.a1.c < 1<<16 {
			if x := m.linOf(t.a0); x != nil {
				l = linAdd(&lin{}, x, int64(t.a1.c))
			}
		}
	case OShl:
		if t.a1.op == OConst && t.a1.c < 16 {
			if x := m.linOf(t.a0); x != nil {
				l = linAdd(&lin{}, x, 1<<t.a1.c)
			}
		}
	case OOr:
		if ps := m.tb.pieces(t); ps != nil {
			l = &lin{}
			for _, p := range ps {
				if p.s > 16 {
					l = nil
					break
				}
				x := m.linOf(p.t)
				if x == nil {
					l = nil
					break
				}
				l = linAdd(l, x, 1<<p.s)
			}
		}
	case OZext:
		if x := m.linOf(t.a0); x != nil {
			// exact below 64 bits by construction
			return x
		}
	}
	if l == nil || !linFits(l) {
		return m.linAtom(t)
	}
	if t.w < 64 {
		lo, hi := linRange(l)
		if lo < 0 || uint64(hi) > mask(t.w) {
			return m.linAtom(t)
		}
	}
	return l
}

func linFits(l *lin) bool {
	if len(l.atoms) > 12 {
		return false
	}
	for _, c := range l.coef {
		if c > 1<<18 || c < -(1<<18) {
			return false
		}
	}
	lo, hi := linRange(l)
	return lo > -linMax<<20 && hi < linMax<<20
}

func linRange(l *lin) (int64, int64) {
	lo, hi := l.c, l.c
	for i, a := range l.atoms {
		x, y := int64(a.umin)*l.coef[i], int64(a.umax)*l.coef[i]
		if x > y {
			x, y = y, x
		}
		lo += x
		hi += y
		if lo < -linMax<<21 || hi > linMax<<21 {
			return -linMax << 21, linMax << 21
		}
	}
	return lo, hi
}

func linAdd(x, y *lin, k int64) *lin {
	r := &lin{c: x.c + k*y.c}
	i, j := 0, 0
	for i < len(x.atoms) || j < len(y.atoms) {
		switch {
		case j >= len(y.atoms) || i < len(x.atoms) && x.atoms[i].id < y.atoms[j].id:
			r.atoms = append(r.atoms, x.atoms[i])
			r.coef = append(r.coef, x.coef[i])
			i++
		case i >= len(x.atoms) || y.atoms[j].id < x.atoms[i].id:
			r.atoms = append(r.atoms, y.atoms[j])
			r.coef = append(r.coef, k*y.coef[j])
			j++
		default:
			if c := x.coef[i] + k*y.coef[j]; c != 0 {
				r.atoms = append(r.atoms, x.atoms[i])
				r.coef = append(r.coef, c)
			}
			i++
			j++
		}
	}
	return r
}

func (m *M) cmpOf(c *Term) *cmpLin {
	if r, ok := m.cmpMemo[c]; ok {
		return r
	}
	r := &cmpLin{}
	m.cmpMemo[c] = r
	if c.a0.w == 0 || c.a0.w == wFP {
		return r
	}
	x, y := m.linOf(c.a0), m.linOf(c.a1)
	if x == nil || y == nil {
		return r
	}
	switch c.op {
	case OSlt:
		if c.a0.w != 64 {
			h := uint64(1) << (c.a0.w - 1)
			if c.a0.umax >= h || c.a1.umax >= h {
				return r
			}
		}
	case OUlt:
		lx, _ := linRange(x)
		ly, _ := linRange(y)
		if lx < 0 || ly < 0 {
			return r
		}
	}
	d := linAdd(x, y, -1)
	if len(d.atoms) == 0 || !linFits(d) {
		return r
	}
	r.ok = true
	r.op = c.op
	if r.op == OUlt {
		r.op = OSlt
	}
	r.sign = 1
	r.d = d.c
	d.c = 0
	if d.coef[0] < 0 {
		r.sign = -1
		for i := range d.coef {
			d.coef[i] = -d.coef[i]
		}
	}
	r.l = d
	r.key = linKey(d)
	return r
}

func (m *M) atomBnd(a *Term) bnd {
	b, ok := m.abnd[a]
	if !ok {
		b = bnd{int64(a.umin), int64(a.umax)}
	}
	if k := divisor(a); k > 0 {
		if c, ok := m.rangeOf(a.a0); ok && c.lo >= 0 {
			if x := c.lo / k; x > b.lo {
				b.lo = x
			}
			if x := c.hi / k; x < b.hi {
				b.hi = x
			}
		}
	}
	return b
}

// divisor of a shift or division by a constant (unsigned reading), or 0.
func divisor(a *Term) int64 {
	if a.a1 == nil || a.a1.op != OConst {
		return 0
	}
	switch a.op {
	case OLshr:
		if a.a1.c < 32 {
			return 1 << a.a1.c
		}
	case OUDiv:
		if a.a1.c > 0 && a.a1.c < 1<<32 {
			return int64(a.a1.c)
		}
	}
	return 0
}

// rangeOf bounds a term on the current path.
func (m *M) rangeOf(t *Term) (bnd, bool) {
	l := m.linOf(t)
	if l == nil {
		return bnd{}, false
	}
	b := bnd{l.c, l.c}
	if len(l.atoms) == 0 {
		return b, true
	}
	k := m.normLin(l)
	x := m.linBnd(k)
	if k.sign < 0 {
		x.lo, x.hi = -x.hi, -x.lo
	}
	return bnd{b.lo + x.lo, b.hi + x.hi}, true
}

// normLin is l without its constant, with a positive first coefficient.
func (m *M) normLin(l *lin) *cmpLin {
	if r, ok := m.normMemo[l]; ok {
		return r
	}
	d := &lin{atoms: l.atoms, coef: append([]int64{}, l.coef...)}
	r := &cmpLin{ok: true, sign: 1, l: d}
	if d.coef[0] < 0 {
		r.sign = -1
		for i := range d.coef {
			d.coef[i] = -d.coef[i]
		}
	}
	r.key = linKey(d)
	m.normMemo[l] = r
	return r
}

func linKey(d *lin) string {
	var sb strings.Builder
	for i, a := range d.atoms {
		sb.WriteString(strconv.Itoa(int(a.id)))
		sb.WriteByte('*')
		sb.WriteString(strconv.FormatInt(d.coef[i], 10))
		sb.WriteByte(' ')
	}
	return sb.String()
}

// learnRange records lo <= t <= hi.
func (m *M) learnRange(t *Term, lo, hi int64) {
	l := m.linOf(t)
	if l == nil || len(l.atoms) == 0 {
		return
	}
	k := m.normLin(l)
	lo, hi = lo-l.c, hi-l.c
	if k.sign < 0 {
		lo, hi = -hi, -lo
	}
	m.setBnd(k, lo, hi)
}

func (m *M) setBnd(r *cmpLin, lo, hi int64) {
	b := m.linBnd(r)
	if lo > b.lo {
		b.lo = lo
	}
	if hi < b.hi {
		b.hi = hi
	}
	m.lbnd[r.key] = b
	if len(r.l.atoms) == 1 {
		k := r.l.coef[0]
		a := r.l.atoms[0]
		ab := m.atomBnd(a)
		alo, ahi := -floorDiv(-b.lo, k), floorDiv(b.hi, k)
		if alo > ab.lo {
			ab.lo = alo
		}
		if ahi < ab.hi {
			ab.hi = ahi
		}
		m.abnd[a] = ab
		if d := divisor(a); d > 0 && ab.lo >= 0 {
			m.learnRange(a.a0, ab.lo*d, ab.hi*d+d-1)
		}
	}
}

func (m *M) linBnd(r *cmpLin) bnd {
	var b bnd
	for i, a := range r.l.atoms {
		ab := m.atomBnd(a)
		x, y := ab.lo*r.l.coef[i], ab.hi*r.l.coef[i]
		if x > y {
			x, y = y, x
		}
		b.lo += x
		b.hi += y
	}
	if k, ok := m.lbnd[r.key]; ok {
		if k.lo > b.lo {
			b.lo = k.lo
		}
		if k.hi < b.hi {
			b.hi = k.hi
		}
	}
	return b
}

// decide answers a condition from the bounds of the path, if they imply it.
func (m *M) decide(c *Term) *bool {
	t, f := true, false
	if k := m.known(c); k != nil {
		return k
	}
	switch c.op {
	case OBNot:
		if k := m.decide(c.a0); k != nil {
			r := !*k
			return &r
		}
	case OBAnd:
		x := m.decide(c.a0)
		if x != nil && !*x {
			return &f
		}
		y := m.decide(c.a1)
		if y != nil && !*y {
			return &f
		}
		if x != nil && y != nil {
			return &t
		}
	case OBOr:
		x := m.decide(c.a0)
		if x != nil && *x {
			return &t
		}
		y := m.decide(c.a1)
		if y != nil && *y {
			return &t
		}
		if x != nil && y != nil {
			return &f
		}
	case OSlt, OUlt, OEq:
		r := m.cmpOf(c)
		if !r.ok {
			return nil
		}
		b := m.linBnd(r)
		if r.op == OEq {
			v := -r.sign * r.d
			if v < b.lo || v > b.hi {
				return &f
			}
			if b.lo == b.hi {
				return &t
			}
			return nil
		}
		if r.sign > 0 { // K <= -d-1
			if b.hi <= -r.d-1 {
				return &t
			}
			if b.lo > -r.d-1 {
				return &f
			}
		} else { // K >= d+1
			if b.lo >= r.d+1 {
				return &t
			}
			if b.hi < r.d+1 {
				return &f
			}
		}
	}
	return nil
}

// learnLin records the bound a decided comparison gives.
func (m *M) learnLin(c *Term, v bool) {
	switch c.op {
	case OSlt, OUlt, OEq:
	default:
		return
	}
	r := m.cmpOf(c)
	if !r.ok {
		return
	}
	b := m.linBnd(r)
	if r.op == OEq {
		x := -r.sign * r.d
		if v {
			b = bnd{x, x}
		} else {
			if x == b.lo {
				b.lo++
			}
			if x == b.hi {
				b.hi--
			}
		}
	} else {
		if r.sign > 0 == v { // upper bound
			x := -r.d - 1
			if !v { // not (K >= d+1)
				x = r.d
			}
			if x < b.hi {
				b.hi = x
			}
		} else { // lower bound
			x := r.d + 1
			if !v { // not (K <= -d-1)
				x = -r.d
			}
			if x > b.lo {
				b.lo = x
			}
		}
	}
	m.setBnd(r, b.lo, b.hi)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
