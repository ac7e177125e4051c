package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Str is a Go string: either a literal or a rope of segments.
type Str struct {
	lit  string
	segs []Seg // nil => literal
}

type Seg interface{}
type SLit string
type SBytes []*Term
type SView struct {
	c      Content
	off, n *Term
}
type SDec struct {
	t      *Term // 64 bits
	signed bool
}
type SHex struct {
	t     *Term
	upper bool
	minw  int
}
type SelTab struct {
	keys []uint64
	vals []string
	def  string
	sig  string
}
type SSel struct {
	tab *SelTab
	key *Term
}
type STime struct {
	layout string
	sec    *Term
	loc    string
}
type SFloat struct {
	t    *Term
	verb byte
	prec int
}
type SJSON struct{ sub *Str }
type SOpaque struct{ tag string }

var emptyStr = &Str{}

func lit(s string) *Str { return &Str{lit: s} }

func (m *M) mkStr(segs []Seg) *Str {
	var out []Seg
	for _, s := range segs {
		switch x := s.(type) {
		case SLit:
			if x == "" {
				continue
			}
			if len(out) > 0 {
				if p, ok := out[len(out)-1].(SLit); ok {
					out[len(out)-1] = p + x
					continue
				}
			}
		case SBytes:
			if len(x) == 0 {
				continue
			}
			all := true
			for _, t := range x {
				if !t.isConst() {
					all = false
					break
				}
			}
			if all {
				b := make([]byte, len(x))
				for i, t := range x {
					b[i] = byte(t.c)
				}
				if len(out) > 0 {
					if p, ok := out[len(out)-1].(SLit); ok {
						out[len(out)-1] = p + SLit(b)
						continue
					}
				}
				out = append(out, SLit(b))
				continue
			}
			if len(out) > 0 {
				if p, ok := out[len(out)-1].(SBytes); ok {
					out[len(out)-1] = append(append(SBytes{}, p...), x...)
					continue
				}
			}
		case SView:
			if x.n.op == OConst {
				if x.n.c == 0 {
					continue
				}
				bs := make(SBytes, x.n.c)
				for i := range bs {
					bs[i] = m.cread(x.c, m.tb.Bin(OAdd, x.off, m.tb.Const(64, uint64(i))))
				}
				out2 := m.mkStr(append(append([]Seg{}, out...), bs))
				out = out2.seglist()
				continue
			}
		case SDec:
			if x.t.isConst() {
				var s string
				if x.signed {
					s = strconv.FormatInt(int64(x.t.c), 10)
				} else {
					s = strconv.FormatUint(x.t.c, 10)
				}
				out = m.mkStr(append(append([]Seg{}, out...), SLit(s))).seglist()
				continue
			}
		case SHex:
			if x.t.isConst() {
				out = m.mkStr(append(append([]Seg{}, out...), SLit(hexStr(x.t.c, x.upper, x.minw)))).seglist()
				continue
			}
			if x.minw > 0 && (x.minw >= 16 || x.t.umax < uint64(1)<<(4*uint(x.minw))) {
				out = m.mkStr(append(append([]Seg{}, out...), m.hexDigits(x.t, x.minw, x.upper))).seglist()
				continue
			}
		case SSel:
			if x.key.isConst() {
				out = m.mkStr(append(append([]Seg{}, out...), SLit(x.tab.get(x.key.c)))).seglist()
				continue
			}
		case SFloat:
			if x.t.isConst() {
				out = m.mkStr(append(append([]Seg{}, out...), SLit(fmtFloat(math.Float64frombits(x.t.c), x.verb, x.prec)))).seglist()
				continue
			}
		case SJSON:
			if s, ok := m.strConst(x.sub); ok {
				out = m.mkStr(append(append([]Seg{}, out...), SLit(jsonQuote(s)))).seglist()
				continue
			}
		}
		out = append(out, s)
	}
	if len(out) == 0 {
		return emptyStr
	}
	if len(out) == 1 {
		if l, ok := out[0].(SLit); ok {
			return lit(string(l))
		}
	}
	return &Str{segs: out}
}

func fmtFloat(f float64, verb byte, prec int) string {
	if verb == 'v' {
		return fmt.Sprint(f)
	}
	return strconv.FormatFloat(f, verb, prec, 64)
}

func hexStr(c uint64, upper bool, minw int) string {
	s := strconv.FormatUint(c, 16)
	if upper {
		s = strings.ToUpper(s)
	}
	for len(s) < minw {
		s = "0" + s
	}
	return s
}

func (m *M) hexDigits(t *Term, n int, upper bool) SBytes {
	bs := make(SBytes, n)
	for i := 0; i < n; i++ {
		sh := uint8(4 * (n - 1 - i))
		var nib *Term
		if sh >= t.w {
			nib = m.tb.Const(8, 0)
		} else {
			nw := uint8(4)
			if sh+4 > t.w {
				nw = t.w - sh
			}
			nib = m.tb.Zext(m.tb.Extract(t, sh, nw), 8)
		}
		bs[i] = m.hexChar(nib, upper)
	}
	return bs
}
func (m *M) hexChar(nib *Term, upper bool) *Term {
	a := uint64('a' - 10)
	if upper {
		a = 'A' - 10
	}
	return m.tb.Ite(m.tb.Ult(nib, m.tb.Const(8, 10)), m.tb.Bin(OAdd, nib, m.tb.Const(8, '0')), m.tb.Bin(OAdd, nib, m.tb.Const(8, a)))
}

func (s *Str) seglist() []Seg {
	if s.segs == nil {
		if s.lit == "" {
			return nil
		}
		return []Seg{SLit(s.lit)}
	}
	return s.segs
}

func (t *SelTab) get(k uint64) string {
	for i, x := range t.keys {
		if x == k {
			return t.vals[i]
		}
	}
	return t.def
}

func (m *M) strConst(s *Str) (string, bool) {
	if s.segs == nil {
		return s.lit, true
	}
	return "", false
}

func (m *M) concat(a, b *Str) *Str {
	if a.segs == nil && b.segs == nil {
		return lit(a.lit + b.lit)
	}
	if a.segs == nil && a.lit == "" {
		return b
	}
	if b.segs == nil && b.lit == "" {
		return a
	}
	return m.mkStr(append(append([]Seg{}, a.seglist()...), b.seglist()...))
}

// matSeg materialises one segment into bytes, forking as needed.
func (m *M) matSeg(s Seg) []*Term {
	switch x := s.(type) {
	case SLit:
		return m.litBytes(string(x))
	case SBytes:
		return x
	case SView:
		n := m.concretize(x.n)
		out := make([]*Term, n)
		for i := range out {
			out[i] = m.cread(x.c, m.tb.Bin(OAdd, x.off, m.tb.Const(64, uint64(i))))
		}
		return out
	case SSel:
		groups := map[string][]uint64{}
		var order []string
		for i, v := range x.tab.vals {
			if _, ok := groups[v]; !ok {
				order = append(order, v)
			}
			groups[v] = append(groups[v], x.tab.keys[i])
		}
		for _, v := range order {
			c := m.tb.False
			for _, k := range groups[v] {
				c = m.tb.Or(c, m.tb.Eq(x.key, m.tb.Const(x.key.w, k)))
			}
			if m.branch(c) {
				return m.litBytes(v)
			}
		}
		return m.litBytes(x.tab.def)
	case SDec:
		t := x.t
		neg := false
		if x.signed && m.branch(m.tb.Slt(t, m.int0)) {
			neg = true
			t = m.tb.Un(ONeg, t)
		}
		n := 1
		p := uint64(10)
		for n < 20 && !m.branch(m.tb.Ult(t, m.tb.Const(64, p))) {
			n++
			if n == 20 {
				break
			}
			p *= 10
		}
		// narrow
		w := uint8(64)
		for _, ww := range []uint8{8, 16, 32} {
			if n < 20 && p-1 <= mask(ww) {
				w = ww
				break
			}
		}
		nt := m.tb.Extract(t, 0, w)
		ten := m.tb.Const(w, 10)
		out := make([]*Term, n)
		for i := n - 1; i >= 0; i-- {
			d := m.tb.Bin(OURem, nt, ten)
			out[i] = m.tb.Bin(OAdd, m.tb.Zext(m.tb.Extract(d, 0, 8), 8), m.tb.Const(8, '0'))
			nt = m.tb.Bin(OUDiv, nt, ten)
		}
		if neg {
			out = append([]*Term{m.tb.Const(8, '-')}, out...)
		}
		return out
	case SHex:
		n := x.minw
		if n < 1 {
			n = 1
		}
		for n < 16 && !m.branch(m.tb.Ult(x.t, m.tb.Const(x.t.w, uint64(1)<<(4*uint(n))))) {
			n++
		}
		return m.hexDigits(x.t, n, x.upper)
	case STime:
		v := m.concretize(x.sec)
		return m.litBytes(renderTime(int64(v), x.layout, x.loc))
	case SJSON:
		bs := m.sbytes(x.sub)
		out := []*Term{m.tb.Const(8, '"')}
		for _, b := range bs {
			// concretise: JSON escaping depends on the byte
			v := m.concretize(b)
			if v >= 0x80 {
				panic(unsupported("json quote of non-ascii symbolic"))
			}
			q := jsonQuote(string([]byte{byte(v)}))
			out = append(out, m.litBytes(q[1:len(q)-1])...)
		}
		return append(out, m.tb.Const(8, '"'))
	}
	panic(unsupported(fmt.Sprintf("materialise %T", s)))
}

func (m *M) litBytes(s string) []*Term {
	out := make([]*Term, len(s))
	for i := 0; i < len(s); i++ {
		out[i] = m.tb.Const(8, uint64(s[i]))
	}
	return out
}

func (m *M) sbytes(s *Str) []*Term {
	if s.segs == nil {
		return m.litBytes(s.lit)
	}
	var out []*Term
	for _, g := range s.segs {
		out = append(out, m.matSeg(g)...)
	}
	return out
}

func (m *M) slen(s *Str) *Term {
	if s.segs == nil {
		return m.tb.Int(len(s.lit))
	}
	n := m.int0
	for _, g := range s.segs {
		switch x := g.(type) {
		case SLit:
			n = m.tb.Bin(OAdd, n, m.tb.Int(len(x)))
		case SBytes:
			n = m.tb.Bin(OAdd, n, m.tb.Int(len(x)))
		case SView:
			n = m.tb.Bin(OAdd, n, x.n)
		case SDec:
			if x.signed {
				n = m.tb.Bin(OAdd, n, m.tb.Int(len(m.matSeg(g))))
				break
			}
			k := m.tb.Int(1)
			p := uint64(10)
			for i := 2; i <= 20 && x.t.umax >= p; i++ {
				k = m.tb.Ite(m.tb.Ult(x.t, m.tb.Const(64, p)), k, m.tb.Int(i))
				if i == 20 {
					break
				}
				p *= 10
			}
			n = m.tb.Bin(OAdd, n, k)
		case SHex:
			lo := x.minw
			if lo < 1 {
				lo = 1
			}
			k := m.tb.Int(lo)
			for i := lo + 1; i <= 16; i++ {
				k = m.tb.Ite(m.tb.Ult(x.t, m.tb.Const(x.t.w, uint64(1)<<(4*uint(i-1)))), k, m.tb.Int(i))
			}
			n = m.tb.Bin(OAdd, n, k)
		case SSel:
			k := m.tb.Int(len(x.tab.def))
			for i, kk := range x.tab.keys {
				k = m.tb.Ite(m.tb.Eq(x.key, m.tb.Const(x.key.w, kk)), m.tb.Int(len(x.tab.vals[i])), k)
			}
			n = m.tb.Bin(OAdd, n, k)
		case STime:
			n = m.tb.Bin(OAdd, n, m.tb.Int(len(renderTime(0, x.layout, x.loc))))
		case SFloat:
			v := m.tb.Var(fmt.Sprintf("flen!%d", x.t.id), 64)
			n = m.tb.Bin(OAdd, n, m.tb.Bin(OAdd, m.tb.Bin(OAnd, v, m.tb.Const(64, 15)), m.tb.Int(1)))
		case SOpaque:
			v := m.tb.Var("olen!"+x.tag, 64)
			n = m.tb.Bin(OAdd, n, m.tb.Bin(OAdd, m.tb.Bin(OAnd, v, m.tb.Const(64, 15)), m.tb.Int(1)))
		default:
			n = m.tb.Bin(OAdd, n, m.tb.Int(len(m.matSeg(g))))
		}
	}
	return n
}

// flatStr turns a string into content/off/len without forcing lengths where possible.
func (m *M) strContent(s *Str) (Content, *Term, *Term) {
	if s.segs != nil && len(s.segs) == 1 {
		if v, ok := s.segs[0].(SView); ok {
			return v.c, v.off, v.n
		}
	}
	simple := true
	if s.segs != nil {
		for _, g := range s.segs {
			if _, ok := g.(SView); ok {
				simple = false
			}
		}
	}
	if simple {
		bs := m.sbytes(s)
		return &cFlat{bs}, m.int0, m.tb.Int(len(bs))
	}
	var c Content = cZero{}
	n := m.int0
	for _, g := range s.segs {
		switch x := g.(type) {
		case SView:
			c = &cCopy{c, n, x.c, x.off, x.n}
			n = m.tb.Bin(OAdd, n, x.n)
		default:
			bs := m.matSeg(g)
			k := m.tb.Int(len(bs))
			c = &cCopy{c, n, &cFlat{bs}, m.int0, k}
			n = m.tb.Bin(OAdd, n, k)
		}
	}
	return c, m.int0, n
}

func (m *M) strFromView(c Content, off, n *Term) *Str {
	if r, ok := c.(*cRope); ok && off.isConst() && off.c == 0 && n == m.slen(r.s) {
		return r.s
	}
	if n.op != OConst {
		if k := m.concKnown(n); k != nil {
			n = m.tb.Const(64, *k)
		}
	}
	return m.mkStr([]Seg{SView{c, off, n}})
}

func (m *M) substr(s *Str, lo, hi *Term) *Str {
	if s.segs == nil && lo.isConst() && hi.isConst() {
		return lit(s.lit[lo.c:hi.c])
	}
	if lo.isConst() && hi.isConst() {
		// try to slice without materialising atoms outside the range
		bs := m.sbytes(s)
		return m.mkStr([]Seg{SBytes(bs[lo.c:hi.c])})
	}
	c, off, _ := m.strContent(s)
	return m.strFromView(c, m.tb.Bin(OAdd, off, lo), m.tb.Bin(OSub, hi, lo))
}

func segEqStruct(a, b Seg) bool {
	switch x := a.(type) {
	case SDec:
		y, ok := b.(SDec)
		return ok && x == y
	case SHex:
		y, ok := b.(SHex)
		return ok && x == y
	case SSel:
		y, ok := b.(SSel)
		return ok && x.key == y.key && (x.tab == y.tab || x.tab.same(y.tab))
	case STime:
		y, ok := b.(STime)
		return ok && x == y
	case SFloat:
		y, ok := b.(SFloat)
		return ok && x == y
	case SOpaque:
		y, ok := b.(SOpaque)
		return ok && x == y
	case SView:
		y, ok := b.(SView)
		return ok && sameContent(x.c, y.c) && x.off == y.off && x.n == y.n
	case SJSON:
		y, ok := b.(SJSON)
		if !ok {
			return false
		}
		p, q := x.sub.seglist(), y.sub.seglist()
		if len(p) != len(q) {
			return false
		}
		for i := range p {
			if !segEqStruct(p[i], q[i]) {
				return false
			}
		}
		return true
	case SLit:
		y, ok := b.(SLit)
		return ok && x == y
	case SBytes:
		y, ok := b.(SBytes)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	return false
}

func sameContent(a, b Content) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*cFlat)
	y, ok2 := b.(*cFlat)
	if ok1 && ok2 && len(x.cells) == len(y.cells) {
		for i := range x.cells {
			if x.cells[i] != y.cells[i] {
				return false
			}
		}
		return true
	}
	p, ok1 := a.(*cArr)
	q, ok2 := b.(*cArr)
	return ok1 && ok2 && p.name == q.name
}

func (t *SelTab) same(u *SelTab) bool {
	if len(t.keys) != len(u.keys) || t.def != u.def {
		return false
	}
	for i, k := range t.keys {
		if u.get(k) != t.vals[i] {
			return false
		}
	}
	return true
}

func isBytesSeg(s Seg) ([]*Term, bool) {
	x, ok := s.(SBytes)
	return x, ok
}

// strEq returns a Bool term for a == b.
func (m *M) strEq(a, b *Str) *Term {
	if a.segs == nil && b.segs == nil {
		return m.tb.Bool(a.lit == b.lit)
	}
	p := m.expandLits(a.seglist())
	q := m.expandLits(b.seglist())
	res := m.tb.True
	for {
		// strip front
		progress := false
		for len(p) > 0 && len(q) > 0 {
			x, xb := isBytesSeg(p[0])
			y, yb := isBytesSeg(q[0])
			if xb && yb {
				n := len(x)
				if len(y) < n {
					n = len(y)
				}
				for i := 0; i < n; i++ {
					res = m.tb.And(res, m.tb.Eq(x[i], y[i]))
					if res.isFalse() {
						return res
					}
				}
				p = tailBytes(p, x, n)
				q = tailBytes(q, y, n)
				progress = true
				continue
			}
			if !xb && !yb && (segEqStruct(p[0], q[0]) || len(p)+len(q) > 2 && m.mustEq(p[0], q[0])) {
				p, q = p[1:], q[1:]
				progress = true
				continue
			}
			break
		}
		// strip back
		for len(p) > 0 && len(q) > 0 {
			lp, lq := p[len(p)-1], q[len(q)-1]
			x, xb := isBytesSeg(lp)
			y, yb := isBytesSeg(lq)
			if xb && yb {
				n := len(x)
				if len(y) < n {
					n = len(y)
				}
				for i := 1; i <= n; i++ {
					res = m.tb.And(res, m.tb.Eq(x[len(x)-i], y[len(y)-i]))
					if res.isFalse() {
						return res
					}
				}
				p = headBytes(p, x, n)
				q = headBytes(q, y, n)
				progress = true
				continue
			}
			if !xb && !yb && (segEqStruct(lp, lq) || len(p)+len(q) > 2 && m.mustEq(lp, lq)) {
				p, q = p[:len(p)-1], q[:len(q)-1]
				progress = true
				continue
			}
			break
		}
		_ = progress
		if len(p) == 0 && len(q) == 0 {
			return res
		}
		if len(p) == 0 || len(q) == 0 {
			r := p
			if len(p) == 0 {
				r = q
			}
			// remaining must be empty
			for _, s := range r {
				switch x := s.(type) {
				case SBytes:
					return m.tb.False
				case SView:
					res = m.tb.And(res, m.tb.Eq(x.n, m.int0))
				case SSel:
					res = m.tb.And(res, m.selEqLit(x, ""))
				default:
					return m.tb.False // decimal, hex, time, float are non-empty
				}
			}
			return res
		}
		// single atoms on both sides
		if len(p) == 1 && len(q) == 1 {
			if t := m.atomEq(p[0], q[0]); t != nil {
				return m.tb.And(res, t)
			}
		}
		if len(p) == len(q) && len(p) > 1 {
			// pairwise when delimited: all atoms followed by byte segs that cannot belong to the atoms
			if t := m.pairwise(p, q); t != nil {
				return m.tb.And(res, t)
			}
		}
		// try to fix res first: if already impossible we can stop
		if !m.branch(res) {
			return m.tb.False
		}
		res = m.tb.True
		// materialise a first atom
		if profOn {
			v, _ := prof.LoadOrStore(fmt.Sprintf("mat %.150v | %.150v", descSegs(p), descSegs(q)), new([2]int64))
			atomic.AddInt64(&v.(*[2]int64)[1], 1000000000)
		}
		var forced bool
		for _, l := range []*[]Seg{&p, &q} {
			if _, ok := isBytesSeg((*l)[0]); !ok {
				// prefer the cheaper
				bs := m.matSeg((*l)[0])
				n := append([]Seg{SBytes(bs)}, (*l)[1:]...)
				*l = m.joinBytes(n)
				forced = true
				break
			}
		}
		if !forced {
			panic(unsupported("strEq stuck"))
		}
	}
}

// mustEq reports whether two formatted values are equal on the whole path.
func (m *M) mustEq(a, b Seg) bool {
	var e *Term
	switch x := a.(type) {
	case SDec:
		y, ok := b.(SDec)
		if !ok || x.signed != y.signed {
			return false
		}
		e = m.tb.Eq(x.t, y.t)
	case SHex:
		y, ok := b.(SHex)
		if !ok || x.upper != y.upper || x.minw != y.minw || x.t.w != y.t.w {
			return false
		}
		e = m.tb.Eq(x.t, y.t)
	case SSel:
		y, ok := b.(SSel)
		if !ok || x.key.w != y.key.w || !(x.tab == y.tab || x.tab.same(y.tab)) {
			return false
		}
		e = m.tb.Eq(x.key, y.key)
	case STime:
		y, ok := b.(STime)
		if !ok || x.layout != y.layout || x.loc != y.loc {
			return false
		}
		e = m.tb.Eq(x.sec, y.sec)
	default:
		return false
	}
	if k := m.decide(e); k != nil {
		return *k
	}
	if m.eval(e) == 0 {
		return false
	}
	r, _ := m.check(m.tb.Not(e), "mustEq")
	if r == Unsat {
		m.learn(e, true)
	}
	return r == Unsat
}

// pairwise compares segment lists of equal shape where every atom is followed
// by an identical byte segment starting with a byte the atom cannot contain.
func (m *M) pairwise(p, q []Seg) *Term {
	res := m.tb.True
	for i := range p {
		x, xb := isBytesSeg(p[i])
		y, yb := isBytesSeg(q[i])
		if xb != yb {
			return nil
		}
		if xb {
			if len(x) != len(y) {
				return nil
			}
			for j := range x {
				if x[j] != y[j] {
					return nil
				}
			}
			if !x[0].isConst() {
				return nil
			}
			continue
		}
		t := m.atomEq(p[i], q[i])
		if t == nil {
			return nil
		}
		if i+1 < len(p) {
			nb, ok := isBytesSeg(p[i+1])
			if !ok || !nb[0].isConst() || !atomDelim(p[i], byte(nb[0].c)) || !atomDelim(q[i], byte(nb[0].c)) {
				return nil
			}
		}
		res = m.tb.And(res, t)
	}
	return res
}

func atomDelim(s Seg, c byte) bool {
	switch x := s.(type) {
	case SDec:
		return !(c >= '0' && c <= '9')
	case SHex:
		return !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')
	case SFloat:
		return c == ' '
	case STime:
		return c == ')' || c == ' ' || c == '\n'
	case SSel:
		for _, v := range x.tab.vals {
			if strings.IndexByte(v, c) >= 0 {
				return false
			}
		}
		return strings.IndexByte(x.tab.def, c) < 0
	}
	return false
}

func (m *M) selEqLit(x SSel, s string) *Term {
	c := m.tb.False
	other := m.tb.True
	for i, k := range x.tab.keys {
		e := m.tb.Eq(x.key, m.tb.Const(x.key.w, k))
		if x.tab.vals[i] == s {
			c = m.tb.Or(c, e)
		}
		other = m.tb.And(other, m.tb.Not(e))
	}
	if x.tab.def == s {
		c = m.tb.Or(c, other)
	}
	return c
}

func (m *M) atomEq(a, b Seg) *Term {
	if segEqStruct(a, b) {
		return m.tb.True
	}
	if x, ok := b.(SBytes); ok {
		if c, ok := constBytesOf(x); ok {
			if t := m.atomEqLit(a, c); t != nil {
				return t
			}
		}
	}
	if x, ok := a.(SBytes); ok {
		if c, ok := constBytesOf(x); ok {
			if t := m.atomEqLit(b, c); t != nil {
				return t
			}
		}
	}
	switch x := a.(type) {
	case SDec:
		if y, ok := b.(SDec); ok {
			if x.signed == y.signed || (x.t.umax>>63 == 0 && y.t.umax>>63 == 0) {
				return m.tb.Eq(x.t, y.t)
			}
			// equal as numbers: same bits and non-negative
			return m.tb.And(m.tb.Eq(x.t, y.t), m.tb.Not(m.tb.Slt(x.t, m.int0)))
		}
	case SHex:
		if y, ok := b.(SHex); ok && x.upper == y.upper && x.minw == y.minw {
			w := x.t.w
			if y.t.w > w {
				w = y.t.w
			}
			return m.tb.Eq(m.tb.Zext(x.t, w), m.tb.Zext(y.t, w))
		}
	case STime:
		if y, ok := b.(STime); ok && x.layout == y.layout {
			if x.loc == y.loc {
				return m.tb.Eq(x.sec, y.sec)
			}
			return m.tb.False
		}
	case SFloat:
		if y, ok := b.(SFloat); ok && x.verb == y.verb && x.prec == y.prec && (x.verb == 'v' || x.prec < 0) {
			return m.tb.FEq(x.t, y.t)
		}
	case SSel:
		if y, ok := b.(SSel); ok {
			if x.key == y.key {
				res := m.tb.True
				seen := map[uint64]bool{}
				for _, l := range [][]uint64{x.tab.keys, y.tab.keys} {
					for _, k := range l {
						if seen[k] {
							continue
						}
						seen[k] = true
						if x.tab.get(k) != y.tab.get(k) {
							res = m.tb.And(res, m.tb.Not(m.tb.Eq(x.key, m.tb.Const(x.key.w, k))))
						}
					}
				}
				if x.tab.def != y.tab.def {
					any := m.tb.False
					for k := range seen {
						any = m.tb.Or(any, m.tb.Eq(x.key, m.tb.Const(x.key.w, k)))
					}
					res = m.tb.And(res, any)
				}
				return res
			}
		}
		if y, ok := b.(SBytes); ok {
			if s, ok := m.constBytes(y); ok {
				return m.selEqLit(x, s)
			}
		}
	case SBytes:
		if y, ok := b.(SSel); ok {
			if s, ok := m.constBytes(x); ok {
				return m.selEqLit(y, s)
			}
		}
	case SView:
		if y, ok := b.(SView); ok && sameContent(x.c, y.c) && x.off == y.off {
			return m.tb.Eq(x.n, y.n)
		}
	}
	return nil
}

func (m *M) constBytes(x SBytes) (string, bool) {
	b := make([]byte, len(x))
	for i, t := range x {
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.c)
	}
	return string(b), true
}

func (m *M) joinBytes(l []Seg) []Seg {
	var out []Seg
	for _, s := range l {
		if x, ok := isBytesSeg(s); ok {
			if len(x) == 0 {
				continue
			}
			if len(out) > 0 {
				if p, ok := isBytesSeg(out[len(out)-1]); ok {
					out[len(out)-1] = append(append(SBytes{}, p...), x...)
					continue
				}
			}
		}
		out = append(out, s)
	}
	return out
}

func tailBytes(l []Seg, x []*Term, n int) []Seg {
	if n == len(x) {
		return l[1:]
	}
	return append([]Seg{SBytes(x[n:])}, l[1:]...)
}
func headBytes(l []Seg, x []*Term, n int) []Seg {
	if n == len(x) {
		return l[:len(l)-1]
	}
	return append(append([]Seg{}, l[:len(l)-1]...), SBytes(x[:len(x)-n]))
}

func (m *M) expandLits(l []Seg) []Seg {
	var out []Seg
	for _, s := range l {
		switch x := s.(type) {
		case SLit:
			s = SBytes(m.litBytes(string(x)))
		case SDec:
			if k := m.subst(x.t, 6); k.isConst() {
				if x.signed {
					s = SBytes(m.litBytes(strconv.FormatInt(int64(k.c), 10)))
				} else {
					s = SBytes(m.litBytes(strconv.FormatUint(k.c, 10)))
				}
			}
		case SHex:
			if k := m.subst(x.t, 6); k.isConst() {
				s = SBytes(m.litBytes(hexStr(k.c, x.upper, x.minw)))
			}
		case SSel:
			if k := m.subst(x.key, 6); k.isConst() {
				v := x.tab.get(k.c)
				if v == "" {
					continue
				}
				s = SBytes(m.litBytes(v))
			}
		}
		out = append(out, s)
	}
	return m.joinBytes(out)
}

// ---- evaluation

var localZone = time.FixedZone("VER", 9*3600+30*60)

func renderTime(sec int64, layout, loc string) string {
	t := time.Unix(sec, 0)
	switch loc {
	case "UTC":
		t = t.UTC()
	case "Local":
		t = t.In(localZone)
	default:
		panic(unsupported("time location " + loc))
	}
	return t.Format(layout)
}

func (m *M) evalStr(e *evaluator, s *Str) string {
	if s.segs == nil {
		return s.lit
	}
	var sb strings.Builder
	for _, g := range s.segs {
		switch x := g.(type) {
		case SLit:
			sb.WriteString(string(x))
		case SBytes:
			for _, t := range x {
				sb.WriteByte(byte(e.eval(t)))
			}
		case SView:
			n := e.eval(x.n)
			if n > 1<<20 {
				n = 1 << 20
			}
			off := e.eval(x.off)
			for i := uint64(0); i < n; i++ {
				sb.WriteByte(byte(m.evalContent(e, x.c, off+i)))
			}
		case SDec:
			v := e.eval(x.t)
			if x.signed {
				sb.WriteString(strconv.FormatInt(int64(v), 10))
			} else {
				sb.WriteString(strconv.FormatUint(v, 10))
			}
		case SHex:
			sb.WriteString(hexStr(e.eval(x.t), x.upper, x.minw))
		case SSel:
			sb.WriteString(x.tab.get(e.eval(x.key)))
		case STime:
			sb.WriteString(renderTime(int64(e.eval(x.sec)), x.layout, x.loc))
		case SFloat:
			sb.WriteString(fmtFloat(math.Float64frombits(e.eval(x.t)), x.verb, x.prec))
		case SJSON:
			sb.WriteString(jsonQuote(m.evalStr(e, x.sub)))
		case SOpaque:
			sb.WriteString("<opaque>")
		}
	}
	return sb.String()
}

func (m *M) evalContent(e *evaluator, c Content, i uint64) uint64 {
	switch c := c.(type) {
	case *cFlat:
		if i >= uint64(len(c.cells)) {
			return 0
		}
		return e.eval(c.cells[i])
	case *cArr:
		return e.m.arr[c.name][i]
	case *cRope:
		x := m.evalStr(e, c.s)
		if i >= uint64(len(x)) {
			return 0
		}
		return uint64(x[i])
	case *cWrite:
		if e.eval(c.idx) == i {
			return e.eval(c.val)
		}
		return m.evalContent(e, c.prev, i)
	case *cCopy:
		d := i - e.eval(c.dst)
		if d < e.eval(c.n) {
			return m.evalContent(e, c.src, d+e.eval(c.soff))
		}
		return m.evalContent(e, c.prev, i)
	}
	return 0
}

func sortedKeys(m map[string]uint64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func descSegs(l []Seg) string {
	var sb strings.Builder
	for _, s := range l {
		if x, ok := s.(SBytes); ok {
			if c, ok := constBytesOf(x); ok {
				fmt.Fprintf(&sb, "%q ", c)
				continue
			}
			fmt.Fprintf(&sb, "SBytes%d ", len(x))
			continue
		}
		switch x := s.(type) {
		case STime:
			fmt.Fprintf(&sb, "STime{%s %s %d}", x.layout, x.loc, x.sec.id)
		case SDec:
			fmt.Fprintf(&sb, "SDec{%d %v}", x.t.id, x.signed)
		default:
			fmt.Fprintf(&sb, "%T ", s)
		}
	}
	return sb.String()
}

func constBytesOf(x SBytes) (string, bool) {
	b := make([]byte, len(x))
	for i, t := range x {
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.c)
	}
	return string(b), true
}

// atomEqLit compares a formatted value with a constant string.
func (m *M) atomEqLit(a Seg, s string) *Term {
	switch x := a.(type) {
	case SDec:
		if x.signed {
			v, err := strconv.ParseInt(s, 10, 64)
			if err != nil || strconv.FormatInt(v, 10) != s {
				return m.tb.False
			}
			return m.tb.Eq(x.t, m.tb.Const(x.t.w, uint64(v)))
		}
		v, err := strconv.ParseUint(s, 10, 64)
		if err != nil || strconv.FormatUint(v, 10) != s {
			return m.tb.False
		}
		return m.tb.Eq(x.t, m.tb.Const(x.t.w, v))
	case SHex:
		v, err := strconv.ParseUint(s, 16, 64)
		if err != nil || hexStr(v, x.upper, x.minw) != s || v > mask(x.t.w) {
			return m.tb.False
		}
		return m.tb.Eq(x.t, m.tb.Const(x.t.w, v))
	case STime:
		loc := time.UTC
		if x.loc == "Local" {
			loc = localZone
		}
		v, err := time.ParseInLocation(x.layout, s, loc)
		if err != nil || renderTime(v.Unix(), x.layout, x.loc) != s {
			return m.tb.False
		}
		if x.layout != time.RFC3339 {
			return nil
		}
		return m.tb.Eq(x.sec, m.tb.Const(64, uint64(v.Unix())))
	case SFloat:
		if x.verb != 'v' {
			return nil
		}
		v, err := strconv.ParseFloat(s, 64)
		if err != nil || fmt.Sprintf("%v", v) != s || math.IsNaN(v) || v == 0 && math.Signbit(v) {
			return nil
		}
		return m.tb.FEq(x.t, m.tb.F(v))
	}
	return nil
}
