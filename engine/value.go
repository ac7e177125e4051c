package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type Cell struct{ v Value }

// Agg is a struct or non-byte array in memory (or a register copy).
type Agg struct{ e []Cell }

// BObj is a byte array in memory.
type BObj struct {
	flat   []*Term
	shared bool    // flat is referenced by a snapshot: copy before write
	fn     Content // when flat == nil
	size   *Term
	epoch  uint64 // path it was made on
}

type BArr struct{ o *BObj } // array value [N]byte

type BPtr struct { // pointer to a byte element
	o   *BObj
	idx *Term
}

type BSlice struct {
	o             *BObj
	off, len, cap *Term
}

type VSlice struct {
	a             *Agg
	off, len, cap int
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn   *ssa.Function
	env  []Value
	name string // builtin/intrinsic closure
	nat  func(m *M, args []Value) Value
}

type MapV struct {
	ents []*mapEnt
	idx  map[string]*mapEnt
	sym  bool // has symbolic keys
	n    int
	vt   types.Type
}
type mapEnt struct {
	k    Value
	v    Cell
	dead bool
	key  string
}

type Tuple []Value

type ChanV struct{}

type UPtr struct{ p Value }

// ---- contents

type Content interface{}
type cFlat struct{ cells []*Term }
type cArr struct{ name string }
type cZero struct{}
type cRope struct {
	s    *Str
	flat Content // once materialised
}
type cWrite struct {
	prev Content
	idx  *Term
	val  *Term
}
type cCopy struct {
	prev    Content
	dst     *Term
	src     Content
	soff, n *Term
}

func (m *M) cread(c Content, idx *Term) *Term {
	switch c := c.(type) {
	case *cFlat:
		if idx.op == OConst {
			if idx.c >= uint64(len(c.cells)) {
				return m.byte0
			}
			return c.cells[idx.c]
		}
		return m.mux(c.cells, idx)
	case *cArr:
		return m.tb.Select(c.name, idx)
	case cZero:
		return m.byte0
	case *cRope:
		return m.cread(m.ropeFlat(c), idx)
	case *cWrite:
		e := m.tb.Eq(idx, c.idx)
		if k := m.known(e); k != nil {
			if *k {
				return c.val
			}
			return m.cread(c.prev, idx)
		}
		return m.tb.Ite(e, c.val, m.cread(c.prev, idx))
	case *cCopy:
		d := m.tb.Bin(OSub, idx, c.dst)
		in := m.tb.Ult(d, c.n)
		if k := m.known(in); k != nil {
			if *k {
				return m.cread(c.src, m.tb.Bin(OAdd, d, c.soff))
			}
			return m.cread(c.prev, idx)
		}
		return m.tb.Ite(in, m.cread(c.src, m.tb.Bin(OAdd, d, c.soff)), m.cread(c.prev, idx))
	}
	panic(fmt.Sprintf("cread %T", c))
}

func (m *M) ropeFlat(c *cRope) Content {
	if c.flat != nil {
		return c.flat
	}
	cc, off, _ := m.strContent(c.s)
	if off.isConst() && off.c == 0 {
		c.flat = cc
		return cc
	}
	panic(unsupported("rope offset"))
}

func (m *M) mux(cells []*Term, idx *Term) *Term {
	if len(cells) == 0 {
		return m.byte0
	}
	lo, hi := idx.umin, idx.umax
	if hi >= uint64(len(cells)) {
		hi = uint64(len(cells)) - 1
	}
	if lo > hi {
		return cells[hi]
	}
	k := uint(0)
	for (uint64(1) << k) <= hi {
		k++
	}
	var rec func(base uint64, bits uint) *Term
	rec = func(base uint64, bits uint) *Term {
		if bits == 0 {
			if base > hi {
				base = hi
			}
			return cells[base]
		}
		half := uint64(1) << (bits - 1)
		if base+half > hi {
			return rec(base, bits-1)
		}
		if base+half <= lo {
			return rec(base+half, bits-1)
		}
		l, r := rec(base, bits-1), rec(base+half, bits-1)
		if l == r {
			return l
		}
		c := m.tb.Eq(m.tb.Extract(idx, uint8(bits-1), 1), m.tb.Const(1, 1))
		return m.tb.Ite(c, r, l)
	}
	return rec(0, k)
}

func (m *M) newBObj(n int) *BObj {
	o := &BObj{flat: make([]*Term, n), size: m.tb.Int(n), epoch: m.born()}
	for i := range o.flat {
		o.flat[i] = m.byte0
	}
	return o
}

// born marks objects made on the current path, whose changes need no undoing.
func (m *M) born() uint64 {
	if m.trailOn {
		return m.epoch
	}
	return 0
}

func (m *M) bobjFrom(cells []*Term) *BObj {
	return &BObj{flat: cells, size: m.tb.Int(len(cells)), epoch: m.born()}
}

func (o *BObj) snapshot() Content {
	if o.flat != nil {
		o.shared = true
		return &cFlat{o.flat}
	}
	if o.fn == nil {
		return &cFlat{}
	}
	return o.fn
}

func (m *M) bread(o *BObj, idx *Term) *Term {
	if o.flat != nil {
		if idx.op == OConst {
			return o.flat[idx.c]
		}
		return m.mux(o.flat, idx)
	}
	if o.fn == nil {
		return m.byte0
	}
	return m.cread(o.fn, idx)
}

func (m *M) logObj(o *BObj) {
	if m.trailOn && o.epoch != m.epoch {
		m.trail = append(m.trail, trailEnt{o: o, flat: o.flat, fn: o.fn, shared: o.shared})
	}
}

func (m *M) bwrite(o *BObj, idx, val *Term) {
	if o.flat != nil && idx.op == OConst {
		i := int(idx.c)
		if o.flat[i] == val {
			return
		}
		if o.shared {
			m.logObj(o)
			o.flat = append([]*Term(nil), o.flat...)
			o.shared = false
		} else if m.trailOn && o.epoch != m.epoch {
			m.trail = append(m.trail, trailEnt{o: o, idx: i, old: o.flat[i], elem: true, flat: o.flat})
		}
		o.flat[i] = val
		return
	}
	c := o.snapshot()
	m.logObj(o)
	o.flat = nil
	o.fn = &cWrite{c, idx, val}
}

// bcopy copies n bytes from src content at soff to o at dst.
func (m *M) bcopy(o *BObj, dst *Term, src Content, soff, n *Term) {
	if n.op == OConst && n.c == 0 {
		return
	}
	if o.flat != nil && dst.op == OConst && n.op == OConst {
		vals := make([]*Term, n.c)
		for i := range vals {
			vals[i] = m.cread(src, m.tb.Bin(OAdd, soff, m.tb.Const(64, uint64(i))))
		}
		if !o.shared && len(vals) < len(o.flat)/4 {
			for i, v := range vals {
				m.bwrite(o, m.tb.Const(64, dst.c+uint64(i)), v)
			}
			return
		}
		m.logObj(o)
		nf := append([]*Term(nil), o.flat...)
		copy(nf[dst.c:], vals)
		o.flat = nf
		o.shared = false
		return
	}
	c := o.snapshot()
	m.logObj(o)
	o.flat = nil
	o.fn = &cCopy{c, dst, src, soff, n}
}

type trailEnt struct {
	c      *Cell
	v      Value
	o      *BObj
	idx    int
	old    *Term
	elem   bool
	flat   []*Term
	fn     Content
	shared bool
	undo   func()
}

func (m *M) set(c *Cell, v Value) {
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{c: c, v: c.v})
	}
	c.v = v
}

func (m *M) onUndo(f func()) {
	if m.trailOn {
		m.trail = append(m.trail, trailEnt{undo: f})
	}
}

func (m *M) rollback() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		e := &m.trail[i]
		switch {
		case e.undo != nil:
			e.undo()
		case e.c != nil:
			e.c.v = e.v
		case e.elem:
			e.flat[e.idx] = e.old
		default:
			e.o.flat, e.o.fn, e.o.shared = e.flat, e.fn, e.shared
		}
	}
	m.trail = m.trail[:0]
}

func (m *M) copyVal(v Value) Value {
	switch v := v.(type) {
	case *Agg:
		n := &Agg{e: make([]Cell, len(v.e))}
		for i := range v.e {
			n.e[i].v = m.copyVal(v.e[i].v)
		}
		return n
	case *BArr:
		o := &BObj{size: v.o.size}
		if v.o.flat != nil {
			o.flat = append([]*Term(nil), v.o.flat...)
		} else {
			o.fn = v.o.fn
		}
		return &BArr{o}
	}
	return v
}

func (m *M) load(c *Cell) Value { return m.copyVal(c.v) }

func (m *M) store(c *Cell, v Value) {
	switch v := v.(type) {
	case *Agg:
		if d, ok := c.v.(*Agg); ok && len(d.e) == len(v.e) {
			if d == v {
				return
			}
			for i := range v.e {
				m.store(&d.e[i], v.e[i].v)
			}
			return
		}
		m.set(c, m.copyVal(v))
		return
	case *BArr:
		if d, ok := c.v.(*BArr); ok {
			if d.o == v.o {
				return
			}
			m.logObj(d.o)
			n := m.copyVal(v).(*BArr)
			d.o.flat, d.o.fn, d.o.shared = n.o.flat, n.o.fn, false
			return
		}
		m.set(c, m.copyVal(v))
		return
	}
	m.set(c, v)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func basicWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (m *M) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(u); ok {
			return m.tb.Const(w, 0)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return m.tb.False
		case types.String, types.UntypedString:
			return emptyStr
		case types.Float64, types.Float32, types.UntypedFloat:
			return m.tb.F(0)
		case types.UnsafePointer:
			return UPtr{}
		case types.UntypedNil:
			return nil
		}
		panic(unsupported("zero of " + t.String()))
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		if isByte(u.Elem()) {
			z := m.int0
			return BSlice{nil, z, z, z}
		}
		return VSlice{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		a := &Agg{e: make([]Cell, u.NumFields())}
		for i := range a.e {
			a.e[i].v = m.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		if isByte(u.Elem()) {
			return &BArr{m.newBObj(int(u.Len()))}
		}
		a := &Agg{e: make([]Cell, u.Len())}
		for i := range a.e {
			a.e[i].v = m.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = m.zero(u.At(i).Type())
		}
		return tp
	}
	panic(unsupported("zero of " + t.String()))
}

// mapKey encodes a concrete key; ok=false when symbolic.
func (m *M) mapKey(v Value) (string, bool) {
	switch v := v.(type) {
	case *Term:
		if v.isConst() {
			return fmt.Sprintf("i%d", v.c), true
		}
		if k := m.concKnown(v); k != nil {
			return fmt.Sprintf("i%d", *k), true
		}
		return "", false
	case *Str:
		if s, ok := m.strConst(v); ok {
			return "s" + s, true
		}
		return "", false
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := m.mapKey(v.v)
		return "f" + m.typeID(v.t) + ":" + k, ok
	case *Agg:
		var sb strings.Builder
		for i := range v.e {
			k, ok := m.mapKey(v.e[i].v)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(k), k)
		}
		return "a" + sb.String(), true
	case *BArr:
		var sb strings.Builder
		if v.o.flat == nil {
			return "", false
		}
		for _, c := range v.o.flat {
			if !c.isConst() {
				return "", false
			}
			sb.WriteByte(byte(c.c))
		}
		return "b" + sb.String(), true
	case *Cell:
		return fmt.Sprintf("p%p", v), true
	case *ChanV:
		return fmt.Sprintf("c%p", v), true
	}
	panic(unsupported(fmt.Sprintf("map key %T", v)))
}

func (m *M) typeID(t types.Type) string { return types.TypeString(t, nil) }

func (m *M) mapFind(mv *MapV, k Value) *mapEnt {
	if mv == nil {
		return nil
	}
	ks, ok := m.mapKey(k)
	if ok && !mv.sym {
		return mv.idx[ks]
	}
	if ok {
		if e := mv.idx[ks]; e != nil {
			return e
		}
	}
	if kt, isT := k.(*Term); isT && !ok && !mv.sym && len(mv.ents) > 2 {
		var ents []*mapEnt
		var conds []*Term
		none := m.tb.True
		for _, e := range mv.ents {
			et, okT := e.k.(*Term)
			if e.dead {
				continue
			}
			if !okT || !et.isConst() {
				conds = nil
				break
			}
			c := m.tb.Eq(kt, et)
			if c.isFalse() {
				continue
			}
			ents = append(ents, e)
			conds = append(conds, c)
			none = m.tb.And(none, m.tb.Not(c))
		}
		if conds != nil {
			i := m.choose(append(conds, none))
			if i < len(ents) {
				return ents[i]
			}
			return nil
		}
	}
	for _, e := range mv.ents {
		if e.dead {
			continue
		}
		if ok && e.key != "" {
			continue
		}
		if m.branch(m.eqVal(k, e.k)) {
			return e
		}
	}
	return nil
}

func (m *M) mapSet(mv *MapV, k, v Value) {
	e := m.mapFind(mv, k)
	if e != nil {
		m.set(&e.v, m.copyVal(v))
		return
	}
	e = &mapEnt{k: m.copyVal(k)}
	e.v.v = m.copyVal(v)
	ks, ok := m.mapKey(k)
	oldn, oldsym, olden := mv.n, mv.sym, mv.ents
	if ok {
		e.key = ks
		mv.idx[ks] = e
	} else {
		mv.sym = true
	}
	mv.ents = append(mv.ents[:len(mv.ents):len(mv.ents)], e)
	mv.n++
	m.onUndo(func() {
		mv.n, mv.sym, mv.ents = oldn, oldsym, olden
		if ok {
			delete(mv.idx, ks)
		}
	})
}

func (m *M) mapDelete(mv *MapV, k Value) {
	e := m.mapFind(mv, k)
	if e == nil {
		return
	}
	e.dead = true
	if e.key != "" {
		delete(mv.idx, e.key)
	}
	mv.n--
	m.onUndo(func() {
		e.dead = false
		if e.key != "" {
			mv.idx[e.key] = e
		}
		mv.n++
	})
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abBudget
	abUnknown
	abDone
)

type pathAbort struct {
	kind abortKind
	msg  string
}

func unsupported(s string) pathAbort { return pathAbort{abUnsupported, s} }

type targetPanic struct {
	v   Value // Iface
	msg string
}
