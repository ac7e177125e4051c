package main

import (
	"fmt"
	"go/types"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	K byte // 'b' branch, 'c' concretised value, 'x' concretise excluding
	V uint64
	X []uint64
}

type Work struct {
	prefix []Dec
	model  *Model
}

type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"` // assert, panic, budget
	Msg     string            `json:"msg"`
	Inputs  map[string]string `json:"inputs"`
	Where   string            `json:"where,omitempty"`
}

// M is one worker: interpreter + solver + path state.
type M struct {
	eng     *Engine
	tb      *TB
	sol     *Solver
	prog    *ssa.Program
	byte0   *Term
	int0    *Term
	trail   []trailEnt
	trailOn bool

	// path state
	prefix      []Dec
	pos         int
	trace       []Dec
	model       *Model
	ev          *evaluator
	facts       map[*Term]bool
	conc        map[*Term]uint64
	inputs      []inputDecl
	obs         []*Str
	obsBad      bool
	assumesSeen int
	steps       int64
	maxSteps    int64
	epoch       uint64 // number of the path
	depth       int
	nAssert     int
	viols       []Violation
	mapRev      bool
	callDepth   int

	inited    map[*ssa.Package]bool
	globals   map[*ssa.Global]*Cell
	fninfo    map[*ssa.Function]*fnInfo
	consts    map[*ssa.Const]Value
	methods   map[methKey]*ssa.Function
	intr      map[*ssa.Function]intrinsic
	impl      map[implKey]bool
	files     map[string]Value
	seltabs   map[*MapV]*SelTab
	funcsSeen map[*ssa.Function]bool
	curFn     *ssa.Function
	linMemo   map[*Term]*lin
	normMemo  map[*lin]*cmpLin
	cmpMemo   map[*Term]*cmpLin
	abnd      map[*Term]bnd
	lbnd      map[string]bnd
	cs        []*ssa.Function
	extra     map[string]Value
	recoverFr *frame
	w         *Worker
	h         *Harness
	onceDone  map[*Cell]bool
}

type implKey struct {
	t types.Type
	i *types.Interface
}

type inputDecl struct {
	name string
	kind string // u8,u16,...,bool, bytes
	t    *Term  // scalar
	arr  Content
	n    *Term
	max  int
}

type methKey struct {
	t    types.Type
	name string
	pkg  *types.Package
}

type fnInfo struct {
	slots map[ssa.Value]int
	n     int
}

func NewM(e *Engine) *M {
	tb := NewTB()
	m := &M{eng: e, tb: tb, prog: e.prog, sol: NewSolver(tb, e.solverBin, e.solverTimeout),
		inited: map[*ssa.Package]bool{}, globals: map[*ssa.Global]*Cell{}, fninfo: map[*ssa.Function]*fnInfo{},
		consts: map[*ssa.Const]Value{}, methods: map[methKey]*ssa.Function{}, intr: map[*ssa.Function]intrinsic{},
		impl: map[implKey]bool{}, funcsSeen: map[*ssa.Function]bool{}, onceDone: map[*Cell]bool{}, linMemo: map[*Term]*lin{}, normMemo: map[*lin]*cmpLin{}, cmpMemo: map[*Term]*cmpLin{}}
	m.byte0 = tb.Const(8, 0)
	m.int0 = tb.Const(64, 0)
	return m
}

func (m *M) known(c *Term) *bool {
	t, f := true, false
	if c.isTrue() {
		return &t
	}
	if c.isFalse() {
		return &f
	}
	neg := false
	if c.op == OBNot {
		c = c.a0
		neg = true
	}
	if v, ok := m.facts[c]; ok {
		r := v != neg
		return &r
	}
	return nil
}

func (m *M) concKnown(t *Term) *uint64 {
	if t.op == OConst {
		return &t.c
	}
	if v, ok := m.conc[t]; ok {
		return &v
	}
	return nil
}

func (m *M) learn(c *Term, v bool) {
	if c.op == OBNot {
		m.learn(c.a0, !v)
		return
	}
	if c.isConst() {
		return
	}
	if _, ok := m.facts[c]; ok {
		return
	}
	m.facts[c] = v
	m.learnLin(c, v)
	if v {
		if c.op == OBAnd {
			m.learn(c.a0, true)
			m.learn(c.a1, true)
		}
		if c.op == OEq && c.a1.op == OConst && c.a0.w != 0 {
			m.learnConst(c.a0, c.a1.c)
		}
	} else if c.op == OBOr {
		m.learn(c.a0, false)
		m.learn(c.a1, false)
	}
}

func (m *M) learnConst(t *Term, v uint64) {
	if _, ok := m.conc[t]; ok {
		return
	}
	m.conc[t] = v
	switch t.op {
	case OAdd:
		if t.a1.op == OConst {
			m.learnConst(t.a0, (v-t.a1.c)&mask(t.w))
		}
	case OZext:
		m.learnConst(t.a0, v)
	}
	z := m.tb.Zext(t, 64)
	if z != t && z.op != OConst {
		m.conc[z] = v
	}
}

func (m *M) addConstraint(c *Term) {
	if c.isTrue() {
		return
	}
	m.learn(c, true)
	m.sol.Assert(c)
}

func (m *M) setModel(md *Model) {
	m.model = md
	m.ev = &evaluator{m: md, memo: map[*Term]uint64{}}
}

func (m *M) eval(t *Term) uint64 { return m.ev.eval(t) }

// branch decides a boolean term, forking when both sides are feasible.
func (m *M) branch(c *Term) bool {
	if c.op == OConst {
		return c.c == 1
	}
	c = m.simp(c)
	if c.op == OConst {
		return c.c == 1
	}
	if k := m.decide(c); k != nil {
		return *k
	}
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		if d.K != 'b' {
			panic(fmt.Sprintf("prefix mismatch: want b got %c at %d", d.K, m.pos))
		}
		m.pos++
		m.trace = append(m.trace, d)
		v := d.V == 1
		if v {
			m.addConstraint(c)
		} else {
			m.addConstraint(m.tb.Not(c))
		}
		return v
	}
	v := m.eval(c) != 0
	other := c
	if v {
		other = m.tb.Not(c)
	}
	res, md := m.check(other, "branch")
	if res == Sat {
		alt := append(append(make([]Dec, 0, len(m.trace)+1), m.trace...), Dec{K: 'b', V: b2u(!v)})
		m.push(Work{alt, md})
	} else if res == Unknown {
		m.note("unknown", "branch query unknown in "+m.where())
	}
	m.trace = append(m.trace, Dec{K: 'b', V: b2u(v)})
	if v {
		m.addConstraint(c)
	} else {
		m.addConstraint(m.tb.Not(c))
	}
	return v
}

// simp substitutes known constants at the leaves of a (small) comparison.
func (m *M) simp(c *Term) *Term {
	if len(m.conc) == 0 {
		return c
	}
	switch c.op {
	case OBNot:
		return m.tb.Not(m.simp(c.a0))
	case OEq, OUlt, OSlt:
		if c.a0.w == 0 || c.a0.w == wFP {
			return c
		}
		x, y := m.subst(c.a0, 6), m.subst(c.a1, 6)
		if x == c.a0 && y == c.a1 {
			return c
		}
		switch c.op {
		case OEq:
			return m.tb.Eq(x, y)
		case OUlt:
			return m.tb.Ult(x, y)
		default:
			return m.tb.Slt(x, y)
		}
	}
	return c
}

func (m *M) subst(t *Term, d int) *Term {
	if t.op == OConst || d == 0 || !t.nvars || t.w == wFP || t.w == 0 {
		return t
	}
	if v, ok := m.conc[t]; ok {
		return m.tb.Const(t.w, v)
	}
	switch t.op {
	case OAdd, OSub, OMul, OAnd, OOr, OXor, OShl, OLshr, OAshr, OUDiv, OURem:
		x, y := m.subst(t.a0, d-1), m.subst(t.a1, d-1)
		if x == t.a0 && y == t.a1 {
			return t
		}
		return m.tb.Bin(t.op, x, y)
	case OZext:
		x := m.subst(t.a0, d-1)
		if x == t.a0 {
			return t
		}
		return m.tb.Zext(x, t.w)
	case OExtract:
		x := m.subst(t.a0, d-1)
		if x == t.a0 {
			return t
		}
		return m.tb.Extract(x, uint8(t.c), t.w)
	}
	return t
}

func (m *M) assume(c *Term) {
	if c.isTrue() {
		return
	}
	if c.isFalse() {
		panic(pathAbort{abInfeasible, ""})
	}
	if k := m.known(c); k != nil {
		if *k {
			return
		}
		panic(pathAbort{abInfeasible, ""})
	}
	if m.pos < len(m.prefix) {
		m.addConstraint(c)
		return
	}
	if m.eval(c) == 0 {
		res, md := m.check(c, "assume")
		if res == Unsat {
			panic(pathAbort{abInfeasible, ""})
		}
		if res == Unknown {
			panic(pathAbort{abUnknown, "assume"})
		}
		m.addConstraint(c)
		m.setModel(md)
		return
	}
	m.addConstraint(c)
}

const maxConc = 4096

func (m *M) concretize(t *Term) uint64 {
	if t.op == OConst {
		return t.c
	}
	if v, ok := m.conc[t]; ok {
		return v
	}
	if s := m.subst(t, 6); s.op == OConst {
		return s.c
	}
	if b, ok := m.rangeOf(t); ok && b.lo == b.hi {
		m.conc[t] = uint64(b.lo) & mask(t.w)
		return m.conc[t]
	}
	var excl []uint64
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		if d.K == 'c' {
			m.trace = append(m.trace, d)
			m.addConstraint(m.tb.Eq(t, m.tb.Const(t.w, d.V)))
			m.conc[t] = d.V
			return d.V
		}
		if d.K != 'x' {
			panic(fmt.Sprintf("prefix mismatch: want c got %c", d.K))
		}
		excl = d.X
	}
	v := m.eval(t)
	ne := m.tb.Not(m.tb.Eq(t, m.tb.Const(t.w, v)))
	for _, x := range excl {
		ne = m.tb.And(ne, m.tb.Not(m.tb.Eq(t, m.tb.Const(t.w, x))))
	}
	if len(excl) > maxConc {
		m.note("budget", "concretisation limit in "+m.where())
	} else {
		res, md := m.check(ne, "conc")
		if res == Sat {
			nx := append(append([]uint64{}, excl...), v)
			alt := append(append(make([]Dec, 0, len(m.trace)+1), m.trace...), Dec{K: 'x', X: nx})
			m.push(Work{alt, md})
		} else if res == Unknown {
			m.note("unknown", "concretise query unknown in "+m.where())
		}
	}
	m.trace = append(m.trace, Dec{K: 'c', V: v})
	m.addConstraint(m.tb.Eq(t, m.tb.Const(t.w, v)))
	m.conc[t] = v
	return v
}

// choose picks one of several mutually exclusive, together exhaustive
// conditions, forking over the feasible others.
func (m *M) choose(conds []*Term) int {
	if m.pos < len(m.prefix) && m.prefix[m.pos].K == 'c' {
		d := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, d)
		m.addConstraint(conds[d.V])
		return int(d.V)
	}
	var excl []uint64
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		if d.K != 'x' {
			panic(fmt.Sprintf("prefix mismatch: want c got %c", d.K))
		}
		m.pos++
		excl = d.X
	}
	out := map[uint64]bool{}
	for _, x := range excl {
		out[x] = true
	}
	v := -1
	rest := m.tb.False
	for i, c := range conds {
		if out[uint64(i)] {
			continue
		}
		if v < 0 && m.eval(c) != 0 {
			v = i
			continue
		}
		if k := m.known(c); k != nil && !*k {
			continue
		}
		rest = m.tb.Or(rest, m.simp(c))
	}
	if v < 0 {
		panic(unsupported("choose: no condition holds"))
	}
	if !rest.isFalse() {
		res, md := m.check(rest, "choose")
		if res == Sat {
			nx := append(append([]uint64{}, excl...), uint64(v))
			alt := append(append(make([]Dec, 0, len(m.trace)+1), m.trace...), Dec{K: 'x', X: nx})
			m.push(Work{alt, md})
		} else if res == Unknown {
			m.note("unknown", "choice query unknown in "+m.where())
		}
	}
	m.trace = append(m.trace, Dec{K: 'c', V: uint64(v)})
	m.addConstraint(conds[v])
	return v
}

func (m *M) where() string {
	if m.curFn == nil {
		return "?"
	}
	s := m.curFn.String()
	for i, n := m.callDepth, 0; i > 0 && i < len(m.cs) && n < 5; i-- {
		if m.cs[i] != nil && m.cs[i] != m.curFn {
			s += " < " + m.cs[i].String()
			n++
		}
	}
	return s
}

var prof sync.Map
var profOn = os.Getenv("ENGINE_PROF") != ""

func (m *M) check(c *Term, what string) (Result, *Model) {
	if !profOn {
		return m.sol.Check(c, true)
	}
	t0 := time.Now()
	r, md := m.sol.Check(c, true)
	k := fmt.Sprintf("%s %v %s", what, r, m.where())
	v, _ := prof.LoadOrStore(k, new([2]int64))
	p := v.(*[2]int64)
	atomic.AddInt64(&p[0], 1)
	atomic.AddInt64(&p[1], int64(time.Since(t0)))
	return r, md
}

// assert checks that c holds for every value on this path.
func (m *M) assert(c *Term, msg string) {
	m.nAssert++
	if c.isTrue() {
		return
	}
	if k := m.decide(c); k != nil && *k {
		return
	}
	if m.pos < len(m.prefix) {
		// already checked on the path that created this prefix
		m.addConstraint(c)
		return
	}
	if m.eval(c) == 0 {
		m.report("assert", msg, m.model)
	} else {
		res, md := m.check(m.tb.Not(c), "assert")
		if res == Sat {
			m.report("assert", msg, md)
		} else if res == Unknown {
			m.note("unknown", "assert query unknown: "+msg)
		} else {
			m.h.mu.Lock()
			m.h.discharge++
			m.h.mu.Unlock()
		}
	}
	if c.isFalse() {
		panic(pathAbort{abDone, "assertion failed"})
	}
	m.assume(c)
}

func (m *M) report(kind, msg string, md *Model) {
	m.violation(Violation{Harness: m.h.name, Kind: kind, Msg: msg, Inputs: m.inputsOf(md), Where: m.where()})
}

func (m *M) inputsOf(md *Model) map[string]string {
	e := &evaluator{m: md, memo: map[*Term]uint64{}}
	out := map[string]string{}
	for _, in := range m.inputs {
		if in.kind == "bytes" {
			n := e.eval(in.n)
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(m.evalContent(e, in.arr, uint64(i)))
			}
			out[in.name] = fmt.Sprintf("%x", b)
		} else {
			out[in.name] = fmt.Sprintf("%d", e.eval(in.t))
		}
	}
	return out
}

var bigMu sync.Mutex
