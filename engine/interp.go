package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	fn        *ssa.Function
	info      *fnInfo
	regs      []Value
	env       []Value
	defers    []deferred
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	panicking *targetPanic
	recovered bool
	result    Value
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

func (m *M) info(fn *ssa.Function) *fnInfo {
	if fi, ok := m.fninfo[fn]; ok {
		return fi
	}
	fi := &fnInfo{slots: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.slots[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	m.fninfo[fn] = fi
	return fi
}

func (m *M) ensureInit(p *ssa.Package) {
	if p == nil || m.inited[p] {
		return
	}
	m.inited[p] = true
	if skipInit[p.Pkg.Path()] {
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	p.Build()
	save := m.trailOn
	m.trailOn = false
	sf := m.curFn
	steps := m.steps
	done := false
	defer func() {
		if !done { // stopped half-way: not usable
			m.inited[p] = false
			m.trailOn = save
			for g := range m.globals { // the guard of the initialiser among them
				if g.Pkg == p {
					delete(m.globals, g)
				}
			}
		}
	}()
	m.call(f, nil, nil)
	done = true
	m.steps = steps
	m.curFn = sf
	m.trailOn = save
}

var skipInit = map[string]bool{"runtime": true, "syscall": true, "os": true, "internal/poll": true, "net/http": true, "net": true, "crypto/tls": true,
	"reflect": true, "errors": true, "internal/godebug": true, "internal/cpu": true, "os/signal": true, "crypto/x509": true, "vendor/golang.org/x/net/http2": true, "internal/oserror": false}

func (m *M) global(g *ssa.Global) *Cell {
	if c, ok := m.globals[g]; ok {
		if !m.inited[g.Pkg] {
			m.ensureInit(g.Pkg)
		}
		return c
	}
	c := &Cell{v: m.zero(g.Type().(*types.Pointer).Elem())}
	if g.Name() == "Args" && g.Pkg.Pkg.Path() == "os" {
		c.v = VSlice{&Agg{e: []Cell{{v: lit("gpgpdump")}}}, 0, 1, 1}
	}
	if g.Pkg.Pkg.Path() == "os" && strings.HasPrefix(g.Name(), "Err") { // os is not initialised
		if p := m.eng.pkg("io/fs"); p != nil {
			if f, ok := p.Members[g.Name()].(*ssa.Global); ok {
				save := m.trailOn
				m.trailOn = false
				c.v = m.load(m.global(f))
				m.trailOn = save
			}
		}
	}
	m.globals[g] = c
	if !m.inited[g.Pkg] {
		m.ensureInit(g.Pkg)
	}
	return c
}

func (m *M) get(fr *frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return m.constVal(v)
	case *ssa.Global:
		return m.global(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return &Closure{name: v.Name()}
	case *ssa.FreeVar:
		return fr.regs[fr.info.slots[v]]
	}
	i, ok := fr.info.slots[v]
	if !ok {
		panic(fmt.Sprintf("no slot for %s in %s", v, fr.fn))
	}
	return fr.regs[i]
}

func (m *M) constVal(c *ssa.Const) Value {
	if v, ok := m.consts[c]; ok {
		return v
	}
	v := m.constVal1(c)
	switch v.(type) {
	case *Agg, *BArr:
	default:
		m.consts[c] = v
	}
	return v
}

func (m *M) constVal1(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Interface); ok { // type param cores
		_ = tp
		panic(unsupported("const of interface type"))
	}
	b, ok := t.(*types.Basic)
	if !ok {
		panic(unsupported("const type " + c.Type().String()))
	}
	if w, signed, ok := basicWidth(b); ok {
		cv := constant.ToInt(c.Value)
		if signed {
			i, ok := constant.Int64Val(cv)
			if !ok {
				u, _ := constant.Uint64Val(cv)
				i = int64(u)
			}
			return m.tb.Const(w, uint64(i))
		}
		u, ok := constant.Uint64Val(cv)
		if !ok {
			i, _ := constant.Int64Val(cv)
			u = uint64(i)
		}
		return m.tb.Const(w, u)
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return m.tb.Bool(constant.BoolVal(c.Value))
	case types.String, types.UntypedString:
		if c.Value.Kind() == constant.Int {
			i, _ := constant.Int64Val(c.Value)
			return lit(string(rune(i)))
		}
		return lit(constant.StringVal(c.Value))
	case types.Float64, types.Float32, types.UntypedFloat:
		f, _ := constant.Float64Val(c.Value)
		return m.tb.F(f)
	}
	panic(unsupported("const " + c.String()))
}

func (m *M) rtPanic(msg string) {
	panic(targetPanic{msg: "runtime error: " + msg, v: Iface{t: m.eng.rtErrType, v: lit("runtime error: " + msg)}})
}

// call executes fn with args.
func (m *M) call(fn *ssa.Function, args []Value, env []Value) Value {
	if in := m.intrinsicFor(fn); in != nil {
		return in(m, fn, args)
	}
	if fn.Blocks == nil {
		if fn.Pkg != nil {
			fn.Pkg.Build()
		}
		if fn.Blocks == nil {
			panic(unsupported("external function " + fn.String()))
		}
	}
	if fn.Pkg != nil && fn.Synthetic == "package initializer" {
		if m.inited[fn.Pkg] && m.curFn != nil && m.curFn.Pkg != fn.Pkg && m.curFn.Synthetic == "package initializer" {
			return nil // imports are initialised lazily
		}
		if !m.inited[fn.Pkg] {
			return nil
		}
	}
	if fn.Pkg != nil && !m.inited[fn.Pkg] {
		m.ensureInit(fn.Pkg)
	}
	m.callDepth++
	if m.callDepth > 400 {
		panic(pathAbort{abBudget, "call depth in " + fn.String()})
	}
	if !m.funcsSeen[fn] {
		m.funcsSeen[fn] = true
		m.eng.sawFunc(fn)
	}
	for len(m.cs) <= m.callDepth {
		m.cs = append(m.cs, nil)
	}
	m.cs[m.callDepth] = fn
	saved := m.curFn
	m.curFn = fn
	fi := m.info(fn)
	fr := &frame{fn: fn, info: fi, regs: make([]Value, fi.n), env: env}
	for i := range fn.Params {
		fr.regs[i] = args[i]
	}
	for i := range fn.FreeVars {
		fr.regs[len(fn.Params)+i] = env[i]
	}
	fr.block = fn.Blocks[0]
	m.runFrame(fr)
	m.curFn = saved
	m.callDepth--
	if fr.panicking != nil {
		panic(*fr.panicking)
	}
	return fr.result
}

func (m *M) runFrame(fr *frame) {
	for {
		p := m.runBlocks(fr)
		if p == nil {
			return
		}
		// a target panic: run defers
		fr.panicking = p
		m.runDefers(fr)
		if fr.panicking != nil {
			return
		}
		if fr.fn.Recover == nil {
			// return zero values
			res := fr.fn.Signature.Results()
			switch res.Len() {
			case 0:
				fr.result = nil
			case 1:
				fr.result = m.zero(res.At(0).Type())
			default:
				fr.result = m.zero(res)
			}
			return
		}
		fr.prev, fr.block = fr.block, fr.fn.Recover
	}
}

func (m *M) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		p := m.protect(func() {
			sv := m.recoverFr
			m.recoverFr = fr
			m.callValue(d.fn, d.args)
			m.recoverFr = sv
		})
		if p != nil {
			fr.panicking = p
		}
	}
}

func (m *M) protect(f func()) (p *targetPanic) {
	cd, cf := m.callDepth, m.curFn
	rf := m.recoverFr
	defer func() {
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok {
				m.callDepth, m.curFn = cd, cf
				m.recoverFr = rf
				p = &tp
				return
			}
			panic(r)
		}
	}()
	f()
	return nil
}

func (m *M) runBlocks(fr *frame) *targetPanic {
	if !hasDefer(fr.fn) {
		m.exec(fr)
		return nil
	}
	return m.protect(func() { m.exec(fr) })
}

var hasDeferCache = map[*ssa.Function]bool{}

func hasDefer(fn *ssa.Function) bool {
	bigMu.Lock()
	defer bigMu.Unlock()
	if v, ok := hasDeferCache[fn]; ok {
		return v
	}
	r := false
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				r = true
			}
		}
	}
	hasDeferCache[fn] = r
	return r
}

func (m *M) exec(fr *frame) {
	for {
		blk := fr.block
		// phis
		i := 0
		if len(blk.Instrs) > 0 {
			if _, ok := blk.Instrs[0].(*ssa.Phi); ok {
				var pi int
				for k, p := range blk.Preds {
					if p == fr.prev {
						pi = k
						break
					}
				}
				var vals []Value
				for ; i < len(blk.Instrs); i++ {
					ph, ok := blk.Instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, m.get(fr, ph.Edges[pi]))
				}
				for k, v := range vals {
					fr.regs[fr.info.slots[blk.Instrs[k].(*ssa.Phi)]] = v
				}
			}
		}
		next := (*ssa.BasicBlock)(nil)
		for ; i < len(blk.Instrs); i++ {
			m.steps++
			if m.steps > m.maxSteps {
				panic(pathAbort{abBudget, "step budget in " + fr.fn.String()})
			}
			if m.steps&0x3fff == 0 && m.eng.expired() {
				panic(pathAbort{abBudget, "time budget"})
			}
			switch in := blk.Instrs[i].(type) {
			case *ssa.If:
				c := m.get(fr, in.Cond).(*Term)
				if m.branch(c) {
					next = blk.Succs[0]
				} else {
					next = blk.Succs[1]
				}
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = m.get(fr, in.Results[0])
				default:
					t := make(Tuple, len(in.Results))
					for k, r := range in.Results {
						t[k] = m.get(fr, r)
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := m.get(fr, in.X).(Iface)
				panic(targetPanic{v: v, msg: m.panicMsg(v)})
			case *ssa.RunDefers:
				m.runDefers(fr)
				if fr.panicking != nil {
					p := *fr.panicking
					fr.panicking = nil
					panic(p)
				}
			default:
				m.instr(fr, in)
			}
		}
		if next == nil {
			panic("block without terminator in " + fr.fn.String())
		}
		fr.prev, fr.block = blk, next
	}
}

func (m *M) panicMsg(v Iface) string {
	defer func() { recover() }()
	if v.t == nil {
		return "nil"
	}
	s := m.fmtArg(v, 'v', fmtFlags{})
	e := m.ev
	if e == nil {
		return "?"
	}
	return m.evalStr(e, s)
}

func (m *M) setReg(fr *frame, v ssa.Value, x Value) { fr.regs[fr.info.slots[v]] = x }

func (m *M) instr(fr *frame, instr ssa.Instruction) {
	switch in := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		m.setReg(fr, in, &Cell{v: m.zero(t)})
	case *ssa.UnOp:
		m.setReg(fr, in, m.unop(fr, in))
	case *ssa.BinOp:
		m.setReg(fr, in, m.cv(m.binop(in.Op, in.X.Type(), m.cv(m.get(fr, in.X)), m.cv(m.get(fr, in.Y)), in.Y.Type())))
	case *ssa.Call:
		m.setReg(fr, in, m.doCall(fr, in.Common()))
	case *ssa.Defer:
		fn, args := m.prepCall(fr, in.Common())
		fr.defers = append(fr.defers, deferred{fn: fn, args: args, call: in.Common()})
	case *ssa.Go:
		panic(unsupported("go statement in " + fr.fn.String()))
	case *ssa.Store:
		m.storePtr(m.get(fr, in.Addr), m.get(fr, in.Val))
	case *ssa.FieldAddr:
		p := m.get(fr, in.X)
		c, ok := p.(*Cell)
		if !ok {
			panic(unsupported(fmt.Sprintf("FieldAddr on %T", p)))
		}
		if c == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := c.v.(*Agg)
		if !ok {
			panic(unsupported(fmt.Sprintf("FieldAddr cell %T in %s", c.v, fr.fn)))
		}
		m.setReg(fr, in, &a.e[in.Field])
	case *ssa.Field:
		a := m.get(fr, in.X).(*Agg)
		m.setReg(fr, in, a.e[in.Field].v)
	case *ssa.IndexAddr:
		m.setReg(fr, in, m.indexAddr(fr, in))
	case *ssa.Index:
		m.setReg(fr, in, m.index(fr, in))
	case *ssa.Lookup:
		m.setReg(fr, in, m.lookup(fr, in))
	case *ssa.MapUpdate:
		mv := m.get(fr, in.Map).(*MapV)
		if mv == nil {
			panic(targetPanic{msg: "assignment to entry in nil map", v: Iface{t: m.eng.rtErrType, v: lit("assignment to entry in nil map")}})
		}
		m.mapSet(mv, m.get(fr, in.Key), m.get(fr, in.Value))
	case *ssa.MakeMap:
		m.setReg(fr, in, &MapV{idx: map[string]*mapEnt{}, vt: in.Type().Underlying().(*types.Map).Elem()})
	case *ssa.MakeSlice:
		m.setReg(fr, in, m.makeSlice(in.Type(), m.get(fr, in.Len).(*Term), m.get(fr, in.Cap).(*Term)))
	case *ssa.MakeChan:
		m.setReg(fr, in, &ChanV{})
	case *ssa.MakeClosure:
		env := make([]Value, len(in.Bindings))
		for i, b := range in.Bindings {
			env[i] = m.get(fr, b)
		}
		m.setReg(fr, in, &Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.MakeInterface:
		m.setReg(fr, in, Iface{t: in.X.Type(), v: m.copyVal(m.get(fr, in.X))})
	case *ssa.ChangeInterface:
		m.setReg(fr, in, m.get(fr, in.X))
	case *ssa.ChangeType:
		m.setReg(fr, in, m.get(fr, in.X))
	case *ssa.Convert:
		m.setReg(fr, in, m.convert(m.get(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		m.setReg(fr, in, m.convert(m.get(fr, in.X), in.X.Type(), in.Type()))
	case *ssa.SliceToArrayPointer:
		panic(unsupported("SliceToArrayPointer"))
	case *ssa.Slice:
		m.setReg(fr, in, m.slice(fr, in))
	case *ssa.TypeAssert:
		m.setReg(fr, in, m.typeAssert(m.get(fr, in.X).(Iface), in.AssertedType, in.CommaOk))
	case *ssa.Extract:
		m.setReg(fr, in, m.get(fr, in.Tuple).(Tuple)[in.Index])
	case *ssa.Range:
		m.setReg(fr, in, m.rangeStart(m.get(fr, in.X)))
	case *ssa.Next:
		m.setReg(fr, in, m.rangeNext(m.get(fr, in.Iter), in))
	case *ssa.Select:
		panic(unsupported("select in " + fr.fn.String()))
	case *ssa.Send:
		panic(unsupported("send in " + fr.fn.String()))
	default:
		panic(unsupported(fmt.Sprintf("instr %T", instr)))
	}
}

// cv replaces a value by the constant the path has fixed it to.
func (m *M) cv(v Value) Value {
	if t, ok := v.(*Term); ok && t.op != OConst && t.w > 1 && t.w != wFP {
		if c, ok := m.conc[t]; ok {
			return m.tb.Const(t.w, c)
		}
	}
	return v
}

func (m *M) cvT(t *Term) *Term { return m.cv(t).(*Term) }

func (m *M) loadPtr(p Value) Value {
	switch p := p.(type) {
	case *Cell:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.load(p)
	case *BPtr:
		return m.bread(p.o, p.idx)
	}
	panic(unsupported(fmt.Sprintf("load from %T", p)))
}

func (m *M) storePtr(p, v Value) {
	switch p := p.(type) {
	case *Cell:
		if p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		m.store(p, v)
		return
	case *BPtr:
		m.bwrite(p.o, p.idx, v.(*Term))
		return
	}
	panic(unsupported(fmt.Sprintf("store to %T", p)))
}

func (m *M) unop(fr *frame, in *ssa.UnOp) Value {
	x := m.get(fr, in.X)
	switch in.Op {
	case token.MUL:
		return m.loadPtr(x)
	case token.NOT:
		return m.tb.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.w == wFP {
			return m.tb.FBin(OFSub, m.tb.F(math.Copysign(0, -1)), t)
		}
		return m.tb.Un(ONeg, t)
	case token.XOR:
		return m.tb.Un(ONot, x.(*Term))
	case token.ARROW:
		panic(unsupported("channel receive in " + fr.fn.String()))
	}
	panic(unsupported("unop " + in.Op.String()))
}

func isSigned(t types.Type) bool {
	if b, ok := t.Underlying().(*types.Basic); ok {
		_, s, _ := basicWidth(b)
		return s
	}
	return false
}

func (m *M) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	switch op {
	case token.EQL:
		return m.eqVal(x, y)
	case token.NEQ:
		return m.tb.Not(m.eqVal(x, y))
	}
	if sx, ok := x.(*Str); ok {
		sy := y.(*Str)
		switch op {
		case token.ADD:
			return m.concat(sx, sy)
		case token.LSS:
			return m.tb.Bool(m.strCmp(sx, sy) < 0)
		case token.LEQ:
			return m.tb.Bool(m.strCmp(sx, sy) <= 0)
		case token.GTR:
			return m.tb.Bool(m.strCmp(sx, sy) > 0)
		case token.GEQ:
			return m.tb.Bool(m.strCmp(sx, sy) >= 0)
		}
	}
	a, ok := x.(*Term)
	if !ok {
		panic(unsupported(fmt.Sprintf("binop %s on %T", op, x)))
	}
	b := y.(*Term)
	if a.w == wFP {
		switch op {
		case token.ADD:
			return m.tb.FBin(OFAdd, a, b)
		case token.SUB:
			return m.tb.FBin(OFSub, a, b)
		case token.MUL:
			return m.tb.FBin(OFMul, a, b)
		case token.QUO:
			return m.tb.FBin(OFDiv, a, b)
		case token.LSS:
			return m.tb.FLt(a, b)
		case token.GTR:
			return m.tb.FLt(b, a)
		case token.LEQ:
			return m.tb.Or(m.tb.FLt(a, b), m.tb.FEq(a, b))
		case token.GEQ:
			return m.tb.Or(m.tb.FLt(b, a), m.tb.FEq(a, b))
		}
	}
	if a.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return m.tb.And(a, b)
		case token.OR, token.LOR:
			return m.tb.Or(a, b)
		}
		panic(unsupported("bool op " + op.String()))
	}
	signed := isSigned(t)
	switch op {
	case token.ADD:
		return m.tb.Bin(OAdd, a, b)
	case token.SUB:
		return m.tb.Bin(OSub, a, b)
	case token.MUL:
		return m.tb.Bin(OMul, a, b)
	case token.QUO, token.REM:
		if m.branch(m.tb.Eq(b, m.tb.Const(b.w, 0))) {
			m.rtPanic("integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.REM && signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return m.tb.Bin(o, a, b)
	case token.AND:
		return m.tb.Bin(OAnd, a, b)
	case token.OR:
		return m.tb.Bin(OOr, a, b)
	case token.XOR:
		return m.tb.Bin(OXor, a, b)
	case token.AND_NOT:
		return m.tb.Bin(OAnd, a, m.tb.Un(ONot, b))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if m.branch(m.tb.Slt(b, m.tb.Const(b.w, 0))) {
				m.rtPanic("negative shift amount")
			}
		}
		// bring the count to a's width, saturating
		var cnt *Term
		if b.w <= a.w {
			cnt = m.tb.Zext(b, a.w)
		} else {
			big := m.tb.Not(m.tb.Ult(b, m.tb.Const(b.w, uint64(a.w))))
			cnt = m.tb.Ite(big, m.tb.Const(a.w, uint64(a.w)), m.tb.Extract(b, 0, a.w))
		}
		o := OShl
		if op == token.SHR {
			o = OLshr
			if signed {
				o = OAshr
			}
		}
		return m.tb.Bin(o, a, cnt)
	case token.LSS:
		if signed {
			return m.tb.Slt(a, b)
		}
		return m.tb.Ult(a, b)
	case token.LEQ:
		if signed {
			return m.tb.Sle(a, b)
		}
		return m.tb.Ule(a, b)
	case token.GTR:
		if signed {
			return m.tb.Slt(b, a)
		}
		return m.tb.Ult(b, a)
	case token.GEQ:
		if signed {
			return m.tb.Sle(b, a)
		}
		return m.tb.Ule(b, a)
	}
	panic(unsupported("binop " + op.String()))
}

func (m *M) strCmp(a, b *Str) int {
	x, y := m.sbytes(a), m.sbytes(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		if m.branch(m.tb.Eq(x[i], y[i])) {
			continue
		}
		if m.branch(m.tb.Ult(x[i], y[i])) {
			return -1
		}
		return 1
	}
	return len(x) - len(y)
}

func (m *M) eqVal(x, y Value) *Term {
	switch a := x.(type) {
	case *Term:
		return m.tb.Eq(a, y.(*Term))
	case *Str:
		return m.strEq(a, y.(*Str))
	case *Cell:
		switch b := y.(type) {
		case *Cell:
			return m.tb.Bool(a == b)
		case *BPtr:
			return m.tb.False
		}
	case *BPtr:
		if b, ok := y.(*BPtr); ok {
			if a.o != b.o {
				return m.tb.False
			}
			return m.tb.Eq(a.idx, b.idx)
		}
		return m.tb.False
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			panic(unsupported(fmt.Sprintf("eq iface with %T", y)))
		}
		if a.t == nil || b.t == nil {
			return m.tb.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return m.tb.False
		}
		if !types.Comparable(a.t) {
			m.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return m.eqVal(a.v, b.v)
	case *Agg:
		b := y.(*Agg)
		r := m.tb.True
		for i := range a.e {
			r = m.tb.And(r, m.eqVal(a.e[i].v, b.e[i].v))
		}
		return r
	case *BArr:
		b := y.(*BArr)
		n := int(a.o.size.c)
		r := m.tb.True
		for i := 0; i < n; i++ {
			r = m.tb.And(r, m.tb.Eq(m.bread(a.o, m.tb.Int(i)), m.bread(b.o, m.tb.Int(i))))
		}
		return r
	case *Closure:
		b, _ := y.(*Closure)
		return m.tb.Bool(a == nil && b == nil)
	case *MapV:
		b, _ := y.(*MapV)
		return m.tb.Bool(a == b)
	case BSlice:
		b := y.(BSlice)
		return m.tb.Bool(a.o == nil && b.o == nil)
	case VSlice:
		b := y.(VSlice)
		return m.tb.Bool(a.a == nil && b.a == nil)
	case *ChanV:
		return m.tb.Bool(a == y.(*ChanV))
	case UPtr:
		b := y.(UPtr)
		return m.tb.Bool(a.p == b.p)
	}
	panic(unsupported(fmt.Sprintf("eq %T %T", x, y)))
}

// inRange branches on 0 <= i < n, panicking otherwise.
func (m *M) checkIndex(i, n *Term) {
	ok := m.tb.Ult(i, n)
	if !m.branch(ok) {
		m.rtPanic("index out of range")
	}
}

func (m *M) toInt64(v Value, t types.Type) *Term {
	x := v.(*Term)
	if isSigned(t) {
		return m.tb.Sext(x, 64)
	}
	return m.tb.Zext(x, 64)
}

func (m *M) indexAddr(fr *frame, in *ssa.IndexAddr) Value {
	x := m.get(fr, in.X)
	idx := m.cvT(m.toInt64(m.get(fr, in.Index), in.Index.Type()))
	switch s := x.(type) {
	case BSlice:
		m.checkIndex(idx, s.len)
		return &BPtr{s.o, m.cvT(m.tb.Bin(OAdd, m.cvT(s.off), idx))}
	case VSlice:
		m.checkIndex(idx, m.tb.Int(s.len))
		return &s.a.e[s.off+int(m.concretize(idx))]
	case *Cell:
		if s == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		switch a := s.v.(type) {
		case *BArr:
			m.checkIndex(idx, a.o.size)
			return &BPtr{a.o, idx}
		case *Agg:
			m.checkIndex(idx, m.tb.Int(len(a.e)))
			return &a.e[m.concretize(idx)]
		}
	}
	panic(unsupported(fmt.Sprintf("IndexAddr %T", x)))
}

func (m *M) index(fr *frame, in *ssa.Index) Value {
	x := m.get(fr, in.X)
	idx := m.toInt64(m.get(fr, in.Index), in.Index.Type())
	switch a := x.(type) {
	case *BArr:
		m.checkIndex(idx, a.o.size)
		return m.bread(a.o, idx)
	case *Agg:
		m.checkIndex(idx, m.tb.Int(len(a.e)))
		return a.e[m.concretize(idx)].v
	case *Str:
		return m.strIndex(a, idx)
	}
	panic(unsupported(fmt.Sprintf("Index %T", x)))
}

func (m *M) strIndex(s *Str, idx *Term) Value {
	n := m.slen(s)
	m.checkIndex(idx, n)
	if s.segs == nil && idx.isConst() {
		return m.tb.Const(8, uint64(s.lit[idx.c]))
	}
	c, off, _ := m.strContent(s)
	return m.cread(c, m.tb.Bin(OAdd, off, idx))
}

func (m *M) lookup(fr *frame, in *ssa.Lookup) Value {
	x := m.get(fr, in.X)
	switch s := x.(type) {
	case *Str:
		return m.strIndex(s, m.toInt64(m.get(fr, in.Index), in.Index.Type()))
	case *MapV:
		k := m.get(fr, in.Index)
		mt := in.X.Type().Underlying().(*types.Map)
		if s != nil {
			if kt, ok := k.(*Term); ok && !kt.isConst() && kt.w != 0 && m.concKnown(kt) == nil {
				if v, okT := m.selectLookup(s, kt, mt.Elem()); v != nil {
					if in.CommaOk {
						return Tuple{v, okT}
					}
					return v
				}
			}
		}
		e := m.mapFind(s, k)
		var v Value
		if e != nil {
			v = m.copyVal(e.v.v)
		} else {
			v = m.zero(mt.Elem())
		}
		if in.CommaOk {
			return Tuple{v, m.tb.Bool(e != nil)}
		}
		return v
	}
	panic(unsupported(fmt.Sprintf("Lookup %T", x)))
}

// selectLookup turns a lookup with a symbolic integer key in a map of constant
// strings / integers into a table select.
func (m *M) selectLookup(s *MapV, k *Term, vt types.Type) (Value, *Term) {
	if s.sym || len(s.ents) == 0 {
		return nil, nil
	}
	if len(s.ents) > 400 {
		return nil, nil
	}
	strs, ints := true, true
	for _, e := range s.ents {
		if e.dead {
			continue
		}
		kt, ok := e.k.(*Term)
		if !ok || !kt.isConst() {
			return nil, nil
		}
		switch v := e.v.v.(type) {
		case *Str:
			ints = false
			if v.segs != nil {
				strs = false
			}
		case *Term:
			strs = false
			if !v.isConst() {
				ints = false
			}
		default:
			return nil, nil
		}
	}
	if !strs && !ints {
		return nil, nil
	}
	okT := m.tb.False
	for _, e := range s.ents {
		if !e.dead {
			okT = m.tb.Or(okT, m.tb.Eq(k, e.k.(*Term)))
		}
	}
	if ints {
		v := m.zero(vt).(*Term)
		for _, e := range s.ents {
			if !e.dead {
				v = m.tb.Ite(m.tb.Eq(k, e.k.(*Term)), e.v.v.(*Term), v)
			}
		}
		return v, okT
	}
	tab := &SelTab{}
	for _, e := range s.ents {
		if e.dead {
			continue
		}
		kk := e.k.(*Term)
		// drop keys outside the range of k
		if kk.c < k.umin || kk.c > k.umax {
			continue
		}
		tab.keys = append(tab.keys, kk.c)
		tab.vals = append(tab.vals, e.v.v.(*Str).lit)
	}
	return m.selStr(tab, k), okT
}

func (m *M) selStr(tab *SelTab, k *Term) *Str {
	// strip zero extensions so that keys compare structurally
	for k.op == OZext {
		k = k.a0
	}
	return m.mkStr([]Seg{SSel{tab, k}})
}

func (m *M) makeSlice(t types.Type, n, c *Term) Value {
	el := t.Underlying().(*types.Slice).Elem()
	if isByte(el) {
		if m.branch(m.tb.Slt(n, m.int0)) {
			m.rtPanic("makeslice: len out of range")
		}
		if m.branch(m.tb.Slt(c, n)) {
			m.rtPanic("makeslice: cap out of range")
		}
		if m.branch(m.tb.Slt(m.tb.Const(64, 1<<40), c)) {
			m.rtPanic("makeslice: len out of range")
		}
		if c.isConst() && c.c <= 1<<22 {
			o := m.newBObj(int(c.c))
			if c.c == 0 {
				o.flat = nil
				o.fn = cZero{}
			}
			return BSlice{o, m.int0, n, c}
		}
		if k := m.concKnown(c); k != nil && *k <= 1<<22 {
			return BSlice{m.newBObj(int(*k)), m.int0, n, m.tb.Const(64, *k)}
		}
		return BSlice{&BObj{fn: cZero{}, size: c}, m.int0, n, c}
	}
	if m.branch(m.tb.Slt(n, m.int0)) || m.branch(m.tb.Slt(c, n)) {
		m.rtPanic("makeslice: len out of range")
	}
	ln, cp := int(m.concretize(n)), int(m.concretize(c))
	if cp > 1<<22 {
		panic(unsupported("huge make"))
	}
	a := &Agg{e: make([]Cell, cp)}
	for i := range a.e {
		a.e[i].v = m.zero(el)
	}
	return VSlice{a, 0, ln, cp}
}

func (m *M) slice(fr *frame, in *ssa.Slice) Value {
	x := m.get(fr, in.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return m.cvT(m.toInt64(m.get(fr, v), v.Type()))
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	return m.sliceVal(x, lo, hi, mx)
}

func (m *M) sliceVal(x Value, lo, hi, mx *Term) Value {
	if lo == nil {
		lo = m.int0
	}
	oob := func() { m.rtPanic("slice bounds out of range") }
	switch s := x.(type) {
	case *Str:
		n := m.slen(s)
		if hi == nil {
			hi = n
		}
		if !m.branch(m.tb.Ule(hi, n)) {
			oob()
		}
		if !m.branch(m.tb.Ule(lo, hi)) {
			oob()
		}
		return m.substr(s, lo, hi)
	case *Cell:
		if s == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		switch a := s.v.(type) {
		case *BArr:
			return m.sliceVal(BSlice{a.o, m.int0, a.o.size, a.o.size}, lo, hi, mx)
		case *Agg:
			return m.sliceVal(VSlice{a, 0, len(a.e), len(a.e)}, lo, hi, mx)
		}
	case BSlice:
		if hi == nil {
			hi = s.len
		}
		if mx == nil {
			mx = s.cap
		} else if !m.branch(m.tb.Ule(mx, s.cap)) {
			oob()
		}
		if !m.branch(m.tb.Ule(hi, mx)) {
			oob()
		}
		if !m.branch(m.tb.Ule(lo, hi)) {
			oob()
		}
		lo, hi, mx = m.cvT(lo), m.cvT(hi), m.cvT(mx)
		return BSlice{s.o, m.cvT(m.tb.Bin(OAdd, m.cvT(s.off), lo)), m.cvT(m.tb.Bin(OSub, hi, lo)), m.cvT(m.tb.Bin(OSub, mx, lo))}
	case VSlice:
		h, l, c := m.tb.Int(s.len), lo, m.tb.Int(s.cap)
		if hi != nil {
			h = hi
		}
		if mx != nil {
			if !m.branch(m.tb.Ule(mx, c)) {
				oob()
			}
			c = mx
		}
		if !m.branch(m.tb.Ule(h, c)) {
			oob()
		}
		if !m.branch(m.tb.Ule(l, h)) {
			oob()
		}
		li, hv, ci := int(m.concretize(l)), int(m.concretize(h)), int(m.concretize(c))
		return VSlice{s.a, s.off + li, hv - li, ci - li}
	}
	panic(unsupported(fmt.Sprintf("slice of %T", x)))
}

func (m *M) convert(x Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	switch t := tu.(type) {
	case *types.Basic:
		if w, _, ok := basicWidth(t); ok {
			v, ok := x.(*Term)
			if !ok {
				if _, isU := x.(UPtr); isU {
					panic(unsupported("uintptr(unsafe.Pointer)"))
				}
				panic(unsupported(fmt.Sprintf("convert %T to int", x)))
			}
			if v.w == wFP {
				return m.tb.FToS(v, w)
			}
			if isSigned(from) {
				return m.tb.Sext(v, w)
			}
			return m.tb.Zext(v, w)
		}
		switch t.Kind() {
		case types.Float64, types.Float32:
			v := x.(*Term)
			if v.w == wFP {
				if t.Kind() == types.Float32 {
					if v.isConst() {
						return m.tb.F(float64(float32(math.Float64frombits(v.c))))
					}
					panic(unsupported("float32"))
				}
				return v
			}
			f := m.tb.FFrom(v, isSigned(from))
			if t.Kind() == types.Float32 {
				if !f.isConst() {
					panic(unsupported("float32"))
				}
				f = m.tb.F(float64(float32(math.Float64frombits(f.c))))
			}
			return f
		case types.String:
			switch v := x.(type) {
			case *Str:
				return v
			case BSlice:
				if v.o == nil {
					return emptyStr
				}
				return m.strFromView(v.o.snapshot(), v.off, v.len)
			case *Term:
				return m.runeStr(v, from)
			case VSlice: // []rune
				s := emptyStr
				for i := 0; i < v.len; i++ {
					s = m.concat(s, m.runeStr(v.a.e[v.off+i].v.(*Term), types.Typ[types.Int32]))
				}
				return s
			}
		case types.UnsafePointer:
			return UPtr{x}
		case types.Bool:
			return x
		}
	case *types.Slice:
		if s, ok := x.(*Str); ok {
			if isByte(t.Elem()) {
				c, off, n := m.strContent(s)
				if n.isConst() {
					o := m.newBObj(int(n.c))
					for i := range o.flat {
						o.flat[i] = m.cread(c, m.tb.Bin(OAdd, off, m.tb.Int(i)))
					}
					if len(o.flat) == 0 {
						o.fn = cZero{}
						o.flat = nil
					}
					return BSlice{o, m.int0, n, n}
				}
				o := &BObj{fn: &cCopy{cZero{}, m.int0, c, off, n}, size: n}
				return BSlice{o, m.int0, n, n}
			}
			// []rune
			var rs []Cell
			bs := m.sbytes(s)
			for len(bs) > 0 {
				r, k := m.decodeRune(bs)
				rs = append(rs, Cell{v: r})
				bs = bs[k:]
			}
			return VSlice{&Agg{e: rs}, 0, len(rs), len(rs)}
		}
		return x
	case *types.Pointer:
		if u, ok := x.(UPtr); ok {
			if u.p == nil {
				return (*Cell)(nil)
			}
			return u.p
		}
		return x
	case *types.Signature, *types.Map, *types.Struct, *types.Chan, *types.Interface, *types.Array:
		return x
	}
	_ = fu
	panic(unsupported(fmt.Sprintf("convert %s -> %s", from, to)))
}

func (m *M) runeStr(r *Term, from types.Type) *Str {
	if r.isConst() {
		v := r.sval()
		if !isSigned(from) {
			v = int64(r.c)
		}
		if v < 0 || v > 0x10ffff {
			v = 0xfffd
		}
		return lit(string(rune(v)))
	}
	x := m.tb.Sext(r, 64)
	if !isSigned(from) {
		x = m.tb.Zext(r, 64)
	}
	x = m.tb.Extract(x, 0, 32)
	return m.mkStr([]Seg{SBytes(m.encodeRune(x))})
}

func (m *M) encodeRune(r *Term) []*Term {
	b := func(t *Term, orv uint64) *Term {
		return m.tb.Bin(OOr, m.tb.Extract(t, 0, 8), m.tb.Const(8, orv))
	}
	sh := func(n uint64) *Term { return m.tb.Bin(OLshr, r, m.tb.Const(32, n)) }
	lo6 := func(t *Term) *Term { return m.tb.Bin(OAnd, t, m.tb.Const(32, 0x3f)) }
	if m.branch(m.tb.Ult(r, m.tb.Const(32, 0x80))) {
		return []*Term{b(r, 0)}
	}
	if m.branch(m.tb.Ult(r, m.tb.Const(32, 0x800))) {
		return []*Term{b(sh(6), 0xc0), b(lo6(r), 0x80)}
	}
	bad := m.tb.Or(m.tb.Ult(m.tb.Const(32, 0x10ffff), r), m.tb.And(m.tb.Ult(m.tb.Const(32, 0xd7ff), r), m.tb.Ult(r, m.tb.Const(32, 0xe000))))
	if m.branch(bad) {
		return m.litBytes("\uFFFD")
	}
	if m.branch(m.tb.Ult(r, m.tb.Const(32, 0x10000))) {
		return []*Term{b(sh(12), 0xe0), b(lo6(sh(6)), 0x80), b(lo6(r), 0x80)}
	}
	return []*Term{b(sh(18), 0xf0), b(lo6(sh(12)), 0x80), b(lo6(sh(6)), 0x80), b(lo6(r), 0x80)}
}

// decodeRune follows unicode/utf8.DecodeRune on terms.
func (m *M) decodeRune(bs []*Term) (*Term, int) {
	c8 := func(v uint64) *Term { return m.tb.Const(8, v) }
	z := func(t *Term, msk uint64, s uint64) *Term {
		return m.tb.Bin(OShl, m.tb.Zext(m.tb.Bin(OAnd, t, c8(msk)), 32), m.tb.Const(32, s))
	}
	bad := m.tb.Const(32, uint64(utf8.RuneError))
	b0 := bs[0]
	if m.branch(m.tb.Ult(b0, c8(0x80))) {
		return m.tb.Zext(b0, 32), 1
	}
	if m.branch(m.tb.Or(m.tb.Ult(b0, c8(0xc2)), m.tb.Ult(c8(0xf4), b0))) {
		return bad, 1
	}
	cont := func(t *Term, lo, hi uint64) bool {
		return m.branch(m.tb.And(m.tb.Ule(c8(lo), t), m.tb.Ule(t, c8(hi))))
	}
	if m.branch(m.tb.Ult(b0, c8(0xe0))) {
		if len(bs) < 2 || !cont(bs[1], 0x80, 0xbf) {
			return bad, 1
		}
		return m.tb.Bin(OOr, z(b0, 0x1f, 6), z(bs[1], 0x3f, 0)), 2
	}
	if m.branch(m.tb.Ult(b0, c8(0xf0))) {
		if len(bs) < 3 {
			return bad, 1
		}
		lo, hi := uint64(0x80), uint64(0xbf)
		if m.branch(m.tb.Eq(b0, c8(0xe0))) {
			lo = 0xa0
		} else if m.branch(m.tb.Eq(b0, c8(0xed))) {
			hi = 0x9f
		}
		if !cont(bs[1], lo, hi) || !cont(bs[2], 0x80, 0xbf) {
			return bad, 1
		}
		return m.tb.Bin(OOr, m.tb.Bin(OOr, z(b0, 0x0f, 12), z(bs[1], 0x3f, 6)), z(bs[2], 0x3f, 0)), 3
	}
	if len(bs) < 4 {
		return bad, 1
	}
	lo, hi := uint64(0x80), uint64(0xbf)
	if m.branch(m.tb.Eq(b0, c8(0xf0))) {
		lo = 0x90
	} else if m.branch(m.tb.Eq(b0, c8(0xf4))) {
		hi = 0x8f
	}
	if !cont(bs[1], lo, hi) || !cont(bs[2], 0x80, 0xbf) || !cont(bs[3], 0x80, 0xbf) {
		return bad, 1
	}
	return m.tb.Bin(OOr, m.tb.Bin(OOr, z(b0, 0x07, 18), z(bs[1], 0x3f, 12)), m.tb.Bin(OOr, z(bs[2], 0x3f, 6), z(bs[3], 0x3f, 0))), 4
}

func (m *M) implements(t types.Type, it *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := m.impl[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	m.impl[k] = v
	return v
}

func (m *M) typeAssert(x Iface, t types.Type, commaOk bool) Value {
	ok := false
	if x.t != nil {
		if it, isI := t.Underlying().(*types.Interface); isI {
			ok = m.implements(x.t, it)
		} else {
			ok = types.Identical(x.t, t)
		}
	}
	if ok {
		var v Value = x
		if !types.IsInterface(t) {
			v = m.copyVal(x.v)
		}
		if commaOk {
			return Tuple{v, m.tb.True}
		}
		return v
	}
	if commaOk {
		return Tuple{m.zero(t), m.tb.False}
	}
	m.rtPanic("interface conversion")
	return nil
}

type iter struct {
	keys []*mapEnt
	mv   *MapV
	i    int
	bs   []*Term
	pos  int
	isS  bool
}

func (m *M) rangeStart(x Value) Value {
	switch v := x.(type) {
	case *Str:
		return &iter{isS: true, bs: m.sbytes(v)}
	case *MapV:
		it := &iter{mv: v}
		if v != nil {
			for _, e := range v.ents {
				if !e.dead {
					it.keys = append(it.keys, e)
				}
			}
			if m.mapRev {
				for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
					it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				}
			}
		}
		return it
	}
	panic(unsupported(fmt.Sprintf("range over %T", x)))
}

func (m *M) rangeNext(x Value, in *ssa.Next) Value {
	it := x.(*iter)
	if it.isS {
		if it.pos >= len(it.bs) {
			return Tuple{m.tb.False, m.int0, m.tb.Const(32, 0)}
		}
		r, k := m.decodeRune(it.bs[it.pos:])
		p := it.pos
		it.pos += k
		return Tuple{m.tb.True, m.tb.Int(p), r}
	}
	for it.i < len(it.keys) {
		e := it.keys[it.i]
		it.i++
		if e.dead {
			continue
		}
		return Tuple{m.tb.True, m.copyVal(e.k), m.copyVal(e.v.v)}
	}
	tt := in.Type().(*types.Tuple)
	z := func(i int) Value {
		t := tt.At(i).Type()
		if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return m.zero(t)
	}
	return Tuple{m.tb.False, z(1), z(2)}
}

// ---- calls

func (m *M) prepCall(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	args := make([]Value, 0, len(c.Args)+1)
	if c.IsInvoke() {
		recv := m.get(fr, c.Value).(Iface)
		if recv.t == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := m.findMethod(recv.t, c.Method)
		args = append(args, recv.v)
		for _, a := range c.Args {
			args = append(args, m.get(fr, a))
		}
		return &Closure{fn: fn}, args
	}
	fn := m.get(fr, c.Value)
	for _, a := range c.Args {
		args = append(args, m.get(fr, a))
	}
	return fn, args
}

func (m *M) findMethod(t types.Type, meth *types.Func) *ssa.Function {
	k := methKey{t, meth.Name(), nil}
	if !meth.Exported() {
		k.pkg = meth.Pkg()
	}
	if f, ok := m.methods[k]; ok {
		return f
	}
	bigMu.Lock()
	f := m.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	bigMu.Unlock()
	if f == nil {
		panic(unsupported("method " + meth.Name() + " of " + t.String()))
	}
	m.methods[k] = f
	return f
}

func (m *M) doCall(fr *frame, c *ssa.CallCommon) Value {
	switch f := c.Value.(type) {
	case *ssa.Function:
		if !c.IsInvoke() {
			args := make([]Value, len(c.Args))
			for i, a := range c.Args {
				args[i] = m.get(fr, a)
			}
			return m.call(f, args, nil)
		}
	case *ssa.Builtin:
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = m.get(fr, a)
		}
		return m.builtin(fr, f.Name(), args, c)
	}
	fn, args := m.prepCall(fr, c)
	return m.callValue(fn, args)
}

func (m *M) callValue(fn Value, args []Value) Value {
	c, ok := fn.(*Closure)
	if !ok {
		panic(unsupported(fmt.Sprintf("call of %T", fn)))
	}
	if c == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if c.nat != nil {
		return c.nat(m, args)
	}
	if c.fn == nil {
		return m.builtin(nil, c.name, args, nil)
	}
	return m.call(c.fn, args, c.env)
}

func (m *M) bsliceContent(s BSlice) Content {
	if s.o == nil {
		return cZero{}
	}
	return s.o.snapshot()
}

func (m *M) minTerm(a, b *Term) *Term {
	c := m.tb.Ult(a, b)
	if k := m.known(c); k != nil {
		if *k {
			return a
		}
		return b
	}
	return m.tb.Ite(c, a, b)
}

func (m *M) copyBuiltin(dst, src Value) *Term {
	switch d := dst.(type) {
	case BSlice:
		var c Content
		var off, n *Term
		switch s := src.(type) {
		case BSlice:
			c, off, n = m.bsliceContent(s), s.off, s.len
		case *Str:
			c, off, n = m.strContent(s)
		}
		k := n
		if m.branch(m.tb.Ult(d.len, n)) {
			k = d.len
		}
		if kk := m.concKnown(k); kk != nil {
			k = m.tb.Const(64, *kk)
		}
		if d.o != nil {
			m.bcopy(d.o, d.off, c, off, k)
		}
		return k
	case VSlice:
		s := src.(VSlice)
		n := d.len
		if s.len < n {
			n = s.len
		}
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = m.copyVal(s.a.e[s.off+i].v)
		}
		for i := 0; i < n; i++ {
			m.store(&d.a.e[d.off+i], tmp[i])
		}
		return m.tb.Int(n)
	}
	panic(unsupported(fmt.Sprintf("copy %T", dst)))
}

func (m *M) appendBuiltin(dst, src Value, t types.Type) Value {
	switch d := dst.(type) {
	case BSlice:
		var c Content
		var off, n *Term
		switch s := src.(type) {
		case BSlice:
			c, off, n = m.bsliceContent(s), s.off, s.len
		case *Str:
			c, off, n = m.strContent(s)
		}
		if n.isConst() && n.c == 0 {
			return d
		}
		if k := m.concKnown(n); k != nil {
			n = m.tb.Const(64, *k)
		}
		dl := d.len
		if k := m.concKnown(dl); k != nil {
			dl = m.tb.Const(64, *k)
		}
		nl := m.tb.Bin(OAdd, dl, n)
		if d.o != nil && m.branch(m.tb.Ule(nl, d.cap)) {
			m.bcopy(d.o, m.tb.Bin(OAdd, d.off, dl), c, off, n)
			return BSlice{d.o, d.off, nl, d.cap}
		}
		// grow
		dl = m.tb.Const(64, m.concretize(dl))
		n = m.tb.Const(64, m.concretize(n))
		nl = m.tb.Bin(OAdd, dl, n)
		nc := growCap(int(m.concretize(d.cap)), int(nl.c), 1)
		o := m.newBObj(nc)
		for i := 0; i < int(dl.c); i++ {
			o.flat[i] = m.bread(d.o, m.tb.Bin(OAdd, d.off, m.tb.Int(i)))
		}
		for i := 0; i < int(n.c); i++ {
			o.flat[int(dl.c)+i] = m.cread(c, m.tb.Bin(OAdd, off, m.tb.Int(i)))
		}
		return BSlice{o, m.int0, nl, m.tb.Int(nc)}
	case VSlice:
		s := src.(VSlice)
		if s.len == 0 {
			return d
		}
		nl := d.len + s.len
		if d.a != nil && nl <= d.cap {
			for i := 0; i < s.len; i++ {
				m.store(&d.a.e[d.off+d.len+i], m.copyVal(s.a.e[s.off+i].v))
			}
			return VSlice{d.a, d.off, nl, d.cap}
		}
		nc := growCap(d.cap, nl, 8)
		a := &Agg{e: make([]Cell, nc)}
		for i := 0; i < d.len; i++ {
			a.e[i].v = m.copyVal(d.a.e[d.off+i].v)
		}
		for i := 0; i < s.len; i++ {
			a.e[d.len+i].v = m.copyVal(s.a.e[s.off+i].v)
		}
		var el types.Type
		if t != nil {
			el = t.Underlying().(*types.Slice).Elem()
		}
		for i := nl; i < nc; i++ {
			if el != nil {
				a.e[i].v = m.zero(el)
			}
		}
		return VSlice{a, 0, nl, nc}
	}
	panic(unsupported(fmt.Sprintf("append %T", dst)))
}

// growCap asks the real runtime how it grows: capacities are observable
// through cap() and through bufio/ReadAll style loops.
func growCap(oldCap, newLen, sz int) int {
	if sz == 1 {
		s := make([]byte, oldCap, oldCap)
		s = append(s, make([]byte, newLen-oldCap)...)
		return cap(s)
	}
	s := make([]uint64, oldCap, oldCap)
	s = append(s, make([]uint64, newLen-oldCap)...)
	return cap(s)
}

func (m *M) builtin(fr *frame, name string, args []Value, c *ssa.CallCommon) Value {
	switch name {
	case "len":
		switch x := args[0].(type) {
		case *Str:
			return m.slen(x)
		case BSlice:
			if k := m.concKnown(x.len); k != nil {
				return m.tb.Const(64, *k)
			}
			return x.len
		case VSlice:
			return m.tb.Int(x.len)
		case *MapV:
			if x == nil {
				return m.int0
			}
			return m.tb.Int(x.n)
		case *Agg:
			return m.tb.Int(len(x.e))
		case *BArr:
			return x.o.size
		case *Cell:
			switch a := x.v.(type) {
			case *Agg:
				return m.tb.Int(len(a.e))
			case *BArr:
				return a.o.size
			}
		case *ChanV:
			return m.int0
		}
	case "cap":
		switch x := args[0].(type) {
		case BSlice:
			return x.cap
		case VSlice:
			return m.tb.Int(x.cap)
		case *BArr:
			return x.o.size
		case *Agg:
			return m.tb.Int(len(x.e))
		}
	case "append":
		var t types.Type
		if c != nil {
			t = c.Args[0].Type()
		}
		if len(args) == 1 {
			return args[0]
		}
		return m.appendBuiltin(args[0], args[1], t)
	case "copy":
		return m.copyBuiltin(args[0], args[1])
	case "delete":
		if mv := args[0].(*MapV); mv != nil {
			m.mapDelete(mv, args[1])
		}
		return nil
	case "recover":
		rf := m.recoverFr
		if rf != nil && rf.panicking != nil {
			p := rf.panicking
			rf.panicking = nil
			return p.v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, ok := r.(*Term)
			if !ok {
				panic(unsupported("min/max on strings"))
			}
			y := a.(*Term)
			var lt *Term
			if x.w == wFP {
				lt = m.tb.FLt(y, x)
			} else if isSigned(c.Args[0].Type()) {
				lt = m.tb.Slt(y, x)
			} else {
				lt = m.tb.Ult(y, x)
			}
			if name == "max" {
				lt = m.tb.Not(lt)
			}
			r = m.tb.Ite(lt, y, x)
		}
		return r
	case "clear":
		if mv, ok := args[0].(*MapV); ok && mv != nil {
			for _, e := range append([]*mapEnt{}, mv.ents...) {
				if !e.dead {
					m.mapDelete(mv, e.k)
				}
			}
			return nil
		}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Cell); ok && p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := args[1].(*Term)
		n = m.tb.Zext(n, 64)
		switch p := args[0].(type) {
		case *BPtr:
			return m.strFromView(p.o.snapshot(), p.idx, n)
		case *Cell:
			if p == nil {
				return emptyStr
			}
		}
	case "SliceData":
		if b, ok := args[0].(BSlice); ok {
			if b.o == nil {
				return (*Cell)(nil)
			}
			return &BPtr{b.o, b.off}
		}
	case "StringData":
		cc, off, n := m.strContent(args[0].(*Str))
		return &BPtr{&BObj{fn: cc, size: n}, off}
	case "Slice":
		if p, ok := args[0].(*BPtr); ok {
			n := m.tb.Zext(args[1].(*Term), 64)
			return BSlice{p.o, p.idx, n, n}
		}
	case "close":
		return nil
	}
	panic(unsupported(fmt.Sprintf("builtin %s(%T)", name, args[0])))
}
