package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *M, fn *ssa.Function, args []Value) Value

func (m *M) intrinsicFor(fn *ssa.Function) intrinsic {
	if in, ok := m.intr[fn]; ok {
		return in
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	in := intrinsics[name]
	if in == nil && fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), "vh/sym") && fn.Signature.Recv() == nil {
		in = symIntr[fn.Name()]
	}
	if in == nil {
		if rd, ok := redirects[name]; ok {
			if target := m.eng.findFunc(rd); target != nil {
				in = func(m *M, _ *ssa.Function, args []Value) Value { return m.call(target, args, nil) }
			}
		}
	}
	m.intr[fn] = in
	return in
}

// redirects replaces library functions by harness-side models written in Go.
var redirects = map[string]string{
	"compress/flate.NewReader": "vh/stub.FlateNewReader",
	"compress/zlib.NewReader":  "vh/stub.ZlibNewReader",
	"compress/bzip2.NewReader": "vh/stub.Bzip2NewReader",
}

func nop(m *M, fn *ssa.Function, args []Value) Value { return nil }

func (m *M) newErr(msg *Str) Iface {
	f := m.eng.findFunc("errors.New")
	return m.call(f, []Value{msg}, nil).(Iface)
}

func (m *M) bytesOf(v Value) []*Term {
	switch s := v.(type) {
	case BSlice:
		n := int(m.concretize(s.len))
		out := make([]*Term, n)
		for i := range out {
			out[i] = m.bread(s.o, m.tb.Bin(OAdd, s.off, m.tb.Int(i)))
		}
		return out
	case *Str:
		return m.sbytes(s)
	}
	panic("bytesOf")
}

// firstIndex returns the index of the first element satisfying f, forking.
func (m *M) firstIndex(bs []*Term, f func(*Term) *Term) int {
	for i, b := range bs {
		if m.branch(f(b)) {
			return i
		}
	}
	return -1
}

func (m *M) indexByte(v Value, c *Term) Value {
	// avoid concretising a symbolic length: walk while i < len
	switch s := v.(type) {
	case BSlice:
		if !s.len.isConst() && m.concKnown(s.len) == nil {
			for i := 0; ; i++ {
				if !m.branch(m.tb.Ult(m.tb.Int(i), s.len)) {
					return m.tb.Int(-1)
				}
				if m.branch(m.tb.Eq(m.bread(s.o, m.tb.Bin(OAdd, s.off, m.tb.Int(i))), c)) {
					return m.tb.Int(i)
				}
			}
		}
	}
	return m.tb.Int(m.firstIndex(m.bytesOf(v), func(b *Term) *Term { return m.tb.Eq(b, c) }))
}

func (m *M) bytesEqTerm(x, y []*Term) *Term {
	if len(x) != len(y) {
		return m.tb.False
	}
	r := m.tb.True
	for i := range x {
		r = m.tb.And(r, m.tb.Eq(x[i], y[i]))
	}
	return r
}

func (m *M) writeTo(w Iface, s *Str) Value {
	c, off, n := m.strContent(s)
	var bs BSlice
	if n.isConst() {
		o := m.newBObj(int(n.c))
		for i := range o.flat {
			o.flat[i] = m.cread(c, m.tb.Bin(OAdd, off, m.tb.Int(i)))
		}
		bs = BSlice{o, m.int0, n, n}
	} else {
		bs = BSlice{&BObj{fn: &cCopy{cZero{}, m.int0, c, off, n}, size: n}, m.int0, n, n}
	}
	if w.t == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	ms := types.NewMethodSet(w.t)
	sel := ms.Lookup(nil, "Write")
	f := m.findMethod(w.t, sel.Obj().(*types.Func))
	return m.call(f, []Value{w.v, bs}, nil)
}

func (m *M) sprint(args []Iface, ln bool) *Str {
	s := emptyStr
	prevString := false
	for i, a := range args {
		isS := false
		if a.t != nil {
			if b, ok := a.t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
				isS = true
			}
		}
		if i > 0 && (ln || (!isS && !prevString)) {
			s = m.concat(s, lit(" "))
		}
		s = m.concat(s, m.fmtArg(a, 'v', fmtFlags{}))
		prevString = isS
	}
	if ln {
		s = m.concat(s, lit("\n"))
	}
	return s
}

func (m *M) constFmt(v Value) string {
	s, ok := m.strConst(v.(*Str))
	if !ok {
		panic(unsupported("symbolic format string"))
	}
	return s
}

func (m *M) errorsIs(err, target Iface) *Term {
	if err.t == nil || target.t == nil {
		return m.tb.Bool(err.t == nil && target.t == nil)
	}
	comparable := types.Comparable(target.t)
	for {
		if comparable && types.Identical(err.t, target.t) {
			if e := m.eqVal(err, target); m.branch(e) {
				return m.tb.True
			}
		}
		ms := types.NewMethodSet(err.t)
		if sel := ms.Lookup(nil, "Is"); sel != nil {
			sig := sel.Type().(*types.Signature)
			if sig.Params().Len() == 1 && sig.Results().Len() == 1 {
				f := m.findMethod(err.t, sel.Obj().(*types.Func))
				if m.branch(m.call(f, []Value{err.v, target}, nil).(*Term)) {
					return m.tb.True
				}
			}
		}
		sel := ms.Lookup(nil, "Unwrap")
		if sel == nil {
			return m.tb.False
		}
		sig := sel.Type().(*types.Signature)
		f := m.findMethod(err.t, sel.Obj().(*types.Func))
		r := m.call(f, []Value{err.v}, nil)
		if sig.Results().Len() == 1 {
			if _, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok {
				vs := r.(VSlice)
				for i := 0; i < vs.len; i++ {
					if m.branch(m.errorsIs(vs.a.e[vs.off+i].v.(Iface), target)) {
						return m.tb.True
					}
				}
				return m.tb.False
			}
		}
		err = r.(Iface)
		if err.t == nil {
			return m.tb.False
		}
	}
}

func (m *M) errorsAs(err Iface, target Iface) *Term {
	pt := target.t.Underlying().(*types.Pointer).Elem()
	for err.t != nil {
		ok := false
		if it, isI := pt.Underlying().(*types.Interface); isI {
			ok = m.implements(err.t, it)
		} else {
			ok = types.Identical(err.t, pt)
		}
		if ok {
			if types.IsInterface(pt) {
				m.store(target.v.(*Cell), err)
			} else {
				m.store(target.v.(*Cell), err.v)
			}
			return m.tb.True
		}
		ms := types.NewMethodSet(err.t)
		if sel := ms.Lookup(nil, "As"); sel != nil {
			f := m.findMethod(err.t, sel.Obj().(*types.Func))
			if m.branch(m.call(f, []Value{err.v, target}, nil).(*Term)) {
				return m.tb.True
			}
		}
		sel := ms.Lookup(nil, "Unwrap")
		if sel == nil {
			return m.tb.False
		}
		f := m.findMethod(err.t, sel.Obj().(*types.Func))
		r, ok2 := m.call(f, []Value{err.v}, nil).(Iface)
		if !ok2 {
			panic(unsupported("errors.As multi"))
		}
		err = r
	}
	return m.tb.False
}

// timeParts extracts (unix seconds, location name) from a time.Time value.
func (m *M) timeParts(v Value) (*Term, string) {
	a := v.(*Agg)
	wall, ext := a.e[0].v.(*Term), a.e[1].v.(*Term)
	if m.branch(m.tb.Ult(m.tb.Const(64, 1<<63-1), wall)) {
		panic(unsupported("monotonic time"))
	}
	const unixToInternal = (1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400
	sec := m.tb.Bin(OSub, ext, m.tb.Const(64, unixToInternal))
	loc := a.e[2].v.(*Cell)
	if loc == nil {
		return sec, "UTC"
	}
	tp := m.eng.pkg("time")
	if loc == m.global(tp.Var("utcLoc")) {
		return sec, "UTC"
	}
	if loc == m.global(tp.Var("localLoc")) {
		return sec, "Local"
	}
	return sec, "other"
}

func (m *M) timeFormat(t, layout Value) *Str {
	sec, loc := m.timeParts(t)
	if loc == "other" {
		panic(unsupported("time location"))
	}
	l := m.constFmt(layout)
	if sec.isConst() {
		return lit(renderTime(int64(sec.c), l, loc))
	}
	return m.mkStr([]Seg{STime{l, sec, loc}})
}

// wrapf is fmt.Errorf with one %w.
func (m *M) wrapf(f string, args []Iface) Value {
	if strings.Count(f, "%w") != 1 {
		panic(unsupported("fmt.Errorf %w"))
	}
	i := strings.Count(strings.ReplaceAll(f[:strings.Index(f, "%w")], "%%", ""), "%")
	s := m.sprintf(strings.Replace(f, "%w", "%v", 1), args)
	if i >= len(args) {
		panic(unsupported("fmt.Errorf %w"))
	}
	e := args[i]
	t := m.eng.pkg("fmt").Type("wrapError").Type()
	return Iface{types.NewPointer(t), &Cell{v: &Agg{e: []Cell{{v: s}, {v: e}}}}}
}

var intrinsics map[string]intrinsic

func init() {
	intrinsics = map[string]intrinsic{
		"fmt.Sprintf": func(m *M, fn *ssa.Function, a []Value) Value { return m.sprintf(m.constFmt(a[0]), m.ifaceArgs(a[1])) },
		"fmt.Sprint":  func(m *M, fn *ssa.Function, a []Value) Value { return m.sprint(m.ifaceArgs(a[0]), false) },
		"fmt.Sprintln": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.sprint(m.ifaceArgs(a[0]), true)
		},
		"fmt.Fprintf": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.writeTo(a[0].(Iface), m.sprintf(m.constFmt(a[1]), m.ifaceArgs(a[2])))
		},
		"fmt.Fprint": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.writeTo(a[0].(Iface), m.sprint(m.ifaceArgs(a[1]), false))
		},
		"fmt.Fprintln": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.writeTo(a[0].(Iface), m.sprint(m.ifaceArgs(a[1]), true))
		},
		"fmt.Printf":  func(m *M, fn *ssa.Function, a []Value) Value { return Tuple{m.int0, Iface{}} },
		"fmt.Println": func(m *M, fn *ssa.Function, a []Value) Value { return Tuple{m.int0, Iface{}} },
		"fmt.Errorf": func(m *M, fn *ssa.Function, a []Value) Value {
			f := m.constFmt(a[0])
			if strings.Contains(f, "%w") {
				return m.wrapf(f, m.ifaceArgs(a[1]))
			}
			return m.newErr(m.sprintf(f, m.ifaceArgs(a[1])))
		},
		"errors.Is": func(m *M, fn *ssa.Function, a []Value) Value { return m.errorsIs(a[0].(Iface), a[1].(Iface)) },
		"errors.As": func(m *M, fn *ssa.Function, a []Value) Value { return m.errorsAs(a[0].(Iface), a[1].(Iface)) },

		"runtime.Caller": func(m *M, fn *ssa.Function, a []Value) Value {
			return Tuple{m.tb.Const(64, 0), emptyStr, m.int0, m.tb.False}
		},
		"runtime.Callers":  func(m *M, fn *ssa.Function, a []Value) Value { return m.int0 },
		"time.runtimeNano": func(m *M, fn *ssa.Function, a []Value) Value { return m.tb.Const(64, 1) },
		"time.runtimeNow": func(m *M, fn *ssa.Function, a []Value) Value {
			return Tuple{m.tb.Const(64, 1600000000), m.tb.Const(32, 0), m.tb.Const(64, 1)}
		},
		"runtime.SetFinalizer": nop,
		"runtime.KeepAlive":    nop,
		"runtime.Gosched":      nop,

		"(*strings.Builder).copyCheck": nop,
		"internal/bytealg.MakeNoZero": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.makeSlice(types.NewSlice(types.Typ[types.Uint8]), a[0].(*Term), a[0].(*Term))
		},
		"internal/bytealg.IndexByte":           func(m *M, fn *ssa.Function, a []Value) Value { return m.indexByte(a[0], a[1].(*Term)) },
		"internal/bytealg.IndexByteString":     func(m *M, fn *ssa.Function, a []Value) Value { return m.indexByte(a[0], a[1].(*Term)) },
		"bytes.IndexByte":                      func(m *M, fn *ssa.Function, a []Value) Value { return m.indexByte(a[0], a[1].(*Term)) },
		"strings.IndexByte":                    func(m *M, fn *ssa.Function, a []Value) Value { return m.indexByte(a[0], a[1].(*Term)) },
		"internal/stringslite.IndexByte":       func(m *M, fn *ssa.Function, a []Value) Value { return m.indexByte(a[0], a[1].(*Term)) },
		"internal/bytealg.LastIndexByte":       lastIndexByte,
		"internal/bytealg.LastIndexByteString": lastIndexByte,
		"bytes.LastIndexByte":                  lastIndexByte,
		"internal/bytealg.Count":               countByte,
		"internal/bytealg.CountString":         countByte,
		"bytes.Equal": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.bytesEqual(a[0].(BSlice), a[1].(BSlice))
		},
		"internal/bytealg.Equal": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.bytesEqual(a[0].(BSlice), a[1].(BSlice))
		},
		"internal/bytealg.Compare": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.tb.Int(sgn(m.strCmp(m.mkStr([]Seg{SBytes(m.bytesOf(a[0]))}), m.mkStr([]Seg{SBytes(m.bytesOf(a[1]))}))))
		},
		"internal/bytealg.CompareString": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.tb.Int(sgn(m.strCmp(a[0].(*Str), a[1].(*Str))))
		},
		"strings.Compare": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.tb.Int(sgn(m.strCmp(a[0].(*Str), a[1].(*Str))))
		},
		"strings.Index":                indexStr,
		"bytes.Index":                  indexStr,
		"internal/stringslite.Index":   indexStr,
		"internal/bytealg.Index":       indexStr,
		"internal/bytealg.IndexString": indexStr,
		"strings.Clone":                func(m *M, fn *ssa.Function, a []Value) Value { return a[0] },
		"internal/stringslite.Clone":   func(m *M, fn *ssa.Function, a []Value) Value { return a[0] },

		"unicode/utf8.DecodeRune":         decodeRuneIntr,
		"unicode/utf8.DecodeRuneInString": decodeRuneIntr,
		"unicode/utf8.ValidString":        validIntr,
		"unicode/utf8.Valid":              validIntr,
		"unicode/utf8.RuneCountInString":  runeCountIntr,
		"unicode/utf8.RuneCount":          runeCountIntr,

		"(*sync.Mutex).Lock":      nop,
		"(*sync.Mutex).Unlock":    nop,
		"(*sync.RWMutex).Lock":    nop,
		"(*sync.RWMutex).Unlock":  nop,
		"(*sync.RWMutex).RLock":   nop,
		"(*sync.RWMutex).RUnlock": nop,
		"(*sync.Once).Do": func(m *M, fn *ssa.Function, a []Value) Value {
			c := a[0].(*Cell)
			ag := c.v.(*Agg)
			// use first cell as the done flag holder
			if d, ok := m.onceDone[c]; ok && d {
				return nil
			}
			_ = ag
			m.onceDone[c] = true
			m.onUndo(func() { delete(m.onceDone, c) })
			m.callValue(a[1], nil)
			return nil
		},
		"(*sync.Pool).Get": func(m *M, fn *ssa.Function, a []Value) Value {
			ag := a[0].(*Cell).v.(*Agg)
			nf := ag.e[len(ag.e)-1].v.(*Closure)
			if nf == nil {
				return Iface{}
			}
			return m.callValue(nf, nil)
		},
		"(*sync.Pool).Put": nop,

		"(time.Time).Format": func(m *M, fn *ssa.Function, a []Value) Value { return m.timeFormat(a[0], a[1]) },
		"(time.Time).AppendFormat": func(m *M, fn *ssa.Function, a []Value) Value {
			t := m.timeFormat(a[0], a[2])
			if d := a[1].(BSlice); d.o == nil {
				return m.bsliceOf(t)
			}
			return m.appendBuiltin(a[1], t, nil)
		},
		"(*time.Location).get": func(m *M, fn *ssa.Function, a []Value) Value {
			if a[0].(*Cell) == nil {
				return m.global(m.eng.pkg("time").Var("utcLoc"))
			}
			return a[0]
		},
		"(*time.Location).lookup": func(m *M, fn *ssa.Function, a []Value) Value {
			tp := m.eng.pkg("time")
			if c := a[0].(*Cell); c != nil && c != m.global(tp.Var("utcLoc")) {
				panic(unsupported("zone of a time"))
			}
			return Tuple{lit("UTC"), m.int0, m.tb.Const(64, 1<<63), m.tb.Const(64, 1<<63-1), m.tb.False}
		},

		"strconv.Itoa": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.fmtInt(a[0].(*Term), true, 'd', fmtFlags{})
		},
		"strconv.FormatInt": func(m *M, fn *ssa.Function, a []Value) Value { return m.formatInt(a[0].(*Term), a[1].(*Term), true) },
		"strconv.FormatUint": func(m *M, fn *ssa.Function, a []Value) Value {
			return m.formatInt(a[0].(*Term), a[1].(*Term), false)
		},
		"encoding/json.Marshal": func(m *M, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			var s *Str
			if i.t == nil {
				s = lit("null")
			} else {
				s = m.jsonMarshal(i.t, i.v)
			}
			return Tuple{m.bsliceOf(s), Iface{}}
		},
		"encoding/json.MarshalIndent": func(m *M, fn *ssa.Function, a []Value) Value {
			i := a[0].(Iface)
			var s *Str
			if i.t == nil {
				s = lit("null")
			} else {
				s = m.jsonMarshal(i.t, i.v)
			}
			return Tuple{m.bsliceOf(m.jsonIndent(s, m.constFmt(a[1]), m.constFmt(a[2]))), Iface{}}
		},
		"os.Getenv": func(m *M, fn *ssa.Function, a []Value) Value { return emptyStr },
		"math.Float64bits": func(m *M, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			if !t.isConst() {
				panic(unsupported("Float64bits"))
			}
			return m.tb.Const(64, t.c)
		},
	}
	for _, f := range []string{"sort.Slice", "sort.SliceStable"} {
		intrinsics[f] = func(m *M, fn *ssa.Function, a []Value) Value {
			s, ok := a[0].(Iface).v.(VSlice)
			if !ok {
				panic(unsupported("sort.Slice"))
			}
			for i := 1; i < s.len; i++ {
				for j := i; j > 0 && m.branch(m.callValue(a[1], []Value{m.tb.Int(j), m.tb.Int(j - 1)}).(*Term)); j-- {
					x, y := &s.a.e[s.off+j], &s.a.e[s.off+j-1]
					vx, vy := m.load(x), m.load(y)
					m.store(x, vy)
					m.store(y, vx)
				}
			}
			return nil
		}
	}
	for _, ty := range []string{"Uint32", "Int32", "Int64", "Uint64", "Bool", "Uintptr"} {
		p := "(*sync/atomic." + ty + ")."
		intrinsics[p+"Load"] = func(m *M, fn *ssa.Function, a []Value) Value {
			ag := a[0].(*Cell).v.(*Agg)
			v := ag.e[len(ag.e)-1].v.(*Term)
			if strings.Contains(fn.String(), "Bool") {
				return m.tb.Not(m.tb.Eq(v, m.tb.Const(v.w, 0)))
			}
			return v
		}
		intrinsics[p+"Store"] = func(m *M, fn *ssa.Function, a []Value) Value {
			ag := a[0].(*Cell).v.(*Agg)
			c := &ag.e[len(ag.e)-1]
			v := a[1].(*Term)
			if v.w == 0 {
				v = m.tb.Ite(v, m.tb.Const(32, 1), m.tb.Const(32, 0))
			}
			m.set(c, v)
			return nil
		}
		intrinsics[p+"Add"] = func(m *M, fn *ssa.Function, a []Value) Value {
			ag := a[0].(*Cell).v.(*Agg)
			c := &ag.e[len(ag.e)-1]
			v := m.tb.Bin(OAdd, c.v.(*Term), a[1].(*Term))
			m.set(c, v)
			return v
		}
		intrinsics[p+"CompareAndSwap"] = func(m *M, fn *ssa.Function, a []Value) Value {
			ag := a[0].(*Cell).v.(*Agg)
			c := &ag.e[len(ag.e)-1]
			if m.branch(m.tb.Eq(c.v.(*Term), a[1].(*Term))) {
				m.set(c, a[2])
				return m.tb.True
			}
			return m.tb.False
		}
	}
}

func sgn(i int) int {
	if i < 0 {
		return -1
	}
	if i > 0 {
		return 1
	}
	return 0
}

func (m *M) bsliceOf(s *Str) BSlice {
	// keep atoms alive through a []byte round trip: string(bytes) finds the rope again
	o := &BObj{fn: &cRope{s: s}, size: m.tb.Int(0)}
	if c, ok := m.strConst(s); ok {
		o = m.bobjFrom(m.litBytes(c))
		n := m.tb.Int(len(c))
		return BSlice{o, m.int0, n, n}
	}
	n := m.slen(s)
	o.size = n
	return BSlice{o, m.int0, n, n}
}

func (m *M) formatInt(t, base *Term, signed bool) Value {
	switch base.c {
	case 10:
		return m.fmtInt(t, signed, 'd', fmtFlags{})
	case 16:
		return m.fmtInt(t, signed, 'x', fmtFlags{})
	}
	if t.isConst() {
		return lit(fmt.Sprintf(map[uint64]string{2: "%b", 8: "%o"}[base.c], t.c))
	}
	panic(unsupported("FormatInt base"))
}

func (m *M) bytesEqual(a, b BSlice) *Term {
	if m.branch(m.tb.Not(m.tb.Eq(a.len, b.len))) {
		return m.tb.False
	}
	var n uint64
	if k := m.concKnown(a.len); k != nil {
		n = *k
	} else if k := m.concKnown(b.len); k != nil {
		n = *k
	} else {
		n = m.concretize(a.len)
	}
	r := m.tb.True
	for i := 0; i < int(n); i++ {
		x := m.bread(a.o, m.tb.Bin(OAdd, a.off, m.tb.Int(i)))
		y := m.bread(b.o, m.tb.Bin(OAdd, b.off, m.tb.Int(i)))
		r = m.tb.And(r, m.tb.Eq(x, y))
	}
	return r
}

func lastIndexByte(m *M, fn *ssa.Function, a []Value) Value {
	bs := m.bytesOf(a[0])
	for i := len(bs) - 1; i >= 0; i-- {
		if m.branch(m.tb.Eq(bs[i], a[1].(*Term))) {
			return m.tb.Int(i)
		}
	}
	return m.tb.Int(-1)
}

func countByte(m *M, fn *ssa.Function, a []Value) Value {
	n := 0
	for _, b := range m.bytesOf(a[0]) {
		if m.branch(m.tb.Eq(b, a[1].(*Term))) {
			n++
		}
	}
	return m.tb.Int(n)
}

func indexStr(m *M, fn *ssa.Function, a []Value) Value {
	x, y := m.bytesOf(a[0]), m.bytesOf(a[1])
	for i := 0; i+len(y) <= len(x); i++ {
		if m.branch(m.bytesEqTerm(x[i:i+len(y)], y)) {
			return m.tb.Int(i)
		}
	}
	return m.tb.Int(-1)
}

func decodeRuneIntr(m *M, fn *ssa.Function, a []Value) Value {
	var bs []*Term
	switch s := a[0].(type) {
	case BSlice:
		for i := 0; i < 4; i++ {
			if !m.branch(m.tb.Ult(m.tb.Int(i), s.len)) {
				break
			}
			bs = append(bs, m.bread(s.o, m.tb.Bin(OAdd, s.off, m.tb.Int(i))))
		}
	case *Str:
		bs = m.sbytes(s)
	}
	if len(bs) == 0 {
		return Tuple{m.tb.Const(32, 0xfffd), m.int0}
	}
	r, k := m.decodeRune(bs)
	return Tuple{r, m.tb.Int(k)}
}

func validIntr(m *M, fn *ssa.Function, a []Value) Value {
	bs := m.bytesOf(a[0])
	for len(bs) > 0 {
		r, k := m.decodeRune(bs)
		if k == 1 && r.isConst() && r.c == 0xfffd {
			return m.tb.False
		}
		bs = bs[k:]
	}
	return m.tb.True
}

func runeCountIntr(m *M, fn *ssa.Function, a []Value) Value {
	bs := m.bytesOf(a[0])
	n := 0
	for len(bs) > 0 {
		_, k := m.decodeRune(bs)
		bs = bs[k:]
		n++
	}
	return m.tb.Int(n)
}

// ---- sym package

var symIntr map[string]intrinsic

func init() {
	scalar := func(kind string, w uint8) intrinsic {
		return func(m *M, fn *ssa.Function, a []Value) Value {
			name := m.constFmt(a[0])
			t := m.tb.Var(name, w)
			m.declInput(inputDecl{name: name, kind: kind, t: t})
			return t
		}
	}
	symIntr = map[string]intrinsic{
		"Byte":   scalar("u8", 8),
		"Uint16": scalar("u16", 16),
		"Uint32": scalar("u32", 32),
		"Uint64": scalar("u64", 64),
		"Bool": func(m *M, fn *ssa.Function, a []Value) Value {
			name := m.constFmt(a[0])
			t := m.tb.Var(name, 8)
			m.declInput(inputDecl{name: name, kind: "bool", t: t})
			m.assume(m.tb.Ult(t, m.tb.Const(8, 2)))
			return m.tb.Eq(t, m.tb.Const(8, 1))
		},
		"Int": func(m *M, fn *ssa.Function, a []Value) Value {
			name := m.constFmt(a[0])
			lo, hi := a[1].(*Term), a[2].(*Term)
			t := m.tb.Var(name, 64)
			m.declInput(inputDecl{name: name, kind: "int", t: t})
			if lo.isConst() && lo.c == 0 && hi.isConst() {
				// give the term a known range by construction when possible
				m.assume(m.tb.Ule(t, hi))
				return t
			}
			m.assume(m.tb.Sle(lo, t))
			m.assume(m.tb.Sle(t, hi))
			return t
		},
		"Choice": func(m *M, fn *ssa.Function, a []Value) Value {
			name := m.constFmt(a[0])
			t := m.tb.Var(name, 64)
			m.declInput(inputDecl{name: name, kind: "int", t: t})
			m.assume(m.tb.Ult(t, a[1].(*Term)))
			return m.tb.Const(64, m.concretize(t))
		},
		"Bytes": func(m *M, fn *ssa.Function, a []Value) Value {
			name := m.constFmt(a[0])
			max := int(a[1].(*Term).c)
			if max > 5000 { // one array instead of a term per octet
				return symIntr["Big"](m, fn, a)
			}
			n := m.tb.Zext(m.tb.Var(name+"#len", 16), 64)
			m.assume(m.tb.Ule(n, m.tb.Int(max)))
			return m.symBytes(name, max, n)
		},
		"BytesN": func(m *M, fn *ssa.Function, a []Value) Value {
			name := m.constFmt(a[0])
			max := int(a[1].(*Term).c)
			return m.symBytes(name, max, m.tb.Int(max))
		},
		"Big": func(m *M, fn *ssa.Function, a []Value) Value {
			name := m.constFmt(a[0])
			max := a[1].(*Term)
			n := m.tb.Zext(m.tb.Var(name+"#len", 32), 64)
			m.assume(m.tb.Ule(n, max))
			c := &cArr{name}
			m.declInput(inputDecl{name: name, kind: "bytes", arr: c, n: n, max: int(max.c)})
			o := &BObj{fn: c, size: n}
			return BSlice{o, m.int0, n, n}
		},
		"Assume": func(m *M, fn *ssa.Function, a []Value) Value { m.assume(a[0].(*Term)); return nil },
		"Assert": func(m *M, fn *ssa.Function, a []Value) Value {
			m.assert(a[0].(*Term), m.evalStr(m.ev, a[1].(*Str)))
			return nil
		},
		"Observe": func(m *M, fn *ssa.Function, a []Value) Value {
			m.obs = append(m.obs, m.concat(a[0].(*Str), m.concat(lit("="), a[1].(*Str))))
			return nil
		},
		"ObserveInt": func(m *M, fn *ssa.Function, a []Value) Value {
			m.obs = append(m.obs, m.concat(a[0].(*Str), m.concat(lit("="), m.mkStr([]Seg{SDec{a[1].(*Term), true}}))))
			return nil
		},
		"Concrete": func(m *M, fn *ssa.Function, a []Value) Value {
			t := a[0].(*Term)
			return m.tb.Const(t.w, m.concretize(t))
		},
		"ConcreteLen": func(m *M, fn *ssa.Function, a []Value) Value {
			s := a[0].(BSlice)
			k := m.tb.Const(64, m.concretize(s.len))
			return BSlice{s.o, s.off, k, k}
		},
		"Symbolic":   func(m *M, fn *ssa.Function, a []Value) Value { return m.tb.True },
		"MapReverse": func(m *M, fn *ssa.Function, a []Value) Value { m.mapRev = a[0].(*Term).isTrue(); return nil },
		"Reach": func(m *M, fn *ssa.Function, a []Value) Value {
			m.h.mu.Lock()
			m.h.reached[m.constFmt(a[0])]++
			m.h.mu.Unlock()
			return nil
		},
		"Stop": func(m *M, fn *ssa.Function, a []Value) Value { panic(pathAbort{abInfeasible, "stop"}) },
	}
}

func (m *M) declInput(d inputDecl) {
	for _, x := range m.inputs {
		if x.name == d.name {
			panic(unsupported("duplicate symbolic input " + d.name))
		}
	}
	m.inputs = append(m.inputs, d)
}

func (m *M) symBytes(name string, max int, n *Term) Value {
	cells := make([]*Term, max)
	for i := range cells {
		cells[i] = m.tb.Var(fmt.Sprintf("%s!%d", name, i), 8)
	}
	m.declInput(inputDecl{name: name, kind: "bytes", arr: &cFlat{cells}, n: n, max: max})
	o := &BObj{flat: cells, shared: true, size: m.tb.Int(max)}
	if max == 0 {
		o = &BObj{fn: cZero{}, size: m.int0}
	}
	return BSlice{o, m.int0, n, n}
}

func init() {
	symIntr["Param"] = func(m *M, fn *ssa.Function, a []Value) Value {
		if v, ok := m.h.params[m.constFmt(a[0])]; ok {
			return m.tb.Int(v)
		}
		return a[1]
	}
}
