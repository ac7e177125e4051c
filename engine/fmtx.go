package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type fmtFlags struct {
	sharp, zero, minus, plus, space bool
	wid, prec                       int
	hasWid, hasPrec                 bool
}

func (f fmtFlags) String() string {
	s := "%"
	if f.sharp {
		s += "#"
	}
	if f.zero {
		s += "0"
	}
	if f.minus {
		s += "-"
	}
	if f.plus {
		s += "+"
	}
	if f.space {
		s += " "
	}
	if f.hasWid {
		s += fmt.Sprint(f.wid)
	}
	if f.hasPrec {
		s += "." + fmt.Sprint(f.prec)
	}
	return s
}

func (f fmtFlags) plain() bool { return f == fmtFlags{} }

func (m *M) ifaceArgs(v Value) []Iface {
	s := v.(VSlice)
	out := make([]Iface, s.len)
	for i := range out {
		out[i] = s.a.e[s.off+i].v.(Iface)
	}
	return out
}

func (m *M) sprintf(format string, args []Iface) *Str {
	res := emptyStr
	ai := 0
	i := 0
	reordered := false
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			res = m.concat(res, lit(format[i:]))
			break
		}
		res = m.concat(res, lit(format[i:i+j]))
		i += j + 1
		if i >= len(format) {
			res = m.concat(res, lit("%!(NOVERB)"))
			break
		}
		var fl fmtFlags
	flags:
		for ; i < len(format); i++ {
			switch format[i] {
			case '#':
				fl.sharp = true
			case '0':
				fl.zero = true
			case '-':
				fl.minus = true
			case '+':
				fl.plus = true
			case ' ':
				fl.space = true
			default:
				break flags
			}
		}
		for ; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
			fl.wid = fl.wid*10 + int(format[i]-'0')
			fl.hasWid = true
		}
		if i < len(format) && format[i] == '.' {
			fl.hasPrec = true
			for i++; i < len(format) && format[i] >= '0' && format[i] <= '9'; i++ {
				fl.prec = fl.prec*10 + int(format[i]-'0')
			}
		}
		if i >= len(format) {
			res = m.concat(res, lit("%!(NOVERB)"))
			break
		}
		if format[i] == '[' { // explicit argument index before the verb
			j := strings.IndexByte(format[i:], ']')
			k := 0
			for _, c := range format[i+1 : i+max(j, 1)] {
				if c < '0' || c > '9' {
					k = 0
					break
				}
				k = k*10 + int(c-'0')
			}
			if j < 2 || k < 1 || k > len(args) || i+j+1 >= len(format) {
				panic(unsupported("format " + format))
			}
			ai = k - 1
			i += j + 1
			reordered = true
		}
		verb := format[i]
		i++
		if verb == '*' || verb == '[' || verb >= 0x80 {
			panic(unsupported("format " + format))
		}
		if verb == '%' {
			res = m.concat(res, lit("%"))
			continue
		}
		if ai >= len(args) {
			res = m.concat(res, lit("%!"+string(verb)+"(MISSING)"))
			continue
		}
		a := args[ai]
		ai++
		res = m.concat(res, m.fmtArg(a, verb, fl))
	}
	if ai < len(args) && !reordered {
		panic(unsupported("extra fmt args: " + format))
	}
	return res
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)
var stringerIface = types.NewInterfaceType([]*types.Func{types.NewFunc(0, nil, "String", types.NewSignatureType(nil, nil, nil, nil, types.NewTuple(types.NewVar(0, nil, "", types.Typ[types.String])), false))}, nil).Complete()

func (m *M) callMethod(a Iface, name string) Value {
	ms := types.NewMethodSet(a.t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		panic(unsupported("no method " + name))
	}
	fn := m.findMethod(a.t, sel.Obj().(*types.Func))
	return m.call(fn, []Value{m.copyVal(a.v)}, nil)
}

func isNilPtr(v Value) bool {
	c, ok := v.(*Cell)
	return ok && c == nil
}

func (m *M) fmtArg(a Iface, verb byte, fl fmtFlags) *Str {
	if a.t == nil {
		if verb == 'v' || verb == 's' {
			if verb == 's' {
				return lit("%!s(<nil>)")
			}
			return lit("<nil>")
		}
		return lit("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'T' {
		return lit(types.TypeString(a.t, func(p *types.Package) string { return p.Name() }))
	}
	// Formatter
	ms := types.NewMethodSet(a.t)
	if sel := ms.Lookup(nil, "Format"); sel != nil {
		sig := sel.Type().(*types.Signature)
		if sig.Params().Len() == 2 && strings.HasSuffix(sig.Params().At(0).Type().String(), "fmt.State") {
			if m.implements(a.t, errorIface) && (verb == 'v' || verb == 's') && !fl.plus && !fl.sharp {
				return m.callMethod(a, "Error").(*Str)
			}
			return &Str{segs: []Seg{SOpaque{"format"}}}
		}
	}
	if verb == 'v' && fl.sharp {
		panic(unsupported("%#v"))
	}
	switch verb {
	case 'v', 's', 'x', 'X', 'q':
		var s *Str
		if m.implements(a.t, errorIface) {
			if isNilPtr(a.v) {
				return lit("<nil>")
			}
			s = m.callMethod(a, "Error").(*Str)
		} else if m.implements(a.t, stringerIface) {
			if isNilPtr(a.v) {
				return lit("<nil>")
			}
			s = m.callMethod(a, "String").(*Str)
		}
		if s != nil {
			return m.fmtStr(s, verb, fl)
		}
	}
	return m.fmtBasic(a.t, a.v, verb, fl)
}

func (m *M) fmtStr(s *Str, verb byte, fl fmtFlags) *Str {
	if c, ok := m.strConst(s); ok {
		return lit(fmt.Sprintf(fl.String()+string(verb), c))
	}
	switch verb {
	case 'v', 's':
		if fl.hasPrec {
			panic(unsupported("string precision"))
		}
		if fl.hasWid {
			bs := m.sbytes(s) // width counts runes; only decide for ASCII
			n := len(bs)
			for _, b := range bs {
				if !m.branch(m.tb.Ult(b, m.tb.Const(8, 0x80))) {
					panic(unsupported("padding non-ascii"))
				}
			}
			if n < fl.wid {
				pad := lit(strings.Repeat(" ", fl.wid-n))
				if fl.minus {
					return m.concat(s, pad)
				}
				return m.concat(pad, s)
			}
		}
		return s
	case 'x', 'X':
		return m.hexOf(m.sbytes(s), verb == 'X', fl)
	}
	panic(unsupported("fmt of symbolic string with %" + string(verb)))
}

func (m *M) hexOf(bs []*Term, upper bool, fl fmtFlags) *Str {
	var segs []Seg
	if fl.hasWid || fl.hasPrec {
		panic(unsupported("hex width on bytes"))
	}
	if fl.sharp && len(bs) > 0 {
		if upper {
			segs = append(segs, SLit("0X"))
		} else {
			segs = append(segs, SLit("0x"))
		}
	}
	for i, b := range bs {
		if fl.space && i > 0 {
			segs = append(segs, SLit(" "))
			if fl.sharp {
				panic(unsupported("% #x"))
			}
		}
		segs = append(segs, m.hexDigits(b, 2, upper))
	}
	return m.mkStr(segs)
}

func (m *M) fmtBasic(t types.Type, v Value, verb byte, fl fmtFlags) *Str {
	switch x := v.(type) {
	case *Str:
		return m.fmtStr(x, verb, fl)
	case *Term:
		if x.w == 0 {
			b := m.branch(x)
			return lit(fmt.Sprintf(fl.String()+string(verb), b))
		}
		if x.w == wFP {
			if x.isConst() {
				return lit(fmt.Sprintf(fl.String()+string(verb), math.Float64frombits(x.c)))
			}
			if verb == 'v' && fl.plain() {
				return m.mkStr([]Seg{SFloat{x, 'v', -1}})
			}
			panic(unsupported("float format"))
		}
		signed := isSigned(t)
		if k := m.concKnown(x); k != nil {
			if signed {
				return lit(fmt.Sprintf(fl.String()+string(verb), sext64(*k, x.w)))
			}
			// keep the byte/uint distinction irrelevant: same output
			return lit(fmt.Sprintf(fl.String()+string(verb), *k))
		}
		var w *Term
		if signed {
			w = m.tb.Sext(x, 64)
		} else {
			w = m.tb.Zext(x, 64)
		}
		return m.fmtInt(w, signed, verb, fl)
	case BSlice:
		switch verb {
		case 's', 'v', 'x', 'X', 'q', 'd':
		default:
			panic(unsupported("fmt []byte %" + string(verb)))
		}
		if verb == 'v' || verb == 'd' {
			n := int(m.concretize(x.len))
			s := lit("[")
			for i := 0; i < n; i++ {
				if i > 0 {
					s = m.concat(s, lit(" "))
				}
				s = m.concat(s, m.fmtInt(m.tb.Zext(m.bread(x.o, m.tb.Bin(OAdd, x.off, m.tb.Int(i))), 64), false, 'd', fmtFlags{}))
			}
			return m.concat(s, lit("]"))
		}
		var s *Str
		if x.o == nil {
			s = emptyStr
		} else {
			s = m.strFromView(x.o.snapshot(), x.off, x.len)
		}
		return m.fmtStr(s, verb, fl)
	case *BArr:
		return m.fmtBasic(t, BSlice{x.o, m.int0, x.o.size, x.o.size}, verb, fl)
	case Iface:
		return m.fmtArg(x, verb, fl)
	case VSlice:
		if verb == 'v' || verb == 's' || verb == 'd' {
			el := t.Underlying().(*types.Slice).Elem()
			s := lit("[")
			for i := 0; i < x.len; i++ {
				if i > 0 {
					s = m.concat(s, lit(" "))
				}
				s = m.concat(s, m.fmtElem(el, x.a.e[x.off+i].v, verb, fl))
			}
			return m.concat(s, lit("]"))
		}
	case *Agg:
		if st, ok := t.Underlying().(*types.Struct); ok && verb == 'v' {
			s := lit("{")
			for i := range x.e {
				if i > 0 {
					s = m.concat(s, lit(" "))
				}
				if fl.plus {
					s = m.concat(s, lit(st.Field(i).Name()+":"))
				}
				s = m.concat(s, m.fmtElem(st.Field(i).Type(), x.e[i].v, verb, fl))
			}
			return m.concat(s, lit("}"))
		}
	case *Cell:
		if x == nil && verb == 'v' {
			return lit("<nil>")
		}
		return &Str{segs: []Seg{SOpaque{"pointer"}}}
	}
	panic(unsupported(fmt.Sprintf("fmt %%%c of %s (%T)", verb, t, v)))
}

func (m *M) fmtElem(t types.Type, v Value, verb byte, fl fmtFlags) *Str {
	if i, ok := v.(Iface); ok {
		return m.fmtArg(i, verb, fl)
	}
	return m.fmtArg(Iface{t, v}, verb, fl)
}

func (m *M) fmtInt(w *Term, signed bool, verb byte, fl fmtFlags) *Str {
	switch verb {
	case 'd', 'v':
		if fl.plain() {
			return m.mkStr([]Seg{SDec{w, signed && w.umax>>63 != 0}})
		}
		if fl.hasWid && !fl.hasPrec && !fl.plus && !fl.sharp {
			bs := m.matSeg(SDec{w, signed})
			if len(bs) < fl.wid {
				p := " "
				if fl.zero {
					p = "0"
				}
				pad := lit(strings.Repeat(p, fl.wid-len(bs)))
				if fl.minus {
					return m.concat(m.mkStr([]Seg{SBytes(bs)}), pad)
				}
				return m.concat(pad, m.mkStr([]Seg{SBytes(bs)}))
			}
			return m.mkStr([]Seg{SBytes(bs)})
		}
	case 'x', 'X':
		if signed && m.branch(m.tb.Slt(w, m.int0)) {
			panic(unsupported("hex of negative symbolic"))
		}
		if fl.plus || fl.space || fl.minus || fl.hasPrec {
			panic(unsupported("hex flags"))
		}
		pre := ""
		if fl.sharp {
			pre = "0x"
			if verb == 'X' {
				pre = "0X"
			}
		}
		minw := 0
		if fl.hasWid {
			if !fl.zero {
				bs := m.matSeg(SHex{w, verb == 'X', 0})
				s := m.concat(lit(pre), m.mkStr([]Seg{SBytes(bs)}))
				if n := len(bs) + len(pre); n < fl.wid {
					s = m.concat(lit(strings.Repeat(" ", fl.wid-n)), s)
				}
				return s
			}
			minw = zeroPadDigits(fl, len(pre))
		}
		return m.mkStr([]Seg{SLit(pre), SHex{w, verb == 'X', minw}})
	case 'U':
		if fl.plain() {
			return m.mkStr([]Seg{SLit("U+"), SHex{w, true, 4}})
		}
	case 'c':
		if fl.plain() {
			return m.mkStr([]Seg{SBytes(m.encodeRune(m.tb.Extract(w, 0, 32)))})
		}
	case 's':
		return m.concat(lit("%!s("), m.concat(m.fmtInt(w, signed, 'd', fmtFlags{}), lit(")")))
	}
	panic(unsupported("int format %" + string(verb)))
}

// zeroPadDigits asks the real fmt how many digits a zero-padded hex of value 1 has.
func zeroPadDigits(fl fmtFlags, pre int) int {
	s := fmt.Sprintf(fl.String()+"x", 1)
	return len(s) - pre
}

func jsonQuote(s string) string {
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(true)
	enc.Encode(s)
	return strings.TrimSuffix(buf.String(), "\n")
}

// jsonMarshal renders a value following encoding/json for the shapes used.
func (m *M) jsonMarshal(t types.Type, v Value) *Str {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		c := v.(*Cell)
		if c == nil {
			return lit("null")
		}
		return m.jsonMarshal(u.Elem(), c.v)
	case *types.Interface:
		i := v.(Iface)
		if i.t == nil {
			return lit("null")
		}
		return m.jsonMarshal(i.t, i.v)
	case *types.Struct:
		if sel := types.NewMethodSet(types.NewPointer(t)).Lookup(nil, "MarshalJSON"); sel != nil {
			panic(unsupported("MarshalJSON"))
		}
		a := v.(*Agg)
		s := lit("{")
		first := true
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			if tag == "-" || !f.Exported() {
				continue
			}
			if f.Embedded() && tag == "" {
				panic(unsupported("json embedded"))
			}
			parts := strings.Split(tag, ",")
			name := parts[0]
			if name == "" {
				name = f.Name()
			}
			omit := false
			for _, p := range parts[1:] {
				if p == "omitempty" {
					omit = true
				} else {
					panic(unsupported("json tag option " + p))
				}
			}
			if omit && m.jsonEmpty(a.e[i].v) {
				continue
			}
			if !first {
				s = m.concat(s, lit(","))
			}
			first = false
			s = m.concat(s, lit(jsonQuote(name)+":"))
			s = m.concat(s, m.jsonMarshal(f.Type(), a.e[i].v))
		}
		return m.concat(s, lit("}"))
	case *types.Slice:
		if isByte(u.Elem()) {
			panic(unsupported("json []byte"))
		}
		vs := v.(VSlice)
		if vs.a == nil {
			return lit("null")
		}
		s := lit("[")
		for i := 0; i < vs.len; i++ {
			if i > 0 {
				s = m.concat(s, lit(","))
			}
			s = m.concat(s, m.jsonMarshal(u.Elem(), vs.a.e[vs.off+i].v))
		}
		return m.concat(s, lit("]"))
	case *types.Basic:
		switch x := v.(type) {
		case *Str:
			return m.mkStr([]Seg{SJSON{x}})
		case *Term:
			if x.w == 0 {
				if m.branch(x) {
					return lit("true")
				}
				return lit("false")
			}
			if x.w != wFP {
				if isSigned(t) {
					return m.mkStr([]Seg{SDec{m.tb.Sext(x, 64), true}})
				}
				return m.mkStr([]Seg{SDec{m.tb.Zext(x, 64), false}})
			}
		}
	}
	panic(unsupported("json of " + t.String()))
}

func (m *M) jsonEmpty(v Value) bool {
	switch x := v.(type) {
	case *Str:
		return m.branch(m.tb.Eq(m.slenNZ(x), m.int0))
	case *Term:
		if x.w == 0 {
			return !m.branch(x)
		}
		return m.branch(m.tb.Eq(x, m.tb.Const(x.w, 0)))
	case *Cell:
		return x == nil
	case VSlice:
		return x.len == 0
	case BSlice:
		return m.branch(m.tb.Eq(x.len, m.int0))
	case Iface:
		return x.t == nil
	case *MapV:
		return x == nil || x.n == 0
	}
	return false
}

// slenNZ returns a term that is zero iff the string is empty, without
// materialising atoms that are never empty.
func (m *M) slenNZ(s *Str) *Term {
	if s.segs == nil {
		return m.tb.Int(len(s.lit))
	}
	e := m.tb.Ite(m.strEq(s, emptyStr), m.int0, m.tb.Int(1))
	return e
}

// jsonIndent re-indents the structure of compact JSON text (rope aware).
func (m *M) jsonIndent(s *Str, prefix, indent string) *Str {
	var out []Seg
	depth := 0
	inStr := false
	esc := false
	pendingOpen := false
	nl := func(b *strings.Builder) {
		b.WriteString("\n" + prefix + strings.Repeat(indent, depth))
	}
	for _, g := range s.seglist() {
		l, ok := g.(SLit)
		if !ok {
			if inStr {
				out = append(out, g)
				continue
			}
			if pendingOpen {
				pendingOpen = false
				depth++
				var b strings.Builder
				nl(&b)
				out = append(out, SLit(b.String()))
			}
			out = append(out, g)
			continue
		}
		var b strings.Builder
		for i := 0; i < len(l); i++ {
			c := l[i]
			if inStr {
				b.WriteByte(c)
				if esc {
					esc = false
				} else if c == '\\' {
					esc = true
				} else if c == '"' {
					inStr = false
				}
				continue
			}
			if pendingOpen && c != ']' && c != '}' {
				pendingOpen = false
				depth++
				nl(&b)
			}
			switch c {
			case '{', '[':
				pendingOpen = true
				b.WriteByte(c)
			case ',':
				b.WriteByte(c)
				nl(&b)
			case ':':
				b.WriteString(": ")
			case '}', ']':
				if pendingOpen {
					pendingOpen = false
				} else {
					depth--
					nl(&b)
				}
				b.WriteByte(c)
			case '"':
				inStr = true
				b.WriteByte(c)
			default:
				b.WriteByte(c)
			}
		}
		out = append(out, SLit(b.String()))
	}
	return m.mkStr(out)
}

var _ = ssa.NaiveForm
