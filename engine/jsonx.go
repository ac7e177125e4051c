package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Storing a parsed JSON value (vh/stub.Node) in a value of any type, as
// encoding/json does.

func init() {
	intrinsics["vh/stub.assign"] = func(m *M, fn *ssa.Function, a []Value) Value {
		i := a[0].(Iface)
		p, ok := i.v.(*Cell)
		pt, isPtr := i.t.(*types.Pointer)
		if i.t == nil || !ok || !isPtr || p == nil {
			return m.tb.Bool(false)
		}
		return m.tb.Bool(m.jsonAssign(pt.Elem(), p, a[1].(*Cell)))
	}
	intrinsics["(*internal/godebug.Setting).Value"] = func(m *M, fn *ssa.Function, a []Value) Value { return emptyStr }
	intrinsics["(*internal/godebug.Setting).IncNonDefault"] = nop
	intrinsics["(*internal/sync.Mutex).Lock"] = nop
	intrinsics["(*internal/sync.Mutex).Unlock"] = nop
	redirects["os.Open"] = "vh/stub.OSOpen"
	redirects["os.ReadFile"] = "vh/stub.OSReadFile"
	for _, f := range []string{"Read", "WriteTo", "ReadAt", "Seek", "Close"} {
		redirects["(*os.File)."+f] = "vh/stub.File" + f
	}
	redirects["github.com/spiegel-im-spiegel/fetch.New"] = "vh/hnet.FetchNew"
	redirects["github.com/spiegel-im-spiegel/gocli/signal.Context"] = "vh/hnet.SignalContext"
	redirects["encoding/json.NewDecoder"] = "vh/stub.JSONNewDecoder"
	redirects["(*encoding/json.Decoder).Decode"] = "vh/stub.JSONDecode"
	redirects["encoding/json.Unmarshal"] = "vh/stub.JSONUnmarshal"
}

func (m *M) jsonAssign(t types.Type, to *Cell, node *Cell) bool {
	n := node.v.(*Agg)
	kind := n.e[0].v.(*Term).c
	if _, ok := t.(*types.Named); ok && types.NewMethodSet(types.NewPointer(t)).Lookup(nil, "UnmarshalJSON") != nil {
		return true // times: not looked at
	}
	kids := n.e[4].v.(VSlice)
	kid := func(i int) *Cell { return kids.a.e[kids.off+i].v.(*Cell) }
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if kind == 0 {
			m.store(to, (*Cell)(nil))
			return true
		}
		c := &Cell{v: m.zero(u.Elem())}
		if old, ok := to.v.(*Cell); ok && old != nil {
			c = old
		}
		if !m.jsonAssign(u.Elem(), c, node) {
			return false
		}
		m.store(to, c)
		return true
	case *types.Slice:
		if isByte(u.Elem()) {
			panic(unsupported("json into []byte"))
		}
		if kind == 0 {
			m.store(to, m.zero(t))
			return true
		}
		if kind != 5 {
			return false
		}
		a := &Agg{e: make([]Cell, kids.len)}
		for i := range a.e {
			a.e[i].v = m.zero(u.Elem())
			if !m.jsonAssign(u.Elem(), &a.e[i], kid(i)) {
				return false
			}
		}
		m.store(to, VSlice{a, 0, kids.len, kids.len})
		return true
	case *types.Struct:
		if kind == 0 {
			return true
		}
		if kind != 6 {
			return false
		}
		names := n.e[3].v.(VSlice)
		for i := 0; i < kids.len; i++ {
			name := m.constFmt(names.a.e[names.off+i].v)
			best := -1
			for f := 0; f < u.NumFields(); f++ {
				tag := strings.Split(reflect.StructTag(u.Tag(f)).Get("json"), ",")
				fn := tag[0]
				if fn == "-" || !u.Field(f).Exported() {
					continue
				}
				if u.Field(f).Embedded() && fn == "" || len(tag) > 1 && tag[1] == "string" {
					panic(unsupported("json field"))
				}
				if fn == "" {
					fn = u.Field(f).Name()
				}
				if fn == name || best < 0 && strings.EqualFold(fn, name) {
					best = f
				}
			}
			if best < 0 {
				continue
			}
			if !m.jsonAssign(u.Field(best).Type(), &to.v.(*Agg).e[best], kid(i)) {
				return false
			}
		}
		return true
	case *types.Basic:
		if kind == 0 {
			return true
		}
		switch {
		case u.Info()&types.IsString != 0:
			if kind != 4 {
				return false
			}
			m.store(to, n.e[1].v)
			return true
		case u.Info()&types.IsBoolean != 0:
			if kind != 1 && kind != 2 {
				return false
			}
			m.store(to, m.tb.Bool(kind == 2))
			return true
		case u.Info()&types.IsInteger != 0:
			if kind != 3 {
				return false
			}
			m.store(to, m.tb.Const(to.v.(*Term).w, uint64(n.e[2].v.(*Term).c)))
			return true
		}
	}
	panic(unsupported("json into " + t.String()))
}

func init() {
	symIntr["And"] = func(m *M, fn *ssa.Function, a []Value) Value { return m.tb.And(a[0].(*Term), a[1].(*Term)) }
	symIntr["Or"] = func(m *M, fn *ssa.Function, a []Value) Value { return m.tb.Or(a[0].(*Term), a[1].(*Term)) }
	symIntr["IteByte"] = func(m *M, fn *ssa.Function, a []Value) Value {
		return m.tb.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}
}
