package h

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strings"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"

	"vh/sym"
)

// str is a string of up to n printable (or any ASCII) characters.
func str(name string, n int) string {
	b := sym.ConcreteLen(sym.Bytes(name, n))
	for i := 0; i < len(b); i++ {
		sym.Assume(b[i] < 0x80)
		if sym.Param("ctl", 0) == 0 {
			sym.Assume(b[i] >= 0x20 && b[i] < 0x7f)
		}
	}
	return string(b)
}

// hot is the one field of a tree whose text is symbolic; the others are there
// or not, in trees of several items (many) all alike.
var (
	hot        string
	many, full bool
)

func part(name string) string {
	if hot == name {
		return str(name, sym.Param("n", 1))
	}
	if many && full || !many && sym.Bool(name) {
		return "<" + name + ">"
	}
	return ""
}

func item(name string, kids ...*result.Item) *result.Item {
	i := result.NewItem(result.Name(name), result.Value(part(name+"v")), result.DumpStr(part(name+"d")), result.Note(part(name+"o")))
	for _, k := range kids {
		i.Add(k)
	}
	return i
}

// tree is one of the shapes of a result.
func tree(shape int) *result.Info {
	info := result.New()
	if shape < 5 {
		hot = []string{"av", "ad", "ao", "bv", "bd", "bo"}[sym.Choice("hot", 6)]
	}
	if shape == 0 || shape == 1 && hot[0] == 'b' {
		hot = ""
	}
	if shape == 5 {
		hot = []string{"", "bv", "bd", "bo"}[sym.Choice("hot", sym.Param("chain", 1))]
	}
	many = shape != 1
	if many && shape != 9 {
		full = sym.Bool("full")
	}
	switch shape {
	case 0:
	case 1:
		info.Add(item("a"))
	case 2:
		info.Add(item("a", item("b")))
	case 3:
		info.Add(item("a"))
		info.Add(nil)
		info.Add(item("b"))
	case 4:
		info.Add(result.NewItem(result.Name(part("av")), result.Value("v")))
		l := item("b")
		c := result.NewItem(result.Name("c"), result.Note("n"))
		c.Add(nil)
		c.Add(l)
		b := result.NewItem(result.Name("b"))
		b.Add(c)
		b.Add(result.NewItem(result.Name("e"), result.DumpStr("00 01")))
		info.Add(b)
		info.Add(result.NewItem(result.Name("f")))
	case 5: // a chain, with the item "b" at its end
		i := item("b")
		for d := sym.Choice("depth", sym.Param("depth", 12)); d > 0; d-- {
			i = item("c", i, result.NewItem(result.Name("after"), result.DumpStr("00")))
		}
		info.Add(i)
	case 6: // many items side by side
		i := result.NewItem(result.Name("root"))
		n := sym.Choice("count", sym.Param("count", 12)+1)
		if n == sym.Param("count", 12) {
			n = 130
		}
		for ; n > 0; n-- {
			i.Add(result.NewItem(result.Name("kid"), result.Value("v"), result.Note("n")))
			info.Add(result.NewItem(result.Name("packet")))
		}
		info.Add(i)
	case 7: // fields that may be alike
		few := func(name string) string {
			b := sym.ConcreteLen(sym.Bytes(name, 1))
			for j := range b {
				sym.Assume(b[j] >= 'a' && b[j] <= 'c')
			}
			return string(b)
		}
		i := result.NewItem(result.Name(few("name")), result.Value(few("value")), result.Note(few("note")), result.DumpStr(few("dump")))
		i.Add(result.NewItem(result.Name(few("kname")), result.Value(few("kvalue"))))
		info.Add(i)
		info.Add(result.NewItem(result.Name("a"), result.DumpStr("b")))
	case 9: // any field of an item and of one in it missing
		leaf := func(name string) *result.Item {
			f := func(x string) string {
				if sym.Bool(name + x) {
					return x + name
				}
				return ""
			}
			return result.NewItem(result.Name(f("n")), result.Value(f("v")), result.DumpStr(f("d")), result.Note(f("o")))
		}
		i, k := leaf("x"), leaf("y")
		k.Add(result.NewItem(result.Name("leaf")))
		i.Add(k)
		i.Add(result.NewItem())
		info.Add(i)
		info.Add(result.NewItem(result.Value("last")))
	case 8: // long fields
		n := []int{33, 79, 80, 81, 129, 1025}[sym.Choice("size", 6)]
		i := result.NewItem(result.Name(strings.Repeat("n", n)), result.Value(strings.Repeat("v ", n)), result.Note(strings.Repeat("x", n)), result.DumpStr(strings.Repeat("00 ", 3*n)))
		i.Add(result.NewItem(result.Name("k"), result.Value(strings.Repeat("w", 3*n))))
		info.Add(i)
	}
	return info
}

func text(i *result.Item, indent string, lvl int) string {
	pre := ""
	for k := 0; k < lvl; k++ {
		pre += indent
	}
	s := pre + i.Name
	if i.Value != "" {
		s += ": " + i.Value
	}
	if i.Note != "" {
		s += " (" + i.Note + ")"
	}
	s += "\n"
	if i.Dump != "" {
		s += pre + indent + i.Dump + "\n"
	}
	for _, c := range i.Items {
		s += text(c, indent, lvl+1)
	}
	return s
}

// Text: the text form is one line per item, nested by indentation, with the
// value, the note and the dump of each.
func Text() {
	info := tree(sym.Choice("shape", 10))
	indent := []string{"\t", "  ", "", "    ", strings.Repeat(" ", 13), " \t"}[sym.Choice("indent", 6)]
	want := ""
	for _, p := range info.Packets {
		want += text(p, indent, 0)
	}
	got := info.ToString(indent).String()
	sym.Observe("text", got)
	sym.Assert(got == want, "text form")
	if indent == "\t" {
		sym.Assert(info.String() == want, "default text form")
		for _, p := range info.Packets {
			sym.Assert(p.String() == text(p, indent, 0), "text form of an item")
		}
	}
}

func quote(s string) string {
	out := `"`
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			out += `\"`
		case c == '\\':
			out += `\\`
		case c == '\n':
			out += `\n`
		case c == '\r':
			out += `\r`
		case c == '\t':
			out += `\t`
		case c == '\b':
			out += `\b`
		case c == '\f':
			out += `\f`
		case c < 0x20 || c == '<' || c == '>' || c == '&':
			out += fmt.Sprintf(`\u%04x`, c)
		default:
			out += s[i : i+1]
		}
	}
	return out + `"`
}

func jsonText(i *result.Item, ind string, lvl int) string {
	nl, sp := "", ""
	if ind != "" {
		nl, sp = "\n", " "
	}
	pre := func(k int) string { return nl + strings.Repeat(ind, k) }
	s := "{" + pre(lvl+1) + `"name":` + sp + quote(i.Name)
	if i.Value != "" {
		s += "," + pre(lvl+1) + `"value":` + sp + quote(i.Value)
	}
	if i.Dump != "" {
		s += "," + pre(lvl+1) + `"dump":` + sp + quote(i.Dump)
	}
	if i.Note != "" {
		s += "," + pre(lvl+1) + `"note":` + sp + quote(i.Note)
	}
	if len(i.Items) > 0 {
		s += "," + pre(lvl+1) + `"Item":` + sp + jsonList(i.Items, ind, lvl+1)
	}
	return s + pre(lvl) + "}"
}

func jsonList(is []*result.Item, ind string, lvl int) string {
	nl := ""
	if ind != "" {
		nl = "\n"
	}
	s := "["
	for k, c := range is {
		if k > 0 {
			s += ","
		}
		s += nl + strings.Repeat(ind, lvl+1) + jsonText(c, ind, lvl+1)
	}
	return s + nl + strings.Repeat(ind, lvl) + "]"
}

// JSON: the JSON form holds the same items.
func JSON() {
	shape := sym.Choice("shape", 9)
	info := tree(shape)
	ns := 3
	if shape == 3 || shape == 6 || shape == 8 {
		ns = 7
	}
	n := []int{0, 2, -1, 4, 1, 9, 33}[sym.Choice("indent", ns)]
	r, err := info.JSON(n)
	sym.Assert(err == nil, "JSON refused")
	b, err := io.ReadAll(r)
	sym.Assert(err == nil, "JSON not readable")
	if !sym.Symbolic() {
		// natively the text is decoded
		var back result.Info
		sym.Observe("json", string(b))
		sym.Assert(json.Unmarshal(b, &generic{}) == nil, "not JSON")
		sym.Assert(decode(b, &back) == nil, "JSON form")
		sameInfo(info, &back, nil, nil)
		b = bytes.TrimSpace(b)
		var small, wide bytes.Buffer
		sym.Assert(json.Compact(&small, b) == nil, "not JSON")
		sym.Assert(!bytes.Contains(small.Bytes(), []byte(`:""`)) || strings.Contains(fmt.Sprint(info), `:""`) || strings.Contains(small.String(), `"name":""`), "empty field in JSON")
		sym.Assert(!bytes.Contains(small.Bytes(), []byte(`"Item":[]`)) && !bytes.Contains(small.Bytes(), []byte(`"Item":null`)), "empty list in JSON")
		if n > 0 {
			_ = json.Indent(&wide, small.Bytes(), "", strings.Repeat(" ", n))
			sym.Assert(bytes.Equal(wide.Bytes(), b), "JSON not indented as asked")
		} else {
			sym.Assert(bytes.Equal(small.Bytes(), b), "JSON indented")
		}
		return
	}
	ind, nl := "", ""
	if n > 0 {
		ind, nl = strings.Repeat(" ", n), "\n"
	}
	want := "{}"
	if len(info.Packets) > 0 {
		want = "{" + nl + ind + `"Packet":`
		if n > 0 {
			want += " "
		}
		want += jsonList(info.Packets, ind, 1) + nl + "}"
		if n <= 0 {
			want = `{"Packet":` + jsonList(info.Packets, "", 1) + "}"
		}
	}
	sym.Observe("json", string(b))
	sym.Assert(string(b) == want, "JSON form")
}

type generic struct{}

type jitem struct {
	Name  *string  `json:"name"`
	Value string   `json:"value"`
	Dump  string   `json:"dump"`
	Note  string   `json:"note"`
	Items []*jitem `json:"Item"`
}

func (j *jitem) back() *result.Item {
	if j == nil || j.Name == nil {
		return nil
	}
	i := &result.Item{Name: *j.Name, Value: j.Value, Dump: j.Dump, Note: j.Note}
	for _, k := range j.Items {
		i.Items = append(i.Items, k.back())
	}
	return i
}

// decode reads the documented JSON form with types of its own.
func decode(b []byte, info *result.Info) error {
	var j struct {
		Packet []*jitem
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	d.DisallowUnknownFields()
	if err := d.Decode(&j); err != nil {
		return err
	}
	for _, p := range j.Packet {
		info.Packets = append(info.Packets, p.back())
	}
	return nil
}
