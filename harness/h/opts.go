// Package h holds the symbolic harnesses over the packet parser.
package h

import (
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/tags"
	"golang.org/x/crypto/openpgp/packet"

	"vh/ref"
	"vh/sym"
)

// options builds a context from symbolic option values and their documented
// implications. Parameter "debug": 0 never, 1 always, 2 any; "opts" 0 turns all
// options off, 1 leaves them symbolic, 2 turns all (but debug) on.
func options() (*context.Context, *ref.Opts) {
	var f [7]bool // cert debug int literal marker private utc
	switch sym.Param("opts", 1) {
	case 1:
		f[0], f[2], f[3] = sym.Bool("cert"), sym.Bool("int"), sym.Bool("literal")
		f[4], f[5], f[6] = sym.Bool("marker"), sym.Bool("private"), sym.Bool("utc")
	case 2:
		f[0], f[2], f[3], f[4], f[5], f[6] = true, true, true, true, true, true
	}
	switch sym.Param("debug", 0) {
	case 1:
		f[1] = true
	case 2:
		f[1] = sym.Bool("debug")
	}
	cxt := context.New(
		context.Set(context.CERT, f[0]),
		context.Set(context.DEBUG, f[1]),
		context.Set(context.INTEGER, f[2]),
		context.Set(context.LITERAL, f[3]),
		context.Set(context.MARKER, f[4]),
		context.Set(context.PRIVATE, f[5]),
		context.Set(context.UTC, f[6]),
	)
	o := &ref.Opts{Cert: f[0], Debug: f[1], Integer: f[2], Literal: f[3], Marker: f[4], Private: f[5], UTC: f[6]}
	if f[1] {
		o.Cert, o.Integer, o.Literal, o.Marker, o.Private = true, true, true, true, true
	}
	return cxt, o
}

// parseTag runs the real parser on one packet body.
func parseTag(tag int, body []byte, cxt *context.Context) (*result.Item, error) {
	return tags.NewTag(&packet.OpaquePacket{Tag: uint8(tag), Contents: body}, cxt).Parse()
}

// compare checks the shown item against the expected one. Only nodes whose
// kind is in mask are judged; open values are not.
func compare(mask ref.Kind, want *ref.Node, got *result.Item) {
	if got == nil {
		sym.Assert(false, "item missing: "+want.Name)
		return
	}
	if want.K&mask != 0 {
		field("name", want, want.Name, got.Name)
		if !want.Open {
			field("value", want, want.Value, got.Value)
		}
		field("dump", want, want.Dump, got.Dump)
		field("note", want, want.Note, got.Note)
	}
	if len(want.Items) == len(got.Items) {
		for i, w := range want.Items {
			compare(mask, w, got.Items[i])
		}
		return
	}
	if mask&ref.KGroup != 0 {
		sym.ObserveInt("got-items", len(got.Items))
		sym.Assert(false, "number of items in "+want.Name)
	}
	j := 0
	for _, w := range want.Items {
		if !has(mask, w) {
			continue
		}
		found := false
		for j < len(got.Items) && !found {
			if got.Items[j] != nil && got.Items[j].Name == w.Name {
				found = true
				compare(mask, w, got.Items[j])
			}
			j++
		}
		if !found {
			sym.Assert(false, "not shown: "+w.Name)
		}
	}
}

func has(mask ref.Kind, n *ref.Node) bool {
	if n.K&mask != 0 {
		return true
	}
	for _, c := range n.Items {
		if has(mask, c) {
			return true
		}
	}
	return false
}

// With parameter "dumps" only the dumps are judged, with 2 only whether there is
// one.
func field(what string, n *ref.Node, want, got string) {
	if d := sym.Param("dumps", 0); d > 0 && what != "dump" && what != "name" {
		return
	} else if d == 2 && what == "dump" {
		sym.Assert((want == "") == (got == ""), "presence of the dump of "+kindName(n.K))
		return
	}
	sym.Assert(want == got, what+" of "+kindName(n.K))
}

func kindName(k ref.Kind) string {
	switch k {
	case ref.KPacket:
		return "packet"
	case ref.KSub:
		return "subpacket"
	case ref.KGroup:
		return "group"
	case ref.KAlg:
		return "assigned number"
	case ref.KTime:
		return "time"
	case ref.KExpire:
		return "expiration"
	case ref.KIdent:
		return "key identifier"
	case ref.KBytes:
		return "octets"
	case ref.KMPI:
		return "key material"
	case ref.KText:
		return "text"
	case ref.KRaw:
		return "raw data"
	case ref.KFlag:
		return "flag"
	case ref.KNum:
		return "number"
	case ref.KCount:
		return "count"
	}
	return "item"
}

// observe records the shown tree, for validation against the native build.
func observe(it *result.Item, err error) {
	if err != nil {
		sym.Observe("err", "error")
		return
	}
	observe1(it)
}

func observe1(it *result.Item) {
	if it == nil {
		sym.Observe("nil", "")
		return
	}
	sym.Observe("name", it.Name)
	sym.Observe("value", it.Value)
	sym.Observe("dump", it.Dump)
	sym.Observe("note", it.Note)
	for _, c := range it.Items {
		observe1(c)
	}
	sym.Observe("end", "")
}
