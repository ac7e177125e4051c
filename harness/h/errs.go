package h

import (
	"errors"
	"io"

	"github.com/spiegel-im-spiegel/gpgpdump/ecode"
	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/reader"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/tags"

	"vh/sym"
)

// Errs: the cause of a failure is found in the error.
func Errs() {
	switch sym.Param("case", 0) {
	case 0: // seek
		r := reader.New(sym.BytesN("b", 3))
		at := int64(sym.Choice("at", 4))
		_, err := r.Seek(at, io.SeekStart)
		sym.Assert(err == nil, "seek within the body")
		off := int64(sym.Uint64("off"))
		whence := int(int64(sym.Uint64("whence")))
		_, err = r.Seek(off, whence)
		if whence < 0 || whence > 2 {
			sym.Reach("whence")
			sym.Assert(errors.Is(err, ecode.ErrInvalidWhence), "cause of a bad origin")
			sym.Assert(!errors.Is(err, ecode.ErrInvalidOffset), "cause of a bad origin")
			return
		}
		if err != nil {
			sym.Reach("offset")
			sym.Assert(errors.Is(err, ecode.ErrInvalidOffset), "cause of a bad offset")
			sym.Assert(!errors.Is(err, ecode.ErrInvalidWhence), "cause of a bad offset")
		}
	case 1: // no armor
		data := sym.ConcreteLen(sym.Bytes("data", sym.Param("n", 3)))
		_, err := run(context.New(context.Set(context.ARMOR, true)), data)
		sym.Assert(errors.Is(err, ecode.ErrArmorText), "cause of missing armor")
		sym.Reach("armor")
	case 3: // a failure after that is another one
		bad := block("MESSAGE", nil, []byte{sym.Byte("c") & 0x7f, 1, 2}, "\n")
		_, err := run(context.New(context.Set(context.ARMOR, sym.Bool("armor"))), bad)
		sym.Assert(err != nil, "malformed packet accepted")
		sym.Assert(!errors.Is(err, ecode.ErrArmorText), "armor blamed for a packet")
		sym.Reach("packet")
	case 2: // the input fails
		s := sym.Choice("sample", 6)
		data := sample(s)
		armor := sym.Bool("armor")
		c := &chunks{b: data, eof: sym.Bool("with"), fail: sym.Concrete(sym.Int("fail", 0, len(data)))}
		_, err := runReader(context.New(context.Set(context.ARMOR, armor), context.Set(context.DEBUG, sym.Bool("debug"))), c)
		sym.Assert(err != nil, "read error not reported")
		if armor || s == 0 || c.fail == 0 {
			sym.Reach("input")
			sym.Assert(errors.Is(err, errRead), "cause of a failed input")
			sym.Assert(!errors.Is(err, io.EOF), "failed input taken for its end")
		}
	}
}

// Nil: what is missing gives an error or nothing, and no panic.
func Nil() {
	switch sym.Choice("case", 5) {
	case 0:
		p, err := parse.New(context.New(context.Set(context.ARMOR, sym.Bool("armor"))), nil)
		sym.Assert(p == nil && errors.Is(err, ecode.ErrNullPointer), "no reader")
		q, err := tags.NewPackets(nil, nil)
		sym.Assert(q == nil && errors.Is(err, ecode.ErrNullPointer), "no reader")
	case 1:
		var p *parse.Parser
		i, err := p.Parse()
		sym.Assert(err == nil && i != nil && len(i.Packets) == 0, "no parser")
		var q *tags.Packets
		sym.Assert(errors.Is(q.Next(), ecode.ErrNullPointer), "no packets")
		it, err := q.Parse()
		sym.Assert(it == nil && errors.Is(err, ecode.ErrNullPointer), "no packets")
	case 2:
		var i *result.Info
		i.Add(result.NewItem(result.Name("x")))
		sym.Assert(i.String() == "" && i.ToString("  ").Len() == 0, "text of nothing")
		r, err := i.JSON(sym.Choice("indent", 3))
		sym.Assert(err == nil && r != nil, "JSON of nothing")
		b, err := io.ReadAll(r)
		sym.Assert(err == nil && len(b) == 0, "JSON of nothing")
	case 3:
		var it *result.Item
		it.Add(result.NewItem(result.Name("x")))
		i := result.New()
		i.Add(it)
		sym.Assert(len(i.Packets) == 0, "nothing added")
		x := result.NewItem(result.Name("x"))
		x.Add(it)
		sym.Assert(len(x.Items) == 0, "nothing added")
		i.Add(x)
		i.Packets = append(i.Packets, it)
		sym.Assert(i.String() == "x\n", "absent item shown")
	case 4:
		var c *context.Context
		code := context.OptCode(sym.Byte("code"))
		c.Set(code, true)
		sym.Assert(!c.Get(code), "no context")
		sym.Assert(!c.Armor() && !c.Cert() && !c.Debug() && !c.Integer() && !c.Literal() && !c.Marker() && !c.Private() && !c.UTC(), "no context")
	}
	sym.Reach("absent")
}
