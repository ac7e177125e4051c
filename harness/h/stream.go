package h

import (
	"bytes"
	"errors"
	"io"

	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/result"

	"vh/ref"
	"vh/sym"
)

// run shows a whole input.
func run(cxt *context.Context, data []byte) (*result.Info, error) {
	return runReader(cxt, bytes.NewReader(data))
}

func runReader(cxt *context.Context, r io.Reader) (*result.Info, error) {
	p, err := parse.New(cxt, r)
	if err != nil {
		return nil, err
	}
	return p.Parse()
}

// stream is the expected outcome for a packet sequence: the items of the
// packets before the first malformed one.
func stream(data []byte, o *ref.Opts, st *ref.State) (want []*ref.Node, ok bool) {
	pks, ok := ref.Split(data)
	for _, p := range pks {
		n, wf := ref.Packet(p.Tag, p.Body, o, st)
		if !wf {
			return want, false
		}
		want = append(want, n)
	}
	return want, ok
}

func judgeInfo(want []*ref.Node, ok bool, got *result.Info, err error) {
	mask := ref.Kind(sym.Param("mask", int(ref.KAll)))
	observeInfo(got, err)
	if sym.Param("judge", 1) == 0 {
		sym.Reach("end")
		return
	}
	if ok {
		sym.Reach("well-formed")
		sym.Assert(err == nil, "well-formed input rejected")
	} else {
		sym.Reach("malformed")
		if sym.Param("errs", 0) == 1 {
			sym.Assert(err != nil, "malformed input accepted")
		}
		if err != nil && got == nil {
			sym.Assert(len(want) == 0, "packets before the error are lost")
			return
		}
	}
	sym.Assert(got != nil, "no result")
	if err != nil || ok {
		sym.Assert(len(got.Packets) == len(want), "number of packets")
	}
	for i := range want {
		if i < len(got.Packets) {
			compare(mask, want[i], got.Packets[i])
		}
	}
}

func observeInfo(got *result.Info, err error) {
	if err != nil {
		sym.Observe("err", "error")
	}
	if got != nil {
		for _, p := range got.Packets {
			observe1(p)
		}
	}
}

func noNewline(b []byte) {
	for i := 0; i < len(b); i++ {
		sym.Assume(b[i] != '\n')
	}
}

// Frame: any input of up to n octets.
func Frame() {
	data := sym.Bytes("data", sym.Param("n", 6))
	if sym.Param("len", 1) == 1 {
		data = sym.ConcreteLen(data)
	}
	if sym.Param("nl", 0) == 0 {
		noNewline(data)
	}
	cxt, o := options()
	limits(o)
	if t := sym.Param("tag", -1); t >= 0 {
		o.OnPacket = func(tag int, body []byte) { sym.Assume(tag == t || tag == 10) }
	}
	want, ok := stream(data, o, &ref.State{})
	got, err := run(cxt, data)
	judgeInfo(want, ok, got, err)
}

// header builds a packet header in one of the forms of RFC 4880, 4.2.
func header(form, tag, n int) []byte {
	switch form {
	case 0:
		return []byte{0x80 | byte(tag<<2), byte(n)}
	case 1:
		return []byte{0x81 | byte(tag<<2), byte(n >> 8), byte(n)}
	case 2:
		return append([]byte{0x82 | byte(tag<<2)}, be32(uint32(n))...)
	case 3:
		return []byte{0x83 | byte(tag<<2)}
	case 4:
		return []byte{0xc0 | byte(tag), byte(n)}
	case 5:
		return []byte{0xc0 | byte(tag), byte((n-192)>>8) + 192, byte(n - 192)}
	}
	return append([]byte{0xc0 | byte(tag), 0xff}, be32(uint32(n))...)
}

// partial frames a body in chunks of 2^e octets, then the rest.
func partial(tag int, body []byte, e int) []byte {
	out := []byte{0xc0 | byte(tag)}
	for len(body) > 1<<e {
		out = append(out, 0xe0|byte(e))
		out = append(out, body[:1<<e]...)
		body = body[1<<e:]
	}
	out = append(out, byte(len(body)))
	return append(out, body...)
}

var bodyTags = []int{10, 12, 13, 63}

// Frames: two packets, each framed in any of the forms, with bodies of n and m
// octets (any content), cut off at any point.
func Frames() {
	n, m := sym.Param("n", 3), sym.Param("m", 2)
	cxt, o := options()
	limits(o)
	var data []byte
	for i, l := range []int{n, m} {
		body := sym.BytesN([]string{"a", "b"}[i], l)
		pattern(body, "fix")
		ascii(body)
		tag := bodyTags[sym.Choice([]string{"ta", "tb"}[i], 4)]
		f := sym.Choice([]string{"fa", "fb"}[i], 9)
		if f < 4 && tag > 15 {
			sym.Stop()
		}
		switch {
		case f == 0 && l > 255, f == 4 && l > 191, f == 5 && (l < 192 || l > 8383):
			sym.Stop()
		case f == 7:
			data = append(data, partial(tag, body, 0)...)
		case f == 8:
			data = append(data, partial(tag, body, 1)...)
		default:
			data = append(data, header(f, tag, l)...)
			data = append(data, body...)
		}
		if l > 20 && f >= 7 {
			sym.Stop()
		}
		noNewline(data)
	}
	if sym.Param("cut", 1) == 1 {
		data = data[:sym.Choice("cut", len(data)+1)]
	}
	want, ok := stream(data, o, &ref.State{})
	got, err := run(cxt, data)
	judgeInfo(want, ok, got, err)
}

// chunks is a reader that hands out its data in pieces, as any io.Reader may.
type chunks struct {
	b    []byte
	cut  []int
	eof  bool // last piece together with io.EOF
	fail int  // error after that many octets; -1 = never
	done int
}

var errRead = errors.New("read error")

func (c *chunks) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if c.fail >= 0 && c.done >= c.fail {
		return 0, errRead
	}
	if len(c.b) == 0 {
		return 0, io.EOF
	}
	k := len(c.b)
	if len(c.cut) > 0 {
		if c.cut[0] < k {
			k = c.cut[0]
		}
		c.cut = c.cut[1:]
	}
	if k > len(p) {
		k = len(p)
	}
	if c.fail >= 0 && k > c.fail-c.done {
		k = c.fail - c.done
	}
	copy(p, c.b[:k])
	c.b = c.b[k:]
	c.done += k
	if c.eof && c.fail < 0 && len(c.b) == 0 {
		return k, io.EOF
	}
	if c.eof && c.done == c.fail {
		return k, errRead
	}
	return k, nil
}

func sample(i int) []byte {
	switch i {
	case 0: // two packets
		return []byte{0xca, 3, 'P', 'G', 'P', 0xcd, 4, 'u', 's', 'e', 'r'}
	case 1: // with line breaks inside
		return []byte{0xca, 4, '\n', 'a', '\r', '\n', 0xac, 2, '\n', '\n'}
	case 2:
		return []byte(armored)
	case 3:
		return []byte(cleartext)
	case 4: // truncated
		return []byte{0xca, 3, 'P', 'G', 'P', 0xcd, 9, 'u', '\n'}
	}
	return []byte{0xcb, 0xe1, 'b', 0, 0xe1, 1, 2, 3, 3, 4, 5, 6}
}

func sameItem(a, b *result.Item) {
	if a == nil || b == nil {
		sym.Assert(a == nil && b == nil, "item missing")
		return
	}
	sym.Assert(a.Name == b.Name, "names differ")
	sym.Assert(a.Value == b.Value, "values differ")
	sym.Assert(a.Dump == b.Dump, "dumps differ")
	sym.Assert(a.Note == b.Note, "notes differ")
	sym.Assert(len(a.Items) == len(b.Items), "numbers of items differ")
	for i := range a.Items {
		sameItem(a.Items[i], b.Items[i])
	}
}

func sameInfo(a, b *result.Info, ea, eb error) {
	sym.Assert((ea == nil) == (eb == nil), "one fails, the other does not")
	if a == nil || b == nil {
		sym.Assert(a == nil && b == nil || ea != nil, "result missing")
		return
	}
	sym.Assert(len(a.Packets) == len(b.Packets), "numbers of packets differ")
	for i := range a.Packets {
		sameItem(a.Packets[i], b.Packets[i])
	}
}

// Chunk: an input handed over in any pieces gives the same result as at once;
// an input that cannot be read to its end is an error.
func Chunk() {
	s := sym.Choice("sample", 6)
	data := sample(s)
	if x := sym.Param("free", 0); x > 0 {
		d := sym.BytesN("data", x)
		copy(data[2:], d)
	}
	c := &chunks{b: data, eof: sym.Bool("eof"), fail: -1}
	broken := sym.Bool("broken")
	cuts := sym.Param("cuts", 2)
	if broken {
		cuts = 1
	}
	for i := 0; i < cuts; i++ {
		c.cut = append(c.cut, sym.Concrete(sym.Int([]string{"c0", "c1", "c2", "c3"}[i], 0, sym.Param("max", 12))))
	}
	armor := sym.Bool("armor")
	mk := func() *context.Context {
		return context.New(context.Set(context.ARMOR, armor), context.Set(context.DEBUG, true), context.Set(context.UTC, true))
	}
	if broken {
		c.fail = sym.Concrete(sym.Int("fail", 0, len(data)))
		got, err := runReader(mk(), c)
		observeInfo(got, err)
		sym.Reach("broken")
		sym.Assert(err != nil, "read error not reported")
		return
	}
	a, ea := run(mk(), append([]byte{}, data...))
	b, eb := runReader(mk(), c)
	observeInfo(b, eb)
	sym.Reach("whole")
	sameInfo(a, b, ea, eb)
}

// Again: what was parsed before in the same process makes no difference, nor
// does the order in which maps are walked; the input is not modified.
func Again() {
	debug := sym.Bool("debug")
	mk := func() *context.Context {
		return context.New(context.Set(context.DEBUG, debug), context.Set(context.UTC, true))
	}
	times := cat(be32(sym.Uint32("t")))
	ps := [][]byte{
		hdrOf(2, sigBody(cat(one(2, times), one(3, times), one(9, times)), nil)),
		hdrOf(2, sigBody(cat(one(3, times), one(27, []byte{0xff, 0xff})), one(9, times))),
		hdrOf(6, cat([]byte{4}, times, []byte{99, 5})),
		hdrOf(1, []byte{3, 1, 2, 3, 4, 5, 6, 7, 8, 99, 7}),
		hdrOf(18, []byte{1, 2}),
		hdrOf(9, []byte{1, 2}),
		hdrOf(2, []byte{4, 0x13, 99}),
	}
	x, y := ps[sym.Choice("x", len(ps))], ps[sym.Choice("y", len(ps))]
	keep := append([]byte{}, x...)
	a, ea := run(mk(), x)
	sym.MapReverse(true)
	b, eb := run(mk(), x)
	sym.MapReverse(false)
	_, _ = run(mk(), y)
	c, ec := run(mk(), x)
	observeInfo(a, ea)
	sym.Reach("compared")
	sameInfo(a, b, ea, eb)
	sameInfo(a, c, ea, ec)
	same(x, keep)
}
