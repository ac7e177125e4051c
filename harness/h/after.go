package h

import (
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"

	"vh/sym"
)

// rich holds packets that between them use all parts of the parser, well-formed
// and cut off.
func rich() []pkt {
	t := []byte{0x5f, 0, 0, 1}
	n := []byte{0, 9, 1, 0x55}
	curve := func(alg byte, oid ...byte) pkt {
		return pkt{6, cat([]byte{4}, t, []byte{alg, byte(len(oid))}, oid, []byte{0, 11, 4, 9}, []byte{3, 1, 10, 9})}
	}
	subs := cat(one(2, t), one(3, t), one(9, t), one(4, []byte{1}), one(5, []byte{1, 60}), one(6, []byte("<x>")), one(7, []byte{1}),
		one(11, []byte{9, 8, 7}), one(12, cat([]byte{0xc0, 1}, t, t, t, t, t)), one(16, cat(t, t)), one(20, []byte{0x80, 1, 1, 1, 0, 1, 0, 1, 'n', 'v'}),
		one(0x94, []byte{0, 0, 0, 0, 0, 1, 0, 1, 'n', 200}), one(21, []byte{8, 10}), one(22, []byte{1, 2}), one(23, []byte{0x80, 1}), one(24, []byte("hkp://x")),
		one(25, []byte{1}), one(26, []byte("http://x")), one(27, []byte{0xff, 0xff, 3, 4}), one(28, []byte("a\x00b")), one(29, []byte{2, 'r'}))
	subs2 := cat(one(30, []byte{7, 1}), one(31, []byte{1, 8, 1, 2}), one(33, cat([]byte{4}, t, t, t, t, t)), one(34, []byte{1, 2}), one(35, []byte{5, 1}), one(37, cat(t, t)),
		one(32, sigBody(cat(one(2, t), one(3, t)), one(16, cat(t, t)))), one(38, []byte{0, 0xcd, 1, 'k'}), one(10, []byte{1}), one(101, []byte{2}), one(99, nil))
	return []pkt{
		{1, cat([]byte{3}, t, t, []byte{1}, n)},
		{1, cat([]byte{3}, t, t, []byte{18}, n, []byte{2, 1, 2})},
		{1, cat([]byte{3}, t, t, []byte{16}, n, n)},
		{3, cat([]byte{4, 9, 3, 8}, t, t, []byte{0x60, 1})},
		{3, []byte{5, 9, 2, 0, 8}},
		{18, []byte{1, 2, 3}},
		{9, []byte{1, 2, 3}},
		{20, cat([]byte{1, 9, 2, 6}, t, t, t, t, t)},
		curve(19, 0x2a, 0x86, 0x48, 0xce, 0x3d, 3, 1, 7),
		curve(19, 0x2b, 0x81, 4, 0, 0x0a),
		curve(19, 0x2b, 0x81, 4, 0, 0x22),
		curve(19, 0x2b, 0x81, 4, 0, 0x23),
		curve(18, 0x2b, 6, 1, 4, 1, 0x97, 0x55, 1, 5, 1),
		curve(22, 0x2b, 6, 1, 4, 1, 0xda, 0x47, 0x0f, 1),
		{6, cat([]byte{3}, t, []byte{0, 9, 1}, n, n)},
		{14, cat([]byte{4}, t, []byte{17}, n, n, n, n)},
		{14, cat([]byte{5}, t, []byte{16, 0, 0, 0, 12}, n, n, n)},
		{6, cat([]byte{4}, t, []byte{99}, n)},
		{5, cat([]byte{4}, t, []byte{1}, n, n, []byte{0}, n, n, n, n, []byte{1, 2})},
		{5, cat([]byte{4}, t, []byte{17}, n, n, n, n, []byte{254, 7, 3, 8}, t, t, []byte{0x60}, t, t, t, t, n)},
		{7, cat([]byte{4}, t, []byte{1}, n, n, []byte{255, 0, 101, 'G', 'N', 'U', 2, 2, 1, 2})},
		{7, cat([]byte{5}, t, []byte{22, 0, 0, 0, 6, 1, 9, 0, 11, 4, 9}, []byte{253, 22, 9, 2, 0, 8}, t, t, t, t, []byte{0, 0, 0, 0, 0, 0, 2, 1, 2})},
		{2, sigBody(subs, subs2)},
		{2, cat([]byte{3, 5, 0x10}, t, t, t, []byte{17, 8, 1, 2}, n, n)},
		{4, cat([]byte{3, 0x13, 8, 1}, t, t, []byte{0})},
		{10, []byte("PGP")},
		{11, cat([]byte("u\x03a\tb"), t, []byte("text"))},
		{11, []byte{'b', 0, 0, 0, 0, 0, 1}},
		{12, []byte{1}},
		{13, []byte("J\xc3\xbc\n")},
		{13, []byte{0xff}},
		{17, cat(one(1, []byte{5, 0, 100, 1, 7, 1, 2}), one(100, []byte{1}))},
		{19, cat(t, t, t, t, t)},
		{60, []byte{1, 2}},
		{40, []byte{1, 2}},
		{6, cat([]byte{4}, t, []byte{1, 0, 99, 1})},
		{2, []byte{4, 0x13, 1, 8, 0, 9, 1}},
		{3, []byte{4, 9, 3, 8, 1}},
	}
}

// warm parses other packets before the one that is judged, so that whatever the
// parser might keep from them is there.
func warm() {
	ps := rich()
	cxt := context.New(context.Set(context.CERT, true), context.Set(context.INTEGER, true), context.Set(context.LITERAL, true), context.Set(context.MARKER, true), context.Set(context.PRIVATE, true), context.Set(context.UTC, true))
	for _, p := range ps {
		_, _ = parseTag(p.tag, p.body, cxt)
	}
	if sym.Param("after", 0) == 1 {
		return
	}
	k := sym.Choice("last", len(ps))
	cxt = context.New(context.Set(context.DEBUG, true))
	_, _ = parseTag(ps[k].tag, ps[k].body, cxt)
}
