package h

import (
	"encoding/base64"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"

	"vh/ref"
	"vh/sym"
)

func hdr5(tag int, body []byte) []byte {
	return cat([]byte{0xc0 | byte(tag), 0xff}, be32(uint32(len(body))), body)
}

func repeat(b []byte, n int) []byte {
	out := make([]byte, 0, len(b)*n)
	for i := 0; i < n; i++ {
		out = append(out, b...)
	}
	return out
}

// filler is n octets of varying, printable content.
func filler(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	return b
}

func name(k int) []byte {
	b := sym.BytesN("name", k)
	ascii(b)
	return b
}

func manyArmor(cxt *context.Context, o *ref.Opts, armor bool, pk, text []byte) {
	cxt.Set(context.ARMOR, armor)
	want, ok := stream(pk, o, &ref.State{})
	got, err := run(cxt, text)
	judgeInfo(want, ok, got, err)
}

// Many: what is shown does not depend on how much there is of it. Inputs with
// many packets, subpackets, levels, lines or octets, fixed but for a few octets
// at their end.
func Many() {
	cxt, o := options()
	limits(o)
	o.OnPacket = nil
	n := sym.Param("n", 300)
	var data []byte
	switch sym.Param("kind", 0) {
	case 0: // packets; the last one is cut off or not
		data = repeat([]byte{0xcc, 1, 7}, n)
		last := hdrOf(13, name(2))
		data = cat(data, last[:len(last)-sym.Choice("cut", 3)])
	case 1: // packets of all kinds
		o.OnText = nil
		var all []byte
		for _, p := range rich()[:32] {
			all = append(all, hdr5(p.tag, p.body)...)
		}
		data = cat(repeat(all, n), hdrOf(13, name(2)))
	case 2: // a large packet, then another
		tag := []int{12, 60, 40, 11, 13, 19, 61}[sym.Choice("tag", 7)]
		b := filler(n)
		if tag == 11 {
			copy(b, []byte{'b', 0, 0, 0, 0, 0})
		}
		if tag == 13 && n > 100000 {
			b = b[:100000]
		}
		b[len(b)-1] = name(1)[0]
		data = cat(hdr5(tag, b), hdrOf(13, []byte("end")))
	case 10: // one large packet, shown in full
		tag := []int{11, 10, 60, 9, 18}[sym.Param("tag", 0)]
		b := filler(n)
		if tag == 11 {
			copy(b, []byte{'b', 0, 0, 0, 0, 0})
		}
		data = hdr5(tag, b)
	case 3: // subpackets
		x := sym.Byte("x")
		area := cat(repeat(one(4, []byte{1}), n), one(25, []byte{x}), one(2, be32(sym.Uint32("t"))))
		if sym.Bool("unhashed") {
			data = hdr5(2, sigBody(nil, area))
		} else {
			data = hdr5(2, sigBody(area, nil))
		}
	case 4: // signatures within signatures
		b := sigBody(one(2, be32(sym.Uint32("t"))), one(25, []byte{sym.Byte("x")}))
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				b = sigBody(one(32, b), nil)
			} else {
				b = sigBody(nil, one(32, b))
			}
		}
		data = hdr5(2, b)
	case 5: // packets within a compressed packet
		plain := cat(repeat([]byte{0xcc, 1, 7}, n), hdrOf(13, name(2)))
		inner, wf := stream(plain, o, &ref.State{})
		body := append([]byte{0}, plain...)
		want, ok := ref.Packet(8, body, o, &ref.State{})
		want.Items = append(want.Items, inner...)
		end, _ := ref.Packet(12, []byte{1}, o, &ref.State{})
		got, err := run(cxt, cat(hdr5(8, body), hdrOf(12, []byte{1})))
		judgeInfo([]*ref.Node{want, end}, ok && wf, got, err)
		return
	case 6: // lines before the armored block
		a := sym.Bool("armor")
		pk := hdrOf(13, []byte("user"))
		data = cat(repeat([]byte("note\n"), n), block("MESSAGE", nil, pk, "\n"))
		manyArmor(cxt, o, a, pk, data)
		return
	case 7: // lines of the armored block
		pk := append(cat([]byte{0xcc, 0xff}, be32(uint32(n))), make([]byte, n)...)
		pk = append(pk, hdrOf(13, []byte("end!"))...) // n = 48 k: whole lines
		t := []byte("-----BEGIN PGP MESSAGE-----\n\n")
		t = append(t, base64.StdEncoding.EncodeToString(pk[:6])...)
		t = append(t, '\n')
		l := append(repeat([]byte{'A'}, 64), '\n')
		for i := 0; i < n; i += 48 {
			t = append(t, l...)
		}
		t = append(t, base64.StdEncoding.EncodeToString(pk[n+6:])...)
		t = append(t, "\n-----END PGP MESSAGE-----\n"...)
		manyArmor(cxt, o, sym.Bool("armor"), pk, t)
		return
	case 8: // characters of a text
		b := filler(n)
		b[n-1] = name(1)[0]
		switch sym.Choice("field", 3) {
		case 0:
			data = hdr5(13, b)
		case 1:
			data = hdr5(2, sigBody(nil, one(28, b)))
		case 2:
			data = hdr5(2, sigBody(one(26, b), nil))
		}
	case 9: // octets of a notation
		b := filler(n)
		b[n-1] = name(1)[0]
		h := []byte{0x80, 0, 0, 0}
		l := sym.Int("split", 0, 3)
		l = []int{0, 1, n - 1, n}[sym.Concrete(l)]
		nb := cat(h, []byte{byte(l >> 8), byte(l), byte((n - l) >> 8), byte(n - l)}, b)
		data = hdr5(2, sigBody(nil, one(20, nb)))
	}
	want, ok := stream(data, o, &ref.State{})
	got, err := run(cxt, data)
	judgeInfo(want, ok, got, err)
}
