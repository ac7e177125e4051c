package h

import (
	"vh/ref"
	"vh/sym"
)

// force makes octet i of b equal to a parameter, when it is given.
func force(b []byte, i int, param string) {
	if v := sym.Param(param, -1); v >= 0 {
		sym.Assume(len(b) > i)
		sym.Assume(b[i] == byte(v))
	}
}

// pattern fixes the first octets of b, as many as the parameter says.
func pattern(b []byte, param string) {
	for i := 0; i < sym.Param(param, 0) && i < len(b); i++ {
		b[i] = 0x20 + byte(i*37)%0x5e
	}
}

func ascii(b []byte) {
	for i := 0; i < len(b); i++ {
		sym.Assume(b[i] >= 0x20 && b[i] < 0x7f)
	}
}

// few keeps one or two representatives of every class of algorithms that are
// parsed alike. Parameter "pub" names the one public-key algorithm, "all" the
// kind of number that is left free all the same.
func few(kind string, id byte) {
	p, all := sym.Param("pub", -1), sym.Param("all", 0)
	switch kind {
	case "pub":
		if p >= 0 {
			sym.Assume(id == byte(p))
		} else if all != 1 {
			sym.Assume(id == 1 || id == 16 || id == 17 || id == 18 || id == 19 || id == 22 || id == 99)
		}
	case "sym":
		if all != 2 {
			sym.Assume(id == 2 || id == 9 || id == 77)
		}
	case "hash":
		if all != 3 {
			sym.Assume(id == 8 || id == 77)
		}
	case "comp":
		if all != 4 {
			sym.Assume(id == 1 || id == 77)
		}
	case "aead":
		if all != 5 {
			sym.Assume(id == 1 || id == 2 || id == 77)
		}
	case "sigt":
		if all != 6 {
			sym.Assume(id == 1 || id == 0x13 || id == 77)
		}
	case "s2k":
		if x := sym.Param("s2k", -1); x >= 0 {
			sym.Assume(id == byte(x))
		} else if all != 7 {
			sym.Assume(id == 0 || id == 1 || id == 3 || id == 77 || id == 101)
		}
	}
}

// limits restricts the inputs as the parameters say: text=1 leaves text fields
// free, otherwise they are printable ASCII.
// mset > 0: fields whose length is announced have one of a few lengths around
// the limits of one octet; mlen > 0: no field is longer than that (and the engine takes each length in
// turn).
//
// skipTake fields are exempt: they are fixed already.
var skipTake int

// onSub restricts the subpackets of the next case.
var onSub func(typ byte, body []byte)

func limits(o *ref.Opts) {
	o.OnSub, onSub = onSub, nil
	ref.OnTake = nil
	max, set, skip := sym.Param("mlen", 0), sym.Param("mset", 0), skipTake
	if max > 0 || set > 0 {
		ref.OnTake = func(n int) int {
			if skip > 0 {
				skip--
				return n
			}
			switch set {
			case 1:
				sym.Assume(n == 0 || n == 1 || n == 255 || n == 256 || n == 300)
			case 2: // what the fields of a protected secret key add up to, and more or less
				sym.Assume(n == 0 || n == 1 || n == 5 || n == 20 || n == 21 || n == 28 || n == 29 || n == 30)
			default:
				sym.Assume(n <= max)
			}
			return sym.Concrete(n)
		}
	}
	skipTake = 0
	if sym.Param("text", 0) == 0 {
		o.OnText = ascii
	}
	if sym.Param("few", 0) == 1 {
		o.OnAlg = few
	}
	if sym.Param("comp", 0) == 0 {
		o.OnPacket = func(tag int, body []byte) { sym.Assume(tag != 8) }
	}
}

// judge compares the outcome for one packet.
func judge(tag int, body []byte) {
	mask := ref.Kind(sym.Param("mask", int(ref.KAll)))
	cxt, o := options()
	limits(o)
	after := sym.Param("after", 0) > 0
	var keep []byte
	if after {
		warm()
		keep = append(keep, body...)
	}
	want, ok := ref.Packet(tag, body, o, &ref.State{})
	got, err := parseTag(tag, body, cxt)
	verdict(mask, want, ok, got, err)
	if after {
		same(body, keep)
	}
}

// Pkt: any packet body of up to n octets, for one tag.
func Pkt() {
	tag := sym.Param("tag", 0)
	body := sym.Bytes("body", sym.Param("n", 8))
	if sym.Param("len", 0) == 1 {
		body = sym.ConcreteLen(body)
	}
	force(body, 0, "b0")
	judge(tag, body)
}

// PktN: any packet body of exactly n octets.
func PktN() {
	body := sym.BytesN("body", sym.Param("n", 8))
	force(body, 0, "b0")
	judge(sym.Param("tag", 0), body)
}

// Sig: signatures of version 4 and 5 with empty subpacket areas; any fields,
// any material of up to n octets.
func Sig() {
	v := 4 + sym.Choice("v", 2)
	hdr := sym.BytesN("hdr", 3)
	if p := sym.Param("pub", -1); p >= 0 {
		hdr[1] = byte(p)
	}
	body := append([]byte{byte(v)}, hdr...)
	body = append(body, 0, 0, 0, 0)
	body = append(body, sym.Bytes("rest", sym.Param("n", 8))...)
	judge(2, body)
}

// pubPart is the public part of a key with small numbers.
func pubPart(alg byte) []byte {
	num := []byte{0, 5, 0x11}
	switch alg {
	case 1:
		return cat(num, num)
	case 16:
		return cat(num, num, num)
	case 17:
		return cat(num, num, num, num)
	case 18:
		return cat([]byte{2, 9, 9, 0, 8, 0x40, 3, 1, 8, 9})
	case 19, 22:
		return cat([]byte{1, 9, 0, 8, 0x04})
	}
	return nil
}

// Sec: secret keys of version v: a small public part of every algorithm, then
// any n octets or fewer.
func Sec() {
	v := sym.Param("v", 4)
	tag := sym.Param("tag", 5)
	var alg byte
	if p := sym.Param("pub", -1); p >= 0 {
		alg = byte(p)
	} else {
		alg = []byte{1, 16, 17, 18, 19, 22, 99}[sym.Choice("alg", 7)]
	}
	body := cat([]byte{byte(v)}, be32(sym.Uint32("time")))
	if v == 3 {
		body = append(body, 0, 9)
	}
	body = append(body, alg)
	pp := pubPart(alg)
	if v == 5 {
		body = append(body, 0, 0, 0, byte(len(pp)))
	}
	body = append(body, pp...)
	skipTake = map[byte]int{1: 2, 16: 3, 17: 4, 18: 3, 19: 2, 22: 2}[alg]
	if v == 5 {
		skipTake++
	}
	rest := sym.Bytes("rest", sym.Param("n", 8))
	force(rest, 0, "b0")
	force(rest, 1, "b1")
	if lo := sym.Param("lo", 0); lo > 0 {
		sym.Assume(len(rest) >= lo)
	}
	judge(tag, append(body, rest...))
}

func sigBody(hashed, unhashed []byte) []byte {
	b := []byte{4, 0x13, 99, 8, byte(len(hashed) >> 8), byte(len(hashed))}
	b = append(b, hashed...)
	b = append(b, byte(len(unhashed)>>8), byte(len(unhashed)))
	b = append(b, unhashed...)
	return append(b, 0xab, 0xcd)
}

func one(typ byte, body []byte) []byte {
	n := len(body) + 1
	switch {
	case n < 192:
		return append([]byte{byte(n), typ}, body...)
	case n < 8384:
		return append([]byte{byte((n-192)>>8) + 192, byte(n - 192), typ}, body...)
	}
	return append(cat([]byte{255}, be32(uint32(n)), []byte{typ}), body...)
}

// Sub: one subpacket of any type (or type "typ") and any body of up to n octets,
// in the hashed or the unhashed area (signature) or in a user attribute.
func Sub() {
	tag := sym.Param("tag", 2)
	lo, n := sym.Param("lo", 0), sym.Param("n", 8)
	l := lo
	if n > lo {
		l += sym.Choice("len", n-lo+1)
	}
	typ := sym.Byte("typ")
	if t := sym.Param("typ", -1); t >= 0 {
		sym.Assume(typ&0x7f == byte(t))
	}
	if t := sym.Param("nt", -1); t >= 0 {
		sym.Assume(typ&0x7f != byte(t))
	}
	body := sym.BytesN("sub", l)
	pattern(body, "fix")
	force(body, 0, "b0")
	force(body, 1, "b1")
	force(body, 2, "b2")
	a := one(typ, body)
	if tag == 17 {
		judge(17, a)
		return
	}
	skipTake = 2 // area and subpacket
	if sym.Bool("unhashed") {
		skipTake++
		judge(2, sigBody(nil, a))
	} else {
		judge(2, sigBody(a, nil))
	}
}

// area puts b into the hashed or unhashed area of a signature or into a user
// attribute.
func area(tag int, b []byte) {
	if tag == 17 {
		judge(17, b)
		return
	}
	skipTake = 1
	if sym.Bool("unhashed") {
		skipTake++
		judge(2, sigBody(nil, b))
	} else {
		judge(2, sigBody(b, nil))
	}
}

func placeholders(typ byte, body []byte) { sym.Assume(typ&0x7f == 10) }

// Area: any area of up to n octets that holds only subpackets without an inner
// structure.
func Area() {
	onSub = placeholders
	b := sym.ConcreteLen(sym.Bytes("area", sym.Param("n", 4)))
	area(sym.Param("tag", 2), b)
}

// Areas: two subpackets with every form of length, cut off at any point near
// the end of the first or the second.
func Areas() {
	onSub = placeholders
	var b []byte
	for i, s := range []string{"0", "1"} {
		l := []int{0, 1, 190, 191, 192, 300}[sym.Choice("len"+s, 6)]
		body := sym.BytesN("body"+s, l)
		t := sym.Byte("typ" + s)
		form := sym.Choice("form"+s, 3)
		n := l + 1
		switch {
		case form == 0 && n < 192:
			b = append(b, byte(n))
		case form == 1 && n >= 192:
			b = append(b, byte((n-192)>>8)+192, byte(n-192))
		case form == 2:
			b = append(b, 255)
			b = append(b, be32(uint32(n))...)
		default:
			sym.Stop()
		}
		b = append(b, t)
		b = append(b, body...)
		if i == 0 && sym.Bool("single") {
			break
		}
	}
	b = b[:len(b)-sym.Choice("cut", 3)]
	area(sym.Param("tag", 2), b)
}

// Emb: a signature in a signature, with one subpacket of up to n octets, cut
// off at any point.
func Emb() {
	typ := sym.Byte("typ")
	if t := sym.Param("typ", -1); t >= 0 {
		sym.Assume(typ&0x7f == byte(t))
	}
	body := sym.BytesN("sub", sym.Param("n", 4))
	var in []byte
	if sym.Bool("inner") {
		in = sigBody(one(typ, body), nil)
	} else {
		in = sigBody(nil, one(typ, body))
	}
	in = in[:len(in)-sym.Choice("cut", len(in)+1)]
	area(2, one(32, in))
}
