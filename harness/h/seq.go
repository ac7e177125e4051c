package h

import (
	"vh/ref"
	"vh/sym"
)

type pkt struct {
	tag  int
	body []byte
}

func be32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

func cat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

// shared shows packets one after the other in one run, so that what an earlier
// one announces is there for the later ones.
func shared(ps []pkt) {
	mask := ref.Kind(sym.Param("mask", int(ref.KAll)))
	cxt, o := options()
	limits(o)
	st := &ref.State{}
	for _, p := range ps {
		want, ok := ref.Packet(p.tag, p.body, o, st)
		got, err := parseTag(p.tag, p.body, cxt)
		verdict(mask, want, ok, got, err)
		if !ok {
			return
		}
	}
}

// template builds one of the packets that leave something for, or take
// something from, the other packets of a message or key.
func template(name string, k int) pkt {
	t := func(s string) []byte { return be32(sym.Uint32(name + s)) }
	switch k {
	case 0:
		return pkt{1, []byte{3, 1, 2, 3, 4, 5, 6, 7, 8, 99, 7}}
	case 1:
		return pkt{3, []byte{4, 9, 0, 8}}
	case 2:
		return pkt{9, []byte{1, 2, 3}}
	case 3:
		return pkt{18, []byte{1, 2, 3}}
	case 4:
		return pkt{6, cat([]byte{4}, t("t"), []byte{99, 5})}
	case 5:
		return pkt{14, cat([]byte{3}, t("t"), []byte{0, 1, 99, 5})}
	case 6:
		return pkt{2, sigBody(cat(one(2, t("t")), one(3, t("e"))), nil)}
	case 7:
		return pkt{2, sigBody(one(3, t("e")), one(2, t("t")))}
	case 8:
		return pkt{2, sigBody(one(9, t("e")), nil)}
	case 9:
		return pkt{2, sigBody(cat(one(2, t("t")), one(9, t("e"))), one(32, sigBody(one(2, t("u")), nil)))}
	case 10: // embedded signature between the times of the outer one
		return pkt{2, sigBody(cat(one(2, t("t")), one(32, sigBody(one(2, t("u")), nil)), one(3, t("e"))), nil)}
	case 11:
		return pkt{2, cat([]byte{3, 5, 0x10}, t("t"), []byte{1, 2, 3, 4, 5, 6, 7, 8, 99, 8, 1, 2})}
	case 12:
		return pkt{13, []byte("user")}
	case 13:
		return pkt{5, cat([]byte{4}, t("t"), []byte{17, 0, 1, 1, 0, 1, 1, 0, 1, 1, 0, 1, 1, 0, 0, 1, 1, 0, 1})}
	case 14:
		return pkt{2, sigBody(cat(one(3, t("e")), one(3, t("f"))), one(9, t("g")))}
	case 15:
		return pkt{20, []byte{1, 9, 2, 6, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16}}
	}
	switch k {
	case 24:
		return pkt{9, nil}
	case 25:
		return pkt{18, []byte{1}}
	case 26:
		return pkt{1, cat([]byte{2, 1, 2, 3, 4, 5, 6, 7, 8, 1, 0, 3, 7})}
	case 27:
		return pkt{3, []byte{4, 7, 1, 2, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}}
	case 28:
		return pkt{9, []byte{7}}
	case 29:
		return pkt{18, []byte{1, 9}}
	}
	if k >= 17 { // packets that leave nothing, short and long
		tag := []int{10, 13, 12, 60, 11, 19, 17}[k-17]
		body := [][]byte{nil, []byte("PGPx"), filler(300)}[sym.Choice(name+"len", 3)]
		switch tag {
		case 11:
			body = cat([]byte("b\x00\x00\x00\x00\x00"), body)
		case 17:
			body = one(100, body)
		}
		return pkt{tag, body}
	}
	return pkt{10, []byte("PGP")}
}

// Ctx: every sequence of k packets out of the templates, with any times.
func Ctx() {
	k := sym.Param("k", 2)
	names := []string{"a", "b", "c", "d", "e", "f"}
	var ps []pkt
	for i := 0; i < k; i++ {
		var c int
		switch sym.Param("set", 0) {
		case 1: // encrypted messages
			c = []int{0, 1, 2, 3, 12, 15}[sym.Choice(names[i], 6)]
		case 2: // keys and signatures
			c = 4 + sym.Choice(names[i], 11)
		case 3: // keys and signatures, fewer
			c = []int{4, 5, 6, 8, 9, 13}[sym.Choice(names[i], 6)]
		case 4: // and longer
			c = []int{4, 6, 8, 13}[sym.Choice(names[i], 4)]
		case 5: // session key, something else, data
			switch i {
			case 0:
				c = sym.Choice(names[i], 2)
			case k - 1:
				c = 2 + sym.Choice(names[i], 2)
			default:
				c = 17 + sym.Choice(names[i], 7)
			}
		case 6: // key, something else, signature
			switch i {
			case 0:
				c = []int{4, 5, 13}[sym.Choice(names[i], 3)]
			case k - 1:
				c = []int{6, 8, 9}[sym.Choice(names[i], 3)]
			default:
				c = 17 + sym.Choice(names[i], 7)
			}
		case 7: // encrypted messages, some of them empty
			c = 24 + sym.Choice(names[i], 6)
		default:
			c = sym.Choice(names[i], 17)
		}
		ps = append(ps, template(names[i]+"_", c))
	}
	shared(ps)
}
