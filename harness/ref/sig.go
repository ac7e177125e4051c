package ref

import "fmt"

func signature(n *Node, c *cur, o *Opts, st *State) bool {
	outer := st.SigTime
	st.SigTime = nil
	ok := signature1(n, c, o, st)
	st.SigTime = outer
	return ok
}

func signature1(n *Node, c *cur, o *Opts, st *State) bool {
	v, ok := c.u8()
	if !ok {
		return false
	}
	n.add(ver(v, 4, 5, o))
	switch v {
	case 3:
		l, ok := c.u8()
		if !ok {
			return false
		}
		hm := &Node{K: KGroup, Name: "Hashed material", Note: nbytes(int(l))}
		n.add(hm)
		if l != 5 {
			hm.Value = "Unknown"
			b, ok := c.takeN(int(l))
			if !ok {
				return false
			}
			hm.Dump = hexIf(b, o.Debug)
		} else {
			s, ok := c.u8()
			if !ok {
				return false
			}
			hm.add(sigt(s, o))
			t, b, ok := c.u32()
			if !ok {
				return false
			}
			hm.add(tm("Signature creation time", t, b, o))
		}
		k, ok := c.take(8)
		if !ok {
			return false
		}
		n.add(keyid(k))
		p, ok := c.u8()
		if !ok {
			return false
		}
		n.add(pub(p, o))
		h, ok := c.u8()
		if !ok {
			return false
		}
		n.add(hash(h, o))
		hv, ok := c.take(2)
		if !ok {
			return false
		}
		n.add(&Node{K: KBytes, Name: "Hash left 2 bytes", Dump: Hex(hv)})
		if !sigMaterial(n, p, c, o) {
			return false
		}
	case 4, 5:
		s, ok := c.u8()
		if !ok {
			return false
		}
		n.add(sigt(s, o))
		p, ok := c.u8()
		if !ok {
			return false
		}
		n.add(pub(p, o))
		h, ok := c.u8()
		if !ok {
			return false
		}
		n.add(hash(h, o))
		for _, name := range []string{"Hashed Subpacket", "Unhashed Subpacket"} {
			l, ok := c.u16()
			if !ok {
				return false
			}
			b, ok := c.takeN(l)
			if !ok {
				return false
			}
			if l > 0 {
				x, ok := subpackets(name, 2, b, o, st)
				if !ok {
					return false
				}
				n.add(x)
			}
		}
		hv, ok := c.take(2)
		if !ok {
			return false
		}
		n.add(&Node{K: KBytes, Name: "Hash left 2 bytes", Dump: Hex(hv)})
		if !sigMaterial(n, p, c, o) {
			return false
		}
	}
	n.unknown(c, o)
	return true
}

// subpackets splits an area into subpackets (RFC 4880, 5.2.3.1).
func subpackets(name string, tag int, b []byte, o *Opts, st *State) (*Node, bool) {
	n := &Node{K: KGroup, Name: name, Note: nbytes(len(b)), Dump: hexIf(b, o.Debug)}
	c := &cur{b: b}
	type sp struct {
		typ  byte
		body []byte
	}
	var sps []sp
	for c.rest() > 0 {
		l0, _ := c.u8()
		l := int(l0)
		switch {
		case l0 < 192:
		case l0 < 255:
			l1, ok := c.u8()
			if !ok {
				return nil, false
			}
			l = (l-192)<<8 + int(l1) + 192
		default:
			l4, _, ok := c.u32()
			if !ok {
				return nil, false
			}
			l = int(l4)
		}
		if l == 0 {
			return nil, false
		}
		x, ok := c.takeN(l)
		if !ok {
			return nil, false
		}
		sps = append(sps, sp{x[0], x[1:]})
	}
	for _, s := range sps {
		if o.OnSub != nil {
			o.OnSub(s.typ, s.body)
		}
		x, ok := Sub(tag, s.typ, s.body, o, st)
		if !ok {
			return nil, false
		}
		n.add(x)
	}
	return n, true
}

func flag(n *Node, f byte, text string) {
	if f != 0 {
		n.add(&Node{K: KFlag, Name: "Flag", Value: text})
	}
}

func unkFlag(n *Node, f byte, i int) {
	if f != 0 {
		flag(n, f, fmt.Sprintf("Unknown flag%d(%#02x)", i, f))
	}
}

func boolSub(n *Node, c *cur, no, yes string) bool {
	b, ok := c.u8()
	if !ok {
		return false
	}
	n.Value = yes
	if b == 0 {
		n.Value = no
	}
	return true
}

// Sub is the expected form of one subpacket of a signature (tag 2) or a user
// attribute (tag 17).
func Sub(tag int, typ byte, body []byte, o *Opts, st *State) (*Node, bool) {
	c := &cur{b: body}
	n := &Node{K: KSub, Name: SubName(typ), Note: nbytes(len(body)), Dump: hexIf(body, o.Debug)}
	id := typ & 0x7f
	if tag == 17 {
		if id == 1 {
			return n, image(n, c)
		}
		return n, true
	}
	switch id {
	case 2:
		t, b, ok := c.u32()
		if !ok {
			return n, false
		}
		st.SigTime = &t
		return tm(n.Name, t, b, o), true
	case 3:
		x, ok := expire(n.Name, c, st.SigTime, o)
		if !ok {
			return n, false
		}
		st.SigTime = nil
		return x, true
	case 4:
		if !boolSub(n, c, "Not exportable", "Exportable") {
			return n, false
		}
		n.Dump = Hex(c.all()) // what follows the flag
	case 5:
		l, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(&Node{K: KNum, Name: "Level", Value: fmt.Sprintf("%d", l)})
		a, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(&Node{K: KNum, Name: "Trust amount", Value: fmt.Sprintf("%d", a)})
	case 6, 24, 26, 28:
		return Text(n.Name, body, o.Debug, o), true
	case 7:
		return n, boolSub(n, c, "Not revocable", "Revocablee")
	case 9:
		x, ok := expire(n.Name, c, st.KeyTime, o)
		if !ok {
			return n, false
		}
		st.KeyTime = nil
		return x, true
	case 11:
		for i := range body {
			n.add(sym(body[i], o))
		}
	case 12:
		cl, ok := c.u8()
		if !ok {
			return n, false
		}
		x := &Node{K: KFlag, Name: "Class", Value: "Unknown", Dump: fmt.Sprintf("%02x", cl)}
		switch cl >> 6 {
		case 3:
			x.Value = "Sensitive"
		case 2:
			x.Value = "Normal"
		}
		n.add(x)
		p, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(pub(p, o))
		f := raw("Fingerprint", c.all(), true)
		f.K = KIdent
		n.add(f)
	case 16:
		b, ok := c.take(8)
		if !ok {
			return n, false
		}
		k := keyid(b)
		k.Name = n.Name
		return k, true
	case 20:
		return n, notation(n, c, o)
	case 21:
		for i := range body {
			n.add(hash(body[i], o))
		}
	case 22:
		for i := range body {
			n.add(comp(body[i], o))
		}
	case 23:
		f, ok := c.u8()
		if !ok {
			return n, false
		}
		flag(n, f&0x80, "No-modify")
		unkFlag(n, f&0x7f, 1)
		for i, x := range c.all() {
			unkFlag(n, x, i+2)
		}
	case 25:
		return n, boolSub(n, c, "Not primary", "Primary")
	case 27:
		f, ok := c.u8()
		if !ok {
			return n, false
		}
		flag(n, f&1, "This key may be used to certify other keys.")
		flag(n, f&2, "This key may be used to sign data.")
		flag(n, f&4, "This key may be used to encrypt communications.")
		flag(n, f&8, "This key may be used to encrypt storage.")
		flag(n, f&16, "The private component of this key may have been split by a secret-sharing mechanism.")
		flag(n, f&32, "This key may be used for authentication.")
		unkFlag(n, f&64, 1)
		flag(n, f&128, "The private component of this key may be in the possession of more than one person.")
		for i, x := range c.all() {
			if i == 0 {
				flag(n, x&4, "This key may be used as an additional decryption subkey (ADSK).")
				flag(n, x&8, "This key may be used for timestamping.")
				unkFlag(n, x&0xf3, 2)
			} else {
				unkFlag(n, x, i+2)
			}
		}
	case 29:
		r, ok := c.u8()
		if !ok {
			return n, false
		}
		s := "(Private Use)"
		if !private(r) {
			s = get(reasonNames, r, "Unknown reason")
		}
		n.Value = fmt.Sprintf("%s (%d)", s, r)
		if c.rest() > 0 {
			n.add(Text("Additional resultrmation", c.all(), o.Debug, o))
		}
	case 30:
		f, ok := c.u8()
		if !ok {
			return n, false
		}
		flag(n, f&1, "Modification Detection (packets 18 and 19)")
		flag(n, f&2, "AEAD Encrypted Data Packet (packet 20) and version 5 Symmetric-Key Encrypted Session Key Packets (packet 3)")
		flag(n, f&4, "Version 5 Public-Key Packet format and corresponding new fingerprint format")
		unkFlag(n, f&0xf8, 1)
		for i, x := range c.all() {
			unkFlag(n, x, i+2)
		}
	case 31:
		p, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(pub(p, o))
		h, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(hash(h, o))
		x := raw("Hash", c.all(), true)
		x.K = KBytes
		n.add(x)
	case 32:
		x, ok := Packet(2, body, o, st)
		if !ok {
			return n, false
		}
		n.add(x)
	case 33, 35:
		v, ok := c.u8()
		if !ok {
			return n, false
		}
		x := &Node{K: KAlg, Name: "Version", Value: fmt.Sprintf("%d", v), Note: "Unknown"}
		switch v {
		case 4:
			x.Note = "need 20 octets length"
		case 5:
			x.Note = "need 32 octets length"
		}
		n.add(x)
		f := raw("Fingerprint", c.all(), true)
		f.K = KIdent
		n.add(f)
	case 34:
		for i := range body {
			n.add(aead(body[i], o))
		}
	case 37:
		n.add(raw("certification digests", c.all(), o.Cert))
	case 38:
		t, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(&Node{K: KNum, Name: "Type", Value: fmt.Sprintf("%d", t)})
		b := c.all()
		x := raw("Key data", b, o.Debug)
		if t == 0 {
			pks, ok := Split(b)
			for _, p := range pks {
				y, ok := Packet(p.Tag, p.Body, o, st)
				if !ok {
					return n, false
				}
				x.add(y)
			}
			if !ok {
				return n, false
			}
		}
		n.add(x)
	}
	return n, true
}

func notation(n *Node, c *cur, o *Opts) bool {
	f, ok := c.take(4)
	if !ok {
		return false
	}
	flag(n, f[0]&0x80, "Human-readable")
	unkFlag(n, f[0]&0x7f, 1)
	unkFlag(n, f[1], 2)
	unkFlag(n, f[2], 3)
	unkFlag(n, f[3], 4)
	nl, ok := c.u16()
	if !ok {
		return false
	}
	vl, ok := c.u16()
	if !ok {
		return false
	}
	name, ok := c.takeN(nl)
	if !ok {
		return false
	}
	n.add(Text("Name", name, o.Debug, o))
	val, ok := c.takeN(vl)
	if !ok {
		return false
	}
	if f[0]&0x80 != 0 {
		n.add(Text("Value", val, o.Debug, o))
	} else {
		n.add(&Node{K: KText, Name: "Value", Dump: Hex(val)})
	}
	return true
}

func image(n *Node, c *cur) bool {
	l, ok := c.take(2)
	if !ok {
		return false
	}
	hl := int(l[0]) | int(l[1])<<8
	if hl > len(c.b) {
		return false
	}
	v, ok := c.u8()
	if !ok {
		return false
	}
	x := &Node{K: KAlg, Name: "Version", Value: fmt.Sprintf("%d", v), Note: "Unknown"}
	n.add(x)
	if v == 1 {
		x.Note = ""
	} else if private(v) {
		x.Note = "private or experimental use"
		e, ok := c.u8()
		if !ok {
			return false
		}
		y := &Node{K: KAlg, Name: "Encoding", Value: "Unknown", Note: fmt.Sprintf("(enc %d)", e)}
		if e == 1 {
			y.Value = "JPEG"
		}
		n.add(y)
	}
	n.add(&Node{K: KRaw, Name: "Image data", Note: nbytes(len(c.b) - hl)})
	return true
}

// Pkt is one framed packet.
type Pkt struct {
	Tag  int
	Body []byte
}

// Split frames a byte string into packets (RFC 4880, 4.2); ok is false when the
// input ends inside a packet or a header is invalid.
func Split(b []byte) (out []Pkt, ok bool) {
	c := &cur{b: b}
	for c.rest() > 0 {
		h, _ := c.u8()
		if h&0x80 == 0 {
			return out, false
		}
		var tag int
		var body []byte
		if h&0x40 == 0 {
			tag = int(h>>2) & 15
			var l int
			switch h & 3 {
			case 0:
				x, ok := c.u8()
				if !ok {
					return out, false
				}
				l = int(x)
			case 1:
				x, ok := c.u16()
				if !ok {
					return out, false
				}
				l = x
			case 2:
				x, _, ok := c.u32()
				if !ok {
					return out, false
				}
				l = int(x)
			default:
				l = c.rest()
			}
			if body, ok = c.takeN(l); !ok {
				return out, false
			}
		} else {
			tag = int(h & 0x3f)
			for {
				x, ok := c.u8()
				if !ok {
					return out, false
				}
				l, partial := int(x), false
				switch {
				case x < 192:
				case x < 224:
					y, ok := c.u8()
					if !ok {
						return out, false
					}
					l = (l-192)<<8 + int(y) + 192
				case x < 255:
					l, partial = 1<<(x&31), true
				default:
					z, _, ok := c.u32()
					if !ok {
						return out, false
					}
					l = int(z)
				}
				p, ok := c.takeN(l)
				if !ok {
					return out, false
				}
				if body == nil && !partial {
					body = p
					break
				}
				body = append(append([]byte{}, body...), p...)
				if !partial {
					break
				}
			}
		}
		out = append(out, Pkt{tag, body})
	}
	return out, true
}
