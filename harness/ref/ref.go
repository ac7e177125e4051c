// Package ref is the specification side of the differential harnesses: what a
// packet must be shown as, written from RFC 4880 / 4880bis and the documented
// output format, without using any code of the program under test.
package ref

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

// Kind of information an item shows; properties select the kinds they speak of.
type Kind int

const (
	KPacket Kind = 1 << iota // a packet
	KSub                     // a subpacket
	KGroup                   // a group of items
	KAlg                     // assigned number (algorithm, type, version)
	KTime                    // absolute time
	KExpire                  // relative time
	KIdent                   // key ID, fingerprint
	KBytes                   // salt, IV, hash prefix, checksum, serial number, digest
	KMPI                     // algorithm-specific number
	KText                    // text
	KRaw                     // octets shown by count
	KFlag                    // flag octet
	KNum                     // plain number
	KCount                   // S2K count, chunk size

	KAll = 1<<30 - 1
)

// Node is the expected form of one shown item.
type Node struct {
	K                       Kind
	Name, Value, Dump, Note string
	Items                   []*Node
	Open                    bool // the specification leaves the value open
}

func (n *Node) add(c *Node) { n.Items = append(n.Items, c) }

// Opts are the output options, after their implications.
type Opts struct {
	Cert, Debug, Integer, Literal, Marker, Private, UTC bool

	// OnText, OnSub and OnPacket let a harness restrict its inputs.
	OnText   func(b []byte)
	OnSub    func(typ byte, body []byte)
	OnPacket func(tag int, body []byte)
	OnAlg    func(kind string, id byte)
}

// Mode of encryption announced by the last session key packet.
const (
	ModeNone = iota
	ModeSym
	ModePub
)

// State is what one packet leaves for the following ones.
type State struct {
	Mode    int
	SigTime *uint32
	KeyTime *uint32
}

type cur struct {
	b   []byte
	off int
}

func (c *cur) rest() int { return len(c.b) - c.off }

// OnTake lets a harness restrict and split the cases of a field's length.
var OnTake func(n int) int

// takeN takes a field whose length is announced by the data.
func (c *cur) takeN(n int) ([]byte, bool) {
	if n > c.rest() {
		return nil, false
	}
	if OnTake != nil {
		n = OnTake(n)
	}
	return c.take(n)
}

func (c *cur) take(n int) ([]byte, bool) {
	if n > c.rest() {
		return nil, false
	}
	r := c.b[c.off : c.off+n]
	c.off += n
	return r, true
}

func (c *cur) u8() (byte, bool) {
	b, ok := c.take(1)
	if !ok {
		return 0, false
	}
	return b[0], true
}

func (c *cur) u16() (int, bool) {
	b, ok := c.take(2)
	if !ok {
		return 0, false
	}
	return int(b[0])<<8 | int(b[1]), true
}

func (c *cur) u32() (uint32, []byte, bool) {
	b, ok := c.take(4)
	if !ok {
		return 0, nil, false
	}
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]), b, true
}

func (c *cur) all() []byte {
	r := c.b[c.off:]
	c.off = len(c.b)
	return r
}

// Hex is the dump format: two lower-case digits per octet, separated by blanks.
func Hex(b []byte) string {
	var sb strings.Builder
	for i := 0; i < len(b); i++ {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(fmt.Sprintf("%02x", b[i]))
	}
	return sb.String()
}

func hexIf(b []byte, f bool) string {
	if f {
		return Hex(b)
	}
	return ""
}

func nbytes(n int) string { return fmt.Sprintf("%d bytes", n) }

func alg(name, value string, id byte, o *Opts) *Node {
	n := &Node{K: KAlg, Name: name, Value: value}
	if o.Debug {
		n.Dump = fmt.Sprintf("%02x", id)
	}
	return n
}

func (o *Opts) seen(kind string, id byte) {
	if o.OnAlg != nil {
		o.OnAlg(kind, id)
	}
}

func pub(id byte, o *Opts) *Node {
	o.seen("pub", id)
	return alg("Public-key Algorithm", PubName(id), id, o)
}

func sym(id byte, o *Opts) *Node {
	o.seen("sym", id)
	return alg("Symmetric Algorithm", SymName(id), id, o)
}

func hash(id byte, o *Opts) *Node {
	o.seen("hash", id)
	return alg("Hash Algorithm", HashName(id), id, o)
}

func comp(id byte, o *Opts) *Node {
	o.seen("comp", id)
	return alg("Compression Algorithm", CompName(id), id, o)
}

func aead(id byte, o *Opts) *Node {
	o.seen("aead", id)
	return alg("AEAD Algorithm", AEADName(id), id, o)
}

func sigt(id byte, o *Opts) *Node {
	o.seen("sigt", id)
	return alg("Signiture Type", SigName(id), id, o)
}

func ver(v byte, cur, draft byte, o *Opts) *Node {
	n := alg("Version", strconv.Itoa(int(v)), v, o)
	switch {
	case v < cur:
		n.Note = "old"
	case v == cur:
		n.Note = "current"
	case draft != 0 && v == draft:
		n.Note = "draft"
	default:
		n.Note = "unknown"
	}
	return n
}

func keyid(b []byte) *Node {
	return &Node{K: KIdent, Name: "Key ID", Value: hex16(b)}
}

// hex16 is all 16 digits of a key ID.
func hex16(b []byte) string {
	s := "0x"
	for i := 0; i < 8; i++ {
		s += fmt.Sprintf("%02x", b[i])
	}
	return s
}

func raw(name string, b []byte, dump bool) *Node {
	return &Node{K: KRaw, Name: name, Note: nbytes(len(b)), Dump: hexIf(b, dump)}
}

func rfc3339(t int64, utc bool) string {
	tm := time.Unix(t, 0)
	if utc {
		tm = tm.UTC()
	}
	return tm.Format(time.RFC3339)
}

func tm(name string, t uint32, b []byte, o *Opts) *Node {
	return &Node{K: KTime, Name: name, Value: rfc3339(int64(t), o.UTC), Dump: hexIf(b, o.Debug)}
}

func expire(name string, c *cur, start *uint32, o *Opts) (*Node, bool) {
	d, b, ok := c.u32()
	if !ok {
		return nil, false
	}
	n := &Node{K: KExpire, Name: name, Value: fmt.Sprintf("%v days after", float64(d)/86400), Dump: hexIf(b, o.Debug)}
	if start != nil && *start != 0 {
		n.Note = rfc3339(int64(*start)+int64(d), o.UTC)
	}
	return n, true
}

// Text is the form of a text field.
func Text(name string, b []byte, dump bool, o *Opts) *Node {
	if o.OnText != nil {
		o.OnText(b)
	}
	if len(b) == 0 {
		return &Node{K: KText, Name: name, Note: "0 byte"}
	}
	var out []byte
	for i := 0; i < len(b); {
		c := b[i]
		switch {
		case c < 0x20 || c == 0x7f:
			out = append(out, fmt.Sprintf("(U+%04X)", c)...)
			i++
		case c < 0x80:
			out = append(out, c)
			i++
		default:
			n := seqLen(b[i:])
			if n == 0 {
				return &Node{K: KText, Name: name, Note: "invalid text string", Dump: Hex(b)}
			}
			if n == 2 && c == 0xc2 && b[i+1] < 0xa0 {
				out = append(out, fmt.Sprintf("(U+%04X)", b[i+1])...)
			} else {
				out = append(out, b[i:i+n]...)
			}
			i += n
		}
	}
	return &Node{K: KText, Name: name, Value: string(out), Dump: hexIf(b, dump)}
}

// seqLen is the length of the well-formed multi-byte UTF-8 sequence at the
// start of b (Unicode table 3-7), or 0.
func seqLen(b []byte) int {
	c := b[0]
	cont := func(i int) bool { return i < len(b) && b[i]&0xc0 == 0x80 }
	switch {
	case c >= 0xc2 && c <= 0xdf:
		if cont(1) {
			return 2
		}
	case c >= 0xe0 && c <= 0xef:
		if !cont(1) || !cont(2) {
			return 0
		}
		if c == 0xe0 && b[1] < 0xa0 || c == 0xed && b[1] >= 0xa0 {
			return 0
		}
		return 3
	case c >= 0xf0 && c <= 0xf4:
		if !cont(1) || !cont(2) || !cont(3) {
			return 0
		}
		if c == 0xf0 && b[1] < 0x90 || c == 0xf4 && b[1] >= 0x90 {
			return 0
		}
		return 4
	}
	return 0
}

func (n *Node) unknown(c *cur, o *Opts) {
	if c.rest() > 0 {
		n.add(raw("Unknown data", c.all(), o.Debug))
	}
}

// Packet is the expected form of one packet; ok is false when the packet must
// be reported as an error. Tag 8 shows only its own items here.
func Packet(tag int, body []byte, o *Opts, st *State) (*Node, bool) {
	if o.OnPacket != nil {
		o.OnPacket(tag, body)
	}
	c := &cur{b: body}
	n := &Node{K: KPacket, Name: TagName(tag), Note: nbytes(len(body))}
	dump := o.Debug
	if tag >= 60 {
		dump = o.Private
	}
	n.Dump = hexIf(body, dump)
	switch tag {
	case 1:
		st.Mode = ModePub
		v, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(ver(v, 3, 0, o))
		k, ok := c.take(8)
		if !ok {
			return n, false
		}
		n.add(keyid(k))
		p, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(pub(p, o))
		if !sesKey(n, p, c, o) {
			return n, false
		}
		n.unknown(c, o)
	case 2:
		return n, signature(n, c, o, st)
	case 3:
		st.Mode = ModeSym
		v, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(ver(v, 4, 5, o))
		if v == 4 {
			s, ok := c.u8()
			if !ok {
				return n, false
			}
			n.add(sym(s, o))
			if _, ok := s2k(n, c, o); !ok {
				return n, false
			}
		}
		n.unknown(c, o)
	case 4:
		v, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(ver(v, 3, 0, o))
		s, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(sigt(s, o))
		h, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(hash(h, o))
		p, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(pub(p, o))
		k, ok := c.take(8)
		if !ok {
			return n, false
		}
		n.add(keyid(k))
		f, ok := c.u8()
		if !ok {
			return n, false
		}
		fl := &Node{K: KFlag, Name: "Encrypted session key", Note: fmt.Sprintf("flag %#02x", f), Value: "other than one pass signature"}
		if f == 0 {
			fl.Value = "another one pass signature"
		}
		n.add(fl)
		n.unknown(c, o)
	case 5, 7:
		v, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(ver(v, 4, 5, o))
		pk := &Node{K: KGroup, Name: "Public-Key"}
		n.add(pk)
		p, ok := publicKey(pk, v, c, o, st)
		if !ok {
			return n, false
		}
		sk := &Node{K: KGroup, Name: "Secret-Key"}
		n.add(sk)
		if !secretKey(sk, v, p, c, o) {
			return n, false
		}
		n.unknown(c, o)
	case 6, 14:
		v, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(ver(v, 4, 5, o))
		if _, ok := publicKey(n, v, c, o, st); !ok {
			return n, false
		}
		n.unknown(c, o)
	case 8:
		a, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(comp(a, o))
		if c.rest() > 0 {
			n.add(raw("Compressed data", c.all(), o.Debug))
		}
	case 9:
		r := raw("Encrypted data", c.all(), o.Debug)
		switch st.Mode {
		case ModeSym:
			r.Value = "sym alg is specified in sym-key encrypted session key"
		case ModePub:
			r.Value = "sym alg is specified in pub-key encrypted session key"
		default:
			r.Value = "sym alg is IDEA, simple string-to-key"
		}
		st.Mode = ModeNone
		n.add(r)
	case 10:
		n.add(raw("Literal data", c.all(), o.Marker))
	case 11:
		f, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(&Node{K: KAlg, Name: "Literal data format", Value: string(rune(f)), Note: get(literalNames, f, "unknown")})
		l, ok := c.u8()
		if !ok {
			return n, false
		}
		name, ok := c.takeN(int(l))
		if !ok {
			return n, false
		}
		n.add(Text("File name", name, o.Literal, o))
		t, tb, ok := c.u32()
		if !ok {
			return n, false
		}
		if t == 0 {
			n.add(&Node{K: KTime, Name: "Creation time", Value: "null", Dump: hexIf(tb, o.Debug)})
		} else {
			n.add(tm("Creation time", t, tb, o))
		}
		n.add(raw("Literal data", c.all(), o.Literal))
	case 12:
		n.add(raw("Trust", c.all(), true))
	case 13:
		n.add(Text("User ID", c.all(), o.Debug, o))
	case 17:
		s, ok := subpackets("Subpacket", 17, c.all(), o, st)
		if !ok {
			return n, false
		}
		n.add(s)
	case 18:
		r := raw("Encrypted data", c.all(), o.Debug)
		switch st.Mode {
		case ModeSym:
			r.Note = "plain text + MDC SHA1(20 bytes); sym alg is specified in sym-key encrypted session key"
		case ModePub:
			r.Note = "plain text + MDC SHA1(20 bytes); sym alg is specified in pub-key encrypted session key"
		}
		st.Mode = ModeNone
		n.add(r)
	case 19:
		r := raw("MDC", c.all(), o.Debug)
		r.Note = "SHA-1 (20 bytes)"
		n.add(r)
	case 20:
		v, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(ver(v, 1, 0, o))
		s, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(sym(s, o))
		a, ok := c.u8()
		if !ok {
			return n, false
		}
		n.add(aead(a, o))
		z, ok := c.u8()
		if !ok {
			return n, false
		}
		cs := &Node{K: KCount, Name: "Chunk size", Dump: fmt.Sprintf("%02x", z)}
		if z <= 56 { // larger sizes are not valid
			cs.Value = strconv.FormatUint(uint64(1)<<(uint(z)+6), 10)
		} else {
			cs.Open = true
		}
		n.add(cs)
		iv, ok := c.take(AEADIV(a))
		if !ok {
			return n, false
		}
		n.add(&Node{K: KBytes, Name: "IV", Dump: Hex(iv)})
		if c.rest() > 0 {
			n.add(raw("Encrypted data and authentication tag", c.all(), o.Debug))
		}
	}
	return n, true
}
