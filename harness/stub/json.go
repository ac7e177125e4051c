package stub

import (
	"errors"
	"io"
)

// Reading JSON, for the symbolic engine: the text is parsed here, by plain code
// over octets that may be symbolic inside strings; storing the values in the
// caller's types is left to the engine (assign).

type Node struct {
	Kind  int // 0 null, 1 false, 2 true, 3 number, 4 string, 5 array, 6 object
	S     string
	N     int64
	Names []string
	Kids  []*Node
}

var errSyntax = errors.New("invalid JSON")
var errType = errors.New("cannot store the JSON value")

type Decoder struct {
	r    io.Reader
	data []byte
	read bool
}

func JSONNewDecoder(r io.Reader) *Decoder { return &Decoder{r: r} }

func JSONDecode(d *Decoder, v interface{}) error {
	if !d.read {
		b, err := io.ReadAll(d.r)
		if err != nil {
			return err
		}
		d.data, d.read = b, true
	}
	p := &parser{b: d.data}
	p.space()
	if p.i >= len(p.b) {
		return io.EOF
	}
	n := p.value()
	if n == nil {
		return errSyntax
	}
	d.data = d.data[p.i:]
	if !assign(v, n) {
		return errType
	}
	return nil
}

func JSONUnmarshal(b []byte, v interface{}) error {
	p := &parser{b: b}
	n := p.value()
	p.space()
	if n == nil || p.i < len(p.b) {
		return errSyntax
	}
	if !assign(v, n) {
		return errType
	}
	return nil
}

func assign(v interface{}, n *Node) bool { panic("engine only") }

type parser struct {
	b []byte
	i int
}

func (p *parser) space() {
	for p.i < len(p.b) && (p.b[p.i] == ' ' || p.b[p.i] == '\n' || p.b[p.i] == '\t' || p.b[p.i] == '\r') {
		p.i++
	}
}

func (p *parser) word(w string, kind int) *Node {
	if len(p.b)-p.i < len(w) || string(p.b[p.i:p.i+len(w)]) != w {
		return nil
	}
	p.i += len(w)
	return &Node{Kind: kind}
}

func (p *parser) value() *Node {
	p.space()
	if p.i >= len(p.b) {
		return nil
	}
	switch p.b[p.i] {
	case 'n':
		return p.word("null", 0)
	case 'f':
		return p.word("false", 1)
	case 't':
		return p.word("true", 2)
	case '"':
		s, ok := p.str()
		if !ok {
			return nil
		}
		return &Node{Kind: 4, S: s}
	case '[':
		n := &Node{Kind: 5}
		p.i++
		p.space()
		if p.i < len(p.b) && p.b[p.i] == ']' {
			p.i++
			return n
		}
		for {
			k := p.value()
			if k == nil {
				return nil
			}
			n.Kids = append(n.Kids, k)
			p.space()
			if p.i >= len(p.b) {
				return nil
			}
			p.i++
			if p.b[p.i-1] == ']' {
				return n
			}
			if p.b[p.i-1] != ',' {
				return nil
			}
		}
	case '{':
		n := &Node{Kind: 6}
		p.i++
		p.space()
		if p.i < len(p.b) && p.b[p.i] == '}' {
			p.i++
			return n
		}
		for {
			p.space()
			s, ok := p.str()
			if !ok {
				return nil
			}
			p.space()
			if p.i >= len(p.b) || p.b[p.i] != ':' {
				return nil
			}
			p.i++
			k := p.value()
			if k == nil {
				return nil
			}
			n.Names = append(n.Names, s)
			n.Kids = append(n.Kids, k)
			p.space()
			if p.i >= len(p.b) {
				return nil
			}
			p.i++
			if p.b[p.i-1] == '}' {
				return n
			}
			if p.b[p.i-1] != ',' {
				return nil
			}
		}
	}
	neg := p.b[p.i] == '-'
	if neg {
		p.i++
	}
	k := p.i
	var v int64
	for p.i < len(p.b) && p.b[p.i] >= '0' && p.b[p.i] <= '9' {
		v = v*10 + int64(p.b[p.i]-'0')
		p.i++
	}
	if p.i == k {
		return nil
	}
	if neg {
		v = -v
	}
	return &Node{Kind: 3, N: v}
}

func (p *parser) str() (string, bool) {
	if p.i >= len(p.b) || p.b[p.i] != '"' {
		return "", false
	}
	p.i++
	var out []byte
	for p.i < len(p.b) {
		c := p.b[p.i]
		p.i++
		switch {
		case c == '"':
			return string(out), true
		case c < 0x20:
			return "", false
		case c == '\\':
			if p.i >= len(p.b) {
				return "", false
			}
			c = p.b[p.i]
			p.i++
			switch c {
			case 'n':
				c = '\n'
			case 't':
				c = '\t'
			case 'r':
				c = '\r'
			case '"', '\\', '/':
			default:
				return "", false
			}
		}
		out = append(out, c)
	}
	return "", false
}
