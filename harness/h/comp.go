package h

import (
	"bytes"
	"compress/flate"
	"compress/zlib"

	"vh/ref"
	"vh/stub"
	"vh/sym"
)

// pack compresses natively; under the engine a compressed stream stands for
// what it decompresses to (see package stub).
func pack(alg int, plain []byte) []byte {
	if sym.Symbolic() {
		return plain
	}
	var buf bytes.Buffer
	switch alg {
	case 1:
		w, _ := flate.NewWriter(&buf, flate.DefaultCompression)
		_, _ = w.Write(plain)
		_ = w.Close()
	case 2:
		w := zlib.NewWriter(&buf)
		_, _ = w.Write(plain)
		_ = w.Close()
	case 3:
		buf.Write(stub.Bzip2(plain))
	default:
		return plain
	}
	b := buf.Bytes()
	switch stub.Mode {
	case 1: // corrupt at the end
		if alg == 1 {
			// replace the final block by a reserved block type after a flush
			buf.Reset()
			w, _ := flate.NewWriter(&buf, flate.DefaultCompression)
			_, _ = w.Write(plain)
			_ = w.Flush()
			return append(buf.Bytes(), 0xff)
		}
		b[len(b)-3] ^= 0xff // checksum
	case 2:
		b[0] ^= 0xff
	case 3:
		if alg == 1 {
			buf.Reset()
			w, _ := flate.NewWriter(&buf, flate.DefaultCompression)
			_, _ = w.Write(plain)
			_ = w.Flush()
			return buf.Bytes()
		}
		return b[:len(b)-3]
	case 4:
		return b[:1]
	}
	return b
}

func hdrOf(tag int, body []byte) []byte {
	return append([]byte{0xc0 | byte(tag), byte(len(body))}, body...)
}

// Comp: a compressed packet shows the packets inside it, after its own items.
func Comp() {
	mask := ref.Kind(sym.Param("mask", int(ref.KAll)))
	cxt, o := options()
	limits(o)
	o.OnPacket = nil
	n := sym.Param("n", 3)
	alg := sym.Choice("alg", 5)
	if alg == 4 {
		a := sym.Byte("algid")
		sym.Assume(a > 3)
		body := append([]byte{a}, sym.BytesN("raw", n)...)
		want, ok := ref.Packet(8, body, o, &ref.State{})
		got, err := run(cxt, hdrOf(8, body))
		sym.Reach("unknown algorithm")
		judgeInfo([]*ref.Node{want}, ok, got, err)
		return
	}
	stub.Mode = 0
	if alg > 0 {
		stub.Mode = sym.Choice("mode", 5)
		if (stub.Mode == 2 || stub.Mode == 4) && alg != 2 {
			sym.Stop()
		}
	}
	var plain []byte
	var two bool
	if sym.Param("free", 0) == 1 {
		plain = sym.ConcreteLen(sym.Bytes("plain", n))
		o.OnPacket = func(tag int, body []byte) { sym.Assume(tag != 8) }
	} else {
		b := sym.BytesN("body", n)
		ascii(b)
		plain = cat(hdrOf(10, b), []byte{0xac, 1, 7})
		two = true
	}
	if alg > 0 { // an empty stream is not an empty field
		sym.Assume(len(plain) > 0)
	}
	data := pack(alg, plain)
	body := append([]byte{byte(alg)}, data...)
	inner, wf := stream(plain, o, &ref.State{})
	o.OnPacket = nil
	want, ok := ref.Packet(8, body, o, &ref.State{})
	if len(data) > 0 {
		ok = ok && wf && stub.Mode == 0
		want.Items = append(want.Items, inner...)
	}
	got, err := run(cxt, hdrOf(8, body))
	if err != nil {
		sym.Observe("err", "error")
	}
	if sym.Param("judge", 1) == 0 {
		sym.Reach("end")
		return
	}
	if !ok {
		sym.Reach("malformed")
		if sym.Param("errs", 0) == 1 {
			sym.Assert(err != nil, "malformed input accepted")
		}
		return
	}
	sym.Reach("well-formed")
	sym.Assert(err == nil, "well-formed input rejected")
	sym.Assert(len(got.Packets) == 1, "number of packets")
	if two {
		sym.Assert(len(got.Packets[0].Items) == 4, "packets inside a compressed packet")
	} else {
		sym.Assert(len(got.Packets[0].Items) == len(want.Items), "packets inside a compressed packet")
	}
	compare(mask, want, got.Packets[0])
}
