package h

import (
	"bytes"
	"io"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/reader"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/values"

	"vh/ref"
	"vh/sym"
)

// Cursor: after any sequence of k operations with any arguments the cursor over
// a buffer of n octets is where the operations put it and each one returns the
// octets of the buffer it covers; a refused operation moves nothing.
func Cursor() {
	n := sym.Param("n", 3)
	buf := sym.ConcreteLen(sym.Bytes("buf", n))
	n = len(buf)
	r := reader.New(append([]byte{}, buf...))
	pos := 0
	names := []string{"0", "1", "2", "3", "4"}
	for i := 0; i < sym.Param("k", 2); i++ {
		s := names[i]
		arg := int64(sym.Uint64("arg" + s))
		switch sym.Choice("op"+s, 9) {
		case 0:
			b, err := r.ReadBytes(arg)
			switch {
			case arg == 0:
				sym.Assert(err == nil && len(b) == 0, "empty read")
			case arg < 0 || arg > int64(n-pos):
				sym.Assert(err != nil, "read beyond the end accepted")
			default:
				sym.Assert(err == nil, "read within the buffer refused")
				same(b, buf[pos:pos+int(arg)])
				pos += int(arg)
			}
		case 1:
			b, err := r.ReadByte()
			if pos >= n {
				sym.Assert(err != nil, "read beyond the end accepted")
			} else {
				sym.Assert(err == nil && b == buf[pos], "octet read")
				pos++
			}
		case 2:
			sym.Assume(arg >= 1 && arg <= int64(n+1))
			p := make([]byte, sym.Concrete(int(arg)))
			k, err := r.Read(p)
			if len(p) > n-pos {
				sym.Assert(err != nil, "read beyond the end accepted")
			} else {
				sym.Assert(err == nil && k == len(p), "read within the buffer refused")
				same(p, buf[pos:pos+len(p)])
				pos += len(p)
			}
		case 3:
			b, err := r.Read2EOF()
			if pos >= n {
				sym.Assert(err != nil, "read beyond the end accepted")
			} else {
				sym.Assert(err == nil, "read within the buffer refused")
				same(b, buf[pos:])
				pos = n
			}
		case 4:
			w := int(sym.Byte("whence" + s))
			at, err := r.Seek(arg, w)
			base := int64(0)
			if w == 1 {
				base = int64(pos)
			} else if w == 2 {
				base = int64(n)
			}
			if w > 2 || arg < -base || arg > int64(n)-base {
				sym.Assert(err != nil, "position outside the buffer accepted")
			} else {
				pos = int(base + arg)
				sym.Assert(err == nil && at == int64(pos), "position inside the buffer refused")
			}
		case 5:
			var out bytes.Buffer
			_, err := r.WriteTo(&out)
			sym.Assert(err == nil, "copy refused")
			same(out.Bytes(), buf)
			pos = n
		case 6:
			same(r.GetBody(), buf)
		case 7:
			k := sym.Choice("some"+s, 3) // the writer fails after one or two octets, or at once
			if n <= k {
				sym.Stop()
			}
			_, err := r.WriteTo(&failing{left: k})
			sym.Assert(err != nil, "failed copy not reported")
		case 8:
			if n < 1 {
				sym.Stop()
			}
			p := make([]byte, 1+sym.Choice("size"+s, 2))
			k, err := r.ReadAt(p, arg)
			if arg < 0 || arg > int64(n-len(p)) {
				sym.Assert(err != nil, "read beyond the end accepted")
			} else {
				sym.Assert(err == nil && k == len(p), "read within the buffer refused")
				same(p, buf[int(arg):int(arg)+len(p)])
			}
			at, err := r.Seek(0, 1) // where that leaves the position is left open
			sym.Assert(err == nil && at >= 0 && at <= int64(n), "position outside the buffer")
			pos = sym.Concrete(int(at))
		}
		at, err := r.Seek(0, 1)
		sym.Assert(err == nil && at == int64(pos), "position after the operation")
		sym.Assert(r.Rest() == int64(n-pos), "octets left")
		sym.Assert(r.Size() == int64(n) && r.Len() == n, "size")
		sym.Observe("d", values.Dump(r, true).String())
		sym.Assert(values.Dump(r, true).String() == ref.Hex(buf[pos:]), "dump of the octets left")
		sym.Assert(values.Dump(r, false).String() == "", "dump when it is off")
		at, err = r.Seek(0, 1)
		sym.Assert(err == nil && at == int64(pos), "position after a dump")
	}
}

func same(a, b []byte) {
	sym.Assert(len(a) == len(b), "number of octets")
	for i := range b {
		sym.Assert(a[i] == b[i], "octets")
	}
}

// failing takes some octets and then no more.
type failing struct{ left int }

func (f *failing) Write(p []byte) (int, error) {
	if len(p) <= f.left {
		f.left -= len(p)
		return len(p), nil
	}
	k := f.left
	f.left = 0
	return k, io.ErrShortWrite
}
