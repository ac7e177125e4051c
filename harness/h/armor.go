package h

import (
	"encoding/base64"
	"strings"

	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"

	"vh/ref"
	"vh/sym"
)

// ASCII armor (RFC 4880, 6), written out by hand.

const armored = "-----BEGIN PGP MESSAGE-----\nVersion: x\n\nygNQR1DNBHVzZXI=\n=p/mU\n-----END PGP MESSAGE-----\n"

var armoredBody = []byte{0xca, 3, 'P', 'G', 'P', 0xcd, 4, 'u', 's', 'e', 'r'}

const cleartext = "-----BEGIN PGP SIGNED MESSAGE-----\nHash: SHA256\n\ntext\n-----BEGIN PGP SIGNATURE-----\n\nygNQR1DNBHVzZXI=\n=p/mU\n-----END PGP SIGNATURE-----\n"

func crc24(b []byte) []byte {
	crc := uint32(0xb704ce)
	for _, x := range b {
		crc ^= uint32(x) << 16
		for i := 0; i < 8; i++ {
			crc <<= 1
			if crc&0x1000000 != 0 {
				crc ^= 0x1864cfb
			}
		}
	}
	return []byte{byte(crc >> 16), byte(crc >> 8), byte(crc)}
}

func lines(ls []string, nl string) []byte {
	var out []byte
	for _, l := range ls {
		out = append(out, l...)
		out = append(out, nl...)
	}
	return out
}

// width of the lines of a block.
var width = 64

func block(kind string, hdr []string, body []byte, nl string) []byte {
	ls := []string{"-----BEGIN PGP " + kind + "-----"}
	ls = append(ls, hdr...)
	ls = append(ls, "")
	b := base64.StdEncoding.EncodeToString(body)
	for len(b) > width {
		ls = append(ls, b[:width])
		b = b[width:]
	}
	ls = append(ls, b, "="+base64.StdEncoding.EncodeToString(crc24(body)), "-----END PGP "+kind+"-----")
	return lines(ls, nl)
}

func armorOpts() (*context.Context, *ref.Opts, bool) {
	cxt, o := options()
	limits(o)
	a := sym.Bool("armor")
	cxt.Set(context.ARMOR, a)
	return cxt, o, a
}

// around is text that holds no line that starts or ends a block: up to n
// characters, or lines that resemble those of a block.
func around(name string, n int) []byte {
	k := sym.Choice(name+" kind", 6)
	if k == 0 || n == 0 {
		return sym.ConcreteLen(sym.Bytes(name, n))
	}
	return []byte([]string{
		"> -----BEGIN PGP MESSAGE-----\n\nx\n> -----END PGP MESSAGE-----",
		" -----BEGIN PGP MESSAGE-----",
		"----BEGIN PGP MESSAGE-----",
		"-----END PGP MESSAGE-----",
		"-----BEGIN PGP SIGNED MESSAGE-----",
	}[k-1])
}

// Around: an armored block anywhere in a text is found, whatever stands before
// and after it, with either line ending.
func Around() {
	cxt, o, _ := armorOpts()
	nl := []string{"\n", "\r\n"}[sym.Choice("nl", 2)]
	pre := around("pre", sym.Param("n", 3))
	post := around("post", sym.Param("m", 3))
	kind := []string{"MESSAGE", "PUBLIC KEY BLOCK", "PRIVATE KEY BLOCK", "SIGNATURE", "ARMORED FILE"}[sym.Choice("kind", 5)]
	var text []byte
	if len(pre) > 0 {
		text = append(text, pre...)
		text = append(text, nl...)
	}
	var hdr []string
	switch sym.Choice("hdr", 5) {
	case 1:
		hdr = []string{"Version: 1", "Comment: x"}
	case 2: // quotes the last line of a block
		hdr = []string{"Comment: -----END PGP MESSAGE-----", "Comment: -----BEGIN PGP SIGNED MESSAGE-----"}
	case 4: // long lines
		hdr = []string{"Comment: " + strings.Repeat("x", 90), "Comment: " + strings.Repeat("y ", 500)}
	case 3:
		c := sym.BytesN("comment", 1)
		sym.Assume(c[0] > 0x20 && c[0] < 0x7f)
		hdr = []string{"Comment: " + string(c)}
	}
	text = append(text, block(kind, hdr, armoredBody, nl)...)
	text = append(text, post...)
	want, ok := stream(armoredBody, o, &ref.State{})
	got, err := run(cxt, text)
	judgeInfo(want, ok, got, err)
}

// First: of several blocks in a text the first is shown, and what follows the
// block does not matter, an unfinished block included.
func First() {
	cxt, o, _ := armorOpts()
	text := block("PUBLIC KEY BLOCK", nil, armoredBody, "\n")
	second := block("MESSAGE", nil, []byte{0xcd, 1, 'x'}, "\n")
	text = append(text, second[:sym.Choice("cut", len(second)+1)]...)
	want, ok := stream(armoredBody, o, &ref.State{})
	got, err := run(cxt, text)
	judgeInfo(want, ok, got, err)
}

// Corrupt: a block whose contents do not have the checksum given is an error.
func Corrupt() {
	cxt, _, _ := armorOpts()
	sum := sym.BytesN("sum", 3)
	good := crc24(armoredBody)
	sym.Assume(sum[0] != good[0] || sum[1] != good[1] || sum[2] != good[2])
	text := lines([]string{"-----BEGIN PGP MESSAGE-----", "", base64.StdEncoding.EncodeToString(armoredBody), "=" + base64.StdEncoding.EncodeToString(sum), "-----END PGP MESSAGE-----"}, "\n")
	got, err := run(cxt, text)
	observeInfo(got, err)
	sym.Reach("refused")
	sym.Assert(err != nil, "corrupt armor accepted")
}

// Long: blocks of several lines, whatever their number and the length of the
// last one.
func Long() {
	cxt, o, _ := armorOpts()
	width = []int{64, 76, 60, 20, 80, 96}[sym.Choice("width", 6)]
	n := sym.Choice("len", sym.Param("n", 150))
	data := []byte{0xca, byte(n)}
	if n >= 192 {
		data = []byte{0xca, byte((n-192)>>8) + 192, byte(n - 192)}
	}
	body := make([]byte, n)
	for i := range body {
		body[i] = byte(i)
	}
	data = append(data, body...)
	want, ok := stream(data, o, &ref.State{})
	got, err := run(cxt, block("MESSAGE", nil, data, "\n"))
	judgeInfo(want, ok, got, err)
}

// Clear: of a cleartext signed message the signature is shown.
func Clear() {
	cxt, o, _ := armorOpts()
	nl := []string{"\n", "\r\n"}[sym.Choice("nl", 2)]
	msg := sym.ConcreteLen(sym.Bytes("text", sym.Param("n", 3)))
	text := lines([]string{"-----BEGIN PGP SIGNED MESSAGE-----", "Hash: SHA256", ""}, nl)
	text = append(text, msg...)
	text = append(text, nl...)
	if sym.Bool("dash") {
		text = append(text, lines([]string{"- -----BEGIN PGP MESSAGE-----", "- -----END PGP MESSAGE-----"}, nl)...)
	}
	text = append(text, block("SIGNATURE", nil, armoredBody, nl)...)
	want, ok := stream(armoredBody, o, &ref.State{})
	got, err := run(cxt, text)
	judgeInfo(want, ok, got, err)
}

// Dearmor: an armored input shows what the binary one shows, for any content.
func Dearmor() {
	cxt, o, _ := armorOpts()
	data := cat([]byte{0xca}, []byte{byte(sym.Param("n", 3))}, sym.BytesN("data", sym.Param("n", 3)))
	want, ok := stream(data, o, &ref.State{})
	got, err := run(cxt, block("MESSAGE", nil, data, "\n"))
	judgeInfo(want, ok, got, err)
}

// NoArmor: with armor demanded, an input without a complete armored block is an
// error, whatever it holds; without, an incomplete block is not OpenPGP data.
func NoArmor() {
	cxt, o, a := armorOpts()
	full := block("MESSAGE", nil, armoredBody, "\n")
	var data []byte
	switch sym.Choice("case", 4) {
	case 0:
		data = sym.ConcreteLen(sym.Bytes("data", sym.Param("n", 4)))
		if !a {
			sym.Stop()
		}
	case 1: // valid binary data
		data = armoredBody
		if !a {
			want, ok := stream(data, o, &ref.State{})
			got, err := run(cxt, data)
			judgeInfo(want, ok, got, err)
			return
		}
	case 2: // cut off before the last line
		data = full[:sym.Choice("cut", len(full)-len("-----END PGP MESSAGE-----\n")+1)]
		if len(data) == 0 && !a {
			sym.Stop()
		}
	case 3: // cleartext without signature
		data = []byte("-----BEGIN PGP SIGNED MESSAGE-----\n\ntext\n-----END PGP SIGNED MESSAGE-----\n")
	}
	got, err := run(cxt, data)
	observeInfo(got, err)
	sym.Reach("refused")
	sym.Assert(err != nil, "input without armor accepted")
}
