package hnet

import (
	"bytes"
	"errors"
	"io"
	"os"
	"strconv"

	"github.com/spiegel-im-spiegel/gocli/exitcode"
	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"

	"vh/stub"
	"vh/sym"
)

// sample is a stream in which every option shows: marker, private packet,
// literal data with a time, and a signature with a number and an attested
// certification.
func sample(any bool) []byte {
	c := byte('c')
	if any {
		c = sym.Byte("octet")
	}
	var s []byte
	s = append(s, 0xca, 3, 'P', 'G', c)
	s = append(s, 0xfd, 2, c, 2)
	s = append(s, 0xcb, 8, 'b', 0, 0x5f, 0, 0, 0, 'x', c)
	sub := []byte{0x16, 37}
	for i := 0; i < 21; i++ {
		sub = append(sub, byte(i))
	}
	sig := append([]byte{4, 0x13, 1, 8, 0, byte(len(sub))}, sub...)
	sig = append(sig, 0, 0, 0xab, c, 0, 8, 0x80)
	s = append(s, 0xc2, byte(len(sig)))
	return append(s, sig...)
}

type opt struct {
	long, short string
	code        context.OptCode
}

var flags = []opt{
	{"armor", "a", context.ARMOR}, {"cert", "c", context.CERT}, {"int", "i", context.INTEGER}, {"literal", "l", context.LITERAL},
	{"marker", "m", context.MARKER}, {"private", "p", context.PRIVATE}, {"utc", "u", context.UTC}, {"debug", "", context.DEBUG},
}

// Cli: the command line does what the library does with the same options and
// prints it, and its exit code tells whether that succeeded.
func Cli() {
	cxt := context.New()
	args := []string{}
	json, indent := false, 0
	nf := sym.Param("flags", 1)
	debug := false
	if nf == 9 { // any set of them
		nf = 0
		for _, f := range flags {
			if sym.Bool(f.long) {
				args = append(args, "--"+f.long)
				cxt.Set(f.code, true)
				debug = f.code == context.DEBUG
			}
		}
	}
	for i := 0; i < nf; i++ {
		k := sym.Choice("flag"+itoa(i), len(flags)+1)
		if k == len(flags) {
			continue
		}
		f := flags[k]
		form := sym.Choice("form"+itoa(i), 4)
		on := true
		switch {
		case form == 0 && f.short != "":
			args = append(args, "-"+f.short)
		case form == 1:
			args = append(args, "--"+f.long+"=true")
		case form == 2:
			args = append(args, "--"+f.long+"=false")
			on = false
		default:
			args = append(args, "--"+f.long)
		}
		cxt.Set(f.code, on)
		if f.code == context.DEBUG {
			debug = on
		}
	}
	switch sym.Choice("json", 3) {
	case 1:
		args, json = append(args, "-j"), true
	case 2:
		args, json = append(args, "--json"), true
	}
	switch sym.Choice("indent", 5) {
	case 1:
		args, indent = append(args, "--indent", "2"), 2
	case 2:
		args, indent = append(args, "--indent=3"), 3
	case 3:
		args, indent = append(args, "--indent=-1"), -1
	case 4:
		indent = 12
		if !json && sym.Bool("wide") || json && args[len(args)-1] == "-j" {
			indent = 40
		}
		args = append(args, "--indent="+strconv.Itoa(indent))
	}
	data := sample(sym.Param("any", 0) == 1 && !json)
	if sym.Bool("cut") {
		data = data[:len(data)-1]
	}
	stdin := data
	wrong, silent, full := false, false, false
	var rest error
	switch sym.Choice("input", sym.Param("inputs", 1)) {
	case 1:
		args, stdin = append(args, "-f", file(data)), nil
	case 2:
		args, stdin = append(args, "--file="+file(data)), []byte{0xca, 0}
	case 3:
		args, wrong = append(args, "-f", file(data)+".none"), true
	case 4:
		args, wrong = append(args, []string{"--nosuchflag", "-z", "--indent=x", "--int=x"}[sym.Choice("wrong", 4)]), true
	case 5:
		args, wrong = append(args, "--clipboard", "-f", file(data)), true
	case 6:
		args, silent = append(args, []string{"-v", "--version"}[sym.Choice("version", 2)]), true
	case 7: // short options together
		args = append(args, "-mu")
		cxt.Set(context.MARKER, true)
		cxt.Set(context.UTC, true)
	case 8:
		args, stdin, data = append(args, "-mp"), nil, nil
	case 9:
		rest = errors.New("cannot read")
		wrong = true
	case 10:
		full = true
	case 11:
		full = true
		args = append(args, "-f", file(data))
	case 12: // many packets before
		for i := 0; i < 6; i++ {
			data = append([]byte{0xcc, 1, byte(i), 0xcd, 1, 'u', 0xca, 0}, data...)
		}
		stdin = data
	}
	want, ok := "", false
	if p, err := parse.NewBytes(cxt, data); err == nil {
		if info, err := p.Parse(); err == nil {
			ok = true
			if json {
				r, err := info.JSON(indent)
				sym.Assert(err == nil, "JSON")
				b, _ := io.ReadAll(r)
				want = string(b)
			} else if indent > 0 {
				want = info.ToString(spaces(indent)).String()
			} else {
				want = info.String()
			}
		}
	}
	if silent {
		want, ok = "", true
	}
	if debug && (wrong || !ok) {
		sym.Stop() // with --debug, errors are shown and the exit code is 0
	}
	if full && want != "" {
		if debug {
			sym.Stop()
		}
		wrong = true
	}
	var out, eout bytes.Buffer
	var w io.Writer = &out
	if full {
		w = fullWriter{}
	}
	ui := rwi.New(rwi.WithReader(&source{b: stdin, err: rest}), rwi.WithWriter(w), rwi.WithErrorWriter(&eout))
	exit := facade.Execute(ui, args)
	if dir != "" {
		os.RemoveAll(dir)
		dir = ""
	}
	sym.Observe("out", out.String())
	sym.ObserveInt("exit", int(exit))
	if ok && !wrong {
		sym.Assert(exit == exitcode.Normal, "exit code of a success")
		sym.Assert(out.String() == want, "output")
		sym.Reach("output")
		return
	}
	sym.Assert(exit != exitcode.Normal, "exit code of a failure")
	sym.Assert(out.Len() == 0, "output in spite of an error")
	sym.Assert(eout.Len() > 0, "no error message")
	sym.Reach("failure")
}

// source is an input that may fail after its octets.
type source struct {
	b   []byte
	err error
}

func (s *source) Read(p []byte) (int, error) {
	if len(s.b) == 0 {
		if s.err != nil {
			return 0, s.err
		}
		return 0, io.EOF
	}
	n := copy(p, s.b)
	s.b = s.b[n:]
	return n, nil
}

// fullWriter is an output that takes nothing.
type fullWriter struct{}

func (fullWriter) Write(p []byte) (int, error) { return 0, errors.New("cannot write") }

var dir string

// file makes a file with the data.
func file(data []byte) string {
	if sym.Symbolic() {
		stub.Files["/data.asc"] = data
		return "/data.asc"
	}
	if dir == "" {
		dir, _ = os.MkdirTemp("", "vh")
	}
	name := dir + "/data.asc"
	sym.Assert(os.WriteFile(name, data, 0600) == nil, "scratch file")
	return name
}

func spaces(n int) string {
	s := ""
	for ; n > 0; n-- {
		s += " "
	}
	return s
}
