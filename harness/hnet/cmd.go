package hnet

import (
	"bytes"
	stdcontext "context"
	"errors"
	"io"
	"net/http"
	"net/url"
	"os"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gocli/exitcode"
	"github.com/spiegel-im-spiegel/gocli/rwi"
	"github.com/spiegel-im-spiegel/gpgpdump/facade"
	"github.com/spiegel-im-spiegel/gpgpdump/parse"
	"github.com/spiegel-im-spiegel/gpgpdump/parse/context"

	"vh/sym"
)

// web stands for the network: under the engine clients made by fetch.New are
// FetchNew's, natively the default transport is replaced.
var web *client

func FetchNew(opts ...fetch.ClientOpts) fetch.Client { return web }

// SignalContext stands for gocli/signal.Context under the engine.
func SignalContext(ctx stdcontext.Context, sig ...os.Signal) stdcontext.Context { return ctx }

type transport struct{}

func (transport) RoundTrip(r *http.Request) (*http.Response, error) {
	resp, err := web.Get(r.URL)
	if err == errStatus {
		return &http.Response{StatusCode: 404, Body: io.NopCloser(bytes.NewReader(nil)), Request: r}, nil
	}
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: 200, Body: resp.Body(), Request: r}, nil
}

var errStatus = errors.New("status 404")

const armored = "-----BEGIN PGP MESSAGE-----\nVersion: x\n\nygNQR1DNBHVzZXI=\n=p/mU\n-----END PGP MESSAGE-----\n"

// Cmd: the subcommands that fetch keys ask for exactly what they were told to,
// and print what the library shows for the answer, or with --raw the answer.
func Cmd() {
	answers := []string{armored, "\xca\x03PGP\xcd\x04user", "text\n" + armored, "-----BEGIN PGP MESSAGE-----\n\nygNQR1DNBHV", ""}
	answer := answers[sym.Choice("answer", len(answers))]
	fail := sym.Choice("fail", 3)
	web = &client{serve: func(u *url.URL) (*response, error) {
		switch fail {
		case 1:
			return nil, errFetch
		case 2:
			return nil, errStatus
		}
		return &response{b: bytes.NewReader([]byte(answer))}, nil
	}}
	if !sym.Symbolic() {
		old := http.DefaultTransport
		http.DefaultTransport = transport{}
		defer func() { http.DefaultTransport = old }()
	}
	cxt := context.New()
	var args []string
	wrong := false
	path, host, scheme := "", "", ""
	search := ""
	cmd := sym.Choice("cmd", 3)
	switch cmd {
	case 0:
		cxt.Set(context.ARMOR, true)
		args = append(args, []string{"hkp", "h"}[sym.Choice("alias", 2)])
		host, path, scheme = "keys.gnupg.net", "/pks/lookup", "http"
		port := "11371"
		switch sym.Choice("server", 3) {
		case 1:
			args, host = append(args, "--keyserver", "ks.example.org"), "ks.example.org"
		case 2:
			args, wrong = append(args, "--keyserver="), true
		}
		switch sym.Choice("port", 3) {
		case 1:
			args, port = append(args, "--port", "80"), "80"
		case 2:
			args, wrong = append(args, "--port=x"), true
		}
		if sym.Bool("secure") {
			args, scheme = append(args, "--secure"), "https"
		}
		host += ":" + port
		search = []string{"alice@example.org", "0x12345678", "A B&c=d+e?#/%"}[sym.Choice("user", 3)]
		args = append(args, search)
	case 1:
		cxt.Set(context.ARMOR, true)
		args = append(args, []string{"github", "gh", "g"}[sym.Choice("alias", 3)])
		scheme = "https"
		if sym.Bool("keyid") {
			sym.Assume(len(answer) > 30 && answer[0] == '-')
			args = append(args, "--keyid", "0x0a1b")
			host, path = "api.github.com", "/users/user-1/gpg_keys"
			text := answer
			web.serve = func(u *url.URL) (*response, error) {
				switch fail {
				case 1:
					return nil, errFetch
				case 2:
					return nil, errStatus
				}
				var out []byte
				out = append(out, "[{\"key_id\":\"FFFF\",\"raw_key\":\"x\"},{\"key_id\":\"0A1B\",\"raw_key\":\""...)
				for i := 0; i < len(text); i++ {
					if text[i] == '\n' {
						out = append(out, '\\', 'n')
					} else {
						out = append(out, text[i])
					}
				}
				return &response{b: bytes.NewReader(append(out, "\"}]"...))}, nil
			}
		} else {
			host, path = "github.com", "/user-1.gpg"
		}
		args = append(args, "user-1")
	case 2:
		args = append(args, []string{"fetch", "fch", "f"}[sym.Choice("alias", 3)])
		scheme, host, path = "https", "example.org:81", "/a/key.asc"
		if sym.Bool("armor") {
			args = append(args, "-a")
			cxt.Set(context.ARMOR, true)
		}
		args = append(args, "https://example.org:81/a/key.asc")
	}
	raw := sym.Bool("raw")
	if raw {
		args = append(args, "--raw")
	}
	json := false
	switch sym.Choice("opt", 4) {
	case 1:
		args, json = append(args, "-j"), true
	case 2:
		args = append(args, "-m")
		cxt.Set(context.MARKER, true)
	case 3:
		if sym.Bool("more") {
			args, wrong = append(args, "extra"), true
		} else {
			args, wrong = args[:1], true
		}
	}
	want, ok := answer, true
	if !raw {
		ok = false
		if p, err := parse.NewBytes(cxt, []byte(answer)); err == nil {
			if info, err := p.Parse(); err == nil {
				ok, want = true, info.String()
				if json {
					r, err := info.JSON(0)
					sym.Assert(err == nil, "JSON")
					b, _ := io.ReadAll(r)
					want = string(b)
				}
			}
		}
	}
	var out, eout bytes.Buffer
	ui := rwi.New(rwi.WithReader(bytes.NewReader(nil)), rwi.WithWriter(&out), rwi.WithErrorWriter(&eout))
	exit := facade.Execute(ui, args)
	sym.Observe("out", out.String())
	sym.ObserveInt("exit", int(exit))
	if wrong {
		sym.Assert(len(web.asked) == 0, "request in spite of a wrong command line")
		sym.Assert(exit != exitcode.Normal && out.Len() == 0, "wrong command line")
		sym.Reach("wrong")
		return
	}
	sym.Assert(len(web.asked) == 1, "one request")
	u := web.asked[0]
	sym.Assert(u.Scheme == scheme && u.Host == host && u.Path == path, "URL")
	if cmd == 0 {
		s, have := field(u, "search")
		op, haveOp := field(u, "op")
		sym.Assert(have && s == search && haveOp && op == "get", "search text")
	}
	if fail != 0 || !ok {
		sym.Assert(exit != exitcode.Normal, "exit code of a failure")
		sym.Assert(out.Len() == 0, "output in spite of an error")
		sym.Reach("failure")
		return
	}
	sym.Assert(exit == exitcode.Normal, "exit code of a success")
	sym.Assert(out.String() == want, "output")
	sym.Reach("output")
}
