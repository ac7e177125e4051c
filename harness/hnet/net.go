// Package hnet holds the harnesses of the key fetching code and of the command
// line.
package hnet

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net/http"
	"net/url"

	"github.com/spiegel-im-spiegel/fetch"
	"github.com/spiegel-im-spiegel/gpgpdump/ecode"
	"github.com/spiegel-im-spiegel/gpgpdump/github"
	"github.com/spiegel-im-spiegel/gpgpdump/hkp"

	_ "vh/stub"
	"vh/sym"
)

// client answers requests without a network and notes what was asked for.
type client struct {
	asked []*url.URL
	given []*response
	serve func(u *url.URL) (*response, error)
}

var errFetch = errors.New("fetch failed")

func (c *client) Get(u *url.URL, opts ...fetch.RequestOpts) (fetch.Response, error) {
	c.asked = append(c.asked, u)
	r, err := c.serve(u)
	if err != nil {
		return nil, err
	}
	c.given = append(c.given, r)
	return r, nil
}

// released: every answer was closed.
func (c *client) released() {
	for _, r := range c.given {
		sym.Assert(r.closed, "answer not closed")
	}
}

func (c *client) Post(u *url.URL, payload io.Reader, opts ...fetch.RequestOpts) (fetch.Response, error) {
	return nil, errFetch
}

type response struct {
	b   io.Reader
	err error // at the end of the body

	closed bool
}

type body struct{ r *response }

func (b body) Read(p []byte) (int, error) {
	n, err := b.r.b.Read(p)
	if err == io.EOF && b.r.err != nil {
		err = b.r.err
	}
	return n, err
}

func (b body) Close() error {
	b.r.closed = true
	return nil
}

func (r *response) Request() *http.Request { return nil }
func (r *response) Header() http.Header    { return nil }
func (r *response) Body() io.ReadCloser    { return body{r} }
func (r *response) Close()                 { r.closed = true }
func (r *response) DumpBodyAndClose() ([]byte, error) {
	defer r.Close()
	return io.ReadAll(r.Body())
}

// causes: the errors are looked at too.
func causes() bool { return sym.Param("cause", 0) == 1 }

// word is a string of 1 to n octets that are, each, in one of the ranges.
func word(name string, n int, ranges string) string {
	b := sym.ConcreteLen(sym.Bytes(name, n))
	for i := 0; i < len(b); i++ {
		ok := false
		for k := 0; k+1 < len(ranges); k += 2 {
			ok = sym.Or(ok, sym.And(b[i] >= ranges[k], b[i] <= ranges[k+1]))
		}
		sym.Assume(ok)
	}
	return string(b)
}

func unhex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c - '0')
	case c >= 'a' && c <= 'f':
		return int(c-'a') + 10
	case c >= 'A' && c <= 'F':
		return int(c-'A') + 10
	}
	return -1
}

// query reads a query string (application/x-www-form-urlencoded).
func query(s string) (keys, vals []string, ok bool) {
	for len(s) > 0 {
		part := s
		for i := 0; i < len(s); i++ {
			if s[i] == '&' {
				part = s[:i]
				break
			}
		}
		if len(part) < len(s) {
			s = s[len(part)+1:]
		} else {
			s = ""
		}
		var cur []byte
		key, have := "", false
		for i := 0; i < len(part); i++ {
			c := part[i]
			switch {
			case c == '=' && !have:
				key, have = string(cur), true
				cur = nil
				continue
			case c == '+':
				c = ' '
			case c == '%':
				if i+2 >= len(part) || unhex(part[i+1]) < 0 || unhex(part[i+2]) < 0 {
					return nil, nil, false
				}
				c = byte(unhex(part[i+1])<<4 | unhex(part[i+2]))
				i += 2
			case c <= ' ' || c >= 0x7f || c == '#' || c == '=':
				return nil, nil, false
			}
			cur = append(cur, c)
		}
		if !have {
			return nil, nil, false
		}
		keys, vals = append(keys, key), append(vals, string(cur))
	}
	return keys, vals, true
}

func field(u *url.URL, name string) (string, bool) {
	keys, vals, ok := query(u.RawQuery)
	if !ok {
		return "", false
	}
	v, n := "", 0
	for i, k := range keys {
		if k == name {
			v = vals[i]
			n++
		}
	}
	return v, n == 1
}

// Hkp: a key is looked up with a request for exactly that search text at the
// configured server, and the answer is handed on as it is.
func Hkp() {
	host := []string{"keyserver.ubuntu.com", "localhost"}[sym.Choice("host", 2)]
	text := word("search", sym.Param("n", 2), "\x00\xff")
	want := "http"
	var opts []hkp.ServerOptFunc
	switch sym.Choice("prt", 3) {
	case 1:
		opts = append(opts, hkp.WithProtocol(hkp.HKP))
	case 2:
		opts = append(opts, hkp.WithProtocol(hkp.HKPS))
		want = "https"
	}
	port := 11371
	if sym.Bool("port") {
		port = int(sym.Uint16("portnr"))
		opts = append(opts, hkp.WithPort(port))
	}
	data := sym.BytesN("answer", 2)
	fail := sym.Bool("fail")
	cli := &client{serve: func(u *url.URL) (*response, error) {
		if fail {
			return nil, errFetch
		}
		return &response{b: bytes.NewReader(data)}, nil
	}}
	srv := hkp.New(host, opts...)
	sym.Assert(srv.String() == want+"://"+host+":"+itoa(port), "server URL")
	r, err := srv.Fetch(context.Background(), cli, text)
	sym.Assert(len(cli.asked) == 1, "one request")
	u := cli.asked[0]
	sym.Assert(u.Scheme == want, "protocol")
	sym.Assert(u.Host == host+":"+itoa(port), "host and port")
	sym.Assert(u.Path == "/pks/lookup", "path")
	op, ok := field(u, "op")
	sym.Assert(ok && op == "get", "operation")
	s, ok := field(u, "search")
	sym.Assert(ok && s == text, "search text")
	if fail {
		sym.Assert(err != nil, "failed request not reported")
		if causes() {
			sym.Assert(errors.Is(err, errFetch), "cause of a failed request")
			sym.Assert(errors.Is(err, ecode.ErrInvalidRequest), "kind of a failed request")
			sym.Reach("cause")
		}
		return
	}
	sym.Assert(err == nil && r != nil, "answer refused")
	got, err := io.ReadAll(r)
	sym.Assert(err == nil && bytes.Equal(got, data), "answer")
	sym.Reach("answer")
}

func itoa(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

const alnum = "09azAZ--"

// GhUser: without a key ID the keys of a user are those at github.com.
func GhUser() {
	name := word("user", sym.Param("n", 3), alnum)
	sym.Assume(len(name) > 0)
	data := sym.BytesN("answer", 2)
	mode := sym.Choice("mode", 3)
	cli := &client{serve: func(u *url.URL) (*response, error) {
		switch mode {
		case 1:
			return nil, errFetch
		case 2:
			return &response{b: bytes.NewReader(data), err: errFetch}, nil
		}
		return &response{b: bytes.NewReader(data)}, nil
	}}
	var got []byte
	var err error
	if sym.Bool("key") {
		got, err = github.GetKey(context.Background(), cli, name, "")
	} else {
		got, err = github.Get(context.Background(), cli, name)
	}
	cli.released()
	sym.Assert(len(cli.asked) == 1, "one request")
	sym.Assert(cli.asked[0].String() == "https://github.com/"+name+".gpg", "URL")
	if mode != 0 {
		sym.Assert(err != nil, "failed request not reported")
		if causes() {
			sym.Assert(errors.Is(err, errFetch), "cause of a failed request")
			sym.Reach("cause")
		}
		return
	}
	sym.Assert(err == nil && bytes.Equal(got, data), "answer")
	sym.Reach("answer")
}

func lower(s string) string {
	b := []byte(s)
	for i := range b {
		b[i] = sym.IteByte(sym.And(b[i] >= 'A', b[i] <= 'Z'), b[i]+32, b[i])
	}
	return string(b)
}

func atoi(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' || n > 10000 {
			return -1
		}
		n = n*10 + int(s[i]-'0')
	}
	if len(s) == 0 {
		return -1
	}
	return n
}

// GhKey: of the keys of a user, however many pages they fill, the one with the
// ID asked for is taken, whatever the case of its digits and with or without
// "0x"; no such key, one without data or a failed request is an error.
func GhKey() {
	name := "user-1"
	paging := sym.Param("paging", 0) > 0
	pages := sym.Param("paging", 0) == 2 // many pages, of null entries
	total := 1150
	if !pages {
		total = []int{0, 1, 2, 99, 100, 101, 199, 200, 201, 250}[sym.Choice("total", sym.Param("totals", 10))]
	}
	ids := make([]string, total)
	raws := make([]string, total)
	for i := range ids {
		ids[i] = "FFFFFFFFFFFF" + itoa(1000+i)
		raws[i] = "\"key " + itoa(i) + "\""
		if pages {
			raws[i] = "-"
		}
	}
	// one key has an ID, and data, of its own
	special := 0
	if !paging {
		special = sym.Choice("special", 6)
	}
	at := -1
	if total > 0 {
		at = [...]int{0, 1, 50, total/2 + 1, total - 2, total - 1}[sym.Choice("at", 6)]
		if at < 0 || at >= total {
			sym.Stop()
		}
		if paging {
			ids[at] = "0123456789ABCDEF"
		} else {
			ids[at] = word("id", sym.Param("n", 2), "09AFaf")
		}
		raws[at] = "\"-----BEGIN\\n\\\"key\\\" \\\\ of it\""
		switch special {
		case 1:
			raws[at] = "null"
		case 2:
			raws[at] = ""
		case 3:
			if at == 0 {
				sym.Stop()
			}
			raws[at-1] = "-" // a null entry
		}
	}
	var want, pre string
	failAt, bad := 0, false // page that cannot be fetched, from 1
	if paging {
		want = []string{"0123456789abcdef", "123456789abcdef0", "ff0123456789abcdef", "ffffffffffffffffffffffff0123456789abcdef", "89abcdef"}[sym.Choice("want", 2+3*(sym.Param("paging", 0)-1))]
		if pages {
			failAt = []int{0, 12}[sym.Choice("fail", 2)]
		} else {
			failAt = sym.Choice("fail", 4)
		}
		bad = failAt > 0 && sym.Bool("bad")
	} else {
		want = word("want", sym.Param("n", 2), "09AFaf")
		if len(want) == 0 {
			sym.Stop()
		}
		switch special {
		case 4:
			pre = "0x"
		case 5:
			pre = "0X"
		}
	}
	failed := false
	cli := &client{serve: func(u *url.URL) (*response, error) {
		sym.Assert(u.Scheme == "https" && u.Host == "api.github.com" && u.Path == "/users/"+name+"/gpg_keys", "URL of the API")
		page, per := 1, 30
		if s, ok := field(u, "page"); ok {
			page = atoi(s)
		}
		if s, ok := field(u, "per_page"); ok {
			per = atoi(s)
		}
		sym.Assert(page >= 1 && per >= 1 && per <= 100, "page asked for")
		sym.Assert(page <= 14, "asks for pages without end")
		if page == failAt {
			failed = true
			if bad {
				return &response{b: bytes.NewReader([]byte("[{\"key_id\":"))}, nil
			}
			return nil, errFetch
		}
		out := []byte("[")
		for i := (page - 1) * per; i < total && i < page*per; i++ {
			if len(out) > 1 {
				out = append(out, ',')
			}
			if raws[i] == "-" {
				out = append(out, "null"...)
				continue
			}
			out = append(out, "{\"id\":"...)
			out = append(out, itoa(i)...)
			out = append(out, ",\"primary_key_id\":null,\"key_id\":\""...)
			out = append(out, ids[i]...)
			if raws[i] != "" {
				out = append(out, "\",\"raw_key\":"...)
				out = append(out, raws[i]...)
			} else {
				out = append(out, '"')
			}
			out = append(out, ",\"emails\":[{\"email\":\"a@b\",\"verified\":true}],\"subkeys\":[{\"id\":7,\"key_id\":\"00\",\"raw_key\":null}],\"can_sign\":true}"...)
		}
		return &response{b: bytes.NewReader(append(out, ']'))}, nil
	}}
	got, err := github.GetKey(context.Background(), cli, name, pre+want)
	cli.released()
	sym.Observe("got", string(got))
	if failed {
		sym.Assert(err != nil, "failed request not reported")
		sym.Assert(!errors.Is(err, ecode.ErrNoKey), "failed request reported as a missing key")
		if causes() {
			sym.Assert(bad || errors.Is(err, errFetch), "cause of a failed request")
			sym.Assert(errors.Is(err, ecode.ErrInvalidRequest), "kind of a failed request")
			sym.Reach("cause")
		}
		return
	}
	for i := range ids {
		if raws[i] == "-" || len(ids[i]) != len(want) || lower(ids[i]) != lower(want) {
			continue
		}
		if raws[i] == "" || raws[i] == "null" {
			sym.Assert(err != nil, "key without data accepted")
			return
		}
		text := "-----BEGIN\n\"key\" \\ of it"
		if raws[i][1] != '-' {
			text = "key " + itoa(i)
		}
		sym.Assert(err == nil, "key not found")
		sym.Assert(string(got) == text, "key")
		sym.Reach("key")
		return
	}
	sym.Assert(err != nil, "key found that is not there")
	sym.Assert(errors.Is(err, ecode.ErrNoKey), "missing key reported as something else")
	sym.Reach("no key")
}
