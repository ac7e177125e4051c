#!/usr/bin/env python3
"""plant.py FILE...: each FILE is a python file defining id, prop, edits, main (Go), needs, breaks."""
import sys, os, subprocess, json, shutil
GO = '''package main

import (
%s)

func die(f string, a ...interface{}) { fmt.Printf(f+"\\n", a...); os.Exit(1) }

func opts(names ...string) *context.Context {
	c := context.New()
	for _, n := range names {
		c.Set(context.GetOptCode(n), true)
	}
	return c
}

// show parses data and gives the text form and the error.
func show(c *context.Context, r io.Reader) (string, error) {
	p, err := parse.New(c, r)
	if err != nil {
		return "", err
	}
	i, err := p.Parse()
	if i == nil {
		return "", err
	}
	return i.String(), err
}

func hx(s string) []byte {
	b, err := hex.DecodeString(strings.ReplaceAll(s, " ", ""))
	if err != nil {
		panic(err)
	}
	return b
}

// pkt frames a body with a new-format header.
func pkt(tag int, body []byte) []byte {
	n := len(body)
	switch {
	case n < 192:
		return append([]byte{0xc0 | byte(tag), byte(n)}, body...)
	case n < 8384:
		return append([]byte{0xc0 | byte(tag), byte((n-192)>>8) + 192, byte(n - 192)}, body...)
	}
	return append([]byte{0xc0 | byte(tag), 255, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, body...)
}

func dump(data []byte, names ...string) (string, error) { return show(opts(names...), bytes.NewReader(data)) }

func want(out string, err error, subs ...string) {
	if err != nil {
		die("unexpected error %%v\\n%%s", err, out)
	}
	for _, s := range subs {
		if !strings.Contains(out, s) {
			die("missing %%q in\\n%%s", s, out)
		}
	}
}

func not(out string, subs ...string) {
	for _, s := range subs {
		if strings.Contains(out, s) {
			die("unexpected %%q in\\n%%s", s, out)
		}
	}
}

var _, _, _ = want, not, pkt
var _ = dump
var _ = hx

func main() {
	defer func() {
		if r := recover(); r != nil {
			die("panic: %%v", r)
		}
	}()
%s
	fmt.Println("ok")
}
'''
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local TZ=UTC PATH=/usr/local/bin:$PATH
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace": {"%s/zzdemo/main.go": "%s/main.go.txt"}}' "$PWD" "$here" > "$tmp/o.json"
go build -overlay "$tmp/o.json" -o "$tmp/demo" ./zzdemo
timeout 60 "$tmp/demo"
'''
RT = '''
// rt answers requests without a network.
type rt func(r *http.Request) string

func (f rt) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Request: r, Body: io.NopCloser(strings.NewReader(f(r)))}, nil
}
'''
RT2 = '''
// rt2 answers requests without a network.
type rt2 func(r *http.Request) (string, error)

func (f rt2) RoundTrip(r *http.Request) (*http.Response, error) {
	s, err := f(r)
	if err != nil {
		return nil, err
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", Header: http.Header{}, Request: r, Body: io.NopCloser(strings.NewReader(s))}, nil
}
'''
RTF = '''
// rtf answers requests without a network.
type rtf func(r *http.Request) (*http.Response, error)

func (f rtf) RoundTrip(r *http.Request) (*http.Response, error) { return f(r) }
'''
BASE = ["bytes", "encoding/hex", "fmt", "io", "os", "strings", "github.com/spiegel-im-spiegel/gpgpdump/parse", "github.com/spiegel-im-spiegel/gpgpdump/parse/context"]
def sh(c, cwd, ok=True):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr
for f in sys.argv[1:]:
    ns = {"imports": []}
    exec(open(f).read(), ns)
    w = "/tmp/plant/w"
    shutil.rmtree(w, ignore_errors=True)
    sh("cp -a /repo %s" % w, "/")
    d = os.environ.get("OUT","/tmp/plant/out") + "/" + ns["id"]
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    G="github.com/spiegel-im-spiegel/"
    AUTO=[("http.","net/http"),("errors.","errors"),("time.","time"),("strconv.","strconv"),("flate.","compress/flate"),("github.Get",G+"gpgpdump/github"),("hkp.",G+"gpgpdump/hkp"),("fetch.",G+"fetch"),("ecode.",G+"gpgpdump/ecode"),("facade.",G+"gpgpdump/facade"),("rwi.",G+"gocli/rwi"),("result.",G+"gpgpdump/parse/result"),("reader.",G+"gpgpdump/parse/reader")]
    m=ns["main"]; extra=""
    import re
    ns["imports"]=list(ns["imports"])+[p for k,p in AUTO if re.search(r"\b"+re.escape(k),m)]
    alias=[]
    if "gocontext." in m: alias.append('gocontext "context"')
    if "b64." in m: alias.append('b64 "encoding/base64"')
    if re.search(r"\brt\(",m): extra+=RT; ns["imports"].append("net/http")
    if "rt2(" in m: extra+=RT2; ns["imports"].append("net/http")
    if "rtf(" in m: extra+=RTF; ns["imports"].append("net/http")
    if "full{}" in m: extra+="\ntype full struct{}\n\nfunc (full) Write([]byte) (int, error) { return 0, io.ErrClosedPipe }\n"
    if "half{}" in m: extra+="\ntype half struct{}\n\nfunc (half) Write(p []byte) (int, error) { return len(p) / 2, io.ErrShortWrite }\n"
    imps = "".join("\t%s\n"%a for a in alias)+"".join('\t"%s"\n' % i for i in sorted(set(BASE + ns["imports"])))
    open(d + "/main.go.txt", "w").write(GO % (imps, "\n".join("\t" + l for l in ns["main"].strip("\n").split("\n"))) + extra)
    open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    rc0, o0 = sh("bash %s/demo.sh" % d, w)
    for file, old, new in ns["edits"]:
        p = w + "/" + file; s = open(p).read()
        if s.count(old) != 1: print("NOEDIT", f, file, s.count(old), old); continue
        open(p, "w").write(s.replace(old, new))
    sh("gofmt -w " + " ".join(set(e[0] for e in ns["edits"])), w) if ns.get("fmt") else None
    _, diff = sh("git diff", w)
    open(d + "/patch.diff", "w").write(diff)
    rcb, ob = sh(". /opt/vp/env.sh; go build ./... && go vet ./... && go test ./... 2>&1 | grep -v 'no test files\\|^ok' ", w)
    bad = "FAIL" in ob or ".go:" in ob
    rc1, o1 = sh("bash %s/demo.sh" % d, w)
    st = "OK" if rc0 == 0 and rc1 != 0 and not bad else "BAD"
    print(st, ns["id"], "clean", rc0, "patched", rc1, "tests", "FAIL" if bad else "pass")
    if st == "BAD": print(o0[-600:], ob[-1500:], o1[-600:])
    else: print("   ", o1.strip().split("\n")[0][:160])
    shutil.rmtree(w, ignore_errors=True)
