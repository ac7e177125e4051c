// Command native replays concrete cases of the harnesses against the real build.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"vh/sym"
)

type job struct {
	H      string            `json:"h"`
	Params map[string]int    `json:"params"`
	Inputs map[string]string `json:"inputs"`
}

type res struct {
	I      int    `json:"i"`
	Status string `json:"status"`
	Msg    string `json:"msg"`
	Obs    string `json:"obs"`
}

func run(j job) (r res) {
	defer func() {
		if p := recover(); p != nil {
			switch v := p.(type) {
			case sym.Stopped:
				r.Status, r.Msg = "stopped", v.Why
			case sym.Failed:
				r.Status, r.Msg = "assert", v.Msg
			default:
				r.Status, r.Msg = "panic", fmt.Sprint(p)
				if os.Getenv("NATIVE_TRACE") != "" {
					r.Msg += "\n" + string(debug.Stack())
				}
			}
		}
		r.Obs = sym.Obs.String()
	}()
	sym.Reset(j.Inputs, j.Params)
	f := registry[j.H]
	if f == nil {
		return res{Status: "error", Msg: "no harness " + j.H}
	}
	f()
	return res{Status: "ok"}
}

func main() {
	time.Local = time.FixedZone("VER", 9*3600+1800)
	limit := 20 * time.Second
	f, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	dec := json.NewDecoder(bufio.NewReader(f))
	for i := 0; dec.More(); i++ {
		var j job
		if err := dec.Decode(&j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		// announce, so that a fatal error can be attributed
		_ = enc.Encode(res{I: i, Status: "start"})
		out.Flush()
		done := make(chan res, 1)
		go func() { done <- run(j) }()
		select {
		case r := <-done:
			r.I = i
			_ = enc.Encode(r)
			out.Flush()
		case <-time.After(limit):
			_ = enc.Encode(res{I: i, Status: "timeout"})
			out.Flush()
			os.Exit(0) // the goroutine cannot be stopped; the driver resumes after it
		}
	}
}
