package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
)

type natJob struct {
	H      string            `json:"h"`
	Params map[string]int    `json:"params"`
	Inputs map[string]string `json:"inputs"`
}

type natRes struct {
	I      int    `json:"i"`
	Status string `json:"status"`
	Msg    string `json:"msg"`
	Obs    string `json:"obs"`
}

// buildNative compiles the harnesses with the real code of /repo.
func buildNative(dir, out string) error {
	cmd := exec.Command("go", "build", "-o", out, "./cmd/native")
	cmd.Dir = dir
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("%v: %s", err, b)
	}
	return nil
}

func casesOfViols(h *Harness) (out []natJob) {
	for _, v := range h.viols {
		out = append(out, natJob{h.name, h.params, v.Inputs})
	}
	return
}

func casesOfRecs(h *Harness) (out []natJob) {
	for _, r := range h.recs {
		out = append(out, natJob{h.name, h.params, r.Inputs})
	}
	return
}

// runNative replays cases against the native build. A case that kills or
// outlasts the process is marked, and the rest is run in a new process.
func runNative(tmp string, h *Harness, jobs []natJob) ([]natRes, error) {
	out := make([]natRes, len(jobs))
	for start := 0; start < len(jobs); {
		var buf bytes.Buffer
		enc := json.NewEncoder(&buf)
		for _, j := range jobs[start:] {
			if err := enc.Encode(j); err != nil {
				return out, err
			}
		}
		f := filepath.Join(tmp, "cases.json")
		if err := os.WriteFile(f, buf.Bytes(), 0o644); err != nil {
			return out, err
		}
		cmd := exec.Command(filepath.Join(tmp, "native"), f)
		cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
		b, err := cmd.Output()
		last, n := -1, 0
		sc := bufio.NewReader(bytes.NewReader(b))
		dec := json.NewDecoder(sc)
		for dec.More() {
			var r natRes
			if e := dec.Decode(&r); e != nil {
				break
			}
			if r.Status == "start" {
				last = r.I
				continue
			}
			out[start+r.I] = r
			n = r.I + 1
			last = -1
		}
		if last >= 0 { // killed while running this case
			msg := ""
			if ee, ok := err.(*exec.ExitError); ok {
				msg = string(ee.Stderr)
				if len(msg) > 300 {
					msg = msg[:300]
				}
			}
			out[start+last] = natRes{I: last, Status: "crash", Msg: msg}
			n = last + 1
		}
		if n == 0 {
			return out, fmt.Errorf("native runner: %v", err)
		}
		start += n
	}
	return out, nil
}
