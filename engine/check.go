package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// replayFile is a reported violation: enough to run it again.
type replayFile struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Params   map[string]int    `json:"params"`
	Inputs   map[string]string `json:"inputs"`
	Engine   string            `json:"engine"`
	Native   string            `json:"native"`
	Msg      string            `json:"msg"`
	Observed string            `json:"observed"`
}

func bad(status string) bool {
	return status == "assert" || status == "panic" || status == "crash" || status == "timeout"
}

type found struct {
	h   *Harness
	in  map[string]string
	eng string
	res natRes
}

// check decides one property.
func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("property", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	dir := fs.String("dir", "/verif/harness", "harness module")
	out := fs.String("out", "/verif/evidence", "evidence directory")
	workers := fs.Int("j", 8, "workers")
	verbose := fs.Bool("v", false, "print every run")
	secs := fs.Int("t", 0, "time limit of the exploration")
	if err := fs.Parse(args); err != nil {
		return 2
	}
	t0 := time.Now()
	p, ok := properties[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property")
		return 2
	}
	runs := p.runs(*tier)
	tmp, err := os.MkdirTemp("", "vh")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	native := make(chan error, 1)
	go func() { native <- buildNative(*dir, tmp+"/native") }()
	pkgs := map[string]bool{}
	for _, r := range runs {
		pkgs["vh/"+r.pkg] = true
	}
	var pats []string
	for k := range pkgs {
		pats = append(pats, k)
	}
	sort.Strings(pats)
	e, err := LoadEngine(*dir, pats)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	loadT := time.Since(t0)
	limit := 240 * time.Second
	e.maxRecs = 120
	if *tier == "thorough" {
		limit = 780 * time.Second
		e.maxRecs = 400
	}
	if *secs > 0 {
		limit = time.Duration(*secs) * time.Second
	}
	e.deadline = time.Now().Add(limit)
	var hs []*Harness
	for _, r := range runs {
		fn := e.findFunc("vh/" + r.pkg + "." + r.fn)
		if fn == nil {
			fmt.Fprintln(os.Stderr, "no harness", r.fn)
			return 2
		}
		hs = append(hs, &Harness{name: r.pkg + "." + r.fn, label: r.label, fn: fn, params: r.params})
	}
	if err := <-native; err != nil {
		fmt.Fprintln(os.Stderr, "native build:", err)
		return 2
	}
	e.Start(hs)
	var hits []found
	spurious := 0
	done := map[*Harness]int{}
	for {
		t1 := time.Now()
		e.Resume(*workers)
		again := false
		for _, h := range hs {
			vs := h.viols[done[h]:]
			if len(vs) == 0 {
				continue
			}
			var jobs []natJob
			for _, v := range vs {
				jobs = append(jobs, natJob{h.name, h.params, v.Inputs})
			}
			done[h] = len(h.viols)
			res, err := runNative(tmp, h, jobs)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
			for i, r := range res {
				if bad(r.Status) {
					hits = append(hits, found{h, vs[i].Inputs, vs[i].Kind + ": " + vs[i].Msg, r})
				} else {
					spurious++
					again = true
					fmt.Fprintf(os.Stderr, "note: not reproduced natively: %s %s %q %v -> %s\n", h.label, vs[i].Kind, vs[i].Msg, vs[i].Inputs, r.Status)
				}
			}
		}
		if len(hits) > 0 || !again || time.Now().After(e.deadline) || time.Since(t1) < time.Millisecond || len(e.stack) == 0 {
			break
		}
	}
	e.Finish()
	exploreT := time.Since(t0) - loadT
	// validate: a sample of the paths, and every path that could not be
	// decided, runs on the real build
	validated, mismatch := 0, 0
	undecided := 0
	var samples []any
	for _, h := range hs {
		res, err := runNative(tmp, h, casesOfRecs(h))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		for i, r := range res {
			switch {
			case r.Status == "ok" && r.Obs == h.recs[i].Obs:
				validated++
			case bad(r.Status):
				hits = append(hits, found{h, h.recs[i].Inputs, "path decided, but failing natively", r})
			default:
				mismatch++
				if mismatch <= 3 {
					fmt.Fprintf(os.Stderr, "note: engine and native build differ: %s %v %s %s\n--- engine\n%s--- native\n%s", h.label, h.recs[i].Inputs, r.Status, r.Msg, h.recs[i].Obs, r.Obs)
				}
			}
		}
		if len(h.recs) > 0 && len(samples) < 12 {
			r := h.recs[len(h.recs)/2]
			o := r.Obs
			if len(o) > 400 {
				o = o[:400]
			}
			samples = append(samples, map[string]any{"run": h.label, "inputs": r.Inputs, "observed": o})
		}
		var jobs []natJob
		for _, c := range h.cands {
			jobs = append(jobs, natJob{h.name, h.params, c.Inputs})
		}
		res, err = runNative(tmp, h, jobs)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			continue
		}
		for i, r := range res {
			undecided++
			if bad(r.Status) {
				hits = append(hits, found{h, h.cands[i].Inputs, "path not decided by the engine", r})
			}
		}
	}
	nativeT := time.Since(t0) - loadT - exploreT
	code := 0
	if err := os.MkdirAll(*out, 0o755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	seen := map[string]bool{}
	nviol := 0
	for _, f := range hits {
		k := f.h.name + f.res.Status + f.res.Msg
		if seen[k] || nviol >= 10 {
			continue
		}
		seen[k] = true
		nviol++
		code = 1
		path := filepath.Join(*out, fmt.Sprintf("%s-replay-%d.json", *prop, nviol))
		b, _ := json.MarshalIndent(replayFile{*prop, f.h.name, f.h.params, f.in, f.eng, f.res.Status, f.res.Msg, f.res.Obs}, "", " ")
		_ = os.WriteFile(path, b, 0o644)
		msg := f.res.Msg
		if i := strings.IndexByte(msg, '\n'); i > 0 {
			msg = msg[:i]
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		fmt.Printf("  %s %v: %s %s\n", f.h.label, f.in, f.res.Status, msg)
	}
	writeEvidence(*out, *prop, *tier, p, e, hs, nviol, spurious, validated, mismatch, undecided, samples, t0, loadT, exploreT, nativeT)
	tot := struct{ paths, left, unsup, unk, bud int }{}
	for _, h := range hs {
		tot.paths += h.paths
		tot.left += h.left
		tot.unsup += sum(h.unsup)
		tot.unk += sum(h.unknown)
		tot.bud += sum(h.budget)
		if h.okPaths == 0 && h.left == 0 && nviol == 0 {
			fmt.Printf("WARNING: %s is vacuous\n", h.label)
		}
		if *verbose || h.left > 0 || len(h.unsup)+len(h.unknown)+len(h.budget) > 0 {
			fmt.Printf("%s: paths %d infeasible %d left %d asserts %d discharged %d cpu %v %v %v %v %v\n", h.label, h.paths, h.infeas, h.left, h.asserts, h.discharge, h.cpu.Round(time.Millisecond), h.reached, sortedCounts(h.unsup), sortedCounts(h.unknown), sortedCounts(h.budget))
		}
	}
	fmt.Printf("property %s tier %s: %d runs, %d paths, %d queries (%d sat, %d unsat, %d unknown), solver %v, validated %d (differ %d), undecided %d, left %d, violations %d; load %v explore %v native %v\n", *prop, *tier, len(hs), tot.paths, e.Queries, e.NSat, e.NUnsat, e.NUnk, e.SolverTime.Round(time.Millisecond), validated, mismatch, tot.unsup+tot.unk+tot.bud, tot.left, nviol, loadT.Round(time.Millisecond), exploreT.Round(time.Millisecond), nativeT.Round(time.Millisecond))
	return code
}

func sum(m map[string]int) (n int) {
	for _, v := range m {
		n += v
	}
	return
}

func writeEvidence(out, prop, tier string, p *property, e *Engine, hs []*Harness, nviol, spurious, validated, mismatch, undecided int, samples []any, t0 time.Time, loadT, exploreT, nativeT time.Duration) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var funcs []string
	others := 0
	e.funcs.Range(func(k, v any) bool {
		if strings.HasPrefix(v.(string), "github.com/spiegel-im-spiegel/gpgpdump") {
			funcs = append(funcs, k.(string))
		} else {
			others++
		}
		return true
	})
	sort.Strings(funcs)
	var runs []any
	var paths, asserts, discharged, left, und, depth int
	var steps int64
	for _, h := range hs {
		paths += h.paths
		asserts += h.asserts
		discharged += h.discharge
		steps += h.steps
		left += h.left
		und += sum(h.unsup) + sum(h.unknown) + sum(h.budget)
		if h.maxDepth > depth {
			depth = h.maxDepth
		}
		runs = append(runs, map[string]any{
			"run": h.label, "bounds": h.params, "paths": h.paths, "infeasible": h.infeas, "reached": h.reached,
			"assertions": h.asserts, "discharged_by_solver": h.discharge, "steps": h.steps, "longest_path_decisions": h.maxDepth, "cpu_s": h.cpu.Seconds(),
			"left": h.left, "unsupported": h.unsup, "unknown": h.unknown, "budget": h.budget,
		})
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"coverage": map[string]any{
			"states": paths, "transitions": steps, "traces_validated_against_impl": validated, "depth": depth,
			"exhausted_within_bounds": left == 0 && und == 0 && mismatch == 0,
			"paths_left":              left, "paths_undecided": und, "undecided_run_natively": undecided, "records_differing_from_native": mismatch, "candidates_not_reproduced": spurious,
			"assertions": asserts, "assertions_needing_the_solver": discharged,
			"queries": e.Queries, "queries_sat": e.NSat, "queries_unsat": e.NUnsat, "queries_unknown": e.NUnk, "solver_s": e.SolverTime.Seconds(), "solver_max_s": e.SolverMax.Seconds(), "solver_error": e.SolverErr,
			"functions_encoded": funcs, "library_functions_encoded": others, "runs": runs, "samples": samples,
			"load_s": loadT.Seconds(), "explore_s": exploreT.Seconds(), "native_s": nativeT.Seconds(),
		},
		"assumptions": p.assumptions(),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(out, prop+".json"), append(b, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// replay runs one reported violation again on the current tree.
func replay(args []string) int {
	if len(args) != 1 {
		fmt.Fprintln(os.Stderr, "usage: engine replay FILE")
		return 2
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "vh")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	if err := buildNative("/verif/harness", tmp+"/native"); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	_ = os.Setenv("NATIVE_TRACE", "1")
	res, err := runNative(tmp, nil, []natJob{{r.Harness, r.Params, r.Inputs}})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s %v: %s %s\n%s", r.Harness, r.Inputs, res[0].Status, res[0].Msg, res[0].Obs)
	if bad(res[0].Status) {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, args[0])
		return 1
	}
	return 0
}
