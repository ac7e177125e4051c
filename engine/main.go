package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: engine run|check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		devRun(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

func parseParams(s string) map[string]int {
	out := map[string]int{}
	for _, kv := range strings.Split(s, ",") {
		if i := strings.IndexByte(kv, '='); i > 0 {
			v, err := strconv.Atoi(kv[i+1:])
			if err != nil {
				panic(err)
			}
			out[kv[:i]] = v
		}
	}
	return out
}

// devRun explores single harnesses, for development.
func devRun(args []string) {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	pkg := fs.String("pkg", "h", "harness package")
	secs := fs.Int("t", 60, "seconds")
	workers := fs.Int("j", 8, "workers")
	recs := fs.Int("recs", 100, "path records")
	verbose := fs.Bool("v", false, "print records")
	dir := fs.String("dir", "/verif/harness", "")
	cpu := fs.String("prof", "", "CPU profile")
	if err := fs.Parse(args); err != nil {
		os.Exit(2)
	}
	if *cpu != "" {
		f, _ := os.Create(*cpu)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	native := make(chan error, 1)
	tmp, _ := os.MkdirTemp("", "vh")
	defer os.RemoveAll(tmp)
	go func() { native <- buildNative(*dir, tmp+"/native") }()
	e, err := LoadEngine(*dir, []string{"vh/" + *pkg})
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	e.maxRecs = *recs
	e.deadline = time.Now().Add(time.Duration(*secs) * time.Second)
	var hs []*Harness
	for _, a := range fs.Args() {
		name, ps := a, ""
		if i := strings.IndexByte(a, ':'); i > 0 {
			name, ps = a[:i], a[i+1:]
		}
		fn := e.findFunc("vh/" + *pkg + "." + name)
		if fn == nil {
			fmt.Println("no function", name)
			os.Exit(2)
		}
		hs = append(hs, &Harness{name: *pkg + "." + name, label: a, fn: fn, params: parseParams(ps)})
	}
	t0 := time.Now()
	e.Run(hs, *workers)
	fmt.Printf("explored in %v; queries %d sat %d unsat %d unk %d; solver %v max %v %s\n", time.Since(t0).Round(time.Millisecond), e.Queries, e.NSat, e.NUnsat, e.NUnk, e.SolverTime.Round(time.Millisecond), e.SolverMax.Round(time.Millisecond), e.SolverErr)
	if err := <-native; err != nil {
		fmt.Println("native build:", err)
	}
	if profOn {
		type pe struct {
			k    string
			n, t int64
		}
		var ps []pe
		prof.Range(func(k, v any) bool {
			p := v.(*[2]int64)
			ps = append(ps, pe{k.(string), p[0], p[1]})
			return true
		})
		sort.Slice(ps, func(i, j int) bool { return ps[i].t > ps[j].t })
		for i, p := range ps {
			if i < 25 {
				fmt.Printf("%8d %10v %s\n", p.n, time.Duration(p.t).Round(time.Millisecond), p.k)
			}
		}
	}
	for _, h := range hs {
		fmt.Printf("%s: paths %d ok %d infeas %d left %d asserts %d discharged %d depth %d steps %d cpu %v reached %v\n", h.label, h.paths, h.okPaths, h.infeas, h.left, h.asserts, h.discharge, h.maxDepth, h.steps, h.cpu.Round(time.Millisecond), h.reached)
		for _, l := range sortedCounts(h.unsup) {
			fmt.Println("  unsupported:", l)
		}
		for _, l := range sortedCounts(h.unknown) {
			fmt.Println("  unknown:", l)
		}
		for _, l := range sortedCounts(h.budget) {
			fmt.Println("  budget:", l)
		}
		res, err := runNative(tmp, h, casesOfViols(h))
		if err != nil {
			fmt.Println("  native:", err)
		}
		for i, v := range h.viols {
			fmt.Printf("  VIOL %s %q %v @ %s -> native %s %q\n", v.Kind, v.Msg, v.Inputs, v.Where, res[i].Status, res[i].Msg)
			if *verbose {
				fmt.Println(res[i].Obs)
			}
		}
		res, err = runNative(tmp, h, casesOfRecs(h))
		if err != nil {
			fmt.Println("  native:", err)
		}
		bad := 0
		for i, r := range h.recs {
			if res[i].Status != "ok" || res[i].Obs != r.Obs {
				bad++
				if bad <= 3 {
					fmt.Printf("  MISMATCH %v native %s %q\n--- engine\n%s--- native\n%s", r.Inputs, res[i].Status, res[i].Msg, r.Obs, res[i].Obs)
				}
			} else if *verbose && i < 5 {
				fmt.Printf("  rec %v\n%s", r.Inputs, r.Obs)
			}
		}
		fmt.Printf("  validated %d of %d records\n", len(h.recs)-bad, len(h.recs))
	}
}
