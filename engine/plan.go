package main

import (
	"sort"
	"strconv"
	"strings"
)

type runSpec struct {
	pkg, fn, label string
	params         map[string]int
}

type property struct {
	set      string // extra parameters of every run
	groups   []string
	thorough []string // further groups of the thorough tier
	assume   []string
}

func (p *property) runs(tier string) (out []runSpec) {
	gs := p.groups
	if tier == "thorough" {
		gs = append(append([]string{}, gs...), p.thorough...)
	}
	seen := map[string]bool{}
	for _, g := range gs {
		extra := ""
		if i := strings.IndexByte(g, '|'); i > 0 {
			g, extra = g[:i], g[i+1:]
		}
		for _, r := range expand(g, tier) {
			name, ps := r, ""
			if i := strings.IndexByte(r, ':'); i > 0 {
				name, ps = r[:i], r[i+1:]
			}
			for _, x := range []string{extra, p.set} {
				if x != "" {
					ps = ps + "," + x
				}
			}
			pkg := "h"
			if i := strings.IndexByte(name, '.'); i > 0 {
				pkg, name = name[:i], name[i+1:]
			}
			params := parseParams(ps)
			label := name + ":" + showParams(params)
			if seen[label] {
				continue
			}
			seen[label] = true
			out = append(out, runSpec{pkg, name, label, params})
		}
	}
	return out
}

// expand is the list of runs of a group; the thorough tier takes GROUP+ as well.
func expand(g, tier string) []string {
	if _, ok := groups[g]; !ok {
		return []string{g}
	}
	out := split(groups[g])
	if tier == "thorough" {
		out = append(out, split(groups[g+"+"])...)
	}
	return out
}

func split(s string) (out []string) {
	for _, l := range strings.Fields(s) {
		out = append(out, l)
	}
	return
}

func (p *property) assumptions() []string {
	a := []string{
		"the SSA form built by golang.org/x/tools from /repo's source is what the Go compiler compiles, within the engine's instruction semantics (paths sampled and replayed on the native build)",
		"z3 answers unsat only for unsatisfiable queries",
		"inputs beyond the bounds of each run (coverage.runs[].bounds) are not covered",
	}
	return append(a, p.assume...)
}

func propertyIDs() (out []string) {
	for k := range properties {
		out = append(out, k)
	}
	sort.Strings(out)
	return
}

func itoa(k int) string { return strconv.Itoa(k) }

func showParams(m map[string]int) string {
	var ks []string
	for k, v := range m {
		ks = append(ks, k+"="+itoa(v))
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}
