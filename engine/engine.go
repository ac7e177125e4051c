package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type PathRec struct {
	Inputs map[string]string `json:"inputs"`
	Obs    string            `json:"obs"`
	Status string            `json:"status"` // ok | assert | panic
}

type Harness struct {
	name   string
	fn     *ssa.Function
	params map[string]int

	mu        sync.Mutex
	paths     int
	okPaths   int
	infeas    int
	unsup     map[string]int
	budget    map[string]int
	unknown   map[string]int
	panics    int
	asserts   int
	discharge int
	viols     []Violation
	violKey   map[string]int
	recs      []PathRec
	cands     []PathRec // paths the engine could not decide
	reached   map[string]int
	pending   int
	left      int
	maxDepth  int
	steps     int64
	cpu       time.Duration
	budgetT   time.Duration // worker time; 0 = no limit of its own
	label     string
}

type item struct {
	h *Harness
	w Work
}

type Engine struct {
	prog          *ssa.Program
	pkgs          map[string]*ssa.Package
	solverBin     string
	solverTimeout int
	maxSteps      int64
	maxRecs       int
	maxPaths      int
	deadline      time.Time
	stopAt        atomic.Int64
	linger        time.Duration // how long to go on after a candidate
	rtErrType     types.Type

	mu      sync.Mutex
	cond    *sync.Cond
	stack   []item
	active  int
	stopped bool

	funcs                       sync.Map
	Queries, NSat, NUnsat, NUnk int
	SolverTime                  time.Duration
	SolverMax                   time.Duration
	SolverErr                   string
	cur                         *Harness // only via M
}

func LoadEngine(dir string, patterns []string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	t0 := time.Now()
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if nerr < 10 {
				fmt.Fprintln(os.Stderr, "load:", e)
			}
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d load errors", nerr)
	}
	t1 := time.Now()
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	if os.Getenv("ENGINE_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "load", t1.Sub(t0), "ssa", time.Since(t1))
	}
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, solverBin: "z3-new", solverTimeout: 20000, linger: 8 * time.Second, maxSteps: 3000000, maxRecs: 400, maxPaths: 1 << 30}
	e.cond = sync.NewCond(&e.mu)
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	// runtime errors are values of an error type; use a named string type from the harness
	if p := e.pkgs["vh/sym"]; p != nil {
		e.rtErrType = p.Type("RuntimeError").Type()
	}
	return e, nil
}

func (e *Engine) pkg(path string) *ssa.Package { return e.pkgs[path] }

func (e *Engine) findFunc(full string) *ssa.Function {
	i := strings.LastIndexByte(full, '.')
	p := e.pkgs[full[:i]]
	if p == nil {
		return nil
	}
	return p.Func(full[i+1:])
}

func (e *Engine) sawFunc(fn *ssa.Function) { e.funcs.Store(fn.String(), fnPkgPath(fn)) }

func fnPkgPath(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Parent() != nil {
		return fnPkgPath(fn.Parent())
	}
	return ""
}

func (e *Engine) expired() bool {
	if time.Now().After(e.deadline) {
		return true
	}
	s := e.stopAt.Load()
	return s != 0 && time.Now().UnixNano() > s
}

// Run explores all harnesses to exhaustion or deadline.
func (e *Engine) Run(hs []*Harness, workers int) {
	e.Start(hs)
	e.Resume(workers)
	e.Finish()
}

// Start queues the harnesses.
func (e *Engine) Start(hs []*Harness) {
	for i := len(hs) - 1; i >= 0; i-- {
		h := hs[i]
		h.unsup, h.budget, h.unknown = map[string]int{}, map[string]int{}, map[string]int{}
		h.violKey, h.reached = map[string]int{}, map[string]int{}
		e.stack = append(e.stack, item{h, Work{nil, NewModel()}})
		h.pending = 1
	}
}

// Resume explores until nothing is left, the deadline, or a while after the
// first candidate violation.
func (e *Engine) Resume(workers int) {
	e.stopped = false
	e.stopAt.Store(0)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
}

// Finish counts what was not explored.
func (e *Engine) Finish() {
	for _, it := range e.stack {
		it.h.left++
	}
}

func (e *Engine) worker() {
	we := &Worker{e: e}
	m := NewM(e)
	m.w = we
	defer func() {
		e.mu.Lock()
		e.Queries += m.sol.Queries
		e.NSat += m.sol.NSat
		e.NUnsat += m.sol.NUnsat
		e.NUnk += m.sol.NUnk
		e.SolverTime += m.sol.Time
		if m.sol.MaxTime > e.SolverMax {
			e.SolverMax = m.sol.MaxTime
		}
		if m.sol.err != nil {
			e.SolverErr = m.sol.err.Error()
		}
		e.mu.Unlock()
		m.sol.Close()
	}()
	for {
		e.mu.Lock()
		for len(e.stack) == 0 && e.active > 0 && !e.stopped {
			e.cond.Wait()
		}
		if len(e.stack) == 0 || e.stopped || e.expired() {
			e.stopped = e.stopped || e.expired()
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		it := e.stack[len(e.stack)-1]
		e.stack = e.stack[:len(e.stack)-1]
		if it.h.budgetT > 0 && it.h.cpu > it.h.budgetT {
			it.h.left++
			e.mu.Unlock()
			continue
		}
		e.active++
		e.mu.Unlock()
		m.h = it.h
		t0 := time.Now()
		m.runPath(it.w)
		el := time.Since(t0)
		if m.tb.n > 3000000 { // bound term table growth
			m = m.fresh()
		}
		e.mu.Lock()
		it.h.cpu += el
		e.active--
		e.cond.Broadcast()
		e.mu.Unlock()
	}
}

type Worker struct{ e *Engine }

func (m *M) fresh() *M {
	e := m.eng
	e.mu.Lock()
	e.Queries += m.sol.Queries
	e.NSat += m.sol.NSat
	e.NUnsat += m.sol.NUnsat
	e.NUnk += m.sol.NUnk
	e.SolverTime += m.sol.Time
	e.mu.Unlock()
	m.sol.Queries, m.sol.NSat, m.sol.NUnsat, m.sol.NUnk, m.sol.Time = 0, 0, 0, 0, 0
	m.sol.Close()
	n := NewM(e)
	n.w = m.w
	return n
}

func (m *M) push(w Work) {
	e := m.eng
	e.mu.Lock()
	e.stack = append(e.stack, item{m.h, w})
	e.mu.Unlock()
	e.cond.Signal()
}

func (m *M) note(kind, msg string) {
	h := m.h
	h.mu.Lock()
	defer h.mu.Unlock()
	switch kind {
	case "unknown":
		h.unknown[msg]++
	case "budget":
		h.budget[msg]++
	default:
		h.unsup[msg]++
	}
}

func (m *M) violation(v Violation) {
	h := m.h
	h.mu.Lock()
	defer h.mu.Unlock()
	k := v.Kind + ":" + v.Msg
	h.violKey[k]++
	if h.violKey[k] <= 3 && len(h.viols) < 60 {
		h.viols = append(h.viols, v)
		if m.eng.stopAt.Load() == 0 {
			m.eng.stopAt.Store(time.Now().Add(m.eng.linger).UnixNano())
		}
	}
}

func (m *M) runPath(w Work) {
	h := m.h
	m.prefix, m.pos, m.trace = w.prefix, 0, nil
	m.setModel(w.model)
	m.facts = map[*Term]bool{}
	m.conc = map[*Term]uint64{}
	m.abnd = map[*Term]bnd{}
	m.lbnd = map[string]bnd{}
	m.inputs = nil
	m.obs = nil
	m.obsBad = false
	m.steps = 0
	m.callDepth = 0
	m.nAssert = 0
	m.mapRev = false
	m.curFn = nil
	m.recoverFr = nil
	m.sol.BeginPath()
	m.trailOn = true
	m.epoch++
	m.maxSteps = m.eng.maxSteps
	if k := h.params["steps"]; k > 0 { // millions
		m.maxSteps = int64(k) * 1000000
	}
	status := "ok"
	msg := ""
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch p := r.(type) {
				case pathAbort:
					switch p.kind {
					case abInfeasible:
						status = "infeasible"
					case abUnsupported:
						status, msg = "unsupported", p.msg+" @ "+m.where()
					case abBudget:
						status, msg = "budget", p.msg
					case abUnknown:
						status, msg = "unknown", p.msg
					case abDone:
						status = "done"
					}
				case targetPanic:
					status, msg = "panic", p.msg
				default:
					status, msg = "unsupported", fmt.Sprintf("engine: %v @ %s", r, m.where())
					if os.Getenv("ENGINE_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, msg, string(debug.Stack()))
					}
				}
			}
		}()
		m.call(h.fn, nil, nil)
	}()
	if status == "panic" {
		m.violation(Violation{Harness: h.name, Kind: "panic", Msg: msg, Inputs: m.inputsOf(m.model), Where: m.where()})
	}
	if status == "budget" && strings.HasPrefix(msg, "step budget") {
		// possible non-termination: let the native replay decide
		m.violation(Violation{Harness: h.name, Kind: "budget", Msg: msg, Inputs: m.inputsOf(m.model)})
	}
	if status == "unsupported" || status == "unknown" {
		m.candidates(status)
	}
	var rec *PathRec
	if status == "ok" {
		h.mu.Lock()
		want := len(h.recs) < m.eng.maxRecs
		h.mu.Unlock()
		if want {
			func() {
				defer func() {
					if r := recover(); r != nil {
						rec = nil
					}
				}()
				var sb strings.Builder
				for _, o := range m.obs {
					sb.WriteString(m.evalStr(m.ev, o))
					sb.WriteByte('\n')
				}
				rec = &PathRec{Inputs: m.inputsOf(m.model), Obs: sb.String(), Status: "ok"}
			}()
		}
	}
	h.mu.Lock()
	h.paths++
	h.asserts += m.nAssert
	h.steps += m.steps
	if len(m.trace) > h.maxDepth {
		h.maxDepth = len(m.trace)
	}
	switch status {
	case "ok":
		h.okPaths++
		if rec != nil {
			h.recs = append(h.recs, *rec)
		}
	case "infeasible":
		h.infeas++
	case "unsupported":
		h.unsup[msg]++
	case "budget":
		h.budget[msg]++
	case "unknown":
		h.unknown[msg]++
	case "panic":
		h.panics++
	}
	over := h.paths > m.eng.maxPaths
	h.mu.Unlock()
	if over {
		m.eng.mu.Lock()
		var keep []item
		for _, it := range m.eng.stack {
			if it.h == h {
				h.left++
			} else {
				keep = append(keep, it)
			}
		}
		m.eng.stack = keep
		m.eng.mu.Unlock()
	}
	m.trailOn = false
	m.rollback()
	m.model, m.ev = nil, nil
}

func sortedCounts(mm map[string]int) []string {
	var out []string
	for k, v := range mm {
		out = append(out, fmt.Sprintf("%dx %s", v, k))
	}
	sort.Strings(out)
	return out
}

// candidates keeps inputs of a path that is not decided here, for the native
// build: the current model, and for the first paths a few others the solver
// finds around arbitrary values.
func (m *M) candidates(status string) {
	h := m.h
	h.mu.Lock()
	n := len(h.cands)
	h.mu.Unlock()
	if n >= 200 {
		return
	}
	add := func(md *Model) {
		in := m.inputsOf(md)
		h.mu.Lock()
		h.cands = append(h.cands, PathRec{Inputs: in, Status: status})
		h.mu.Unlock()
	}
	add(m.model)
	if n > 60 {
		return
	}
	defer func() { _ = recover() }()
	e := &evaluator{m: m.model, memo: map[*Term]uint64{}}
	seed := uint64(88172645463325252)
	for k := 0; k < 3; k++ {
		var eqs []*Term
		put := func(t *Term) {
			if t.isConst() || t.w == wFP {
				return
			}
			seed ^= seed << 13
			seed ^= seed >> 7
			seed ^= seed << 17
			if t.w == 0 {
				return
			}
			eqs = append(eqs, m.tb.Eq(t, m.tb.Const(t.w, (seed>>20)&mask(t.w))))
		}
		for _, in := range m.inputs {
			if in.kind != "bytes" {
				put(in.t)
				continue
			}
			for i := uint64(0); i < e.eval(in.n) && i < 64; i++ {
				put(m.cread(in.arr, m.tb.Const(64, i)))
			}
		}
		c, md := m.tb.True, (*Model)(nil)
		var try func(l []*Term)
		try = func(l []*Term) {
			if len(l) == 0 {
				return
			}
			d := c
			for _, x := range l {
				d = m.tb.And(d, x)
			}
			if r, got := m.check(d, "variant"); r == Sat {
				c, md = d, got
				return
			}
			if len(l) > 1 {
				try(l[:len(l)/2])
				try(l[len(l)/2:])
			}
		}
		try(eqs)
		if md != nil {
			add(md)
		}
	}
}
