package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one SMT solver process over a pipe.
type Solver struct {
	tb       *TB
	bin      string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inRaw    io.WriteCloser
	out      *bufio.Reader
	gen      int32
	nEmit    int
	level    int
	asserted []*Term // path constraints currently asserted (level 1)
	Queries  int
	NSat     int
	NUnsat   int
	NUnk     int
	Time     time.Duration
	MaxTime  time.Duration
	timeout  int
	declared map[string]int32
	err      error
	fp       bool // floating-point terms have appeared
}

func NewSolver(tb *TB, bin string, timeoutMs int) *Solver {
	s := &Solver{tb: tb, bin: bin, timeout: timeoutMs}
	s.start()
	return s
}

func (s *Solver) start() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
	s.gen++
	s.nEmit = 0
	s.declared = map[string]int32{}
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	var w io.Writer = in
	if d := os.Getenv("ENGINE_SMTLOG"); d != "" {
		f, _ := os.CreateTemp(d, "smt")
		w = io.MultiWriter(in, f)
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	logic := "QF_ABV"
	if s.fp {
		logic = "QF_ABVFP"
	}
	fmt.Fprintf(s.in, "(set-logic "+logic+")(set-option :print-success false)(set-option :timeout %d)(set-option :smt.phase_selection 0)\n", s.timeout)
	s.level = 0
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// BeginPath resets the assertion stack.
func (s *Solver) BeginPath() {
	if s.nEmit > 150000 {
		s.start()
	}
	if s.level > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", s.level)
		s.level = 0
	}
	s.gen++ // definitions are scoped to the path
	s.declared = map[string]int32{}
	s.in.WriteString("(push 1)\n")
	s.level = 1
	s.asserted = s.asserted[:0]
}

func (s *Solver) emit(t *Term) {
	if t.emitted == s.gen {
		return
	}
	if t.w == wFP && !s.fp {
		s.fp = true
		panic(needFP{})
	}
	switch t.op {
	case OConst, OFConst:
		return
	case OVar:
		fmt.Fprintf(s.in, "(declare-const |%s| %s)\n", t.name, sortStr(t.w))
		t.emitted = s.gen
		s.nEmit++
		return
	}
	// iterative on deep terms: recursion depth could be large for long chains
	if t.a0 != nil {
		s.emit(t.a0)
	}
	if t.a1 != nil {
		s.emit(t.a1)
	}
	if t.a2 != nil {
		s.emit(t.a2)
	}
	if t.op == OSel {
		if s.declared[t.name] != s.gen {
			s.declared[t.name] = s.gen
			fmt.Fprintf(s.in, "(declare-const |%s| (Array (_ BitVec 64) (_ BitVec 8)))\n", t.name)
		}
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, sortStr(t.w), body(t))
	t.emitted = s.gen
	s.nEmit++
}

type needFP struct{}

// define emits t's definition; the first floating-point term restarts the
// solver with a logic that has the sort.
func (s *Solver) define(t *Term) {
	if func() (again bool) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(needFP); !ok {
					panic(r)
				}
				again = true
			}
		}()
		s.emit(t)
		return false
	}() {
		s.restartPath()
		s.emit(t)
	}
}

func (s *Solver) Assert(t *Term) {
	s.define(t)
	s.asserted = append(s.asserted, t)
	fmt.Fprintf(s.in, "(assert %s)\n", ref(t))
}

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

// Check asks whether the path condition plus extra is satisfiable; with
// wantModel the model is returned.
func (s *Solver) Check(extra *Term, wantModel bool) (Result, *Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxTime {
			s.MaxTime = d
		}
	}()
	s.Queries++
	if extra != nil {
		s.define(extra)
		fmt.Fprintf(s.in, "(push 1)(assert %s)\n", ref(extra))
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	res := Unknown
	switch line {
	case "sat":
		res = Sat
		s.NSat++
	case "unsat":
		res = Unsat
		s.NUnsat++
	default:
		s.NUnk++
		if strings.HasPrefix(line, "(error") && s.err == nil {
			s.err = fmt.Errorf("solver: %s", line)
		}
		if line == "" || strings.HasPrefix(line, "(error") { // solver died, or answers are out of step
			s.restartPath()
			return Unknown, nil
		}
	}
	var m *Model
	if res == Sat && wantModel {
		m = s.model(extra)
	}
	if extra != nil {
		s.in.WriteString("(pop 1)\n")
	}
	return res, m
}

func (s *Solver) restartPath() {
	as := append([]*Term(nil), s.asserted...)
	s.start()
	s.in.WriteString("(push 1)\n")
	s.level = 1
	s.asserted = s.asserted[:0]
	for _, t := range as {
		s.Assert(t)
	}
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return ""
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		return l
	}
}

// model collects values of all variables (and array reads) occurring in the
// asserted constraints.
func (s *Solver) model(extra *Term) *Model {
	seen := map[*Term]bool{}
	var vars, sels []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == nil || !t.nvars || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OVar {
			vars = append(vars, t)
			return
		}
		if t.op == OSel {
			sels = append(sels, t)
		}
		walk(t.a0)
		walk(t.a1)
		walk(t.a2)
	}
	for _, t := range s.asserted {
		walk(t)
	}
	if extra != nil {
		walk(extra)
	}
	m := NewModel()
	if len(vars)+len(sels) == 0 {
		return m
	}
	var q []string
	for _, v := range vars {
		q = append(q, ref(v))
	}
	for _, t := range sels {
		q = append(q, ref(t.a0), ref(t))
	}
	s.in.WriteString("(get-value (" + strings.Join(q, " ") + "))\n")
	s.in.Flush()
	toks := s.readSexp()
	vals := parseGetValue(toks)
	if len(vals) != len(q) {
		if s.err == nil {
			s.err = fmt.Errorf("get-value: %d values for %d terms: %.200s", len(vals), len(q), toks)
		}
		return m
	}
	for i, v := range vars {
		m.vars[v.name] = vals[i]
	}
	k := len(vars)
	for _, t := range sels {
		a := m.arr[t.name]
		if a == nil {
			a = map[uint64]uint64{}
			m.arr[t.name] = a
		}
		a[vals[k]] = vals[k+1]
		k += 2
	}
	return m
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	inBar := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String()
		}
	}
}

// parseGetValue returns the value of each pair, in order.
func parseGetValue(s string) []uint64 {
	var out []uint64
	// tokens at depth: ((expr val) (expr val) ...)
	depth := 0
	inBar := false
	start := -1
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			if depth == 2 {
				start = i
			}
		} else if c == ')' {
			if depth == 2 {
				pair := strings.TrimSpace(s[start+1 : i])
				v, ok := lastVal(pair)
				if ok {
					out = append(out, v)
				}
			}
			depth--
		}
	}
	return out
}

func lastVal(p string) (uint64, bool) {
	if strings.HasSuffix(p, ")") { // (_ bvN w)
		j := strings.LastIndex(p, "(_ bv")
		if j < 0 {
			return 0, false
		}
		f := strings.Fields(p[j+5:])
		v, err := strconv.ParseUint(f[0], 10, 64)
		return v, err == nil
	}
	j := strings.LastIndexAny(p, " \n\t")
	x := p[j+1:]
	switch {
	case x == "true":
		return 1, true
	case x == "false":
		return 0, true
	case strings.HasPrefix(x, "#x"):
		v, err := strconv.ParseUint(x[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(x, "#b"):
		v, err := strconv.ParseUint(x[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}
