package main

// SMT solver process: one long-lived incremental QF_BV session driven with
// check-sat-assuming. Array reads (Select) are eliminated by Ackermann
// constraints, which are asserted once, globally.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func (r Res) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type SolverStats struct {
	Queries    int
	Sat        int
	Unsat      int
	Unknown    int
	Restarts   int
	Hits       int
	Lia, LiaOK int
	BadModels  int
	Time       time.Duration
	MaxTime    time.Duration
}

type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	emitted map[*Term]bool
	lits    map[*Term]string
	sels    map[string][]*Term
	pend    []*Term // ackermann axioms waiting to be asserted
	defs    int
	Timeout time.Duration
	Stats   SolverStats
	log     *os.File
	alt     *Solver
	ints    *Solver
	skip    int // queries to send straight to the non-incremental solver
	pen     int
	cache   map[string]cacheEnt
}

func NewSolver(ctx *Ctx) *Solver {
	s := &Solver{ctx: ctx, Timeout: 20 * time.Second}
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" {
		s.log, _ = os.Create(p)
	}
	return s
}

var freshOnly = os.Getenv("GOSYM_INCR") == ""

var solverBin = func() string {
	for _, n := range []string{os.Getenv("GOSYM_SOLVER"), "z3-new", "z3"} {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}
	return "z3"
}()

func (s *Solver) start() {
	s.Close()
	s.cmd = exec.Command(solverBin, "-in", "-smt2")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.emitted = map[*Term]bool{}
	s.lits = map[*Term]string{}
	s.sels = map[string][]*Term{}
	s.pend = nil
	s.defs = 0
	s.put("(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
	s.put("(set-option :timeout 500)\n")
}

func (s *Solver) Close() {
	if s.alt != nil {
		s.alt.Close()
		s.alt = nil
	}
	if s.ints != nil {
		s.ints.Close()
		s.ints = nil
	}
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) put(x string) {
	s.in.WriteString(x)
	if s.log != nil {
		s.log.WriteString(x)
	}
}

func sortOf(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constStr(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v)
	}
	return fmt.Sprintf("#b%0*b", int(w), v)
}

func (s *Solver) ref(t *Term) string {
	if t.op == OpConst {
		return constStr(t.c, t.w)
	}
	return "t" + strconv.Itoa(t.id)
}

func (s *Solver) emit(t *Term) {
	if t.op == OpConst || s.emitted[t] {
		return
	}
	for _, a := range t.args {
		s.emit(a)
	}
	s.emitted[t] = true
	s.defs++
	switch t.op {
	case OpVar:
		s.put("(declare-const " + s.ref(t) + " " + sortOf(t.w) + ")\n")
		return
	case OpSelect:
		s.put("(declare-const " + s.ref(t) + " " + sortOf(t.w) + ")\n")
		for _, o := range s.sels[t.name] {
			ax := s.ctx.Implies(s.ctx.Eq(t.args[0], o.args[0]), s.ctx.Eq(t, o))
			if !ax.IsConst() {
				s.pend = append(s.pend, ax)
			}
		}
		s.sels[t.name] = append(s.sels[t.name], t)
		return
	}
	var sb strings.Builder
	sb.WriteString("(define-fun " + s.ref(t) + " () " + sortOf(t.w) + " ")
	switch t.op {
	case OpLin:
		// build nested sum
		var parts []string
		m := mask(t.w)
		for i, a := range t.args {
			k := t.coefs[i]
			switch {
			case k == 1:
				parts = append(parts, s.ref(a))
			case k == m:
				parts = append(parts, "(bvneg "+s.ref(a)+")")
			case k&(k-1) == 0:
				n := 0
				for k>>n != 1 {
					n++
				}
				parts = append(parts, "(bvshl "+s.ref(a)+" "+constStr(uint64(n), t.w)+")")
			default:
				parts = append(parts, "(bvmul "+s.ref(a)+" "+constStr(k, t.w)+")")
			}
		}
		if t.c != 0 {
			parts = append(parts, constStr(t.c, t.w))
		}
		x := parts[0]
		for _, p := range parts[1:] {
			x = "(bvadd " + x + " " + p + ")"
		}
		sb.WriteString(x)
	case OpZExt:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
	case OpSExt:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.args[0].w, s.ref(t.args[0]))
	case OpExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", uint64(t.w)+t.c-1, t.c, s.ref(t.args[0]))
	default:
		sb.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			sb.WriteString(" " + s.ref(a))
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
	s.put(sb.String())
}

func (s *Solver) lit(t *Term) string {
	if t.op == OpNot {
		return "(not " + s.lit(t.args[0]) + ")"
	}
	if l, ok := s.lits[t]; ok {
		return l
	}
	s.emit(t)
	var l string
	if t.op == OpVar {
		l = s.ref(t)
	} else {
		l = "p" + strconv.Itoa(t.id)
		s.put("(declare-const " + l + " Bool)\n(assert (= " + l + " " + s.ref(t) + "))\n")
	}
	s.lits[t] = l
	return l
}

func (s *Solver) flushAx() {
	for len(s.pend) > 0 {
		ax := s.pend[len(s.pend)-1]
		s.pend = s.pend[:len(s.pend)-1]
		s.emit(ax)
		s.put("(assert " + s.ref(ax) + ")\n")
	}
}

// Check decides pc ∧ extra. On Sat a model over all atoms is returned if wantModel.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (Res, *Model) {
	if extra != nil && extra.IsConst() {
		if extra.c == 0 {
			return Unsat, nil
		}
		extra = nil
	}
	s.Stats.Queries++
	if s.skip > 0 || freshOnly {
		s.skip--
		r, m := s.fresh(pc, extra, wantModel)
		if r != Unknown {
			s.count(r)
			return r, m
		}
	}
	if s.cmd == nil || s.defs > 60000 {
		if s.cmd != nil {
			s.Stats.Restarts++
		}
		s.start()
	}
	var sb strings.Builder
	sb.WriteString("(check-sat-assuming (")
	for _, p := range pc {
		sb.WriteString(s.lit(p))
		sb.WriteByte(' ')
	}
	if extra != nil {
		sb.WriteString(s.lit(extra))
	}
	sb.WriteString("))\n")
	s.flushAx()
	s.put(sb.String())
	t0 := time.Now()
	s.in.Flush()
	line := s.readLine()
	d := time.Since(t0)
	s.Stats.Time += d
	if d > s.Stats.MaxTime {
		s.Stats.MaxTime = d
	}
	var r Res
	switch line {
	case "sat":
		r = Sat
		s.pen = 0
	case "unsat":
		r = Unsat
		s.pen = 0
	default:
		r = Unknown
		if os.Getenv("GOSYM_DEBUG") != "" && line != "unknown" || strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", line)
		}
		if line != "unknown" {
			s.start() // error: restart from scratch
		}
		s.pen = min(2*s.pen+2, 64)
		s.skip = s.pen
		r2, m := s.fresh(pc, extra, wantModel)
		if r2 == Unknown {
			r2, m = s.fallback(pc, extra, wantModel)
		}
		s.count(r2)
		return r2, m
	}
	s.count(r)
	if r != Sat || !wantModel {
		return r, nil
	}
	return r, s.model(pc, extra)
}

func (s *Solver) count(r Res) {
	switch r {
	case Sat:
		s.Stats.Sat++
	case Unsat:
		s.Stats.Unsat++
	default:
		s.Stats.Unknown++
	}
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "eof"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *Solver) atoms(pc []*Term, extra *Term) []*Term {
	seen := map[*Term]bool{}
	var atoms []*Term
	add := func(t *Term) {
		for _, a := range s.ctx.Atoms(t) {
			if !seen[a] {
				seen[a] = true
				atoms = append(atoms, a)
			}
		}
	}
	for _, p := range pc {
		add(p)
	}
	if extra != nil {
		add(extra)
	}
	return atoms
}

func (s *Solver) model(pc []*Term, extra *Term) *Model {
	atoms := s.atoms(pc, extra)
	m := NewModel()
	if len(atoms) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, a := range atoms {
		sb.WriteString(s.ref(a) + " ")
	}
	sb.WriteString("))\n")
	t0 := time.Now()
	s.put(sb.String())
	s.in.Flush()
	txt := s.readSexp()
	if txt == "" {
		return nil
	}
	s.Stats.Time += time.Since(t0)
	vals := parseValues(txt)
	return s.fillModel(m, atoms, vals)
}

// readSexp reads one balanced response: ((t1 #x..) (t2 true) ...)
func (s *Solver) readSexp() string {
	depth := 0
	var txt strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return ""
		}
		txt.WriteString(l)
		for _, ch := range l {
			if ch == '(' {
				depth++
			} else if ch == ')' {
				depth--
			}
		}
		if depth <= 0 && strings.TrimSpace(txt.String()) != "" {
			return txt.String()
		}
	}
}

func (s *Solver) fillModel(m *Model, atoms []*Term, vals map[string]uint64) *Model {
	// variables first, then selects (index evaluation may need inner selects: Atoms order is inner-first)
	for _, a := range atoms {
		if a.op == OpVar {
			m.vars[a.name] = vals[s.ref(a)]
		}
	}
	for _, a := range atoms {
		if a.op == OpSelect {
			i := m.Eval(a.args[0])
			if m.sel[a.name] == nil {
				m.sel[a.name] = map[uint64]uint64{}
			}
			m.sel[a.name][i] = vals[s.ref(a)]
		}
	}
	m.memo = map[*Term]uint64{}
	return m
}

func parseValues(t string) map[string]uint64 {
	vals := map[string]uint64{}
	f := strings.FieldsFunc(t, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' })
	for i := 0; i+1 < len(f); i += 2 {
		v := f[i+1]
		switch {
		case v == "true":
			vals[f[i]] = 1
		case v == "false":
			vals[f[i]] = 0
		case strings.HasPrefix(v, "#x"):
			n, _ := strconv.ParseUint(v[2:], 16, 64)
			vals[f[i]] = n
		case strings.HasPrefix(v, "#b"):
			n, _ := strconv.ParseUint(v[2:], 2, 64)
			vals[f[i]] = n
		}
	}
	return vals
}

// script renders the query for a non-incremental run.
func (s *Solver) script(pc []*Term, extra *Term, wantModel bool, b *strings.Builder) []*Term {
	f := &Solver{ctx: s.ctx, emitted: map[*Term]bool{}, lits: map[*Term]string{}, sels: map[string][]*Term{}}
	f.in = bufio.NewWriter(b)
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		f.emit(t)
		f.put("(assert " + f.ref(t) + ")\n")
	}
	f.flushAx()
	f.put("(check-sat)\n")
	f.in.Flush()
	var atoms []*Term
	if wantModel {
		atoms = s.atoms(pc, extra)
	}
	return atoms
}

func getValue(s *Solver, atoms []*Term, b *strings.Builder) {
	if len(atoms) == 0 {
		return
	}
	b.WriteString("(get-value (")
	for _, a := range atoms {
		b.WriteString(s.ref(a) + " ")
	}
	b.WriteString("))\n")
}

// fresh decides the query in a second solver process that is reset between
// queries, so that the full preprocessing pipeline applies.
func (s *Solver) fresh(pc []*Term, extra *Term, wantModel bool) (Res, *Model) {
	if s.alt == nil {
		s.alt = &Solver{ctx: s.ctx, Timeout: s.Timeout}
		s.alt.start()
	}
	a := s.alt
	var b strings.Builder
	b.WriteString("(reset)\n(set-option :produce-models true)\n")
	fmt.Fprintf(&b, "(set-option :timeout %d)\n(set-logic QF_BV)\n", s.Timeout.Milliseconds())
	atoms := s.script(pc, extra, wantModel, &b)
	t0 := time.Now()
	a.in.WriteString(b.String())
	a.in.Flush()
	line := a.readLine()
	d := time.Since(t0)
	s.Stats.Time += d
	if d > s.Stats.MaxTime {
		s.Stats.MaxTime = d
	}
	switch line {
	case "unsat":
		return Unsat, nil
	case "sat":
		if !wantModel {
			return Sat, nil
		}
		if len(atoms) == 0 {
			return Sat, NewModel()
		}
		var g strings.Builder
		getValue(s, atoms, &g)
		a.in.WriteString(g.String())
		a.in.Flush()
		txt := a.readSexp()
		return Sat, s.fillModel(NewModel(), atoms, parseValues(txt))
	}
	if line != "unknown" {
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "solver:", line)
		}
		a.Close()
		s.alt = nil
	}
	return Unknown, nil
}

// fallback: an alternative solver on the same query.
func (s *Solver) fallback(pc []*Term, extra *Term, wantModel bool) (Res, *Model) {
	p, err := exec.LookPath("cvc5")
	if err != nil {
		return Unknown, nil
	}
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n(set-logic QF_BV)\n")
	atoms := s.script(pc, extra, wantModel, &b)
	getValue(s, atoms, &b)
	cmd := exec.Command(p, "--lang=smt2", "--produce-models", "--tlimit=30000")
	cmd.Stdin = strings.NewReader(b.String())
	t0 := time.Now()
	out, _ := cmd.Output()
	s.Stats.Time += time.Since(t0)
	line, rest, _ := strings.Cut(string(out), "\n")
	switch strings.TrimSpace(line) {
	case "unsat":
		return Unsat, nil
	case "sat":
		if !wantModel {
			return Sat, nil
		}
		return Sat, s.fillModel(NewModel(), atoms, parseValues(rest))
	}
	return Unknown, nil
}
