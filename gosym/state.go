package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow signals inside the engine ----

type forkAbort struct{}                  // path infeasible
type unsupportedErr struct{ why string } // construct outside the encoder
type limitErr struct {                   // budget exhausted
	why  string
	hang bool // the path may never end
}
type goPanic struct{ val Value }  // Go-level panic raised by an instruction
type blockSig struct{}            // current goroutine blocks; retry instruction later
type pathEnd struct{ why string } // path finished (assume false, exit)

func (s *State) unsupported(f string, a ...any) {
	panic(unsupportedErr{fmt.Sprintf(f, a...) + " at " + s.where()})
}

// ---- frames / goroutines ----

type deferRec struct {
	fn   Value // FuncV
	args []Value
	blt  *ssa.Builtin
	inv  *ssa.CallCommon
}

type Frame struct {
	fi       *FuncInfo
	regs     []Value
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	pc       int
	defers   []deferRec
	retReg   int // register in the caller frame receiving the result (-1 none)
	result   Value
	running  bool // running deferred calls
	recov    bool // this frame is a deferred call run because of a panic/return
	panicIdx int  // for deferred frames: index+1 of the panic active when started
	onRet    func(s *State, res Value)
	ldef     *ssa.Function
	loops    int
}

type panicRec struct {
	val       Value
	recovered bool
	goexit    bool
	frame     int // frame depth (index) whose defers are being run
}

type Gor struct {
	id      int
	frames  []*Frame
	blocked bool
	waitKey string
	phase   int
	waitVal Value
	sel     []selCase // when blocked on channels
	selBlk  bool
	selRes  *selResult
	panics  []panicRec
	sleepT  int
	done    bool
	name    string
	parked  bool // at a preemption point, excluded from default continuation
}

type selCase struct {
	ch   int
	send bool
	val  Value
}
type selResult struct {
	idx int
	val Value
	ok  bool
}

type bound struct{ lo, hi uint64 }

type decEnt struct {
	v uint16
	h uint16
}

type timerObj struct {
	deadline *Term
	period   *Term
	active   bool
	ch       int // channel object or 0
	fn       Value
	gid      int // sleeping goroutine
	seq      int
}

type Observation struct {
	name string
	kind byte // 'u','b'
	val  *Term
	str  StrV
}

type State struct {
	w   *Worker
	ctx *Ctx

	gs      []*Gor
	cur     int
	nextGid int

	heap    map[int]Value
	nextObj int
	otypes  map[int]string

	pc     []*Term
	facts  map[*Term]bool
	bounds map[*Term]bound
	model  *Model

	dec    []decEnt
	decIdx int
	trail  []decEnt
	tin    []decEnt // forced trail (replay of a donated path)
	tpos   int

	names     map[string]int
	inputs    []inputRec
	obs       []Observation
	covers    map[string]bool
	side      map[string]Value // engine side table (pool contents, cond waiters, ...)
	timers    map[int]timerObj
	tseq      int
	now       *Term
	steps     int
	sched     []int // schedule choices taken
	schedN    int   // preemptions left; -1 deterministic mode
	mutated   bool
	asserts   int
	alloc     *Term // allocation limit
	settle    int
	depth     int
	uncertain bool
	unique    map[string]Value
	userPanic string
	trace     []string
	noPreempt int
	vc        *raceState
	atomicOps int
	subst     map[*Term]*Term
}

type inputRec struct {
	name string
	kind string // u64,u8,bool,int,bytes,choice
	t    *Term
	arr  *Arr
	len  *Term
}

type Worker struct {
	id         int
	eng        *Engine
	ctx        *Ctx
	solver     *Solver
	strs       map[string]StrV
	zeros      map[*types.Struct]StructV
	stack      []*State
	base       map[int]Value
	baseN      int
	globals    map[*ssa.Global]int
	baseSide   map[string]Value
	baseUnique map[string]Value
	job        *Job
	rtypes     map[string]types.Type
}

func (s *State) clone() *State {
	n := *s
	n.gs = make([]*Gor, len(s.gs))
	for i, g := range s.gs {
		n.gs[i] = g.clone()
	}
	n.heap = cpMap(s.heap)
	n.facts = cpMap(s.facts)
	n.bounds = cpMap(s.bounds)
	n.names = cpMap(s.names)
	n.covers = cpMap(s.covers)
	n.side = cpMap(s.side)
	n.timers = cpMap(s.timers)
	n.unique = cpMap(s.unique)
	n.subst = cpMap(s.subst)
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.dec = append([]decEnt{}, s.dec...)
	n.trail = s.trail[:len(s.trail):len(s.trail)]
	n.inputs = s.inputs[:len(s.inputs):len(s.inputs)]
	n.obs = s.obs[:len(s.obs):len(s.obs)]
	n.sched = s.sched[:len(s.sched):len(s.sched)]
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	if s.vc != nil {
		n.vc = s.vc.clone()
	}
	return &n
}

func cpMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+4)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (g *Gor) clone() *Gor {
	if g.done {
		return g
	}
	n := *g
	n.frames = make([]*Frame, len(g.frames))
	for i, f := range g.frames {
		c := *f
		c.regs = append([]Value(nil), f.regs...)
		c.defers = f.defers[:len(f.defers):len(f.defers)]
		n.frames[i] = &c
	}
	n.panics = append([]panicRec(nil), g.panics...)
	return &n
}

func (s *State) g() *Gor    { return s.gs[s.cur] }
func (s *State) fr() *Frame { g := s.gs[s.cur]; return g.frames[len(g.frames)-1] }

func (s *State) where() string {
	if s.cur < 0 || s.cur >= len(s.gs) || len(s.gs[s.cur].frames) == 0 {
		return "?"
	}
	g := s.gs[s.cur]
	r := ""
	for i := len(g.frames) - 1; i >= 0 && i >= len(g.frames)-6; i-- {
		f := g.frames[i]
		pos := ""
		if f.block != nil && f.pc < len(f.block.Instrs) {
			p := f.block.Instrs[f.pc].Pos()
			if p.IsValid() {
				q := s.w.eng.prog.Fset.Position(p)
				pos = fmt.Sprintf("%s:%d", q.Filename, q.Line)
			}
		}
		if i < len(g.frames)-1 {
			r += " < "
		}
		r += f.fi.fn.String() + "(" + pos + ")"
	}
	return r
}

// ---- constraint handling ----

func (s *State) rng(t *Term) (uint64, uint64) {
	lo, hi := t.ulo, t.uhi
	switch t.op {
	case OpConst:
		return lo, hi
	case OpLin:
		if l, h, ok := linRange(t.args, t.coefs, t.c, t.w, s.rng); ok {
			lo, hi = max(lo, l), min(hi, h)
		}
	case OpZExt:
		l, h := s.rng(t.args[0])
		lo, hi = max(lo, l), min(hi, h)
	}
	if b, ok := s.bounds[t]; ok {
		lo, hi = max(lo, b.lo), min(hi, b.hi)
	}
	return lo, hi
}

func tri(b bool) int {
	if b {
		return 1
	}
	return 0
}

// quick: 1 implied true, 0 implied false, -1 unknown (no solver).
func (s *State) quick(c *Term) int {
	if c.IsConst() {
		return int(c.c)
	}
	if v, ok := s.facts[c]; ok {
		return tri(v)
	}
	switch c.op {
	case OpNot:
		if r := s.quick(c.args[0]); r >= 0 {
			return 1 - r
		}
	case OpBAnd:
		a, b := s.quick(c.args[0]), s.quick(c.args[1])
		if a == 0 || b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
	case OpBOr:
		a, b := s.quick(c.args[0]), s.quick(c.args[1])
		if a == 1 || b == 1 {
			return 1
		}
		if a == 0 && b == 0 {
			return 0
		}
	case OpEq:
		if c.args[0].w == 0 {
			return -1
		}
		al, ah := s.rng(c.args[0])
		bl, bh := s.rng(c.args[1])
		if ah < bl || bh < al {
			return 0
		}
		if al == ah && bl == bh && al == bl {
			return 1
		}
		if r := diffCmp(c.args[0], c.args[1], s.rng); r == 1 || r == -1 {
			return 0
		}
	case OpUlt:
		al, ah := s.rng(c.args[0])
		bl, bh := s.rng(c.args[1])
		if ah < bl {
			return 1
		}
		if al >= bh {
			return 0
		}
		switch diffCmp(c.args[0], c.args[1], s.rng) {
		case -1:
			return 1
		case 1, 3:
			return 0
		}
	case OpSlt:
		h := uint64(1) << (c.args[0].w - 1)
		al, ah := s.rng(c.args[0])
		bl, bh := s.rng(c.args[1])
		aP, bP := ah < h, bh < h
		aN, bN := al >= h, bl >= h
		switch {
		case aP && bN:
			return 0
		case aN && bP:
			return 1
		case aP && bP || aN && bN:
			if ah < bl {
				return 1
			}
			if al >= bh {
				return 0
			}
			switch diffCmp(c.args[0], c.args[1], s.rng) {
			case -1:
				return 1
			case 1, 3:
				return 0
			}
		}
	}
	return -1
}

// diffCmp compares the integer values of two terms that provably do not wrap.
// -1: a<b, 1: a>b, 3: a>=b, 0: a==b possible/unknown ordering, 2: not applicable
func diffCmp(a, b *Term, rg func(*Term) (uint64, uint64)) int {
	if a.w != b.w || a.w == 0 {
		return 2
	}
	type ent struct{ k int64 }
	m := map[*Term]int64{}
	var cst int64
	add := func(t *Term, sign int64) bool {
		if t.op == OpConst {
			if t.c >= 1<<61 {
				return false
			}
			cst += sign * int64(t.c)
			return true
		}
		if t.op == OpLin {
			if _, _, ok := linRange(t.args, t.coefs, t.c, t.w, rg); !ok {
				return false
			}
			cst += sign * sx(t.c, t.w)
			for i, x := range t.args {
				m[x] += sign * sx(t.coefs[i], t.w)
			}
			return true
		}
		m[t] += sign
		return true
	}
	if !add(a, 1) || !add(b, -1) {
		return 2
	}
	const lim = int64(1) << 61
	lo, hi := cst, cst
	for x, k := range m {
		if k == 0 {
			continue
		}
		l, h := rg(x)
		if h >= 1<<40 || k > 1<<20 || k < -(1<<20) {
			return 2
		}
		if k > 0 {
			lo += k * int64(l)
			hi += k * int64(h)
		} else {
			lo += k * int64(h)
			hi += k * int64(l)
		}
		if lo < -lim || hi > lim {
			return 2
		}
	}
	if hi < 0 {
		return -1
	}
	if lo > 0 {
		return 1
	}
	if lo >= 0 {
		return 3
	}
	return 0
}

// addFact records c as known true (syntactic consequences only).
func (s *State) addFact(c *Term, v bool) {
	if c.IsConst() {
		return
	}
	if c.op == OpNot {
		s.addFact(c.args[0], !v)
		return
	}
	s.facts[c] = v
	switch c.op {
	case OpBAnd:
		if v {
			s.addFact(c.args[0], true)
			s.addFact(c.args[1], true)
		}
	case OpBOr:
		if !v {
			s.addFact(c.args[0], false)
			s.addFact(c.args[1], false)
		}
	case OpEq:
		a, b := c.args[0], c.args[1]
		if a.w == 0 {
			return
		}
		if v {
			if b.IsConst() {
				s.narrow(a, b.c, b.c)
			} else if a.IsConst() {
				s.narrow(b, a.c, a.c)
			} else {
				l, h := s.rng(a)
				l2, h2 := s.rng(b)
				s.narrow(a, max(l, l2), min(h, h2))
				s.narrow(b, max(l, l2), min(h, h2))
			}
		} else {
			if b.IsConst() {
				l, h := s.rng(a)
				if l == b.c && l < h {
					s.narrow(a, l+1, h)
				} else if h == b.c && l < h {
					s.narrow(a, l, h-1)
				}
			}
		}
	case OpUlt, OpSlt:
		a, b := c.args[0], c.args[1]
		al, ah := s.rng(a)
		bl, bh := s.rng(b)
		if c.op == OpSlt {
			h := uint64(1) << (a.w - 1)
			if bh < h && b.IsConst() && v == false && b.c < h { // a >= b >= 0
				s.narrow(a, b.c, h-1)
				return
			}
			if al < h && ah >= h && a.w > 0 && a.IsConst() == false && bh < h && v {
				return // a may be negative
			}
			if ah >= h || bh >= h {
				if v && a.IsConst() && a.c < h { // b > a >= 0
					s.narrow(b, a.c+1, h-1)
				}
				return
			}
		}
		if v { // a < b
			if bh > 0 {
				s.narrow(a, al, min(ah, bh-1))
			}
			if al < mask(a.w) {
				s.narrow(b, max(bl, al+1), bh)
			}
		} else { // a >= b
			s.narrow(a, max(al, bl), ah)
			s.narrow(b, bl, min(bh, ah))
		}
	}
}

func (s *State) narrow(t *Term, lo, hi uint64) {
	if t.IsConst() || lo > hi {
		return
	}
	l, h := s.rng(t)
	lo, hi = max(lo, l), min(hi, h)
	if lo > hi {
		return
	}
	if lo == l && hi == h {
		return
	}
	s.bounds[t] = bound{lo, hi}
	switch t.op {
	case OpZExt:
		s.narrow(t.args[0], lo, hi)
	case OpLin:
		if len(t.args) == 1 && t.coefs[0] == 1 {
			// x + c in [lo,hi]; no wrap if c as signed shifts stay in range
			cs := sx(t.c, t.w)
			if _, _, ok := linRange(t.args, t.coefs, t.c, t.w, s.rng); ok && hi < 1<<62 {
				nl, nh := int64(lo)-cs, int64(hi)-cs
				if nl < 0 {
					nl = 0
				}
				if nh >= 0 {
					s.narrow(t.args[0], uint64(nl), uint64(nh))
				}
			}
		}
	}
}

func (s *State) assume(c *Term) {
	if c.IsConst() {
		return
	}
	s.pc = append(s.pc, c)
	s.addFact(c, true)
	if s.model != nil && s.model.Eval(c) == 0 {
		s.model = nil
	}
}

func (s *State) check(extra *Term, want bool) (Res, *Model) {
	if slowLog {
		t0 := time.Now()
		defer func() {
			d := time.Since(t0)
			src := ""
			for i := 1; i < 6; i++ {
				if _, f, l, ok := runtime.Caller(i); ok {
					src += fmt.Sprintf(" %s:%d", filepath.Base(f), l)
				}
			}
			fmt.Fprintf(os.Stderr, "QUERY %.3f pc=%d %.200v | %s |%s\n", d.Seconds(), len(s.pc), extra, s.where(), src)
		}()
	}
	return s.w.solver.solve(s.pc, extra, want, s.model)
}

// implied: like quick, but may ask the solver (not recorded as a decision).
func (s *State) implied(c *Term) int {
	if r := s.quick(c); r >= 0 {
		return r
	}
	if os.Getenv("GOSYM_NOPRUNE") != "" {
		return -1
	}
	key := c
	if c.op == OpNot {
		key = c.args[0]
	}
	// ask only for the side the model does not show
	if s.model == nil {
		s.needModel()
		if s.model == nil {
			return -1
		}
	}
	v := s.model.Eval(c) != 0
	other := c
	if v {
		other = s.ctx.Not(c)
	}
	r, _ := s.check(other, false)
	if r == Unsat {
		s.addFact(c, v)
		_ = key
		return tri(v)
	}
	return -1
}

func simple(t *Term) bool {
	switch t.op {
	case OpConst, OpVar:
		return true
	case OpLin:
		for _, a := range t.args {
			if !simple(a) {
				return false
			}
		}
		return true
	}
	return false
}

// canon replaces a length or offset computed from encoded data by the input
// variable it provably equals on this path, so that later reasoning about
// memory regions is syntactic.
func (s *State) canon(t *Term) *Term {
	if t.w != 64 || simple(t) {
		return t
	}
	if r, ok := s.subst[t]; ok {
		return r
	}
	if s.replaying() && len(s.dec) == 0 && false {
		return t
	}
	if s.model == nil {
		s.needModel()
	}
	r := t
	if s.model != nil {
		v := s.model.Eval(t)
		n := 0
		seen := map[*Term]bool{}
		for i := len(s.inputs) - 1; i >= 0 && n < 3; i-- {
			x := s.inputs[i].t
			if x == nil || x.w != 64 || x.IsConst() || seen[x] {
				continue
			}
			seen[x] = true
			if s.model.Eval(x) != v {
				continue
			}
			n++
			if s.implied(s.ctx.Eq(t, x)) == 1 {
				r = x
				break
			}
		}
		if r == t && t.op == OpLin {
			// try to simplify the non-linear parts
			nt := s.ctx.Const(t.c, 64)
			for i, a := range t.args {
				ca := a
				if !simple(a) {
					ca = s.canon(a)
				}
				nt = s.ctx.Add(nt, s.ctx.Mul(s.ctx.Const(t.coefs[i], 64), ca))
			}
			r = nt
		}
	}
	s.subst[t] = r
	return r
}

func (s *State) needModel() {
	if s.model == nil {
		r, m := s.check(nil, true)
		switch r {
		case Sat:
			s.model = m
		case Unsat:
			panic(forkAbort{})
		default:
			s.uncertain = true
		}
	}
}

func (s *State) posHash() uint16 {
	if len(s.g().frames) == 0 {
		return uint16(7 + s.g().id)
	}
	h := fnv.New32a()
	f := s.fr()
	h.Write([]byte(f.fi.fn.Name()))
	h.Write([]byte{byte(f.block.Index), byte(f.pc), byte(f.pc >> 8)})
	v := h.Sum32()
	return uint16(v) ^ uint16(v>>16)
}

func (s *State) push(e decEnt) {
	s.dec = append(s.dec, e)
	s.decIdx = len(s.dec)
	s.trail = append(s.trail, e)
}

// replayed returns a forced decision if one is pending.
func (s *State) replayed() (int, bool) {
	if s.decIdx < len(s.dec) {
		v := s.dec[s.decIdx].v
		s.decIdx++
		return int(v), true
	}
	if s.tpos < len(s.tin) {
		e := s.tin[s.tpos]
		if e.h != s.posHash() {
			panic(limitErr{why: "replay desynchronised at " + s.where()})
		}
		s.tpos++
		s.push(e)
		if s.tpos == len(s.tin) {
		}
		return int(e.v), true
	}
	return 0, false
}

func (s *State) spawn(e decEnt, cond *Term, m *Model) {
	n := s.clone()
	n.dec = append(n.dec, e)
	n.trail = append(n.trail, e)
	n.decIdx = 0
	if cond != nil {
		n.pc = append(n.pc, cond)
		n.model = m
		n.addFact(cond, true)
		if m == nil {
			n.uncertain = true
		}
	}
	n.depth++
	s.w.stack = append(s.w.stack, n)
	s.w.eng.stats.forks.Add(1)
}

// decide returns the truth value of c on this path, forking if both are possible.
func (s *State) decide(c *Term) bool {
	if c.IsConst() {
		return c.c != 0
	}
	if s.mutated {
		panic(fmt.Sprintf("engine bug: decide after mutation at %s", s.where()))
	}
	if v, ok := s.replayed(); ok {
		cc := c
		if v == 0 {
			cc = s.ctx.Not(c)
		}
		if q := s.quick(cc); q != 1 {
			s.pc = append(s.pc, cc)
			s.addFact(cc, true)
			if s.model != nil && s.model.Eval(cc) == 0 {
				s.model = nil
			}
		}
		return v != 0
	}
	h := s.posHash()
	if q := s.quick(c); q >= 0 {
		s.push(decEnt{uint16(q), h})
		return q == 1
	}
	s.needModel()
	if s.model == nil { // solver gave up: explore both sides without models
		s.spawn(decEnt{0, h}, s.ctx.Not(c), nil)
		s.push(decEnt{1, h})
		s.pc = append(s.pc, c)
		s.addFact(c, true)
		return true
	}
	v := s.model.Eval(c) != 0
	mine, other := c, s.ctx.Not(c)
	if !v {
		mine, other = other, mine
	}
	r, m := s.check(other, true)
	if r == Unsat {
		s.addFact(mine, true)
		s.push(decEnt{uint16(tri(v)), h})
		return v
	}
	if r == Unknown {
		s.w.eng.stats.unknownForks.Add(1)
	}
	s.spawn(decEnt{uint16(1 - tri(v)), h}, other, m)
	s.push(decEnt{uint16(tri(v)), h})
	s.pc = append(s.pc, mine)
	s.addFact(mine, true)
	return v
}

// choose picks one of n alternatives, forking for all of them.
func (s *State) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if s.mutated {
		panic("engine bug: choose after mutation")
	}
	if v, ok := s.replayed(); ok {
		return v
	}
	h := s.posHash()
	for i := n - 1; i > 0; i-- {
		s.spawn(decEnt{uint16(i), h}, nil, nil)
	}
	s.push(decEnt{0, h})
	return 0
}

// concretize forks over all possible values of t (at most limit).
func (s *State) concretize(t *Term, limit int) uint64 {
	if t.IsConst() {
		return t.c
	}
	l, h := s.rng(t)
	if v, ok := s.replayed(); ok {
		if v == 1 && l == h {
			return l
		}
	} else {
		s.push(decEnt{uint16(tri(l == h)), s.posHash()})
		if l == h {
			return l
		}
	}
	for i := 0; i < limit; i++ {
		var v uint64
		if s.decIdx < len(s.dec) || s.tpos < len(s.tin) {
			// the candidate value is part of the decision stream
			x, _ := s.replayed()
			y, _ := s.replayed()
			z, _ := s.replayed()
			w, _ := s.replayed()
			v = uint64(x) | uint64(y)<<16 | uint64(z)<<32 | uint64(w)<<48
		} else {
			s.needModel()
			if s.model == nil {
				s.unsupported("solver gave up while concretizing")
			}
			v = s.model.Eval(t)
			h := s.posHash()
			for k := 0; k < 4; k++ {
				s.push(decEnt{uint16(v >> (16 * k)), h})
			}
		}
		if s.decide(s.ctx.Eq(t, s.ctx.Const(v, t.w))) {
			return v
		}
	}
	panic(limitErr{why: fmt.Sprintf("more than %d values at %s", limit, s.where())})
}

// ---- heap ----

func (s *State) get(obj int) Value {
	if v, ok := s.heap[obj]; ok {
		return v
	}
	if v, ok := s.w.base[obj]; ok {
		return v
	}
	panic(fmt.Sprintf("engine bug: no object %d", obj))
}
func (s *State) set(obj int, v Value) {
	s.heap[obj] = v
	s.mutated = true
}
func (s *State) alloc1(v Value) int {
	s.nextObj++
	s.heap[s.nextObj] = v
	return s.nextObj
}

func (s *State) nilPanic() {
	s.throw("invalid memory address or nil pointer dereference")
}

// throw raises a Go runtime error panic.
func (s *State) throw(msg string) {
	panic(goPanic{s.w.runtimeError(s, "runtime error: "+msg)})
}

func (s *State) sub(v Value, p *Path) Value {
	if p == nil {
		return v
	}
	v = s.sub(v, p.parent)
	if p.idx == nil {
		st, ok := v.(StructV)
		if !ok {
			if po, ok := v.(PoisonV); ok {
				s.unsupported("poison value: %s", po.why)
			}
			s.unsupported("field of %T", v)
		}
		return st[p.field]
	}
	switch a := v.(type) {
	case *Arr:
		return s.arrRead(a, p.idx)
	case ArrayV:
		i := s.concretize(p.idx, 256)
		if i >= uint64(len(a)) {
			s.unsupported("array index %d outside %d elements", i, len(a))
		}
		return a[i]
	case PoisonV:
		s.unsupported("poison value: %s", a.why)
	}
	s.unsupported("index of %T", v)
	return nil
}

func (s *State) upd(root Value, steps []*Path, nv Value) Value {
	if len(steps) == 0 {
		return nv
	}
	p := steps[0]
	if p.idx == nil {
		st, ok := root.(StructV)
		if !ok {
			s.unsupported("store to field of %T", root)
		}
		r := append(StructV(nil), st...)
		r[p.field] = s.upd(st[p.field], steps[1:], nv)
		return r
	}
	switch a := root.(type) {
	case *Arr:
		t, ok := nv.(*Term)
		if !ok {
			s.unsupported("store %T into scalar array", nv)
		}
		return arrStore(s.ctx, a, p.idx, t)
	case ArrayV:
		i := s.concretize(p.idx, 256)
		r := append(ArrayV(nil), a...)
		r[i] = s.upd(a[i], steps[1:], nv)
		return r
	}
	s.unsupported("store to element of %T", root)
	return nil
}

func (s *State) load(p PtrV) Value {
	if p.obj == 0 {
		s.nilPanic()
	}
	if p.path != nil && p.path.win > 0 {
		v := SliceV{obj: p.obj, path: p.path.parent, off: p.path.idx}
		return s.subArray(v, int64(p.path.win))
	}
	v := s.sub(s.get(p.obj), p.path)
	return v
}

func (s *State) store(p PtrV, v Value) {
	if p.obj == 0 {
		s.nilPanic()
	}
	var root Value
	if p.path != nil && p.path.win > 0 {
		b := p.path.parent
		switch a := s.sub(s.get(p.obj), b).(type) {
		case *Arr:
			v = s.arrCopy(a, p.path.idx, v.(*Arr), s.ctx.Const(0, 64), s.ctx.Const(uint64(p.path.win), 64))
		case ArrayV:
			i := s.concretize(p.path.idx, 256)
			r := append(ArrayV(nil), a...)
			copy(r[i:], v.(ArrayV))
			v = r
		default:
			s.unsupported("store to part of %T", a)
		}
		p = PtrV{p.obj, b}
	}
	if p.path != nil {
		root = s.get(p.obj)
	}
	nv := s.upd(root, p.path.steps(), v)
	s.set(p.obj, nv)
}

func (p PtrV) field(i int) PtrV { return PtrV{p.obj, &Path{parent: p.path, field: i}} }
func (p PtrV) at(i *Term) PtrV  { return PtrV{p.obj, &Path{parent: p.path, idx: i}} }

// elem is element i of the array behind p.
func (s *State) elem(p PtrV, i *Term) PtrV {
	if p.path != nil && p.path.win > 0 {
		return PtrV{p.obj, &Path{parent: p.path.parent, idx: s.ctx.Add(p.path.idx, i)}}
	}
	return p.at(i)
}
func (p PtrV) key() string { return strconv.Itoa(p.obj) + p.path.key() }

// backing returns the array behind a slice.
func (s *State) backing(v SliceV) Value {
	if v.obj == 0 {
		return &Arr{kind: aZero, w: 8}
	}
	return s.sub(s.get(v.obj), v.path)
}

func (s *State) bytesOf(v Value) (*Arr, *Term, *Term) {
	switch x := v.(type) {
	case StrV:
		return x.arr, x.off, x.len
	case SliceV:
		a, ok := s.backing(x).(*Arr)
		if !ok {
			s.unsupported("bytes of non-scalar slice")
		}
		return a, x.off, x.len
	}
	s.unsupported("bytes of %T", v)
	return nil, nil, nil
}

func (s *State) setBacking(v SliceV, a Value) {
	if v.obj == 0 {
		return
	}
	s.store(PtrV{v.obj, v.path}, a)
}

func (s *State) newSlice(elem types.Type, a Value, n *Term) SliceV {
	o := s.alloc1(a)
	return SliceV{obj: o, off: s.ctx.Const(0, 64), len: n, cap: n}
}

var startTime = time.Now()
var slowLog = os.Getenv("GOSYM_SLOW") != ""
