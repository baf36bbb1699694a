package main

// Loading of the code under test, path exploration, work sharing.

import (
	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/dropmorepackets/haproxy-go"
const vsymPath = modPath + "/internal/vsym"

type Job struct {
	Name    string
	Pkg     string
	Fn      string
	Params  map[string]int
	Budget  time.Duration
	Sync    bool
	Stress  bool
	Expect  []string // cover labels that must be reached
	NoTrace bool

	fn       *ssa.Function
	started  atomic.Int64
	active   atomic.Int64 // items queued or running
	mu       sync.Mutex
	paths    int
	assumed  int
	steps    int64
	maxPath  int
	asserts  int64
	maxDepth int
	reduced  map[string]int
	covers   map[string]int
	samples  []*Case
	nsample  int
	cands    map[string]int
	dropped  int
	schedMax int
	wall     time.Duration
	done     bool
}

func (j *Job) reduce(why string) {
	j.mu.Lock()
	if j.reduced == nil {
		j.reduced = map[string]int{}
	}
	j.reduced[why]++
	j.mu.Unlock()
}

type item struct {
	job   *Job
	trail []decEnt
}

// Case is a concrete input of a harness.
type Case struct {
	Fn      string         `json:"fn"`
	Pkg     string         `json:"pkg"`
	Job     string         `json:"job"`
	Params  map[string]int `json:"params"`
	Inputs  []CaseInput    `json:"inputs"`
	Obs     []CaseObs      `json:"obs,omitempty"`
	Msg     string         `json:"msg,omitempty"`
	Kind    string         `json:"kind,omitempty"`
	Where   string         `json:"where,omitempty"`
	Sched   []int          `json:"sched,omitempty"`
	Sync    bool           `json:"sync,omitempty"`
	Stress  bool           `json:"stress,omitempty"`
	Outcome string         `json:"outcome,omitempty"`
}
type CaseInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	U    uint64 `json:"u"`
	B    string `json:"b,omitempty"`
}
type CaseObs struct {
	Name string `json:"name"`
	U    uint64 `json:"u"`
	B    string `json:"b,omitempty"`
	K    string `json:"k"`
}

type Engine struct {
	prog     *ssa.Program
	infos    sync.Map
	intr     sync.Map
	meth     sync.Map
	methMu   sync.Mutex
	sizes    types.Sizes
	maxLoop  int
	maxSteps int
	stats    struct {
		forks, unknownForks, timerFires, queries, sat, unsat, unknown atomic.Int64
		solverNs, maxNs                                               atomic.Int64
	}
	rtypePtr, timeType, structField types.Type
	vsym                            *ssa.Package
	rtErr                           types.Type
	used                            sync.Map
	initPkgs                        []*ssa.Package
	inited                          map[*ssa.Package]bool

	qmu    sync.Mutex
	qcond  *sync.Cond
	queue  []item
	idle   int
	nwork  int
	closed bool
	stop   atomic.Bool
	full   atomic.Bool // memory is used up

	onCand    func(*Case)
	globalEnd time.Time
	verbose   bool
	initNotes []string
}

// ---- loading ----

func load(dir string, overlay map[string][]byte, pats []string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Overlay: overlay, Env: os.Environ(), Fset: token.NewFileSet()}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, sizes: types.SizesFor("gc", "amd64"), maxLoop: 20000, maxSteps: 300000}
	e.qcond = sync.NewCond(&e.qmu)
	for _, p := range prog.AllPackages() {
		switch p.Pkg.Path() {
		case vsymPath:
			e.vsym = p
		case "time":
			e.timeType = p.Type("Time").Type()
		case "reflect":
			e.rtypePtr = types.NewPointer(p.Type("rtype").Type())
			e.structField = p.Type("StructField").Type()
		}
	}
	if e.vsym == nil {
		return nil, fmt.Errorf("vsym package not loaded")
	}
	if e.timeType == nil {
		e.timeType = types.NewStruct(nil, nil)
	}
	e.rtErr = e.vsym.Type("runtimeError").Type()
	if e.rtypePtr == nil {
		e.rtypePtr = types.NewPointer(e.rtErr)
	}
	// init order: dependencies first
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		im := append([]*types.Package(nil), p.Imports()...)
		sort.Slice(im, func(i, j int) bool { return im[i].Path() < im[j].Path() })
		for _, q := range im {
			visit(q)
		}
		if sp := prog.Package(p); sp != nil && initAllowed(p.Path()) {
			e.initPkgs = append(e.initPkgs, sp)
		}
	}
	for _, p := range ps {
		visit(p.Types)
	}
	e.inited = map[*ssa.Package]bool{}
	for _, p := range e.initPkgs {
		e.inited[p] = true
	}
	return e, nil
}

// initSkip lists standard packages whose initialisation depends on the machine
// or the runtime; their variables are outside the encoder.
var initSkip = []string{"runtime", "internal/runtime", "internal/cpu", "internal/godebug", "internal/syscall", "internal/testlog", "syscall", "testing",
	"crypto", "vendor", "plugin", "net/http", "os/signal", "os/exec", "os/user", "embed", "C", "unsafe", "go", "golang.org", "internal/goos", "html", "text", "regexp", "encoding/json", "internal/abi"}

func initAllowed(p string) bool {
	if strings.HasPrefix(p, modPath) {
		return true
	}
	for _, s := range initSkip {
		if p == s || strings.HasPrefix(p, s+"/") {
			return false
		}
	}
	return true
}

func (e *Engine) inModule(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		if r := fn.Signature.Recv(); r != nil {
			t := r.Type()
			if q, ok := t.(*types.Pointer); ok {
				t = q.Elem()
			}
			if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
				return strings.HasPrefix(n.Obj().Pkg().Path(), modPath)
			}
		}
		return false
	}
	return strings.HasPrefix(p.Pkg.Path(), modPath)
}

// isHarness reports functions that are part of the harness, not of the code under test.
func (e *Engine) isHarness(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil && fn.Pkg.Pkg.Path() == vsymPath {
		return true
	}
	p := fn.Pos()
	if !p.IsValid() {
		return false
	}
	return strings.Contains(e.prog.Fset.Position(p).Filename, "zz_vsym")
}

type noIntrin struct{}

func stripBrackets(n string) string {
	if !strings.Contains(n, "[") {
		return n
	}
	var b strings.Builder
	d := 0
	for _, r := range n {
		switch {
		case r == '[':
			d++
		case r == ']':
			d--
		case d == 0:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (e *Engine) intrinsic(fn *ssa.Function) intrin {
	if v, ok := e.intr.Load(fn); ok {
		if _, no := v.(noIntrin); no {
			return nil
		}
		return v.(intrin)
	}
	n := fn.String()
	if o := fn.Origin(); o != nil {
		n = o.String()
	}
	n = stripBrackets(n)
	h := intrinsics[n]
	if h == nil {
		if m, ok := redirects[n]; ok {
			mf := e.vsym.Func(m)
			if mf != nil {
				h = func(s *State, c *callCtx) (Value, bool) {
					s.pushFrame(mf, c.args, nil, c.reg)
					return nil, true
				}
			}
		}
	}
	if h == nil && strings.HasPrefix(n, "internal/vsym") {
		panic("unknown vsym function " + n)
	}
	if h == nil {
		e.intr.Store(fn, noIntrin{})
		return nil
	}
	e.intr.Store(fn, h)
	return h
}

type methKey struct {
	t types.Type
	m *types.Func
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m}
	if v, ok := e.meth.Load(k); ok {
		return v.(*ssa.Function)
	}
	e.methMu.Lock()
	defer e.methMu.Unlock()
	fn := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	if fn != nil {
		e.meth.Store(k, fn)
	}
	return fn
}

func (e *Engine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (e *Engine) usedFn(fn *ssa.Function) {
	if _, ok := e.used.Load(fn); !ok {
		e.used.Store(fn, true)
	}
}

func (e *Engine) note(s *State, why string) {
	if e.verbose {
		fmt.Fprintln(os.Stderr, "note:", why)
	}
}

// ---- workers ----

func (e *Engine) newWorker(id int) *Worker {
	w := &Worker{id: id, eng: e}
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.solver != nil {
		w.flushStats()
		w.solver.Close()
	}
	w.ctx = NewCtx()
	w.solver = NewSolver(w.ctx)
	w.strs = map[string]StrV{}
	w.zeros = map[*types.Struct]StructV{}
	w.base = map[int]Value{}
	w.baseN = 0
	w.globals = map[*ssa.Global]int{}
	w.baseSide = map[string]Value{}
	w.baseUnique = map[string]Value{}
	w.rtypes = map[string]types.Type{}
	w.runInits()
}

func (w *Worker) flushStats() {
	st := &w.solver.Stats
	e := w.eng
	e.stats.queries.Add(int64(st.Queries))
	e.stats.sat.Add(int64(st.Sat))
	e.stats.unsat.Add(int64(st.Unsat))
	e.stats.unknown.Add(int64(st.Unknown))
	e.stats.solverNs.Add(int64(st.Time))
	for {
		m := e.stats.maxNs.Load()
		if int64(st.MaxTime) <= m || e.stats.maxNs.CompareAndSwap(m, int64(st.MaxTime)) {
			break
		}
	}
	*st = SolverStats{}
}

func (w *Worker) globalObj(g *ssa.Global) int {
	if o, ok := w.globals[g]; ok {
		return o
	}
	o := -len(w.globals) - 1
	w.globals[g] = o
	t := g.Type().Underlying().(*types.Pointer).Elem()
	neutral := g.Pkg != nil && (g.Pkg.Pkg.Path() == "internal/cpu" || g.Pkg.Pkg.Path() == "internal/testlog") // no CPU features, no test log
	if w.eng.inited[g.Pkg] || neutral || strings.HasPrefix(g.Name(), "init$guard") {
		w.base[o] = w.zero(t)
	} else {
		w.base[o] = PoisonV{"global " + g.String() + " of a package whose initialisation is not encoded"}
	}
	return o
}

func (w *Worker) runtimeError(s *State, msg string) Value {
	return IfaceV{typ: w.eng.rtErr, val: w.strLit(msg)}
}

func (w *Worker) newState() *State {
	return &State{w: w, ctx: w.ctx, heap: map[int]Value{}, nextObj: w.baseN, otypes: map[int]string{}, facts: map[*Term]bool{},
		bounds: map[*Term]bound{}, names: map[string]int{}, covers: map[string]bool{}, side: map[string]Value{}, timers: map[int]timerObj{},
		unique: map[string]Value{}, subst: map[*Term]*Term{}, now: w.ctx.Const(0, 64), schedN: -1, model: NewModel()}
}

// runInits executes the package initialisers concretely, tolerating constructs
// outside the encoder (the affected variables become poison).
func (w *Worker) runInits() {
	w.job = &Job{}
	for _, p := range w.eng.initPkgs {
		fn := p.Func("init")
		if fn == nil {
			continue
		}
		s := w.newState()
		g := &Gor{id: 0, name: "init"}
		s.nextGid = 1
		s.gs = []*Gor{g}
		ok := w.tolerant(s, fn)
		if !ok && w.eng.verbose && w.id == 0 {
			fmt.Fprintln(os.Stderr, "init of", p.Pkg.Path(), "incomplete")
		}
		for k, v := range s.heap {
			w.base[k] = v
		}
		w.baseN = s.nextObj
		for k, v := range s.side {
			w.baseSide[k] = v
		}
		for k, v := range s.unique {
			w.baseUnique[k] = v
		}
	}
}

func (w *Worker) tolerant(s *State, fn *ssa.Function) (complete bool) {
	complete = true
	s.pushFrame(fn, nil, nil, -1)
	g := s.gs[0]
	depth := 0
	// skipUntil: leave the frame of the package initialiser only
	for steps := 0; !g.done; steps++ {
		if steps > 2000000 {
			return false
		}
		bad := func() (why string) {
			defer func() {
				if r := recover(); r != nil {
					switch x := r.(type) {
					case unsupportedErr:
						why = x.why
					case goPanic:
						why = "panic " + showVal(s, x.val)
					case limitErr:
						why = x.why
					case blockSig, switchSig, forkAbort, pathEnd:
						why = fmt.Sprintf("%T", r)
					default:
						why = fmt.Sprint("engine: ", r)
						if w.eng.verbose {
							debug.PrintStack()
						}
					}
				}
			}()
			f := s.fr()
			// package initialisers of imports run separately
			if c, ok := f.block.Instrs[f.pc].(*ssa.Call); ok && len(g.frames) == 1 {
				if cf := c.Call.StaticCallee(); cf != nil && cf.Name() == "init" && cf.Pkg != f.fi.fn.Pkg {
					f.pc++
					return ""
				}
			}
			s.step()
			return ""
		}()
		_ = depth
		if bad == "" {
			continue
		}
		complete = false
		s.dec = s.dec[:0]
		if len(g.frames) == 0 {
			return false
		}
		if w.eng.verbose && w.id == 0 && os.Getenv("GOSYM_INIT") != "" {
			fmt.Fprintln(os.Stderr, "init:", bad)
		}
		// unwind to the outermost initialiser frame and poison the instruction
		g.panics = nil
		for len(g.frames) > 1 {
			top := g.frames[len(g.frames)-1]
			if top.fi.fn.Name() == "init" || strings.HasPrefix(top.fi.fn.Name(), "init#") {
				break
			}
			g.frames = g.frames[:len(g.frames)-1]
		}
		f := s.fr()
		in := f.block.Instrs[f.pc]
		switch x := in.(type) {
		case *ssa.If, *ssa.Panic, *ssa.Return, *ssa.Jump:
			if len(g.frames) == 1 {
				return false
			}
			g.frames = g.frames[:len(g.frames)-1]
			s.fr().pc++
		case ssa.Value:
			f.regs[f.fi.reg[x]] = PoisonV{bad}
			f.pc++
		case *ssa.Store:
			if gl, ok := x.Addr.(*ssa.Global); ok {
				s.heap[w.globalObj(gl)] = PoisonV{bad}
			}
			f.pc++
		default:
			f.pc++
		}
	}
	return complete
}

func (e *Engine) push(it item) {
	e.qmu.Lock()
	e.queue = append(e.queue, it)
	it.job.active.Add(1)
	e.qmu.Unlock()
	e.qcond.Signal()
}

func (w *Worker) loop() {
	e := w.eng
	for {
		e.qmu.Lock()
		for len(e.queue) == 0 && !e.closed {
			e.idle++
			if e.idle == e.nwork {
				e.closed = true
				e.qcond.Broadcast()
				e.idle--
				break
			}
			e.qcond.Wait()
			e.idle--
		}
		if len(e.queue) == 0 {
			e.qmu.Unlock()
			break
		}
		it := e.queue[0]
		e.queue = e.queue[1:]
		e.qmu.Unlock()
		w.work(it)
		w.flushStats()
		it.job.active.Add(-1)
		if w.ctx.size() > 1500000 {
			w.reset()
		}
	}
	w.solver.Close()
}

func (w *Worker) work(it item) {
	j := it.job
	w.job = j
	t0 := time.Now()
	if j.started.Load() == 0 {
		j.started.CompareAndSwap(0, t0.UnixNano())
	}
	s := w.newState()
	s.gs = []*Gor{{id: 0, name: "main"}}
	s.nextGid = 1
	s.tin = it.trail
	s.pushFrame(j.fn, nil, nil, -1)
	w.stack = append(w.stack[:0], s)
	for len(w.stack) > 0 {
		n := len(w.stack) - 1
		if w.expired(j) {
			j.mu.Lock()
			j.dropped += n + 1
			j.mu.Unlock()
			w.stack = w.stack[:0]
			break
		}
		st := w.stack[n]
		w.stack[n] = nil
		w.stack = w.stack[:n]
		w.run(st)
		w.donate(j)
	}
	j.mu.Lock()
	j.wall += time.Since(t0)
	j.mu.Unlock()
}

func (w *Worker) expired(j *Job) bool {
	if w.eng.stop.Load() || w.eng.full.Load() {
		return true
	}
	now := time.Now()
	return now.Sub(time.Unix(0, j.started.Load())) > j.Budget || now.After(w.eng.globalEnd)
}

func (w *Worker) donate(j *Job) {
	e := w.eng
	if len(w.stack) < 2 {
		return
	}
	e.qmu.Lock()
	want := e.idle - len(e.queue)
	e.qmu.Unlock()
	for want > 0 && len(w.stack) > 1 {
		st := w.stack[0]
		w.stack = append(w.stack[:0], w.stack[1:]...)
		e.push(item{j, append([]decEnt{}, append(st.trail, st.tin[st.tpos:]...)...)})
		want--
	}
}

// run explores one path to its end.
func (w *Worker) run(s *State) {
	j := w.job
	for {
		end, why := w.segment(s)
		if !end {
			continue
		}
		j.mu.Lock()
		j.steps += int64(s.steps)
		if s.steps > j.maxPath {
			j.maxPath = s.steps
		}
		j.asserts += int64(s.asserts)
		if s.depth > j.maxDepth {
			j.maxDepth = s.depth
		}
		if len(s.sched) > j.schedMax {
			j.schedMax = len(s.sched)
		}
		j.mu.Unlock()
		switch why {
		case "infeasible":
		case "assume":
			j.mu.Lock()
			j.assumed++
			j.mu.Unlock()
		case "done", "violation", "crash":
			j.mu.Lock()
			j.paths++
			for c := range s.covers {
				if j.covers == nil {
					j.covers = map[string]int{}
				}
				j.covers[c]++
			}
			want := why == "done" && !j.NoTrace && (len(j.samples) < minSamples || j.paths&(j.paths-1) == 0 && len(j.samples) < 12)
			j.mu.Unlock()
			if want {
				if c := s.makeCase("", "trace"); c != nil {
					j.mu.Lock()
					j.samples = append(j.samples, c)
					j.mu.Unlock()
				}
			}
		default:
			j.mu.Lock()
			j.paths++
			j.mu.Unlock()
			j.reduce(why)
		}
		return
	}
}

// segment executes instructions until a signal is raised.
func (w *Worker) segment(s *State) (end bool, why string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		end, why = w.handle(s, r)
	}()
	n := 0
	for {
		if s.gs[0].done {
			return true, "done"
		}
		n++
		if n&0xfff == 0 && w.expired(w.job) {
			if w.eng.full.Load() {
				return true, "memory budget exhausted"
			}
			return true, "time budget exhausted"
		}
		g := s.gs[s.cur]
		if g.done || g.blocked {
			if !s.pickNext() {
				s.stuck()
			}
			continue
		}
		s.step()
	}
}

func (w *Worker) handle(s *State, r any) (end bool, why string) {
	switch x := r.(type) {
	case forkAbort:
		return true, "infeasible"
	case pathEnd:
		return true, x.why
	case unsupportedErr:
		return true, "outside the encoder: " + x.why
	case limitErr:
		if x.hang {
			// replayed: the real code may be fast enough, else it hangs
			s.candidate("hang", "no end within the bounds")
		}
		return true, "bound: " + x.why
	case raceErr:
		s.candidate("race", "data race: "+x.why)
		return true, "violation"
	case blockSig, switchSig:
		s.dec = s.dec[:0]
		return false, ""
	case goPanic:
		func() {
			defer func() {
				s.noPreempt--
				if r := recover(); r != nil {
					switch r.(type) {
					case blockSig, switchSig, goPanic:
						end, why = true, fmt.Sprintf("outside the encoder: %T while unwinding", r)
					default:
						end, why = w.handle(s, r)
					}
				}
			}()
			s.noPreempt++
			s.mutated = false
			s.raise(x.val)
			s.dec = s.dec[:0]
		}()
		return end, why
	}
	if w.eng.verbose || os.Getenv("GOSYM_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "engine panic: %v at %s\n%s\n", r, s.where(), debug.Stack())
	}
	return true, fmt.Sprintf("outside the encoder: engine: %v", r)
}

// stuck: no goroutine can run and no timer is pending, the harness has not finished.
func (s *State) stuck() {
	desc := ""
	for _, g := range s.gs {
		if g.done {
			continue
		}
		fr := ""
		if len(g.frames) > 0 {
			fr = g.frames[len(g.frames)-1].fi.fn.String()
		}
		desc += fmt.Sprintf(" [g%d %s in %s waits %s]", g.id, g.name, fr, g.waitKey)
	}
	s.candidate("deadlock", "deadlock:"+desc)
	panic(pathEnd{"violation"})
}

func (e *Engine) crash(s *State, v Value) {
	msg := showVal(s, v)
	if iv, ok := v.(IfaceV); ok {
		if sv, ok := iv.val.(StrV); ok {
			if k, ok := s.constStr(sv); ok {
				msg = k
			}
		}
	}
	s.candidate("panic", "panic: "+msg+" at "+s.userPanic)
	panic(pathEnd{"crash"})
}

func (e *Engine) fatal(s *State, msg string) {
	s.candidate("panic", msg+" at "+s.where())
	panic(pathEnd{"crash"})
}

func (s *State) replaying() bool { return s.tpos < len(s.tin) }

func (s *State) assumeHard(c *Term) { s.assume(c) }

func (s *State) decideAssume(c *Term) bool {
	switch s.quick(c) {
	case 1:
		return true
	case 0:
		return false
	}
	if s.replaying() {
		s.assume(c)
		s.mutated = true
		return true
	}
	if s.model == nil || s.model.Eval(c) == 0 {
		r, m := s.check(c, true)
		if r == Unsat {
			return false
		}
		s.assume(c)
		s.model = m
		if r == Unknown {
			s.uncertain = true
		}
		s.mutated = true
		return true
	}
	s.assume(c)
	s.mutated = true
	return true
}

// assertTerm asks the solver whether c can be false on this path.
func (s *State) assertTerm(c *Term, msg string) {
	s.asserts++
	if s.quick(c) == 1 {
		return
	}
	if s.replaying() {
		s.assume(c)
		return
	}
	neg := s.ctx.Not(c)
	var m *Model
	r := Unknown
	if s.model != nil && s.model.Eval(c) == 0 {
		r, m = Sat, s.model
	} else {
		r, m = s.check(neg, true)
	}
	switch r {
	case Unsat:
		s.addFact(c, true)
		return
	case Unknown:
		s.w.job.reduce("solver gave no verdict on assertion: " + msg)
		s.assume(c)
		return
	}
	v := s.clone()
	v.pc = append(v.pc, neg)
	v.model = m
	v.candidate("assert", msg)
	// continue with the executions on which the assertion holds
	if s.quick(c) == 0 {
		panic(pathEnd{"violation"})
	}
	r, m = s.check(c, true)
	if r == Unsat {
		panic(pathEnd{"violation"})
	}
	s.assume(c)
	s.model = m
}

func (s *State) allocCheck(n *Term, sz uint64) {
	if s.alloc == nil || s.replaying() || s.fr().fi != nil && s.fr().fi.harn {
		return
	}
	lim := s.alloc
	if sz == 0 {
		sz = 1
	}
	c := s.ctx.Ule(n, s.ctx.Bin(OpUDiv, lim, s.ctx.Const(sz, 64)))
	m := s.mutated
	s.assertTerm(c, "allocation exceeds the permitted amount")
	s.mutated = m
}

func (s *State) cover(n string) {
	if !s.covers[n] {
		s.covers[n] = true
	}
	s.mutated = true
}

// candidate records a potential violation with a concrete input.
func (s *State) candidate(kind, msg string) {
	j := s.w.job
	key := kind + ":" + msg
	j.mu.Lock()
	if j.cands == nil {
		j.cands = map[string]int{}
	}
	n := j.cands[key]
	j.cands[key]++
	j.mu.Unlock()
	if n >= 6 {
		return
	}
	c := s.makeCase(msg, kind)
	if c == nil {
		j.reduce("candidate without model: " + msg)
		return
	}
	c.Where = s.where()
	if s.w.eng.onCand != nil {
		s.w.eng.onCand(c)
	}
}

func (s *State) makeCase(msg, kind string) *Case {
	if s.model == nil {
		func() {
			defer func() { recover() }()
			s.needModel()
		}()
	}
	if s.model == nil {
		return nil
	}
	m := s.model
	j := s.w.job
	c := &Case{Fn: j.Fn, Pkg: j.Pkg, Job: j.Name, Params: j.Params, Msg: msg, Kind: kind, Sched: s.sched, Sync: j.Sync, Stress: j.Stress}
	const maxLen = 1 << 20
	for _, in := range s.inputs {
		ci := CaseInput{Name: in.name, Kind: in.kind}
		if in.arr != nil {
			n := m.Eval(in.len)
			if n > maxLen {
				n = maxLen
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(m.Eval(s.ctx.Select(in.arr.name, s.ctx.Const(uint64(i), 64), 8)))
			}
			ci.B = hex.EncodeToString(b)
			ci.U = n
		} else {
			ci.U = m.Eval(in.t)
		}
		c.Inputs = append(c.Inputs, ci)
	}
	if kind == "trace" {
		ok := func() (ok bool) {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			for _, o := range s.obs {
				co := CaseObs{Name: o.name, K: string(o.kind)}
				if o.kind == 'u' {
					co.U = m.Eval(o.val)
				} else {
					n := m.Eval(o.str.len)
					if n > 4096 {
						n = 4096
					}
					b := make([]byte, n)
					for i := range b {
						b[i] = byte(s.evalArr(m, o.str.arr, m.Eval(o.str.off)+uint64(i)))
					}
					co.B = hex.EncodeToString(b)
				}
				c.Obs = append(c.Obs, co)
			}
			return true
		}()
		if !ok {
			return nil
		}
	}
	return c
}

func shortWhere(fset *token.FileSet, p token.Pos) string {
	q := fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// evalArr evaluates one element of an array under a model.
func (s *State) evalArr(m *Model, a *Arr, idx uint64) uint64 {
	for {
		switch a.kind {
		case aZero:
			return 0
		case aSym:
			return m.Eval(s.ctx.Select(a.name, s.ctx.Const(idx, 64), a.w))
		case aLit:
			if idx < uint64(len(a.lit)) {
				return m.Eval(a.lit[idx])
			}
			return 0
		case aStore:
			var sb uint64
			if a.sbase != nil {
				sb = m.Eval(a.sbase)
			}
			hit := false
			var r uint64
			for i := range a.ents {
				if sb+uint64(a.ents[i].off) == idx {
					r, hit = m.Eval(a.ents[i].val), true
				}
			}
			if hit {
				return r
			}
			a = a.base
		case aCopy:
			d := idx - m.Eval(a.dst)
			if d < m.Eval(a.n) {
				idx = m.Eval(a.soff) + d
				a = a.src
				continue
			}
			a = a.base
		}
	}
}

func (c *Ctx) size() int { return len(c.tab) }

// watchMemory ends the exploration before memory runs out.
func (e *Engine) watchMemory(limit uint64) {
	for {
		time.Sleep(500 * time.Millisecond)
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.HeapAlloc > limit {
			e.full.Store(true)
			return
		}
	}
}

// minSamples paths per harness are always run natively and compared.
var minSamples = func() int {
	if n, err := strconv.Atoi(os.Getenv("GOSYM_SAMPLES")); err == nil {
		return n
	}
	return 4
}()
