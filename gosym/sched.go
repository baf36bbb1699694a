package main

// Goroutines, channels, locks and virtual time.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type switchSig struct{}

func (s *State) spawnGo(d deferRec) {
	g := &Gor{id: s.nextGid}
	s.nextGid++
	cur := s.cur
	s.gs = append(s.gs, g)
	s.mutated = true
	if s.vc != nil {
		s.vc.fork(s.gs[cur].id, g.id)
	}
	// run the callee setup in the context of the new goroutine
	var fv FuncV
	var args []Value
	if d.blt != nil {
		s.unsupported("go with builtin")
	}
	fv, args = s.resolve(d)
	s.cur = len(s.gs) - 1
	defer func() { s.cur = cur }()
	if fv.fn == nil {
		s.unsupported("go with nil or native function")
	}
	if s.w.eng.intrinsic(fv.fn) != nil {
		s.unsupported("go with intrinsic %s", fv.fn)
	}
	g.name = fv.fn.Name()
	s.pushFrame(fv.fn, args, fv.env, -1)
}

func (s *State) gorDone(g *Gor) {
	g.done = true
	g.frames = nil
	s.mutated = true
}

func (s *State) runnable() []int {
	var r []int
	n := len(s.gs)
	for k := 1; k <= n; k++ {
		i := (s.cur + k) % n
		g := s.gs[i]
		if !g.done && !g.blocked {
			r = append(r, i)
		}
	}
	return r
}

// pickNext selects the next goroutine; false means the program is stuck.
func (s *State) pickNext() bool {
	s.mutated = false
	s.decIdx = 0
	r := s.runnable()
	if len(r) == 0 {
		for i, g := range s.gs {
			if !g.done && g.waitKey == "settle" {
				g.blocked = false
				g.phase = 1
				s.cur = i
				s.dec = s.dec[:0]
				return true
			}
		}
		if !s.advance() {
			return false
		}
		s.dec = s.dec[:0]
		return true
	}
	k := 0
	if s.schedN >= 0 && len(r) > 1 {
		k = s.choose(len(r))
		s.sched = append(s.sched, r[k])
	}
	s.cur = r[k]
	s.dec = s.dec[:0]
	return true
}

// preempt is a scheduling point before a synchronisation operation.
func (s *State) preempt() {
	if s.schedN < 0 {
		return
	}
	g := s.g()
	if s.fr().fi.std {
		return
	}
	if g.parked {
		g.parked = false
		return
	}
	if s.schedN == 0 || s.noPreempt > 0 {
		return
	}
	var o []int
	for _, i := range s.runnable() {
		if i != s.cur {
			o = append(o, i)
		}
	}
	if len(o) == 0 {
		return
	}
	k := s.choose(len(o) + 1)
	if k == 0 {
		return
	}
	g.parked = true
	s.schedN--
	s.cur = o[k-1]
	s.sched = append(s.sched, s.cur)
	panic(switchSig{})
}

func (s *State) block(key string) {
	g := s.g()
	g.waitKey = key
	g.blocked = true
	panic(blockSig{})
}

func (s *State) wake(key string) {
	for _, g := range s.gs {
		if !g.done && g.blocked && g.waitKey == key {
			g.blocked = false
			g.waitKey = ""
		}
	}
	s.mutated = true
}

func (s *State) sideInt(k string) int {
	if v, ok := s.side[k]; ok {
		return v.(int)
	}
	if v, ok := s.w.baseSide[k]; ok {
		return v.(int)
	}
	return 0
}
func (s *State) setSide(k string, v Value) { s.side[k] = v; s.mutated = true }
func (s *State) sideList(k string) []Value {
	if v, ok := s.side[k]; ok {
		return v.([]Value)
	}
	if v, ok := s.w.baseSide[k]; ok {
		return v.([]Value)
	}
	return nil
}

// ---- locks ----

func (s *State) tryLock(key string) bool {
	if s.sideInt("w"+key) != 0 || s.sideInt("r"+key) != 0 {
		return false
	}
	s.setSide("w"+key, s.g().id+1)
	s.vcAcq(key)
	return true
}
func (s *State) lock(key string) {
	if !s.tryLock(key) {
		s.block("mu" + key)
	}
}
func (s *State) unlock(key string) {
	if s.sideInt("w"+key) == 0 {
		s.w.eng.fatal(s, "fatal error: sync: unlock of unlocked mutex")
	}
	s.setSide("w"+key, 0)
	s.vcRel(key)
	s.wake("mu" + key)
}
func (s *State) rlock(key string) {
	if s.sideInt("w"+key) != 0 {
		s.block("mu" + key)
	}
	s.setSide("r"+key, s.sideInt("r"+key)+1)
	s.vcAcq(key)
}
func (s *State) runlock(key string) {
	n := s.sideInt("r" + key)
	if n == 0 {
		s.w.eng.fatal(s, "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	s.setSide("r"+key, n-1)
	s.vcRel(key)
	s.wake("mu" + key)
}

// locker resolves a sync.Locker value to lock/unlock operations.
func (s *State) locker(v Value) (key string, read bool) {
	iv := v.(IfaceV)
	if iv.typ == nil {
		s.nilPanic()
	}
	p, ok := iv.val.(PtrV)
	if !ok {
		s.unsupported("locker %s", iv.typ)
	}
	switch iv.typ.String() {
	case "*sync.Mutex", "*sync.RWMutex":
		return p.key(), false
	case "*sync.rlocker":
		return p.key(), true
	}
	s.unsupported("locker %s", iv.typ)
	return "", false
}

// ---- channels ----

func (s *State) chanObj(v Value) (*ChanObj, int) {
	c, ok := v.(ChanV)
	if !ok {
		if p, ok := v.(PoisonV); ok {
			s.unsupported("poison channel: %s", p.why)
		}
		s.unsupported("channel expected, got %T", v)
	}
	if c.obj == 0 {
		return nil, 0
	}
	return s.get(c.obj).(*ChanObj), c.obj
}

func (s *State) findWaiter(ch int, send bool) (*Gor, int) {
	for _, g := range s.gs { // FIFO by goroutine id (approximation of arrival order)
		if g.done || !g.blocked || g.sel == nil || g.selRes != nil {
			continue
		}
		for i, c := range g.sel {
			if c.ch == ch && c.send == send {
				return g, i
			}
		}
	}
	return nil, 0
}

func (s *State) deliver(g *Gor, r selResult) {
	g.selRes = &r
	g.blocked = false
	g.waitKey = ""
	s.mutated = true
}

func (s *State) chanReady(ch int, send bool) bool {
	if ch == 0 {
		return false
	}
	co := s.get(ch).(*ChanObj)
	if send {
		if co.closed || len(co.buf) < co.cap {
			return true
		}
		g, _ := s.findWaiter(ch, false)
		return g != nil
	}
	if len(co.buf) > 0 || co.closed {
		return true
	}
	g, _ := s.findWaiter(ch, true)
	return g != nil
}

// doSend performs a send known to be ready.
func (s *State) doSend(ch int, v Value) {
	co := s.get(ch).(*ChanObj)
	if co.closed {
		panic(goPanic{s.w.runtimeError(s, "send on closed channel")})
	}
	s.vcRel(fmt.Sprintf("c%d", ch))
	if g, i := s.findWaiter(ch, false); g != nil {
		s.deliver(g, selResult{i, v, true})
		return
	}
	n := *co
	n.buf = append(co.buf[:len(co.buf):len(co.buf)], v)
	s.set(ch, &n)
}

func (s *State) doRecv(ch int) (Value, bool) {
	co := s.get(ch).(*ChanObj)
	s.vcAcq(fmt.Sprintf("c%d", ch))
	if len(co.buf) > 0 {
		n := *co
		v := co.buf[0]
		n.buf = co.buf[1:len(co.buf):len(co.buf)]
		if g, i := s.findWaiter(ch, true); g != nil {
			n.buf = append(n.buf, g.sel[i].val)
			s.deliver(g, selResult{i, nil, true})
		}
		s.set(ch, &n)
		return v, true
	}
	if g, i := s.findWaiter(ch, true); g != nil {
		v := g.sel[i].val
		s.deliver(g, selResult{i, nil, true})
		return v, true
	}
	return s.w.zero(co.elem), false // closed
}

func (s *State) chanClose(v ChanV) {
	if v.obj == 0 {
		panic(goPanic{s.w.runtimeError(s, "close of nil channel")})
	}
	co := s.get(v.obj).(*ChanObj)
	if co.closed {
		panic(goPanic{s.w.runtimeError(s, "close of closed channel")})
	}
	s.vcRel(fmt.Sprintf("c%d", v.obj))
	n := *co
	n.closed = true
	s.set(v.obj, &n)
	for {
		g, i := s.findWaiter(v.obj, false)
		if g == nil {
			break
		}
		s.deliver(g, selResult{i, s.w.zero(co.elem), false})
	}
	for {
		g, _ := s.findWaiter(v.obj, true)
		if g == nil {
			break
		}
		s.deliver(g, selResult{-1, nil, false})
	}
}

func (s *State) takeRes() *selResult {
	g := s.g()
	r := g.selRes
	g.selRes = nil
	g.sel = nil
	s.mutated = true
	if r.idx < 0 {
		panic(goPanic{s.w.runtimeError(s, "send on closed channel")})
	}
	return r
}

func (s *State) chanSend(f *Frame, x *ssa.Send) {
	g := s.g()
	if g.selRes != nil {
		s.takeRes()
		f.pc++
		return
	}
	s.preempt()
	_, ch := s.chanObj(s.val(f, x.Chan))
	v := s.val(f, x.X)
	if s.chanReady(ch, true) {
		s.doSend(ch, v)
		f.pc++
		return
	}
	s.vcRel(fmt.Sprintf("c%d", ch))
	g.sel = []selCase{{ch, true, v}}
	s.block("chan")
}

func (s *State) chanRecv(f *Frame, x *ssa.UnOp) {
	g := s.g()
	fin := func(v Value, ok bool) {
		if x.CommaOk {
			s.setReg(f, x, TupleV{v, s.ctx.Bool(ok)})
		} else {
			s.setReg(f, x, v)
		}
		f.pc++
	}
	_, ch := s.chanObj(s.val(f, x.X))
	if g.selRes != nil {
		r := s.takeRes()
		s.vcAcq(fmt.Sprintf("c%d", ch))
		fin(r.val, r.ok)
		return
	}
	s.preempt()
	if s.chanReady(ch, false) {
		v, ok := s.doRecv(ch)
		fin(v, ok)
		return
	}
	g.sel = []selCase{{ch, false, nil}}
	s.block("chan")
}

func (s *State) selectStmt(f *Frame, x *ssa.Select) {
	g := s.g()
	c := s.ctx
	chans := make([]int, len(x.States))
	for i, st := range x.States {
		_, chans[i] = s.chanObj(s.val(f, st.Chan))
	}
	fin := func(idx int, v Value, ok bool) {
		res := TupleV{c.Const(uint64(int64(idx)), 64), c.Bool(ok)}
		for i, st := range x.States {
			if st.Dir == types.RecvOnly {
				if i == idx {
					res = append(res, v)
				} else {
					res = append(res, s.w.zero(st.Chan.Type().Underlying().(*types.Chan).Elem()))
				}
			}
		}
		s.setReg(f, x, res)
		f.pc++
	}
	if g.selRes != nil {
		r := s.takeRes()
		if x.States[r.idx].Dir == types.RecvOnly {
			s.vcAcq(fmt.Sprintf("c%d", chans[r.idx]))
		}
		fin(r.idx, r.val, r.ok)
		return
	}
	s.preempt()
	var ready []int
	for i, st := range x.States {
		if s.chanReady(chans[i], st.Dir == types.SendOnly) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if !x.Blocking {
			fin(-1, nil, false)
			return
		}
		g.sel = []selCase{}
		for i, st := range x.States {
			sc := selCase{ch: chans[i], send: st.Dir == types.SendOnly}
			if sc.send {
				sc.val = s.val(f, st.Send)
				s.vcRel(fmt.Sprintf("c%d", chans[i]))
			}
			if sc.ch == 0 {
				sc.ch = -1
			}
			g.sel = append(g.sel, sc)
		}
		s.block("chan")
	}
	k := ready[s.choose(len(ready))]
	st := x.States[k]
	if st.Dir == types.SendOnly {
		s.doSend(chans[k], s.val(f, st.Send))
		fin(k, nil, false)
	} else {
		v, ok := s.doRecv(chans[k])
		fin(k, v, ok)
	}
}

// ---- virtual time ----

func (s *State) addTimer(key int, t timerObj, d *Term) {
	c := s.ctx
	if !s.decide(c.Slt(c.Const(0, 64), d)) {
		d = c.Const(0, 64)
	}
	t.deadline = c.Add(s.now, d)
	t.active = true
	s.tseq++
	t.seq = s.tseq
	s.timers[key] = t
	s.mutated = true
	s.vcRel(fmt.Sprintf("t%d", key))
}

// advance moves virtual time to the next timer and fires it.
func (s *State) advance() bool {
	const none = -1 << 30
	best := none
	var keys []int
	for k, t := range s.timers {
		if t.active {
			keys = append(keys, k)
		}
	}
	// deterministic order
	for i := range keys {
		for j := i + 1; j < len(keys); j++ {
			if s.timers[keys[j]].seq < s.timers[keys[i]].seq {
				keys[i], keys[j] = keys[j], keys[i]
			}
		}
	}
	for _, k := range keys {
		if best == none || s.decide(s.ctx.Slt(s.timers[k].deadline, s.timers[best].deadline)) {
			best = k
		}
	}
	if best == none {
		return false
	}
	if s.limitTime(s.timers[best].deadline) {
		return false
	}
	due := []int{best}
	if s.schedN >= 0 {
		// what happens at the same time happens in any order
		for _, k := range keys {
			if k != best && s.decide(s.ctx.Eq(s.timers[k].deadline, s.timers[best].deadline)) {
				due = append(due, k)
			}
		}
	}
	s.now = s.timers[best].deadline
	for _, k := range due {
		s.fire(k)
	}
	return true
}

func (s *State) fire(key int) {
	t := s.timers[key]
	if t.period != nil {
		t.deadline = s.ctx.Add(t.deadline, t.period)
		s.tseq++
		t.seq = s.tseq
	} else {
		t.active = false
	}
	s.timers[key] = t
	switch {
	case t.gid > 0:
		for _, g := range s.gs {
			if g.id == t.gid-1 {
				g.blocked = false
				g.phase = 1
			}
		}
	case t.ch > 0:
		if s.vc != nil {
			k := fmt.Sprintf("c%d", t.ch)
			s.vc.locks[k] = s.vc.locks[k].join(s.vc.locks[fmt.Sprintf("t%d", key)])
		}
		co := s.get(t.ch).(*ChanObj)
		if g, i := s.findWaiter(t.ch, false); g != nil {
			s.deliver(g, selResult{i, s.w.zero(co.elem), true})
		} else if len(co.buf) < 1 {
			n := *co
			n.buf = []Value{s.w.zero(co.elem)}
			s.set(t.ch, &n)
		}
	default:
		s.spawnGo(deferRec{fn: t.fn})
		if s.vc != nil {
			id := s.gs[len(s.gs)-1].id
			s.vc.clocks[id] = s.vc.locks[fmt.Sprintf("t%d", key)].set(id, 1)
		}
	}
	s.w.eng.stats.timerFires.Add(1)
}

func (s *State) limitTime(d *Term) bool {
	if v, ok := s.side["horizon"]; ok {
		return s.decide(s.ctx.Slt(v.(*Term), d))
	}
	return false
}

// ---- happens-before race detection ----

// vclock is an immutable vector clock, indexed by goroutine.
type vclock []int32

func (a vclock) get(i int) int32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

func (a vclock) join(b vclock) vclock {
	same := true
	for i, c := range b {
		if c > a.get(i) {
			same = false
			break
		}
	}
	if same {
		return a
	}
	n := make(vclock, max(len(a), len(b)))
	copy(n, a)
	for i, c := range b {
		n[i] = max(n[i], c)
	}
	return n
}

func (a vclock) set(i int, v int32) vclock {
	n := make(vclock, max(len(a), i+1))
	copy(n, a)
	n[i] = v
	return n
}

func (a vclock) inc(i int) vclock { return a.set(i, a.get(i)+1) }

type lkey struct {
	obj  int
	path string
}

// accPos tells where an access was made.
type accPos struct {
	fn     *ssa.Function
	in     ssa.Instruction
	caller *ssa.Function
}

func (p accPos) String() string {
	if p.fn == nil {
		return "?"
	}
	r := p.fn.String()
	if q := p.fn.Prog.Fset.Position(p.in.Pos()); q.IsValid() {
		r += fmt.Sprintf("(%s:%d)", q.Filename, q.Line)
	}
	if p.caller != nil {
		r += " < " + p.caller.String()
	}
	return r
}

// locState is the immutable access history of a location.
type locState struct {
	wg    int // goroutine of the last write, -1 if none
	wc    int32
	wpos  accPos
	reads vclock
	rpos  accPos
}

type raceState struct {
	clocks map[int]vclock    // goroutine -> vector clock
	locks  map[string]vclock // sync object -> vector clock
	locs   map[lkey]*locState
}

func newRace() *raceState {
	return &raceState{clocks: map[int]vclock{0: {1}}, locks: map[string]vclock{}, locs: map[lkey]*locState{}}
}
func (r *raceState) clone() *raceState {
	return &raceState{cpMap(r.clocks), cpMap(r.locks), cpMap(r.locs)}
}
func (r *raceState) fork(p, c int) {
	r.clocks[c] = r.clocks[p].set(c, 1)
	r.clocks[p] = r.clocks[p].inc(p)
}
func (s *State) vcRel(k string) {
	if s.vc == nil {
		return
	}
	g := s.g().id
	s.vc.locks[k] = s.vc.locks[k].join(s.vc.clocks[g])
	s.vc.clocks[g] = s.vc.clocks[g].inc(g)
}
func (s *State) vcAcq(k string) {
	if s.vc == nil {
		return
	}
	g := s.g().id
	s.vc.clocks[g] = s.vc.clocks[g].join(s.vc.locks[k])
}

// accessT records an access to a value of type t, field by field.
func (s *State) accessT(p PtrV, t types.Type, write bool) {
	if s.vc == nil || p.obj == 0 {
		return
	}
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() > 0 && st.NumFields() <= 16 {
		for i := 0; i < st.NumFields(); i++ {
			if f := st.Field(i); f.Name() != "_" {
				s.accessT(PtrV{p.obj, &Path{parent: p.path, field: i}}, f.Type(), write)
			}
		}
		return
	}
	if a, ok := t.Underlying().(*types.Array); ok && a.Len() > 0 && (p.path == nil || p.path.win == 0) {
		for i := int64(0); i < a.Len(); i++ {
			if i == 8 && a.Len() > 16 {
				i = a.Len() - 8
			}
			s.accessT(PtrV{p.obj, &Path{parent: p.path, idx: s.ctx.Const(uint64(i), 64)}}, a.Elem(), write)
		}
		return
	}
	s.access(p, write)
}

// accessN records an access to the first n elements of v: the first and the
// last eight of them, where they are known.
func (s *State) accessN(v SliceV, n *Term, write bool) {
	if s.vc == nil || v.obj == 0 || !v.off.IsConst() || !n.IsConst() {
		return
	}
	for i := uint64(0); i < n.c; i++ {
		if i == 8 && n.c > 16 {
			i = n.c - 8
		}
		s.access(PtrV{v.obj, &Path{parent: v.path, idx: s.ctx.Const(v.off.c+i, 64)}}, write)
	}
}

// access records a memory access made by code of the module under test.
func (s *State) access(p PtrV, write bool) {
	if s.vc == nil || p.obj == 0 {
		return
	}
	f := s.fr()
	if f.fi.std && !f.fi.raced || f.fi.harn {
		return
	}
	// locations are tracked at the granularity of the last concrete field
	q := p.path
	for q != nil && q.idx != nil {
		q = q.parent
	}
	for r := q; r != nil; r = r.parent {
		if r.idx != nil && !r.idx.IsConst() {
			return
		}
	}
	if q != p.path {
		// element of an array: track only constant indices
		for r := p.path; r != q; r = r.parent {
			if !r.idx.IsConst() {
				return
			}
		}
		q = p.path
	}
	k := lkey{p.obj, q.key()}
	g := s.g().id
	cl := s.vc.clocks[g]
	where := accPos{fn: f.fi.fn, in: f.block.Instrs[f.pc]}
	if n := len(s.g().frames); n > 1 {
		where.caller = s.g().frames[n-2].fi.fn
	}
	report := func(other accPos) {
		panic(raceErr{fmt.Sprintf("unsynchronised access at %s / %s", where, other)})
	}
	o := s.vc.locs[k]
	n := locState{wg: -1}
	if o != nil {
		n = *o
	}
	if n.wg >= 0 && n.wg != g && cl.get(n.wg) < n.wc {
		report(n.wpos)
	}
	if write {
		for i, c := range n.reads {
			if i != g && c > cl.get(i) {
				report(n.rpos)
			}
		}
		if n.wg == g && n.wc == cl.get(g) {
			return
		}
		n.wg, n.wc, n.wpos = g, cl.get(g), where
	} else {
		if n.reads.get(g) == cl.get(g) {
			return
		}
		n.reads = n.reads.set(g, cl.get(g))
		n.rpos = where
	}
	s.vc.locs[k] = &n
}

type raceErr struct{ why string }
