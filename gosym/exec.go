package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type FuncInfo struct {
	fn    *ssa.Function
	reg   map[ssa.Value]int
	n     int
	std   bool
	harn  bool // part of the harness
	raced bool // accesses count for race detection although it is std
	heads []bool
}

func (e *Engine) info(fn *ssa.Function) *FuncInfo {
	if v, ok := e.infos.Load(fn); ok {
		return v.(*FuncInfo)
	}
	fi := &FuncInfo{fn: fn, reg: map[ssa.Value]int{}}
	add := func(v ssa.Value) { fi.reg[v] = fi.n; fi.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.std = !e.inModule(fn)
	fi.harn = e.isHarness(fn)
	fi.raced = fi.std && fn.Pkg != nil && racedPkgs[fn.Pkg.Pkg.Path()]
	if o := fn.Origin(); fi.std && o != nil && o.Pkg != nil {
		fi.raced = racedPkgs[o.Pkg.Pkg.Path()]
	}
	v, _ := e.infos.LoadOrStore(fn, fi)
	return v.(*FuncInfo)
}

// racedPkgs are the std packages whose accesses to memory (handed to them by
// the module) count for race detection.
var racedPkgs = map[string]bool{"bufio": true, "encoding/binary": true, "bytes": true, "strings": true,
	"io": true, "slices": true, "maps": true, "sort": true, "strconv": true, "unicode/utf8": true, "net/netip": true}

func (s *State) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return s.w.zero(t)
	}
	if wd, ok := scalarWidth(t); ok {
		if wd == 0 {
			return s.ctx.Bool(constant.BoolVal(c.Value))
		}
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return s.ctx.Const(uint64(i), wd)
		}
		u, _ := constant.Uint64Val(v)
		return s.ctx.Const(u, wd)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if c.Value.Kind() == constant.Int {
				i, _ := constant.Int64Val(c.Value)
				return s.w.strLit(string(rune(i)))
			}
			return s.w.strLit(constant.StringVal(c.Value))
		}
		if u.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return FloatV(f)
		}
	}
	return PoisonV{"constant of type " + t.String()}
}

func (s *State) val(f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return s.constVal(x)
	case *ssa.Global:
		return PtrV{obj: s.w.globalObj(x)}
	case *ssa.Function:
		return FuncV{fn: x}
	case *ssa.Builtin:
		return FuncV{nat: "builtin"}
	}
	r := f.regs[f.fi.reg[v]]
	if r == nil {
		panic(fmt.Sprintf("engine bug: unset register %s in %s", v.Name(), f.fi.fn))
	}
	if p, ok := r.(PoisonV); ok {
		_ = p
	}
	return r
}

func (s *State) term(f *Frame, v ssa.Value) *Term {
	x := s.val(f, v)
	t, ok := x.(*Term)
	if !ok {
		if p, ok := x.(PoisonV); ok {
			s.unsupported("poison value: %s", p.why)
		}
		s.unsupported("scalar expected, got %T for %s", x, v)
	}
	return t
}

// idx64 converts an integer operand to a 64-bit term.
func (s *State) idx64(f *Frame, v ssa.Value) *Term {
	t := s.term(f, v)
	return s.to64(t, v.Type())
}
func (s *State) to64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(ty) {
		return s.ctx.SExt(t, 64)
	}
	return s.ctx.ZExt(t, 64)
}

func (s *State) setReg(f *Frame, v ssa.Value, x Value) {
	f.regs[f.fi.reg[v]] = x
	s.mutated = true
}

func (s *State) pushFrame(fn *ssa.Function, args, env []Value, retReg int) *Frame {
	if fn.Blocks == nil {
		s.unsupported("call of external function %s", fn)
	}
	g := s.g()
	if len(g.frames) > 400 {
		panic(limitErr{why: "call depth at " + s.where(), hang: true})
	}
	fi := s.w.eng.info(fn)
	nf := &Frame{fi: fi, regs: make([]Value, fi.n), block: fn.Blocks[0], retReg: retReg}
	for i, p := range fn.Params {
		nf.regs[fi.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		nf.regs[fi.reg[p]] = env[i]
	}
	g.frames = append(g.frames, nf)
	s.mutated = true
	s.w.eng.usedFn(fn)
	return nf
}

// jump moves to block b, evaluating its phis.
func (s *State) jump(f *Frame, b *ssa.BasicBlock) {
	prev := f.block
	var edge int = -1
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if edge < 0 {
			for i, q := range b.Preds {
				if q == prev {
					edge = i
				}
			}
		}
		phis = append(phis, p)
		e := p.Edges[edge]
		vals = append(vals, s.valOrNil(f, e))
	}
	for i, p := range phis {
		f.regs[f.fi.reg[p]] = vals[i]
	}
	if b.Index <= prev.Index {
		f.loops++
		if f.loops > s.w.eng.maxLoop {
			panic(limitErr{why: "loop iterations at " + s.where(), hang: true})
		}
	}
	f.prev = prev
	f.block = b
	f.pc = len(phis)
	s.mutated = true
}

func (s *State) valOrNil(f *Frame, v ssa.Value) Value {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return s.val(f, v)
	}
	return f.regs[f.fi.reg[v]]
}

// step executes one instruction of the current goroutine.
func (s *State) step() {
	s.mutated = false
	s.decIdx = 0
	f := s.fr()
	s.steps++
	if s.steps > s.w.eng.maxSteps && s.steps > s.w.job.Params["steps"] {
		panic(limitErr{why: "step budget at " + s.where(), hang: true})
	}
	in := f.block.Instrs[f.pc]
	s.exec(f, in)
	s.dec = s.dec[:0]
}

func (s *State) exec(f *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
		f.pc++
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		o := s.alloc1(s.w.zero(t))
		s.setReg(f, x, PtrV{obj: o})
		f.pc++
	case *ssa.BinOp:
		r := s.binop(x.Op, s.val(f, x.X), s.val(f, x.Y), x.X.Type(), x.Y.Type())
		s.setReg(f, x, r)
		f.pc++
	case *ssa.UnOp:
		s.unop(f, x)
	case *ssa.ChangeType:
		s.setReg(f, x, s.val(f, x.X))
		f.pc++
	case *ssa.ChangeInterface:
		s.setReg(f, x, s.val(f, x.X))
		f.pc++
	case *ssa.Convert:
		if s.vc != nil {
			if v, ok := s.val(f, x.X).(SliceV); ok {
				s.accessN(v, v.len, false)
			}
		}
		s.setReg(f, x, s.convert(s.val(f, x.X), x.X.Type(), x.Type()))
		f.pc++
	case *ssa.MultiConvert:
		s.setReg(f, x, s.convert(s.val(f, x.X), x.X.Type(), x.Type()))
		f.pc++
	case *ssa.MakeInterface:
		s.setReg(f, x, IfaceV{typ: x.X.Type(), val: s.val(f, x.X)})
		f.pc++
	case *ssa.MakeClosure:
		env := make([]Value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = s.val(f, b)
		}
		s.setReg(f, x, FuncV{fn: x.Fn.(*ssa.Function), env: env})
		f.pc++
	case *ssa.Extract:
		tv := s.val(f, x.Tuple)
		if p, ok := tv.(PoisonV); ok {
			s.setReg(f, x, p)
		} else {
			s.setReg(f, x, tv.(TupleV)[x.Index])
		}
		f.pc++
	case *ssa.Field:
		v := s.val(f, x.X)
		st, ok := v.(StructV)
		if !ok {
			s.unsupported("field of %T", v)
		}
		s.setReg(f, x, st[x.Field])
		f.pc++
	case *ssa.FieldAddr:
		p := s.ptr(s.val(f, x.X))
		if p.obj == 0 {
			s.nilPanic()
		}
		s.setReg(f, x, p.field(x.Field))
		f.pc++
	case *ssa.Index:
		s.setReg(f, x, s.index(s.val(f, x.X), s.idx64(f, x.Index), x.X.Type()))
		f.pc++
	case *ssa.IndexAddr:
		base := s.val(f, x.X)
		i := s.idx64(f, x.Index)
		switch b := base.(type) {
		case SliceV:
			if !s.decide(s.ctx.Ult(i, b.len)) {
				s.throw("index out of range")
			}
			s.setReg(f, x, PtrV{b.obj, &Path{parent: b.path, idx: s.ctx.Add(b.off, i)}})
		case PtrV:
			at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if b.obj == 0 {
				s.nilPanic()
			}
			if !s.decide(s.ctx.Ult(i, s.ctx.Const(uint64(at.Len()), 64))) {
				s.throw("index out of range")
			}
			s.setReg(f, x, s.elem(b, i))
		default:
			s.unsupported("IndexAddr of %T", base)
		}
		f.pc++
	case *ssa.Lookup:
		s.lookup(f, x)
		f.pc++
	case *ssa.Slice:
		s.setReg(f, x, s.slice(f, x))
		f.pc++
	case *ssa.SliceToArrayPointer:
		v := s.val(f, x.X).(SliceV)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !s.decide(s.ctx.Not(s.ctx.Ult(v.len, s.ctx.Const(uint64(at.Len()), 64)))) {
			s.throw("cannot convert slice to array pointer: length too short")
		}
		if v.obj == 0 {
			s.setReg(f, x, PtrV{})
		} else {
			p := PtrV{v.obj, &Path{parent: v.path, idx: v.off, win: int(at.Len())}}
			if at.Len() == 0 {
				p = PtrV{obj: s.alloc1(s.w.zero(at))}
			}
			s.setReg(f, x, p)
		}
		f.pc++
	case *ssa.Store:
		p := s.ptr(s.val(f, x.Addr))
		s.accessT(p, x.Val.Type(), true)
		s.store(p, s.val(f, x.Val))
		f.pc++
	case *ssa.MakeSlice:
		s.setReg(f, x, s.makeSlice(x.Type(), s.idx64(f, x.Len), s.idx64(f, x.Cap)))
		f.pc++
	case *ssa.MakeMap:
		o := s.alloc1(&MapObj{})
		s.setReg(f, x, MapV{o})
		f.pc++
	case *ssa.MakeChan:
		n := s.concretize(s.idx64(f, x.Size), 64)
		o := s.alloc1(&ChanObj{cap: int(n), elem: x.Type().Underlying().(*types.Chan).Elem()})
		s.setReg(f, x, ChanV{o})
		f.pc++
	case *ssa.MapUpdate:
		m := s.val(f, x.Map).(MapV)
		if m.obj == 0 {
			panic(goPanic{s.w.runtimeError(s, "assignment to entry in nil map")})
		}
		k, v := s.val(f, x.Key), s.val(f, x.Value)
		s.access(PtrV{obj: m.obj}, true)
		s.mapSet(m, k, v, x.Key.Type())
		f.pc++
	case *ssa.TypeAssert:
		s.typeAssert(f, x)
		f.pc++
	case *ssa.Range:
		v := s.val(f, x.X)
		it := &IterObj{pos: s.ctx.Const(0, 64)}
		switch m := v.(type) {
		case MapV:
			if m.obj != 0 {
				s.access(PtrV{obj: m.obj}, false)
				mo := s.get(m.obj).(*MapObj)
				it.keys, it.vals = mo.keys, mo.vals
			}
		case StrV:
			it.str = &m
		default:
			s.unsupported("range over %T", v)
		}
		o := s.alloc1(it)
		s.setReg(f, x, IterV{o})
		f.pc++
	case *ssa.Next:
		s.next(f, x)
		f.pc++
	case *ssa.Jump:
		s.jump(f, f.block.Succs[0])
	case *ssa.If:
		c := s.term(f, x.Cond)
		if s.decide(c) {
			s.jump(f, f.block.Succs[0])
		} else {
			s.jump(f, f.block.Succs[1])
		}
	case *ssa.Return:
		var res Value
		switch len(x.Results) {
		case 0:
		case 1:
			res = s.val(f, x.Results[0])
		default:
			t := make(TupleV, len(x.Results))
			for i, r := range x.Results {
				t[i] = s.val(f, r)
			}
			res = t
		}
		s.ret(res)
	case *ssa.RunDefers:
		if len(f.defers) == 0 {
			f.pc++
			return
		}
		d := f.defers[len(f.defers)-1]
		s.callDeferred(f, d, false)
	case *ssa.Panic:
		v := s.val(f, x.X)
		panic(goPanic{v})
	case *ssa.Call:
		s.call(f, x)
	case *ssa.Defer:
		d := s.mkDefer(f, &x.Call)
		f.defers = append(f.defers, d)
		f.pc++
	case *ssa.Go:
		d := s.mkDefer(f, &x.Call)
		f.pc++
		s.spawnGo(d)
	case *ssa.Send:
		s.chanSend(f, x)
	case *ssa.Select:
		s.selectStmt(f, x)
	default:
		s.unsupported("instruction %T", in)
	}
}

func (s *State) subArray(v SliceV, n int64) Value {
	b := s.backing(v)
	switch a := b.(type) {
	case *Arr:
		return s.arrCopy(&Arr{kind: aZero, w: a.w}, s.ctx.Const(0, 64), a, v.off, s.ctx.Const(uint64(n), 64))
	case ArrayV:
		off := s.concretize(v.off, 64)
		return append(ArrayV(nil), a[off:off+uint64(n)]...)
	}
	s.unsupported("slice to array of %T", b)
	return nil
}

func (s *State) ptr(v Value) PtrV {
	switch p := v.(type) {
	case PtrV:
		return p
	case PoisonV:
		s.unsupported("poison pointer: %s", p.why)
	}
	s.unsupported("pointer expected, got %T", v)
	return PtrV{}
}

// ---- function return and panics ----

func (s *State) ret(res Value) {
	g := s.g()
	f := g.frames[len(g.frames)-1]
	g.frames = g.frames[:len(g.frames)-1]
	s.mutated = true
	if f.onRet != nil {
		f.onRet(s, res)
		return
	}
	if len(g.frames) == 0 {
		s.gorDone(g)
		return
	}
	caller := g.frames[len(g.frames)-1]
	if f.panicIdx > 0 { // deferred call run by unwinding
		if len(g.panics) >= f.panicIdx && g.panics[f.panicIdx-1].recovered {
			g.panics = g.panics[:f.panicIdx-1]
			caller.running = true
			s.afterRecover(caller)
			return
		}
		s.unwind()
		return
	}
	if f.recov { // deferred call run by RunDefers: instruction repeats
		if caller.running {
			s.afterRecover(caller)
		}
		return
	}
	if f.retReg >= 0 {
		if res == nil {
			res = TupleV{}
		}
		caller.regs[f.retReg] = res
	}
	caller.pc++
}

// afterRecover runs the remaining deferred calls of f and then returns from it.
func (s *State) afterRecover(f *Frame) {
	s.noPreempt++
	defer func() { s.noPreempt-- }()
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		n := len(s.g().frames)
		s.callDeferred(f, d, false)
		if len(s.g().frames) > n {
			return
		}
	}
	f.running = false
	fn := f.fi.fn
	if fn.Recover != nil {
		f.prev = f.block
		f.block = fn.Recover
		f.pc = 0
		return
	}
	s.ret(s.w.zeroResult(fn.Signature))
}

func (w *Worker) zeroResult(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return w.zero(sig.Results().At(0).Type())
	}
	return w.zero(sig.Results())
}

func (s *State) raise(v Value) {
	g := s.g()
	if len(g.frames) > 0 {
		if s.trace != nil || true {
			s.userPanic = s.where()
		}
	}
	g.panics = append(g.panics, panicRec{val: v})
	s.unwind()
}

func (s *State) unwind() {
	g := s.g()
	for len(g.frames) > 0 {
		f := g.frames[len(g.frames)-1]
		if len(f.defers) > 0 {
			d := f.defers[len(f.defers)-1]
			n := len(g.frames)
			s.callDeferred(f, d, true)
			if len(g.frames) > n {
				return
			}
			continue
		}
		g.frames = g.frames[:len(g.frames)-1]
		if f.panicIdx > 0 && f.panicIdx <= len(g.panics)-1 {
			// the earlier panic is superseded by the new one
			p := g.panics[len(g.panics)-1]
			g.panics = append(g.panics[:f.panicIdx-1], p)
		}
	}
	s.w.eng.crash(s, g.panics[len(g.panics)-1].val)
}

func (s *State) callDeferred(f *Frame, d deferRec, unwinding bool) {
	pop := func() { f.defers = f.defers[:len(f.defers)-1] }
	g := s.g()
	if d.blt != nil {
		pop()
		if d.blt.Name() == "recover" { // defer recover(): has no effect
			return
		}
		s.builtin(f, d.blt, d.args, nil, nil)
		return
	}
	fv, args := s.resolve(d)
	n := len(g.frames)
	res, pushed := s.invoke(fv, args, -1)
	_ = res
	pop()
	if pushed && len(g.frames) > n {
		nf := g.frames[len(g.frames)-1]
		nf.recov = true
		if unwinding {
			nf.panicIdx = len(g.panics)
		}
	}
}

func (s *State) resolve(d deferRec) (FuncV, []Value) {
	if d.inv != nil {
		return s.method(d.fn, d.inv, d.args)
	}
	fv, ok := d.fn.(FuncV)
	if !ok {
		s.unsupported("call of %T", d.fn)
	}
	return fv, d.args
}

func (s *State) mkDefer(f *Frame, c *ssa.CallCommon) deferRec {
	var d deferRec
	for _, a := range c.Args {
		d.args = append(d.args, s.val(f, a))
	}
	if c.IsInvoke() {
		d.inv = c
		d.fn = s.val(f, c.Value)
		return d
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		d.blt = b
		return d
	}
	d.fn = s.val(f, c.Value)
	return d
}

// method resolves an interface method call to a function and full arguments.
func (s *State) method(recv Value, c *ssa.CallCommon, args []Value) (FuncV, []Value) {
	iv, ok := recv.(IfaceV)
	if !ok {
		if p, ok := recv.(PoisonV); ok {
			s.unsupported("method %s on poison: %s", c.Method.Name(), p.why)
		}
		s.unsupported("method on %T", recv)
	}
	if iv.typ == nil {
		s.nilPanic()
	}
	all := append([]Value{iv.val}, args...)
	if _, ok := iv.val.(TypeV); ok {
		return FuncV{nat: "reflect.Type." + c.Method.Name()}, all
	}
	fn := s.w.eng.lookupMethod(iv.typ, c.Method)
	if fn == nil {
		s.unsupported("no method %s on %s", c.Method.Name(), iv.typ)
	}
	return FuncV{fn: fn}, all
}

func (s *State) call(f *Frame, x *ssa.Call) {
	c := &x.Call
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = s.val(f, a)
	}
	reg := f.fi.reg[x]
	if b, ok := c.Value.(*ssa.Builtin); ok {
		r := s.builtin(f, b, args, c, x)
		if r == nil {
			r = TupleV{}
		}
		s.setReg(f, x, r)
		f.pc++
		return
	}
	var fv FuncV
	if c.IsInvoke() {
		fv, args = s.method(s.val(f, c.Value), c, args)
	} else {
		v := s.val(f, c.Value)
		var ok bool
		if fv, ok = v.(FuncV); !ok {
			s.unsupported("call of %T", v)
		}
	}
	res, pushed := s.invoke(fv, args, reg)
	if !pushed {
		if res == nil {
			res = TupleV{}
		}
		s.setReg(f, x, res)
		f.pc++
	}
}

// invoke calls fv. pushed reports that a frame was pushed whose return value
// goes to register reg of the current frame.
func (s *State) invoke(fv FuncV, args []Value, reg int) (res Value, pushed bool) {
	if fv.fn == nil {
		if fv.nat == "" {
			s.nilPanic()
		}
		if h, ok := natives[fv.nat]; ok {
			return h(s, &callCtx{args: args, reg: reg, env: fv.env})
		}
		s.unsupported("native %s", fv.nat)
	}
	if h := s.w.eng.intrinsic(fv.fn); h != nil {
		return h(s, &callCtx{args: args, reg: reg, fn: fv.fn})
	}
	s.pushFrame(fv.fn, args, fv.env, reg)
	return nil, true
}

// ---- operators ----

func (s *State) binop(op token.Token, a, b Value, ta, tb types.Type) Value {
	c := s.ctx
	switch op {
	case token.EQL:
		return s.eqVal(a, b, ta)
	case token.NEQ:
		return c.Not(s.eqVal(a, b, ta))
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		if p, ok := a.(PoisonV); ok {
			s.unsupported("poison operand: %s", p.why)
		}
		if p, ok := b.(PoisonV); ok {
			s.unsupported("poison operand: %s", p.why)
		}
		if fa, ok := a.(FloatV); ok {
			fb := b.(FloatV)
			switch op {
			case token.ADD:
				return fa + fb
			case token.SUB:
				return fa - fb
			case token.MUL:
				return fa * fb
			case token.QUO:
				return fa / fb
			case token.LSS:
				return c.Bool(fa < fb)
			case token.LEQ:
				return c.Bool(fa <= fb)
			case token.GTR:
				return c.Bool(fa > fb)
			case token.GEQ:
				return c.Bool(fa >= fb)
			}
		}
		sa, ok := a.(StrV)
		if !ok {
			s.unsupported("binop %s on %T", op, a)
		}
		sb := b.(StrV)
		switch op {
		case token.ADD:
			return s.concat(sa, sb)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			ka, o1 := s.constStr(sa)
			kb, o2 := s.constStr(sb)
			if o1 && o2 {
				switch op {
				case token.LSS:
					return c.Bool(ka < kb)
				case token.LEQ:
					return c.Bool(ka <= kb)
				case token.GTR:
					return c.Bool(ka > kb)
				default:
					return c.Bool(ka >= kb)
				}
			}
			s.unsupported("ordering of symbolic strings")
		}
		s.unsupported("binop %s on strings", op)
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		return c.Mul(x, y)
	case token.QUO, token.REM:
		if !s.decide(c.Not(c.Eq(y, c.Const(0, y.w)))) {
			s.throw("integer divide by zero")
		}
		switch {
		case op == token.QUO && sg:
			return c.Bin(OpSDiv, x, y)
		case op == token.QUO:
			return c.Bin(OpUDiv, x, y)
		case sg:
			return c.Bin(OpSRem, x, y)
		}
		return c.Bin(OpURem, x, y)
	case token.AND:
		if x.w == 0 {
			return c.And(x, y)
		}
		return c.Bin(OpAnd, x, y)
	case token.OR:
		if x.w == 0 {
			return c.Or(x, y)
		}
		return c.Bin(OpOr, x, y)
	case token.XOR:
		return c.Bin(OpXor, x, y)
	case token.AND_NOT:
		return c.Bin(OpAnd, x, c.Sub(c.Const(mask(y.w), y.w), y))
	case token.SHL, token.SHR:
		if isSigned(tb) {
			if !s.decide(c.Not(c.Slt(y, c.Const(0, y.w)))) {
				s.throw("negative shift amount")
			}
		}
		// bring the count to the operand width, saturating
		cnt := y
		if cnt.w > x.w {
			big := c.Not(c.Ult(cnt, c.Const(uint64(x.w), cnt.w)))
			cnt = c.Ite(big, c.Const(uint64(x.w), x.w), c.Extract(cnt, 0, x.w))
		} else if cnt.w < x.w {
			cnt = c.ZExt(cnt, x.w)
		}
		switch {
		case op == token.SHL:
			return c.Bin(OpShl, x, cnt)
		case sg:
			return c.Bin(OpAShr, x, cnt)
		}
		return c.Bin(OpLShr, x, cnt)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.GTR || op == token.GEQ {
			x, y = y, x
		}
		strict := op == token.LSS || op == token.GTR
		switch {
		case sg && strict:
			return c.Slt(x, y)
		case sg:
			return c.Sle(x, y)
		case strict:
			return c.Ult(x, y)
		}
		return c.Ule(x, y)
	}
	s.unsupported("binop %s", op)
	return nil
}

func (s *State) concat(a, b StrV) Value {
	c := s.ctx
	if a.len.IsConst() && a.len.c == 0 {
		return b
	}
	if b.len.IsConst() && b.len.c == 0 {
		return a
	}
	ka, ok1 := s.constStr(a)
	kb, ok2 := s.constStr(b)
	if ok1 && ok2 {
		return s.w.strLit(ka + kb)
	}
	z := c.Const(0, 64)
	arr := s.arrCopy(&Arr{kind: aZero, w: 8}, z, a.arr, a.off, a.len)
	arr = s.arrCopy(arr, a.len, b.arr, b.off, b.len)
	return StrV{arr: arr, off: z, len: c.Add(a.len, b.len)}
}

// bytesEq returns the term "the two byte ranges are equal"; may fork on length.
func (s *State) bytesEq(aa *Arr, ao, al *Term, ba *Arr, bo, bl *Term) *Term {
	c := s.ctx
	if aa == ba && ao == bo {
		return c.Eq(al, bl)
	}
	var n uint64
	pre := c.tTrue
	if lo, hi := s.rng(al); lo == hi {
		n = lo
		pre = c.Eq(bl, c.Const(n, 64))
	} else if lo, hi := s.rng(bl); lo == hi {
		n = lo
		pre = c.Eq(al, c.Const(n, 64))
	} else {
		if !s.decide(c.Eq(al, bl)) {
			return c.tFals
		}
		n = s.concretize(al, 400)
	}
	if pre.IsConst() && pre.c == 0 {
		return pre
	}
	if s.quick(pre) == 0 {
		return c.tFals
	}
	if aa.kind == aZero && ba.kind == aZero {
		return pre
	}
	if n > 5000 {
		s.unsupported("comparison of %d bytes", n)
	}
	r, open := pre, 0
	for i := uint64(0); i < n; i++ {
		x := s.arrRead(aa, c.AddC(ao, int64(i)))
		y := s.arrRead(ba, c.AddC(bo, int64(i)))
		e := c.Eq(x, y)
		if e.IsConst() {
			if e.c == 0 {
				return e
			}
			continue
		}
		if open++; open > 300 {
			s.unsupported("comparison of %d bytes", n)
		}
		r = c.And(r, e)
	}
	return r
}

func (s *State) eqVal(a, b Value, t types.Type) *Term {
	c := s.ctx
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			s.unsupported("compare %T with %T", a, b)
		}
		return c.Eq(x, y)
	case FloatV:
		return c.Bool(x == b.(FloatV))
	case StrV:
		y, ok := b.(StrV)
		if !ok {
			s.unsupported("compare string with %T", b)
		}
		return s.bytesEq(x.arr, x.off, x.len, y.arr, y.off, y.len)
	case PtrV:
		y, ok := b.(PtrV)
		if !ok {
			s.unsupported("compare pointer with %T", b)
		}
		return s.ptrEq(x, y)
	case IfaceV:
		y, ok := b.(IfaceV)
		if !ok {
			s.unsupported("compare interface with %T", b)
		}
		if x.typ == nil || y.typ == nil {
			return c.Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return c.tFals
		}
		if !types.Comparable(x.typ) {
			s.throw("comparing uncomparable type " + x.typ.String())
		}
		return s.eqVal(x.val, y.val, x.typ)
	case StructV:
		y := b.(StructV)
		st := t.Underlying().(*types.Struct)
		r := c.tTrue
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = c.And(r, s.eqVal(x[i], y[i], st.Field(i).Type()))
			if r.IsConst() && r.c == 0 {
				return r
			}
		}
		return r
	case ArrayV:
		y := b.(ArrayV)
		r := c.tTrue
		for i := range x {
			r = c.And(r, s.eqVal(x[i], y[i], t.Underlying().(*types.Array).Elem()))
		}
		return r
	case *Arr:
		y := b.(*Arr)
		n := c.Const(uint64(t.Underlying().(*types.Array).Len()), 64)
		z := c.Const(0, 64)
		return s.bytesEq(x, z, n, y, z, n)
	case SliceV:
		y := b.(SliceV)
		return c.Bool(x.obj == 0 && y.obj == 0) // only nil comparisons are legal
	case FuncV:
		y := b.(FuncV)
		return c.Bool(x.fn == nil && x.nat == "" && y.fn == nil && y.nat == "")
	case MapV:
		return c.Bool(x.obj == b.(MapV).obj)
	case ChanV:
		return c.Bool(x.obj == b.(ChanV).obj)
	case TypeV:
		y, ok := b.(TypeV)
		return c.Bool(ok && types.Identical(x.t, y.t))
	case PoisonV:
		s.unsupported("poison compare: %s", x.why)
	}
	s.unsupported("compare %T", a)
	return nil
}

func (s *State) ptrEq(x, y PtrV) *Term {
	c := s.ctx
	if x.obj != y.obj {
		return c.tFals
	}
	if x.obj == 0 {
		return c.tTrue
	}
	p, q := x.path.steps(), y.path.steps()
	if len(p) != len(q) {
		return c.tFals
	}
	r := c.tTrue
	for i := range p {
		if (p[i].idx == nil) != (q[i].idx == nil) {
			return c.tFals
		}
		if p[i].idx == nil {
			if p[i].field != q[i].field {
				return c.tFals
			}
		} else {
			if p[i].win != q[i].win {
				return c.tFals
			}
			r = c.And(r, c.Eq(p[i].idx, q[i].idx))
		}
	}
	return r
}

func (s *State) unop(f *Frame, x *ssa.UnOp) {
	c := s.ctx
	v := s.val(f, x.X)
	switch x.Op {
	case token.MUL:
		p := s.ptr(v)
		if p.obj == 0 {
			s.nilPanic()
		}
		s.accessT(p, x.Type(), false)
		r := s.load(p)
		s.setReg(f, x, s.coerce(r, x.Type()))
	case token.NOT:
		s.setReg(f, x, c.Not(s.term(f, x.X)))
	case token.SUB:
		if fl, ok := v.(FloatV); ok {
			s.setReg(f, x, -fl)
		} else {
			s.setReg(f, x, c.Neg(s.term(f, x.X)))
		}
	case token.XOR:
		t := s.term(f, x.X)
		s.setReg(f, x, c.Sub(c.Const(mask(t.w), t.w), t))
	case token.ARROW:
		s.chanRecv(f, x)
		return
	default:
		s.unsupported("unop %s", x.Op)
	}
	f.pc++
}

// coerce handles loads through unsafe-converted pointers.
func (s *State) coerce(v Value, t types.Type) Value {
	if sl, ok := v.(SliceV); ok {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if sl.obj == 0 {
				return s.w.strLit("")
			}
			a := s.backing(sl).(*Arr)
			return StrV{arr: a, off: sl.off, len: sl.len}
		}
	}
	return v
}

func (s *State) index(v Value, i *Term, t types.Type) Value {
	c := s.ctx
	switch x := v.(type) {
	case *Arr:
		n := t.Underlying().(*types.Array).Len()
		if !s.decide(c.Ult(i, c.Const(uint64(n), 64))) {
			s.throw("index out of range")
		}
		return s.arrRead(x, i)
	case ArrayV:
		if !s.decide(c.Ult(i, c.Const(uint64(len(x)), 64))) {
			s.throw("index out of range")
		}
		return x[s.concretize(i, 256)]
	case StrV:
		if !s.decide(c.Ult(i, x.len)) {
			s.throw("index out of range")
		}
		return s.arrRead(x.arr, c.Add(x.off, i))
	}
	s.unsupported("index of %T", v)
	return nil
}

func (s *State) slice(f *Frame, x *ssa.Slice) Value {
	c := s.ctx
	v := s.val(f, x.X)
	var lo, hi, mx *Term
	lo = c.Const(0, 64)
	if x.Low != nil {
		lo = s.canon(s.idx64(f, x.Low))
	}
	if x.High != nil {
		hi = s.canon(s.idx64(f, x.High))
	}
	if x.Max != nil {
		mx = s.idx64(f, x.Max)
	}
	switch b := v.(type) {
	case StrV:
		if hi == nil {
			hi = b.len
		}
		if !s.decide(c.Ule(hi, b.len)) || !s.decide(c.Ule(lo, hi)) {
			s.throw("slice bounds out of range")
		}
		return StrV{arr: b.arr, off: c.Add(b.off, lo), len: c.Sub(hi, lo)}
	case PtrV:
		at := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if b.obj == 0 {
			s.nilPanic()
		}
		n := c.Const(uint64(at.Len()), 64)
		v = SliceV{obj: b.obj, path: b.path, off: c.Const(0, 64), len: n, cap: n}
		if b.path != nil && b.path.win > 0 {
			v = SliceV{obj: b.obj, path: b.path.parent, off: b.path.idx, len: n, cap: n}
		}
	}
	b, ok := v.(SliceV)
	if !ok {
		if p, ok := v.(PoisonV); ok {
			s.unsupported("poison slice: %s", p.why)
		}
		s.unsupported("slice of %T", v)
	}
	if hi == nil {
		hi = b.len
	}
	cp := b.cap
	if mx != nil {
		if !s.decide(c.Ule(mx, b.cap)) {
			s.throw("slice bounds out of range")
		}
		cp = mx
	}
	if !s.decide(c.Ule(hi, cp)) || !s.decide(c.Ule(lo, hi)) {
		s.throw("slice bounds out of range")
	}
	return SliceV{obj: b.obj, path: b.path, off: c.Add(b.off, lo), len: c.Sub(hi, lo), cap: c.Sub(cp, lo)}
}

func (s *State) makeSlice(t types.Type, n, cp *Term) Value {
	c := s.ctx
	elem := t.Underlying().(*types.Slice).Elem()
	sz := uint64(max(1, s.w.eng.sizes.Sizeof(elem)))
	if n == cp {
		n = s.canon(n)
		cp = n
	} else {
		n, cp = s.canon(n), s.canon(cp)
	}
	maxN := uint64(1) << 47 / sz
	if !s.decide(c.Ule(n, c.Const(maxN, 64))) {
		panic(goPanic{s.w.runtimeError(s, "runtime error: makeslice: len out of range")})
	}
	if n != cp {
		if !s.decide(c.Ule(cp, c.Const(maxN, 64))) || !s.decide(c.Ule(n, cp)) {
			panic(goPanic{s.w.runtimeError(s, "runtime error: makeslice: cap out of range")})
		}
	}
	if s.alloc != nil {
		s.allocCheck(cp, sz)
	}
	if _, ok := scalarWidth(elem); ok {
		o := s.alloc1(s.w.newArray(elem, 0))
		return SliceV{obj: o, off: c.Const(0, 64), len: n, cap: cp}
	}
	k := s.concretize(cp, 300)
	if k > 1<<16 {
		s.unsupported("make of %d composite elements", k)
	}
	o := s.alloc1(s.w.newArray(elem, int64(k)))
	return SliceV{obj: o, off: c.Const(0, 64), len: n, cap: c.Const(k, 64)}
}

func (s *State) lookup(f *Frame, x *ssa.Lookup) {
	v := s.val(f, x.X)
	if st, ok := v.(StrV); ok {
		s.setReg(f, x, s.index(st, s.idx64(f, x.Index), x.X.Type()))
		return
	}
	m := v.(MapV)
	k := s.val(f, x.Index)
	s.access(PtrV{obj: m.obj}, false)
	r, ok := s.mapGet(m, k, x.Index.Type())
	if r == nil {
		r = s.w.zero(x.X.Type().Underlying().(*types.Map).Elem())
	}
	if x.CommaOk {
		s.setReg(f, x, TupleV{r, s.ctx.Bool(ok)})
	} else {
		s.setReg(f, x, r)
	}
}

func (s *State) mapGet(m MapV, k Value, kt types.Type) (Value, bool) {
	if m.obj == 0 {
		return nil, false
	}
	mo := s.get(m.obj).(*MapObj)
	for i := range mo.keys {
		if s.decide(s.eqVal(mo.keys[i], k, kt)) {
			return mo.vals[i], true
		}
	}
	return nil, false
}

func (s *State) mapSet(m MapV, k, v Value, kt types.Type) {
	mo := s.get(m.obj).(*MapObj)
	for i := range mo.keys {
		if s.decide(s.eqVal(mo.keys[i], k, kt)) {
			n := &MapObj{keys: mo.keys, vals: append([]Value(nil), mo.vals...)}
			n.vals[i] = v
			s.set(m.obj, n)
			return
		}
	}
	n := &MapObj{keys: append(mo.keys[:len(mo.keys):len(mo.keys)], k), vals: append(mo.vals[:len(mo.vals):len(mo.vals)], v)}
	s.set(m.obj, n)
}

func (s *State) mapDelete(m MapV, k Value, kt types.Type) {
	if m.obj == 0 {
		return
	}
	mo := s.get(m.obj).(*MapObj)
	for i := range mo.keys {
		if s.decide(s.eqVal(mo.keys[i], k, kt)) {
			n := &MapObj{}
			for j := range mo.keys {
				if j != i {
					n.keys = append(n.keys, mo.keys[j])
					n.vals = append(n.vals, mo.vals[j])
				}
			}
			s.set(m.obj, n)
			return
		}
	}
}

func (s *State) next(f *Frame, x *ssa.Next) {
	it := s.val(f, x.Iter).(IterV)
	io := s.get(it.obj).(*IterObj)
	c := s.ctx
	if io.str == nil {
		if io.i >= len(io.keys) {
			tt := x.Type().(*types.Tuple)
			s.setReg(f, x, TupleV{c.tFals, s.w.zeroOrNil(tt.At(1).Type()), s.w.zeroOrNil(tt.At(2).Type())})
			return
		}
		n := *io
		n.i++
		s.set(it.obj, &n)
		s.setReg(f, x, TupleV{c.tTrue, io.keys[io.i], io.vals[io.i]})
		return
	}
	// string
	if !s.decide(c.Ult(io.pos, io.str.len)) {
		s.setReg(f, x, TupleV{c.tFals, c.Const(0, 64), c.Const(0, 32)})
		return
	}
	b := s.arrRead(io.str.arr, c.Add(io.str.off, io.pos))
	n := *io
	if s.decide(c.Ult(b, c.Const(128, 8))) {
		n.pos = c.AddC(io.pos, 1)
		s.set(it.obj, &n)
		s.setReg(f, x, TupleV{c.tTrue, io.pos, c.ZExt(b, 32)})
		return
	}
	rem := s.concretize(c.Sub(io.str.len, io.pos), 64)
	var buf []byte
	for i := uint64(0); i < rem && i < 4; i++ {
		buf = append(buf, byte(s.concretize(s.arrRead(io.str.arr, c.AddC(c.Add(io.str.off, io.pos), int64(i))), 256)))
	}
	r, sz := utf8.DecodeRune(buf)
	n.pos = c.AddC(io.pos, int64(sz))
	s.set(it.obj, &n)
	s.setReg(f, x, TupleV{c.tTrue, io.pos, c.Const(uint64(r), 32)})
}

func (w *Worker) zeroOrNil(t types.Type) Value {
	if t == nil || t == types.Typ[types.Invalid] {
		return PoisonV{"unused range variable"}
	}
	return w.zero(t)
}

func (s *State) typeAssert(f *Frame, x *ssa.TypeAssert) {
	v := s.val(f, x.X)
	iv, ok := v.(IfaceV)
	if !ok {
		if p, ok := v.(PoisonV); ok {
			s.unsupported("poison assert: %s", p.why)
		}
		s.unsupported("assert on %T", v)
	}
	match := false
	var r Value
	if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
		match = iv.typ != nil && s.w.eng.implements(iv.typ, it)
		r = iv
	} else {
		match = iv.typ != nil && types.Identical(iv.typ, x.AssertedType)
		r = iv.val
	}
	if !match {
		if !x.CommaOk {
			d := "nil"
			if iv.typ != nil {
				d = iv.typ.String()
			}
			panic(goPanic{s.w.runtimeError(s, "interface conversion: interface is "+d+", not "+x.AssertedType.String())})
		}
		s.setReg(f, x, TupleV{s.w.zero(x.AssertedType), s.ctx.tFals})
		return
	}
	if x.CommaOk {
		s.setReg(f, x, TupleV{r, s.ctx.tTrue})
	} else {
		s.setReg(f, x, r)
	}
}

func (s *State) convert(v Value, from, to types.Type) Value {
	c := s.ctx
	if p, ok := v.(PoisonV); ok {
		return p
	}
	tw, tok := scalarWidth(to)
	if t, ok := v.(*Term); ok && tok {
		if t.w == tw {
			return t
		}
		if t.w > tw {
			return c.Extract(t, 0, tw)
		}
		if t.op == OpExtract && t.c == 0 && t.args[0].w == tw {
			m := mask(t.w)
			if isSigned(from) {
				m >>= 1
			}
			if _, h := s.rng(t.args[0]); h <= m {
				return t.args[0]
			}
		}
		if isSigned(from) {
			return c.SExt(t, tw)
		}
		return c.ZExt(t, tw)
	}
	switch x := v.(type) {
	case *Term:
		if b, ok := to.Underlying().(*types.Basic); ok {
			if b.Info()&types.IsFloat != 0 {
				if x.IsConst() {
					if isSigned(from) {
						return FloatV(float64(sx(x.c, x.w)))
					}
					return FloatV(float64(x.c))
				}
				s.unsupported("symbolic int to float")
			}
			if b.Info()&types.IsString != 0 {
				r := s.to64(x, from)
				if s.decide(c.Ult(r, c.Const(128, 64))) {
					a := arrStore(c, &Arr{kind: aZero, w: 8}, c.Const(0, 64), c.Extract(r, 0, 8))
					return StrV{arr: a, off: c.Const(0, 64), len: c.Const(1, 64)}
				}
				k := s.concretize(r, 300)
				return s.w.strLit(string(rune(k)))
			}
			if b.Kind() == types.UnsafePointer {
				if x.IsConst() && x.c == 0 {
					return PtrV{}
				}
				s.unsupported("uintptr to pointer")
			}
		}
	case FloatV:
		if tok {
			return c.Const(uint64(int64(math.Trunc(float64(x)))), tw)
		}
		return x
	case StrV:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b := sl.Elem().Underlying().(*types.Basic); b.Kind() == types.Uint8 {
				if s.alloc != nil {
					s.allocCheck(x.len, 1)
				}
				o := s.alloc1(x.arr)
				return SliceV{obj: o, off: x.off, len: x.len, cap: x.len}
			}
			if k, ok := s.constStr(x); ok {
				rs := []rune(k)
				lit := make([]*Term, len(rs))
				for i, r := range rs {
					lit[i] = c.Const(uint64(r), 32)
				}
				n := c.Const(uint64(len(rs)), 64)
				return s.newSlice(sl.Elem(), &Arr{kind: aLit, w: 32, lit: lit}, n)
			}
			s.unsupported("[]rune of symbolic string")
		}
		return x
	case SliceV:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if x.obj == 0 {
				return s.w.strLit("")
			}
			a, ok := s.backing(x).(*Arr)
			if ok && a.w == 32 {
				var rs []rune
				for i, n := uint64(0), s.concretize(x.len, 300); i < n; i++ {
					rs = append(rs, rune(s.concretize(s.arrRead(a, c.AddC(x.off, int64(i))), 300)))
				}
				return s.w.strLit(string(rs))
			}
			if !ok || a.w != 8 {
				s.unsupported("string of non-byte slice")
			}
			if s.alloc != nil {
				s.allocCheck(x.len, 1)
			}
			return StrV{arr: a, off: x.off, len: x.len}
		}
		if at, ok := to.Underlying().(*types.Array); ok {
			if !s.decide(c.Not(c.Ult(x.len, c.Const(uint64(at.Len()), 64)))) {
				s.throw("cannot convert slice to array: length too short")
			}
			return s.subArray(x, at.Len())
		}
		return x
	case PtrV:
		if tok { // unsafe.Pointer -> uintptr
			s.unsupported("pointer to uintptr")
		}
		return x
	}
	s.unsupported("convert %T (%s) to %s", v, from, to)
	return nil
}

// ---- builtins ----

func (s *State) builtin(f *Frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon, call *ssa.Call) Value {
	c := s.ctx
	switch b.Name() {
	case "len", "cap":
		switch x := args[0].(type) {
		case StrV:
			return x.len
		case SliceV:
			if b.Name() == "cap" {
				return x.cap
			}
			return x.len
		case MapV:
			if x.obj == 0 {
				return c.Const(0, 64)
			}
			s.access(PtrV{obj: x.obj}, false)
			return c.Const(uint64(len(s.get(x.obj).(*MapObj).keys)), 64)
		case ChanV:
			if x.obj == 0 {
				return c.Const(0, 64)
			}
			co := s.get(x.obj).(*ChanObj)
			if b.Name() == "cap" {
				return c.Const(uint64(co.cap), 64)
			}
			return c.Const(uint64(len(co.buf)), 64)
		case PtrV:
			at := cc.Args[0].Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			return c.Const(uint64(at.Len()), 64)
		case ArrayV:
			return c.Const(uint64(len(x)), 64)
		case PoisonV:
			s.unsupported("len of poison: %s", x.why)
		}
		s.unsupported("len of %T", args[0])
	case "append":
		return s.appendOp(args[0].(SliceV), args[1], cc)
	case "copy":
		dst := args[0].(SliceV)
		n := s.minLen(dst.len, s.lenOf(args[1]))
		s.copyTo(dst, args[1], n)
		return n
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			x, y := r, a
			if _, fl := x.(FloatV); fl {
				s.unsupported("min/max of floats")
			}
			lt := s.binop(token.LSS, x, y, call.Type(), call.Type()).(*Term)
			if b.Name() == "max" {
				lt = c.Not(lt)
			}
			if s.decide(lt) {
				r = x
			} else {
				r = y
			}
		}
		return r
	case "delete":
		s.access(PtrV{obj: args[0].(MapV).obj}, true)
		s.mapDelete(args[0].(MapV), args[1], cc.Args[1].Type())
		return nil
	case "clear":
		switch x := args[0].(type) {
		case MapV:
			if x.obj != 0 {
				s.access(PtrV{obj: x.obj}, true)
				s.set(x.obj, &MapObj{})
			}
		case SliceV:
			if x.obj != 0 {
				s.accessN(x, x.len, true)
				switch a := s.backing(x).(type) {
				case *Arr:
					s.setBacking(x, s.arrCopy(a, x.off, &Arr{kind: aZero, w: a.w}, c.Const(0, 64), x.len))
				default:
					el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
					for i, n := uint64(0), s.concretize(x.len, 300); i < n; i++ {
						s.store(PtrV{x.obj, &Path{parent: x.path, idx: c.AddC(x.off, int64(i))}}, s.w.zero(el))
					}
				}
			}
		}
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(goPanic{args[0]})
	case "recover":
		g := s.g()
		if f.panicIdx > 0 && f.panicIdx <= len(g.panics) && !g.panics[f.panicIdx-1].recovered {
			g.panics[f.panicIdx-1].recovered = true
			v := g.panics[f.panicIdx-1].val
			if iv, ok := v.(IfaceV); ok {
				return iv
			}
			return IfaceV{typ: types.Typ[types.String], val: v}
		}
		return IfaceV{}
	case "close":
		s.chanClose(args[0].(ChanV))
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok && p.obj == 0 {
			s.nilPanic()
		}
		return args[0]
	case "ssa:deferstack":
		return PoisonV{"deferstack"}
	case "String": // unsafe.String(ptr, len)
		p := args[0].(PtrV)
		n := s.to64(args[1].(*Term), cc.Args[1].Type())
		if p.obj == 0 {
			return s.w.strLit("")
		}
		a, off := s.ptrArr(p)
		return StrV{arr: a, off: off, len: n}
	case "Add": // unsafe.Add(ptr, n)
		p := s.ptr(args[0])
		n := s.to64(args[1].(*Term), cc.Args[1].Type())
		if n.IsConst() && n.c == 0 {
			return p
		}
		if p.path == nil || p.path.idx == nil {
			s.unsupported("unsafe.Add of non-element pointer")
		}
		a, ok := s.sub(s.get(p.obj), p.path.parent).(*Arr)
		if !ok || a.w != 8 {
			s.unsupported("unsafe.Add outside a byte array")
		}
		return PtrV{p.obj, &Path{parent: p.path.parent, idx: c.Add(p.path.idx, n)}}
	case "StringData":
		x := args[0].(StrV)
		o := s.alloc1(x.arr)
		return PtrV{o, &Path{idx: x.off}}
	case "SliceData":
		x := args[0].(SliceV)
		if x.obj == 0 {
			return PtrV{}
		}
		return PtrV{x.obj, &Path{parent: x.path, idx: x.off}}
	case "Slice": // unsafe.Slice(ptr, len)
		p := args[0].(PtrV)
		n := s.to64(args[1].(*Term), cc.Args[1].Type())
		if p.obj == 0 {
			z := c.Const(0, 64)
			return SliceV{off: z, len: z, cap: z}
		}
		if p.path == nil || p.path.idx == nil {
			s.unsupported("unsafe.Slice of non-element pointer")
		}
		return SliceV{obj: p.obj, path: p.path.parent, off: p.path.idx, len: n, cap: n}
	}
	s.unsupported("builtin %s", b.Name())
	return nil
}

func (s *State) ptrArr(p PtrV) (*Arr, *Term) {
	if p.path == nil || p.path.idx == nil {
		s.unsupported("element pointer expected")
	}
	a, ok := s.sub(s.get(p.obj), p.path.parent).(*Arr)
	if !ok {
		s.unsupported("byte array expected")
	}
	return a, p.path.idx
}

func (s *State) lenOf(v Value) *Term {
	switch x := v.(type) {
	case StrV:
		return x.len
	case SliceV:
		return x.len
	}
	s.unsupported("len of %T", v)
	return nil
}

func (s *State) minLen(a, b *Term) *Term {
	if s.decide(s.ctx.Ult(a, b)) {
		return a
	}
	return b
}

// copyTo copies n elements of src to the start of dst.
func (s *State) copyTo(dst SliceV, src Value, n *Term) {
	if dst.obj == 0 || n.IsConst() && n.c == 0 {
		return
	}
	if s.vc != nil {
		if x, ok := src.(SliceV); ok {
			s.accessN(x, n, false)
		}
		s.accessN(dst, n, true)
	}
	switch d := s.backing(dst).(type) {
	case *Arr:
		var a *Arr
		var off *Term
		switch x := src.(type) {
		case StrV:
			a, off = x.arr, x.off
		case SliceV:
			if x.obj == 0 {
				return
			}
			a, off = s.backing(x).(*Arr), x.off
		}
		s.setBacking(dst, s.arrCopy(d, dst.off, a, off, n))
	case ArrayV:
		sl := src.(SliceV)
		if sl.obj == 0 {
			return
		}
		sa := s.backing(sl).(ArrayV)
		k := s.concretize(n, 128)
		do, so := s.concretize(dst.off, 128), s.concretize(sl.off, 128)
		r := append(ArrayV(nil), d...)
		copy(r[do:do+k], sa[so:so+k])
		s.setBacking(dst, r)
	default:
		s.unsupported("copy into %T", d)
	}
}

func (s *State) appendOp(a SliceV, y Value, cc *ssa.CallCommon) Value {
	c := s.ctx
	n := s.lenOf(y)
	if n.IsConst() && n.c == 0 {
		return a
	}
	total := c.Add(a.len, n)
	elem := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	_, scalar := scalarWidth(elem)
	if a.obj != 0 && s.decide(c.Ule(total, a.cap)) {
		r := SliceV{obj: a.obj, path: a.path, off: a.off, len: total, cap: a.cap}
		tail := SliceV{obj: a.obj, path: a.path, off: c.Add(a.off, a.len), len: n, cap: n}
		s.copyTo(tail, y, n)
		return r
	}
	if s.vc != nil {
		s.accessN(a, a.len, false)
		if x, ok := y.(SliceV); ok {
			s.accessN(x, n, false)
		}
	}
	ncap := total
	if a.cap.IsConst() && total.IsConst() && total.c < 2*a.cap.c && a.cap.c < 256 {
		ncap = c.Const(2*a.cap.c, 64)
	}
	if s.alloc != nil {
		s.allocCheck(ncap, uint64(max(1, s.w.eng.sizes.Sizeof(elem))))
	}
	if scalar {
		wd, _ := scalarWidth(elem)
		arr := &Arr{kind: aZero, w: wd}
		z := c.Const(0, 64)
		if a.obj != 0 {
			arr = s.arrCopy(arr, z, s.backing(a).(*Arr), a.off, a.len)
		}
		var ya *Arr
		var yo *Term
		ya, yo, _ = s.bytesOf(y)
		arr = s.arrCopy(arr, a.len, ya, yo, n)
		o := s.alloc1(arr)
		return SliceV{obj: o, off: z, len: total, cap: ncap}
	}
	k := s.concretize(total, 300)
	al := s.concretize(a.len, 300)
	kc := s.concretize(ncap, 300)
	res := s.w.newArray(elem, int64(kc)).(ArrayV)
	if a.obj != 0 && al > 0 {
		off := s.concretize(a.off, 300)
		copy(res, s.backing(a).(ArrayV)[off:off+al])
	}
	ys := y.(SliceV)
	yo := s.concretize(ys.off, 300)
	copy(res[al:k], s.backing(ys).(ArrayV)[yo:yo+k-al])
	o := s.alloc1(res)
	return SliceV{obj: o, off: c.Const(0, 64), len: c.Const(k, 64), cap: c.Const(kc, 64)}
}
