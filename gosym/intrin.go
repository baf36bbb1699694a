package main

// Models of runtime/library functions that are not interpreted from source.

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type callCtx struct {
	args []Value
	reg  int
	fn   *ssa.Function
	env  []Value
}

type intrin func(s *State, c *callCtx) (Value, bool)

var natives = map[string]intrin{}
var intrinsics = map[string]intrin{}
var redirects = map[string]string{} // function -> model function in the vsym package

func reg(names string, h intrin) {
	for _, n := range strings.Fields(names) {
		intrinsics[n] = h
	}
}

func nop(s *State, c *callCtx) (Value, bool) { return s.w.zeroResult(c.fn.Signature), false }

func (s *State) argStr(v Value) string {
	k, ok := s.constStr(v.(StrV))
	if !ok {
		s.unsupported("constant string expected")
	}
	return k
}
func (s *State) argInt(v Value) int {
	t := v.(*Term)
	if !t.IsConst() {
		return int(int64(s.concretize(t, 300)))
	}
	return int(sx(t.c, t.w))
}

func (s *State) fresh(name string) string {
	n := s.names[name]
	s.names[name] = n + 1
	if n > 0 {
		return fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func (s *State) input(kind, name string, w uint8) *Term {
	n := s.fresh(name)
	t := s.ctx.Var(n, w)
	s.inputs = append(s.inputs, inputRec{name: n, kind: kind, t: t})
	return t
}

func mkInput(kind string, w uint8) intrin {
	return func(s *State, c *callCtx) (Value, bool) {
		t := s.input(kind, s.argStr(c.args[0]), w)
		s.mutated = true
		return t, false
	}
}

func key(v Value) string { return v.(PtrV).key() }

func nilChk(s *State, v Value) PtrV {
	p := s.ptr(v)
	if p.obj == 0 {
		s.nilPanic()
	}
	return p
}

const vs = "github.com/dropmorepackets/haproxy-go/internal/vsym."

func init() {
	reg(vs+"U64", mkInput("u64", 64))
	reg(vs+"U32", mkInput("u32", 32))
	reg(vs+"U16", mkInput("u16", 16))
	reg(vs+"U8", mkInput("u8", 8))
	reg(vs+"Bool", mkInput("bool", 0))
	reg(vs+"Int", func(s *State, c *callCtx) (Value, bool) {
		lo, hi := s.argInt(c.args[1]), s.argInt(c.args[2])
		if lo == hi {
			n := s.fresh(s.argStr(c.args[0]))
			t := s.ctx.Const(uint64(int64(lo)), 64)
			s.inputs = append(s.inputs, inputRec{name: n, kind: "int", t: t})
			s.mutated = true
			return t, false
		}
		t := s.input("int", s.argStr(c.args[0]), 64)
		if lo >= 0 {
			t2 := s.ctx.And(s.ctx.Ule(s.ctx.Const(uint64(lo), 64), t), s.ctx.Ule(t, s.ctx.Const(uint64(hi), 64)))
			s.assumeHard(t2)
		} else {
			s.assumeHard(s.ctx.Sle(s.ctx.Const(uint64(int64(lo)), 64), t))
			s.assumeHard(s.ctx.Sle(t, s.ctx.Const(uint64(int64(hi)), 64)))
		}
		s.mutated = true
		return t, false
	})
	bytesIn := func(str bool) intrin {
		return func(s *State, c *callCtx) (Value, bool) {
			n := s.fresh(s.argStr(c.args[0]))
			l := c.args[1].(*Term)
			a := &Arr{kind: aSym, w: 8, name: "B:" + n}
			s.inputs = append(s.inputs, inputRec{name: n, kind: "bytes", arr: a, len: l})
			s.mutated = true
			z := s.ctx.Const(0, 64)
			if str {
				return StrV{arr: a, off: z, len: l}, false
			}
			o := s.alloc1(a)
			return SliceV{obj: o, off: z, len: l, cap: l}, false
		}
	}
	reg(vs+"Bytes", bytesIn(false))
	reg(vs+"String", bytesIn(true))
	reg(vs+"Choose", func(s *State, c *callCtx) (Value, bool) {
		n := s.argInt(c.args[1])
		k := s.choose(n)
		t := s.ctx.Const(uint64(k), 64)
		s.inputs = append(s.inputs, inputRec{name: s.fresh(s.argStr(c.args[0])), kind: "choice", t: t})
		s.mutated = true
		return t, false
	})
	reg(vs+"Concrete", func(s *State, c *callCtx) (Value, bool) {
		return s.ctx.Const(s.concretize(c.args[0].(*Term), 5000), 64), false
	})
	reg(vs+"Fork", func(s *State, c *callCtx) (Value, bool) {
		return s.ctx.Bool(s.decide(c.args[0].(*Term))), false
	})
	reg(vs+"Param", func(s *State, c *callCtx) (Value, bool) {
		n := s.argStr(c.args[0])
		if v, ok := s.w.job.Params[n]; ok {
			return s.ctx.Const(uint64(int64(v)), 64), false
		}
		return c.args[1], false
	})
	reg(vs+"Symbolic", func(s *State, c *callCtx) (Value, bool) { return s.ctx.tTrue, false })
	reg(vs+"Assume", func(s *State, c *callCtx) (Value, bool) {
		if !s.decideAssume(c.args[0].(*Term)) {
			panic(pathEnd{"assume"})
		}
		return nil, false
	})
	reg(vs+"Assert", func(s *State, c *callCtx) (Value, bool) {
		s.assertTerm(c.args[0].(*Term), s.argStr(c.args[1]))
		s.mutated = true
		return nil, false
	})
	reg(vs+"AssertEq", func(s *State, c *callCtx) (Value, bool) {
		s.assertTerm(s.ctx.Eq(c.args[0].(*Term), c.args[1].(*Term)), s.argStr(c.args[2]))
		s.mutated = true
		return nil, false
	})
	reg(vs+"AssertEqBytes", func(s *State, c *callCtx) (Value, bool) {
		msg := s.argStr(c.args[2])
		aa, ao, al := s.bytesOf(c.args[0])
		ba, bo, bl := s.bytesOf(c.args[1])
		s.assertTerm(s.ctx.Eq(al, bl), msg+" (length)")
		if !(aa == ba && ao == bo) && s.quick(s.ctx.Eq(al, s.ctx.Const(0, 64))) != 1 {
			// arbitrary position i < len
			if lo, hi := s.rng(al); lo == hi && hi <= 24 {
				e := s.ctx.tTrue
				for i := uint64(0); i < hi; i++ {
					e = s.ctx.And(e, s.ctx.Eq(s.arrRead(aa, s.ctx.AddC(ao, int64(i))), s.arrRead(ba, s.ctx.AddC(bo, int64(i)))))
				}
				s.assertTerm(e, msg+" (contents)")
			} else {
				i := s.ctx.Var(s.fresh("$idx"), 64)
				in := s.ctx.Ult(i, al)
				sub := s.clone()
				sub.assume(in)
				if sub.model == nil {
					r, m := sub.check(nil, true)
					if r == Unsat {
						s.mutated = true
						return nil, false
					}
					sub.model = m
				}
				e := s.ctx.Eq(sub.arrRead(aa, s.ctx.Add(ao, i)), sub.arrRead(ba, s.ctx.Add(bo, i)))
				sub.assertTerm(e, msg+" (contents)")
			}
		}
		s.mutated = true
		return nil, false
	})
	reg(vs+"EqBytes", func(s *State, c *callCtx) (Value, bool) {
		aa, ao, al := s.bytesOf(c.args[0])
		ba, bo, bl := s.bytesOf(c.args[1])
		return s.bytesEq(aa, ao, al, ba, bo, bl), false
	})
	reg(vs+"Cover", func(s *State, c *callCtx) (Value, bool) {
		s.cover(s.argStr(c.args[0]))
		return nil, false
	})
	reg(vs+"Observe", func(s *State, c *callCtx) (Value, bool) {
		s.obs = append(s.obs, Observation{name: s.argStr(c.args[0]), kind: 'u', val: c.args[1].(*Term)})
		s.mutated = true
		return nil, false
	})
	reg(vs+"ObserveBytes", func(s *State, c *callCtx) (Value, bool) {
		a, o, l := s.bytesOf(c.args[1])
		s.obs = append(s.obs, Observation{name: s.argStr(c.args[0]), kind: 'b', str: StrV{a, o, l}})
		s.mutated = true
		return nil, false
	})
	reg(vs+"LimitAlloc", func(s *State, c *callCtx) (Value, bool) {
		t := c.args[0].(*Term)
		if t.IsConst() && t.c == 0 {
			s.alloc = nil
		} else {
			s.alloc = t
		}
		s.mutated = true
		return nil, false
	})
	reg(vs+"Explore", func(s *State, c *callCtx) (Value, bool) { // schedule exploration with n preemptions
		s.schedN = s.argInt(c.args[0])
		s.mutated = true
		return nil, false
	})
	// what listens is supplied by the harness
	reg(vs+"OnListen", func(s *State, c *callCtx) (Value, bool) {
		s.setSide("listen", c.args[0].(IfaceV).val)
		return nil, false
	})
	listen := func(s *State, c *callCtx) (Value, bool) {
		fv, ok := s.side["listen"].(FuncV)
		if !ok {
			s.unsupported("%s", c.fn)
		}
		n := len(c.args)
		s.pushFrame(fv.fn, []Value{c.args[n-2], c.args[n-1]}, fv.env, c.reg)
		return nil, true
	}
	reg("net.Listen", listen)
	reg("(*net.ListenConfig).Listen", listen)
	reg(vs+"Pools", func(s *State, c *callCtx) (Value, bool) {
		s.setSide("perP", s.ctx.Const(1, 64))
		return nil, false
	})
	reg(vs+"Races", func(s *State, c *callCtx) (Value, bool) {
		s.vc = newRace()
		for _, g := range s.gs {
			s.vc.clocks[g.id] = vclock(nil).set(g.id, 1)
		}
		s.mutated = true
		return nil, false
	})
	reg(vs+"Yield", func(s *State, c *callCtx) (Value, bool) {
		s.preempt()
		return nil, false
	})
	reg(vs+"Settle", func(s *State, c *callCtx) (Value, bool) {
		g := s.g()
		if g.phase == 1 {
			g.phase = 0
			s.mutated = true
			if s.vc != nil {
				// everything that happened is before what follows
				me := s.vc.clocks[g.id]
				for _, cl := range s.vc.clocks {
					me = me.join(cl)
				}
				for id, cl := range s.vc.clocks {
					if id != g.id {
						s.vc.clocks[id] = cl.inc(id)
					}
				}
				s.vc.clocks[g.id] = me
			}
			return nil, false
		}
		s.block("settle")
		return nil, false
	})
	reg(vs+"Horizon", func(s *State, c *callCtx) (Value, bool) {
		s.setSide("horizon", c.args[0].(*Term))
		return nil, false
	})
	reg(vs+"Now", func(s *State, c *callCtx) (Value, bool) { return s.now, false })
	reg(vs+"Done", func(s *State, c *callCtx) (Value, bool) { panic(pathEnd{"done"}) })
	reg(vs+"IsNilPtr", func(s *State, c *callCtx) (Value, bool) { return nil, false })
	reg(vs+"Goroutines", func(s *State, c *callCtx) (Value, bool) {
		n := 0
		for _, g := range s.gs {
			if !g.done {
				n++
			}
		}
		return s.ctx.Const(uint64(n), 64), false
	})
	reg(vs+"ActiveTimers", func(s *State, c *callCtx) (Value, bool) {
		n := 0
		for _, t := range s.timers {
			if t.active && t.gid == 0 {
				n++
			}
		}
		return s.ctx.Const(uint64(n), 64), false
	})

	// --- reflection helpers used by the fmt model ---
	reg(vs+"kindOf", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		k := 0
		if iv.typ != nil {
			k = int(kindOf(iv.typ))
		}
		return s.ctx.Const(uint64(k), 64), false
	})
	reg(vs+"intOf", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		return s.to64(iv.val.(*Term), iv.typ), false
	})
	reg(vs+"boolOf", func(s *State, c *callCtx) (Value, bool) { return c.args[0].(IfaceV).val, false })
	reg(vs+"strOf", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		return s.convert(iv.val, iv.typ, types.Typ[types.String]), false
	})
	reg(vs+"isBytes", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		ok := false
		if iv.typ != nil {
			if sl, is := iv.typ.Underlying().(*types.Slice); is {
				w, sc := scalarWidth(sl.Elem())
				ok = sc && w == 8
			}
		}
		return s.ctx.Bool(ok), false
	})
	reg(vs+"typeName", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		if iv.typ == nil {
			return s.w.strLit("<nil>"), false
		}
		return s.w.strLit(types.TypeString(iv.typ, func(p *types.Package) string { return p.Name() })), false
	})
	reg(vs+"comparable_", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		return s.ctx.Bool(iv.typ == nil || types.Comparable(iv.typ)), false
	})
	reg(vs+"fmtInt", func(s *State, c *callCtx) (Value, bool) {
		return s.fmtInt(c.args[0].(*Term), s.argInt(c.args[1]), c.args[2].(*Term)), false
	})
	for _, pk := range []string{"strconv.", "internal/strconv."} {
		reg(pk+"Itoa", func(s *State, c *callCtx) (Value, bool) {
			return s.fmtInt(c.args[0].(*Term), 10, s.ctx.Bool(true)), false
		})
		for _, f := range []string{"FormatInt", "FormatUint"} {
			signed := f == "FormatInt"
			reg(pk+f, func(s *State, c *callCtx) (Value, bool) {
				b := s.argInt(c.args[1])
				if b != 10 && b != 16 {
					s.unsupported("number base")
				}
				return s.fmtInt(c.args[0].(*Term), b, s.ctx.Bool(signed)), false
			})
		}
	}
	reg(vs+"asTarget", func(s *State, c *callCtx) (Value, bool) {
		// errors.As: assign err to *target if assignable
		err := c.args[0].(IfaceV)
		tgt := c.args[1].(IfaceV)
		pt, ok := tgt.typ.Underlying().(*types.Pointer)
		if !ok {
			panic(goPanic{s.w.runtimeError(s, "errors: target must be a non-nil pointer")})
		}
		el := pt.Elem()
		if it, isI := el.Underlying().(*types.Interface); isI {
			if err.typ != nil && s.w.eng.implements(err.typ, it) {
				s.store(tgt.val.(PtrV), err)
				return s.ctx.tTrue, false
			}
			return s.ctx.tFals, false
		}
		if err.typ != nil && types.Identical(err.typ, el) {
			s.store(tgt.val.(PtrV), err.val)
			return s.ctx.tTrue, false
		}
		return s.ctx.tFals, false
	})

	redirects["errors.Is"] = "errorsIs"
	redirects["errors.As"] = "errorsAs"
	redirects["fmt.Errorf"] = "errorf"
	redirects["fmt.Sprintf"] = "sprintf"
	redirects["fmt.Sprint"] = "sprint"
	redirects["fmt.Sprintln"] = "sprintln"
	redirects["fmt.Fprintf"] = "fprintf"
	redirects["fmt.Fprint"] = "fprint"
	redirects["fmt.Fprintln"] = "fprintln"
	redirects["internal/bytealg.IndexByte"] = "indexByte"
	redirects["internal/bytealg.IndexByteString"] = "indexByteString"
	redirects["internal/bytealg.Count"] = "countByte"
	redirects["internal/bytealg.CountString"] = "countByteString"
	redirects["internal/bytealg.Compare"] = "compareBytes"
	redirects["internal/bytealg.Index"] = "indexBytes"
	redirects["internal/bytealg.IndexString"] = "indexString"

	reg("internal/bytealg.Equal bytes.Equal", func(s *State, c *callCtx) (Value, bool) {
		aa, ao, al := s.bytesOf(c.args[0])
		ba, bo, bl := s.bytesOf(c.args[1])
		return s.bytesEq(aa, ao, al, ba, bo, bl), false
	})
	reg("internal/bytealg.MakeNoZero", func(s *State, c *callCtx) (Value, bool) {
		n := c.args[0].(*Term)
		return s.makeSlice(types.NewSlice(types.Typ[types.Uint8]), n, n), false
	})
	reg("fmt.isSpace unicode.IsSpace", func(s *State, c *callCtx) (Value, bool) {
		return s.runeIn(c.args[0].(*Term), [][2]uint64{{9, 13}, {32, 32}, {0x85, 0x85}, {0xa0, 0xa0}, {0x1680, 0x1680}, {0x2000, 0x200a}, {0x2028, 0x2029}, {0x202f, 0x202f}, {0x205f, 0x205f}, {0x3000, 0x3000}}), false
	})

	// logging and diagnostics have no observable effect on the properties
	reg("log.Println log.Printf log.Print (*log.Logger).Printf (*log.Logger).Println runtime.KeepAlive runtime.SetFinalizer runtime.GC runtime/debug.SetGCPercent", nop)
	reg("internal/race.Acquire internal/race.Release internal/race.ReleaseMerge internal/race.Disable internal/race.Enable internal/race.Read internal/race.Write internal/race.ReadRange internal/race.WriteRange internal/race.Errors", nop)
	reg("runtime.Stack", func(s *State, c *callCtx) (Value, bool) { return s.ctx.Const(0, 64), false })
	reg("runtime.NumCPU runtime.GOMAXPROCS", func(s *State, c *callCtx) (Value, bool) {
		n := 2
		if v, ok := s.w.job.Params["cpus"]; ok {
			n = v
		}
		return s.ctx.Const(uint64(n), 64), false
	})
	reg("runtime.Gosched", func(s *State, c *callCtx) (Value, bool) { s.preempt(); return nil, false })
	reg("(syscall.Errno).Error", func(s *State, c *callCtx) (Value, bool) { return s.w.strLit("errno"), false })
	reg("os.Hostname", func(s *State, c *callCtx) (Value, bool) {
		return TupleV{s.w.strLit("symhost"), IfaceV{}}, false
	})
	reg("os.Getpid", func(s *State, c *callCtx) (Value, bool) { return s.ctx.Const(4242, 64), false })
	reg("internal/abi.NoEscape internal/abi.Escape", func(s *State, c *callCtx) (Value, bool) { return c.args[0], false })
	reg("unique.Make", func(s *State, c *callCtx) (Value, bool) {
		k := fmt.Sprintf("%s:%s", c.fn.Signature.Params().At(0).Type(), s.canonKey(c.args[0]))
		if v, ok := s.unique[k]; ok {
			return v, false
		}
		if v, ok := s.w.baseUnique[k]; ok {
			return v, false
		}
		o := s.alloc1(c.args[0])
		r := StructV{PtrV{obj: o}}
		s.unique[k] = r
		s.mutated = true
		return r, false
	})
	reg("(unique.Handle).Value", func(s *State, c *callCtx) (Value, bool) {
		return s.load(c.args[0].(StructV)[0].(PtrV)), false
	})

	// --- sync ---
	reg("(*sync.Mutex).Lock (*sync.RWMutex).Lock", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		s.lock(p.key())
		return nil, false
	})
	reg("(*sync.Mutex).TryLock (*sync.RWMutex).TryLock", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		return s.ctx.Bool(s.tryLock(p.key())), false
	})
	reg("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		s.unlock(p.key())
		return nil, false
	})
	reg("(*sync.RWMutex).RLock", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		s.rlock(p.key())
		return nil, false
	})
	reg("(*sync.RWMutex).RUnlock", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		s.runlock(p.key())
		return nil, false
	})
	reg("(*sync.RWMutex).TryRLock", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		k := p.key()
		if s.sideInt("w"+k) != 0 {
			return s.ctx.tFals, false
		}
		s.setSide("r"+k, s.sideInt("r"+k)+1)
		s.vcAcq(k)
		return s.ctx.tTrue, false
	})
	// sync.Map: the contents are a map[any]any beside the object
	reg(vs+"smapOf", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		k := "smap" + p.key()
		s.vcAcq(k)
		if v, ok := s.side[k]; ok {
			return v, false
		}
		if v, ok := s.w.baseSide[k]; ok {
			return v, false
		}
		v := MapV{s.alloc1(&MapObj{})}
		s.setSide(k, v)
		return v, false
	})
	reg(vs+"smapDone", func(s *State, c *callCtx) (Value, bool) {
		s.vcRel("smap" + nilChk(s, c.args[0]).key())
		s.mutated = true
		return nil, false
	})
	for _, m := range []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete", "Range", "Clear"} {
		redirects["(*sync.Map)."+m] = "smap" + m
	}
	redirects["sort.Slice"] = "sortSlice"
	redirects["sort.SliceStable"] = "sortSlice"
	reg(vs+"anyLen", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		if at, ok := iv.typ.Underlying().(*types.Array); ok {
			return s.ctx.Const(uint64(at.Len()), 64), false
		}
		return s.lenOf(iv.val), false
	})
	reg(vs+"anyIndex", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		i := c.args[1].(*Term)
		box := func(t types.Type, v Value) Value {
			if _, ok := t.Underlying().(*types.Interface); ok {
				return v
			}
			return IfaceV{typ: t, val: v}
		}
		switch u := iv.typ.Underlying().(type) {
		case *types.Slice:
			x := iv.val.(SliceV)
			return box(u.Elem(), s.load(PtrV{x.obj, &Path{parent: x.path, idx: s.ctx.Add(x.off, i)}})), false
		case *types.Array:
			o := s.alloc1(iv.val)
			return box(u.Elem(), s.load(PtrV{o, &Path{idx: i}})), false
		}
		s.unsupported("index of %s", iv.typ)
		return nil, false
	})
	reg(vs+"anyFields", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		n := 0
		switch u := iv.typ.Underlying().(type) {
		case *types.Struct:
			n = u.NumFields()
		case *types.Pointer:
			if iv.val.(PtrV).obj == 0 {
				n = -1
			}
		}
		return s.ctx.Const(uint64(int64(n)), 64), false
	})
	reg(vs+"anyField", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		i := s.argInt(c.args[1])
		t := iv.typ.Underlying().(*types.Struct).Field(i).Type()
		v := iv.val.(StructV)[i]
		if _, ok := t.Underlying().(*types.Interface); ok {
			return v, false
		}
		return IfaceV{typ: t, val: v}, false
	})
	reg(vs+"anyFieldName", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		return s.w.strLit(iv.typ.Underlying().(*types.Struct).Field(s.argInt(c.args[1])).Name()), false
	})
	reg(vs+"anyDeref", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		p, ok := iv.val.(PtrV)
		if !ok || p.obj == 0 {
			return IfaceV{}, false
		}
		t := iv.typ.Underlying().(*types.Pointer).Elem()
		if _, ok := t.Underlying().(*types.Interface); ok {
			return IfaceV{}, false
		}
		return IfaceV{typ: t, val: s.load(p)}, false
	})
	reg(vs+"anySwap", func(s *State, c *callCtx) (Value, bool) {
		x := c.args[0].(IfaceV).val.(SliceV)
		at := func(i *Term) PtrV { return PtrV{x.obj, &Path{parent: x.path, idx: s.ctx.Add(x.off, i)}} }
		p, q := at(c.args[1].(*Term)), at(c.args[2].(*Term))
		a, b := s.load(p), s.load(q)
		s.store(p, b)
		s.store(q, a)
		return nil, false
	})
	reg("maps.clone", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		m := iv.val.(MapV)
		if m.obj == 0 {
			return iv, false
		}
		return IfaceV{typ: iv.typ, val: MapV{s.alloc1(s.get(m.obj))}}, false
	})
	reg("reflect.DeepEqual", func(s *State, c *callCtx) (Value, bool) {
		return s.ctx.Bool(s.deepEq(c.args[0], c.args[1], types.NewInterfaceType(nil, nil), 0)), false
	})
	reg("runtime.NumGoroutine", func(s *State, c *callCtx) (Value, bool) {
		n := 0
		for _, g := range s.gs {
			if !g.done {
				n++
			}
		}
		return s.ctx.Const(uint64(n), 64), false
	})
	// the environment is empty; standard output and logs are not observed
	reg("time.runtimeIsBubbled os.Getenv os.LookupEnv syscall.Getenv fmt.Print fmt.Printf fmt.Println", nop)
	for _, f := range []string{"Debug", "Info", "Warn", "Error"} {
		reg("log/slog."+f+" log/slog."+f+"Context (*log/slog.Logger)."+f+" (*log/slog.Logger)."+f+"Context", nop)
	}
	reg("log/slog.Log log/slog.LogAttrs (*log/slog.Logger).Log (*log/slog.Logger).LogAttrs (*log/slog.Logger).Enabled log.Output (*log.Logger).Output (*log.Logger).Print", nop)
	reg("(*sync.Cond).Wait", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		k := "cond" + p.key()
		g := s.g()
		lk, rd := s.locker(s.field(p, c.fn, "L"))
		if g.phase == 0 {
			s.preempt()
			if rd {
				s.runlock(lk)
			} else {
				s.unlock(lk)
			}
			s.setSide(k, append(append([]Value{}, s.sideList(k)...), g.id))
			g.phase = 2
			s.block(k)
		}
		if g.phase == 2 { // spurious re-execution without a signal
			s.block(k)
		}
		// phase 3: signalled, reacquire
		s.vcAcq(k)
		if rd {
			s.rlock(lk)
		} else {
			s.lock(lk)
		}
		g.phase = 0
		return nil, false
	})
	signal := func(all bool) intrin {
		return func(s *State, c *callCtx) (Value, bool) {
			p := nilChk(s, c.args[0])
			s.preempt()
			k := "cond" + p.key()
			l := s.sideList(k)
			s.vcRel(k)
			for len(l) > 0 {
				id := l[0].(int)
				l = l[1:]
				for _, g := range s.gs {
					if g.id == id {
						g.phase = 3
						g.blocked = false
						g.waitKey = ""
					}
				}
				if !all {
					break
				}
			}
			s.setSide(k, append([]Value{}, l...))
			return nil, false
		}
	}
	reg("(*sync.Cond).Signal", signal(false))
	reg("(*sync.Cond).Broadcast", signal(true))
	reg("(*sync.WaitGroup).Add", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		k := "wg" + p.key()
		n := s.sideInt(k) + s.argInt(c.args[1])
		if n < 0 {
			panic(goPanic{s.w.runtimeError(s, "sync: negative WaitGroup counter")})
		}
		s.vcRel(k)
		s.setSide(k, n)
		if n == 0 {
			s.wake(k)
		}
		return nil, false
	})
	reg("(*sync.WaitGroup).Done", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		k := "wg" + p.key()
		n := s.sideInt(k) - 1
		if n < 0 {
			panic(goPanic{s.w.runtimeError(s, "sync: negative WaitGroup counter")})
		}
		s.vcRel(k)
		s.setSide(k, n)
		if n == 0 {
			s.wake(k)
		}
		return nil, false
	})
	reg("(*sync.WaitGroup).Wait", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		if s.sideInt("wg"+p.key()) != 0 {
			s.block("wg" + p.key())
		}
		s.vcAcq("wg" + p.key())
		return nil, false
	})
	reg("(*sync.Pool).Get", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		// as with a single P: a private slot before a stack
		k := s.poolKey(p)
		if v := s.sideList("own" + k); len(v) > 0 {
			s.vcAcq(k + poolVal(v[0]))
			s.setSide("own"+k, []Value{})
			return v[0], false
		}
		l := s.sideList(k)
		if len(l) > 0 {
			s.vcAcq(k + poolVal(l[len(l)-1]))
			s.setSide(k, append([]Value{}, l[:len(l)-1]...))
			return l[len(l)-1], false
		}
		fv := s.field(p, c.fn, "New").(FuncV)
		if fv.fn == nil {
			return IfaceV{}, false
		}
		s.pushFrame(fv.fn, nil, fv.env, c.reg)
		return nil, true
	})
	reg("(*sync.Pool).Put", func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		if iv := c.args[1].(IfaceV); iv.typ == nil {
			return nil, false
		}
		k := s.poolKey(p)
		// a Put synchronizes with the Get that returns the same value
		s.vcRel(k + poolVal(c.args[1]))
		if len(s.sideList("own"+k)) == 0 {
			s.setSide("own"+k, []Value{c.args[1]})
			return nil, false
		}
		s.setSide(k, append(append([]Value{}, s.sideList(k)...), c.args[1]))
		return nil, false
	})

	// --- atomics ---
	aload := func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		s.vcAcq("a" + p.key())
		return s.load(p), false
	}
	astore := func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		s.vcAcq("a" + p.key())
		s.vcRel("a" + p.key())
		s.store(p, c.args[1])
		return nil, false
	}
	aadd := func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		s.vcAcq("a" + p.key())
		s.vcRel("a" + p.key())
		v := s.ctx.Add(s.load(p).(*Term), c.args[1].(*Term))
		s.store(p, v)
		return v, false
	}
	abit := func(op Op) intrin {
		return func(s *State, c *callCtx) (Value, bool) {
			p := nilChk(s, c.args[0])
			s.preempt()
			s.vcAcq("a" + p.key())
			s.vcRel("a" + p.key())
			o := s.load(p).(*Term)
			s.store(p, s.ctx.Bin(op, o, c.args[1].(*Term)))
			return o, false
		}
	}
	aswap := func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		s.vcAcq("a" + p.key())
		s.vcRel("a" + p.key())
		o := s.load(p)
		s.store(p, c.args[1])
		return o, false
	}
	acas := func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		s.vcAcq("a" + p.key())
		s.vcRel("a" + p.key())
		o := s.load(p)
		if s.decide(s.eqVal(o, c.args[1], c.fn.Signature.Params().At(1).Type())) {
			s.store(p, c.args[2])
			return s.ctx.tTrue, false
		}
		return s.ctx.tFals, false
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg("sync/atomic.Load"+t, aload)
		reg("sync/atomic.And"+t, abit(OpAnd))
		reg("sync/atomic.Or"+t, abit(OpOr))
		reg("sync/atomic.Store"+t, astore)
		reg("sync/atomic.Add"+t, aadd)
		reg("sync/atomic.Swap"+t, aswap)
		reg("sync/atomic.CompareAndSwap"+t, acas)
	}
	// atomic.Value keeps its payload in field v
	vfield := func(s *State, v Value) PtrV { return nilChk(s, v).field(0) }
	reg("(*sync/atomic.Value).Load", func(s *State, c *callCtx) (Value, bool) {
		s.preempt()
		p := vfield(s, c.args[0])
		s.vcAcq("a" + p.key())
		return s.load(p), false
	})
	reg("(*sync/atomic.Value).Store", func(s *State, c *callCtx) (Value, bool) {
		s.preempt()
		p := vfield(s, c.args[0])
		s.vcRel("a" + p.key())
		s.store(p, c.args[1])
		return nil, false
	})
	reg("(*sync/atomic.Value).Swap", func(s *State, c *callCtx) (Value, bool) {
		s.preempt()
		p := vfield(s, c.args[0])
		s.vcAcq("a" + p.key())
		s.vcRel("a" + p.key())
		o := s.load(p)
		s.store(p, c.args[1])
		return o, false
	})
	reg("(*sync/atomic.Value).CompareAndSwap", func(s *State, c *callCtx) (Value, bool) {
		s.preempt()
		p := vfield(s, c.args[0])
		s.vcAcq("a" + p.key())
		s.vcRel("a" + p.key())
		o := s.load(p)
		if s.decide(s.eqVal(o, c.args[1], types.NewInterfaceType(nil, nil))) {
			s.store(p, c.args[2])
			return s.ctx.tTrue, false
		}
		return s.ctx.tFals, false
	})

	// --- time ---
	reg("time.Sleep", func(s *State, c *callCtx) (Value, bool) {
		g := s.g()
		if g.phase == 1 {
			g.phase = 0
			s.mutated = true
			return nil, false
		}
		s.preempt()
		s.addTimer(-1-g.id, timerObj{gid: g.id + 1}, c.args[0].(*Term))
		s.block("sleep")
		return nil, false
	})
	newTimer := func(period bool) intrin {
		return func(s *State, c *callCtx) (Value, bool) {
			pt := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
			d := c.args[0].(*Term)
			if period {
				if !s.decide(s.ctx.Slt(s.ctx.Const(0, 64), d)) {
					panic(goPanic{s.w.runtimeError(s, "non-positive interval for NewTicker")})
				}
			}
			s.decide(s.ctx.Slt(s.ctx.Const(0, 64), d))
			ch := s.alloc1(&ChanObj{cap: 1, elem: s.w.eng.timeType})
			st := append(StructV(nil), s.w.zero(pt).(StructV)...)
			st[0] = ChanV{ch}
			o := s.alloc1(st)
			t := timerObj{ch: ch}
			if period {
				t.period = d
			}
			s.addTimer(o, t, d)
			return PtrV{obj: o}, false
		}
	}
	reg("time.NewTimer", newTimer(false))
	reg("time.NewTicker", newTimer(true))
	reg("time.After", func(s *State, c *callCtx) (Value, bool) {
		ch := s.alloc1(&ChanObj{cap: 1, elem: s.w.eng.timeType})
		s.addTimer(ch, timerObj{ch: ch}, c.args[0].(*Term))
		return ChanV{ch}, false
	})
	reg("time.AfterFunc", func(s *State, c *callCtx) (Value, bool) {
		pt := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Pointer).Elem()
		o := s.alloc1(s.w.zero(pt))
		s.addTimer(o, timerObj{fn: c.args[1]}, c.args[0].(*Term))
		return PtrV{obj: o}, false
	})
	stop := func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		t := s.timers[p.obj]
		was := t.active
		t.active = false
		s.timers[p.obj] = t
		s.drain(t)
		if c.fn.Signature.Results().Len() == 0 {
			return nil, false
		}
		return s.ctx.Bool(was), false
	}
	reset := func(s *State, c *callCtx) (Value, bool) {
		p := nilChk(s, c.args[0])
		s.preempt()
		t := s.timers[p.obj]
		was := t.active
		d := c.args[1].(*Term)
		if t.period != nil {
			if !s.decide(s.ctx.Slt(s.ctx.Const(0, 64), d)) {
				panic(goPanic{s.w.runtimeError(s, "non-positive interval for Ticker.Reset")})
			}
			t.period = d
		}
		s.decide(s.ctx.Slt(s.ctx.Const(0, 64), d))
		s.drain(t)
		s.mutated = false
		s.addTimer(p.obj, t, d)
		if c.fn.Signature.Results().Len() == 0 {
			return nil, false
		}
		return s.ctx.Bool(was), false
	}
	reg("(*time.Timer).Stop (*time.Ticker).Stop", stop)
	reg("(*time.Timer).Reset (*time.Ticker).Reset", reset)
	reg("time.runtimeNano runtime.nanotime", func(s *State, c *callCtx) (Value, bool) { return s.now, false })
	reg("time.Now", func(s *State, c *callCtx) (Value, bool) { return s.nowTime(), false })
	initReflect()
}

func (s *State) drain(t timerObj) {
	if t.ch > 0 {
		co := s.get(t.ch).(*ChanObj)
		if len(co.buf) > 0 {
			n := *co
			n.buf = nil
			s.set(t.ch, &n)
		}
	}
	s.mutated = true
}

func (s *State) runeIn(r *Term, rs [][2]uint64) *Term {
	c := s.ctx
	res := c.tFals
	for _, x := range rs {
		if x[0] == x[1] {
			res = c.Or(res, c.Eq(r, c.Const(x[0], 32)))
		} else {
			res = c.Or(res, c.And(c.Ule(c.Const(x[0], 32), r), c.Ule(r, c.Const(x[1], 32))))
		}
	}
	return res
}

// field loads the named field of the struct behind p (receiver of fn).
func (s *State) field(p PtrV, fn *ssa.Function, name string) Value {
	st := fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return s.load(p.field(i))
		}
	}
	s.unsupported("no field %s", name)
	return nil
}

func (s *State) canonKey(v Value) string {
	switch x := v.(type) {
	case *Term:
		if !x.IsConst() {
			return fmt.Sprint(s.concretize(x, 300))
		}
		return fmt.Sprint(x.c)
	case StrV:
		k, ok := s.constStr(x)
		if !ok {
			s.unsupported("unique.Make of symbolic string")
		}
		return fmt.Sprintf("%q", k)
	case StructV:
		var p []string
		for _, f := range x {
			p = append(p, s.canonKey(f))
		}
		return "{" + strings.Join(p, ",") + "}"
	}
	s.unsupported("unique.Make of %T", v)
	return ""
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Struct:
		return reflect.Struct
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	}
	return reflect.Invalid
}

// fmtInt renders a 64-bit integer in decimal or hexadecimal. neg: signed.
func (s *State) fmtInt(t *Term, base int, signed *Term) Value {
	c := s.ctx
	if t.IsConst() {
		if signed.c != 0 {
			if base == 16 {
				return s.w.strLit(fmt.Sprintf("%x", int64(t.c)))
			}
			return s.w.strLit(fmt.Sprintf("%d", int64(t.c)))
		}
		if base == 16 {
			return s.w.strLit(fmt.Sprintf("%x", t.c))
		}
		return s.w.strLit(fmt.Sprintf("%d", t.c))
	}
	neg := false
	if signed.c != 0 {
		neg = s.decide(c.Slt(t, c.Const(0, 64)))
	}
	v := t
	if neg {
		v = c.Neg(t)
	}
	// number of digits
	n := 1
	lim := uint64(base)
	for n < 20 {
		if s.decide(c.Ult(v, c.Const(lim, 64))) {
			break
		}
		n++
		if lim > ^uint64(0)/uint64(base) {
			break
		}
		lim *= uint64(base)
	}
	lit := make([]*Term, 0, n+1)
	if neg {
		lit = append(lit, c.Const('-', 8))
	}
	p := uint64(1)
	pows := make([]uint64, n)
	for i := 0; i < n; i++ {
		pows[i] = p
		p *= uint64(base)
	}
	lo, hi := s.rng(v)
	for i := n - 1; i >= 0; i-- {
		var d *Term
		if hi < 1<<16 && hi-lo <= 1<<16 {
			x := c.Extract(v, 0, 32)
			d = c.Extract(c.Bin(OpURem, c.Bin(OpUDiv, x, c.Const(pows[i], 32)), c.Const(uint64(base), 32)), 0, 8)
		} else {
			d = c.Extract(c.Bin(OpURem, c.Bin(OpUDiv, v, c.Const(pows[i], 64)), c.Const(uint64(base), 64)), 0, 8)
		}
		ch := c.Add(d, c.Const('0', 8))
		if base == 16 {
			ch = c.Ite(c.Ult(d, c.Const(10, 8)), ch, c.Add(d, c.Const('a'-10, 8)))
		}
		lit = append(lit, ch)
	}
	return StrV{arr: &Arr{kind: aLit, w: 8, lit: lit}, off: c.Const(0, 64), len: c.Const(uint64(len(lit)), 64)}
}

// nowTime is the virtual time as a time.Time with a monotonic reading: the
// clock starts 2^32 seconds after 1885.
func (s *State) nowTime() Value {
	v := s.w.zero(s.w.eng.timeType)
	st, ok := v.(StructV)
	if !ok || len(st) != 3 {
		return v
	}
	st = append(StructV(nil), st...)
	c := s.ctx
	nsec, sec := c.Const(0, 64), c.Const(1<<32, 64)
	if s.now.IsConst() {
		nsec = c.Const(s.now.c%1e9, 64)
		sec = c.Const(1<<32+s.now.c/1e9, 64)
	}
	st[0] = c.Bin(OpOr, c.Const(1<<63, 64), c.Bin(OpOr, c.Bin(OpShl, sec, c.Const(30, 64)), nsec))
	st[1] = c.AddC(s.now, 1)
	return st
}

// poolKey names a sync.Pool; with a P for every goroutine the pool of each is
// its own.
func (s *State) poolKey(p PtrV) string {
	k := "pool" + p.key()
	if s.side["perP"] != nil {
		k += "g" + strconv.Itoa(s.g().id)
	}
	return k
}

func poolVal(v Value) string {
	if iv, ok := v.(IfaceV); ok {
		if p, ok := iv.val.(PtrV); ok {
			return ":" + p.key()
		}
	}
	return ""
}
