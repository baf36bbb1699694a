package main

// Model of the part of package reflect used by the code under test.

import (
	"go/types"
	"reflect"
	"strconv"
)

func (s *State) rtype(t types.Type) Value {
	return IfaceV{typ: s.w.eng.rtypePtr, val: TypeV{t}}
}
func rtypeOf(v Value) types.Type {
	switch x := v.(type) {
	case TypeV:
		return x.t
	case IfaceV:
		if t, ok := x.val.(TypeV); ok {
			return t.t
		}
	}
	return nil
}

func (s *State) rval(v Value) ReflV {
	r, ok := v.(ReflV)
	if !ok {
		if st, ok := v.(StructV); ok {
			_ = st // zero reflect.Value
			panic(goPanic{s.w.runtimeError(s, "reflect: call on zero Value")})
		}
		s.unsupported("reflect.Value expected, got %T", v)
	}
	return r
}
func (s *State) rload(r ReflV) Value {
	if r.addr {
		return s.load(r.ptr)
	}
	return r.val
}

func (s *State) rset(r ReflV, v Value) {
	if !r.addr {
		panic(goPanic{s.w.runtimeError(s, "reflect: using unaddressable value")})
	}
	if b, ok := r.val.(exportedMark); ok && !bool(b) {
		panic(goPanic{s.w.runtimeError(s, "reflect: using value obtained using unexported field")})
	}
	s.store(r.ptr, v)
}

func initReflect() {
	reg("reflect.ValueOf", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		if iv.typ == nil {
			return ReflV{}, false
		}
		return ReflV{t: iv.typ, val: iv.val}, false
	})
	reg("reflect.TypeOf internal/reflectlite.TypeOf", func(s *State, c *callCtx) (Value, bool) {
		iv := c.args[0].(IfaceV)
		if iv.typ == nil {
			return IfaceV{}, false
		}
		return s.rtype(iv.typ), false
	})
	reg("reflect.Zero", func(s *State, c *callCtx) (Value, bool) {
		t := rtypeOf(c.args[0])
		return ReflV{t: t, val: s.w.zero(t)}, false
	})
	reg("reflect.New", func(s *State, c *callCtx) (Value, bool) {
		t := rtypeOf(c.args[0])
		o := s.alloc1(s.w.zero(t))
		return ReflV{t: types.NewPointer(t), val: PtrV{obj: o}}, false
	})
	m := func(name string, h func(s *State, r ReflV, a []Value) Value) {
		reg("(reflect.Value)."+name, func(s *State, c *callCtx) (Value, bool) {
			return h(s, s.rval(c.args[0]), c.args[1:]), false
		})
	}
	m("Kind", func(s *State, r ReflV, a []Value) Value {
		k := reflect.Invalid
		if r.t != nil {
			k = kindOf(r.t)
		}
		return s.ctx.Const(uint64(k), 64)
	})
	m("Type", func(s *State, r ReflV, a []Value) Value { return s.rtype(r.t) })
	m("IsValid", func(s *State, r ReflV, a []Value) Value { return s.ctx.Bool(r.t != nil) })
	m("IsNil", func(s *State, r ReflV, a []Value) Value {
		switch x := s.rload(r).(type) {
		case PtrV:
			return s.ctx.Bool(x.obj == 0)
		case SliceV:
			return s.ctx.Bool(x.obj == 0)
		case IfaceV:
			return s.ctx.Bool(x.typ == nil)
		case MapV:
			return s.ctx.Bool(x.obj == 0)
		case FuncV:
			return s.ctx.Bool(x.fn == nil)
		}
		panic(goPanic{s.w.runtimeError(s, "reflect: IsNil on non-nillable value")})
	})
	m("Elem", func(s *State, r ReflV, a []Value) Value {
		switch x := s.rload(r).(type) {
		case PtrV:
			if x.obj == 0 {
				return ReflV{}
			}
			return ReflV{t: r.t.Underlying().(*types.Pointer).Elem(), ptr: x, addr: true}
		case IfaceV:
			if x.typ == nil {
				return ReflV{}
			}
			return ReflV{t: x.typ, val: x.val}
		}
		panic(goPanic{s.w.runtimeError(s, "reflect: Elem of invalid kind")})
	})
	m("NumField", func(s *State, r ReflV, a []Value) Value {
		return s.ctx.Const(uint64(r.t.Underlying().(*types.Struct).NumFields()), 64)
	})
	m("Field", func(s *State, r ReflV, a []Value) Value {
		i := s.argInt(a[0])
		st := r.t.Underlying().(*types.Struct)
		ft := st.Field(i).Type()
		if r.addr {
			return ReflV{t: ft, ptr: r.ptr.field(i), addr: true, val: exportedMark(st.Field(i).Exported())}
		}
		return ReflV{t: ft, val: r.val.(StructV)[i]}
	})
	m("CanSet", func(s *State, r ReflV, a []Value) Value {
		if b, ok := r.val.(exportedMark); ok && !bool(b) {
			return s.ctx.tFals
		}
		return s.ctx.Bool(r.addr)
	})
	m("CanAddr", func(s *State, r ReflV, a []Value) Value { return s.ctx.Bool(r.addr) })
	m("Addr", func(s *State, r ReflV, a []Value) Value {
		return ReflV{t: types.NewPointer(r.t), val: r.ptr}
	})
	m("Interface", func(s *State, r ReflV, a []Value) Value {
		v := s.rload(r)
		if iv, ok := v.(IfaceV); ok {
			return iv
		}
		return IfaceV{typ: r.t, val: v}
	})
	m("Set", func(s *State, r ReflV, a []Value) Value {
		x := s.rval(a[0])
		v := s.rload(x)
		if _, isI := r.t.Underlying().(*types.Interface); isI {
			if _, already := v.(IfaceV); !already {
				v = IfaceV{typ: x.t, val: v}
			}
		} else if !types.AssignableTo(x.t, r.t) {
			panic(goPanic{s.w.runtimeError(s, "reflect.Set: value of type "+x.t.String()+" is not assignable to type "+r.t.String())})
		}
		s.rset(r, v)
		return nil
	})
	m("SetString", func(s *State, r ReflV, a []Value) Value { s.rkind(r, reflect.String); s.rset(r, a[0]); return nil })
	m("SetBytes", func(s *State, r ReflV, a []Value) Value { s.rkind(r, reflect.Slice); s.rset(r, a[0]); return nil })
	m("Bytes", func(s *State, r ReflV, a []Value) Value { s.rkind(r, reflect.Slice); return s.rload(r) })
	m("SetZero", func(s *State, r ReflV, a []Value) Value { s.rset(r, s.w.zero(r.t)); return nil })
	m("SetBool", func(s *State, r ReflV, a []Value) Value { s.rkind(r, reflect.Bool); s.rset(r, a[0]); return nil })
	num := func(s *State, r ReflV, a []Value) Value {
		w, ok := scalarWidth(r.t)
		if !ok || w == 0 {
			panic(goPanic{s.w.runtimeError(s, "reflect: call of SetInt/SetUint on wrong kind")})
		}
		s.rset(r, s.ctx.Extract(a[0].(*Term), 0, w))
		return nil
	}
	m("SetInt", num)
	m("SetUint", num)
	m("Int", func(s *State, r ReflV, a []Value) Value { return s.to64(s.rload(r).(*Term), r.t) })
	m("Uint", func(s *State, r ReflV, a []Value) Value { return s.to64(s.rload(r).(*Term), r.t) })
	m("Bool", func(s *State, r ReflV, a []Value) Value { return s.rload(r) })
	m("Len", func(s *State, r ReflV, a []Value) Value { return s.lenOf(s.rload(r)) })
	m("String", func(s *State, r ReflV, a []Value) Value {
		if kindOf(r.t) == reflect.String {
			return s.rload(r)
		}
		return s.w.strLit("<" + r.t.String() + " Value>")
	})
	m("OverflowInt", func(s *State, r ReflV, a []Value) Value {
		w, _ := scalarWidth(r.t)
		t := a[0].(*Term)
		return s.ctx.Not(s.ctx.Eq(s.ctx.SExt(s.ctx.Extract(t, 0, w), 64), t))
	})
	m("OverflowUint", func(s *State, r ReflV, a []Value) Value {
		w, _ := scalarWidth(r.t)
		t := a[0].(*Term)
		return s.ctx.Not(s.ctx.Eq(s.ctx.ZExt(s.ctx.Extract(t, 0, w), 64), t))
	})

	// reflect.Type methods
	tm := func(name string, h func(s *State, t types.Type, a []Value) Value) {
		natives["reflect.Type."+name] = func(s *State, c *callCtx) (Value, bool) {
			return h(s, rtypeOf(c.args[0]), c.args[1:]), false
		}
	}
	tm("NumField", func(s *State, t types.Type, a []Value) Value {
		return s.ctx.Const(uint64(t.Underlying().(*types.Struct).NumFields()), 64)
	})
	tm("Kind", func(s *State, t types.Type, a []Value) Value { return s.ctx.Const(uint64(kindOf(t)), 64) })
	tm("Comparable", func(s *State, t types.Type, a []Value) Value { return s.ctx.Bool(types.Comparable(t)) })
	tm("String", func(s *State, t types.Type, a []Value) Value { return s.w.strLit(t.String()) })
	tm("Size", func(s *State, t types.Type, a []Value) Value { return s.ctx.Const(uint64(s.w.eng.sizes.Sizeof(t)), 64) })
	tm("Bits", func(s *State, t types.Type, a []Value) Value {
		return s.ctx.Const(uint64(s.w.eng.sizes.Sizeof(t))*8, 64)
	})
	tm("Len", func(s *State, t types.Type, a []Value) Value {
		return s.ctx.Const(uint64(t.Underlying().(*types.Array).Len()), 64)
	})
	tm("Name", func(s *State, t types.Type, a []Value) Value {
		if n, ok := t.(*types.Named); ok {
			return s.w.strLit(n.Obj().Name())
		}
		return s.w.strLit("")
	})
	tm("Elem", func(s *State, t types.Type, a []Value) Value {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			return s.rtype(u.Elem())
		case *types.Slice:
			return s.rtype(u.Elem())
		case *types.Array:
			return s.rtype(u.Elem())
		case *types.Chan:
			return s.rtype(u.Elem())
		case *types.Map:
			return s.rtype(u.Elem())
		}
		panic(goPanic{s.w.runtimeError(s, "reflect: Elem of invalid type "+t.String())})
	})
	tm("Field", func(s *State, t types.Type, a []Value) Value {
		i := s.argInt(a[0])
		st := t.Underlying().(*types.Struct)
		f := st.Field(i)
		sf := append(StructV(nil), s.w.zero(s.w.eng.structField).(StructV)...)
		u := s.w.eng.structField.Underlying().(*types.Struct)
		for k := 0; k < u.NumFields(); k++ {
			switch u.Field(k).Name() {
			case "Name":
				sf[k] = s.w.strLit(f.Name())
			case "PkgPath":
				if !f.Exported() {
					sf[k] = s.w.strLit(f.Pkg().Path())
				}
			case "Type":
				sf[k] = s.rtype(f.Type())
			case "Tag":
				sf[k] = s.w.strLit(st.Tag(i))
			case "Anonymous":
				sf[k] = s.ctx.Bool(f.Anonymous())
			}
		}
		return sf
	})
	reg("(reflect.StructTag).Get", func(s *State, c *callCtx) (Value, bool) {
		tag := reflect.StructTag(s.argStr(c.args[0]))
		return s.w.strLit(tag.Get(s.argStr(c.args[1]))), false
	})
	reg("(reflect.StructTag).Lookup", func(s *State, c *callCtx) (Value, bool) {
		tag := reflect.StructTag(s.argStr(c.args[0]))
		v, ok := tag.Lookup(s.argStr(c.args[1]))
		return TupleV{s.w.strLit(v), s.ctx.Bool(ok)}, false
	})
	_ = strconv.Itoa
}

type exportedMark bool

func (s *State) rkind(r ReflV, k reflect.Kind) {
	if kindOf(r.t) != k {
		panic(goPanic{s.w.runtimeError(s, "reflect: call of Set on value of kind "+kindOf(r.t).String())})
	}
}

// deepEq is reflect.DeepEqual on values of static type t.
func (s *State) deepEq(a, b Value, t types.Type, depth int) bool {
	if depth > 20 {
		s.unsupported("deep value in reflect.DeepEqual")
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		x, y := a.(IfaceV), b.(IfaceV)
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && s.deepEq(x.val, y.val, x.typ, depth+1)
	case *types.Pointer:
		x, y := s.ptr(a), s.ptr(b)
		if x.obj == 0 || y.obj == 0 {
			return x.obj == 0 && y.obj == 0
		}
		if s.decide(s.ptrEq(x, y)) {
			return true
		}
		return s.deepEq(s.load(x), s.load(y), u.Elem(), depth+1)
	case *types.Struct:
		x, y := a.(StructV), b.(StructV)
		for i := range x {
			if !s.deepEq(x[i], y[i], u.Field(i).Type(), depth+1) {
				return false
			}
		}
		return true
	case *types.Slice:
		x, y := a.(SliceV), b.(SliceV)
		if (x.obj == 0) != (y.obj == 0) || !s.decide(s.ctx.Eq(x.len, y.len)) {
			return false
		}
		if x.obj == 0 {
			return true
		}
		if w, sc := scalarWidth(u.Elem()); sc && w == 8 {
			aa, ao, al := s.bytesOf(a)
			ba, bo, bl := s.bytesOf(b)
			return s.decide(s.bytesEq(aa, ao, al, ba, bo, bl))
		}
		for i, n := uint64(0), s.concretize(x.len, 300); i < n; i++ {
			at := func(x SliceV) Value {
				return s.load(PtrV{x.obj, &Path{parent: x.path, idx: s.ctx.AddC(x.off, int64(i))}})
			}
			if !s.deepEq(at(x), at(y), u.Elem(), depth+1) {
				return false
			}
		}
		return true
	case *types.Array:
		if x, ok := a.(ArrayV); ok {
			y := b.(ArrayV)
			for i := range x {
				if !s.deepEq(x[i], y[i], u.Elem(), depth+1) {
					return false
				}
			}
			return true
		}
	case *types.Map:
		x, y := a.(MapV), b.(MapV)
		if x.obj == 0 || y.obj == 0 {
			return x.obj == 0 && y.obj == 0
		}
		s.unsupported("reflect.DeepEqual of maps")
	case *types.Signature:
		return a.(FuncV).fn == nil && b.(FuncV).fn == nil
	}
	return s.decide(s.eqVal(a, b, t))
}
