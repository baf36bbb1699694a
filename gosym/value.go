package main

// Runtime values of the symbolic executor. All values are immutable; heap
// updates replace whole value trees (sharing unchanged parts).

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type (
	StrV struct {
		arr      *Arr
		off, len *Term
	}
	SliceV struct {
		obj           int
		path          *Path
		off, len, cap *Term
	}
	PtrV struct {
		obj  int
		path *Path
	}
	StructV []Value
	ArrayV  []Value // arrays whose elements are not scalars
	IfaceV  struct {
		typ types.Type
		val Value
	}
	FuncV struct {
		fn  *ssa.Function
		env []Value
		nat string // engine-provided function
	}
	MapV   struct{ obj int }
	ChanV  struct{ obj int }
	TupleV []Value
	FloatV float64
	TypeV  struct{ t types.Type } // reflect.Type payload
	ReflV  struct {               // reflect.Value payload
		t    types.Type
		ptr  PtrV // location when addressable
		val  Value
		addr bool
	}
	PoisonV struct{ why string }
	IterV   struct{ obj int } // range iterator (heap object)
)

// Path from an object's root value to a sub-location.
type Path struct {
	parent *Path
	field  int
	idx    *Term // non-nil: array index
	win    int   // >0 (last step only): the win elements from idx on, as an array
}

func (p *Path) steps() []*Path {
	n := 0
	for q := p; q != nil; q = q.parent {
		n++
	}
	r := make([]*Path, n)
	for q := p; q != nil; q = q.parent {
		n--
		r[n] = q
	}
	return r
}
func (p *Path) key() string {
	if p == nil {
		return ""
	}
	var buf [48]byte
	return string(p.append(buf[:0]))
}

func (p *Path) append(b []byte) []byte {
	if p.parent != nil {
		b = p.parent.append(b)
	}
	if p.idx == nil {
		return strconv.AppendInt(append(b, '.'), int64(p.field), 10)
	}
	if p.idx.IsConst() {
		b = strconv.AppendUint(append(b, '['), p.idx.c, 10)
	} else {
		b = strconv.AppendUint(append(b, "[t"...), uint64(p.idx.id), 10)
	}
	return append(b, ']')
}

// heap-resident objects that are not plain values
type (
	MapObj struct {
		keys, vals []Value
	}
	ChanObj struct {
		buf    []Value
		cap    int
		closed bool
		elem   types.Type
		timer  int // >0: channel of that timer
	}
	IterObj struct {
		keys, vals []Value
		str        *StrV
		pos        *Term
		i          int
	}
)

// ---- symbolic arrays ----

type arrKind uint8

const (
	aZero arrKind = iota // every element is fill
	aSym                 // uninterpreted
	aLit                 // literal elements, zero outside
	aStore
	aCopy
)

type aEnt struct {
	off int64
	val *Term
}

type Arr struct {
	kind arrKind
	w    uint8
	base *Arr
	name string
	lit  []*Term
	// aStore
	sbase *Term // nil = 0
	ents  []aEnt
	lo    int64
	hi    int64
	// aCopy: elements [dst, dst+n) come from src[soff...]
	dst, soff, n *Term
	src          *Arr
	depth        int
}

func splitBase(c *Ctx, idx *Term) (*Term, int64) {
	if idx.IsConst() {
		return nil, int64(idx.c)
	}
	if idx.op == OpLin && idx.c != 0 {
		return c.Sub(idx, c.Const(idx.c, idx.w)), int64(idx.c)
	}
	return idx, 0
}

func arrStore(c *Ctx, a *Arr, idx, v *Term) *Arr {
	b, off := splitBase(c, idx)
	if a.kind == aStore && a.sbase == b && len(a.ents) < 96 {
		n := &Arr{kind: aStore, w: a.w, base: a.base, sbase: b, depth: a.depth, lo: min(a.lo, off), hi: max(a.hi, off)}
		n.ents = make([]aEnt, 0, len(a.ents)+1)
		for _, e := range a.ents {
			if e.off != off {
				n.ents = append(n.ents, e)
			}
		}
		n.ents = append(n.ents, aEnt{off, v})
		return n
	}
	return &Arr{kind: aStore, w: a.w, base: a, sbase: b, ents: []aEnt{{off, v}}, lo: off, hi: off, depth: a.depth + 1}
}

func (s *State) arrRead(a *Arr, idx *Term) *Term {
	return s.arrReadM(a, idx, nil)
}

type rdKey struct {
	a *Arr
	i *Term
}

func (s *State) arrReadM(a *Arr, idx *Term, memo map[rdKey]*Term) *Term {
	c := s.ctx
	for {
		switch a.kind {
		case aZero:
			return c.Const(0, a.w)
		case aSym:
			return c.Select(a.name, idx, a.w)
		case aLit:
			if idx.IsConst() {
				if idx.c < uint64(len(a.lit)) {
					return a.lit[idx.c]
				}
				return c.Const(0, a.w)
			}
			r := c.Const(0, a.w)
			if len(a.lit) > 4096 {
				s.unsupported("symbolic index into a %d element literal", len(a.lit))
			}
			lo, hi := s.rng(idx)
			for i := len(a.lit) - 1; i >= 0; i-- {
				if uint64(i) < lo || uint64(i) > hi {
					continue
				}
				if a.lit[i] == r && i == len(a.lit)-1 {
					continue
				}
				r = c.Ite(c.Eq(idx, c.Const(uint64(i), 64)), a.lit[i], r)
			}
			return r
		case aStore:
			b, off := splitBase(c, idx)
			if b == a.sbase {
				if off < a.lo || off > a.hi {
					a = a.base
					continue
				}
				hit := false
				for i := range a.ents {
					if a.ents[i].off == off {
						return a.ents[i].val
					}
				}
				if !hit {
					a = a.base
					continue
				}
			}
			sb := a.sbase
			if sb == nil {
				sb = c.Const(0, 64)
			}
			d := c.Sub(idx, c.AddC(sb, a.lo))
			in := c.Ult(d, c.Const(uint64(a.hi-a.lo+1), 64))
			k := s.within(idx, c.AddC(sb, a.lo), c.Const(uint64(a.hi-a.lo+1), 64))
			if k < 0 {
				k = s.implied(in)
			}
			if k == 0 {
				a = a.base
				continue
			}
			if memo == nil {
				memo = map[rdKey]*Term{}
			}
			if r, ok := memo[rdKey{a, idx}]; ok {
				return r
			}
			r := s.arrReadM(a.base, idx, memo)
			for i := range a.ents {
				eq := c.Eq(idx, c.AddC(sb, a.ents[i].off))
				switch s.quick(eq) {
				case 0:
					continue
				case 1:
					r = a.ents[i].val
					continue
				}
				r = c.Ite(eq, a.ents[i].val, r)
			}
			memo[rdKey{a, idx}] = r
			return r
		case aCopy:
			d := c.Sub(idx, a.dst)
			in := c.Ult(d, a.n)
			k := s.within(idx, a.dst, a.n)
			if k < 0 {
				k = s.implied(in)
			}
			switch k {
			case 0:
				a = a.base
				continue
			case 1:
				idx = c.Add(a.soff, d)
				a = a.src
				continue
			}
			if memo == nil {
				memo = map[rdKey]*Term{}
			}
			if r, ok := memo[rdKey{a, idx}]; ok {
				return r
			}
			x := s.arrReadM(a.src, c.Add(a.soff, d), memo)
			y := s.arrReadM(a.base, idx, memo)
			r := c.Ite(in, x, y)
			memo[rdKey{a, idx}] = r
			return r
		}
	}
}

// within decides lo <= idx < lo+n without the solver (-1: unknown).
func (s *State) within(idx, lo, n *Term) int {
	a := diffCmp(idx, lo, s.rng)
	if a == -1 {
		return 0
	}
	b := diffCmp(idx, s.ctx.Add(lo, n), s.rng)
	if a == 2 || b == 2 {
		return -1
	}
	if b == 1 || b == 3 {
		return 0
	}
	if b == -1 && (a == 1 || a == 3) {
		return 1
	}
	return -1
}

// arrCopy returns dst with dst[doff:doff+n] = src[soff:soff+n].
func (s *State) arrCopy(dst *Arr, doff *Term, src *Arr, soff, n *Term) *Arr {
	c := s.ctx
	if n.IsConst() {
		if n.c == 0 {
			return dst
		}
		if n.c <= 16 || (n.c <= 64 && src.kind == aLit && soff.IsConst()) {
			vals := make([]*Term, n.c)
			for i := range vals {
				vals[i] = s.arrRead(src, c.AddC(soff, int64(i)))
			}
			for i := range vals {
				dst = arrStore(c, dst, c.AddC(doff, int64(i)), vals[i])
			}
			return dst
		}
	}
	// peel copies of copies fully covering the range
	for src.kind == aCopy {
		d := c.Sub(soff, src.dst)
		// [soff, soff+n) inside [src.dst, src.dst+src.n)
		if s.quick(c.Ule(d, src.n)) == 1 && s.quick(c.Ule(c.Add(d, n), src.n)) == 1 {
			soff = c.Add(src.soff, d)
			src = src.src
			continue
		}
		break
	}
	if src == dst && soff == doff {
		return dst
	}
	return &Arr{kind: aCopy, w: dst.w, base: dst, dst: doff, soff: soff, n: n, src: src, depth: max(dst.depth, src.depth) + 1}
}

func (w *Worker) strLit(x string) StrV {
	if v, ok := w.strs[x]; ok {
		return v
	}
	lit := make([]*Term, len(x))
	for i := range lit {
		lit[i] = w.ctx.Const(uint64(x[i]), 8)
	}
	v := StrV{arr: &Arr{kind: aLit, w: 8, lit: lit}, off: w.ctx.Const(0, 64), len: w.ctx.Const(uint64(len(x)), 64)}
	w.strs[x] = v
	return v
}

// constStr returns the concrete contents if every byte is constant.
func (s *State) constStr(v StrV) (string, bool) {
	if !v.len.IsConst() {
		return "", false
	}
	b := make([]byte, v.len.c)
	for i := range b {
		t := s.arrRead(v.arr, s.ctx.AddC(v.off, int64(i)))
		if !t.IsConst() {
			return "", false
		}
		b[i] = byte(t.c)
	}
	return string(b), true
}

// ---- types ----

func scalarWidth(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return 64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (w *Worker) zero(t types.Type) Value {
	if wd, ok := scalarWidth(t); ok {
		return w.ctx.Const(0, wd)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return w.strLit("")
		case types.UnsafePointer, types.UntypedNil:
			return PtrV{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return FloatV(0)
		}
		return PoisonV{"zero of " + t.String()}
	case *types.Pointer:
		return PtrV{}
	case *types.Slice:
		z := w.ctx.Const(0, 64)
		return SliceV{off: z, len: z, cap: z}
	case *types.Struct:
		if v, ok := w.zeros[u]; ok {
			return v
		}
		r := make(StructV, u.NumFields())
		for i := range r {
			r[i] = w.zero(u.Field(i).Type())
		}
		w.zeros[u] = r
		return r
	case *types.Array:
		if wd, ok := scalarWidth(u.Elem()); ok {
			return &Arr{kind: aZero, w: wd}
		}
		if u.Len() > 1<<16 {
			return PoisonV{"large array"}
		}
		r := make(ArrayV, u.Len())
		for i := range r {
			r[i] = w.zero(u.Elem())
		}
		return r
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Map:
		return MapV{}
	case *types.Chan:
		return ChanV{}
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = w.zero(u.At(i).Type())
		}
		return r
	}
	return PoisonV{"zero of " + t.String()}
}

func (w *Worker) newArray(elem types.Type, n int64) Value {
	if wd, ok := scalarWidth(elem); ok {
		return &Arr{kind: aZero, w: wd}
	}
	r := make(ArrayV, n)
	z := w.zero(elem)
	for i := range r {
		r[i] = z
	}
	return r
}

func showVal(s *State, v Value) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Term:
		return x.String()
	case StrV:
		if k, ok := s.constStr(x); ok {
			return fmt.Sprintf("%q", k)
		}
		return "str(len " + x.len.String() + ")"
	case SliceV:
		return fmt.Sprintf("slice(obj%d%s off %s len %s)", x.obj, x.path.key(), x.off, x.len)
	case PtrV:
		return fmt.Sprintf("&obj%d%s", x.obj, x.path.key())
	case StructV:
		var p []string
		for _, f := range x {
			p = append(p, showVal(s, f))
		}
		return "{" + strings.Join(p, ", ") + "}"
	case IfaceV:
		if x.typ == nil {
			return "nil"
		}
		return x.typ.String() + "(" + showVal(s, x.val) + ")"
	case FuncV:
		if x.fn == nil {
			return "nilfunc"
		}
		return x.fn.String()
	}
	return fmt.Sprintf("%T", v)
}
