package main

// Hash-consed bit-vector/boolean terms with local simplification.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpSelect // uninterpreted array read: name, args[0]=64-bit index
	OpLin    // linear combination: sum coef_i*args_i + c
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpExtract // bits [c+w-1 : c] of args[0]
	OpIte
	OpEq
	OpUlt
	OpSlt
	OpNot  // bool
	OpBAnd // bool
	OpBOr  // bool
)

var opNames = map[Op]string{OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem", OpSRem: "bvsrem", OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpSlt: "bvslt", OpNot: "not", OpBAnd: "and", OpBOr: "or"}

// Term is immutable; w==0 means Bool.
type Term struct {
	id       int
	op       Op
	w        uint8
	c        uint64
	name     string
	args     []*Term
	coefs    []uint64 // OpLin
	ulo, uhi uint64   // sound unsigned range (BV only)
	atoms    []*Term  // cached free Var/Select atoms
	atomsOK  bool
	deps     []*Term
	depsOK   bool
}

func (t *Term) IsConst() bool { return t.op == OpConst }

type tkey struct {
	op         Op
	w          uint8
	c          uint64
	name       string
	a0, a1, a2 int
	rest       string
}

// Ctx owns a term universe. Not safe for concurrent use.
type Ctx struct {
	tab   map[tkey]*Term
	next  int
	tTrue *Term
	tFals *Term
	small [4][256]*Term // small constants of the usual widths
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[tkey]*Term{}}
	c.tFals = c.intern(&Term{op: OpConst, w: 0, c: 0})
	c.tTrue = c.intern(&Term{op: OpConst, w: 0, c: 1})
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) intern(t *Term) *Term {
	k := tkey{op: t.op, w: t.w, c: t.c, name: t.name, a0: -1, a1: -1, a2: -1}
	if t.op == OpLin {
		var sb strings.Builder
		for i, a := range t.args {
			fmt.Fprintf(&sb, "%d*%d,", t.coefs[i], a.id)
		}
		k.rest = sb.String()
	} else {
		if len(t.args) > 0 {
			k.a0 = t.args[0].id
		}
		if len(t.args) > 1 {
			k.a1 = t.args[1].id
		}
		if len(t.args) > 2 {
			k.a2 = t.args[2].id
		}
	}
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.id = c.next
	c.next++
	c.setRange(t)
	c.tab[k] = t
	return t
}

func (c *Ctx) setRange(t *Term) {
	if t.w == 0 {
		return
	}
	m := mask(t.w)
	t.ulo, t.uhi = 0, m
	switch t.op {
	case OpConst:
		t.ulo, t.uhi = t.c, t.c
	case OpZExt:
		t.ulo, t.uhi = t.args[0].ulo, t.args[0].uhi
	case OpSExt:
		if t.args[0].uhi < uint64(1)<<(t.args[0].w-1) {
			t.ulo, t.uhi = t.args[0].ulo, t.args[0].uhi
		}
	case OpIte:
		a, b := t.args[1], t.args[2]
		t.ulo, t.uhi = min(a.ulo, b.ulo), max(a.uhi, b.uhi)
	case OpAnd:
		t.uhi = min(t.args[0].uhi, t.args[1].uhi)
	case OpOr:
		n := bits.Len64(t.args[0].uhi | t.args[1].uhi)
		t.uhi = mask(uint8(n))
		if n == 0 {
			t.uhi = 0
		}
		t.ulo = max(t.args[0].ulo, t.args[1].ulo)
	case OpXor:
		n := bits.Len64(t.args[0].uhi | t.args[1].uhi)
		t.uhi = mask(uint8(n))
	case OpLShr:
		if s := t.args[1]; s.IsConst() {
			if s.c >= uint64(t.w) {
				t.uhi = 0
			} else {
				t.ulo, t.uhi = t.args[0].ulo>>s.c, t.args[0].uhi>>s.c
			}
		} else {
			t.uhi = t.args[0].uhi
		}
	case OpShl:
		if s := t.args[1]; s.IsConst() && s.c < 64 {
			if bits.Len64(t.args[0].uhi)+int(s.c) <= int(t.w) {
				t.ulo, t.uhi = t.args[0].ulo<<s.c, t.args[0].uhi<<s.c
			}
		}
	case OpURem:
		if d := t.args[1]; d.ulo > 0 {
			t.uhi = min(d.uhi-1, t.args[0].uhi)
		}
	case OpUDiv:
		if d := t.args[1]; d.ulo > 0 {
			t.ulo, t.uhi = t.args[0].ulo/d.uhi, t.args[0].uhi/d.ulo
		}
	case OpExtract:
		if t.c == 0 && t.args[0].uhi <= m {
			t.ulo, t.uhi = t.args[0].ulo, t.args[0].uhi
		}
	case OpLin:
		lo, hi, ok := linRange(t.args, t.coefs, t.c, t.w, func(a *Term) (uint64, uint64) { return a.ulo, a.uhi })
		if ok {
			t.ulo, t.uhi = lo, hi
		}
	case OpMul:
		h, l := bits.Mul64(t.args[0].uhi, t.args[1].uhi)
		if h == 0 && l <= m {
			t.ulo, t.uhi = t.args[0].ulo*t.args[1].ulo, l
		}
	}
}

// linRange computes a range for a linear combination if it provably does not wrap.
func linRange(args []*Term, coefs []uint64, c uint64, w uint8, rg func(*Term) (uint64, uint64)) (uint64, uint64, bool) {
	const lim = int64(1) << 61
	m := mask(w)
	toS := func(v uint64) (int64, bool) { // signed view of a w-bit value
		if w < 64 && v>>(w-1) == 1 {
			v |= ^m
		}
		s := int64(v)
		return s, s < lim && s > -lim
	}
	lo, ok := toS(c)
	if !ok {
		return 0, 0, false
	}
	hi := lo
	for i, a := range args {
		k, ok := toS(coefs[i])
		if !ok {
			return 0, 0, false
		}
		al, ah := rg(a)
		if ah >= uint64(lim) {
			return 0, 0, false
		}
		ak := k
		if ak < 0 {
			ak = -ak
		}
		if h, l := bits.Mul64(uint64(ak), ah); h != 0 || l >= uint64(lim) {
			return 0, 0, false
		}
		if k >= 0 {
			lo += k * int64(al)
			hi += k * int64(ah)
		} else {
			lo += k * int64(ah)
			hi += k * int64(al)
		}
		if lo <= -lim || hi >= lim {
			return 0, 0, false
		}
	}
	if lo < 0 || uint64(hi) > m {
		return 0, 0, false
	}
	return uint64(lo), uint64(hi), true
}

func (c *Ctx) Const(v uint64, w uint8) *Term {
	if w == 0 {
		return c.Bool(v != 0)
	}
	v &= mask(w)
	if v < 256 {
		k := -1
		switch w {
		case 8:
			k = 0
		case 16:
			k = 1
		case 32:
			k = 2
		case 64:
			k = 3
		}
		if k >= 0 {
			if t := c.small[k][v]; t != nil {
				return t
			}
			t := c.intern(&Term{op: OpConst, w: w, c: v})
			c.small[k][v] = t
			return t
		}
	}
	return c.intern(&Term{op: OpConst, w: w, c: v})
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFals
}
func (c *Ctx) Var(name string, w uint8) *Term { return c.intern(&Term{op: OpVar, w: w, name: name}) }
func (c *Ctx) Select(arr string, idx *Term, w uint8) *Term {
	return c.intern(&Term{op: OpSelect, w: w, name: arr, args: []*Term{idx}})
}

type lin struct {
	w     uint8
	c     uint64
	m     map[*Term]uint64
	order []*Term
}

func (l *lin) add(t *Term, k uint64) {
	switch t.op {
	case OpConst:
		l.c += k * t.c
	case OpLin:
		l.c += k * t.c
		for i, a := range t.args {
			l.addAtom(a, k*t.coefs[i])
		}
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) addAtom(t *Term, k uint64) {
	if _, ok := l.m[t]; !ok {
		l.order = append(l.order, t)
	}
	l.m[t] += k
}

func (c *Ctx) mkLin(l *lin) *Term {
	m := mask(l.w)
	l.c &= m
	sort.Slice(l.order, func(i, j int) bool { return l.order[i].id < l.order[j].id })
	var args []*Term
	var coefs []uint64
	for _, a := range l.order {
		if k := l.m[a] & m; k != 0 {
			args = append(args, a)
			coefs = append(coefs, k)
		}
	}
	if len(args) == 0 {
		return c.Const(l.c, l.w)
	}
	if len(args) == 1 && coefs[0] == 1 && l.c == 0 {
		return args[0]
	}
	return c.intern(&Term{op: OpLin, w: l.w, c: l.c, args: args, coefs: coefs})
}

func (c *Ctx) linOf(w uint8, ts []*Term, ks []uint64) *Term {
	l := &lin{w: w, m: map[*Term]uint64{}}
	for i, t := range ts {
		l.add(t, ks[i])
	}
	return c.mkLin(l)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Const(a.c+b.c, a.w)
	}
	if a.IsConst() && a.c == 0 {
		return b
	}
	if b.IsConst() && b.c == 0 {
		return a
	}
	return c.linOf(a.w, []*Term{a, b}, []uint64{1, 1})
}
func (c *Ctx) Sub(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Const(a.c-b.c, a.w)
	}
	if b.IsConst() && b.c == 0 {
		return a
	}
	if a == b {
		return c.Const(0, a.w)
	}
	return c.linOf(a.w, []*Term{a, b}, []uint64{1, ^uint64(0)})
}
func (c *Ctx) Neg(a *Term) *Term { return c.Sub(c.Const(0, a.w), a) }
func (c *Ctx) AddC(a *Term, k int64) *Term {
	return c.Add(a, c.Const(uint64(k), a.w))
}
func (c *Ctx) Mul(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.Const(a.c*b.c, a.w)
		}
		return c.linOf(a.w, []*Term{a}, []uint64{b.c})
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OpMul, w: a.w, args: []*Term{a, b}})
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	if v>>(w-1)&1 == 1 {
		v |= ^mask(w)
	}
	return int64(v)
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OpMul:
		return a * b & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case OpLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("evalBin")
}

func (c *Ctx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %v: %d vs %d", opNames[op], a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(evalBin(op, a.c, b.c, a.w), a.w)
	}
	switch op {
	case OpMul:
		return c.Mul(a, b)
	case OpAnd, OpOr, OpXor:
		if a.IsConst() || (!b.IsConst() && a.id > b.id) {
			a, b = b, a
		}
		if a == b {
			if op == OpXor {
				return c.Const(0, a.w)
			}
			return a
		}
		if b.IsConst() {
			switch {
			case op == OpAnd && b.c == 0:
				return b
			case op == OpAnd && b.c == mask(a.w):
				return a
			case op == OpAnd && b.c&(b.c+1) == 0 && a.uhi <= b.c:
				return a
			case op == OpAnd && b.c&(b.c+1) == 0:
				// low mask: zext(extract)
				n := uint8(bits.Len64(b.c))
				return c.ZExt(c.Extract(a, 0, n), a.w)
			case op != OpAnd && b.c == 0:
				return a
			case op == OpOr && b.c == mask(a.w):
				return b
			}
			if a.op == op && len(a.args) == 2 && a.args[1].IsConst() {
				return c.Bin(op, a.args[0], c.Const(evalBin(op, a.args[1].c, b.c, a.w), a.w))
			}
			if op == OpXor && b.c == mask(a.w) { // bvnot = -x-1
				return c.Sub(c.Const(mask(a.w), a.w), a)
			}
		}
	case OpShl:
		if b.IsConst() {
			if b.c >= uint64(a.w) {
				return c.Const(0, a.w)
			}
			if b.c == 0 {
				return a
			}
			return c.linOf(a.w, []*Term{a}, []uint64{1 << b.c})
		}
		if a.IsConst() && a.c == 0 {
			return a
		}
	case OpLShr, OpAShr:
		if b.IsConst() {
			if b.c == 0 {
				return a
			}
			if op == OpLShr && b.c >= uint64(a.w) {
				return c.Const(0, a.w)
			}
			if op == OpAShr && a.uhi < uint64(1)<<(a.w-1) {
				return c.Bin(OpLShr, a, b)
			}
			if op == OpLShr && b.c < 64 && a.uhi>>b.c == 0 {
				return c.Const(0, a.w)
			}
			if op == OpLShr {
				// (x >> k): zext(extract)
				return c.ZExt(c.Extract(a, uint8(b.c), a.w-uint8(b.c)), a.w)
			}
		}
		if a.IsConst() && a.c == 0 {
			return a
		}
	case OpUDiv:
		if b.IsConst() && b.c == 1 {
			return a
		}
		if b.IsConst() && b.c != 0 && b.c&(b.c-1) == 0 {
			return c.Bin(OpLShr, a, c.Const(uint64(bits.TrailingZeros64(b.c)), a.w))
		}
		if b.IsConst() && b.c > a.uhi {
			return c.Const(0, a.w)
		}
	case OpURem:
		if b.IsConst() && b.c != 0 && b.c&(b.c-1) == 0 {
			return c.Bin(OpAnd, a, c.Const(b.c-1, a.w))
		}
		if b.IsConst() && a.uhi < b.c {
			return a
		}
	case OpSDiv, OpSRem:
		h := uint64(1) << (a.w - 1)
		if a.uhi < h && b.uhi < h && b.ulo > 0 {
			if op == OpSDiv {
				return c.Bin(OpUDiv, a, b)
			}
			return c.Bin(OpURem, a, b)
		}
	}
	return c.intern(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

func (c *Ctx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrows")
	}
	if a.IsConst() {
		return c.Const(a.c, w)
	}
	if a.op == OpZExt {
		return c.ZExt(a.args[0], w)
	}
	return c.intern(&Term{op: OpZExt, w: w, args: []*Term{a}})
}
func (c *Ctx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.Const(uint64(sx(a.c, a.w)), w)
	}
	if a.uhi < uint64(1)<<(a.w-1) {
		return c.ZExt(a, w)
	}
	return c.intern(&Term{op: OpSExt, w: w, args: []*Term{a}})
}

// Extract w bits from bit lo.
func (c *Ctx) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && a.w == w {
		return a
	}
	if a.IsConst() {
		return c.Const(a.c>>lo, w)
	}
	switch a.op {
	case OpZExt:
		in := a.args[0]
		if lo >= in.w {
			return c.Const(0, w)
		}
		if lo+w <= in.w {
			return c.Extract(in, lo, w)
		}
		if lo == 0 {
			return c.ZExt(in, w)
		}
		return c.ZExt(c.Extract(in, lo, in.w-lo), w)
	case OpSExt:
		in := a.args[0]
		if lo+w <= in.w {
			return c.Extract(in, lo, w)
		}
	case OpExtract:
		return c.Extract(a.args[0], uint8(a.c)+lo, w)
	case OpIte:
		if a.args[1].IsConst() || a.args[2].IsConst() {
			return c.Ite(a.args[0], c.Extract(a.args[1], lo, w), c.Extract(a.args[2], lo, w))
		}
	case OpLin:
		if lo == 0 { // truncation distributes over linear forms
			l := &lin{w: w, m: map[*Term]uint64{}, c: a.c}
			for i, x := range a.args {
				l.add(c.Extract(x, 0, w), a.coefs[i])
			}
			return c.mkLin(l)
		}
		// shift by power of two pieces: x*2^k extract hi when all coefs share factor
	case OpAnd, OpOr, OpXor:
		if lo == 0 || a.args[1].IsConst() {
			return c.Bin(a.op, c.Extract(a.args[0], lo, w), c.Extract(a.args[1], lo, w))
		}
	}
	return c.intern(&Term{op: OpExtract, w: w, c: uint64(lo), args: []*Term{a}})
}

func (c *Ctx) Not(a *Term) *Term {
	if a.IsConst() {
		return c.Bool(a.c == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return c.intern(&Term{op: OpNot, args: []*Term{a}})
}
func (c *Ctx) And(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.c == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OpNot && a.args[0] == b || b.op == OpNot && b.args[0] == a {
		return c.tFals
	}
	return c.intern(&Term{op: OpBAnd, args: []*Term{a, b}})
}
func (c *Ctx) Or(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if b.c != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OpNot && a.args[0] == b || b.op == OpNot && b.args[0] == a {
		return c.tTrue
	}
	return c.intern(&Term{op: OpBOr, args: []*Term{a, b}})
}
func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Ite(cond, a, b *Term) *Term {
	if cond.IsConst() {
		if cond.c != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.w == 0 {
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	if a.op == OpIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.intern(&Term{op: OpIte, w: a.w, args: []*Term{cond, a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.w != b.w {
		panic(fmt.Sprintf("eq width mismatch %d %d", a.w, b.w))
	}
	if a.w == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsConst() {
			if b.c != 0 {
				return a
			}
			return c.Not(a)
		}
		return c.intern(&Term{op: OpEq, args: []*Term{a, b}})
	}
	if a.uhi < b.ulo || b.uhi < a.ulo {
		return c.tFals
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.c == b.c)
	}
	if a.op == OpLin || b.op == OpLin {
		d := c.Sub(a, b)
		if d.IsConst() {
			return c.Bool(d.c == 0)
		}
		if d.op == OpLin && len(d.args) == 1 {
			if d.coefs[0] == 1 {
				return c.eqc(d.args[0], c.Const(-d.c, d.w))
			}
			if d.coefs[0] == mask(d.w) {
				return c.eqc(d.args[0], c.Const(d.c, d.w))
			}
		}
		if d.op == OpLin && len(d.args) == 2 && d.c == 0 {
			if d.coefs[0] == 1 && d.coefs[1] == mask(d.w) || d.coefs[1] == 1 && d.coefs[0] == mask(d.w) {
				return c.eqc(d.args[0], d.args[1])
			}
		}
		if d.op != OpLin {
			return c.eqc(d, c.Const(0, d.w))
		}
		// canonical orientation: first coefficient in the lower half
		if d.coefs[0] > mask(d.w)>>1 {
			d = c.Neg(d)
		}
		rest := c.Sub(c.linOf(d.w, []*Term{d.args[0]}, []uint64{d.coefs[0]}), d) // = -(rest)
		return c.eqc(c.linOf(d.w, []*Term{d.args[0]}, []uint64{d.coefs[0]}), rest)
	}
	return c.eqc(a, b)
}

func (c *Ctx) eqc(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.uhi < b.ulo || b.uhi < a.ulo {
		return c.tFals
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return c.Bool(a.c == b.c)
		}
		switch a.op {
		case OpZExt:
			return c.Eq(a.args[0], c.Const(b.c, a.args[0].w))
		case OpIte:
			x, y := a.args[1], a.args[2]
			if x.IsConst() || y.IsConst() {
				ex, ey := c.Eq(x, b), c.Eq(y, b)
				return c.Ite(a.args[0], ex, ey)
			}
		}
	} else if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
		return c.Eq(a.args[0], b.args[0])
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return c.intern(&Term{op: OpEq, args: []*Term{a, b}})
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.tFals
	}
	if a.uhi < b.ulo {
		return c.tTrue
	}
	if a.ulo >= b.uhi {
		return c.tFals
	}
	if a.op == OpZExt && b.op == OpZExt && a.args[0].w == b.args[0].w {
		return c.Ult(a.args[0], b.args[0])
	}
	if a.op == OpZExt && b.IsConst() {
		return c.Ult(a.args[0], c.Const(b.c, a.args[0].w))
	}
	if b.op == OpZExt && a.IsConst() {
		return c.Ult(c.Const(a.c, b.args[0].w), b.args[0])
	}
	if b.IsConst() && b.c == 1 {
		return c.Eq(a, c.Const(0, a.w))
	}
	if a.IsConst() && a.c == 0 {
		return c.Not(c.Eq(b, a))
	}
	return c.intern(&Term{op: OpUlt, args: []*Term{a, b}})
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.tFals
	}
	h := uint64(1) << (a.w - 1)
	aPos, bPos := a.uhi < h, b.uhi < h
	aNeg, bNeg := a.ulo >= h, b.ulo >= h
	switch {
	case aPos && bPos, aNeg && bNeg:
		return c.Ult(a, b)
	case aPos && bNeg:
		return c.tFals
	case aNeg && bPos:
		return c.tTrue
	}
	return c.intern(&Term{op: OpSlt, args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

// ---- evaluation under a model ----

type Model struct {
	vars map[string]uint64
	sel  map[string]map[uint64]uint64
	memo map[*Term]uint64
}

func NewModel() *Model {
	return &Model{vars: map[string]uint64{}, sel: map[string]map[uint64]uint64{}, memo: map[*Term]uint64{}}
}

func (m *Model) Eval(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.c
	case OpVar:
		return m.vars[t.name] // default 0
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OpSelect:
		r = m.sel[t.name][m.Eval(t.args[0])] & mask(t.w)
	case OpLin:
		r = t.c
		for i, a := range t.args {
			r += t.coefs[i] * m.Eval(a)
		}
		r &= mask(t.w)
	case OpZExt:
		r = m.Eval(t.args[0])
	case OpSExt:
		r = uint64(sx(m.Eval(t.args[0]), t.args[0].w)) & mask(t.w)
	case OpExtract:
		r = m.Eval(t.args[0]) >> t.c & mask(t.w)
	case OpIte:
		if m.Eval(t.args[0]) != 0 {
			r = m.Eval(t.args[1])
		} else {
			r = m.Eval(t.args[2])
		}
	case OpEq:
		r = b2u(m.Eval(t.args[0]) == m.Eval(t.args[1]))
	case OpUlt:
		r = b2u(m.Eval(t.args[0]) < m.Eval(t.args[1]))
	case OpSlt:
		w := t.args[0].w
		r = b2u(sx(m.Eval(t.args[0]), w) < sx(m.Eval(t.args[1]), w))
	case OpNot:
		r = 1 - m.Eval(t.args[0])
	case OpBAnd:
		r = m.Eval(t.args[0])
		if r != 0 {
			r = m.Eval(t.args[1])
		}
	case OpBOr:
		r = m.Eval(t.args[0])
		if r == 0 {
			r = m.Eval(t.args[1])
		}
	default:
		r = evalBin(t.op, m.Eval(t.args[0]), m.Eval(t.args[1]), t.w)
	}
	m.memo[t] = r
	return r
}
func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// Atoms returns the Var and Select leaves of t (including those in select indices).
func (c *Ctx) Atoms(t *Term) []*Term {
	if t.atomsOK {
		return t.atoms
	}
	switch t.op {
	case OpConst:
	case OpVar:
		t.atoms = []*Term{t}
	default:
		seen := map[*Term]bool{}
		for _, a := range t.args {
			for _, x := range c.Atoms(a) {
				if !seen[x] {
					seen[x] = true
					t.atoms = append(t.atoms, x)
				}
			}
		}
		if t.op == OpSelect {
			t.atoms = append(t.atoms, t)
		}
	}
	t.atomsOK = true
	return t.atoms
}

// ---- printing ----

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.c != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("%d", sx(t.c, t.w))
	case OpVar:
		return t.name
	}
	if d == 0 {
		return fmt.Sprintf("#%d", t.id)
	}
	var p []string
	for i, a := range t.args {
		s := a.str(d - 1)
		if t.op == OpLin && t.coefs[i] != 1 {
			s = fmt.Sprintf("%d*%s", sx(t.coefs[i], t.w), s)
		}
		p = append(p, s)
	}
	switch t.op {
	case OpLin:
		if t.c != 0 {
			p = append(p, fmt.Sprint(sx(t.c, t.w)))
		}
		return "(" + strings.Join(p, "+") + ")"
	case OpSelect:
		return t.name + "[" + p[0] + "]"
	case OpZExt:
		return p[0]
	case OpSExt:
		return "sx(" + p[0] + ")"
	case OpExtract:
		return fmt.Sprintf("%s{%d:%d}", p[0], t.c, t.w)
	}
	return "(" + opNames[t.op] + " " + strings.Join(p, " ") + ")"
}
