package main

// Linear-arithmetic front end of the solver. Path conditions over lengths and
// offsets are linear; as bit-vector problems they bit-blast badly, as integer
// problems they are easy. The translation is exact for linear terms and a
// relaxation for everything else, so "unsat" carries over; a model is only
// used after it has been evaluated on the original terms.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

type ival struct{ lo, hi *big.Int }

type liaTr struct {
	s     *Solver
	b     strings.Builder
	memo  map[*Term]liaTerm
	bmemo map[*Term]string
	vars  []*Term
	sels  []*Term
	rng   map[*Term]ival
	exact bool
	extra []string
	n     int
}

// liaTerm is an integer expression for the unsigned value of a term.
type liaTerm struct {
	e string
	ival
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

func bigU(u uint64) *big.Int { return new(big.Int).SetUint64(u) }

func numStr(n *big.Int) string {
	if n.Sign() < 0 {
		return "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return n.String()
}

func (l *liaTr) def(e string) string {
	if len(e) < 24 {
		return e
	}
	l.n++
	n := "d" + strconv.Itoa(l.n)
	l.b.WriteString("(define-fun " + n + " () Int " + e + ")\n")
	return n
}

func (l *liaTr) opaque(t *Term) liaTerm {
	n := "v" + strconv.Itoa(t.id)
	l.b.WriteString("(declare-const " + n + " Int)\n")
	lo, hi := bigU(t.ulo), bigU(t.uhi)
	if r, ok := l.rng[t]; ok {
		if r.lo.Cmp(lo) > 0 {
			lo = r.lo
		}
		if r.hi.Cmp(hi) < 0 {
			hi = r.hi
		}
	}
	l.b.WriteString("(assert (<= " + bigU(t.ulo).String() + " " + n + " " + bigU(t.uhi).String() + "))\n")
	switch t.op {
	case OpVar:
		l.vars = append(l.vars, t)
	case OpSelect:
		l.sels = append(l.sels, t)
		l.term(t.args[0])
	default:
		l.exact = false
	}
	return liaTerm{n, ival{lo, hi}}
}

// norm reduces an integer expression modulo 2^w.
func (l *liaTr) norm(e string, lo, hi *big.Int, w uint8) liaTerm {
	m := pow2(uint(w))
	if lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return liaTerm{e, ival{lo, hi}}
	}
	full := ival{new(big.Int), new(big.Int).Sub(m, big.NewInt(1))}
	nm := new(big.Int).Neg(m)
	switch {
	case lo.Cmp(nm) >= 0 && hi.Sign() < 0:
		return liaTerm{l.def("(+ " + e + " " + m.String() + ")"), ival{new(big.Int).Add(lo, m), new(big.Int).Add(hi, m)}}
	case lo.Cmp(nm) >= 0 && hi.Cmp(m) < 0:
		return liaTerm{l.def("(ite (< " + e + " 0) (+ " + e + " " + m.String() + ") " + e + ")"), full}
	case lo.Sign() >= 0 && hi.Cmp(pow2(uint(w)+1)) < 0:
		return liaTerm{l.def("(ite (>= " + e + " " + m.String() + ") (- " + e + " " + m.String() + ") " + e + ")"), full}
	}
	return liaTerm{l.def("(mod " + e + " " + m.String() + ")"), full}
}

func (l *liaTr) term(t *Term) liaTerm {
	if r, ok := l.memo[t]; ok {
		return r
	}
	r := l.term1(t)
	l.memo[t] = r
	return r
}

func (l *liaTr) term1(t *Term) liaTerm {
	switch t.op {
	case OpConst:
		c := bigU(t.c)
		return liaTerm{c.String(), ival{c, c}}
	case OpLin:
		c := t.c
		lo := big.NewInt(sx(c, t.w))
		hi := new(big.Int).Set(lo)
		parts := []string{}
		for i, a := range t.args {
			k := big.NewInt(sx(t.coefs[i], t.w))
			x := l.term(a)
			p1, p2 := new(big.Int).Mul(k, x.lo), new(big.Int).Mul(k, x.hi)
			if p1.Cmp(p2) > 0 {
				p1, p2 = p2, p1
			}
			lo, hi = lo.Add(lo, p1), hi.Add(hi, p2)
			if k.Cmp(big.NewInt(1)) == 0 {
				parts = append(parts, x.e)
			} else {
				parts = append(parts, "(* "+numStr(k)+" "+x.e+")")
			}
		}
		if c != 0 || len(parts) == 1 {
			parts = append(parts, numStr(big.NewInt(sx(c, t.w))))
		}
		e := l.def("(+ " + strings.Join(parts, " ") + ")")
		return l.norm(e, lo, hi, t.w)
	case OpZExt:
		return l.term(t.args[0])
	case OpSExt:
		x := l.term(t.args[0])
		if x.hi.Cmp(pow2(uint(t.args[0].w)-1)) < 0 {
			return x
		}
	case OpExtract:
		return l.bitsOf(l.term(t.args[0]), uint(t.c), uint(t.w))
	case OpLShr:
		if k := t.args[1]; k.IsConst() && k.c < uint64(t.w) {
			return l.bitsOf(l.term(t.args[0]), uint(k.c), uint(t.w))
		}
	case OpAnd:
		for i := range t.args {
			if m := t.args[i]; len(t.args) == 2 && m.IsConst() && m.c != 0 && m.c&(m.c+1) == 0 {
				n := 0
				for ; m.c>>n != 0; n++ {
				}
				return l.bitsOf(l.term(t.args[1-i]), 0, uint(n))
			}
		}
	case OpUDiv, OpURem:
		if k := t.args[1]; k.IsConst() && k.c != 0 {
			x := l.term(t.args[0])
			if t.op == OpUDiv {
				d := bigU(k.c)
				return liaTerm{l.def("(div " + x.e + " " + d.String() + ")"), ival{new(big.Int).Div(x.lo, d), new(big.Int).Div(x.hi, d)}}
			}
			if x.hi.Cmp(bigU(k.c)) < 0 {
				return x
			}
			return liaTerm{l.def("(mod " + x.e + " " + bigU(k.c).String() + ")"), ival{new(big.Int), bigU(k.c - 1)}}
		}
	case OpIte:
		if c, ok := l.boolean(t.args[0]); ok {
			x, y := l.term(t.args[1]), l.term(t.args[2])
			lo, hi := x.lo, x.hi
			if y.lo.Cmp(lo) < 0 {
				lo = y.lo
			}
			if y.hi.Cmp(hi) > 0 {
				hi = y.hi
			}
			return liaTerm{l.def("(ite " + c + " " + x.e + " " + y.e + ")"), ival{lo, hi}}
		}
	}
	return l.opaque(t)
}

// bitsOf is the value of w bits of x starting at bit sh.
func (l *liaTr) bitsOf(x liaTerm, sh, w uint) liaTerm {
	e, lo, hi := x.e, x.lo, x.hi
	if sh > 0 {
		d := pow2(sh)
		e = l.def("(div " + e + " " + d.String() + ")")
		lo, hi = new(big.Int).Div(lo, d), new(big.Int).Div(hi, d)
	}
	if m := pow2(w); hi.Cmp(m) >= 0 {
		e = l.def("(mod " + e + " " + m.String() + ")")
		lo, hi = new(big.Int), new(big.Int).Sub(m, big.NewInt(1))
	}
	return liaTerm{e, ival{lo, hi}}
}

func (l *liaTr) signed(x liaTerm, w uint8) string {
	h := pow2(uint(w) - 1)
	if x.hi.Cmp(h) < 0 {
		return x.e
	}
	m := pow2(uint(w)).String()
	if x.lo.Cmp(h) >= 0 {
		return "(- " + x.e + " " + m + ")"
	}
	return l.def("(ite (>= " + x.e + " " + h.String() + ") (- " + x.e + " " + m + ") " + x.e + ")")
}

// boolean translates a condition; ok is false if nothing useful is known.
func (l *liaTr) boolean(t *Term) (string, bool) {
	if r, ok := l.bmemo[t]; ok {
		return r, r != ""
	}
	r, ok := l.boolean1(t)
	if !ok {
		r = ""
	}
	l.bmemo[t] = r
	return r, ok
}

func (l *liaTr) boolean1(t *Term) (string, bool) {
	switch t.op {
	case OpConst:
		if t.c != 0 {
			return "true", true
		}
		return "false", true
	case OpVar:
		n := "v" + strconv.Itoa(t.id)
		l.b.WriteString("(declare-const " + n + " Bool)\n")
		l.vars = append(l.vars, t)
		return n, true
	case OpNot:
		x, ok := l.boolean(t.args[0])
		return "(not " + x + ")", ok
	case OpBAnd, OpBOr:
		x, ok1 := l.boolean(t.args[0])
		y, ok2 := l.boolean(t.args[1])
		op := "and"
		if t.op == OpBOr {
			op = "or"
		}
		return "(" + op + " " + x + " " + y + ")", ok1 && ok2
	case OpIte:
		x, ok1 := l.boolean(t.args[0])
		y, ok2 := l.boolean(t.args[1])
		z, ok3 := l.boolean(t.args[2])
		return "(ite " + x + " " + y + " " + z + ")", ok1 && ok2 && ok3
	case OpEq:
		if t.args[0].w == 0 {
			x, ok1 := l.boolean(t.args[0])
			y, ok2 := l.boolean(t.args[1])
			return "(= " + x + " " + y + ")", ok1 && ok2
		}
		if !linearish(t.args[0], 4) || !linearish(t.args[1], 4) {
			return "", false
		}
		return "(= " + l.term(t.args[0]).e + " " + l.term(t.args[1]).e + ")", true
	case OpUlt:
		return "(< " + l.term(t.args[0]).e + " " + l.term(t.args[1]).e + ")", true
	case OpSlt:
		w := t.args[0].w
		return "(< " + l.signed(l.term(t.args[0]), w) + " " + l.signed(l.term(t.args[1]), w) + ")", true
	}
	return "", false
}

// linearish: something the translation can say something about.
func linearish(t *Term, d int) bool {
	switch t.op {
	case OpConst, OpVar, OpSelect:
		return true
	case OpLin, OpZExt, OpExtract, OpLShr:
		if d == 0 {
			return true
		}
		for _, a := range t.args {
			if linearish(a, d-1) && !a.IsConst() {
				return true
			}
		}
	}
	return false
}

func liaLit(t *Term) *Term {
	for t.op == OpNot {
		t = t.args[0]
	}
	return t
}

// worth reports whether the integer translation is likely to decide c.
func liaWorth(c *Term) bool {
	t := liaLit(c)
	switch t.op {
	case OpUlt, OpSlt, OpEq:
		if t.args[0].w == 0 {
			return false
		}
		return linearish(t.args[0], 3) && linearish(t.args[1], 3)
	case OpBAnd, OpBOr:
		return liaWorth(t.args[0]) && liaWorth(t.args[1])
	}
	return false
}

// lia tries to decide pc ∧ extra as an integer problem.
func (s *Solver) lia(pc []*Term, extra *Term, base *Model) (Res, *Model) {
	all := pc
	if extra != nil {
		all = append(append([]*Term{}, pc...), extra)
	}
	l := &liaTr{s: s, memo: map[*Term]liaTerm{}, bmemo: map[*Term]string{}, rng: map[*Term]ival{}, exact: true}
	for _, c := range all {
		l.bound(c)
	}
	if s.ints == nil {
		s.ints = &Solver{ctx: s.ctx, Timeout: s.Timeout}
		s.ints.start()
		s.ints.in.WriteString("(reset)\n(set-option :produce-models true)\n(set-option :timeout 400)\n(set-logic QF_LIA)\n")
	}
	a := s.ints
	a.in.WriteString("(push)\n")
	var asserts []string
	for _, c := range all {
		if e, ok := l.boolean(c); ok {
			asserts = append(asserts, e)
		} else {
			l.exact = false
		}
	}
	for i, x := range l.sels {
		if i > 30 {
			break
		}
		for _, y := range l.sels[:i] {
			if x.name == y.name {
				ix, iy := l.term(x.args[0]), l.term(y.args[0])
				if ix.hi.Cmp(iy.lo) < 0 || iy.hi.Cmp(ix.lo) < 0 || s.ctx.Eq(x.args[0], y.args[0]).IsConst() {
					continue
				}
				asserts = append(asserts, "(=> (= "+ix.e+" "+iy.e+") (= "+l.term(x).e+" "+l.term(y).e+"))")
			}
		}
	}
	for _, e := range asserts {
		l.b.WriteString("(assert " + e + ")\n")
	}
	l.b.WriteString("(check-sat)\n")
	t0 := time.Now()
	s.Stats.Lia++
	a.in.WriteString(l.b.String())
	if s.log != nil {
		s.log.WriteString(l.b.String())
	}
	a.in.Flush()
	line := a.readLine()
	defer func() {
		if s.ints != nil {
			s.ints.in.WriteString("(pop)\n")
		}
		d := time.Since(t0)
		s.Stats.Time += d
		if d > s.Stats.MaxTime {
			s.Stats.MaxTime = d
		}
	}()
	switch line {
	case "unsat":
		return Unsat, nil
	case "sat":
		m := NewModel()
		if base != nil {
			// keep known values of this part's other variables
			for _, c := range all {
				for _, a := range s.ctx.deps(c) {
					if strings.HasPrefix(a.name, "\x00") {
						if v, ok := base.sel[a.name[1:]]; ok {
							m.sel[a.name[1:]] = v
						}
					} else if v, ok := base.vars[a.name]; ok {
						m.vars[a.name] = v
					}
				}
			}
		}
		if len(l.vars)+len(l.sels) > 0 {
			var g strings.Builder
			g.WriteString("(get-value (")
			for _, v := range append(l.vars[:len(l.vars):len(l.vars)], l.sels...) {
				g.WriteString("v" + strconv.Itoa(v.id) + " ")
			}
			g.WriteString("))\n")
			a.in.WriteString(g.String())
			a.in.Flush()
			vals := parseInts(a.readSexp())
			for _, v := range l.vars {
				m.vars[v.name] = vals["v"+strconv.Itoa(v.id)]
			}
			l.order()
			own := map[string]bool{}
			for _, v := range l.sels {
				if !own[v.name] {
					own[v.name] = true
					c := map[uint64]uint64{}
					for k, x := range m.sel[v.name] {
						c[k] = x
					}
					m.sel[v.name] = c
				}
			}
			for _, v := range l.sels {
				m.sel[v.name][m.Eval(v.args[0])] = vals["v"+strconv.Itoa(v.id)]
			}
			m.memo = map[*Term]uint64{}
		}
		if holds(m, pc, extra) {
			return Sat, m
		}
		return Unknown, nil
	case "unknown", "timeout":
		return Unknown, nil
	}
	if debugSolver {
		fmt.Println("lia:", line)
	}
	a.Close()
	s.ints = nil
	return Unknown, nil
}

func (l *liaTr) bound(c *Term) {
	neg := false
	for c.op == OpNot {
		neg, c = !neg, c.args[0]
	}
	if c.op == OpBAnd && !neg {
		l.bound(c.args[0])
		l.bound(c.args[1])
		return
	}
	if c.op != OpUlt {
		return
	}
	set := func(t *Term, lo, hi *big.Int) {
		r, ok := l.rng[t]
		if !ok {
			r = ival{bigU(t.ulo), bigU(t.uhi)}
		}
		if lo != nil && lo.Cmp(r.lo) > 0 {
			r.lo = lo
		}
		if hi != nil && hi.Cmp(r.hi) < 0 {
			r.hi = hi
		}
		l.rng[t] = r
	}
	x, y := c.args[0], c.args[1]
	switch {
	case y.IsConst() && !neg && y.c > 0:
		set(x, nil, bigU(y.c-1))
	case y.IsConst() && neg:
		set(x, bigU(y.c), nil)
	case x.IsConst() && !neg && x.c != ^uint64(0):
		set(y, bigU(x.c+1), nil)
	case x.IsConst() && neg:
		set(y, nil, bigU(x.c))
	}
}

// parseInts parses ((v1 12) (v2 true) ...).
func parseInts(t string) map[string]uint64 {
	vals := map[string]uint64{}
	f := strings.FieldsFunc(t, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\r' })
	for i := 0; i+1 < len(f); i += 2 {
		switch v := f[i+1]; v {
		case "true":
			vals[f[i]] = 1
		case "false":
		default:
			n, ok := new(big.Int).SetString(v, 10)
			if ok && n.Sign() >= 0 && n.BitLen() <= 64 {
				vals[f[i]] = n.Uint64()
			}
		}
	}
	return vals
}

// order puts reads used as an index before the reads they index.
func (l *liaTr) order() {
	sort.SliceStable(l.sels, func(i, j int) bool { return selDepth(l.sels[i]) < selDepth(l.sels[j]) })
}

func selDepth(t *Term) int {
	d := 0
	for _, a := range t.args {
		d = max(d, selDepth(a))
	}
	if t.op == OpSelect {
		d++
	}
	return d
}
