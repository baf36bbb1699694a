package main

// Constraint independence: a query only needs the part of the path condition
// that is connected to it through shared variables or arrays. The path
// condition itself is satisfiable, so the rest does not matter. Results are
// cached per slice.

import (
	"encoding/binary"
	"os"
	"sort"
)

type cacheEnt struct {
	r Res
	m *Model
	k bool // model requested
}

// deps are the variables of t, with one pseudo variable per array.
func (c *Ctx) deps(t *Term) []*Term {
	if t.depsOK {
		return t.deps
	}
	seen := map[*Term]bool{}
	for _, a := range c.Atoms(t) {
		if a.op == OpSelect {
			a = c.Var("\x00"+a.name, 1)
		}
		if !seen[a] {
			seen[a] = true
			t.deps = append(t.deps, a)
		}
	}
	t.depsOK = true
	return t.deps
}

func (s *Solver) cacheKey(pc []*Term, extra *Term) string {
	ids := make([]int, 0, len(pc)+1)
	for _, p := range pc {
		ids = append(ids, p.id)
	}
	sort.Ints(ids)
	b := make([]byte, 0, 4*len(ids)+4)
	last := -1
	for _, i := range ids {
		if i != last {
			b = binary.LittleEndian.AppendUint32(b, uint32(i))
		}
		last = i
	}
	if extra != nil {
		b = append(b, '|')
		b = binary.LittleEndian.AppendUint32(b, uint32(extra.id))
	}
	return string(b)
}

// checkSlice decides one connected part, using the cache.
func (s *Solver) checkSlice(pc []*Term, extra *Term, want bool, base *Model) (Res, *Model) {
	if extra != nil {
		for _, p := range pc {
			if p == extra {
				extra = nil
				break
			}
		}
	}
	key := s.cacheKey(pc, extra)
	if e, ok := s.cache[key]; ok && (e.r != Sat || e.k || !want) {
		s.Stats.Hits++
		return e.r, e.m
	}
	r, m := Unknown, (*Model)(nil)
	if noLia || extra != nil && !liaWorth(extra) || extra == nil && !anyWorth(pc) {
		r, m = s.Check(pc, extra, want)
	} else if r, m = s.lia(pc, extra, base); r == Unknown {
		r, m = s.Check(pc, extra, want)
	} else {
		s.Stats.Queries++
		s.Stats.LiaOK++
		s.count(r)
		want = true
	}
	if r == Sat && want && (m == nil || !holds(m, pc, extra)) {
		s.Stats.BadModels++
		if r, m = s.fresh(pc, extra, true); r == Sat && (m == nil || !holds(m, pc, extra)) {
			r, m = Unknown, nil
		}
	}
	if len(s.cache) > 300000 {
		s.cache = nil
	}
	if s.cache == nil {
		s.cache = map[string]cacheEnt{}
	}
	if r != Unknown {
		s.cache[key] = cacheEnt{r, m, want}
	}
	return r, m
}

var noLia = os.Getenv("GOSYM_NOLIA") != ""
var debugSolver = os.Getenv("GOSYM_DEBUG") != ""

func anyWorth(pc []*Term) bool {
	for _, p := range pc {
		if liaWorth(p) {
			return true
		}
	}
	return false
}

func holds(m *Model, pc []*Term, extra *Term) bool {
	for _, p := range pc {
		if m.Eval(p) == 0 {
			return false
		}
	}
	return extra == nil || m.Eval(extra) != 0
}

// split partitions the path condition into connected parts; the first part
// is the one connected to seed (if any).
func (s *Solver) split(pc []*Term, seed *Term) (first []*Term, rest [][]*Term) {
	parent := map[*Term]*Term{}
	var find func(x *Term) *Term
	find = func(x *Term) *Term {
		p, ok := parent[x]
		if !ok {
			parent[x] = x
			return x
		}
		if p == x {
			return x
		}
		r := find(p)
		parent[x] = r
		return r
	}
	join := func(d []*Term) {
		for i := 1; i < len(d); i++ {
			a, b := find(d[0]), find(d[i])
			if a != b {
				parent[b] = a
			}
		}
	}
	for _, p := range pc {
		join(s.ctx.deps(p))
	}
	var root *Term
	if seed != nil {
		d := s.ctx.deps(seed)
		join(d)
		if len(d) > 0 {
			root = find(d[0])
		}
	}
	idx := map[*Term]int{}
	for _, p := range pc {
		d := s.ctx.deps(p)
		if len(d) == 0 { // constant
			first = append(first, p)
			continue
		}
		r := find(d[0])
		if r == root && root != nil {
			first = append(first, p)
			continue
		}
		i, ok := idx[r]
		if !ok {
			i = len(rest)
			idx[r] = i
			rest = append(rest, nil)
		}
		rest[i] = append(rest[i], p)
	}
	return
}

// solve decides pc ∧ extra. base is a model of pc, if one is known.
func (s *Solver) solve(pc []*Term, extra *Term, want bool, base *Model) (Res, *Model) {
	if extra != nil && extra.IsConst() {
		if extra.c == 0 {
			return Unsat, nil
		}
		extra = nil
	}
	first, rest := s.split(pc, extra)
	m := NewModel()
	if base != nil && want {
		for k, v := range base.vars {
			m.vars[k] = v
		}
		for k, v := range base.sel {
			m.sel[k] = v
		}
	}
	if extra != nil || len(first) > 0 {
		r, m1 := s.checkSlice(first, extra, want, base)
		if r != Sat {
			return r, nil
		}
		if !want {
			if base != nil || len(rest) == 0 {
				return Sat, nil
			}
		} else {
			m.overlay(m1)
		}
	}
	if base == nil {
		for _, p := range rest {
			r, m1 := s.checkSlice(p, nil, want, nil)
			if r != Sat {
				return r, nil
			}
			if want {
				m.overlay(m1)
			}
		}
	}
	if !want {
		return Sat, nil
	}
	return Sat, m
}

func (m *Model) overlay(o *Model) {
	for k, v := range o.vars {
		m.vars[k] = v
	}
	for k, v := range o.sel {
		m.sel[k] = v
	}
}
