package main

// Abstract states: memory, must-facts (with a small linear-inequality closure) and exact components.

import (
	"sort"
)

type St struct {
	mem   map[*Term]*Term
	facts map[*Term]bool
	ex    []*Term

	eq    map[*Term]*Term // pivot -> replacement, from equality facts
	ineq  []*Term         // all known l <= 0
	fresh bool
	pc    map[*Term]bool // cache of prove results
	uses  map[*Term][]atomUse
	last  *Term // the condition assumed last
	tag   int   // the way the last loop was left
}

func newSt() *St {
	return &St{mem: map[*Term]*Term{}, facts: map[*Term]bool{}}
}

func (s *St) clone() *St {
	n := &St{mem: make(map[*Term]*Term, len(s.mem)+8), facts: make(map[*Term]bool, len(s.facts)+8), ex: append([]*Term(nil), s.ex...), last: s.last, tag: s.tag}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	for k := range s.facts {
		n.facts[k] = true
	}
	return n
}

func (s *St) dirty() { s.fresh = false; s.pc = nil }

func (s *St) addFact(f *Term) {
	if f.op == OTrue || s.facts[f] {
		return
	}
	s.facts[f] = true
	if f.op == OEq0 || f.op == OLe0 || f.op == ONot || f.op == OEq {
		s.dirty()
	}
}

func (s *St) delFacts(pred func(*Term) bool) {
	for f := range s.facts {
		if pred(f) {
			delete(s.facts, f)
			s.dirty()
		}
	}
}

// facts named n
func (s *St) named(n string) []*Term {
	var r []*Term
	for f := range s.facts {
		if f.op == OFact && f.str == n {
			r = append(r, f)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func (s *St) prep() {
	if s.fresh {
		return
	}
	s.fresh = true
	s.pc = map[*Term]bool{}
	s.eq = map[*Term]*Term{}
	s.ineq = s.ineq[:0:0]
	s.uses = nil
	var eqs, les []*Term
	for f := range s.facts {
		switch f.op {
		case OEq0:
			eqs = append(eqs, f)
		case OLe0:
			les = append(les, f)
		}
	}
	sort.Slice(eqs, func(i, j int) bool { return eqs[i].id < eqs[j].id })
	sort.Slice(les, func(i, j int) bool { return les[i].id < les[j].id })
	// names of the same value first: what is known about one of them is known about all
	var first, rest []*Term
	for _, f := range eqs {
		_, at, _ := linOf(f.args[0])
		if len(at) == 2 && at[0].op == OSym && at[1].op == OSym {
			first = append(first, f)
		} else {
			rest = append(rest, f)
		}
	}
	solve := func(f0 *Term) {
		l := s.normRaw(f0)
		_, at, co := linOf(l)
		best := -1
		for i, a := range at {
			if co[i] != 1 && co[i] != -1 {
				continue
			}
			// loop variables are replaced by what they stand for, rather than the other way round
			if best < 0 || isLoopVar(a) && !isLoopVar(at[best]) || isLoopVar(a) == isLoopVar(at[best]) && a.id > at[best].id {
				best = i
			}
		}
		if best < 0 {
			return
		}
		a := at[best]
		// a does not occur inside another atom
		for i, b := range at {
			if i != best && occurs(a, b) {
				return
			}
		}
		rest := linAdd(l, 1, a, -co[best])
		rep := mulc(rest, -co[best])
		if occurs(a, rep) {
			return
		}
		for k, v := range s.eq {
			s.eq[k] = subst(v, map[*Term]*Term{a: rep}, map[*Term]*Term{})
		}
		s.eq[a] = rep
	}
	for _, f := range append(first, rest...) {
		solve(f.args[0])
	}
	// l <= 0 and l >= 0
	have := map[*Term]bool{}
	for a, rep := range s.eq {
		if lo, _ := rng(a); lo > -inf {
			have[sub(K(lo), rep)] = true
		}
	}
	for _, f := range les {
		l := s.normRaw(f.args[0])
		have[l] = true
		lo, _ := rng(l)
		if _, isc := l.isConst(); !isc && (lo == 0 || have[mulc(l, -1)]) {
			solve(l)
		}
	}
	// terms that are the same because their parts are
	for round := 0; round < 3; round++ {
		var todo []*Term
		for a, rep := range s.eq {
			if a.op == OSym {
				continue
			}
			args := make([]*Term, len(a.args))
			ch := false
			for i, x := range a.args {
				args[i] = s.normRaw(x)
				ch = ch || args[i] != x
			}
			if ch {
				if e := s.normRaw(sub(rebuild(a, args), rep)); e != tZero {
					todo = append(todo, e)
				}
			}
		}
		if len(todo) == 0 {
			break
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i].id < todo[j].id })
		for _, e := range todo {
			solve(e)
		}
	}
	// what was known about the range of the names replaced
	var ks []*Term
	for a := range s.eq {
		ks = append(ks, a)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, a := range ks {
		rep := s.eq[a]
		if _, isc := rep.isConst(); isc {
			continue
		}
		lo, hi := rng(a)
		rl, rh := rng(rep)
		if lo > rl {
			s.ineq = append(s.ineq, sub(K(lo), rep))
		}
		if hi < rh {
			s.ineq = append(s.ineq, addc(rep, -hi))
		}
	}
	for _, f := range les {
		s.ineq = append(s.ineq, s.normRaw(f.args[0]))
	}
	// l <= 0 and l >= 0, after all replacements
	for round := 0; round < 4; round++ {
		set := map[*Term]bool{}
		for _, l := range s.ineq {
			set[l] = true
		}
		var e *Term
		for _, l := range s.ineq {
			if _, isc := l.isConst(); !isc && set[mulc(l, -1)] {
				e = l
				break
			}
		}
		if e == nil {
			break
		}
		n := len(s.eq)
		solve(e)
		if len(s.eq) == n {
			break
		}
		for i, l := range s.ineq {
			s.ineq[i] = s.normRaw(l)
		}
	}
}

func occurs(a, t *Term) bool {
	if a == t {
		return true
	}
	for _, x := range t.args {
		if occurs(a, x) {
			return true
		}
	}
	return false
}

func (s *St) normRaw(t *Term) *Term {
	if len(s.eq) == 0 {
		return t
	}
	for i := 0; i < 4; i++ {
		n := subst(t, s.eq, map[*Term]*Term{})
		if n == t {
			return n
		}
		t = n
	}
	return t
}

// norm rewrites a term with the known equalities
func (s *St) norm(t *Term) *Term {
	s.prep()
	return s.normRaw(t)
}

func (s *St) prove(f *Term) bool {
	switch f.op {
	case OTrue:
		return true
	case OFalse:
		return false
	}
	if s.facts[f] {
		return true
	}
	s.prep()
	if r, ok := s.pc[f]; ok {
		return r
	}
	r := s.prove1(f)
	s.pc[f] = r
	return r
}

func (s *St) prove1(f *Term) bool {
	switch f.op {
	case OEq0:
		l := s.normRaw(f.args[0])
		if c, ok := l.isConst(); ok {
			return c == 0
		}
		return s.le(l, 4) && s.le(mulc(l, -1), 4)
	case OLe0:
		return s.le(s.normRaw(f.args[0]), 4)
	case ONot:
		g := f.args[0]
		switch g.op {
		case OEq0:
			l := s.normRaw(g.args[0])
			if mkEq0(l) == tFalse {
				return true
			}
			if s.facts[mkNot(mkEq0(l))] {
				return true
			}
			for h := range s.facts {
				if h.op == ONot && h.args[0].op == OEq0 {
					m := s.normRaw(h.args[0].args[0])
					if m == l || mulc(m, -1) == l {
						return true
					}
				}
			}
			return s.le(addc(l, 1), 4) || s.le(addc(mulc(l, -1), 1), 4)
		case OEq:
			a, b := s.normRaw(g.args[0]), s.normRaw(g.args[1])
			return s.facts[mkNot(mkEq(a, b))]
		}
	case OEq:
		a, b := s.normRaw(f.args[0]), s.normRaw(f.args[1])
		return a == b || s.facts[mkEq(a, b)]
	case OFact:
		n := s.normRaw(f)
		if s.facts[n] {
			return true
		}
		for h := range s.facts {
			if h.op == OFact && h.str == f.str && s.normRaw(h) == n {
				return true
			}
		}
	}
	return false
}

// lv is a linear expression, outside the term table
type lv struct {
	c int64
	a []*Term
	k []int64
}

func toLv(t *Term) lv {
	c, a, k := linOf(t)
	return lv{c, a, k}
}

// ub is the structural upper bound of the expression, and the first atom without one
func (v lv) ub() (int64, int) {
	h := v.c
	un := -1
	for i, a := range v.a {
		lo, hi := rng(a)
		k := v.k[i]
		var x int64
		if k > 0 {
			x = satMul(hi, k)
		} else {
			x = satMul(lo, k)
		}
		if x >= inf && un < 0 {
			un = i
		}
		h = sat(h + x)
	}
	if un >= 0 {
		h = inf
	}
	return h, un
}

// comb is v - m*q
func (v lv) comb(q lv, m int64) lv {
	r := lv{c: v.c - m*q.c, a: make([]*Term, 0, len(v.a)+len(q.a)), k: make([]int64, 0, len(v.a)+len(q.a))}
	i, j := 0, 0
	for i < len(v.a) || j < len(q.a) {
		switch {
		case j == len(q.a) || i < len(v.a) && v.a[i].id < q.a[j].id:
			r.a = append(r.a, v.a[i])
			r.k = append(r.k, v.k[i])
			i++
		case i == len(v.a) || q.a[j].id < v.a[i].id:
			r.a = append(r.a, q.a[j])
			r.k = append(r.k, -m*q.k[j])
			j++
		default:
			if k := v.k[i] - m*q.k[j]; k != 0 {
				r.a = append(r.a, v.a[i])
				r.k = append(r.k, k)
			}
			i++
			j++
		}
	}
	return r
}

type atomUse struct {
	q lv
	k int64
}

func (s *St) le(l *Term, depth int) bool {
	f := mkLe0(l)
	if f == tTrue {
		return true
	}
	if f == tFalse {
		return false
	}
	if s.facts[f] {
		return true
	}
	if s.uses == nil {
		s.uses = map[*Term][]atomUse{}
		for _, q := range s.ineq {
			v := toLv(q)
			for i, a := range v.a {
				s.uses[a] = append(s.uses[a], atomUse{v, v.k[i]})
			}
		}
	}
	budget := 3000
	return s.leV(toLv(f.args[0]), depth, &budget)
}

func (s *St) leV(v lv, depth int, budget *int) bool {
	h, un := v.ub()
	if h <= 0 {
		return true
	}
	*budget--
	if depth == 0 || len(v.a) == 0 || *budget < 0 {
		return false
	}
	for n, a := range v.a {
		if v.k[n] > 0 || a.op != OExtract || a.lo+a.w != 64 || a.w < 60 || depth < 2 || un >= 0 && n != un {
			continue
		}
		al, _ := rng(a)
		w := lv{c: v.c}
		w.a = append(append(w.a, v.a[:n]...), v.a[n+1:]...)
		w.k = append(append(w.k, v.k[:n]...), v.k[n+1:]...)
		// a quotient is at least c when the number is at least c times the divisor
		cs := []int64{0, -1}
		if rh, ru := w.ub(); ru < 0 && rh < 1<<40 {
			cs[0] = -floorDiv(-rh, -v.k[n])
			cs = cs[:1]
		}
		for _, c := range cs {
			if c <= al {
				break
			}
			x := addc(mulc(a.args[0], -1), c<<uint(a.lo))
			if s.leV(toLv(x), depth-1, budget) {
				w.c = v.c + v.k[n]*c
				if s.leV(w, depth-1, budget) {
					return true
				}
				break
			}
		}
	}
	for i, a := range v.a {
		if un >= 0 && i != un {
			continue
		}
		k := v.k[i]
		for _, u := range s.uses[a] {
			if (u.k > 0) != (k > 0) || k%u.k != 0 {
				continue
			}
			w := v.comb(u.q, k/u.k)
			if len(w.a) > len(v.a)+1 {
				continue
			}
			if s.leV(w, depth-1, budget) {
				return true
			}
		}
	}
	return false
}

func (s *St) eqv(a, b *Term) bool {
	if a == b {
		return true
	}
	if isAddr(a) || isAddr(b) {
		return s.norm(a) == s.norm(b)
	}
	if !isIntTerm(a) || !isIntTerm(b) {
		return s.norm(a) == s.norm(b)
	}
	return s.prove(mkEq0(sub(a, b)))
}

// nonneg: t >= 0
func (s *St) geq(t *Term, c int64) bool { return s.prove(mkLe0(linAdd(K(c), 1, t, -1))) }
func (s *St) leq(a, b *Term) bool       { return s.prove(mkLe0(sub(a, b))) }
func (s *St) lt(a, b *Term) bool        { return s.prove(mkLe0(addc(sub(a, b), 1))) }

// unmask removes bit-field truncations that the facts show to be without effect
func (s *St) unmask(t *Term) *Term {
	t = s.norm(t)
	if t.op == OExtract && t.lo == 0 && t.w < 60 {
		for k := int64(0); k >= -1; k-- {
			x := addc(t.args[0], k<<uint(t.w))
			if s.geq(x, 0) && s.prove(mkLe0(addc(x, -(int64(1)<<uint(t.w)-1)))) {
				return x
			}
		}
	}
	return t
}

// exact components
func (s *St) exAll(n string) []*Term {
	var r []*Term
	for _, f := range s.ex {
		if f.str == n {
			r = append(r, f)
		}
	}
	return r
}
func (s *St) exAdd(f *Term) { s.ex = append(s.ex[:len(s.ex):len(s.ex)], f) }
func (s *St) exDel(f *Term) bool {
	for i, g := range s.ex {
		if g == f {
			n := append([]*Term(nil), s.ex[:i]...)
			s.ex = append(n, s.ex[i+1:]...)
			return true
		}
	}
	return false
}
func (s *St) exHas(f *Term) bool {
	for _, g := range s.ex {
		if g == f {
			return true
		}
	}
	return false
}

func isLoopVar(t *Term) bool { return t.op == OSym && t.sym.kind == SVar }
