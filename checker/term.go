package main

// Hash-consed symbolic terms: the value domain of the abstract interpreter (global value numbering
// over integers in affine normal form, bit-field extraction of machine words, and addresses).

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst   Op = iota // c
	OBig               // str: constant beyond int64
	OStr               // string constant
	ONil               // nil
	OTrue              // true
	OFalse             // false
	OSym               // opaque value
	OLin               // c + sum coef*arg
	OExtract           // bits [lo,lo+w) of arg
	OOr                // bitwise or of args
	OBin               // other binary operator, str
	OElem              // element of an immutable array: base, index
	OWord              // plain read of slot off of node n: n, off
	OGlobal            // package level variable, str
	OObj               // object identified by sym: args[0]
	OField             // address of field: base, index c, name str
	OIdx               // address of element: base, idx
	OBlk               // pointer to data block b
	OBData             // data array of block b
	ONode              // data array of node n (starting at its first slot)
	OSlice             // base, off, len, cap
	OStruct            // fields
	OTuple             // values
	OIface             // dynamic value
	OClosure           // str function; bindings
	OFunc              // function
	OEq                // equality of non-integers
	OEq0               // lin == 0
	OLe0               // lin <= 0
	ONot               // negation
	OFacet             // named exact state component
	OFact              // named must-fact
	OSeg               // array segment, str kind
	OSegs              // list of segments
	OBeta              // bound variable
	OAny               // some load of address arg during the loop
	ORegion            // content of array arg
	OTop               // unknown content
)

type SymKind uint8

const (
	SParam  SymKind = iota
	SInit           // initial content of a memory cell
	SStale          // content left in a pooled object
	SLoad           // atomic load, loc = address
	SPlain          // unordered load of unknown memory
	SVar            // loop variable
	SNew            // address of a newly allocated node
	SAlloc          // new Go object
	SCas            // result
	SOpaque         // anything else
	SLen            // length of an unknown slice
)

type Sym struct {
	name  string
	kind  SymKind
	frame *Frame
	instr ssa.Instruction
	loc   *Term // address loaded from
	byt   bool  // value is a byte
	bol   bool
	ptr   bool
	nonN  bool // non-negative integer
	stale bool
	max   int64 // inclusive upper bound if > 0
}

type Term struct {
	id   int
	op   Op
	str  string
	c    int64
	lo   int
	w    int
	args []*Term
	coef []int64
	sym  *Sym
	syms []*Term // all symbols occurring in the term
	beta bool
}

var (
	terms   = map[string]*Term{}
	nterms  int
	tTrue   *Term
	tFalse  *Term
	tNil    *Term
	tZero   *Term
	tBeta   *Term
	tTop    *Term
	tMaxU64 *Term
)

func init() {
	tTrue = mk(Term{op: OTrue})
	tFalse = mk(Term{op: OFalse})
	tNil = mk(Term{op: ONil})
	tZero = K(0)
	tBeta = mk(Term{op: OBeta, beta: true})
	tTop = mk(Term{op: OTop})
	tMaxU64 = mk(Term{op: OBig, str: "18446744073709551615"})
}

func mk(t Term) *Term {
	var b strings.Builder
	b.WriteByte(byte(t.op) + 32)
	b.WriteString(t.str)
	b.WriteByte('|')
	b.WriteString(strconv.FormatInt(t.c, 36))
	b.WriteByte('|')
	if t.op == OExtract {
		b.WriteString(strconv.Itoa(t.lo))
		b.WriteByte(':')
		b.WriteString(strconv.Itoa(t.w))
	}
	for i, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.FormatInt(int64(a.id), 36))
		if t.coef != nil {
			b.WriteByte('*')
			b.WriteString(strconv.FormatInt(t.coef[i], 36))
		}
	}
	k := b.String()
	if r, ok := terms[k]; ok {
		return r
	}
	n := t
	n.id = nterms
	nterms++
	set := map[*Term]bool{}
	for _, a := range n.args {
		for _, s := range a.syms {
			set[s] = true
		}
		if a.beta {
			n.beta = true
		}
	}
	for s := range set {
		n.syms = append(n.syms, s)
	}
	sort.Slice(n.syms, func(i, j int) bool { return n.syms[i].id < n.syms[j].id })
	r := &n
	terms[k] = r
	return r
}

func mkSym(s Sym) *Term {
	fid := 0
	if s.frame != nil {
		fid = s.frame.id
	}
	lid := -1
	if s.loc != nil {
		lid = s.loc.id
	}
	iid := 0
	if s.instr != nil {
		iid = instrID(s.instr)
	}
	k := fmt.Sprintf("$%d|%s|%d|%d|%d", s.kind, s.name, fid, iid, lid)
	if r, ok := terms[k]; ok {
		return r
	}
	sc := s
	r := &Term{id: nterms, op: OSym, str: s.name, sym: &sc}
	nterms++
	r.syms = []*Term{r}
	terms[k] = r
	return r
}

var instrIDs = map[ssa.Instruction]int{}

func instrID(i ssa.Instruction) int {
	if n, ok := instrIDs[i]; ok {
		return n
	}
	instrIDs[i] = len(instrIDs) + 1
	return len(instrIDs)
}

func K(c int64) *Term { return mk(Term{op: OConst, c: c}) }

func KStr(s string) *Term { return mk(Term{op: OStr, str: s}) }

func KBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func (t *Term) isConst() (int64, bool) {
	if t.op == OConst {
		return t.c, true
	}
	return 0, false
}

// linear view of a term
func linOf(t *Term) (c int64, atoms []*Term, coef []int64) {
	switch t.op {
	case OConst:
		return t.c, nil, nil
	case OLin:
		return t.c, t.args, t.coef
	}
	return 0, []*Term{t}, []int64{1}
}

func mkLin(c int64, m map[*Term]int64) *Term {
	var atoms []*Term
	for a, k := range m {
		if k != 0 {
			atoms = append(atoms, a)
		}
	}
	if len(atoms) == 0 {
		return K(c)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	if c == 0 && len(atoms) == 1 && m[atoms[0]] == 1 {
		return atoms[0]
	}
	coef := make([]int64, len(atoms))
	for i, a := range atoms {
		coef[i] = m[a]
	}
	return mk(Term{op: OLin, c: c, args: atoms, coef: coef})
}

func linAdd(a *Term, ka int64, b *Term, kb int64) *Term {
	m := map[*Term]int64{}
	ca, aa, fa := linOf(a)
	for i, x := range aa {
		m[x] += ka * fa[i]
	}
	cb, ab, fb := linOf(b)
	for i, x := range ab {
		m[x] += kb * fb[i]
	}
	return mkLin(ka*ca+kb*cb, m)
}

func add(a, b *Term) *Term { return linAdd(a, 1, b, 1) }
func sub(a, b *Term) *Term { return linAdd(a, 1, b, -1) }
func addc(a *Term, c int64) *Term {
	return linAdd(a, 1, K(c), 1)
}
func mulc(a *Term, k int64) *Term {
	c, at, f := linOf(a)
	m := map[*Term]int64{}
	for i, x := range at {
		m[x] = f[i] * k
	}
	return mkLin(c*k, m)
}

const inf = int64(1) << 61

func sat(x int64) int64 {
	if x > inf {
		return inf
	}
	if x < -inf {
		return -inf
	}
	return x
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	if a >= inf || a <= -inf || b >= inf || b <= -inf {
		if (a > 0) == (b > 0) {
			return inf
		}
		return -inf
	}
	p := a * b
	if p/b != a {
		if (a > 0) == (b > 0) {
			return inf
		}
		return -inf
	}
	return sat(p)
}

// rng gives structural bounds
func rng(t *Term) (int64, int64) {
	switch t.op {
	case OConst:
		return t.c, t.c
	case OExtract:
		if t.w < 61 {
			return 0, int64(1)<<uint(t.w) - 1
		}
		if l, _ := rng(t.args[0]); l < 0 {
			// a quotient of a number that may be negative
			if l <= -inf {
				return -inf, inf
			}
			return l >> uint(t.lo), inf
		}
		return 0, inf
	case OElem:
		if t.str == "sum" {
			return -inf, inf
		}
		return 0, 255
	case OWord, OOr, OBig, OAny:
		return 0, inf
	case OSym:
		if t.sym.byt {
			return 0, 255
		}
		if t.sym.nonN {
			if t.sym.max > 0 {
				return 0, t.sym.max
			}
			return 0, inf
		}
		return -inf, inf
	case OBin:
		if t.str == "min" {
			l1, h1 := rng(t.args[0])
			l2, h2 := rng(t.args[1])
			return min(l1, l2), min(h1, h2)
		}
		return -inf, inf
	case OLin:
		lo, hi := t.c, t.c
		for i, a := range t.args {
			l, h := rng(a)
			k := t.coef[i]
			if k > 0 {
				lo, hi = sat(lo+satMul(l, k)), sat(hi+satMul(h, k))
			} else {
				lo, hi = sat(lo+satMul(h, k)), sat(hi+satMul(l, k))
			}
		}
		return lo, hi
	}
	return -inf, inf
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// extract returns bits [lo,lo+w) of t (w counted up to bit 64)
func extract(t *Term, lo, w int) *Term {
	if lo >= 64 {
		return tZero
	}
	if lo+w > 64 {
		w = 64 - lo
	}
	if w <= 0 {
		return tZero
	}
	switch t.op {
	case OConst:
		if lo > 0 && lo+w == 64 && t.c < 0 && t.c > -1<<31 {
			// a small negative number: its quotient
			return K(t.c >> uint(lo))
		}
		u := uint64(t.c) >> uint(lo)
		if w < 64 {
			u &= 1<<uint(w) - 1
		}
		if u > 1<<62 {
			return mk(Term{op: OBig, str: strconv.FormatUint(u, 10)})
		}
		return K(int64(u))
	case OBig:
		u, err := strconv.ParseUint(t.str, 10, 64)
		if err == nil {
			u >>= uint(lo)
			if w < 64 {
				u &= 1<<uint(w) - 1
			}
			if u > 1<<62 {
				return mk(Term{op: OBig, str: strconv.FormatUint(u, 10)})
			}
			return K(int64(u))
		}
	case OExtract:
		if lo >= t.w {
			return tZero
		}
		if w > t.w-lo {
			w = t.w - lo
		}
		return extract(t.args[0], t.lo+lo, w)
	case OOr:
		var r *Term = tZero
		for _, a := range t.args {
			r = mkOr(r, extract(a, lo, w))
		}
		return r
	}
	if lo == 0 && w == 64 {
		return t
	}
	if l, h := rng(t); l >= 0 && h < inf {
		if lo < 62 && h < int64(1)<<uint(lo) {
			return tZero
		}
		if lo == 0 && w < 62 && h < int64(1)<<uint(w) {
			return t
		}
		// trim the width
		for w > 1 && lo+w-1 < 62 && h < int64(1)<<uint(lo+w-1) {
			w--
		}
	}
	if t.op == OLin && t.c == 0 && len(t.args) == 1 && t.coef[0] > 1 && t.coef[0]&(t.coef[0]-1) == 0 {
		k := 0
		for int64(1)<<uint(k) < t.coef[0] {
			k++
		}
		if lo+w <= k {
			return tZero
		}
		if lo >= k {
			return extract(t.args[0], lo-k, w)
		}
	}
	if t.op == OLin && lo < 62 {
		M := int64(1) << uint(lo)
		div := map[*Term]int64{}
		rem := map[*Term]int64{}
		for i, a := range t.args {
			if t.coef[i]%M == 0 {
				div[a] = t.coef[i] / M
			} else {
				rem[a] = t.coef[i]
			}
		}
		q := floorDiv(t.c, M)
		r := mkLin(t.c-q*M, rem)
		d := mkLin(q, div)
		// disjoint sum: split the remainder by further powers of two is not needed here
		var low *Term
		if l, h := rng(r); l >= 0 && h < M {
			low = tZero
		} else {
			low = nil
		}
		if lo+w >= 64 {
			if low != nil {
				return d
			}
			if len(div) > 0 || q != 0 {
				return add(d, extract(r, lo, 64-lo))
			}
			return mk(Term{op: OExtract, lo: lo, w: w, args: []*Term{t}})
		}
		if low != nil {
			return maskLow(d, w)
		}
		if len(div) == 0 && q == 0 {
			return mk(Term{op: OExtract, lo: lo, w: w, args: []*Term{t}})
		}
		if lo == 0 {
			return maskLow(t, w)
		}
		return maskLow(add(d, extract(r, lo, 64-lo)), w)
	}
	return mk(Term{op: OExtract, lo: lo, w: w, args: []*Term{t}})
}

// maskLow returns t mod 2^w
func maskLow(t *Term, w int) *Term {
	if w >= 62 {
		return extractRaw(t, w)
	}
	if t.op != OLin {
		return extract(t, 0, w)
	}
	M := int64(1) << uint(w)
	m := map[*Term]int64{}
	for i, a := range t.args {
		if t.coef[i]%M != 0 {
			m[a] = t.coef[i]
		}
	}
	r := mkLin(t.c-floorDiv(t.c, M)*M, m)
	if l, h := rng(r); l >= 0 && h < M {
		return r
	}
	if l, h := rng(t); l >= 0 && h < M {
		return t
	}
	if w == 1 && r.op == OLin && r.c == 1 && len(r.args) == 1 {
		return sub(K(1), maskLow(mulc(r.args[0], r.coef[0]), 1))
	}
	if r.op != OLin {
		return extract(r, 0, w)
	}
	return mk(Term{op: OExtract, lo: 0, w: w, args: []*Term{r}})
}

func extractRaw(t *Term, w int) *Term {
	if w >= 64 {
		return t
	}
	if l, h := rng(t); l >= 0 && h < inf {
		return t
	}
	return mk(Term{op: OExtract, lo: 0, w: w, args: []*Term{t}})
}

func mkOr(a, b *Term) *Term {
	if a == b {
		return a
	}
	set := map[*Term]bool{}
	var c int64
	big := false
	var put func(t *Term)
	put = func(t *Term) {
		switch t.op {
		case OOr:
			for _, x := range t.args {
				put(x)
			}
		case OConst:
			c |= t.c
		default:
			set[t] = true
		}
	}
	put(a)
	put(b)
	_ = big
	if c != 0 {
		set[K(c)] = true
	}
	if len(set) == 0 {
		return tZero
	}
	var l []*Term
	for t := range set {
		l = append(l, t)
	}
	if len(l) == 1 {
		return l[0]
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	// a full word reassembled from its parts
	if r := reassemble(l); r != nil {
		return r
	}
	return mk(Term{op: OOr, args: l})
}

// reassemble recognises x[hi] | x[lo] made of adjacent parts of the same word
func reassemble(l []*Term) *Term {
	type part struct {
		base  *Term
		lo, w int
		sh    int
	}
	var ps []part
	for _, t := range l {
		k := int64(1)
		e := t
		if t.op == OLin && t.c == 0 && len(t.args) == 1 {
			e, k = t.args[0], t.coef[0]
		}
		if e.op != OExtract || k <= 0 || k&(k-1) != 0 {
			return nil
		}
		sh := 0
		for int64(1)<<uint(sh) < k {
			sh++
		}
		ps = append(ps, part{e.args[0], e.lo, e.w, sh})
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].sh < ps[j].sh })
	d := ps[0].lo - ps[0].sh
	end := ps[0].lo
	for _, p := range ps {
		if p.base != ps[0].base || p.lo-p.sh != d || p.lo != end {
			return nil
		}
		end = p.lo + p.w
	}
	return mulc(extract(ps[0].base, ps[0].lo, end-ps[0].lo), int64(1)<<uint(ps[0].sh))
}

// bits returns the field [lo,lo+w) of a word
func bits(t *Term, lo, w int) *Term { return extract(t, lo, w) }

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func mkEq0(l *Term) *Term {
	if c, ok := l.isConst(); ok {
		return KBool(c == 0)
	}
	if lo, hi := rng(l); lo > 0 || hi < 0 {
		return tFalse
	}
	c, at, f := linOf(l)
	g := int64(0)
	for _, k := range f {
		g = gcd(g, k)
	}
	if g > 1 {
		if c%g != 0 {
			return tFalse
		}
	}
	s := int64(1)
	if f[0] < 0 {
		s = -1
	}
	m := map[*Term]int64{}
	for i, a := range at {
		m[a] = s * f[i] / g
	}
	l = mkLin(s*c/g, m)
	// one bit wide: x == 1  is  not x == 0
	if l.op == OLin && l.c == -1 && len(l.args) == 1 && l.coef[0] == 1 {
		if a := l.args[0]; a.op == OExtract && a.w == 1 {
			return mkNot(mk(Term{op: OEq0, args: []*Term{a}}))
		}
	}
	return mk(Term{op: OEq0, args: []*Term{l}})
}

func mkLe0(l *Term) *Term {
	if c, ok := l.isConst(); ok {
		return KBool(c <= 0)
	}
	lo, hi := rng(l)
	if hi <= 0 {
		return tTrue
	}
	if lo > 0 {
		return tFalse
	}
	c, at, f := linOf(l)
	g := int64(0)
	for _, k := range f {
		g = gcd(g, k)
	}
	if g > 1 {
		m := map[*Term]int64{}
		for i, a := range at {
			m[a] = f[i] / g
		}
		// g*x + c <= 0  <=>  x <= floor(-c/g)  <=>  x - floor(-c/g) <= 0
		l = mkLin(-floorDiv(-c, g), m)
	}
	return mk(Term{op: OLe0, args: []*Term{l}})
}

func mkNot(t *Term) *Term {
	switch t.op {
	case OTrue:
		return tFalse
	case OFalse:
		return tTrue
	case ONot:
		return t.args[0]
	case OLe0:
		return mkLe0(addc(mulc(t.args[0], -1), 1))
	}
	return mk(Term{op: ONot, args: []*Term{t}})
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if isAddr(a) && isAddr(b) {
		if a.op == ONil || b.op == ONil {
			x := a
			if a.op == ONil {
				x = b
			}
			if x.op == OObj && x.args[0].op == OSym && (x.args[0].sym.kind == SAlloc) || x.op == OField || x.op == OIdx || x.op == OGlobal {
				return tFalse
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(Term{op: OEq, args: []*Term{a, b}})
}

func isAddr(t *Term) bool {
	switch t.op {
	case OObj, OField, OIdx, OGlobal, ONil, OBlk, OBData, ONode, OSlice:
		return true
	}
	return false
}

func isIntTerm(t *Term) bool {
	switch t.op {
	case OConst, OBig, OLin, OExtract, OOr, OElem, OWord, OAny, OBeta:
		return true
	case OBin:
		return !strings.HasPrefix(t.str, "b:")
	case OSym:
		return !t.sym.bol && !t.sym.ptr
	}
	return false
}

func mkField(base *Term, i int, name string) *Term {
	return mk(Term{op: OField, c: int64(i), str: name, args: []*Term{base}})
}
func mkIdx(base, i *Term) *Term { return mk(Term{op: OIdx, args: []*Term{base, i}}) }
func mkObj(s *Term) *Term       { return mk(Term{op: OObj, args: []*Term{s}}) }
func mkSlice(base, off, ln, cp *Term) *Term {
	return mk(Term{op: OSlice, args: []*Term{base, off, ln, cp}})
}
func facet(name string, args ...*Term) *Term {
	return mk(Term{op: OFacet, str: name, args: args})
}
func fact(name string, args ...*Term) *Term {
	return mk(Term{op: OFact, str: name, args: args})
}
func seg(kind string, args ...*Term) *Term {
	return mk(Term{op: OSeg, str: kind, args: args})
}

// rebuild reconstructs a term with new arguments, normalising
func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OLin:
		r := K(t.c)
		for i, a := range args {
			r = linAdd(r, 1, a, t.coef[i])
		}
		return r
	case OExtract:
		return extract(args[0], t.lo, t.w)
	case OElem:
		if t.str == "sum" {
			return sumTo(args[0], args[1])
		}
	case OOr:
		r := tZero
		for _, a := range args {
			r = mkOr(r, a)
		}
		return r
	case OEq0:
		return mkEq0(args[0])
	case OLe0:
		return mkLe0(args[0])
	case ONot:
		return mkNot(args[0])
	case OEq:
		return mkEq(args[0], args[1])
	}
	n := *t
	n.args = args
	n.syms = nil
	n.beta = false
	n.coef = t.coef
	return mk(n)
}

// subst replaces terms (usually symbols) by others
func subst(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		if t.op == OSym && t.sym.loc != nil {
			return t
		}
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		if args[i] != a {
			ch = true
		}
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

func (t *Term) String() string {
	switch t.op {
	case OConst:
		return strconv.FormatInt(t.c, 10)
	case OBig:
		return t.str
	case OStr:
		return strconv.Quote(t.str)
	case ONil:
		return "nil"
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OSym:
		return fmt.Sprintf("%s#%d", t.sym.name, t.id)
	case OLin:
		var p []string
		for i, a := range t.args {
			switch t.coef[i] {
			case 1:
				p = append(p, a.String())
			case -1:
				p = append(p, "-"+a.String())
			default:
				p = append(p, fmt.Sprintf("%d*%s", t.coef[i], a))
			}
		}
		if t.c != 0 {
			p = append(p, strconv.FormatInt(t.c, 10))
		}
		return "(" + strings.Join(p, "+") + ")"
	case OExtract:
		return fmt.Sprintf("%s[%d:%d]", t.args[0], t.lo, t.lo+t.w)
	case OEq0:
		return t.args[0].String() + "==0"
	case OLe0:
		return t.args[0].String() + "<=0"
	case ONot:
		return "!(" + t.args[0].String() + ")"
	case OField:
		return t.args[0].String() + "." + t.str
	case OIdx:
		return fmt.Sprintf("%s[%s]", t.args[0], t.args[1])
	case OElem:
		return fmt.Sprintf("%s{%s}", t.args[0], t.args[1])
	case OObj:
		return "&" + t.args[0].String()
	case OBeta:
		return "β"
	case OTop:
		return "⊤"
	}
	name := map[Op]string{OOr: "or", OBin: t.str, OWord: "word", OGlobal: "global " + t.str, OBlk: "blk", OBData: "bdata", ONode: "node", OSlice: "slice", OStruct: "struct", OTuple: "tuple", OIface: "iface", OClosure: "closure " + t.str, OFunc: "func " + t.str, OEq: "eq", OFacet: t.str, OFact: t.str, OSeg: "seg:" + t.str, OSegs: "segs", OAny: "any", ORegion: "region"}[t.op]
	var p []string
	for _, a := range t.args {
		p = append(p, a.String())
	}
	return name + "(" + strings.Join(p, ", ") + ")"
}

// bitmask: the bits of a word that can be set
func bitmask(t *Term) (uint64, bool) {
	switch t.op {
	case OConst:
		return uint64(t.c), true
	case OExtract:
		if t.w < 64 {
			return 1<<uint(t.w) - 1, true
		}
	case OOr:
		var m uint64
		for _, a := range t.args {
			x, ok := bitmask(a)
			if !ok {
				return 0, false
			}
			m |= x
		}
		return m, true
	case OLin:
		tz := 63
		for i := range t.args {
			for j := 0; j < tz; j++ {
				if t.coef[i]>>uint(j)&1 == 1 {
					tz = j
				}
			}
		}
		for j := 0; j < tz && t.c != 0; j++ {
			if t.c>>uint(j)&1 == 1 {
				tz = j
			}
		}
		m := map[*Term]int64{}
		for i, a := range t.args {
			m[a] = t.coef[i] >> uint(tz)
		}
		r := mkLin(t.c>>uint(tz), m)
		if l, h := rng(r); l >= 0 && h < inf {
			w := 0
			for int64(1)<<uint(w) <= h {
				w++
			}
			return (1<<uint(w) - 1) << uint(tz), true
		}
	default:
		if l, h := rng(t); l >= 0 && h < inf {
			w := 0
			for int64(1)<<uint(w) <= h {
				w++
			}
			return 1<<uint(w) - 1, true
		}
	}
	return 0, false
}
