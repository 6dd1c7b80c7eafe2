package main

// Loop structure, liveness, and the loop solver: header states are generalised by anti-unification
// (least general generalisation with consistent variables), facts are kept when they hold under both
// instantiations; afterwards universally quantified facts and array summaries are derived by induction.

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type region struct {
	header *ssa.BasicBlock
	loop   bool
	blocks map[*ssa.BasicBlock]bool
	items  []item
	parent *region
}

type item struct {
	block *ssa.BasicBlock
	sub   *region
}

type fnInfo struct {
	fn          *ssa.Function
	rpo         []*ssa.BasicBlock
	root        *region
	irreducible bool
	liveIn      map[*ssa.BasicBlock][]ssa.Value
	inner       map[*ssa.BasicBlock]*region
	headers     map[*ssa.BasicBlock]bool
}

func (e *Engine) fnInfo(fn *ssa.Function) *fnInfo {
	if i, ok := e.info[fn]; ok {
		return i
	}
	inf := &fnInfo{fn: fn, liveIn: map[*ssa.BasicBlock][]ssa.Value{}, inner: map[*ssa.BasicBlock]*region{}, headers: map[*ssa.BasicBlock]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	num := map[*ssa.BasicBlock]int{}
	for i := len(post) - 1; i >= 0; i-- {
		num[post[i]] = len(inf.rpo)
		inf.rpo = append(inf.rpo, post[i])
	}
	// natural loops
	loops := map[*ssa.BasicBlock]*region{}
	for _, b := range inf.rpo {
		for _, s := range b.Succs {
			if num[s] <= num[b] {
				if !s.Dominates(b) {
					inf.irreducible = true
					continue
				}
				l := loops[s]
				if l == nil {
					l = &region{header: s, loop: true, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] || !seen[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	root := &region{header: fn.Blocks[0], blocks: map[*ssa.BasicBlock]bool{}}
	for _, b := range inf.rpo {
		root.blocks[b] = true
	}
	all := []*region{}
	for _, l := range loops {
		all = append(all, l)
	}
	sort.Slice(all, func(i, j int) bool {
		if len(all[i].blocks) != len(all[j].blocks) {
			return len(all[i].blocks) < len(all[j].blocks)
		}
		return num[all[i].header] < num[all[j].header]
	})
	for i, l := range all {
		l.parent = root
		for _, m := range all[i+1:] {
			if m.blocks[l.header] {
				l.parent = m
				break
			}
		}
	}
	innermost := func(b *ssa.BasicBlock) *region {
		for _, l := range all {
			if l.blocks[b] {
				return l
			}
		}
		return root
	}
	for _, b := range inf.rpo {
		r := innermost(b)
		inf.inner[b] = r
		inf.headers[b] = r.loop && r.header == b
		// enter loops from the outside in
		if r.loop && r.header == b {
			r.parent.items = append(r.parent.items, item{sub: r})
		}
		r.items = append(r.items, item{block: b})
	}
	// a loop header may precede, in rpo, blocks after the loop that come before loop body blocks; items are
	// in rpo order inside each region, which is a topological order without back edges
	inf.root = root
	inf.live()
	e.info[fn] = inf
	return inf
}

func (inf *fnInfo) live() {
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range inf.rpo {
		in[b] = map[ssa.Value]bool{}
	}
	reg := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin, nil:
			return false
		}
		return true
	}
	for ch := true; ch; {
		ch = false
		for i := len(inf.rpo) - 1; i >= 0; i-- {
			b := inf.rpo[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					l[v] = true
				}
				for k, p := range s.Preds {
					if p != b {
						continue
					}
					for _, x := range s.Instrs {
						phi, ok := x.(*ssa.Phi)
						if !ok {
							break
						}
						if reg(phi.Edges[k]) {
							l[phi.Edges[k]] = true
						}
					}
				}
			}
			// a value used by a phi of a successor is live out of b
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				x := b.Instrs[k]
				if v, ok := x.(ssa.Value); ok {
					delete(l, v)
				}
				if _, ok := x.(*ssa.Phi); ok {
					continue
				}
				for _, op := range x.Operands(nil) {
					if *op != nil && reg(*op) {
						l[*op] = true
					}
				}
			}
			for v := range l {
				if !in[b][v] {
					in[b][v] = true
					ch = true
				}
			}
		}
	}
	for _, b := range inf.rpo {
		var vs []ssa.Value
		for v := range in[b] {
			vs = append(vs, v)
		}
		for _, x := range b.Instrs {
			if p, ok := x.(*ssa.Phi); ok {
				vs = append(vs, p)
			} else {
				break
			}
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		inf.liveIn[b] = vs
	}
}

// ---- loop solving ----

type cluster struct {
	fs    *FS
	entry *FS // the state on entry (entry clusters)
	key   string
	dirty bool
	arr   []*FS
	peel  bool
	feeds []*cluster // clusters whose arrivals come here
	nvar  int
	joins int
	final *FS
}

type owner struct {
	fr *Frame
	lp *region
	m  map[*Term]bool
}

// owns reports whether a symbol belongs to the current iteration of the loop
func (o *owner) owns(s *Term) bool {
	if r, ok := o.m[s]; ok {
		return r
	}
	r := false
	y := s.sym
	if y.frame != nil && y.instr != nil {
		f, in := y.frame, y.instr
		for f != nil && f != o.fr {
			in = f.call
			f = f.parent
		}
		if f == o.fr && in != nil && in.Block() != nil && o.lp.blocks[in.Block()] {
			r = true
		}
	} else if y.loc != nil {
		// a cell whose address belongs to the loop
		for _, q := range y.loc.syms {
			if o.owns(q) {
				r = true
			}
		}
	}
	o.m[s] = r
	return r
}

func (o *owner) has(t *Term) bool {
	for _, s := range t.syms {
		if o.owns(s) {
			return true
		}
	}
	return false
}

func (r *runner) solve(lp *region, entries []*FS) map[*ssa.BasicBlock][]*FS {
	e := r.e
	own := &owner{r.fr, lp, map[*Term]bool{}}
	var cls []*cluster
	for _, fs := range entries {
		cls = append(cls, &cluster{fs: fs, entry: fs.clone(), dirty: true})
	}
	back := map[string]*cluster{}
	for iter := 0; ; iter++ {
		if iter > 30 {
			e.fail(r.fr, lp.header.Instrs[0], "loop does not converge")
		}
		changed := false
		for _, c := range cls {
			if !c.dirty {
				continue
			}
			c.dirty = false
			e.silent++
			_, c.arr = r.walk(lp, []*FS{c.fs.clone()})
			e.silent--
			if e.d.walk == "iter" {
				for _, a := range c.arr {
					e.d.savedNorm(a.st)
					a.st.exDrop("elem")
				}
			}
			r.exits = r.exits[:len(r.exits):len(r.exits)]
		}
		for ci := 0; ci < len(cls); ci++ {
			c := cls[ci]
			for _, a := range c.arr {
				if c.entry != nil {
					j, peel, ch := r.join(own, c.fs, a, c)
					if !peel {
						if ch {
							c.fs = j
							c.dirty, changed = true, true
						}
						continue
					}
				}
				k := r.shape(own, c.fs, a)
				var bc *cluster
				for {
					bc = back[k]
					if bc == nil {
						bc = &cluster{key: k, dirty: true}
						j, peel, _ := r.join(own, a, a, bc)
						if peel {
							e.fail(r.fr, lp.header.Instrs[0], "loop state cannot be generalised")
						}
						bc.fs = j
						back[k] = bc
						cls = append(cls, bc)
						changed = true
						break
					}
					j, peel, ch := r.join(own, bc.fs, a, bc)
					if !peel {
						if ch {
							bc.fs = j
							bc.dirty, changed = true, true
						}
						break
					}
					k += "'" // states of different shape are kept apart
				}
				has := false
				for _, f := range bc.feeds {
					if f == c {
						has = true
					}
				}
				if !has {
					bc.feeds = append(bc.feeds, c)
				}
			}
		}
		if os.Getenv("DBGLOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop %s b%d iter %d clusters %d\n", fnName(r.fr.fn), lp.header.Index, iter, len(cls))
		}
		if len(cls) > 200 {
			e.fail(r.fr, lp.header.Instrs[0], "too many loop partitions")
		}
		if !changed {
			break
		}
	}
	for _, c := range cls {
		r.enrich(own, lp, c, cls)
	}
	out := map[*ssa.BasicBlock][]*FS{}
	for _, c := range cls {
		if os.Getenv("DBGHDR") != "" && strings.Contains(fnName(r.fr.fn), os.Getenv("DBGHDR")) && e.silent == 0 {
			fmt.Fprintf(os.Stderr, "== header %s b%d entry=%v\n%s", fnName(r.fr.fn), lp.header.Index, c.entry != nil, dumpFS(c.fs))
		}
		o, _ := r.walk(lp, []*FS{c.fs.clone()})
		for b, l := range o {
			out[b] = append(out[b], l...)
		}
	}
	return out
}

func dumpFS(fs *FS) string {
	var l []string
	for v, t := range fs.env {
		l = append(l, "  "+v.Name()+" = "+t.String())
	}
	sort.Strings(l)
	return strings.Join(l, "\n") + "\n" + fs.st.dump()
}

func (s *St) dump() string {
	var l []string
	for a, t := range s.mem {
		l = append(l, "  ["+a.String()+"] = "+t.String())
	}
	sort.Strings(l)
	var f []string
	for t := range s.facts {
		f = append(f, "  . "+t.String())
	}
	sort.Strings(f)
	var x []string
	for _, t := range s.ex {
		x = append(x, "  ! "+t.String())
	}
	return strings.Join(l, "\n") + "\n" + strings.Join(f, "\n") + "\n" + strings.Join(x, "\n") + "\n"
}

// shape partitions the arrivals of a loop: typestate and the kind of the pointers
// and the values the iteration left as they were
func (r *runner) shape(own *owner, h, fs *FS) string {
	var sk func(t *Term) string
	sk = func(t *Term) string {
		if t.op == OIdx {
			return "idx(" + sk(t.args[0]) + ")"
		}
		if !own.has(t) {
			if isAddr(t) && t.op != OSlice {
				return fmt.Sprintf("#%d", t.id)
			}
			if t.op == OFacet && len(t.args) == 0 {
				return t.str
			}
		}
		switch t.op {
		case OFacet, OField, OIdx, OObj, ONode, OBData, OBlk, OStruct, OTuple:
			var p []string
			for _, a := range t.args {
				p = append(p, sk(a))
			}
			return fmt.Sprintf("%d%s(%s)", t.op, t.str, strings.Join(p, ","))
		case OSlice:
			return "slice"
		}
		return "?"
	}
	var l []string
	for _, f := range fs.st.ex {
		l = append(l, sk(f))
	}
	sort.Strings(l)
	var m []string
	for _, v := range r.inf.liveIn[r.inf.rpo[0]] {
		_ = v
	}
	leaf := true
	for _, it := range own.lp.items {
		if it.sub != nil {
			leaf = false
		}
	}
	for v, t := range fs.env {
		if leaf && h.env[v] == t && !own.has(t) {
			m = append(m, fmt.Sprintf("%s=#%d", v.Name(), t.id))
		} else if isAddr(t) {
			m = append(m, v.Name()+"="+sk(t))
		}
	}
	for a, t := range fs.st.mem {
		if own.has(a) || a.op == ORegion {
			continue
		}
		if leaf && h.st.mem[a] == t && !own.has(t) {
			m = append(m, fmt.Sprintf("%d=#%d", a.id, t.id))
		} else if isAddr(t) {
			m = append(m, fmt.Sprintf("%d=%s", a.id, sk(t)))
		}
	}
	sort.Strings(m)
	for _, d := range fs.defers {
		m = append(m, d.str)
	}
	return strings.Join(l, ";") + "|" + strings.Join(m, ";")
}

type pair struct{ a, b *Term }

type joiner struct {
	r    *runner
	own  *owner
	h    *ssa.BasicBlock
	vars map[pair]*Term
	used map[*Term]bool
	s1   map[*Term]*Term
	s2   map[*Term]*Term
	list []*Term
	peel bool
	c    *cluster
}

func (j *joiner) isVar(t *Term) bool {
	return t.op == OSym && t.sym.kind == SVar && t.sym.frame == j.r.fr && t.sym.instr == j.h.Instrs[0]
}

func (j *joiner) newVar(a, b *Term) *Term {
	if isAddr(a) && isAddr(b) && a.op != b.op {
		j.peel = true
	}
	// a variable that holds a tree word from the second iteration on
	if _, k := a.isConst(); k && j.c.entry != nil && !j.isVar(b) {
		x := b
		if x.op == OExtract {
			x = x.args[0]
		}
		if x.op == OSym && x.sym.kind == SLoad && j.own.owns(x) {
			j.peel = true
		}
	}
	if j.isVar(a) && !j.used[a] {
		// keep the name when the attributes stay valid
		ok := true
		if !j.isVar(b) {
			if a.sym.byt {
				if lo, hi := rng(b); lo < 0 || hi > 255 {
					ok = false
				}
			} else if a.sym.nonN {
				if lo, _ := rng(b); lo < 0 {
					ok = false
				}
			}
			if tainted(b) && !a.sym.stale {
				ok = false
			}
		}
		if ok {
			j.used[a] = true
			return a
		}
	}
	s := Sym{kind: SVar, frame: j.r.fr, instr: j.h.Instrs[0]}
	s.bol = isBoolTerm(a) || isBoolTerm(b)
	s.ptr = !s.bol && (isAddr(a) || isAddr(b) || isPtrSym(a) || isPtrSym(b))
	if isIntTerm(a) && isIntTerm(b) {
		l1, h1 := rng(a)
		l2, h2 := rng(b)
		s.byt = l1 >= 0 && l2 >= 0 && h1 <= 255 && h2 <= 255 && isByteLike(a) && isByteLike(b)
		s.nonN = l1 >= 0 && l2 >= 0
	}
	s.stale = tainted(a) || tainted(b)
	for {
		s.name = fmt.Sprintf("v%d", j.c.nvar)
		if isContSym(a) && isContSym(b) {
			s.name = fmt.Sprintf("cont%d", j.c.nvar)
		}
		j.c.nvar++
		v := mkSym(s)
		// attributes are part of the first definition; make names distinct
		if *v.sym == s && !j.used[v] {
			j.used[v] = true
			return v
		}
	}
}

func isContSym(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.sym.name, "cont") }

func isByteLike(t *Term) bool {
	switch t.op {
	case OConst, OElem:
		return true
	case OExtract:
		return t.w <= 8
	case OSym:
		return t.sym.byt
	}
	return false
}

func tainted(t *Term) bool {
	for _, s := range t.syms {
		if s.sym.stale {
			return true
		}
	}
	return false
}

func isBoolTerm(t *Term) bool {
	switch t.op {
	case OTrue, OFalse, OEq, OEq0, OLe0, ONot:
		return true
	case OSym:
		return t.sym.bol
	}
	return false
}

func isPtrSym(t *Term) bool { return t.op == OSym && t.sym.ptr }

func (j *joiner) lgg(a, b *Term) *Term {
	if a == b && !j.own.has(a) {
		return a
	}
	if v, ok := j.vars[pair{a, b}]; ok {
		return v
	}
	if a.op == b.op && a.str == b.str && a.c == b.c && a.lo == b.lo && a.w == b.w && len(a.args) == len(b.args) && len(a.args) > 0 {
		rec := true
		switch a.op {
		case OLin:
			rec = len(a.args) == 1 && a.args[0].op != OSym && b.args[0].op != OSym && a.coef[0] == b.coef[0]
		case OBin, OElem, OWord:
			rec = true
		case OEq, OEq0, OLe0, ONot, OOr:
			rec = false
		}
		if rec {
			args := make([]*Term, len(a.args))
			for i := range args {
				args[i] = j.lgg(a.args[i], b.args[i])
			}
			return rebuild(a, args)
		}
	}
	v := j.newVar(a, b)
	j.vars[pair{a, b}] = v
	j.s1[v] = a
	j.s2[v] = b
	j.list = append(j.list, v)
	return v
}

// joinSegs joins the content of an array written in the loop
func (j *joiner) joinSegs(a, b []*Term) []*Term {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] && !j.own.has(a[n]) && a[n].str != "loopdirty" {
		n++
	}
	if n == len(a) && n == len(b) {
		return a
	}
	out := append([]*Term(nil), a[:n]...)
	if n < len(a) && a[n].str == "loopdirty" {
		return append(out, a[n])
	}
	if n < len(a) {
		// something else changed: unknown content
		return append(out[:0], seg("loopdirty", KStr("all")))
	}
	return append(out, seg("loopdirty"))
}

// shifted: t is not some constant other than 0
func shifted(g *Term) bool {
	return g.op == ONot && g.args[0].op == OEq0 && g.args[0].args[0].op == OLin && g.args[0].args[0].c != 0
}

// join generalises header state h so that it covers arrival a
func (r *runner) join(own *owner, h, a *FS, c *cluster) (res *FS, peel, changed bool) {
	j := &joiner{r: r, own: own, vars: map[pair]*Term{}, used: map[*Term]bool{}, s1: map[*Term]*Term{}, s2: map[*Term]*Term{}, c: c}
	j.h = headerOf(own)
	out := &FS{st: newSt(), env: map[ssa.Value]*Term{}}
	if len(h.defers) != len(a.defers) {
		r.e.fail(r.fr, j.h.Instrs[0], "defer in loop")
	}
	for i := range h.defers {
		if h.defers[i] != a.defers[i] {
			r.e.fail(r.fr, j.h.Instrs[0], "defer in loop")
		}
	}
	out.defers = h.defers
	// exact components
	sortEx := func(l []*Term) []*Term {
		m := append([]*Term(nil), l...)
		sort.SliceStable(m, func(x, y int) bool { return m[x].str < m[y].str })
		return m
	}
	he, ae := sortEx(h.st.ex), sortEx(a.st.ex)
	if len(he) != len(ae) {
		return nil, true, true
	}
	for i := range he {
		if he[i].str != ae[i].str || len(he[i].args) != len(ae[i].args) {
			return nil, true, true
		}
	}
	if r.outer(own) {
		r.e.d.saturate(h.st)
		r.e.d.saturate(a.st)
	}
	vals := r.inf.liveIn[j.h]
	for _, v := range vals {
		x, ok1 := h.env[v]
		y, ok2 := a.env[v]
		if ok1 && ok2 {
			out.env[v] = j.lgg(x, y)
		}
	}
	for i := range he {
		g := j.lgg(he[i], ae[i])
		if g.op != OFacet {
			return nil, true, true
		}
		out.st.ex = append(out.st.ex, g)
	}
	keys := map[*Term]bool{}
	for k := range h.st.mem {
		keys[k] = true
	}
	for k := range a.st.mem {
		keys[k] = true
	}
	var ks []*Term
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(x, y int) bool { return ks[x].id < ks[y].id })
	for _, k := range ks {
		if own.has(k) {
			continue
		}
		if k.op == ORegion {
			l := j.joinSegs(h.st.segs(k.args[0]), a.st.segs(k.args[0]))
			out.st.setSegs(k.args[0], l)
			continue
		}
		x, ok1 := h.st.mem[k]
		y, ok2 := a.st.mem[k]
		if !ok1 {
			x = r.e.guessInit(k, y)
		}
		if !ok2 {
			y = r.e.guessInit(k, x)
		}
		out.st.mem[k] = j.lgg(x, y)
	}
	// cells of objects allocated in the loop, reachable through a generalised pointer
	for k, y := range a.st.mem {
		if !own.has(k) || k.op == ORegion {
			continue
		}
		_ = y
	}
	if j.peel {
		return nil, true, true
	}
	// facts
	isNew := map[*Term]bool{}
	for _, v := range j.list {
		isNew[v] = true
	}
	i1, i2 := j.inverse(j.s1), j.inverse(j.s2)
	cand := map[*Term]bool{}
	ok := func(f *Term) bool {
		for _, s := range f.syms {
			if own.owns(s) && !isNew[s] {
				return false
			}
		}
		return true
	}
	for f := range h.st.facts {
		g := i1(f)
		if ok(g) {
			cand[g] = true
		}
	}
	// widening: after a few joins facts can only be lost
	c.joins++
	for f := range a.st.facts {
		g := i2(f)
		if ok(g) && (c.joins <= 3 || g.op != OLe0 && !shifted(g)) {
			cand[g] = true
		}
	}
	for _, v := range j.list {
		x, y := j.s1[v], j.s2[v]
		if isIntTerm(x) && isIntTerm(y) && r.e.d.walk == "iter" && r.e.d.keyLen != nil {
			cand[mkLe0(sub(v, r.e.d.keyLen))] = true
		}
		if cx, ok1 := x.isConst(); ok1 && r.e.d.walk == "iter" && isIntTerm(y) {
			// what was the same constant moves with it
			for f := range h.st.facts {
				if f.op == OEq0 && !a.st.facts[f] && ok(f) && isIntTerm(f.args[0]) {
					cand[mkEq0(sub(addc(f.args[0], cx), v))] = true
					cand[mkEq0(add(addc(f.args[0], -cx), v))] = true
				}
			}
			if cy, ok2 := y.isConst(); ok2 {
				for f := range a.st.facts {
					if f.op == OLe0 && !h.st.facts[f] && ok(f) {
						cand[mkLe0(add(addc(f.args[0], -cy), v))] = true
						cand[mkLe0(sub(addc(f.args[0], cy), v))] = true
					}
				}
			}
		}
		if !isIntTerm(x) || !isIntTerm(y) || c.joins > 3 {
			continue
		}
		cand[mkLe0(mulc(v, -1))] = true
		cand[mkLe0(sub(K(1), v))] = true
		// bounded by the value it starts from
		if dd, isc := sub(y, x).isConst(); isc && dd != 0 && !own.has(x) {
			if dd > 0 {
				cand[mkLe0(sub(x, v))] = true
			} else {
				cand[mkLe0(sub(v, x))] = true
				cand[mkLe0(sub(K(-1), v))] = true
			}
		}
		// a sum over the elements visited so far
		if _, ya, yc := linOf(y); y.op == OLin || y.op == OElem {
			for i, t := range ya {
				if t.op != OElem || t.str != "sum" {
					continue
				}
				for _, w := range j.list {
					if k, c := sub(t.args[1], j.s2[w]).isConst(); c && isIntTerm(j.s2[w]) {
						g := add(sub(y, mulc(t, yc[i])), mulc(sumTo(t.args[0], addc(w, k)), yc[i]))
						cand[mkEq0(sub(v, g))] = true
					}
				}
			}
		}
		if cx, okx := x.isConst(); okx {
			cand[mkLe0(sub(K(cx), v))] = true
			if cy, oky := y.isConst(); oky {
				for f := range a.st.facts {
					if f.op == OLe0 && !h.st.facts[f] && ok(f) {
						cand[mkLe0(add(addc(f.args[0], -cy), v))] = true
						cand[mkLe0(sub(addc(f.args[0], cy), v))] = true
					}
				}
			}
		}
	}
	// variables that move together
	for i, v := range j.list {
		for _, u := range j.list[:i] {
			if v.sym.ptr || u.sym.ptr || !isIntTerm(j.s1[v]) || !isIntTerm(j.s1[u]) || !isIntTerm(j.s2[v]) || !isIntTerm(j.s2[u]) {
				continue
			}
			dx, dy := sub(j.s1[v], j.s1[u]), sub(j.s2[v], j.s2[u])
			if dx == dy && !own.has(dx) {
				cand[mkEq0(sub(sub(v, u), dx))] = true
			}
		}
	}
	// where in the key the generalised words are reached
	find := func(x, y *Term) *Term {
		if v, ok := j.vars[pair{x, y}]; ok {
			return v
		}
		if x == y && !own.has(x) {
			return x
		}
		return nil
	}
	for _, f1 := range h.st.named("depth") {
		for _, f2 := range a.st.named("depth") {
			w, dd := find(f1.args[0], f2.args[0]), find(f1.args[1], f2.args[1])
			if w == nil || dd == nil {
				continue
			}
			if f := fact("depth", w, dd); ok(f) {
				cand[f] = true
				if r.e.d.key != nil && dd != tZero {
					cand[mkEq0(sub(extract(w, 0, 8), r.e.d.keyAt(out.st, addc(dd, -1))))] = true
				}
			}
		}
	}
	cl := make([]*Term, 0, len(cand))
	for f := range cand {
		cl = append(cl, f)
	}
	sort.Slice(cl, func(x, y int) bool { return cl[x].id < cl[y].id })
	m1, m2 := map[*Term]*Term{}, map[*Term]*Term{}
	for _, f := range cl {
		if f.op == OTrue || f.op == OFalse {
			continue
		}
		if r.entails(h.st, subst(f, j.s1, m1)) && r.entails(a.st, subst(f, j.s2, m2)) {
			out.st.facts[f] = true
		}
	}
	pruneLe(out.st)
	changed = out.st.sig() != h.st.sig()
	for v, t := range out.env {
		if h.env[v] != t {
			changed = true
		}
	}
	if len(out.st.facts) != len(h.st.facts) {
		changed = true
	} else {
		for f := range h.st.facts {
			if !out.st.facts[f] {
				changed = true
			}
		}
	}
	if changed && os.Getenv("DBGJOIN") != "" {
		fmt.Fprintf(os.Stderr, "JOIN %s b%d\n--h\n%s--a\n%s--out\n%s", fnName(r.fr.fn), j.h.Index, dumpFS(h), dumpFS(a), dumpFS(out))
	}
	return out, false, changed
}

// pruneLe drops inequalities implied by a stronger one over the same terms
func pruneLe(st *St) {
	best := map[*Term]*Term{}
	for f := range st.facts {
		if f.op != OLe0 || f.args[0].op != OLin {
			continue
		}
		l := f.args[0]
		k := addc(l, -l.c)
		if b, ok := best[k]; !ok || b.args[0].c < l.c || b.args[0].op != OLin && l.c > 0 {
			best[k] = f
		}
	}
	for f := range st.facts {
		if f.op != OLe0 {
			continue
		}
		l := f.args[0]
		c := int64(0)
		k := l
		if l.op == OLin {
			c = l.c
			k = addc(l, -l.c)
		}
		if b, ok := best[k]; ok && b != f {
			bc := int64(0)
			if b.args[0].op == OLin {
				bc = b.args[0].c
			}
			if bc >= c {
				delete(st.facts, f)
				st.dirty()
			}
		}
	}
}

// outer: loops that contain other loops, where nodes are followed
func (r *runner) outer(own *owner) bool {
	return true
}

func headerOf(own *owner) *ssa.BasicBlock { return own.lp.header }

// guessInit is the content of a cell on the side that has not written it
func (e *Engine) guessInit(k, other *Term) *Term {
	r := rootObj(k)
	if r.op == OObj && r.args[0].op == OSym {
		switch r.args[0].sym.kind {
		case SAlloc:
			switch {
			case isBoolTerm(other):
				return tFalse
			case other.op == OSlice:
				return mkSlice(tNil, tZero, tZero, tZero)
			case isIntTerm(other):
				return tZero
			}
			return tNil
		}
	}
	n := k.str
	if n == "" {
		n = "mem"
	}
	s := Sym{name: n, kind: SInit, loc: k}
	if r.op == OObj && r.args[0].op == OSym && r.args[0].sym.kind == SStale {
		s = Sym{name: "stale." + k.str, kind: SStale, loc: k, stale: true}
	}
	switch {
	case other.op == OSlice:
		s.ptr = true
		b := mkSym(s)
		return mkSlice(mkObj(b), tZero, mkSym(Sym{name: s.name + ".len", kind: SLen, loc: k, nonN: true, max: 1 << 48, stale: s.stale}), mkSym(Sym{name: s.name + ".cap", kind: SLen, loc: k, nonN: true, max: 1 << 48}))
	case isBoolTerm(other):
		s.bol = true
	case isAddr(other) || isPtrSym(other):
		s.ptr = true
		if other.op == OObj {
			return mkObj(mkSym(s))
		}
	}
	return mkSym(s)
}

// inverse rewrites facts of one side in terms of the variables
func (j *joiner) inverse(sg map[*Term]*Term) func(*Term) *Term {
	p1 := map[*Term]*Term{}
	p2 := map[*Term]*Term{}
	for _, v := range j.list {
		t := sg[v]
		if !j.own.has(t) {
			continue
		}
		if t.op != OLin {
			if _, dup := p2[t]; !dup {
				p2[t] = v
			}
		}
	}
	for _, v := range j.list {
		t := sg[v]
		if t.op != OLin || !j.own.has(t) {
			continue
		}
		best := -1
		for pass := 0; pass < 2 && best < 0; pass++ {
			for i, a := range t.args {
				if (t.coef[i] == 1 || t.coef[i] == -1) && j.own.has(a) && (a.op == OSym) == (pass == 0) {
					if _, dup := p1[a]; dup {
						continue
					}
					if _, dup := p2[a]; dup {
						continue
					}
					best = i
					break
				}
			}
		}
		if best < 0 {
			continue
		}
		a, k := t.args[best], t.coef[best]
		rest := linAdd(t, 1, a, -k)
		p1[a] = mulc(sub(v, rest), k)
	}
	m1, m2 := map[*Term]*Term{}, map[*Term]*Term{}
	return func(f *Term) *Term {
		if !j.own.has(f) {
			return f
		}
		g := f
		if len(p1) > 0 {
			g = subst(g, p1, m1)
		}
		return subst(g, p2, m2)
	}
}

// entails: f holds in st; includes quantified facts
func (r *runner) entails(st *St, f *Term) bool {
	if f.op == OFalse {
		return false
	}
	if st.prove(f) {
		return true
	}
	if f.op != OFact {
		return false
	}
	switch f.str {
	case "forall":
		lo, hi := f.args[0], f.args[1]
		if st.eqv(lo, hi) {
			return true
		}
		prev := addc(hi, -1)
		if st.facts[fact("forall", lo, prev, f.args[2])] || st.eqv(lo, prev) {
			return holdsAt(st, f.args[2], prev)
		}
	case "tmpl":
		return st.facts[fact("emptyc", f.args[0])] || f.args[0] == tNil
	case "emptyc":
		return f.args[0] == tNil
	}
	return false
}

// holdsAt checks a template at one index: loads stand for some load of the address
func holdsAt(st *St, tpl, at *Term) bool {
	t := substF(tpl, map[*Term]*Term{tBeta: at})
	anys := collect(t, OAny)
	if len(anys) == 0 {
		return st.prove(t)
	}
	if len(anys) > 1 {
		return false
	}
	loc := anys[0].args[0]
	seen := map[*Term]bool{}
	for f := range st.facts {
		for _, s := range f.syms {
			if s.sym.kind == SLoad && s.sym.loc != nil && !seen[s] {
				seen[s] = true
				if s.sym.loc == loc || st.norm(s.sym.loc) == st.norm(loc) {
					if st.prove(substF(t, map[*Term]*Term{anys[0]: s})) {
						return true
					}
				}
			}
		}
	}
	return false
}

func collect(t *Term, op Op) []*Term {
	var l []*Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == op {
			l = append(l, t)
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(t)
	return l
}

// enrich adds quantified facts and array summaries to a stable header state
func (r *runner) enrich(own *owner, lp *region, c *cluster, cls []*cluster) {
	// arrivals of this cluster that come back to it, and first arrivals
	var self, first []*FS
	var entry *FS
	if c.entry != nil {
		entry = c.entry
		for _, a := range c.arr {
			if _, peel, _ := r.join(own, c.fs, a, &cluster{nvar: 1000}); !peel {
				self = append(self, a)
			}
		}
	} else {
		for _, f := range c.feeds {
			for _, a := range f.arr {
				if r.shape(own, f.fs, a) != c.key {
					continue
				}
				if f == c {
					self = append(self, a)
				} else {
					first = append(first, a)
					if f.entry != nil {
						if entry == nil {
							entry = f.entry
						}
					} else {
						entry = nil
						first = nil
						self = nil
						goto done
					}
				}
			}
		}
	}
done:
	if len(self) == 0 {
		return
	}
	// induction variables: live header values advanced by a constant
	type iv struct {
		v    *Term
		init *Term // value before the first iteration of the loop
		beg  *Term // value on first arrival in this cluster
		step int64
		get  func(*FS) *Term
	}
	var ivs []iv
	try := func(get func(*FS) *Term) {
		v := get(c.fs)
		if v == nil || v.op != OSym || v.sym.kind != SVar || v.sym.instr != lp.header.Instrs[0] || v.sym.frame != r.fr || v.sym.ptr || v.sym.bol {
			return
		}
		for _, x := range ivs {
			if x.v == v {
				return
			}
		}
		var step int64
		for i, a := range self {
			t := get(a)
			if t == nil {
				return
			}
			d, ok := sub(t, v).isConst()
			if !ok || d == 0 || i > 0 && d != step {
				return
			}
			step = d
		}
		if step != 1 || entry == nil {
			return
		}
		init := get(entry)
		if init == nil || own.has(init) {
			return
		}
		beg := init
		for _, a := range first {
			t := get(a)
			if t == nil || t != addc(init, 1) {
				return
			}
			beg = t
		}
		ivs = append(ivs, iv{v, init, beg, step, get})
	}
	for _, v := range r.inf.liveIn[lp.header] {
		v := v
		try(func(f *FS) *Term { return f.env[v] })
	}
	var mk []*Term
	for k := range c.fs.st.mem {
		mk = append(mk, k)
	}
	sort.Slice(mk, func(x, y int) bool { return mk[x].id < mk[y].id })
	for _, k := range mk {
		k := k
		if isIntTerm(c.fs.st.mem[k]) {
			try(func(f *FS) *Term { return f.st.mem[k] })
		}
	}
	for _, x := range ivs {
		var tpls map[*Term]bool
		for _, a := range self {
			set := map[*Term]bool{}
			// loads of this iteration
			m := map[*Term]*Term{x.v: tBeta}
			ld := map[*Term]*Term{x.v: tBeta}
			for f := range a.st.facts {
				for _, s := range f.syms {
					if s.sym.kind == SLoad && own.owns(s) && s.sym.loc != nil {
						l := substF(s.sym.loc, m)
						if l.beta && !own.has(l) {
							ld[s] = mkAny(l)
						}
					}
				}
			}
			for f := range a.st.facts {
				if f.op == OFact && f.str != "insess" || f.op == OFact && f.str == "insess" {
					continue
				}
				g := substF(f, ld)
				if g.beta && !own.has(g) && g.op != OTrue {
					set[g] = true
				}
			}
			if tpls == nil {
				tpls = set
			} else {
				for g := range tpls {
					if !set[g] {
						delete(tpls, g)
					}
				}
			}
		}
		for g := range tpls {
			ok := true
			if c.entry == nil {
				for _, a := range first {
					if !holdsAt(a.st, g, x.init) {
						ok = false
					}
				}
			}
			if ok {
				c.fs.st.addFact(fact("forall", x.init, x.v, g))
				if g.op == OLe0 && entry != nil && r.entails(entry.st, substF(g, map[*Term]*Term{tBeta: addc(x.init, -1)})) {
					// the last one, or none yet
					c.fs.st.addFact(substF(g, map[*Term]*Term{tBeta: addc(x.v, -1)}))
				}
			}
		}
	}
	// arrays written at an index that follows an induction variable
	for k, v := range c.fs.st.mem {
		if k.op != ORegion {
			continue
		}
		segs := v.args
		if len(segs) == 0 || segs[len(segs)-1].str != "loopdirty" || len(segs[len(segs)-1].args) > 0 {
			continue
		}
		n := len(segs) - 1
		for _, x := range ivs {
			var sum *Term
			ok := true
			for _, a := range self {
				al := a.st.segs(k.args[0])
				if len(al) <= n || al[n].str != "loopdirty" {
					ok = false
					break
				}
				ext := al[n+1:]
				if len(ext) != 1 || ext[0].str != "word" {
					ok = false
					break
				}
				m := map[*Term]*Term{x.v: tBeta}
				off, val := substF(ext[0].args[0], m), substF(ext[0].args[1], m)
				if own.has(off) || own.has(val) || !off.beta {
					ok = false
					break
				}
				s := summarySeg(x.beg, x.v, off, val)
				if sum != nil && sum != s {
					ok = false
					break
				}
				sum = s
			}
			if ok && sum != nil {
				c.fs.st.setSegs(k.args[0], append(append([]*Term(nil), segs[:n]...), sum))
				break
			}
		}
	}
	c.fs.st.dirty()
}

func mkAny(l *Term) *Term { return mk(Term{op: OAny, args: []*Term{l}}) }

// summarySeg describes writes base[off(i)] = val(i) for i in [lo,hi)
func summarySeg(lo, hi, off, val *Term) *Term {
	d := sub(off, tBeta)
	if !d.beta {
		if !val.beta {
			return seg("fill", add(d, lo), sub(hi, lo), val)
		}
		if val.op == OWord || val.op == OElem {
			d2 := sub(val.args[1], tBeta)
			if !d2.beta && !val.args[0].beta {
				kind := "w"
				if val.op == OElem {
					kind = "b"
				}
				return seg("copy", add(d, lo), sub(hi, lo), val.args[0], add(d2, lo), KStr(kind))
			}
		}
	}
	return seg("loop", lo, hi, off, val)
}
