package main

// C28: the constants of every build configuration fit together. Each configuration (block size tag x word
// size) is type-checked and brought into SSA form on its own; the rules look at the resulting constants where
// they are used: at the indices of the block table, the lock table and the block data.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

type config struct {
	tag, arch string
	mib       int64
}

var configs = []config{
	{"", "amd64", 2}, {"blocksize8", "amd64", 8}, {"blocksize16", "amd64", 16},
	{"", "386", 2}, {"blocksize8", "386", 8}, {"blocksize16", "386", 16},
}

func configRules(dir string, l *Lint) {
	seen := map[string]string{}
	for _, c := range configs {
		name := "default"
		if c.tag != "" {
			name = c.tag
		}
		name += "/" + c.arch
		p, err := loadProg(dir, c.tag, c.arch)
		if !l.chk("C28", "compiles", name, token.NoPos, err == nil, "the configuration %s does not compile: %v", name, err) {
			continue
		}
		q := &cfgCheck{p: p, l: l, name: name, c: c}
		q.run()
		if c.arch == "amd64" {
			k := fmt.Sprint(q.stateConst)
			l.chk("C28", "state-tells-configurations-apart", name, token.NoPos, seen[k] == "", "a state saved with configuration %s is accepted by %s", name, seen[k])
			seen[k] = name
		}
	}
}

type cfgCheck struct {
	p          *Prog
	a          *Pts
	l          *Lint
	name       string
	c          config
	slots      int64
	stateConst []string
}

func (q *cfgCheck) chk(rule string, fn *ssa.Function, pos token.Pos, ok bool, format string, a ...interface{}) {
	f := q.name
	if fn != nil {
		f = q.name + " " + fnName(fn)
	}
	// positions are relative to this configuration's own file set
	where := q.p.pos(pos)
	k := "C28|" + rule + "|" + where + "|" + f
	r := q.l.reps[k]
	if r == nil {
		r = &Rep{Prop: "C28", Rule: rule, Where: where, Fn: f}
		q.l.reps[k] = r
	}
	if ok {
		r.Ok++
	} else {
		r.Bad++
		if r.Msg == "" {
			r.Msg = q.name + ": " + fmt.Sprintf(format, a...)
		}
	}
}

func (q *cfgCheck) run() {
	n, err := q.p.blockSlots()
	q.chk("one-block-size", nil, token.NoPos, err == nil, "%v", err)
	if err != nil {
		return
	}
	q.slots = n
	q.chk("documented-block-size", nil, token.NoPos, n*8 == q.c.mib<<20, "a block has %d bytes instead of %d MiB", n*8, q.c.mib)
	S, ok := pow2(n)
	q.chk("block-size-power-of-two", nil, token.NoPos, ok, "a block has %d slots", n)
	q.a = newPts(q.p)
	tree, nb := q.p.named("Tree"), q.p.named("nodeBlock")
	bi, li, di := fieldIndex(tree, "blocks"), fieldIndex(nb, "locks"), fieldIndex(nb, "data")
	blocks := arrayLen(tree, bi)
	locks := arrayLen(nb, li)
	q.chk("tables-found", nil, token.NoPos, blocks > 0 && locks > 0, "block or lock table not found")
	// the address space
	maxAddr := new(big.Int).Mul(big.NewInt(blocks), big.NewInt(n))
	q.chk("largest-node-fits", nil, token.NoPos, n > 256+2+32, "a block of %d slots is smaller than the largest node", n)
	nBlk, nLock, nData := 0, 0, 0
	for _, f := range q.p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.IndexAddr:
					if fieldOf(x.X, tree, bi) {
						nBlk++
						for _, k := range q.shifts(x.Index, map[ssa.Value]bool{}) {
							q.chk("block-of-address", f, x.Pos(), k == int64(S), "the block of a node is computed by shifting its address by %d bits, a block has 2^%d slots", k, S)
						}
						q.narrow(f, x.Index, maxAddr)
					}
					if fieldOf(x.X, nb, li) {
						nLock++
						m := q.max(x.Index, map[ssa.Value]bool{})
						q.chk("lock-index-in-table", f, x.Pos(), m != nil && m.Cmp(big.NewInt(locks)) < 0, "the lock index can be %v, the table has %d locks", m, locks)
						q.narrow(f, x.Index, maxAddr)
					}
					if q.isData(x.X, nb, di) {
						nData++
						q.offset(f, x.Pos(), x.Index, n)
					}
				case *ssa.Slice:
					if x.Low != nil && q.isData(x.X, nb, di) {
						nData++
						q.offset(f, x.Pos(), x.Low, n)
						q.narrow(f, x.Low, maxAddr)
					}
				}
			}
		}
	}
	q.chk("uses-found", nil, token.NoPos, nBlk >= 3 && nLock >= 1 && nData >= 3, "only %d uses of the block table, %d of locks and %d of block data were found", nBlk, nLock, nData)
	// the address survives its word
	sub := newLint(q.p)
	err = codecRulesFor(q.p, sub, maxAddr.Int64()-1)
	bad := ""
	for _, r := range sub.reps {
		if r.Bad > 0 {
			bad = r.Fn + ": " + r.Msg
		}
	}
	if err != nil {
		bad = err.Error()
	}
	q.chk("addresses-fit-words", nil, token.NoPos, bad == "", "node addresses up to %s do not survive being stored: %s", maxAddr, bad)
	// saved state
	q.state()
}

func arrayLen(n *types.Named, i int) int64 {
	if n == nil || i < 0 {
		return 0
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return 0
	}
	switch a := st.Field(i).Type().Underlying().(type) {
	case *types.Array:
		return a.Len()
	}
	return 0
}

func fieldOf(v ssa.Value, n *types.Named, i int) bool {
	fa, ok := v.(*ssa.FieldAddr)
	return ok && fa.Field == i && types.Identical(deref(fa.X.Type()), n)
}

// isData: the value is the whole data slice of a block
func (q *cfgCheck) isData(v ssa.Value, nb *types.Named, di int) bool {
	u, ok := v.(*ssa.UnOp)
	return ok && u.Op == token.MUL && fieldOf(u.X, nb, di)
}

func constOf(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	i := constant.ToInt(c.Value)
	if i.Kind() != constant.Int {
		return 0, false
	}
	x, ok := constant.Int64Val(i)
	return x, ok
}

// sources: values v is a copy of (conversions, parameters, results of helpers)
func (q *cfgCheck) sources(v ssa.Value, seen map[ssa.Value]bool) []ssa.Value {
	if seen[v] {
		return nil
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Convert:
		return q.sources(x.X, seen)
	case *ssa.ChangeType:
		return q.sources(x.X, seen)
	case *ssa.Phi:
		var r []ssa.Value
		for _, e := range x.Edges {
			r = append(r, q.sources(e, seen)...)
		}
		return r
	case *ssa.Parameter:
		var r []ssa.Value
		i := -1
		for j, p := range x.Parent().Params {
			if p == x {
				i = j
			}
		}
		cs := q.a.callers[x.Parent()]
		for _, c := range cs {
			if i < len(c.Common().Args) {
				r = append(r, q.sources(c.Common().Args[i], seen)...)
			}
		}
		if len(cs) > 0 {
			return r
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if r, ok := q.results(c, x.Index, seen); ok {
				return r
			}
		}
	case *ssa.Call:
		if r, ok := q.results(x, 0, seen); ok {
			return r
		}
	}
	return []ssa.Value{v}
}

func (q *cfgCheck) results(c *ssa.Call, i int, seen map[ssa.Value]bool) ([]ssa.Value, bool) {
	g := callee(c)
	if g == nil || g.Pkg != q.p.ssa || len(g.Blocks) == 0 {
		return nil, false
	}
	var r []ssa.Value
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok && i < len(rt.Results) {
				r = append(r, q.sources(rt.Results[i], seen)...)
			}
		}
	}
	return r, true
}

// shifts: the constants the value was shifted right by (or divided by)
func (q *cfgCheck) shifts(v ssa.Value, seen map[ssa.Value]bool) []int64 {
	var r []int64
	for _, s := range q.sources(v, seen) {
		b, ok := s.(*ssa.BinOp)
		if !ok {
			continue
		}
		c, isc := constOf(b.Y)
		switch {
		case b.Op == token.SHR && isc:
			r = append(r, c)
		case b.Op == token.QUO && isc:
			if k, ok := pow2(c); ok {
				r = append(r, int64(k))
			} else {
				r = append(r, -c)
			}
		}
	}
	return r
}

// offset: a position inside a block computed from an address uses all bits below the block number
func (q *cfgCheck) offset(f *ssa.Function, pos token.Pos, v ssa.Value, slots int64) {
	for _, s := range q.sources(v, map[ssa.Value]bool{}) {
		b, ok := s.(*ssa.BinOp)
		if !ok {
			continue
		}
		c, isc := constOf(b.Y)
		if !isc {
			c, isc = constOf(b.X)
		}
		switch {
		case b.Op == token.AND && isc:
			q.chk("offset-of-address", f, pos, c == slots-1, "the position in a block is taken with mask %#x, a block has %#x slots", c, slots)
		case b.Op == token.REM && isc:
			q.chk("offset-of-address", f, pos, c == slots, "the position in a block is taken modulo %d, a block has %d slots", c, slots)
		}
	}
}

// max bounds an index from above
func (q *cfgCheck) max(v ssa.Value, seen map[ssa.Value]bool) *big.Int {
	var m *big.Int
	ss := q.sources(v, map[ssa.Value]bool{})
	if len(ss) == 0 {
		return nil
	}
	for _, s := range ss {
		var x *big.Int
		if c, ok := constOf(s); ok {
			x = big.NewInt(c)
		}
		if b, ok := s.(*ssa.BinOp); ok && !seen[s] {
			seen[s] = true
			c, isc := constOf(b.Y)
			if !isc && b.Op == token.AND {
				c, isc = constOf(b.X)
			}
			switch {
			case b.Op == token.AND && isc && c >= 0:
				x = big.NewInt(c)
			case b.Op == token.REM && isc && c > 0:
				x = big.NewInt(c - 1)
			case b.Op == token.SHR && isc:
				if y := q.max(b.X, seen); y != nil {
					x = new(big.Int).Rsh(y, uint(c))
				}
			case b.Op == token.ADD:
				y, z := q.max(b.X, seen), q.max(b.Y, seen)
				if y != nil && z != nil {
					x = new(big.Int).Add(y, z)
				}
			}
		}
		if x == nil {
			return nil
		}
		if m == nil || x.Cmp(m) > 0 {
			m = x
		}
	}
	return m
}

// narrow: an address is not truncated to a 32-bit int before its parts are taken
func (q *cfgCheck) narrow(f *ssa.Function, v ssa.Value, maxAddr *big.Int) {
	if q.c.arch != "386" {
		return
	}
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value)
	w = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Convert:
			from, to := basicKind(x.X.Type()), basicKind(x.Type())
			if (from == types.Uint64 || from == types.Int64) && (to == types.Int || to == types.Uint || to == types.Uint32 || to == types.Int32 || to == types.Uintptr) {
				if b, ok := x.X.(*ssa.BinOp); ok {
					c, isc := constOf(b.Y)
					okc := isc && (b.Op == token.AND && c < 1<<31 || b.Op == token.REM && c < 1<<31 || b.Op == token.SHR && new(big.Int).Rsh(maxAddr, uint(c)).Cmp(big.NewInt(1<<31)) < 0 || b.Op == token.QUO && c > 256)
					if !okc {
						if cx, iscx := constOf(b.X); iscx && b.Op == token.AND && cx < 1<<31 {
							okc = true
						}
					}
					q.chk("address-not-truncated", f, x.Pos(), okc || b.Op == token.ADD || b.Op == token.SUB, "an address is converted to a 32-bit number before its parts are taken")
				}
			}
			w(x.X)
		case *ssa.BinOp:
			if b := x; b.Op == token.SHR || b.Op == token.AND || b.Op == token.REM || b.Op == token.QUO {
				if c, ok := b.X.(*ssa.Convert); ok {
					from, to := basicKind(c.X.Type()), basicKind(c.Type())
					bad := from == types.Uint64 && (to == types.Int || to == types.Uint || to == types.Uint32 || to == types.Int32)
					q.chk("address-not-truncated", f, x.Pos(), !bad, "an address is converted to a 32-bit number before its parts are taken")
				}
			}
			w(x.X)
			w(x.Y)
		case *ssa.Phi:
			for _, e := range x.Edges {
				w(e)
			}
		}
	}
	w(v)
}

// state: the block size written and the one demanded when loading are this configuration's
func (q *cfgCheck) state() {
	s := newState(newMem(q.p, newLint(q.p)))
	s.collectWriter()
	s.collectReader()
	nw := 0
	for _, f := range s.writers {
		if f.key != "blocksize" {
			continue
		}
		nw++
		v := f.arg
		c, ok := int64(0), false
		if v != nil {
			c, ok = constOf(strip(v))
			if !ok {
				if mi, isMI := v.(*ssa.MakeInterface); isMI {
					c, ok = constOf(strip(mi.X))
				}
			}
		}
		q.chk("state-block-size", f.fn, f.pos, ok && c == q.slots*8, "the saved block size is %d instead of %d", c, q.slots*8)
	}
	nr := 0
	for _, rc := range s.readers["blocksize"] {
		for b := range rc.blocks {
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok {
				continue
			}
			for _, o := range []ssa.Value{cmp.X, cmp.Y} {
				if c, ok := constOf(o); ok && (cmp.Op == token.NEQ || cmp.Op == token.EQL) {
					nr++
					q.stateConst = append(q.stateConst, fmt.Sprint(c))
					q.chk("state-block-size", rc.fn, rc.pos, c == q.slots*8, "loading demands block size %d instead of %d", c, q.slots*8)
				}
			}
		}
	}
	q.chk("state-block-size-checked", nil, token.NoPos, nw == 1 && nr >= 1, "the block size is written %d times and checked %d times when loading", nw, nr)
}
