package main

// Rules about saving and loading the state (C19 - C22): the tables of both sides are extracted from the
// code and compared, errors and sizes are followed through the SSA form.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type State struct {
	m       *Mem
	p       *Prog
	a       *Pts
	l       *Lint
	wr, rd  map[*ssa.Function]bool
	writers []*field
	readers map[string][]*readCase
}

// field is one number or flag of the written state
type field struct {
	key  string
	verb string
	arg  ssa.Value
	src  []string // cells or quantities the value comes from
	pos  token.Pos
	fn   *ssa.Function
	seq  int
	list bool
}

// readCase is the code executed for one key when loading
type readCase struct {
	key    string
	fn     *ssa.Function
	blocks map[*ssa.BasicBlock]bool
	pos    token.Pos
}

func newState(m *Mem) *State {
	s := &State{m: m, p: m.p, a: m.a, l: m.l, readers: map[string][]*readCase{}}
	s.wr = m.reachOf(m.methods("Tree", "WriteState")...)
	if f := m.p.fn("NewTreeFromState"); f != nil {
		s.rd = m.reachOf(f)
	}
	for f := range s.wr {
		s.rdDel(f)
	}
	return s
}

// functions used by both sides belong to neither table
func (s *State) rdDel(f *ssa.Function) {}

func strConst(v ssa.Value) (string, bool) {
	for {
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil && x.Value.Kind() == constant.String {
				return constant.StringVal(x.Value), true
			}
			return "", false
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.Slice:
			return "", false
		default:
			return "", false
		}
	}
}

// varArgs resolves the elements of a variadic argument
func varArgs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	m := map[int64]ssa.Value{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		c, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if st, ok := r2.(*ssa.Store); ok && st.Addr == ia {
				m[c.Int64()] = st.Val
			}
		}
	}
	var l []ssa.Value
	for i := int64(0); i < int64(len(m)); i++ {
		l = append(l, m[i])
	}
	return l
}

// origins of a value: cells loaded from (plainly or atomically), len(cell), constants, loop counters
func (s *State) origins(v ssa.Value) []string {
	r := map[string]bool{}
	seen := map[ssa.Value]bool{}
	var w func(v ssa.Value)
	w = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			if x.Value != nil {
				r["const:"+x.Value.ExactString()] = true
			}
		case *ssa.MakeInterface:
			w(x.X)
		case *ssa.Convert:
			w(x.X)
		case *ssa.ChangeType:
			w(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				w(e)
			}
		case *ssa.BinOp:
			w(x.X)
			w(x.Y)
		case *ssa.Extract:
			if nx, ok := x.Tuple.(*ssa.Next); ok {
				_ = nx
				r["loop"] = true
				return
			}
			w(x.Tuple)
		case *ssa.Field:
			r[s.a.fieldCell(x.X.Type(), x.Field).key] = true
		case *ssa.UnOp:
			if x.Op == token.MUL {
				for c := range s.a.of(x.X) {
					if c.kind == CObj {
						// a local variable: where was it set
						for _, ac := range s.a.acc {
							if ac.write && ac.val != nil && ac.cells[c] {
								w(ac.val)
							}
						}
						continue
					}
					r[s.cellName(c)] = true
				}
				if fv, ok := x.X.(*ssa.FreeVar); ok {
					_ = fv
				}
				return
			}
			w(x.X)
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				for _, o := range s.origins(x.Call.Args[0]) {
					r["len("+o+")"] = true
				}
				return
			}
			g := callee(x)
			if g != nil && g.Pkg != nil && g.Pkg.Pkg.Path() == "sync/atomic" {
				for c := range s.a.of(x.Call.Args[0]) {
					r[s.cellName(c)] = true
				}
				return
			}
			if g != nil && g.Pkg == s.p.ssa {
				for _, b := range g.Blocks {
					for _, in := range b.Instrs {
						if rt, ok := in.(*ssa.Return); ok {
							for _, v := range rt.Results {
								w(v)
							}
						}
					}
				}
				return
			}
			if g != nil {
				r["call:"+g.Name()] = true
			}
		case *ssa.Parameter:
			f := x.Parent()
			i := -1
			for j, p := range f.Params {
				if p == x {
					i = j
				}
			}
			for _, c := range s.a.callers[f] {
				if i >= 0 && i < len(c.Common().Args) {
					w(c.Common().Args[i])
				}
			}
		case *ssa.MakeSlice:
			r["made"] = true
		case *ssa.Slice:
			w(x.X)
			if x.High != nil {
				w(x.High)
			}
		case *ssa.FieldAddr:
			if pt, ok := x.X.Type().Underlying().(*types.Pointer); ok {
				r[s.a.fieldCell(pt.Elem(), x.Field).key] = true
			}
		}
	}
	w(v)
	var l []string
	for k := range r {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (s *State) cellName(c *Cell) string {
	if k := s.m.kindOf(c); k != "" {
		return k
	}
	return c.key
}

// collectWriter finds every formatted output reachable from WriteState
func (s *State) collectWriter() {
	seq := 0
	var order []*ssa.Function
	for f := range s.wr {
		order = append(order, f)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Pos() < order[j].Pos() })
	for _, f := range order {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := callee(c)
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "fmt" {
					continue
				}
				fi := -1
				switch g.Name() {
				case "Sprintf":
					fi = 0
				case "Fprintf", "Appendf":
					fi = 1
				default:
					continue
				}
				if len(c.Call.Args) < fi+2 {
					continue
				}
				format, ok := strConst(c.Call.Args[fi])
				if !s.l.chk("C19", "format-known", fnName(f), in.Pos(), ok, "the format of a written state line is not a constant, its fields cannot be compared with the loader") {
					continue
				}
				args := varArgs(c.Call.Args[fi+1])
				k := 0
				for _, line := range strings.SplitAfter(format, "\n") {
					if line == "" {
						continue
					}
					s.l.chk("C19", "line-ends", fnName(f), in.Pos(), strings.HasSuffix(line, "\n"), "the state line %q is not ended by a newline", line)
					w := strings.Fields(strings.TrimSuffix(line, "\n"))
					if len(w) == 0 || strings.Contains(w[0], "%") {
						s.l.chk("C19", "line-key", fnName(f), in.Pos(), false, "the state line %q does not start with a key", line)
						continue
					}
					if !strings.Contains(strings.Join(w[1:], " "), "%") {
						seq++
						s.writers = append(s.writers, &field{key: w[0], verb: strings.Join(w[1:], " "), pos: in.Pos(), fn: f, seq: seq})
						continue
					}
					for j, x := range w[1:] {
						if !strings.Contains(x, "%") {
							continue
						}
						seq++
						fd := &field{key: w[0], verb: x, pos: in.Pos(), fn: f, seq: seq, list: j > 0}
						if k < len(args) {
							fd.arg = args[k]
							fd.src = s.origins(args[k])
						}
						k++
						s.writers = append(s.writers, fd)
					}
				}
				s.l.chk("C19", "format-args", fnName(f), in.Pos(), k == len(args), "the format %q has %d fields but %d arguments", format, k, len(args))
			}
		}
	}
}

// collectReader finds every comparison of a part of the input with a constant key
func (s *State) collectReader() {
	for f := range s.rd {
		for _, b := range f.Blocks {
			if len(b.Instrs) == 0 {
				continue
			}
			iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok {
				continue
			}
			cmp, ok := iff.Cond.(*ssa.BinOp)
			if !ok || cmp.Op != token.EQL || basicKind(cmp.X.Type()) != types.String {
				continue
			}
			key, ok := strConst(cmp.Y)
			if !ok {
				if key, ok = strConst(cmp.X); !ok {
					continue
				}
			}
			rc := &readCase{key: key, fn: f, blocks: map[*ssa.BasicBlock]bool{}, pos: cmp.Pos()}
			t := b.Succs[0]
			if len(t.Preds) == 1 {
				for _, x := range f.Blocks {
					if t.Dominates(x) {
						rc.blocks[x] = true
					}
				}
			}
			s.readers[key] = append(s.readers[key], rc)
		}
	}
}

// effects of a read case: cells written, including in called functions
func (s *State) effects(rc *readCase) map[string]bool {
	r := map[string]bool{}
	called := map[*ssa.Function]bool{}
	for b := range rc.blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := callee(c); g != nil && g.Pkg == s.p.ssa {
					for x := range s.p.reach(g) {
						called[x] = true
					}
				}
				if g := callee(c); g != nil {
					r["call:"+g.Name()] = true
				}
			}
			if m, ok := in.(*ssa.MakeSlice); ok {
				_ = m
				r["make"] = true
			}
			if ret, ok := in.(*ssa.Return); ok {
				_ = ret
				r["return"] = true
			}
		}
	}
	for _, x := range s.a.acc {
		if !x.write {
			continue
		}
		if rc.blocks[x.in.Block()] || called[x.fn] {
			for c := range x.cells {
				r[s.cellName(c)] = true
			}
		}
	}
	// a value leaving the case through a phi (a local variable)
	for b := range rc.blocks {
		for _, su := range b.Succs {
			if rc.blocks[su] {
				continue
			}
			for _, in := range su.Instrs {
				if ph, ok := in.(*ssa.Phi); ok {
					for i, pr := range su.Preds {
						if pr == b {
							if v, ok := ph.Edges[i].(ssa.Instruction); ok && rc.blocks[v.Block()] {
								r["local"] = true
							}
						}
					}
				}
			}
		}
	}
	return r
}

// stored returns the values stored to cell name inside a case (not through calls)
func (s *State) stored(rc *readCase, name string) []ssa.Value {
	var l []ssa.Value
	for _, x := range s.a.acc {
		if !x.write || x.val == nil || !rc.blocks[x.in.Block()] {
			continue
		}
		for c := range x.cells {
			if s.cellName(c) == name {
				l = append(l, x.val)
				break
			}
		}
	}
	return l
}

func (s *State) formatRules() {
	l := s.l
	s.collectWriter()
	s.collectReader()
	wk := map[string]bool{}
	for _, f := range s.writers {
		wk[f.key] = true
	}
	l.atLeast("C19,C22", "written fields", len(s.writers), 16)
	l.atLeast("C19,C22", "keys read", len(s.readers), 15)
	perFn := map[string]map[string]int{}
	for _, f := range s.writers {
		l.n["C19"]++
		cs := s.readers[f.key]
		if f.verb == "" || !strings.Contains(f.verb, "%") {
			// a constant line, like the name of the compression
			l.chk("C19", "read-back", f.key, f.pos, len(cs) > 0 || !strings.Contains(f.verb, "%"), "%q is written but not known when loading", f.key)
			continue
		}
		if !l.chk("C19,C22", "read-back", f.key, f.pos, len(cs) > 0, "%q is written but ignored when loading", f.key) {
			continue
		}
		if perFn[fnName(f.fn)] == nil {
			perFn[fnName(f.fn)] = map[string]int{}
		}
		// where the value comes from, and where it is restored to
		var cells []string
		for _, o := range f.src {
			if i := strings.Index(o, "."); i > 0 && !strings.HasPrefix(o, "len(") && s.p.named(o[:i]) != nil || o == "epoch" {
				cells = append(cells, o)
			}
		}
		eff := map[string]bool{}
		for _, c := range cs {
			for k := range s.effects(c) {
				eff[k] = true
			}
		}
		if len(cells) > 0 {
			// at least the same piece of state; when the value is computed from several, one of them
			ok := false
			for _, c := range cells {
				if eff[c] {
					ok = true
				}
			}
			l.chk("C19,C22", "same-state", f.key, f.pos, ok, "%q is written from %v, but loading it changes %v", f.key, cells, keysOf(eff))
		}
		// signed numbers must be parsed as such
		if f.arg != nil && strings.HasSuffix(f.verb, "d") {
			t := f.arg.Type()
			if mi, ok := f.arg.(*ssa.MakeInterface); ok {
				t = mi.X.Type()
			}
			neg := basicKind(t) == types.Int64 || basicKind(t) == types.Int32
			if neg {
				ok := false
				for _, c := range cs {
					for b := range c.blocks {
						for _, in := range b.Instrs {
							if ca, isc := in.(*ssa.Call); isc {
								if g := callee(ca); g != nil && (g.Name() == "ParseInt" || g.Name() == "Atoi") {
									ok = true
								}
							}
						}
					}
				}
				l.chk("C19", "signed", f.key, f.pos, ok, "%q can be negative but is not parsed as a signed number", f.key)
			}
			l.chk("C19", "verb", f.key, f.pos, f.verb == "%d", "%q is written with %s and parsed as a decimal number", f.key, f.verb)
		}
	}
	for k, cs := range s.readers {
		l.n["C19"]++
		if k == "true" || k == "false" {
			continue
		}
		l.chk("C19", "written", k, cs[0].pos, wk[k], "%q is expected when loading but never written", k)
	}
	s.required()
	s.order()
	s.binary()
	s.lengths()
	s.parse()
	s.snapshot()
	s.listLoops()
}

func keysOf(m map[string]bool) []string {
	var l []string
	for k := range m {
		if strings.Contains(k, ".") || k == "epoch" {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

// required: the pieces of state a tree needs to continue
func (s *State) required() {
	need := []string{"Tree.root", "Tree.liveObjects", "epoch", "Tree.nextFreeBlock", "len(Tree.allocators)",
		"Allocator.nextFree", "Allocator.block", "Allocator.offset", "Allocator.empty"}
	for _, n := range need {
		var hit *field
		ok := false
		for _, f := range s.writers {
			for _, o := range f.src {
				if o != n {
					continue
				}
				if hit == nil {
					hit = f
				}
				for _, c := range s.readers[f.key] {
					if s.effects(c)[n] {
						ok = true
						hit = f
					}
				}
			}
		}
		s.l.n["C22"]++
		if !s.l.chk("C22,C19", "saved", n, token.NoPos, hit != nil, "%s is not part of the written state", n) {
			continue
		}
		if strings.HasPrefix(n, "len(") {
			continue
		}
		s.l.chk("C22,C19", "restored", n, hit.pos, ok, "%s is written as %q but not restored when loading it", n, hit.key)
	}
	// recycled pieces: written and read element by element
	var wrote, read bool
	for _, x := range s.a.acc {
		if s.wr[x.fn] && !x.write {
			for c := range x.cells {
				if c.key == "recycledItem.n" {
					wrote = true
				}
			}
		}
		if s.rd[x.fn] && x.write {
			for c := range x.cells {
				if c.key == "recycledItem.n" {
					read = true
				}
			}
		}
	}
	s.l.chk("C22,C19", "saved", "recycled pieces", token.NoPos, wrote, "recycled pieces of memory are not written")
	s.l.chk("C22,C19", "restored", "recycled pieces", token.NoPos, read, "recycled pieces of memory are not restored")
}

// order: headers the loader depends on come first
func (s *State) order() {
	pos := map[string]*field{}
	for _, f := range s.writers {
		if pos[f.key] == nil {
			pos[f.key] = f
		}
	}
	// a: must be written before b when both are written by the same function
	for _, pr := range [][2]string{{"allocators", "allocator"}, {"allocators", "epoch"}, {"block", "size"}} {
		a, b := pos[pr[0]], pos[pr[1]]
		if a == nil || b == nil {
			continue
		}
		ok := true
		if a.fn == b.fn {
			ia, ib := s.instrAt(a), s.instrAt(b)
			if ia != nil && ib != nil && ia != ib {
				ok = before(ia, ib)
			} else {
				ok = a.seq < b.seq
			}
		}
		s.l.chk("C19", "order", pr[0]+" before "+pr[1], a.pos, ok, "%q is written after %q, which the loader does not accept", pr[0], pr[1])
	}
}

func (s *State) instrAt(f *field) ssa.Instruction {
	for _, b := range f.fn.Blocks {
		for _, in := range b.Instrs {
			if in.Pos() == f.pos {
				if c, ok := in.(*ssa.Call); ok && callee(c) != nil && callee(c).Pkg != nil && callee(c).Pkg.Pkg.Path() == "fmt" {
					return in
				}
			}
		}
	}
	return nil
}

// before: a is executed before b on every path to b
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		for _, x := range a.Block().Instrs {
			if x == a {
				return true
			}
			if x == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// binary: lists of numbers use the same byte order and width; the codec of blocks matches
func (s *State) binary() {
	type use struct {
		recv, name string
		pos        token.Pos
		fn         string
	}
	var w, r []use
	var enc, dec []string
	scan := func(set map[*ssa.Function]bool, out *[]use, codec *[]string, write bool) {
		for f := range set {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := callee(c)
					if g == nil || g.Pkg == nil {
						continue
					}
					switch {
					case g.Pkg.Pkg.Path() == "encoding/binary":
						recv := ""
						if rv := g.Signature.Recv(); rv != nil {
							recv = typeName(rv.Type())
						}
						n := strings.TrimPrefix(strings.TrimPrefix(g.Name(), "Put"), "Append")
						*out = append(*out, use{recv, n, in.Pos(), fnName(f)})
					case strings.Contains(g.Pkg.Pkg.Path(), "snappy"):
						if write == strings.HasPrefix(g.Name(), "Encode") && (strings.HasPrefix(g.Name(), "Encode") || g.Name() == "Decode") {
							*codec = append(*codec, g.Pkg.Pkg.Path())
						}
					}
				}
			}
		}
	}
	scan(s.wr, &w, &enc, true)
	scan(s.rd, &r, &dec, false)
	s.l.chk("C19", "codec", "blocks", token.NoPos, len(enc) == 1 && len(dec) == 1 && enc[0] == dec[0], "blocks are not compressed and decompressed by the same codec exactly once (%d, %d)", len(enc), len(dec))
	if len(w) == 0 && len(r) == 0 {
		return
	}
	ok := len(w) > 0 && len(r) > 0
	for _, a := range w {
		for _, b := range r {
			if a.recv != b.recv || a.name != b.name {
				ok = false
			}
		}
	}
	p := token.NoPos
	if len(w) > 0 {
		p = w[0].pos
	}
	s.l.chk("C19", "byte-order", "recycled pieces", p, ok, "lists are written as %v and read as %v", w, r)
}

// lengths: as many bytes are written as the loader expects for the announced number of items
func (s *State) lengths() {
	for f := range s.wr {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || !c.Call.IsInvoke() || c.Call.Method.Name() != "Write" || len(c.Call.Args) != 1 {
					continue
				}
				seen := map[ssa.Value]bool{}
				var from func(v ssa.Value)
				from = func(v ssa.Value) {
					if seen[v] {
						return
					}
					seen[v] = true
					switch x := v.(type) {
					case *ssa.Phi:
						if x.Block() != b && isHeader(x.Block()) && inLoop(x.Block(), b) {
							s.l.chk("C19", "length-of-this-list", fnName(f), in.Pos(), false, "the bytes written are those of an earlier, possibly longer list: the length is not set for this one")
							return
						}
						for _, e := range x.Edges {
							from(e)
						}
					case *ssa.MakeSlice:
						s.itemBytes(f, in, x.Len)
					case *ssa.Slice:
						if x.Low == nil && x.High != nil {
							s.itemBytes(f, in, x.High)
						}
					}
				}
				from(c.Call.Args[0])
				s.l.n["C19"]++
			}
		}
	}
}

// itemBytes: v is the number of bytes written for a list of 8-byte numbers
func (s *State) itemBytes(f *ssa.Function, in ssa.Instruction, v ssa.Value) {
	of, k, d, ok := lenTimes(v, 0)
	if ok && of != "" {
		s.l.chk("C19", "bytes-per-item", fnName(f), in.Pos(), k == 8 && d == 0, "%d bytes and %d for each item are written, but the loader reads 8 for each", d, k)
	}
}

// lenTimes: v is k*len(of)+d
func lenTimes(v ssa.Value, depth int) (of string, k, d int64, ok bool) {
	if depth > 6 {
		return
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			return "", 0, x.Int64(), true
		}
	case *ssa.Convert:
		return lenTimes(x.X, depth+1)
	case *ssa.Call:
		if b, isB := x.Call.Value.(*ssa.Builtin); isB && b.Name() == "len" {
			return exprKey(x.Call.Args[0], 0), 1, 0, true
		}
	case *ssa.BinOp:
		a, ak, ad, aok := lenTimes(x.X, depth+1)
		c, ck, cd, cok := lenTimes(x.Y, depth+1)
		if !aok || !cok || a != "" && c != "" && a != c {
			return
		}
		n := a + c
		if a != "" {
			n = a
		}
		switch x.Op {
		case token.ADD:
			return n, ak + ck, ad + cd, true
		case token.SUB:
			return n, ak - ck, ad - cd, true
		case token.MUL:
			if a == "" {
				return c, ad * ck, ad * cd, true
			}
			if c == "" {
				return a, ak * cd, ad * cd, true
			}
		case token.SHL:
			if c == "" && cd >= 0 && cd < 32 {
				return a, ak << uint(cd), ad << uint(cd), true
			}
		}
	}
	return
}

// parse: numbers are parsed in base 10 with 64 bits
func (s *State) parse() {
	n := 0
	for f := range s.rd {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				g := callee(c)
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "strconv" {
					continue
				}
				if g.Name() == "ParseUint" || g.Name() == "ParseInt" {
					n++
					b1, ok1 := c.Call.Args[1].(*ssa.Const)
					b2, ok2 := c.Call.Args[2].(*ssa.Const)
					s.l.chk("C19", "number-base", fnName(f), in.Pos(), ok1 && (b1.Int64() == 10 || b1.Int64() == 0), "numbers are written in base 10 but parsed in another base")
					s.l.chk("C19,C22", "number-size", fnName(f), in.Pos(), ok2 && (b2.Int64() == 64), "64-bit numbers are parsed with %v bits", c.Call.Args[2])
				} else if g.Name() == "Atoi" {
					n++
				}
			}
		}
	}
	s.l.atLeast("C19", "number-base", n, 3)
}

// snapshot: private counters and blocks just handed out are part of what is written (C22)
func (s *State) snapshot() {
	l := s.l
	var live ssa.Instruction
	for _, f := range s.writers {
		for _, o := range f.src {
			if o == "Tree.liveObjects" {
				live = s.instrAt(f)
			}
		}
	}
	// the value written includes the private counters: they are added to the shared counter before it is read,
	// or summed into the written value
	okCount := false
	var sites []ssa.Instruction
	var up func(in ssa.Instruction, depth int)
	up = func(in ssa.Instruction, depth int) {
		if in == nil || depth > 4 {
			return
		}
		sites = append(sites, in)
		for _, c := range s.a.callers[in.Parent()] {
			if s.wr[c.Parent()] {
				up(c, depth+1)
			}
		}
	}
	up(live, 0)
	for _, at := range sites {
		for _, x := range s.a.acc {
			if !s.wr[x.fn] || x.write || !x.cells.any(func(c *Cell) bool { return c.key == "Allocator.itemCounter" }) {
				continue
			}
			// the read itself or a call leading to it comes first, in a loop over all allocators
			for _, b := range at.Parent().Blocks {
				for _, in := range b.Instrs {
					if in != x.in && !s.leadsTo(in, x.fn) {
						continue
					}
					if lp := s.allocLoop(in); lp != nil {
						if !inLoop(lp, at.Block()) && lp.Dominates(at.Block()) {
							okCount = true
						}
					} else if in != x.in && in != at && before(in, at) && s.loopsAllocators(in) {
						okCount = true
					}
				}
			}
		}
	}
	l.chk("C22,C11", "private-counts", "WriteState", posOf(live), okCount, "the item counts still private to the allocators are not included in the written count")
	// the number of blocks written considers the current block of every allocator
	okBlocks := false
	var nb *field
	for _, f := range s.writers {
		hasNext, hasBlock := false, false
		for _, o := range f.src {
			if o == "Tree.nextFreeBlock" {
				hasNext = true
			}
			if o == "Allocator.block" {
				hasBlock = true
			}
		}
		if hasNext {
			nb = f
			okBlocks = hasBlock
		}
	}
	p := token.NoPos
	if nb != nil {
		p = nb.pos
	}
	l.chk("C22", "last-block", "WriteState", p, okBlocks, "the number of blocks written does not take the current blocks of the allocators into account: a block just handed out can be missing")
	// all blocks below that number are written
	if nb != nil {
		ok := false
		why := "no loop hands every block to the writers"
		for f := range s.wr {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					sd, isSend := in.(*ssa.Send)
					if !isSend || !isInteger(sd.X.Type()) {
						continue
					}
					from, bound, step, good := countingLoop(sd.X, b)
					if !good {
						continue
					}
					bo := strings.Join(s.origins(bound), " ")
					if from == 0 && step == 1 && strings.Contains(bo, "Tree.nextFreeBlock") && strings.Contains(bo, "Allocator.block") {
						ok = true
					} else {
						why = fmt.Sprintf("blocks are written from %d in steps of %d up to %s", from, step, bo)
					}
				}
			}
		}
		l.chk("C22", "all-blocks", "WriteState", p, ok, "not every block in use is written: %s", why)
	}
}

// loopsAllocators: a called function visits all allocators
func (s *State) loopsAllocators(in ssa.Instruction) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok || callee(c) == nil {
		return false
	}
	for g := range s.p.reach(callee(c)) {
		for _, b := range g.Blocks {
			for _, x := range b.Instrs {
				for _, a := range s.a.acc {
					if a.in == x || s.leadsTo(x, a.fn) {
						if !a.write && a.cells.any(func(c *Cell) bool { return c.key == "Allocator.itemCounter" }) && s.allocLoop(x) != nil {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func posOf(in ssa.Instruction) token.Pos {
	if in == nil {
		return token.NoPos
	}
	return in.Pos()
}

func (s *State) leadsTo(in ssa.Instruction, f *ssa.Function) bool {
	c, ok := in.(ssa.CallInstruction)
	if !ok {
		return false
	}
	g := callee(c)
	return g != nil && g.Pkg == s.p.ssa && s.p.reach(g)[f]
}

// allocLoop returns the header of the loop around in that visits all allocators
func (s *State) allocLoop(in ssa.Instruction) *ssa.BasicBlock {
	for h := in.Block(); h != nil; h = h.Idom() {
		if !isHeader(h) || !inLoop(h, in.Block()) {
			continue
		}
		// a bound len(allocators)
		for _, b := range in.Parent().Blocks {
			if !inLoop(h, b) && b != h {
				continue
			}
			for _, x := range b.Instrs {
				cmp, ok := x.(*ssa.BinOp)
				if !ok || (cmp.Op != token.LSS && cmp.Op != token.NEQ && cmp.Op != token.GTR && cmp.Op != token.GEQ && cmp.Op != token.LEQ) {
					continue
				}
				for _, o := range append(s.origins(cmp.X), s.origins(cmp.Y)...) {
					if o == "len(Tree.allocators)" {
						return h
					}
				}
			}
		}
	}
	return nil
}

func isHeader(h *ssa.BasicBlock) bool {
	for _, p := range h.Preds {
		if h.Dominates(p) {
			return true
		}
	}
	return false
}

// inLoop: b belongs to the natural loop of header h
func inLoop(h, b *ssa.BasicBlock) bool {
	if h == b {
		return true
	}
	if !h.Dominates(b) {
		return false
	}
	// b reaches a back edge without leaving through h
	seen := map[*ssa.BasicBlock]bool{}
	var w func(x *ssa.BasicBlock) bool
	w = func(x *ssa.BasicBlock) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, su := range x.Succs {
			if su == h {
				return true
			}
			if h.Dominates(su) && w(su) {
				return true
			}
		}
		return false
	}
	return w(b)
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var w func(x *ssa.BasicBlock) bool
	w = func(x *ssa.BasicBlock) bool {
		for _, su := range x.Succs {
			if su == b {
				return true
			}
			if !seen[su] {
				seen[su] = true
				if w(su) {
					return true
				}
			}
		}
		return false
	}
	return w(a)
}

func strip(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// countingLoop recognises v as the counter of a loop around block b: for v := from; v < bound; v += step
func countingLoop(v ssa.Value, b *ssa.BasicBlock) (from int64, bound ssa.Value, step int64, ok bool) {
	v = strip(v)
	off := int64(0)
	if bo, isb := v.(*ssa.BinOp); isb && bo.Op == token.ADD {
		if c, isc := bo.Y.(*ssa.Const); isc {
			if _, isphi := strip(bo.X).(*ssa.Phi); isphi {
				off = c.Int64()
				v = strip(bo.X)
			}
		}
	}
	ph, isphi := v.(*ssa.Phi)
	if isphi && !isInteger(ph.Type()) {
		return
	}
	if !isphi || !isHeader(ph.Block()) || !inLoop(ph.Block(), b) {
		return
	}
	h := ph.Block()
	haveFrom, haveStep := false, false
	for i, p := range h.Preds {
		e := strip(ph.Edges[i])
		if h.Dominates(p) {
			bo, isb := e.(*ssa.BinOp)
			if !isb || bo.Op != token.ADD || strip(bo.X) != ssa.Value(ph) {
				return
			}
			c, isc := bo.Y.(*ssa.Const)
			if !isc || haveStep && step != c.Int64() {
				return
			}
			step, haveStep = c.Int64(), true
		} else {
			c, isc := e.(*ssa.Const)
			if !isc {
				return
			}
			from, haveFrom = c.Int64()+off, true
		}
	}
	if !haveFrom || !haveStep {
		return
	}
	// the bound: a comparison of the counter leaving the loop
	for _, x := range h.Parent().Blocks {
		if !inLoop(h, x) || len(x.Instrs) == 0 {
			continue
		}
		iff, isif := x.Instrs[len(x.Instrs)-1].(*ssa.If)
		if !isif {
			continue
		}
		cmp, isc := iff.Cond.(*ssa.BinOp)
		if !isc {
			continue
		}
		exitTrue, exitFalse := !inLoop(h, x.Succs[0]), !inLoop(h, x.Succs[1])
		l, r, op := strip(cmp.X), cmp.Y, cmp.Op
		same := func(y ssa.Value) bool {
			if y == ssa.Value(ph) {
				return off == 0
			}
			if bo, isb := y.(*ssa.BinOp); isb && bo.Op == token.ADD && strip(bo.X) == ssa.Value(ph) {
				c, isc := bo.Y.(*ssa.Const)
				return isc && c.Int64() == off
			}
			return false
		}
		if !same(l) && same(strip(cmp.Y)) {
			l, r = strip(cmp.Y), cmp.X
			switch op {
			case token.LSS:
				op = token.GTR
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			case token.GEQ:
				op = token.LEQ
			}
		}
		if !same(l) {
			continue
		}
		if exitFalse && !exitTrue && (op == token.LSS || op == token.NEQ) || exitTrue && !exitFalse && (op == token.GEQ || op == token.EQL) {
			return from, r, step, true
		}
	}
	return
}
