package main

// C13: the encoders and decoders of tree words are interpreted symbolically (bit fields of affine terms) and
// composed: decode(encode(parts)) has to be the parts for all parts in range.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func sigIs(f *ssa.Function, params, results string) bool {
	code := func(t types.Type) string {
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			return "?"
		}
		switch b.Kind() {
		case types.Uint8:
			return "b"
		case types.Uint64:
			return "u"
		case types.Int:
			return "i"
		case types.Bool:
			return "l"
		}
		return "?"
	}
	s := f.Signature
	var p, r string
	if s.Recv() != nil {
		p += code(s.Recv().Type())
	}
	for i := 0; i < s.Params().Len(); i++ {
		p += code(s.Params().At(i).Type())
	}
	for i := 0; i < s.Results().Len(); i++ {
		r += code(s.Results().At(i).Type())
	}
	return p == params && r == results
}

// pure: no memory access, no calls except of pure functions
func pureFn(p *Prog, f *ssa.Function, depth int) bool {
	if len(f.Blocks) == 0 || depth > 4 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.MapUpdate, *ssa.Panic:
				return false
			case *ssa.UnOp:
				if x.Op.String() == "*" || x.Op.String() == "<-" {
					return false
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if g == nil || g.Pkg != p.ssa || !pureFn(p, g, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

func (p *Prog) pureBySig(params, results string) []*ssa.Function {
	var l []*ssa.Function
	for _, f := range p.funcs {
		if sigIs(f, params, results) && pureFn(p, f, 0) {
			l = append(l, f)
		}
	}
	return l
}

func codecRules(p *Prog, l *Lint) error { return codecRulesFor(p, l, 1<<39-1) }

func codecRulesFor(p *Prog, l *Lint, maxAddr int64) error {
	c, err := newCtx(p)
	if err != nil {
		return err
	}
	c.d.mode = "" // no tree semantics needed
	sym := func(name string, max int64) *Term {
		return mkSym(Sym{name: name, kind: SParam, nonN: true, max: max})
	}
	key := mkSym(Sym{name: "key", kind: SParam, byt: true, nonN: true, max: 255})
	addr := addc(sym(fmt.Sprintf("addr%d-1", maxAddr), maxAddr-1), 1)
	cnt := addc(sym("count-1", 255), 1)
	plen := sym("plen", 254)
	plen2 := sym("plen-256", 1<<24)
	val := sym("value", 1<<55-1)
	eval := func(f *ssa.Function, st *St, args ...*Term) []Exit {
		ex, err := c.run(f, st, args, f.Name())
		if err != nil {
			l.chk("C13", "interpreted", fnName(f), f.Pos(), false, "the function cannot be interpreted: %v", err)
			return nil
		}
		return ex
	}
	one := func(t *Term) []*Term {
		if t != nil && t.op == OTuple {
			return t.args
		}
		return []*Term{t}
	}
	rets := func(x Exit) []*Term {
		if len(x.ret) == 1 {
			return one(x.ret[0])
		}
		return x.ret
	}
	nenc, ndec := p.pureBySig("buii", "u"), p.pureBySig("u", "buii")
	lenc, isl := p.pureBySig("bu", "u"), p.pureBySig("u", "l")
	rekey, get := p.pureBySig("ub", "u"), p.pureBySig("u", "u")
	l.atLeast("C13", "encoders", len(nenc)*len(lenc), 1)
	l.atLeast("C13", "decoders", len(ndec)*len(isl)*len(get), 1)
	type enc struct {
		f    *ssa.Function
		st   *St
		w    *Term
		leaf bool
		long bool
		name string
	}
	var words []enc
	for _, f := range nenc {
		for i, long := range []bool{false, true, true} {
			n := "node word with a prefix up to 254"
			pl := plen
			if long {
				n = "node word with a longer prefix"
				pl = K(255)
				if i == 2 {
					pl = addc(plen2, 256)
				}
			}
			for _, x := range eval(f, newSt(), key, addr, cnt, pl) {
				w := rets(x)[0]
				words = append(words, enc{f, x.st, w, false, long, n})
			}
		}
	}
	for _, f := range lenc {
		for _, x := range eval(f, newSt(), key, val) {
			words = append(words, enc{f, x.st, rets(x)[0], true, false, "leaf"})
		}
	}
	wantLen := func(w enc) *Term {
		if w.long {
			return K(255)
		}
		return plen
	}
	// short prefixes are masked to 8 bits somewhere: use the range
	eq := func(st *St, a, b *Term) bool {
		return st.eqv(a, b) || st.eqv(st.unmask(a), b) || st.eqv(deepUnmask(st, a), b)
	}
	field := func(w enc, lo, n int) *Term { return deepUnmask(w.st, extract(w.w, lo, n)) }
	for _, w := range words {
		nm, pos := fnName(w.f), w.f.Pos()
		l.chk("C13", "key-in-low-byte", nm, pos, eq(w.st, extract(w.w, 0, 8), key), "the low byte of a %s is %s", w.name, field(w, 0, 8))
		for _, f := range isl {
			for _, x := range eval(f, w.st.clone(), w.w) {
				r := rets(x)[0]
				want := tFalse
				if w.leaf {
					want = tTrue
				}
				ok := r == want || want == tTrue && x.st.prove(r) || want == tFalse && x.st.prove(mkNot(r))
				l.chk("C13", "leaves-and-nodes-told-apart", fnName(f), f.Pos(), ok, "%s of a %s gives %s", fnName(f), w.name, r)
			}
		}
		if w.leaf {
			l.chk("C13", "not-the-empty-word", nm, pos, w.w.op == OOr || mkEq0(w.w) == tFalse || anyBit(w), "a leaf can be the empty word: %s", w.w)
		} else {
			for _, f := range ndec {
				for _, x := range eval(f, w.st.clone(), w.w) {
					r := rets(x)
					if len(r) != 4 {
						continue
					}
					l.chk("C13", "key-kept", fnName(f), f.Pos(), eq(x.st, r[0], key), "decoding a %s gives the key byte %s", w.name, r[0])
					l.chk("C13", "address-kept", fnName(f), f.Pos(), eq(x.st, r[1], addr), "decoding a %s gives the address %s instead of %s", w.name, r[1], addr)
					l.chk("C13", "count-kept", fnName(f), f.Pos(), eq(x.st, r[2], cnt), "decoding a %s gives the number of children %s instead of %s", w.name, r[2], cnt)
					l.chk("C13", "prefix-length-kept", fnName(f), f.Pos(), eq(x.st, r[3], wantLen(w)), "decoding a %s gives the prefix length %s instead of %s", w.name, r[3], wantLen(w))
				}
			}
			l.chk("C13", "not-the-empty-word", nm, pos, mkEq0(w.w) == tFalse || w.st.prove(mkNot(mkEq0(deepUnmask(w.st, extract(w.w, 9, 39))))), "a node word can be the empty word")
		}
		// single part getters: one of the parts, or not meant for this kind of word
		for _, f := range get {
			for _, x := range eval(f, w.st.clone(), w.w) {
				r := rets(x)[0]
				if w.leaf {
					getters[f] = getters[f] || eq(x.st, r, val)
				} else {
					getters[f] = getters[f] || eq(x.st, r, addr)
				}
			}
		}
		for _, f := range rekey {
			if !w.leaf {
				continue
			}
			k2 := mkSym(Sym{name: "key2", kind: SParam, byt: true, nonN: true, max: 255})
			for _, x := range eval(f, w.st.clone(), w.w, k2) {
				r := rets(x)[0]
				ok := eq(x.st, extract(r, 0, 8), k2)
				l.chk("C13", "rekey-sets-key", fnName(f), f.Pos(), ok, "changing the key of a leaf to %s gives %s", k2, extract(r, 0, 8))
				ok = eq(x.st, extract(r, 9, 55), val) && eq(x.st, extract(r, 8, 1), K(1))
				l.chk("C13", "rekey-keeps-value", fnName(f), f.Pos(), ok, "changing the key of a leaf changes its value or kind: %s", r)
			}
		}
	}
	nl, nn := 0, 0
	for _, f := range get {
		l.chk("C13", "getter-returns-a-part", fnName(f), f.Pos(), getters[f], "%s returns neither the value of a leaf nor the address of a node", fnName(f))
		nl++
	}
	_ = nn
	// an arbitrary leaf value: high bits are dropped, nothing else is changed
	big := mkSym(Sym{name: "anyvalue", kind: SParam, nonN: true})
	for _, f := range lenc {
		for _, x := range eval(f, newSt(), key, big) {
			w := rets(x)[0]
			l.chk("C13", "large-values-truncated", fnName(f), f.Pos(), eq(x.st, extract(w, 0, 8), key) && eq(x.st, extract(w, 8, 1), K(1)), "a value beyond 55 bits changes the key or the kind of a leaf")
		}
	}
	if len(words) == 0 {
		return fmt.Errorf("no encoder of tree words was found")
	}
	return nil
}

var getters = map[*ssa.Function]bool{}

// anyBit: the leaf bit is set
func anyBit(w struct {
	f    *ssa.Function
	st   *St
	w    *Term
	leaf bool
	long bool
	name string
}) bool {
	return w.st.eqv(extract(w.w, 8, 1), K(1))
}

// deepUnmask removes truncations without effect everywhere in a linear term
func deepUnmask(st *St, t *Term) *Term {
	t = st.unmask(t)
	if t.op == OLin {
		m := K(t.c)
		for i, a := range t.args {
			m = linAdd(m, 1, st.unmask(a), t.coef[i])
		}
		return m
	}
	return t
}
