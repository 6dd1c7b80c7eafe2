package main

// The drivers: what a user of the package can call, in which order, and what has to hold when a call returns.

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type driver struct {
	name string
	run  func(c *Ctx) error
}

func (c *Ctx) setKey() *Term {
	k, ks := keySlice("KEY")
	c.d.key, c.d.keyLen = k, ks.args[2]
	return ks
}

var drivers = []driver{
	{"update.tree", func(c *Ctx) error { return c.updateDriver("Tree") }},
	{"update.alloc", func(c *Ctx) error { return c.updateDriver("Allocator") }},
	{"delete.tree", func(c *Ctx) error { return c.deleteDriver("Tree") }},
	{"delete.alloc", func(c *Ctx) error { return c.deleteDriver("Allocator") }},
	{"next.cached", func(c *Ctx) error { return c.nextDriver("cached") }},
	{"next.finished", func(c *Ctx) error { return c.nextDriver("finished") }},
	{"next.first", func(c *Ctx) error { return c.nextDriver("first") }},
	{"next.resume", func(c *Ctx) error { return c.nextDriver("resume") }},
	{"iter.reset", func(c *Ctx) error { return c.iterDriver("Reset") }},
	{"iter.new", func(c *Ctx) error { return c.iterDriver("NewIterator") }},
	{"min", func(c *Ctx) error { return c.extremeDriver("MinKey", "min") }},
	{"max", func(c *Ctx) error { return c.extremeDriver("MaxKey", "max") }},
	{"count.tree", func(c *Ctx) error { return c.countDriver("Tree") }},
	{"count.again", func(c *Ctx) error { return c.countDriver("Counter") }},
	{"admin", func(c *Ctx) error { return c.adminDriver("Admin") }},
	{"string.update", func(c *Ctx) error { return c.stringDriver("PrepareUpdate", "UpdateOperation") }},
	{"string.delete", func(c *Ctx) error { return c.stringDriver("PrepareDelete", "DeleteOperation") }},
	{"alloc", func(c *Ctx) error { return c.allocDriver() }},
	{"flush", func(c *Ctx) error { return c.sumsDriver("Allocator", "FlushStats") }},
	{"len", func(c *Ctx) error { return c.sumsDriver("Tree", "Len") }},
	{"handout", func(c *Ctx) error { return c.handoutDriver() }},
	{"stats", func(c *Ctx) error { return c.adminDriver("Stats") }},
	{"lookup.tree", func(c *Ctx) error { return c.lookupDriver("Tree") }},
	{"lookup.alloc", func(c *Ctx) error { return c.lookupDriver("Allocator") }},
}

type entryPoint struct {
	fn   *ssa.Function
	recv *Term
	name string
}

func (c *Ctx) entryOf(typ, method string) (*entryPoint, error) {
	f := c.p.method(typ, method)
	if f == nil {
		return nil, fmt.Errorf("method %s.%s not found", typ, method)
	}
	r := c.e.tree
	if typ == "Allocator" {
		r = c.allocParam()
	}
	return &entryPoint{f, r, typ + "." + method}, nil
}

func (c *Ctx) updateDriver(typ string) error {
	ep, err := c.entryOf(typ, "PrepareUpdate")
	if err != nil {
		return err
	}
	c.d.mode = "update"
	c.d.driver = ep.name
	ks := c.setKey()
	exits, err := c.run(ep.fn, newSt(), []*Term{ep.recv, ks}, ep.name)
	if err != nil {
		return err
	}
	if c.shard > 0 {
		c.d.reps = map[string]*Rep{}
	}
	fin, abort, str := c.p.method("UpdateOperation", "Finalize"), c.p.method("UpdateOperation", "Abort"), c.p.method("UpdateOperation", "String")
	fk, fks := keySlice("fetched")
	c.d.fetched = fk
	_ = str
	val := mkSym(Sym{name: "VALUE", kind: SParam})
	c.d.value = val
	for i, x := range exits {
		if len(x.ret) != 2 {
			return fmt.Errorf("PrepareUpdate returns %d values", len(x.ret))
		}
		found, op := x.ret[0], x.ret[1]
		if !c.mine(i) {
			continue
		}
		c.d.op, c.d.opType = op, "UpdateOperation"
		c.preparedExit(ep, x, found, op)
		name := ep.name + " > Finalize"
		var starts []*St
		switch found {
		case tTrue:
			for _, m := range []*Term{tTrue, tFalse} {
				s := x.st.clone()
				s.mem[c.opField(op, "UpdateOperation", "Match")] = m
				s.mem[c.opField(op, "UpdateOperation", "FetchedKey")] = fks
				if m == tTrue {
					s.addFact(fact("same", c.d.key, tZero, fk, tZero, c.d.keyLen))
					s.addFact(mkEq0(sub(c.d.keyLen, fks.args[2])))
				}
				s.exAdd(facet("match", m))
				starts = append(starts, s)
			}
		case tFalse:
			starts = append(starts, x.st.clone())
		default:
			return fmt.Errorf("PrepareUpdate returns %s", found)
		}
		for _, s := range starts {
			c.d.driver = name
			c.e.baseline(s)
			fx, err := c.run(fin, s, []*Term{op, val}, name)
			if err != nil {
				return fmt.Errorf("exit %d: %v", i, err)
			}
			for _, y := range fx {
				c.finishedExit(ep, fin, y, op, s)
			}
		}
		c.d.driver = ep.name + " > Abort"
		ax, err := c.run(abort, x.st.clone(), []*Term{op}, c.d.driver)
		if err != nil {
			return err
		}
		for _, y := range ax {
			c.abortedExit(ep, abort, y, op, x.st)
		}
	}
	return nil
}

func (c *Ctx) deleteDriver(typ string) error {
	ep, err := c.entryOf(typ, "PrepareDelete")
	if err != nil {
		return err
	}
	c.d.mode = "delete"
	c.d.driver = ep.name
	ks := c.setKey()
	exits, err := c.run(ep.fn, newSt(), []*Term{ep.recv, ks}, ep.name)
	if err != nil {
		return err
	}
	if c.shard > 0 {
		c.d.reps = map[string]*Rep{}
	}
	fin, abort := c.p.method("DeleteOperation", "Finalize"), c.p.method("DeleteOperation", "Abort")
	for i, x := range exits {
		if !c.mine(i) {
			continue
		}
		found, op := x.ret[0], x.ret[1]
		if found == tFalse {
			c.d.chk(nil, nil, "C12", "nothing-found-no-operation", op == tNil, "PrepareDelete returns an operation although nothing was found")
			c.abortedExit(ep, ep.fn, x, nil, nil)
			continue
		}
		if found != tTrue {
			return fmt.Errorf("PrepareDelete returns %s", found)
		}
		c.d.op, c.d.opType = op, "DeleteOperation"
		c.preparedExit(ep, x, found, op)
		c.d.driver = ep.name + " > Finalize"
		c.e.baseline(x.st)
		fx, err := c.run(fin, x.st.clone(), []*Term{op}, c.d.driver)
		if err != nil {
			return fmt.Errorf("exit %d: %v", i, err)
		}
		for _, y := range fx {
			c.finishedExit(ep, fin, y, op, x.st)
		}
		c.d.driver = ep.name + " > Abort"
		ax, err := c.run(abort, x.st.clone(), []*Term{op}, c.d.driver)
		if err != nil {
			return err
		}
		for _, y := range ax {
			c.abortedExit(ep, abort, y, op, x.st)
		}
	}
	return nil
}

func (e *Engine) baseline(s *St) {}

// preparedExit: what holds while the user has an operation in his hands
func (c *Ctx) preparedExit(ep *entryPoint, x Exit, found, op *Term) {
	d, st := c.d, x.st
	fr := c.frameOf(ep.fn)
	d.chk(fr, nil, "C01", "reservation-held-until-finalize", len(st.exAll("sess")) == 1, "%s returns an operation with %d reservations", ep.name, len(st.exAll("sess")))
	want := 0
	if ep.recv == c.e.tree {
		want = 1
	}
	d.chk(fr, nil, "C04", "allocator-kept-until-finalize", len(st.exAll("hand")) == want, "%s returns an operation that keeps %d allocators, not %d", ep.name, len(st.exAll("hand")), want)
	d.chk(fr, nil, "C04,C25", "operation-not-in-pool", !st.exHas(facet("put", op)) && op != tNil, "%s returns an operation that was given back to the pool", ep.name)
	d.chk(fr, nil, "C05,C03", "nodes-locked-until-finalize", len(st.exAll("held"))+len(st.exAll("heldroot")) > 0, "%s returns an operation that has nothing locked", ep.name)
	d.chk(fr, nil, "C07,C09", "nothing-changed-by-prepare", len(st.exAll("pub")) == 0, "%s changes the tree", ep.name)
	for _, n := range []string{"Key", "Value", "FetchedKey", "Match"} {
		if fieldIndex(c.p.named(d.opType), n) < 0 {
			continue
		}
		v := st.mem[c.opField(op, d.opType, n)]
		if v == nil {
			d.chk(fr, nil, "C25", "visible-field-set", false, "%s returns an operation whose field %s is left from the previous use", ep.name, n)
			continue
		}
		switch n {
		case "Key":
			d.chk(fr, nil, "C25", "visible-field-set", v.op == OSlice && v.args[0] == d.key, "%s returns an operation with Key %s", ep.name, v)
		case "Value":
			d.chk(fr, nil, "C25", "visible-field-set", !tainted(v) && (found == tTrue || st.eqv(v, tZero)), "%s returns an operation with Value %s (found: %s)", ep.name, v, found)
		case "FetchedKey":
			d.chk(fr, nil, "C25", "visible-field-set", v == tNil || v.op == OSlice && st.leq(v.args[2], tZero), "%s returns an operation with FetchedKey %s", ep.name, v)
		case "Match":
			d.chk(fr, nil, "C25", "visible-field-set", st.prove(mkNot(v)) || v == tFalse, "%s returns an operation with Match %s", ep.name, v)
		}
	}
}

func (c *Ctx) frameOf(fn *ssa.Function) *Frame { return &Frame{fn: fn} }

// closed: nothing is left open when a call returns that ends an operation
func (c *Ctx) closed(fr *Frame, y Exit, op *Term) {
	d, st := c.d, y.st
	for _, n := range []struct{ f, props, what string }{
		{"sess", "C01", "the reservation is still held"},
		{"hand", "C04", "the allocator is not given back"},
		{"held", "C03", "a node is still locked"},
		{"heldroot", "C03", "the root is still locked"},
		{"unlinked", "C02", "a node taken out of the tree is not given back for reuse"},
		{"retiring", "C02", "a node to be reused is not put into the list of its size"},
		{"mu", "C03", "a mutex is still locked"},
	} {
		l := st.exAll(n.f)
		bad := ""
		if len(l) > 0 {
			bad = l[0].String()
		}
		if n.f == "unlinked" && len(l) > 0 {
			// memory that is never reused is lost, not damaged
			continue
		}
		d.chk(fr, nil, n.props, "nothing-left-open-"+n.f, len(l) == 0, "%s when the operation has ended: %s", n.what, bad)
	}
	if op != nil {
		n := 0
		for _, f := range st.exAll("put") {
			if f.args[0] == op {
				n++
			}
		}
		d.chk(fr, nil, "C04,C25", "operation-given-back-once", n <= 1, "the operation is given back to the pool %d times", n)
	}
}

// counted: the change of the item counters
func (c *Ctx) counted(y Exit) (*Term, int) {
	tot, n := tZero, 0
	seen := map[*Term]bool{}
	for k, v := range y.st.mem {
		if k.op == OField && k.str == "itemCounter" && !seen[k] {
			seen[k] = true
			n++
			tot = add(tot, v)
		}
	}
	for _, f := range y.st.exAll("live") {
		tot = add(tot, f.args[0])
	}
	return tot, n
}

func (c *Ctx) countRule(fr *Frame, y Exit, start *St, delta *Term) {
	tot, n := c.counted(y)
	diff := tot
	if delta != nil {
		diff = sub(tot, delta)
	}
	asBefore := func(t *Term) bool { return t.op == OSym && t.sym.name == "itemCounter" }
	ok := asBefore(diff)
	diff = y.st.norm(diff)
	switch {
	case n == 0 && len(y.st.exAll("live")) == 0:
		ok = diff == tZero
	default:
		// what is left is the counter as it was before
		ok = ok || asBefore(diff)
	}
	d := "0"
	if delta != nil {
		d = delta.String()
	}
	c.d.chk(fr, nil, "C11", "count-changes-with-tree", ok, "the number of keys changes by %s, but the counters become %s", d, tot)
}

func (c *Ctx) finishedExit(ep *entryPoint, fn *ssa.Function, y Exit, op *Term, s *St) {
	d, st := c.d, y.st
	if os.Getenv("DUMPX") != "" && d.e.silent == 0 {
		fmt.Println("EXIT", y.ret)
		fmt.Println(y.st.dump())
	}
	fr := c.frameOf(fn)
	c.closed(fr, y, op)
	pubs := st.exAll("pub")
	var delta *Term
	if len(pubs) > 0 && len(pubs[0].args) > 1 {
		delta = pubs[0].args[1]
	}
	if len(y.ret) > 0 {
		r := y.ret[0]
		switch {
		case r == tTrue || st.prove(r):
			d.chk(fr, nil, "C12", "true-only-if-changed", len(pubs) > 0, "true is returned although the tree was not changed")
		case r == tFalse || st.prove(mkNot(r)):
			d.chk(fr, nil, "C12", "false-only-if-unchanged", len(pubs) == 0, "false is returned although the tree was changed: %v", pubs)
		default:
			d.chk(fr, nil, "C12", "result-tells-what-happened", false, "the result %s does not tell whether the tree was changed", r)
		}
	}
	c.countRule(fr, y, s, delta)
}

func (c *Ctx) abortedExit(ep *entryPoint, fn *ssa.Function, y Exit, op *Term, s *St) {
	fr := c.frameOf(fn)
	c.closed(fr, y, op)
	c.d.chk(fr, nil, "C12,C09", "nothing-changed-by-abort", len(y.st.exAll("pub")) == 0, "the tree is changed although the operation is aborted")
	c.countRule(fr, y, s, nil)
}

func engineMain(args []string) {
	for _, d := range drivers {
		if len(args) > 0 && !strings.HasPrefix(d.name, args[0]) {
			continue
		}
		p, err := loadProg(repoDir(), os.Getenv("RADIX_TAGS"), os.Getenv("RADIX_ARCH"))
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		c, err := newCtx(p)
		if err == nil {
			err = d.run(c)
		}
		fmt.Println(d.name, err, c.e.steps, c.d.events)
		for _, r := range c.d.sorted() {
			if r.Bad > 0 || os.Getenv("ALLREPS") != "" {
				fmt.Printf("%s %s %s %s ok=%d bad=%d %s\n   %s\n", r.Prop, r.Rule, r.Where, r.Fn, r.Ok, r.Bad, r.Msg, r.Trace)
			}
		}
	}
}

// adminDriver: a diagnostic command with unknown arguments
func (c *Ctx) adminDriver(method string) error {
	ep, err := c.entryOf("Tree", method)
	if err != nil {
		return err
	}
	c.d.mode = "admin"
	c.d.driver = ep.name
	st := newSt()
	args := []*Term{ep.recv}
	for i, p := range ep.fn.Params[1:] {
		n := fmt.Sprintf("ARG%d", i)
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			_, s := keySlice(n)
			args = append(args, s)
			continue
		}
		args = append(args, c.e.unknown(p.Type(), Sym{name: n, kind: SParam}))
	}
	c.withdrawPrims()
	exits, err := c.run(ep.fn, st, args, ep.name)
	if err != nil {
		return err
	}
	for _, x := range exits {
		fr := c.frameOf(ep.fn)
		for _, f := range []string{"sess", "hand", "mu", "held", "heldroot", "withdrawn"} {
			l := x.st.exAll(f)
			c.d.chk(fr, nil, "C30", "leaves-nothing-behind", len(l) == 0, "the command ends, but leaves behind: %v", l)
		}
		c.closed(fr, x, nil)
	}
	return nil
}

// stringDriver: the description of an operation that is still open
func (c *Ctx) stringDriver(method, op string) error {
	ep, err := c.entryOf("Tree", method)
	if err != nil {
		return err
	}
	c.d.mode = "delete"
	if op == "UpdateOperation" {
		c.d.mode = "update"
	}
	c.d.driver = ep.name
	c.d.keepBounds = true
	ks := c.setKey()
	exits, err := c.run(ep.fn, newSt(), []*Term{ep.recv, ks}, ep.name)
	if err != nil {
		return err
	}
	fn := c.p.method(op, "String")
	if fn == nil {
		return fmt.Errorf("%s has no description", op)
	}
	c.d.reps = map[string]*Rep{}
	c.d.mode = "admin"
	c.d.driver = ep.name + " > String"
	_, fks := keySlice("fetched")
	for _, x := range exits {
		o := x.ret[1]
		if o == tNil {
			continue
		}
		c.d.op, c.d.opType = o, op
		s := x.st.clone()
		if x.ret[0] == tTrue {
			s.mem[c.opField(o, op, "FetchedKey")] = fks
		}
		before := fmt.Sprint(s.ex)
		ys, err := c.run(fn, s, []*Term{o}, c.d.driver)
		if err != nil {
			return err
		}
		for _, y := range ys {
			c.d.chk(c.frameOf(fn), nil, "C30", "description-changes-nothing", fmt.Sprint(y.st.ex) == before, "describing an operation changes what it holds: %v", y.st.ex)
		}
	}
	return nil
}

// withdrawPrims: functions taking or giving back all allocators (what they do is checked for C23)
func (c *Ctx) withdrawPrims() {
	s := newState(newMem(c.p, newLint(c.p)))
	q := s.newStop()
	if q == nil {
		return
	}
	for _, f := range c.p.funcs {
		if f.Signature.Results().Len() > 0 || f.Signature.Params().Len() > 0 {
			continue
		}
		for _, b := range f.Blocks {
			if loopHeader(b) != b {
				continue
			}
			kind, _, _ := q.loop(b)
			if kind != "withdraw" && kind != "release" {
				continue
			}
			c.e.prims[f] = func(e *Engine, fr *Frame, fs *FS, in ssa.Instruction, args []*Term) []callRes {
				st, d := fs.st, e.d
				if kind == "withdraw" {
					d.chk(fr, in, "C30,C23", "no-second-allocator", len(st.exAll("hand"))+len(st.exAll("withdrawn")) == 0, "all allocators are withdrawn while one is held: this waits forever")
					if fi := fieldIndex(c.p.named("Tree"), "stopped"); fi >= 0 {
						v := e.load(fr, fs, in, mkField(e.tree, fi, "stopped"), types.Typ[types.Bool])
						d.chk(fr, in, "C30", "not-while-stopped", v == tFalse || st.prove(mkNot(v)), "all allocators are withdrawn although the tree may be stopped: this waits forever")
					}
					st.exAdd(facet("withdrawn"))
				} else {
					d.chk(fr, in, "C30", "release-only-withdrawn", st.exDel(facet("withdrawn")), "allocators are released that were not withdrawn")
				}
				return []callRes{{st, nil}}
			}
		}
	}
}
