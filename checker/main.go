package main

// radixcheck -prop ID [-tier quick|thorough]: decides one property of /repo's current source.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// run is everything one invocation needs; the parts are computed on demand
type run struct {
	p    *Prog
	l    *Lint
	m    *Mem
	s    *State
	tier string
	what []string // descriptions of the rules applied
	info map[string]interface{}

	undecided []string // parts of the code the engine could not follow
}

func (r *run) mem() *Mem {
	if r.m == nil {
		r.m = newMem(r.p, r.l)
	}
	return r.m
}

func (r *run) state() *State {
	if r.s == nil {
		r.s = newState(r.mem())
	}
	return r.s
}

// rule groups, and which properties need them
type group struct {
	name  string
	props string
	what  string
	run   func(r *run)
}

const opsWhat = "abstract interpretation of the SSA form of PrepareUpdate/PrepareDelete, then Finalize and Abort from every state they leave, on Tree and Allocator, with everything they call: symbolic words and addresses, linear inequalities, array segments, quantified facts; loops by anti-unification to a fixpoint; every access to shared memory is checked against the protocol (reservation, locks, generations, validation), every publication of a word against the changes of a radix tree that keep all other keys"

const queriesWhat = "abstract interpretation of the SSA form of Lookup, Count (new and reused counters), MinKey, MaxKey and the parts of Iterator.Next that need no descent, in a tree of unknown shape: which subtrees are still owed, which leaf was reached, what order the children come in; a leaf is delivered exactly if the path to it matches the key or prefix; recursive searches verified by induction"

var groups = []group{
	{"atomic", "C08", "every access (by points-to analysis of the SSA form) to a cell that some access treats atomically, or that is shared without a mutex, is atomic unless it happens before the tree is shared; 64-bit atomics are 8-byte aligned under the 32-bit size model", func(r *run) {
		r.mem().atomicRules()
		r.mem().alignRules()
	}},
	{"readonly", "C24", "no store, atomic or not, reachable from a query entry point writes to a cell of the tree except reservations, handout flags and caller-owned objects; no heap allocation site (SSA candidates confirmed by the compiler's escape analysis) is reachable from Lookup", func(r *run) {
		r.mem().readOnly("C24", r.mem().queries(), 14)
		r.mem().noAlloc()
	}},
	{"bytes", "C26", "no store reaches the arrays of byte slices passed by callers, and no cell that outlives the operation holds a reference to them", func(r *run) { r.mem().callerBytes() }},
	{"pointerfree", "C27", "no pointer-carrying type in node storage, no conversion of a pointer to a number that reaches it", func(r *run) { r.mem().pointerFree() }},
	{"format", "C11,C19,C22", "table of everything written (format, verb, operand origin, order) against table of everything recognised and restored when loading", func(r *run) { r.state().formatRules() }},
	{"errors", "C20", "path walk from every write to the return of WriteState following the error value, byte counts, and the channel/wait structure of the goroutines", func(r *run) { r.state().errorRules() }},
	{"codec", "C13", "the word encoders and decoders (found by signature) are interpreted over bit fields of affine terms and composed", func(r *run) { must(codecRules(r.p, r.l)) }},
	{"config", "C28", "every build configuration (3 block sizes x 32/64 bit) is type-checked and its constants compared where they are used to index the block, lock and data tables", func(r *run) { configRules(r.p.dir, r.l) }},
	{"blocks", "C29", "structure of the goroutine handing out blocks: single sender on the block channel, counter of the sending loop, creation and visibility dominating the send, start once per constructor after loading, end on close", func(r *run) { r.state().blockRules() }},
	{"stop", "C23", "typestate (lock held, stopped flag, allocators withdrawn) along every path of every exported method that stops or starts the tree, calls and defers inlined; loops over all allocators recognised as one step", func(r *run) { r.state().stopRules() }},
	{"wiring", "C01,C02,C04", "values followed through calls, parameters and fields set once, wherever a tree is put together: number, handout flag, reservation slot and manager of every allocator", func(r *run) { (&wiring{r.l, r.p}).run() }},
	{"counts", "C03,C11,C23,C30", "abstract interpretation of Len and FlushStats with a ghost sum over the private counters of all allocators", func(r *run) { r.engineGroup("len", "flush") }},
	{"handout", "C01,C02,C03,C04", "abstract interpretation of GetAllocator and ReleaseAllocator", func(r *run) { r.engineGroup("handout") }},
	{"operations", "C01,C02,C03,C04,C05,C06,C07,C09,C10,C11,C12,C14,C15,C16,C18,C25", opsWhat, func(r *run) {
		r.engineGroup("update.tree", "update.alloc", "delete.tree", "delete.alloc")
	}},
	{"queries", "C01,C02,C03,C04,C13,C14,C16,C17,C18,C24,C26", queriesWhat, func(r *run) {
		r.engineGroup("lookup.tree", "lookup.alloc", "count.tree", "count.again", "min", "max", "next.first", "next.resume", "next.cached", "next.finished")
	}},
	{"iterators", "C04,C17,C25", "abstract interpretation of NewIterator (an iterator of the pool with any content) and Reset (any state): prefix byte for byte, nothing prefetched, no position to resume at, not finished", func(r *run) { r.engineGroup("iter.reset", "iter.new") }},
	{"memory", "C02,C15", "abstract interpretation of newNode and allocateNode in an allocator of unknown state: facts about all reservations and about the recycled list before and after, how the node handed out, the rest given back and the free part of the block relate", func(r *run) { r.engineGroup("alloc") }},
	{"diagnostics", "C01,C02,C03,C04,C14,C23,C30", "abstract interpretation of Admin (unknown arguments), Stats and of String on every operation PrepareUpdate and PrepareDelete can return: no writes to the tree, every index and slice in range, allocators, reservations and locks given back; points-to analysis: no write to tree cells reachable from any diagnostic", func(r *run) {
		r.engineGroup("admin", "stats", "string.update", "string.delete")
		r.mem().readOnly("C30", r.mem().diagnostics(), 4)
	}},
	{"load", "C21", "path walk from every fallible call of the loader following its error, taint from parsed numbers to sizes and indices, completeness checks before success", func(r *run) { r.state().loadRules() }},
}

func main() {
	startProf()
	if len(os.Args) > 1 && os.Args[1] == "-debug" {
		debugMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-engine" {
		engineMain(os.Args[2:])
		return
	}
	if len(os.Args) > 4 && os.Args[1] == "-shard" {
		shardMain(os.Args[2:])
		return
	}
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "tier")
	out := flag.String("evidence", "", "evidence directory")
	all := flag.Bool("all", false, "run all rules and print what they report")
	verbose := flag.Bool("v", false, "print all obligations")
	flag.Parse()
	start := time.Now()
	r := &run{tier: *tier, info: map[string]interface{}{}}
	var failed []string
	safe := func(name string, f func()) {
		defer func() {
			if e := recover(); e != nil {
				failed = append(failed, fmt.Sprintf("%s: analysis failed: %v", name, e))
				if *verbose || *all {
					fmt.Println(string(debug.Stack()))
				}
			}
		}()
		f()
	}
	var err error
	r.p, err = loadProg(repoDir(), os.Getenv("RADIX_TAGS"), os.Getenv("RADIX_ARCH"))
	if err != nil {
		failed = append(failed, "cannot load the repository: "+err.Error())
	} else {
		r.l = newLint(r.p)
		for _, g := range groups {
			if o := os.Getenv("ONLYGROUP"); o != "" && o != g.name {
				continue
			}
			if !*all && !has(g.props, *prop) {
				continue
			}
			r.what = append(r.what, g.name+": "+g.what)
			t := time.Now()
			safe(g.name, func() { g.run(r) })
			if *all {
				fmt.Println(g.name, time.Since(t))
			}
		}
	}
	if r.l == nil {
		r.l = newLint(nil)
	}
	if *tier == "thorough" && !*all && len(failed) == 0 {
		r.otherConfigs(*prop, start, safe, &failed)
	}
	if *all {
		n := map[string]int{}
		for _, x := range sortedReps(r.l.reps) {
			n[x.Prop]++
			if x.Bad > 0 || *verbose {
				fmt.Printf("%s %s %s %s ok=%d bad=%d %s\n    %s\n", x.Prop, x.Rule, x.Where, x.Fn, x.Ok, x.Bad, x.Msg, x.Trace)
			}
		}
		fmt.Println(n, failed, r.undecided)
		return
	}
	os.Exit(r.report(*prop, *tier, *out, failed, start, *verbose))
}

// otherConfigs repeats the analysis of prop with the source of the other build configurations
func (r *run) otherConfigs(prop string, start time.Time, safe func(string, func()), failed *[]string) {
	base := r.p
	done := []string{"default"}
	for _, c := range []struct{ tags, arch string }{{"blocksize8", ""}, {"blocksize16", ""}, {"", "386"}} {
		if time.Since(start) > 480*time.Second {
			break
		}
		name := c.tags + c.arch
		p, err := loadProg(repoDir(), c.tags, c.arch)
		if err != nil {
			*failed = append(*failed, "cannot load the repository ("+name+"): "+err.Error())
			continue
		}
		os.Setenv("RADIX_TAGS", c.tags)
		os.Setenv("RADIX_ARCH", c.arch)
		s := &run{p: p, l: newLint(p), tier: r.tier, info: map[string]interface{}{}}
		for _, g := range groups {
			if has(g.props, prop) && g.name != "config" {
				safe(g.name+" ("+name+")", func() { g.run(s) })
			}
		}
		for _, x := range sortedReps(s.l.reps) {
			if x.Bad > 0 {
				x.Msg = "(" + name + ") " + x.Msg
			}
			r.l.merge(x)
		}
		for _, u := range s.undecided {
			r.undecided = append(r.undecided, name+": "+u)
		}
		done = append(done, name)
	}
	os.Unsetenv("RADIX_TAGS")
	os.Unsetenv("RADIX_ARCH")
	r.p = base
	r.info["build_configurations"] = done
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func has(list, p string) bool {
	for _, x := range strings.Split(list, ",") {
		if x == p {
			return true
		}
	}
	return false
}

func (r *run) report(prop, tier, out string, failed []string, start time.Time, verbose bool) int {
	var mine, bad []*Rep
	sites, paths := 0, 0
	rules := map[string]int{}
	fns := map[string]bool{}
	for _, x := range sortedReps(r.l.reps) {
		if x.Prop != prop {
			continue
		}
		mine = append(mine, x)
		sites++
		paths += x.Ok + x.Bad
		rules[x.Rule]++
		fns[x.Fn] = true
		if x.Bad > 0 {
			bad = append(bad, x)
		}
		if verbose {
			fmt.Printf("%s %s %s ok=%d bad=%d %s\n", x.Rule, x.Where, x.Fn, x.Ok, x.Bad, x.Msg)
		}
	}
	if len(r.undecided) > 0 {
		r.info["undecided"] = r.undecided
		for _, u := range r.undecided {
			fmt.Println("UNDECIDED:", u)
		}
	}
	if len(mine) == 0 && len(failed) == 0 && len(r.undecided) == 0 {
		failed = append(failed, "no obligations were generated")
	}
	known := loadKnown(prop)
	var viol []*Rep
	for _, x := range bad {
		if k := known[x.Rule+" "+x.Fn]; k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		viol = append(viol, x)
	}
	if out == "" {
		out = "/verif/evidence"
	}
	os.MkdirAll(out, 0777)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	discharged := sites - len(bad)
	samples := []interface{}{}
	for i, x := range mine {
		if i%(1+len(mine)/25) == 0 {
			samples = append(samples, x)
		}
	}
	cov := map[string]interface{}{
		"explanation": "Static analysis of the type-checked SSA form of /repo's working tree. An obligation is one rule at one construct; it is discharged if the rule holds on every abstract path through the construct. Rules: " + strings.Join(r.what, "; "),
		"obligations": sites,
		"discharged":  discharged,
		"paths":       paths,
		"rules":       rules,
		"functions":   fl,
		"samples":     samples,
	}
	for k, v := range r.info {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"assumptions": []string{"the Go memory model and the semantics of sync/atomic, sync and the Go runtime", "go/types and golang.org/x/tools/go/ssa translate the source faithfully", "no code outside the package writes to its unexported state"},
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol) + len(failed),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(out, prop+".json"), append(b, '\n'), 0666); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	if len(viol)+len(failed) == 0 {
		fmt.Printf("%s: %d obligations at %d rules discharged, %d paths, %.1f s\n", prop, discharged, len(rules), paths, time.Since(start).Seconds())
		return 0
	}
	rp := filepath.Join(out, prop+".violations.txt")
	var sb strings.Builder
	for _, f := range failed {
		fmt.Fprintf(&sb, "%s\n", f)
	}
	for _, x := range viol {
		fmt.Fprintf(&sb, "%s: %s (%s): %s\n", x.Where, x.Fn, x.Rule, x.Msg)
		if x.Trace != "" {
			fmt.Fprintf(&sb, "    path: %s\n", x.Trace)
		}
	}
	os.WriteFile(rp, []byte(sb.String()), 0666)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

// loadKnown: findings recorded by hand (known-findings.txt); a line is "finding: property=ID rule=R fn=F text"
func loadKnown(prop string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile("/verif/known-findings.txt")
	if err != nil {
		return r
	}
	for _, ln := range strings.Split(string(b), "\n") {
		f := strings.Fields(ln)
		if len(f) < 4 || f[0] != "finding:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "rule=") || !strings.HasPrefix(f[3], "fn=") {
			continue
		}
		r[f[2][5:]+" "+f[3][3:]] = strings.Join(f[4:], " ")
	}
	return r
}

func debugMain(args []string) {
	p, err := loadProg(repoDir(), "", "")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	c, err := newCtx(p)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, ep := range c.entry(args[0]) {
		c.d.driver = ep.name
		c.d.mode = args[1]
		k, ks := keySlice("KEY")
		c.d.key, c.d.keyLen = k, ks.args[2]
		ex, err := c.run(ep.fn, newSt(), []*Term{ep.recv, ks}, ep.name)
		fmt.Println(ep.name, len(ex), err, c.e.steps)
		if os.Getenv("DUMP") != "" {
			for i, x := range ex {
				fmt.Println("--- exit", i, x.ret)
				fmt.Println(x.st.dump())
			}
		}
	}
	for _, r := range c.d.sorted() {
		if r.Bad > 0 {
			fmt.Printf("BAD %s %s %s %s ok=%d bad=%d %s\n   %s\n", r.Prop, r.Rule, r.Where, r.Fn, r.Ok, r.Bad, r.Msg, r.Trace)
		}
	}
	fmt.Println(c.d.events)
}
