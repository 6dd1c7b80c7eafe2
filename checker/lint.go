package main

// Collector shared by all rules, and the static rules that need no path analysis.

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

type Lint struct {
	p     *Prog
	reps  map[string]*Rep
	n     map[string]int // what was analysed, per property
	notes map[string][]string
}

func newLint(p *Prog) *Lint {
	return &Lint{p: p, reps: map[string]*Rep{}, n: map[string]int{}, notes: map[string][]string{}}
}

// chk records one obligation
func (l *Lint) chk(props, rule string, fn string, pos token.Pos, ok bool, format string, a ...interface{}) bool {
	ps := l.p.pos(pos)
	for _, p := range strings.Split(props, ",") {
		k := p + "|" + rule + "|" + ps + "|" + fn
		r := l.reps[k]
		if r == nil {
			r = &Rep{Prop: p, Rule: rule, Where: ps, Fn: fn}
			l.reps[k] = r
		}
		if ok {
			r.Ok++
		} else {
			r.Bad++
			if r.Msg == "" {
				r.Msg = fmt.Sprintf(format, a...)
			}
		}
	}
	return ok
}

// atLeast fails a rule that matched fewer sites than were confirmed by hand: it would pass vacuously
func (l *Lint) atLeast(props, rule string, n, min int) {
	for _, p := range strings.Split(props, ",") {
		l.chk(p, rule+"/instances", "-", token.NoPos, n >= min, "only %d places to check were found, expected at least %d: the rule cannot see the code any more", n, min)
	}
}

func sortedReps(m map[string]*Rep) []*Rep {
	var l []*Rep
	for _, r := range m {
		l = append(l, r)
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if a.Prop != b.Prop {
			return a.Prop < b.Prop
		}
		if a.Rule != b.Rule {
			return a.Rule < b.Rule
		}
		return a.Where < b.Where
	})
	return l
}
