package main

import (
	"fmt"
	"os"
	"strings"
)

var dbgBad = os.Getenv("DBGBAD")

func (p *pubCtx) dbg(rule string, ok bool) {
	if !ok && dbgBad != "" && strings.HasPrefix(rule, dbgBad) && p.d.e.silent == 0 {
		fmt.Fprintln(os.Stderr, "BAD", rule, "x=", p.x, "w0=", p.w0, "nv=", p.nv)
		fmt.Fprintln(os.Stderr, p.st.dump())
		for k, v := range p.st.eq {
			fmt.Fprintln(os.Stderr, "  eq", k, "=", v)
		}
		for _, k := range p.st.ineq {
			fmt.Fprintln(os.Stderr, "  le", k)
		}
		for _, f := range p.st.ex {
			fmt.Fprintf(os.Stderr, "  ! %s\n", f)
			if f.str == "new" {
				for _, s := range p.st.segs(nodeTerm(f.args[0])) {
					fmt.Fprintf(os.Stderr, "      seg %s\n", s)
				}
			}
		}
		os.Exit(3)
	}
}

var dbgSt *St // state of the last obligation, for DBGBAD
