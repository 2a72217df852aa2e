package main

import (
	"fmt"
	"os"
	"sort"
	"time"
)

func debugMain(P *Program, args []string) {
	if args[0] == "dump" && len(args) > 1 {
		dump(P, args[1:])
		return
	}
	for _, fn := range P.repoFuncs(P.lib) {
		t := time.Now()
		a := P.analyse(fn, nil)
		fmt.Printf("%-60s %8.2fs rets=%d events=%d terms=%d lossy=%v unsup=%v\n", shortFn(fn), time.Since(t).Seconds(), len(a.rets), len(a.events), len(termTab), keys(a.in.lossy), keys(a.in.unsup))
	}
}

func dump(P *Program, names []string) {
	fn := P.lookup(names[0])
	if fn == nil {
		fmt.Println("no function", names[0])
		return
	}
	var setup func(in *Interp, st *State, args []*Term)
	if os.Getenv("VERIF_SUM") != "" {
		setup = func(in *Interp, st *State, args []*Term) {
			withSigSummary(in, st, args)
			in.coarse = os.Getenv("VERIF_SUM") == "2"
		}
	}
	a := P.analyse(fn, setup)
	for _, r := range a.rets {
		fmt.Println("RET", P.pos(fn, r.instr), "pc:", r.st.pc)
		for _, v := range r.vals {
			fmt.Println("    val", v)
		}
		if len(names) > 1 {
			var cs []string
			for c := range r.st.mem {
				cs = append(cs, c)
			}
			sort.Strings(cs)
			for _, c := range cs {
				n := c
				if f, ok := fieldNames[c]; ok {
					n = f
				}
				fmt.Println("    mem", n, "=", r.st.mem[c])
			}
			for k, c := range r.st.cont {
				fmt.Println("    cont", k, "=", c)
			}
			for k, f := range r.st.fams {
				fmt.Println("    fam", k, f.pat, "=", f.cont)
			}
		}
	}
	if len(names) > 2 {
		for _, e := range a.events {
			fmt.Println("EV", e.kind, P.pos(e.fn, e.instr), shortName(e.callee), "addr", e.addr, "val", e.val, "args", e.args, "pc", e.pc)
		}
	}
	for _, l := range a.recs {
		fmt.Println("LOOP", shortFn(l.fn), "n", l.n, "early", l.early)
		for _, v := range l.vars {
			fmt.Println("     ", v.kind, v.id, v.addr, v.back, "init", v.init, "sol", v.sol, "opaque", v.opaque)
		}
	}
	fmt.Println(keys(a.in.lossy), keys(a.in.unsup))
}

func dagSize(t *Term) int {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.op != "ite" {
			return
		}
		seen[t] = true
		rec(t.args[1])
		rec(t.args[2])
	}
	rec(t)
	return len(seen)
}
