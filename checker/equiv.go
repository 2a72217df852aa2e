package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Comparing a function with a reference function: both are analysed from the same entry state, and on
// every pair of returns that can happen together the results must have the same value number.

type eqOpts struct {
	rule   string
	args   func(in *Interp, st *State, args []*Term) // common setup
	cfg    string
	skip   map[int]bool // results that are not compared
	okOnly bool         // compare results only where no error is returned
	opaque []string
}

func iff(x, y *Term) *Term { return mkITE(x, y, mkNot(y)) }

// canonRec gives recursive calls of size functions one name.
func canonRec(P *Program, t *Term) *Term {
	return substFn(t, func(t *Term) *Term {
		if t.op == "app" {
			if f := P.byID[t.aux]; f != nil && P.inRepo(f) && f.Signature.Results().Len() == 2 && f.Signature.Params().Len() >= 1 &&
				isNamed(f.Signature.Params().At(0).Type(), "Script") && isIntegerType(f.Signature.Results().At(0).Type()) {
				return mkApp("recursive-size", t.typ, t.args[0])
			}
		}
		return nil
	})
}

// templates is the condition that a script matches at most one template.
func templates(ts ...*Term) *Term {
	by := map[*Term]map[string]*Term{}
	has := termTrue
	seen := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "app" && len(t.args) > 0 && t.free == 0 {
			key := ""
			var c *Term
			switch {
			case strings.HasSuffix(t.aux, "Script).IsP2PKH"):
				key, c = "pkh", asBool(t)
			case strings.HasSuffix(t.aux, "Script).IsP2PK"):
				key, c = "pk", asBool(t)
			case strings.HasSuffix(t.aux, "Script).MultiPKHCounts"):
				key, c = "multi", mkIsNil(mkExt(t, 2, types.Universe.Lookup("error").Type()))
			case strings.HasSuffix(t.aux, "agent_bitcoin_transfer.MatchScript"):
				key, c = "agent", mkIsNil(mkExt(t, 1, types.Universe.Lookup("error").Type()))
			}
			if key != "" {
				if by[t.args[0]] == nil {
					by[t.args[0]] = map[string]*Term{}
				}
				by[t.args[0]][key] = c
			}
		}
		if t.op == "ext" && t.aux == "0" && t.free == 0 && t.args[0].op == "app" && strings.HasSuffix(t.args[0].aux, "agent_bitcoin_transfer.MatchScript") {
			// a match comes with its description
			has = mkAnd(has, mkImp(mkIsNil(mkExt(t.args[0], 1, types.Universe.Lookup("error").Type())), mkNot(mkIsNil(t))))
		}
		kids(t, scan)
	}
	for _, t := range ts {
		scan(t)
	}
	out := has
	for _, m := range by {
		ks := keysOf(m)
		for i := range ks {
			for j := i + 1; j < len(ks); j++ {
				out = mkAnd(out, mkNot(mkAnd(m[ks[i]], m[ks[j]])))
			}
		}
	}
	return out
}

func keysOf(m map[string]*Term) []string {
	var out []string
	for _, k := range []string{"pkh", "pk", "multi", "agent"} {
		if m[k] != nil {
			out = append(out, k)
		}
	}
	return out
}

// result is a returned value as it can be compared between two analyses.
func (a *Analysis) result(st *State, v *Term, t types.Type) *Term {
	if isSliceType(t) {
		return a.in.contTerm(st, v)
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return lift1(v, func(v *Term) *Term {
			if v.isNil() || !fresh(v) {
				return v
			}
			return mk("ref", "", nil, a.in.load(st, v, p.Elem()))
		})
	}
	return v
}

// equiv compares a function with its reference.
func (r *Rep) equiv(fn, spec string, o eqOpts) {
	setup := func(in *Interp, st *State, args []*Term) {
		if o.args != nil {
			o.args(in, st, args)
		}
		for _, n := range o.opaque {
			in.opaque[n] = true
		}
	}
	a := r.analysis(fn, "eq"+o.cfg, setup)
	if a == nil {
		return
	}
	b := r.P.specAnalysis(r, spec, o.cfg, setup)
	if b == nil {
		r.check(false, "anchor", spec, "-", "no reference function")
		return
	}
	fr, br := a.fn.Signature.Results(), b.fn.Signature.Results()
	if fr.Len() != br.Len() || len(a.args) != len(b.args) {
		r.check(false, o.rule, fn, r.P.pos(a.fn, nil), "the signature differs from the reference")
		return
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			r.check(false, o.rule, fn, r.P.pos(a.fn, nil), "parameter %d differs from the reference", i)
			return
		}
	}
	for _, x := range a.rets {
		for _, y := range b.rets {
			st := x.st.clone()
			ypc := canonRec(r.P, y.st.pc)
			st.pc = canonRec(r.P, st.pc)
			var all []*Term
			all = append(all, st.pc, ypc)
			var xs, ys []*Term
			for i := 0; i < fr.Len(); i++ {
				xs = append(xs, canonRec(r.P, a.result(x.st, x.vals[i], fr.At(i).Type())))
				ys = append(ys, canonRec(r.P, b.result(y.st, y.vals[i], fr.At(i).Type())))
			}
			all = append(all, xs...)
			all = append(all, ys...)
			if !st.narrow(mkAnd(ypc, templates(all...))) {
				continue
			}
			for i := 0; i < fr.Len(); i++ {
				if o.skip[i] {
					continue
				}
				t := fr.At(i).Type()
				var goal *Term
				switch {
				case isErrorType(t):
					goal = iff(mkIsNil(xs[i]), mkIsNil(ys[i]))
				case isBoolType(t):
					goal = iff(asBool(xs[i]), asBool(ys[i]))
				case isIntegerType(t):
					goal = mkEqInt(xs[i], ys[i])
				default:
					goal = mkEq(xs[i], ys[i])
				}
				if o.okOnly && !isErrorType(t) {
					for k := 0; k < fr.Len(); k++ {
						if isErrorType(fr.At(k).Type()) {
							goal = mkImp(mkIsNil(xs[k]), goal)
						}
					}
				}
				ok, w := st.proveW(goal)
				r.check(ok, o.rule, fmt.Sprintf("%s/%d", fn, i), a.pos(x.instr), "result %s differs from %s%s", cutStr(st.simp(xs[i]).String(), 250), cutStr(st.simp(ys[i]).String(), 250), witness(w))
			}
		}
	}
}

func witness(w []Lit) string {
	if len(w) == 0 {
		return ""
	}
	s := " when"
	for i, l := range w {
		if i == 8 {
			s += " …"
			break
		}
		s += " " + cutStr(l.term().String(), 100)
	}
	return s
}

func (P *Program) specAnalysis(r *Rep, name, cfg string, setup func(in *Interp, st *State, args []*Term)) *Analysis {
	key := name + "|spec" + cfg
	if a, ok := r.cache[key]; ok {
		return a
	}
	f := P.lookup(name)
	if f == nil {
		return nil
	}
	rec := ""
	if g := P.lookup(strings.Replace(name, name[strings.LastIndex(name, ".")+1:], "zzRecursive", 1)); g != nil {
		rec = fnName(g)
	}
	a := P.analyse(f, func(in *Interp, st *State, args []*Term) {
		setup(in, st, args)
		if rec != "" {
			in.opaque[rec] = true
		}
	})
	r.counts["reference_functions"]++
	r.cache[key] = a
	return a
}

// equivState compares what a function does to its builder with what a reference function does, on every
// pair of successful returns.
func (r *Rep) equivState(rule, fn, spec string, setup func(in *Interp, st *State, args []*Term), skip func(path string) bool) {
	if setup == nil {
		setup = func(in *Interp, st *State, args []*Term) {}
	}
	a := r.analysis(fn, "eqs", setup)
	if a == nil {
		return
	}
	b := r.P.specAnalysis(r, spec, "eqs", setup)
	if b == nil {
		r.check(false, "anchor", spec, "-", "no reference function")
		return
	}
	if len(a.args) != len(b.args) {
		r.check(false, rule, fn, r.P.pos(a.fn, nil), "the signature differs from the reference")
		return
	}
	tx := a.builderArg()
	for _, x := range a.rets {
		for _, y := range b.rets {
			st := x.st.clone()
			if !st.narrow(y.st.pc) || !st.feasible(termTrue) {
				continue
			}
			if e, g := a.errOf(x), b.errOf(y); e != nil && g != nil {
				goal := iff(mkIsNil(e), mkIsNil(g))
				if r.successOnly {
					goal = mkImp(mkIsNil(e), mkIsNil(g))
				}
				r.check(st.proves(goal), rule, fn+"/error", a.pos(x.instr), "an error is returned when none is expected, or the other way round")
			}
			st = st.where(mkAnd(a.okWhen(x), b.okWhen(y)))
			if st == nil {
				continue
			}
			c := &comparer{a: a, b: b, other: y.st, skip: skip}
			bad := []string{}
			c.report = func(path string, ok bool, was, now *Term) {
				r.counts["locations_compared"]++
				if !ok {
					bad = append(bad, fmt.Sprintf("%s should be %s, is %s", path, cutStr(st.simp(was).String(), 150), cutStr(st.simp(now).String(), 150)))
				}
			}
			c.walk(st, tx, tx, derefT(tx.typ), "tx", 4)
			r.check(len(bad) == 0, rule, fn, a.pos(x.instr), "the builder is left different from the reference: %s", strings.Join(bad, "; "))
		}
	}
}

// combined joins the results of a reference function over its returns.
func (a *Analysis) combined(i int) *Term {
	out := a.rets[len(a.rets)-1].vals[i]
	for k := len(a.rets) - 2; k >= 0; k-- {
		out = mkITE(a.rets[k].st.pc, a.rets[k].vals[i], out)
	}
	return out
}
