package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- P18 ----

// funders are the methods of the builder that take inputs from a list of UTXOs.
func funders(P *Program) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.exported(P.lib) {
		if f.Signature.Recv() == nil || !isTxBuilderPtr(f.Params[0].Type()) {
			continue
		}
		for _, p := range f.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && isNamed(s.Elem(), "UTXO") {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

func ruleP18(r *Rep) {
	r.rule("covered", "at every return without error, the inputs in the list are worth at least the outputs before the call, the fee estimated before the call and the fee of every input added")
	r.rule("change", "at every return without error after inputs were added, the outputs grow by no more than what the inputs are worth beyond that, and an existing output by exactly that")
	r.rule("insufficient", "a return after all UTXOs were used has the cause ErrInsufficientValue")
	fs := funders(r.P)
	opaque := breakers(r.P, true)
	for _, f := range fs {
		a := r.analysis("TxBuilder."+f.Name(), "funding", func(in *Interp, st *State, args []*Term) {
			st.narrow(mkNot(asBool(in.at(st, args[0], "SendMax"))))
			for _, b := range opaque {
				in.opaque[fnName(b)] = true
			}
		})
		if a == nil {
			continue
		}
		r.funded(a)
	}
	r.counts["operations"] = len(fs)
	r.atLeast("covered", 2)
	r.atLeast("change", 1)
}

// purse is what a state of the builder has for its outputs.
type purse struct {
	st           *State
	in, out, fee *Term          // value of the inputs, value of the outputs before, fee
	last         *Term          // value of the input added last
	keep         *Term          // excess that may be left to the fee
	more         func() []*Term // fees that are at least as high
}

func (p *purse) excess() *Term { return mkSub(mkSub(plain(p.in), plain(p.out)), plain(p.fee)) }

// purses lists the forms of the account at a state: with a fee for each input, and with the fee of the
// whole size.
func (r *Rep) purses(a *Analysis, st *State, l *Term) [][]*purse {
	tx := a.builderArg()
	f0 := r.refAt("zzFunding", tx)
	rate := a.in.at(a.entry, tx, "FeeRate")
	if len(f0) != 4 || rate == nil {
		return nil
	}
	in, out, fee, size := f0[0], f0[1], f0[2], f0[3]
	keep := r.refAt("zzFundingKeep", tx)[0]
	var last *Term
	early := termTrue
	worth := func(s *State, e *Term) []*Term {
		script := s.simp(a.in.contTerm(s, a.in.at(s, e, "LockingScript")))
		ref := func(i int) *Term {
			return s.simp(lift1(script, func(x *Term) *Term { return r.refAt("zzFundingInput", whole(x), rate)[i] }))
		}
		return []*Term{s.simp(a.in.at(s, e, "Value")), ref(0), ref(1)}
	}
	st = st.clone()
	if l.op != "seq" {
		return nil
	}
	net := mkInt(0) // fee less value of the inputs of earlier rounds
	split := true
	for i, g := range l.args {
		switch {
		case i == 0 && whole(g) == whole(a.list(a.entry, tx, "Inputs").args[0]):
		case g.op == "one":
			w := worth(st, g.args[0])
			last = w[0]
			in, fee, size = mkAdd(in, w[0]), mkAdd(fee, w[1]), mkAdd(size, w[2])
		case g.op == "map":
			q := sym("q")
			s := st.clone()
			s.assumeAll(mkLe(mkInt(0), q), mkLt(q, g.args[0]))
			for _, rec := range a.recs {
				if rec.key != nil && contains(g.args[1], rec.key) {
					s.narrow(subst1(rec.stays, rec.k, q))
					early = subst1(rec.early, rec.k, g.args[0])
					if st.proves(early) {
						st.narrow(early)
					}
				}
			}
			body := instantiate(g.args[1], q)
			ok := true
			pick := func(i int) *Term {
				return lift1(body, func(x *Term) *Term {
					switch {
					case x.op == "seq" && len(x.args) == 0:
						return mkInt(0)
					case x.op == "seq" && len(x.args) == 1 && x.args[0].op == "one":
						return worth(s, x.args[0].args[0])[i]
					}
					ok = false
					return mkInt(0)
				})
			}
			v, f, z := pick(0), pick(1), pick(2)
			if !ok {
				return nil
			}
			sums := sumsOver(mkAnd(early, st.pc), g.args[0])
			// sum over the earlier rounds, in the form that the function uses if it uses one
			sum := func(b *Term) (*Term, bool) {
				for _, c := range sums {
					x := instantiate(c.args[1], q)
					for _, sign := range []int64{1, -1} {
						d := s.simp(plain(mkSub(mkScale(x, sign), b)))
						for _, off := range leaves(d) {
							if _, ok := off.intVal(); ok && s.proves(mkEqInt(d, off)) {
								return mkSub(mkScale(c, sign), mkMul(g.args[0], off)), true
							}
						}
					}
				}
				return mkSum(g.args[0], closeBody(b, q)), false
			}
			if d, found := sum(mkSub(f, v)); found {
				net = mkAdd(net, d)
			} else {
				split = false
			}
			sv, _ := sum(v)
			sz, _ := sum(z)
			sf, _ := sum(f)
			if !split {
				net = mkAdd(net, mkSub(sf, sv))
			}
			in, size = mkAdd(in, sv), mkAdd(size, sz)
			fee = mkAdd(fee, mkAdd(net, sv))
		default:
			return nil
		}
	}
	// the fee of the whole size, which grows with the size
	tmpl := r.refAt("zzFundingFee", sym("size"), rate)[0]
	var bySize []*purse
	for _, z := range leaves(size) {
		s := st.where(whenLeaf(size, func(x *Term) bool { return x == z }))
		if s == nil {
			continue
		}
		p := &purse{st: s, in: in, out: out, fee: subst1(tmpl, sym("size"), z), last: last, keep: keep}
		p.more = func() []*Term {
			var out []*Term
			seen := map[*Term]bool{p.fee: true}
			for _, y := range sizesIn(s.pc) {
				if f := subst1(tmpl, sym("size"), y); !seen[f] {
					seen[f] = true
					if d := mkSub(plain(y), plain(z)); d.lin == nil || len(d.lin.atoms) < 8 {
						if s.proves(mkLe(mkInt(0), d)) {
							out = append(out, f)
						}
					}
				}
			}
			return out
		}
		bySize = append(bySize, p)
	}
	return [][]*purse{{{st: st, in: in, out: out, fee: fee, last: last, keep: keep}}, bySize}
}

func sumsOver(t, n *Term) []*Term {
	var out []*Term
	containsFn(t, func(x *Term) bool {
		if x.op == "sum" && x.args[0] == n {
			out = append(out, x)
		}
		return false
	})
	return out
}

// sizesIn lists the numbers that are turned into floating point.
func sizesIn(t *Term) []*Term {
	var out []*Term
	containsFn(t, func(x *Term) bool {
		if x.op == "conv" && x.free == 0 && isKind(types.Float64)(x.typ) && !isKind(types.Float32)(x.args[0].typ) {
			out = append(out, x.args[0])
		}
		return false
	})
	return out
}

// plainSizes takes the sizes that fees are computed from as numbers below 2^63.
func plainSizes(t *Term) *Term {
	return lift1(t, func(t *Term) *Term {
		if t.lin == nil {
			return t
		}
		r := Lin{c: t.lin.c}
		for i, x := range t.lin.atoms {
			if y, rate, ok := feeArg(x); ok && plain(y) != y {
				x = feeOn(x, plain(y), rate)
			}
			r = linCombine(r, 1, toLin(x), t.lin.coef[i])
		}
		return fromLin(r, t.typ)
	})
}

// feeOn is a fee with another size.
func feeOn(fee, size, rate *Term) *Term {
	c := fee.args[0]
	m := c.args[0]
	args := append([]*Term(nil), m.args...)
	for i, x := range args {
		if x != rate {
			args[i] = mk("conv", x.aux, x.typ, size)
		}
	}
	m = mk(m.op, m.aux, m.typ, args...)
	return mk(fee.op, fee.aux, fee.typ, mk(c.op, c.aux, c.typ, m))
}

// covers proves that the inputs are worth at least the outputs and the fee. Sums of amounts are below
// 2^64, so that a need computed modulo 2^64 that is no more than an amount is no more than it as a number.
func (p *purse) covers() bool {
	with := func(fee *Term) bool {
		need := mkAdd(p.out, fee)
		if p.st.proves(mkLe(need, p.in)) {
			return true
		}
		if left := mkSub(p.in, p.out); p.st.proves(mkLe(mkInt(0), left)) && p.st.proves(mkLe(fee, mkMod(left, tUint64))) {
			return true
		}
		if p.last != nil && p.st.proves(mkLe(mkMod(mkSub(need, mkSub(p.in, p.last)), tUint64), p.last)) {
			return true
		}
		return false
	}
	if with(p.fee) {
		return true
	}
	if p.more != nil {
		for _, fee := range p.more() {
			if with(fee) {
				return true
			}
		}
	}
	return false
}

// spent proves that what the inputs are worth beyond the outputs and the fee may be left to the fee.
func (p *purse) spent(st *State) bool {
	left := mkMod(mkSub(mkSub(p.in, p.out), p.fee), tUint64)
	keep := st.simp(p.keep)
	for _, k := range leaves(keep) {
		s := st.where(whenLeaf(keep, func(x *Term) bool { return x == k }))
		if s == nil {
			continue
		}
		if goal := mkLe(left, k); s.where(mkNot(s.simp(goal))) != nil && !s.proves(goal) {
			return false
		}
	}
	return true
}

func (r *Rep) funded(a *Analysis) {
	tx := a.builderArg()
	name := a.fn.Name()
	for _, ret := range a.rets {
		pos := a.pos(ret.instr)
		r.refused(a, ret, pos)
		st := ret.st.where(a.okWhen(ret))
		if st == nil {
			continue
		}
		l1 := a.list(st, tx, "Inputs")
		for _, l := range leaves(l1) {
			s := st.where(whenLeaf(l1, func(x *Term) bool { return x == l }))
			if s == nil {
				continue
			}
			ps := r.purses(a, s, l)
			if ps == nil {
				r.check(false, "covered", name, pos, "the list of inputs is not the earlier list with inputs added")
				continue
			}
			covered, kept := false, false
			why := ""
			for _, alt := range ps {
				all := len(alt) > 0
				for _, p := range alt {
					all = all && p.covers()
				}
				if !all {
					continue
				}
				covered = true
				if len(l.args) == 1 {
					continue
				}
				bad := ""
				for _, p := range alt {
					if bad == "" {
						bad = a.grown(p)
					}
				}
				if bad == "" {
					kept = true
				} else {
					why = bad
				}
			}
			r.check(covered, "covered", name, pos, "funding may succeed with inputs worth less than the outputs and the fee")
			if covered && len(l.args) > 1 {
				r.check(kept, "change", name, pos, "%s", why)
			}
		}
	}
}

// refused checks the error after all UTXOs were used.
func (r *Rep) refused(a *Analysis, ret Ret, pos string) {
	st := ret.st.where(mkNot(a.okWhen(ret)))
	if st == nil {
		return
	}
	tx := a.builderArg()
	var n *Term
	for i, p := range a.fn.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok && isNamed(s.Elem(), "UTXO") {
			n = mkLen(a.args[i])
		}
	}
	l1 := a.list(st, tx, "Inputs")
	for _, l := range leaves(l1) {
		if l.op != "seq" || len(l.args) == 0 {
			continue
		}
		g := l.args[len(l.args)-1]
		s := st.where(whenLeaf(l1, func(x *Term) bool { return x == l }))
		if s == nil || g.op != "map" || !s.proves(mkEqInt(g.args[0], n)) {
			continue
		}
		r.check(s.proves(a.causeIs(a.errOf(ret), "ErrInsufficientValue")), "insufficient", a.fn.Name(), pos, "the error after all UTXOs were used is not ErrInsufficientValue")
	}
}

// grown compares what the outputs gained with what the inputs are worth beyond the outputs and the fee.
func (a *Analysis) grown(p *purse) string {
	tx := a.builderArg()
	j := sym("j")
	txout, _, inside := a.outputAt(tx, j)
	was := a.in.at(a.entry, txout, "Value")
	l1 := a.list(p.st, tx, "MsgTx", "TxOut")
	for _, l := range leaves(l1) {
		st := p.st.where(mkAnd(inside, whenLeaf(l1, func(x *Term) bool { return x == l })))
		if st == nil {
			// no outputs before
			st = p.st.where(whenLeaf(l1, func(x *Term) bool { return x == l }))
		}
		if st == nil {
			continue
		}
		if l.op != "seq" || len(l.args) == 0 || whole(l.args[0]) != whole(a.list(a.entry, tx, "MsgTx", "TxOut").args[0]) {
			return "outputs that existed before are not kept"
		}
		excess := p.excess()
		fits := func(s *State, d *Term, exact bool) bool {
			if exact {
				return s.proves(mkEqInt(plainSizes(mkSub(d, excess)), mkInt(0)))
			}
			return s.proves(mkLe(plainSizes(mkSub(d, excess)), mkInt(0)))
		}
		more := 0
		is := st.simp(a.in.at(st, txout, "Value"))
		for _, x := range leaves(is) {
			s := st.where(whenLeaf(is, func(y *Term) bool { return y == x }))
			if s == nil || x == was || s.proves(mkEqInt(x, was)) {
				continue
			}
			more++
			if !single(s, j) {
				return "several outputs may get the change"
			}
			if !fits(s, mkSub(plain(x), was), true) {
				return "an existing output does not grow by what the inputs are worth beyond the outputs and the fee"
			}
		}
		for _, g := range l.args[1:] {
			if more > 0 {
				return "several outputs may get the change"
			}
			more++
			if g.op == "one" {
				w := st.simp(a.in.at(st, g.args[0], "Value"))
				if !fits(st, plain(w), false) {
					return "an added output is worth more than the inputs are beyond the outputs and the fee"
				}
				continue
			}
			vs := brokenValues(a.in.P, st, g)
			if len(vs) == 0 {
				return "the values of the added outputs are not known"
			}
			for _, v := range vs {
				if !fits(st, plain(v), true) {
					return "the added outputs do not share what the inputs are worth beyond the outputs and the fee"
				}
			}
		}
		if more == 0 && !p.spent(st) {
			return "no output gets what the inputs are worth beyond the outputs and the fee though it is more than dust"
		}
	}
	return ""
}

// single tells whether a state fixes an index.
func single(st *State, j *Term) bool {
	ok := false
	for _, at := range support(st.pc) {
		if contains(at, j) && at.lin == nil && len(at.args) > 0 && at.args[0].lin != nil {
			l := at.args[0].lin
			for i, x := range l.atoms {
				if x == j && (l.coef[i] == 1 || l.coef[i] == -1) && st.proves(mkEqInt(at.args[0], mkInt(0))) {
					ok = true
				}
			}
		}
	}
	return ok
}

// brokenValues are the values whose parts a segment of outputs may be.
func brokenValues(P *Program, st *State, g *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, f := range breakers(P, true) {
		name := fnName(f)
		for _, x := range g.args {
			containsFn(st.simp(x), func(x *Term) bool {
				if x.op == "app" && x.aux == name && len(x.args) > 0 && !seen[x.args[0]] {
					seen[x.args[0]] = true
					out = append(out, x.args[0])
				}
				return false
			})
		}
	}
	return out
}
