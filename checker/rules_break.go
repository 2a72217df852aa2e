package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// breakers are the exported functions that make a list of parts: outputs for a list of recipients, or
// quantities.
func breakers(P *Program, outputs bool) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.exported(P.lib) {
		res := f.Signature.Results()
		if f.Signature.Recv() != nil || res.Len() == 0 || f.Signature.Params().Len() == 0 {
			continue
		}
		s, ok := res.At(0).Type().Underlying().(*types.Slice)
		if !ok || !isKind(types.Uint64)(f.Params[0].Type()) {
			continue
		}
		p, isPtr := s.Elem().(*types.Pointer)
		if isPtr && isNamed(p.Elem(), "Output") || !outputs && isKind(types.Uint64)(s.Elem()) {
			out = append(out, f)
		}
	}
	return out
}

// part is a generic element of the returned list, in the order of creation.
type part struct {
	st   *State
	at   *Term // position in the order of creation
	n    *Term // number of parts
	elem *Term
	seg  int
	q    *Term // position in the segment, nil for single elements
	flat *Term
}

// unpermuted replaces permuted parts of a sequence by what was permuted.
func unpermuted(l *Term) []*Term {
	var out []*Term
	for _, g := range l.args {
		if g.op == "sub" && g.args[0].op == "perm" && g.args[1].isInt(0) && g.args[2] == mkLen(g.args[0].args[0]) {
			out = append(out, unpermuted(g.args[0].args[0])...)
			continue
		}
		out = append(out, g)
	}
	return out
}

// parts are the elements of a returned list. The name tells generic positions apart.
func (a *Analysis) parts(ret Ret, name string, visit func(leaf *State, n *Term, ps []part)) {
	st := ret.st.where(a.okWhen(ret))
	if st == nil {
		return
	}
	l1 := st.simp(a.in.contOf(st, ret.vals[0]))
	typ := a.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	for _, l := range leaves(l1) {
		s2 := st.where(whenLeaf(l1, func(x *Term) bool { return x == l }))
		if s2 == nil {
			continue
		}
		if l.op != "seq" {
			visit(s2, mkLen(l), []part{{st: s2, elem: l, at: mkInt(0), n: mkLen(l)}})
			continue
		}
		segs := unpermuted(l)
		flat, n := mkSeq(segs), mkInt(0)
		for _, g := range segs {
			n = mkAdd(n, segLen(g))
		}
		for _, g := range segs {
			s2.assumeAll(mkLe(mkInt(0), segLen(g)))
		}
		off := mkInt(0)
		var ps []part
		for i, g := range segs {
			p := part{st: s2, at: off, n: n, seg: i, flat: flat}
			off = mkAdd(off, segLen(g))
			if g.op != "one" {
				p.q = sym(name + strconv.Itoa(i))
				p.st = s2.clone()
				p.st.assumeAll(mkLe(mkInt(0), p.q), mkLt(p.q, segLen(g)))
				p.at = mkAdd(p.at, p.q)
			}
			p.elem = p.st.simp(a.in.elemAt(p.st, flat, p.at, typ))
			ps = append(ps, p)
		}
		visit(s2, n, ps)
	}
}

// ---- P24 ----

// entryOf is the position of the entry of the list of recipients that a script belongs to.
func entryOf(list, s *Term) (*Term, *recipient) {
	r := recipientOf(s)
	e := whole(s)
	if r != nil {
		e = r.entry
	}
	if e.op != "elem" || e.args[0] != list {
		return nil, nil
	}
	return e.args[1], r
}

func ruleP24(r *Rep) {
	r.rule("recipient", "the script of each part is that of an entry of the list of recipients")
	r.rule("key", "the key identifier of each part is the one given with the entry it pays")
	r.rule("once", "parts at different positions pay entries at different positions")
	r.rule("remainder", "only the part created last can be marked as remainder, and only if that was asked for")
	for _, f := range breakers(r.P, true) {
		name := shortFn(f)
		a := r.analysis(f.Name(), "break", none)
		if a == nil {
			continue
		}
		var list, last *Term
		for i, p := range f.Params {
			if s, ok := p.Type().Underlying().(*types.Slice); ok && (isNamed(s.Elem(), "Script") || hasKeyID(s.Elem())) {
				list = a.args[i]
			}
			if isKind(types.Bool)(p.Type()) && (last == nil || strings.Contains(strings.ToLower(p.Name()), "remainder")) {
				last = asBool(a.args[i])
			}
		}
		if list == nil || last == nil {
			continue
		}
		for _, ret := range a.rets {
			pos := a.pos(ret.instr)
			a.parts(ret, "p", func(leaf *State, n *Term, ps []part) {
				entry := make([]*Term, len(ps))
				for i, p := range ps {
					st := p.st
					script := st.simp(a.in.contTerm(st, a.in.at(st, p.elem, "TxOut", "LockingScript")))
					key := a.in.at(st, p.elem, "Supplement", "KeyID")
					okS, okK := true, true
					entry[i] = lift1(script, func(s *Term) *Term {
						when := st.where(whenLeaf(script, func(x *Term) bool { return x == s }))
						e, to := entryOf(list, s)
						if when == nil {
							return mkInt(-1)
						}
						if e == nil {
							okS = false
							return mkInt(-1)
						}
						if to != nil {
							k := when.simp(key)
							okK = okK && (k == to.key || a.sameValue(when, k, to.key))
						}
						return e
					})
					r.check(okS, "recipient", name, pos, "a part pays %v", script)
					r.check(okK, "key", name, pos, "a part has the key identifier %v, its script is %v", st.simp(key), script)
					if !okS {
						entry[i] = nil
					}
					rem := st.simp(asBool(a.in.at(st, p.elem, "Supplement", "IsRemainder")))
					r.check(st.proves(mkImp(rem, mkAnd(last, mkEqInt(p.at, mkSub(p.n, mkInt(1)))))), "remainder", name, pos, "a part that is not the last, or any although not asked for, may be marked as remainder: %v", rem)
				}
				for i, p := range ps {
					for k := i; k < len(ps); k++ {
						if entry[i] == nil || entry[k] == nil || i == k && p.q == nil {
							continue
						}
						st, e := leaf.clone(), entry[k]
						if p.q != nil {
							st.assumeAll(mkLe(mkInt(0), p.q), mkLt(p.q, p.segEnd()))
						}
						if i == k {
							q2 := sym("p" + strconv.Itoa(i) + "'")
							st.assumeAll(mkLt(p.q, q2), mkLt(q2, p.segEnd()))
							e = subst1(e, p.q, q2)
						} else if ps[k].q != nil {
							st.assumeAll(mkLe(mkInt(0), ps[k].q), mkLt(ps[k].q, ps[k].segEnd()))
						}
						r.check(st.proves(mkNot(mkEqInt(entry[i], e))), "once", name, pos, "two parts may pay the same entry: positions %v and %v", entry[i], e)
					}
				}
			})
		}
	}
	for _, x := range []struct {
		rule string
		n    int
	}{{"recipient", 4}, {"key", 2}, {"once", 4}, {"remainder", 4}} {
		r.atLeast(x.rule, x.n)
	}
}

func (p part) segEnd() *Term { return segLen(p.flat.args[p.seg]) }

func hasKeyID(t types.Type) bool {
	s, _ := structOf(t)
	for i := 0; s != nil && i < s.NumFields(); i++ {
		if s.Field(i).Name() == "KeyID" {
			return true
		}
	}
	return false
}

// ---- P23 ----

// account is what a breaking function has left before each round of its loop.
type account struct {
	rec  *LoopRec
	at   func(j *Term) *Term
	next func(j *Term) *Term
}

// accounts are the loop variables that start with the value to break, or with zero and are counted up
// towards it.
func (a *Analysis) accounts(value *Term) []*account {
	var out []*account
	for _, rec := range a.recs {
		rec := rec
		for i, v := range rec.vars {
			if v.kind == "cont" || v.content || v.init == nil || v.sym == nil || !isKind(types.Uint64)(v.typ) {
				continue
			}
			cur, nx := v.sym, rec.next[i]
			if v.sol != nil {
				cur = v.sol
			}
			switch {
			case v.init == value:
			case v.init.isInt(0):
				cur, nx = mkMod(mkSub(value, cur), v.typ), mkMod(mkSub(value, nx), v.typ)
			default:
				continue
			}
			sub := func(t *Term) func(j *Term) *Term {
				return func(j *Term) *Term { return subst1(t, rec.k, j) }
			}
			out = append(out, &account{rec, sub(cur), sub(nx)})
		}
	}
	return out
}

func ruleP23(r *Rep) {
	r.rule("taken", "each part and its fee are exactly what the loop takes off what is left, and no more than that")
	r.rule("rest", "the part created last gets what is left in the end, unless that is at most the cost of a part")
	r.rule("none", "no part at all is returned only if the value is at most the cost of a part")
	for _, f := range breakers(r.P, false) {
		if a := r.analysis(f.Name(), "break", none); a != nil {
			r.conserved(a)
		}
	}
	r.atLeast("taken", 6)
	r.atLeast("rest", 6)
	r.atLeast("none", 3)
}

type obligation struct {
	ok                bool
	rule, pos, detail string
}

func (r *Rep) conserved(a *Analysis) {
	name := shortFn(a.fn)
	accs := a.accounts(a.args[0])
	var best []obligation
	fails := -1
	for _, acc := range accs {
		obs := r.conservedBy(a, acc)
		n := 0
		for _, o := range obs {
			if !o.ok {
				n++
			}
		}
		if fails < 0 || n < fails {
			best, fails = obs, n
		}
	}
	if fails < 0 {
		r.check(false, "taken", name, r.P.posOf(a.fn.Pos()), "no loop was found that takes parts off the value")
	}
	for _, o := range best {
		r.check(o.ok, o.rule, name, o.pos, "%s", o.detail)
	}
}

func (r *Rep) conservedBy(a *Analysis, acc *account) []obligation {
	var obs []obligation
	outputs := !isKind(types.Uint64)(a.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem())
	var rate, list *Term
	subtract := termFalse
	cost := "zzAddressCost"
	for i, p := range a.fn.Params {
		switch t := p.Type().Underlying().(type) {
		case *types.Slice:
			list = a.args[i]
			if isNamed(t.Elem(), "Script") {
				cost = "zzScriptCost"
			}
		case *types.Basic:
			switch {
			case t.Kind() == types.Float32: // the rate for dust comes before it
				rate = a.args[i]
			case t.Kind() == types.Bool: // the mark of the remainder comes before it
				subtract = asBool(a.args[i])
			}
		}
	}
	costAt := func(i *Term) *Term {
		if !outputs {
			return mkInt(0)
		}
		return r.refAt(cost, list, i, rate)[0]
	}
	feeOf := func(st *State, p part) *Term {
		if !outputs {
			return mkInt(0)
		}
		script := st.simp(a.in.contTerm(st, a.in.at(st, p.elem, "TxOut", "LockingScript")))
		fee := lift1(script, func(s *Term) *Term { return r.refAt("zzOutputTotalCost", whole(s), rate)[0] })
		return st.simp(mkITE(subtract, fee, mkInt(0)))
	}
	valueOf := func(st *State, p part) *Term {
		if !outputs {
			return st.simp(p.elem)
		}
		return st.simp(a.in.at(st, p.elem, "TxOut", "Value"))
	}
	if acc.rec.n == nil {
		return []obligation{{false, "taken", r.P.posOf(a.fn.Pos()), "the number of rounds is not known"}}
	}
	early := closeBody(acc.rec.early, acc.rec.k)
	completed := func(st *State, rounds, t *Term) bool {
		if !st.proves(mkLt(t, rounds)) {
			return false
		}
		st.narrow(subst1(acc.rec.stays, acc.rec.k, t))
		return true
	}
	for _, ret := range a.rets {
		pos := a.pos(ret.instr)
		a.parts(ret, "p", func(leaf *State, n *Term, ps []part) {
			bound := leaf.simp(acc.rec.n)
			rounds, first := bound, leaf.simp(mkFirst(bound, early))
			if !acc.rec.early.isFalse() && !leaf.proves(mkNot(mkExists(rounds, early))) {
				rounds = first
			}
			settle := func(st *State, v *Term) *Term {
				if rounds != first {
					v = st.simp(subst1(v, first, rounds))
				}
				return v
			}
			// the number of rounds as it may be written
			forms := []*Term{rounds, first, mkITE(mkExists(bound, early), first, bound), mkFirst(acc.rec.n, early), acc.rec.n}
			small := func(st *State) bool {
				for _, n := range forms {
					for _, m := range forms {
						if st.proves(mkLe(acc.at(n), costAt(m))) {
							return true
						}
					}
				}
				return false
			}
			if none := mkEqInt(n, mkInt(0)); !leaf.proves(mkNot(none)) {
				empty := leaf.clone()
				empty.assumeAll(none)
				ok := empty.proves(mkEqInt(rounds, mkInt(0))) && small(empty)
				obs = append(obs, obligation{ok, "none", pos, "no part may be returned although the value is worth one"})
			}
			for _, p := range ps {
				// not the last one
				if st := p.st.clone(); !st.proves(mkLe(p.n, addInt(p.at, 1))) {
					st.assumeAll(mkLt(addInt(p.at, 1), p.n))
					obs = append(obs, obligation{completed(st, rounds, p.at) && acc.takes(st, p.at, settle(st, valueOf(st, p)), settle(st, feeOf(st, p))), "taken", pos, "a part before the last and its fee may differ from what is taken off, or be more than is left"})
				}
				// the last one: what holds of a generic position is used for it
				gen := p.st.clone()
				last := mkEqInt(addInt(p.at, 1), p.n)
				if gen.proves(mkNot(last)) {
					continue
				}
				made := completed(gen, rounds, p.at)
				covered := made && gen.proves(mkLe(feeOf(gen, p), acc.at(p.at)))
				gen.assumeAll(last)
				same := made && gen.proves(mkEqInt(rounds, p.n))
				st := leaf.clone()
				if p.q != nil {
					q := mkSub(addInt(p.n, -1), mkSub(p.at, p.q))
					p.at = addInt(p.n, -1)
					st.assumeAll(mkLe(mkInt(0), q))
					p.elem = st.simp(subst1(p.elem, p.q, q))
				}
				v, fee := settle(st, valueOf(st, p)), settle(st, feeOf(st, p))
				for _, n := range forms {
					covered = covered || st.proves(mkEqInt(n, p.at)) && st.proves(mkLe(fee, acc.at(n)))
				}
				ok := acc.takesAll(st, p.at, v, fee, covered) || covered && acc.takesAllAfter(st, p.at, v, fee) ||
					same && acc.takes(st, p.at, v, fee) && small(st)
				obs = append(obs, obligation{ok, "rest", pos, "the last part may not get what is left"})
			}
		})
	}
	return obs
}

// takes decides whether a part and its fee are what round t takes off the account. Sums are compared
// modulo the word size, which is exact because the part and the fee are no more than what was there.
func (acc *account) takes(st *State, t, v, fee *Term) bool {
	w := mkAdd(v, fee)
	was, is := st.simp(acc.at(t)), st.simp(acc.next(t))
	if !st.proves(mkEqInt(mkAdd(plain(w), plain(is)), plain(was))) {
		return false
	}
	if st.proves(mkLe(w, was)) {
		return true
	}
	// the fee first
	if !st.proves(mkLe(fee, was)) {
		return false
	}
	for _, l := range leaves(fee) {
		s := st.where(whenLeaf(fee, func(x *Term) bool { return x == l }))
		if s == nil {
			continue
		}
		was := s.simp(was)
		s.assumeAll(mkLe(l, was))
		if !s.proves(mkLe(mkAdd(s.simp(v), l), was)) {
			return false
		}
	}
	return true
}

// takesAll decides whether a part and its fee are all that is left before round t. Covered tells that the
// fee is no more than that.
func (acc *account) takesAll(st *State, t, v, fee *Term, covered bool) bool {
	was := st.simp(acc.at(t))
	v = acc.known(st, v)
	return st.proves(mkEqInt(mkAdd(v, fee), was)) || covered && st.proves(mkEqInt(mkAdd(plain(st.simp(v)), fee), plain(was)))
}

// takesAllAfter is takesAll for a part that round t made, with a fee that was covered, and that got the
// rest afterwards.
func (acc *account) takesAllAfter(st *State, t, v, fee *Term) bool {
	was, is := st.simp(acc.at(t)), st.simp(acc.next(t))
	v = plain(st.simp(acc.known(st, v)))
	v = subst1(v, st.simp(plain(acc.at(addInt(t, 1)))), plain(is))
	return st.proves(mkEqInt(mkAdd(plain(st.simp(v)), fee), plain(was)))
}

// plain strips all reductions from a sum.
func plain(t *Term) *Term {
	for i := 0; i < 4; i++ {
		n := ideal(t)
		if n == t {
			break
		}
		t = n
	}
	return t
}

// known simplifies the rounds at which a term refers to the account.
func (acc *account) known(st *State, v *Term) *Term {
	m := map[*Term]*Term{}
	containsFn(v, func(x *Term) bool {
		if x.op == "lphi" && len(x.args) > 1 && x.args[0] == acc.rec.key {
			if k := st.simp(x.args[1]); k != x.args[1] && k.op != "ite" {
				args := append([]*Term(nil), x.args...)
				args[1] = k
				m[x] = mkTyped("lphi", x.aux, x.typ, args...)
			}
		}
		return false
	})
	if len(m) == 0 {
		return v
	}
	return subst(v, m)
}
