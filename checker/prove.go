package main

import "strconv"

// Deciding conditions where an abstract state holds: the tests of the diagram are pruned with the
// facts, and quantified facts are instantiated at the indexes that occur.

type prover struct {
	steps   int
	max     int
	witness []Lit
	hints   []*Term // index terms quantified facts are instantiated at
	nsk     int
}

// refute reports whether cond cannot hold together with the facts.
func (pv *prover) refute(fs *Fact, cond *Term, depth int) bool {
	pv.steps++
	if pv.max == 0 {
		pv.max = 20000
	}
	if pv.steps > pv.max {
		return false
	}
	if cond.isFalse() {
		return true
	}
	if cond.op != "ite" {
		if pv.instRefute(fs, depth) {
			return true
		}
		if pv.witness == nil {
			pv.witness = fs.all()
		}
		return false
	}
	a := cond.args[0]
	switch fs.holdsAtom(a) {
	case 1:
		return pv.refute(fs, cond.args[1], depth)
	case 0:
		return pv.refute(fs, cond.args[2], depth)
	}
	for i, pos := range []bool{true, false} {
		if cond.args[1+i].isFalse() {
			continue
		}
		if !pv.refute(fs.assumeLit(Lit{a, pos}), cond.args[1+i], depth) {
			return false
		}
	}
	return true
}

// instRefute looks for a contradiction among the facts with quantified literals instantiated.
func (pv *prover) instRefute(fs *Fact, depth int) bool {
	if contradicts(fs) {
		return true
	}
	if depth <= 0 {
		return false
	}
	cond := termTrue
	lits := fs.all()
	hints := append([]*Term(nil), pv.hints...)
	have := map[*Term]bool{}
	for _, h := range hints {
		have[h] = true
	}
	seen := map[*Term]bool{}
	var firsts []*Term
	var find func(t *Term)
	find = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if (t.op == "first" || t.op == "last") && t.free == 0 {
			firsts = append(firsts, t)
		}
		kids(t, find)
	}
	for _, l := range lits {
		find(l.atom)
		if l.pos && l.atom.op == "exists" {
			sk := mk("skolem", strconv.Itoa(l.atom.id), tInt)
			if !have[sk] {
				have[sk] = true
				hints = append(hints, sk)
			}
			cond = mkAnds(cond, mkLe(mkInt(0), sk), mkLt(sk, l.atom.args[0]), asBool(instantiate(l.atom.args[1], sk)))
		}
	}
	for _, f := range firsts {
		ex := mkExists(f.args[0], f.args[1])
		body := mkAnds(mkLt(f, f.args[0]), mkLe(mkInt(0), f), asBool(instantiate(f.args[1], f)))
		cond = mkAnd(cond, mkImp(ex, body))
		if !have[f] {
			have[f] = true
			hints = append(hints, f)
		}
	}
	for _, l := range lits {
		if !l.pos && l.atom.op == "exists" {
			for _, h := range hints {
				in := mkAnd(mkLe(mkInt(0), h), mkLt(h, l.atom.args[0]))
				cond = mkAnd(cond, mkImp(in, mkNot(asBool(instantiate(l.atom.args[1], h)))))
			}
		}
	}
	cond = fs.simplify(cond)
	if cond.isTrue() {
		return false
	}
	old := pv.hints
	pv.hints = hints
	r := pv.refute(fs, cond, depth-1)
	pv.hints = old
	return r
}

// contradicts looks for literals that exclude each other, also modulo known equalities.
func contradicts(fs *Fact) bool {
	lits := fs.all()
	var ground *Fact
	for _, l := range lits {
		switch ground.holdsAtom(l.atom) {
		case 1:
			if !l.pos {
				return true
			}
		case 0:
			if l.pos {
				return true
			}
		}
		ground = ground.assumeLit(l)
	}
	m := map[*Term]*Term{}
	for _, l := range lits {
		if !l.pos {
			continue
		}
		switch l.atom.op {
		case "eq":
			a, b := l.atom.args[0], l.atom.args[1]
			if !contains(b, a) && !contains(a, b) {
				if a.size < b.size || (a.size == b.size && a.id < b.id) {
					a, b = b, a
				}
				m[a] = b
			}
		case "eq0":
			x := toLin(l.atom.args[0])
			for i, a := range x.atoms {
				if x.coef[i] == 1 || x.coef[i] == -1 {
					rest := linCombine(x, -x.coef[i], atomLin(a, 1), 1)
					rt := fromLin(rest, a.typ)
					if !contains(rt, a) && (len(rest.atoms) == 0 || a.op == "skolem" || len(x.atoms) == 2 && a.size >= rt.size) {
						m[a] = rt
						break
					}
				}
			}
		}
	}
	seen := map[*Term]bool{}
	var find func(t *Term)
	find = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "mod" && t.free == 0 && m[t] == nil && ground.simplify(mkLe(mkInt(0), t.args[0])).isTrue() {
			m[t] = t.args[0]
		}
		kids(t, find)
	}
	for _, l := range lits {
		find(l.atom)
	}
	if len(m) == 0 {
		return false
	}
	var fs2 *Fact
	cond := termTrue
	changed := false
	for _, l := range lits {
		t := l.term()
		n := asBool(subst(t, m))
		if n != t {
			changed = true
		}
		cond = mkAnd(cond, n)
		if cond.isFalse() {
			return true
		}
	}
	if !changed {
		return false
	}
	for _, l := range essential(cond) {
		switch fs2.holdsAtom(l.atom) {
		case 1:
			if !l.pos {
				return true
			}
		case 0:
			if l.pos {
				return true
			}
		}
		fs2 = fs2.assumeLit(l)
	}
	return fs2.simplify(cond).isFalse()
}

// proves reports whether goal holds wherever the state does.
func (st *State) proves(goal *Term, hints ...*Term) bool {
	ok, _ := st.proveW(goal, hints...)
	return ok
}

func (st *State) proveW(goal *Term, hints ...*Term) (bool, []Lit) {
	bad := mkNot(st.simp(asBool(goal)))
	if bad.isFalse() {
		return true, nil
	}
	pv := &prover{hints: hints}
	// the goal's own tests first: they are few, and the path condition is only needed to prune
	if pv.refuteIn(st.facts, bad, st.pc) {
		return true, nil
	}
	if g := st.unwrap(bad); g != bad {
		if g.isFalse() {
			return true, nil
		}
		pv := &prover{hints: hints}
		if pv.refuteIn(st.facts, g, st.pc) {
			return true, nil
		}
	}
	return false, pv.witness
}

// unwrap replaces modular differences that cannot be negative where the state holds.
func (st *State) unwrap(t *Term) *Term {
	for round := 0; round < 4; round++ {
		m := map[*Term]*Term{}
		seen := map[*Term]bool{}
		var find func(t *Term)
		find = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			kids(t, find)
			if t.op == "mod" && t.free == 0 && !containsFn(t.args[0], func(x *Term) bool { return x.op == "mod" }) {
				pv := &prover{}
				if pv.refuteIn(st.facts, mkLt(t.args[0], mkInt(0)), st.pc) {
					m[t] = t.args[0]
				}
			}
		}
		find(t)
		if len(m) == 0 {
			return t
		}
		t = st.simp(subst(t, m))
	}
	return t
}

// refuteIn splits on cond first, then on the rest of the path condition.
func (pv *prover) refuteIn(fs *Fact, cond, pc *Term) bool {
	pv.steps++
	if cond.isFalse() {
		return true
	}
	if cond.op != "ite" {
		if pv.instRefute(fs, 2) {
			return true
		}
		return pv.refute(fs, fs.simplify(pc), 2)
	}
	a := cond.args[0]
	switch fs.holdsAtom(a) {
	case 1:
		return pv.refuteIn(fs, cond.args[1], pc)
	case 0:
		return pv.refuteIn(fs, cond.args[2], pc)
	}
	for i, pos := range []bool{true, false} {
		if cond.args[1+i].isFalse() {
			continue
		}
		p := cofactor(pc, a, pos)
		if p.isFalse() {
			continue
		}
		if !pv.refuteIn(fs.assumeLit(Lit{a, pos}), cond.args[1+i], p) {
			return false
		}
	}
	return true
}

// feasible reports whether the state may hold together with a condition (no refutation found).
func (st *State) feasible(cond *Term) bool {
	ok, _ := st.proveW(mkNot(cond))
	return !ok
}

// Case is a part of a state in which the given values have no tests left.
type Case struct {
	st   *State
	vals []*Term
}

// cases splits a state so that the values are free of tests.
func (st *State) cases(vals ...*Term) []Case {
	s := make([]*Term, len(vals))
	for i, v := range vals {
		s[i] = st.simp(v)
	}
	tup := liftN(s, func(a []*Term) *Term { return mk("tuple", "", nil, a...) })
	tup = st.simp(tup)
	var out []Case
	for _, l := range leaves(tup) {
		c := whenLeaf(tup, func(t *Term) bool { return t == l })
		n := st.clone()
		if !n.narrow(c) {
			continue
		}
		out = append(out, Case{n, l.args})
	}
	return out
}

// where narrows a copy of the state; nil if unreachable.
func (st *State) where(c *Term) *State {
	n := st.clone()
	if !n.narrow(c) {
		return nil
	}
	if !n.feasible(termTrue) {
		return nil
	}
	return n
}

// provesAt proves a goal for any j by looking first at the indexes the goal compares j with, and at any
// other index.
func (st *State) provesAt(goal, j *Term) bool {
	g := st.simp(asBool(goal))
	rest := g
	n := 0
	for _, at := range support(g) {
		if at.op != "eq0" {
			continue
		}
		l := toLin(at.args[0])
		for i, x := range l.atoms {
			var v *Term
			switch {
			case x == j && l.coef[i] == 1:
				v = mkSub(j, at.args[0])
			case x == j && l.coef[i] == -1:
				v = mkAdd(j, at.args[0])
			default:
				continue
			}
			if n++; n > 6 || !st.proves(subst1(g, j, v)) {
				return st.proves(goal, j)
			}
			rest = cofactor(rest, at, false)
		}
	}
	return n > 0 && st.proves(rest, j) || st.proves(goal, j)
}
