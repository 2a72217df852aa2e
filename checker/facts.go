package main

// Fact is one literal known to hold; fact sets are persistent lists.
type Fact struct {
	lit  Lit
	prev *Fact
	n    int
	set  map[Lit]bool
	memo map[*Term]int
}

var feeDepth int

func (fs *Fact) index() map[Lit]bool {
	if fs == nil {
		return nil
	}
	if fs.set == nil {
		fs.set = make(map[Lit]bool, fs.n)
		for f := fs; f != nil; f = f.prev {
			fs.set[f.lit] = true
		}
	}
	return fs.set
}

func (fs *Fact) has(l Lit) bool { return fs.index()[l] }

func (fs *Fact) len() int {
	if fs == nil {
		return 0
	}
	return fs.n
}

// since lists the literals added after base, oldest first.
func (fs *Fact) since(base *Fact) []Lit {
	var out []Lit
	for f := fs; f != nil && f != base; f = f.prev {
		out = append(out, f.lit)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (fs *Fact) all() []Lit { return fs.since(nil) }

func (fs *Fact) push(l Lit) *Fact {
	if fs.has(l) {
		return fs
	}
	return &Fact{lit: l, prev: fs, n: fs.len() + 1}
}

// assume adds the literals implied by a condition.
func (fs *Fact) assume(c *Term) *Fact {
	for _, l := range essential(c) {
		fs = fs.assumeLit(l)
	}
	return fs
}

// assumeLit adds a literal and the inequalities tightened by disequalities.
func (fs *Fact) assumeLit(l Lit) *Fact {
	if fs.has(l) {
		return fs
	}
	fs = fs.push(l)
	if l.atom.op != "eq0" && l.atom.op != "le0" {
		return fs
	}
	// x != 0 with x <= 0 gives x <= -1 (and symmetric)
	for f := fs; f != nil; f = f.prev {
		if f.lit.pos || f.lit.atom.op != "eq0" {
			continue
		}
		l := toLin(f.lit.atom.args[0])
		for _, s := range []int64{1, -1} {
			d := linCombine(l, s, Lin{}, 0)
			d1 := d
			d1.c++
			for _, e := range essential(mkLe0(d1)) {
				if !fs.has(e) && fs.entailsLin(d) {
					fs = fs.push(e)
				}
			}
		}
	}
	return fs
}

// The numeric domain: linear inequalities over terms, decided by elimination with a size cap.

type ineq struct { // sum coef*atom + c <= 0
	m map[*Term]int64
	c int64
}

func toIneq(l Lin) ineq {
	r := ineq{m: map[*Term]int64{}, c: l.c}
	for i, a := range l.atoms {
		r.m[a] = l.coef[i]
	}
	return r
}

// litIneqs turns a literal into linear inequalities, if it is one.
func litIneqs(l Lit) []ineq {
	switch l.atom.op {
	case "le0":
		x := toLin(l.atom.args[0])
		if l.pos {
			return []ineq{toIneq(x)}
		}
		n := linCombine(x, -1, Lin{}, 0)
		n.c++
		return []ineq{toIneq(n)}
	case "eq0":
		if l.pos {
			x := toLin(l.atom.args[0])
			return []ineq{toIneq(x), toIneq(linCombine(x, -1, Lin{}, 0))}
		}
	}
	return nil
}

// atomLemmas yields inequalities that hold for an atom by its construction.
func atomLemmas(a *Term) []ineq {
	var out []ineq
	if nonneg(a) {
		out = append(out, ineq{m: map[*Term]int64{a: -1}})
	}
	switch a.op {
	case "app":
		if a.aux == "varint" {
			out = append(out, ineq{m: map[*Term]int64{a: -1}, c: 1}, ineq{m: map[*Term]int64{a: 1}, c: -9})
		}
		if a.aux == "pi" {
			// a position of the permuted list; it is only read where the list has one
			l := linCombine(atomLin(a, 1), 1, toLin(a.args[2]), -1)
			l.c++
			out = append(out, toIneq(l))
		}
	case "first":
		if nonneg(a.args[0]) {
			out = append(out, toIneq(linCombine(atomLin(a, 1), 1, toLin(a.args[0]), -1)))
		}
	case "bin":
		if a.aux == "/" {
			if d, ok := a.args[1].intVal(); ok && d >= 1 && nonneg(a.args[0]) {
				// d*q <= x < d*q + d
				l := linCombine(atomLin(a, 1), d, toLin(a.args[0]), -1)
				out = append(out, toIneq(l))
				u := linCombine(l, -1, Lin{}, 0)
				u.c += 1 - d
				out = append(out, toIneq(u))
			}
		}
		if a.aux == "%" {
			if d, ok := a.args[1].intVal(); ok && d >= 1 && nonneg(a.args[0]) {
				out = append(out, ineq{m: map[*Term]int64{a: 1}, c: 1 - d})
			}
		}
	case "ite":
		// bounds over constant leaves
		lo, hi, ok := int64(0), int64(0), true
		for i, l := range leaves(a) {
			v, isC := l.intVal()
			if !isC {
				ok = false
				break
			}
			if i == 0 || v < lo {
				lo = v
			}
			if i == 0 || v > hi {
				hi = v
			}
		}
		if ok {
			out = append(out, ineq{m: map[*Term]int64{a: -1}, c: lo}, ineq{m: map[*Term]int64{a: 1}, c: -hi})
		}
	}
	return out
}

// feeArg recognises uint64(ceil(float(x)*r)) and returns x, r.
func feeArg(a *Term) (*Term, *Term, bool) {
	if a.op != "conv" || len(a.args) != 1 {
		return nil, nil, false
	}
	c := a.args[0]
	if c.op != "app" || len(c.args) != 1 || (c.aux != "math.Ceil" && c.aux != "math.Floor") {
		return nil, nil, false
	}
	m := c.args[0]
	if m.op != "bin" || m.aux != "*" {
		return nil, nil, false
	}
	for i := 0; i < 2; i++ {
		x, r := m.args[i], m.args[1-i]
		if x.op == "conv" && x.args[0].typ != nil && isIntegerType(x.args[0].typ) {
			return x.args[0], r, true
		}
	}
	return nil, nil, false
}

// entailsLin reports whether the facts entail goal <= 0.
func (fs *Fact) entailsLin(goal Lin) bool {
	if len(goal.atoms) == 0 {
		return goal.c <= 0
	}
	if allNonneg(goal, -1) && goal.c <= 0 {
		return true
	}
	// negated goal: goal >= 1  i.e. -goal + 1 <= 0
	neg := linCombine(goal, -1, Lin{}, 0)
	neg.c++
	return infeasible(fs.allIneqs(), toIneq(neg), fs)
}

func (fs *Fact) allIneqs() []ineq {
	var out []ineq
	for f := fs; f != nil; f = f.prev {
		out = append(out, litIneqs(f.lit)...)
	}
	return out
}

func infeasible(facts []ineq, extra ineq, fs *Fact) bool {
	// relevance closure
	rel := map[*Term]bool{}
	var queue []*Term
	add := func(a *Term) {
		if !rel[a] {
			rel[a] = true
			queue = append(queue, a)
		}
	}
	for a := range extra.m {
		add(a)
	}
	sys := []ineq{extra}
	used := make([]bool, len(facts))
	for len(queue) > 0 && len(sys) <= 80 {
		a := queue[0]
		queue = queue[1:]
		for _, l := range atomLemmas(a) {
			sys = append(sys, l)
			for b := range l.m {
				add(b)
			}
		}
		for i, f := range facts {
			if used[i] {
				continue
			}
			if _, hit := f.m[a]; !hit {
				continue
			}
			used[i] = true
			sys = append(sys, f)
			for b := range f.m {
				add(b)
			}
		}
	}
	// monotone fees: x >= y => fee(x) >= fee(y)
	var fees []*Term
	for a := range rel {
		if _, _, ok := feeArg(a); ok {
			fees = append(fees, a)
		}
	}
	if len(fees) >= 2 && len(fees) <= 6 && feeDepth < 2 {
		feeDepth++
		for _, a := range fees {
			for _, b := range fees {
				if a == b {
					continue
				}
				xa, ra, _ := feeArg(a)
				xb, rb, _ := feeArg(b)
				if ra != rb || a.args[0].aux != b.args[0].aux {
					continue
				}
				if fs.entailsLin(linCombine(toLin(xb), 1, toLin(xa), -1)) {
					sys = append(sys, ineq{m: map[*Term]int64{b: 1, a: -1}})
				}
			}
		}
		feeDepth--
	}
	return fm(sys)
}

// fm reports whether the system of inequalities is (rationally) infeasible.
func fm(sys []ineq) bool {
	for {
		// constant contradictions
		var work []ineq
		seen := map[string]bool{}
		for _, q := range sys {
			for a, k := range q.m {
				if k == 0 {
					delete(q.m, a)
				}
			}
			if len(q.m) == 0 {
				if q.c > 0 {
					return true
				}
				continue
			}
			q = normIneq(q)
			key := ineqKey(q)
			if seen[key] {
				continue
			}
			seen[key] = true
			work = append(work, q)
		}
		sys = work
		if len(sys) == 0 {
			return false
		}
		// pick the variable with the smallest product of occurrences
		pos, neg := map[*Term]int{}, map[*Term]int{}
		for _, q := range sys {
			for a, k := range q.m {
				if k > 0 {
					pos[a]++
				} else {
					neg[a]++
				}
			}
		}
		var best *Term
		bestCost := -1
		for _, q := range sys {
			for a := range q.m {
				c := pos[a] * neg[a]
				if bestCost < 0 || c < bestCost || (c == bestCost && a.id < best.id) {
					best, bestCost = a, c
				}
			}
		}
		var next, ps, ns []ineq
		for _, q := range sys {
			k := q.m[best]
			switch {
			case k > 0:
				ps = append(ps, q)
			case k < 0:
				ns = append(ns, q)
			default:
				next = append(next, q)
			}
		}
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := p.m[best], -n.m[best]
				r := ineq{m: map[*Term]int64{}, c: p.c*kn + n.c*kp}
				for a, k := range p.m {
					r.m[a] += k * kn
				}
				for a, k := range n.m {
					r.m[a] += k * kp
				}
				delete(r.m, best)
				next = append(next, r)
			}
		}
		if len(next) > 1500 {
			return false
		}
		sys = next
	}
}

func normIneq(q ineq) ineq {
	g := int64(0)
	for _, k := range q.m {
		g = gcd(g, abs64(k))
	}
	if g <= 1 {
		return q
	}
	n := ineq{m: map[*Term]int64{}, c: ceilDiv(q.c, g)}
	for a, k := range q.m {
		n.m[a] = k / g
	}
	return n
}

func ineqKey(q ineq) string {
	l := Lin{c: q.c}
	for a, k := range q.m {
		l = linCombine(l, 1, atomLin(a, k), 1)
	}
	b := make([]byte, 0, 64)
	b = appendInt(b, l.c)
	for i, a := range l.atoms {
		b = append(b, '+')
		b = appendInt(b, l.coef[i])
		b = append(b, '*')
		b = appendInt(b, int64(a.id))
	}
	return string(b)
}

// ---- literals ----

// holdsAtom decides an atom under the facts: 1 true, 0 false, -1 unknown.
func (fs *Fact) holdsAtom(t *Term) int {
	if fs == nil {
		return atomAlone(t)
	}
	if r, ok := fs.memo[t]; ok {
		return r
	}
	r := fs.holdsAtom1(t)
	if fs.memo == nil {
		fs.memo = map[*Term]int{}
	}
	fs.memo[t] = r
	return r
}

func atomAlone(t *Term) int {
	var fs *Fact
	return fs.holdsAtom1(t)
}

func (fs *Fact) holdsAtom1(t *Term) int {
	if fs.has(Lit{t, true}) {
		return 1
	}
	if fs.has(Lit{t, false}) {
		return 0
	}
	switch t.op {
	case "le0":
		l := toLin(t.args[0])
		if fs.entailsLin(l) {
			return 1
		}
		n := linCombine(l, -1, Lin{}, 0)
		n.c++
		if fs.entailsLin(n) {
			return 0
		}
	case "eq0":
		l := toLin(t.args[0])
		m := linCombine(l, -1, Lin{}, 0)
		l1, m1 := l, m
		l1.c++
		m1.c++
		a, b := fs.entailsLin(l), fs.entailsLin(m)
		if a && b {
			return 1
		}
		if a && fs.entailsLin(l1) || b && fs.entailsLin(m1) {
			return 0
		}
	case "isnil":
		return fs.nilAtom(t)
	case "eq":
		// distinct constants known equal to one side
		a, b := t.args[0], t.args[1]
		if ca, cb := fs.constOf(a), fs.constOf(b); ca != nil && cb != nil && ca != cb {
			return 0
		} else if ca != nil && ca == cb {
			return 1
		}
		if a.op == "errglobal" || b.op == "errglobal" {
			x := a
			if a.op == "errglobal" {
				x = b
			}
			for x.op == "app" && x.aux == "cause" {
				x = x.args[0]
			}
			if n := mkIsNil(x); n.op == "ite" && fs.decide(n) == 1 {
				return 0
			}
		}
	}
	return -1
}

// decide evaluates a condition diagram: 1 true, 0 false, -1 unknown.
func (fs *Fact) decide(c *Term) int {
	c = fs.simplify(asBool(c))
	if c.isTrue() {
		return 1
	}
	if c.isFalse() {
		return 0
	}
	return -1
}

// simplify removes tests decided by the facts.
func (fs *Fact) simplify(t *Term) *Term {
	if t.op != "ite" {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op != "ite" {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		switch fs.holdsAtom(t.args[0]) {
		case 1:
			r = rec(t.args[1])
		case 0:
			r = rec(t.args[2])
		default:
			r = iteNode(t.args[0], rec(t.args[1]), rec(t.args[2]))
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// constOf finds a constant or error sentinel the facts say t equals.
func (fs *Fact) constOf(t *Term) *Term {
	if t.isConst() || t.op == "errglobal" {
		return t
	}
	for f := fs; f != nil; f = f.prev {
		if f.lit.pos && f.lit.atom.op == "eq" {
			a, b := f.lit.atom.args[0], f.lit.atom.args[1]
			if a == t && (b.isConst() || b.op == "errglobal") {
				return b
			}
			if b == t && (a.isConst() || a.op == "errglobal") {
				return a
			}
		}
	}
	return nil
}

func (fs *Fact) nilAtom(n *Term) int {
	t := n.args[0]
	for f := fs; f != nil; f = f.prev {
		at := f.lit.atom
		if at.op == "eq" && f.lit.pos {
			a, b := at.args[0], at.args[1]
			for _, p := range [][2]*Term{{a, b}, {b, a}} {
				x := p[0]
				if x.op == "app" && x.aux == "cause" {
					x = x.args[0]
				}
				if x == t && isErrConst(p[1]) {
					return 0
				}
			}
		}
		// a positive length excludes nil
		if at.op == "le0" && !f.lit.pos {
			l := toLin(at.args[0])
			if len(l.atoms) == 1 && l.coef[0] > 0 && l.c <= 0 && l.atoms[0].op == "len" && l.atoms[0].args[0] == t {
				return 0
			}
		}
	}
	return -1
}

// nilness: 1 nil, 0 non-nil, -1 unknown.
func (fs *Fact) nilness(t *Term) int { return fs.decide(mkIsNil(t)) }
