package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops are summarised by closed forms in the iteration number K: every value carried around the loop
// is first a symbol, one evaluation of the body relates the value after an iteration to the value
// before it, and recognised recurrences (invariant, additive, accumulated condition, last assignment,
// appended content, element-wise update) replace the symbols. Everything else stays an opaque function
// of K. A final evaluation with the closed forms checks that each of them is inductive.

type lvar struct {
	kind string // phi, loc, cont
	id   string
	phi  *ssa.Phi
	addr *Term // loc
	back *Term // cont
	typ  types.Type

	content bool // slice value tracked by content
	hb      *Term
	fixed   *Term // content length that iterations preserve
	fresh   bool
	nonnil  bool

	init   *Term // initial value; for content the initial content
	sym    *Term
	sol    *Term // closed form over K
	opaque bool
	fails  int
}

type lpat struct{ cond, addr, val *Term }

type lclass struct {
	pats   []lpat
	opaque bool
	lvp    bool // patterns interfere: keep addresses only
	early  bool // decided before the addresses had closed forms
}

// LoopRec describes an analysed loop for the rules.
type LoopRec struct {
	fn     *ssa.Function
	ctx    string
	l      *loop
	k, key *Term
	n      *Term // iterations when the header test ends the loop
	vars   []*lvar
	early  *Term   // condition of leaving early in iteration K
	stays  *Term   // condition of completing iteration K
	next   []*Term // values of vars after iteration K
	pre    *State
	back   *State
}

type loopRun struct {
	in      *Interp
	fr      *Frame
	l       *loop
	pre     *Path
	key, k  *Term
	vars    []*lvar
	classes map[string]*lclass
	fams    map[string]*fam
	ctx     *LoopCtx
	head    *Path
	bound   *Term
}

// fam gives the content of the objects a loop creates, one per iteration.
type fam struct{ pat, cont *Term }

var traceLoops = os.Getenv("VERIF_TRACE") != ""

func famVar(i int) *Term { return mk("famvar", strconv.Itoa(i), tInt) }

// family finds the content of an object created by an earlier iteration of a loop.
func (st *State) family(b *Term) *Term {
	f := st.fams[b.aux]
	if f == nil || len(f.pat.args) != len(b.args) {
		return nil
	}
	m := map[*Term]*Term{}
	for i, a := range f.pat.args {
		if a == famVar(i) {
			m[a] = b.args[i]
			continue
		}
		if a != b.args[i] {
			return nil
		}
	}
	return subst(f.cont, m)
}

func substAll(m map[*Term]*Term) func(*Term) *Term {
	memo := map[*Term]*Term{}
	return func(t *Term) *Term {
		if t == nil {
			return nil
		}
		return substM(t, m, memo)
	}
}

func (in *Interp) loop(fr *Frame, h *loop, es []edge) []edge {
	in.nLoops++
	pre := in.join(fr, h.header, es)
	r := &loopRun{in: in, fr: fr, l: h, pre: pre, classes: map[string]*lclass{}, fams: map[string]*fam{}}
	r.makeKey()
	r.ctx = &LoopCtx{l: h, fr: fr, k: r.k, pre: pre.st, key: r.key}
	for i, ph := range headerPhis(h.header) {
		r.addVar(&lvar{kind: "phi", id: strconv.Itoa(i), phi: ph, typ: ph.Type()}, pre.env[ph])
	}
	in.loops = append(in.loops, r.ctx)
	in.mute++
	for pass := 0; ; pass++ {
		exits, backs := r.body()
		if len(backs) == 0 {
			// the body never repeats
			break
		}
		b := r.joinBack(backs)
		r.findBound(exits)
		if !r.step(b, pass) || pass > 24 {
			if pass > 24 {
				in.lossy[fnName(fr.fn)+" loop"] = true
			}
			break
		}
	}
	in.mute--
	exits, backs := r.body()
	in.loops = in.loops[:len(in.loops)-1]
	if len(backs) > 0 {
		b := r.joinBack(backs)
		if bad := r.verify(b); bad != "" {
			in.lossy[fnName(fr.fn)+" loop not inductive: "+bad] = true
		}
		out := r.leave(exits)
		if in.mute == 0 {
			care := restrict(b.st.pc, pre.st.pc)
			var next []*Term
			for _, v := range r.vars {
				next = append(next, r.backValue(v, b, care))
			}
			in.recs = append(in.recs, &LoopRec{stays: care, next: next, fn: fr.fn, ctx: fr.ctx, l: h, k: r.k, key: r.key, n: r.bound, vars: r.vars, pre: pre.st, back: b.st, early: r.earlyCond(exits)})
		}
		return out
	}
	return r.once(exits)
}

// joinBack is the state at the end of an iteration without the objects that die with it.
func (r *loopRun) joinBack(backs []edge) *Path {
	b := r.in.join(r.fr, r.l.header, backs)
	var roots []*Term
	for _, ph := range headerPhis(r.l.header) {
		roots = append(roots, b.env[ph])
	}
	r.in.gc(b.st, roots, func(o *Term) bool { return contains(o, r.k) })
	return b
}

// once handles a loop whose body never reaches the header again: the iteration number is 0.
func (r *loopRun) once(exits []edge) []edge {
	s := substAll(map[*Term]*Term{r.k: mkInt(0)})
	for i := range exits {
		r.substEdge(&exits[i], s)
	}
	return exits
}

func (r *loopRun) makeKey() {
	in, fr, pre := r.in, r.fr, r.pre
	var args []*Term
	add := func(t *Term) {
		if t != nil {
			args = append(args, t)
		}
	}
	for _, ph := range headerPhis(r.l.header) {
		add(pre.env[ph])
	}
	for _, v := range r.l.liveIn {
		add(in.val(fr, pre, v))
	}
	// memory the loop can see
	st := pre.st.clone()
	in.gc(st, args, func(*Term) bool { return true })
	for _, c := range r.l.reads {
		if v, ok := st.mem[c]; ok {
			add(v)
		}
	}
	var ks []string
	for k := range st.mem {
		if strings.HasPrefix(k, "deref:") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		add(st.mem[k])
	}
	var cs []*Term
	for k := range st.cont {
		cs = append(cs, k)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	for _, c := range cs {
		add(c)
		add(st.cont[c])
	}
	name := fnName(fr.fn)
	if r.l.nondet {
		name = fr.ctx
		args = append(args, in.ks(fr)...)
	}
	r.key = mk("loopkey", name+"#"+strconv.Itoa(r.l.header.Index), nil, args...)
	r.k = mk("k", "", tInt, r.key)
}

func isSliceType(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// addVar starts tracking a loop-carried value.
func (r *loopRun) addVar(v *lvar, init *Term) {
	sargs := []*Term{r.key, r.k}
	if v.addr != nil {
		sargs = append(sargs, v.addr)
	}
	if v.back != nil {
		sargs = append(sargs, v.back)
	}
	if v.kind != "cont" && isSliceType(v.typ) {
		v.content = true
		v.fresh, v.nonnil = true, true
		for _, l := range leaves(init) {
			if !l.isNil() && !fresh(l) {
				v.fresh = false
			}
		}
		if !mkIsNil(init).isFalse() {
			v.nonnil = false
		}
		v.init = r.in.contOf(r.pre.st, init)
		v.sym = mk("lcont", v.kind+v.id, v.typ, sargs...)
		v.hb = mk("hb", v.kind+v.id, v.typ, sargs...)
	} else if v.kind == "cont" {
		v.init = init
		v.sym = mk("lcont", v.kind, nil, sargs...)
		if v.back.op != "alloc" && v.back.op != "fld" {
			v.fixed = mkLen(init)
		}
	} else {
		v.init = init
		v.sym = mkTyped("lphi", v.kind+v.id, v.typ, sargs...)
	}
	r.vars = append(r.vars, v)
}

func (v *lvar) length() *Term {
	if v.fixed != nil {
		return v.fixed
	}
	return mkLen(v.sym)
}

func (v *lvar) contentNow() *Term {
	if v.sol != nil {
		return v.sol
	}
	return lift1(v.length(), func(n *Term) *Term { return mkSeq([]*Term{mkSubSeg(v.sym, mkInt(0), n)}) })
}

// body evaluates one iteration from the current head.
func (r *loopRun) body() (exits, backs []edge) {
	p := r.pre.clone()
	st := p.st
	st.facts = st.facts.assume(mkLe(mkInt(0), r.k))
	for s, f := range r.fams {
		st.fams[s] = f
	}
	// memory
	var cs []string
	for c := range r.classes {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		st.mem[c] = r.headVersion(c, r.pre.st.version(c))
	}
	for _, v := range r.vars {
		val := v.sym
		switch {
		case v.kind == "cont":
			st.cont[v.back] = v.contentNow()
			continue
		case v.content:
			c := v.contentNow()
			st.cont[v.hb] = c
			val = lift1(mkLen(c), func(n *Term) *Term { return mk("slice", "", v.typ, v.hb, mkInt(0), n) })
		case v.sol != nil:
			val = v.sol
		}
		if v.kind == "phi" {
			p.env[v.phi] = val
		} else {
			cl := classOf(v.addr)
			st.mem[cl] = mkStore(st.version(cl), v.addr, val)
		}
	}
	r.head = p.clone()
	return r.in.region(r.fr, r.l, r.l.header, []edge{{path: p}})
}

func (r *loopRun) headVersion(c string, pre *Term) *Term {
	lc := r.classes[c]
	if lc.opaque {
		return mk("lver", c, nil, r.key, r.k)
	}
	if lc.lvp {
		args := []*Term{pre, r.k}
		for _, p := range lc.pats {
			args = append(args, closeBody(p.addr, r.k))
		}
		return lift1(pre, func(pre *Term) *Term {
			return mk("lvp", "", nil, append([]*Term{pre}, args[1:]...)...)
		})
	}
	v := pre
	for _, p := range lc.pats {
		v = mkLst(v, r.k, closeBody(p.cond, r.k), closeBody(p.addr, r.k), closeBody(p.val, r.k))
	}
	return v
}

// mkLst is the memory after writing val(j) to addr(j) for all j < n with cond(j).
func mkLst(pre, n, cond, addr, val *Term) *Term {
	if n.isInt(0) {
		return pre
	}
	return lift1(pre, func(pre *Term) *Term { return mk("lst", "", nil, pre, n, cond, addr, val) })
}

// collect lists the writes a version adds to the head version.
func (r *loopRun) collect(ver *Term, stop map[*Term]bool) ([]lpat, bool) {
	var out []lpat
	ok := true
	budget := 400
	var rec func(v, cond *Term)
	rec = func(v, cond *Term) {
		budget--
		if budget < 0 {
			ok = false
		}
		if stop[v] || !ok || cond.isFalse() {
			return
		}
		switch v.op {
		case "ite":
			rec(v.args[1], mkAnd(cond, asBool(v.args[0])))
			rec(v.args[2], mkAnd(cond, mkNot(asBool(v.args[0]))))
		case "st":
			rec(v.args[0], cond)
			for i, p := range out {
				if p.addr == v.args[1] {
					out[i].val = mkITE(cond, v.args[2], p.val)
					out[i].cond = mkOr(p.cond, cond)
					return
				}
			}
			out = append(out, lpat{cond, v.args[1], v.args[2]})
		case "lst":
			rec(v.args[0], cond)
			any := mk("anyidx", "", tInt, v.args[3])
			out = append(out, lpat{cond, instantiate(v.args[3], any), mk("anyval", "", nil, v)})
		case "lvp":
			rec(v.args[0], cond)
			for _, a := range v.args[2:] {
				any := mk("anyidx", "", tInt, a)
				out = append(out, lpat{cond, instantiate(a, any), mk("anyval", "", nil, v)})
			}
		default:
			ok = false
		}
	}
	rec(ver, termTrue)
	return out, ok
}

// hasAny reports an address with an unknown index; those that only name the loop an object was made in
// do not count.
func hasAny(t *Term) bool {
	if t.op == "anyidx" {
		return true
	}
	if t.op == "loopkey" {
		return false
	}
	found := false
	kids(t, func(a *Term) { found = found || hasAny(a) })
	return found
}

func chainOf(v *Term, stop map[*Term]bool) {
	var rec func(v *Term)
	rec = func(v *Term) {
		if stop[v] {
			return
		}
		stop[v] = true
		switch v.op {
		case "ite":
			rec(v.args[1])
			rec(v.args[2])
		case "st":
			rec(v.args[0])
		}
	}
	rec(v)
}

func (r *loopRun) unsolvedIn(t *Term, allowOpaque bool) bool {
	for _, v := range r.vars {
		if v.sol != nil || allowOpaque && v.opaque {
			continue
		}
		s := symAtom(v.sym)
		if containsFn(t, func(x *Term) bool {
			if x == s || v.hb != nil && x == v.hb {
				return true
			}
			// the symbol of another iteration
			if x.op != s.op && x.op != "hb" || x.aux != s.aux || len(x.args) != len(s.args) || x.args[0] != r.key {
				return false
			}
			for i := 2; i < len(x.args); i++ {
				if x.args[i] != s.args[i] {
					return false
				}
			}
			return true
		}) {
			return true
		}
	}
	return false
}

// dropAtoms removes conditions on a symbol that cannot differ where the iteration is repeated.
func dropAtoms(t, sym, care *Term) *Term {
	for _, a := range support(t) {
		if a == sym || !contains(a, sym) {
			continue
		}
		for _, pol := range []bool{false, true} {
			u := cofactor(t, a, pol)
			eq := lift2(t, u, func(x, y *Term) *Term { return mkBool(x == y) })
			if mkImp(care, eq).isTrue() {
				t = u
				break
			}
		}
	}
	return t
}

// symAtom is the atom below a boolean symbol.
func symAtom(s *Term) *Term {
	if s.op == "ite" {
		return s.args[0]
	}
	return s
}

// step compares the state after an iteration with the head; it reports whether another pass is needed.
func (r *loopRun) step(b *Path, pass int) bool {
	in := r.in
	changed := false
	care := restrict(b.st.pc, r.pre.st.pc)
	if traceLoops {
		fmt.Println("PASS", pass, fnName(r.fr.fn), r.l.header.Index, r.key.id)
		for _, v := range r.vars {
			fmt.Println("   ", v.kind, v.id, v.addr, v.back, "sol", v.sol, v.opaque, "back", r.backValue(v, b, care))
		}
	}
	// newly modified memory
	var cs []string
	for c := range b.st.mem {
		cs = append(cs, c)
	}
	sort.Strings(cs)
	for _, c := range cs {
		bv := b.st.mem[c]
		hv := r.head.st.version(c)
		if bv == hv {
			continue
		}
		lc := r.classes[c]
		if lc != nil && lc.opaque {
			continue
		}
		stop := map[*Term]bool{}
		chainOf(hv, stop)
		chainOf(restrict(hv, b.st.pc), stop)
		if _, known := r.classes[c]; known {
			// the closed form of the head is one node
			stop[r.headVersion(c, r.pre.st.version(c))] = true
		}
		ws, ok := r.collect(restrict(bv, b.st.pc), stop)
		if !ok {
			r.classes[c] = &lclass{opaque: true}
			changed = true
			continue
		}
		var pats []lpat
		for _, w := range ws {
			if !contains(w.addr, r.k) && !hasAny(w.addr) {
				known := false
				for _, v := range r.vars {
					if v.kind == "loc" && v.addr == w.addr {
						known = true
					}
				}
				if !known {
					typ := derefT(w.addr.typ)
					init := in.load(r.pre.st, w.addr, typ)
					r.addVar(&lvar{kind: "loc", addr: w.addr, typ: typ}, init)
					changed = true
				}
				continue
			}
			w.cond = restrict(w.cond, care)
			pats = append(pats, w)
		}
		if len(pats) == 0 {
			continue
		}
		n := &lclass{pats: pats}
		for _, w := range pats {
			n.early = n.early || r.unsolvedIn(w.addr, false)
		}
		if lc != nil && lc.early && !n.early {
			lc = nil
		}
		if lc != nil && lc.lvp || r.in.coarse || !r.layered(pats) {
			n.lvp = true
			n.pats = nil
			var prev []lpat
			if lc != nil && lc.lvp {
				prev = lc.pats
			}
			seen := map[*Term]bool{}
			for _, w := range append(append([]lpat(nil), prev...), pats...) {
				if !seen[w.addr] {
					seen[w.addr] = true
					n.pats = append(n.pats, w)
				}
			}
		}
		if lc == nil || !samePats(lc, n) {
			if lc != nil && pass > 8 {
				n.lvp = true
				if pass > 11 {
					n.opaque = true
				}
			}
			if traceLoops {
				fmt.Println("CLASS", c, len(pats), n.lvp, pats)
			}
			r.classes[c] = n
			changed = true
		}
	}
	// newly modified contents
	var bs []*Term
	for k := range b.st.cont {
		bs = append(bs, k)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].id < bs[j].id })
	for _, k := range bs {
		cv := b.st.cont[k]
		if r.head.st.cont[k] == cv {
			continue
		}
		if k.op == "hb" && r.ownsHB(k) {
			continue
		}
		if contains(k, r.k) {
			f := r.makeFam(k, restrict(cv, care))
			if f != nil && (r.fams[k.aux] == nil || *r.fams[k.aux] != *f) {
				if traceLoops {
					fmt.Println("FAM", f.pat, f.cont)
				}
				r.fams[k.aux] = f
				changed = true
			}
			continue
		}
		known := false
		for _, v := range r.vars {
			if v.kind == "cont" && v.back == k {
				known = true
			}
		}
		if !known {
			init, ok := r.pre.st.cont[k]
			if !ok {
				if f := r.pre.st.family(k); f != nil {
					init = f
				} else {
					init = defaultCont(k)
				}
			}
			r.addVar(&lvar{kind: "cont", back: k}, init)
			changed = true
		}
	}
	for s, f := range b.st.fams {
		if g := r.head.st.fams[s]; g != nil && *g == *f {
			continue
		}
		n := f
		if contains(f.pat, r.k) || contains(f.cont, r.k) {
			n = r.generalise(f)
		}
		if n != nil && (r.fams[s] == nil || *r.fams[s] != *n) {
			if traceLoops {
				fmt.Println("FAM2", f.pat, n.pat, n.cont)
			}
			r.fams[s] = n
			changed = true
		}
	}
	if changed {
		// closed forms found before the new variables existed may be wrong
		for _, v := range r.vars {
			if v.sol != nil && !r.holds(v, b, care) {
				v.sol = nil
			}
		}
		return true
	}
	// refute wrong closed forms
	for _, v := range r.vars {
		if v.sol != nil && !r.holds(v, b, care) {
			if traceLoops {
				fmt.Println("REFUTE", fnName(r.fr.fn), v.kind, v.id, "sol", v.sol, "got", r.backValue(v, b, care), "want", subst1(v.sol, r.k, addInt(r.k, 1)))
			}
			v.sol = nil
			v.fails++
			if v.fails > 2 {
				v.opaque = true
			}
			changed = true
		}
	}
	if changed {
		return true
	}
	for _, allow := range []bool{false, true} {
		for _, v := range r.vars {
			if v.sol != nil || v.opaque {
				continue
			}
			if s := r.solve(v, b, care); s != nil && !r.unsolvedIn(s, allow) {
				v.sol = s
				changed = true
			}
		}
		if changed {
			return true
		}
	}
	// content that does not grow at the end: fall back to a plain value
	for _, v := range r.vars {
		if v.sol == nil && v.content && !v.opaque {
			if s := r.solve(v, b, care); s == nil {
				r.plain(v)
				return true
			}
		}
	}
	for _, v := range r.vars {
		if v.sol == nil && !v.opaque {
			if s := r.solve(v, b, care); s == nil {
				v.opaque = true
				changed = true
			}
		}
	}
	if changed {
		return true
	}
	for _, v := range r.vars {
		if v.sol == nil && !v.opaque {
			v.opaque = true
			return true
		}
	}
	return false
}

// plain stops tracking a slice variable by content.
func (r *loopRun) plain(v *lvar) {
	var init *Term
	if v.kind == "phi" {
		init = r.pre.env[v.phi]
	} else {
		init = r.in.load(r.pre.st, v.addr, v.typ)
	}
	sargs := []*Term{r.key, r.k}
	if v.addr != nil {
		sargs = append(sargs, v.addr)
	}
	v.content, v.hb = false, nil
	v.init = init
	v.sym = mkTyped("lphi", v.kind+v.id, v.typ, sargs...)
}

func (r *loopRun) ownsHB(k *Term) bool {
	for _, v := range r.vars {
		if v.hb == k {
			return true
		}
	}
	return false
}

func (r *loopRun) makeFam(k, cont *Term) *fam {
	return r.generalise(&fam{k, cont})
}

func (r *loopRun) generalise(f *fam) *fam {
	pos := -1
	for i, a := range f.pat.args {
		if a == r.k {
			pos = i
		}
	}
	if pos < 0 {
		return nil
	}
	s := substAll(map[*Term]*Term{r.k: famVar(pos)})
	args := make([]*Term, len(f.pat.args))
	for i, a := range f.pat.args {
		args[i] = a
		if i == pos {
			args[i] = famVar(pos)
		} else if contains(a, r.k) {
			return nil
		}
	}
	pat := mk(f.pat.op, f.pat.aux, f.pat.typ, args...)
	if r.in.coarse {
		c := mk("famcont", "", nil, pat)
		return &fam{pat, mkSeq([]*Term{mkSubSeg(c, mkInt(0), mkLen(c))})}
	}
	return &fam{pat, s(f.cont)}
}

func samePats(a, b *lclass) bool {
	if len(a.pats) != len(b.pats) || a.lvp != b.lvp || a.opaque != b.opaque {
		return false
	}
	for i := range a.pats {
		if a.pats[i].addr != b.pats[i].addr {
			return false
		}
		if !a.lvp && (a.pats[i].cond != b.pats[i].cond || a.pats[i].val != b.pats[i].val) {
			return false
		}
	}
	return true
}

// layered reports whether the writes may be applied pattern by pattern instead of iteration by iteration.
func (r *loopRun) layered(pats []lpat) bool {
	j := mk("k", "other", tInt, r.key)
	for i, p := range pats {
		if hasAny(p.addr) {
			return false
		}
		for q := 0; q <= i; q++ {
			other := subst1(pats[q].addr, r.k, j)
			c, ok := aliasCond(p.addr, other)
			if !ok {
				return false
			}
			if c.isFalse() || !restrict(c, mkEqInt(r.k, j)).isFalse() && mkImp(c, mkEqInt(r.k, j)).isTrue() {
				continue
			}
			return false
		}
	}
	return true
}

// backValue is the value of a variable after one iteration.
func (r *loopRun) backValue(v *lvar, b *Path, care *Term) *Term {
	var t *Term
	switch {
	case v.kind == "cont":
		t = r.in.backCont(b.st, v.back)
	case v.kind == "phi":
		t = b.env[v.phi]
	default:
		t = r.in.load(b.st, v.addr, v.typ)
	}
	if v.content {
		t = r.in.contOf(b.st, t)
	}
	t = restrict(t, care)
	return b.st.simp(t)
}

// holds verifies a closed form: the value after iteration K equals the form at K+1.
func (r *loopRun) holds(v *lvar, b *Path, care *Term) bool {
	want := subst1(v.sol, r.k, addInt(r.k, 1))
	got := r.backValue(v, b, care)
	return r.same(b, got, want)
}

func (r *loopRun) same(b *Path, got, want *Term) bool {
	if got == want {
		return true
	}
	g, w := b.st.simp(got), b.st.simp(want)
	if g == w {
		return true
	}
	if g.op == "ite" || w.op == "ite" {
		eq := lift2(g, w, func(x, y *Term) *Term {
			if x == y {
				return termTrue
			}
			return termFalse
		})
		return b.st.simp(eq).isTrue()
	}
	return false
}

func (r *loopRun) verify(b *Path) string {
	care := restrict(b.st.pc, r.pre.st.pc)
	for _, v := range r.vars {
		if v.sol != nil && !r.holds(v, b, care) {
			return fmt.Sprintf("%s%s %v", v.kind, v.id, v.addr)
		}
	}
	return ""
}

// solve recognises the recurrence of a variable.
func (r *loopRun) solve(v *lvar, b *Path, care *Term) *Term {
	t := r.backValue(v, b, care)
	k := r.k
	if v.kind == "cont" || v.content {
		return r.solveContent(v, t, b)
	}
	if t == v.sym {
		return v.init
	}
	sym := symAtom(v.sym)
	t = dropAtoms(t, sym, care)
	if isBoolType(v.typ) {
		hi, lo := cofactor(t, sym, true), cofactor(t, sym, false)
		if contains(hi, sym) || contains(lo, sym) {
			return nil
		}
		switch {
		case hi == lo:
			return mkITE(mkEqInt(k, mkInt(0)), v.init, subst1(hi, k, addInt(k, -1)))
		case hi.isTrue():
			return mkOr(v.init, mkExists(k, closeBody(lo, k)))
		case lo.isFalse():
			return mkAnd(v.init, mkNot(mkExists(k, closeBody(mkNot(hi), k))))
		}
		return nil
	}
	if isIntegerType(v.typ) {
		bad := false
		mod := false
		d := lift1(t, func(l *Term) *Term {
			if l.op == "mod" {
				mod = true
				l = ideal(l)
			}
			return lift1(l, func(l *Term) *Term {
				x := mkSub(l, v.sym)
				if contains(x, sym) {
					bad = true
				}
				return x
			})
		})
		if !bad && !contains(d, sym) {
			if d == mkInt(0) {
				return v.init
			}
			s := mkAdd(ideal(v.init), mkSum(k, closeBody(d, k)))
			if isUnsignedType(v.typ) && (mod || !nonneg(s)) {
				return lift1(s, func(s *Term) *Term {
					if nonneg(s) {
						return s
					}
					return mkMod(s, v.typ)
				})
			}
			return s
		}
	}
	if s := r.settles(v, t, sym); s != nil {
		return s
	}
	// assigned under a condition
	c := whenLeaf(t, func(l *Term) bool { return l != v.sym })
	x := restrict(t, c)
	if contains(x, sym) || contains(c, sym) {
		return nil
	}
	if c.isTrue() {
		return mkITE(mkEqInt(k, mkInt(0)), v.init, subst1(x, k, addInt(k, -1)))
	}
	cb := closeBody(c, k)
	return mkITE(mkExists(k, cb), subst1(x, k, mkLast(k, cb)), v.init)
}

// settles recognises a variable that is assigned at most once: new = c(old) ? d : old with an invariant
// d that does not satisfy c.
func (r *loopRun) settles(v *lvar, t, sym *Term) *Term {
	if t.op != "ite" {
		return nil
	}
	var d *Term
	for _, l := range leaves(t) {
		if l == v.sym {
			continue
		}
		if d != nil && d != l || contains(l, sym) || contains(l, r.k) {
			return nil
		}
		d = l
	}
	if d == nil || !contains(t, sym) {
		return nil
	}
	c := whenLeaf(t, func(l *Term) bool { return l != v.sym })
	if !contains(c, sym) {
		return nil
	}
	at := func(x *Term) *Term { return subst(c, map[*Term]*Term{v.sym: x}) }
	if !r.pre.st.simp(at(d)).isFalse() {
		return nil
	}
	return mkITE(mkExists(r.k, closeBody(at(v.init), r.k)), d, v.init)
}

func (r *loopRun) solveContent(v *lvar, t *Term, b *Path) *Term {
	in, k := r.in, r.k
	head := v.contentNow()
	if t == head {
		return v.init
	}
	if head.op != "seq" || len(head.args) > 1 {
		return nil
	}
	if len(head.args) == 0 { // fixed length zero
		return v.init
	}
	hs := head.args[0]
	bad := false
	grow := lift1(t, func(l *Term) *Term {
		if l.op != "seq" || len(l.args) == 0 || l.args[0] != hs {
			bad = true
			return l
		}
		rest := mkSeq(l.args[1:])
		if contains(rest, v.sym) {
			bad = true
		}
		return rest
	})
	if !bad && !contains(grow, v.sym) {
		return catSeq(v.init, mkMap(k, closeBody(grow, k)))
	}
	// element-wise: sym[0:e] ++ one(v) ++ sym[e+1:n]
	n := v.length()
	var off *Term
	bad = false
	val := lift1(t, func(l *Term) *Term {
		if l == head {
			return mk("marker", "same", nil)
		}
		if l.op != "seq" || segsLen(l.args) != n {
			bad = true
			return l
		}
		var e, x *Term
		acc := mkInt(0)
		for _, g := range l.args {
			end := mkAdd(acc, segLen(g))
			switch {
			case g.op == "one" && x == nil:
				e, x = acc, g.args[0]
			case g.op == "sub" && g.args[0] == v.sym && g.args[1] == acc && g.args[2] == end:
			default:
				bad = true
			}
			acc = end
		}
		if x == nil || off != nil && off != e {
			bad = true
			return l
		}
		off = e
		return mk("marker", "v", nil, x)
	})
	if bad || off == nil {
		return nil
	}
	a := mkSub(off, k)
	if contains(a, k) || contains(a, v.sym) {
		return nil
	}
	val = lift1(val, func(m *Term) *Term {
		typ := types.Type(nil)
		if m.aux == "v" {
			return m.args[0]
		}
		for _, l := range leaves(val) {
			if l.aux == "v" {
				typ = l.args[0].typ
			}
		}
		return in.elemAt(b.st, v.init, off, typ)
	})
	// the element itself is still the initial one
	val = substFn(val, func(t *Term) *Term {
		if t.op == "elem" && t.args[0] == v.sym && t.args[1] == off {
			return in.elemAt(b.st, v.init, off, t.typ)
		}
		return nil
	})
	if contains(val, v.sym) {
		return nil
	}
	st := b.st
	pre := in.cut(st, v.init, mkInt(0), a)
	post := in.cut(st, v.init, mkAdd(a, k), mkLen(v.init))
	mid := mkMap(k, closeBody(lift1(val, func(x *Term) *Term { return mkSeq([]*Term{mkOne(x)}) }), k))
	return catSeq(pre, catSeq(mid, post))
}

// substFn rewrites subterms (outermost first) for which f yields a replacement.
func substFn(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil {
			return nil
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if x := f(t); x != nil {
			r = x
		} else if len(t.args) == 0 && t.lin == nil {
			r = t
		} else {
			r = rebuildWith(t, func(_ int, a *Term) *Term { return rec(a) })
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// ---- leaving the loop ----

// boundOf recognises the exit condition K >= n and returns n.
func (r *loopRun) boundOf(c *Term) *Term {
	if c.op == "ite" {
		for _, a := range support(c) {
			if contains(a, r.k) {
				continue
			}
			// cases that do not depend on the iteration
			side := func(pol bool) *Term {
				d := cofactor(c, a, pol)
				switch {
				case d.isTrue():
					return mkInt(0)
				case d.isFalse():
					return nil
				}
				return r.boundOf(d)
			}
			x, y := side(true), side(false)
			if x == nil || y == nil {
				return nil
			}
			return mkITE(asBool(a), x, y)
		}
	}
	ls := essential(c)
	if len(ls) != 1 || ls[0].term() != c {
		return nil
	}
	l := ls[0]
	var lin Lin
	switch l.atom.op {
	case "le0":
		lin = toLin(l.atom.args[0])
		if !l.pos { // not (x <= 0): x >= 1: 1 - x <= 0
			lin = linCombine(lin, -1, Lin{}, 0)
			lin.c++
		}
	case "eq0":
		if !l.pos {
			return nil
		}
		lin = toLin(l.atom.args[0])
	default:
		return nil
	}
	var kc int64
	rest := Lin{c: lin.c}
	for i, a := range lin.atoms {
		if a == r.k {
			kc = lin.coef[i]
			continue
		}
		if contains(a, r.k) {
			return nil
		}
		rest = linCombine(rest, 1, atomLin(a, lin.coef[i]), 1)
	}
	if l.atom.op == "eq0" && kc == 1 { // K + rest == 0
		rest = linCombine(rest, -1, Lin{}, 0)
		kc = -1
	}
	if kc >= 0 {
		return nil
	}
	if kc != -1 {
		// -d*K + rest <= 0 : K >= ceil(rest/d)
		d := -kc
		rest.c += d - 1
		n := fromLin(rest, tInt)
		return mk("bin", "/", tInt, n, mkInt(d))
	}
	return fromLin(rest, tInt) // K >= rest
}

func (r *loopRun) rel(e edge) *Term { return restrict(e.path.st.pc, r.pre.st.pc) }

func (r *loopRun) findBound(exits []edge) {
	r.bound = nil
	for _, e := range exits {
		if e.ret != nil {
			continue
		}
		n := r.boundOf(r.rel(e))
		if n == nil {
			continue
		}
		st := r.pre.st
		if !nonneg(n) && !st.facts.entailsLin(linCombine(toLin(n), -1, Lin{}, 0)) {
			n = st.simp(mkITE(mkLe(mkInt(0), n), n, mkInt(0)))
		}
		r.bound = n
		r.ctx.bound = n
		return
	}
}

func (r *loopRun) isNormal(e edge) bool {
	return e.ret == nil && r.bound != nil && r.boundOf(r.rel(e)) != nil
}

func (r *loopRun) earlyCond(exits []edge) *Term {
	c := termFalse
	for _, e := range exits {
		if !r.isNormal(e) {
			c = mkOr(c, r.rel(e))
		}
	}
	if r.bound != nil {
		c = restrict(c, mkLt(r.k, r.bound))
	}
	return c
}

func (r *loopRun) leave(exits []edge) []edge {
	r.findBound(exits)
	c := r.earlyCond(exits)
	if r.bound != nil {
		c = r.pre.st.facts.assume(mkLe(mkInt(0), r.k)).assume(mkLt(r.k, r.bound)).simplify(c)
	}
	var out []edge
	if r.bound == nil {
		x := mk("exitk", "", tInt, r.key)
		s := substAll(r.exitMap(x))
		for i := range exits {
			e := exits[i]
			g := s(restrict(r.rel(e), c))
			r.finish(&e, s, g)
			out = append(out, e)
		}
		return out
	}
	cb := closeBody(c, r.k)
	x := mkExists(r.bound, cb)
	mu := mkFirst(r.bound, cb)
	same := true
	var to *ssa.BasicBlock
	for _, e := range exits {
		if e.ret != nil || to != nil && e.to != to {
			same = false
		}
		to = e.to
	}
	normK := r.bound
	if same && !c.isFalse() {
		normK = mu
	}
	sn := substAll(r.exitMap(normK))
	se := substAll(r.exitMap(mu))
	for i := range exits {
		e := exits[i]
		if r.isNormal(e) {
			base := r.pre.st.simp(mkNot(x))
			if base.isFalse() {
				continue
			}
			r.finish(&e, sn, base)
			out = append(out, e)
			continue
		}
		if c.isFalse() || x.isFalse() {
			continue
		}
		g := mkAnd(x, se(restrict(r.rel(e), c)))
		if g.isFalse() {
			continue
		}
		r.finish(&e, se, g)
		e.path.st.facts = e.path.st.facts.assume(mkLe(mkInt(0), mu)).assume(mkLt(mu, r.bound))
		out = append(out, e)
	}
	return out
}

// exitMap replaces the iteration number and the content holders of the head.
func (r *loopRun) exitMap(x *Term) map[*Term]*Term {
	m := map[*Term]*Term{r.k: x}
	for _, v := range r.vars {
		if v.hb != nil {
			suffix := ""
			if !v.fresh {
				suffix += "~"
			}
			if !v.nonnil {
				suffix += "?"
			}
			id := v.id
			args := r.in.ks(r.fr)
			if v.addr != nil {
				id += strconv.Itoa(v.addr.id)
			}
			m[v.hb] = mk("back", r.fr.ctx+"@"+strconv.Itoa(r.l.header.Index)+"x"+v.kind+id+suffix, v.typ, args...)
		}
	}
	return m
}

// finish turns an edge inside the loop into one after it.
func (r *loopRun) finish(e *edge, s func(*Term) *Term, cond *Term) {
	r.substEdge(e, s)
	st := e.path.st
	st.pc = mkAnd(r.pre.st.pc, cond)
	st.facts = st.facts.assume(cond)
	st.facts = st.facts.assume(st.pc)
}

func (r *loopRun) substEdge(e *edge, s func(*Term) *Term) {
	p := e.path
	st := &State{pc: s(p.st.pc), mem: map[string]*Term{}, cont: map[*Term]*Term{}, fams: map[string]*fam{}}
	for k, v := range p.st.mem {
		st.mem[k] = s(v)
	}
	var ks []*Term
	for k := range p.st.cont {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	for _, k := range ks {
		st.cont[s(k)] = s(p.st.cont[k])
	}
	for k, f := range p.st.fams {
		st.fams[k] = &fam{s(f.pat), s(f.cont)}
		if *st.fams[k] == *f {
			st.fams[k] = f
		}
	}
	st.facts = r.pre.st.facts
	for _, l := range p.st.facts.since(r.pre.st.facts) {
		t := s(l.term())
		if !t.isTrue() && !t.isFalse() {
			st.facts = st.facts.assume(t)
		}
	}
	env := make(map[ssa.Value]*Term, len(p.env))
	for k, v := range p.env {
		env[k] = s(v)
	}
	e.path = &Path{st: st, env: env, defers: p.defers}
	if e.vals != nil {
		vals := make([]*Term, len(e.vals))
		for i, v := range e.vals {
			vals[i] = s(v)
		}
		e.vals = vals
	}
}
