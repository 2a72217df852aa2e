package main

import (
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// State is the abstract state at one program point: the condition under which the point is reached,
// literals known there, the memory (one version term per struct field or type) and the contents of
// slices and writers. States are joined wherever control flow merges.
type State struct {
	pc    *Term
	facts *Fact
	mem   map[string]*Term // memory class -> version
	cont  map[*Term]*Term  // backing store -> content
	fams  map[string]*fam  // allocation site -> content of the objects of earlier iterations
}

func newState() *State {
	return &State{pc: termTrue, mem: map[string]*Term{}, cont: map[*Term]*Term{}, fams: map[string]*fam{}}
}

func (st *State) clone() *State {
	n := *st
	n.mem = make(map[string]*Term, len(st.mem)+4)
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.cont = make(map[*Term]*Term, len(st.cont)+4)
	for k, v := range st.cont {
		n.cont[k] = v
	}
	n.fams = make(map[string]*fam, len(st.fams))
	for k, v := range st.fams {
		n.fams[k] = v
	}
	return &n
}

// simp simplifies a value where the state holds.
func (st *State) simp(t *Term) *Term {
	if t.op != "ite" {
		return t
	}
	t = restrict(t, st.pc)
	return st.facts.simplify(t)
}

// narrow adds a condition; it reports false when the point becomes unreachable.
func (st *State) narrow(c *Term) bool {
	c = st.simp(asBool(c))
	if c.isTrue() {
		return true
	}
	if c.isFalse() {
		return false
	}
	st.pc = mkAnd(st.pc, c)
	if st.pc.isFalse() {
		return false
	}
	if f := st.facts.simplify(st.pc); f.isFalse() {
		return false
	}
	st.facts = st.facts.assume(c)
	st.facts = st.facts.assume(st.pc)
	return true
}

// settle drops from the memory what a test just passed rules out.
func (st *State) settle() {
	for k, v := range st.mem {
		if v.op == "ite" {
			st.mem[k] = st.simp(v)
		}
	}
	for k, v := range st.cont {
		if v.op == "ite" {
			st.cont[k] = st.simp(v)
		}
	}
	for k, f := range st.fams {
		if f.cont != nil && f.cont.op == "ite" {
			if c := st.simp(f.cont); c != f.cont {
				st.fams[k] = &fam{f.pat, c}
			}
		}
	}
}

// ---- addresses ----

var fieldNames = map[string]string{}

func fieldName(t *Term) string {
	if n, ok := fieldNames[t.aux]; ok {
		return n[strings.LastIndex(n, ".")+1:]
	}
	return t.aux
}

func structKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Path() })
}

func mkFieldAddr(base *Term, styp types.Type, i int) *Term {
	s := styp.Underlying().(*types.Struct)
	key := structKey(styp) + "#" + strconv.Itoa(i)
	if _, ok := fieldNames[key]; !ok {
		fieldNames[key] = structKey(styp) + "." + s.Field(i).Name()
	}
	pt := types.NewPointer(s.Field(i).Type())
	return lift1(base, func(b *Term) *Term { return mk("fld", key, pt, b) })
}

// className gives the printable Type.Field of an address.
func className(addr *Term) string {
	if addr.op == "fld" {
		return fieldNames[addr.aux]
	}
	return classOf(addr)
}

func classOf(addr *Term) string {
	switch addr.op {
	case "fld":
		return addr.aux
	case "global":
		return "global:" + addr.aux
	}
	return "deref:" + typeStr(derefT(addr.typ))
}

func typeStr(t types.Type) string {
	if t == nil {
		return "?"
	}
	return structKey(t)
}

func derefT(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func rootOf(addr *Term) *Term {
	for {
		switch addr.op {
		case "fld", "idx", "slice":
			addr = addr.args[0]
		default:
			return addr
		}
	}
}

// deepRoot follows loads and elements down to the parameter, global, alloc or call it stems from.
func deepRoot(t *Term) *Term {
	for {
		switch t.op {
		case "fld", "idx", "slice", "load", "elem", "field", "sub", "ext", "iface":
			t = t.args[0]
		default:
			return t
		}
	}
}

// fresh reports an object created by the analysed code.
func fresh(t *Term) bool {
	r := rootOf(t)
	return r.op == "alloc" || r.op == "back" && !strings.Contains(r.aux, "~")
}

// mentionsSite reports whether t may evaluate to an object of the given allocation site.
func mentionsSite(t *Term, site string) bool {
	m := siteMemo[site]
	if m == nil {
		m = map[*Term]bool{}
		siteMemo[site] = m
	}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil {
			return false
		}
		if len(t.args) == 0 && t.lin == nil {
			return t.op == "alloc" && t.aux == site
		}
		if r, ok := m[t]; ok {
			return r
		}
		r := t.op == "alloc" && t.aux == site
		for _, a := range t.args {
			if r {
				break
			}
			r = rec(a)
		}
		m[t] = r
		return r
	}
	return rec(t)
}

var siteMemo = map[string]map[*Term]bool{}

// aliasCond is the condition under which two pointers are the same object; ok is false when unknown.
// Objects reached through different arguments or different globals, and the elements of one slice of
// pointers, are assumed to be distinct objects.
func aliasCond(a, b *Term) (*Term, bool) {
	if a == b {
		return termTrue, true
	}
	if a.op == "fld" && b.op == "fld" {
		if a.aux != b.aux {
			return termFalse, true
		}
		return aliasCond(a.args[0], b.args[0])
	}
	if a.op == "alloc" && b.op == "alloc" {
		if a.aux != b.aux || len(a.args) != len(b.args) {
			return termFalse, true
		}
		c := termTrue
		for i := range a.args {
			c = mkAnd(c, mkEqInt(a.args[i], b.args[i]))
		}
		return c, true
	}
	if b.op == "alloc" {
		a, b = b, a
	}
	if a.op == "alloc" {
		if b.op == "fld" || b.op == "param" || b.op == "global" || !mentionsSite(b, a.aux) {
			return termFalse, true
		}
		return nil, false
	}
	if a.op == "elem" && b.op == "elem" {
		if a.args[0] == b.args[0] {
			return mkEqInt(a.args[1], b.args[1]), true
		}
	}
	if a.op == "idx" && b.op == "idx" && a.args[0] == b.args[0] {
		return mkEqInt(a.args[1], b.args[1]), true
	}
	if a.op == "fld" || b.op == "fld" {
		// an object embedded in another one
		if a.typ != nil && b.typ != nil && (a.op == "param" || b.op == "param") {
			return termFalse, true
		}
	}
	ra, rb := deepRoot(a), deepRoot(b)
	if ra != rb && stable(ra) && stable(rb) {
		return termFalse, true
	}
	if ra == rb && (a == ra || b == rb) && stable(ra) && a.typ != nil && b.typ != nil {
		// an argument and something reached through it
		return termFalse, true
	}
	return nil, false
}

func stable(t *Term) bool {
	return t.op == "param" || t.op == "global" || t.op == "fv" || t.op == "alloc"
}

// solveIndex finds the index e such that pattern(j) is the address exactly for j == e.
// The result is (e, guard, ok); e nil with guard false means the pattern never matches.
func solveIndex(pat, addr *Term) (*Term, *Term, bool) {
	addr = shiftUp(addr, 1)
	c, ok := aliasCond(pat, addr)
	if !ok {
		return nil, nil, false
	}
	if c.isFalse() {
		return nil, termFalse, true
	}
	// c must be a conjunction with one literal j == e
	lits := essential(c)
	chk := termTrue
	for _, l := range lits {
		chk = mkAnd(chk, l.term())
	}
	if chk != c {
		return nil, nil, false
	}
	var e *Term
	guard := termTrue
	for _, l := range lits {
		if !usesBV(l.atom) {
			guard = mkAnd(guard, Lit{unbind(l.atom), l.pos}.term())
			continue
		}
		if !l.pos || e != nil {
			return nil, nil, false
		}
		var lin Lin
		switch l.atom.op {
		case "eq0":
			lin = toLin(l.atom.args[0])
		case "le0": // j <= 0 for j >= 0
			lin = toLin(l.atom.args[0])
			if len(lin.atoms) != 1 || lin.atoms[0] != bv0 || lin.c != 0 {
				return nil, nil, false
			}
		default:
			return nil, nil, false
		}
		var k int64
		rest := Lin{c: lin.c}
		for i, a := range lin.atoms {
			if a == bv0 {
				k = lin.coef[i]
				continue
			}
			if usesBV(a) {
				return nil, nil, false
			}
			rest = linCombine(rest, 1, atomLin(a, lin.coef[i]), 1)
		}
		switch k {
		case 1:
			e = unbind(fromLin(linCombine(rest, -1, Lin{}, 0), tInt))
		case -1:
			e = unbind(fromLin(rest, tInt))
		default:
			return nil, nil, false
		}
	}
	if e == nil {
		return nil, nil, false
	}
	return e, guard, true
}

func ver0() *Term { return mk("ver0", "", nil) }

func (st *State) version(class string) *Term {
	if v, ok := st.mem[class]; ok {
		return v
	}
	return ver0()
}

type loadKey struct{ a, v *Term }

var loadMemo = map[loadKey]*Term{}

// mkLoad reads an address in a memory version.
func mkLoad(addr, ver *Term, typ types.Type) *Term {
	key := loadKey{addr, ver}
	if r, ok := loadMemo[key]; ok {
		return r
	}
	r := lift2(addr, ver, func(a, v *Term) *Term { return loadLeaf(a, v, typ) })
	loadMemo[key] = r
	return r
}

func loadLeaf(addr, ver *Term, typ types.Type) *Term {
	asB := func(t *Term) *Term {
		if isBoolType(typ) {
			return asBool(t)
		}
		return t
	}
	for {
		switch ver.op {
		case "st":
			a := ver.args[1]
			if a == addr {
				return ver.args[2]
			}
			c, ok := aliasCond(a, addr)
			if !ok {
				return asB(mk("load", "", typ, addr, ver))
			}
			if c.isFalse() {
				ver = ver.args[0]
				if ver.op == "ite" {
					return mkLoad(addr, ver, typ)
				}
				continue
			}
			return mkITE(c, ver.args[2], mkLoad(addr, ver.args[0], typ))
		case "lst":
			e, g, ok := solveIndex(ver.args[3], addr)
			if !ok {
				return asB(mk("load", "", typ, addr, ver))
			}
			prev := mkLoad(addr, ver.args[0], typ)
			if g.isFalse() {
				return prev
			}
			g = mkAnds(g, mkLe(mkInt(0), e), mkLt(e, ver.args[1]), instantiate(ver.args[2], e))
			if g.isFalse() {
				return prev
			}
			return mkITE(g, instantiate(ver.args[4], e), prev)
		case "lvp":
			// version at iteration K of a loop whose earlier iterations wrote the listed addresses
			for _, p := range ver.args[2:] {
				if !usesBV(p) {
					c, ok := aliasCond(unbind(p), addr)
					if !ok || !c.isFalse() {
						return asB(mk("load", "", typ, addr, ver))
					}
					continue
				}
				e, g, ok := solveIndex(p, addr)
				if !ok {
					return asB(mk("load", "", typ, addr, ver))
				}
				if g.isFalse() {
					continue
				}
				g = mkAnds(g, mkLe(mkInt(0), e), mkLt(e, ver.args[1]))
				if !g.isFalse() {
					return asB(mk("load", "", typ, addr, ver))
				}
			}
			ver = ver.args[0]
			if ver.op == "ite" {
				return mkLoad(addr, ver, typ)
			}
			continue
		case "ver0":
			if rootOf(addr).op == "alloc" {
				return zeroOf(typ)
			}
		}
		return asB(mk("load", "", typ, addr, ver))
	}
}

func structOf(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok || atomicStruct(t) {
		return nil, false
	}
	return s, true
}

// idxRoot finds the slice element an address lies in.
func idxRoot(addr *Term) *Term {
	for addr.op == "fld" {
		addr = addr.args[0]
	}
	if addr.op == "idx" {
		return addr
	}
	return nil
}

func (in *Interp) load(st *State, addr *Term, typ types.Type) *Term {
	return st.simp(lift1(st.simp(addr), func(a *Term) *Term { return in.load1(st, a, typ) }))
}

func (in *Interp) load1(st *State, addr *Term, typ types.Type) *Term {
	if s, ok := structOf(typ); ok && addr.op != "idx" {
		fs := make([]*Term, s.NumFields())
		for i := range fs {
			fs[i] = in.load(st, mkFieldAddr(addr, typ, i), s.Field(i).Type())
		}
		return mkStruct(typ, fs)
	}
	if ix := idxRoot(addr); ix != nil {
		if arr := arrayAddr(ix.args[0]); arr != nil {
			v := in.load(st, ix.args[0], arr)
			return in.fieldPath(in.elemAt(st, in.arrCont(v, arr), ix.args[1], derefT(ix.typ)), addr, typ)
		}
		v := in.readElem(st, ix.args[0], ix.args[1], derefT(ix.typ))
		return in.fieldPath(v, addr, typ)
	}
	if addr.op == "global" {
		if isErrorType(typ) {
			return mk("errglobal", addr.aux, typ)
		}
	}
	return mkLoad(addr, st.version(classOf(addr)), typ)
}

// fieldPath projects the value of a slice element along the field address.
func (in *Interp) fieldPath(v, addr *Term, typ types.Type) *Term {
	var path []*Term
	for a := addr; a.op == "fld"; a = a.args[0] {
		path = append(path, a)
	}
	for i := len(path) - 1; i >= 0; i-- {
		v = mkField(v, fieldIdx(path[i]), derefT(path[i].typ))
	}
	return v
}

func fieldIdx(addr *Term) string { return addr.aux[strings.LastIndex(addr.aux, "#")+1:] }

// arrayAddr returns the array type if the term is the address of an array.
func arrayAddr(t *Term) types.Type {
	if t.op == "slice" || t.op == "back" || t.typ == nil {
		return nil
	}
	if p, ok := t.typ.Underlying().(*types.Pointer); ok {
		if _, ok := p.Elem().Underlying().(*types.Array); ok {
			return p.Elem()
		}
	}
	return nil
}

func (in *Interp) arrCont(v *Term, typ types.Type) *Term {
	n := typ.Underlying().(*types.Array).Len()
	return lift1(v, func(v *Term) *Term {
		if v.op == "arrval" {
			return v.args[0]
		}
		if v.op == "zero" {
			return mkSeq([]*Term{zeroFill(typ.Underlying().(*types.Array).Elem(), mkInt(n))})
		}
		return mkSeq([]*Term{mkSubSeg(v, mkInt(0), mkInt(n))})
	})
}

func arrVal(seq *Term, typ types.Type) *Term {
	n := typ.Underlying().(*types.Array).Len()
	return lift1(seq, func(s *Term) *Term {
		if len(s.args) == 1 && s.args[0].op == "sub" {
			g := s.args[0]
			if g.args[1].isInt(0) && g.args[2].isInt(n) {
				if g.args[0].op == "zeros" {
					return zeroOf(typ)
				}
				return g.args[0]
			}
		}
		return mk("arrval", "", typ, s)
	})
}

func (in *Interp) store(fr *Frame, st *State, instr instrT, addr, val *Term, typ types.Type) {
	addr = st.simp(addr)
	if addr.op == "ite" {
		// conditional destination: each leaf is written only when selected
		for _, l := range leaves(addr) {
			c := whenLeaf(addr, func(t *Term) bool { return t == l })
			old := in.load(st, l, typ)
			in.store(fr, st, instr, l, mkITE(c, val, old), typ)
		}
		return
	}
	if s, ok := structOf(typ); ok && idxRoot(addr) == nil {
		for i := 0; i < s.NumFields(); i++ {
			in.store(fr, st, instr, mkFieldAddr(addr, typ, i), mkField(val, strconv.Itoa(i), s.Field(i).Type()), s.Field(i).Type())
		}
		return
	}
	if ix := idxRoot(addr); ix != nil {
		if ix != addr {
			// update one field of the element
			var path []*Term
			for a := addr; a.op == "fld"; a = a.args[0] {
				path = append(path, a)
			}
			et := derefT(ix.typ)
			cur := in.load(st, ix, et)
			val = in.updateField(cur, et, path, val)
		}
		if arr := arrayAddr(ix.args[0]); arr != nil {
			a := ix.args[0]
			seq := in.arrCont(in.load(st, a, arr), arr)
			in.store(fr, st, instr, a, arrVal(in.replaceAt(st, seq, ix.args[1], mkSeq([]*Term{mkOne(val)})), arr), arr)
			return
		}
		in.writeElem(fr, st, instr, ix.args[0], ix.args[1], val)
		return
	}
	old := in.load(st, addr, typ)
	ev := &Event{kind: "store", instr: instr, addr: addr, val: val, old: old}
	if in.mute == 0 && isUnlock(addr) {
		ev.st = st.clone()
	}
	in.event(fr, st, ev)
	class := classOf(addr)
	st.mem[class] = mkStore(st.version(class), addr, val)
}

// mkStore is the memory version after a write.
func mkStore(ver, addr, val *Term) *Term {
	return lift1(ver, func(v *Term) *Term {
		if v.op == "st" && v.args[1] == addr {
			v = v.args[0]
			if v.op == "ite" {
				return mkStore(v, addr, val)
			}
		}
		return mk("st", "", nil, v, addr, val)
	})
}

func (in *Interp) updateField(cur *Term, typ types.Type, path []*Term, val *Term) *Term {
	s := typ.Underlying().(*types.Struct)
	last := path[len(path)-1]
	n, _ := strconv.Atoi(fieldIdx(last))
	fs := make([]*Term, s.NumFields())
	for i := range fs {
		fs[i] = mkField(cur, strconv.Itoa(i), s.Field(i).Type())
	}
	if len(path) == 1 {
		fs[n] = val
	} else {
		fs[n] = in.updateField(fs[n], s.Field(n).Type(), path[:len(path)-1], val)
	}
	return mkStruct(typ, fs)
}

// ---- sequences ----

func zeroFill(typ types.Type, n *Term) *Term {
	return mkSubSeg(mk("zeros", typeStr(typ), typ), mkInt(0), n)
}

// contOf returns the content of a slice, string, array value or writer.
func (in *Interp) contOf(st *State, v *Term) *Term {
	return st.simp(lift1(st.simp(v), func(v *Term) *Term {
		switch v.op {
		case "nil":
			return mkSeq(nil)
		case "slice":
			return in.cut(st, in.backCont(st, v.args[0]), v.args[1], v.args[2])
		case "seq":
			return v
		case "conv":
			if v.aux == "string" || v.aux == "bytes" {
				return in.contOf(st, v.args[0])
			}
		}
		return in.backCont(st, v)
	}))
}

// cut is the part of a sequence between two offsets.
func (in *Interp) cut(st *State, seq, lo, hi *Term) *Term {
	return liftN([]*Term{st.simp(seq), st.simp(lo), st.simp(hi)}, func(a []*Term) *Term {
		seq, lo, hi := a[0], a[1], a[2]
		if lo.isInt(0) && hi == mkLen(seq) {
			return seq
		}
		_, r, ok := in.splitAt(st, seq.args, lo)
		if ok {
			if l, _, ok := in.splitAt(st, r, mkSub(hi, lo)); ok {
				return mkSeq(l)
			}
		}
		return mkSeq([]*Term{mk("sub", "", nil, seq, lo, hi)})
	})
}

func (in *Interp) backCont(st *State, b *Term) *Term {
	if s, ok := st.cont[b]; ok {
		return s
	}
	if arr := arrayAddr(b); arr != nil {
		return in.arrCont(in.load(st, b, arr), arr)
	}
	if b.op == "back" || b.op == "alloc" {
		if s := st.family(b); s != nil {
			return s
		}
	}
	return defaultCont(b)
}

func defaultCont(b *Term) *Term {
	if b.op == "alloc" || b.op == "fld" && rootOf(b).op == "alloc" {
		return mkSeq(nil)
	}
	if b.op == "const" {
		return mkSeq([]*Term{mkSubSeg(b, mkInt(0), mkLen(b))})
	}
	return mkSeq([]*Term{mkSubSeg(b, mkInt(0), mkLen(b))})
}

// contTerm is a canonical term for the content of a slice-like value.
func (in *Interp) contTerm(st *State, v *Term) *Term { return lift1(in.contOf(st, v), seqTerm) }

func seqTerm(s *Term) *Term {
	if s.op == "seq" && len(s.args) == 1 && s.args[0].op == "sub" {
		g := s.args[0]
		if g.args[1].isInt(0) && g.args[2] == mkLen(g.args[0]) && g.args[0].op != "seq" {
			return g.args[0]
		}
	}
	return s
}

func normSegs(segs []*Term) []*Term {
	var out []*Term
	for _, g := range segs {
		if g.op == "sub" && g.args[1] == g.args[2] {
			continue
		}
		if g.op == "sub" && g.args[0].op == "zeros" {
			g = mkSubSeg(g.args[0], mkInt(0), segLen(g))
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.op == "sub" && g.op == "sub" && p.args[0] == g.args[0] {
				if p.args[0].op == "zeros" {
					out[len(out)-1] = mkSubSeg(p.args[0], mkInt(0), mkAdd(segLen(p), segLen(g)))
					continue
				}
				if p.args[2] == g.args[1] {
					out[len(out)-1] = mkSubSeg(p.args[0], p.args[1], g.args[2])
					continue
				}
			}
		}
		out = append(out, g)
	}
	return out
}

func segsLen(segs []*Term) *Term {
	n := mkInt(0)
	for _, g := range segs {
		n = mkAdd(n, segLen(g))
	}
	return n
}

func oneBody(g *Term) bool { // map producing exactly one element per index
	for _, l := range leaves(g.args[1]) {
		if l.op != "seq" || len(l.args) != 1 || l.args[0].op != "one" {
			return false
		}
	}
	return true
}

// splitAt cuts the segments at offset off.
func (in *Interp) splitAt(st *State, segs []*Term, off *Term) ([]*Term, []*Term, bool) {
	if off.isInt(0) {
		return nil, segs, true
	}
	if off == segsLen(segs) {
		return segs, nil, true
	}
	acc := mkInt(0)
	for i, g := range segs {
		if off == acc {
			return segs[:i:i], segs[i:], true
		}
		end := mkAdd(acc, segLen(g))
		if off == end {
			return segs[: i+1 : i+1], segs[i+1:], true
		}
		if st.facts.decide(mkLe(end, off)) == 1 {
			acc = end
			continue
		}
		inside := i == len(segs)-1 || st.facts.decide(mkLe(off, end)) == 1
		if !inside {
			return nil, nil, false
		}
		d := mkSub(off, acc)
		switch g.op {
		case "sub":
			l := mkSubSeg(g.args[0], g.args[1], mkAdd(g.args[1], d))
			r := mkSubSeg(g.args[0], mkAdd(g.args[1], d), g.args[2])
			left := append(append([]*Term(nil), segs[:i]...), l)
			right := append([]*Term{r}, segs[i+1:]...)
			return normSegs(left), normSegs(right), true
		case "map":
			if oneBody(g) {
				l := mkMap(d, g.args[1])
				sh := instantiate(shiftUp1(g.args[1]), mkAdd(bv0, shiftUp(d, 1)))
				r := mkMap(mkSub(g.args[0], d), sh)
				if l.op != "seq" || r.op != "seq" {
					return nil, nil, false
				}
				left := append(append([]*Term(nil), segs[:i]...), l.args...)
				right := append(append([]*Term(nil), r.args...), segs[i+1:]...)
				return left, right, true
			}
		}
		return nil, nil, false
	}
	return nil, nil, false
}

// readElem reads element i of a slice value.
func (in *Interp) readElem(st *State, s, i *Term, typ types.Type) *Term {
	return lift1(st.simp(s), func(s *Term) *Term {
		if s.op == "nil" {
			return mk("elem", "", typ, s, i)
		}
		back, lo := s, mkInt(0)
		if s.op == "slice" {
			back, lo = s.args[0], s.args[1]
		}
		return in.elemAt(st, in.backCont(st, back), mkAdd(lo, i), typ)
	})
}

func (in *Interp) elemAt(st *State, seq, off *Term, typ types.Type) *Term {
	return st.simp(lift2(st.simp(seq), st.simp(off), func(s, o *Term) *Term {
		if s.op != "seq" {
			return mk("elem", "", typ, s, o)
		}
		return elemLeaf(st.facts, s, o, typ)
	}))
}

// mkElem reads element i of a content term.
func mkElem(src, off *Term, typ types.Type) *Term {
	r := lift2(src, off, func(s, o *Term) *Term {
		if s.op == "seq" {
			return elemLeaf(nil, s, o, typ)
		}
		return mk("elem", "", typ, s, o)
	})
	if isBoolType(typ) {
		return asBool(r)
	}
	return r
}

// elemLeaf selects the segment that holds the offset; undecided bounds become tests.
func elemLeaf(fs *Fact, seq, off *Term, typ types.Type) *Term {
	type part struct{ end, acc, seg *Term }
	var parts []part
	acc := mkInt(0)
	for _, g := range seq.args {
		end := mkAdd(acc, segLen(g))
		parts = append(parts, part{end, acc, g})
		acc = end
	}
	if len(parts) == 0 {
		return mk("elem", "", typ, seq, off)
	}
	var pick func(i int) *Term
	pick = func(i int) *Term {
		p := parts[i]
		sel := func() *Term { return segElem(fs, p.seg, mkSub(off, p.acc), typ) }
		if i == len(parts)-1 {
			return sel()
		}
		c := fs.simplify(mkLt(off, p.end))
		if c.isTrue() {
			return sel()
		}
		if c.isFalse() {
			return pick(i + 1)
		}
		return mkITE(c, sel(), pick(i+1))
	}
	if len(parts) > 6 {
		return mk("elem", "", typ, seq, off)
	}
	return pick(0)
}

func segElem(fs *Fact, g, d *Term, typ types.Type) *Term {
	switch g.op {
	case "one":
		return g.args[0]
	case "sub":
		src := g.args[0]
		idx := mkAdd(g.args[1], d)
		if src.op == "zeros" {
			return zeroOf(typ)
		}
		if src.op == "seq" {
			return lift1(idx, func(i *Term) *Term { return elemLeaf(fs, src, i, typ) })
		}
		if src.op == "upd" {
			base, off, repl := src.args[0], src.args[1], src.args[2]
			return lift1(idx, func(i *Term) *Term {
				in := mkAnd(mkLe(off, i), mkLt(i, mkAdd(off, mkLen(repl))))
				if fs != nil {
					in = fs.simplify(in)
				}
				if in.isFalse() {
					return elemLeaf(fs, base, i, typ)
				}
				return mkITE(in, lift1(mkSub(i, off), func(d *Term) *Term { return elemLeaf(fs.assume(in), repl, d, typ) }), elemLeaf(fs.assume(mkNot(in)), base, i, typ))
			})
		}
		if src.op == "perm" {
			return lift1(idx, func(i *Term) *Term {
				return elemLeaf(fs, src.args[0], mk("app", "pi", tInt, src.args[1], i, mkLen(src.args[0])), typ)
			})
		}
		return lift1(idx, func(i *Term) *Term {
			r := mk("elem", "", typ, src, i)
			if isBoolType(typ) {
				return asBool(r)
			}
			return r
		})
	case "map":
		if oneBody(g) {
			b := lift1(d, func(d *Term) *Term { return instantiate(g.args[1], d) })
			return lift1(b, func(s *Term) *Term { return s.args[0].args[0] })
		}
	}
	return mk("elem", "", typ, mkSeq([]*Term{g}), d)
}

func (in *Interp) writeElem(fr *Frame, st *State, instr instrT, s, i, v *Term) {
	s = st.simp(s)
	if s.op == "ite" {
		for _, l := range leaves(s) {
			if l.op == "nil" {
				continue
			}
			c := whenLeaf(s, func(t *Term) bool { return t == l })
			old := in.readElem(st, l, i, v.typ)
			in.writeElem(fr, st, instr, l, i, mkITE(c, v, old))
		}
		return
	}
	back, lo := s, mkInt(0)
	if s.op == "slice" {
		back, lo = s.args[0], s.args[1]
	}
	off := mkAdd(lo, i)
	if arr := arrayAddr(back); arr != nil {
		seq := in.arrCont(in.load(st, back, arr), arr)
		in.store(fr, st, instr, back, arrVal(in.replaceAt(st, seq, off, mkSeq([]*Term{mkOne(v)})), arr), arr)
		return
	}
	seq := in.backCont(st, back)
	var old *Term
	if v.typ != nil {
		old = in.elemAt(st, seq, off, v.typ)
	}
	in.event(fr, st, &Event{kind: "elem", instr: instr, addr: mk("idx", "", nil, back, off), val: v, old: old})
	st.cont[back] = in.replaceAt(st, seq, off, mkSeq([]*Term{mkOne(v)}))
}

// replaceAt overwrites len(repl) elements at off.
func (in *Interp) replaceAt(st *State, seq, off, repl *Term) *Term {
	return liftN([]*Term{st.simp(seq), st.simp(off), repl}, func(a []*Term) *Term {
		s, off, repl := a[0], a[1], a[2]
		n := mkLen(repl)
		l, r, ok := in.splitAt(st, s.args, off)
		if ok {
			_, r2, ok2 := in.splitAt(st, r, n)
			if ok2 {
				out := append(append([]*Term(nil), l...), repl.args...)
				return mkSeq(append(out, r2...))
			}
		}
		return mkSeq([]*Term{mkSubSeg(mk("upd", "", nil, s, off, repl), mkInt(0), mkLen(s))})
	})
}

// memDigest lists the versions of the memory classes reachable from a pointer type.
func (in *Interp) memDigest(st *State, t types.Type) *Term {
	var vs []*Term
	for _, c := range reachClasses(t) {
		if v, ok := st.mem[c]; ok && v.op != "ver0" {
			vs = append(vs, v)
		}
	}
	if len(vs) == 0 {
		return nil
	}
	return mk("mem", "", nil, vs...)
}

var reachMemo = map[string][]string{}

func reachClasses(t types.Type) []string {
	key := typeStr(t)
	if r, ok := reachMemo[key]; ok {
		return r
	}
	set := map[string]bool{}
	seen := map[string]bool{}
	var rec func(t types.Type)
	rec = func(t types.Type) {
		k := typeStr(t)
		if seen[k] {
			return
		}
		seen[k] = true
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			if _, ok := structOf(u.Elem()); !ok {
				set["deref:"+typeStr(u.Elem())] = true
			}
			rec(u.Elem())
		case *types.Slice:
			rec(u.Elem())
		case *types.Array:
			rec(u.Elem())
		case *types.Struct:
			if atomicStruct(t) {
				return
			}
			for i := 0; i < u.NumFields(); i++ {
				set[structKey(t)+"#"+strconv.Itoa(i)] = true
				rec(u.Field(i).Type())
			}
		}
	}
	rec(t)
	var out []string
	for c := range set {
		out = append(out, c)
	}
	sort.Strings(out)
	reachMemo[key] = out
	return out
}

func isErrorType(t types.Type) bool {
	return t != nil && types.Identical(t, types.Universe.Lookup("error").Type())
}
