package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed value number: equal pointers denote equal values. Values that depend on
// which branch reached a merge point are decision diagrams ("ite" nodes over boolean atoms ordered by
// id) with plain terms at the leaves; boolean values are such diagrams with leaves true and false.
// Variables bound by sum/map/exists/first/last/lst are de Bruijn indices ("bvar").
type Term struct {
	id   int
	op   string
	aux  string
	args []*Term
	typ  types.Type
	cv   constant.Value // constants
	lin  *Lin           // linear combinations
	free int            // number of enclosing binders needed to close the term
	hasK bool           // mentions a loop counter
	size int
}

// Lin is c + sum coef[i]*atom[i], atoms ordered by id.
type Lin struct {
	atoms []*Term
	coef  []int64
	c     int64
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
)

// binderFrom gives the first argument that is under the binder of an operator.
func binderFrom(op string) int {
	switch op {
	case "sum", "exists", "first", "last", "map":
		return 1
	case "lst", "lvp":
		return 2
	}
	return -1
}

func intern(key string, mk func() *Term) *Term {
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	t.id = len(termList)
	termList = append(termList, t)
	from := binderFrom(t.op)
	t.size = 1
	for i, a := range t.args {
		if a == nil {
			continue
		}
		f := a.free
		if from >= 0 && i >= from {
			f--
		}
		if f > t.free {
			t.free = f
		}
		if a.hasK {
			t.hasK = true
		}
		t.size += a.size
	}
	if t.lin != nil {
		for _, a := range t.lin.atoms {
			if a.free > t.free {
				t.free = a.free
			}
			if a.hasK {
				t.hasK = true
			}
			t.size += a.size
		}
	}
	if t.size > 1<<30 {
		t.size = 1 << 30
	}
	switch t.op {
	case "k":
		t.hasK = true
	case "bvar":
		n, _ := strconv.Atoi(t.aux)
		t.free = n + 1
	}
	termTab[key] = t
	return t
}

func mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.Grow(len(op) + len(aux) + 8*len(args) + 2)
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte(',')
		if a == nil {
			b.WriteByte('_')
			continue
		}
		b.WriteString(strconv.Itoa(a.id))
	}
	return intern(b.String(), func() *Term {
		return &Term{op: op, aux: aux, typ: typ, args: append([]*Term(nil), args...)}
	})
}

func sortTerms(ts []*Term) []*Term {
	out := append([]*Term(nil), ts...)
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	var res []*Term
	for i, t := range out {
		if i > 0 && out[i-1] == t {
			continue
		}
		res = append(res, t)
	}
	return res
}

var (
	tInt    = types.Typ[types.Int]
	tUint64 = types.Typ[types.Uint64]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
)

func mkConst(v constant.Value, typ types.Type) *Term {
	if v.Kind() == constant.Float {
		if f := constant.ToInt(v); f.Kind() == constant.Int && isIntegerType(typ) {
			v = f
		}
	}
	if v.Kind() == constant.Int && isFloatType(typ) {
		v = constant.ToFloat(v)
	}
	kind := "c"
	if isFloatType(typ) {
		kind = "cf"
	}
	return intern(kind+"|"+v.ExactString()+"|"+strconv.Itoa(int(v.Kind())), func() *Term {
		return &Term{op: "const", typ: typ, cv: v}
	})
}

func mkInt(n int64) *Term  { return mkConst(constant.MakeInt64(n), tInt) }
func mkStr(s string) *Term { return mkConst(constant.MakeString(s), tString) }

var termTrue, termFalse *Term

func init() {
	termTrue = mkConst(constant.MakeBool(true), tBool)
	termFalse = mkConst(constant.MakeBool(false), tBool)
}

func mkBool(b bool) *Term {
	if b {
		return termTrue
	}
	return termFalse
}

var tNil *Term

func mkNil() *Term {
	if tNil == nil {
		tNil = mk("nil", "", types.Typ[types.UntypedNil])
	}
	return tNil
}

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) isNil() bool   { return t.op == "nil" }
func (t *Term) isTrue() bool  { return t == termTrue }
func (t *Term) isFalse() bool { return t == termFalse }
func (t *Term) intVal() (int64, bool) {
	if t.op == "const" && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}
func (t *Term) isInt(n int64) bool {
	v, ok := t.intVal()
	return ok && v == n
}

func isIntegerType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isUnsignedType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ---- decision diagrams ----

// asBool turns a boolean-valued term into a decision diagram.
func asBool(t *Term) *Term {
	if t.op == "ite" || t.isTrue() || t.isFalse() {
		return t
	}
	return iteNode(t, termTrue, termFalse)
}

func iteNode(atom, hi, lo *Term) *Term {
	if hi == lo {
		return hi
	}
	typ := hi.typ
	if hi.isNil() || typ == nil {
		typ = lo.typ
	}
	return mk("ite", "", typ, atom, hi, lo)
}

type k3 struct{ a, b, c *Term }

var iteMemo = map[k3]*Term{}

// iteBudget bounds the work of one diagram operation where giving up is possible (0: unbounded).
var iteBudget int

type overBudget struct{}

// bounded runs f with a budget; it reports false when the budget ran out.
func bounded(n int, f func()) (ok bool) {
	if iteBudget > 0 { // already inside a bounded operation
		f()
		return true
	}
	iteBudget = n
	defer func() {
		iteBudget = 0
		if e := recover(); e != nil {
			if _, is := e.(overBudget); !is {
				panic(e)
			}
			ok = false
		}
	}()
	f()
	return true
}

func cof(t, atom *Term) (*Term, *Term) {
	if t.op == "ite" && t.args[0] == atom {
		return t.args[1], t.args[2]
	}
	return t, t
}

// mkITE selects a where c holds and b elsewhere.
func mkITE(c, a, b *Term) *Term {
	c = asBool(c)
	if c.isTrue() || a == b {
		return a
	}
	if c.isFalse() {
		return b
	}
	key := k3{c, a, b}
	if r, ok := iteMemo[key]; ok {
		return r
	}
	if iteBudget > 0 {
		if iteBudget--; iteBudget == 0 {
			panic(overBudget{})
		}
	}
	top := c.args[0]
	for _, x := range []*Term{a, b} {
		if x.op == "ite" && x.args[0].id < top.id {
			top = x.args[0]
		}
	}
	c1, c0 := cof(c, top)
	a1, a0 := cof(a, top)
	b1, b0 := cof(b, top)
	r := iteNode(top, mkITE(c1, a1, b1), mkITE(c0, a0, b0))
	iteMemo[key] = r
	return r
}

func mkNot(t *Term) *Term    { return mkITE(asBool(t), termFalse, termTrue) }
func mkAnd(a, b *Term) *Term { return mkITE(asBool(a), asBool(b), termFalse) }
func mkOr(a, b *Term) *Term  { return mkITE(asBool(a), termTrue, asBool(b)) }
func mkImp(a, b *Term) *Term { return mkITE(asBool(a), asBool(b), termTrue) }

func mkAnds(cs ...*Term) *Term {
	r := termTrue
	for _, c := range cs {
		r = mkAnd(r, c)
	}
	return r
}

// leaves lists the distinct leaves of a diagram.
func leaves(t *Term) []*Term {
	if t.op != "ite" {
		return []*Term{t}
	}
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "ite" {
			rec(t.args[1])
			rec(t.args[2])
			return
		}
		out = append(out, t)
	}
	rec(t)
	return out
}

// support lists the atoms a diagram tests.
func support(t *Term) []*Term {
	if t.op != "ite" {
		return nil
	}
	seen := map[*Term]bool{}
	set := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] || t.op != "ite" {
			return
		}
		seen[t] = true
		set[t.args[0]] = true
		rec(t.args[1])
		rec(t.args[2])
	}
	rec(t)
	var out []*Term
	for a := range set {
		out = append(out, a)
	}
	return sortTerms(out)
}

// whenLeaf is the condition under which a diagram takes a leaf accepted by f.
func whenLeaf(t *Term, f func(*Term) bool) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.op == "ite" {
			r = mkITE(asBool(t.args[0]), rec(t.args[1]), rec(t.args[2]))
		} else {
			r = mkBool(f(t))
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// lift1 applies f to every leaf.
func lift1(t *Term, f func(*Term) *Term) *Term {
	if t.op != "ite" {
		return f(t)
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op != "ite" {
			return f(t)
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := mkITE(asBool(t.args[0]), rec(t.args[1]), rec(t.args[2]))
		memo[t] = r
		return r
	}
	return rec(t)
}

const liftCap = 3000

// lift2 applies f to every compatible pair of leaves. ok is false when the product is too large.
func lift2(a, b *Term, f func(a, b *Term) *Term) *Term {
	if a.op != "ite" && b.op != "ite" {
		return f(a, b)
	}
	type k2 struct{ a, b *Term }
	memo := map[k2]*Term{}
	n := 0
	over := false
	var rec func(a, b *Term) *Term
	rec = func(a, b *Term) *Term {
		if over {
			return a
		}
		if a.op != "ite" && b.op != "ite" {
			n++
			if n > liftCap {
				over = true
			}
			return f(a, b)
		}
		key := k2{a, b}
		if r, ok := memo[key]; ok {
			return r
		}
		var top *Term
		if a.op == "ite" {
			top = a.args[0]
		}
		if b.op == "ite" && (top == nil || b.args[0].id < top.id) {
			top = b.args[0]
		}
		a1, a0 := cof(a, top)
		b1, b0 := cof(b, top)
		r := mkITE(asBool(top), rec(a1, b1), rec(a0, b0))
		memo[key] = r
		return r
	}
	r := rec(a, b)
	if over {
		overLift++
		return f(a, b)
	}
	return r
}

var overLift int

// liftN applies f to all compatible combinations of leaves of the arguments.
func liftN(args []*Term, f func([]*Term) *Term) *Term {
	for i, a := range args {
		if a.op == "ite" {
			top := a.args[0]
			for _, b := range args[i+1:] {
				if b.op == "ite" && b.args[0].id < top.id {
					top = b.args[0]
				}
			}
			hi := make([]*Term, len(args))
			lo := make([]*Term, len(args))
			for j, b := range args {
				hi[j], lo[j] = cof(b, top)
			}
			return mkITE(asBool(top), liftN(hi, f), liftN(lo, f))
		}
	}
	return f(args)
}

// restrict simplifies f using that care holds.
func restrict(f, care *Term) *Term {
	care = asBool(care)
	if f.op != "ite" || care.op != "ite" {
		return f
	}
	var r *Term
	if bounded(60000, func() { r = restrictFull(f, care) }) {
		return r
	}
	// too large to project: only the literals that must hold
	r = f
	for _, l := range essential(care) {
		r = cofactor(r, l.atom, l.pos)
	}
	return r
}

func restrictFull(f, care *Term) *Term {
	type k2 struct{ a, b *Term }
	memo := map[k2]*Term{}
	var rec func(f, c *Term) *Term
	rec = func(f, c *Term) *Term {
		if f.op != "ite" || c.op != "ite" {
			return f
		}
		key := k2{f, c}
		if r, ok := memo[key]; ok {
			return r
		}
		if iteBudget > 0 {
			if iteBudget--; iteBudget == 0 {
				panic(overBudget{})
			}
		}
		fa, ca := f.args[0], c.args[0]
		var r *Term
		switch {
		case ca.id < fa.id:
			r = rec(f, mkOr(c.args[1], c.args[2]))
		case ca == fa:
			switch {
			case c.args[1].isFalse():
				r = rec(f.args[2], c.args[2])
			case c.args[2].isFalse():
				r = rec(f.args[1], c.args[1])
			default:
				r = iteNode(fa, rec(f.args[1], c.args[1]), rec(f.args[2], c.args[2]))
			}
		default:
			r = iteNode(fa, rec(f.args[1], c), rec(f.args[2], c))
		}
		memo[key] = r
		return r
	}
	return rec(f, care)
}

// cofactor fixes one atom.
func cofactor(t, atom *Term, val bool) *Term {
	if t.op != "ite" || t.args[0].id > atom.id {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.op != "ite" || t.args[0].id > atom.id {
			return t
		}
		if t.args[0] == atom {
			if val {
				return t.args[1]
			}
			return t.args[2]
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := iteNode(t.args[0], rec(t.args[1]), rec(t.args[2]))
		memo[t] = r
		return r
	}
	return rec(t)
}

// Lit is an atom with a polarity.
type Lit struct {
	atom *Term
	pos  bool
}

func (l Lit) term() *Term {
	if l.pos {
		return asBool(l.atom)
	}
	return mkNot(l.atom)
}

func (l Lit) String() string {
	if l.pos {
		return l.atom.String()
	}
	return "!(" + l.atom.String() + ")"
}

// essential lists the literals implied by a condition.
func essential(c *Term) []Lit {
	c = asBool(c)
	if c.op != "ite" {
		return nil
	}
	return mustLits(c)
}

var mustMemo = map[*Term][]Lit{}

// mustLits intersects the literals on all paths to true, ordered by atom.
func mustLits(c *Term) []Lit {
	if c.op != "ite" {
		return nil
	}
	if r, ok := mustMemo[c]; ok {
		return r
	}
	a, hi, lo := c.args[0], c.args[1], c.args[2]
	var out []Lit
	switch {
	case lo.isFalse():
		out = append([]Lit{{a, true}}, mustLits(hi)...)
	case hi.isFalse():
		out = append([]Lit{{a, false}}, mustLits(lo)...)
	default:
		x, y := mustLits(hi), mustLits(lo)
		for i, j := 0, 0; i < len(x) && j < len(y); {
			switch {
			case x[i] == y[j]:
				out = append(out, x[i])
				i++
				j++
			case x[i].atom.id < y[j].atom.id:
				i++
			case x[i].atom.id > y[j].atom.id:
				j++
			default:
				i++
				j++
			}
		}
	}
	mustMemo[c] = out
	return out
}

// cubes enumerates the paths of a condition to true (at most max).
func cubes(c *Term, max int) [][]Lit {
	c = asBool(c)
	var out [][]Lit
	var cur []Lit
	var rec func(c *Term)
	rec = func(c *Term) {
		if len(out) >= max || c.isFalse() {
			return
		}
		if c.isTrue() {
			out = append(out, append([]Lit(nil), cur...))
			return
		}
		if c.op != "ite" {
			return
		}
		cur = append(cur, Lit{c.args[0], true})
		rec(c.args[1])
		cur[len(cur)-1].pos = false
		rec(c.args[2])
		cur = cur[:len(cur)-1]
	}
	rec(c)
	return out
}

// ---- linear arithmetic ----

func toLin(t *Term) Lin {
	if t.lin != nil {
		return *t.lin
	}
	if n, ok := t.intVal(); ok {
		return Lin{c: n}
	}
	return Lin{atoms: []*Term{t}, coef: []int64{1}}
}

func linCombine(a Lin, ka int64, b Lin, kb int64) Lin {
	var r Lin
	r.c = ka*a.c + kb*b.c
	i, j := 0, 0
	for i < len(a.atoms) || j < len(b.atoms) {
		switch {
		case j >= len(b.atoms) || (i < len(a.atoms) && a.atoms[i].id < b.atoms[j].id):
			if ka != 0 {
				r.atoms = append(r.atoms, a.atoms[i])
				r.coef = append(r.coef, ka*a.coef[i])
			}
			i++
		case i >= len(a.atoms) || b.atoms[j].id < a.atoms[i].id:
			if kb != 0 {
				r.atoms = append(r.atoms, b.atoms[j])
				r.coef = append(r.coef, kb*b.coef[j])
			}
			j++
		default:
			if k := ka*a.coef[i] + kb*b.coef[j]; k != 0 {
				r.atoms = append(r.atoms, a.atoms[i])
				r.coef = append(r.coef, k)
			}
			i++
			j++
		}
	}
	return r
}

func atomLin(a *Term, k int64) Lin { return Lin{atoms: []*Term{a}, coef: []int64{k}} }

func fromLin(l Lin, typ types.Type) *Term {
	l = groupSums(l)
	if len(l.atoms) == 0 {
		return mkConst(constant.MakeInt64(l.c), tInt)
	}
	if len(l.atoms) == 1 && l.coef[0] == 1 && l.c == 0 {
		return l.atoms[0]
	}
	var b strings.Builder
	b.WriteString("lin|")
	b.WriteString(strconv.FormatInt(l.c, 10))
	for i, t := range l.atoms {
		b.WriteByte('+')
		b.WriteString(strconv.FormatInt(l.coef[i], 10))
		b.WriteByte('*')
		b.WriteString(strconv.Itoa(t.id))
	}
	return intern(b.String(), func() *Term {
		ll := l
		return &Term{op: "lin", typ: typ, lin: &ll}
	})
}

// groupSums merges sums over the same range into one sum.
func groupSums(l Lin) Lin {
	n := 0
	odd := false
	for i, a := range l.atoms {
		if a.op == "sum" {
			n++
			if l.coef[i] != 1 {
				odd = true
			}
		}
	}
	if n == 0 || (n == 1 && !odd) {
		return l
	}
	by := map[*Term][]int{}
	var order []*Term
	rest := Lin{c: l.c}
	for i, a := range l.atoms {
		if a.op == "sum" {
			if by[a.args[0]] == nil {
				order = append(order, a.args[0])
			}
			by[a.args[0]] = append(by[a.args[0]], i)
		} else {
			rest = linCombine(rest, 1, atomLin(a, l.coef[i]), 1)
		}
	}
	changed := false
	for _, b := range order {
		idx := by[b]
		if len(idx) == 1 && l.coef[idx[0]] == 1 {
			rest = linCombine(rest, 1, atomLin(l.atoms[idx[0]], 1), 1)
			continue
		}
		body := mkInt(0)
		for _, i := range idx {
			body = mkAdd(body, mkScale(l.atoms[i].args[1], l.coef[i]))
		}
		changed = true
		s := mkSum(b, body)
		if s.op == "ite" {
			rest = linCombine(rest, 1, atomLin(s, 1), 1)
		} else {
			rest = linCombine(rest, 1, toLin(s), 1)
		}
	}
	if changed {
		return groupSums(rest)
	}
	return rest
}

func linTyp(a, b *Term) types.Type {
	if a.op == "const" && b.typ != nil {
		return b.typ
	}
	return a.typ
}

func addLeaf(a, b *Term) *Term {
	return fromLin(linCombine(toLin(a), 1, toLin(b), 1), linTyp(a, b))
}
func subLeaf(a, b *Term) *Term {
	return fromLin(linCombine(toLin(a), 1, toLin(b), -1), linTyp(a, b))
}

func mkAdd(a, b *Term) *Term { return lift2(a, b, addLeaf) }
func mkSub(a, b *Term) *Term {
	if a == b {
		return mkInt(0)
	}
	return lift2(a, b, subLeaf)
}
func mkScale(a *Term, k int64) *Term {
	if k == 1 {
		return a
	}
	return lift1(a, func(a *Term) *Term { return fromLin(linCombine(toLin(a), k, Lin{}, 0), a.typ) })
}
func addInt(a *Term, n int64) *Term { return mkAdd(a, mkInt(n)) }

func mkMul(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		if n, ok := a.intVal(); ok {
			return mkScale(b, n)
		}
		if n, ok := b.intVal(); ok {
			return mkScale(a, n)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return mk("bin", "*", linTyp(a, b), a, b)
	})
}

// ---- boolean atoms ----

// mkLe0 is lin <= 0 as a diagram; of the two complementary inequalities one is the atom.
func mkLe0(l Lin) *Term {
	if len(l.atoms) == 0 {
		return mkBool(l.c <= 0)
	}
	g := int64(0)
	for _, k := range l.coef {
		g = gcd(g, abs64(k))
	}
	if g > 1 {
		n := Lin{atoms: l.atoms, c: ceilDiv(l.c, g)}
		for _, k := range l.coef {
			n.coef = append(n.coef, k/g)
		}
		l = n
	}
	// trivial by sign
	if allNonneg(l, -1) && l.c <= 0 {
		return termTrue
	}
	if allNonneg(l, 1) && l.c > 0 {
		return termFalse
	}
	// an amount of at least 0 that is truncated to 0 is below 1
	if x := l.atoms[0]; len(l.atoms) == 1 && l.coef[0] == 1 && l.c == 0 && x.op == "conv" && isFloatType(x.args[0].typ) && isKind(types.Uint64)(x.typ) {
		return asBool(mk("flt", "<", tBool, x.args[0], mkConst(constant.MakeInt64(1), x.args[0].typ)))
	}
	if l.coef[0] < 0 {
		m := linCombine(l, -1, Lin{}, 0)
		m.c++
		return mkNot(mk("le0", "", tBool, fromLin(m, tInt)))
	}
	return asBool(mk("le0", "", tBool, fromLin(l, tInt)))
}

func allNonneg(l Lin, sign int64) bool {
	for i, a := range l.atoms {
		if l.coef[i]*sign < 0 || !nonneg(a) {
			return false
		}
	}
	return true
}

// nonnegSums pairs k*n + sum(n, body) where body + k is not negative.
func nonnegSums(l Lin) bool {
	left := map[*Term]int64{}
	for i, a := range l.atoms {
		left[a] = l.coef[i]
	}
	for i, a := range l.atoms {
		if a.op != "sum" || l.coef[i] != 1 || nonneg(a) {
			continue
		}
		n := a.args[0]
		k := left[n]
		if n.lin != nil || k <= 0 {
			return false
		}
		for _, x := range leaves(a.args[1]) {
			if !nonneg(addInt(x, k)) {
				return false
			}
		}
		left[n] = 0
		left[a] = 0
	}
	for a, k := range left {
		if k < 0 || k > 0 && !nonneg(a) {
			return false
		}
	}
	return true
}

func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && a > 0 {
		q++
	}
	return q
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// mkLe is a <= b, mkLt is a < b over integers.
func mkLe(a, b *Term) *Term {
	return lift1(mkSub(a, b), func(d *Term) *Term { return mkLe0(toLin(d)) })
}
func mkLt(a, b *Term) *Term { return mkLe(addInt(a, 1), b) }

func mkEqInt(a, b *Term) *Term {
	return lift1(mkSub(a, b), func(d *Term) *Term {
		l := toLin(d)
		if len(l.atoms) == 0 {
			return mkBool(l.c == 0)
		}
		if l.coef[0] < 0 {
			l = linCombine(l, -1, Lin{}, 0)
		}
		// x == 0 for a nonnegative x is x <= 0
		if allNonneg(l, 1) {
			if l.c == 0 && len(l.atoms) == 1 && l.coef[0] == 1 {
				return mkLe0(l)
			}
			if l.c > 0 {
				return termFalse
			}
		}
		if len(l.atoms) == 1 && l.coef[0] == 1 && l.c <= -noPosition {
			switch l.atoms[0].op {
			case "first", "last", "len":
				return termFalse
			}
		}
		return asBool(mk("eq0", "", tBool, fromLin(l, tInt)))
	})
}

// noPosition and above are not positions in any list: the wire format does not allow that many elements.
const noPosition = 0xffffffff

func mkEq(a, b *Term) *Term {
	if a == b {
		return termTrue
	}
	return lift2(a, b, eqLeaf)
}

func eqLeaf(a, b *Term) *Term {
	if a == b {
		return termTrue
	}
	if isIntegerType(a.typ) && isIntegerType(b.typ) {
		return mkEqInt(a, b)
	}
	if a.isConst() && b.isConst() {
		return mkBool(constant.Compare(a.cv, tokEQL, b.cv))
	}
	if a.isTrue() || a.isFalse() || b.isTrue() || b.isFalse() {
		if b.isTrue() || b.isFalse() {
			a, b = b, a
		}
		if a.isTrue() {
			return asBool(b)
		}
		return mkNot(b)
	}
	if a.isNil() {
		return mkIsNil(b)
	}
	if b.isNil() {
		return mkIsNil(a)
	}
	if isErrConst(a) && isErrConst(b) {
		return termFalse
	}
	if a.op == "iface" && b.op == "iface" && a.aux == b.aux {
		return mkEq(a.args[0], b.args[0])
	}
	if a.op == "struct" && b.op == "struct" && len(a.args) == len(b.args) {
		r := termTrue
		for i := range a.args {
			r = mkAnd(r, mkEq(a.args[i], b.args[i]))
		}
		return r
	}
	if a.op == "seq" && b.op == "seq" {
		if emptySeq(a) || emptySeq(b) {
			if emptySeq(b) {
				a, b = b, a
			}
			return mkEqInt(mkLen(b), mkInt(0))
		}
	}
	if a.op == "struct" && b.typ != nil && b.op != "struct" {
		a, b = b, a
	}
	if b.op == "struct" && a.typ != nil && types.Identical(a.typ, b.typ) {
		if s, ok := structOf(a.typ); ok {
			r := termTrue
			for i := range b.args {
				r = mkAnd(r, mkEq(mkField(a, strconv.Itoa(i), s.Field(i).Type()), b.args[i]))
			}
			return r
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return asBool(mk("eq", "", tBool, a, b))
}

func isErrConst(t *Term) bool { return t.op == "errglobal" || t.op == "errnew" }

func emptySeq(t *Term) bool { return t.op == "seq" && len(t.args) == 0 }

func mkIsNil(a *Term) *Term {
	return lift1(a, func(a *Term) *Term {
		if a.op == "back" && strings.HasSuffix(a.aux, "?") {
			return asBool(mk("isnil", "", tBool, a))
		}
		switch a.op {
		case "nil":
			return termTrue
		case "alloc", "fld", "idx", "global", "closure", "errglobal", "errnew", "func", "struct", "iface", "back", "const", "map", "cached":
			return termFalse
		case "slice":
			if a.args[0].op == "back" && strings.HasSuffix(a.args[0].aux, "?") {
				return asBool(mk("isnil", "", tBool, a.args[0]))
			}
			if a.args[0].op == "back" || a.args[0].op == "alloc" || a.args[0].op == "fld" {
				return termFalse
			}
			return mkIsNil(a.args[0])
		case "errwrap":
			if a.aux == "!" {
				return termFalse
			}
			return mkIsNil(a.args[0])
		case "app":
			// a pointer found in an interface value
			if strings.HasPrefix(a.aux, "assert:*") {
				return termFalse
			}
			// the dependency returns the address of a local hash
			if strings.HasSuffix(a.aux, "MsgTx).TxHash") {
				return termFalse
			}
		}
		return asBool(mk("isnil", "", tBool, a))
	})
}

// nonneg reports whether the term is certainly >= 0.
func nonneg(t *Term) bool {
	if n, ok := t.intVal(); ok {
		return n >= 0
	}
	switch t.op {
	case "len", "k", "bvar", "first", "last", "fv":
		return true
	case "lin":
		return t.lin.c >= 0 && (allNonneg(*t.lin, 1) || nonnegSums(*t.lin))
	case "ite":
		for _, l := range leaves(t) {
			if !nonneg(l) {
				return false
			}
		}
		return true
	case "sum":
		return nonneg(t.args[1])
	case "bin":
		switch t.aux {
		case "*", "/", "%", "&", "|", ">>", "<<":
			return nonneg(t.args[0]) && nonneg(t.args[1])
		}
	case "app":
		if t.aux == "varint" || t.aux == "cap" || t.aux == "min" || t.aux == "pi" {
			return true
		}
	}
	return isUnsignedType(t.typ)
}

// mkMod is the value of the ideal integer l in 64-bit unsigned arithmetic.
func mkMod(l *Term, typ types.Type) *Term {
	return lift1(l, func(l *Term) *Term {
		if nonneg(l) {
			return l
		}
		return mk("mod", "", tUint64, l)
	})
}

// ideal strips modular wrappers.
func ideal(t *Term) *Term {
	return lift1(t, func(t *Term) *Term {
		if t.op == "mod" {
			return t.args[0]
		}
		if t.lin != nil {
			r := Lin{c: t.lin.c}
			ch := false
			for i, a := range t.lin.atoms {
				if a.op == "mod" {
					r = linCombine(r, 1, toLin(a.args[0]), t.lin.coef[i])
					ch = true
				} else {
					r = linCombine(r, 1, atomLin(a, 1), t.lin.coef[i])
				}
			}
			if ch {
				return fromLin(r, t.typ)
			}
		}
		return t
	})
}

// ---- substitution ----

func subst1(t, from, to *Term) *Term {
	if t == nil {
		return nil
	}
	return subst(t, map[*Term]*Term{from: to})
}

// subst replaces closed terms by closed terms everywhere, also under binders.
func subst(t *Term, m map[*Term]*Term) *Term {
	return substM(t, m, map[*Term]*Term{})
}

func substM(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 && t.lin == nil {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := rebuildWith(t, func(_ int, a *Term) *Term { return substM(a, m, memo) })
	memo[t] = r
	return r
}

// rebuildWith maps the children of t and re-normalises.
func rebuildWith(t *Term, f func(i int, a *Term) *Term) *Term {
	if t.lin != nil {
		changed := false
		ns := make([]*Term, len(t.lin.atoms))
		for i, a := range t.lin.atoms {
			ns[i] = f(-1, a)
			if ns[i] != a {
				changed = true
			}
		}
		if !changed {
			return t
		}
		r := mkInt(t.lin.c)
		for i, n := range ns {
			r = mkAdd(r, mkScale(n, t.lin.coef[i]))
		}
		return r
	}
	changed := false
	args := make([]*Term, len(t.args))
	for i, a := range t.args {
		if a == nil {
			continue
		}
		args[i] = f(i, a)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		return t
	}
	return rebuild(t, args)
}

// openBody replaces the bound variable of a binder body by the closed term v.
func openBody(body, v *Term) *Term {
	type key struct {
		t *Term
		d int
	}
	memo := map[key]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if t == nil || t.free <= d {
			return t
		}
		if t.op == "bvar" {
			if n, _ := strconv.Atoi(t.aux); n == d {
				return v
			}
			return t
		}
		k := key{t, d}
		if r, ok := memo[k]; ok {
			return r
		}
		from := binderFrom(t.op)
		r := rebuildWith(t, func(i int, a *Term) *Term {
			if from >= 0 && i >= from {
				return rec(a, d+1)
			}
			return rec(a, d)
		})
		memo[k] = r
		return r
	}
	return rec(body, 0)
}

// closeBody abstracts the closed term x as the bound variable of a new binder.
func closeBody(body, x *Term) *Term {
	type key struct {
		t *Term
		d int
	}
	memo := map[key]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if t == nil {
			return t
		}
		if t == x {
			return mkBV(d)
		}
		if len(t.args) == 0 && t.lin == nil {
			return t
		}
		if x.op == "k" && !t.hasK {
			return t
		}
		k := key{t, d}
		if r, ok := memo[k]; ok {
			return r
		}
		from := binderFrom(t.op)
		r := rebuildWith(t, func(i int, a *Term) *Term {
			if from >= 0 && i >= from {
				return rec(a, d+1)
			}
			return rec(a, d)
		})
		memo[k] = r
		return r
	}
	return rec(body, 0)
}

// rebuild re-runs the normalising constructor of t on new children.
func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "ite":
		return mkITE(args[0], args[1], args[2])
	case "le0":
		return mkLe(args[0], mkInt(0))
	case "eq0":
		return mkEqInt(args[0], mkInt(0))
	case "eq":
		return mkEq(args[0], args[1])
	case "isnil":
		return mkIsNil(args[0])
	case "slice":
		return mkSlice(args[0], args[1], args[2])
	case "len":
		return mkLen(args[0])
	case "sum":
		return mkSum(args[0], args[1])
	case "map":
		return mkMap(args[0], args[1])
	case "exists":
		return mkExists(args[0], args[1])
	case "first":
		return mkFirst(args[0], args[1])
	case "last":
		return mkLast(args[0], args[1])
	case "lst":
		return mkLst(args[0], args[1], args[2], args[3], args[4])
	case "ext":
		return lift1(args[0], func(a *Term) *Term { return mkTyped("ext", t.aux, t.typ, a) })
	case "errwrap":
		if t.aux == "!" {
			return lift1(args[0], func(a *Term) *Term { return mk("errwrap", "!", errT, a) })
		}
		return mkWrap(args[0])
	case "conv":
		return lift1(args[0], func(a *Term) *Term { return mk("conv", t.aux, t.typ, a) })
	case "seq":
		return mkSeq(args)
	case "sub":
		return mkSubSeg(args[0], args[1], args[2])
	case "mod":
		return mkMod(args[0], t.typ)
	case "field":
		return mkField(args[0], t.aux, t.typ)
	case "bin":
		if t.aux == "*" && !isFloatType(t.typ) {
			return mkMul(args[0], args[1])
		}
		return mkBin(t.aux, args[0], args[1], t.typ)
	case "load":
		return mkLoad(args[0], args[1], t.typ)
	case "elem":
		return mkElem(args[0], args[1], t.typ)
	case "struct":
		return mkStruct(t.typ, args)
	case "fld":
		return lift1(args[0], func(b *Term) *Term { return mk("fld", t.aux, t.typ, b) })
	case "app":
		if t.aux == "varint" {
			return mkVarint(args[0])
		}
		if t.aux == "cause" {
			return mkCause(args[0])
		}
		return mkApp(t.aux, t.typ, args...)
	case "exti":
	}
	r := mk(t.op, t.aux, t.typ, args...)
	if isBoolType(t.typ) {
		return asBool(r)
	}
	return r
}

var containsMemo = map[*Term]map[*Term]bool{}

// contains reports whether t mentions x.
func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	if x.op == "k" && !t.hasK {
		return false
	}
	m := containsMemo[x]
	if m == nil {
		m = map[*Term]bool{}
		containsMemo[x] = m
	}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil {
			return false
		}
		if t == x {
			return true
		}
		if t.id < x.id { // children are created before their parents
			return false
		}
		if r, ok := m[t]; ok {
			return r
		}
		r := false
		for _, a := range t.args {
			if rec(a) {
				r = true
				break
			}
		}
		if !r && t.lin != nil {
			for _, a := range t.lin.atoms {
				if rec(a) {
					r = true
					break
				}
			}
		}
		m[t] = r
		return r
	}
	return rec(t)
}

func containsFn(t *Term, f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		if t.lin != nil {
			for _, a := range t.lin.atoms {
				if rec(a) {
					return true
				}
			}
		}
		return false
	}
	return rec(t)
}

// kids visits the direct parts of a term.
func kids(t *Term, f func(*Term)) {
	for _, a := range t.args {
		if a != nil {
			f(a)
		}
	}
	if t.lin != nil {
		for _, a := range t.lin.atoms {
			f(a)
		}
	}
}

func mkBV(n int) *Term { return mk("bvar", strconv.Itoa(n), tInt) }

// ---- binders ----

var bv0 = mkBV(0)

func usesBV(t *Term) bool { return t.free > 0 && usesIdx(t, 0) }

func usesIdx(t *Term, d int) bool {
	if t == nil || t.free <= d {
		return false
	}
	if t.op == "bvar" {
		n, _ := strconv.Atoi(t.aux)
		return n == d
	}
	from := binderFrom(t.op)
	for i, a := range t.args {
		e := d
		if from >= 0 && i >= from {
			e++
		}
		if usesIdx(a, e) {
			return true
		}
	}
	if t.lin != nil {
		for _, a := range t.lin.atoms {
			if usesIdx(a, d) {
				return true
			}
		}
	}
	return false
}

// unbind lowers the indices of a body that does not use its bound variable.
func unbind(t *Term) *Term { return openBody0(t) }

func openBody0(t *Term) *Term {
	if t.free == 0 {
		return t
	}
	// shift all dangling indices above 0 down by one
	type key struct {
		t *Term
		d int
	}
	memo := map[key]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if t == nil || t.free <= d {
			return t
		}
		if t.op == "bvar" {
			n, _ := strconv.Atoi(t.aux)
			if n > d {
				return mkBV(n - 1)
			}
			return t
		}
		k := key{t, d}
		if r, ok := memo[k]; ok {
			return r
		}
		from := binderFrom(t.op)
		r := rebuildWith(t, func(i int, a *Term) *Term {
			if from >= 0 && i >= from {
				return rec(a, d+1)
			}
			return rec(a, d)
		})
		memo[k] = r
		return r
	}
	return rec(t, 0)
}

// shiftUp raises dangling indices (for moving a term under a binder).
func shiftUp(t *Term, by int) *Term {
	if t.free == 0 || by == 0 {
		return t
	}
	type key struct {
		t *Term
		d int
	}
	memo := map[key]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if t == nil || t.free <= d {
			return t
		}
		if t.op == "bvar" {
			n, _ := strconv.Atoi(t.aux)
			if n >= d {
				return mkBV(n + by)
			}
			return t
		}
		k := key{t, d}
		if r, ok := memo[k]; ok {
			return r
		}
		from := binderFrom(t.op)
		r := rebuildWith(t, func(i int, a *Term) *Term {
			if from >= 0 && i >= from {
				return rec(a, d+1)
			}
			return rec(a, d)
		})
		memo[k] = r
		return r
	}
	return rec(t, 0)
}

// instantiate opens a body with a possibly dangling term: the bound variable becomes v and the other
// indices drop by one.
func instantiate(body, v *Term) *Term {
	if body.free <= 0 {
		return body
	}
	type key struct {
		t *Term
		d int
	}
	memo := map[key]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if t == nil || t.free <= d {
			return t
		}
		if t.op == "bvar" {
			n, _ := strconv.Atoi(t.aux)
			if n == d {
				return shiftUp(v, d)
			}
			if n > d {
				return mkBV(n - 1)
			}
			return t
		}
		k := key{t, d}
		if r, ok := memo[k]; ok {
			return r
		}
		from := binderFrom(t.op)
		r := rebuildWith(t, func(i int, a *Term) *Term {
			if from >= 0 && i >= from {
				return rec(a, d+1)
			}
			return rec(a, d)
		})
		memo[k] = r
		return r
	}
	return rec(body, 0)
}

// peel splits n = m + c with a positive constant c and nonnegative m.
func peel(n *Term) (*Term, int64) {
	if n.lin != nil && n.lin.c > 0 && n.lin.c <= 4 {
		m := *n.lin
		c := m.c
		m.c = 0
		t := fromLin(m, tInt)
		if nonneg(t) {
			return t, c
		}
	}
	if v, ok := n.intVal(); ok && v > 0 && v <= 8 {
		return mkInt(0), v
	}
	return n, 0
}

// mkSum is sum_{j<n} body(j).
func mkSum(n, body *Term) *Term {
	return lift1(n, func(n *Term) *Term { return sumLeaf(n, body) })
}

func sumLeaf(n, body *Term) *Term {
	if v, ok := n.intVal(); ok && v <= 0 {
		return mkInt(0)
	}
	if body.isInt(0) {
		return body
	}
	if m, c := peel(n); c > 0 {
		r := sumLeaf(m, body)
		for i := int64(0); i < c; i++ {
			r = mkAdd(r, instantiate(body, addInt(m, i)))
		}
		return r
	}
	// the part of the last-resort leaf that does not depend on the index
	leaf := body
	for leaf.op == "ite" {
		leaf = leaf.args[2]
	}
	inv := Lin{}
	ll := toLin(leaf)
	inv.c = ll.c
	for i, a := range ll.atoms {
		if !usesBV(a) {
			inv = linCombine(inv, 1, atomLin(a, ll.coef[i]), 1)
		}
	}
	if inv.c != 0 || len(inv.atoms) > 0 {
		it := fromLin(inv, leaf.typ)
		return mkAdd(mkMul(n, unbind(it)), sumLeaf(n, mkSub(body, it)))
	}
	// ranges: j < m
	for _, at := range support(body) {
		if m, ok := upperBound(at); ok {
			m = unbind(m)
			d := mkSub(n, m)
			if nonneg(m) && nonneg(d) && d.op != "ite" {
				hi := cofactor(body, at, true)
				lo := cofactor(body, at, false)
				// lo shifted by m
				sh := instantiate(shiftUp1(lo), mkAdd(bv0, shiftUp(m, 1)))
				return mkAdd(sumLeaf(m, hi), mkSum(d, sh))
			}
		}
	}
	return mk("sum", "", linTyp(leaf, leaf), n, body)
}

// shiftUp1 makes room for a new bound variable: index 0 stays the one to be replaced.
func shiftUp1(t *Term) *Term {
	// rename free indices >= 1 up by one so that instantiate (which lowers them) is neutral and the
	// replacement may use index 0
	type key struct {
		t *Term
		d int
	}
	memo := map[key]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if t == nil || t.free <= d+1 {
			return t
		}
		if t.op == "bvar" {
			n, _ := strconv.Atoi(t.aux)
			if n > d {
				return mkBV(n + 1)
			}
			return t
		}
		k := key{t, d}
		if r, ok := memo[k]; ok {
			return r
		}
		from := binderFrom(t.op)
		r := rebuildWith(t, func(i int, a *Term) *Term {
			if from >= 0 && i >= from {
				return rec(a, d+1)
			}
			return rec(a, d)
		})
		memo[k] = r
		return r
	}
	return rec(t, 0)
}

// upperBound recognises the atom j < m (as j - m + 1 <= 0) for the innermost bound j.
func upperBound(at *Term) (*Term, bool) {
	if at.op != "le0" {
		return nil, false
	}
	l := toLin(at.args[0])
	rest := Lin{c: l.c}
	found := false
	for i, a := range l.atoms {
		if a == bv0 {
			if l.coef[i] != 1 {
				return nil, false
			}
			found = true
			continue
		}
		if usesBV(a) {
			return nil, false
		}
		rest = linCombine(rest, 1, atomLin(a, l.coef[i]), 1)
	}
	if !found {
		return nil, false
	}
	// j + rest <= 0  <=>  j < 1 - rest
	m := linCombine(rest, -1, Lin{}, 0)
	m.c++
	return fromLin(m, tInt), true
}

// mkExists is: some j < n satisfies body(j).
func mkExists(n, body *Term) *Term {
	body = asBool(body)
	if m := pastFirst(n, body); m != nil {
		return mkExists(m, body)
	}
	return lift1(n, func(n *Term) *Term {
		if v, ok := n.intVal(); ok && v <= 0 {
			return termFalse
		}
		if body.isFalse() {
			return termFalse
		}
		if m, c := peel(n); c > 0 {
			r := mkExists(m, body)
			for i := int64(0); i < c; i++ {
				r = mkOr(r, instantiate(body, addInt(m, i)))
			}
			return r
		}
		if !usesBV(body) {
			return mkAnd(unbind(body), mkLt(mkInt(0), n))
		}
		if r := reversed(n, body); r != nil {
			return mkExists(n, r)
		}
		if n.op == "first" && mkAnd(body, mkNot(asBool(n.args[1]))).isFalse() {
			return termFalse
		}
		if b := existsBelow(body); b != nil {
			return mkExists(addInt(n, -1), b)
		}
		return asBool(mk("exists", "", tBool, n, body))
	})
}

// reversed rewrites a body that counts down from the end of a list; nil when it does not.
func reversed(n, body *Term) *Term {
	if !usesBV(body) || n.op == "ite" {
		return nil
	}
	f := mk("revidx", "", tInt)
	r := closeBody(instantiate(body, addInt(mkSub(n, f), -1)), f)
	if r.size < body.size && countsDown(body) {
		return r
	}
	return nil
}

// countsDown tells whether an index is subtracted from something.
func countsDown(body *Term) bool {
	return containsFn(body, func(t *Term) bool {
		if t.lin != nil {
			for i, a := range t.lin.atoms {
				if a.op == "bvar" && t.lin.coef[i] < 0 {
					return true
				}
			}
		}
		return false
	})
}

// existsBelow recognises the body "some i < j satisfies b", with b independent of j.
func existsBelow(body *Term) *Term {
	if body.op != "ite" || !body.args[1].isTrue() || !body.args[2].isFalse() || body.args[0].op != "exists" {
		return nil
	}
	x := mk("below", "", tInt)
	e := instantiate(body, x)
	if e.op != "ite" || e.args[0].op != "exists" || e.args[0].args[0] != x || contains(e.args[0].args[1], x) {
		return nil
	}
	return e.args[0].args[1]
}

// pastFirst recognises the number of iterations of a loop that stops after the first match: the position
// after the first of m positions satisfying body, or m.
func pastFirst(n, body *Term) *Term {
	if n.op != "ite" || n.args[0].op != "exists" || n.args[0].args[1] != body {
		return nil
	}
	m := n.args[0].args[0]
	if n.args[2] == m && n.args[1] == addInt(mk("first", "", tInt, m, body), 1) {
		return m
	}
	return nil
}

// mkFirst is the least j < n satisfying body, or n.
func mkFirst(n, body *Term) *Term {
	body = asBool(body)
	if m := pastFirst(n, body); m != nil {
		return mkFirst(m, body)
	}
	return lift1(n, func(n *Term) *Term {
		if body.isFalse() || n == mkInt(0) {
			return n
		}
		if body.isTrue() {
			return mkInt(0)
		}
		if !usesBV(body) {
			return mkITE(unbind(body), mkInt(0), n)
		}
		if b := existsBelow(body); b != nil {
			return mkITE(mkExists(n, b), addInt(mkFirst(n, b), 1), n)
		}
		if r := reversed(n, body); r != nil {
			return mkITE(mkExists(n, r), addInt(mkSub(n, mkLast(n, r)), -1), n)
		}
		return mk("first", "", tInt, n, body)
	})
}

// mkLast is the greatest j < n satisfying body; it is only used where one exists.
func mkLast(n, body *Term) *Term {
	body = asBool(body)
	if m := pastFirst(n, body); m != nil {
		return mkFirst(m, body)
	}
	return lift1(n, func(n *Term) *Term {
		if body.isTrue() {
			return addInt(n, -1)
		}
		if m, c := peel(n); c > 0 {
			r := mkLast(m, body)
			for i := int64(0); i < c; i++ {
				j := addInt(m, i)
				r = mkITE(instantiate(body, j), j, r)
			}
			return r
		}
		if r := reversed(n, body); r != nil {
			return addInt(mkSub(n, mkFirst(n, r)), -1)
		}
		return mk("last", "", tInt, n, body)
	})
}

// mkMap is the concatenation of the sequences body(j) for j < n.
func mkMap(n, body *Term) *Term {
	return lift1(n, func(n *Term) *Term {
		if v, ok := n.intVal(); ok && v <= 0 {
			return mkSeq(nil)
		}
		if emptySeq(body) {
			return body
		}
		if m, c := peel(n); c > 0 {
			r := mkMap(m, body)
			for i := int64(0); i < c; i++ {
				r = catSeq(r, instantiate(body, addInt(m, i)))
			}
			return r
		}
		// j < n copies src[j+a]
		if body.op == "seq" && len(body.args) == 1 && body.args[0].op == "one" {
			v := body.args[0].args[0]
			if v.op == "elem" && !usesBV(v.args[0]) {
				off := mkSub(v.args[1], bv0)
				if !usesBV(off) {
					src := unbind(v.args[0])
					o := unbind(off)
					return mkSeq([]*Term{mkSubSeg(src, o, mkAdd(o, n))})
				}
			}
			if isZeroTerm(v) && v.typ != nil {
				return mkSeq([]*Term{mkSubSeg(mk("zeros", typeStr(v.typ), nil), mkInt(0), n)})
			}
		}
		return mkSeq([]*Term{mk("map", "", nil, n, body)})
	})
}

func isZeroTerm(t *Term) bool { return t.op == "zero" }

// ---- structured constructors ----

func mkLen(s *Term) *Term {
	return lift1(s, func(s *Term) *Term {
		switch s.op {
		case "nil":
			return mkInt(0)
		case "slice":
			return mkSub(s.args[2], s.args[1])
		case "const":
			if s.cv.Kind() == constant.String {
				return mkInt(int64(len(constant.StringVal(s.cv))))
			}
		case "seq":
			n := mkInt(0)
			for _, g := range s.args {
				n = mkAdd(n, segLen(g))
			}
			return n
		case "conv":
			if s.aux == "string" || s.aux == "bytes" {
				return mkLen(s.args[0])
			}
		}
		if a, ok := lenAlias[s]; ok {
			return mk("len", "", tInt, a)
		}
		if s.typ != nil {
			if ar, ok := s.typ.Underlying().(*types.Array); ok {
				return mkInt(ar.Len())
			}
		}
		return mk("len", "", tInt, s)
	})
}

// lenAlias identifies the lengths of slices which the entry assumption declares equal.
var lenAlias = map[*Term]*Term{}

func mkSlice(base, lo, hi *Term) *Term {
	return lift1(base, func(base *Term) *Term {
		if base.op == "slice" {
			nlo := mkAdd(base.args[1], lo)
			nhi := mkAdd(base.args[1], hi)
			return mkSlice(base.args[0], nlo, nhi)
		}
		if base.op == "nil" {
			return base
		}
		if lo.isInt(0) && base.op != "back" && base.op != "alloc" && base.op != "fld" && base.op != "idx" && hi == mkLen(base) {
			return base
		}
		return mk("slice", "", base.typ, base, lo, hi)
	})
}

// segment terms: sub(src,lo,hi), one(val), map(n, body), emit(kind; val)
func mkSubSeg(src, lo, hi *Term) *Term {
	return liftN([]*Term{src, lo, hi}, func(a []*Term) *Term {
		if a[0].op == "seq" && a[1].isInt(0) && a[2] == mkLen(a[0]) {
			return a[0]
		}
		return mk("sub", "", nil, a[0], a[1], a[2])
	})
}

// mkOne is a single element; case distinctions between few records are moved outside.
func mkOne(v *Term) *Term {
	if v.op == "ite" && isRef(v) {
		return lift1(v, func(v *Term) *Term { return mk("one", "", nil, v) })
	}
	return mk("one", "", nil, v)
}

func isRef(v *Term) bool {
	ls := leaves(v)
	if len(ls) > 4 {
		return false
	}
	for _, l := range ls {
		if l.isNil() {
			continue
		}
		if l.typ == nil {
			return false
		}
		if _, ok := l.typ.Underlying().(*types.Pointer); !ok {
			return false
		}
	}
	return true
}
func mkSeq(segs []*Term) *Term {
	// a diagram-valued segment (after substitution) distributes
	for i, g := range segs {
		if g.op == "ite" {
			rest := func(x *Term) *Term {
				n := append([]*Term(nil), segs[:i]...)
				n = append(n, x)
				n = append(n, segs[i+1:]...)
				return mkSeq(n)
			}
			return lift1(g, rest)
		}
		if g.op == "seq" {
			n := append([]*Term(nil), segs[:i]...)
			n = append(n, g.args...)
			n = append(n, segs[i+1:]...)
			return mkSeq(n)
		}
	}
	return mk("seq", "", nil, normSegs(segs)...)
}

func catSeq(a, b *Term) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		return mkSeq(append(append([]*Term(nil), a.args...), b.args...))
	})
}

func segLen(g *Term) *Term {
	switch g.op {
	case "sub":
		return mkSub(g.args[2], g.args[1])
	case "one":
		return mkInt(1)
	case "map":
		return mkSum(g.args[0], mkLen(g.args[1]))
	case "emit":
		if n, ok := emitWidth(g); ok {
			return mkInt(int64(n))
		}
		if g.aux == "varint" {
			return mkVarint(g.args[0])
		}
		return mk("len", "", tInt, g)
	}
	return mk("len", "", tInt, g)
}

func emitWidth(g *Term) (int, bool) {
	if len(g.aux) == 3 && (g.aux[:2] == "le" || g.aux[:2] == "be") {
		if n, err := strconv.Atoi(g.aux[2:]); err == nil {
			return n, true
		}
	}
	return 0, false
}

// mkVarint is the size of the variable length encoding of n.
func mkVarint(n *Term) *Term {
	return lift1(n, func(n *Term) *Term {
		if v, ok := n.intVal(); ok && v >= 0 {
			switch {
			case v < 0xfd:
				return mkInt(1)
			case v <= 0xffff:
				return mkInt(3)
			case v <= 0xffffffff:
				return mkInt(5)
			}
			return mkInt(9)
		}
		return mk("app", "varint", tInt, n)
	})
}

// varintDiagram is the defining case distinction of mkVarint, used to recognise implementations.
func varintDiagram(n *Term) *Term {
	le := func(c int64) *Term { return mkLe(n, mkInt(c)) }
	return mkITE(le(0xfc), mkInt(1), mkITE(le(0xffff), mkInt(3), mkITE(le(0xffffffff), mkInt(5), mkInt(9))))
}

func mkBin(op string, a, b *Term, typ types.Type) *Term {
	return lift2(a, b, func(a, b *Term) *Term {
		if (op == "*" || op == "+" || op == "&" || op == "|" || op == "^") && a.id > b.id {
			a, b = b, a
		}
		r := mk("bin", op, typ, a, b)
		if isBoolType(typ) {
			return asBool(r)
		}
		return r
	})
}

func mkField(v *Term, aux string, typ types.Type) *Term {
	return lift1(v, func(v *Term) *Term {
		if v.op == "struct" {
			if i, err := strconv.Atoi(aux); err == nil && i < len(v.args) {
				return v.args[i]
			}
		}
		if v.op == "zero" {
			return zeroOf(typ)
		}
		r := mk("field", aux, typ, v)
		if isBoolType(typ) {
			return asBool(r)
		}
		return r
	})
}

func mkStruct(typ types.Type, fields []*Term) *Term {
	if len(fields) > 0 && fields[0].op == "field" && fields[0].aux == "0" {
		base := fields[0].args[0]
		ok := base.typ != nil && types.Identical(base.typ, typ)
		for i, f := range fields {
			if f.op == "ite" && f.args[1].isTrue() && f.args[2].isFalse() {
				f = f.args[0]
			}
			if f.op != "field" || f.args[0] != base || f.aux != strconv.Itoa(i) {
				ok = false
				break
			}
		}
		if ok {
			return base
		}
	}
	return mk("struct", types.TypeString(typ, nil), typ, fields...)
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return termFalse
		case u.Info()&types.IsInteger != 0:
			return mkInt(0)
		case u.Info()&types.IsFloat != 0:
			return mkConst(constant.MakeFloat64(0), t)
		case u.Info()&types.IsString != 0:
			return mkStr("")
		}
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return mkNil()
	case *types.Struct:
		if !atomicStruct(t) {
			fs := make([]*Term, u.NumFields())
			for i := range fs {
				fs[i] = zeroOf(u.Field(i).Type())
			}
			return mkStruct(t, fs)
		}
	}
	return mk("zero", types.TypeString(t, nil), t)
}

// ---- printing ----

func (t *Term) String() string {
	n := 0
	return t.str(0, &n)
}

func (t *Term) str(d int, n *int) string {
	if t == nil {
		return "_"
	}
	*n++
	if d > 14 || *n > 600 {
		return "…"
	}
	as := func() string {
		var p []string
		for _, a := range t.args {
			p = append(p, a.str(d+1, n))
		}
		return strings.Join(p, ", ")
	}
	switch t.op {
	case "const":
		return t.cv.String()
	case "nil":
		return "nil"
	case "param", "global", "errglobal", "func":
		return shortName(t.aux)
	case "bvar":
		return "j" + t.aux
	case "k":
		return fmt.Sprintf("k%d", t.id)
	case "ite":
		if t.args[1].isTrue() && t.args[2].isFalse() {
			return t.args[0].str(d+1, n)
		}
		if t.args[1].isFalse() && t.args[2].isTrue() {
			return "!(" + t.args[0].str(d+1, n) + ")"
		}
		return "[" + t.args[0].str(d+1, n) + " ? " + t.args[1].str(d+1, n) + " : " + t.args[2].str(d+1, n) + "]"
	case "lin":
		var b strings.Builder
		for i, a := range t.lin.atoms {
			k := t.lin.coef[i]
			if i > 0 || k < 0 {
				if k < 0 {
					b.WriteString(" - ")
				} else {
					b.WriteString(" + ")
				}
			}
			if abs64(k) != 1 {
				fmt.Fprintf(&b, "%d*", abs64(k))
			}
			b.WriteString(a.str(d+1, n))
		}
		if t.lin.c > 0 {
			fmt.Fprintf(&b, " + %d", t.lin.c)
		} else if t.lin.c < 0 {
			fmt.Fprintf(&b, " - %d", -t.lin.c)
		}
		return "(" + b.String() + ")"
	case "le0":
		l := toLin(t.args[0])
		pos, neg := Lin{}, Lin{}
		for i, a := range l.atoms {
			if l.coef[i] > 0 {
				pos = linCombine(pos, 1, atomLin(a, l.coef[i]), 1)
			} else {
				neg = linCombine(neg, 1, atomLin(a, -l.coef[i]), 1)
			}
		}
		if l.c > 0 {
			pos.c = l.c
		} else {
			neg.c = -l.c
		}
		return fromLin(pos, tInt).str(d+1, n) + " <= " + fromLin(neg, tInt).str(d+1, n)
	case "eq0":
		return t.args[0].str(d+1, n) + " == 0"
	case "eq":
		return t.args[0].str(d+1, n) + " == " + t.args[1].str(d+1, n)
	case "isnil":
		return t.args[0].str(d+1, n) + " == nil"
	case "fld":
		return t.args[0].str(d+1, n) + "." + fieldName(t)
	case "idx", "elem":
		return t.args[0].str(d+1, n) + "[" + t.args[1].str(d+1, n) + "]"
	case "load":
		s := t.args[0].str(d+1, n)
		if t.args[1].op != "ver0" {
			return fmt.Sprintf("%s@%d", s, t.args[1].id)
		}
		return s
	case "slice", "sub":
		return t.args[0].str(d+1, n) + "[" + t.args[1].str(d+1, n) + ":" + t.args[2].str(d+1, n) + "]"
	case "alloc":
		return "new" + strconv.Itoa(t.id)
	case "back":
		return "arr" + strconv.Itoa(t.id)
	case "len":
		return "len(" + as() + ")"
	case "bin":
		return "(" + t.args[0].str(d+1, n) + " " + t.aux + " " + t.args[1].str(d+1, n) + ")"
	case "app":
		return shortName(t.aux) + "(" + as() + ")"
	case "ext":
		return t.args[0].str(d+1, n) + "#" + t.aux
	case "conv":
		return shortName(t.aux) + "(" + as() + ")"
	case "struct":
		return "{" + as() + "}"
	case "loopkey":
		return "loop" + strconv.Itoa(t.id)
	case "st":
		return "mem" + strconv.Itoa(t.id)
	}
	if len(t.args) == 0 {
		if t.aux != "" {
			return t.op + ":" + t.aux
		}
		return t.op
	}
	s := t.op
	if t.aux != "" {
		s += ":" + shortName(t.aux)
	}
	return s + "(" + as() + ")"
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}
