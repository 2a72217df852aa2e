package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

const tokEQL = token.EQL

type instrT = ssa.Instruction

// Interp evaluates functions over abstract states. Every function is evaluated once per call context,
// blocks in reverse postorder, with the states of all incoming edges joined at each block.
type Interp struct {
	P      *Program
	opaque map[string]bool  // functions not entered
	summ   map[string]model // functions replaced by a summary in this analysis
	watch  map[string]bool  // functions whose calls are recorded with the state
	unsup  map[string]bool
	events []*Event
	mute   int
	coarse bool // do not track the content of objects created inside loops
	loops  []*LoopCtx

	nInline, nLoops, nCalls, nBlocks, nJoins int
	lossy                                    map[string]bool
	recs                                     []*LoopRec
}

// LoopCtx is a loop around an event.
type LoopCtx struct {
	l     *loop
	fr    *Frame
	k     *Term
	bound *Term // iteration count when only the header test ends the loop; nil if unknown
	pre   *State
	key   *Term
}

// Event is one observable step, valid where pc holds.
type Event struct {
	kind   string // store, elem, call, enter, index, slice, div, panic, go, append, copy, write, defer
	instr  ssa.Instruction
	fn     *ssa.Function
	ctx    string
	addr   *Term
	val    *Term
	old    *Term
	callee string
	args   []*Term
	raw    []*Term
	res    *Term
	vals   []*Term
	pc     *Term
	facts  *Fact
	loops  []*LoopCtx
	st     *State
	n      int
	stack  []*ssa.Function
}

// Frame is one activation of a function.
type Frame struct {
	fn    *ssa.Function
	ctx   string
	stack []*ssa.Function
	ks    []*Term
	free  map[*ssa.FreeVar]*Term
	args  []*Term
}

// Path is a state with the values of the SSA registers.
type Path struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []*ssa.Defer
}

// Ret is one return of the analysed function.
type Ret struct {
	st    *State
	vals  []*Term
	instr ssa.Instruction
}

func newInterp(P *Program) *Interp {
	return &Interp{P: P, unsup: map[string]bool{}, opaque: map[string]bool{}, watch: map[string]bool{}, lossy: map[string]bool{}}
}

func (p *Path) clone() *Path {
	return &Path{st: p.st.clone(), env: cloneEnv(p.env), defers: p.defers}
}

func cloneEnv(e map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(e)+8)
	for k, v := range e {
		n[k] = v
	}
	return n
}

func (in *Interp) event(fr *Frame, st *State, e *Event) {
	if in.mute > 0 {
		return
	}
	e.fn, e.ctx, e.stack = fr.fn, fr.ctx, fr.stack
	e.pc, e.facts = st.pc, st.facts
	e.loops = append([]*LoopCtx(nil), in.loops...)
	e.n = len(in.events)
	in.events = append(in.events, e)
}

// run analyses a function from a state with the given arguments.
func (in *Interp) run(fn *ssa.Function, st *State, args []*Term) []Ret {
	fr := &Frame{fn: fn, ctx: shortFn(fn), stack: []*ssa.Function{fn}, args: args}
	return in.exec(fr, st)
}

func shortFn(fn *ssa.Function) string { return shortName(fnName(fn)) }

func (in *Interp) exec(fr *Frame, st *State) []Ret {
	p := &Path{st: st.clone(), env: map[ssa.Value]*Term{}}
	for i, prm := range fr.fn.Params {
		p.env[prm] = fr.args[i]
	}
	exits, _ := in.region(fr, nil, fr.fn.Blocks[0], []edge{{path: p}})
	var rets []Ret
	for _, x := range exits {
		if x.ret != nil {
			rets = append(rets, Ret{st: x.path.st, vals: x.vals, instr: x.ret})
		}
	}
	return rets
}

// edge is control flowing from a block with a state. For returns ret is set.
type edge struct {
	from, to *ssa.BasicBlock
	path     *Path
	ret      *ssa.Return
	vals     []*Term
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := make([]bool, len(fn.Blocks))
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i].Index] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// region evaluates the blocks of a loop body (or of the whole function when l is nil) once.
// It returns the edges leaving the region and the back edges to the loop header.
func (in *Interp) region(fr *Frame, l *loop, entry *ssa.BasicBlock, start []edge) (exits, backs []edge) {
	li := in.P.loopsOf(fr.fn)
	incoming := map[*ssa.BasicBlock][]edge{entry: start}
	route := func(e edge) {
		switch {
		case e.ret != nil:
			exits = append(exits, e)
		case l != nil && e.to == l.header:
			backs = append(backs, e)
		case l != nil && !l.body[e.to]:
			exits = append(exits, e)
		default:
			incoming[e.to] = append(incoming[e.to], e)
		}
	}
	for _, b := range li.rpo {
		if l != nil && !l.body[b] {
			continue
		}
		inner := li.inner[b]
		if inner != l {
			// part of a nested loop: handled at the header of the outermost loop inside this region
			h := inner
			for h != nil && h.parent != l {
				h = h.parent
			}
			if h == nil || h.header != b {
				continue
			}
			es := incoming[b]
			if len(es) == 0 {
				continue
			}
			for _, x := range in.loop(fr, h, es) {
				route(x)
			}
			continue
		}
		es := incoming[b]
		if len(es) == 0 {
			continue
		}
		var p *Path
		if b == entry {
			p = es[0].path // phis already set
		} else {
			p = in.join(fr, b, es)
		}
		for _, e := range in.block(fr, p, b) {
			route(e)
		}
	}
	return exits, backs
}

// join merges the states of the incoming edges of a block and evaluates its phis.
func (in *Interp) join(fr *Frame, b *ssa.BasicBlock, es []edge) *Path {
	phis := headerPhis(b)
	phiVal := func(e edge) []*Term {
		vals := make([]*Term, len(phis))
		for i, ph := range phis {
			vals[i] = in.val(fr, e.path, ph.Edges[predIdx(b, e.from)])
		}
		return vals
	}
	p := es[0].path
	vals := phiVal(es[0])
	if len(es) == 1 {
		p = p.clone()
	}
	for _, e := range es[1:] {
		ev := phiVal(e)
		var pick func(x, y *Term) *Term
		p, pick = in.merge(p, e.path)
		for i := range vals {
			vals[i] = pick(vals[i], ev[i])
		}
	}
	for i, ph := range phis {
		p.env[ph] = vals[i]
	}
	return p
}

// merge joins two states; pick selects between values of the two sides.
func (in *Interp) merge(a, b *Path) (*Path, func(x, y *Term) *Term) {
	in.nJoins++
	pc := mkOr(a.st.pc, b.st.pc)
	c := restrict(a.st.pc, pc)
	pick := func(x, y *Term) *Term {
		if x == y {
			return x
		}
		if x == nil {
			return y
		}
		if y == nil {
			return x
		}
		return mkITE(c, x, y)
	}
	st := &State{pc: pc, mem: make(map[string]*Term, len(a.st.mem)), cont: make(map[*Term]*Term, len(a.st.cont)), fams: map[string]*fam{}}
	for k, f := range a.st.fams {
		if g := b.st.fams[k]; g != nil && *g != *f {
			if g.pat == f.pat {
				st.fams[k] = &fam{f.pat, pick(f.cont, g.cont)}
			}
			continue
		}
		st.fams[k] = f
	}
	for k, g := range b.st.fams {
		if a.st.fams[k] == nil {
			st.fams[k] = g
		}
	}
	for k, v := range a.st.mem {
		w, ok := b.st.mem[k]
		if !ok {
			w = ver0()
		}
		st.mem[k] = pick(v, w)
	}
	for k, w := range b.st.mem {
		if _, ok := a.st.mem[k]; !ok {
			st.mem[k] = pick(ver0(), w)
		}
	}
	def := func(k *Term) *Term {
		if k.op == "alloc" || k.op == "back" || k.op == "fld" && fresh(k) {
			return nil // does not exist on that side
		}
		return defaultCont(k)
	}
	for k, v := range a.st.cont {
		if w, ok := b.st.cont[k]; ok {
			st.cont[k] = pick(v, w)
		} else {
			st.cont[k] = pick(v, def(k))
		}
	}
	for k, w := range b.st.cont {
		if _, ok := a.st.cont[k]; !ok {
			st.cont[k] = pick(def(k), w)
		}
	}
	st.facts = joinFacts(a.st.facts, b.st.facts)
	st.facts = st.facts.assume(pc)
	env := make(map[ssa.Value]*Term, len(a.env))
	for k, v := range a.env {
		if w, ok := b.env[k]; ok {
			env[k] = pick(v, w)
		}
	}
	return &Path{st: st, env: env, defers: mergeDefers(a.defers, b.defers)}, pick
}

func mergeDefers(a, b []*ssa.Defer) []*ssa.Defer {
	out := append([]*ssa.Defer(nil), a...)
	for _, d := range b {
		has := false
		for _, e := range out {
			if e == d {
				has = true
			}
		}
		if !has {
			out = append(out, d)
		}
	}
	return out
}

// joinFacts keeps the literals that hold on both sides.
func joinFacts(a, b *Fact) *Fact {
	// common prefix
	x, y := a, b
	for x != y {
		if x.len() >= y.len() {
			x = x.prev
		} else {
			y = y.prev
		}
	}
	base := x
	out := base
	keep := func(from, other *Fact) {
		for _, l := range from.since(base) {
			if other.has(l) {
				out = out.push(l)
				continue
			}
			if (l.atom.op == "le0" || l.atom.op == "eq0" && l.pos) && other.holdsAtom(l.atom) == b2i(l.pos) {
				out = out.push(l)
			}
		}
	}
	keep(a, b)
	keep(b, a)
	return out
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		ph, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, ph)
	}
	return out
}

func predIdx(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return 0
}

// outOfTime ends an analysis that was given a time limit.
type outOfTime struct{}

// within runs f with a time limit and tells whether it ended in time.
func (P *Program) within(d time.Duration, f func()) (ok bool) {
	P.deadline = time.Now().Add(d)
	defer func() {
		P.deadline = time.Time{}
		if e := recover(); e != nil {
			if _, is := e.(outOfTime); !is {
				panic(e)
			}
			ok = false
		}
	}()
	f()
	return true
}

// block evaluates one block and yields its outgoing edges.
func (in *Interp) block(fr *Frame, p *Path, b *ssa.BasicBlock) []edge {
	in.nBlocks++
	if !in.P.deadline.IsZero() && time.Now().After(in.P.deadline) {
		panic(outOfTime{})
	}
	for i, instr := range b.Instrs {
		switch v := instr.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := p.st.simp(asBool(in.val(fr, p, v.Cond)))
			var out []edge
			q := p.clone()
			if q.st.narrow(c) {
				q.st.settle()
				out = append(out, edge{from: b, to: b.Succs[0], path: q})
			}
			if p.st.narrow(mkNot(c)) {
				p.st.settle()
				out = append(out, edge{from: b, to: b.Succs[1], path: p})
			}
			return out
		case *ssa.Jump:
			return []edge{{from: b, to: b.Succs[0], path: p}}
		case *ssa.Return:
			var vals []*Term
			for _, r := range v.Results {
				vals = append(vals, p.st.notNil(p.st.simp(in.val(fr, p, r))))
			}
			return []edge{{from: b, path: p, ret: v, vals: vals}}
		case *ssa.Panic:
			in.event(fr, p.st, &Event{kind: "panic", instr: v})
			return nil
		case *ssa.Defer:
			p.defers = append(p.defers[:len(p.defers):len(p.defers)], v)
			in.event(fr, p.st, &Event{kind: "defer", instr: v, callee: calleeName(&v.Call)})
		case *ssa.RunDefers:
			ds := p.defers
			p.defers = nil
			for d := len(ds) - 1; d >= 0; d-- {
				if _, ok := in.call(fr, p, ds[d], &ds[d].Call); !ok {
					return nil
				}
			}
		case *ssa.Go:
			in.event(fr, p.st, &Event{kind: "go", instr: v, callee: calleeName(&v.Call)})
		case *ssa.Call:
			vals, ok := in.call(fr, p, v, &v.Call)
			if !ok {
				return nil
			}
			p.env[v] = tupleOf(vals, v.Type())
		default:
			in.simple(fr, p, b, i, instr)
		}
	}
	return nil
}

func calleeName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return "invoke:" + typeStr(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return fnName(f)
	}
	return "dyn"
}

func tupleOf(vals []*Term, t types.Type) *Term {
	if len(vals) == 1 {
		if _, ok := t.(*types.Tuple); !ok {
			return vals[0]
		}
	}
	return mk("tuple", "", nil, vals...)
}

// val evaluates an operand.
func (in *Interp) val(fr *Frame, p *Path, v ssa.Value) *Term {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			return zeroOf(c.Type())
		}
		return mkConst(c.Value, c.Type())
	case *ssa.Global:
		return mk("global", c.RelString(nil), c.Type())
	case *ssa.Function:
		return mkFunc(c)
	case *ssa.FreeVar:
		if t, ok := fr.free[c]; ok {
			return t
		}
	case *ssa.Builtin:
		return mk("builtin", c.Name(), nil)
	}
	if t, ok := p.env[v]; ok {
		return t
	}
	return mk("undef", fr.ctx+":"+v.Name(), v.Type())
}

// use evaluates an operand and simplifies it for the current point.
func (in *Interp) use(fr *Frame, p *Path, v ssa.Value) *Term { return p.st.simp(in.val(fr, p, v)) }

var funcTab = map[string]*ssa.Function{}

func mkFunc(f *ssa.Function) *Term {
	n := fnName(f)
	funcTab[n] = f
	return mk("func", n, f.Signature)
}

func (in *Interp) ks(fr *Frame) []*Term {
	ks := append([]*Term(nil), fr.ks...)
	for _, l := range in.loops {
		if l.fr == fr {
			ks = append(ks, l.k)
		}
	}
	return ks
}

func siteID(fr *Frame, b *ssa.BasicBlock, i int) string {
	return fr.ctx + "@" + strconv.Itoa(b.Index) + "." + strconv.Itoa(i)
}

func instrSite(fr *Frame, instr ssa.Instruction) string {
	b := instr.Block()
	for i, x := range b.Instrs {
		if x == instr {
			return siteID(fr, b, i)
		}
	}
	return fr.ctx + "@?"
}

func (in *Interp) newAlloc(fr *Frame, p *Path, site string, typ types.Type) *Term {
	a := mk("alloc", site, typ, in.ks(fr)...)
	delete(p.st.cont, a)
	if p.st.fams[site] != nil && arrayAddr(a) == nil {
		p.st.cont[a] = mkSeq(nil)
	}
	return a
}

func (in *Interp) newBack(fr *Frame, p *Path, site string, typ types.Type, seq *Term) *Term {
	b := mk("back", site, typ, in.ks(fr)...)
	p.st.cont[b] = seq
	return b
}

// freshSlice makes a slice value with the given content.
func (in *Interp) freshSlice(fr *Frame, p *Path, site string, t types.Type, seq *Term) *Term {
	bk := in.newBack(fr, p, site, t, seq)
	return mk("slice", "", t, bk, mkInt(0), mkLen(seq))
}

func (in *Interp) simple(fr *Frame, p *Path, b *ssa.BasicBlock, i int, instr ssa.Instruction) {
	st := p.st
	set := func(v ssa.Value, t *Term) { p.env[v] = t }
	nondet := func(v ssa.Value) *Term {
		return mkTyped("nondet", siteID(fr, b, i), v.Type(), in.ks(fr)...)
	}
	switch v := instr.(type) {
	case *ssa.Alloc:
		set(v, in.newAlloc(fr, p, siteID(fr, b, i), v.Type()))
	case *ssa.BinOp:
		x, y := in.use(fr, p, v.X), in.use(fr, p, v.Y)
		if (v.Op == token.QUO || v.Op == token.REM) && isIntegerType(v.Type()) {
			in.event(fr, st, &Event{kind: "div", instr: v, val: y})
		}
		set(v, in.binop(st, v.Op, x, y, v.X.Type(), v.Type()))
	case *ssa.UnOp:
		x := in.use(fr, p, v.X)
		switch v.Op {
		case token.MUL:
			in.event(fr, st, &Event{kind: "deref", instr: v, addr: x})
			set(v, in.load(st, x, v.Type()))
		case token.NOT:
			set(v, mkNot(x))
		case token.SUB:
			if isIntegerType(v.Type()) {
				set(v, in.arith(st, token.SUB, mkInt(0), x, v.Type()))
			} else {
				set(v, lift1(x, func(x *Term) *Term {
					if x.isConst() {
						return mkConst(constant.UnaryOp(token.SUB, x.cv, 0), v.Type())
					}
					return mk("bin", "neg", v.Type(), x)
				}))
			}
		case token.XOR:
			set(v, lift1(x, func(x *Term) *Term {
				if x.isConst() && isUnsignedType(v.Type()) {
					n := constant.UnaryOp(token.XOR, x.cv, uint(bitsOf(v.Type())))
					return mkConst(n, v.Type())
				}
				return mk("bin", "^", v.Type(), x)
			}))
		default:
			set(v, nondet(v))
		}
	case *ssa.FieldAddr:
		x := in.use(fr, p, v.X)
		in.event(fr, st, &Event{kind: "deref", instr: v, addr: x})
		set(v, mkFieldAddr(x, derefT(v.X.Type()), v.Field))
	case *ssa.Field:
		set(v, mkField(in.use(fr, p, v.X), strconv.Itoa(v.Field), v.Type()))
	case *ssa.IndexAddr:
		s, ix := in.use(fr, p, v.X), in.use(fr, p, v.Index)
		n := in.lenOf(s, v.X.Type())
		in.event(fr, st, &Event{kind: "index", instr: v, addr: s, val: ix, res: n})
		in.assumeIndex(st, ix, n)
		set(v, lift1(s, func(s *Term) *Term { return mk("idx", "", v.Type(), s, ix) }))
	case *ssa.Index:
		s, ix := in.use(fr, p, v.X), in.use(fr, p, v.Index)
		if isStringType(v.X.Type()) {
			set(v, in.readElem(st, s, ix, v.Type()))
		} else {
			set(v, in.elemAt(st, in.arrCont(s, v.X.Type()), ix, v.Type()))
		}
	case *ssa.Slice:
		in.slice(fr, p, v)
	case *ssa.Convert:
		if isFloatType(v.X.Type()) && isIntegerType(v.Type()) {
			in.event(fr, st, &Event{kind: "conv", instr: v, val: in.use(fr, p, v.X)})
		}
		set(v, in.convert(fr, p, siteID(fr, b, i), in.use(fr, p, v.X), v.X.Type(), v.Type()))
	case *ssa.MultiConvert:
		set(v, in.convert(fr, p, siteID(fr, b, i), in.use(fr, p, v.X), v.X.Type(), v.Type()))
	case *ssa.ChangeType:
		set(v, in.use(fr, p, v.X))
	case *ssa.ChangeInterface:
		set(v, in.use(fr, p, v.X))
	case *ssa.MakeInterface:
		x := in.use(fr, p, v.X)
		set(v, mk("iface", typeStr(v.X.Type()), v.X.Type(), x))
	case *ssa.SliceToArrayPointer:
		set(v, mk("app", "arrptr", v.Type(), in.use(fr, p, v.X)))
	case *ssa.MakeSlice:
		n := in.use(fr, p, v.Len)
		et := v.Type().Underlying().(*types.Slice).Elem()
		in.event(fr, st, &Event{kind: "make", instr: v, val: n, res: in.use(fr, p, v.Cap)})
		set(v, in.freshSlice(fr, p, siteID(fr, b, i), v.Type(), mkSeq([]*Term{zeroFill(et, n)})))
	case *ssa.MakeMap, *ssa.MakeChan:
		vv := instr.(ssa.Value)
		set(vv, mk("alloc", siteID(fr, b, i), vv.Type(), in.ks(fr)...))
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		funcTab[fnName(f)] = f
		var bs []*Term
		for _, x := range v.Bindings {
			bs = append(bs, in.val(fr, p, x))
		}
		set(v, mk("closure", fnName(f), v.Type(), bs...))
	case *ssa.Store:
		a := in.use(fr, p, v.Addr)
		in.event(fr, st, &Event{kind: "deref", instr: v, addr: a})
		in.store(fr, st, v, a, in.use(fr, p, v.Val), derefT(v.Addr.Type()))
	case *ssa.Extract:
		t := in.val(fr, p, v.Tuple)
		if t.op == "tuple" && v.Index < len(t.args) {
			set(v, st.simp(t.args[v.Index]))
		} else {
			set(v, mkExt(t, v.Index, v.Type()))
		}
	case *ssa.TypeAssert:
		x := in.use(fr, p, v.X)
		at := v.AssertedType
		val := lift1(x, func(x *Term) *Term {
			if x.op == "iface" && !types.IsInterface(at) {
				if x.aux == typeStr(at) {
					return x.args[0]
				}
				return zeroOf(at)
			}
			return mkTyped("app", "assert:"+typeStr(at), at, x)
		})
		ok := lift1(x, func(x *Term) *Term {
			if x.op == "iface" && !types.IsInterface(at) {
				return mkBool(x.aux == typeStr(at))
			}
			return asBool(mk("app", "is:"+typeStr(at), tBool, x))
		})
		if v.CommaOk {
			set(v, mk("tuple", "", nil, mkITE(asBool(ok), val, zeroOf(at)), ok))
		} else {
			set(v, val)
		}
	case *ssa.Lookup:
		x, ix := in.use(fr, p, v.X), in.use(fr, p, v.Index)
		if isStringType(v.X.Type()) {
			set(v, in.readElem(st, x, ix, v.Type()))
			return
		}
		ver := st.version("map")
		et := v.X.Type().Underlying().(*types.Map).Elem()
		val := mkTyped("app", "lookup", et, x, in.canon(st, ix, 0), ver)
		if v.CommaOk {
			set(v, mk("tuple", "", nil, val, asBool(mk("app", "haskey", tBool, x, in.canon(st, ix, 0), ver))))
		} else {
			set(v, val)
		}
	case *ssa.MapUpdate:
		m, k, val := in.use(fr, p, v.Map), in.use(fr, p, v.Key), in.use(fr, p, v.Value)
		in.event(fr, st, &Event{kind: "mapupdate", instr: v, addr: m, val: val})
		st.mem["map"] = mk("mapst", "", nil, st.version("map"), m, in.canon(st, k, 0), val)
	case *ssa.Range:
		set(v, mk("app", "range", v.Type(), in.use(fr, p, v.X)))
	case *ssa.Next:
		ks := in.ks(fr)
		set(v, mk("app", "next", nil, append([]*Term{in.use(fr, p, v.Iter)}, ks...)...))
	case *ssa.Send:
		in.event(fr, st, &Event{kind: "send", instr: v})
	case *ssa.Select:
		set(v, mk("nondet", siteID(fr, b, i), nil, in.ks(fr)...))
	default:
		in.unsup[fmt.Sprintf("%T in %s", instr, fnName(fr.fn))] = true
		if vv, ok := instr.(ssa.Value); ok {
			set(vv, nondet(vv))
		}
	}
}

// mkTyped makes an opaque value, as a diagram if it is boolean.
func mkTyped(op, aux string, typ types.Type, args ...*Term) *Term {
	t := mk(op, aux, typ, args...)
	if isBoolType(typ) {
		return asBool(t)
	}
	return t
}

func mkExt(t *Term, i int, typ types.Type) *Term {
	return mkTyped("ext", strconv.Itoa(i), typ, t)
}

// assumeIndex records that execution continues only with the index in range.
func (in *Interp) assumeIndex(st *State, ix, n *Term) {
	for _, c := range []*Term{mkLe(mkInt(0), ix), mkLt(ix, n)} {
		if c = st.simp(c); c.isTrue() || c.isFalse() {
			continue
		}
		st.facts = st.facts.assume(c)
	}
}

func (in *Interp) lenOf(s *Term, t types.Type) *Term {
	if a, ok := derefT(t).Underlying().(*types.Array); ok {
		return mkInt(a.Len())
	}
	return mkLen(s)
}

func bitsOf(t types.Type) int {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

func (in *Interp) arith(st *State, op token.Token, x, y *Term, typ types.Type) *Term {
	return st.simp(lift2(x, y, func(x, y *Term) *Term { return in.arith1(st, op, x, y, typ) }))
}

func (in *Interp) arith1(st *State, op token.Token, x, y *Term, typ types.Type) *Term {
	uns := isUnsignedType(typ)
	if uns && bitsOf(typ) == 64 {
		x, y = ideal(x), ideal(y)
	}
	if x.op == "ite" || y.op == "ite" {
		return lift2(x, y, func(x, y *Term) *Term { return in.arith1(st, op, x, y, typ) })
	}
	var r *Term
	if op == token.ADD {
		r = mkAdd(x, y)
	} else {
		r = mkSub(x, y)
	}
	if !uns {
		return r
	}
	return lift1(r, func(r *Term) *Term {
		if n, ok := r.intVal(); ok {
			if n >= 0 {
				return mkConst(constant.MakeInt64(n), typ)
			}
			m := constant.BinaryOp(constant.MakeInt64(n), token.ADD, constant.Shift(constant.MakeInt64(1), token.SHL, uint(bitsOf(typ))))
			return mkConst(m, typ)
		}
		if nonneg(r) {
			return r
		}
		if st.facts.entailsLin(linCombine(toLin(r), -1, Lin{}, 0)) {
			return r
		}
		if bitsOf(typ) == 64 {
			return mkMod(r, typ)
		}
		return mk("bin", "wrap"+op.String(), typ, x, y)
	})
}

func (in *Interp) binop(st *State, op token.Token, x, y *Term, xt, typ types.Type) *Term {
	switch op {
	case token.EQL, token.NEQ:
		var e *Term
		if isIntegerType(xt) {
			e = mkEqInt(x, y)
		} else {
			e = in.eqVals(st, x, y, xt)
		}
		if op == token.NEQ {
			return mkNot(e)
		}
		return e
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if isIntegerType(xt) {
			switch op {
			case token.LSS:
				return mkLt(x, y)
			case token.LEQ:
				return mkLe(x, y)
			case token.GTR:
				return mkLt(y, x)
			default:
				return mkLe(y, x)
			}
		}
		lt := func(x, y *Term) *Term {
			return lift2(x, y, func(x, y *Term) *Term {
				if x.isConst() && y.isConst() {
					return mkBool(constant.Compare(x.cv, token.LSS, y.cv))
				}
				return asBool(mk("flt", "<", tBool, x, y))
			})
		}
		switch op {
		case token.LSS:
			return lt(x, y)
		case token.GTR:
			return lt(y, x)
		case token.LEQ:
			return mkNot(lt(y, x))
		default:
			return mkNot(lt(x, y))
		}
	}
	switch {
	case isIntegerType(typ) && (op == token.ADD || op == token.SUB):
		return in.arith(st, op, x, y, typ)
	case isIntegerType(typ) && op == token.MUL:
		return mkMul(x, y)
	}
	return lift2(x, y, func(x, y *Term) *Term { return binLeaf(op, x, y, typ) })
}

func binLeaf(op token.Token, x, y *Term, typ types.Type) *Term {
	if isIntegerType(typ) {
		switch op {
		case token.QUO, token.REM:
			if x.isConst() && y.isConst() && constant.Sign(y.cv) != 0 {
				o := op
				if o == token.QUO {
					o = token.QUO_ASSIGN
				}
				return mkConst(constant.BinaryOp(x.cv, o, y.cv), typ)
			}
			if y.isInt(1) && op == token.QUO {
				return x
			}
			return mk("bin", op.String(), typ, x, y)
		case token.AND, token.OR, token.XOR, token.AND_NOT:
			if x.isConst() && y.isConst() {
				return mkConst(constant.BinaryOp(x.cv, op, y.cv), typ)
			}
			if y.isInt(0) {
				if op == token.AND {
					return y
				}
				return x
			}
			if op != token.AND_NOT && x.id > y.id {
				x, y = y, x
			}
			return mk("bin", op.String(), typ, x, y)
		case token.SHL, token.SHR:
			n, ok := y.intVal()
			if ok && n < 64 && x.isConst() {
				return mkConst(constant.Shift(x.cv, op, uint(n)), typ)
			}
			if ok && n < 31 && op == token.SHL {
				return mkScale(x, 1<<uint(n))
			}
			if ok && n < 31 && op == token.SHR && nonneg(x) {
				return mk("bin", "/", typ, x, mkInt(1<<uint(n)))
			}
			return mk("bin", op.String(), typ, x, y)
		}
	}
	if isStringType(typ) {
		if x.isConst() && y.isConst() {
			return mkConst(constant.BinaryOp(x.cv, op, y.cv), typ)
		}
		return mk("bin", "+s", typ, x, y)
	}
	if x.isConst() && y.isConst() && (op != token.QUO || constant.Sign(y.cv) != 0) {
		return mkConst(constant.BinaryOp(constant.ToFloat(x.cv), op, constant.ToFloat(y.cv)), typ)
	}
	if (op == token.ADD || op == token.MUL) && x.id > y.id {
		x, y = y, x
	}
	return mk("bin", op.String(), typ, x, y)
}

// eqVals compares non-integer values; byte arrays and strings compare by content.
func (in *Interp) eqVals(st *State, x, y *Term, t types.Type) *Term {
	if isStringType(t) {
		a, b := in.contTerm(st, x), in.contTerm(st, y)
		if a.op == "seq" || b.op == "seq" {
			return mkEq(a, b)
		}
	}
	return mkEq(x, y)
}

func (in *Interp) slice(fr *Frame, p *Path, v *ssa.Slice) {
	st := p.st
	x := in.use(fr, p, v.X)
	n := in.lenOf(x, v.X.Type())
	lo := mkInt(0)
	if v.Low != nil {
		lo = in.use(fr, p, v.Low)
	}
	hi := n
	if v.High != nil {
		hi = in.use(fr, p, v.High)
	}
	in.event(fr, st, &Event{kind: "slice", instr: v, addr: x, args: []*Term{lo, hi, n}})
	// slicing beyond the length (up to the capacity) is not modelled: execution continues within it
	for _, c := range []*Term{mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n)} {
		if c = st.simp(c); !c.isTrue() && !c.isFalse() {
			st.facts = st.facts.assume(c)
		}
	}
	if isStringType(v.X.Type()) {
		if lo.isInt(0) && hi == n {
			p.env[v] = x
			return
		}
		p.env[v] = mk("conv", "string", v.Type(), in.cut(st, in.contOf(st, x), lo, hi))
		return
	}
	p.env[v] = mkSliceT(x, lo, hi, v.Type())
}

func mkSliceT(x, lo, hi *Term, t types.Type) *Term {
	return lift1(x, func(x *Term) *Term {
		if x.op == "slice" || x.op == "nil" {
			return mkSlice(x, lo, hi)
		}
		if lo.isInt(0) && arrayAddr(x) == nil && x.op != "back" && hi == mkLen(x) {
			return x
		}
		return mk("slice", "", t, x, lo, hi)
	})
}

func (in *Interp) convert(fr *Frame, p *Path, site string, x *Term, from, to types.Type) *Term {
	st := p.st
	if isStringType(from) && !isStringType(to) {
		if sl, ok := to.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return in.freshSlice(fr, p, site, to, in.contOf(st, x))
			}
		}
		return mk("conv", typeStr(to), to, x)
	}
	if isStringType(to) && !isStringType(from) && !isIntegerType(from) {
		return lift1(in.contTerm(st, x), func(c *Term) *Term {
			if c.op != "seq" && c.typ != nil && isStringType(c.typ) {
				return c
			}
			return mk("conv", "string", to, c)
		})
	}
	return lift1(x, func(x *Term) *Term { return convLeaf(st, x, from, to) })
}

func convLeaf(st *State, x *Term, from, to types.Type) *Term {
	fi, ti := isIntegerType(from), isIntegerType(to)
	switch {
	case fi && ti:
		if x.isConst() {
			v := x.cv
			bits := uint(bitsOf(to))
			if isUnsignedType(to) {
				mod := constant.Shift(constant.MakeInt64(1), token.SHL, bits)
				v = constant.BinaryOp(v, token.REM, mod)
				if constant.Sign(v) < 0 {
					v = constant.BinaryOp(v, token.ADD, mod)
				}
			}
			return mkConst(v, to)
		}
		fb, tb := bitsOf(from), bitsOf(to)
		fu, tu := isUnsignedType(from), isUnsignedType(to)
		if tb < fb {
			// lengths and loop counters fit 32 bits
			if tb == 32 && lenLike(x) {
				return x
			}
			return mk("conv", to.Underlying().String(), to, x)
		}
		if fu && !tu && tb == 64 {
			return ideal(x) // values below 2^63
		}
		if fu && !tu && tb == fb && !lenLike(x) {
			// the upper half turns negative
			return mk("conv", to.Underlying().String(), to, x)
		}
		if !fu && tu && tb == 64 {
			if nonneg(x) || st.facts.entailsLin(linCombine(toLin(x), -1, Lin{}, 0)) {
				return x
			}
			return mkMod(x, to)
		}
		return x
	case fi && isFloatType(to):
		if x.isConst() {
			return mkConst(constant.ToFloat(x.cv), to)
		}
		return mk("conv", to.Underlying().String(), to, x)
	case isFloatType(from) && ti:
		if x.isConst() {
			if f, ok := constant.Float64Val(x.cv); ok && f == float64(int64(f)) {
				return mkConst(constant.MakeInt64(int64(f)), to)
			}
		}
		return mk("conv", to.Underlying().String(), to, x)
	case isFloatType(from) && isFloatType(to):
		if x.isConst() {
			return mkConst(x.cv, to)
		}
		if types.Identical(from.Underlying(), to.Underlying()) {
			return x
		}
		return mk("conv", to.Underlying().String(), to, x)
	case isStringType(to) && fi:
		return mk("conv", "runestring", to, x)
	case isStringType(to) && isStringType(from):
		return x
	}
	return mk("conv", typeStr(to), to, x)
}

func lenLike(x *Term) bool {
	l := toLin(x)
	for _, a := range l.atoms {
		switch a.op {
		case "len", "k", "bvar", "first", "last":
		default:
			return false
		}
	}
	return true
}

// ---- calls ----

func (in *Interp) call(fr *Frame, p *Path, instr ssa.CallInstruction, c *ssa.CallCommon) ([]*Term, bool) {
	in.nCalls++
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return in.builtin(fr, p, instr, c, b)
	}
	var args []*Term
	for _, a := range c.Args {
		args = append(args, in.use(fr, p, a))
	}
	if c.IsInvoke() {
		recv := in.use(fr, p, c.Value)
		if recv.op == "iface" && recv.typ != nil {
			if f := in.P.ssa.LookupMethod(recv.typ, c.Method.Pkg(), c.Method.Name()); f != nil {
				return in.callFn(fr, p, instr, f, append([]*Term{recv.args[0]}, args...), nil)
			}
		}
		name := "invoke:" + typeStr(c.Value.Type()) + "." + c.Method.Name()
		all := append([]*Term{recv}, args...)
		if m := models[c.Method.Name()+"@invoke"]; m != nil {
			if vals, ok := m(&callCtx{in, fr, p, instr, nil, all, name, c.Signature()}); ok {
				return vals, true
			}
		}
		return in.opaqueCall(fr, p, instr, name, all, c.Signature()), true
	}
	if f := c.StaticCallee(); f != nil {
		var free map[*ssa.FreeVar]*Term
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			t := in.val(fr, p, mc)
			free = map[*ssa.FreeVar]*Term{}
			for i, fv := range f.FreeVars {
				if i < len(t.args) {
					free[fv] = t.args[i]
				}
			}
		}
		return in.callFn(fr, p, instr, f, args, free)
	}
	return in.callValue(fr, p, instr, in.use(fr, p, c.Value), args, c.Signature())
}

func (in *Interp) callValue(fr *Frame, p *Path, instr ssa.CallInstruction, fv *Term, args []*Term, sig *types.Signature) ([]*Term, bool) {
	switch fv.op {
	case "func":
		return in.callFn(fr, p, instr, funcTab[fv.aux], args, nil)
	case "closure":
		f := funcTab[fv.aux]
		free := map[*ssa.FreeVar]*Term{}
		for i, v := range f.FreeVars {
			if i < len(fv.args) {
				free[v] = fv.args[i]
			}
		}
		return in.callFn(fr, p, instr, f, args, free)
	}
	return in.opaqueCall(fr, p, instr, "dyn", append([]*Term{fv}, args...), sig), true
}

func (in *Interp) callFn(fr *Frame, p *Path, instr ssa.CallInstruction, f *ssa.Function, args []*Term, free map[*ssa.FreeVar]*Term) ([]*Term, bool) {
	name := fnName(f)
	if m := in.summ[name]; m != nil {
		if vals, ok := m(&callCtx{in, fr, p, instr, f, args, name, f.Signature}); ok {
			return vals, true
		}
	}
	if m := models[name]; m != nil && !in.opaque[name] {
		if vals, ok := m(&callCtx{in, fr, p, instr, f, args, name, f.Signature}); ok {
			return vals, true
		}
	}
	inl := f.Blocks != nil && !in.opaque[name] && (in.P.inRepo(f) || inlineList[name])
	if inl {
		for _, s := range fr.stack {
			if s == f {
				inl = false
			}
		}
		if len(fr.stack) > 14 {
			inl = false
		}
	}
	if !inl {
		return in.opaqueCall(fr, p, instr, name, args, f.Signature), true
	}
	if in.P.isVarint(f) {
		return []*Term{mkVarint(args[0])}, true
	}
	in.nInline++
	nf := &Frame{fn: f, ctx: instrSite(fr, instr) + ">" + shortFn(f), stack: append(append([]*ssa.Function(nil), fr.stack...), f), ks: in.ks(fr), free: free, args: args}
	ev := &Event{kind: "enter", instr: instr, callee: name, raw: args}
	if in.mute == 0 && in.P.inRepo(f) {
		ev.st = p.st.clone()
	}
	in.event(fr, p.st, ev)
	rets := in.exec(nf, p.st)
	if len(rets) == 0 {
		return nil, false
	}
	cur := &Path{st: rets[0].st, env: map[ssa.Value]*Term{}}
	vals := append([]*Term(nil), rets[0].vals...)
	for _, r := range rets[1:] {
		var pick func(x, y *Term) *Term
		cur, pick = in.merge(cur, &Path{st: r.st, env: map[ssa.Value]*Term{}})
		for i := range vals {
			vals[i] = pick(vals[i], r.vals[i])
		}
	}
	p.st = cur.st
	in.gcCall(p.st, vals, nf.ctx)
	for i := range vals {
		vals[i] = p.st.simp(vals[i])
	}
	lv := &Event{kind: "leave", instr: instr, callee: name, raw: args, vals: vals}
	if in.mute == 0 && in.P.inRepo(f) {
		lv.st = p.st.clone()
	}
	in.event(fr, p.st, lv)
	return vals, true
}

// isVarint recognises functions that compute the size of the variable length integer encoding of their
// argument.
func (P *Program) isVarint(f *ssa.Function) bool {
	if is, ok := P.varint[f]; ok {
		return is
	}
	P.varint[f] = false
	sig := f.Signature
	if sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !isIntegerType(sig.Params().At(0).Type()) || !isIntegerType(sig.Results().At(0).Type()) || len(f.FreeVars) > 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Phi, *ssa.BinOp, *ssa.UnOp, *ssa.Convert, *ssa.ChangeType, *ssa.DebugRef:
			default:
				return false
			}
		}
	}
	a := P.analyse(f, nil)
	if len(a.rets) == 0 {
		return false
	}
	v := a.combined(0)
	for _, l := range leaves(v) {
		if !l.isInt(1) && !l.isInt(3) && !l.isInt(5) && !l.isInt(9) {
			return false
		}
	}
	P.varint[f] = newState().proves(mkEqInt(v, varintDiagram(a.args[0])))
	return P.varint[f]
}
