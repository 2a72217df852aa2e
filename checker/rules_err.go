package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What a value is known to be on a path.
type knowledge int8

const (
	isAny  knowledge = iota
	isNone           // nil or false
	isSome           // not nil or true
)

func (k knowledge) not() knowledge {
	switch k {
	case isNone:
		return isSome
	case isSome:
		return isNone
	}
	return isAny
}

// errWalk follows the paths of a function from a call that fails, with what is known about errors and
// flags on them. Paths that know the same at the same edge are followed once.
type errWalk struct {
	P     *Program
	fn    *ssa.Function
	call  ssa.CallInstruction // the call that fails
	fail  knowledge           // what its indicator is then
	index int                 // of the indicator in the result
	live  func(v ssa.Value, b *ssa.BasicBlock) bool
	memo  map[string]bool
	steps int

	onCall   func(c ssa.CallInstruction, e *errEnv) bool // false ends the path
	onReturn func(ret *ssa.Return, e *errEnv)
	onBranch func(x *ssa.If, taken bool, e *errEnv) bool // false: the way is not taken
	pin      func(v ssa.Value) knowledge                 // values known on every path
}

type errEnv struct {
	val   map[ssa.Value]knowledge
	cause map[string]bool // variables the failure's cause is known to be
	state string          // of the automaton that follows the path
}

func (e *errEnv) clone() *errEnv {
	n := &errEnv{map[ssa.Value]knowledge{}, map[string]bool{}, e.state}
	for k, v := range e.val {
		n.val[k] = v
	}
	for k := range e.cause {
		n.cause[k] = true
	}
	return n
}

func (e *errEnv) of(v ssa.Value) knowledge {
	switch c := v.(type) {
	case *ssa.Const:
		if c.Value == nil {
			if _, basic := c.Type().Underlying().(*types.Basic); !basic {
				return isNone
			}
			return isAny
		}
		if c.Value.Kind() == constant.Bool {
			if constant.BoolVal(c.Value) {
				return isSome
			}
			return isNone
		}
		return isAny
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure, *ssa.Function:
		return isSome
	}
	return e.val[v]
}

// indicator tells which result of a call reports failure, and by what.
func (P *Program) indicator(sig *types.Signature, callee *ssa.Function, flags map[*ssa.Function]bool) (int, knowledge) {
	n := sig.Results().Len()
	if n == 0 {
		return -1, isAny
	}
	if isErrorType(sig.Results().At(n - 1).Type()) {
		return n - 1, isSome
	}
	if callee != nil && flags[callee] {
		return n - 1, isNone
	}
	return -1, isAny
}

// reach lists the blocks reachable from each block, itself included only through a loop.
func reachBlocks(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock(nil), b.Succs...)
		for len(work) > 0 {
			x := work[len(work)-1]
			work = work[:len(work)-1]
			if !seen[x] {
				seen[x] = true
				work = append(work, x.Succs...)
			}
		}
		out[b] = seen
	}
	return out
}

// run starts behind the failed call.
func (w *errWalk) run() {
	w.start()
	b := w.call.Block()
	e := &errEnv{map[ssa.Value]knowledge{}, map[string]bool{}, ""}
	if v := w.call.Value(); v != nil && v.Type() != nil {
		e.val[v] = w.fail
	}
	for i, in := range b.Instrs {
		if in == ssa.Instruction(w.call) {
			w.block(b, i+1, e)
			return
		}
	}
}

// through follows all paths from the entry of the function.
func (w *errWalk) through(e *errEnv) {
	w.start()
	w.block(w.fn.Blocks[0], 0, e)
}

func (w *errWalk) start() {
	w.memo = map[string]bool{}
	reach := reachBlocks(w.fn)
	w.live = func(v ssa.Value, b *ssa.BasicBlock) bool {
		refs := v.Referrers()
		if refs == nil {
			return false
		}
		for _, r := range *refs {
			if r.Block() == b || reach[b][r.Block()] {
				return true
			}
		}
		return false
	}
}

func (w *errWalk) key(b, from *ssa.BasicBlock, e *errEnv) string {
	var ks []string
	for v, k := range e.val {
		if k != isAny {
			ks = append(ks, fmt.Sprintf("%s=%d", v.Name(), k))
		}
	}
	for c := range e.cause {
		ks = append(ks, c)
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d<%d %s %s", b.Index, from.Index, e.state, strings.Join(ks, ","))
}

func (w *errWalk) enter(from, b *ssa.BasicBlock, e *errEnv) {
	pred := 0
	for i, p := range b.Preds {
		if p == from {
			pred = i
		}
	}
	n := e.clone()
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n.set(phi, e.of(phi.Edges[pred]))
	}
	for v := range n.val {
		if !w.live(v, b) {
			delete(n.val, v)
		}
	}
	k := w.key(b, from, n)
	if w.memo[k] {
		return
	}
	w.memo[k] = true
	w.steps++
	if w.steps > 20000 {
		panic("too many paths behind a failed call in " + relName(w.fn))
	}
	w.block(b, 0, n)
}

func (e *errEnv) set(v ssa.Value, k knowledge) {
	if k == isAny {
		delete(e.val, v)
	} else {
		e.val[v] = k
	}
}

// globalName names the variable a value is loaded from.
func globalName(v ssa.Value) string {
	if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
		if g, ok := l.X.(*ssa.Global); ok {
			return g.Name()
		}
	}
	return ""
}

func (w *errWalk) block(b *ssa.BasicBlock, from int, e *errEnv) {
	for _, in := range b.Instrs[from:] {
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Extract:
			k := isAny
			if w.call != nil && x.Tuple == w.call.Value() && x.Index == w.index {
				k = e.of(x.Tuple)
			}
			e.set(x, k)
		case *ssa.ChangeInterface:
			e.set(x, e.of(x.X))
		case *ssa.BinOp:
			e.set(x, w.compare(x, e))
		case *ssa.UnOp:
			k := isAny
			if x.Op == token.NOT {
				k = e.of(x.X).not()
			} else if globalName(x) != "" && isErrorType(x.Type()) {
				k = isSome
			} else if v, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL && unshared(v) {
				k = e.val[v]
			}
			if w.pin != nil && w.pin(x) != isAny {
				k = w.pin(x)
			}
			e.set(x, k)
		case *ssa.Store:
			// what a variable holds is kept under the variable itself
			if v, ok := x.Addr.(*ssa.Alloc); ok && unshared(v) {
				e.set(v, e.of(x.Val))
			}
		case *ssa.Alloc:
			e.set(x, isAny)
			if t := derefT(x.Type()); unshared(x) && (isErrorType(t) || isBoolType(t)) {
				e.set(x, isNone)
			}
		case *ssa.If:
			w.branch(x, e)
			return
		case *ssa.Jump:
			w.enter(b, b.Succs[0], e)
			return
		case *ssa.Return:
			w.onReturn(x, e)
			return
		case *ssa.Panic:
			return
		case *ssa.Defer, *ssa.Go:
		case ssa.CallInstruction:
			if noReturn(x.Common()) {
				return
			}
			if w.onCall != nil && !w.onCall(x, e) {
				return
			}
			if v := x.Value(); v != nil {
				e.set(v, w.result(x.Common(), e))
			}
		case ssa.Value:
			e.set(x, isAny)
		}
	}
}

// unshared tells whether a variable is stored to by its own function only.
func unshared(v *ssa.Alloc) bool {
	for _, u := range *v.Referrers() {
		switch x := u.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			if x.Addr != ssa.Value(v) {
				return false
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b != ssa.Value(v) {
					continue
				}
				for _, u := range *x.Fn.(*ssa.Function).FreeVars[i].Referrers() {
					if l, ok := u.(*ssa.UnOp); !ok || l.Op != token.MUL {
						if _, ok := u.(*ssa.DebugRef); !ok {
							return false
						}
					}
				}
			}
		default:
			return false
		}
	}
	return true
}

func noReturn(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil || f.Pkg == nil && f.Object() == nil {
		return false
	}
	n := f.Name()
	return fnName(f) == "os.Exit" || n == "Goexit" || strings.HasPrefix(n, "Fatal")
}

// result evaluates the functions that make errors of errors.
func (w *errWalk) result(c *ssa.CallCommon, e *errEnv) knowledge {
	f := c.StaticCallee()
	if f == nil || len(c.Args) == 0 {
		return isAny
	}
	switch fnName(f) {
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.Cause":
		return e.of(c.Args[0])
	case "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf", "errors.New", "fmt.Errorf":
		return isSome
	case "github.com/pkg/errors.Is", "errors.Is":
		if e.of(c.Args[0]) == isSome && e.cause[globalName(c.Args[1])] {
			return isSome
		}
	}
	return isAny
}

func (w *errWalk) compare(x *ssa.BinOp, e *errEnv) knowledge {
	if x.Op != token.EQL && x.Op != token.NEQ {
		return isAny
	}
	k := isAny
	l, r := e.of(x.X), e.of(x.Y)
	nilOrBool := func(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }
	switch {
	case nilOrBool(x.Y) && r != isAny && l != isAny, nilOrBool(x.X) && r != isAny && l != isAny:
		k = isNone
		if l == r {
			k = isSome
		}
	case l == isNone && r == isSome || l == isSome && r == isNone:
		k = isNone
	default:
		if w.ofFailure(x.X) && e.cause[globalName(x.Y)] || w.ofFailure(x.Y) && e.cause[globalName(x.X)] {
			k = isSome
		}
	}
	if x.Op == token.NEQ {
		k = k.not()
	}
	return k
}

// ofFailure tells whether a value is the failed call's error or its cause.
func (w *errWalk) ofFailure(v ssa.Value) bool {
	if w.call == nil {
		return false
	}
	switch x := v.(type) {
	case *ssa.Extract:
		return x.Tuple == w.call.Value() && x.Index == w.index
	case *ssa.Call:
		if x == w.call.Value() {
			return true
		}
		if f := x.Call.StaticCallee(); f != nil && (fnName(f) == "github.com/pkg/errors.Cause" || fnName(f) == "github.com/pkg/errors.Wrap") {
			return w.ofFailure(x.Call.Args[0])
		}
	}
	return false
}

func (w *errWalk) branch(x *ssa.If, e *errEnv) {
	b := x.Block()
	k := e.of(x.Cond)
	for i, way := range []knowledge{isSome, isNone} {
		if k != isAny && k != way {
			continue
		}
		n := e.clone()
		w.assume(x.Cond, way, n)
		if w.onBranch != nil && !w.onBranch(x, way == isSome, n) {
			continue
		}
		w.enter(b, b.Succs[i], n)
	}
}

// assume records what a test tells about errors and flags.
func (w *errWalk) assume(c ssa.Value, k knowledge, e *errEnv) {
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			w.assume(x.X, k.not(), e)
		}
		return
	case *ssa.Phi:
		e.set(x, k)
		return
	case *ssa.Extract:
		e.set(x, k)
		return
	case *ssa.Call:
		if f := x.Call.StaticCallee(); f != nil && len(x.Call.Args) == 2 && (fnName(f) == "github.com/pkg/errors.Is" || fnName(f) == "errors.Is") && k == isSome && w.ofFailure(x.Call.Args[0]) {
			e.cause[globalName(x.Call.Args[1])] = true
		}
		return
	case *ssa.BinOp:
		if x.Op != token.EQL && x.Op != token.NEQ {
			return
		}
		eq := k
		if x.Op == token.NEQ {
			eq = k.not()
		}
		for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
			if eq == isSome && w.ofFailure(p[0]) && globalName(p[1]) != "" {
				e.cause[globalName(p[1])] = true
			}
			if cst, ok := p[1].(*ssa.Const); ok && (isErrorType(p[0].Type()) || isBoolType(p[0].Type())) {
				if v := e.of(cst); v != isAny {
					if eq == isNone {
						v = v.not()
					}
					e.set(p[0], v)
				}
			}
		}
	}
}

// ---- P26 ----

// excused tells why an operation may go on after a call fails, or "".
func (P *Program) excused(fn *ssa.Function, c *ssa.CallCommon, name string) string {
	if strings.HasPrefix(name, "fmt.") {
		return "printing"
	}
	if P.writesMemory(fn, c, map[ssa.Value]bool{}) {
		return "a write to memory cannot fail"
	}
	res := fn.Signature.Results()
	if res.Len() == 1 && isStringType(res.At(0).Type()) {
		return "text for display"
	}
	noErr := true
	for i := 0; i < res.Len(); i++ {
		noErr = noErr && !isErrorType(res.At(i).Type())
	}
	if noErr && strings.HasSuffix(name, "channels.Protocols).Parse") {
		return "unparsable embedded data"
	}
	// an unknown script's size and cost
	switch kind, sized := aboutScript(c.Signature(), c.IsInvoke()); {
	case kind && sized:
		return "unknown script cost"
	case kind:
		if own, _ := aboutScript(fn.Signature, false); noErr || own {
			return "unknown script size"
		}
	}
	return ""
}

// aboutScript recognises functions of nothing but a script, and whether they take a rate as well.
func aboutScript(sig *types.Signature, invoke bool) (is, rate bool) {
	if invoke {
		return false, false
	}
	script := false
	see := func(t types.Type) bool {
		t = derefT(t)
		if isNamed(t, "Script") {
			script = true
			return true
		}
		b, ok := t.Underlying().(*types.Basic)
		rate = rate || ok && b.Info()&types.IsFloat != 0
		return ok && b.Info()&types.IsFloat != 0
	}
	if sig.Recv() != nil && !see(sig.Recv().Type()) {
		return false, false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !see(sig.Params().At(i).Type()) {
			return false, false
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		if t := sig.Results().At(i).Type(); !isErrorType(t) && !isIntegerType(t) {
			return false, false
		}
	}
	return script, rate
}

// writesMemory recognises calls that write to a buffer or hash.
func (P *Program) writesMemory(fn *ssa.Function, c *ssa.CallCommon, seen map[ssa.Value]bool) bool {
	if c.IsInvoke() {
		return c.Method.Name() == "Write" && P.inMemory(fn, c.Value, seen)
	}
	f := c.StaticCallee()
	if f == nil || P.inRepo(f) {
		return false
	}
	n := 0
	for _, a := range c.Args {
		if t := a.Type(); strings.HasSuffix(typeStr(t), "io.Writer") || strings.HasSuffix(typeStr(t), "bytes.Buffer") || strings.HasSuffix(typeStr(t), "strings.Builder") {
			n++
			if !P.inMemory(fn, a, seen) {
				return false
			}
		}
	}
	return n > 0
}

// inMemory tells whether a writer is a buffer or hash.
func (P *Program) inMemory(fn *ssa.Function, v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	ts := typeStr(derefT(v.Type()))
	if strings.HasSuffix(ts, "bytes.Buffer") || strings.HasSuffix(ts, "strings.Builder") || strings.HasSuffix(ts, "hash.Hash") {
		return true
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return P.inMemory(fn, x.X, seen)
	case *ssa.ChangeInterface:
		return P.inMemory(fn, x.X, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !P.inMemory(fn, e, seen) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		if fn.Object() == nil || fn.Object().Exported() {
			return false
		}
		k := -1
		for i, p := range fn.Params {
			if p == x {
				k = i
			}
		}
		n := 0
		for _, g := range P.repoFuncs(fn.Pkg) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn {
						n++
						if k >= len(c.Common().Args) || !P.inMemory(g, c.Common().Args[k], seen) {
							return false
						}
					}
				}
			}
		}
		return n > 0
	}
	return false
}

func ruleP26(r *Rep) {
	r.rule("reported", "on no path behind a failed call does the function return without an error")
	n := 0
	for _, pkg := range []*ssa.Package{r.P.lib, r.P.fees} {
		for _, fn := range r.P.repoFuncs(pkg) {
			if r.P.isSpec(fn) || len(fn.Blocks) == 0 {
				continue
			}
			r.fns[relName(fn)] = true
			n += r.errPaths(fn)
		}
	}
	r.atLeast("reported", 60)
	r.counts["fallible_calls"] = n
}

func (r *Rep) errPaths(fn *ssa.Function) int {
	n := 0
	res := fn.Signature.Results()
	last := res.Len() - 1
	hasErr := last >= 0 && isErrorType(res.At(last).Type())
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			i, k := r.P.indicator(c.Common().Signature(), nil, nil)
			if i < 0 {
				continue
			}
			name := calleeName(c.Common())
			if f := c.Common().StaticCallee(); f != nil {
				name = fnName(f)
			}
			if makesErrors(name) {
				continue
			}
			n++
			if r.P.excused(fn, c.Common(), name) != "" {
				r.counts["fallbacks"] = r.counts["fallbacks"] + 1
				continue
			}
			var bad *ssa.Return
			w := &errWalk{P: r.P, fn: fn, call: c, fail: k, index: i}
			w.onReturn = func(ret *ssa.Return, e *errEnv) {
				if bad != nil || e.cause["ErrDuplicateInput"] || e.cause["ErrMissingPrivateKey"] {
					return
				}
				if !hasErr || e.of(ret.Results[last]) != isSome {
					bad = ret
				}
			}
			w.run()
			where := "-"
			if bad != nil {
				where = r.P.posOf(bad.Pos())
			}
			r.check(bad == nil, "reported", relName(fn), r.P.posOf(c.Pos()), "the failure of %s is not reported at %s", name, where)
		}
	}
	return n
}

func makesErrors(name string) bool {
	return strings.HasPrefix(name, "github.com/pkg/errors.") || strings.HasPrefix(name, "errors.")
}

// ---- P29 ----

func ruleP29(r *Rep) {
	r.rule("stops", "on no path behind a failed step is a transaction or builder used, or anything made from one printed")
	r.rule("complete", "no step is done on a builder behind a place where its transaction was printed or serialized")
	r.rule("reported", "a function of the command that reports errors reports the failure of each step; one that reports by a flag returns false behind a failed step")
	fns := r.P.repoFuncs(r.P.cmd)
	flags := map[*ssa.Function]bool{} // report failure by a last result of false
	fails := map[*ssa.Function]bool{} // have steps that may fail
	for again := true; again; {
		again = false
		for _, fn := range fns {
			if fails[fn] {
				continue
			}
			if len(r.P.steps(fn, flags, fails)) > 0 {
				fails[fn], again = true, true
				if res := fn.Signature.Results(); res.Len() > 0 && isBoolType(res.At(res.Len()-1).Type()) {
					flags[fn] = true
				}
			}
		}
	}
	prints := 0
	for _, fn := range fns {
		tainted := r.P.madeOfTx(fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && isPrint(c.Common()) && usesTx(c.Common(), tainted) {
					prints++
				}
			}
		}
		r.fns[relName(fn)] = true
		res := fn.Signature.Results()
		last := res.Len() - 1
		hasErr := last >= 0 && isErrorType(res.At(last).Type())
		for _, c := range r.P.steps(fn, flags, fails) {
			i, k := r.P.indicator(c.Common().Signature(), c.Common().StaticCallee(), flags)
			w := &errWalk{P: r.P, fn: fn, call: c, fail: k, index: i}
			var bad ssa.CallInstruction
			var silent *ssa.Return
			w.onCall = func(x ssa.CallInstruction, e *errEnv) bool {
				if usesTx(x.Common(), tainted) {
					if bad == nil {
						bad = x
					}
					return false
				}
				return true
			}
			w.onReturn = func(ret *ssa.Return, e *errEnv) {
				if hasErr && e.of(ret.Results[last]) != isSome || flags[fn] && e.of(ret.Results[last]) != isNone {
					silent = ret
				}
			}
			w.run()
			name := calleeName(c.Common())
			pos := r.P.posOf(c.Pos())
			where := "-"
			if bad != nil {
				where = r.P.posOf(bad.Pos())
			}
			r.check(bad == nil, "stops", relName(fn), pos, "after the failure of %s the transaction is still used at %s", name, where)
			if hasErr || flags[fn] {
				if silent != nil {
					where = r.P.posOf(silent.Pos())
				}
				r.check(silent == nil, "reported", relName(fn), pos, "the failure of %s is not reported at %s", name, where)
			}
		}
	}
	for _, fn := range fns {
		r.completeTx(fn)
	}
	r.atLeast("complete", 5)
	r.atLeast("stops", 20)
	r.check(prints >= 3, "stops", "coverage", "-", "only %d places that print a transaction were recognised", prints)
}

// steps lists the calls of a command function that may fail.
func (P *Program) steps(fn *ssa.Function, flags, fails map[*ssa.Function]bool) []ssa.CallInstruction {
	var out []ssa.CallInstruction
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := in.(*ssa.Defer); ok {
				continue
			}
			name := calleeName(c.Common())
			if makesErrors(name) || strings.HasPrefix(name, "fmt.") || noReturn(c.Common()) {
				continue
			}
			i, _ := P.indicator(c.Common().Signature(), c.Common().StaticCallee(), flags)
			f := c.Common().StaticCallee()
			if i < 0 && (f == nil || !fails[f]) {
				continue
			}
			if v := c.Value(); v != nil && i > 0 && onlyPrinted(v) {
				continue
			}
			out = append(out, c)
		}
	}
	return out
}

// onlyPrinted tells whether the results of a call are used for nothing but printing.
func onlyPrinted(v ssa.Value) bool {
	if v.Referrers() == nil {
		return false
	}
	n := 0
	var only func(v ssa.Value) bool
	only = func(v ssa.Value) bool {
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Extract:
				if isErrorType(x.Type()) && len(*x.Referrers()) > 0 || !only(x) {
					return false
				}
			case *ssa.MakeInterface:
				if !only(x) {
					return false
				}
			case *ssa.Convert:
				if !only(x) {
					return false
				}
			case *ssa.Store:
				a, ok := x.Addr.(*ssa.IndexAddr)
				if !ok || x.Val != v {
					return false
				}
				for _, s := range *a.X.Referrers() {
					switch y := s.(type) {
					case *ssa.IndexAddr:
					case *ssa.Slice:
						for _, z := range *y.Referrers() {
							c, ok := z.(ssa.CallInstruction)
							if !ok || !isPrint(c.Common()) {
								return false
							}
							n++
						}
					default:
						return false
					}
				}
			case *ssa.DebugRef:
			default:
				return false
			}
		}
		return true
	}
	return only(v) && n > 0
}

func isPrint(c *ssa.CallCommon) bool {
	n := calleeName(c)
	return strings.HasPrefix(n, "fmt.Print") || strings.HasPrefix(n, "fmt.Fprint") || strings.HasPrefix(n, "log.") || strings.Contains(n, "/logger.") || strings.HasPrefix(n, "(*os.File).Write") || n == "io.WriteString"
}

func isTxType(t types.Type) bool {
	t = derefT(t)
	return isNamed(t, "TxBuilder") || isNamed(t, "MsgTx")
}

// usesTx recognises calls that are given a transaction, a builder, or print something made of one.
func usesTx(c *ssa.CallCommon, tainted map[ssa.Value]bool) bool {
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	for _, a := range args {
		if isTxType(a.Type()) || tainted[a] {
			return true
		}
		if mi, ok := a.(*ssa.MakeInterface); ok && isTxType(mi.X.Type()) {
			return true
		}
	}
	return false
}

// madeOfTx finds the values of a function that hold text or bytes made from a transaction being built.
func (P *Program) madeOfTx(fn *ssa.Function) map[ssa.Value]bool {
	tainted := map[ssa.Value]bool{}
	add := func(v ssa.Value) bool {
		if v == nil || tainted[v] || isErrorType(v.Type()) {
			return false
		}
		if _, ok := v.(*ssa.Const); ok {
			return false
		}
		if isTxType(v.Type()) {
			return false // recognised by its type
		}
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			return false
		}
		tainted[v] = true
		return true
	}
	is := func(v ssa.Value) bool { return tainted[v] || isNamed(derefT(v.Type()), "TxBuilder") || builtTx(v) }
	for again := true; again; {
		again = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if is(x.Val) {
						again = add(rootAlloc(x.Addr)) || again
					}
				case ssa.CallInstruction:
					c := x.Common()
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					args := c.Args
					if c.IsInvoke() {
						args = append([]ssa.Value{c.Value}, args...)
					}
					from := false
					for _, a := range args {
						from = from || is(a)
					}
					if !from || isPrint(c) {
						continue
					}
					if v := x.Value(); v != nil {
						again = add(v) || again
					}
					// what it is written to
					for _, a := range args {
						if mi, ok := a.(*ssa.MakeInterface); ok {
							a = mi.X
						}
						if strings.HasSuffix(typeStr(derefT(a.Type())), "bytes.Buffer") || strings.HasSuffix(typeStr(derefT(a.Type())), "strings.Builder") {
							again = add(a) || again
						}
					}
				case ssa.Value:
					for _, op := range in.Operands(nil) {
						if *op != nil && is(*op) {
							again = add(x) || again
						}
					}
				}
			}
		}
	}
	return tainted
}

// builtTx recognises the transaction of a builder.
func builtTx(v ssa.Value) bool {
	if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
		if f, ok := l.X.(*ssa.FieldAddr); ok {
			return isNamed(derefT(f.X.Type()), "TxBuilder") && isTxType(v.Type())
		}
	}
	return false
}

// rootAlloc finds the variable an address is part of.
func rootAlloc(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.FieldAddr:
			v = x.X
		default:
			return v
		}
	}
}

// txRole tells what a call does with a builder of the function: gives it out, or does a step on it.
func (P *Program) txRole(c *ssa.CallCommon, seen map[*ssa.Function]bool) (root ssa.Value, gives, step bool) {
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	for _, a := range args {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		if isNamed(derefT(a.Type()), "TxBuilder") {
			root = a
		} else if builtTx(a) {
			root = a.(*ssa.UnOp).X.(*ssa.FieldAddr).X
		}
	}
	if root == nil {
		return nil, false, false
	}
	f := c.StaticCallee()
	if f == nil {
		return root, isPrint(c), false
	}
	n := f.Name()
	if f.Pkg == P.cmd {
		if seen[f] {
			return nil, false, false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if x, ok := in.(ssa.CallInstruction); ok {
					_, g, s := P.txRole(x.Common(), seen)
					gives, step = gives || g, step || s
				}
			}
		}
		return root, gives, step
	}
	res := f.Signature.Results()
	if f.Pkg == P.lib && res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) && !strings.Contains(n, "Serialize") {
		return root, false, true
	}
	return root, isPrint(c) || strings.Contains(n, "Serialize") || strings.Contains(n, "String") || strings.Contains(n, "Marshal"), false
}

// completeTx follows the paths behind each place that gives out a transaction.
func (r *Rep) completeTx(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for i, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			root, gives, _ := r.P.txRole(c.Common(), map[*ssa.Function]bool{fn: true})
			if !gives {
				continue
			}
			var bad ssa.CallInstruction
			// scan one block for steps on the builder under one of its names, which phis change
			seen := map[string]bool{}
			var scan func(b *ssa.BasicBlock, from int, root ssa.Value)
			scan = func(b *ssa.BasicBlock, from int, root ssa.Value) {
				for _, in := range b.Instrs[from:] {
					if v, ok := in.(ssa.Value); ok && v == root {
						return // made anew
					}
					if x, ok := in.(ssa.CallInstruction); ok {
						if noReturn(x.Common()) {
							return
						}
						if v, _, step := r.P.txRole(x.Common(), map[*ssa.Function]bool{fn: true}); step && v == root && bad == nil {
							bad = x
						}
					}
				}
				for _, s := range b.Succs {
					names := []ssa.Value{root}
					for _, in := range s.Instrs {
						phi, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						if phi == root {
							names = names[1:]
						}
						for k, p := range s.Preds {
							if p == b && phi.Edges[k] == root {
								names = append(names, phi)
							}
						}
					}
					skip := 0
					for _, in := range s.Instrs {
						if _, ok := in.(*ssa.Phi); ok {
							skip++
						}
					}
					for _, n := range names {
						if k := fmt.Sprintf("%d %s", s.Index, n.Name()); !seen[k] {
							seen[k] = true
							scan(s, skip, n)
						}
					}
				}
			}
			scan(b, i+1, root)
			where := "-"
			if bad != nil {
				where = r.P.posOf(bad.Pos())
			}
			r.check(bad == nil, "complete", relName(fn), r.P.posOf(c.Pos()), "the transaction given out here is changed further at %s", where)
		}
	}
}
