package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ssaFn = ssa.Function

func sym(name string) *Term { return mk("sym", name, tInt) }

// builderArg is the builder a function works on.
func (a *Analysis) builderArg() *Term {
	for i, p := range a.fn.Params {
		if isTxBuilderPtr(p.Type()) {
			return a.args[i]
		}
	}
	return nil
}

func (a *Analysis) argNamed(names ...string) *Term {
	for i, p := range a.fn.Params {
		for _, n := range names {
			if p.Name() == n {
				return a.args[i]
			}
		}
	}
	return nil
}

// argOfType is the i-th parameter whose type prints as one of the given forms.
func (a *Analysis) argOfType(i int, match func(types.Type) bool) *Term {
	for k, p := range a.fn.Params {
		if match(p.Type()) {
			if i == 0 {
				return a.args[k]
			}
			i--
		}
	}
	return nil
}

func isNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

func isKind(k types.BasicKind) func(types.Type) bool {
	return func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == k
	}
}

// errOf is the error a return yields; nil when the function has no error result.
func (a *Analysis) errOf(r Ret) *Term {
	res := a.fn.Signature.Results()
	for i := res.Len() - 1; i >= 0; i-- {
		if isErrorType(res.At(i).Type()) {
			return r.vals[i]
		}
	}
	return nil
}

// okWhen is the condition under which a return reports success.
func (a *Analysis) okWhen(r Ret) *Term {
	if e := a.errOf(r); e != nil {
		return mkIsNil(e)
	}
	return termTrue
}

func (a *Analysis) pos(i ssa.Instruction) string { return a.in.P.pos(a.fn, i) }
func (e *Event) pos(P *Program) string           { return P.pos(e.fn, e.instr) }

// causeIs is the condition that an error is, or wraps, a sentinel of the library.
func (a *Analysis) causeIs(err *Term, name string) *Term {
	g := a.in.P.lib.Var(name)
	if g == nil {
		return termFalse
	}
	return mkEq(mkCause(err), a.in.errGlobal(g))
}

func (in *Interp) errGlobal(g *ssa.Global) *Term {
	return mk("errglobal", g.String(), g.Type().(*types.Pointer).Elem())
}

// list gives the content of a list of the builder.
func (a *Analysis) list(st *State, tx *Term, path ...string) *Term {
	v := a.in.at(st, tx, path...)
	if v == nil {
		return nil
	}
	return a.in.contOf(st, v)
}

func (a *Analysis) listElemType(tx *Term, path ...string) types.Type {
	typ := derefT(tx.typ)
	for i, f := range path {
		if i > 0 {
			typ = derefT(typ)
		}
		s, ok := structOf(typ)
		if !ok {
			return nil
		}
		for j := 0; j < s.NumFields(); j++ {
			if s.Field(j).Name() == f {
				typ = s.Field(j).Type()
			}
		}
	}
	if sl, ok := typ.Underlying().(*types.Slice); ok {
		return sl.Elem()
	}
	return nil
}

// within is the state restricted to 0 <= j < n.
func (st *State) within(j, n *Term) *State {
	return st.where(mkAnd(mkLe(mkInt(0), j), mkLt(j, n)))
}

// ---- P01 ----

type pairT struct{ s, w []string }

var pairs = []pairT{{[]string{"Inputs"}, []string{"MsgTx", "TxIn"}}, {[]string{"Outputs"}, []string{"MsgTx", "TxOut"}}}

// origins lists the original list positions a record was made from: its own position if it is one of
// the original records, otherwise the positions its fields were copied from.
func (a *Analysis) origins(st *State, v *Term, lists map[*Term]int) map[*Term]bool {
	out := map[*Term]bool{}
	follow := func(t *Term) {
		for d := 0; d < 20; d++ {
			if t.op == "elem" {
				if _, ok := lists[t.args[0]]; ok && t.args[1].free == 0 {
					out[t.args[1]] = true
					return
				}
			}
			if len(t.args) == 0 {
				return
			}
			t = t.args[0]
		}
	}
	if !fresh(v) {
		follow(v)
		return out
	}
	if t := derefT(v.typ); v.typ != nil {
		if s, ok := structOf(t); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == "PreviousOutPoint" || s.Field(i).Name() == "LockingScript" || s.Field(i).Name() == "KeyID" {
					for _, l := range leaves(st.simp(a.in.load(st, mkFieldAddr(v, t, i), s.Field(i).Type()))) {
						follow(l)
					}
				}
			}
		}
	}
	return out
}

// paired decides whether two records belong to the same position.
func (a *Analysis) paired(st *State, x, y *Term, lists map[*Term]int) (bool, string) {
	ox, oy := a.origins(st, x, lists), a.origins(st, y, lists)
	if len(ox) > 0 || len(oy) > 0 {
		if len(ox) == 0 || len(oy) == 0 {
			return false, fmt.Sprintf("%v and %v: only one of them comes from an existing position", x, y)
		}
		for i := range ox {
			for j := range oy {
				if i != j && !st.proves(mkEqInt(i, j)) {
					return false, fmt.Sprintf("record of position %v with element of position %v", i, j)
				}
			}
		}
		return true, ""
	}
	fx, fy := fresh(x), fresh(y)
	if x.op == "fld" && y.op == "fld" {
		if x.args[0] == y.args[0] || st.proves(mkEq(x.args[0], y.args[0])) {
			return true, ""
		}
		return false, fmt.Sprintf("%v and %v are parts of different objects", x, y)
	}
	if fx && fy {
		return true, ""
	}
	return false, fmt.Sprintf("cannot relate %v and %v", x, y)
}

func (r *Rep) pairLists(a *Analysis, st *State, base *Term, sp, wp []string, origS, origW *Term, name, pos string) {
	in := a.in
	s, w := a.list(st, base, sp...), a.list(st, base, wp...)
	list := sp[len(sp)-1]
	if s == nil || w == nil {
		r.check(false, "length", name+"/"+list, pos, "cannot resolve the lists")
		return
	}
	ls, lw := mkLen(s), mkLen(w)
	if r.delegated(a, sp[0], wp[len(wp)-1], name+"/"+list) {
		return
	}
	if !r.check(st.proves(mkEqInt(ls, lw)), "length", name+"/"+list, pos, "%s has %v entries, the transaction %v", list, ls, lw) {
		return
	}
	lists := map[*Term]int{}
	if origS != nil {
		lists[origS], lists[origW] = 0, 1
	}
	j := sym("j")
	inside := st.clone()
	if !inside.narrow(mkAnd(mkLe(mkInt(0), j), mkLt(j, lw))) {
		return
	}
	et, wt := a.listElemType(base, sp...), a.listElemType(base, wp...)
	for _, c := range inside.cases(in.elemAt(inside, s, j, et), in.elemAt(inside, w, j, wt)) {
		ok, why := a.paired(c.st, c.vals[0], c.vals[1], lists)
		if !ok && !c.st.feasible(termTrue) {
			continue
		}
		r.check(ok, "pairing", name+"/"+list, pos, "%s", why)
	}
}

func isRecord(t types.Type) bool {
	if t == nil {
		return true
	}
	for _, n := range []string{"InputSupplement", "OutputSupplement", "TxIn", "TxOut"} {
		if isNamed(derefT(t), n) {
			return true
		}
	}
	return false
}

// delegated decides whether a function changes the two lists only inside calls of other operations that
// are themselves checked, so that the pairing follows by induction over the calls.
func (r *Rep) delegated(a *Analysis, sup, wire, construct string) bool {
	n := 0
	for _, e := range a.events {
		touches := false
		switch e.kind {
		case "store":
			for _, l := range leaves(e.addr) {
				if f := fieldName(l); l.op == "fld" && (f == sup || f == wire || f == "MsgTx") && !fresh(rootOf(l)) {
					touches = true
				}
			}
		case "elem":
			touches = isRecord(e.val.typ)
		case "copy", "perm":
			if e.addr.typ != nil {
				if sl, ok := e.addr.typ.Underlying().(*types.Slice); ok {
					touches = isRecord(sl.Elem())
				}
			}
		}
		if !touches {
			continue
		}
		n++
		inside := false
		for _, f := range e.stack[1:] {
			if f != a.fn && hasBuilder(f) && f.Object() != nil && f.Object().Exported() && !r.P.isSpec(f) {
				inside = true
			}
		}
		if !inside {
			return false
		}
	}
	if n > 0 {
		r.check(true, "delegated", construct, "", "")
	}
	return n > 0
}

func ruleP01(r *Rep) {
	r.rule("delegated", "every write to the two lists happens inside a call of another operation checked here")
	r.rule("length", "at every return the supplement list and the transaction list of the builder have provably equal length")
	r.rule("pairing", "at every return, for a generic position j, supplement j and transaction element j come from the same former position, or were both created by this call")
	for _, fn := range r.P.exported(r.P.lib) {
		if r.P.isSpec(fn) {
			continue
		}
		name := relName(fn)
		var a *Analysis
		if hasBuilder(fn) {
			a = r.analysis(relName(fn), "std", r.stdSetup(fn))
			if a == nil {
				continue
			}
			tx := a.builderArg()
			for _, ret := range a.rets {
				for _, p := range pairs {
					oS, oW := a.in.at(a.entry, tx, p.s...), a.in.at(a.entry, tx, p.w...)
					r.pairLists(a, ret.st, tx, p.s, p.w, oS, oW, name, a.pos(ret.instr))
				}
			}
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || !isTxBuilderPtr(res.At(0).Type()) {
			continue
		}
		a = r.analysis(relName(fn), "std", nil)
		if a == nil {
			continue
		}
		for _, ret := range a.rets {
			for _, c := range ret.st.cases(ret.vals[0]) {
				if c.vals[0].isNil() {
					continue
				}
				st := c.st
				for _, p := range pairs {
					r.ctorPair(a, st, c.vals[0], p, name, a.pos(ret.instr))
				}
			}
		}
	}
	r.atLeast("length", 60)
	r.atLeast("pairing", 40)
}

func (r *Rep) ctorPair(a *Analysis, st *State, b *Term, p pairT, name, pos string) {
	s, w := a.list(st, b, p.s...), a.list(st, b, p.w...)
	list := p.s[0]
	if s == nil || w == nil {
		r.check(false, "length", name+"/"+list, pos, "cannot resolve the lists")
		return
	}
	ls, lw := mkLen(s), mkLen(w)
	// the interface a transaction is imported through promises that its counts are those of its message
	ls = substFn(ls, func(t *Term) *Term {
		if t.op == "app" && strings.Contains(t.aux, "InputCount") {
			return lw
		}
		return nil
	})
	r.check(st.proves(mkEqInt(ls, lw)), "length", name+"/"+list, pos, "%s has %v entries, the transaction %v", list, ls, lw)
}

func hasBuilder(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if isTxBuilderPtr(p.Type()) {
			return true
		}
	}
	return false
}

func relName(fn *ssa.Function) string {
	n := shortFn(fn)
	n = strings.ReplaceAll(n, "(*", "")
	n = strings.ReplaceAll(n, ")", "")
	n = strings.TrimPrefix(n, "*")
	if i := strings.LastIndex(n, "/"); i >= 0 {
		n = n[i+1:]
	}
	return strings.TrimPrefix(n, pkgBase(fn)+".")
}

func pkgBase(fn *ssa.Function) string {
	p := pkgOf(fn)
	return p[strings.LastIndex(p, "/")+1:]
}

// exported lists the exported functions and methods of a package.
func (P *Program) exported(pkg *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range P.repoFuncs(pkg) {
		if f.Object() != nil && f.Object().Exported() && f.Parent() == nil {
			out = append(out, f)
		}
	}
	return out
}

// stdSetup picks the configuration a function is analysed with: signing uses the summary of the
// signature hash.
func (r *Rep) stdSetup(fn *ssa.Function) func(in *Interp, st *State, args []*Term) {
	switch fn.Name() {
	case "Sign", "SignOnly":
		return func(in *Interp, st *State, args []*Term) {
			withSigSummary(in, st, args)
			in.coarse = true
		}
	}
	return nil
}

// ---- P02, P03 ----

type inputOp struct {
	name, kind string
}

var inputOps = []inputOp{{"TxBuilder.AddInputUTXO", "add"}, {"TxBuilder.AddInput", "add"}, {"TxBuilder.InsertInput", "insert"}, {"TxBuilder.UpdateInputUTXO", "update"}}

type given struct{ hash, index, script, value, keyID *Term }

// given reads what an input operation was told to spend.
func (a *Analysis) given() *given {
	st := a.entry
	for i, p := range a.fn.Params {
		if isNamed(p.Type(), "UTXO") {
			f := func(n string) *Term { return a.in.fieldOf(st, a.args[i], p.Type(), n) }
			return &given{f("Hash"), f("Index"), f("LockingScript"), f("Value"), f("KeyID")}
		}
	}
	for i, p := range a.fn.Params {
		if isNamed(p.Type(), "OutPoint") {
			f := func(n string) *Term { return a.in.fieldOf(st, a.args[i], p.Type(), n) }
			g := &given{hash: f("Hash"), index: f("Index")}
			g.script = a.argOfType(0, func(t types.Type) bool { return isNamed(t, "Script") })
			g.value = a.argOfType(0, isKind(types.Uint64))
			return g
		}
	}
	return nil
}

// fieldOf reads a field of a struct value.
func (in *Interp) fieldOf(st *State, v *Term, typ types.Type, name string) *Term {
	s, ok := structOf(typ)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkField(v, fmt.Sprint(i), s.Field(i).Type())
		}
	}
	return nil
}

// outpoint reads hash and index of the input at a position.
func (a *Analysis) outpoint(st *State, tx, list, pos *Term) (*Term, *Term) {
	et := a.listElemType(tx, "MsgTx", "TxIn")
	e := a.in.elemAt(st, list, pos, et)
	return a.in.fieldsOf(st, e, et, "PreviousOutPoint", "Hash"), a.in.fieldsOf(st, e, et, "PreviousOutPoint", "Index")
}

// fieldsOf reads a chain of fields through a pointer (lifted over its cases).
func (in *Interp) fieldsOf(st *State, ptr *Term, ptyp types.Type, path ...string) *Term {
	return lift1(st.simp(ptr), func(p *Term) *Term {
		if p.typ == nil {
			p = retype(p, ptyp)
		}
		t := p
		typ := derefT(ptyp)
		for i, f := range path {
			fa, ft := fieldAddrByName(t, typ, f)
			if fa == nil {
				return mk("unresolved", f, nil)
			}
			if i == len(path)-1 {
				return in.load(st, fa, ft)
			}
			if _, ok := structOf(ft); ok {
				t, typ = fa, ft
				continue
			}
			t = in.load(st, fa, ft)
			typ = derefT(ft)
		}
		return t
	})
}

func retype(t *Term, typ types.Type) *Term { return t }

func ruleP02(r *Rep) {
	r.rule("refuses-duplicate", "on every success path of an operation that introduces an outpoint, no (other) input of the transaction as it was before spends the given hash and index")
	r.rule("no-spurious-refusal", "the duplicate-input error is returned only where some (other) input spends exactly the given hash and index")
	for _, op := range inputOps {
		a := r.analysis(op.name, "std", nil)
		if a == nil {
			continue
		}
		tx, g := a.builderArg(), a.given()
		if g == nil || tx == nil {
			r.check(false, "refuses-duplicate", op.name, a.pos(nil), "cannot find the given outpoint")
			continue
		}
		before := a.list(a.entry, tx, "MsgTx", "TxIn")
		n := mkLen(before)
		same := func(j *Term) *Term {
			h, i := a.outpoint(a.entry, tx, before, j)
			c := mkAnd(mkEq(h, g.hash), mkEqInt(i, g.index))
			if op.kind == "update" {
				c = mkAnd(c, mkNot(mkEqInt(j, a.argOfType(0, isKind(types.Int)))))
			}
			return c
		}
		j := sym("j")
		dup := mkAnds(mkLe(mkInt(0), j), mkLt(j, n), same(j))
		ex := mkExists(n, closeBody(same(j), j))
		dups := 0
		for _, ret := range a.rets {
			ok := a.okWhen(ret)
			pos := a.pos(ret.instr)
			if st := ret.st.where(ok); st != nil {
				r.check(st.proves(mkNot(dup), j), "refuses-duplicate", op.name, pos, "success is possible while another input spends the same outpoint")
			}
			if st := ret.st.where(a.causeIs(a.errOf(ret), "ErrDuplicateInput")); st != nil {
				dups++
				r.check(st.proves(ex), "no-spurious-refusal", op.name, pos, "the duplicate-input error is returned though no other input spends that outpoint")
			}
		}
		r.check(dups > 0, "no-spurious-refusal", op.name, a.pos(nil), "the duplicate-input error is never returned")
	}
	// funding must add inputs only through a path on which the same condition holds
	for _, fn := range []string{"TxBuilder.AddFunding", "TxBuilder.AddFundingBreakChange"} {
		r.introduced(fn)
	}
}

// introduced checks that code adding inputs on its own has excluded duplicates: the operations above
// do it, so every growth of the input list must happen inside one of them.
func (r *Rep) introduced(name string) {
	a := r.analysis(name, "std", nil)
	if a == nil {
		return
	}
	r.rule("added-through", "funding grows the transaction's input list only inside an operation that is checked for duplicates")
	for _, e := range a.events {
		if e.kind != "store" || e.addr == nil || e.addr.op != "fld" || fieldName(e.addr) != "TxIn" {
			continue
		}
		through := false
		for _, f := range e.stack {
			for _, op := range inputOps {
				if "TxBuilder."+f.Name() == op.name {
					through = true
				}
			}
		}
		r.check(through, "added-through", name, e.pos(r.P), "the input list is changed outside the checked operations")
	}
	r.atLeast("added-through", 1)
}

func ruleP03(r *Rep) {
	r.rule("outpoint", "on success the input at the requested position spends the given hash and index")
	r.rule("record", "on success the record at the requested position holds the given script, value and key identifier")
	r.rule("new-input", "a new input has the maximum sequence number and no unlocking script")
	r.rule("position", "the list is the former list with exactly the new element at the requested position")
	for _, op := range inputOps {
		a := r.analysis(op.name, "std", nil)
		if a == nil {
			continue
		}
		tx, g := a.builderArg(), a.given()
		if g == nil || tx == nil {
			r.check(false, "outpoint", op.name, a.pos(nil), "cannot find the given outpoint")
			continue
		}
		n := mkLen(a.list(a.entry, tx, "MsgTx", "TxIn"))
		at := n
		if op.kind != "add" {
			at = a.argOfType(0, isKind(types.Int))
		}
		for _, ret := range a.rets {
			st := ret.st.where(a.okWhen(ret))
			if st == nil {
				continue
			}
			pos := a.pos(ret.instr)
			// the position is inside the list (indices outside are the subject of another property)
			if op.kind == "update" {
				if st = st.within(at, n); st == nil {
					continue
				}
			} else if op.kind == "insert" {
				if st = st.where(mkAnd(mkLe(mkInt(0), at), mkLe(at, n))); st == nil {
					continue
				}
			}
			w := a.list(st, tx, "MsgTx", "TxIn")
			s := a.list(st, tx, "Inputs")
			h, i := a.outpoint(st, tx, w, at)
			r.check(st.proves(mkEq(h, g.hash)) && st.proves(mkEqInt(i, g.index)), "outpoint", op.name, pos, "the input spends %v : %v", h, i)
			et := a.listElemType(tx, "Inputs")
			rec := a.in.elemAt(st, s, at, et)
			f := func(name string) *Term { return a.in.fieldsOf(st, rec, et, name) }
			r.check(a.sameValue(st, f("LockingScript"), g.script), "record", op.name+"/LockingScript", pos, "the record's script is %v", f("LockingScript"))
			r.check(st.proves(mkEqInt(f("Value"), g.value)), "record", op.name+"/Value", pos, "the record's value is %v", f("Value"))
			if g.keyID != nil {
				r.check(st.proves(mkEq(f("KeyID"), g.keyID)), "record", op.name+"/KeyID", pos, "the record's key identifier is %v", f("KeyID"))
			}
			wt := a.listElemType(tx, "MsgTx", "TxIn")
			in := a.in.elemAt(st, w, at, wt)
			if op.kind != "update" {
				seq := a.in.fieldsOf(st, in, wt, "Sequence")
				r.check(st.proves(mkEqInt(seq, mkInt(0xffffffff))), "new-input", op.name+"/Sequence", pos, "the sequence number is %v", seq)
				us := a.in.fieldsOf(st, in, wt, "UnlockingScript")
				r.check(st.proves(mkEqInt(mkLen(us), mkInt(0))), "new-input", op.name+"/UnlockingScript", pos, "the unlocking script is %v", us)
			}
			// the rest of the list
			j := sym("j")
			for _, lp := range [][]string{{"MsgTx", "TxIn"}, {"Inputs"}} {
				now, was := a.list(st, tx, lp...), a.list(a.entry, tx, lp...)
				t := a.listElemType(tx, lp...)
				grow := mkInt(1)
				if op.kind == "update" {
					grow = mkInt(0)
				}
				r.check(st.proves(mkEqInt(mkLen(now), mkAdd(mkLen(was), grow))), "position", op.name+"/"+lp[len(lp)-1], pos, "the list has %v entries afterwards", mkLen(now))
				in := st.within(j, mkLen(was))
				if in == nil {
					continue
				}
				shift := mkITE(mkLt(j, at), j, addInt(j, 1))
				if op.kind != "insert" {
					shift = j
				}
				got := a.in.elemAt(in, now, shift, t)
				want := a.in.elemAt(in, was, j, t)
				r.check(in.proves(mkEq(got, want)), "position", op.name+"/"+lp[len(lp)-1], pos, "a former element moved: %v instead of %v", got, want)
			}
		}
	}
	r.atLeast("outpoint", 4)
	r.atLeast("record", 11)
}

// sameValue compares two values, slices by content.
func (a *Analysis) sameValue(st *State, x, y *Term) bool {
	if x == nil || y == nil {
		return false
	}
	if x == y || st.proves(mkEq(x, y)) {
		return true
	}
	if y.typ != nil && isSliceType(y.typ) || x.typ != nil && isSliceType(x.typ) {
		cx, cy := a.in.contTerm(st, x), a.in.contTerm(a.entry, y)
		return cx == cy || st.proves(mkEq(cx, cy))
	}
	return false
}

// ---- P05 ----

var editOps = []string{"TxBuilder.AddInputUTXO", "TxBuilder.UpdateInputUTXO", "TxBuilder.InsertInput", "TxBuilder.AddInput", "TxBuilder.RemoveInput",
	"TxBuilder.SetChangeAddress", "TxBuilder.SetChangeLockingScript", "TxBuilder.AddPaymentOutput", "TxBuilder.AddDustOutput", "TxBuilder.AddMaxOutput",
	"TxBuilder.AddMaxScriptOutput", "TxBuilder.AddOutput", "TxBuilder.InsertOutput", "TxBuilder.RemoveOutput", "TxBuilder.AddValueToOutput",
	"TxBuilder.SubtractValueFromOutput", "TxBuilder.SetOutputToDust", "TxBuilder.UpdateOutput", "TxBuilder.SignP2PKHInput", "TxBuilder.AdjustFee",
	"TxBuilder.CalculateFee", "TxBuilder.ZeroizeFee"}

// same walks everything reachable from an address and compares it with the entry state.
func (a *Analysis) same(st *State, addr *Term, typ types.Type, path string, depth int, report func(path string, ok bool, was, now *Term)) {
	c := &comparer{a: a, b: a, other: a.entry, report: report}
	c.walk(st, addr, addr, typ, path, depth)
}

// comparer compares the memory of a state with that of another state, possibly of another analysis.
type comparer struct {
	a, b   *Analysis
	other  *State
	report func(path string, ok bool, was, now *Term)
	skip   func(path string) bool
}

// walk compares what addr holds in st with what oaddr holds in the other state.
func (c *comparer) walk(st *State, addr, oaddr *Term, typ types.Type, path string, depth int) {
	if c.skip != nil && c.skip(path) {
		return
	}
	if s, ok := structOf(typ); ok && !atomicStruct(typ) {
		for i := 0; i < s.NumFields(); i++ {
			c.walk(st, mkFieldAddr(addr, typ, i), mkFieldAddr(oaddr, typ, i), s.Field(i).Type(), path+"."+s.Field(i).Name(), depth)
		}
		return
	}
	c.values(st, st.simp(c.b.in.load(c.other, oaddr, typ)), st.simp(c.a.in.load(st, addr, typ)), typ, path, depth)
}

func (c *comparer) values(st *State, was, now *Term, typ types.Type, path string, depth int) {
	report := c.report
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		if c.a != c.b && (fresh(was) || fresh(now)) {
			both := fresh(was) && fresh(now)
			report(path, both, was, now)
			if both && depth > 0 {
				c.walk(st, now, was, u.Elem(), path, depth-1)
			}
			return
		}
		if c.a != c.b && (was.op == "ite" || now.op == "ite") {
			for _, k := range st.cases(was, now) {
				if k.st.feasible(termTrue) {
					c.values(k.st, k.vals[0], k.vals[1], typ, path, depth)
				}
			}
			return
		}
		report(path, was == now || st.proves(mkEq(was, now)), was, now)
		if depth > 0 && was.op != "ite" {
			c.walk(st, was, was, u.Elem(), path, depth-1)
		}
	case *types.Slice:
		cw, cn := c.b.in.contOf(c.other, was), c.a.in.contOf(st, now)
		lw, ln := mkLen(cw), mkLen(cn)
		ok := lw == ln || st.proves(mkEqInt(lw, ln))
		report(path, ok, lw, ln)
		if !ok {
			return
		}
		j := sym(fmt.Sprintf("j%d", depth))
		inside := st.within(j, lw)
		if inside == nil {
			return
		}
		ew := c.b.in.elemAt(inside, cw, j, u.Elem())
		if c.a != c.b {
			ew = st.simp(c.b.in.elemAt(c.other, cw, j, u.Elem()))
		}
		en := c.a.in.elemAt(inside, cn, j, u.Elem())
		if c.a != c.b {
			if _, ok := u.Elem().Underlying().(*types.Pointer); ok {
				c.values(inside, inside.simp(ew), inside.simp(en), u.Elem(), path+"[]", depth)
				return
			}
		}
		report(path+"[]", ew == en || inside.proves(mkEq(ew, en)), ew, en)
		if p, ok := u.Elem().Underlying().(*types.Pointer); ok && depth > 0 && ew.op != "ite" {
			c.walk(inside, ew, ew, p.Elem(), path+"[]", depth-1)
		}
	default:
		eq := was == now
		if !eq {
			if isIntegerType(typ) {
				eq = st.proves(mkEqInt(was, now))
			} else if isBoolType(typ) {
				eq = st.proves(iff(asBool(was), asBool(now)))
			} else {
				eq = st.proves(mkEq(was, now))
			}
		}
		report(path, eq, was, now)
	}
}

func ruleP05(r *Rep) {
	r.rule("unchanged-on-error", "where an edit returns a non-nil error, every field, list and list element reachable from the builder provably has its value from before the call")
	for _, name := range editOps {
		a := r.analysis(name, "std", nil)
		if a == nil {
			continue
		}
		tx := a.builderArg()
		for _, ret := range a.rets {
			e := a.errOf(ret)
			if e == nil {
				continue
			}
			st := ret.st.where(mkNot(mkIsNil(e)))
			if st == nil {
				continue
			}
			bad := []string{}
			a.same(st, tx, derefT(tx.typ), "tx", 4, func(path string, ok bool, was, now *Term) {
				r.counts["locations_compared"]++
				if !ok {
					bad = append(bad, fmt.Sprintf("%s was %s, is %s", path, cutStr(was.String(), 150), cutStr(now.String(), 150)))
				}
			})
			r.check(len(bad) == 0, "unchanged-on-error", name, a.pos(ret.instr), "an error is returned after the builder was changed: %s", strings.Join(bad, "; "))
		}
	}
	r.atLeast("unchanged-on-error", 25)
}

// ---- P06 ----

// editors are the public operations that are meant to change a builder, a cache or an argument.
var editors = map[string]bool{"TxBuilder.AddFunding": true, "TxBuilder.AddFundingBreakChange": true, "TxBuilder.Sign": true, "TxBuilder.SignOnly": true,
	"TxBuilder.AddOutputs": true, "TxBuilder.RandomizeOutputs": true, "TxBuilder.RandomizeOutputsAfter": true,
	"SigHashCache.Clear": true, "SigHashCache.ClearOutputs": true}

func init() {
	for _, n := range editOps {
		editors[n] = true
	}
}

func ruleP06(r *Rep) {
	r.rule("no-write", "a query stores only to memory it allocated itself: no store, element write, copy, append into existing elements or mutating call reaches memory that existed before the call")
	r.rule("content", "the content of every list that existed before the call is unchanged at every return")
	n := 0
	for _, pkg := range []*ssa.Package{r.P.lib, r.P.fees} {
		for _, fn := range r.P.exported(pkg) {
			name := relName(fn)
			if pkg == r.P.fees {
				name = "fees." + name
			}
			if r.P.isSpec(fn) || editors[name] || !queryLike(fn) {
				continue
			}
			a := r.analysis(name, "std", nil)
			if a == nil {
				continue
			}
			n++
			bad := false
			for _, e := range a.events {
				switch e.kind {
				case "store", "elem", "copy", "mapupdate", "write", "perm":
				default:
					continue
				}
				if e.addr == nil || fresh(rootOf(e.addr)) && fresh(e.addr) {
					continue
				}
				if freshAll(e.addr) {
					continue
				}
				if e.old != nil && e.val != nil && e.old == e.val {
					continue
				}
				if e.addr.op == "fld" && strings.Contains(className(e.addr), "SigHashCache.") {
					continue // filling the hash cache is what it is passed for
				}
				bad = true
				r.check(false, "no-write", name, e.pos(r.P), "%s to %v", e.kind, e.addr)
			}
			if !bad {
				r.check(true, "no-write", name, a.pos(nil), "")
			}
			for _, ret := range a.rets {
				for _, k := range oldConts(ret.st) {
					was := defaultCont(k)
					now := ret.st.simp(ret.st.cont[k])
					r.check(now == was || ret.st.proves(mkEq(now, was)), "content", name, a.pos(ret.instr), "the content of %v changed to %v", k, now)
				}
			}
		}
	}
	r.check(n >= 45, "no-write", "coverage", "-", "only %d queries found", n)
	r.counts["queries"] = n
}

// oldConts lists the lists that existed before the call and have a tracked content.
func oldConts(st *State) []*Term {
	var ks []*Term
	for k := range st.cont {
		if !freshAll(k) {
			ks = append(ks, k)
		}
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].id < ks[j].id })
	return ks
}

// freshAll reports whether every object an address may belong to was allocated by the analysed call.
func freshAll(addr *Term) bool {
	ok := true
	for _, l := range leaves(addr) {
		if l.isNil() {
			continue
		}
		if !fresh(deepRoot(l)) {
			ok = false
		}
	}
	return ok
}

// queryLike: methods of the builder and its records, or functions taking data by reference.
func queryLike(fn *ssa.Function) bool { return len(fn.Params) > 0 || fn.Signature.Recv() != nil }

// ---- P27 ----

func ruleP27(r *Rep) {
	r.rule("no-global-write", "no instruction of the library stores to a package-level variable, to a field or element of one, or through a pointer loaded from one (initialisers excepted)")
	for _, pkg := range []*ssa.Package{r.P.lib, r.P.fees, r.P.cmd} {
		for _, fn := range r.P.repoFuncs(pkg) {
			if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || r.P.isSpec(fn) {
				continue
			}
			r.fns[shortFn(fn)] = true
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					var addrs []ssa.Value
					switch x := i.(type) {
					case *ssa.Store:
						addrs = append(addrs, x.Addr)
					case *ssa.MapUpdate:
						addrs = append(addrs, x.Map)
					case ssa.CallInstruction:
						c := x.Common()
						if bi, ok := c.Value.(*ssa.Builtin); ok {
							switch bi.Name() {
							case "append", "copy", "delete", "clear":
								addrs = append(addrs, c.Args[0])
							}
						} else {
							for k, arg := range c.Args {
								if g := globalOf(arg, 0); g != nil && mutates(r.P, x, k) {
									r.check(false, "no-global-write", shortFn(fn)+"/"+g.Name(), r.P.pos(fn, i), "%s hands %s to %s, which writes through it", shortFn(fn), g.Name(), calleeName(c))
								}
							}
						}
					}
					for _, ad := range addrs {
						r.counts["stores"]++
						g := globalOf(ad, 0)
						r.check(g == nil, "no-global-write", shortFn(fn)+"/"+globName(g), r.P.pos(fn, i), "write to package-level variable %s", globName(g))
					}
				}
			}
		}
	}
	r.check(r.counts["stores"] > 200, "no-global-write", "coverage", "-", "only %d stores seen", r.counts["stores"])
}

func globName(g *ssa.Global) string {
	if g == nil {
		return "-"
	}
	return g.Name()
}

// globalOf finds the package-level variable an address (or the memory a value refers to) belongs to.
func globalOf(v ssa.Value, d int) *ssa.Global {
	if d > 12 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalOf(x.X, d+1)
	case *ssa.IndexAddr:
		return globalOf(x.X, d+1)
	case *ssa.Slice:
		return globalOf(x.X, d+1)
	case *ssa.ChangeType:
		return globalOf(x.X, d+1)
	case *ssa.MakeInterface:
		return globalOf(x.X, d+1)
	case *ssa.UnOp:
		if x.Op.String() == "*" {
			if _, ok := x.Type().Underlying().(*types.Basic); ok {
				return nil
			}
			if isErrorType(x.Type()) {
				return nil
			}
			return globalOf(x.X, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := globalOf(e, d+1); g != nil {
				return g
			}
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return globalOf(x.Call.Args[0], d+1)
		}
	}
	return nil
}

// mutates reports whether a callee may write through its k-th argument.
func mutates(P *Program, call ssa.CallInstruction, k int) bool {
	f := call.Common().StaticCallee()
	if f == nil {
		return true
	}
	return writesParam(P, f, k, map[string]bool{})
}

func writesParam(P *Program, f *ssa.Function, k int, seen map[string]bool) bool {
	key := fnName(f) + "#" + fmt.Sprint(k)
	if seen[key] {
		return false
	}
	seen[key] = true
	if f.Blocks == nil || k >= len(f.Params) {
		return isMutator(fnName(f))
	}
	prm := f.Params[k]
	switch prm.Type().Underlying().(type) {
	case *types.Basic, *types.Struct, *types.Array:
		return false
	}
	derived := map[ssa.Value]bool{prm: true}
	for changed := true; changed; {
		changed = false
		add := func(v ssa.Value) {
			if !derived[v] {
				derived[v] = true
				changed = true
			}
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.FieldAddr:
					if derived[x.X] {
						add(x)
					}
				case *ssa.IndexAddr:
					if derived[x.X] {
						add(x)
					}
				case *ssa.Slice:
					if derived[x.X] {
						add(x)
					}
				case *ssa.ChangeType:
					if derived[x.X] {
						add(x)
					}
				case *ssa.UnOp:
					if derived[x.X] {
						switch x.Type().Underlying().(type) {
						case *types.Pointer, *types.Slice, *types.Map:
							add(x)
						}
					}
				case *ssa.Phi:
					for _, e := range x.Edges {
						if derived[e] {
							add(x)
						}
					}
				}
			}
		}
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				if derived[x.Addr] {
					return true
				}
			case *ssa.MapUpdate:
				if derived[x.Map] {
					return true
				}
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if (bi.Name() == "copy" || bi.Name() == "append" || bi.Name() == "delete" || bi.Name() == "clear") && derived[c.Args[0]] {
						return true
					}
					continue
				}
				for n, arg := range c.Args {
					if derived[arg] {
						cal := c.StaticCallee()
						if cal == nil || writesParam(P, cal, n, seen) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// ---- P04 ----

// indexOp describes an operation on the element at a given index.
type indexOp struct {
	list   string // TxIn or TxOut
	insert bool
}

var indexOps = map[string]indexOp{
	"TxBuilder.InputAddress": {"TxIn", false}, "TxBuilder.UpdateInputUTXO": {"TxIn", false}, "TxBuilder.InsertInput": {"TxIn", true},
	"TxBuilder.RemoveInput": {"TxIn", false}, "TxBuilder.SignP2PKHInput": {"TxIn", false}, "TxBuilder.InputOutput": {"TxIn", false},
	"TxBuilder.OutputAddress": {"TxOut", false}, "TxBuilder.InsertOutput": {"TxOut", true}, "TxBuilder.RemoveOutput": {"TxOut", false},
	"TxBuilder.AddValueToOutput": {"TxOut", false}, "TxBuilder.SubtractValueFromOutput": {"TxOut", false}, "TxBuilder.SetOutputToDust": {"TxOut", false},
	"TxBuilder.UpdateOutput": {"TxOut", false},
	"SignatureHash":          {"TxIn", false}, "SignaturePreimage": {"TxIn", false}, "SignatureHashPreimageBytes": {"TxIn", false},
	"P2PKHUnlockingScript": {"TxIn", false}, "P2PKUnlockingScript": {"TxIn", false}, "InputSignature": {"TxIn", false},
}

// onlyAbout finds a way to make a condition true that tests nothing but conditions accepted by ok.
func onlyAbout(st *State, c *Term, ok func(*Term) bool) bool {
	c = asBool(c)
	if c.isFalse() {
		return false
	}
	if c.op != "ite" {
		return st.feasible(termTrue)
	}
	if !ok(c.args[0]) {
		return false
	}
	for i, cond := range []*Term{asBool(c.args[0]), mkNot(asBool(c.args[0]))} {
		if s := st.where(cond); s != nil && onlyAbout(s, c.args[1+i], ok) {
			return true
		}
	}
	return false
}

func ruleP04(r *Rep) {
	r.rule("in-range", "wherever a list is accessed at a position made from the given index, must-facts put that position inside the list")
	r.rule("refused", "no return without error is reachable with an index at or past the end (past the end, for an insertion)")
	r.rule("accepted", "no error return is reached by tests on the index and the list lengths alone when the index is inside the list")
	for _, name := range sortedKeys(indexOps) {
		op := indexOps[name]
		setup := func(in *Interp, st *State, args []*Term) {
			emptyCache(in, st, args)
			for _, a := range args {
				if a.typ != nil && a.op == "param" && (isKind(types.Int)(a.typ)) {
					st.facts = st.facts.assume(mkLe(mkInt(0), a))
				}
			}
		}
		a := r.analysis(name, "index", setup)
		if a == nil {
			continue
		}
		i := a.argOfType(0, func(t types.Type) bool {
			return isKind(types.Int)(t) || isKind(types.Uint32)(t) && !isNamed(t, "SigHashType")
		})
		if i == nil {
			r.check(false, "anchor", name, "-", "no index parameter")
			continue
		}
		var n *Term
		if tx := a.builderArg(); tx != nil {
			n = mkLen(a.list(a.entry, tx, "MsgTx", op.list))
		} else {
			m := a.argOfType(0, func(t types.Type) bool { p, ok := t.(*types.Pointer); return ok && isNamed(p.Elem(), "MsgTx") })
			if m == nil {
				r.check(false, "anchor", name, "-", "no transaction parameter")
				continue
			}
			n = mkLen(a.list(a.entry, m, op.list))
		}
		inside := mkLt(i, n)
		if op.insert {
			inside = mkLe(i, n)
		}
		for _, e := range a.events {
			switch e.kind {
			case "index":
				if !contains(e.val, i) {
					continue
				}
				st := &State{pc: e.pc, facts: e.facts}
				r.check(st.proves(mkAnd(mkLe(mkInt(0), e.val), mkLt(e.val, e.res))), "in-range", name, e.pos(r.P), "position %v of %v may be past the end", e.val, e.addr)
			case "slice":
				lo, hi, n := e.args[0], e.args[1], e.args[2]
				if !contains(lo, i) && !contains(hi, i) {
					continue
				}
				st := &State{pc: e.pc, facts: e.facts}
				r.check(st.proves(mkAnds(mkLe(mkInt(0), lo), mkLe(lo, hi), mkLe(hi, n))), "in-range", name, e.pos(r.P), "range %v to %v of %v may be past the end", lo, hi, cutStr(e.addr.String(), 100))
			case "make":
				for _, x := range []*Term{e.val, e.res} {
					if x != nil && contains(x, i) {
						st := &State{pc: e.pc, facts: e.facts}
						r.check(st.proves(mkLe(mkInt(0), x)), "in-range", name, e.pos(r.P), "a list of negative length %v may be made", x)
					}
				}
			}
		}
		about := func(t *Term) bool {
			return !containsFn(t, func(t *Term) bool {
				switch t.op {
				case "le0", "eq0", "lin", "int", "len", "":
					return false
				}
				return t != i && t.lin == nil && !isListTerm(t)
			})
		}
		for _, ret := range a.rets {
			pos := a.pos(ret.instr)
			ok := !ret.st.feasible(mkAnd(a.okWhen(ret), mkNot(inside)))
			r.check(ok, "refused", name, pos, "an index past the end may be accepted")
			st := ret.st.where(mkAnd(mkNot(a.okWhen(ret)), inside))
			if st == nil {
				continue
			}
			r.check(!onlyAbout(st, st.pc, about), "accepted", name, pos, "an index inside the list is refused")
		}
	}
	r.atLeast("in-range", 15)
	r.atLeast("refused", 19)
}

// isListTerm recognises the lists of a transaction or builder and the way to them.
func isListTerm(t *Term) bool {
	if t.op == "load" || t.op == "fld" {
		switch fieldName(t) {
		case "MsgTx", "TxIn", "TxOut", "Inputs", "Outputs":
			return true
		}
		if t.op == "load" {
			switch fieldName(t.args[0]) {
			case "MsgTx", "TxIn", "TxOut", "Inputs", "Outputs":
				return true
			}
		}
		return false
	}
	return t.op == "param" && !isBoolType(t.typ) || t.op == "ver0" || t.op == "const"
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
