package main

import (
	"fmt"
	"go/types"
	"os"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// feeOps are the operations that may move value between outputs and fee.
func (r *Rep) feeOps() []*ssa.Function {
	named := map[string]bool{"AdjustFee": true, "CalculateFee": true, "ZeroizeFee": true, "AddFunding": true, "AddFundingBreakChange": true, "Sign": true}
	var out []*ssa.Function
	adjust := r.P.lookup("TxBuilder.AdjustFee")
	for _, fn := range r.P.exported(r.P.lib) {
		if r.P.isSpec(fn) || len(fn.Params) == 0 || !isTxBuilderPtr(fn.Params[0].Type()) {
			continue
		}
		if named[fn.Name()] || adjust != nil && r.P.reaches(fn, func(f *ssa.Function) bool { return f == adjust }) {
			out = append(out, fn)
		}
	}
	return out
}

// outputFields are the fields through which outputs change.
var outputFields = map[string]bool{
	"TxOut.Value": true, "TxOut.LockingScript": true, "OutputSupplement.IsRemainder": true, "OutputSupplement.addedForFee": true, "OutputSupplement.KeyID": true,
	"TxBuilder.Outputs": true, "TxBuilder.MsgTx": true, "MsgTx.TxOut": true,
}

func isOutputType(t types.Type) bool {
	t = derefT(t)
	return isNamed(t, "TxOut") || isNamed(t, "OutputSupplement")
}

// touchesOutputs decides from its own instructions whether a function may change outputs or their lists.
func touchesOutputs(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch x := i.(type) {
			case *ssa.Store:
				switch ad := x.Addr.(type) {
				case *ssa.FieldAddr:
					t := derefT(ad.X.Type())
					if s, _ := structOf(t); s != nil {
						if n, ok := t.(*types.Named); ok && outputFields[n.Obj().Name()+"."+s.Field(ad.Field).Name()] {
							return true
						}
					}
				case *ssa.IndexAddr:
					if isOutputType(x.Val.Type()) {
						return true
					}
				}
				if isOutputType(x.Val.Type()) && !isPtr(x.Val.Type()) || isNamed(x.Val.Type(), "MsgTx") || isNamed(x.Val.Type(), "TxBuilder") {
					return true // a whole record is overwritten
				}
			case ssa.CallInstruction:
				c := x.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					if bi.Name() == "append" || bi.Name() == "copy" {
						if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && isOutputType(sl.Elem()) {
							return true
						}
					}
					continue
				}
				f := c.StaticCallee()
				if f == nil {
					if !c.IsInvoke() {
						return true // unknown function
					}
					continue
				}
				if f.Pkg == fn.Pkg {
					continue
				}
				for k, arg := range c.Args {
					if isNamed(derefT(arg.Type()), "MsgTx") || isNamed(derefT(arg.Type()), "TxOut") || isNamed(derefT(arg.Type()), "TxBuilder") {
						if isPtr(arg.Type()) && writesOutputs(f, k) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

// writesOutputs decides whether a function of a dependency stores through its k-th parameter.
func writesOutputs(f *ssa.Function, k int) bool {
	return isMutator(fnName(f)) || writesParam(nil, f, k, map[string]bool{})
}

// perOutputs applies a relational rule to the operations: to those functions that change outputs
// themselves, and otherwise to the functions they call.
func (r *Rep) perOutputs(fn *ssa.Function, rel func(r *Rep, a *Analysis, name string), seen map[*ssa.Function]*Rep) *Rep {
	if s, ok := seen[fn]; ok {
		return s
	}
	sub := r.attempt()
	seen[fn] = sub
	name := relName(fn)
	if !touchesOutputs(fn) {
		for _, g := range r.P.callees(fn) {
			if g.Pkg == fn.Pkg && !r.P.isSpec(g) {
				of := r.perOutputs(g, rel, seen)
				sub.merge(of, true)
				if len(of.finds) > 0 && isFeeOp(r.feeOps(), g) {
					return sub // the operation called is itself at fault
				}
			}
		}
		if len(sub.finds) == 0 {
			sub.check(true, "delegated", name, r.P.pos(fn, nil), "")
			return sub
		}
	}
	if !hasBuilder(fn) {
		// what it changes is decided where it is called with a builder
		sub.check(touchesNothing(fn), "delegated", name, r.P.pos(fn, nil), "outputs may change outside a builder operation")
		return sub
	}
	if os.Getenv("VERIF_V") != "" {
		for _, f := range sub.finds {
			fmt.Fprintln(os.Stderr, name, "not delegated:", f)
		}
	}
	own := r.attempt()
	if !r.P.within(4*time.Minute, func() {
		if a := own.analysis(name, "fee", withSigSummary); a != nil {
			rel(own, a, name)
		}
	}) {
		own = sub
		own.check(len(own.finds) > 0, "delegated", name, r.P.pos(fn, nil), "the analysis did not end in time")
	}
	seen[fn] = own
	return own
}

func touchesNothing(fn *ssa.Function) bool { return !touchesOutputs(fn) }

// callees lists the functions a function calls, closures included.
func (P *Program) callees(fn *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				add(c.Common().StaticCallee())
			}
			if m, ok := i.(*ssa.MakeClosure); ok {
				add(m.Fn.(*ssa.Function))
			}
		}
	}
	return out
}

// outputAt gives the j-th transaction output and its record at the start of an operation.
func (a *Analysis) outputAt(tx, j *Term) (txout, rec, inside *Term) {
	st := a.entry
	lt, lo := a.list(st, tx, "MsgTx", "TxOut"), a.list(st, tx, "Outputs")
	txout = a.in.elemAt(st, lt, j, a.listElemType(tx, "MsgTx", "TxOut"))
	rec = a.in.elemAt(st, lo, j, a.listElemType(tx, "Outputs"))
	return txout, rec, mkAnd(mkLe(mkInt(0), j), mkLt(j, mkLen(lt)))
}

// ---- P16 ----

func ruleP16(r *Rep) {
	r.rule("value", "at every return, an output that existed before has its value unless its record is marked as remainder")
	r.rule("script", "at every return, an output that existed before has its locking script")
	r.rule("mark", "at every return, a record that existed before has its marks, except that outputs with the change script may have been marked as remainder")
	r.rule("removal", "at every return, an output that is no longer in the list was marked as remainder and as added by fee adjustment")
	r.rule("delegated", "an operation that does not change outputs itself follows from the functions it calls")
	r.overOutputs(outputsKept)
	r.atLeast("value", 10)
}

func (r *Rep) overOutputs(rel func(r *Rep, a *Analysis, name string)) {
	seen := map[*ssa.Function]*Rep{}
	ops := r.feeOps()
	for _, fn := range ops {
		r.perOutputs(fn, rel, seen)
	}
	for _, fn := range ops {
		r.merge(seen[fn], true)
	}
	r.counts["operations"] = len(ops)
}

func outputsKept(r *Rep, a *Analysis, name string) {
	tx := a.builderArg()
	j := sym("j")
	txout, rec, inside := a.outputAt(tx, j)
	field := func(st *State, base *Term, f string) *Term { return st.simp(a.in.at(st, base, f)) }
	for _, ret := range a.rets {
		pos := a.pos(ret.instr)
		st := ret.st
		rem := asBool(field(st, rec, "IsRemainder"))
		same := mkEqInt(field(st, txout, "Value"), field(a.entry, txout, "Value"))
		r.check(st.provesAt(mkImp(mkAnd(inside, mkNot(same)), rem), j), "value", name, pos, "the value of an output that is not marked as remainder may change")
		s0, s1 := field(a.entry, txout, "LockingScript"), field(st, txout, "LockingScript")
		ok := s0 == s1
		if !ok {
			ok = st.provesAt(mkImp(inside, mkEq(s0, s1)), j)
		}
		ok = ok && sameBytes(st, a.in.contTerm(a.entry, s0), a.in.contTerm(st, s0))
		r.check(ok, "script", name, pos, "the locking script of an output may change")
		added, added0 := asBool(field(st, rec, "addedForFee")), asBool(field(a.entry, rec, "addedForFee"))
		r.check(added == added0 || st.provesAt(mkImp(inside, iff(added, added0)), j), "mark", name, pos, "an existing output may be marked as added by fee adjustment")
		rem0 := asBool(field(a.entry, rec, "IsRemainder"))
		if rem != rem0 {
			change := mkEq(a.in.contTerm(a.entry, s0), a.in.contTerm(st, a.in.at(st, tx, "ChangeScript")))
			r.check(st.provesAt(mkImp(inside, mkOr(iff(rem, rem0), change)), j), "mark", name, pos, "an existing output may be marked as remainder or lose that mark")
		} else {
			r.check(true, "mark", name, pos, "")
		}
		for _, p := range [][]string{{"MsgTx", "TxOut"}, {"Outputs"}} {
			l0, l1 := a.list(a.entry, tx, p...), a.list(st, tx, p...)
			for _, l := range leaves(l1) {
				s2 := st.where(whenLeaf(l1, func(x *Term) bool { return x == l }))
				if s2 == nil {
					continue
				}
				gaps, ok := missing(s2, l, l0)
				r.check(ok, "removal", name, pos, "the list %s may lose elements: it becomes %v", strings.Join(p, "."), l)
				for _, g := range gaps {
					lost := mkAnds(inside, mkLe(g[0], j), mkLt(j, g[1]))
					was := mkAnd(rem, added0)
					if g[1] == addInt(g[0], 1) {
						lost, was = subst1(lost, j, g[0]), subst1(was, j, g[0])
					}
					r.check(s2.proves(mkImp(lost, was), j), "removal", name, pos, "an output may be removed that was not added by fee adjustment")
				}
			}
		}
	}
}

// missing lists the ranges of a list that a later content of it lacks.
func missing(st *State, now, old *Term) ([][2]*Term, bool) {
	src := whole(old)
	at := mkInt(0)
	var gaps [][2]*Term
	if now.op != "seq" {
		return nil, now == src || now == old
	}
	for _, g := range now.args {
		lo, hi := (*Term)(nil), (*Term)(nil)
		switch {
		case g.op == "sub" && g.args[0] == src:
			lo, hi = g.args[1], g.args[2]
		case g.op == "one" && g.args[0].op == "elem" && g.args[0].args[0] == src:
			lo = g.args[0].args[1]
			hi = addInt(lo, 1)
		case g.op == "one" && freshAll(g.args[0]):
			continue // added
		case containsFn(g, func(x *Term) bool { return x == src }) && g.op != "map":
			return nil, false
		default:
			continue // added
		}
		if lo != at {
			if !st.proves(mkLe(at, lo)) {
				return nil, false
			}
			gaps = append(gaps, [2]*Term{at, lo})
		}
		at = hi
	}
	if n := mkLen(src); at != n && at != mkLen(old) {
		gaps = append(gaps, [2]*Term{at, n})
	}
	return gaps, true
}

// ---- P17 ----

func ruleP17(r *Rep) {
	r.rule("script", "an output an operation adds on its own pays the change script of the builder, or the script of one of the given addresses")
	r.rule("key", "its record carries the key identifier configured with that script, or given with that same address")
	r.rule("remainder", "an added output that pays the change script is marked as remainder")
	r.rule("removable", "it is marked as added by fee adjustment exactly if fee adjustment added it")
	r.rule("delegated", "an operation that does not change outputs itself follows from the functions it calls")
	r.overOutputs(outputsAdded)
	r.atLeast("script", 3)
	r.atLeast("removable", 3)
}

type newOutput struct {
	st         *State
	p          *Term // position
	rec, txout *Term
}

// newOutputs lists the outputs in a final list that were not there before.
func (a *Analysis) newOutputs(st *State, tx *Term) []newOutput {
	var out []newOutput
	old := whole(a.list(a.entry, tx, "Outputs"))
	l1, t1 := a.list(st, tx, "Outputs"), a.list(st, tx, "MsgTx", "TxOut")
	rt, ot := a.listElemType(tx, "Outputs"), a.listElemType(tx, "MsgTx", "TxOut")
	for _, l := range leaves(l1) {
		if l.op != "seq" {
			continue
		}
		s2 := st.where(whenLeaf(l1, func(x *Term) bool { return x == l }))
		if s2 == nil {
			continue
		}
		off := mkInt(0)
		for i, g := range l.args {
			at := off
			off = mkAdd(off, segLen(g))
			if g.op == "sub" && g.args[0] == old {
				continue
			}
			s3, p := s2.clone(), at
			if g.op != "one" {
				q := sym("q" + strconv.Itoa(i))
				s3.facts = s3.facts.assume(mkLe(mkInt(0), q)).assume(mkLt(q, segLen(g)))
				p = mkAdd(at, q)
			}
			out = append(out, newOutput{s3, p, s3.simp(a.in.elemAt(s3, l, p, rt)), s3.simp(a.in.elemAt(s3, s3.simp(t1), p, ot))})
		}
	}
	return out
}

func outputsAdded(r *Rep, a *Analysis, name string) {
	tx := a.builderArg()
	for _, ret := range a.rets {
		pos := a.pos(ret.instr)
		for _, o := range a.newOutputs(ret.st, tx) {
			st := o.st
			script := st.simp(a.in.contTerm(st, a.in.at(st, o.txout, "LockingScript")))
			key := st.simp(a.in.at(st, o.rec, "KeyID"))
			change := a.in.contTerm(st, a.in.at(st, tx, "ChangeScript"))
			if sameBytes(st, script, change) {
				r.check(true, "script", name, pos, "")
				r.check(a.sameValue(st, key, a.in.at(st, tx, "ChangeKeyID")), "key", name, pos, "the output added has the key identifier %v", key)
				r.check(st.proves(asBool(a.in.at(st, o.rec, "IsRemainder"))), "remainder", name, pos, "the change output added is not marked as remainder")
			} else {
				okS, okK := true, true
				for _, s := range leaves(script) {
					s2 := st.where(whenLeaf(script, func(x *Term) bool { return x == s }))
					if s2 == nil {
						continue
					}
					to := recipientOf(s)
					okS = okS && to != nil
					if to != nil {
						k := s2.simp(key)
						okK = okK && (k == to.key || a.sameValue(s2, k, to.key))
					}
				}
				r.check(okS, "script", name, pos, "the output added pays %v", script)
				r.check(okK, "key", name, pos, "the output added has the key identifier %v, its script is %v", key, script)
			}
			r.check(byAdjustment(st, o.rec) != nil && st.proves(iff(asBool(a.in.at(st, o.rec, "addedForFee")), byAdjustment(st, o.rec))), "removable", name, pos, "the mark that fee adjustment added the output is wrong")
		}
	}
}

// recipient is an entry of a list of recipients.
type recipient struct{ entry, key *Term }

// recipientOf recognises the script of a recipient: its own, or that of its address.
func recipientOf(s *Term) *recipient {
	s = whole(s)
	if s.op == "ext" && s.aux == "0" && appNamed(s.args[0], "RawAddress).LockingScript") {
		s = s.args[0].args[0]
	}
	if s.op != "field" || s.args[0].typ == nil {
		return nil
	}
	e := s.args[0]
	st, _ := structOf(e.typ)
	for i := 0; st != nil && i < st.NumFields(); i++ {
		if st.Field(i).Name() == "KeyID" {
			return &recipient{e, mkField(e, strconv.Itoa(i), st.Field(i).Type())}
		}
	}
	return nil
}

// byAdjustment decides from where a record was created whether fee adjustment added it.
func byAdjustment(st *State, rec *Term) *Term {
	ok := true
	c := whenLeaf(rec, func(x *Term) bool {
		x = rootOf(x)
		if x.op != "alloc" {
			ok = false
		}
		return strings.Contains(x.aux, ").AdjustFee@")
	})
	if !ok {
		return nil
	}
	return c
}

func isFeeOp(ops []*ssa.Function, fn *ssa.Function) bool {
	for _, f := range ops {
		if f == fn {
			return true
		}
	}
	return false
}

// ---- P15 ----

func ruleP15(r *Rep) {
	r.rule("moved", "where an adjustment succeeds the reference does too, and every output has the value and script, and the list of outputs the shape, that the reference gives them")
	r.successOnly = true
	r.equivState("moved", "TxBuilder.AdjustFee", "zzAdjustFee", nil, func(path string) bool {
		return path != "tx" && !strings.HasPrefix(path, "tx.MsgTx")
	})
	r.atLeast("moved", 4)
}
