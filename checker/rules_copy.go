package main

import (
	"fmt"
	"go/types"
	"strconv"
)

// ---- P07 ----

type copyCheck struct {
	r    *Rep
	a    *Analysis
	name string
	pos  string
}

func (c *copyCheck) report(ok bool, rule, path, format string, args ...interface{}) {
	c.r.check(ok, rule, c.name+"/"+path, c.pos, format, args...)
}

// shared is a part of a reference value that does not stem from an allocation of the copying function.
func shared(v *Term) *Term {
	for _, l := range leaves(v) {
		if l.isNil() || fresh(l) {
			continue
		}
		if l.op == "seq" {
			continue
		}
		return l
	}
	return nil
}

// deep compares a value of the copy with the one of the original.
func (c *copyCheck) deep(st *State, v, orig *Term, typ types.Type, path string, depth int) {
	in := c.a.in
	if s, ok := structOf(typ); ok && !atomicStruct(typ) {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			c.deep(st, st.simp(mkField(v, strconv.Itoa(i), ft)), st.simp(mkField(orig, strconv.Itoa(i), ft)), ft, path+"."+s.Field(i).Name(), depth)
		}
		return
	}
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		for _, k := range st.cases(v, orig) {
			n, o := k.vals[0], k.vals[1]
			// the builder that is copied is well formed
			if !k.st.narrow(mkNot(mkIsNil(o))) {
				continue
			}
			same := k.st.proves(iff(mkIsNil(n), mkIsNil(o)))
			c.report(same, "equal", path, "nil in only one of the two")
			if n.isNil() || o.isNil() || !same {
				continue
			}
			if depth == 0 {
				c.report(false, "depth", path, "nested deeper than the comparison reaches")
				continue
			}
			sh := shared(n)
			c.report(sh == nil, "independent", path, "the copy refers to %v of the original", n)
			if sh == nil {
				c.deep(k.st, in.load(k.st, n, u.Elem()), in.load(c.a.entry, o, u.Elem()), u.Elem(), path, depth-1)
			}
		}
	case *types.Slice:
		cn, co := in.contOf(st, v), in.contOf(c.a.entry, orig)
		ln, lo := mkLen(cn), mkLen(co)
		ok, w := st.proveW(mkEqInt(ln, lo))
		c.report(ok, "equal", path, "the copy has %v elements, the original %v%s", ln, lo, witness(w))
		if !ok {
			return
		}
		// an empty list has no elements to share
		if sh := shared(v); sh != nil {
			ok := true
			for _, k := range st.cases(v) {
				if shared(k.vals[0]) != nil && !k.st.proves(mkEqInt(mkLen(in.contOf(k.st, k.vals[0])), mkInt(0))) {
					ok = false
				}
			}
			c.report(ok, "independent", path, "the copy refers to the elements %v of the original", sh)
			if !ok {
				return
			}
		} else {
			c.report(true, "independent", path, "")
		}
		j := sym(fmt.Sprintf("j%d", depth))
		inside := st.clone()
		if !inside.narrow(mkAnd(mkLe(mkInt(0), j), mkLt(j, lo))) {
			return
		}
		c.deep(inside, in.elemAt(inside, cn, j, u.Elem()), inside.simp(in.elemAt(c.a.entry, co, j, u.Elem())), u.Elem(), path+"[]", depth)
	default:
		switch typ.Underlying().(type) {
		case *types.Map, *types.Chan, *types.Signature, *types.Interface:
			c.report(false, "depth", path, "values of type %s cannot be compared", typ)
			return
		}
		eq := v == orig
		var w []Lit
		if !eq {
			switch {
			case isIntegerType(typ):
				eq, w = st.proveW(mkEqInt(v, orig))
			case isBoolType(typ):
				eq, w = st.proveW(iff(asBool(v), asBool(orig)))
			default:
				eq, w = st.proveW(mkEq(v, orig))
			}
		}
		if !eq && !st.feasible(termTrue) {
			return
		}
		c.report(eq, "equal", path, "the copy holds %s, the original %s%s", cutStr(v.String(), 150), cutStr(orig.String(), 150), witness(w))
	}
}

func ruleP07(r *Rep) {
	r.rule("equal", "every field of the copy, of its records and of its transaction, and every list element at a generic position, has provably the value it has in the original")
	r.rule("independent", "every pointer and every non-empty list in the copy, at every level, refers to memory allocated by the copying function")
	for _, name := range []string{"TxBuilder.Copy", "InputSupplement.Copy", "OutputSupplement.Copy"} {
		a := r.analysis(name, "copy", nil)
		if a == nil {
			continue
		}
		res := a.fn.Signature.Results()
		if res.Len() != 1 || len(a.args) == 0 {
			r.check(false, "anchor", name, r.P.pos(a.fn, nil), "unexpected signature")
			continue
		}
		for _, ret := range a.rets {
			v, t := ret.vals[0], res.At(0).Type()
			orig, ot := a.args[0], a.fn.Params[0].Type()
			c := &copyCheck{r, a, name, a.pos(ret.instr)}
			if _, ok := t.Underlying().(*types.Pointer); ok {
				c.report(shared(v) == nil, "independent", "", "the result is not a new object")
				t = derefT(t)
				v = a.in.load(ret.st, v, t)
			}
			if _, ok := ot.Underlying().(*types.Pointer); ok {
				ot = derefT(ot)
				orig = a.in.load(a.entry, orig, ot)
			}
			c.deep(ret.st, v, orig, t, "copy", 4)
		}
	}
	r.atLeast("equal", 30)
	r.atLeast("independent", 8)
}

// ---- P25 ----

// at evaluates a reference function on chosen values for its last arguments.
func (r *Rep) refAt(name string, vals ...*Term) []*Term { return r.refNorm(name, nil, vals...) }

// refNorm is refAt with a transformation of the lists returned.
func (r *Rep) refNorm(name string, norm func(in *Interp, st *State, c *Term) *Term, vals ...*Term) []*Term {
	key := "ref"
	for _, v := range vals {
		key += "," + v.String()
	}
	b := r.P.specAnalysis(r, name, key, func(in *Interp, st *State, args []*Term) {
		copy(args[len(args)-len(vals):], vals)
	})
	if b == nil || len(b.rets) == 0 {
		r.check(false, "anchor", name, "-", "no reference function")
		return nil
	}
	var out []*Term
	for i := range b.rets[0].vals {
		if isSliceType(b.fn.Signature.Results().At(i).Type()) {
			// lists are compared by content
			var c *Term
			for _, ret := range b.rets {
				x := b.in.contTerm(ret.st, ret.vals[i])
				if norm != nil {
					x = norm(b.in, ret.st, x)
				}
				if c == nil {
					c = x
				} else {
					c = mkITE(ret.st.pc, x, c)
				}
			}
			out = append(out, c)
			continue
		}
		out = append(out, b.combined(i))
	}
	return out
}

type importer struct {
	name, match, record string
	list                bool // the previous outputs are given as a list
}

// sources lists the elements of the given list that a value mentions.
func sources(v, list *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "elem" && t.args[0] == list && t.args[1].free == 0 {
			out = append(out, t.args[1])
		}
		if t.op == "exists" || t.op == "first" || t.op == "last" {
			return
		}
		kids(t, rec)
	}
	rec(v)
	return out
}

func ruleP25(r *Rep) {
	r.rule("right-output", "for a generic input, the record holds exactly the script, value and key identifier of a supplied output whose hash and index provably equal those of the input's outpoint")
	r.rule("empty-record", "a record not taken from a supplied output is empty, and then no supplied output matches")
	r.rule("missing-error", "the missing-data error is returned exactly when some input has no matching output, always with a builder")
	r.rule("same-transaction", "the builder holds the given transaction")
	for _, imp := range []importer{{"NewTxBuilderFromWire", "zzFromTxMatch", "zzFromTxRecord", true}, {"NewTxBuilderFromWireUTXOs", "zzFromUTXOMatch", "zzFromUTXORecord", true}, {"NewTxBuilderFromTransactionWithOutputs", "zzFromOutputsMatch", "zzFromOutputsRecord", false}} {
		a := r.analysis(imp.name, "std", nil)
		if a == nil {
			continue
		}
		if len(a.args) < 3 || a.fn.Signature.Results().Len() != 2 {
			r.check(false, "anchor", imp.name, r.P.pos(a.fn, nil), "unexpected signature")
			continue
		}
		for _, ret := range a.rets {
			r.imported(imp, a, ret)
		}
	}
	r.atLeast("right-output", 3)
	r.atLeast("empty-record", 3)
	r.atLeast("missing-error", 4)
}

func (r *Rep) imported(imp importer, a *Analysis, ret Ret) {
	in, pos := a.in, a.pos(ret.instr)
	err := a.errOf(ret)
	j := sym("j")
	for _, c := range ret.st.cases(ret.vals[0]) {
		st, b := c.st, c.vals[0]
		if b.isNil() {
			// only a transaction that supplies its own outputs may fail altogether
			ok := !imp.list && st.proves(mkNot(mkIsNil(err)))
			if !ok && !st.feasible(termTrue) {
				continue
			}
			r.check(ok, "missing-error", imp.name, pos, "no builder is returned")
			continue
		}
		msg := in.at(st, b, "MsgTx")
		if imp.list {
			r.check(msg == a.args[2] || st.proves(mkEq(msg, a.args[2])), "same-transaction", imp.name, pos, "the builder holds %v", msg)
		} else {
			r.check(msg.op == "app" && contains(msg, a.args[2]), "same-transaction", imp.name, pos, "the builder holds %v", msg)
		}
		recs := a.list(st, b, "Inputs")
		n := mkLen(recs)
		inside := st.clone()
		if !inside.narrow(mkAnd(mkLe(mkInt(0), j), mkLt(j, n))) {
			continue
		}
		var some *Term // the input has a supplied output
		if imp.list {
			list := in.contTerm(a.entry, a.args[3])
			m := sym("m")
			cond := r.refAt(imp.match, j, m)
			if cond == nil {
				return
			}
			some = mkExists(mkLen(list), closeBody(asBool(cond[0]), m))
			missing := mkExists(n, closeBody(mkNot(some), j))
			isMissing := a.causeIs(err, "ErrMissingInputData")
			ok, w := st.proveW(iff(isMissing, missing))
			r.check(ok, "missing-error", imp.name, pos, "the missing-data error is not returned exactly when an input has no matching output%s", witness(w))
			r.check(st.proves(mkOr(isMissing, mkIsNil(err))), "missing-error", imp.name, pos, "another error %v is returned", err)
		} else {
			cond := r.refAt(imp.match, j)
			if cond == nil {
				return
			}
			some = asBool(cond[0])
			r.check(inside.proves(mkImp(mkAnd(some, mkIsNil(err)), mkIsNil(cond[1])), j), "missing-error", imp.name, pos, "success though the transaction reported an error for an input")
		}
		rt := a.listElemType(b, "Inputs")
		for _, k := range inside.cases(in.elemAt(inside, recs, j, rt)) {
			rec := k.vals[0]
			if rec.isNil() {
				if k.st.feasible(termTrue) {
					r.check(false, "empty-record", imp.name, pos, "an input is left without a record")
				}
				continue
			}
			script, value, key := in.at(k.st, rec, "LockingScript"), in.at(k.st, rec, "Value"), in.at(k.st, rec, "KeyID")
			if script == nil || value == nil || key == nil {
				r.check(false, "right-output", imp.name, pos, "cannot read the record")
				continue
			}
			for _, l := range k.st.cases(in.contTerm(k.st, script), value, key) {
				r.importedRecord(imp, a, l.st, l.vals, some, j, pos)
			}
		}
	}
}

// importedRecord decides one shape of a record's content.
func (r *Rep) importedRecord(imp importer, a *Analysis, st *State, vals []*Term, some, j *Term, pos string) {
	empty := mkAnds(mkEqInt(mkLen(vals[0]), mkInt(0)), mkEqInt(vals[1], mkInt(0)), mkEq(vals[2], mkStr("")))
	if st.proves(empty) {
		ok, w := st.proveW(mkNot(some))
		r.check(ok, "empty-record", imp.name, pos, "the record is empty although an output was supplied for the input%s", witness(w))
		return
	}
	if !st.feasible(termTrue) {
		return
	}
	same := func(ref []*Term) *Term {
		return mkAnds(mkEq(vals[0], a.in.contTerm(a.entry, ref[0])), mkEqInt(vals[1], ref[1]), mkEq(vals[2], ref[2]))
	}
	if !imp.list {
		ref := r.refAt(imp.record, j)
		if ref == nil {
			return
		}
		ok, w := st.proveW(mkAnd(some, same(ref)))
		r.check(ok, "right-output", imp.name, pos, "the record holds %s, %s, not those of the output spent by the input%s", cutStr(vals[0].String(), 120), cutStr(vals[1].String(), 120), witness(w))
		return
	}
	list := a.in.contTerm(a.entry, a.args[3])
	ms := append(sources(vals[0], list), sources(vals[1], list)...)
	why := "it stems from no supplied output"
	for _, m := range ms {
		cond, ref := r.refAt(imp.match, j, m), r.refAt(imp.record, j, m)
		if cond == nil || ref == nil {
			return
		}
		goal := mkAnds(mkLe(mkInt(0), m), mkLt(m, mkLen(list)), asBool(cond[0]), same(ref))
		ok, w := st.proveW(goal)
		if ok {
			r.check(true, "right-output", imp.name, pos, "")
			return
		}
		why = "not proved that output " + cutStr(m.String(), 100) + " is the one spent by the input" + witness(w)
	}
	r.check(false, "right-output", imp.name, pos, "the record holds %s, %s, %s: %s", cutStr(vals[0].String(), 120), cutStr(vals[1].String(), 120), cutStr(vals[2].String(), 120), why)
}
