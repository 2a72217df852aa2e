package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- P20 ----

func ruleP20(r *Rep) {
	r.rule("size", "the result has the same value number as the reference formula of the wire format, on every pair of returns and for every script template")
	for _, p := range [][2]string{{"VarIntSerializeSize", "zzVarInt"}, {"UnlockingScriptSize", "zzUnlockingSize"}, {"InputSize", "zzInputSize"},
		{"OutputSize", "zzOutputSize"}, {"TxBuilder.EstimatedSize", "zzEstimatedSize"}} {
		r.equiv(p[0], p[1], eqOpts{rule: "size"})
	}
	r.rule("constant", "the published size constants are the sizes they name")
	for n, v := range map[string]string{"BaseTxSize": "8", "InputBaseSize": "40", "OutputBaseSize": "8", "MaximumP2PKHSigScriptSize": "108",
		"MaximumP2PKHInputSize": "149", "MaximumP2PKSigScriptSize": "74", "MaximumP2PKInputSize": "115", "MaximumP2RPHSigScriptSize": "108",
		"MaximumP2RPHInputSize": "149", "P2PKHOutputScriptSize": "25", "P2PKHOutputSize": "34", "P2PKOutputScriptSize": "35", "P2PKOutputSize": "44",
		"PublicKeyPushDataSize": "34", "PublicKeyHashPushDataSize": "21", "MaxSignatureSize": "73", "MaxSignaturesPushDataSize": "74"} {
		if c := r.P.lib.Const(n); c != nil {
			r.check(c.Value.Value.ExactString() == v, "constant", n, r.P.posOf(c.Pos()), "is %s, not %s", c.Value.Value.ExactString(), v)
		}
	}
	r.atLeast("size", 5)
}

// ---- P21 ----

func ruleP21(r *Rep) {
	r.rule("fee", "the result has the same value number as the reference: the size in bytes times the rate in double precision, rounded up")
	for _, p := range [][2]string{{"EstimatedFeeValue", "zzFee"}, {"EstimatedFeeValueDown", "zzFeeDown"}, {"TxBuilder.EstimatedFee", "zzEstimatedFee"},
		{"UTXOFee", "zzUTXOFee"}, {"UTXOInputSizeAndFee", "zzUTXOInputSizeAndFee"}, {"LockingScriptInputFee", "zzLockingScriptInputFee"},
		{"AddressOutputFee", "zzAddressOutputFee"}, {"LockingScriptOutputFee", "zzLockingScriptOutputFee"}, {"OutputTotalCost", "zzOutputTotalCost"},
		{"TxBuilder.Remainder", "zzRemainder"}} {
		r.equiv(p[0], p[1], eqOpts{rule: "fee"})
	}
	r.equiv("OutputFeeAndDustForLockingScript", "zzOutputFeeAndDustForLockingScript", eqOpts{rule: "fee", skip: map[int]bool{1: true}})
	r.equiv("OutputFeeAndDustForAddress", "zzOutputFeeAndDustForAddress", eqOpts{rule: "fee", skip: map[int]bool{1: true}})
	r.atLeast("fee", 20)
	r.rule("conversion", "every conversion of a computed amount to whole satoshis in any operation is applied to the double-precision product of a size and a rate rounded up; only dust limits and the value regained from change are rounded down")
	for _, fn := range r.P.exported(r.P.lib) {
		if fn.Name() == "Sign" || fn.Name() == "SignOnly" {
			// their conversions happen in the functions they call, which are analysed on their own
			continue
		}
		a := r.analysis(relName(fn), "std", nil)
		if a == nil {
			continue
		}
		for _, e := range a.events {
			if e.kind != "conv" {
				continue
			}
			down := relName(fn) == "EstimatedFeeValueDown" || relName(fn) == "TxBuilder.Remainder"
			for _, l := range leaves(e.val) {
				ok, why := feeShape(l, down)
				r.check(ok, "conversion", relName(fn)+"/"+relName(e.fn), e.pos(r.P), "%s: %s", why, cutStr(l.String(), 300))
			}
		}
	}
	for _, fn := range r.P.repoFuncs(r.P.lib) {
		if fn.Name() != "Sign" && fn.Name() != "SignOnly" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if c, ok := i.(*ssa.Convert); ok && isFloatType(c.X.Type()) && isIntegerType(c.Type()) {
					r.check(false, "conversion", relName(fn), r.P.pos(fn, i), "amount converted outside the fee functions")
				}
			}
		}
	}
	r.atLeast("conversion", 20)
}

// feeShape recognises the allowed forms of an amount that is converted to satoshis.
func feeShape(t *Term, down bool) (bool, string) {
	if t.op == "app" && (t.aux == "math.Ceil" || down && t.aux == "math.Floor") && len(t.args) == 1 {
		for _, m := range leaves(t.args[0]) {
			if m.isConst() {
				continue
			}
			if m.op != "bin" || m.aux != "*" || m.typ == nil || m.typ.Underlying().String() != "float64" {
				return false, "the rounded amount is not a double-precision product"
			}
			for _, x := range m.args {
				if x.op == "conv" && x.typ != nil && isFloatType(x.typ) && len(x.args) == 1 && (x.args[0].op == "bin" || x.args[0].op == "conv") && !isIntegerType(x.args[0].typ) {
					return false, "an operand was computed in single precision"
				}
			}
		}
		return true, ""
	}
	if t.op == "bin" && t.aux == "*" {
		for _, x := range t.args {
			if x.op == "conv" && len(x.args) == 1 {
				all := true
				for _, l := range leaves(x.args[0]) {
					if lin := toLin(l); lin.c != 3*148+3*8 && lin.c != 3*148 {
						all = false
					}
				}
				if all {
					return true, ""
				}
			}
			if x.isConst() && x.cv.ExactString() == "546" {
				return true, ""
			}
		}
	}
	return false, "the amount is not rounded up"
}

// ---- P22 ----

func none(in *Interp, st *State, args []*Term) {}

// returns is the condition under which an error is the named one; errors made by other packages are not.
func (a *Analysis) returns(err *Term, name string) *Term {
	c := mkCause(err)
	return lift1(c, func(l *Term) *Term {
		if l.op == "ext" || l.op == "app" {
			return termFalse
		}
		return a.causeIs(l, name)
	})
}

func ruleP22(r *Rep) {
	r.rule("dust-limit", "the dust limit functions have the value number of the reference formula")
	for _, p := range [][2]string{{"DustLimit", "zzDustLimit"}, {"DustLimitForOutput", "zzDustLimitForOutput"}, {"DustLimitForAddress", "zzDustLimitForAddress"},
		{"DustLimitForLockingScript", "zzDustLimitForLockingScript"}} {
		r.equiv(p[0], p[1], eqOpts{rule: "dust-limit"})
	}
	r.equiv("OutputFeeAndDustForLockingScript", "zzOutputFeeAndDustForLockingScript", eqOpts{rule: "dust-limit", skip: map[int]bool{0: true}})
	r.equiv("OutputFeeAndDustForAddress", "zzOutputFeeAndDustForAddress", eqOpts{rule: "dust-limit", skip: map[int]bool{0: true}})
	r.rule("accepted", "a new output is added only where the reference condition does not refuse it")
	r.rule("refused", "the below-dust error is returned only where the reference condition refuses the output, and no other error unless the index is out of range")
	r.rule("recorded", "an added output has the reference value (the dust limit for a dust output) and the given script and flags")
	for _, name := range []string{"AddOutput", "InsertOutput"} {
		fn := "TxBuilder." + name
		a := r.analysis(fn, "std", nil)
		b := r.P.specAnalysis(r, "zz"+name, "", none)
		if a == nil || b == nil {
			r.check(false, "anchor", fn, "-", "cannot be analysed")
			continue
		}
		want, refused := b.combined(0), asBool(b.combined(1))
		tx := a.builderArg()
		n := mkLen(a.list(a.entry, tx, "MsgTx", "TxOut"))
		at, outside := n, termFalse
		if name == "InsertOutput" {
			at = a.argOfType(0, isKind(types.Int))
			outside = mkOr(mkLt(at, mkInt(0)), mkLt(n, at))
		}
		rem, dust := a.argOfType(0, isKind(types.Bool)), a.argOfType(1, isKind(types.Bool))
		script := a.argOfType(0, isSliceType)
		for _, ret := range a.rets {
			pos := a.pos(ret.instr)
			if e := a.errOf(ret); e != nil {
				if st := ret.st.where(mkNot(mkIsNil(e))); st != nil {
					ok := st.proves(mkOr(outside, mkAnd(refused, a.causeIs(e, "ErrBelowDustValue"))))
					r.check(ok, "refused", fn, pos, "an output is refused although its value is acceptable, or with another error: %v", cutStr(e.String(), 200))
				}
			}
			st := ret.st.where(mkAnd(a.okWhen(ret), mkNot(outside)))
			if st == nil {
				continue
			}
			ok, w := st.proveW(mkNot(refused))
			r.check(ok, "accepted", fn, pos, "an output is accepted that must be refused%s", witness(w))
			wt, et := a.listElemType(tx, "MsgTx", "TxOut"), a.listElemType(tx, "Outputs")
			out := a.in.elemAt(st, a.list(st, tx, "MsgTx", "TxOut"), at, wt)
			rec := a.in.elemAt(st, a.list(st, tx, "Outputs"), at, et)
			v := a.in.fieldsOf(st, out, wt, "Value")
			r.check(st.proves(mkEqInt(v, want)), "recorded", fn+"/Value", pos, "the value is %v", cutStr(v.String(), 200))
			r.check(a.sameValue(st, a.in.fieldsOf(st, out, wt, "LockingScript"), script), "recorded", fn+"/LockingScript", pos, "another script is used")
			r.check(st.proves(iff(asBool(a.in.fieldsOf(st, rec, et, "IsRemainder")), asBool(rem))), "recorded", fn+"/IsRemainder", pos, "the remainder flag differs")
			r.check(st.proves(iff(asBool(a.in.fieldsOf(st, rec, et, "IsDust")), asBool(dust))), "recorded", fn+"/IsDust", pos, "the dust flag differs")
		}
	}
	r.rule("exempt", "outputs that are dust or the maximum are never refused as below dust")
	for _, fn := range []string{"TxBuilder.AddDustOutput", "TxBuilder.AddMaxOutput", "TxBuilder.AddMaxScriptOutput"} {
		a := r.analysis(fn, "std", nil)
		if a == nil {
			continue
		}
		for _, ret := range a.rets {
			e := a.errOf(ret)
			r.check(!ret.st.feasible(a.returns(e, "ErrBelowDustValue")), "exempt", fn, a.pos(ret.instr), "may be refused as below dust")
		}
	}
	r.rule("subtract", "after a successful subtraction the value is the former one less the amount and at least the dust limit")
	if a, b := r.analysis("TxBuilder.SubtractValueFromOutput", "std", nil), r.P.specAnalysis(r, "zzDustAt", "", none); a != nil && b != nil {
		tx := a.builderArg()
		limit := b.combined(0)
		i, amount := a.argOfType(0, isKind(types.Uint32)), a.argOfType(0, isKind(types.Uint64))
		wt := a.listElemType(tx, "MsgTx", "TxOut")
		was := a.in.fieldsOf(a.entry, a.in.elemAt(a.entry, a.list(a.entry, tx, "MsgTx", "TxOut"), i, wt), wt, "Value")
		for _, ret := range a.rets {
			st := ret.st.where(a.okWhen(ret))
			if st == nil {
				continue
			}
			v := a.in.fieldsOf(st, a.in.elemAt(st, a.list(st, tx, "MsgTx", "TxOut"), i, wt), wt, "Value")
			r.check(st.proves(mkLe(limit, v)), "subtract", "SubtractValueFromOutput/dust", a.pos(ret.instr), "the value may end below the dust limit: %v", cutStr(v.String(), 300))
			r.check(st.proves(mkEqInt(mkAdd(v, amount), was)), "subtract", "SubtractValueFromOutput/amount", a.pos(ret.instr), "the value becomes %v", cutStr(v.String(), 300))
		}
	}
	r.rule("to-dust", "setting an output to dust gives it the dust limit of its own script and the dust mark")
	r.equivState("to-dust", "TxBuilder.SetOutputToDust", "zzSetOutputToDust", nil, nil)
	r.atLeast("accepted", 2)
	r.atLeast("recorded", 8)
	r.atLeast("subtract", 2)
}

// ---- P30 ----

func ruleP30(r *Rep) {
	r.rule("agreement", "each function of the fee package has the value number of the same reference formula as its counterpart of the builder")
	for _, p := range [][2]string{{"fees.EstimateFeeValue", "fees.zzFee"}, {"fees.EstimateUnlockingSize", "fees.zzUnlockingSize"}, {"fees.EstimateInputSize", "fees.zzEstimateInputSize"},
		{"fees.EstimateSize", "fees.zzEstimateSize"}, {"fees.EstimateFee", "fees.zzEstimateFee"}, {"fees.OutputTotalCost", "fees.zzOutputTotalCost"},
		{"fees.InputSizeForUnlockingScriptSize", "fees.zzInputSizeFor"}, {"fees.OutputSize", "fees.zzOutputSize"}, {"fees.OutputSizeForLockingScriptSize", "fees.zzOutputSizeFor"},
		{"fees.OutputFeeForLockingScript", "fees.zzOutputFeeForLockingScript"},
		{"fees.InputValue", "fees.zzInputValue"}, {"fees.InputsValue", "fees.zzInputsValue"}, {"fees.OutputsValue", "fees.zzOutputsValue"}, {"fees.Fee", "fees.zzTxFee"}} {
		r.equiv(p[0], p[1], eqOpts{rule: "agreement"})
	}
	r.equiv("fees.OutputFeeAndDustForLockingScript", "fees.zzOutputFeeAndDustForLockingScript", eqOpts{rule: "agreement", skip: map[int]bool{1: true}})
	r.equiv("fees.OutputSizeAndDustForLockingScript", "fees.zzOutputSizeAndDustForLockingScript", eqOpts{rule: "agreement", skip: map[int]bool{1: true}})
	for _, p := range [][2]string{{"UnlockingScriptSize", "zzUnlockingSize"}, {"InputSize", "zzInputSize"}, {"OutputSize", "zzOutputSize"}, {"TxBuilder.EstimatedSize", "zzEstimatedSize"},
		{"EstimatedFeeValue", "zzFee"}, {"OutputTotalCost", "zzOutputTotalCost"}, {"TxBuilder.InputValue", "zzInputValue"}, {"TxBuilder.OutputValue", "zzOutputValue"},
		{"TxBuilder.ActualFee", "zzActualFee"}} {
		r.equiv(p[0], p[1], eqOpts{rule: "agreement"})
	}
	r.rule("constant", "the constants of the two packages that have the same name have the same value")
	for name, m := range r.P.fees.Members {
		if c, ok := m.(*ssa.NamedConst); ok {
			if d := r.P.lib.Const(name); d != nil {
				r.check(c.Value.Value.ExactString() == d.Value.Value.ExactString(), "constant", name, r.P.posOf(c.Pos()), "is %s in the fee package and %s in the builder", c.Value.Value, d.Value.Value)
			}
		}
	}
	r.atLeast("agreement", 30)
	r.atLeast("constant", 5)
}

// ---- P32 ----

func ruleP32(r *Rep) {
	r.rule("change-script", "after a successful call every field of the builder, its records and its transaction has the value number the reference gives it: the script and key identifier are recorded, exactly the outputs with an equal script are marked, nothing else changes")
	r.equivState("change-script", "TxBuilder.SetChangeLockingScript", "zzSetChangeLockingScript", nil, nil)
	r.equivState("change-script", "TxBuilder.SetChangeAddress", "zzSetChangeAddress", nil, nil)
	r.atLeast("change-script", 2)
}
