package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- P14 ----

func ruleP14(r *Rep) {
	r.rule("paid", "at every return without error, the values of the inputs less those of the outputs are at least the fee of the size of the transaction as returned")
	r.rule("short", "an error returned because the inputs are worth less than the outputs and the fee has the cause ErrInsufficientValue")
	n := 0
	for _, name := range r.signers() {
		if !r.P.reaches(r.P.lookup(name), func(f *ssa.Function) bool { return strings.HasSuffix(fnName(f), ".TxBuilder).AdjustFee") }) {
			continue
		}
		a := r.analysis(name, "paid", signSetup)
		if a == nil {
			continue
		}
		n++
		for _, ret := range a.rets {
			pos := a.pos(ret.instr)
			if st := ret.st.where(a.okWhen(ret)); st != nil {
				ok := true
				for _, alt := range []string{"zzPaid", "zzPaidRecords"} {
					ok = r.account(a, st, alt, func(s *State, in, out, fee *Term) bool {
						return s.proves(mkLe(mkAdd(out, fee), in))
					})
					if ok {
						break
					}
				}
				r.check(ok, "paid", name, pos, "signing may succeed with less than the fee for the size of the transaction")
			}
			e := a.errOf(ret)
			if e == nil {
				continue
			}
			cause := mkCause(e)
			for _, l := range leaves(cause) {
				if l.op != "errnew" && l.op != "errglobal" || strings.HasSuffix(l.aux, ".ErrInsufficientValue") || strings.HasSuffix(l.aux, ".ErrMissingPrivateKey") {
					continue
				}
				st := ret.st.where(mkEq(cause, l))
				if st == nil {
					continue
				}
				short := r.account(a, st, "zzPaid", func(s *State, in, out, fee *Term) bool {
					return s.proves(mkLt(in, mkAdd(out, fee)))
				})
				r.check(!short, "short", name, pos, "the error for too little value is not ErrInsufficientValue")
			}
		}
	}
	r.counts["operations"] = n
	r.atLeast("paid", 1)
}

// account evaluates a reference function in a state and asks for all its returns.
func (r *Rep) account(a *Analysis, st *State, ref string, ask func(s *State, in, out, fee *Term) bool) bool {
	// there is one record for each output (P01)
	tx := a.builderArg()
	if n, m := mkLen(a.list(st, tx, "Outputs")), mkLen(a.list(st, tx, "MsgTx", "TxOut")); n != m {
		st = st.clone()
		st.narrow(subst1(st.pc, n, m))
	}
	rets := a.in.run(r.P.lookup(ref), st.clone(), []*Term{tx})
	for _, x := range rets {
		if !ask(x.st, plain(x.vals[0]), plain(x.vals[1]), x.vals[2]) {
			return false
		}
	}
	return len(rets) > 0
}
