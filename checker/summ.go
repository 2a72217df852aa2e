package main

import (
	"go/types"
	"strings"
)

// Summaries replace functions that are decided by an analysis of their own.

func isPtrTo(t types.Type, pkg, name string) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}

// txDigest is the memory a signature hash may depend on: everything but the unlocking scripts.
func (in *Interp) txDigest(st *State, tx *Term) *Term {
	var vs []*Term
	t := tx.typ
	for _, f := range []string{"TxIn", "TxOut"} {
		if l := in.at(st, tx, f); l != nil {
			vs = append(vs, in.contOf(st, l))
		}
	}
	for _, c := range reachClasses(t) {
		if strings.HasSuffix(fieldNames[c], "UnlockingScript") {
			continue
		}
		if v, ok := st.mem[c]; ok {
			vs = append(vs, v)
		}
	}
	return mk("mem", "", nil, vs...)
}

// sumSigHash stands for SignatureHash: the digest is a function of the arguments and the transaction,
// and the hashes missing in the cache are filled in.
func sumSigHash(c *callCtx) ([]*Term, bool) {
	var tx, cache *Term
	in, st := c.in, c.p.st
	if c.sig.Results().Len() != 2 {
		return nil, false
	}
	for i := 0; i < c.sig.Params().Len(); i++ {
		t := c.sig.Params().At(i).Type()
		switch {
		case isPtrTo(t, pkgWire, "MsgTx"):
			tx = c.args[i]
		case isPtrTo(t, in.P.lib.Pkg.Path(), "SigHashCache"):
			cache = c.args[i]
		}
	}
	if tx == nil || cache == nil || cache.op == "ite" || tx.op == "ite" {
		return nil, false
	}
	dig := mk("at", "", nil, tx, in.txDigest(st, tx))
	args := []*Term{dig}
	for i, a := range c.args {
		if a == tx || a == cache {
			continue
		}
		if isSliceType(c.sig.Params().At(i).Type()) {
			a = in.contTerm(st, a)
		}
		args = append(args, a)
	}
	nargs := len(args) - 1
	ev := &Event{kind: "call", instr: c.instr, callee: c.name, raw: c.args, args: args}
	if in.mute == 0 {
		ev.st = st.clone()
	}
	in.event(c.fr, st, ev)
	ct := derefT(cache.typ)
	s, ok := structOf(ct)
	if !ok {
		return nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if !isSliceType(ft) {
			continue
		}
		fa := mkFieldAddr(cache, ct, i)
		cur := in.load(st, fa, ft)
		val := mk("cached", s.Field(i).Name(), ft, dig)
		nv := mkITE(mkIsNil(cur), val, cur)
		args = append(args, nv)
		cl := classOf(fa)
		st.mem[cl] = mkStore(st.version(cl), fa, nv)
	}
	ht := c.sig.Results().At(0).Type()
	a := in.newAlloc(c.fr, c.p, instrSite(c.fr, c.instr)+"sh", ht)
	h := mkApp("sighash", derefT(ht), args...)
	in.store(c.fr, st, c.instr, a, h, derefT(ht))
	// whether it fails depends on the script, the index and the number of inputs only
	eargs := append([]*Term{mkLen(in.contOf(st, in.at(st, tx, "TxIn")))}, args[1:1+nargs]...)
	e := mkApp("sighash.err", c.sig.Results().At(1).Type(), eargs...)
	return []*Term{mkITE(mkIsNil(e), a, mkNil()), e}, true
}

// withSigSummary makes an analysis use the summary of SignatureHash.
func withSigSummary(in *Interp, st *State, args []*Term) {
	in.summ = map[string]model{in.P.lib.Pkg.Path() + ".SignatureHash": sumSigHash}
}
