package main

import (
	"fmt"
	"go/types"
)

// setField gives a field of an object a value in the entry state.
func (in *Interp) setField(st *State, base *Term, name string, v func(types.Type) *Term) {
	a, t := fieldAddrByName(base, derefT(base.typ), name)
	if a == nil {
		return
	}
	cl := classOf(a)
	st.mem[cl] = mkStore(st.version(cl), a, v(t))
}

// emptyCache gives a call an empty signature hash cache.
func emptyCache(in *Interp, st *State, args []*Term) {
	for _, a := range args {
		if a.typ == nil {
			continue
		}
		if p, ok := a.typ.Underlying().(*types.Pointer); ok && isNamed(p.Elem(), "SigHashCache") {
			st.facts = st.facts.assume(mkNot(mkIsNil(a)))
			s, _ := structOf(p.Elem())
			for i := 0; i < s.NumFields(); i++ {
				in.setField(st, a, s.Field(i).Name(), zeroOf)
			}
		}
	}
}

func withHashType(h int64) func(in *Interp, st *State, args []*Term) {
	return func(in *Interp, st *State, args []*Term) {
		emptyCache(in, st, args)
		for i, a := range args {
			if a.typ != nil && isNamed(a.typ, "SigHashType") {
				args[i] = mkInt(h)
			}
		}
	}
}

var hashTypes = []struct {
	name string
	v    int64
}{
	{"ALL", 0x01}, {"NONE", 0x02}, {"SINGLE", 0x03}, {"ALL|ANYONECANPAY", 0x81}, {"NONE|ANYONECANPAY", 0x82}, {"SINGLE|ANYONECANPAY", 0x83},
	{"ALL|FORKID", 0x41}, {"NONE|FORKID", 0x42}, {"SINGLE|FORKID", 0x43}, {"ALL|ANYONECANPAY|FORKID", 0xc1}, {"NONE|ANYONECANPAY|FORKID", 0xc2}, {"SINGLE|ANYONECANPAY|FORKID", 0xc3},
}

// ---- P08 ----

func ruleP08(r *Rep) {
	r.rule("preimage", "for each hash type the bytes returned have the value number of the sequence of fields that BIP-143 prescribes, with an empty cache and any transaction, index, script and value")
	r.rule("digest", "for each hash type the hash returned has the value number of the double SHA-256 of that sequence")
	for _, h := range hashTypes {
		cfg := fmt.Sprintf("h%x", h.v)
		for _, fn := range []string{"SignaturePreimage", "SignatureHashPreimageBytes"} {
			r.equiv(fn, "zzPreimage", eqOpts{rule: "preimage", cfg: cfg, args: withHashType(h.v), okOnly: true})
		}
		r.equiv("SignatureHash", "zzSignatureHash", eqOpts{rule: "digest", cfg: cfg, args: withHashType(h.v), okOnly: true})
	}
	r.atLeast("preimage", 48)
	r.atLeast("digest", 24)
}

// ---- P09 ----

func ruleP09(r *Rep) {
	r.rule("fragment", "with an empty cache the value returned has the value number of the double SHA-256 of the elements of the transaction, in order")
	r.rule("stored", "the value returned is also what the same request finds in the cache afterwards, and no other fragment of the cache changes")
	r.rule("reused", "a request that finds a stored fragment returns it unchanged; the other requests do not find it")
	r.rule("cleared", "clearing leaves no fragment (clearing the outputs: no outputs fragment)")
	names := []string{"HashPrevOuts", "HashSequence", "HashOutputs"}
	specs := []string{"zzPrevOuts", "zzSequences", "zzOutputs"}
	field := map[string]string{}
	for i, n := range names {
		fn := "SigHashCache." + n
		b := r.P.specAnalysis(r, specs[i], "", none)
		a := r.analysis(fn, "any", none)
		if a == nil || b == nil || b.fn == nil {
			continue
		}
		cache := a.args[0]
		styp := derefT(cache.typ)
		s, _ := structOf(styp)
		want := b.result(b.rets[0].st, b.rets[0].vals[0], b.fn.Signature.Results().At(0).Type())
		want = subst1(want, b.args[0], a.args[1])
		for _, ret := range a.rets {
			got := ret.vals[0]
			pos := a.pos(ret.instr)
			for _, c := range ret.st.cases(got) {
				// which fragment is it?
				reused := false
				for k := 0; k < s.NumFields(); k++ {
					was := a.in.load(a.entry, mkFieldAddr(cache, styp, k), s.Field(k).Type())
					if c.vals[0] != was {
						continue
					}
					reused = true
					f := s.Field(k).Name()
					if field[n] == "" {
						field[n] = f
					}
					r.check(field[n] == f, "reused", fn, pos, "fragments of the fields %s and %s are returned", field[n], f)
					r.check(c.st.proves(mkNot(mkIsNil(was))), "reused", fn, pos, "an absent fragment is returned")
					r.unchangedCache(a, c.st, cache, s, "", fn, pos)
				}
				if reused {
					continue
				}
				now := a.in.contTerm(c.st, c.vals[0])
				ok, w := c.st.proveW(mkEq(now, want))
				r.check(ok, "fragment", fn, pos, "returns %s instead of %s%s", cutStr(now.String(), 300), cutStr(want.String(), 300), witness(w))
				// where is it stored?
				at := ""
				for k := 0; k < s.NumFields(); k++ {
					v := c.st.simp(a.in.load(c.st, mkFieldAddr(cache, styp, k), s.Field(k).Type()))
					was := a.in.load(a.entry, mkFieldAddr(cache, styp, k), s.Field(k).Type())
					if v != was && (v == c.vals[0] || c.st.proves(mkEq(a.in.contTerm(c.st, v), want))) {
						at = s.Field(k).Name()
					}
				}
				if field[n] == "" {
					field[n] = at
				}
				r.check(at == "" || at == field[n], "stored", fn, pos, "the fragment is stored in %s but looked up in %s", at, field[n])
				r.unchangedCache(a, c.st, cache, s, at, fn, pos)
			}
		}
	}
	for i, n := range names {
		for _, m := range names[:i] {
			r.check(field[n] == "" || field[n] != field[m], "reused", "SigHashCache."+n, "-", "%s and %s share the field %s", n, m, field[n])
		}
	}
	for _, n := range []string{"Clear", "ClearOutputs"} {
		a := r.analysis("SigHashCache."+n, "any", none)
		if a == nil {
			continue
		}
		for _, ret := range a.rets {
			for _, m := range names {
				if field[m] == "" || n == "ClearOutputs" && m != "HashOutputs" {
					continue
				}
				v := a.in.at(ret.st, a.args[0], field[m])
				r.check(ret.st.proves(mkIsNil(v)), "cleared", "SigHashCache."+n, a.pos(ret.instr), "the fragment in %s is kept", field[m])
			}
		}
	}
	r.atLeast("fragment", 3)
	r.atLeast("cleared", 1)
}

func (r *Rep) unchangedCache(a *Analysis, st *State, cache *Term, s *types.Struct, except, fn, pos string) {
	for k := 0; k < s.NumFields(); k++ {
		if s.Field(k).Name() == except {
			continue
		}
		ad := mkFieldAddr(cache, derefT(cache.typ), k)
		was, now := a.in.load(a.entry, ad, s.Field(k).Type()), a.in.load(st, ad, s.Field(k).Type())
		r.check(was == now || st.proves(mkEq(was, now)) || st.proves(mkIsNil(now)), "stored", fn, pos, "the field %s is overwritten", s.Field(k).Name())
	}
}
