package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"time"

	"golang.org/x/tools/go/ssa"
)

// isUnlock recognises the address of an input's unlocking script.
func isUnlock(addr *Term) bool {
	return addr.op == "fld" && strings.HasSuffix(fieldNames[classOf(addr)], "TxIn.UnlockingScript")
}

// signSetup analyses signing with the summary of the signature hash and, where the caller provides the
// cache, an empty one.
func signSetup(in *Interp, st *State, args []*Term) {
	withSigSummary(in, st, args)
	emptyCache(in, st, args)
}

// signers lists the exported builder operations that make signatures.
func (r *Rep) signers() []string {
	var out []string
	for _, fn := range r.P.exported(r.P.lib) {
		if r.P.isSpec(fn) || len(fn.Params) == 0 || !isTxBuilderPtr(fn.Params[0].Type()) {
			continue
		}
		if r.P.reaches(fn, func(f *ssa.Function) bool { return strings.HasSuffix(fnName(f), "bitcoin.Key).Sign") }) {
			out = append(out, relName(fn))
		}
	}
	return out
}

func appNamed(t *Term, suffix string) bool {
	return t != nil && t.op == "app" && strings.HasSuffix(t.aux, suffix)
}

// whole strips a slice of a complete sequence.
func whole(t *Term) *Term {
	for {
		switch {
		case t.op == "seq" && len(t.args) == 1:
			t = t.args[0]
		case t.op == "sub" && t.args[1].isInt(0) && t.args[2] == mkLen(t.args[0]):
			t = t.args[0]
		default:
			return t
		}
	}
}

// sigPart is one signature found in an unlocking script.
type sigPart struct {
	st   *State // what is known where the part is used
	key  *Term
	hash *Term // what was signed
	pub  *Term // key of the public key pushed after it
}

// sigWalk visits the parts of an unlocking script.
type sigWalk struct {
	parts []sigPart
	bad   []string
	n     int
	steps int
	seen  map[*Term]bool
}

func (w *sigWalk) complain(format string, args ...interface{}) {
	w.bad = append(w.bad, fmt.Sprintf(format, args...))
}

// signature decomposes pushed data that is a signature followed by the hash type.
func (w *sigWalk) signature(st *State, x *Term) bool {
	isSig := func(t *Term) *Term {
		t = whole(t)
		if appNamed(t, "bitcoin.Signature).Bytes") {
			s := t.args[0]
			if s.op == "ext" && s.aux == "0" && appNamed(s.args[0], "bitcoin.Key).Sign") {
				return s.args[0]
			}
		}
		return nil
	}
	if x.op == "seq" && len(x.args) > 1 {
		s := isSig(x.args[0])
		if s == nil {
			return false
		}
		tail := x.args[1]
		if len(x.args) != 2 || tail.op != "one" || !tail.args[0].isInt(0x41) {
			w.complain("the signature is followed by %v instead of the hash type ALL|FORKID", mkSeq(x.args[1:]))
		}
		w.parts = append(w.parts, sigPart{st: st, key: s.args[0], hash: s.args[1]})
		return true
	}
	if s := isSig(x); s != nil {
		w.complain("the signature is not followed by its hash type")
		w.parts = append(w.parts, sigPart{st: st, key: s.args[0], hash: s.args[1]})
		return true
	}
	return false
}

func isPub(x *Term) *Term {
	x = whole(x)
	if appNamed(x, "bitcoin.PublicKey).Bytes") && appNamed(x.args[0], "bitcoin.Key).PublicKey") {
		return x.args[0].args[0]
	}
	return nil
}

// walk visits a content. The state is what is known where the content is used, if wanted.
func (w *sigWalk) walk(st *State, t *Term) {
	w.steps++
	if w.steps > 4000 {
		return
	}
	if st == nil {
		if w.seen[t] {
			return
		}
		w.seen[t] = true
	}
	switch t.op {
	case "ite":
		for i, pol := range []bool{true, false} {
			s := st
			if st != nil {
				s = st.clone()
				c := asBool(t.args[0])
				if !pol {
					c = mkNot(c)
				}
				if !s.narrow(c) {
					continue
				}
			}
			w.walk(s, t.args[1+i])
		}
	case "seq":
		w.seq(st, t.args)
	case "emit":
		w.seq(st, []*Term{t})
	case "map":
		w.n++
		j := sym("p" + strconv.Itoa(w.n))
		s := st
		if st != nil {
			s = st.clone()
			if !s.narrow(mkAnd(mkLe(mkInt(0), j), mkLt(j, t.args[0]))) {
				return
			}
		}
		b := instantiate(t.args[1], j)
		if s != nil {
			b = s.simp(b)
		}
		w.walk(s, b)
	case "sub", "elem":
		w.walk(st, t.args[0])
	case "one":
		if isRef(t.args[0]) || t.args[0].op == "seq" || t.args[0].op == "ite" {
			w.walk(st, t.args[0])
		}
	case "const", "nil":
	default:
		if containsFn(t, func(x *Term) bool { return appNamed(x, "bitcoin.Key).Sign") }) {
			w.complain("a signature is used in %v", t)
		}
	}
}

func (w *sigWalk) seq(st *State, ps []*Term) {
	last := -1 // signature directly before
	for _, p := range ps {
		if p.op == "emit" && p.aux == "push" {
			x := p.args[0]
			if len(p.args) > 1 {
				x = p.args[len(p.args)-1]
			}
			if x.op == "ite" {
				for _, l := range leaves(x) {
					w.seq(st, []*Term{mk("emit", "push", p.typ, l)})
				}
				last = -1
				continue
			}
			if w.signature(st, x) {
				last = len(w.parts) - 1
				continue
			}
			if k := isPub(x); k != nil {
				if last < 0 {
					w.complain("a public key is pushed without a signature before it")
				} else {
					w.parts[last].pub = k
				}
			} else {
				w.complain("%v is pushed, which is neither a signature nor a public key", x)
			}
			last = -1
			continue
		}
		last = -1
		w.walk(st, p)
	}
}

// sigsOf lists the signatures in a content.
func sigsOf(st *State, c *Term) *sigWalk {
	w := &sigWalk{seen: map[*Term]bool{}}
	w.walk(st, c)
	return w
}

// unlockStores lists the stores to unlocking scripts of inputs that existed before.
func (a *Analysis) unlockStores() []*Event {
	var out []*Event
	for _, e := range a.events {
		if e.kind == "store" && isUnlock(e.addr) && !freshAll(e.addr) && e.st != nil {
			out = append(out, e)
		}
	}
	return out
}

// sighash argument positions
const (
	shTx = iota
	shIndex
	shScript
	shValue
	shType
	shFragments
)

// ---- P10 ----

func ruleP10(r *Rep) {
	r.rule("own-input", "where an unlocking script is stored, every signature in it signs the digest of this transaction at the index of the input stored to, with the locking script and value of the record at that index")
	r.rule("hash-type", "the digest is made with hash type ALL|FORKID, and the pushed signature ends with that byte")
	r.rule("fragments", "the hash fragments the digest is made of are those of the same state of the transaction")
	r.rule("own-key", "a public key pushed after a signature belongs to the key that made the signature, and nothing but signatures and public keys is pushed")
	n := 0
	whole := map[string]bool{}
	for _, name := range r.scriptSetters() {
		if a := r.analysis(name, "sign", signSetup); a != nil {
			for _, e := range a.unlockStores() {
				w := sigsOf(nil, a.in.contTerm(e.st, e.val))
				pos := e.pos(r.P)
				ok, seen := whole[pos]
				whole[pos] = (ok || !seen) && len(w.bad) == 0 && len(w.parts) > 0
			}
		}
	}
	for _, name := range r.signers() {
		a := r.analysis(name, "sign", signSetup)
		if a == nil {
			continue
		}
		tx := a.builderArg()
		for _, e := range a.unlockStores() {
			pos := e.pos(r.P)
			st := e.st
			base := e.addr.args[0]
			c := a.in.contTerm(st, e.val)
			w := sigsOf(nil, c)
			for _, b := range w.bad {
				if whole[pos] {
					break // shown for any arguments
				}
				r.check(false, "own-key", name, pos, "%s", b)
			}
			if len(w.parts) == 0 {
				r.check(mkLen(c).isInt(0), "own-input", name, pos, "no signature is recognised in the unlocking script %v", c)
				continue
			}
			n++
			ins, recs := a.list(st, tx, "MsgTx", "TxIn"), a.list(st, tx, "Inputs")
			for _, p := range w.parts {
				h := p.hash
				if !appNamed(h, "sighash") || len(h.args) < shFragments {
					r.check(false, "own-input", name, pos, "what is signed is not a signature hash: %v", h)
					continue
				}
				i := h.args[shIndex]
				want := a.in.elemAt(st, ins, i, a.listElemType(tx, "MsgTx", "TxIn"))
				r.check(h.args[shTx].args[0] == st.simp(a.in.at(st, tx, "MsgTx")) && h.args[shTx].args[1] == a.in.txDigest(st, h.args[shTx].args[0]), "own-input", name, pos, "the digest is not made of the transaction as it is")
				r.check(want == base || st.proves(mkEq(want, base)), "own-input", name, pos, "the digest is for input %v, the script is stored to %v", i, base)
				rec := a.in.elemAt(st, recs, i, a.listElemType(tx, "Inputs"))
				script := a.in.contTerm(st, a.in.at(st, rec, "LockingScript"))
				r.check(sameBytes(st, h.args[shScript], script), "own-input", name, pos, "the digest is made with the script %v, the record has %v", h.args[shScript], script)
				value := a.in.at(st, rec, "Value")
				r.check(h.args[shValue] == value || st.proves(mkEqInt(h.args[shValue], value)), "own-input", name, pos, "the digest is made with the value %v, the record has %v", h.args[shValue], value)
				r.check(h.args[shType].isInt(0x41), "hash-type", name, pos, "the digest is made with hash type %v", h.args[shType])
				for _, f := range h.args[shFragments:] {
					ok := f.op == "cached" && f.args[0] == h.args[shTx]
					r.check(ok, "fragments", name, pos, "the digest uses %v, which is not made of the transaction as it is", f)
				}
				if p.pub != nil {
					r.check(p.pub == p.key, "own-key", name, pos, "the signature is made with %v, the public key is that of %v", p.key, p.pub)
				}
			}
		}
	}
	if n < 3 {
		r.check(false, "own-input", "coverage", "-", "only %d places that store signatures were recognised", n)
	}
	r.counts["signature_stores"] = n
}

func sameBytes(st *State, x, y *Term) bool {
	x, y = whole(st.simp(x)), whole(st.simp(y))
	return x == y || st.proves(mkEq(x, y))
}

// ---- P11 ----

func ruleP11(r *Rep) {
	r.rule("current", "at every return without error or with the missing-key error, each signature on an input was made of a digest of the transaction in exactly the state it is returned in")
	r.rule("fragments", "the hash fragments of that digest are of the same state")
	r.rule("repeatable", "which inputs are signed does not depend on what changes between attempts, so no signature of an earlier attempt stays behind")
	n := 0
	for _, name := range r.signers() {
		a := r.analysis(name, "sign", signSetup)
		if a == nil {
			continue
		}
		tx := a.builderArg()
		for _, ret := range a.rets {
			st, ok := r.signedReturn(a, ret)
			if !ok {
				continue
			}
			pos := a.pos(ret.instr)
			msg := a.in.at(st, tx, "MsgTx")
			now := mk("at", "", nil, msg, a.in.txDigest(st, msg))
			_, v, old := a.unlockAt(st, tx)
			for _, l := range leaves(v) {
				if l == old {
					continue
				}
				if isUnlock2(l) {
					// a script from before the last attempt
					c := whenLeaf(v, func(x *Term) bool { return x == l })
					r.check(!variesByLoop(c), "repeatable", name, pos, "whether an input is signed again depends on %v", c)
					continue
				}
				w := sigsOf(nil, a.in.contTerm(st, l))
				for _, p := range w.parts {
					if !appNamed(p.hash, "sighash") {
						r.check(false, "current", name, pos, "what is signed is not a signature hash: %v", p.hash)
						continue
					}
					n++
					r.check(p.hash.args[shTx] == now, "current", name, pos, "the transaction was changed after it was signed")
					for _, f := range p.hash.args[shFragments:] {
						r.check(f.op == "cached" && f.args[0] == now, "fragments", name, pos, "a signature uses the fragment %v of another state of the transaction", f)
					}
				}
			}
		}
	}
	r.check(n >= 6, "current", "coverage", "-", "only %d signatures were recognised at returns", n)
}

// signedReturn selects returns with no error or only the missing-key error.
func (r *Rep) signedReturn(a *Analysis, ret Ret) (*State, bool) {
	e := a.errOf(ret)
	if e == nil {
		return nil, false
	}
	c := mkOr(mkIsNil(e), a.causeIs(e, "ErrMissingPrivateKey"))
	return a.returning(ret, c)
}

// returning is the state of a return with a condition on its results.
func (a *Analysis) returning(ret Ret, c *Term) (*State, bool) {
	st := ret.st.clone()
	if !st.leftAt() || !st.narrow(c) {
		return nil, false
	}
	return st, true
}

// unlockAt is the unlocking script of input j at a state, and what it was at the start.
func (a *Analysis) unlockAt(st *State, tx *Term) (j, v, old *Term) {
	j = sym("j")
	et := a.listElemType(tx, "MsgTx", "TxIn")
	e := a.in.elemAt(st, a.list(st, tx, "MsgTx", "TxIn"), j, et)
	fa, ft := fieldAddrByName(e, derefT(et), "UnlockingScript")
	v = st.simp(a.in.load(st, fa, ft))
	oe := a.in.elemAt(a.entry, a.list(a.entry, tx, "MsgTx", "TxIn"), j, et)
	ofa, _ := fieldAddrByName(oe, derefT(et), "UnlockingScript")
	old = a.in.load(a.entry, ofa, ft)
	return j, v, old
}

// isUnlock2 recognises a read of an unlocking script from an earlier state.
func isUnlock2(l *Term) bool {
	return l.op == "load" && isUnlock(l.args[0])
}

// variesByLoop reports whether a condition depends on what an attempt changes. Failing to sign at all
// ends with another error and does not count.
func variesByLoop(c *Term) bool {
	c = substFn(c, func(x *Term) *Term {
		if x.op == "ext" && x.aux == "1" && appNamed(x.args[0], "bitcoin.Key).Sign") {
			return mkNil()
		}
		return nil
	})
	return containsFn(c, func(x *Term) bool { return x.op == "exitk" || x.op == "lver" || x.op == "lvp" })
}

// reaches reports whether a function calls, directly or through repository functions, one that satisfies p.
func (P *Program) reaches(fn *ssa.Function, p func(*ssa.Function) bool) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == nil || seen[f] {
			return false
		}
		seen[f] = true
		if p(f) {
			return true
		}
		if f.Pkg == nil || f.Pkg != P.lib && f.Pkg != P.fees && f.Pkg != P.cmd {
			return false
		}
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && rec(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(fn)
}

// ---- P12 ----

func ruleP12(r *Rep) {
	r.rule("matching-key", "where an unlocking script is stored, each key that signed provably satisfies an equality between its complete script, public key or public key hash and the input's locking script or an item of it")
	r.rule("all-signed", "at every return without error, every input provably got a new unlocking script (sign-only: or had one before)")
	r.rule("missing-key", "signing a list of inputs never reports the wrong-key error, and reports the wrong-template error or one without a name only where every test for a supported template provably failed for the input it stopped at")
	r.rule("wrong-key", "signing a single input returns the wrong-key error where everything but the equality holds")
	n := 0
	for _, name := range r.signers() {
		a := r.analysis(name, "sign", signSetup)
		if a == nil {
			continue
		}
		tx := a.builderArg()
		single := len(a.fn.Params) > 1 && !isSliceType(a.fn.Params[1].Type())
		for _, e := range a.unlockStores() {
			pos := e.pos(r.P)
			st := e.st
			w := sigsOf(st, a.in.contTerm(st, e.val))
			for _, p := range w.parts {
				if !appNamed(p.hash, "sighash") {
					continue
				}
				n++
				script := whole(p.hash.args[shScript])
				m := matches(p.st, p.key, script)
				r.check(m != nil, "matching-key", name, pos, "the key %v signs without matching the script", p.key)
				if m != nil && single {
					r.wrongKey(a, name, e, m)
				}
			}
		}
		for _, ret := range a.rets {
			e := a.errOf(ret)
			if e == nil {
				continue
			}
			if single {
				continue
			}
			pos := a.pos(ret.instr)
			cause := mkCause(e)
			for _, l := range leaves(cause) {
				wrong := l.op == "errglobal" && strings.HasSuffix(l.aux, ".ErrWrongPrivateKey")
				if !wrong && (l.op != "errglobal" && l.op != "errnew" || l.op == "errglobal" && !strings.HasSuffix(l.aux, ".ErrWrongScriptTemplate") && strings.Contains(l.aux, ".Err")) {
					continue
				}
				if st, ok := a.returning(ret, mkEq(cause, l)); ok {
					t := knownTemplate(st, func(at *Term) bool { return st.proves(asBool(at)) })
					r.check(t == nil && !wrong, "missing-key", name, pos, "an error other than the missing-key error is returned although %v", t)
				}
			}
			st, ok := a.returning(ret, mkIsNil(e))
			if !ok {
				continue
			}
			j, v, old := a.unlockAt(st, tx)
			inside := mkAnd(mkLe(mkInt(0), j), mkLt(j, mkLen(a.list(st, tx, "MsgTx", "TxIn"))))
			c := whenLeaf(v, func(l *Term) bool { return l == old || isUnlock2(l) })
			had := termFalse
			if name != "TxBuilder.Sign" {
				had = mkLt(mkInt(0), mkLen(old))
			}
			ok = st.proves(mkImp(mkAnd(inside, c), had), j)
			r.check(ok, "all-signed", name, pos, "success is reported while an input may be left without signature")
		}
	}
	r.check(n >= 4, "matching-key", "coverage", "-", "only %d signatures were recognised", n)
	// the functions that sign one input of a list, for any arguments
	for _, name := range r.scriptSetters() {
		a := r.analysis(name, "sign", signSetup)
		if a == nil {
			continue
		}
		for _, ret := range a.rets {
			e := a.errOf(ret)
			if e == nil {
				continue
			}
			cause := mkCause(e)
			for _, l := range leaves(cause) {
				if l.op == "errglobal" && strings.HasSuffix(l.aux, ".ErrWrongScriptTemplate") {
					if st, ok := a.returning(ret, mkEq(cause, l)); ok {
						t := knownTemplate(st, func(at *Term) bool { return !st.proves(mkNot(asBool(at))) })
						r.check(t == nil, "missing-key", name, a.pos(ret.instr), "an error other than the missing-key error is returned although %v", t)
					}
				}
			}
		}
	}
}

// wrongKey checks what a single-input signing returns when the equality m does not hold.
func (r *Rep) wrongKey(a *Analysis, name string, e *Event, m *Term) {
	c := cofactor(asBool(e.st.pc), m, true)
	for _, ret := range a.rets {
		err := a.errOf(ret)
		if err == nil {
			continue
		}
		st, ok := a.returning(ret, mkAnd(c, mkNot(asBool(m))))
		if ok {
			r.check(st.proves(a.causeIs(err, "ErrWrongPrivateKey")), "wrong-key", name, a.pos(ret.instr), "a key that does not match is not refused with the wrong-key error")
		}
	}
}

// knownTemplate finds a test for a supported script template with the given outcome.
func knownTemplate(st *State, outcome func(at *Term) bool) *Term {
	var found *Term
	scan := func(c *Term) {
		for _, at := range support(c) {
			ok := at.op == "app" && (strings.HasSuffix(at.aux, ".IsP2PKH") || strings.HasSuffix(at.aux, ".IsP2PK"))
			if at.op == "isnil" || at.op == "eq" {
				for _, x := range at.args {
					ok = ok || x.op == "ext" && appNamed(x.args[0], ".MultiPKHCounts")
				}
			}
			if ok && found == nil && outcome(at) {
				found = at
			}
		}
	}
	scan(st.pc)
	for _, l := range st.facts.all() {
		scan(l.term())
	}
	return found
}

// matches finds an equality that proves that a key belongs to a script.
func matches(st *State, key, script *Term) *Term {
	seen := map[*Term]bool{}
	var cands []*Term
	var scan func(c *Term)
	scan = func(c *Term) {
		for _, at := range support(c) {
			if seen[at] {
				continue
			}
			seen[at] = true
			switch at.op {
			case "eq":
				cands = append(cands, at)
			case "exists":
				scan(instantiate(at.args[1], mkFirst(at.args[0], at.args[1])))
			}
		}
	}
	scan(st.pc)
	for _, l := range st.facts.all() {
		scan(l.term())
	}
	if key.op == "elem" && key.args[1].op == "first" {
		f := key.args[1]
		scan(instantiate(f.args[1], f))
	}
	for _, at := range cands {
		for i := 0; i < 2; i++ {
			if ofKey(at.args[i], key) && contains(at.args[1-i], script) && !contains(at.args[1-i], key) && st.proves(asBool(at)) {
				return at
			}
		}
	}
	return nil
}

// ofKey recognises what identifies a key in scripts: its locking script, public key or public key hash.
func ofKey(t, key *Term) bool {
	t = whole(t)
	switch {
	case t.op == "ext" && t.aux == "0" && appNamed(t.args[0], "bitcoin.Key).LockingScript"):
		return t.args[0].args[0] == key
	case appNamed(t, "bitcoin.Hash160"):
		return isPub(t.args[0]) == key
	}
	return isPub(t) == key
}

// ---- P13 ----

func ruleP13(r *Rep) {
	r.rule("unsigned-only", "sign-only stores to an unlocking script only where it is provably empty")
	r.rule("nothing-else", "sign-only stores to no other memory that existed before the call")
	r.rule("content", "the content of every list that existed before the call is unchanged at every return")
	name := "TxBuilder.SignOnly"
	a := r.analysis(name, "sign", signSetup)
	if a == nil {
		return
	}
	n := 0
	for _, e := range a.events {
		switch e.kind {
		case "store", "elem", "copy", "mapupdate", "write", "perm":
		default:
			continue
		}
		if e.addr == nil || freshAll(e.addr) || e.old != nil && e.old == e.val {
			continue
		}
		if e.kind == "store" && isUnlock(e.addr) {
			n++
			ok := true
			for _, l := range leaves(e.val) {
				if l == e.old {
					continue
				}
				c := whenLeaf(e.val, func(x *Term) bool { return x == l })
				ok = ok && e.st.proves(mkImp(c, mkEqInt(mkLen(a.in.contOf(e.st, e.old)), mkInt(0))))
			}
			r.check(ok, "unsigned-only", name, e.pos(r.P), "the unlocking script may have been set before")
			continue
		}
		r.check(false, "nothing-else", name, e.pos(r.P), "%s to %v", e.kind, e.addr)
	}
	for _, ret := range a.rets {
		r.check(true, "nothing-else", name, a.pos(ret.instr), "")
		for _, k := range oldConts(ret.st) {
			was, now := defaultCont(k), ret.st.simp(ret.st.cont[k])
			r.check(now == was || ret.st.proves(mkEq(now, was)), "content", name, a.pos(ret.instr), "the content of %v changed to %v", k, now)
		}
	}
	r.check(n > 0, "unsigned-only", "coverage", "-", "no store to an unlocking script was recognised")
}

// leftAt adds, for every loop known to have been left early, what holds in the iteration it was left in.
func (st *State) leftAt() bool {
	done := map[*Term]bool{}
	for {
		var next *Term
		for _, l := range st.facts.all() {
			if l.pos && l.atom.op == "exists" && !done[l.atom] {
				next = l.atom
			}
		}
		if next == nil && st.pc.op == "ite" && st.pc.args[2].isFalse() && st.pc.args[0].op == "exists" && !done[st.pc.args[0]] {
			next = st.pc.args[0]
		}
		if next == nil {
			return true
		}
		done[next] = true
		if !st.narrow(instantiate(next.args[1], mkFirst(next.args[0], next.args[1]))) {
			return false
		}
	}
}

// ---- P31 ----

// unsighed abstracts from what is signed: signatures only depend on the key.
func unsighed(t *Term) *Term {
	h := sym("hash")
	return substFn(t, func(x *Term) *Term {
		switch {
		case appNamed(x, "sighash.err"), x.op == "ext" && x.aux == "1" && appNamed(x.args[0], "bitcoin.Key).Sign"):
			return mkNil()
		case appNamed(x, "sighash"):
			return h
		}
		return nil
	})
}

// flat replaces lists created on the way by their content, wherever they are elements of a list.
func (in *Interp) flat(st *State, t *Term, norm func(*Term) *Term) *Term {
	type key struct{ t, c *Term }
	memo := map[key]*Term{}
	n := 0
	var rec func(t, c *Term) *Term
	rec = func(t, c *Term) *Term {
		if t == nil {
			return nil
		}
		if v, ok := memo[key{t, c}]; ok {
			return v
		}
		var v *Term
		switch t.op {
		case "map":
			n++
			x := sym(fmt.Sprintf("flat%d", n))
			v = rebuildWith(t, func(i int, a *Term) *Term {
				if i == 1 {
					return closeBody(rec(instantiate(a, x), mkAnds(c, mkLe(mkInt(0), x), mkLt(x, t.args[0]))), x)
				}
				return rec(a, c)
			})
		case "ite":
			yes, no := mkAnd(c, asBool(t.args[0])), mkAnd(c, mkNot(asBool(t.args[0])))
			switch {
			case yes.isFalse():
				v = rec(t.args[2], c)
			case no.isFalse():
				v = rec(t.args[1], c)
			default:
				v = mkITE(t.args[0], rec(t.args[1], yes), rec(t.args[2], no))
			}
		case "one":
			a := lift1(restrict(t.args[0], c), func(l *Term) *Term {
				if l.op == "slice" && fresh(rootOf(l)) {
					return norm(in.contTerm(st, l))
				}
				return l
			})
			if a != t.args[0] {
				a = rec(restrict(a, c), c)
			}
			v = rebuildWith(t, func(int, *Term) *Term { return a })
		case "seq", "sub", "elem", "len":
			v = rebuildWith(t, func(_ int, a *Term) *Term { return rec(a, c) })
		default:
			v = t
		}
		memo[key{t, c}] = v
		return v
	}
	return rec(norm(t), mkBool(true))
}

func ruleP31(r *Rep) {
	r.rule("shape", "where the unlocking script of a multi-key-hash input is stored, it has the value number of the reference: in reverse order of the listed hashes one entry each, signed for as many keys as required")
	r.rule("complete", "it is only stored where the reference finds the required number of keys")
	// the functions that set scripts, for any arguments
	n := 0
	var bad []*Rep
	for _, name := range r.scriptSetters() {
		sub := r.attempt()
		m := sub.multi(name)
		n += m
		if m > 0 && len(sub.finds) > 0 {
			bad = append(bad, sub)
		} else if m > 0 {
			r.merge(sub, true)
		}
	}
	if n > 0 && len(bad) == 0 {
		return
	}
	// or, if they rely on their callers, the operations that call them
	n = 0
	names := r.signers()
	for i := range names {
		name := names[len(names)-1-i]
		if !r.P.within(2*time.Minute, func() { n += r.multi(name) }) {
			for _, sub := range bad {
				r.merge(sub, true)
			}
			r.check(len(bad) > 0, "shape", name, "-", "the analysis did not end in time")
		}
		if len(r.finds) > 0 {
			return
		}
	}
	r.check(n >= 2, "shape", "coverage", "-", "only %d multi-key-hash scripts were recognised", n)
}

// multi checks the multi-key-hash scripts a function stores and returns their number.
func (r *Rep) multi(name string) int {
	a := r.analysis(name, "sign", signSetup)
	if a == nil {
		return 0
	}
	keys := a.argOfType(0, func(t types.Type) bool {
		sl, ok := t.Underlying().(*types.Slice)
		return ok && isNamed(sl.Elem(), "Key")
	})
	if keys == nil {
		return 0
	}
	n := 0
	for _, e := range a.unlockStores() {
		st := e.st.clone()
		c := a.in.contTerm(st, e.val)
		w := sigsOf(nil, c)
		if len(w.parts) == 0 || !appNamed(w.parts[0].hash, "sighash") {
			continue
		}
		script := whole(w.parts[0].hash.args[shScript])
		if !st.simp(mkIsNil(mkExt(mkApp("(github.com/tokenized/pkg/bitcoin.Script).MultiPKHCounts", nil, script), 2, nil))).isTrue() {
			continue
		}
		n++
		pos := e.pos(r.P)
		ref := r.refNorm("zzMulti", func(in *Interp, st *State, c *Term) *Term { return in.flat(st, c, unsighed) }, keys, script, sym("hash"))
		if ref == nil {
			continue
		}
		c = a.in.flat(st, c, unsighed)
		st.pc = unsighed(st.pc)
		var fs *Fact
		for _, l := range st.facts.all() {
			fs = fs.assume(unsighed(l.term()))
		}
		st.facts = fs
		done := mkIsNil(unsighed(ref[1]))
		r.check(st.proves(done), "complete", name, pos, "a script is stored although fewer keys may have signed than required")
		if !st.narrow(done) {
			r.check(false, "shape", name, pos, "a script is stored where too few keys have signed")
			continue
		}
		got, want := st.simp(c), st.simp(unsighed(ref[0]))
		r.check(got == want || st.proves(lift2(got, want, func(x, y *Term) *Term { return mkBool(x == y) })), "shape", name, pos,
			"the script is %v, required is %v", got, want)
	}
	return n
}

// scriptSetters lists the builder methods outside the exported ones that store unlocking scripts themselves.
func (r *Rep) scriptSetters() []string {
	var out []string
	for _, fn := range r.P.repoFuncs(r.P.lib) {
		if r.P.isSpec(fn) || fn.Object() == nil || fn.Object().Exported() || len(fn.Params) == 0 || !isTxBuilderPtr(fn.Params[0].Type()) {
			continue
		}
		stores := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if st, ok := i.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
						s, _ := structOf(derefT(fa.X.Type()))
						stores = stores || s != nil && s.Field(fa.Field).Name() == "UnlockingScript"
					}
				}
			}
		}
		if stores {
			out = append(out, relName(fn))
		}
	}
	return out
}

// attempt is a report whose findings do not count unless it is merged.
func (r *Rep) attempt() *Rep {
	sub := newRep(r.P, r.prop)
	sub.rules, sub.cache, sub.fns, sub.counts = r.rules, r.cache, r.fns, r.counts
	return sub
}

// merge takes over the obligations of an attempt.
func (r *Rep) merge(sub *Rep, take bool) {
	if !take {
		return
	}
	r.obs += sub.obs
	r.done += sub.done
	for k, n := range sub.byRule {
		r.byRule[k] += n
	}
	for _, f := range sub.finds {
		if k := f.key() + f.Pos; !r.seen[k] {
			r.seen[k] = true
			r.finds = append(r.finds, f)
		}
	}
	for _, x := range sub.samples {
		if len(r.samples) < 12 {
			r.samples = append(r.samples, x)
		}
	}
}
