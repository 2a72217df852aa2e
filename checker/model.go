package main

import (
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pkgWire    = "github.com/tokenized/pkg/wire"
	pkgBitcoin = "github.com/tokenized/pkg/bitcoin"
)

// inlineList names dependency functions that are interpreted instead of being opaque.
var inlineList = map[string]bool{}

func init() {
	for _, n := range []string{
		"(*W.MsgTx).AddTxIn", "(*W.MsgTx).AddTxOut", "W.NewTxIn", "W.NewTxOut", "W.NewOutPoint", "W.NewMsgTx",
		"(*W.TxIn).SerializeSize", "(*W.TxOut).SerializeSize", "(*W.MsgTx).SerializeSize", "(W.TxOut).SerializeSize",
		"W.VarIntSerializeSize", "(*W.OutPoint).Equal", "(W.OutPoint).Equal", "(*W.OutPoint).Serialize", "(W.OutPoint).Serialize",
		"(*W.TxOut).Serialize", "(W.TxOut).Serialize", "W.writeTxOut", "(W.TxIn).Copy", "(*W.TxIn).Copy", "(W.TxOut).Copy", "(*W.TxOut).Copy",
		"(W.MsgTx).Copy", "(*W.MsgTx).Copy", "(W.OutPoint).Copy", "(*W.OutPoint).Copy", "(B.Script).Copy", "(*B.Script).Copy",
		"(*B.Hash32).Copy", "(B.Hash32).Copy", "(*B.Hash32).Equal", "(B.Hash32).Equal", "(*B.Hash32).Bytes", "(B.Hash32).Bytes",
		"(*B.Hash32).IsZero", "(B.Hash32).IsZero", "(*B.Hash32).Serialize", "(B.Hash32).Serialize", "(B.Script).Bytes",
		"(*B.Script).Equal_", "(*W.OutPoint).OutpointHash_",
	} {
		inlineList[strings.ReplaceAll(strings.ReplaceAll(n, "W.", pkgWire+"."), "B.", pkgBitcoin+".")] = true
	}
}

type callCtx struct {
	in    *Interp
	fr    *Frame
	p     *Path
	instr ssa.CallInstruction
	fn    *ssa.Function
	args  []*Term
	name  string
	sig   *types.Signature
}

type model func(c *callCtx) ([]*Term, bool)

var models map[string]model

func one(c *callCtx, vals ...*Term) ([]*Term, bool) { return vals, true }

func (c *callCtx) record(res *Term, canon []*Term) {
	c.in.event(c.fr, c.p.st, &Event{kind: "call", instr: c.instr, callee: c.name, raw: c.args, args: canon, res: res})
}

func (c *callCtx) resT(i int) types.Type { return c.sig.Results().At(i).Type() }

func init() {
	models = map[string]model{
		"github.com/pkg/errors.Wrap":        mWrap,
		"github.com/pkg/errors.Wrapf":       mWrap,
		"github.com/pkg/errors.WithStack":   mWrap,
		"github.com/pkg/errors.WithMessage": mWrap,
		"github.com/pkg/errors.New":         mErrNew,
		"github.com/pkg/errors.Errorf":      mErrNew,
		"errors.New":                        mErrNew,
		"fmt.Errorf":                        mErrNew,
		"github.com/pkg/errors.Cause":       mCause,
		"github.com/pkg/errors.Is":          mIs,
		"errors.Is":                         mIs,
		"bytes.Equal":                       mBytesEqual,
		"slices.Equal":                      mBytesEqual,
		"(" + pkgBitcoin + ".Script).Equal": mBytesEqual,
		"bytes.NewReader":                   mReader,
		"bytes.NewBuffer":                   mNewBuffer,
		"(*bytes.Buffer).Write":             mWrite,
		"(*bytes.Buffer).WriteByte":         mWriteByte,
		"(*bytes.Buffer).Bytes":             mBufBytes,
		"(*bytes.Buffer).Len":               mBufLen,
		"(*bytes.Buffer).String":            mBufString,
		"(*bytes.Buffer).Reset":             mBufReset,
		"encoding/binary.Write":             mBinWrite,
		"encoding/binary.Read":              nil,
		"crypto/sha256.New":                 mShaNew,
		"crypto/sha256.Sum256":              mSum256,
		pkgBitcoin + ".Sha256":              mSha256,
		pkgBitcoin + ".DoubleSha256":        mDoubleSha,
		pkgWire + ".WriteVarBytes":          mWriteVarBytes,
		pkgWire + ".WriteVarInt":            mWriteVarInt,
		pkgBitcoin + ".WritePushDataScript": mWritePush,
		"math/rand.Shuffle":                 mShuffle,
		"math/rand/v2.Shuffle":              mShuffle,
		"slices.Insert":                     mSlicesInsert,
		"slices.Delete":                     mSlicesDelete,
		"slices.Clone":                      mSlicesClone,
		"slices.Contains":                   nil,
		"strings.Clone":                     mIdent,
		"bytes.Clone":                       mSlicesClone,
		"Write@invoke":                      mInvokeWrite,
		"Sum@invoke":                        mInvokeSum,
		"Reset@invoke":                      mInvokeReset,
		"WriteByte@invoke":                  mInvokeWriteByte,
		"hash.Sum":                          nil,
		"sort.Slice":                        mSort,
		"sort.SliceStable":                  mSort,
		"slices.Reverse":                    mReverse,
		"math.Ceil":                         mFloat1,
		"math.Floor":                        mFloat1,
	}
	for _, n := range []string{"16", "32", "64"} {
		for _, o := range []string{"littleEndian", "bigEndian"} {
			models["(encoding/binary."+o+").PutUint"+n] = mPutUint
			models["(encoding/binary."+o+").AppendUint"+n] = mAppendUint
		}
		models["PutUint"+n+"@invoke"] = mPutUint
		models["AppendUint"+n+"@invoke"] = mAppendUint
	}
	for k, v := range models {
		if v == nil {
			delete(models, k)
		}
	}
}

func mFloat1(c *callCtx) ([]*Term, bool) { return one(c, mkApp(c.name, c.resT(0), c.args...)) }

func mIdent(c *callCtx) ([]*Term, bool) { return one(c, c.args[0]) }

// mkApp is the result of a pure function; case distinctions in the arguments are moved outside.
func mkApp(name string, typ types.Type, args ...*Term) *Term {
	n := 1
	for _, a := range args {
		if a != nil && a.op == "ite" {
			n *= len(leaves(a))
		}
	}
	if n > 1 && n <= 24 {
		return liftN(args, func(a []*Term) *Term { return mkTyped("app", name, typ, a...) })
	}
	return mkTyped("app", name, typ, args...)
}

// ---- errors ----

var errT = types.Universe.Lookup("error").Type()

func mkWrap(e *Term) *Term {
	return lift1(e, func(e *Term) *Term {
		if e.isNil() || e.op == "errwrap" {
			return e
		}
		return mk("errwrap", "", errT, e)
	})
}

// notNil marks a wrapped error as not nil where the state knows it is not, so that the knowledge
// outlives the state.
func (st *State) notNil(e *Term) *Term {
	if e.typ != nil && !types.Identical(e.typ, errT) {
		return e
	}
	wraps := false
	for _, l := range leaves(e) {
		wraps = wraps || l.op == "errwrap" && l.aux == ""
	}
	if !wraps {
		return e
	}
	n := mkIsNil(e)
	if n.isFalse() || !st.simp(n).isFalse() && !st.proves(mkNot(n)) {
		return e
	}
	return lift1(restrict(e, mkNot(n)), func(l *Term) *Term {
		if l.op == "errwrap" {
			return mk("errwrap", "!", errT, l.args[0])
		}
		return l
	})
}

func mWrap(c *callCtx) ([]*Term, bool) {
	c.record(nil, nil)
	return one(c, mkWrap(c.args[0]))
}

func mErrNew(c *callCtx) ([]*Term, bool) {
	c.record(nil, nil)
	return one(c, mk("errnew", instrSite(c.fr, c.instr), errT, c.in.ks(c.fr)...))
}

func mkCause(e *Term) *Term {
	return lift1(e, func(e *Term) *Term {
		switch e.op {
		case "errwrap":
			return mkCause(e.args[0])
		case "errglobal", "errnew", "nil":
			return e
		}
		return mk("app", "cause", errT, e)
	})
}

func mCause(c *callCtx) ([]*Term, bool) { return one(c, mkCause(c.args[0])) }

func mIs(c *callCtx) ([]*Term, bool) {
	return one(c, mkEq(mkCause(c.args[0]), mkCause(c.args[1])))
}

// ---- byte content ----

func mBytesEqual(c *callCtx) ([]*Term, bool) {
	a := c.in.contTerm(c.p.st, c.args[0])
	b := c.in.contTerm(c.p.st, c.args[1])
	r := c.p.st.simp(mkEq(a, b))
	c.record(r, []*Term{a, b})
	return one(c, r)
}

func mReader(c *callCtx) ([]*Term, bool) {
	return one(c, mkApp("reader", c.resT(0), c.in.contTerm(c.p.st, c.args[0])))
}

func mNewBuffer(c *callCtx) ([]*Term, bool) {
	a := c.in.newAlloc(c.fr, c.p, instrSite(c.fr, c.instr)+"buf", c.resT(0))
	c.p.st.cont[a] = c.in.contOf(c.p.st, c.args[0])
	return one(c, a)
}

func writerKey(w *Term) *Term {
	for w.op == "iface" {
		w = w.args[0]
	}
	return w
}

func (in *Interp) writerCont(st *State, w *Term) *Term {
	if s, ok := st.cont[w]; ok {
		return s
	}
	if w.op == "alloc" || w.op == "fld" && rootOf(w).op == "alloc" {
		if s := st.family(w); s != nil {
			return s
		}
		return mkSeq(nil)
	}
	// foreign writers start with unknown content of which only the additions matter
	x := mk("written", "", nil, w)
	return mkSeq([]*Term{mkSubSeg(x, mkInt(0), mkLen(x))})
}

func (c *callCtx) emit(w *Term, seq *Term) {
	w = writerKey(w)
	st := c.p.st
	c.in.event(c.fr, st, &Event{kind: "write", instr: c.instr, addr: w, val: seq, callee: c.name, raw: c.args})
	for _, l := range leaves(w) {
		k := writerKey(l)
		n := catSeq(c.in.writerCont(st, k), seq)
		if w.op == "ite" {
			n = mkITE(whenLeaf(w, func(t *Term) bool { return t == l }), n, c.in.writerCont(st, k))
		}
		st.cont[k] = st.simp(n)
	}
}

// writeErr is the error result of a write: nil for in-memory writers.
func (c *callCtx) writeErr(w *Term) *Term {
	w = writerKey(w)
	if w.op == "alloc" || w.op == "fld" {
		return mkNil()
	}
	return mk("app", "writeerr", errT, w, mk("site", instrSite(c.fr, c.instr), nil, c.in.ks(c.fr)...))
}

func mWrite(c *callCtx) ([]*Term, bool) {
	seq := c.in.contOf(c.p.st, c.args[1])
	c.emit(c.args[0], seq)
	return one(c, mkLen(seq), mkNil())
}

func mWriteByte(c *callCtx) ([]*Term, bool) {
	c.emit(c.args[0], lift1(c.args[1], func(x *Term) *Term { return mkSeq([]*Term{mkOne(x)}) }))
	return one(c, mkNil())
}

func mInvokeWrite(c *callCtx) ([]*Term, bool) {
	if len(c.args) != 2 {
		return nil, false
	}
	seq := c.in.contOf(c.p.st, c.args[1])
	c.emit(c.args[0], seq)
	return one(c, mkLen(seq), c.writeErr(c.args[0]))
}

func mInvokeWriteByte(c *callCtx) ([]*Term, bool) {
	c.emit(c.args[0], lift1(c.args[1], func(x *Term) *Term { return mkSeq([]*Term{mkOne(x)}) }))
	return one(c, c.writeErr(c.args[0]))
}

func (c *callCtx) freshSlice(seq *Term, t types.Type) *Term {
	return c.in.freshSlice(c.fr, c.p, instrSite(c.fr, c.instr)+"res", t, seq)
}

func mBufBytes(c *callCtx) ([]*Term, bool) {
	return one(c, c.freshSlice(c.in.writerCont(c.p.st, c.args[0]), c.resT(0)))
}

func mBufString(c *callCtx) ([]*Term, bool) {
	return one(c, lift1(c.in.writerCont(c.p.st, c.args[0]), func(s *Term) *Term { return mk("conv", "string", tString, s) }))
}

func mBufLen(c *callCtx) ([]*Term, bool) {
	return one(c, mkLen(c.in.writerCont(c.p.st, c.args[0])))
}

func mBufReset(c *callCtx) ([]*Term, bool) {
	c.p.st.cont[c.args[0]] = mkSeq(nil)
	return one(c)
}

func mInvokeReset(c *callCtx) ([]*Term, bool) {
	w := writerKey(c.args[0])
	if w.op != "alloc" {
		return nil, false
	}
	c.p.st.cont[w] = mkSeq(nil)
	return one(c)
}

func endianOf(order *Term) string {
	for order.op == "iface" {
		order = order.args[0]
	}
	s := strings.ToLower(order.String() + " " + typeStr(order.typ))
	switch {
	case strings.Contains(s, "littleendian") || strings.Contains(s, "wire.endian"):
		return "le"
	case strings.Contains(s, "bigendian"):
		return "be"
	}
	return "?"
}

// encode is the fixed-size binary form of a value.
func (c *callCtx) encode(end string, x *Term, t types.Type) *Term {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		x = c.in.load(c.p.st, x, pt.Elem())
		t = pt.Elem()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := bitsOf(u) / 8
		return lift1(x, func(x *Term) *Term {
			if n == 1 {
				return mkSeq([]*Term{mkOne(x)})
			}
			return mkSeq([]*Term{mk("emit", end+strconv.Itoa(n), nil, x)})
		})
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && bitsOf(b) == 8 {
			return c.in.arrCont(x, t)
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && bitsOf(b) == 8 {
			return c.in.contOf(c.p.st, x)
		}
	}
	return mkSeq([]*Term{mk("emit", end+"?", nil, c.in.canon(c.p.st, x, 0))})
}

func mBinWrite(c *callCtx) ([]*Term, bool) {
	v := c.args[2]
	seq := lift1(v, func(v *Term) *Term {
		if v.op == "iface" {
			return c.encode(endianOf(c.args[1]), v.args[0], v.typ)
		}
		return mkSeq([]*Term{mk("emit", "??", nil, v)})
	})
	c.emit(c.args[0], seq)
	return one(c, c.writeErr(c.args[0]))
}

// mPutUint models (ByteOrder).PutUintN(buf, v): the bytes at the start of the slice.
func mPutUint(c *callCtx) ([]*Term, bool) {
	if len(c.args) < 2 {
		return nil, false
	}
	dst, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
	end := endianOf(c.args[0])
	if len(c.args) == 3 && end == "?" {
		end = endianOf(mkStr(c.name))
	}
	w := c.name[strings.LastIndex(c.name, "PutUint")+7:]
	n, err := strconv.Atoi(w)
	if err != nil {
		return nil, false
	}
	seq := lift1(v, func(x *Term) *Term { return mkSeq([]*Term{mk("emit", end+strconv.Itoa(n/8), nil, x)}) })
	c.in.overwrite(c.fr, c.p.st, c.instr, dst, seq)
	return one(c)
}

// mAppendUint models (ByteOrder).AppendUintN(buf, v).
func mAppendUint(c *callCtx) ([]*Term, bool) {
	if len(c.args) < 2 {
		return nil, false
	}
	dst, v := c.args[len(c.args)-2], c.args[len(c.args)-1]
	w := c.name[strings.LastIndex(c.name, "AppendUint")+10:]
	n, err := strconv.Atoi(w)
	if err != nil {
		return nil, false
	}
	end := endianOf(c.args[0])
	seq := lift1(v, func(x *Term) *Term { return mkSeq([]*Term{mk("emit", end+strconv.Itoa(n/8), nil, x)}) })
	return one(c, c.freshSlice(catSeq(c.in.contOf(c.p.st, dst), seq), c.resT(0)))
}

func mWriteVarBytes(c *callCtx) ([]*Term, bool) {
	seq := c.in.contOf(c.p.st, c.args[2])
	c.emit(c.args[0], catSeq(lift1(mkLen(seq), func(n *Term) *Term { return mkSeq([]*Term{mk("emit", "varint", nil, n)}) }), seq))
	return one(c, c.writeErr(c.args[0]))
}

func mWriteVarInt(c *callCtx) ([]*Term, bool) {
	c.emit(c.args[0], lift1(c.args[len(c.args)-1], func(x *Term) *Term { return mkSeq([]*Term{mk("emit", "varint", nil, x)}) }))
	return one(c, c.writeErr(c.args[0]))
}

func mWritePush(c *callCtx) ([]*Term, bool) {
	x := c.in.contTerm(c.p.st, c.args[1])
	c.emit(c.args[0], lift1(x, func(x *Term) *Term { return mkSeq([]*Term{mk("emit", "push", nil, x)}) }))
	return one(c, c.writeErr(c.args[0]))
}

// ---- hashes ----

func mShaNew(c *callCtx) ([]*Term, bool) {
	a := c.in.newAlloc(c.fr, c.p, instrSite(c.fr, c.instr)+"sha", c.resT(0))
	c.p.st.cont[a] = mkSeq(nil)
	return one(c, a)
}

func mInvokeSum(c *callCtx) ([]*Term, bool) {
	w := writerKey(c.args[0])
	if w.op != "alloc" || !strings.HasSuffix(w.aux, "sha") {
		return nil, false
	}
	h := shaOf(lift1(c.in.writerCont(c.p.st, w), seqTerm))
	return one(c, c.freshSlice(catSeq(c.in.contOf(c.p.st, c.args[1]), hashSeq(h)), c.resT(0)))
}

var arr32 = types.NewArray(types.Typ[types.Uint8], 32)

func shaOf(content *Term) *Term {
	return lift1(content, func(s *Term) *Term {
		if s.op == "app" && s.aux == "sha256" {
			s = mkSeq([]*Term{mkSubSeg(s, mkInt(0), mkInt(32))})
		}
		return mk("app", "sha256", arr32, s)
	})
}

func hashSeq(h *Term) *Term {
	return lift1(h, func(h *Term) *Term { return mkSeq([]*Term{mkSubSeg(h, mkInt(0), mkInt(32))}) })
}

func mSum256(c *callCtx) ([]*Term, bool) {
	return one(c, shaOf(c.in.contTerm(c.p.st, c.args[0])))
}

func mSha256(c *callCtx) ([]*Term, bool) {
	h := shaOf(c.in.contTerm(c.p.st, c.args[0]))
	return one(c, c.freshSlice(hashSeq(h), c.resT(0)))
}

func mDoubleSha(c *callCtx) ([]*Term, bool) {
	h := shaOf(shaOf(c.in.contTerm(c.p.st, c.args[0])))
	return one(c, c.freshSlice(hashSeq(h), c.resT(0)))
}

// ---- slices ----

func mSlicesInsert(c *callCtx) ([]*Term, bool) {
	s, i := c.args[0], c.args[1]
	st := c.p.st
	seq := c.in.contOf(st, s)
	n := mkLen(s)
	c.in.event(c.fr, st, &Event{kind: "slice", instr: c.instr, addr: s, args: []*Term{i, n, n}})
	st.assumeAll(mkLe(mkInt(0), i), mkLe(i, n))
	out := catSeq(c.in.cut(st, seq, mkInt(0), i), catSeq(c.in.contOf(st, c.args[2]), c.in.cut(st, seq, i, n)))
	c.in.clobberFrom(st, s, i, instrSite(c.fr, c.instr))
	return one(c, c.freshSlice(out, c.resT(0)))
}

func mSlicesDelete(c *callCtx) ([]*Term, bool) {
	s, i, j := c.args[0], c.args[1], c.args[2]
	st := c.p.st
	seq := c.in.contOf(st, s)
	n := mkLen(s)
	c.in.event(c.fr, st, &Event{kind: "slice", instr: c.instr, addr: s, args: []*Term{i, j, n}})
	st.assumeAll(mkLe(mkInt(0), i), mkLe(i, j), mkLe(j, n))
	out := catSeq(c.in.cut(st, seq, mkInt(0), i), c.in.cut(st, seq, j, n))
	c.in.clobberFrom(st, s, i, instrSite(c.fr, c.instr))
	return one(c, c.freshSlice(out, c.resT(0)))
}

func (st *State) assumeAll(cs ...*Term) {
	for _, c := range cs {
		if c = st.simp(c); !c.isTrue() && !c.isFalse() {
			st.facts = st.facts.assume(c)
		}
	}
}

// clobberFrom makes the backing array of s unknown from offset i on.
func (in *Interp) clobberFrom(st *State, s, i *Term, site string) {
	for _, l := range leaves(s) {
		back, lo := l, mkInt(0)
		if l.op == "slice" {
			back, lo = l.args[0], l.args[1]
		}
		if back.isNil() || arrayAddr(back) != nil {
			continue
		}
		seq := in.backCont(st, back)
		off := mkAdd(lo, i)
		n := liftN([]*Term{seq, off}, func(a []*Term) *Term {
			junk := mk("clobbered", site, nil, a[0], a[1])
			total := mkLen(a[0])
			if l, _, ok := in.splitAt(st, a[0].args, a[1]); ok {
				return mkSeq(append(append([]*Term(nil), l...), mkSubSeg(junk, mkInt(0), mkSub(total, a[1]))))
			}
			return mkSeq([]*Term{mkSubSeg(junk, mkInt(0), total)})
		})
		if s.op == "ite" {
			n = mkITE(whenLeaf(s, func(t *Term) bool { return t == l }), n, seq)
		}
		st.cont[back] = n
	}
}

// overwrite replaces the first elements of dst by seq.
func (in *Interp) overwrite(fr *Frame, st *State, instr instrT, dst, seq *Term) {
	for _, l := range leaves(dst) {
		if l.isNil() {
			continue
		}
		back, lo := l, mkInt(0)
		if l.op == "slice" {
			back, lo = l.args[0], l.args[1]
		}
		bs := in.backCont(st, back)
		n := in.replaceAt(st, bs, lo, seq)
		if dst.op == "ite" {
			n = mkITE(whenLeaf(dst, func(t *Term) bool { return t == l }), n, bs)
		}
		if arr := arrayAddr(back); arr != nil {
			in.store(fr, st, instr, back, arrVal(n, arr), arr)
			continue
		}
		st.cont[back] = n
	}
}

func mSlicesClone(c *callCtx) ([]*Term, bool) {
	r := lift1(c.args[0], func(x *Term) *Term {
		if x.isNil() {
			return x
		}
		return mk("marker", "", nil)
	})
	if r.isNil() {
		return one(c, r)
	}
	s := c.freshSlice(c.in.contOf(c.p.st, c.args[0]), c.resT(0))
	return one(c, mkITE(mkIsNil(c.args[0]), mkNil(), s))
}

func mReverse(c *callCtx) ([]*Term, bool) {
	s := c.args[0]
	if s.op == "ite" {
		return nil, false
	}
	back := s
	if s.op == "slice" {
		back = s.args[0]
	}
	c.p.st.cont[back] = lift1(c.in.contOf(c.p.st, s), func(q *Term) *Term {
		return mkSeq([]*Term{mkSubSeg(mk("rev", "", nil, q), mkInt(0), mkLen(q))})
	})
	return one(c)
}

// mShuffle permutes the slices whose elements the swap closure exchanges.
func mShuffle(c *callCtx) ([]*Term, bool) {
	n, f := c.args[0], c.args[1]
	if len(c.args) == 3 {
		n, f = c.args[1], c.args[2]
	}
	c.record(nil, nil)
	in := c.in
	i := mk("param", "swap#i", tInt)
	j := mk("param", "swap#j", tInt)
	run := func(p *Path) ([]*Event, bool) {
		start, mute := len(in.events), in.mute
		in.mute = 0
		_, ok := in.callValue(c.fr, p, c.instr, f, []*Term{i, j}, nil)
		evs := append([]*Event(nil), in.events[start:]...)
		in.events, in.mute = in.events[:start], mute
		return evs, ok
	}
	evs, ok := run(c.p.clone())
	if !ok {
		return nil, false
	}
	for _, e := range evs {
		switch e.kind {
		case "index", "slice", "div":
			// indices handed to the callback are in [0, n)
			e.facts = e.facts.assume(mkLe(mkInt(0), i)).assume(mkLt(i, n)).assume(mkLe(mkInt(0), j)).assume(mkLt(j, n))
			if in.mute == 0 {
				e.n = len(in.events)
				in.events = append(in.events, e)
			}
		}
	}
	var order []*Term
	for _, e := range evs {
		switch {
		case e.kind == "elem":
			b := e.addr.args[0]
			known := false
			for _, o := range order {
				known = known || o == b
			}
			if !known {
				order = append(order, b)
			}
		case e.kind == "store" && !(fresh(e.addr) && strings.HasPrefix(rootOf(e.addr).aux, instrSite(c.fr, c.instr)+">")):
			// something other than the order of a list is changed: one exchange stands for all
			c.p.st.assumeAll(mkLe(mkInt(0), i), mkLt(i, n), mkLe(mkInt(0), j), mkLt(j, n))
			if _, ok := run(c.p); !ok {
				return nil, false
			}
			return one(c)
		}
	}
	// the callback once more, on lists of unknown elements
	p := c.p.clone()
	for _, b := range order {
		p.st.cont[b] = mkSeq([]*Term{mkSubSeg(mk("param", "shuffled#", nil, b), mkInt(0), mk("param", "shuffled#len", tInt, b))})
	}
	if evs, ok = run(p); !ok {
		return nil, false
	}
	pm := mk("nondet", "perm:"+instrSite(c.fr, c.instr), nil, in.ks(c.fr)...)
	// swaps returns the offset of the exchanged part of a list and when it is exchanged
	swaps := func(b *Term) (*Term, *Term) {
		var lo *Term
		var typ types.Type
		for _, e := range evs {
			if e.kind == "elem" && e.addr.args[0] == b {
				o := mkSub(e.addr.args[1], i)
				if contains(o, i) || contains(o, j) {
					o = mkSub(e.addr.args[1], j)
				}
				if contains(o, i) || contains(o, j) || lo != nil && lo != o {
					return nil, nil
				}
				lo, typ = o, e.val.typ
			}
		}
		if lo == nil {
			return nil, nil
		}
		m := mk("param", "swap#m", tInt)
		old := mkSeq([]*Term{mkSubSeg(mk("param", "shuffled#", nil, b), mkInt(0), mk("param", "shuffled#len", tInt, b))})
		var cond *Term
		for _, o := range [][3]*Term{{i, j, m}, {i, m, j}, {m, i, j}, {j, i, m}, {j, m, i}, {m, j, i}} {
			st := p.st.clone()
			st.assumeAll(mkLe(mkInt(0), o[0]), mkLt(o[0], o[1]), mkLt(o[1], o[2]), mkLt(o[2], n))
			was := func(x *Term) *Term { return in.elemAt(st, old, mkAdd(lo, x), typ) }
			when := func(x, y *Term) *Term {
				is := st.simp(in.elemAt(st, p.st.cont[b], mkAdd(lo, x), typ))
				return whenLeaf(is, func(l *Term) bool { return l == was(y) })
			}
			if cond == nil {
				cond = when(i, j)
			}
			if contains(cond, i) || contains(cond, j) || when(i, j) != cond || when(j, i) != cond || when(i, i) != mkNot(cond) || when(j, j) != mkNot(cond) || when(m, m) != termTrue {
				return nil, nil
			}
		}
		return lo, cond
	}
	for _, b := range order {
		seq := in.backCont(c.p.st, b)
		lo, cond := swaps(b)
		if lo == nil {
			cond = termTrue
		}
		out := lift2(restrict(seq, cond), restrict(c.p.st.simp(n), cond), func(q, nq *Term) *Term {
			lost := mkSeq([]*Term{mkSubSeg(mk("nondet", "lost:"+instrSite(c.fr, c.instr), nil, in.ks(c.fr)...), mkInt(0), mkLen(q))})
			if lo == nil {
				return lost
			}
			pre, rest, ok := in.splitAt(c.p.st, q.args, lo)
			if !ok {
				return lost
			}
			mid, post, ok := in.splitAt(c.p.st, rest, nq)
			if !ok {
				if segsLen(rest) != nq {
					return lost
				}
				mid, post = rest, nil
			}
			o := append([]*Term(nil), pre...)
			o = append(o, mkSubSeg(mk("perm", "", nil, mkSeq(mid), pm), mkInt(0), segsLen(mid)))
			return mkSeq(append(o, post...))
		})
		if lo != nil {
			out = mkITE(cond, out, seq)
		}
		c.p.st.cont[b] = out
		in.event(c.fr, c.p.st, &Event{kind: "perm", instr: c.instr, addr: b, val: n})
	}
	return one(c)
}

func mSort(c *callCtx) ([]*Term, bool) {
	s := writerKey(c.args[0])
	if s.op == "ite" {
		return nil, false
	}
	back := s
	if s.op == "slice" {
		back = s.args[0]
	}
	c.record(nil, nil)
	pm := mk("nondet", "perm:"+instrSite(c.fr, c.instr), nil, c.in.ks(c.fr)...)
	c.p.st.cont[back] = lift1(c.in.contOf(c.p.st, s), func(q *Term) *Term {
		return mkSeq([]*Term{mkSubSeg(mk("perm", "", nil, q, pm), mkInt(0), mkLen(q))})
	})
	return one(c)
}

// ---- opaque calls ----

var mutators = []string{"Unmarshal", "Decode", "Deserialize", "Scan", "Read", "RemoveHardVerify", "UnmarshalBinary"}

func isMutator(name string) bool {
	n := name[strings.LastIndex(name, ".")+1:]
	for _, m := range mutators {
		if strings.HasPrefix(n, m) {
			return true
		}
	}
	return false
}

func nondetCall(name string) bool {
	for _, p := range []string{"math/rand.", "(*math/rand.", "math/rand/v2.", "(*math/rand/v2.", "time.", "(time.", "crypto/rand.", "net/http.", "(*net/http.", "os.", "io."} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// canon is the value of an argument as an opaque function may observe it.
func (in *Interp) canon(st *State, t *Term, d int) *Term {
	return lift1(t, func(t *Term) *Term { return in.canon1(st, t, d) })
}

func (in *Interp) canon1(st *State, t *Term, d int) *Term {
	if d > 4 {
		return t
	}
	switch t.op {
	case "iface":
		return in.canon(st, t.args[0], d)
	case "slice":
		return lift1(in.contOf(st, t), func(q *Term) *Term {
			var out []*Term
			for _, g := range q.args {
				if g.op == "one" {
					out = append(out, mkOne(in.canon(st, g.args[0], d+1)))
				} else {
					out = append(out, g)
				}
			}
			return in.withMem(st, seqTerm(mkSeq(out)), t.typ)
		})
	case "alloc":
		if t.typ == nil {
			return t
		}
		if q, ok := st.cont[t]; ok {
			return q
		}
		el := derefT(t.typ)
		if _, ok := el.Underlying().(*types.Struct); ok || isScalar(el) {
			return mk("ref", "", nil, in.canon(st, in.load(st, t, el), d+1))
		}
	case "struct":
		args := make([]*Term, len(t.args))
		for i, a := range t.args {
			args[i] = in.canon(st, a, d+1)
		}
		return mk("struct", t.aux, t.typ, args...)
	}
	if _, ok := st.cont[t]; ok && t.op != "alloc" {
		return in.withMem(st, in.contTerm(st, t), t.typ)
	}
	return in.withMem(st, t, t.typ)
}

func (in *Interp) withMem(st *State, t *Term, typ types.Type) *Term {
	if typ == nil {
		return t
	}
	switch typ.Underlying().(type) {
	case *types.Pointer, *types.Slice:
		if m := in.memDigest(st, typ); m != nil {
			return mk("at", "", typ, t, m)
		}
	}
	return t
}

func isScalar(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Basic, *types.Array, *types.Slice:
		return true
	}
	return false
}

func (in *Interp) opaqueCall(fr *Frame, p *Path, instr ssa.CallInstruction, name string, args []*Term, sig *types.Signature) []*Term {
	st := p.st
	var canon []*Term
	for _, a := range args {
		canon = append(canon, in.canon(st, a, 0))
	}
	n := 0
	if sig != nil {
		n = sig.Results().Len()
	}
	var rt types.Type
	if n == 1 {
		rt = sig.Results().At(0).Type()
	}
	var t *Term
	if nondetCall(name) {
		t = mkTyped("nondet", name+"|"+instrSite(fr, instr), rt, in.ks(fr)...)
	} else {
		t = mkApp(name, rt, canon...)
	}
	var vals []*Term
	switch n {
	case 0:
	case 1:
		vals = []*Term{t}
	default:
		for i := 0; i < n; i++ {
			i := i
			vals = append(vals, lift1(t, func(t *Term) *Term { return mkExt(t, i, sig.Results().At(i).Type()) }))
		}
	}
	ev := &Event{kind: "call", instr: instr, callee: name, raw: args, args: canon, res: t, vals: vals}
	if in.mute == 0 && in.watch[name] {
		ev.st = st.clone()
	}
	in.event(fr, st, ev)
	if isMutator(name) {
		for i, a := range args {
			w := writerKey(a)
			if (w.op == "alloc" || w.op == "fld") && w.typ != nil {
				el := derefT(w.typ)
				in.store(fr, st, instr, w, mkApp("out"+strconv.Itoa(i)+":"+name, el, canon...), el)
			}
		}
	}
	return vals
}

// ---- builtins ----

func (in *Interp) builtin(fr *Frame, p *Path, instr ssa.CallInstruction, c *ssa.CallCommon, b *ssa.Builtin) ([]*Term, bool) {
	st := p.st
	var args []*Term
	for _, a := range c.Args {
		args = append(args, in.use(fr, p, a))
	}
	ret := func(v ...*Term) ([]*Term, bool) { return v, true }
	switch b.Name() {
	case "len":
		return ret(in.lenOf(args[0], c.Args[0].Type()))
	case "cap":
		return ret(mk("app", "cap", tInt, args[0]))
	case "append":
		return ret(in.appendSlice(fr, p, instr, args[0], args[1], c.Args[0].Type()))
	case "copy":
		dst, src := args[0], args[1]
		ss := in.contOf(st, src)
		nd, ns := mkLen(dst), mkLen(ss)
		in.event(fr, st, &Event{kind: "copy", instr: instr, addr: dst, args: []*Term{dst, src}})
		fits := st.simp(mkLe(ns, nd))
		if !fits.isTrue() {
			st2 := st.clone()
			st2.narrow(mkNot(fits))
			ss = mkITE(fits, ss, in.cut(st2, ss, mkInt(0), nd))
		}
		in.overwrite(fr, st, instr, dst, ss)
		return ret(mkITE(fits, ns, nd))
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			if isIntegerType(c.Args[0].Type()) {
				le := mkLe(r, y)
				if b.Name() == "max" {
					r = mkITE(le, y, r)
				} else {
					r = mkITE(le, r, y)
				}
				r = st.simp(r)
			} else {
				r = mkApp(b.Name(), c.Args[0].Type(), r, y)
			}
		}
		return ret(r)
	case "panic":
		in.event(fr, st, &Event{kind: "panic", instr: instr})
		return nil, false
	case "ssa:wrapnilchk":
		return ret(args[0])
	case "clear", "delete", "print", "println", "close":
		in.event(fr, st, &Event{kind: "call", instr: instr, callee: b.Name(), raw: args, args: args})
		return ret()
	}
	return ret(mk("nondet", instrSite(fr, instr), nil, in.ks(fr)...))
}

func (in *Interp) appendSlice(fr *Frame, p *Path, instr ssa.Instruction, s, v *Term, t types.Type) *Term {
	st := p.st
	base := in.contOf(st, s)
	add := in.contOf(st, v)
	in.event(fr, st, &Event{kind: "append", instr: instr, addr: s, val: add})
	if emptySeq(add) {
		return s
	}
	site := instrSite(fr, instr)
	// appending to a strict prefix overwrites the shared backing array behind it
	for _, l := range leaves(s) {
		if l.op == "slice" && arrayAddr(l.args[0]) == nil {
			bl := mkLen(in.backCont(st, l.args[0]))
			if st.simp(bl) != l.args[2] && st.facts.decide(mkEqInt(bl, l.args[2])) != 1 {
				sel := l
				if s.op != "ite" {
					sel = s
				}
				in.clobberFrom(st, mk("slice", "", sel.typ, l.args[0], mkInt(0), l.args[2]), l.args[2], site)
			}
		}
	}
	return in.freshSlice(fr, p, site, t, catSeq(base, add))
}
