package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P28: where private keys, and text they were decoded from, flow to.

// isKeyType recognises the private key type and types that hold it.
func isKeyType(t types.Type) bool { return holdsKey(t, map[types.Type]bool{}) }

func holdsKey(t types.Type, seen map[types.Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == "Key" && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/bitcoin") {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return holdsKey(u.Elem(), seen)
	case *types.Slice:
		return holdsKey(u.Elem(), seen)
	case *types.Array:
		return holdsKey(u.Elem(), seen)
	case *types.Chan:
		return holdsKey(u.Elem(), seen)
	case *types.Map:
		return holdsKey(u.Elem(), seen) || holdsKey(u.Key(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsKey(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// publicOf recognises what may be made of a key and given out.
func publicOf(name string) bool {
	if !strings.Contains(name, "bitcoin.Key)") {
		return false
	}
	switch name[strings.LastIndex(name, ".")+1:] {
	case "PublicKey", "RawAddress", "LockingScript", "Sign", "Network", "IsEmpty", "Equal", "MarshalJSONMasked":
		return true
	}
	return false
}

// decodesKey recognises the functions of the library of keys that make a key of text or bytes, and gives the
// argument.
func decodesKey(c *ssa.CallCommon) ssa.Value {
	n := calleeName(c)
	if !strings.Contains(n, "/bitcoin.") || len(c.Args) == 0 {
		return nil
	}
	switch n[strings.LastIndex(n, ".")+1:] {
	case "KeyFromStr", "KeyFromBytes", "KeyFromNumber":
		return c.Args[0]
	case "DecodeString", "SetString", "SetBytes", "UnmarshalText", "UnmarshalJSON", "UnmarshalBinary":
		if len(c.Args) == 2 && isKeyType(c.Args[0].Type()) {
			return c.Args[1]
		}
	}
	return nil
}

type keyFlow struct {
	P       *Program
	fns     map[*ssa.Function]bool
	order   []*ssa.Function
	flags   map[*ssa.Function]bool
	tainted map[ssa.Value]bool
	results map[*ssa.Function]map[int]bool
	tuples  map[ssa.Value]map[int]bool
	fields  map[string]bool
	byType  bool // keys are recognised by their type
	clean   func(c ssa.CallInstruction) bool
	changed bool
}

func (k *keyFlow) is(v ssa.Value) bool {
	if v == nil {
		return false
	}
	if _, ok := v.(*ssa.Const); ok {
		return false
	}
	return k.tainted[v] || k.byType && isKeyType(v.Type())
}

func (k *keyFlow) add(v ssa.Value) {
	if v == nil || k.tainted[v] {
		return
	}
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Builtin:
		return
	}
	k.tainted[v] = true
	k.changed = true
}

func memoryType(t types.Type) bool {
	s := typeStr(derefT(t))
	return strings.HasSuffix(s, "bytes.Buffer") || strings.HasSuffix(s, "strings.Builder")
}

// sink tells what a call does with data given to it, if that gives it out.
func sinkName(c *ssa.CallCommon) string {
	n := calleeName(c)
	if c.IsInvoke() {
		if m := c.Method.Name(); strings.HasPrefix(m, "Write") || strings.HasPrefix(m, "Print") || strings.HasPrefix(m, "Log") || m == "Set" || m == "Info" || m == "Error" {
			if !strings.Contains(typeStr(c.Value.Type()), "hash.") {
				return n
			}
		}
		return ""
	}
	if makesErrors(n) && !strings.HasSuffix(n, ".Cause") && !strings.HasSuffix(n, ".Is") {
		return n
	}
	for _, p := range []string{"fmt.", "log.", "io.WriteString", "io/ioutil.WriteFile", "os.WriteFile", "(*os.File).Write", "net/http.", "(*net/http.", "(*log.", "(*bufio.Writer).Write", "os.Setenv", "encoding/binary.Write"} {
		if strings.HasPrefix(n, p) {
			return n
		}
	}
	if strings.Contains(n, "/logger.") {
		return n
	}
	return ""
}

// step propagates through one instruction.
func (k *keyFlow) step(fn *ssa.Function, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Store:
		if k.tainted[x.Val] || k.byType && isKeyType(x.Val.Type()) && !isKeyType(derefT(x.Addr.Type())) {
			if f, ok := x.Addr.(*ssa.FieldAddr); ok {
				if key := fieldKey(f); !k.fields[key] {
					k.fields[key] = true
					k.changed = true
				}
				return
			}
			k.add(rootAlloc(x.Addr))
		}
	case *ssa.MapUpdate:
		if k.tainted[x.Key] || k.tainted[x.Value] {
			k.add(x.Map)
		}
	case *ssa.Return:
		for i, v := range x.Results {
			if k.tainted[v] {
				if k.results[fn] == nil {
					k.results[fn] = map[int]bool{}
				}
				if !k.results[fn][i] {
					k.results[fn][i] = true
					k.changed = true
				}
			}
		}
	case ssa.CallInstruction:
		k.call(x)
	case *ssa.MakeClosure:
		f := x.Fn.(*ssa.Function)
		for i, b := range x.Bindings {
			if k.tainted[b] {
				k.add(f.FreeVars[i])
			}
			if k.tainted[f.FreeVars[i]] {
				k.add(b)
			}
		}
	case *ssa.Extract:
		if k.tuples[x.Tuple][x.Index] {
			k.add(x)
		} else if k.tainted[x.Tuple] {
			if _, isCall := x.Tuple.(ssa.CallInstruction); !isCall && !isBoolType(x.Type()) {
				k.add(x)
			}
		}
	case *ssa.MakeInterface:
		if k.is(x.X) {
			k.add(x)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && (k.tainted[x.X] || k.tainted[x.Y]) {
			k.add(x)
		}
	case *ssa.FieldAddr:
		if k.fields[fieldKey(x)] {
			k.add(x)
		}
	case *ssa.Field:
		if k.tainted[x.X] {
			k.add(x)
		}
	case ssa.Value:
		for _, op := range in.Operands(nil) {
			if *op != nil && k.tainted[*op] {
				k.add(x)
			}
		}
	}
}

func fieldKey(f *ssa.FieldAddr) string {
	t := derefT(f.X.Type())
	s, _ := t.Underlying().(*types.Struct)
	if s == nil {
		return "?"
	}
	return typeStr(t) + "." + s.Field(f.Field).Name()
}

func (k *keyFlow) call(x ssa.CallInstruction) {
	c := x.Common()
	args := c.Args
	if c.IsInvoke() {
		args = append([]ssa.Value{c.Value}, args...)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "append":
			for _, a := range args {
				if k.tainted[a] {
					k.add(x.Value())
				}
			}
		case "copy":
			if k.tainted[args[1]] {
				k.add(args[0])
				k.add(rootSlice(args[0]))
			}
		}
		return
	}
	f := c.StaticCallee()
	if f != nil && k.fns[f] {
		for i, a := range args {
			if k.tainted[a] && i < len(f.Params) {
				k.add(f.Params[i])
			}
			// written through
			if i < len(f.Params) && k.tainted[f.Params[i]] && memoryType(a.Type()) {
				k.add(a)
			}
		}
		for i := range k.results[f] {
			k.result(x, i)
		}
		return
	}
	from := false
	for _, a := range args {
		from = from || k.is(a)
	}
	name := calleeName(c)
	if !from || publicOf(name) || k.clean != nil && k.clean(x) {
		return
	}
	res := c.Signature().Results()
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if isErrorType(t) && sinkName(c) == "" || isBoolType(t) || isKeyType(t) && k.byType {
			continue
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsNumeric != 0 {
			continue
		}
		k.result(x, i)
	}
	for _, a := range args {
		if mi, ok := a.(*ssa.MakeInterface); ok {
			a = mi.X
		}
		if memoryType(a.Type()) {
			k.add(a)
			k.add(rootAlloc(a))
		}
	}
}

func (k *keyFlow) result(x ssa.CallInstruction, i int) {
	v := x.Value()
	if v == nil {
		return
	}
	if _, ok := v.Type().(*types.Tuple); !ok {
		k.add(v)
		return
	}
	if k.tuples[v] == nil {
		k.tuples[v] = map[int]bool{}
	}
	if !k.tuples[v][i] {
		k.tuples[v][i] = true
		k.changed = true
	}
}

func rootSlice(v ssa.Value) ssa.Value {
	for {
		s, ok := v.(*ssa.Slice)
		if !ok {
			return rootAlloc(v)
		}
		v = s.X
	}
}

func newKeyFlow(P *Program, fns []*ssa.Function) *keyFlow {
	k := &keyFlow{P: P, fns: map[*ssa.Function]bool{}, order: fns, tainted: map[ssa.Value]bool{}, results: map[*ssa.Function]map[int]bool{}, tuples: map[ssa.Value]map[int]bool{}, fields: map[string]bool{}}
	for _, f := range fns {
		k.fns[f] = true
	}
	return k
}

func (k *keyFlow) solve() {
	for {
		k.changed = false
		for _, fn := range k.order {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					k.step(fn, in)
				}
			}
		}
		if !k.changed {
			return
		}
	}
}

// given tells whether an instruction gives out data of the flow, and how.
func (k *keyFlow) given(fn *ssa.Function, in ssa.Instruction) string {
	switch x := in.(type) {
	case *ssa.Panic:
		if k.is(x.X) {
			return "a panic"
		}
	case *ssa.Store:
		if !k.tainted[x.Val] {
			return ""
		}
		switch a := x.Addr.(type) {
		case *ssa.Global:
			return "the variable " + a.Name()
		case *ssa.FieldAddr:
			if n, ok := derefT(a.X.Type()).(*types.Named); ok {
				switch n.Obj().Name() {
				case "TxBuilder", "InputSupplement", "OutputSupplement", "MsgTx", "TxIn", "TxOut", "UTXO":
					return "the field " + fieldKey(a)
				}
			}
		}
	case *ssa.Send:
		if k.tainted[x.X] {
			return "a channel"
		}
	case *ssa.Return:
		if o := fn.Object(); o == nil || !o.Exported() || fn.Pkg == k.P.cmd {
			return ""
		}
		for _, v := range x.Results {
			if k.tainted[v] && !isKeyType(v.Type()) {
				return "the result of " + relName(fn)
			}
		}
	case ssa.CallInstruction:
		c := x.Common()
		name := sinkName(c)
		if name == "" {
			if b, ok := c.Value.(*ssa.Builtin); ok && strings.HasPrefix(b.Name(), "print") {
				name = b.Name()
			} else {
				return ""
			}
		}
		for i, a := range c.Args {
			if i == 0 && isSink(a.Type()) {
				continue
			}
			if k.is(a) {
				return name
			}
		}
	}
	return ""
}

// isSink recognises what is written to rather than written.
func isSink(t types.Type) bool { return memoryType(t) }

func ruleP28(r *Rep) {
	r.rule("key", "no private key, nor anything made of one but public keys, addresses, scripts, signatures and comparisons, reaches printing, logging, formatting, errors, writers, the transaction or an exported result")
	r.rule("text", "no text or bytes a key is decoded from reaches them either, except behind the failure of decoding it")
	var fns []*ssa.Function
	for _, p := range []*ssa.Package{r.P.lib, r.P.fees, r.P.cmd} {
		fns = append(fns, r.P.repoFuncs(p)...)
	}
	k := newKeyFlow(r.P, fns)
	k.byType = true
	k.solve()
	uses := 0
	for _, fn := range fns {
		r.fns[relName(fn)] = true
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				how := k.given(fn, in)
				if c, ok := in.(ssa.CallInstruction); ok {
					hasKey := false
					for _, a := range c.Common().Args {
						hasKey = hasKey || isKeyType(a.Type())
					}
					if !hasKey && sinkName(c.Common()) == "" {
						continue
					}
					uses++
				} else if how == "" {
					continue
				}
				r.check(how == "", "key", relName(fn), r.P.posOf(posNear(in)), "private key data reaches %s", how)
			}
		}
	}
	r.atLeast("key", 60)
	t := &textFlow{P: r.P, fns: fns, flags: r.P.flagFuncs(fns), dec: map[*ssa.Function]map[string]keyText{}, leak: map[string]string{}}
	t.decoders()
	for _, fn := range fns {
		for _, d := range t.sites[fn] {
			at, how := t.leaks(fn, d)
			pos := r.P.posOf(d.call.Pos())
			r.check(how == "", "text", relName(fn), pos, "the text of the key decoded here reaches %s at %s", how, at)
		}
	}
	r.atLeast("text", 3)
}

func posNear(in ssa.Instruction) token.Pos {
	if p := in.Pos(); p.IsValid() {
		return p
	}
	for _, x := range in.Block().Instrs {
		if x.Pos().IsValid() {
			return x.Pos()
		}
	}
	return in.Parent().Pos()
}

// keyText is the part of a value that a key is decoded from: the elements [lo,hi) of a list, or all of it.
type keyText struct {
	root   ssa.Value
	lo, hi int // hi < 0: without end
}

const noEnd = 1 << 30

// textPart tells which part of which value a value is, as far as lists are concerned.
func textPart(v ssa.Value) keyText {
	switch x := v.(type) {
	case *ssa.Slice:
		p := textPart(x.X)
		p.lo += lowest(x.Low, 0)
		return p
	case *ssa.UnOp:
		if x.Op != token.MUL {
			break
		}
		switch a := x.X.(type) {
		case *ssa.Global:
			return keyText{a, 0, noEnd}
		case *ssa.IndexAddr:
			p := textPart(a.X)
			lo := lowest(a.Index, 0)
			if c, ok := a.Index.(*ssa.Const); ok && c.Value != nil {
				i, _ := constant.Int64Val(c.Value)
				return keyText{p.root, p.lo + int(i), p.lo + int(i) + 1}
			}
			p.lo += lo
			return p
		}
	}
	return keyText{v, 0, noEnd}
}

// lowest is the lowest value an index can have.
func lowest(v ssa.Value, depth int) int {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil {
			i, _ := constant.Int64Val(x.Value)
			return int(i)
		}
	case *ssa.BinOp:
		if c, ok := x.Y.(*ssa.Const); ok && x.Op == token.ADD && c.Value != nil {
			if i, ok := constant.Int64Val(c.Value); ok && i > 0 {
				return lowest(x.X, depth) + int(i)
			}
		}
	case *ssa.Phi:
		if depth > 3 {
			return 0
		}
		low := noEnd
		for _, e := range x.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == ssa.Value(x) {
				if c, ok := b.Y.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) > 0 {
					continue
				}
			}
			if l := lowest(e, depth+1); l < low {
				low = l
			}
		}
		if low != noEnd {
			return low
		}
	}
	return 0
}

func (a keyText) meets(b keyText) bool {
	return a.root == b.root && a.lo < b.hi && b.lo < a.hi
}

type textSite struct {
	call ssa.CallInstruction
	text keyText
}

type textFlow struct {
	P     *Program
	fns   []*ssa.Function
	flags map[*ssa.Function]bool
	dec   map[*ssa.Function]map[string]keyText // parameters a function decodes a key from
	sites map[*ssa.Function][]textSite
	leak  map[string]string
}

// flagFuncs finds functions whose last result is a flag and which have no error result.
func (P *Program) flagFuncs(fns []*ssa.Function) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range fns {
		if n := f.Signature.Results().Len(); n > 0 && isBoolType(f.Signature.Results().At(n-1).Type()) {
			out[f] = true
		}
	}
	return out
}

// decoders finds the calls that decode keys, directly or in a function called with the text.
func (t *textFlow) decoders() {
	for again := true; again; {
		again = false
		t.sites = map[*ssa.Function][]textSite{}
		for _, fn := range t.fns {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					var texts []keyText
					if v := decodesKey(c.Common()); v != nil {
						texts = append(texts, textPart(stripText(v)))
					} else if f := c.Common().StaticCallee(); f != nil {
						for _, d := range t.dec[f] {
							for i, p := range f.Params {
								if p == d.root && i < len(c.Common().Args) {
									a := textPart(stripText(c.Common().Args[i]))
									hi := a.hi
									if d.hi != noEnd {
										hi = a.lo + d.hi
									}
									texts = append(texts, keyText{a.root, a.lo + d.lo, hi})
								}
							}
						}
					}
					for _, x := range texts {
						t.sites[fn] = append(t.sites[fn], textSite{c, x})
						if p, ok := x.root.(*ssa.Parameter); ok {
							key := fmt.Sprint(p.Name(), x.lo, x.hi)
							if t.dec[fn] == nil {
								t.dec[fn] = map[string]keyText{}
							}
							if _, ok := t.dec[fn][key]; !ok {
								t.dec[fn][key] = x
								again = true
							}
						}
					}
				}
			}
		}
	}
}

// stripText passes conversions and trimming of text.
func stripText(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.Call:
			if n := calleeName(&x.Call); strings.HasPrefix(n, "strings.Trim") {
				v = x.Call.Args[0]
				continue
			}
			return v
		default:
			return v
		}
	}
}

// leaks tells whether the text of a decoded key is given out in the function, other than behind the failure
// of decoding it.
func (t *textFlow) leaks(fn *ssa.Function, d textSite) (string, string) {
	ok := map[ssa.Instruction]bool{} // behind success
	i, bad := t.P.indicator(d.call.Common().Signature(), d.call.Common().StaticCallee(), t.flags)
	w := &errWalk{P: t.P, fn: fn, call: d.call, fail: bad.not(), index: i}
	w.onCall = func(c ssa.CallInstruction, e *errEnv) bool { ok[c] = true; return true }
	w.onReturn = func(ret *ssa.Return, e *errEnv) { ok[ret] = true }
	w.run()
	reach := reachBlocks(fn)
	before := func(in ssa.Instruction) bool {
		if reach[in.Block()][d.call.Block()] {
			return true
		}
		if in.Block() != d.call.Block() {
			return false
		}
		for _, x := range in.Block().Instrs {
			if x == in {
				return true
			}
			if x == ssa.Instruction(d.call) {
				return false
			}
		}
		return false
	}
	counts := func(in ssa.Instruction) bool { return ok[in] || before(in) }
	k := newKeyFlow(t.P, []*ssa.Function{fn})
	k.clean = func(c ssa.CallInstruction) bool {
		return c == d.call || !counts(c) || decodesKey(c.Common()) != nil
	}
	mark := func() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok && textType(v.Type()) && textPart(v).meets(d.text) {
					k.add(v)
				}
			}
		}
	}
	if p, ok := d.text.root.(*ssa.Parameter); ok && textPart(p).meets(d.text) && d.text.lo == 0 && d.text.hi == noEnd {
		k.add(p)
	} else if ok && textType(p.Type()) {
		k.add(p) // the list as a whole
	}
	mark()
	if _, ok := d.text.root.(*ssa.Global); !ok {
		k.add(d.text.root)
	}
	// elements of a list are marked above according to their index
	k.solveText(d.text)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, isCall := in.(ssa.CallInstruction)
			if !isCall {
				if _, isRet := in.(*ssa.Return); !isRet && k.given(fn, in) != "" {
					return t.P.posOf(posNear(in)), k.given(fn, in)
				}
				continue
			}
			if !counts(in) {
				continue
			}
			if how := k.given(fn, in); how != "" {
				return t.P.posOf(in.Pos()), how
			}
			f := c.Common().StaticCallee()
			if f == nil || c == d.call || f.Blocks == nil || !t.P.inRepo(f) {
				continue
			}
			for i, a := range c.Common().Args {
				if k.tainted[a] && i < len(f.Params) {
					if how := t.leaksParam(f, i); how != "" {
						return t.P.posOf(in.Pos()), how + " through " + relName(f)
					}
				}
			}
		}
	}
	return "", ""
}

func textType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsString != 0
	case *types.Slice:
		return true
	}
	return false
}

// solveText propagates text, taking elements and parts of the list it is in by their position.
func (k *keyFlow) solveText(text keyText) {
	for {
		k.changed = false
		for _, fn := range k.order {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Slice:
						if p := textPart(x); p.root == text.root && !p.meets(text) {
							continue
						}
					case *ssa.IndexAddr:
						if textPart(x.X).root == text.root {
							continue
						}
					case *ssa.UnOp:
						if p := textPart(x); p.root == text.root && !p.meets(text) {
							continue
						}
					}
					k.step(fn, in)
				}
			}
		}
		if !k.changed {
			return
		}
	}
}

// leaksParam tells whether a function gives out text passed to it.
func (t *textFlow) leaksParam(f *ssa.Function, i int) string {
	key := fmt.Sprint(fnName(f), i)
	if how, ok := t.leak[key]; ok {
		return how
	}
	t.leak[key] = ""
	for _, d := range t.dec[f] {
		if d.root == ssa.Value(f.Params[i]) {
			return "" // decided at its own decoding
		}
	}
	k := newKeyFlow(t.P, []*ssa.Function{f})
	k.add(f.Params[i])
	k.solve()
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Return); ok {
				continue
			}
			how := k.given(f, in)
			if c, ok := in.(ssa.CallInstruction); ok && how == "" {
				if g := c.Common().StaticCallee(); g != nil && g.Blocks != nil && t.P.inRepo(g) {
					for j, a := range c.Common().Args {
						if k.tainted[a] && j < len(g.Params) && how == "" {
							how = t.leaksParam(g, j)
						}
					}
				}
			}
			if how != "" {
				t.leak[key] = how
				return how
			}
		}
	}
	return ""
}
