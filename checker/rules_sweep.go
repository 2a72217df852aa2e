package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// P19: funding in sweep mode. The paths of a funding function on which the builder sends the maximum are
// followed by an automaton with three flags: d an element of the list is due to be added, x the list is
// exhausted, f the fee has been calculated since the last input was added.

type sweep struct {
	r    *Rep
	memo map[string]*sweepResult
}

type sweepResult struct {
	bad  string // what is wrong, and where
	at   string
	ends map[string]bool // states at returns that may be without error
	adds int
}

func isUTXOs(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(derefT(s.Elem()), "UTXO")
}

func isSendMax(v ssa.Value) bool {
	l, ok := v.(*ssa.UnOp)
	if !ok || l.Op != token.MUL {
		return false
	}
	f, ok := l.X.(*ssa.FieldAddr)
	return ok && strings.HasSuffix(fieldKey(f), "TxBuilder.SendMax")
}

// resolve looks through variables that are stored to once.
func resolve(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		case *ssa.UnOp:
			a, ok := x.X.(*ssa.Alloc)
			if !ok || x.Op != token.MUL {
				return v
			}
			s := onlyStore(a)
			if s == nil {
				return v
			}
			v = s
		case *ssa.Alloc:
			s := onlyStore(x)
			if s == nil {
				return v
			}
			v = s
		default:
			return v
		}
	}
}

func onlyStore(a *ssa.Alloc) ssa.Value {
	var val ssa.Value
	for _, u := range *a.Referrers() {
		if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
			if val != nil {
				return nil
			}
			val = s.Val
		}
	}
	return val
}

// elementOf gives the index at which a value is taken from the list.
func elementOf(v, list ssa.Value) ssa.Value {
	v = resolve(v)
	// a field of the element
	if f, ok := v.(*ssa.Field); ok {
		return elementOf(f.X, list)
	}
	if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
		if f, ok := l.X.(*ssa.FieldAddr); ok {
			return elementOf(f.X, list)
		}
	}
	if a, ok := v.(*ssa.IndexAddr); ok && resolve(a.X) == list {
		return a.Index
	}
	if l, ok := v.(*ssa.UnOp); ok && l.Op == token.MUL {
		if a, ok := l.X.(*ssa.IndexAddr); ok && resolve(a.X) == list {
			return a.Index
		}
	}
	return nil
}

func isLenOf(v, list ssa.Value) bool {
	c, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	return ok && b.Name() == "len" && resolve(c.Call.Args[0]) == list
}

func isIntConst(v ssa.Value, n int64) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value != nil && c.Int64() == n
}

// countsUp tells whether an index takes the values 0, 1, 2 and so on at the test it is compared in.
func countsUp(v ssa.Value) bool {
	step := func(v ssa.Value) *ssa.Phi {
		b, ok := v.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || !isIntConst(b.Y, 1) {
			return nil
		}
		p, _ := b.X.(*ssa.Phi)
		return p
	}
	from := int64(0)
	p, ok := v.(*ssa.Phi)
	if !ok {
		p = step(v) // a range loop counts before it tests
		from = -1
	}
	if p == nil {
		return false
	}
	starts := 0
	for _, e := range p.Edges {
		switch {
		case isIntConst(e, from):
			starts++
		case from == -1 && e == v:
		case from == 0 && step(e) == p:
		default:
			return false
		}
	}
	return starts == 1
}

// listTest tells what a test says about a position and the end of a list: "due" where it is inside, "end"
// where the list is exhausted, "" where it says nothing.
func listTest(c ssa.Value, taken bool, list ssa.Value) (string, ssa.Value) {
	if u, ok := c.(*ssa.UnOp); ok && u.Op == token.NOT {
		return listTest(u.X, !taken, list)
	}
	b, ok := c.(*ssa.BinOp)
	if !ok {
		return "", nil
	}
	x, y, op := b.X, b.Y, b.Op
	if isLenOf(x, list) {
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !isLenOf(y, list) {
		return "", nil
	}
	if isIntConst(x, 0) || isIntConst(x, 1) {
		zero := isIntConst(x, 0)
		empty := zero && (op == token.EQL || op == token.GEQ) || !zero && op == token.GTR
		some := zero && (op == token.NEQ || op == token.LSS) || !zero && op == token.LEQ
		if empty && taken || some && !taken {
			return "end", nil
		}
		return "", nil
	}
	if !countsUp(x) {
		return "", nil
	}
	inside := op == token.LSS || op == token.NEQ
	if inside || op == token.GEQ || op == token.EQL {
		if inside == taken {
			return "due", x
		}
		return "end", nil
	}
	return "", nil
}

// follow evaluates a function for one list, with flags known to be set or not.
func (s *sweep) follow(fn *ssa.Function, list *ssa.Parameter, known map[*ssa.Parameter]knowledge) *sweepResult {
	key := fnName(fn) + "/" + list.Name()
	for _, p := range fn.Params {
		key += string(rune('0' + int(known[p])))
	}
	if r, ok := s.memo[key]; ok {
		return r
	}
	res := &sweepResult{ends: map[string]bool{}}
	s.memo[key] = res
	P := s.r.P
	bad := func(at ssa.Instruction, what string) {
		if res.bad == "" {
			res.bad, res.at = what, P.posOf(posNear(at))
		}
	}
	w := &errWalk{P: P, fn: fn}
	w.pin = func(v ssa.Value) knowledge {
		if isSendMax(v) {
			return isSome
		}
		return isAny
	}
	var due ssa.Value
	w.onBranch = func(x *ssa.If, taken bool, e *errEnv) bool {
		what, idx := listTest(x.Cond, taken, list)
		switch what {
		case "due":
			if strings.Contains(e.state, "x") {
				return false
			}
			if strings.Contains(e.state, "d") {
				bad(x, "an element of the list is passed over without being added")
			}
			due = idx
			e.state = "d"
		case "end":
			if strings.Contains(e.state, "d") {
				bad(x, "an element of the list is passed over without being added")
			}
			e.state = "x"
		}
		return true
	}
	w.onCall = func(c ssa.CallInstruction, e *errEnv) bool {
		f := c.Common().StaticCallee()
		if f == nil || !P.inRepo(f) {
			return true
		}
		for i, a := range c.Common().Args {
			if i >= len(f.Params) {
				break
			}
			if resolve(a) == ssa.Value(list) {
				known := map[*ssa.Parameter]knowledge{}
				for j, b := range c.Common().Args {
					if j < len(f.Params) && isBoolType(b.Type()) {
						known[f.Params[j]] = e.of(b)
					}
				}
				if !addsInputs(P, f) {
					continue
				}
				sub := s.follow(f, f.Params[i], known)
				if sub.bad != "" && res.bad == "" {
					res.bad, res.at = sub.bad, sub.at
				}
				res.adds += sub.adds
				all, fee := len(sub.ends) > 0, true
				for st := range sub.ends {
					all = all && strings.Contains(st, "x")
					fee = fee && strings.Contains(st, "f")
				}
				if all {
					e.state = "x"
				}
				if all && fee {
					e.state = "xf"
				}
				return true
			}
			if idx := elementOf(a, list); idx != nil && addsInputs(P, f) {
				res.adds++
				if due == nil || sameIndex(idx, due) {
					e.state = strings.NewReplacer("d", "", "f", "").Replace(e.state)
				}
				return true
			}
		}
		if strings.Contains(e.state, "x") && P.reaches(f, func(g *ssa.Function) bool { return isFeeStep(g) }) {
			e.state = "xf"
		}
		return true
	}
	w.onReturn = func(ret *ssa.Return, e *errEnv) {
		n := len(ret.Results)
		if n > 0 && isErrorType(ret.Results[n-1].Type()) && e.of(ret.Results[n-1]) == isSome {
			return
		}
		if strings.Contains(e.state, "d") {
			bad(ret, "returns with an element of the list not added")
		}
		res.ends[e.state] = true
		if !strings.Contains(e.state, "x") {
			bad(ret, "returns before every element of the list was added")
		}
	}
	e := &errEnv{map[ssa.Value]knowledge{}, map[string]bool{}, ""}
	for p, k := range known {
		e.val[p] = k
	}
	w.through(e)
	return res
}

func sameIndex(a, b ssa.Value) bool { return a == b }

func isFeeStep(f *ssa.Function) bool { return f.Name() == "AdjustFee" || f.Name() == "CalculateFee" }

// addsInputs tells whether a function can add to the inputs of a builder.
func addsInputs(P *Program, f *ssa.Function) bool {
	return P.reaches(f, func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if a, ok := s.Addr.(*ssa.FieldAddr); ok && strings.HasSuffix(fieldKey(a), "MsgTx.TxIn") {
						return true
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(c.Common()), "MsgTx).AddTxIn") {
					return true
				}
			}
		}
		return false
	})
}

func ruleP19(r *Rep) {
	r.rule("all", "on every path on which the builder sends the maximum, each element of the given list is given to an operation that adds it as input, and no return without error comes before the end of the list")
	r.rule("fee", "on these paths the fee is calculated after the last input was added")
	s := &sweep{r: r, memo: map[string]*sweepResult{}}
	for _, fn := range r.P.exported(r.P.lib) {
		if r.P.isSpec(fn) || len(fn.Params) == 0 || !isTxBuilderPtr(fn.Params[0].Type()) || !addsInputs(r.P, fn) {
			continue
		}
		for _, p := range fn.Params {
			if !isUTXOs(p.Type()) {
				continue
			}
			r.fns[relName(fn)] = true
			res := s.follow(fn, p, nil)
			pos := r.P.posOf(fn.Pos())
			if res.at != "" {
				pos = res.at
			}
			r.check(res.bad == "" && res.adds > 0, "all", relName(fn), pos, "%s", res.bad)
			fee := len(res.ends) > 0
			for st := range res.ends {
				fee = fee && strings.Contains(st, "f")
			}
			r.check(fee, "fee", relName(fn), r.P.posOf(fn.Pos()), "returns without error and without calculating the fee after the last input")
		}
	}
	r.atLeast("all", 2)
}
