package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Analysis is the result of analysing one function from a generic entry state.
type Analysis struct {
	fn     *ssa.Function
	args   []*Term
	entry  *State
	rets   []Ret
	events []*Event
	recs   []*LoopRec
	in     *Interp
}

func paramTerm(i int, p *ssa.Parameter) *Term {
	return mkTyped("param", "arg"+string(rune('0'+i))+":"+types.TypeString(p.Type(), func(p *types.Package) string { return p.Name() }), p.Type())
}

// fieldAddrByName resolves a field address by its name.
func fieldAddrByName(base *Term, styp types.Type, name string) (*Term, types.Type) {
	s, ok := styp.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return mkFieldAddr(base, styp, i), s.Field(i).Type()
		}
	}
	return nil, nil
}

// at reads a chain of fields of an object, following pointers.
func (in *Interp) at(st *State, base *Term, path ...string) *Term {
	t := base
	typ := derefT(base.typ)
	for i, f := range path {
		if i > 0 {
			typ = derefT(typ)
		}
		a, ft := fieldAddrByName(t, typ, f)
		if a == nil {
			return nil
		}
		if _, inner := ft.Underlying().(*types.Struct); inner && i+1 < len(path) {
			t, typ = a, ft
			continue
		}
		t = in.load(st, a, ft)
		typ = ft
	}
	return t
}

func isTxBuilderPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := p.Elem().(*types.Named)
	return ok && n.Obj().Name() == "TxBuilder" && theProgram.lib != nil && n.Obj().Pkg() == theProgram.lib.Pkg
}

// analyse evaluates a function with unknown arguments. Builders handed to it are well formed: the
// supplement lists are as long as the lists of the transaction.
func (P *Program) analyse(fn *ssa.Function, setup func(in *Interp, st *State, args []*Term)) *Analysis {
	in := newInterp(P)
	st := newState()
	var args []*Term
	for i, p := range fn.Params {
		a := paramTerm(i, p)
		args = append(args, a)
		if isTxBuilderPtr(p.Type()) {
			st.facts = st.facts.assume(mkNot(mkIsNil(a)))
			for _, pr := range [][2]string{{"Inputs", "TxIn"}, {"Outputs", "TxOut"}} {
				s := in.at(st, a, pr[0])
				w := in.at(st, a, "MsgTx", pr[1])
				if s != nil && w != nil {
					lenAlias[s] = w
				}
			}
			if m := in.at(st, a, "MsgTx"); m != nil {
				st.facts = st.facts.assume(mkNot(mkIsNil(m)))
			}
		}
	}
	if setup != nil {
		setup(in, st, args)
	}
	an := &Analysis{fn: fn, args: args, in: in, entry: st.clone()}
	an.rets = in.run(fn, st, args)
	an.events = in.events
	an.recs = in.recs
	return an
}
