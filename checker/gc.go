package main

import "strings"

// Unreachable objects are dropped from the state when the function or the iteration that created them
// ends, so that scratch buffers do not become part of the loop and join summaries.

func objectAux(t *Term) string {
	r := rootOf(t)
	if r.op == "alloc" || r.op == "back" {
		return r.aux
	}
	return ""
}

// gc removes candidate objects that are not reachable from the roots or from other memory.
func (in *Interp) gc(st *State, roots []*Term, cand func(o *Term) bool) {
	isCand := map[string]bool{}
	seenCand := map[*Term]bool{}
	candOf := func(t *Term) string {
		r := rootOf(t)
		if r.op != "alloc" && r.op != "back" {
			return ""
		}
		if !seenCand[r] {
			seenCand[r] = true
			if cand(r) {
				isCand[r.aux] = true
			}
		}
		if isCand[r.aux] {
			return r.aux
		}
		return ""
	}
	pending := map[string][]*Term{}
	var work []*Term
	item := func(key *Term, terms ...*Term) {
		if c := candOf(key); c != "" {
			pending[c] = append(pending[c], terms...)
		} else {
			work = append(work, key)
			work = append(work, terms...)
		}
	}
	// candidates first
	vis := map[*Term]bool{}
	var scan func(v *Term, f func(addr *Term, rest ...*Term))
	scan = func(v *Term, f func(addr *Term, rest ...*Term)) {
		if vis[v] {
			return
		}
		vis[v] = true
		switch v.op {
		case "ite":
			scan(v.args[1], f)
			scan(v.args[2], f)
		case "st":
			scan(v.args[0], f)
			f(v.args[1], v.args[2])
		case "lst":
			scan(v.args[0], f)
			f(v.args[3], v.args[2], v.args[4])
		case "lvp":
			scan(v.args[0], f)
			for _, a := range v.args[2:] {
				f(a)
			}
		}
	}
	any := false
	for _, v := range st.mem {
		scan(v, func(a *Term, _ ...*Term) { any = candOf(a) != "" || any })
	}
	for k := range st.cont {
		any = candOf(k) != "" || any
	}
	for _, f := range st.fams {
		any = candOf(f.pat) != "" || any
	}
	if !any {
		return
	}
	vis = map[*Term]bool{}
	for _, v := range st.mem {
		scan(v, func(a *Term, rest ...*Term) { item(a, rest...) })
	}
	for k, v := range st.cont {
		item(k, v)
	}
	for _, f := range st.fams {
		item(f.pat, f.cont)
	}
	work = append(work, roots...)
	live := map[string]bool{}
	seen := map[*Term]bool{}
	for len(work) > 0 {
		t := work[len(work)-1]
		work = work[:len(work)-1]
		if t == nil || seen[t] {
			continue
		}
		seen[t] = true
		if (t.op == "alloc" || t.op == "back") && isCand[t.aux] && !live[t.aux] {
			live[t.aux] = true
			work = append(work, pending[t.aux]...)
		}
		work = append(work, t.args...)
		if t.lin != nil {
			work = append(work, t.lin.atoms...)
		}
	}
	dead := func(t *Term) bool {
		c := candOf(t)
		return c != "" && !live[c]
	}
	for k := range st.cont {
		if dead(k) {
			delete(st.cont, k)
		}
	}
	for s, f := range st.fams {
		if dead(f.pat) {
			delete(st.fams, s)
		}
	}
	memo := map[*Term]*Term{}
	var prune func(v *Term) *Term
	prune = func(v *Term) *Term {
		if r, ok := memo[v]; ok {
			return r
		}
		r := v
		switch v.op {
		case "ite":
			h, l := prune(v.args[1]), prune(v.args[2])
			if h != v.args[1] || l != v.args[2] {
				r = mkITE(asBool(v.args[0]), h, l)
			}
		case "st":
			p := prune(v.args[0])
			switch {
			case dead(v.args[1]):
				r = p
			case p != v.args[0]:
				r = mkStore(p, v.args[1], v.args[2])
			}
		case "lst":
			p := prune(v.args[0])
			switch {
			case dead(v.args[3]):
				r = p
			case p != v.args[0]:
				r = mkLst(p, v.args[1], v.args[2], v.args[3], v.args[4])
			}
		}
		memo[v] = r
		return r
	}
	for c, v := range st.mem {
		st.mem[c] = prune(v)
	}
}

// gcCall drops what a finished call leaves unreachable.
func (in *Interp) gcCall(st *State, vals []*Term, ctx string) {
	in.gc(st, vals, func(o *Term) bool { return strings.HasPrefix(o.aux, ctx+"@") })
}
