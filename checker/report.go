package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Finding is one obligation that does not hold, identified by the rule and the construct.
type Finding struct {
	Rule      string `json:"rule"`
	Construct string `json:"construct"`
	Pos       string `json:"pos"`
	Detail    string `json:"detail"`
}

func (f Finding) key() string { return f.Rule + "@" + f.Construct }

// Rep collects what a check analysed and what it found.
type Rep struct {
	successOnly bool // comparisons with a reference allow more errors than it has
	P           *Program
	prop        string
	obs         int
	done        int
	byRule      map[string]int
	finds       []Finding
	seen        map[string]bool
	fns         map[string]bool
	counts      map[string]int
	samples     []string
	rules       map[string]string
	cache       map[string]*Analysis
}

func newRep(P *Program, prop string) *Rep {
	return &Rep{P: P, prop: prop, byRule: map[string]int{}, seen: map[string]bool{}, fns: map[string]bool{}, counts: map[string]int{}, rules: map[string]string{}, cache: map[string]*Analysis{}}
}

// rule declares what a rule requires, for the evidence.
func (r *Rep) rule(name, text string) { r.rules[name] = text }

// check records one obligation.
func (r *Rep) check(ok bool, rule, construct, pos, detail string, args ...interface{}) bool {
	r.obs++
	r.byRule[rule]++
	if ok {
		r.done++
		if len(r.samples) < 12 {
			r.samples = append(r.samples, rule+" "+construct+" at "+pos)
		}
		return true
	}
	f := Finding{rule, construct, pos, fmt.Sprintf(detail, args...)}
	if k := f.key() + f.Pos; !r.seen[k] {
		r.seen[k] = true
		r.finds = append(r.finds, f)
	}
	return false
}

// atLeast guards against rules that have lost what they look at.
func (r *Rep) atLeast(rule string, n int) {
	if r.byRule[rule] < n {
		r.check(false, rule, "coverage", "-", "the rule found %d instances, at least %d are expected: the code it looks at was not recognised", r.byRule[rule], n)
	}
}

// analysis analyses a function once per configuration.
func (r *Rep) analysis(fn string, cfg string, setup func(in *Interp, st *State, args []*Term)) *Analysis {
	key := fn + "|" + cfg
	if a, ok := r.cache[key]; ok {
		return a
	}
	f := r.P.lookup(fn)
	if f == nil {
		r.check(false, "anchor", fn, "-", "the function is gone")
		r.cache[key] = nil
		return nil
	}
	t := time.Now()
	a := r.P.analyse(f, setup)
	if os.Getenv("VERIF_V") != "" {
		fmt.Fprintf(os.Stderr, "%s %.2fs rets=%d lossy=%v unsup=%v\n", key, time.Since(t).Seconds(), len(a.rets), keys(a.in.lossy), keys(a.in.unsup))
	}
	r.note(a)
	r.cache[key] = a
	return a
}

func (r *Rep) note(a *Analysis) {
	r.fns[shortFn(a.fn)] = true
	in := a.in
	r.counts["blocks_evaluated"] += in.nBlocks
	r.counts["joins"] += in.nJoins
	r.counts["calls_inlined"] += in.nInline
	r.counts["loops_solved"] += in.nLoops
	r.counts["returns"] += len(a.rets)
	r.counts["events"] += len(a.events)
	r.counts["functions_analysed"] = len(r.fns)
	for k := range in.lossy {
		r.counts["imprecise:"+k]++
	}
	for k := range in.unsup {
		r.counts["unsupported:"+k]++
	}
}

func (P *Program) lookup(name string) *ssaFn {
	switch {
	case strings.HasPrefix(name, "fees."):
		return P.fn(P.fees, name[5:])
	case strings.HasPrefix(name, "cmd."):
		return P.fn(P.cmd, name[4:])
	}
	return P.fn(P.lib, name)
}

type known struct{ prop, key, text string }

func loadKnown(path string) ([]known, error) {
	f, err := os.Open(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		p := strings.SplitN(strings.TrimSpace(l[6:]), " ", 3)
		if len(p) < 3 || !strings.HasPrefix(p[0], "property=") || !strings.HasPrefix(p[1], "key=") {
			return nil, fmt.Errorf("bad known-findings line: %s", l)
		}
		out = append(out, known{p[0][9:], p[1][4:], p[2]})
	}
	return out, sc.Err()
}

// finish writes the evidence, prints the result and returns the exit code.
func (r *Rep) finish(root, tier string, start time.Time) int {
	ks, err := loadKnown(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		r.check(false, "known-findings", "file", "-", "%v", err)
	}
	var viol []Finding
	knownHit := map[string]bool{}
	for _, f := range r.finds {
		hit := false
		for _, k := range ks {
			if k.prop == r.prop && k.key == f.key() {
				hit = true
				if !knownHit[k.key] {
					knownHit[k.key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", r.prop, k.text, f.key(), f.Pos)
				}
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var fns []string
	for f := range r.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	meta := metaOf(r.prop)
	cov := map[string]interface{}{
		"explanation":            meta.explain,
		"rules":                  r.rules,
		"obligations":            r.obs,
		"obligations_discharged": r.done,
		"obligations_by_rule":    r.byRule,
		"functions":              fns,
		"measured":               r.counts,
		"packages_loaded":        len(r.P.pkgs),
		"source_files":           r.P.files,
		"samples":                r.samples,
	}
	ev := map[string]interface{}{
		"property": r.prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "assumptions": meta.assume,
	}
	if len(viol) > 0 {
		ev["violations"] = viol
	}
	dir := filepath.Join(root, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := writeJSON(filepath.Join(dir, r.prop+".json"), ev); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s: %d functions analysed, %d obligations, %d discharged, %d findings (%d known), %.1fs\n",
		r.prop, len(fns), r.obs, r.done, len(r.finds), len(knownHit), time.Since(start).Seconds())
	if len(viol) == 0 {
		return 0
	}
	rp := filepath.Join(dir, r.prop+".violation.txt")
	var b strings.Builder
	fmt.Fprintf(&b, "property %s\nreplay: %s %s\n\n", r.prop, filepath.Join(root, "run.sh"), r.prop)
	for _, f := range viol {
		fmt.Fprintf(&b, "%s: rule %s, construct %s\n    %s\n    (%s)\n", f.Pos, f.Rule, f.Construct, f.Detail, r.rules[f.Rule])
		fmt.Printf("  %s: %s [%s]: %s\n", f.Pos, f.Rule, f.Construct, cutStr(f.Detail, 600))
	}
	os.WriteFile(rp, []byte(b.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, rp)
	return 1
}

func cutStr(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return strings.ToValidUTF8(s[:n], "") + "…"
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}
