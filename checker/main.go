package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"
)

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func env(name, def string) string {
	if v := os.Getenv(name); v != "" {
		return v
	}
	return def
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(6 << 30)
	dir := env("VERIF_REPO", "/repo")
	root := env("VERIF_ROOT", "/verif")
	if len(os.Args) < 2 {
		fmt.Println("usage: checker <property> | dump <function> | all")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump", "all":
		P, err := loadProgram(dir)
		if err != nil {
			fmt.Println("load:", err)
			os.Exit(2)
		}
		theProgram = P
		debugMain(P, os.Args[1:])
		return
	}
	code := 0
	for _, prop := range os.Args[1:] {
		if c := checkProp(prop, dir, root); c != 0 {
			code = c
		}
	}
	os.Exit(code)
}

var loaded *Program

// checkProp decides one property; anything that keeps it from deciding is reported as a violation.
func checkProp(prop, dir, root string) (code int) {
	start := time.Now()
	meta, ok := props[prop]
	if !ok {
		fmt.Println("unknown property", prop)
		return 2
	}
	tier := env("VERIF_TIER", "quick")
	P := loaded
	if P == nil {
		var err error
		if P, err = loadProgram(dir); err != nil {
			r := newRep(&Program{}, prop)
			r.rule("load", "the repository type-checks")
			r.check(false, "load", "repository", "-", "%v", err)
			return r.finish(root, tier, start)
		}
		theProgram, loaded = P, P
	}
	r := newRep(P, prop)
	defer func() {
		if e := recover(); e != nil {
			r.rule("analysis", "the analysis completes")
			r.check(false, "analysis", "engine", "-", "the analysis failed: %v\n%s", e, debug.Stack())
			code = r.finish(root, tier, start)
		}
	}()
	// an analysis that does not end in time has not decided the property
	late := time.AfterFunc(timeAllowed, func() {
		l := newRep(P, prop)
		l.rule("analysis", "the analysis completes within its time")
		l.check(false, "analysis", "engine", "-", "the analysis did not end within %v", timeAllowed)
		os.Exit(l.finish(root, tier, start))
	})
	defer late.Stop()
	meta.rule(r)
	return r.finish(root, tier, start)
}

// timeAllowed bounds one check.
const timeAllowed = 800 * time.Second
