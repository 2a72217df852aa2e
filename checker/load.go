package main

import (
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Reference functions that implementations are compared with. They are added to the packages in memory
// only, and use nothing of the repository but its exported types.
//
//go:embed spec/lib.go.txt
var specLib string

//go:embed spec/fees.go.txt
var specFees string

// Program is the type-checked repository and its SSA form.
type Program struct {
	dir   string
	mod   string
	pkgs  []*packages.Package
	ssa   *ssa.Program
	byID  map[string]*ssa.Function // full name -> function
	repo  map[string]bool          // package paths of the repository
	lib   *ssa.Package
	fees  *ssa.Package
	cmd   *ssa.Package
	names map[*ssa.Function]string
	loops map[*ssa.Function]*loopInfo
	files int

	varint   map[*ssa.Function]bool
	deadline time.Time // of the analysis under way, if it has one
}

func loadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:   dir,
		Tests: false,
		Env:   append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GO111MODULE=on", "CGO_ENABLED=0"),
	}
	cfg.Overlay = map[string][]byte{
		filepath.Join(dir, "zz_verif_spec.go"):         []byte(specLib),
		filepath.Join(dir, "fees", "zz_verif_spec.go"): []byte(specFees),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{dir: dir, pkgs: pkgs, ssa: prog, byID: map[string]*ssa.Function{}, repo: map[string]bool{}, varint: map[*ssa.Function]bool{},
		names: map[*ssa.Function]string{}, loops: map[*ssa.Function]*loopInfo{}}
	for i, p := range pkgs {
		P.repo[p.PkgPath] = true
		P.files += len(p.CompiledGoFiles)
		if p.Module != nil {
			P.mod = p.Module.Path
		}
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
	}
	prog.Build()
	for i, p := range pkgs {
		switch {
		case p.PkgPath == P.mod:
			P.lib = spkgs[i]
		case strings.HasSuffix(p.PkgPath, "/fees"):
			P.fees = spkgs[i]
		case p.Name == "main":
			P.cmd = spkgs[i]
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil || fn.Signature.Recv() != nil {
			P.byID[fnName(fn)] = fn
		}
	}
	return P, nil
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

// pkgOf returns the package path a function belongs to.
func pkgOf(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	if fn.Parent() != nil {
		return pkgOf(fn.Parent())
	}
	return ""
}

func (P *Program) inRepo(fn *ssa.Function) bool { return P.repo[pkgOf(fn)] }

// repoFuncs lists all source functions and methods of a package in a stable order.
func (P *Program) repoFuncs(pkg *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	if pkg == nil {
		return nil
	}
	for fn := range ssautil.AllFunctions(P.ssa) {
		if fn.Synthetic != "" || fn.Blocks == nil || P.isSpec(fn) {
			continue
		}
		if pkgOf(fn) == pkg.Pkg.Path() {
			out = append(out, fn)
		}
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := P.ssa.Fset.Position(out[i].Pos()), P.ssa.Fset.Position(out[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		if a.Offset != b.Offset {
			return a.Offset < b.Offset
		}
		return fnName(out[i]) < fnName(out[j])
	})
	return out
}

// fn finds a package function or a method ("(*T).M" / "T.M") of the library by name.
func (P *Program) fn(pkg *ssa.Package, name string) *ssa.Function {
	if pkg == nil {
		return nil
	}
	if i := strings.Index(name, "."); i >= 0 {
		tn := pkg.Type(name[:i])
		if tn == nil {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := P.ssa.MethodSets.MethodSet(t)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == name[i+1:] {
					f := P.ssa.MethodValue(ms.At(k))
					if f != nil && f.Synthetic == "" {
						return f
					}
				}
			}
		}
		return nil
	}
	return pkg.Func(name)
}

func (P *Program) pos(fn *ssa.Function, instr ssa.Instruction) string {
	if instr != nil && instr.Pos().IsValid() {
		return P.posOf(instr.Pos())
	}
	return P.posOf(fn.Pos())
}

func (P *Program) posOf(pos token.Pos) string {
	p := P.ssa.Fset.Position(pos)
	f := p.Filename
	if r, err := filepath.Rel(P.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// atomicStruct reports struct types handled as one opaque value.
func atomicStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok := t.(*types.Alias); ok {
			return atomicStruct(types.Unalias(a))
		}
		return false
	}
	if n.Obj().Pkg() == nil {
		return false
	}
	p := n.Obj().Pkg().Path()
	if theProgram != nil && theProgram.repo[p] {
		return false
	}
	switch p {
	case "github.com/tokenized/pkg/wire":
		return false
	case "github.com/tokenized/pkg/bitcoin":
		switch n.Obj().Name() {
		case "UTXO", "ScriptItem":
			return false
		}
	}
	return true
}

var theProgram *Program

// ---- loops ----

type loop struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	reads  []string
	liveIn []ssa.Value
	parent *loop
	nondet bool
}

type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*loop
	list     []*loop
	inner    map[*ssa.BasicBlock]*loop
	rpo      []*ssa.BasicBlock
}

func (P *Program) loopsOf(fn *ssa.Function) *loopInfo {
	if li, ok := P.loops[fn]; ok {
		return li
	}
	li := &loopInfo{byHeader: map[*ssa.BasicBlock]*loop{}}
	P.loops[fn] = li
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if !s.Dominates(b) {
				continue
			}
			l := li.byHeader[s]
			if l == nil {
				l = &loop{header: s, body: map[*ssa.BasicBlock]bool{s: true}}
				li.byHeader[s] = l
				li.list = append(li.list, l)
			}
			stack := []*ssa.BasicBlock{b}
			for len(stack) > 0 {
				x := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.body[x] {
					continue
				}
				l.body[x] = true
				stack = append(stack, x.Preds...)
			}
		}
	}
	// nesting: the innermost loop of a block is the smallest one containing it
	li.inner = map[*ssa.BasicBlock]*loop{}
	li.rpo = rpo(fn)
	for _, b := range fn.Blocks {
		for _, l := range li.list {
			if l.body[b] && (li.inner[b] == nil || len(l.body) < len(li.inner[b].body)) {
				li.inner[b] = l
			}
		}
	}
	for _, l := range li.list {
		for _, m := range li.list {
			if m != l && m.body[l.header] && len(m.body) > len(l.body) && (l.parent == nil || len(m.body) < len(l.parent.body)) {
				l.parent = m
			}
		}
	}
	for _, l := range li.list {
		set := map[string]bool{}
		seen := map[*ssa.Function]bool{fn: true}
		defined := map[ssa.Value]bool{}
		for b := range l.body {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					defined[v] = true
				}
			}
		}
		live := map[ssa.Value]bool{}
		for _, b := range fn.Blocks {
			if !l.body[b] {
				continue
			}
			if P.readClasses(b.Instrs, set, seen) {
				l.nondet = true
			}
			for _, in := range b.Instrs {
				if _, isPhi := in.(*ssa.Phi); isPhi && b == l.header {
					continue
				}
				var ops [16]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if *o == nil {
						continue
					}
					switch v := (*o).(type) {
					case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
					default:
						if !defined[v] && !live[v] {
							live[v] = true
							l.liveIn = append(l.liveIn, v)
						}
					}
				}
			}
		}
		for c := range set {
			l.reads = append(l.reads, c)
		}
		sort.Strings(l.reads)
	}
	return li
}

// readClasses lists the memory classes code may read; it reports calls with nondeterministic results.
func (P *Program) readClasses(instrs []ssa.Instruction, set map[string]bool, seen map[*ssa.Function]bool) bool {
	nondet := false
	for _, in := range instrs {
		switch v := in.(type) {
		case *ssa.FieldAddr:
			st := derefT(v.X.Type())
			set[fmt.Sprintf("%s#%d", structKey(st), v.Field)] = true
		case *ssa.UnOp:
			for _, c := range reachClasses(v.Type()) {
				if _, ok := v.Type().Underlying().(*types.Struct); ok {
					set[c] = true
				}
			}
		case ssa.CallInstruction:
			f := v.Common().StaticCallee()
			if f == nil {
				continue
			}
			if nondetCall(fnName(f)) {
				nondet = true
			}
			if f.Blocks != nil && !seen[f] && (P.inRepo(f) || inlineList[fnName(f)]) {
				seen[f] = true
				for _, b := range f.Blocks {
					if P.readClasses(b.Instrs, set, seen) {
						nondet = true
					}
				}
			}
		}
	}
	return nondet
}

// isSpec reports whether a function is part of the reference code added for the analysis.
func (P *Program) isSpec(fn *ssa.Function) bool {
	return strings.Contains(P.ssa.Fset.Position(fn.Pos()).Filename, "zz_verif_")
}
