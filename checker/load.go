package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	root     string
	mod      string
	fset     *token.FileSet
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // by import path
	lpkgs    []*packages.Package
	deadPhis map[*ssa.Phi]bool
	natLoops map[*ssa.BasicBlock]map[int]bool
	immut    map[string]bool // struct type.field never changed after construction
	globImm  map[*ssa.Global]bool
	initHeap map[*Term]*Term
	initMaps map[*Term]*mapState
	initOuts map[string][]Outcome
	funcs    []*ssa.Function
}

func load(root string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: root,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range ps {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type checking failed: %s", strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(ps, 0)
	prog.Build()
	a := &Program{root: root, prog: prog, pkgs: map[string]*ssa.Package{}, lpkgs: ps, deadPhis: map[*ssa.Phi]bool{}, natLoops: map[*ssa.BasicBlock]map[int]bool{},
		immut: map[string]bool{}, globImm: map[*ssa.Global]bool{}, fset: prog.Fset}
	for i, p := range sp {
		if p == nil {
			continue
		}
		a.pkgs[ps[i].PkgPath] = p
		if ps[i].Module != nil && a.mod == "" {
			a.mod = ps[i].Module.Path
		}
	}
	if a.mod == "" {
		return nil, fmt.Errorf("no module found in %s", root)
	}
	for fn := range ssautil.AllFunctions(prog) {
		if len(fn.Blocks) > 0 && a.inRepo(fn) {
			a.funcs = append(a.funcs, fn)
		}
	}
	sort.Slice(a.funcs, func(i, j int) bool { return a.funcs[i].String() < a.funcs[j].String() })
	a.findCanonical()
	a.findImmutable()
	a.runInits()
	return a, nil
}

func (a *Program) inRepo(fn *ssa.Function) bool {
	p := fn.Package()
	if p == nil && fn.Parent() != nil {
		return a.inRepo(fn.Parent())
	}
	if p == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return a.isRepoPath(o.Pkg().Path())
		}
		return false
	}
	return a.isRepoPath(p.Pkg.Path())
}
func (a *Program) isRepoPath(p string) bool {
	return p == a.mod || strings.HasPrefix(p, a.mod+"/")
}
func (a *Program) pkg(rel string) *ssa.Package {
	p := a.mod
	if rel != "" {
		p += "/" + rel
	}
	return a.pkgs[p]
}
func (a *Program) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := a.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(a.root, f); err == nil {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// repoStruct: struct types of the repository are split into their fields;
// those of other packages are atoms.
func (a *Program) repoStruct(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		s, _ := t.Underlying().(*types.Struct)
		if _, isNamed := types.Unalias(t).(*types.Named); isNamed {
			return nil
		}
		return s
	}
	if n.Obj().Pkg() == nil || !a.isRepoPath(n.Obj().Pkg().Path()) {
		return nil
	}
	s, _ := n.Underlying().(*types.Struct)
	return s
}

func fieldKey(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s := t.Underlying().(*types.Struct)
	return types.TypeString(t, nil) + "." + fname(s.Field(i))
}

// findImmutable computes the fields that are only written while the object is
// being constructed (through a local allocation of the same function), and the
// package variables that are only written by initialisers.
func (a *Program) findImmutable() {
	mutable := map[string]bool{}
	all := map[string]bool{}
	gmut := map[*ssa.Global]bool{}
	var gall []*ssa.Global
	for _, p := range a.pkgs {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				gall = append(gall, g)
			}
		}
	}
	var escapes func(v ssa.Value, depth int) bool // address used for anything but reading
	escapes = func(v ssa.Value, depth int) bool {
		if depth > 8 || v.Referrers() == nil {
			return true
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.UnOp:
				if x.Op != token.MUL {
					return true
				}
			case *ssa.FieldAddr:
				if escapes(x, depth+1) {
					return true
				}
			case *ssa.IndexAddr:
				if escapes(x, depth+1) {
					return true
				}
			case *ssa.DebugRef:
			case *ssa.Call:
				// reading through the sync/atomic load functions
				if f := x.Call.StaticCallee(); f != nil && strings.HasPrefix(f.String(), "sync/atomic.Load") {
					continue
				}
				return true
			default:
				return true
			}
		}
		return false
	}
	for _, fn := range a.funcs {
		isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") || (fn.Parent() != nil && strings.HasPrefix(fn.Parent().Name(), "init#"))
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					k := fieldKey(fa.X.Type(), fa.Field)
					all[k] = true
					if _, local := fa.X.(*ssa.Alloc); local {
						continue
					}
					if escapes(fa, 0) {
						mutable[k] = true
					}
				}
				if !isInit {
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok {
							switch x := ins.(type) {
							case *ssa.UnOp:
							case *ssa.FieldAddr:
								if escapes(x, 0) {
									gmut[g] = true
								}
							case *ssa.IndexAddr:
								if escapes(x, 0) {
									gmut[g] = true
								}
							default:
								_ = x
								gmut[g] = true
							}
						}
					}
				}
			}
		}
	}
	for k := range all {
		a.immut[k] = !mutable[k]
	}
	for _, g := range gall {
		a.globImm[g] = !gmut[g]
		if !gmut[g] && isErrType(g.Type().(*types.Pointer).Elem()) {
			sentinelGlobals[g.String()] = true
		}
	}
}

// runInits interprets the package initialisers, so that the contents of
// package variables are known.
func (a *Program) runInits() {
	a.initHeap = map[*Term]*Term{}
	a.initMaps = map[*Term]*mapState{}
	a.initOuts = map[string][]Outcome{}
	var order []string
	seen := map[string]bool{}
	var visit func(p *packages.Package)
	visit = func(p *packages.Package) {
		if seen[p.PkgPath] || !a.isRepoPath(p.PkgPath) {
			return
		}
		seen[p.PkgPath] = true
		for _, i := range p.Imports {
			visit(i)
		}
		order = append(order, p.PkgPath)
	}
	for _, p := range a.lpkgs {
		visit(p)
	}
	for _, path := range order {
		p := a.pkgs[path]
		if p == nil {
			continue
		}
		fn := p.Func("init")
		en := newEngine(a)
		en.noInit = true
		en.single = true
		st := newState()
		for k, v := range a.initHeap {
			st.heap.m[k] = v
		}
		for k, v := range a.initMaps {
			st.maps.m[k] = v
		}
		outs := en.exec(en.frame(nil, fn, nil, ""), nil, nil, st)
		a.initOuts[path] = outs
		var best *State
		for _, o := range outs {
			if !o.panic {
				best = o.st
			}
		}
		if best == nil {
			continue
		}
		for k, v := range best.heap.m {
			a.initHeap[k] = v
		}
		for k, v := range best.maps.m {
			a.initMaps[k] = v
		}
	}
}
