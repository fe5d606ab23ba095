package main

// The program under verification: loading, package initialisation, package-level constants.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	repo      string
	prog      *ssa.Program
	fset      *token.FileSet
	specs     *Specs
	statics   map[int64]*static
	staticN   int
	repoPkgs  map[*ssa.Package]bool
	pkgs      []*ssa.Package
	pkgByName map[string]*ssa.Package
	pkgByPath map[string]*ssa.Package
	fns       map[string]*ssa.Function
	globIDs   map[string]int
	initHeap  map[string]*Term
	initDone  bool
	initErrs  []string
	mutable   map[*ssa.Global]bool
	stTypes   map[string]types.Type
	updMaps   map[string]bool // map types that code other than initialisation updates
}

func loadWorld(repo, specDir string) (*World, error) {
	C = newCtx()
	initConsts()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, sp := ssautil.Packages(ps, ssa.InstantiateGenerics)
	w := &World{repo: repo, prog: prog, fset: prog.Fset, statics: map[int64]*static{}, repoPkgs: map[*ssa.Package]bool{},
		pkgByName: map[string]*ssa.Package{}, pkgByPath: map[string]*ssa.Package{}, fns: map[string]*ssa.Function{},
		globIDs: map[string]int{}, mutable: map[*ssa.Global]bool{}, stTypes: map[string]types.Type{}, updMaps: map[string]bool{}}
	if p := prog.ImportedPackage("unicode"); p != nil {
		w.pkgByName["unicode"], w.pkgByPath["unicode"] = p, p
	}
	for _, p := range sp {
		p.Build()
		w.repoPkgs[p] = true
		w.pkgs = append(w.pkgs, p)
		w.pkgByPath[p.Pkg.Path()] = p
		if p.Pkg.Name() != "main" {
			w.pkgByName[p.Pkg.Name()] = p
		}
		for _, m := range p.Members {
			if t, ok := m.(*ssa.Type); ok {
				if _, ok := t.Type().Underlying().(*types.Struct); ok {
					w.stTypes["F:"+typeKey(t.Type())] = types.NewPointer(t.Type())
				}
			}
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		root := fn
		for root.Parent() != nil {
			root = root.Parent()
		}
		pk := root.Pkg
		if pk == nil && root.Origin() != nil {
			pk = root.Origin().Pkg
		}
		if pk == nil || !w.repoPkgs[pk] || fn.Synthetic != "" && fn.Name() != "init" {
			continue
		}
		if fn.Origin() != nil && fn.Origin() != fn {
			continue
		}
		if pk.Pkg.Name() == "main" {
			continue
		}
		w.fns[fnKey(fn)] = fn
		w.scanMut(fn)
	}
	w.specs = loadSpecs(specDir)
	w.runInits()
	return w, nil
}

// scanMut finds globals that anything but package initialisation may change.
func (w *World) scanMut(fn *ssa.Function) {
	isInit := fn.Name() == "init" && fn.Synthetic != "" || strings.HasPrefix(fn.Name(), "init#")
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if mu, ok := ins.(*ssa.MapUpdate); ok && !isInit {
				if _, local := mu.Map.(*ssa.MakeMap); !local {
					w.updMaps[typeKey(under(mu.Map.Type()))] = true
				}
			}
			if c, ok := ins.(*ssa.Call); ok && !isInit {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
					w.updMaps[typeKey(under(c.Call.Args[0].Type()))] = true
				}
			}
			for _, op := range ins.Operands(nil) {
				g, ok := (*op).(*ssa.Global)
				if !ok {
					continue
				}
				switch t := ins.(type) {
				case *ssa.UnOp:
					continue
				case *ssa.Store:
					if isInit && t.Addr == g {
						continue
					}
				case *ssa.FieldAddr:
					okUse := true
					for _, r := range *t.Referrers() {
						if u, isU := r.(*ssa.UnOp); !isU || u.Op != token.MUL {
							if s, isS := r.(*ssa.Store); !(isS && isInit && s.Addr == t) {
								okUse = false
							}
						}
					}
					if okUse {
						continue
					}
				case *ssa.DebugRef:
					continue
				}
				w.mutable[g] = true
			}
		}
	}
}

func (w *World) runInits() {
	heap := map[string]*Term{}
	var order []*ssa.Package
	done := map[*ssa.Package]bool{}
	var visit func(p *ssa.Package)
	visit = func(p *ssa.Package) {
		if done[p] {
			return
		}
		done[p] = true
		imps := p.Pkg.Imports()
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			if q := w.pkgByPath[i.Path()]; q != nil {
				visit(q)
			}
		}
		order = append(order, p)
	}
	for _, p := range w.pkgs {
		visit(p)
	}
	for _, p := range order {
		if p.Pkg.Name() == "main" {
			continue
		}
		fn := p.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		x := &Exec{w: w, fn: fn, initMode: true, called: map[string]bool{}, inlined: map[string]bool{}, modelsUsed: map[string]bool{}, survivors: map[string]map[string]bool{}, frameAny: map[string]bool{}, noInline: map[string]bool{}}
		st := x.dummy()
		for k, v := range heap {
			st.heap[k] = v
		}
		st.heap["G:"+p.Pkg.Name()+".init$guard"] = False
		compSorts["G:"+p.Pkg.Name()+".init$guard"] = SBool
		x.entry = st
		func() {
			defer func() {
				if r := recover(); r != nil {
					w.initErrs = append(w.initErrs, fmt.Sprintf("%s: %v", p.Pkg.Path(), r))
				}
			}()
			exits := x.runFn(fn, st)
			if len(exits) != 1 {
				w.initErrs = append(w.initErrs, fmt.Sprintf("%s: %d exits", p.Pkg.Path(), len(exits)))
				return
			}
			heap = exits[0].st.heap
		}()
	}
	w.initHeap = heap
	w.initDone = true
}

func (x *Exec) globalConst(g *ssa.Global, prefix string, t types.Type) (Val, bool) {
	if !x.w.initDone || x.w.mutable[g] || !x.w.repoPkgs[g.Pkg] {
		return Val{}, false
	}
	v := Val{T: t}
	for _, c := range flatten(t) {
		h, ok := x.w.initHeap[prefix+c.suffix]
		if !ok {
			h = zeroComp(c)
		}
		if !h.isConst() && h.Op != "real" {
			return Val{}, false
		}
		v.C = append(v.C, h)
	}
	if len(v.C) == 1 && v.C[0].Op == "int" {
		if s, ok := x.w.statics[v.C[0].Int.Int64()]; ok && s.isMap {
			if _, isM := under(t).(*types.Map); isM && !x.w.updMaps[typeKey(under(t))] {
				v.Elts = s.elts
			}
		}
	}
	return v, true
}

// staticRow resolves an object allocated during package initialisation to its initial row.
func (x *Exec) staticRow(name string, t *Term) *Term {
	if !x.w.initDone || x.initMode || t.Op != "select" {
		return t
	}
	a, i := t.Args[0], t.Args[1]
	if i.Op != "int" || i.Int.Sign() <= 0 || i.Int.Int64() > int64(x.w.staticN) || a.Op != "var" || a.Str != "H0:"+name {
		return t
	}
	h, ok := x.w.initHeap[name]
	if !ok {
		return t
	}
	return Select(h, i)
}

func (w *World) globID(k string) int {
	if id, ok := w.globIDs[k]; ok {
		return id
	}
	w.globIDs[k] = len(w.globIDs) + 1
	return len(w.globIDs)
}

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := w.fset.Position(p)
	r, err := filepath.Rel(w.repo, q.Filename)
	if err != nil {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// structType: "F:pkg.T.field" -> *pkg.T
func (w *World) structType(prefix string) types.Type {
	i := strings.LastIndexByte(prefix, '.')
	if i < 0 {
		return nil
	}
	if t, ok := w.stTypes[prefix[:i]]; ok {
		return t
	}
	return nil
}

func initConsts() {
	A0 = newBase("A0")
	withRange(A0, bigZero, nil)
	SS = A0
}
