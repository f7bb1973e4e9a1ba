package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/netascode/xmldot"

// Program is the type-checked, SSA-built library under analysis.
type Program struct {
	Dir   string
	Fset  *token.FileSet
	Prog  *ssa.Program
	Root  *ssa.Package   // package xmldot
	Lib   []*ssa.Package // library packages of the module (no main packages)
	Funcs []*ssa.Function
	inLib map[*ssa.Package]bool

	callers map[*ssa.Function][]ssa.CallInstruction // static call sites in the library
	addrTkn map[*ssa.Function]bool                  // used as a value somewhere
	pos     map[*ssa.Function]*funcInfo
	entries []*ssa.Function
	prover  *prover
	immut   map[string]bool
	priv    map[*ssa.Alloc]bool
	rec     map[*ssa.Function]bool
}

type loadError struct{ msgs []string }

func (e *loadError) Error() string { return strings.Join(e.msgs, "\n") }

func load(dir string) (*Program, error) {
	fset := token.NewFileSet()
	env := append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "GOFLAGS=-mod=readonly")
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Fset: fset,
		Env:  env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var le loadError
	for _, p := range pkgs {
		for _, e := range p.Errors {
			le.msgs = append(le.msgs, e.Error())
		}
		for _, e := range p.TypeErrors {
			le.msgs = append(le.msgs, e.Error())
		}
	}
	if len(le.msgs) > 0 {
		return nil, &le
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{Dir: dir, Fset: fset, Prog: prog, inLib: map[*ssa.Package]bool{}, callers: map[*ssa.Function][]ssa.CallInstruction{}, addrTkn: map[*ssa.Function]bool{}}
	for i, sp := range spkgs {
		if sp == nil || pkgs[i].Name == "main" {
			continue
		}
		if sp.Pkg.Path() != modPath && !strings.HasPrefix(sp.Pkg.Path(), modPath+"/") {
			continue
		}
		p.Lib = append(p.Lib, sp)
		p.inLib[sp] = true
		if sp.Pkg.Path() == modPath {
			p.Root = sp
		}
	}
	if p.Root == nil {
		return nil, fmt.Errorf("package %s not found under %s", modPath, dir)
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if p.InLib(f) && f.Blocks != nil {
			p.Funcs = append(p.Funcs, f)
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool {
		a, b := p.Funcs[i], p.Funcs[j]
		// files are parsed in no fixed order
		x, y := prog.Fset.Position(a.Pos()), prog.Fset.Position(b.Pos())
		if x.Filename != y.Filename {
			return x.Filename < y.Filename
		}
		if x.Offset != y.Offset {
			return x.Offset < y.Offset
		}
		return a.String() < b.String()
	})
	for _, f := range p.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var callVal ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					if cal := c.Common().StaticCallee(); cal != nil {
						p.callers[cal] = append(p.callers[cal], c)
						callVal = c.Common().Value
					}
				}
				for _, op := range in.Operands(nil) {
					if fn, ok := (*op).(*ssa.Function); ok && *op != callVal {
						p.addrTkn[fn] = true
					}
				}
			}
		}
	}
	p.entries = p.findEntries()
	return p, nil
}

// InLib reports whether f is a function of the library under analysis.
func (p *Program) InLib(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return p.inLib[g.Pkg]
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return p.inLib[o.Pkg]
		}
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		pp := f.Object().Pkg().Path()
		return pp == modPath || strings.HasPrefix(pp, modPath+"/")
	}
	return false
}

func isInternalPkg(path string) bool { return strings.Contains(path, "/internal/") }

// findEntries returns every function a user of the library can call: exported
// functions, exported methods of exported types, and methods of unexported
// types that satisfy an exported interface of the package.
func (p *Program) findEntries() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Blocks != nil && !seen[f] && f.Synthetic == "" {
			seen[f] = true
			out = append(out, f)
		}
	}
	for _, sp := range p.Lib {
		if isInternalPkg(sp.Pkg.Path()) {
			continue
		}
		var ifaces []*types.Interface
		for _, m := range sp.Members {
			if t, ok := m.(*ssa.Type); ok && token.IsExported(t.Name()) {
				if it, ok := t.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
					ifaces = append(ifaces, it)
				}
			}
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if token.IsExported(m.Name()) {
					add(m)
				}
			case *ssa.Type:
				T := m.Type()
				if _, isI := T.Underlying().(*types.Interface); isI {
					continue
				}
				for _, tt := range []types.Type{T, types.NewPointer(T)} {
					ms := p.Prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						sel := ms.At(i)
						name := sel.Obj().Name()
						if !token.IsExported(name) {
							continue
						}
						ok := token.IsExported(m.Name())
						if !ok {
							for _, it := range ifaces {
								if types.Implements(tt, it) {
									for j := 0; j < it.NumMethods(); j++ {
										if it.Method(j).Name() == name {
											ok = true
										}
									}
								}
							}
							if name == "Error" || name == "String" || name == "Unwrap" || name == "Is" || name == "As" {
								ok = true
							}
						}
						if ok {
							add(p.Prog.MethodValue(sel))
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (p *Program) isEntry(f *ssa.Function) bool {
	for _, e := range p.entries {
		if e == f {
			return true
		}
	}
	return false
}

// Func finds a package-level function of the root package by its public name.
func (p *Program) Func(name string) *ssa.Function { return p.Root.Func(name) }

// Global finds a package-level variable of the root package.
func (p *Program) Global(name string) *ssa.Global {
	g, _ := p.Root.Members[name].(*ssa.Global)
	return g
}

// Pos renders a position relative to the analysed tree.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	f := ps.Filename
	if r, err := filepath.Rel(p.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// At renders the position of an instruction, falling back to nearby ones.
func (p *Program) At(in ssa.Instruction) string {
	if in == nil {
		return "-"
	}
	if in.Pos().IsValid() {
		return p.Pos(in.Pos())
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && (*op).Pos().IsValid() {
			if oi, ok := (*op).(ssa.Instruction); ok && oi.Parent() == in.Parent() {
				return p.Pos((*op).Pos())
			}
		}
	}
	if b := in.Block(); b != nil {
		for _, i2 := range b.Instrs {
			if i2.Pos().IsValid() {
				return p.Pos(i2.Pos())
			}
		}
	}
	if in.Parent() != nil {
		return p.Pos(in.Parent().Pos())
	}
	return "-"
}

func fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.TrimPrefix(f.RelString(nil), modPath+".")
}

// shortName gives a name relative to the root package.
func (p *Program) shortName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return f.RelString(p.Root.Pkg)
}
