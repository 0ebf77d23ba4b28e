package main

// Loading and naming of the analysed program.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Redundancy/go-sync"

type Prog struct {
	fset        *token.FileSet
	prog        *ssa.Program
	pkgs        map[string]*ssa.Package
	tpkgs       map[string]*packages.Package
	all         []*ssa.Function // module functions with a body, sorted
	assertTypes []types.Type
	globInit    map[*ssa.Global]ssa.Value
	loadErrs    []string
}

func loadProg(dir string, conf ...buildConfig) *Prog {
	p := &Prog{pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*packages.Package{}, globInit: map[*ssa.Global]ssa.Value{}}
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOSUMDB=off")}
	for _, c := range conf {
		cfg.Env = append(cfg.Env, "GOOS="+c.goos, "GOARCH="+c.goarch)
		if c.tags != "" {
			cfg.BuildFlags = []string{"-tags=" + c.tags}
		}
	}
	pk, err := packages.Load(cfg, "./...")
	if err != nil {
		p.loadErrs = append(p.loadErrs, err.Error())
		return p
	}
	for _, q := range pk {
		for _, e := range q.Errors {
			p.loadErrs = append(p.loadErrs, e.Error())
		}
		p.tpkgs[q.PkgPath] = q
		p.fset = q.Fset
	}
	if len(pk) == 0 {
		p.loadErrs = append(p.loadErrs, "no packages")
	}
	if len(p.loadErrs) > 0 {
		return p
	}
	prog, sp := ssautil.Packages(pk, ssa.BuilderMode(0))
	prog.Build()
	p.prog = prog
	for _, s := range sp {
		if s != nil {
			p.pkgs[s.Pkg.Path()] = s
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks != nil && p.inModule(f) {
			p.all = append(p.all, f)
		}
	}
	sort.Slice(p.all, func(i, k int) bool {
		if p.all[i].Pos() != p.all[k].Pos() {
			return p.all[i].Pos() < p.all[k].Pos()
		}
		return p.all[i].String() < p.all[k].String()
	})
	seen := map[string]bool{}
	stores := map[*ssa.Global][]ssa.Value{}
	for _, f := range p.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.TypeAssert:
					k := typeKey(in.AssertedType)
					if !seen[k] {
						seen[k] = true
						p.assertTypes = append(p.assertTypes, in.AssertedType)
					}
				case *ssa.Store:
					if g, ok := in.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], in.Val)
					}
				}
			}
		}
	}
	for g, vs := range stores {
		if len(vs) == 1 {
			if f, ok := vs[0].(*ssa.Function); ok {
				p.globInit[g] = f
			}
		}
	}
	sort.Slice(p.assertTypes, func(i, k int) bool { return typeKey(p.assertTypes[i]) < typeKey(p.assertTypes[k]) })
	return p
}

func (p *Prog) inModule(f *ssa.Function) bool {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Pkg != nil {
		return isModPkg(g.Pkg.Pkg.Path())
	}
	// synthetic wrappers of module types
	return strings.Contains(f.String(), modPath)
}

func isModPkg(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

// fn finds a package level function or method of the module:
// fn("comparer", "Comparer", "StartFindMatchingBlocks") or fn("chunks", "", "LoadChecksumsFromReader").
func (p *Prog) fn(pkg, typ, name string) *ssa.Function {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	sp := p.pkgs[path]
	if sp == nil {
		return nil
	}
	if typ == "" {
		return sp.Func(name)
	}
	t := sp.Type(typ)
	if t == nil {
		return nil
	}
	for _, T := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := p.prog.MethodSets.MethodSet(T)
		if s := ms.Lookup(sp.Pkg, name); s != nil {
			return p.prog.MethodValue(s)
		}
	}
	return nil
}

func (p *Prog) namedType(pkg, name string) types.Type {
	path := modPath
	if pkg != "" {
		path += "/" + pkg
	}
	sp := p.pkgs[path]
	if sp == nil {
		return nil
	}
	if t := sp.Type(name); t != nil {
		return t.Type()
	}
	return nil
}

// global returns the address term of a package variable (any package).
func (p *Prog) global(path, name string) *Term {
	sp := p.pkgs[path]
	if sp == nil {
		sp = p.prog.ImportedPackage(path)
	}
	if sp == nil {
		return nil
	}
	if g, ok := sp.Members[name].(*ssa.Global); ok {
		return mkGlob(g)
	}
	return nil
}

// sentinel is the value of an error variable.
func (p *Prog) sentinel(path, name string) *Term {
	g := p.global(path, name)
	if g == nil {
		return mkSym("newerr:"+path+"."+name, errorType)
	}
	return mkLoad(g, 0, errorType)
}

// must find the anchor of a rule.
func (r *Report) anchor(pkg, typ, name string) *ssa.Function {
	f := r.p.fn(pkg, typ, name)
	if f == nil || f.Blocks == nil {
		r.fail("anchor", pkg+"."+typ+"."+name, "", "the function %s.%s %s that this rule is about does not exist", pkg, typ, name)
		return nil
	}
	return f
}

func shortFn(f *ssa.Function) string {
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, modPath+"/", "")
	return strings.ReplaceAll(s, modPath, "gosync")
}

func posOf(p *Prog, pos token.Pos) string {
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}
