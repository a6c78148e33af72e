package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/ericlagergren/decimal"

// Program is the SSA form of the packages under verification, built from the
// source files in the working tree.
type Program struct {
	fset  *token.FileSet
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // import path -> package with bodies
	tpkgs map[string]*types.Package
	funcs map[string]*ssa.Function // "decimal.Context.Add", "arith.Length"
	names map[*ssa.Function]string
	files int
	lines int
	gl    *globalInfo
}

type srcImporter struct {
	std  types.ImporterFrom
	load func(path string) (*types.Package, error)
}

func (s *srcImporter) Import(path string) (*types.Package, error) {
	return s.ImportFrom(path, "", 0)
}
func (s *srcImporter) ImportFrom(path, dir string, mode types.ImportMode) (*types.Package, error) {
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		return s.load(path)
	}
	return s.std.ImportFrom(path, dir, mode)
}

func loadProgram(repo string, roots []string) (*Program, error) {
	build.Default.CgoEnabled = false
	fset := token.NewFileSet()
	p := &Program{fset: fset, pkgs: map[string]*ssa.Package{}, tpkgs: map[string]*types.Package{},
		funcs: map[string]*ssa.Function{}, names: map[*ssa.Function]string{}}
	p.prog = ssa.NewProgram(fset, ssa.NaiveForm|ssa.InstantiateGenerics)
	type loaded struct {
		pkg   *types.Package
		files []*ast.File
		info  *types.Info
	}
	done := map[string]*loaded{}
	var order []string
	imp := &srcImporter{std: importer.ForCompiler(fset, "source", nil).(types.ImporterFrom)}
	imp.load = func(path string) (*types.Package, error) {
		if l := done[path]; l != nil {
			return l.pkg, nil
		}
		dir := filepath.Join(repo, strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/"))
		bp, err := build.Default.ImportDir(dir, 0)
		if err != nil {
			return nil, err
		}
		var files []*ast.File
		names := append([]string(nil), bp.GoFiles...)
		sort.Strings(names)
		for _, n := range names {
			fn := filepath.Join(dir, n)
			src, err := os.ReadFile(fn)
			if err != nil {
				return nil, err
			}
			p.lines += strings.Count(string(src), "\n")
			p.files++
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			files = append(files, f)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
			Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{}}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), GoVersion: "go1.16"}
		pkg, err := conf.Check(path, fset, files, info)
		if err != nil {
			return nil, err
		}
		done[path] = &loaded{pkg, files, info}
		order = append(order, path)
		return pkg, nil
	}
	for _, r := range roots {
		if _, err := imp.load(r); err != nil {
			return nil, err
		}
	}
	// create stdlib packages without bodies
	seen := map[*types.Package]bool{}
	var mk func(*types.Package)
	mk = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, i := range t.Imports() {
			mk(i)
		}
		if done[t.Path()] == nil {
			p.prog.CreatePackage(t, nil, nil, true)
		}
	}
	for _, path := range order {
		for _, i := range done[path].pkg.Imports() {
			if done[i.Path()] == nil {
				mk(i)
			}
		}
	}
	for _, path := range order {
		l := done[path]
		sp := p.prog.CreatePackage(l.pkg, l.files, l.info, true)
		p.pkgs[path] = sp
		p.tpkgs[path] = l.pkg
	}
	for _, path := range order {
		p.pkgs[path].Build()
	}
	for _, path := range order {
		sp := p.pkgs[path]
		short := sp.Pkg.Name()
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				p.addFn(short+"."+m.Name(), m)
			case *ssa.Type:
				n, ok := m.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					f := p.prog.FuncValue(n.Method(i))
					if f != nil {
						p.addFn(short+"."+n.Obj().Name()+"."+f.Name(), f)
					}
				}
			}
		}
	}
	return p, nil
}

func (p *Program) addFn(name string, f *ssa.Function) {
	p.funcs[name] = f
	p.names[f] = name
}

func (p *Program) name(f *ssa.Function) string {
	if n, ok := p.names[f]; ok {
		return n
	}
	return f.String()
}

func (p *Program) pos(pos token.Pos) string {
	q := p.fset.Position(pos)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, "/repo/"), q.Line)
}
