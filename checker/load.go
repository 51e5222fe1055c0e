package main

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RepoPath is the import path of the analysed repository.
const RepoPath = "github.com/ryanbressler/CloudForest"

// Prog is the type-checked program with its SSA form.
type Prog struct {
	safe    map[string]bool
	callers map[*ssa.Function][]*ssa.Function
	Dir     string
	Fset    *token.FileSet
	Pkgs    map[string]*types.Package // by import path
	Files   map[string][]*ast.File
	Infos   map[string]*types.Info
	SSA     *ssa.Program
	SPkgs   map[string]*ssa.Package
	Funcs   []*ssa.Function // every function, method and closure of the repository, sorted

	eff   map[*ssa.Function]effects
	mr    *modref
	gi    *guardInfo
	chaM  map[string][]*ssa.Function
	addrT map[string][]*ssa.Function
}

type repoImporter struct {
	p    *Prog
	std  types.ImporterFrom
	busy map[string]bool
	bctx *build.Context
}

func (im *repoImporter) Import(path string) (*types.Package, error) {
	return im.ImportFrom(path, im.p.Dir, 0)
}

func (im *repoImporter) ImportFrom(path, dir string, mode types.ImportMode) (*types.Package, error) {
	if path == RepoPath || strings.HasPrefix(path, RepoPath+"/") {
		return im.load(path)
	}
	return im.std.ImportFrom(path, dir, mode)
}

func (im *repoImporter) load(path string) (*types.Package, error) {
	if pk := im.p.Pkgs[path]; pk != nil {
		return pk, nil
	}
	if im.busy[path] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	im.busy[path] = true
	dir := filepath.Join(im.p.Dir, strings.TrimPrefix(strings.TrimPrefix(path, RepoPath), "/"))
	bp, err := im.bctx.ImportDir(dir, 0)
	if err != nil {
		return nil, err
	}
	var files []*ast.File
	for _, fn := range bp.GoFiles {
		f, err := parser.ParseFile(im.p.Fset, filepath.Join(dir, fn), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Implicits: map[ast.Node]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{}, FileVersions: map[*ast.File]string{},
	}
	conf := types.Config{Importer: im, Sizes: types.SizesFor("gc", "amd64")}
	pk, err := conf.Check(path, im.p.Fset, files, info)
	if err != nil {
		return nil, err
	}
	im.p.Pkgs[path] = pk
	im.p.Files[path] = files
	im.p.Infos[path] = info
	return pk, nil
}

// Load parses and type-checks every package of the repository and builds its SSA form.
func Load(dir string) (*Prog, error) {
	bctx := build.Default
	bctx.CgoEnabled = false
	bctx.GOOS, bctx.GOARCH = "linux", "amd64"
	build.Default.CgoEnabled = false
	p := &Prog{Dir: dir, Fset: token.NewFileSet(), Pkgs: map[string]*types.Package{}, Files: map[string][]*ast.File{},
		Infos: map[string]*types.Info{}, SPkgs: map[string]*ssa.Package{}, eff: map[*ssa.Function]effects{}}
	im := &repoImporter{p: p, busy: map[string]bool{}, bctx: &bctx}
	im.std = importer.ForCompiler(p.Fset, "source", nil).(types.ImporterFrom)

	var paths []string
	err := filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() {
			b := filepath.Base(path)
			if path != dir && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			bp, err := bctx.ImportDir(path, 0)
			if err == nil && len(bp.GoFiles) > 0 {
				rel, _ := filepath.Rel(dir, path)
				ip := RepoPath
				if rel != "." {
					ip += "/" + filepath.ToSlash(rel)
				}
				paths = append(paths, ip)
			} else if err != nil {
				if _, ok := err.(*build.NoGoError); !ok {
					return fmt.Errorf("%s: %v", path, err)
				}
			}
		}
		return nil
	})
	if err != nil {
		return nil, err
	}
	for _, ip := range paths {
		if _, err := im.load(ip); err != nil {
			return nil, err
		}
	}
	p.SSA = ssa.NewProgram(p.Fset, ssa.InstantiateGenerics)
	seen := map[*types.Package]bool{}
	var create func(pk *types.Package)
	create = func(pk *types.Package) {
		if seen[pk] {
			return
		}
		seen[pk] = true
		for _, i := range pk.Imports() {
			create(i)
		}
		if p.Pkgs[pk.Path()] == pk {
			p.SPkgs[pk.Path()] = p.SSA.CreatePackage(pk, p.Files[pk.Path()], p.Infos[pk.Path()], true)
		} else {
			p.SSA.CreatePackage(pk, nil, nil, true)
		}
	}
	for _, ip := range paths {
		create(p.Pkgs[ip])
	}
	for _, ip := range paths {
		p.SPkgs[ip].Build()
	}
	p.collect()
	return p, nil
}

func (p *Prog) collect() {
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, sp := range p.SPkgs {
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Synthetic == "" || m.Name() == "init" {
					add(m)
				}
			case *ssa.Type:
				t := m.Type()
				if types.IsInterface(t) {
					continue
				}
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					ms := types.NewMethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := p.SSA.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].Pos() < p.Funcs[j].Pos() })
}

// FuncName names a function the way the reports do: pkg.Func or pkg.(*T).Method.
func FuncName(f *ssa.Function) string {
	s := f.String()
	s = strings.ReplaceAll(s, RepoPath+"/", "")
	s = strings.ReplaceAll(s, RepoPath+".", "")
	return s
}

// Fn resolves a package function ("growforest", "main") of the repository; pkg "" is the root package.
func (p *Prog) Fn(pkg, name string) *ssa.Function {
	ip := RepoPath
	if pkg != "" {
		ip += "/" + pkg
	}
	sp := p.SPkgs[ip]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Named resolves a named type of the root package.
func (p *Prog) Named(name string) *types.Named {
	pk := p.Pkgs[RepoPath]
	if pk == nil {
		return nil
	}
	o := pk.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Method resolves the method of *T (root package), including promoted ones when promoted is set.
func (p *Prog) Method(typ, name string) *ssa.Function {
	n := p.Named(typ)
	if n == nil {
		return nil
	}
	ms := types.NewMethodSet(types.NewPointer(n))
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			f := p.SSA.MethodValue(ms.At(i))
			if f != nil && f.Synthetic != "" {
				return nil
			}
			return f
		}
	}
	return nil
}

// Pos renders a position relative to the repository.
func (p *Prog) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	r, err := filepath.Rel(p.Dir, ps.Filename)
	if err != nil {
		r = ps.Filename
	}
	return fmt.Sprintf("%s:%d", r, ps.Line)
}
