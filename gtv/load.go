package main

// Loading and type-checking the Go packages of /repo, with the reference
// functions of a property parsed into the package they speak about.

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/phil-mansfield/gotetra"

type Pkg struct {
	Path  string // import path
	Dir   string // relative to the repository
	Name  string
	Files []*ast.File
	Names []string
	Types *types.Package
	Info  *types.Info
	SSA   *ssa.Package
	Spec  map[*ast.File]bool
}

type Loader struct {
	Repo    string
	SpecDir string
	Prop    string // property whose reference functions are loaded
	Fset    *token.FileSet
	Pkgs    map[string]*Pkg // by import path (scripts: by path#file)
	std     types.Importer
	ctx     build.Context
	Prog    *ssa.Program
	loading map[string]bool
	stubs   map[string]*types.Package
	goVer   string
	errs    []string
	order   []*Pkg
}

func NewLoader(repo, specDir, prop string) *Loader {
	l := &Loader{Repo: repo, SpecDir: specDir, Prop: prop, Fset: token.NewFileSet(),
		Pkgs: map[string]*Pkg{}, loading: map[string]bool{}, stubs: map[string]*types.Package{}}
	build.Default.CgoEnabled = false
	l.ctx = build.Default
	l.ctx.CgoEnabled = false
	l.std = importer.ForCompiler(l.Fset, "source", nil)
	l.goVer = "go1.16"
	if b, err := os.ReadFile(filepath.Join(repo, "go.mod")); err == nil {
		for _, ln := range strings.Split(string(b), "\n") {
			f := strings.Fields(ln)
			if len(f) == 2 && f[0] == "go" {
				l.goVer = "go" + f[1]
			}
		}
	}
	return l
}

var stubSrc = map[string]string{
	"code.google.com/p/gcfg": `package gcfg
func ReadFileInto(config interface{}, filename string) error { return nil }
func ReadStringInto(config interface{}, str string) error { return nil }
`,
	"gopkg.in/gcfg.v1": `package gcfg
func ReadFileInto(config interface{}, filename string) error { return nil }
func ReadStringInto(config interface{}, str string) error { return nil }
`,
	"github.com/phil-mansfield/table": `package table
func ReadTable(fname string, colIdxs []int, hd interface{}) ([][]float64, error) { return nil, nil }
`,
}

func (l *Loader) Import(path string) (*types.Package, error) {
	if path == "unsafe" {
		return types.Unsafe, nil
	}
	if strings.HasPrefix(path, modPath) {
		p, err := l.load(path, nil)
		if err != nil {
			return nil, err
		}
		return p.Types, nil
	}
	if strings.Contains(strings.SplitN(path, "/", 2)[0], ".") {
		if p, ok := l.stubs[path]; ok {
			return p, nil
		}
		src, ok := stubSrc[path]
		if !ok {
			return nil, fmt.Errorf("no stand-in for external package %s", path)
		}
		f, err := parser.ParseFile(l.Fset, path+"/stub.go", src, 0)
		if err != nil {
			return nil, err
		}
		p, err := (&types.Config{Importer: l}).Check(path, l.Fset, []*ast.File{f}, nil)
		if err != nil {
			return nil, err
		}
		l.stubs[path] = p
		return p, nil
	}
	return l.std.Import(path)
}

// load type-checks a package; files restricts it to the named files.
func (l *Loader) load(path string, files []string) (*Pkg, error) {
	key := path
	if files != nil {
		key += "#" + strings.Join(files, ",")
	}
	if p, ok := l.Pkgs[key]; ok {
		return p, nil
	}
	if l.loading[key] {
		return nil, fmt.Errorf("import cycle through %s", path)
	}
	l.loading[key] = true
	rel := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	dir := filepath.Join(l.Repo, rel)
	if files == nil {
		bp, err := l.ctx.ImportDir(dir, 0)
		if err != nil {
			return nil, err
		}
		files = append([]string(nil), bp.GoFiles...)
		sort.Strings(files)
	}
	p := &Pkg{Path: path, Dir: rel, Spec: map[*ast.File]bool{}}
	for _, f := range files {
		af, err := parser.ParseFile(l.Fset, filepath.Join(dir, f), nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		p.Files = append(p.Files, af)
		p.Names = append(p.Names, filepath.Join(rel, f))
		p.Name = af.Name.Name
	}
	if l.Prop != "" {
		specs, _ := filepath.Glob(filepath.Join(l.SpecDir, rel, l.Prop+"*.go"))
		sort.Strings(specs)
		for _, s := range specs {
			af, err := parser.ParseFile(l.Fset, s, nil, parser.ParseComments|parser.SkipObjectResolution)
			if err != nil {
				return nil, err
			}
			p.Files = append(p.Files, af)
			p.Spec[af] = true
		}
	}
	p.Info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
		Uses: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{},
		Instances: map[*ast.Ident]types.Instance{},
	}
	var first error
	cfg := &types.Config{Importer: l, GoVersion: l.goVer, Error: func(err error) {
		if te, ok := err.(types.Error); ok && te.Soft && strings.Contains(te.Msg, "declared and not used") {
			// kept: the compiler rejects it too
		}
		if first == nil {
			first = err
		}
	}}
	tp, _ := cfg.Check(path, l.Fset, p.Files, p.Info)
	if first != nil {
		return nil, fmt.Errorf("type-check of %s failed: %v", path, first)
	}
	p.Types = tp
	l.Pkgs[key] = p
	l.order = append(l.order, p)
	delete(l.loading, key)
	return p, nil
}

// buildSSA makes the SSA form of every loaded package.
func (l *Loader) buildSSA() {
	l.Prog = ssa.NewProgram(l.Fset, ssa.BuilderMode(0))
	seen := map[*types.Package]bool{}
	mine := map[*types.Package]bool{}
	for _, p := range l.order {
		mine[p.Types] = true
	}
	var dep func(t *types.Package)
	dep = func(t *types.Package) {
		if seen[t] || mine[t] {
			return
		}
		seen[t] = true
		for _, i := range t.Imports() {
			dep(i)
		}
		l.Prog.CreatePackage(t, nil, nil, true)
	}
	for _, p := range l.order {
		for _, i := range p.Types.Imports() {
			dep(i)
		}
	}
	for _, p := range l.order {
		p.SSA = l.Prog.CreatePackage(p.Types, p.Files, p.Info, true)
	}
	for _, p := range l.order {
		p.SSA.Build()
	}
}

// repoPackages lists the directories of /repo that hold Go packages.
func repoPackages(repo string) ([]string, error) {
	var out []string
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			b := fi.Name()
			if path != repo && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			m, _ := filepath.Glob(filepath.Join(path, "*.go"))
			n := 0
			for _, f := range m {
				if !strings.HasSuffix(f, "_test.go") {
					n++
				}
			}
			if n > 0 {
				rel, _ := filepath.Rel(repo, path)
				out = append(out, filepath.ToSlash(rel))
			}
		}
		return nil
	})
	sort.Strings(out)
	return out, err
}

func (l *Loader) pos(p token.Pos) string {
	if !p.IsValid() {
		return "-"
	}
	q := l.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(l.Repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}
