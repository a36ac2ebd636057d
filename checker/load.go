package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Repo is the loaded program under analysis.
type Repo struct {
	Root string
	Fset *token.FileSet
	Pkgs []*packages.Package          // packages of the repository's own modules
	All  map[string]*packages.Package // by path, dependencies included
	Prog *ssa.Program
	SSA  map[string]*ssa.Package // repository packages by path
	// Funcs lists every function with a body declared in the repository
	// (methods and closures included), in a fixed order.
	Funcs []*ssa.Function
	Work  string

	globOnce sync.Once
	globInit map[*ssa.Global]ssa.Value
}

var useLine = regexp.MustCompile(`^([ \t]*(?:use[ \t]+)?)\./`)

// writeWork makes a go.work next to nothing in the repository, with the
// repository's modules by absolute path.
//
// swap names directories of modules that others stand in for.
func writeWork(root, dir string, swap map[string]string) (string, []string, error) {
	data, err := os.ReadFile(filepath.Join(root, "go.work"))
	if err != nil {
		return "", nil, err
	}
	var mods []string
	var out []string
	for _, l := range strings.Split(string(data), "\n") {
		l = useLine.ReplaceAllString(l, "${1}"+root+"/")
		if i := strings.Index(l, root+"/"); i >= 0 {
			m := filepath.Clean(strings.TrimSpace(l[i:]))
			if to := swap[m]; to != "" {
				l, m = l[:i]+to, to
			}
			mods = append(mods, m)
		}
		out = append(out, l)
	}
	// matchmaker-example imports this module, but go.work does not list it.
	t := filepath.Join(root, "functions/golang/teamshooter")
	if _, err := os.Stat(filepath.Join(t, "go.mod")); err == nil {
		found := false
		for _, m := range mods {
			if filepath.Clean(m) == t {
				found = true
			}
		}
		if !found {
			out = append(out, "use "+t)
			mods = append(mods, t)
		}
	}
	w := filepath.Join(dir, "go.work")
	if err := os.WriteFile(w, []byte(strings.Join(out, "\n")), 0o644); err != nil {
		return "", nil, err
	}
	if s, err := os.ReadFile(filepath.Join(root, "go.work.sum")); err == nil {
		if err := os.WriteFile(filepath.Join(dir, "go.work.sum"), s, 0o644); err != nil {
			return "", nil, err
		}
	}
	return w, mods, nil
}

// Load loads all packages of all modules of the repository.
func Load(root string) (*Repo, error) { return load(root, nil) }

// load does, with some modules of the workspace swapped for others; it then
// only loads those others.
func load(root string, swap map[string]string) (*Repo, error) {
	dir, err := os.MkdirTemp("", "verifwork")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(dir)
	work, mods, err := writeWork(root, dir, swap)
	if err != nil {
		return nil, err
	}
	env := []string{}
	for _, e := range os.Environ() {
		switch strings.SplitN(e, "=", 2)[0] {
		case "GOWORK", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE":
		default:
			env = append(env, e)
		}
	}
	env = append(env, "GOWORK="+work, "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-buildvcs=false", "GO111MODULE=on")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: root,
		Env: env,
	}
	var pats []string
	if swap != nil {
		mods = nil
		for _, k := range sortedKeys(swap) {
			mods = append(mods, swap[k])
		}
	}
	for _, m := range mods {
		pats = append(pats, strings.TrimSuffix(m, "/")+"/...")
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	r := &Repo{Root: root, All: map[string]*packages.Package{}, SSA: map[string]*ssa.Package{}, Work: work}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		r.All[p.PkgPath] = p
		if p.Module != nil && strings.HasPrefix(p.Module.Dir+"/", root+"/") {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check: %s", strings.Join(errs, "; "))
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	r.Pkgs = pkgs
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages found under %s", root)
	}
	r.Fset = pkgs[0].Fset
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	r.Prog = prog
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		r.SSA[pkgs[i].PkgPath] = sp
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Blocks == nil || f.Pkg == nil || r.SSA[f.Pkg.Pkg.Path()] == nil {
			continue
		}
		r.Funcs = append(r.Funcs, f)
	}
	sinkAll(r, prog)
	sort.Slice(r.Funcs, func(i, j int) bool {
		a, b := r.Funcs[i], r.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	return r, nil
}

// InRepo reports whether fn has a body in the repository (wrappers of
// repository methods included).
func (r *Repo) InRepo(fn *ssa.Function) bool {
	if fn == nil || fn.Blocks == nil {
		return false
	}
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil && fn.Parent() != nil {
		return r.InRepo(fn.Parent())
	}
	if p == nil {
		// synthetic wrapper or bound method
		if o, ok := fn.Object().(*types.Func); ok && o.Pkg() != nil {
			return r.SSA[o.Pkg().Path()] != nil
		}
		return false
	}
	return r.SSA[p.Pkg.Path()] != nil
}

// Pos renders a source position relative to the repository.
func (r *Repo) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := r.Fset.Position(p)
	f := q.Filename
	if rel, err := filepath.Rel(r.Root, f); err == nil && !strings.HasPrefix(rel, "..") {
		f = rel
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// isGenerated reports whether the package only holds generated API code.
func isGenerated(path string) bool {
	return strings.HasPrefix(path, "open-match.dev/pkg/") || strings.HasPrefix(path, "open-match.dev/core/pkg")
}
