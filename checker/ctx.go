package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one obligation: something a rule had to establish at one place.
type Obl struct {
	Props  []string
	Rule   string
	Where  string // file:line (function)
	What   string
	OK     bool
	Detail string
	Key    string // identifies a violation in the known-findings file
}

// Rule decides part of one or several properties.
type Rule struct {
	Name  string
	Props []string
	Doc   string
	Run   func(c *Ctx)
}

var rules []*Rule

func rule(name, props, doc string, run func(c *Ctx)) {
	rules = append(rules, &Rule{name, strings.Split(props, ","), doc, run})
}

// Root is an entry point together with its abstract traces.
type Root struct {
	Fn    *ssa.Function
	A     *Analysis
	Paths []*Path
}

// Ctx is one run of the checker.
type Ctx struct {
	side  map[string]bool
	R     *Repo
	rule  *Rule
	Obls  []*Obl
	roots map[string]*Root
	memo  map[string]any
	Cov   map[*ssa.Function]bool
	Stats map[string]int
}

func NewCtx(r *Repo) *Ctx {
	c := &Ctx{R: r, roots: map[string]*Root{}, memo: map[string]any{}, Cov: map[*ssa.Function]bool{}, Stats: map[string]int{}}
	c.findConstMaps()
	return c
}

// Ob records an obligation for the given properties (comma separated).
func (c *Ctx) Ob(props string, ok bool, where, what, detail string) {
	c.ObKey(props, "", ok, where, what, detail)
}

// printable cuts a text to one that can be shown on a line.
func printable(s string) string {
	s = strings.Map(func(r rune) rune {
		if r < ' ' || r == 0xfffd {
			return '.'
		}
		return r
	}, s)
	if len(s) > 4000 {
		s = strings.ToValidUTF8(s[:4000], "") + "…"
	}
	return s
}

func (c *Ctx) ObKey(props, key string, ok bool, where, what, detail string) {
	detail = printable(detail)
	o := &Obl{Props: strings.Split(props, ","), Rule: c.rule.Name, Where: where, What: what, OK: ok, Detail: detail, Key: key}
	for _, p := range o.Props {
		found := false
		for _, q := range c.rule.Props {
			if p == q {
				found = true
			}
		}
		if !found {
			panic(fmt.Sprintf("rule %s does not declare property %s", c.rule.Name, p))
		}
	}
	// one entry per distinct obligation; a failure wins
	for _, x := range c.Obls {
		if x.Rule == o.Rule && x.Where == o.Where && x.What == o.What && x.Key == o.Key && strings.Join(x.Props, ",") == props {
			if x.OK && !o.OK {
				x.OK, x.Detail = false, o.Detail
			}
			return
		}
	}
	c.Obls = append(c.Obls, o)
}

// Root runs the interpreter on fn (once).
func (c *Ctx) Root(fn *ssa.Function, opaque ...string) *Root {
	k := fn.String() + "|" + strings.Join(opaque, ",")
	if r, ok := c.roots[k]; ok {
		return r
	}
	a := NewAnalysis(c.R)
	for _, o := range opaque {
		a.Opaque[o] = true
	}
	r := &Root{Fn: fn, A: a, Paths: a.Run(fn, nil, nil)}
	for f := range a.Covered {
		c.Cov[f] = true
	}
	c.Stats["abstract paths"] += len(r.Paths)
	c.Stats["abstract steps"] += a.steps
	c.roots[k] = r
	return r
}

// Sound reports trouble of an analysis as a failed obligation.
func (c *Ctx) Sound(props string, r *Root) bool {
	c.Ob(props, len(r.A.Trouble) == 0, c.FnWhere(r.Fn), "all paths of "+fnShort(r.Fn)+" are summarised", strings.Join(r.A.Trouble, "; "))
	why := ""
	for f := range r.A.Covered {
		if isGenerated(pkgPathOf(f)) {
			continue
		}
		for _, x := range reuse(f) {
			if y := x + " in " + fnShort(f); why == "" || y < why {
				why = y
			}
		}
	}
	c.Ob(props, why == "", c.FnWhere(r.Fn), "no list that was given away is written to by "+fnShort(r.Fn), why)
	return len(r.A.Trouble) == 0
}

func fnShort(f *ssa.Function) string { return shortName(f.String()) }

func (c *Ctx) FnWhere(f *ssa.Function) string { return c.R.Pos(f.Pos()) + " (" + fnShort(f) + ")" }

func (c *Ctx) Where(e *Event) string {
	if e == nil || e.Site == nil {
		return "?"
	}
	return c.R.Pos(e.Site.Pos()) + " (" + fnShort(e.Site.Parent()) + ")"
}

func (c *Ctx) LoopWhere(l *LoopSum) string { return c.R.Pos(l.pos) + " (" + fnShort(l.Frame.Fn) + ")" }

// ---- finding the entry points ----

func (r *Repo) pkgTypes(suffix string) *types.Package {
	for path, p := range r.All {
		if path == suffix && p.Types != nil {
			return p.Types
		}
	}
	return nil
}

const pbPath = "open-match.dev/pkg/pb/v2"
const storePath = "open-match.dev/core/internal/statestore/datatypes"
const cachePath = "open-match.dev/core/internal/statestore/cache"
const filterPath = "open-match.dev/core/internal/filter"

func (r *Repo) iface(pkg, name string) *types.Interface {
	p := r.pkgTypes(pkg)
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	i, _ := o.Type().Underlying().(*types.Interface)
	return i
}

// Impl finds the method implementing an interface method on the repository's
// own types (bodies in the repository only).
func (c *Ctx) Impl(pkg, ifc, method string) []*ssa.Function {
	i := c.R.iface(pkg, ifc)
	if i == nil {
		return nil
	}
	var out []*ssa.Function
	for _, t := range c.R.implementers(i) {
		f := c.R.method(t, method)
		if f == nil {
			continue
		}
		if f.Blocks == nil || isGenerated(pkgPathOf(f)) {
			continue
		}
		if f.Synthetic != "" {
			// promoted from an embedded type
			if o, ok := f.Object().(*types.Func); ok {
				if g := c.R.Prog.FuncValue(o); g != nil && g.Blocks != nil && !isGenerated(pkgPathOf(g)) {
					f = g
				} else {
					continue
				}
			} else {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

const inName = filterPath + ".In"
const validName = filterPath + ".ValidatePoolFilters"

// Handler is the implementation of an RPC of the server.
func (c *Ctx) Handler(props, method string) *Root {
	fs := c.Impl(pbPath, "OpenMatchServiceServer", method)
	if len(fs) != 1 {
		c.Ob(props, false, "core", "the server implements "+method, fmt.Sprintf("%d implementations of OpenMatchServiceServer.%s found", len(fs), method))
		return nil
	}
	r := c.Root(fs[0], inName, validName)
	if !c.Sound(props, r) {
		return nil
	}
	return r
}

func (c *Ctx) Func(props, full string) *ssa.Function {
	for _, f := range c.R.Funcs {
		if f.String() == full {
			return f
		}
	}
	c.Ob(props, false, full, "function "+full+" exists", "not found in the repository")
	return nil
}

// ---- walking abstract traces ----

// At is a position in a tree of abstract traces.
type At struct {
	Up     *At
	Ev     *Event // the loop or go event this level belongs to (nil at the top)
	Path   *Path  // the path at this level
	I      int    // index of the current event in Path.Events
	Root   *Root
	Thread bool // Ev is a go event
}

// Loop returns the innermost loop this position is in, within its thread.
func (at *At) Loop() *LoopSum {
	if at != nil && at.Ev != nil && at.Ev.Kind == "loop" {
		return at.Ev.Loop
	}
	return nil
}

// Innermost is Loop, except that the events of the iteration that ends an
// inner loop are taken to be in that loop.
func (at *At) Innermost() *LoopSum {
	e := at.Path.Events[at.I]
	if e.Frame != nil && e.Site != nil {
		for i := at.I - 1; i >= 0; i-- {
			x := at.Path.Events[i]
			if x.Kind == "loop" && inLoop(e.Frame, e.Site, x.Loop) {
				return x.Loop
			}
		}
	}
	return at.Loop()
}

func (at *At) InThread() *Event {
	for x := at; x != nil; x = x.Up {
		if x.Thread {
			return x.Ev
		}
	}
	return nil
}

// Walk visits all events, inside loops and goroutines too.
func (r *Root) Walk(f func(e *Event, at *At)) { walk(r.Paths, nil, nil, r, f, map[*Path]bool{}) }

func walk(ps []*Path, up *At, ev *Event, root *Root, f func(e *Event, at *At), seen map[*Path]bool) {
	for _, p := range ps {
		if seen[p] {
			continue
		}
		at := &At{Up: up, Ev: ev, Path: p, Root: root, Thread: ev != nil && ev.Kind == "go"}
		for i, e := range p.Events {
			a := *at
			a.I = i
			f(e, &a)
			if e.Kind == "loop" {
				walk(e.Loop.Iters, &a, e, root, f, seen)
			}
			if e.Kind == "go" && e.Thread != nil {
				walk(e.Thread.Paths, &a, e, root, f, seen)
			}
		}
	}
}

// WalkPaths visits every path (also iterations and goroutine bodies).
func (r *Root) WalkPaths(f func(p *Path, at *At)) {
	var rec func(ps []*Path, up *At, ev *Event)
	rec = func(ps []*Path, up *At, ev *Event) {
		for _, p := range ps {
			at := &At{Up: up, Ev: ev, Path: p, Root: r, Thread: ev != nil && ev.Kind == "go"}
			f(p, at)
			for i, e := range p.Events {
				a := *at
				a.I = i
				if e.Kind == "loop" {
					rec(e.Loop.Iters, &a, e)
				}
				if e.Kind == "go" && e.Thread != nil {
					rec(e.Thread.Paths, &a, e)
				}
			}
		}
	}
	rec(r.Paths, nil, nil)
}

// ---- running and reporting ----

type finding struct{ prop, key, text string }

func readFindings(file string) ([]finding, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var out []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[0], "property=") || !strings.HasPrefix(f[1], "key=") {
			return nil, fmt.Errorf("bad line in %s: %s", file, l)
		}
		out = append(out, finding{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "key="), f[2]})
	}
	return out, nil
}

func has(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

// runRules runs all rules for the given property ("" = all).
func (c *Ctx) runRules(prop string) {
	for _, r := range rules {
		if prop != "" && !has(r.Props, prop) {
			continue
		}
		c.rule = r
		func() {
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("VERIF_TRACE") != "" {
						panic(e)
					}
					for _, p := range r.Props {
						c.Ob(p, false, "rule "+r.Name, "the rule can be decided", fmt.Sprint(e))
					}
				}
			}()
			n := len(c.Obls)
			t := time.Now()
			r.Run(c)
			if os.Getenv("VERIF_TIMES") != "" {
				fmt.Fprintln(os.Stderr, r.Name, time.Since(t), len(c.Obls)-n)
			}
			for _, p := range r.Props {
				any := false
				for _, o := range c.Obls {
					if o.Rule == r.Name && has(o.Props, p) {
						any = true
					}
				}
				if !any {
					c.Ob(p, false, "rule "+r.Name, "the rule finds something to check", "no obligation was generated: the code it is about was not recognised")
				}
			}
		}()
	}
	c.rule = nil
}

func (c *Ctx) obls(prop string) []*Obl {
	var out []*Obl
	for _, o := range c.Obls {
		if has(o.Props, prop) {
			out = append(out, o)
		}
	}
	return out
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// coveredNames lists the analysed functions.
func (c *Ctx) coveredNames() []string {
	var out []string
	for f := range c.Cov {
		out = append(out, fnShort(f))
	}
	sort.Strings(out)
	return out
}

func rel(p string) string {
	if r, err := filepath.Rel(verifDir(), p); err == nil {
		return r
	}
	return p
}
