package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("roles", "C27", "global variables and fields of the long-lived objects are written only before the goroutines that use them start, or used by one of them only, or atomically, or under a lock", ruleRoles)
}

// role is code that runs concurrently with other roles.
type role struct {
	name   string
	entry  *ssa.Function
	starts []ssa.Instruction // where it is started, in the code of main
	many   bool
	reach  map[*ssa.Function]bool
}

// program is a main package with its roles.
type program struct {
	main  *ssa.Function
	roles []*role
	reach map[*ssa.Function]bool // code of the main goroutine
	calls map[*ssa.Function][]ssa.Instruction
	inits map[*ssa.Function]bool
}

// callees lists the repository functions an instruction may call in the same
// goroutine.
func (c *Ctx) callees(ins ssa.Instruction) []*ssa.Function {
	call, ok := ins.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	com := call.Common()
	if com.IsInvoke() {
		var out []*ssa.Function
		ifc, _ := com.Value.Type().Underlying().(*types.Interface)
		if ifc == nil {
			return nil
		}
		for _, t := range c.R.implementers(ifc) {
			if m := c.R.method(t, com.Method.Name()); m != nil && len(m.Blocks) > 0 {
				out = append(out, m)
			}
		}
		return out
	}
	if f := com.StaticCallee(); f != nil {
		if len(f.Blocks) > 0 {
			return []*ssa.Function{f}
		}
		return nil
	}
	if f := closureOf(com.Value); f != nil {
		return []*ssa.Function{f}
	}
	// a function held in a variable
	if u, ok := com.Value.(*ssa.UnOp); ok {
		var out []*ssa.Function
		if a := cellOf(u.X); a != nil {
			for _, g := range nest(a.Parent()) {
				for _, b := range g.Blocks {
					for _, x := range b.Instrs {
						if s, ok := x.(*ssa.Store); ok && cellOf(s.Addr) == a {
							if f := closureOf(s.Val); f != nil {
								out = append(out, f)
							}
						}
					}
				}
			}
		} else {
			out = c.tabled(u)
		}
		return out
	}
	return nil
}

// tabled: the functions a value taken from a list or structure may be.
func (c *Ctx) tabled(u *ssa.UnOp) []*ssa.Function {
	switch u.X.(type) {
	case *ssa.IndexAddr, *ssa.FieldAddr:
	default:
		return nil
	}
	held, ok := c.memo["tabled"].([]*ssa.Function)
	if !ok {
		seen := map[*ssa.Function]bool{}
		for _, f := range c.R.Funcs {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					s, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					switch s.Addr.(type) {
					case *ssa.IndexAddr, *ssa.FieldAddr:
					default:
						continue
					}
					if g := closureOf(s.Val); g != nil && len(g.Blocks) > 0 && !seen[g] {
						seen[g] = true
						held = append(held, g)
					}
				}
			}
		}
		c.memo["tabled"] = held
	}
	sig, ok := u.Type().Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, g := range held {
		if types.Identical(g.Signature.Params(), sig.Params()) && types.Identical(g.Signature.Results(), sig.Results()) {
			out = append(out, g)
		}
	}
	return out
}

// later: a library function that keeps the function it is given and calls it
// from a goroutine of its own.
func later(cl *ssa.Function) bool {
	p := pkgPathOf(cl)
	return strings.HasPrefix(p, "go.opentelemetry.io/") || strings.HasPrefix(p, "google.golang.org/grpc") || p == "net/http" || strings.HasPrefix(p, "github.com/grpc-ecosystem/")
}

// walkCode visits the code that runs in the goroutine of the roots. start is
// called for everything that begins a goroutine of its own.
func (c *Ctx) walkCode(roots []*ssa.Function, start func(name string, f *ssa.Function, at ssa.Instruction, many bool)) (map[*ssa.Function]bool, map[*ssa.Function][]ssa.Instruction) {
	seen := map[*ssa.Function]bool{}
	calls := map[*ssa.Function][]ssa.Instruction{}
	work := append([]*ssa.Function{}, roots...)
	push := func(f *ssa.Function, at ssa.Instruction) {
		calls[f] = append(calls[f], at)
		work = append(work, f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			continue
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Go:
					gs := c.callees(x)
					for _, g := range gs {
						// each function of a table is started once
						start("goroutine "+fnShort(g), g, x, len(gs) < 2 && follows(x, x, nil))
					}
					continue
				case ssa.CallInstruction:
					com := x.Common()
					cl := com.StaticCallee()
					at := ins
					for _, g := range c.callees(ins) {
						push(g, at)
					}
					own := cl != nil && (cl.String() == "(*golang.org/x/sync/errgroup.Group).Go" || cl.String() == "(*sync.WaitGroup).Go" || cl.String() == "time.AfterFunc")
					lib := com.IsInvoke() && len(c.callees(ins)) == 0 || cl != nil && len(cl.Blocks) == 0
					for _, a := range com.Args {
						if g := closureOf(a); g != nil && len(g.Blocks) > 0 {
							switch {
							case own:
								start("goroutine "+fnShort(g), g, ins, follows(ins, ins, nil))
							case cl != nil && later(cl) || com.IsInvoke() && com.Method.Pkg() != nil && strings.HasPrefix(com.Method.Pkg().Path(), "go.opentelemetry.io/"):
								start("callback "+fnShort(g), g, ins, true)
							default:
								push(g, at)
							}
						}
						m, ok := a.(*ssa.MakeInterface)
						if !ok || !(lib || cl != nil && isGenerated(pkgPathOf(cl))) {
							continue
						}
						ifc, _ := m.Type().Underlying().(*types.Interface)
						if ifc == nil || ifc.NumMethods() == 0 {
							continue
						}
						if p, _ := namedIn(m.X.Type()); !strings.HasPrefix(p, "open-match.dev") && c.R.SSA[p] == nil {
							continue
						}
						for i := 0; i < ifc.NumMethods(); i++ {
							if g := c.R.method(m.X.Type(), ifc.Method(i).Name()); g != nil && len(g.Blocks) > 0 && !isGenerated(pkgPathOf(g)) {
								start(ifc.Method(i).Name()+" called by a library", g, ins, true)
							}
						}
					}
				case *ssa.MakeClosure:
					g := x.Fn.(*ssa.Function)
					if x.Referrers() == nil {
						continue
					}
					for _, r := range *x.Referrers() {
						switch r.(type) {
						case ssa.CallInstruction, *ssa.DebugRef, *ssa.Store:
						default:
							push(g, x) // handed on
						}
					}
				}
			}
		}
	}
	return seen, calls
}

// programs finds the main packages and their roles.
func (c *Ctx) programs() []*program {
	if v, ok := c.memo["programs"]; ok {
		return v.([]*program)
	}
	var out []*program
	for _, f := range c.R.Funcs {
		if f.Name() != "main" || f.Pkg == nil || f.Pkg.Pkg.Name() != "main" || f.Signature.Recv() != nil || f.Parent() != nil {
			continue
		}
		p := &program{main: f}
		byFn := map[*ssa.Function]*role{}
		var queue []*role
		add := func(name string, g *ssa.Function, starts []ssa.Instruction, many bool) {
			if r := byFn[g]; r != nil {
				if len(starts) > 0 && (len(r.starts) == 0 || r.starts[0] != starts[0]) {
					r.many = true
					r.starts = append(r.starts, starts...)
				}
				return
			}
			r := &role{name: name, entry: g, starts: starts, many: many}
			byFn[g] = r
			p.roles = append(p.roles, r)
			queue = append(queue, r)
		}
		p.reach, p.calls = c.walkCode([]*ssa.Function{f}, func(name string, g *ssa.Function, at ssa.Instruction, many bool) {
			add(name, g, []ssa.Instruction{at}, many)
		})
		for len(queue) > 0 {
			r := queue[0]
			queue = queue[1:]
			r.reach, _ = c.walkCode([]*ssa.Function{r.entry}, func(name string, g *ssa.Function, at ssa.Instruction, many bool) {
				add(name, g, r.starts, many || r.many)
			})
		}
		out = append(out, p)
	}
	c.memo["programs"] = out
	return out
}

// lift maps an instruction of the main goroutine to everything being executed
// while it is, by function.
func (p *program) lift(ins ssa.Instruction) map[*ssa.Function][]ssa.Instruction {
	out := map[*ssa.Function][]ssa.Instruction{}
	seen := map[ssa.Instruction]bool{}
	work := []ssa.Instruction{ins}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		f := x.Parent()
		out[f] = append(out[f], x)
		for _, s := range p.calls[f] {
			if d, ok := s.(*ssa.Defer); ok {
				for _, b := range d.Parent().Blocks {
					for _, y := range b.Instrs {
						if _, ok := y.(*ssa.RunDefers); ok {
							work = append(work, y)
						}
					}
				}
				continue
			}
			work = append(work, s)
		}
	}
	return out
}

// after: instruction x of the main goroutine can be executed after s was.
func (p *program) after(s, x ssa.Instruction) bool {
	ls, lx := p.lift(s), p.lift(x)
	for f, as := range ls {
		for _, a := range as {
			for _, b := range lx[f] {
				if follows(a, b, nil) {
					return true
				}
			}
		}
	}
	return false
}

type roleAccess struct {
	access
	role *role // nil: the main goroutine
}

// shared lists the types of the objects that live as long as the process.
func (c *Ctx) sharedTypes(p *program) map[*types.Named]bool {
	out := map[*types.Named]bool{}
	var visit func(t types.Type, d int)
	visit = func(t types.Type, d int) {
		if d > 8 {
			return
		}
		switch x := t.(type) {
		case *types.Pointer:
			visit(x.Elem(), d+1)
		case *types.Slice:
			visit(x.Elem(), d+1)
		case *types.Map:
			visit(x.Elem(), d+1)
		case *types.Array:
			visit(x.Elem(), d+1)
		case *types.Named:
			if x.Obj().Pkg() == nil || c.R.SSA[x.Obj().Pkg().Path()] == nil || isGenerated(x.Obj().Pkg().Path()) {
				return
			}
			if ifc, ok := x.Underlying().(*types.Interface); ok {
				for _, u := range c.R.implementers(ifc) {
					visit(u, d+1)
				}
				return
			}
			st, ok := x.Underlying().(*types.Struct)
			if !ok {
				visit(x.Underlying(), d+1)
				return
			}
			if out[x] {
				return
			}
			out[x] = true
			for i := 0; i < st.NumFields(); i++ {
				visit(st.Field(i).Type(), d+1)
			}
		}
	}
	for f := range p.all() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						visit(g.Type(), 0)
					}
				}
			}
		}
	}
	for _, r := range p.roles {
		if rv := r.entry.Signature.Recv(); rv != nil {
			visit(rv.Type(), 0)
		}
	}
	// objects that the concurrent code makes are handed from one goroutine to
	// the next
	for _, r := range p.roles {
		for f := range r.reach {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if a, ok := ins.(*ssa.Alloc); ok && a.Heap && a.Comment == "complit" || ok && a.Comment == "new" {
						if nm, ok := a.Type().(*types.Pointer).Elem().(*types.Named); ok {
							delete(out, nm)
						}
					}
				}
			}
		}
	}
	return out
}

// all is the code of the program.
func (p *program) all() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range p.reach {
		out[f] = true
	}
	for _, r := range p.roles {
		for f := range r.reach {
			out[f] = true
		}
	}
	return out
}

// code adds the function literals that are handed to libraries.
func (p *program) code() map[*ssa.Function]bool {
	out := p.all()
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		for _, g := range f.AnonFuncs {
			if !out[g] {
				out[g] = true
			}
			add(g)
		}
	}
	for f := range p.all() {
		add(f)
	}
	return out
}

func ruleRoles(c *Ctx) {
	n := 0
	for _, p := range c.programs() {
		long := c.sharedTypes(p)
		locs := map[string][]roleAccess{}
		for f := range p.all() {
			if isGenerated(pkgPathOf(f)) {
				continue
			}
			c.Cov[f] = true
			per := map[string][]access{}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if fa, ok := ins.(*ssa.FieldAddr); ok {
						pt := fa.X.Type().Underlying().(*types.Pointer).Elem()
						if nm, ok := pt.(*types.Named); ok && long[nm] && !isSync(fa.Type()) {
							if a, ok := fa.X.(*ssa.Alloc); ok && a.Parent() == f && a.Heap {
								continue // still being made
							}
							st := nm.Underlying().(*types.Struct)
							key := "field " + nm.Obj().Name() + "." + st.Field(fa.Field).Name()
							var list []access
							uses(fa, false, &list, 0)
							per[key] = append(per[key], list...)
						}
						continue
					}
					for _, op := range ins.Operands(nil) {
						g, ok := (*op).(*ssa.Global)
						if !ok || isSync(g.Type()) || g.Pkg == nil || c.R.SSA[g.Pkg.Pkg.Path()] == nil || isGenerated(g.Pkg.Pkg.Path()) {
							continue
						}
						if nm, ok := g.Type().(*types.Pointer).Elem().(*types.Named); ok && long[nm] {
							if _, st := nm.Underlying().(*types.Struct); st {
								if s, ok := ins.(*ssa.Store); !ok || s.Addr != g {
									continue
								}
							}
						}
						var list []access
						useAt(g, ins, false, &list, 0)
						per["variable "+g.Name()+" of "+pkgShort(g.Pkg.Pkg)] = append(per["variable "+g.Name()+" of "+pkgShort(g.Pkg.Pkg)], list...)
					}
				}
			}
			for key, list := range per {
				for _, x := range list {
					x.locks = c.locksAt(x.ins, 0)
					if p.reach[f] && !(x.force != nil) {
						locs[key] = append(locs[key], roleAccess{x, nil})
					}
					for _, r := range p.roles {
						if r.reach[f] && (x.force == nil || x.force == r.entry) {
							locs[key] = append(locs[key], roleAccess{x, r})
						}
					}
				}
			}
		}
		var keys []string
		for k := range locs {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		nW := 0
		for _, k := range keys {
			n++
			why, at := p.races(c, locs[k])
			w := fnShort(p.main)
			if at != nil {
				w = c.R.Pos(at.Pos()) + " (" + fnShort(at.Parent()) + ")"
			}
			for _, x := range locs[k] {
				if x.write {
					nW++
					break
				}
			}
			c.Ob("C27", why == "", w, "the "+k+" is not written while another goroutine may use it", why)
		}
		c.Ob("C27", true, fnShort(p.main), "the goroutines of the program and what they share",
			fmt.Sprintf("%d roles, %d functions, %d shared locations, %d written", len(p.roles), len(p.all()), len(keys), nW))
	}
	c.Ob("C27", n > 0, "core", "shared locations", fmt.Sprintf("%d", n))
}

func pkgShort(p *types.Package) string { return p.Path() }

func (p *program) races(c *Ctx, list []roleAccess) (string, ssa.Instruction) {
	sort.SliceStable(list, func(i, j int) bool { return list[i].ins.Pos() < list[j].ins.Pos() })
	name := func(r *role) string {
		if r == nil {
			return "the main goroutine"
		}
		return r.name
	}
	for _, w := range list {
		if !w.write {
			continue
		}
		for _, x := range list {
			if w.atomic && x.atomic || guarded(w.access, x.access) || w.content != x.content {
				continue
			}
			if w.role == x.role && (w.role == nil || !w.role.many) {
				continue
			}
			if w.role == nil || x.role == nil {
				m, o := w, x
				if w.role != nil {
					m, o = x, w
				}
				late := false
				for _, s := range o.role.starts {
					late = late || p.after(s, m.ins)
				}
				if !late {
					continue
				}
			}
			return fmt.Sprintf("%s at %s by %s, and %s at %s by %s", w.what, c.R.Pos(w.ins.Pos()), name(w.role), x.what, c.R.Pos(x.ins.Pos()), name(x.role)), w.ins
		}
	}
	return "", nil
}
