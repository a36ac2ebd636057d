package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("startup", "C25,C34", "what the goroutines of the server and its handlers use was made before they are started", ruleStartup)
}

// refKind: the zero value of the type cannot be used (or only waits forever).
func refKind(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Chan, *types.Map, *types.Signature:
		return true
	}
	return false
}

// place is a package variable or a field of a struct type.
type place struct {
	glob  *ssa.Global
	named string // name of the struct type
	field string
}

func (p place) String() string {
	if p.glob != nil {
		return p.glob.String()
	}
	return p.named + "." + p.field
}

// reads lists the variables and fields of reference kind that code loads.
func (c *Ctx) reads(code map[*ssa.Function]bool) map[place]ssa.Instruction {
	out := map[place]ssa.Instruction{}
	for _, f := range c.R.Funcs {
		if !code[f] || isGenerated(pkgPathOf(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.UnOp)
				if !ok || !refKind(u.Type()) {
					continue
				}
				switch x := u.X.(type) {
				case *ssa.Global:
					if _, ok := out[place{glob: x}]; !ok {
						out[place{glob: x}] = ins
					}
				case *ssa.FieldAddr:
					pt, ok := x.X.Type().Underlying().(*types.Pointer)
					if !ok {
						continue
					}
					st, ok := pt.Elem().Underlying().(*types.Struct)
					if !ok {
						continue
					}
					k := place{named: typeStr(pt.Elem()), field: st.Field(x.Field).Name()}
					if _, ok := out[k]; !ok {
						out[k] = ins
					}
				}
			}
		}
	}
	return out
}

// initialised: package variables given a value by their declaration.
func (c *Ctx) initialised() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for _, f := range c.R.Funcs {
		if f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						if k, isC := s.Val.(*ssa.Const); !isC || !k.IsNil() {
							out[g] = true
						}
					}
				}
			}
		}
	}
	return out
}

func ruleStartup(c *Ctx) {
	root := c.startup("C25,C34")
	if root == nil {
		return
	}
	inits := c.initialised()
	var prog *program
	for _, p := range c.programs() {
		if p.main == root.Fn {
			prog = p
		}
	}
	if prog == nil {
		c.Ob("C25,C34", false, c.FnWhere(root.Fn), "the server has a main function", "not found")
		return
	}
	need := map[ssa.Instruction]map[place]ssa.Instruction{}
	all := map[place]ssa.Instruction{}
	for _, r := range prog.roles {
		rd := c.reads(r.reach)
		for _, s := range r.starts {
			if need[s] == nil {
				need[s] = map[place]ssa.Instruction{}
			}
			for k, v := range rd {
				need[s][k] = v
				all[k] = v
			}
		}
	}
	type verdict struct {
		ok     bool
		props  string
		detail string
		at     string
	}
	res := map[string]*verdict{}
	queue := 0
	judge := func(e *Event, want map[place]ssa.Instruction, who string) {
		var check func(v *Term, t types.Type, d int)
		put := func(k place, v *Term, ins ssa.Instruction) {
			key := k.String() + " for " + who
			r := res[key]
			if r == nil {
				r = &verdict{ok: true, props: "C25,C34", at: c.R.Pos(ins.Pos())}
				if v, ok := ins.(ssa.Value); ok {
					if _, ok := v.Type().Underlying().(*types.Chan); ok {
						r.props = "C34" // waits forever
					}
				}
				res[key] = r
			}
			if (v == nil || v.IsNil()) && !noStorage(e.Facts) {
				r.ok = false
				r.detail = "it is nil at " + c.Where(e) + " under " + litsStr(lastLits(e.Facts, 3))
			}
		}
		check = func(v *Term, t types.Type, d int) {
			if v == nil || d > 3 {
				return
			}
			if p, ok := t.Underlying().(*types.Pointer); ok {
				t = p.Elem()
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				return
			}
			name := typeStr(t)
			for i := 0; i < st.NumFields(); i++ {
				k := place{named: name, field: st.Field(i).Name()}
				ins, ok := want[k]
				if !ok {
					continue
				}
				fv := root.fieldOf(e.Mem, v, st.Field(i).Name())
				if v.Op == "glob" {
					if _, ok := e.Mem.m[root.A.In.FieldAddr(v, st.Field(i).Name())]; !ok {
						fv = nil // never assigned
					}
				}
				put(k, fv, ins)
				if _, isCh := st.Field(i).Type().Underlying().(*types.Chan); isCh {
					queue++
				}
				if fv != nil && fv.Op == "obj" && fv.Typ != nil {
					check(fv, fv.Typ, d+1)
				}
			}
		}
		for k, ins := range want {
			if k.glob == nil || inits[k.glob] || isInstrument(k.glob.Type().(*types.Pointer).Elem()) || !strings.HasPrefix(k.glob.Pkg.Pkg.Path(), "open-match.dev/core") {
				continue
			}
			var v *Term
			for a, t := range e.Mem.m {
				if a.Op == "glob" && a.S == k.glob.String() {
					v = t
				}
			}
			put(k, v, ins)
		}
		for _, p := range c.R.Pkgs {
			if !strings.HasPrefix(p.PkgPath, "open-match.dev/core") {
				continue
			}
			sp := c.R.SSA[p.PkgPath]
			if sp == nil {
				continue
			}
			for _, m := range sp.Members {
				g, ok := m.(*ssa.Global)
				if !ok {
					continue
				}
				t := g.Type().(*types.Pointer).Elem()
				if _, ok := t.Underlying().(*types.Struct); !ok {
					continue
				}
				check(root.A.In.mk("glob", g.String(), g.Type(), g), t, 0)
			}
		}
	}
	serve := 0
	root.Walk(func(e *Event, at *At) {
		if e.Mem == nil {
			return
		}
		if isServe(e) {
			serve++
			judge(e, all, "serving")
			return
		}
		if e.Site != nil && need[e.Site] != nil && !at.Thread && at.Up == nil {
			judge(e, need[e.Site], e.Name)
		}
	})
	c.Ob("C25,C34", serve > 0, c.FnWhere(root.Fn), "the server begins to serve", "not found")
	c.Ob("C34", queue > 0, c.FnWhere(root.Fn), "updates are handed over through a channel", "not found")
	for _, k := range sortedKeys(res) {
		r := res[k]
		c.Ob(r.props, r.ok, r.at, fmt.Sprintf("%s: was made before it is used", k), r.detail)
	}
}

// noStorage: the operator asked for a kind of state storage there is not.
func noStorage(fs []Lit) bool {
	left := map[string]bool{"redis": true, "memory": true}
	for _, l := range fs {
		if l.Val || l.T.Op != "eq" {
			continue
		}
		for i := 0; i < 2; i++ {
			if s, ok := l.T.A[1-i].ConstStr(); ok && l.T.A[i].Op == "conf" && strings.Contains(tstr(l.T.A[i]), "OM_STATE_STORAGE_TYPE") {
				delete(left, s)
			}
		}
	}
	return len(left) == 0
}
