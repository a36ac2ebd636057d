package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Lists are values to the analysis. That is right as long as nothing writes to
// the array below a list that something else still has. The array is written to
// again by an append to a part of a list, so a list of which a part is taken,
// and appended to, may not have been given away on the way there.

// reuse lists the places in a function that take a part of a list to append to
// it, after the list was stored, sent, or given to another goroutine.
func reuse(f *ssa.Function) []string {
	var out []string
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			s, ok := ins.(*ssa.Slice)
			if !ok || s.High == nil || s.Max != nil {
				continue
			}
			if _, ok := s.X.Type().Underlying().(*types.Slice); !ok {
				continue
			}
			fam, appended := backing(s)
			if !appended {
				continue
			}
			if why := given(fam, s); why != "" {
				out = append(out, why)
			}
		}
	}
	return out
}

// backing: the values that may share the array with the part of a list, and
// whether the part is appended to.
func backing(s *ssa.Slice) (map[ssa.Value]bool, bool) {
	// what the part becomes
	part := map[ssa.Value]bool{}
	appended := false
	var fwd func(v ssa.Value)
	fwd = func(v ssa.Value) {
		if part[v] {
			return
		}
		part[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi:
				fwd(x)
			case *ssa.ChangeType:
				fwd(x)
			case *ssa.Store:
				if x.Val == v {
					for _, l := range loads(x.Addr) {
						fwd(l)
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == v {
					appended = true
					fwd(x)
				}
			}
		}
	}
	fwd(s)
	fam := map[ssa.Value]bool{}
	var both func(v ssa.Value)
	both = func(v ssa.Value) {
		if fam[v] {
			return
		}
		if _, ok := v.(*ssa.Const); ok {
			return
		}
		if _, ok := v.Type().Underlying().(*types.Slice); !ok {
			return
		}
		fam[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				both(e)
			}
		case *ssa.ChangeType:
			both(x.X)
		case *ssa.Slice:
			both(x.X)
		case *ssa.UnOp:
			for _, st := range stores(x.X) {
				both(st)
			}
			for _, l := range loads(x.X) {
				both(l)
			}
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				both(x.Call.Args[0])
			}
		}
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Phi:
				both(x)
			case *ssa.ChangeType:
				both(x)
			case *ssa.Slice:
				both(x)
			case *ssa.Store:
				if x.Val == v {
					for _, l := range loads(x.Addr) {
						both(l)
					}
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] == v {
					both(x)
				}
			}
		}
	}
	both(s)
	return fam, appended
}

// loads and stores of a local variable.
func loads(addr ssa.Value) []ssa.Value {
	a, ok := addr.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, u := range *a.Referrers() {
		if x, ok := u.(*ssa.UnOp); ok && x.X == a {
			out = append(out, x)
		}
	}
	return out
}

func stores(addr ssa.Value) []ssa.Value {
	a, ok := addr.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, u := range *a.Referrers() {
		if x, ok := u.(*ssa.Store); ok && x.Addr == a {
			out = append(out, x.Val)
		}
	}
	return out
}

// given: one of the values is given away on a way to the part being taken.
func given(fam map[ssa.Value]bool, s *ssa.Slice) string {
	seen := map[ssa.Value]bool{}
	why := ""
	var follow func(v ssa.Value)
	away := func(at ssa.Instruction, how string) {
		if why == "" && reaches(at, s) {
			why = how
		}
	}
	// base: the variable that a part of is written
	var base func(a ssa.Value) ssa.Value
	base = func(a ssa.Value) ssa.Value {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			return base(x.X)
		case *ssa.IndexAddr:
			return base(x.X)
		}
		return a
	}
	follow = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.Store:
				if x.Val != v {
					continue
				}
				b := base(x.Addr)
				if al, ok := b.(*ssa.Alloc); ok {
					if x.Addr == ssa.Value(al) && fam[v] {
						// a variable of its own
						for _, w := range *al.Referrers() {
							if mc, ok := w.(*ssa.MakeClosure); ok {
								follow(mc)
							}
						}
						continue
					}
					follow(al)
					continue
				}
				away(x, "it is stored")
			case *ssa.MapUpdate:
				if x.Value == v {
					if _, ok := x.Map.(*ssa.MakeMap); ok {
						follow(x.Map)
					}
					away(x, "it is stored in a map")
				}
			case *ssa.Send:
				if x.X == v {
					away(x, "it is sent")
				}
			case *ssa.Select:
				for _, st := range x.States {
					if st.Send == v {
						away(x, "it is sent")
					}
				}
			case *ssa.Go:
				away(x, "it is given to a goroutine")
			case *ssa.Defer:
				away(x, "it is given to a deferred call")
			case *ssa.MakeClosure:
				follow(x)
			case *ssa.Slice:
				// the array of the arguments of an append, or a part
				follow(x)
			case *ssa.MakeInterface:
				follow(x)
			case *ssa.ChangeInterface:
				follow(x)
			case *ssa.ChangeType:
				follow(x)
			case *ssa.Phi:
				if !fam[v] {
					follow(x)
				}
			case *ssa.UnOp:
				// the variable it is stored in is read as a whole
				if _, ok := v.(*ssa.Alloc); ok {
					follow(x)
				}
			case *ssa.Call:
				if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && len(x.Call.Args) == 2 && x.Call.Args[1] == v {
					if fam[v] {
						continue // its elements are copied
					}
					away(x, "it is kept in a list")
				}
			}
		}
	}
	for v := range fam {
		follow(v)
	}
	if why == "" {
		return ""
	}
	return fmt.Sprintf("a part of the list %s is appended to after %s", s.X.Name(), why)
}

// reaches: the instruction can be followed by the other.
func reaches(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return true
	}
	if a.Block() == b.Block() {
		for _, ins := range a.Block().Instrs {
			if ins == a {
				return true
			}
			if ins == b {
				break
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, y := range x.Succs {
			if y == b.Block() {
				return true
			}
			if !seen[y] {
				seen[y] = true
				if rec(y) {
					return true
				}
			}
		}
		return false
	}
	return rec(a.Block())
}
