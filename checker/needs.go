package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Need is something an instruction relies on: without it the program crashes.
type Need struct {
	Kind  string // nonnil, index, slice, assert, divide, size
	Frame *Frame
	Site  ssa.Instruction
	Args  []*Term
	Typ   types.Type
	Facts []Lit
}

func (a *Analysis) want(kind string, f *Frame, s *State, ins ssa.Instruction, typ types.Type, args ...*Term) {
	a.needs = append(a.needs, &Need{Kind: kind, Frame: f, Site: ins, Args: args, Typ: typ, Facts: s.facts})
}

// need notes what the instruction relies on.
func (a *Analysis) need(f *Frame, s *State, ins ssa.Instruction) {
	if isGenerated(pkgPathOf(f.Fn)) || !a.R.InRepo(f.Fn) {
		return
	}
	ptr := func(v ssa.Value) {
		t := a.val(s, v)
		if nonNil(t) {
			return
		}
		a.want("nonnil", f, s, ins, v.Type(), t)
	}
	switch x := ins.(type) {
	case *ssa.FieldAddr:
		ptr(x.X)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if t := a.val(s, x.X); t.Op != "fieldaddr" && t.Op != "indexaddr" {
				ptr(x.X)
			}
		}
	case *ssa.Store:
		if t := a.val(s, x.Addr); t.Op != "fieldaddr" && t.Op != "indexaddr" {
			ptr(x.Addr)
		}
	case *ssa.IndexAddr:
		a.indexed(f, s, ins, x.X, x.Index)
	case *ssa.Index:
		a.indexed(f, s, ins, x.X, x.Index)
	case *ssa.Lookup:
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			a.indexed(f, s, ins, x.X, x.Index)
		}
	case *ssa.MapUpdate:
		ptr(x.Map)
	case *ssa.Slice:
		if x.Low == nil && x.High == nil {
			return
		}
		v := a.val(s, x.X)
		lo, hi := a.In.Int(0), a.In.Len(v)
		if x.Low != nil {
			lo = a.val(s, x.Low)
		}
		if x.High != nil {
			hi = a.val(s, x.High)
		}
		a.want("slice", f, s, ins, x.X.Type(), v, lo, hi)
	case *ssa.TypeAssert:
		if !x.CommaOk {
			a.want("assert", f, s, ins, x.AssertedType, a.val(s, x.X))
		}
	case *ssa.BinOp:
		if x.Op == token.QUO || x.Op == token.REM {
			if b, ok := x.Y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				y := a.val(s, x.Y)
				if n, ok := y.ConstInt(); !ok || n == 0 {
					a.want("divide", f, s, ins, x.Y.Type(), y)
				}
			}
		}
	case *ssa.MakeSlice:
		n := a.val(s, x.Len)
		a.want("size", f, s, ins, x.Type(), n, a.val(s, x.Cap))
	case *ssa.MakeChan:
		n := a.val(s, x.Size)
		a.want("size", f, s, ins, x.Type(), n, n)
	}
	if ci, ok := ins.(ssa.CallInstruction); ok {
		c := ci.Common()
		if c.IsInvoke() {
			ptr(c.Value)
		} else if b, isB := c.Value.(*ssa.Builtin); isB {
			if b.Name() == "close" {
				ptr(c.Args[0])
			}
		} else if cf := c.StaticCallee(); cf == nil {
			ptr(c.Value)
		} else if derefs(a, cf) {
			ptr(c.Args[0])
		}
	}
}

// derefs: a method of a library that uses what its pointer receiver points to.
// Messages have methods that work without one.
func derefs(a *Analysis, f *ssa.Function) bool {
	r := f.Signature.Recv()
	if r == nil || a.R.InRepo(f) || isGenerated(pkgPathOf(f)) || strings.HasPrefix(pkgPathOf(f), "google.golang.org/protobuf/") {
		return false
	}
	_, ok := r.Type().Underlying().(*types.Pointer)
	return ok
}

func (a *Analysis) indexed(f *Frame, s *State, ins ssa.Instruction, xv, iv ssa.Value) {
	x, i := a.val(s, xv), a.val(s, iv)
	t := xv.Type().Underlying()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem().Underlying()
	}
	if at, ok := t.(*types.Array); ok {
		if n, ok := i.ConstInt(); ok && n >= 0 && n < at.Len() {
			return
		}
		a.want("index", f, s, ins, xv.Type(), a.In.Int(at.Len()), i)
		return
	}
	a.want("index", f, s, ins, xv.Type(), a.In.Len(x), i, x)
}
