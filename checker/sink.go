package main

import (
	"reflect"
	"unsafe"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// A loop may be written with the call that drives it before the loop and again
// at its end (for x = f(); c(x); x = f() {...}) or at its start (for { x =
// f(); if !c(x) {break}; ... }). sinkAll brings the first form into the second
// one: where the block before a loop and the block that ends its rounds finish
// with the same instructions, with a call among them, those are moved to the
// loop's header. Both blocks continue with the header only, so the order of
// everything that runs stays the same.
func sinkAll(r *Repo, prog *ssa.Program) {
	for f := range ssautil.AllFunctions(prog) {
		if !r.InRepo(f) {
			continue
		}
		for _, b := range f.Blocks {
			if len(b.Preds) == 2 {
				sink(b)
			}
		}
	}
}

func sink(h *ssa.BasicBlock) {
	pre, latch := 0, 1
	if h.Dominates(h.Preds[0]) {
		pre, latch = 1, 0
	}
	p, l := h.Preds[pre], h.Preds[latch]
	if p == l || p == h || l == h || h.Dominates(p) || !h.Dominates(l) || len(p.Succs) != 1 || len(l.Succs) != 1 {
		return
	}
	// the longest common end, found from the back: operands within it have to
	// correspond to each other
	n := 0
	best := 0
	for {
		i, j := len(p.Instrs)-2-n, len(l.Instrs)-2-n
		if i < 0 || j < 0 || reflect.TypeOf(p.Instrs[i]) != reflect.TypeOf(l.Instrs[j]) {
			break
		}
		n++
		if sameEnd(h, p, l, pre, latch, n) {
			best = n
		}
	}
	if best == 0 {
		return
	}
	from, also := p.Instrs[len(p.Instrs)-1-best:len(p.Instrs)-1], l.Instrs[len(l.Instrs)-1-best:len(l.Instrs)-1]
	from, also = append([]ssa.Instruction{}, from...), append([]ssa.Instruction{}, also...)
	pair := map[ssa.Value]ssa.Value{}
	for k := range from {
		if v, ok := from[k].(ssa.Value); ok {
			pair[also[k].(ssa.Value)] = v
		}
	}
	// phis of the header that only merge the two
	var rest []ssa.Instruction
	for _, ins := range h.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if ok && pair[phi.Edges[latch]] != nil && pair[phi.Edges[latch]] == phi.Edges[pre] {
			replaceUses(phi, phi.Edges[pre])
			dropRef(phi.Edges[pre], phi)
			dropRef(phi.Edges[latch], phi)
			continue
		}
		rest = append(rest, ins)
	}
	// the second copy goes away
	for _, ins := range also {
		for _, op := range ins.Operands(nil) {
			if *op != nil {
				dropRef(*op, ins)
			}
		}
		if v, ok := ins.(ssa.Value); ok && v.Referrers() != nil {
			replaceUses(v, pair[v])
		}
	}
	p.Instrs = append(p.Instrs[:len(p.Instrs)-1-best:len(p.Instrs)-1-best], p.Instrs[len(p.Instrs)-1])
	l.Instrs = append(l.Instrs[:len(l.Instrs)-1-best:len(l.Instrs)-1-best], l.Instrs[len(l.Instrs)-1])
	at := 0
	for at < len(rest) {
		if _, ok := rest[at].(*ssa.Phi); !ok {
			break
		}
		at++
	}
	h.Instrs = append(append(append([]ssa.Instruction{}, rest[:at]...), from...), rest[at:]...)
	for _, ins := range from {
		setBlock(ins, h)
	}
}

// sameEnd: the last n instructions before the jumps of p and l do the same, one
// of them is a call, and what they compute is used in the header's phis, within
// themselves, or (for the ones in p) nowhere else.
func sameEnd(h, p, l *ssa.BasicBlock, pre, latch, n int) bool {
	from, also := p.Instrs[len(p.Instrs)-1-n:len(p.Instrs)-1], l.Instrs[len(l.Instrs)-1-n:len(l.Instrs)-1]
	pair := map[ssa.Value]ssa.Value{}
	in := map[ssa.Instruction]bool{}
	calls := false
	for k := range from {
		x, y := from[k], also[k]
		in[x], in[y] = true, true
		switch x := x.(type) {
		case *ssa.Phi, *ssa.Alloc, *ssa.Defer, *ssa.RunDefers:
			return false
		case *ssa.Call:
			calls = true
			y := y.(*ssa.Call)
			if x.Call.Method != y.Call.Method || len(x.Call.Args) != len(y.Call.Args) {
				return false
			}
		case *ssa.BinOp:
			if x.Op != y.(*ssa.BinOp).Op {
				return false
			}
		case *ssa.UnOp:
			if x.Op != y.(*ssa.UnOp).Op || x.CommaOk != y.(*ssa.UnOp).CommaOk {
				return false
			}
		case *ssa.Extract:
			if x.Index != y.(*ssa.Extract).Index {
				return false
			}
		case *ssa.FieldAddr:
			if x.Field != y.(*ssa.FieldAddr).Field {
				return false
			}
		case *ssa.Field:
			if x.Field != y.(*ssa.Field).Field {
				return false
			}
		case *ssa.Store, *ssa.IndexAddr, *ssa.Index, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.ChangeType, *ssa.Convert:
		default:
			return false
		}
		ox, oy := x.Operands(nil), y.Operands(nil)
		if len(ox) != len(oy) {
			return false
		}
		for i := range ox {
			a, b := *ox[i], *oy[i]
			if (a == nil) != (b == nil) {
				return false
			}
			if a == nil || a == b || pair[b] != nil && pair[b] == a {
				continue
			}
			ca, ok1 := a.(*ssa.Const)
			cb, ok2 := b.(*ssa.Const)
			if ok1 && ok2 && ca.String() == cb.String() {
				continue
			}
			return false
		}
		if v, ok := x.(ssa.Value); ok {
			w, ok := y.(ssa.Value)
			if !ok || v.Type().String() != w.Type().String() {
				return false
			}
			pair[w] = v
		}
	}
	if !calls {
		return false
	}
	// uses
	merged := func(u ssa.Instruction) bool {
		phi, ok := u.(*ssa.Phi)
		if !ok || phi.Block() != h {
			return false
		}
		return pair[phi.Edges[latch]] != nil && pair[phi.Edges[latch]] == phi.Edges[pre]
	}
	for w, v := range pair {
		for _, x := range []ssa.Value{v, w} {
			if x.Referrers() == nil {
				continue
			}
			for _, u := range *x.Referrers() {
				if _, ok := u.(*ssa.DebugRef); ok {
					continue
				}
				if !in[u] && !merged(u) {
					return false
				}
			}
		}
	}
	return true
}

func replaceUses(old, with ssa.Value) {
	if old == with || old.Referrers() == nil {
		return
	}
	for _, u := range *old.Referrers() {
		hit := false
		for _, op := range u.Operands(nil) {
			if *op == old {
				*op = with
				hit = true
			}
		}
		if hit && with.Referrers() != nil {
			*with.Referrers() = append(*with.Referrers(), u)
		}
	}
	*old.Referrers() = nil
}

func dropRef(v ssa.Value, u ssa.Instruction) {
	if v.Referrers() == nil {
		return
	}
	var keep []ssa.Instruction
	for _, x := range *v.Referrers() {
		if x != u {
			keep = append(keep, x)
		}
	}
	*v.Referrers() = keep
}

// setBlock records that the instruction is in block b now.
func setBlock(ins ssa.Instruction, b *ssa.BasicBlock) {
	v := reflect.ValueOf(ins).Elem()
	for _, n := range []string{"register", "anInstruction"} {
		if f := v.FieldByName(n); f.IsValid() {
			v = f
		}
	}
	f := v.FieldByName("block")
	if !f.IsValid() {
		panic("no block in " + v.Type().String())
	}
	*(**ssa.BasicBlock)(unsafe.Pointer(f.UnsafeAddr())) = b
}
