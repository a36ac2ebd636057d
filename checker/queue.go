package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- updates queued for replication and their replies ----

const respType = "*" + storePath + ".StateResponse"

// reqFields names the fields of the queued request that hold the update and
// the reply channel (found by type).
func reqFields(t types.Type) (update, reply string, ok bool) {
	p, isP := t.(*types.Pointer)
	if !isP {
		return
	}
	st, _ := p.Elem().Underlying().(*types.Struct)
	if st == nil {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch f.Type().String() {
		case storePath + ".StateUpdate", "*" + storePath + ".StateUpdate":
			update = f.Name()
		case "chan " + respType, "chan<- " + respType:
			reply = f.Name()
		}
	}
	return update, reply, update != "" && reply != ""
}

// isQueue: an update is put into the replication queue.
func isQueue(e *Event) bool {
	if e.Kind != "send" || e.Typ == nil {
		return false
	}
	_, _, ok := reqFields(e.Typ)
	return ok
}

// isReply: a reply is received.
func isReply(e *Event) bool { return e.Kind == "recv" && typeStr(e.Typ) == respType }

// Update is one place where an update is queued.
type Update struct {
	At              *At
	Ev              *Event
	Cmd, Key, Value *Term
	Reply           *Term
	Iters           []IterAt
}

func (r *Root) update(e *Event) *Update {
	uf, rf, _ := reqFields(e.Typ)
	req := e.Args[1]
	u := &Update{Ev: e}
	up := r.nested(e.Mem, req, uf)
	u.Cmd, u.Key, u.Value = up("Cmd"), up("Key"), up("Value")
	u.Reply = r.fieldOf(e.Mem, req, rf)
	return u
}

// nested gives access to the fields of a struct field.
func (r *Root) nested(m *Mem, t *Term, f string) func(string) *Term {
	a := r.A.In.FieldAddr(t, f)
	return func(n string) *Term {
		if v, ok := m.m[r.A.In.FieldAddr(a, n)]; ok {
			return v
		}
		if v, ok := m.m[a]; ok {
			return r.fieldOf(m, v, n)
		}
		v := r.fieldOf(m, t, f)
		if v == nil {
			return nil
		}
		return r.fieldOf(m, v, n)
	}
}

// cmdName names the constant an update's command is.
func (c *Ctx) cmdConst(name string) int64 {
	p := c.R.pkgTypes(storePath)
	if p == nil {
		return -1
	}
	k, _ := p.Scope().Lookup(name).(*types.Const)
	if k == nil {
		return -1
	}
	var n int64
	fmt.Sscan(k.Val().String(), &n)
	return n
}

// ---- counting ----

// runsOut: the loop ends only when its own condition says so.
func runsOut(l *LoopSum) (bool, string) {
	if l.Kind == "callback" {
		return complete(l)
	}
	for _, x := range l.Exits {
		if x.Kind == "fatal" || x.Kind == "panic" {
			continue
		}
		if l.Cond == nil || !hasLit(x.Facts, l.Cond, !l.Stay) {
			return false, "the loop can be left early under " + litsStr(lastLits(x.Facts, 2))
		}
	}
	return true, ""
}

// onlyOnce tells whether every path of the loops around the events runs
// exactly one of them: the events happen once per element.
func total(gs []Gen) (bool, string) {
	if len(gs) == 0 {
		return true, ""
	}
	return totalAt(gs, 0)
}

func totalAt(gs []Gen, level int) (bool, string) {
	if len(gs[0].Iters) == level {
		if len(gs) != 1 {
			return false, fmt.Sprintf("%d times", len(gs))
		}
		return true, ""
	}
	var l *LoopSum
	for _, x := range gs {
		if len(x.Iters) <= level || l != nil && x.Iters[level].L.ID != l.ID {
			return false, "in different loops"
		}
		l = x.Iters[level].L
	}
	if ok, why := complete(l); !ok {
		if ok2, why2 := runsOut(l); !ok2 || l.Kind != "count" {
			if why2 != "" {
				why = why2
			}
			return false, why
		}
	}
	for _, p := range l.Iters {
		var sub []Gen
		for _, x := range gs {
			if x.Iters[level].P == p {
				sub = append(sub, x)
			}
		}
		if len(sub) == 0 {
			if seenBefore(p, gs, level) {
				continue
			}
			return false, "not in iterations with " + litsStr(lits(p.Facts, func(t *Term) bool { return t.Mentions(l.ID) }))
		}
		if len(sub[0].Iters) > level+1 {
			in := sub[0].Iters[level+1].L.ID
			n := countEv(p, func(e *Event) bool { return e.Kind == "loop" && e.Loop.ID == in })
			if n != 1 {
				return false, fmt.Sprintf("the inner loop runs %d times", n)
			}
		}
		if ok, why := totalAt(sub, level+1); !ok {
			return false, why
		}
	}
	return true, ""
}

// seenBefore: the iteration is skipped because its value was met before (a
// local set records every value taken), or because the value is empty.
func seenBefore(p *Path, gs []Gen, level int) bool {
	for _, f := range p.Facts {
		var m, k *Term
		switch {
		case f.T.Op == "lookupok" && f.Val:
			m, k = f.T.A[0], f.T.A[1]
		case f.T.Op == "lookup" && f.Val:
			m, k = f.T.A[0], f.T.A[1]
		case f.T.Op == "eq" && f.Val && len(f.T.A) == 2:
			if s, ok := f.T.A[1].ConstStr(); ok && s == "" {
				for _, g := range gs {
					if g.Val == f.T.A[0] || g.Key == f.T.A[0] {
						return true
					}
				}
			}
		}
		if m == nil || m.Op != "mkmap" {
			continue
		}
		all := true
		for _, g := range gs {
			if g.Val != k && g.Key != k {
				all = false
			}
			n := 0
			for _, e := range g.Iters[level].P.Events {
				if e.Kind == "mapset" && e.Args[0] == m && e.Args[1] == k {
					n++
				}
			}
			if n == 0 {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return false
}

// trip is how often a loop runs when it runs out.
func trip(in *Interner, l *LoopSum) *Term {
	switch l.Kind {
	case "slice", "map":
		if l.Coll != nil {
			return in.Len(l.Coll)
		}
	case "count":
		b, k := linear(stripConv(l.Bound))
		var s int64
		if l.Start != nil {
			s, _ = l.Start.ConstInt()
		}
		if k == s {
			return b
		}
		if c, ok := stripConv(l.Bound).ConstInt(); ok {
			return in.Int(c - s)
		}
	}
	return nil
}

// perPath is the number of the events on each iteration path of the loop they
// are all directly in; nil when they are not in exactly one loop.
func perPath(gs []Gen) (l *LoopSum, n map[*Path]int) {
	n = map[*Path]int{}
	for _, x := range gs {
		if len(x.Iters) != 1 || l != nil && x.Iters[0].L.ID != l.ID {
			return nil, nil
		}
		l = x.Iters[0].L
		n[x.Iters[0].P]++
	}
	return l, n
}

// counts: the value of t is the number of times the events happen.
func (g *Gens) counts(t *Term, gs []Gen) bool {
	t = stripConv(t)
	if n, ok := t.ConstInt(); ok {
		if len(gs) == 0 {
			return n == 0
		}
		for _, x := range gs {
			if len(x.Iters) > 0 {
				return false
			}
		}
		return int(n) == len(gs)
	}
	l, per := perPath(gs)
	if l == nil {
		return false
	}
	one := true
	for _, p := range l.Iters {
		if per[p] != 1 {
			one = false
		}
	}
	if ok, _ := runsOut(l); !ok {
		return false
	}
	if one {
		if tr := trip(g.root.A.In, l); tr != nil && (tr == t || sameLen(tr, t)) {
			return true
		}
		if t.Op == "idx" && s2loop(t.S) == l.ID {
			return true
		}
	}
	// a counter of that loop, or the length of a list filled in it
	list := false
	if t.Op == "len" {
		t, list = t.A[0], true
	}
	if t.Op != "phi" && t.Op != "memphi" {
		return false
	}
	ll, init, next := g.step(t)
	if ll == nil || ll.ID != l.ID || init == nil {
		return false
	}
	if list {
		if !(init.IsNil() || init.Op == "empty" || init.Op == "mkslice" && len(init.A) > 0 && isZeroVal(init.A[0]) || init.Op == "zero" || init.Op == "seq" && len(init.A) == 0) {
			return false
		}
	} else if n, ok := init.ConstInt(); !ok || n != 0 {
		return false
	}
	for _, p := range l.Iters {
		v := next(p)
		if v == nil {
			return false
		}
		if list {
			es, base := v.A, v
			if v.Op == "append" {
				base, es = v.A[0], v.A[1:]
			} else {
				es = nil
			}
			if base != t || len(es) != per[p] {
				return false
			}
			for _, e := range es {
				if e.Op == "spread" {
					return false
				}
			}
			continue
		}
		b, k := linear(v)
		if b != t || int(k) != per[p] {
			return false
		}
	}
	return true
}

func sameLen(a, b *Term) bool {
	return a.Op == "len" && b.Op == "len" && a.A[0] == b.A[0]
}

// gensOf lists the matching events of a path with the loops around them.
func gensOf(p *Path, upto int, f func(e *Event) bool) []Gen {
	var out []Gen
	var rec func(p *Path, upto int, in []IterAt)
	rec = func(p *Path, upto int, in []IterAt) {
		for i, e := range p.Events {
			if i >= upto {
				break
			}
			if f(e) {
				out = append(out, Gen{Ev: e, Path: p, Iters: in})
			}
			if e.Kind == "loop" {
				for _, it := range e.Loop.Iters {
					rec(it, len(it.Events), append(in[:len(in):len(in)], IterAt{e.Loop, it}))
				}
			}
		}
	}
	rec(p, upto, nil)
	return out
}

// balanced: on this path as many replies are received from the channel as
// updates were queued with it ("" or what is wrong).
func (r *Root) balanced(g *Gens, p *Path, upto int, ch *Term) string {
	q := gensOf(p, upto, func(e *Event) bool { return isQueue(e) && r.update(e).Reply == ch })
	v := gensOf(p, upto, func(e *Event) bool { return isReply(e) && e.Args[0] == ch })
	if len(q) == 0 && len(v) == 0 {
		return ""
	}
	if len(v) == 0 {
		return "no reply is received"
	}
	// same loop: one reply after each update
	if ql, qn := perPath(q); ql != nil {
		if vl, vn := perPath(v); vl != nil && vl.ID == ql.ID {
			for _, it := range ql.Iters {
				if qn[it] != vn[it] {
					return fmt.Sprintf("%d updates but %d replies in an iteration", qn[it], vn[it])
				}
			}
			return ""
		}
	}
	flat := true
	for _, x := range v {
		if len(x.Iters) > 0 {
			flat = false
		}
	}
	if flat {
		if g.counts(r.A.In.Int(int64(len(v))), q) {
			return ""
		}
		return fmt.Sprintf("%d replies are received", len(v))
	}
	l, per := perPath(v)
	if l == nil {
		return "the replies are not received in one loop"
	}
	for _, it := range l.Iters {
		if per[it] != 1 {
			return fmt.Sprintf("%d replies are received in an iteration", per[it])
		}
	}
	if l.Kind == "chan" {
		return "replies are received until the channel is closed"
	}
	if ok, why := runsOut(l); !ok {
		return why
	}
	n := trip(r.A.In, l)
	if n == nil {
		// for a while loop on a counter of replies: not recognised
		return "the number of replies is not understood"
	}
	if len(q) == 0 {
		// nothing queued: fine only if the count is zero
		if k, ok := n.ConstInt(); ok && k == 0 {
			return ""
		}
		if v, known := evalFacts(p.Facts, r.A.In.Eq(n, r.A.In.Int(0))); known && v {
			return ""
		}
	}
	if g.counts(n, q) {
		return ""
	}
	return "replies are received " + tstr(n) + " times, which is not the number of updates queued"
}

// covered: the events happen once for every element of the caller's
// collections: their loops are complete and so are the ones that filled the
// local lists they go over.
func (g *Gens) covered(gs []Gen) (bool, string) {
	seen := map[*Term]bool{}
	return g.coveredIn(gs, seen)
}

func (g *Gens) coveredIn(gs []Gen, seen map[*Term]bool) (bool, string) {
	if ok, why := total(gs); !ok {
		return false, why
	}
	for _, x := range gs {
		for _, it := range x.Iters {
			coll := it.L.Coll
			if coll == nil && it.L.Kind == "count" {
				if b := stripConv(it.L.Bound); b.Op == "len" {
					coll = b.A[0]
				}
			}
			if coll == nil || !isLocal(coll) || seen[coll] {
				continue
			}
			seen[coll] = true
			in, ok := g.of(coll)
			if !ok {
				return false, "the list " + tstr(coll) + " is not understood"
			}
			if len(in) == 0 {
				return false, "the list " + tstr(coll) + " stays empty"
			}
			if ok, why := g.coveredIn(in, seen); !ok {
				return false, why
			}
		}
	}
	return true, ""
}

var _ = strings.Contains
var _ *ssa.Function
