package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Gen is one way an element gets into a local collection (slice, map or
// array): the element and the loop iterations in which that happens.
type Gen struct {
	Key, Val *Term
	Spread   bool // Val is a whole collection
	Iters    []IterAt
	Path     *Path  // innermost path
	Ev       *Event // the insertion, when it is an event
}

// IterAt is an iteration path of a loop.
type IterAt struct {
	L *LoopSum
	P *Path
}

// Gens resolves the contents of the local collections of one root.
type Gens struct {
	root  *Root
	loops map[string]*LoopSum
	all   map[string][]*LoopSum // a loop is summarised once for each state it is reached in
	sets  map[*Term][]Gen       // insertion events by map / array
	memo  map[*Term][]Gen
	ok    map[*Term]bool
	busy  map[*Term]bool
}

func (r *Root) Gens() *Gens {
	g := &Gens{root: r, loops: map[string]*LoopSum{}, all: map[string][]*LoopSum{}, sets: map[*Term][]Gen{}, memo: map[*Term][]Gen{}, ok: map[*Term]bool{}, busy: map[*Term]bool{}}
	seen := map[string]bool{}
	r.Walk(func(e *Event, at *At) {
		if e.Kind == "loop" {
			if g.loops[e.Loop.ID] == nil {
				g.loops[e.Loop.ID] = e.Loop
			}
			dup := false
			for _, l := range g.all[e.Loop.ID] {
				dup = dup || l == e.Loop
			}
			if !dup {
				g.all[e.Loop.ID] = append(g.all[e.Loop.ID], e.Loop)
			}
		}
		var coll, k, v *Term
		switch e.Kind {
		case "mapset":
			coll, k, v = e.Args[0], e.Args[1], e.Args[2]
		case "store":
			if e.Args[0].Op == "indexaddr" {
				coll, k, v = e.Args[0].A[0], e.Args[0].A[1], e.Args[1]
			}
		case "call":
			if e.Name == "(*sync.Map).Store" && len(e.Args) == 3 {
				coll, k, v = e.Args[0], e.Args[1], e.Args[2]
			}
		}
		if coll == nil {
			return
		}
		gn := Gen{Key: k, Val: v, Iters: at.iters(), Path: at.Path, Ev: e}
		// the same insertion seen on several paths counts once
		id := ""
		for _, it := range gn.Iters {
			id += it.L.ID + ";"
		}
		id += e.Kind + strID(coll) + strID(k) + strID(v) + factStr(at.Path.Facts)
		if seen[id] {
			return
		}
		seen[id] = true
		g.sets[coll] = append(g.sets[coll], gn)
	})
	return g
}

func strID(t *Term) string { return t.key }

func factStr(fs []Lit) string {
	var b strings.Builder
	for _, f := range fs {
		b.WriteString(f.T.key)
		if f.Val {
			b.WriteByte('+')
		} else {
			b.WriteByte('-')
		}
	}
	return b.String()
}

// iters lists the loop iterations around a position, outermost first, within
// its goroutine.
func (at *At) iters() []IterAt {
	var out []IterAt
	for x := at; x != nil && !x.Thread; x = x.Up {
		if x.Ev != nil && x.Ev.Kind == "loop" {
			out = append([]IterAt{{x.Ev.Loop, x.Path}}, out...)
		}
	}
	return out
}

// of lists the ways elements get into coll; ok=false when the collection is
// also changed in ways that are not understood.
func (g *Gens) of(coll *Term) ([]Gen, bool) {
	if v, ok := g.memo[coll]; ok {
		return v, g.ok[coll]
	}
	if g.busy[coll] {
		return nil, false
	}
	g.busy[coll] = true
	v, ok := g.compute(coll)
	g.busy[coll] = false
	g.memo[coll], g.ok[coll] = v, ok
	return v, ok
}

func (g *Gens) compute(t *Term) ([]Gen, bool) {
	switch t.Op {
	case "mkmap", "mkslice":
		return g.sets[t], true
	case "fieldaddr", "obj", "load":
		return g.sets[t], true
	case "const", "empty", "zero":
		return nil, true
	case "seq", "append":
		var out []Gen
		ok := true
		es := t.A
		if t.Op == "append" {
			b, o := g.of(t.A[0])
			out, ok = append(out, b...), o
			es = t.A[1:]
		}
		for _, e := range es {
			if e.Op == "spread" {
				b, o := g.of(e.A[0])
				if o {
					out = append(out, b...)
				} else {
					out = append(out, Gen{Val: e.A[0], Spread: true})
				}
				continue
			}
			out = append(out, Gen{Val: e})
		}
		return out, ok
	case "sliceof":
		return nil, true
	case "join":
		var out []Gen
		ok := true
		for _, x := range t.A {
			b, o := g.of(x)
			out, ok = append(out, b...), ok && o
		}
		return out, ok
	case "phi", "memphi":
		return g.accum(t)
	}
	return nil, false
}

// step is the value of an accumulator at the start and after an iteration.
// Where the loop is reached with different values the start is their "join".
func (g *Gens) step(t *Term) (l *LoopSum, init *Term, next func(p *Path) *Term) {
	for _, m := range g.all[s2loop(t.S)] {
		i, n := g.stepOf(m, t)
		if l == nil {
			l, init, next = m, i, n
			continue
		}
		switch {
		case i == init || i == nil || init == nil:
			if i != init {
				return l, nil, next
			}
		case init.Op == "join":
			has := false
			for _, x := range init.A {
				has = has || x == i
			}
			if !has {
				init = g.root.A.In.mk("join", "", init.Typ, nil, append(append([]*Term{}, init.A...), i)...)
			}
		default:
			init = g.root.A.In.mk("join", "", init.Typ, nil, init, i)
		}
	}
	if next == nil {
		return nil, nil, nil
	}
	return l, init, next
}

// stepOf is step for one of the loop's summaries.
func (g *Gens) stepOf(l *LoopSum, t *Term) (init *Term, next func(p *Path) *Term) {
	if t.Op == "phi" {
		p, _ := t.Aux.(*ssa.Phi)
		if p == nil {
			return nil, nil
		}
		return l.Init[p], func(q *Path) *Term { return q.Back[p] }
	}
	k, _ := t.Aux.(*Term)
	if k == nil {
		return nil, nil
	}
	mi := l.MemPhi[k].Init
	if mi == nil && k.Op == "obj" && k.Typ != nil {
		// a variable that has not been assigned yet
		mi = g.root.A.In.zero(k.Typ)
	}
	if mi == nil && k.Op == "fieldaddr" && k.A[0].Op == "obj" {
		if st := structOf(k.A[0].Typ); st != nil {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == k.S {
					mi = g.root.A.In.zero(st.Field(i).Type())
				}
			}
		}
	}
	return mi, func(q *Path) *Term {
		if q.Mem == nil {
			return nil
		}
		if v, ok := q.Mem.m[k]; ok {
			return v
		}
		return t
	}
}

func (g *Gens) accum(t *Term) ([]Gen, bool) {
	_, init, next := g.step(t)
	if next == nil {
		return nil, false
	}
	var out []Gen
	ok := true
	if init != nil {
		out, ok = g.of(init)
	}
	seen := map[*Path]bool{}
	for _, l := range g.all[s2loop(t.S)] {
		for _, p := range l.Iters {
			if seen[p] {
				continue
			}
			seen[p] = true
			_, next := g.stepOf(l, t)
			d, o := g.delta(next(p), t)
			if !o {
				ok = false
			}
			for _, x := range d {
				x.Iters = append([]IterAt{{l, p}}, x.Iters...)
				if x.Path == nil {
					x.Path = p
				}
				out = append(out, x)
			}
		}
	}
	return out, ok
}

// delta lists what v adds to base.
func (g *Gens) delta(v, base *Term) ([]Gen, bool) {
	if v == base {
		return nil, true
	}
	if v == nil {
		return nil, false
	}
	switch v.Op {
	case "join":
		var out []Gen
		for _, x := range v.A {
			d, ok := g.delta(x, base)
			if !ok {
				return nil, false
			}
			out = append(out, d...)
		}
		return out, true
	case "append":
		out, ok := g.delta(v.A[0], base)
		for _, e := range v.A[1:] {
			if e.Op == "spread" {
				b, o := g.of(e.A[0])
				if o {
					out = append(out, b...)
				} else {
					out = append(out, Gen{Val: e.A[0], Spread: true})
				}
				continue
			}
			out = append(out, Gen{Val: e})
		}
		return out, ok
	case "phi", "memphi":
		l, init, next := g.step(v)
		if l == nil || init == nil {
			return nil, false
		}
		out, ok := g.delta(init, base)
		for _, p := range l.Iters {
			d, o := g.delta(next(p), v)
			if !o {
				ok = false
			}
			for _, x := range d {
				x.Iters = append([]IterAt{{l, p}}, x.Iters...)
				if x.Path == nil {
					x.Path = p
				}
				out = append(out, x)
			}
		}
		return out, ok
	}
	return nil, false
}

// isLocal: a collection built by the code itself.
func isLocal(t *Term) bool {
	switch t.Op {
	case "mkmap", "mkslice", "phi", "memphi", "seq", "append":
		return true
	}
	return false
}

// Expand rewrites elements and keys of local collections into what was put
// there. The loop tag of the element is kept (prefixed to the tags inside).
func (g *Gens) Expand(t *Term) *Term { return g.expand(t, 0) }

func (g *Gens) expand(t *Term, d int) *Term {
	if t == nil || d > 12 {
		return t
	}
	in := g.root.A.In
	args := make([]*Term, len(t.A))
	ch := false
	for i, x := range t.A {
		args[i] = g.expand(x, d+1)
		if args[i] != x {
			ch = true
		}
	}
	if (t.Op == "elem" || t.Op == "key") && len(t.A) == 1 {
		coll := t.A[0]
		if coll.Op == "slice" && isLocal(coll.A[0]) {
			coll = coll.A[0]
		}
		if isLocal(coll) || g.sets[coll] != nil && coll.Op != "fieldaddr" {
			if gs, ok := g.of(coll); ok && len(gs) > 0 {
				var r *Term
				for _, x := range gs {
					v := x.Val
					if t.Op == "key" {
						v = x.Key
					}
					if x.Spread || v == nil {
						r = nil
						break
					}
					w := g.retag(v, s2loop(t.S), x.Iters)
					w = g.expand(w, d+1)
					if r != nil && r != w {
						r = nil
						break
					}
					r = w
				}
				if r != nil {
					return r
				}
			}
		}
	}
	if t.Op == "lookup" && len(args) == 2 && args[1].Op == "key" && len(args[1].A) == 1 && args[1].A[0] == args[0] {
		return in.mk("elem", args[1].S, t.Typ, nil, args[0])
	}
	if t.Op == "index" && len(args) == 2 && args[1].Op == "idx" {
		return in.mk("elem", args[1].S, t.Typ, nil, args[0])
	}
	if !ch {
		return t
	}
	return in.mk(t.Op, t.S, t.Typ, t.Aux, args...)
}

// retag renames the loop tags of a generator: the element tag comes from the
// loop that reads the collection.
func (g *Gens) retag(t *Term, tag string, its []IterAt) *Term {
	ids := map[string]string{}
	for _, it := range its {
		ids[it.L.ID] = tag + "/" + it.L.ID
	}
	return g.rename(t, ids)
}

func (g *Gens) rename(t *Term, ids map[string]string) *Term {
	if t == nil || len(ids) == 0 {
		return t
	}
	any := false
	for l := range t.loop {
		if ids[l] != "" {
			any = true
		}
	}
	if !any {
		return t
	}
	args := make([]*Term, len(t.A))
	for i, x := range t.A {
		args[i] = g.rename(x, ids)
	}
	s := t.S
	switch t.Op {
	case "idx", "elem", "key":
		if n := ids[s2loop(t.S)]; n != "" {
			s = n + t.S[len(s2loop(t.S)):]
		}
	}
	return g.root.A.In.mk(t.Op, s, t.Typ, t.Aux, args...)
}

// Complete: the loop visits all elements of its collection, whatever happens
// in an iteration. why tells what else may happen.
func complete(l *LoopSum) (bool, string) {
	switch l.Kind {
	case "slice", "map", "callback":
	default:
		return false, "the loop does not visit a whole collection (kind " + l.Kind + ")"
	}
	for _, p := range l.Iters {
		if p.Stop {
			return false, "the iteration can be stopped early"
		}
	}
	for _, x := range l.Exits {
		if x.Kind == "fatal" || x.Kind == "panic" {
			continue
		}
		if l.Cond == nil || !hasLit(x.Facts, l.Cond, !l.Stay) {
			if l.Kind == "callback" {
				return false, "the iteration can be left early"
			}
			return false, "the loop can be left before the last element (" + x.Kind + ")"
		}
	}
	return true, ""
}

// isType: the printed type.
func isType(t types.Type, s string) bool { return t != nil && t.String() == s }

// countIn counts events of a path, including those of inner loops' iterations
// only when f asks for them.
func countEv(p *Path, f func(e *Event) bool) int {
	n := 0
	for _, e := range p.Events {
		if f(e) {
			n++
		}
	}
	return n
}

// lits returns the facts whose term satisfies f.
func lits(facts []Lit, f func(t *Term) bool) []Lit {
	var out []Lit
	for _, l := range facts {
		if f(l.T) {
			out = append(out, l)
		}
	}
	return out
}
