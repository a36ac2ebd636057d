package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mapLoop names the shared map a loop visits.
func mapLoop(l *LoopSum) string {
	if l.Kind == "callback" && l.Coll != nil && l.Callee == "(*sync.Map).Range" {
		return mapField(l.Coll)
	}
	return ""
}

// removal is one operation on a shared map done for an entry met by a loop.
type removal struct {
	field, method string
	ev            *Event
	sameKey       bool
}

// ruleExpiry: which entries the clean-up removes.
func ruleExpiry(c *Ctx) {
	for _, n := range c.incoming("C04,C22") {
		n.expiry()
	}
}

func (n *incoming) expiry() {
	c, root := n.c, n.root
	where := c.FnWhere(root.Fn)
	// the loop around everything
	var cycles []*At // iterations of the endless loop that applies updates
	seen := map[*Path]bool{}
	root.WalkAll(func(e *Event, at *At) {
		if e.Kind != "recv" || !isUpd(e) {
			return
		}
		x := at
		for x.Up != nil && !x.Up.Thread && x.Up.Up != nil && !x.Thread && x.Up.Ev != nil && x.Up.Ev.Kind == "loop" {
			x = x.Up
		}
		if x.Ev != nil && x.Ev.Kind == "loop" && !seen[x.Path] {
			seen[x.Path] = true
			cycles = append(cycles, x)
			for _, it := range x.Ev.Loop.Iters {
				if !seen[it] {
					seen[it] = true
					cycles = append(cycles, &At{Up: x.Up, Ev: x.Ev, Path: it, Root: root})
				}
			}
		}
	})
	c.Ob("C22", len(cycles) > 0, where, "cleaning is part of the loop that applies updates", "no loop found")
	memo := map[string]bool{}
	applied := map[*Event]bool{}
	root.WalkAll(func(e *Event, at *At) {
		if f, _ := mutates(e); f != "" {
			for _, k := range e.Args[1:] {
				if k.Any(func(t *Term) bool {
					return t.Op == "field" && t.S == "Key" && strings.HasSuffix(strings.TrimPrefix(typeStr(t.A[0].Typ), "*"), "StateUpdate")
				}) {
					applied[e] = true
				}
			}
		}
	})
	known := map[*Event]bool{}
	for _, cy := range cycles {
		stop := false
		for _, e := range cy.Path.Events {
			stop = stop || isStop(e)
		}
		if stop {
			continue
		}
		for _, field := range []string{"InactiveSet", "Tickets", "Assignments"} {
			cnt := 0
			var found *LoopSum
			for _, e := range cy.Path.Events {
				if e.Kind != "loop" || mapLoop(e.Loop) != field {
					continue
				}
				ops := n.removals(cy.Path, e.Loop)
				rel := false
				for _, rs := range ops {
					for _, r := range rs {
						rel = true
						known[r.ev] = true
					}
				}
				if !rel {
					continue
				}
				cnt++
				found = e.Loop
				if memo[e.Loop.ID] {
					continue
				}
				memo[e.Loop.ID] = true
				n.cleaned(field, e.Loop, ops)
			}
			_ = found
			if stop {
				continue
			}
			c.Ob("C22", cnt == 1, c.LoopWhere(cy.Ev.Loop), "every cycle cleans "+field, fmt.Sprintf("it does %d times under %s", cnt, litsStr(lastLits(cy.Path.Facts, 3))))
		}
	}
	// nothing else is removed or put back
	bad := map[string]bool{}
	root.WalkAll(func(e *Event, at *At) {
		f, m := mutates(e)
		if f == "" || known[e] || applied[e] {
			return
		}
		w := c.Where(e)
		if bad[w] {
			return
		}
		bad[w] = true
		c.Ob("C04,C22", false, w, "entries are changed only by updates and when they are expired", m+" on "+f+" with key "+tstr(e.Args[len(e.Args)-1]))
	})
}

// removals lists for each iteration of a loop over a map the changes made for
// that entry, directly or through a list of keys collected by the loop.
func (n *incoming) removals(p *Path, l *LoopSum) map[*Path][]removal {
	out := map[*Path][]removal{}
	isKey := func(t *Term) bool {
		t = normKey(t)
		return t != nil && t.Op == "key" && s2loop(t.S) == l.ID
	}
	for _, it := range l.Iters {
		for _, e := range it.Events {
			if f, m := mutates(e); f != "" {
				out[it] = append(out[it], removal{f, m, e, len(e.Args) > 1 && isKey(e.Args[1])})
			}
		}
	}
	for _, e := range p.Events {
		if e.Kind != "loop" || e.Loop == l || e.Loop.Coll == nil || !isLocal(e.Loop.Coll) {
			continue
		}
		gs, ok := n.g.of(e.Loop.Coll)
		if !ok {
			continue
		}
		for _, g := range gs {
			if len(g.Iters) == 0 || g.Iters[0].L.ID != l.ID || !isKey(g.Val) && !isKey(orNil(g.Key)) {
				continue
			}
			full, why := complete(e.Loop)
			for _, it := range e.Loop.Iters {
				var rs []removal
				for _, x := range it.Events {
					if f, m := mutates(x); f != "" {
						k := x.Args[1]
						same := k.Op == "elem" && k.A[0] == e.Loop.Coll && isKey(g.Val) || k.Op == "key" && k.A[0] == e.Loop.Coll && g.Key != nil && isKey(g.Key)
						rs = append(rs, removal{f, m, x, same})
					}
				}
				if len(rs) == 0 {
					n.c.Ob("C22", len(e.Loop.Iters) == 1, n.c.LoopWhere(e.Loop), "every entry collected for removal is removed", "not under "+litsStr(lastLits(it.Facts, 2)))
					continue
				}
				n.c.Ob("C22", full, n.c.LoopWhere(e.Loop), "every entry collected for removal is removed", why)
				out[g.Iters[0].P] = append(out[g.Iters[0].P], rs...)
			}
		}
	}
	return out
}

// own are the facts of an iteration that are not about what happened before
// the loop.
func own(it *Path, l *LoopSum) []Lit {
	var out []Lit
	for _, f := range it.Facts {
		all := true
		for _, o := range l.Iters {
			all = all && hasLit(o.Facts, f.T, f.Val)
		}
		if !all || f.T.Mentions(l.ID) {
			out = append(out, f)
		}
	}
	return out
}

// cleaned is the decision table of one clean-up loop.
func (n *incoming) cleaned(field string, l *LoopSum, ops map[*Path][]removal) {
	c := n.c
	w := c.LoopWhere(l)
	ok, why := complete(l)
	c.Ob("C22", ok, w, "the cleaning of "+field+" looks at every entry", why)
	const created = int64(1_700_000_000_000)
	type tc struct {
		ttl, extra, age int64 // seconds, seconds, ms
		gone, free      bool
	}
	var cases []tc
	for _, ttl := range []int64{1, 600, 90000} {
		for _, extra := range []int64{0, 300} {
			switch field {
			case "InactiveSet":
				cases = append(cases, tc{ttl, extra, ttl * 1000, false, false}, tc{ttl, extra, ttl*1000 + 1, true, false}, tc{ttl, extra, 0, false, false}, tc{ttl, extra, ttl*1000 + 500_000, true, false}, tc{ttl, extra, ttl*1000 - 1, false, false}, tc{ttl, extra, -5, false, false})
			case "Assignments":
				t := (ttl + extra) * 1000
				cases = append(cases, tc{ttl, extra, t, false, false}, tc{ttl, extra, t + 1, true, false}, tc{ttl, extra, 0, false, false}, tc{ttl, extra, t + 500_000, true, false}, tc{ttl, extra, t - 1, false, false}, tc{ttl, extra, -5, false, false})
			case "Tickets":
				// age: time since the expiration time
				cases = append(cases, tc{ttl, extra, -1, false, false}, tc{ttl, extra, 0, false, true}, tc{ttl, extra, 1, true, false}, tc{ttl, extra, 1e9, true, false}, tc{ttl, extra, -1e9, false, false})
			}
		}
	}
	for _, x := range cases {
		if x.free {
			continue
		}
		sc := &Scenario{}
		sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
		sc.Val = func(t *Term, _ Inst) (any, bool) {
			switch {
			case t.Op == "key" && s2loop(t.S) == l.ID:
				return fmt.Sprintf("%d-7", created), true
			case t.Op == "conf" && t.S == "OM_CACHE_TICKET_TTL_SECS":
				return x.ttl, true
			case t.Op == "conf" && t.S == "OM_CACHE_ASSIGNMENT_ADDITIONAL_TTL_SECS":
				return x.extra, true
			case t.Op == "now":
				return (created + x.age) * 1e6, true
			case t.Op == "field" && t.S == "ExpirationTime" && t.A[0].Op == "elem" && s2loop(t.A[0].S) == l.ID:
				return created * 1e6, true
			case t.Op == "assertok":
				return true, true
			case t.Op == "eq" && t.A[1].IsNil() && t.A[0].Op == "field" && t.A[0].S == "ExpirationTime":
				return false, true
			case t.Op == "app" && strings.HasSuffix(t.S, "Timestamp).IsValid"):
				return true, true
			case t.Op == "app" && strings.HasSuffix(t.S, "Timestamp).CheckValid"):
				return errNone, true
			}
			return nil, false
		}
		what := fmt.Sprintf("entry of %s %d ms old, lifetimes %d s and %d s", field, x.age, x.ttl, x.extra)
		if field == "Tickets" {
			what = fmt.Sprintf("ticket whose expiration time is %d ms ago", x.age)
		}
		n2 := 0
		for _, it := range l.Iters {
			if !sc.consistent(own(it, l), Inst{}) {
				continue
			}
			n2++
			var got []string
			bad := ""
			for _, r := range ops[it] {
				s := r.field
				switch r.method {
				case "Delete", "LoadAndDelete", "CompareAndDelete":
					s += "-"
				default:
					s += " " + r.method
				}
				got = append(got, s)
				if !r.sameKey {
					bad = "it changes the entry of another key (" + s + ")"
				}
			}
			want := ""
			if x.gone {
				want = field + "-"
				if field == "InactiveSet" {
					want = "Tickets- InactiveSet-"
				}
			}
			g := strings.Join(got, " ")
			same := g == want
			if field == "InactiveSet" && x.gone && g == "InactiveSet- Tickets-" {
				same = true
				c.Ob("C04", false, w, "an expired ticket stops being visible before its inactive mark is removed", "the mark is removed first")
			}
			if field == "Tickets" && !x.gone && g == "" || same {
				same = true
			}
			if x.gone {
				c.Ob("C22", same, w, what+": removed", "done: ["+g+"] under "+litsStr(lastLits(it.Facts, 3)))
			} else {
				c.Ob("C22", same, w, what+": kept", "done: ["+g+"] under "+litsStr(lastLits(it.Facts, 3)))
			}
			if field == "InactiveSet" {
				c.Ob("C04", same || x.gone && !strings.Contains(g, "InactiveSet-") || !x.gone && !strings.Contains(g, "InactiveSet-"), w, what+": an inactive mark is removed only after its ticket", "done: ["+g+"]")
			}
			if g != "" {
				c.Ob("C22", bad == "", w, what+": the entry looked at is removed", bad)
			}
		}
		c.Ob("C22", n2 > 0, w, what+": decided", "no path is possible")
	}
}

// ---- C21 ----

// ruleWriters: who can change the shared maps.
func ruleWriters(c *Ctx) {
	// functions that change a field of the cache
	cacheT := ""
	type site struct {
		f   *ssa.Function
		ins ssa.Instruction
		fld string
	}
	var sites []site
	for _, f := range c.R.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if fa, ok := ins.(*ssa.FieldAddr); ok {
					t := deref(fa.X.Type())
					n, _ := fieldName(fa.X.Type(), fa.Field)
					if n == "InactiveSet" && strings.HasSuffix(typeStr(t), "ReplicatedTicketCache") {
						cacheT = typeStr(t)
					}
				}
			}
		}
	}
	c.Ob("C21", cacheT != "", "core", "the shared cache exists", "no type ReplicatedTicketCache with a field InactiveSet")
	for _, f := range c.R.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || typeStr(deref(fa.X.Type())) != cacheT {
					continue
				}
				_, ft := fieldName(fa.X.Type(), fa.Field)
				n, _ := fieldName(fa.X.Type(), fa.Field)
				if typeStr(ft) != "sync.Map" {
					continue
				}
				for _, u := range c.mutations(fa, map[ssa.Value]bool{}) {
					sites = append(sites, site{u.Parent(), u, n})
				}
			}
		}
	}
	for _, f := range c.R.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || !strings.HasPrefix(g.String(), "(*sync.Map).") {
					continue
				}
				switch g.Name() {
				case "Store", "Delete", "LoadAndDelete", "LoadOrStore", "Swap", "CompareAndSwap", "CompareAndDelete", "Clear":
					switch ci.Common().Args[0].(type) {
					case *ssa.FieldAddr, *ssa.Alloc, *ssa.Global, *ssa.Parameter, *ssa.FreeVar:
					default:
						sites = append(sites, site{f, ins, "a map that may be shared"})
					}
				}
			}
		}
	}
	drv := c.drivers("C21", "GetUpdates")
	isDrv := map[*ssa.Function]bool{}
	for _, d := range drv {
		isDrv[d] = true
	}
	// functions reachable without passing through the driver
	callers := c.R.callers()
	c.Ob("C21", len(sites) > 0, "core", "the shared maps are changed somewhere", "no change found")
	for _, s := range sites {
		path, ok := c.outside(s.f, isDrv, callers)
		c.Ob("C21", !ok, c.R.Pos(s.ins.Pos())+" ("+fnShort(s.f)+")", s.fld+" is changed only by the goroutine that applies updates", "it can also be reached through "+path)
	}
	// nothing in the driver's goroutines but its own changes the maps
	for _, n := range c.incoming("C21") {
		var main string
		n.root.WalkAll(func(e *Event, at *At) {
			if e.Kind == "recv" && isUpd(e) {
				main = at.thread()
			}
		})
		seen := map[string]bool{}
		n.root.WalkAll(func(e *Event, at *At) {
			if f, m := mutates(e); f != "" {
				w := c.Where(e)
				if at.thread() != main {
					c.Ob("C21", false, w, "one goroutine changes the shared maps", m+" on "+f+" in another goroutine")
				} else if !seen[w] {
					seen[w] = true
					c.Ob("C21", true, w, "one goroutine changes the shared maps", "")
				}
			}
		})
	}
	// cached messages are never assigned to
	roots := c.rpcs("C21")
	for _, n := range c.incoming("C21") {
		roots = append(roots, n.root)
	}
	for _, r := range roots {
		cnt := 0
		r.WalkAll(func(e *Event, at *At) {
			if e.Kind != "store" && e.Kind != "mapset" && e.Kind != "mapdel" {
				return
			}
			x := e.Args[0]
			cached := insideCached(r.Gens(), x, 0)
			cnt++
			if cached {
				c.Ob("C21", false, c.Where(e), "a cached message is not changed", "assignment to "+tstr(x))
			}
		})
		c.Ob("C21", true, c.FnWhere(r.Fn), "a cached message is not changed", "")
		_ = cnt
	}
}

// insideCached: an address or container inside a value read from a shared
// map, directly or by way of local collections it was put in.
func insideCached(g *Gens, x *Term, depth int) bool {
	if depth > 4 {
		return false
	}
	for t := x; t != nil; t = t.A[0] {
		if fromCache(t) {
			return true
		}
		if t.Op == "elem" || t.Op == "lookup" {
			gens, _ := g.of(t.A[0])
			for _, n := range gens {
				if n.Val != nil && insideCached(g, n.Val, depth+1) {
					return true
				}
			}
		}
		if len(t.A) == 0 {
			break
		}
	}
	return false
}

// fromCache: a value read from a shared map.
func fromCache(t *Term) bool {
	switch t.Op {
	case "elem", "key":
		return mapField(t.A[0]) != "" && t.Op == "elem"
	case "res":
		return len(t.A) > 0 && fromCache(t.A[0])
	case "call":
		return strings.HasPrefix(t.S, "(*sync.Map).Load@")
	}
	return false
}

// mutations lists the instructions that change the map at an address.
func (c *Ctx) mutations(v ssa.Value, seen map[ssa.Value]bool) []ssa.Instruction {
	if seen[v] {
		return nil
	}
	seen[v] = true
	var out []ssa.Instruction
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case ssa.CallInstruction:
			cc := x.Common()
			f := cc.StaticCallee()
			for i, a := range cc.Args {
				if a != v {
					continue
				}
				if f == nil {
					out = append(out, x)
					continue
				}
				if strings.HasPrefix(f.String(), "(*sync.Map).") {
					switch f.Name() {
					case "Store", "Delete", "LoadAndDelete", "LoadOrStore", "Swap", "CompareAndSwap", "CompareAndDelete", "Clear":
						out = append(out, x)
					}
					continue
				}
				if c.R.InRepo(f) && i < len(f.Params) {
					out = append(out, c.mutations(f.Params[i], seen)...)
				} else if len(f.Blocks) == 0 || !c.R.InRepo(f) {
					out = append(out, x)
				}
			}
		case *ssa.Store:
			// a pointer kept in memory is looked for at its use
			if x.Addr == v {
				out = append(out, x)
			}
		case *ssa.MakeClosure:
			for i, b := range x.Bindings {
				if b == v {
					out = append(out, c.mutations(x.Fn.(*ssa.Function).FreeVars[i], seen)...)
				}
			}
		case *ssa.Phi:
			out = append(out, c.mutations(x, seen)...)
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeInterface:
			out = append(out, c.mutations(x, seen)...)
		case *ssa.FieldAddr:
		default:
			out = append(out, r)
		}
	}
	return out
}

// callers maps each function to those that refer to it.
func (r *Repo) callers() map[*ssa.Function][]*ssa.Function {
	out := map[*ssa.Function][]*ssa.Function{}
	for _, f := range r.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						out[g] = append(out[g], f)
						if g.Synthetic != "" {
							// a method taken as a value
							for _, wb := range g.Blocks {
								for _, wi := range wb.Instrs {
									if ci, ok := wi.(ssa.CallInstruction); ok {
										if m := ci.Common().StaticCallee(); m != nil && m != g {
											out[m] = append(out[m], f)
										}
									}
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

// outside finds a way to call f other than through the driver.
func (c *Ctx) outside(f *ssa.Function, drv map[*ssa.Function]bool, callers map[*ssa.Function][]*ssa.Function) (string, bool) {
	type node struct {
		f    *ssa.Function
		path string
	}
	work := []node{{f, fnShort(f)}}
	seen := map[*ssa.Function]bool{}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		if seen[n.f] || drv[n.f] {
			continue
		}
		seen[n.f] = true
		cs := callers[n.f]
		if len(cs) == 0 {
			// not called at all: an entry point (handler, main, init or exported)
			return n.path, true
		}
		for _, x := range cs {
			work = append(work, node{x, n.path + " <- " + fnShort(x)})
		}
	}
	return "", false
}
