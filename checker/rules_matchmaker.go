package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C33: the example matchmaker. Ids that wait for activation are conserved from
// the queue to the calls, calls stay within the limit of the server and have
// ended when the function returns; each match that is received is counted once,
// and the tickets of the ones that are rejected are queued again.

func init() {
	rule("matchmaker", "C33", "ids taken from the queue are in exactly one activation call each, of at most the server's default number of updates, awaited; each match received is counted and kept once; all tickets of rejected matches are queued without waiting for a reader that does not run", ruleMatchmaker)
}

const matchmakerPath = "open-match.dev/matchmaker-sample"

// isIDQueue: ids are taken from a queue of ids.
func isIDQueue(e *Event) bool {
	return e.Kind == "recv" && e.Typ != nil && types.Identical(e.Typ, types.Typ[types.String])
}

// activators: the smallest functions of the package that both take ids from a
// queue and activate tickets.
func (c *Ctx) activators() []*ssa.Function {
	var fs []*ssa.Function
	for _, f := range c.R.Funcs {
		if pkgPathOf(f) == matchmakerPath && f.Parent() == nil {
			fs = append(fs, f)
		}
	}
	type traits struct{ take, act bool }
	own := map[*ssa.Function]traits{}
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, f := range fs {
		var t traits
		calls[f] = map[*ssa.Function]bool{}
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					switch x := ins.(type) {
					case *ssa.UnOp:
						if ch, ok := x.X.Type().Underlying().(*types.Chan); ok && types.Identical(ch.Elem(), types.Typ[types.String]) {
							t.take = true
						}
					case *ssa.Select:
						for _, st := range x.States {
							if ch, ok := st.Chan.Type().Underlying().(*types.Chan); ok && st.Dir == types.RecvOnly && types.Identical(ch.Elem(), types.Typ[types.String]) {
								t.take = true
							}
						}
					case *ssa.Alloc:
						if strings.HasSuffix(deref(x.Type()).String(), ".ActivateTicketsRequest") {
							t.act = true
						}
					}
					for _, op := range ins.Operands(nil) {
						if h, ok := (*op).(*ssa.Function); ok && pkgPathOf(h) == matchmakerPath && h.Parent() == nil {
							calls[f][h] = true
						}
					}
				}
			}
			for _, h := range g.AnonFuncs {
				visit(h)
			}
		}
		visit(f)
		own[f] = t
	}
	all := map[*ssa.Function]traits{}
	for _, f := range fs {
		var t traits
		seen := map[*ssa.Function]bool{}
		var rec func(g *ssa.Function)
		rec = func(g *ssa.Function) {
			if seen[g] {
				return
			}
			seen[g] = true
			t.take, t.act = t.take || own[g].take, t.act || own[g].act
			for h := range calls[g] {
				rec(h)
			}
		}
		rec(f)
		all[f] = t
	}
	var out []*ssa.Function
	for _, f := range fs {
		if !all[f].take || !all[f].act {
			continue
		}
		small := true
		for h := range calls[f] {
			if h != f && all[h].take && all[h].act {
				small = false
			}
		}
		if small {
			out = append(out, f)
		}
	}
	return out
}

func ruleMatchmaker(c *Ctx) {
	acts := c.activators()
	c.Ob("C33", len(acts) == 1, "matchmaker-example", "one function takes ids from the queue and activates them", fmt.Sprintf("%d found", len(acts)))
	if len(acts) != 1 {
		return
	}
	c.activate(acts[0])
	c.matches(acts[0])
	c.created(acts[0])
}

// serverLimit: the default of the number of updates in a call.
func (c *Ctx) serverLimit() (int64, bool) {
	var out []int64
	for _, v := range c.viperCalls() {
		if v.name != "SetDefault" || len(v.args) < 2 {
			continue
		}
		k := &constants{c, map[ssa.Value]bool{}}
		keys, _ := k.of(v.args[0])
		vals, _ := k.of(v.args[1])
		for _, key := range keys {
			if key.val == nil || key.val.Kind() != constant.String || !strings.EqualFold(constant.StringVal(key.val), "OM_MAX_STATE_UPDATES_PER_CALL") {
				continue
			}
			for _, x := range vals {
				if _, fits := key.in.and(x.in); !fits || x.val == nil {
					continue
				}
				if n, ok := constant.Int64Val(constant.ToInt(x.val)); ok {
					out = append(out, n)
				}
			}
		}
	}
	if len(out) != 1 {
		return 0, false
	}
	return out[0], true
}

// activation is a call that activates tickets.
type activation struct {
	at  *At
	ids *Term
	sp  *Event // the goroutine it is made in
}

// idsOf: the ids in the request that the event sends.
func idsOf(root *Root, calls map[*Term]*Event, e *Event, at *At) *Term {
	if e.Kind != "call" {
		return nil
	}
	list := func(req *Term) *Term {
		req = stripConv(req)
		if req == nil || !strings.HasSuffix(typeStr(req.Typ), ".ActivateTicketsRequest") && !msgNamed(req, "ActivateTicketsRequest") {
			return nil
		}
		m := e.Mem
		if m == nil {
			m = at.Path.Mem
		}
		return root.fieldOf(m, req, "TicketIds")
	}
	if strings.HasSuffix(e.Name, ".OpenMatchServiceClient).ActivateTickets") {
		return list(e.Args[2])
	}
	if e.Name == "(*net/http.Client).Do" {
		r := e.Args[1]
		if r.Op != "res" || calls[r.A[0]] == nil {
			return nil
		}
		mk := calls[r.A[0]]
		if !strings.HasPrefix(mk.Name, "net/http.NewRequest") {
			return nil
		}
		var out *Term
		cut := false
		for _, a := range mk.Args {
			a.Any(func(x *Term) bool {
				if msgNamed(x, "ActivateTicketsRequest") && out == nil {
					out = root.fieldOf(nil, x, "TicketIds")
				}
				if (x.Op == "slice" || x.Op == "empty") && x.A[0].Any(func(y *Term) bool { return msgNamed(y, "ActivateTicketsRequest") }) {
					cut = true // only a part of the encoded request is sent
				}
				return false
			})
		}
		post, url := false, false
		for _, a := range mk.Args {
			if s, ok := a.ConstStr(); ok {
				post = post || s == "POST"
				url = url || strings.HasSuffix(s, "/v2/tickets:activate")
			}
		}
		if out != nil && (!post || !url || cut) {
			return nil
		}
		return out
	}
	return nil
}

func (c *Ctx) activate(fn *ssa.Function) {
	root := c.Root(fn)
	if !c.Sound("C33", root) {
		return
	}
	w := c.FnWhere(fn)
	calls := map[*Term]*Event{}
	var takes []*At
	root.WalkAll(func(e *Event, at *At) {
		if e.Kind == "call" && e.Res != nil {
			calls[e.Res] = e
		}
		if isIDQueue(e) {
			takes = append(takes, at)
		}
	})
	var as []activation
	root.WalkAll(func(e *Event, at *At) {
		if ids := idsOf(root, calls, e, at); ids != nil {
			a := activation{at: at, ids: ids}
			if sp := at.spawn(); sp != nil {
				a.sp = sp.Event()
			}
			as = append(as, a)
		}
	})
	c.Ob("C33", len(takes) > 0, w, "ids are taken from the queue", "none")
	c.Ob("C33", len(as) > 0, w, "tickets are activated", "no call is found")
	if len(as) == 0 || len(takes) == 0 {
		return
	}
	for _, t := range takes {
		ch := t.Event().Args[0]
		c.Ob("C33", ch.Op == "param" && t.thread() == "", c.Where(t.Event()), "the ids are taken from the caller's queue", tstr(ch))
		c.Ob("C33", !t.Event().Select || !t.Event().Block, c.Where(t.Event()), "taking ids does not wait", "it may wait forever")
	}
	// what leaves the list of ids, as an event of the function's own goroutine
	leaves := map[*Event]*Term{}
	for _, a := range as {
		e := a.at.Event()
		if a.sp != nil {
			e = a.sp
		}
		if old := leaves[e]; old != nil {
			c.Ob("C33", old == a.ids, c.Where(e), "one list of ids is activated", tstr(old)+" and "+tstr(a.ids))
		}
		leaves[e] = a.ids
	}
	// each way through the goroutine makes one call
	for e := range leaves {
		if e.Kind != "go" || e.Thread == nil {
			continue
		}
		for _, p := range e.Thread.Paths {
			if p.Kind != "return" {
				continue
			}
			n, in := 0, false
			failed := false
			eachEvent(p, func(x *Event, its []IterAt) {
				if idsOf(root, calls, x, &At{Path: p, Root: root}) != nil {
					n++
					in = in || len(its) > 0
				}
				if x.Kind == "call" && strings.HasPrefix(x.Name, "net/http.NewRequest") {
					if isNil, known := c.errNil(p.Facts, x, 1); known && !isNil {
						failed = true
					}
				}
			})
			c.Ob("C33", n == 1 && !in || n == 0 && failed, c.Where(e), "the ids are sent in exactly one call", fmt.Sprintf("%d calls under %s", n, litsStr(lastLits(p.Facts, 2))))
		}
	}
	o := &outgoing{c: c, root: root, g: root.Gens(), isIn: isIDQueue, props: "C33", what: "id"}
	fam := map[*Term]bool{}
	for _, ids := range leaves {
		for t := range o.family(ids) {
			fam[t] = true
		}
	}
	o.conserve(fam, "the calls", func(e *Event) *Term { return leaves[e] })
	// size
	max, ok := c.serverLimit()
	c.Ob("C33", ok, w, "the default of the number of updates in a call is declared", "not found")
	p := newProver(&crash{c: c, chans: map[string]string{}, maps: map[string]string{}}, root)
	root.WalkAll(func(e *Event, at *At) {
		if ids := leaves[e]; ids != nil && e.Kind != "loop" {
			ok := p.atMost(ids, max, at.Path.Facts)
			c.Ob("C33", ok, c.Where(e), "a call has at most as many ids as the server takes by default", fmt.Sprintf("%s may have more than %d under %s", tstr(ids), max, litsStr(lastLits(at.Path.Facts, 3))))
		}
	})
	d := &drain{p, root.A.In}
	for _, q := range root.Paths {
		if q.Kind != "return" {
			continue
		}
		left := d.ends(q.Events, q.Facts, map[string]bool{"": true})
		c.Ob("C33", len(left) == 1 && left["empty"], w, "the function returns when the queue is found empty", "ids may be left in the queue under "+litsStr(lastLits(q.Facts, 3)))
	}
	// what is given away is awaited
	en := c.ender(root)
	for _, at := range en.hb.gos {
		if leaves[at.Event()] == nil {
			continue
		}
		c.Ob("C33", en.joined(at), c.Where(at.Event()), "the call has ended when the function returns", "it is not awaited on all paths")
	}
}

// atMost: the list has at most max entries after the loop that filled it.
func (p *prover) atMost(list *Term, max int64, facts []Lit) bool {
	in := p.root.A.In
	list = stripConv(list)
	bound := func(t *Term, n int64) lform { return lform{k: n}.add(p.lf(in.Len(t)), -1) }
	if p.geq0(bound(list, max), facts, 0) {
		return true
	}
	if list.Op != "phi" && list.Op != "memphi" {
		return false
	}
	ls := p.g.all[s2loop(list.S)]
	for _, strict := range []int64{0, 1} {
		good := len(ls) > 0
		for _, l := range ls {
			init, next := p.g.stepOf(l, list)
			if init == nil || !p.geq0(bound(init, max-strict), dropLoop(facts, l.ID), 0) {
				good = false
				break
			}
			grows := map[int]bool{}
			for _, q := range l.Iters {
				if n := next(q); n == nil || n != list {
					grows[q.From] = true
				}
			}
			lim := func(state int) int64 {
				if grows[state] {
					return max - strict
				}
				return max
			}
			for _, q := range l.Iters {
				n := next(q)
				if n == nil {
					good = false
					continue
				}
				as := append(q.Facts[:len(q.Facts):len(q.Facts)], Lit{T: in.Lt(in.Len(list), in.Int(lim(q.From)+1)), Val: true})
				good = good && p.geq0(bound(n, lim(q.To)), as, 2)
			}
		}
		if good {
			return true
		}
	}
	return false
}

// ---- the main loop ----

// isCounterAdd: one of the counters goes up.
func isCounterAdd(e *Event) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, "Int64Counter).Add") && len(e.Args) >= 3
}

// matches judges the loops that receive matches, and what is done with the
// rejected ones.
func (c *Ctx) matches(act *ssa.Function) {
	var fn *ssa.Function
	for _, f := range c.R.Funcs {
		if pkgPathOf(f) == matchmakerPath && f.Name() == "main" && f.Parent() == nil {
			fn = f
		}
	}
	if fn == nil {
		c.Ob("C33", false, "matchmaker-example", "the example's main function", "not found")
		return
	}
	root := c.Root(fn, act.String())
	if !c.Sound("C33", root) {
		return
	}
	g := root.Gens()
	p := newProver(&crash{c: c, chans: map[string]string{}, maps: map[string]string{}}, root)
	w := c.FnWhere(fn)
	calls := map[*Term]*Event{}
	root.WalkAll(func(e *Event, at *At) {
		if e.Kind == "call" && e.Res != nil {
			calls[e.Res] = e
		}
	})
	// the match that a term is, if it came from the server
	isMatch := func(t *Term) *Event {
		t = g.Expand(t)
		if t == nil || t.Op != "field" || t.S != "Match" {
			return nil
		}
		x := t.A[0]
		for x.Op == "res" || x.Op == "read" && len(x.A) > 0 {
			if x.Op == "read" {
				// filled by decoding
				for _, e := range calls {
					if e.Kind == "call" && strings.HasPrefix(mname(e.Name), "Unmarshal") && len(e.Args) == 2 && e.Args[1] == x.A[0] {
						return e
					}
				}
				return nil
			}
			e := calls[x.A[0]]
			if e != nil && x.S == "0" && mname(e.Name) == "Recv" {
				return e
			}
			return nil
		}
		return nil
	}
	// loops that receive
	type rec struct {
		l        *LoopSum
		kept     map[*Term]bool   // lists that matches are kept in
		rejected map[*Term]string // list: the counter raised with it
	}
	recs := map[string]*rec{}
	n := 0
	root.WalkAll(func(e *Event, at *At) {
		if e.Kind != "loop" {
			return
		}
		l := e.Loop
		recv := func(q *Path) *Event {
			for _, x := range q.Events {
				if x.Kind == "call" && strings.HasSuffix(x.Name, "InvokeMatchmakingFunctionsClient).Recv") {
					return x
				}
				if x.Kind == "call" && strings.HasPrefix(mname(x.Name), "Unmarshal") && len(x.Args) == 2 && strings.HasSuffix(typeStr(x.Args[1].Typ), ".StreamedMmfResponse") {
					return x
				}
			}
			return nil
		}
		// the way out of a loop is part of the path around it
		took := func(q *Path) (got *Event, has bool) {
			got = recv(q)
			has = got != nil
			if has && mname(got.Name) == "Recv" {
				isNil, known := c.errNil(q.Facts, got, 1)
				has = !known || isNil
			}
			return got, has
		}
		is := false
		for _, q := range append(append([]*Path{}, l.Iters...), l.Exits...) {
			_, has := took(q)
			is = is || has
		}
		if !is || recs[l.ID] != nil {
			return
		}
		r := &rec{l: l, kept: map[*Term]bool{}, rejected: map[*Term]string{}}
		recs[l.ID] = r
		n++
		lw := c.LoopWhere(l)
		for _, q := range append(append([]*Path{}, l.Iters...), l.Exits...) {
			if q.Kind == "fatal" || q.Kind == "panic" {
				continue
			}
			got, has := took(q)
			var adds []*Event
			for _, x := range q.Events {
				if isCounterAdd(x) {
					adds = append(adds, x)
				}
			}
			var lists []*Term
			okVal := true
			if q.Kind == "next" {
				accs := map[*Term]bool{}
				for _, v := range l.Phis {
					accs[l.PhiT[v]] = true
				}
				for k, mp := range l.MemPhi {
					if k.Op != "written" {
						accs[mp.T] = true
					}
				}
				for t := range accs {
					if t == nil || t.Typ == nil {
						continue
					}
					sl, ok := t.Typ.Underlying().(*types.Slice)
					if !ok || !strings.HasSuffix(typeStr(sl.Elem()), ".Match") {
						continue
					}
					_, next := g.stepOf(l, t)
					if next == nil {
						continue
					}
					nv := next(q)
					if nv == t {
						continue
					}
					okVal = okVal && nv != nil && nv.Op == "append" && nv.A[0] == t && len(nv.A) == 2 && sameCall(isMatch(nv.A[1]), got)
					lists = append(lists, t)
				}
			}
			under := "under " + litsStr(lastLits(q.Facts, 2))
			if !has {
				c.Ob("C33", len(adds) == 0 && len(lists) == 0, lw, "nothing is counted when no match was received", under)
				continue
			}
			if q.Kind != "next" {
				c.Ob("C33", false, lw, "a match that was received is kept", "the loop ends "+under)
				continue
			}
			c.Ob("C33", len(adds) == 1 && isOne(adds[0].Args[2]), lw, "a match is counted once", fmt.Sprintf("%d counts %s", len(adds), under))
			c.Ob("C33", len(lists) == 1 && okVal, lw, "a match is kept once, as accepted or as rejected", fmt.Sprintf("in %d lists %s", len(lists), under))
			if len(adds) == 1 && len(lists) == 1 {
				name := counterName(calls, adds[0].Args[0])
				c.Ob("C33", name != "", c.Where(adds[0]), "the counter is known", tstr(adds[0].Args[0]))
				if old, ok := r.rejected[lists[0]]; ok {
					c.Ob("C33", old == name, lw, "one counter belongs to each list", old+" and "+name)
				}
				r.rejected[lists[0]] = name
				r.kept[lists[0]] = true
			}
		}
		rej, acc := 0, 0
		for _, name := range r.rejected {
			switch {
			case strings.Contains(name, "reject"):
				rej++
			case strings.Contains(name, "accept"):
				acc++
			}
		}
		for t := range r.kept {
			init, _ := g.stepOf(l, t)
			c.Ob("C33", init != nil && p.geq0(lform{}.add(p.lf(root.A.In.Len(init)), -1), nil, 0), lw, "the lists of a cycle start empty", "one starts as "+tstr(init))
		}
		c.Ob("C33", rej == 1 && acc == 1, lw, "rejected matches have a list and a counter, and so do accepted ones", fmt.Sprintf("%d and %d", rej, acc))
	})
	c.Ob("C33", n > 0, w, "matches are received", "no loop is found")
	// the cycles: after each receiving loop the tickets of the rejected matches
	// are queued and activated
	isAct := func(e *Event) bool { return e.Kind == "call" && e.Name == act.String() }
	m := 0
	root.WalkPaths(func(q *Path, at *At) {
		for i, e := range q.Events {
			if e.Kind != "loop" || recs[e.Loop.ID] == nil || q.Kind == "fatal" || q.Kind == "panic" {
				continue
			}
			r := recs[e.Loop.ID]
			var list *Term
			for t, name := range r.rejected {
				if strings.Contains(name, "reject") {
					list = t
				}
			}
			if list == nil {
				continue
			}
			m++
			c.requeued(root, g, q, i, list, r.kept, isAct)
		}
	})
	c.Ob("C33", m > 0, w, "cycles that receive matches", "none")
}

// sameCall: the events are of one call.
func sameCall(a, b *Event) bool { return a != nil && b != nil && a.Res == b.Res }

func isOne(t *Term) bool { n, ok := t.ConstInt(); return ok && n == 1 }

// counterName: the name that the counter was created with.
func counterName(calls map[*Term]*Event, t *Term) string {
	if t.Op != "res" || calls[t.A[0]] == nil {
		return ""
	}
	for _, a := range calls[t.A[0]].Args {
		if s, ok := a.ConstStr(); ok {
			return s
		}
	}
	return ""
}

// requeued: after the event at i, each ticket of each roster of each match of
// the list is sent once to a queue that is then given to the activation; or the
// list is empty.
func (c *Ctx) requeued(root *Root, g *Gens, q *Path, i int, list *Term, kept map[*Term]bool, isAct func(*Event) bool) {
	in := root.A.In
	w := c.Where(q.Events[i])
	under := "under " + litsStr(lastLits(q.Facts, 2))
	// nothing was received
	p := newProver(&crash{c: c, chans: map[string]string{}, maps: map[string]string{}}, root)
	if p.geq0(lform{}.add(p.lf(in.Len(list)), -1), q.Facts, 0) {
		c.Ob("C33", true, w, "no rejected match is left", "")
		return
	}
	var sends []Gen
	last := -1
	for j := i + 1; j < len(q.Events); j++ {
		if q.Events[j].Kind != "loop" {
			continue
		}
		one := &Path{Events: q.Events[j : j+1], Facts: q.Facts, Mem: q.Mem}
		for _, s := range gensOf(one, 1, func(e *Event) bool { return e.Kind == "send" && typeStr(e.Typ) == "string" }) {
			sends = append(sends, s)
			last = j
		}
	}
	if len(sends) == 0 {
		c.Ob("C33", false, w, "the tickets of rejected matches are queued again", "nothing is queued "+under)
		return
	}
	ch := sends[0].Ev.Args[0]
	val := map[*Path]int{}
	for _, s := range sends {
		sw := c.Where(s.Ev)
		v := s.Ev.Args[1]
		why := ""
		depth := 0
		for x := v; ; depth++ {
			if depth == 0 {
				if x.Op != "field" || x.S != "Id" {
					why = "it is " + tstr(v)
					break
				}
				x = x.A[0]
			}
			if x.Op != "elem" || len(x.A) != 1 {
				why = "it is " + tstr(v)
				break
			}
			x = x.A[0]
			want := []string{"Tickets", "Rosters"}
			if depth < 2 {
				if x.Op != "field" || x.S != want[depth] {
					why = "it is " + tstr(v)
					break
				}
				x = x.A[0]
				continue
			}
			if x != list {
				why = "it goes over " + tstr(x)
			}
			break
		}
		c.Ob("C33", why == "", sw, "what is queued is the id of a ticket of a rejected match", why)
		c.Ob("C33", s.Ev.Args[0] == ch, sw, "one queue is used", tstr(s.Ev.Args[0]))
		if len(s.Iters) > 0 {
			val[s.Iters[len(s.Iters)-1].P]++
		}
		c.Ob("C33", !s.Ev.Select, sw, "the id is queued whatever the state of the queue", "it may be dropped")
		c.Ob("C33", p.roomFor(s, ch, isAct), sw, "queueing does not wait for a reader that does not run", "nothing takes ids from the queue while it is filled, and it may be full")
	}
	ok, why := total(sends)
	c.Ob("C33", ok, w, "all tickets of all rosters of all rejected matches are queued", why)
	for _, k := range val {
		c.Ob("C33", k == 1, w, "each ticket is queued once", fmt.Sprintf("%d times", k))
	}
	// activated afterwards
	done := false
	for _, e := range q.Events[last+1:] {
		if isAct(e) {
			for _, a := range e.Args {
				done = done || a == ch
			}
		}
	}
	c.Ob("C33", done, w, "what was queued is activated", "the queue is not given to the activation "+under)
}

// roomFor: on the way to the send the queue was emptied or seen to have room.
func (p *prover) roomFor(s Gen, ch *Term, isAct func(*Event) bool) bool {
	if len(s.Iters) == 0 {
		return false
	}
	in := p.root.A.In
	q := s.Iters[len(s.Iters)-1].P
	for _, e := range q.Events {
		if e == s.Ev {
			break
		}
		if e.Kind == "send" && e.Args[0] == ch {
			return false
		}
		if isAct(e) {
			for _, a := range e.Args {
				if a == ch {
					return true
				}
			}
		}
	}
	// room was seen
	size := in.mk("cap", "", types.Typ[types.Int], nil, ch)
	if ch.Op == "mkchan" && len(ch.A) == 1 {
		size = ch.A[0]
	}
	seen := map[*Term]bool{}
	for _, f := range q.Facts {
		f.T.Any(func(x *Term) bool {
			if x.Op == "chlen" && x.A[0] == ch && !seen[x] {
				seen[x] = true
			}
			return false
		})
	}
	for x := range seen {
		if p.geq0(p.lf(size).add(p.lf(x), -1).plus(-1), q.Facts, 0) {
			return true
		}
		// it is never above its capacity
		for _, f := range q.Facts {
			if f.T == in.Eq(x, size) && !f.Val {
				return true
			}
		}
	}
	return false
}

// ---- what is left in the queue ----

// drain follows what the last attempt to take an id from the queue found:
// "took", "empty", or "" before the first.
type drain struct {
	p  *prover
	in *Interner
}

func (d *drain) ends(evs []*Event, facts []Lit, cur map[string]bool) map[string]bool {
	for _, e := range evs {
		switch {
		case isIDQueue(e):
			cur = map[string]bool{"took": true}
		case e.Kind == "selectdefault":
			for _, a := range e.Alts {
				if isIDQueue(a) {
					cur = map[string]bool{"empty": true}
				}
			}
		case e.Kind == "loop":
			cur = d.loop(e, facts, cur)
		}
	}
	return cur
}

func (d *drain) loop(e *Event, facts []Lit, cur map[string]bool) map[string]bool {
	l := e.Loop
	reach := map[int]map[string]bool{0: cur}
	for ch := true; ch; {
		ch = false
		for _, q := range l.Iters {
			if len(reach[q.From]) == 0 {
				continue
			}
			if reach[q.To] == nil {
				reach[q.To] = map[string]bool{}
			}
			for o := range d.ends(q.Events, q.Facts, reach[q.From]) {
				if !reach[q.To][o] {
					reach[q.To][o], ch = true, true
				}
			}
		}
	}
	out := map[string]bool{}
	add := func(as []Lit, os map[string]bool) {
		if d.p.impossible(as) {
			return
		}
		for o := range os {
			out[o] = true
		}
	}
	if e.ExitV == 0 {
		add(facts, cur)
	}
	for _, q := range l.Iters {
		if q.To != e.ExitV || len(reach[q.From]) == 0 {
			continue
		}
		// what is known after the loop, of the values that this iteration left
		sub := map[*Term]*Term{}
		for v, t := range q.Back {
			if l.PhiT[v] != nil {
				sub[l.PhiT[v]] = t
			}
		}
		for k, m := range l.MemPhi {
			if q.Mem != nil && q.Mem.m[k] != nil {
				sub[m.T] = q.Mem.m[k]
			}
		}
		as := q.Facts[:len(q.Facts):len(q.Facts)]
		for _, f := range facts {
			if t := d.replace(f.T, sub); t != f.T {
				as = append(as, Lit{T: t, Val: f.Val})
			}
		}
		if d.p.impossible(as) {
			continue
		}
		add(as, d.ends(q.Events, as, reach[q.From]))
	}
	return out
}

// replace puts other terms in the place of some.
func (d *drain) replace(t *Term, sub map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if x, ok := sub[t]; ok {
		return x
	}
	args := make([]*Term, len(t.A))
	ch := false
	for i, x := range t.A {
		args[i] = d.replace(x, sub)
		ch = ch || args[i] != x
	}
	if !ch {
		return t
	}
	switch {
	case t.Op == "len":
		return d.in.Len(args[0])
	case t.Op == "eq":
		return d.in.Eq(args[0], args[1])
	case t.Op == "lt":
		return d.in.Lt(args[0], args[1])
	}
	return d.in.mk(t.Op, t.S, t.Typ, t.Aux, args...)
}

// impossible: the facts exclude each other.
func (p *prover) impossible(facts []Lit) bool {
	for i, f := range facts {
		if b, ok := f.T.ConstBool(); ok && b != f.Val {
			return true
		}
		rest := append(facts[:i:i], facts[i+1:]...)
		for _, g := range rest[i:] {
			if g.T == f.T && g.Val != f.Val {
				return true
			}
		}
		if len(f.T.A) != 2 || f.T.Op != "lt" && f.T.Op != "eq" {
			continue
		}
		if b, ok := basic(f.T.A[0].Typ); ok && b.Info()&types.IsInteger == 0 {
			continue
		}
		isNum := func(t *Term) bool { _, ok := t.ConstInt(); return ok || t.Op == "len" || t.Op == "bin" }
		if !isNum(f.T.A[0]) && !isNum(f.T.A[1]) {
			continue
		}
		a, b := p.lf(f.T.A[0]), p.lf(f.T.A[1])
		up, down := b.add(a, -1), a.add(b, -1) // b-a, a-b
		ge := func(e lform) bool { return p.geq0(e, rest, 0) }
		if n, ok := f.T.A[1].ConstInt(); ok && f.T.Op == "eq" && !f.Val && f.T.A[0].Op == "len" && ge(down) && p.atMost(f.T.A[0].A[0], n, rest) {
			return true
		}
		switch {
		case f.T.Op == "lt" && f.Val:
			if ge(down) {
				return true
			}
		case f.T.Op == "lt":
			if ge(up.plus(-1)) {
				return true
			}
		case f.Val:
			if ge(up.plus(-1)) || ge(down.plus(-1)) {
				return true
			}
		default:
			if ge(up) && ge(down) {
				return true
			}
		}
	}
	return false
}

// ---- new tickets ----

// created judges the functions other than main that give a queue to the
// activation: the id of each ticket that is created is queued once, and the
// queue is activated again and again.
func (c *Ctx) created(act *ssa.Function) {
	tops := map[*ssa.Function]bool{}
	seen := map[*ssa.Function]bool{}
	var climb func(g *ssa.Function)
	climb = func(g *ssa.Function) {
		for _, f := range c.R.Funcs {
			uses := false
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if call, ok := ins.(ssa.CallInstruction); ok && call.Common().StaticCallee() == g {
						uses = true
					}
				}
			}
			if !uses {
				continue
			}
			for f.Parent() != nil {
				f = f.Parent()
			}
			if seen[f] {
				continue
			}
			seen[f] = true
			switch {
			case !makesQueue(f):
				climb(f)
			case f.Name() != "main":
				tops[f] = true
			}
		}
	}
	climb(act)
	c.Ob("C33", len(tops) > 0, "matchmaker-example", "new tickets are activated", "the activation is not called for them")
	for f := range tops {
		root := c.Root(f, act.String())
		if !c.Sound("C33", root) {
			continue
		}
		w := c.FnWhere(f)
		queues := map[*Term]bool{}
		root.WalkAll(func(e *Event, at *At) {
			if e.Kind != "call" || e.Name != act.String() {
				return
			}
			forever := false
			for x := at; x != nil; x = x.Up {
				if l := x.Loop(); l != nil && len(l.Exits) == 0 {
					forever = true
				}
			}
			c.Ob("C33", forever, c.Where(e), "tickets are activated for as long as the example runs", "not in a loop without an end")
			for _, a := range e.Args {
				if a.Op == "mkchan" {
					queues[a] = true
				}
			}
		})
		c.Ob("C33", len(queues) == 1, w, "one queue holds the ids of new tickets", fmt.Sprintf("%d found", len(queues)))
		n := 0
		root.WalkPaths(func(q *Path, at *At) {
			if q.Kind != "return" && q.Kind != "next" {
				return
			}
			var mk *Event
			k, dup := 0, 0
			var val *Term
			for _, e := range q.Events {
				switch {
				case e.Kind == "call" && strings.HasSuffix(e.Name, ".OpenMatchServiceClient).CreateTicket"):
					mk, k = e, k+1
				case e.Kind == "call" && e.Name == "(*net/http.Client).Do":
					k++
				case e.Kind == "send" && queues[e.Args[0]]:
					dup++
					val = e.Args[1]
					c.Ob("C33", !e.Select, c.Where(e), "the id of a new ticket is queued whatever the state of the queue", "it may be dropped")
				}
			}
			if k == 0 && dup == 0 {
				return
			}
			n++
			ew := w
			if mk != nil {
				ew = c.Where(mk)
			}
			under := " under " + litsStr(lastLits(q.Facts, 2))
			c.Ob("C33", k <= 1, ew, "a ticket is created once", "it is created again"+under)
			c.Ob("C33", dup == 1, ew, "the id of a new ticket is queued once", fmt.Sprintf("%d times%s", dup, under))
			if dup != 1 {
				return
			}
			// the id, or nothing when there is none
			if s, ok := val.ConstStr(); ok && s == "" {
				good := mk == nil
				if mk != nil {
					for _, l := range q.Facts {
						if l.Val && l.T.Op == "eq" && l.T.A[1].IsNil() && l.T.A[0].Op == "res" && l.T.A[0].S == "0" && l.T.A[0].A[0] == mk.Res {
							good = true
						}
					}
					if isNil, known := c.errNil(q.Facts, mk, 1); known && !isNil {
						good = true
					}
				}
				c.Ob("C33", good, ew, "the id of a new ticket is queued", "none is queued"+under)
				return
			}
			id := val.Op == "field" && val.S == "TicketId"
			if id && mk != nil {
				id = val.A[0].Op == "res" && val.A[0].S == "0" && val.A[0].A[0] == mk.Res
			}
			c.Ob("C33", id, ew, "the id that is queued is the new ticket's", "it is "+tstr(val)+under)
		})
		c.Ob("C33", n > 0, w, "tickets are created", "none")
	}
}

// makesQueue: the function makes a queue of ids.
func makesQueue(f *ssa.Function) bool { return makesQueueIn(f, 0) }

func makesQueueIn(f *ssa.Function, d int) bool {
	if d > 3 {
		return false
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if x, ok := ins.(*ssa.MakeChan); ok {
				if ch, ok := x.Type().Underlying().(*types.Chan); ok && types.Identical(ch.Elem(), types.Typ[types.String]) {
					return true
				}
			}
			if call, ok := ins.(*ssa.Call); ok {
				// a function that makes and returns it
				g := call.Call.StaticCallee()
				if g != nil && g.Signature.Results().Len() == 1 && types.Identical(g.Signature.Results().At(0).Type().Underlying(), types.NewChan(types.SendRecv, types.Typ[types.String])) && makesQueueIn(g, d+1) {
					return true
				}
			}
		}
	}
	for _, g := range f.AnonFuncs {
		if makesQueueIn(g, d) {
			return true
		}
	}
	return false
}
