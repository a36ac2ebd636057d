package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("offered-tickets", "C04,C05", "in InvokeMatchmakingFunctions the tickets that are filtered are the entries of the ticket cache not marked inactive, neither in a copy of the marks taken before nor in a look-up made after the ticket was seen; all of them", ruleOffered)
	rule("pool-filling", "C03,C05", "every offered ticket is tested against every valid pool and inserted exactly once, under the pool's own name, exactly if the filter accepts it", ruleFilling)
	rule("chunk-size", "C07", "inductive invariant of the splitting loop: running size starts from the empty profile in every chunk, grows by at least the ticket's roster size, stays under the budget; the chunk written to is the last one; the announced total is their number", ruleChunks)
	rule("profile-passthrough", "C06", "every field of the profile and of every valid pool in every chunk is the caller's; every function is sent the same chunks", rulePassthrough)
}

type invoke struct {
	c     *Ctx
	root  *Root
	g     *Gens
	where string
	pools string // path of the caller's pools
	ins   []*insertion
}

// insertion puts tickets into the roster of a pool of a chunk.
type insertion struct {
	at     *At
	ev     *Event
	m      *Term // the chunk
	key    *Term // pool key
	ticket *Term
	n      int // tickets added
	clean  bool
}

func (c *Ctx) invoke(props string) *invoke {
	r := c.Handler(props, "InvokeMatchmakingFunctions")
	if r == nil {
		return nil
	}
	if v, ok := c.memo["invoke"]; ok {
		return v.(*invoke)
	}
	iv := &invoke{c: c, root: r, g: r.Gens(), where: c.FnWhere(r.Fn), pools: "arg0.Profile.Pools"}
	r.Walk(func(e *Event, at *At) {
		if e.Kind != "mapset" || at.InThread() != nil {
			return
		}
		mu, ok := e.Site.(*ssa.MapUpdate)
		if !ok || typeStr(mu.Value.Type()) != "[]"+ticketPtr {
			return
		}
		v := e.Args[2]
		es, base := appended(v)
		if len(es) == 0 {
			return
		}
		x := &insertion{at: at, ev: e, m: e.Args[0], key: e.Args[1], ticket: es[0], n: len(es)}
		x.clean = base == nil || base.IsNil() || base.Op == "lookup" && base.A[0] == x.m && base.A[1] == x.key || base.Op == "empty" || base.Op == "seq" && len(base.A) == 0
		if es[0].Op == "spread" {
			x.clean = false
		}
		iv.ins = append(iv.ins, x)
	})
	c.memo["invoke"] = iv
	return iv
}

// appended splits a slice value into base and added elements.
func appended(v *Term) (es []*Term, base *Term) {
	switch v.Op {
	case "append":
		return v.A[1:], v.A[0]
	case "seq":
		return v.A, nil
	}
	return nil, v
}

func isIn(t *Term) bool { return t.IsApp(inName) }
func isValidPool(t *Term) bool {
	return t.Op == "res" && t.S == "0" && t.A[0].IsApp(validName) || t.Op == "eq" && t.A[1].IsNil() && t.A[0].Op == "res" && t.A[0].S == "1" && t.A[0].A[0].IsApp(validName)
}

// inCalls visits all calls of the filter.
func (iv *invoke) inCalls(f func(e *Event, at *At)) {
	iv.root.Walk(func(e *Event, at *At) {
		if isCall(e, inName) {
			f(e, at)
		}
	})
}

func ruleOffered(c *Ctx) {
	iv := c.invoke("C04,C05")
	if iv == nil {
		return
	}
	n := 0
	seen := map[*Term]bool{}
	iv.inCalls(func(e *Event, at *At) {
		tk := e.Args[1]
		if seen[tk] {
			return
		}
		seen[tk] = true
		n++
		iv.offered(e, at, tk)
	})
	c.Ob("C04,C05", n > 0, iv.where, "tickets are filtered into pools", "no call of filter.In found")
}

// offered checks where a filtered ticket comes from.
func (iv *invoke) offered(e *Event, at *At, tk *Term) {
	c := iv.c
	w := c.Where(e)
	if tk.Op != "elem" || len(tk.A) != 1 {
		c.Ob("C04,C05", false, w, "the filtered ticket is an entry of the list of active tickets", "it is "+tstr(tk))
		return
	}
	coll := tk.A[0]
	if iv.isCache(coll) {
		// filtered right in the iteration over the cache
		l := at.findLoop(s2loop(tk.S))
		iv.activeCond(w, l, at.Path, tk)
		return
	}
	gs, ok := iv.g.of(coll)
	if !ok || len(gs) == 0 {
		c.Ob("C04,C05", false, w, "the list of active tickets is built in a way the analysis follows", "it is "+tstr(coll))
		return
	}
	done := map[*LoopSum]bool{}
	for _, g := range gs {
		if len(g.Iters) != 1 {
			c.Ob("C04,C05", false, w, "the list of active tickets is filled in one loop over the ticket cache", fmt.Sprintf("filled in %d nested loops with %s", len(g.Iters), tstr(g.Val)))
			continue
		}
		l := g.Iters[0].L
		val := g.Val
		isTicket := val.Op == "elem" && s2loop(val.S) == l.ID && iv.isCache(val.A[0]) && iv.isCache(l.Coll)
		c.Ob("C04,C05", isTicket, c.LoopWhere(l), "only entries of the ticket cache, unmodified, get on the list of active tickets", "got "+tstr(val)+" in a loop over "+tstr(l.Coll))
		if !isTicket {
			continue
		}
		iv.activeCond(c.LoopWhere(l), l, g.Path, val)
		if done[l] {
			continue
		}
		done[l] = true
		okc, why := complete(l)
		c.Ob("C05", okc, c.LoopWhere(l), "all cached tickets are looked at", why)
		for _, p := range l.Iters {
			k := 0
			for _, h := range gs {
				if len(h.Iters) == 1 && h.Iters[0].P == p {
					k++
				}
			}
			inact := iv.markedInactive(l, p)
			if inact {
				continue
			}
			c.Ob("C05", k == 1, c.LoopWhere(l), "a ticket that is not marked inactive is put on the list exactly once", fmt.Sprintf("%d times under %s", k, litsStr(p.Facts)))
		}
	}
}

func (at *At) findLoop(id string) *LoopSum {
	for x := at; x != nil; x = x.Up {
		if x.Ev != nil && x.Ev.Kind == "loop" && x.Ev.Loop.ID == id {
			return x.Ev.Loop
		}
		for _, e := range x.Path.Events {
			if e.Kind == "loop" && e.Loop.ID == id {
				return e.Loop
			}
		}
	}
	return nil
}

// isKeyOf: the id of the ticket an iteration over the cache is at.
func isKeyOf(t *Term, l *LoopSum) bool {
	t = normKey(t)
	if t.Op == "key" && s2loop(t.S) == l.ID {
		return true
	}
	return t.Op == "field" && t.S == "Id" && t.A[0].Op == "elem" && s2loop(t.A[0].S) == l.ID
}

// copyOf: a local map holding all keys of a shared map; returns the loop that
// fills it.
func (iv *invoke) copyOf(m *Term, field string) *LoopSum {
	gs, ok := iv.g.of(m)
	if !ok || len(gs) == 0 {
		return nil
	}
	var l *LoopSum
	for _, g := range gs {
		if len(g.Iters) != 1 {
			return nil
		}
		k := g.Iters[0].L
		if l != nil && l.ID != k.ID || mapField(k.Coll) != field || k.Kind != "callback" {
			return nil
		}
		if key := normKey(g.Key); key.Op != "key" || s2loop(key.S) != k.ID {
			return nil
		}
		l = k
	}
	if ok, _ := complete(l); !ok {
		return nil
	}
	for _, p := range l.Iters {
		n := 0
		for _, g := range gs {
			if factStr(g.Iters[0].P.Facts) == factStr(p.Facts) {
				n++
			}
		}
		if n == 0 {
			return nil
		}
	}
	return l
}

// isCache: the tickets of the cache, or a complete copy of them.
func (iv *invoke) isCache(coll *Term) bool {
	if mapField(coll) == "Tickets" {
		return true
	}
	if coll == nil || coll.Op != "mkmap" {
		return false
	}
	l := iv.copyOf(coll, "Tickets")
	if l == nil {
		return false
	}
	gs, _ := iv.g.of(coll)
	for _, g := range gs {
		if g.Val == nil || g.Val.Op != "elem" || s2loop(g.Val.S) != l.ID {
			return false
		}
	}
	return true
}

// markedInactive: the facts of an iteration say that the ticket is inactive.
func (iv *invoke) markedInactive(l *LoopSum, p *Path) bool {
	for _, f := range p.Facts {
		t := f.T
		if t.Op == "lookupok" && f.Val && isKeyOf(t.A[1], l) && iv.copyOf(t.A[0], "InactiveSet") != nil {
			return true
		}
		if t.Op == "eq" && !f.Val && t.A[0].Op == "lookup" && t.A[1].IsNil() && isKeyOf(t.A[0].A[1], l) && iv.copyOf(t.A[0].A[0], "InactiveSet") != nil {
			return true
		}
		if f.Val && t.Op == "res" && t.S == "1" {
			if e := loadOf(p, t.A[0], "InactiveSet"); e != nil && isKeyOf(e.Args[1], l) {
				return true
			}
		}
	}
	return false
}

func loadOf(p *Path, res *Term, field string) *Event {
	for _, e := range p.Events {
		if f, m := syncMap(e); f == field && m == "Load" && e.Res == res {
			return e
		}
	}
	return nil
}

// activeCond: a ticket taken in an iteration is known to be active.
func (iv *invoke) activeCond(w string, l *LoopSum, p *Path, val *Term) {
	c := iv.c
	if l == nil {
		c.Ob("C04", false, w, "the filtered ticket comes from an iteration over the ticket cache", "the loop was not found")
		return
	}
	var copyL *LoopSum
	loaded := false
	for _, f := range p.Facts {
		t := f.T
		if t.Op == "lookupok" && !f.Val && isKeyOf(t.A[1], l) {
			if k := iv.copyOf(t.A[0], "InactiveSet"); k != nil {
				copyL = k
			}
		}
		if t.Op == "eq" && f.Val && t.A[0].Op == "lookup" && t.A[1].IsNil() && isKeyOf(t.A[0].A[1], l) {
			if k := iv.copyOf(t.A[0].A[0], "InactiveSet"); k != nil {
				copyL = k
			}
		}
		if !f.Val && t.Op == "res" && t.S == "1" {
			if e := loadOf(p, t.A[0], "InactiveSet"); e != nil && isKeyOf(e.Args[1], l) {
				loaded = true
			}
		}
	}
	c.Ob("C04", copyL != nil, w, "a ticket is offered only if a complete copy of the inactive marks does not hold its id", "taken under "+litsStr(lits(p.Facts, func(t *Term) bool { return t.Mentions(l.ID) })))
	c.Ob("C04", loaded, w, "a ticket is offered only if its id is not marked inactive in a look-up made after the ticket was seen", "taken under "+litsStr(lits(p.Facts, func(t *Term) bool { return t.Mentions(l.ID) })))
	if copyL != nil {
		tl := l
		if k := iv.copyOf(l.Coll, "Tickets"); k != nil {
			tl = k // where the tickets are read
		}
		ord := false
		iv.root.WalkPaths(func(q *Path, _ *At) {
			ci, ti := -1, -1
			for i, e := range q.Events {
				if e.Kind == "loop" && e.Loop.ID == copyL.ID && ci < 0 {
					ci = i
				}
				if e.Kind == "loop" && e.Loop.ID == tl.ID && ti < 0 {
					ti = i
				}
			}
			if ti >= 0 {
				ord = ci >= 0 && ci < ti
				if !ord {
					c.Ob("C04", false, w, "the copy of the inactive marks is taken before the tickets are read", "the iteration over the tickets comes first")
				}
			}
		})
		c.Ob("C04", ord, w, "the copy of the inactive marks is taken before the tickets are read", "the order of the two iterations could not be established")
	}
}

// poolOf gives the caller's pool a key stands for, as an element term.
func (iv *invoke) poolOf(key *Term) *Term {
	k := iv.g.Expand(key)
	if k.Op == "key" && len(k.A) == 1 && fpath(k.A[0]) == iv.pools {
		return iv.root.A.In.mk("elem", k.S, nil, nil, k.A[0])
	}
	return nil
}

func (iv *invoke) isPool(t *Term) *Term {
	t = iv.g.Expand(t)
	if t.Op == "elem" && len(t.A) == 1 && fpath(t.A[0]) == iv.pools {
		return t
	}
	return nil
}

// validSet: the loop visits exactly the valid pools: it goes over a collection
// holding every valid pool of the profile once (or over all pools, the
// validity being checked in the loop; inLoop is true then).
func (iv *invoke) validSet(props string, l *LoopSum) (inLoop, ok bool) {
	c := iv.c
	if fpath(l.Coll) == iv.pools {
		return true, true
	}
	coll := l.Coll
	gs, o := iv.g.of(coll)
	w := c.LoopWhere(l)
	if !o || len(gs) == 0 {
		c.Ob(props, false, w, "the set of valid pools is built in a way the analysis follows", tstr(coll))
		return false, false
	}
	loops := map[string]*LoopSum{}
	good := true
	bad := func(l *LoopSum, what, detail string) {
		c.Ob(props, false, c.LoopWhere(l), what, detail)
		good = false
	}
	for _, g := range gs {
		if len(g.Iters) != 1 {
			bad(l, "the set of valid pools is filled in one loop over the pools of the profile", fmt.Sprintf("%d nested loops", len(g.Iters)))
			continue
		}
		k := g.Iters[0].L
		if fpath(k.Coll) != iv.pools {
			bad(k, "the set of valid pools is filled from the pools of the profile", "it is filled from "+tstr(k.Coll))
			continue
		}
		loops[k.ID] = k
		isKey := func(t *Term) bool { return t != nil && t.Op == "key" && s2loop(t.S) == k.ID }
		isEl := func(t *Term) bool { return t != nil && t.Op == "elem" && s2loop(t.S) == k.ID }
		if coll.Op == "mkmap" {
			if !isKey(g.Key) {
				bad(k, "a valid pool is recorded under its own name", "recorded as "+tstr(g.Key))
			}
		} else if !isKey(g.Val) && !isEl(g.Val) {
			bad(k, "a valid pool is recorded under its own name", "recorded as "+tstr(g.Val))
		}
	}
	if len(loops) != 1 {
		bad(l, "the set of valid pools is filled in one loop over the pools of the profile", fmt.Sprintf("%d loops", len(loops)))
		return false, false
	}
	for _, k := range loops {
		if ok, why := complete(k); !ok {
			bad(k, "all pools of the profile are validated", why)
		}
		for _, p := range k.Iters {
			n := 0
			for _, g := range gs {
				if g.Iters[0].L.ID == k.ID && g.Iters[0].P == p {
					n++
				}
			}
			v, known := poolValid(p.Facts, k)
			switch {
			case !known:
				bad(k, "every pool of the profile is validated", "it is not on a path with "+litsStr(p.Facts))
			case v:
				c.Ob(props, n == 1, c.LoopWhere(k), "a valid pool is filled", fmt.Sprintf("a valid pool is recorded %d times under %s", n, litsStr(p.Facts)))
			case !v:
				c.Ob(props, n == 0, c.LoopWhere(k), "an invalid pool is not filled", fmt.Sprintf("an invalid pool is recorded under %s", litsStr(p.Facts)))
			}
		}
	}
	return false, good
}

// poolValid: what the facts say about the validity of the pool of this iteration.
func poolValid(fs []Lit, l *LoopSum) (valid, known bool) {
	for _, f := range fs {
		if !isValidPool(f.T) || !f.T.Mentions(l.ID) {
			continue
		}
		return f.Val, true
	}
	return false, false
}

func ruleFilling(c *Ctx) {
	iv := c.invoke("C03,C05")
	if iv == nil {
		return
	}
	c.Ob("C03,C05", len(iv.ins) > 0, iv.where, "tickets are inserted into the pools of a chunk", "no insertion recognised")
	type nest struct{ inner *LoopSum }
	seen := map[*LoopSum]bool{}
	visit := func(at *At, w string) {
		inner := at.Loop()
		if inner == nil {
			c.Ob("C03,C05", false, w, "filtering happens in a loop over tickets and pools", "not in a loop")
			return
		}
		if seen[inner] {
			return
		}
		seen[inner] = true
		iv.nest(at, inner)
	}
	iv.inCalls(func(e *Event, at *At) { visit(at, c.Where(e)) })
	for _, x := range iv.ins {
		w := c.Where(x.ev)
		c.Ob("C05", x.clean && x.n == 1, w, "one ticket is added to the tickets already there", "the roster becomes "+tstr(x.ev.Args[2]))
		c.Ob("C05", x.at.Loop() != nil && seen[x.at.Loop()], w, "a ticket is inserted where it was filtered", "inserted in another loop")
	}
}

// nest checks the loops around the filtering.
func (iv *invoke) nest(at *At, inner *LoopSum) {
	c := iv.c
	its := at.iters()
	if len(its) != 2 {
		c.Ob("C03,C05", false, c.LoopWhere(inner), "filtering happens in a loop over tickets nested with one over pools", fmt.Sprintf("%d loops", len(its)))
		return
	}
	var pl, tl *LoopSum
	for _, it := range its {
		l := it.L
		isT := iv.isCache(l.Coll)
		if !isT {
			if gs, ok := iv.g.of(l.Coll); ok && len(gs) > 0 && len(gs[0].Iters) == 1 && iv.isCache(gs[0].Iters[0].L.Coll) {
				isT = true
			}
		}
		if isT {
			tl = l
		} else {
			pl = l
		}
		ok, why := complete(l)
		c.Ob("C03,C05", ok, c.LoopWhere(l), "the filtering loops visit every ticket and pool", why)
	}
	if pl == nil || tl == nil {
		c.Ob("C03,C05", false, c.LoopWhere(inner), "one filtering loop is over the active tickets, the other over the valid pools", "not recognised")
		return
	}
	inLoop, ok := iv.validSet("C03,C05", pl)
	if !ok {
		return
	}
	// the outer loop runs the inner one in every iteration
	outer := its[0].L
	for _, p := range outer.Iters {
		n := countEv(p, func(e *Event) bool { return e.Kind == "loop" && e.Loop.ID == inner.ID })
		skip := false
		if outer == pl && inLoop {
			if v, known := poolValid(p.Facts, pl); known && !v {
				skip = true
			}
		}
		if outer == tl && iv.isCache(tl.Coll) && iv.markedInactive(tl, p) {
			skip = true
		}
		if skip {
			c.Ob("C03,C05", n == 0, c.LoopWhere(outer), "an invalid pool or inactive ticket is not filtered", litsStr(p.Facts))
			continue
		}
		c.Ob("C05", n == 1, c.LoopWhere(outer), "every ticket is tested against every valid pool", fmt.Sprintf("the inner loop runs %d times under %s", n, litsStr(p.Facts)))
	}
	for _, p := range inner.Iters {
		iv.fillIter(inner, pl, tl, inLoop, p)
	}
}

func (iv *invoke) fillIter(inner, pl, tl *LoopSum, inLoop bool, p *Path) {
	c := iv.c
	w := c.LoopWhere(inner)
	ins := lits(p.Facts, isIn)
	var xs []*insertion
	for _, x := range iv.ins {
		if x.at.Path == p {
			xs = append(xs, x)
		}
	}
	fs := litsStr(lits(p.Facts, func(t *Term) bool { return t.Mentions(inner.ID) && t.Op != "more" }))
	if inLoop && inner == pl {
		if v, known := poolValid(p.Facts, pl); known && !v {
			c.Ob("C03,C05", len(xs) == 0, w, "an invalid pool gets no tickets", fs)
			return
		} else if !known {
			c.Ob("C03,C05", false, w, "the pool is validated before it is filled", fs)
			return
		}
	}
	if iv.isCache(tl.Coll) && inner == tl && iv.markedInactive(tl, p) {
		c.Ob("C05", len(xs) == 0, w, "an inactive ticket is put into no pool", fs)
		return
	}
	if len(ins) != 1 {
		// decided by the filter at least once
		c.Ob("C05", false, w, "each ticket is tested once against each valid pool", fmt.Sprintf("%d decisive tests under %s", len(ins), fs))
		return
	}
	in := ins[0]
	pool := iv.isPool(in.T.A[0])
	c.Ob("C05", pool != nil && strings.HasPrefix(s2loop(pool.S), pl.ID), w, "the filter is given the pool of this iteration", "it is given "+tstr(iv.g.Expand(in.T.A[0])))
	tk := in.T.A[1]
	c.Ob("C05", tk.Op == "elem" && s2loop(tk.S) == tl.ID, w, "the filter is given the ticket of this iteration", "it is given "+tstr(tk))
	if !in.Val {
		c.Ob("C05", len(xs) == 0, w, "a ticket that does not meet the filters is put into no pool", "inserted under "+fs)
		return
	}
	c.Ob("C05", len(xs) == 1, w, "a ticket that meets the filters is put into the pool exactly once", fmt.Sprintf("inserted %d times under %s", len(xs), fs))
	for _, x := range xs {
		kp := iv.poolOf(x.key)
		c.Ob("C05", pool != nil && kp == pool, w, "the ticket is put into the pool whose filters it met", "inserted under "+tstr(iv.g.Expand(x.key)))
		c.Ob("C05", x.ticket == tk, w, "the ticket that met the filters is inserted, unmodified", "inserted is "+tstr(x.ticket))
	}
}

const sizeFn = "google.golang.org/protobuf/proto.Size"
const budget = 4 * 1000 * 1000

func msgNamed(t *Term, name string) bool {
	return t != nil && t.Op == "msg" && strings.HasSuffix(t.S, "."+name)
}

// coversTicket: the size term is at least the size of the ticket as an entry
// of a roster.
func coversTicket(t, tk *Term) bool {
	if !t.IsApp(sizeFn) {
		return false
	}
	m := t.A[0]
	if !msgNamed(m, "Roster") {
		return false
	}
	for i, f := range m.Aux.([]string) {
		if f == "Tickets" {
			l := m.A[i]
			if l.Op == "seq" {
				for _, x := range l.A {
					if x == tk {
						return true
					}
				}
			}
		}
	}
	return false
}

// coversEmpty: the size term is at least that of a chunk without participants.
func coversEmpty(t *Term) bool {
	if !t.IsApp(sizeFn) {
		return false
	}
	m := t.A[0]
	if msgNamed(m, "ChunkedMmfRunRequest") {
		for i, f := range m.Aux.([]string) {
			if f == "Profile" {
				m = m.A[i]
				break
			}
		}
	}
	return fpath(m) == "arg0.Profile"
}

func ruleChunks(c *Ctx) {
	iv := c.invoke("C07")
	if iv == nil {
		return
	}
	c.Ob("C07", len(iv.ins) > 0, iv.where, "tickets are inserted into the pools of a chunk", "no insertion recognised")
	var chunks *chunkList
	for _, x := range iv.ins {
		w := c.Where(x.ev)
		inner := x.at.Loop()
		if inner == nil || len(x.at.iters()) == 0 {
			continue
		}
		cl, fresh, why := iv.chunkOf(x)
		c.Ob("C07", cl != nil, w, "the chunk a ticket is put into is the last one of the list, the one whose size is tracked", why)
		if cl == nil {
			continue
		}
		if chunks == nil {
			chunks = cl
		}
		c.Ob("C07", *chunks == *cl, w, "all tickets go into the same list of chunks", tstr(x.m))
		// the running size
		iv.size(x, inner, x.at.Path, fresh)
	}
	if chunks == nil {
		c.Ob("C07", false, iv.where, "the list of chunks is recognised", "it is not")
		return
	}
	iv.announced(chunks)
	iv.sends()
}

// A chunkList is the list of chunks: a list that always holds the chunk being
// filled last; or the finished chunks (done), the one being filled being held
// in a variable and added at the end.
type chunkList struct {
	list, cur *Term // accumulators of the outermost loop
	done      bool
}

// is: the collection is the complete list.
func (cl *chunkList) is(g *Gens, coll *Term) bool {
	if coll == nil || cl == nil {
		return false
	}
	if !cl.done {
		return g.outer(coll) == cl.list
	}
	es, base := appended(coll)
	return len(es) == 1 && base != nil && g.outer(base) == cl.list && g.outer(es[0]) == cl.cur
}

// length: the number is that of the chunks on the list.
func (cl *chunkList) length(g *Gens, n *Term) bool {
	b, k := linear(n)
	if b.Op != "len" {
		return false
	}
	if cl.done {
		return k == 1 && g.outer(b.A[0]) == cl.list || k == 0 && cl.is(g, b.A[0])
	}
	return k == 0 && cl.is(g, b.A[0])
}

// chunkOf: the list of chunks whose last chunk the ticket is put into, and
// whether this is a new chunk.
func (iv *invoke) chunkOf(x *insertion) (cl *chunkList, fresh int, why string) {
	g := iv.g
	inner, p := x.at.Loop(), x.at.Path
	if inner == nil {
		return nil, 0, "not in a loop"
	}
	if x.m.Op == "index" {
		added, base := appended(x.m.A[0])
		if base == nil {
			base, added = x.m.A[0], nil
		}
		root := g.outer(base)
		if root.Op != "phi" && root.Op != "memphi" {
			return nil, 0, "the list is " + tstr(root)
		}
		if ok, why := iv.lastIndex(p.Mem, x.m.A[1], base, int64(len(added)), inner); !ok {
			return nil, 0, why
		}
		for _, a := range added {
			if a.Op != "mkmap" {
				return nil, 0, "a new chunk is not an empty one: " + tstr(a)
			}
		}
		_, init, _ := g.step(root)
		es := g.literal(p.Mem, init)
		if len(es) != 1 || es[0].Op != "mkmap" {
			return nil, 0, "the list of chunks does not start with one empty chunk: it starts as " + tstr(init)
		}
		return &chunkList{list: root}, len(added), ""
	}
	// the chunk being filled is held in a variable
	var curs, lists []*Term
	acc := func(t *Term, typ types.Type, next *Term) {
		if t == nil || typ == nil {
			return
		}
		switch u := typ.Underlying().(type) {
		case *types.Map:
			if t == x.m || x.m.Op == "mkmap" && next == x.m {
				curs = append(curs, t)
			}
		case *types.Slice:
			if _, ok := u.Elem().Underlying().(*types.Map); ok {
				lists = append(lists, t)
			}
		}
	}
	for phi, v := range p.Back {
		acc(inner.PhiT[phi], phi.Type(), v)
	}
	for k, mp := range inner.MemPhi {
		if v, ok := p.Mem.m[k]; ok && k.Op != "written" {
			acc(mp.T, mp.T.Typ, v)
		}
	}
	if len(curs) == 0 {
		return nil, 0, "it is put into " + tstr(x.m)
	}
	why = "no list of chunks goes with the chunk that is filled"
	for _, cur := range curs {
		for _, list := range lists {
			done, ok, w := iv.curOf(p.Mem, cur, list)
			if !ok {
				why = w
				continue
			}
			cl := &chunkList{list: g.outer(list), done: done}
			if done {
				cl.cur = g.outer(cur)
			}
			if x.m.Op == "mkmap" {
				fresh = 1
			}
			return cl, fresh, ""
		}
	}
	return nil, 0, why
}

// curOf: a variable that always holds the last chunk of the list, or (done)
// the chunk that comes after those of the list.
func (iv *invoke) curOf(mem *Mem, cur, list *Term) (done, ok bool, why string) {
	g := iv.g
	isAcc := func(t *Term) bool { return t.Op == "phi" || t.Op == "memphi" }
	known := false
	set := func(d bool) bool {
		if known && done != d {
			return false
		}
		done, known = d, true
		return true
	}
	for d := 0; d < 8; d++ {
		lc, ic, nextC := g.step(cur)
		ll, il, nextL := g.step(list)
		if lc == nil || ll == nil || lc.ID != ll.ID {
			return done, false, "chunk and list change in different loops"
		}
		for _, p := range lc.Iters {
			cv, lv := nextC(p), nextL(p)
			switch {
			case cv == nil || lv == nil:
				return done, false, "unknown values after an iteration"
			case cv == cur && lv == list:
			case cv != cur && lv != list && isAcc(cv) && isAcc(lv) && g.outer(cv) == cur && g.outer(lv) == list:
			case cv.Op == "mkmap" && allocIn(iv.root.A, cv, lc):
				es, base := appended(lv)
				if base != list || len(es) != 1 || es[0] != cv && es[0] != cur || !set(es[0] == cur) {
					return done, false, "the list is " + tstr(lv) + " after a new chunk is begun"
				}
			default:
				return done, false, "the chunk is " + tstr(cv) + " after an iteration, the list " + tstr(lv)
			}
		}
		if ic == nil || il == nil {
			return done, false, "start values unknown"
		}
		if isAcc(ic) && isAcc(il) {
			cur, list = ic, il
			continue
		}
		es := g.literal(mem, il)
		if ic.Op != "mkmap" || len(es) > 1 || len(es) == 1 && es[0] != ic || es == nil && !emptyList(il) {
			return done, false, "the list starts as " + tstr(il)
		}
		if !set(len(es) == 0) {
			return done, false, "the list starts as " + tstr(il)
		}
		return done, true, ""
	}
	return done, false, "too deep"
}

func emptyList(t *Term) bool {
	if t.Op == "mkslice" && len(t.A) > 0 {
		n, ok := t.A[0].ConstInt()
		return ok && n == 0
	}
	return t.IsNil() || t.Op == "empty" || t.Op == "zero"
}

// literal lists the elements of a list of known length.
func (g *Gens) literal(mem *Mem, t *Term) []*Term {
	if t == nil {
		return nil
	}
	es, base := appended(t)
	if base == nil || emptyList(base) {
		return es
	}
	if base.Op == "sliceof" {
		if mem == nil {
			return nil
		}
		out := append([]*Term{}, g.root.A.elems(&State{mem: mem}, base)...)
		for _, x := range out {
			if x == nil || x.Op == "spread" {
				return nil
			}
		}
		return append(out, es...)
	}
	return nil
}

// lastIndex: idx is the index of the last element of base after n more were
// appended to it.
func (iv *invoke) lastIndex(mem *Mem, idx, base *Term, n int64, inner *LoopSum) (bool, string) {

	b, k := linear(idx)
	if b.Op == "len" && b.A[0] == base {
		return k == n-1, fmt.Sprintf("the index is the length%+d, expected the length%+d", k, n-1)
	}
	if b.Op == "len" {
		es, bb := appended(b.A[0])
		if bb == base {
			return k == n-1-int64(len(es)), "index " + tstr(idx)
		}
	}
	if b.Op != "phi" && b.Op != "memphi" {
		return false, "the index is " + tstr(idx)
	}
	if k != n {
		return false, fmt.Sprintf("the counter is raised by %d where %d chunks are started", k, n)
	}
	if ok, why := iv.countsList(mem, b, base); !ok {
		return false, why
	}
	return true, ""
}

// countsList: the counter is always the length of the list minus one.
func (iv *invoke) countsList(mem *Mem, n, list *Term) (bool, string) {
	g := iv.g
	for d := 0; d < 8; d++ {
		ln, in, nextN := g.step(n)
		ll, il, nextL := g.step(list)
		if ln == nil || ll == nil || ln.ID != ll.ID {
			return false, "counter and list change in different loops"
		}
		for _, p := range ln.Iters {
			nb, k := linear(nextN(p))
			lv := nextL(p)
			// passed through an inner loop?
			if nb != n && k == 0 && nb.Op == n.Op && g.outer(nb) == n && (lv.Op == "phi" || lv.Op == "memphi") && g.outer(lv) == list {
				continue
			}
			es, lb := appended(lv)
			if lb == nil {
				return false, "the list is " + tstr(lv) + " after an iteration"
			}
			if nb != n || lb != list || k != int64(len(es)) {
				return false, fmt.Sprintf("an iteration raises the counter by %d and adds %d chunks", k, len(es))
			}
		}
		if in == nil || il == nil {
			return false, "start values unknown"
		}
		if (in.Op == "phi" || in.Op == "memphi") && (il.Op == "phi" || il.Op == "memphi") {
			n, list = in, il
			continue
		}
		b, k := linear(in)
		v, isC := in.ConstInt()
		if isC {
			k = v
		} else if b.Op == "len" {
			return k == -1 && b.A[0] == il, "the counter starts at " + tstr(in)
		}
		es := g.literal(mem, il)
		if es == nil && !emptyList(il) {
			return false, "the list starts as " + tstr(il)
		}
		return isC && k == int64(len(es))-1, fmt.Sprintf("the counter starts at %d and the list with %d chunks", k, len(es))
	}
	return false, "too deep"
}

// size checks the running size on a path that inserts a ticket.
func (iv *invoke) size(x *insertion, inner *LoopSum, p *Path, newChunks int) {
	c, g := iv.c, iv.g
	w := c.Where(x.ev)
	// candidates: number accumulators of this loop
	type cand struct {
		acc, next *Term
	}
	var cs []cand
	for phi, v := range p.Back {
		if b, ok := phi.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		cs = append(cs, cand{inner.PhiT[phi], v})
	}
	for k, mp := range inner.MemPhi {
		if k.Op == "written" {
			continue
		}
		if v, ok := p.Mem.m[k]; ok {
			cs = append(cs, cand{mp.T, v})
		}
	}
	lin := linForm
	for _, q := range cs {
		next := lin(q.next)
		_, init, _ := g.step(g.outer(q.acc))
		// the number is the size, or what is left of the budget
		sign := int64(0)
		for t, n := range next.m {
			if coversTicket(t, x.ticket) && (n == 1 || n == -1) {
				sign = n
				next = next.add(lform{0, map[*Term]int64{t: 1}}, -n)
				break
			}
		}
		var start lform
		if init != nil {
			start = lin(init)
		}
		if sign == 0 {
			// perhaps it forgets the ticket: recognise the accumulator by its start
			if _, ok := emptyPlus(start); !ok {
				if _, ok := emptyPlus(lform{}.add(start, -1)); !ok {
					continue
				}
			}
			c.Ob("C07", false, w, "the running size grows by the size of the added ticket as a roster entry", "it becomes "+tstr(q.next))
			return
		}
		next, start = lform{}.add(next, sign), lform{}.add(start, sign)
		k0, ok := emptyPlus(start)
		c.Ob("C07", ok && init != nil, w, "the running size starts from the size of the profile without participants", "it starts as "+tstr(init))
		if !ok {
			return
		}
		if newChunks > 0 {
			k, ok := emptyPlus(next)
			c.Ob("C07", ok && k >= k0, w, "a new chunk starts from the size of the profile without participants", "the size becomes "+tstr(q.next))
			return
		}
		d := next.add(lform{0, map[*Term]int64{q.acc: 1}}, -sign)
		c.Ob("C07", len(d.m) == 0 && d.k >= 0, w, "the running size of the chunk is kept and grows by the ticket", "the size becomes "+tstr(q.next))
		// the ticket was known to fit
		whole := lform{}.add(lin(q.next), sign) // the size afterwards, k0 included
		fits := false
		for _, f := range p.Facts {
			if f.T.Op != "lt" {
				continue
			}
			// a < b: a-b <= -1; otherwise b-a <= 0
			d, max := lin(f.T.A[0]).add(lin(f.T.A[1]), -1), int64(-1)
			if !f.Val {
				d, max = lform{}.add(d, -1), 0
			}
			if r := whole.add(d, -1); len(r.m) == 0 && max+r.k-k0 < budget {
				fits = true
			}
		}
		c.Ob("C07", fits, w, fmt.Sprintf("a ticket is added to the current chunk only if the running size stays below %d", budget), "added under "+litsStr(lits(p.Facts, func(t *Term) bool { return t.Op == "lt" })))
		return
	}
	c.Ob("C07", false, w, "the size of the current chunk is tracked", "no running size that grows with the ticket was found")
}

// emptyPlus: the size of a chunk without participants plus a number.
func emptyPlus(f lform) (k int64, ok bool) {
	if len(f.m) != 1 {
		return 0, false
	}
	for t, n := range f.m {
		ok = n == 1 && coversEmpty(t)
	}
	return f.k, ok
}

// sent lists the chunk messages given to the functions: the send events and
// the collection the chunks are taken from.
type sentChunk struct {
	at  *At
	ev  *Event
	arg *Term
}

func (iv *invoke) sentChunks() []sentChunk {
	var out []sentChunk
	iv.root.Walk(func(e *Event, at *At) {
		if e.Kind == "call" && mname(e.Name) == "Send" && len(e.Args) == 2 && callArgType(e, 1) == "*"+pbPath+".ChunkedMmfRunRequest" {
			out = append(out, sentChunk{at, e, e.Args[1]})
		}
	})
	return out
}

// callArgType is the static type of the i-th argument (receiver first).
func callArgType(e *Event, i int) string {
	var cc *ssa.CallCommon
	switch x := e.Site.(type) {
	case *ssa.Call:
		cc = &x.Call
	case *ssa.Go:
		cc = &x.Call
	case *ssa.Defer:
		cc = &x.Call
	}
	if cc == nil {
		return ""
	}
	if cc.IsInvoke() {
		i--
		if i < 0 {
			return cc.Value.Type().String()
		}
	}
	if i >= len(cc.Args) {
		return ""
	}
	return cc.Args[i].Type().String()
}

// requests is the collection of chunk messages and the loop over the chunks
// that fills it.
func (iv *invoke) requests(props string) (coll *Term, fill *LoopSum, gens []Gen) {
	c := iv.c
	for _, s := range iv.sentChunks() {
		a := s.arg
		if a.Op != "elem" || len(a.A) != 1 {
			c.Ob(props, false, c.Where(s.ev), "a function is sent the prepared chunks", "it is sent "+tstr(a))
			return nil, nil, nil
		}
		if coll != nil && coll != a.A[0] {
			c.Ob(props, false, c.Where(s.ev), "all functions are sent the same chunks", "different ones")
			return nil, nil, nil
		}
		coll = a.A[0]
	}
	if coll == nil {
		c.Ob(props, false, iv.where, "chunks are sent to the functions", "no Send of a ChunkedMmfRunRequest found")
		return nil, nil, nil
	}
	gens, ok := iv.g.of(coll)
	if !ok || len(gens) == 0 {
		c.Ob(props, false, iv.where, "the chunk messages are built in a way the analysis follows", tstr(coll))
		return nil, nil, nil
	}
	for _, x := range gens {
		if len(x.Iters) != 1 {
			c.Ob(props, false, iv.where, "one message is built for each chunk", fmt.Sprintf("built in %d nested loops", len(x.Iters)))
			return nil, nil, nil
		}
		if fill != nil && fill.ID != x.Iters[0].L.ID {
			c.Ob(props, false, iv.where, "one message is built for each chunk", "in two loops")
			return nil, nil, nil
		}
		fill = x.Iters[0].L
	}
	return coll, fill, gens
}

// announced: every chunk message states the number of chunks.
func (iv *invoke) announced(chunks *chunkList) {
	c, g := iv.c, iv.g
	coll, fill, gens := iv.requests("C07")
	if coll == nil {
		return
	}
	w := c.LoopWhere(fill)
	overChunks := chunks.is(g, fill.Coll)
	c.Ob("C07", overChunks, w, "a message is built for each chunk", "built in a loop over "+tstr(fill.Coll))
	ok, why := complete(fill)
	c.Ob("C07", ok, w, "a message is built for every chunk", why)
	for _, p := range fill.Iters {
		n := 0
		for _, x := range gens {
			if x.Iters[0].P == p {
				n++
			}
		}
		c.Ob("C07", n == 1, w, "exactly one message is built for each chunk", fmt.Sprint(n))
	}
	for _, x := range gens {
		if coll.Op == "mkslice" {
			k := x.Key
			c.Ob("C07", k != nil && k.Op == "idx" && s2loop(k.S) == fill.ID, w, "the messages keep the order of the chunks", "stored at "+tstr(k))
			ln := stripConv(coll.A[0])
			c.Ob("C07", chunks.length(g, ln), w, "there is one message per chunk", "there are "+tstr(ln))
		}
		n := iv.root.fieldOf(x.Path.Mem, x.Val, "NumChunks")
		b, k := linear(n)
		okn := false
		switch {
		case chunks.length(g, n) || b.Op == "len" && b.A[0] == coll && k == 0:
			okn = true
		case (b.Op == "phi" || b.Op == "memphi") && !chunks.done:
			if k == 1 {
				okn, _ = iv.countsList(x.Path.Mem, b, chunks.list)
			}
		}
		c.Ob("C07", okn, w, "every chunk announces the total number of chunks", "it announces "+tstr(n))
	}
}

// sends: every function is sent all chunks once, in order.
func (iv *invoke) sends() {
	c := iv.c
	for _, s := range iv.sentChunks() {
		w := c.Where(s.ev)
		l := s.at.Loop()
		if l == nil || s.arg.Op != "elem" || s2loop(s.arg.S) != l.ID {
			c.Ob("C07", false, w, "all chunks are sent in a loop over them", tstr(s.arg))
			continue
		}
		coll := s.arg.A[0]
		full := l.Coll == coll || coll.Op == "mkslice" && stripConv(coll.A[0]).Op == "len" && stripConv(coll.A[0]).A[0] == l.Coll
		byCount := coll.Op == "mkslice" && l.Kind == "count" && l.Bound == iv.root.A.In.Len(coll) && l.Start != nil && isZeroInt(l.Start)
		c.Ob("C07", full && l.Kind == "slice" || byCount, w, "all chunks are sent, in order", "the loop is over "+tstr(l.Coll))
		for _, x := range l.Exits {
			if hasLit(x.Facts, l.Cond, !l.Stay) || x.Kind == "fatal" || x.Kind == "panic" {
				continue
			}
			// only a failed send may end the loop
			fe := false
			for _, f := range x.Facts {
				if f.T.Op == "eq" && !f.Val && f.T.A[1].IsNil() && f.T.A[0].Op == "call" && strings.Contains(f.T.A[0].S, ".Send@") {
					fe = true
				}
			}
			c.Ob("C07", fe, w, "the sending loop ends early only after a failed send", litsStr(x.Facts))
		}
		for _, p := range l.Iters {
			n := countEv(p, func(e *Event) bool {
				return e.Kind == "call" && mname(e.Name) == "Send" && callArgType(e, 1) == "*"+pbPath+".ChunkedMmfRunRequest"
			})
			c.Ob("C07", n == 1, w, "each chunk is sent exactly once", fmt.Sprintf("%d times", n))
		}
	}
}

func rulePassthrough(c *Ctx) {
	iv := c.invoke("C06")
	if iv == nil {
		return
	}
	coll, fill, gens := iv.requests("C06")
	if coll == nil {
		return
	}
	r := iv.root
	for _, x := range gens {
		w := c.R.Pos(fill.pos)
		if x.Ev != nil {
			w = c.Where(x.Ev)
		}
		mem := x.Path.Mem
		prof := r.fieldOf(mem, x.Val, "Profile")
		iv.sameFields(w, mem, prof, "Profile", "arg0.Profile", map[string]bool{"Pools": true}, nil)
		pools := r.fieldOf(mem, prof, "Pools")
		if pools.Op != "mkmap" {
			c.Ob("C06", false, w, "the pools of a chunk are a map of its own", "they are "+tstr(pools))
			continue
		}
		c.Ob("C06", pools.Op == "mkmap" && allocIn(r.A, pools, fill), w, "every chunk has a map of pools of its own", "the map is made outside of the loop over the chunks")
		gs, _ := iv.g.of(pools)
		c.Ob("C06", len(gs) > 0, w, "the pools of the profile are put into the chunk", "nothing is put into the map")
		for _, pg := range gs {
			pw := c.Where(pg.Ev)
			pmem := pg.Path.Mem
			src := iv.poolOf(pg.Key)
			c.Ob("C06", src != nil, pw, "a pool keeps its name in the profile", "it is put under "+tstr(iv.g.Expand(pg.Key)))
			if src == nil {
				continue
			}
			inner := pg.Iters[len(pg.Iters)-1].L
			if len(pg.Iters) < 2 || inner.ID == fill.ID {
				c.Ob("C06", false, pw, "the pools are put into every chunk in a loop", "no inner loop")
				continue
			}
			inLoop, okv := iv.validSet("C06", inner)
			if okv {
				ok, why := complete(inner)
				c.Ob("C06", ok, pw, "every valid pool is put into every chunk", why)
				for _, p := range inner.Iters {
					n := 0
					for _, q := range gs {
						if q.Path == p {
							n++
						}
					}
					if inLoop {
						if v, known := poolValid(p.Facts, inner); known && !v {
							c.Ob("C06", n == 0, pw, "an invalid pool is not sent", litsStr(p.Facts))
							continue
						}
					}
					c.Ob("C06", n == 1, pw, "every valid pool is put into every chunk", fmt.Sprintf("%d times under %s", n, litsStr(p.Facts)))
				}
				// every chunk has them
				for _, p := range fill.Iters {
					n := countEv(p, func(e *Event) bool { return e.Kind == "loop" && e.Loop.ID == inner.ID })
					c.Ob("C06", n == 1, pw, "every chunk gets the pools", fmt.Sprintf("the pools are put in %d times under %s", n, litsStr(p.Facts)))
				}
			}
			pool := pg.Val
			if iv.isPool(pool) != nil {
				c.Ob("C06", false, pw, "the pool sent is a new message", "the caller's pool itself is changed")
				continue
			}
			iv.sameFields(pw, pmem, pool, "Pool", "", map[string]bool{"Participants": true}, src)
			// participants: what was collected for this pool in this chunk
			part := r.fieldOf(pmem, pool, "Participants")
			tk := r.fieldOf(pmem, part, "Tickets")
			okp := tk.Op == "lookup" && iv.poolOf(tk.A[1]) == src && tk.A[0].Op == "elem" && s2loop(tk.A[0].S) == fill.ID
			if okp {
				okp = false
				for _, ins := range iv.ins {
					if cl, _, _ := iv.chunkOf(ins); cl.is(iv.g, tk.A[0].A[0]) {
						okp = true
					}
				}
			}
			c.Ob("C06", okp, pw, "the participants of a pool are the tickets collected for that pool in that chunk", "they are "+tstr(tk))
		}
	}
	// nothing of the caller's request is written to
	iv.root.Walk(func(e *Event, at *At) {
		if e.Kind != "store" && e.Kind != "mapset" {
			return
		}
		b := rootOf(e.Args[0])
		for b != nil && b.Op == "key" {
			b = rootOf(b.A[0])
		}
		if b != nil && b.Op == "param" {
			c.Ob("C06", false, c.Where(e), "the caller's request is not changed", "written: "+tstr(e.Args[0]))
		}
	})
	// all functions get the same
	n := len(iv.sentChunks())
	c.Ob("C06", n > 0, iv.where, "functions are sent the chunks", "")
}

// sameFields: every exported field of the message is that of the source.
func (iv *invoke) sameFields(w string, mem *Mem, m *Term, typ, path string, except map[string]bool, src *Term) {
	c := iv.c
	if m != nil && (path != "" && fpath(m) == path) {
		return
	}
	for _, f := range c.R.msgFields(pbPath, typ) {
		if except[f.Name()] {
			continue
		}
		v := iv.root.fieldOf(mem, m, f.Name())
		if path != "" {
			c.Ob("C06", fpath(v) == path+"."+f.Name(), w, "a chunk carries the "+f.Name()+" of the caller's "+strings.ToLower(typ), "it carries "+tstr(v))
			continue
		}
		e := iv.g.Expand(v)
		for e.Op == "clone" {
			e = iv.g.Expand(e.A[0])
		}
		ok := e.Op == "field" && e.S == f.Name() && e.A[0] == src
		c.Ob("C06", ok, w, "a chunk carries the "+f.Name()+" of the caller's "+strings.ToLower(typ), "it carries "+tstr(v))
	}
}

// allocIn: the object is allocated inside the loop.
func allocIn(a *Analysis, o *Term, l *LoopSum) bool {
	as, ok := o.Aux.(allocSite)
	if !ok {
		return false
	}
	body := l.Frame.loops[l.Header]
	fr, ins := as.frame, as.ins
	for fr != nil && fr != l.Frame {
		ins = fr.Call
		fr = fr.Parent
	}
	return fr != nil && ins != nil && body[ins.Block()]
}
