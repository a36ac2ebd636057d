package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules for the function side: reassembly of chunked requests, sample
// matchmaking functions.

func init() {
	rule("read-chunks", "C08", "every path that returns a profile has received the announced number of chunks and merged every pool of each of them; a failed receive ends it with the error", ruleReadChunks)
}

func isRunServer(t string) bool {
	return strings.HasSuffix(t, "MatchMakingFunctionService_RunServer")
}

// chunkReaders are the functions that turn a stream into a profile.
func (c *Ctx) chunkReaders() []*ssa.Function {
	var out []*ssa.Function
	for _, f := range c.R.Funcs {
		s := f.Signature
		if isGenerated(pkgPathOf(f)) || f.Parent() != nil || f.Synthetic != "" || s.Recv() != nil || s.Results().Len() != 2 {
			continue
		}
		if typeStr(s.Results().At(0).Type()) != "*"+pbPath+".Profile" || !f.Object().Exported() {
			continue
		}
		for i := 0; i < s.Params().Len(); i++ {
			if isRunServer(typeStr(s.Params().At(i).Type())) {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

func ruleReadChunks(c *Ctx) {
	fs := c.chunkReaders()
	c.Ob("C08", len(fs) > 0, "mmf/server", "the function that receives a chunked request is found", "no function turns a stream into a profile")
	for _, f := range fs {
		root := c.Root(f)
		c.Cov[f] = true
		if !c.Sound("C08", root) {
			continue
		}
		k := &chunks{c: c, root: root, g: root.Gens()}
		k.check()
	}
}

type chunks struct {
	c    *Ctx
	root *Root
	g    *Gens
}

func shortFacts(fs []Lit) string {
	var out []string
	for _, f := range fs {
		t := tstr(f.T)
		if !f.Val {
			t = "!" + t
		}
		out = append(out, t)
	}
	s := strings.Join(out, " & ")
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

func isZeroInt(t *Term) bool {
	n, ok := t.ConstInt()
	return ok && n == 0
}

func isRecvCall(e *Event) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, "MatchMakingFunctionService_RunServer).Recv")
}

// in reports whether t is a received chunk.
func (k *chunks) in(t *Term) bool {
	if t == nil || t.Op != "res" || t.S != "0" {
		return false
	}
	found := false
	k.root.WalkAll(func(e *Event, _ *At) {
		if isRecvCall(e) && e.Res == t.A[0] {
			found = true
		}
	})
	return found
}

// from: t is the named part of a chunk (or of the chunk of the last round).
func (k *chunks) from(t *Term, d int, path ...string) bool {
	t = stripConv(t)
	if t == nil || d > 6 {
		return false
	}
	if t.Op == "phi" || t.Op == "memphi" {
		l, _, next := k.g.step(t)
		if l == nil {
			return false
		}
		n := 0
		for _, p := range l.Iters {
			v := next(p)
			if v == t {
				continue
			}
			if !k.from(v, d+1, path...) {
				return false
			}
			n++
		}
		return n > 0
	}
	for i := len(path) - 1; i >= 0; i-- {
		if t.Op != "field" || t.S != path[i] {
			return false
		}
		t = t.A[0]
		if t.Op == "phi" || t.Op == "memphi" {
			return k.from(t, d+1, path[:i]...)
		}
	}
	return k.in(t)
}

// num: t is the number of chunks; direct: that the chunk of this round has.
func (k *chunks) num(t *Term) (is, direct bool) {
	t = stripConv(t)
	if !k.from(t, 0, "NumChunks") {
		return false, false
	}
	if t.Op == "phi" || t.Op == "memphi" {
		// before the first chunk there must be a first round
		_, init, _ := k.g.step(t)
		n, ok := int64(0), false
		if init != nil {
			n, ok = init.ConstInt()
		}
		return ok && n >= 1, false
	}
	return true, true
}

// compare finds facts that compare the number of received chunks with the
// announced one. count: as lin. state: "all" all received, "more" some missing.
func (k *chunks) compare(facts []Lit, before, after lin) (all, more bool) {
	for _, f := range facts {
		if len(f.T.A) != 2 || f.T.Op != "eq" && f.T.Op != "lt" && f.T.Op != "le" {
			continue
		}
		for i := 0; i < 2; i++ {
			is, direct := k.num(f.T.A[i])
			if !is {
				continue
			}
			want := before
			if direct {
				want = after
			}
			d := k.g.lin(f.T.A[1-i], 0).add(want, -1)
			n, ok := d.constant()
			if !ok {
				continue
			}
			switch {
			case f.T.Op == "eq" && n == 0:
				if f.Val {
					all = true
				} else {
					more = true
				}
			case f.T.Op == "lt" && i == 1 && n == 0, f.T.Op == "le" && i == 1 && n == 1: // count < num
				if f.Val {
					more = true
				} else {
					all = true
				}
			case f.T.Op == "le" && i == 0 && n == 0, f.T.Op == "lt" && i == 0 && n == 1: // num <= count
				if f.Val {
					all = true
				} else {
					more = true
				}
			}
		}
	}
	return
}

func (k *chunks) check() {
	c := k.c
	w := c.FnWhere(k.root.Fn)
	ok := 0
	for _, p := range k.root.Paths {
		if p.Kind != "return" || len(p.Ret) != 2 {
			c.Ob("C08", false, w, "receiving a request ends with a profile or an error", "a path ends with "+p.Kind)
			continue
		}
		var failed *Event
		for _, e := range p.Events {
			if isRecvCall(e) {
				if isNil, known := c.errNil(p.Facts, e, 1); known && !isNil {
					failed = e
				} else if !known {
					c.Ob("C08", false, c.Where(e), "the error of the receive is looked at", "the path does not depend on it")
				}
			}
		}
		if failed != nil {
			err := p.Ret[1]
			has := false
			walkTerm(err, func(t *Term) {
				if t.Op == "res" && t.S == "1" && t.A[0] == failed.Res {
					has = true
				}
			})
			c.Ob("C08", p.Ret[0].IsNil() && has, c.Where(failed), "a failed receive is answered with its error and without a profile", tstr(p.Ret[0])+", "+tstr(err))
			continue
		}
		if !p.Ret[1].IsNil() {
			// a request that announces no chunks may be refused
			just := false
			for _, f := range p.Facts {
				for i := range f.T.A {
					if is, _ := k.num(f.T.A[i]); is && len(f.T.A) == 2 {
						if n, isC := f.T.A[1-i].ConstInt(); isC && (f.T.Op == "eq" && f.Val && n <= 0 || f.T.Op == "lt" && i == 0 && f.Val && n <= 1 || f.T.Op == "le" && i == 0 && f.Val && n <= 0) {
							just = true
						}
					}
				}
			}
			c.Ob("C08", just, w, "a request that was received is not refused", tstr(p.Ret[1]))
			continue
		}
		ok++
		k.success(p)
	}
	c.Ob("C08", ok > 0, w, "a request can be received", "no path returns a profile")
}

func (k *chunks) success(p *Path) {
	c := k.c
	w := c.FnWhere(k.root.Fn)
	// how many chunks were received
	count, why := k.g.sum(p, func(e *Event) *Term {
		if isRecvCall(e) {
			return k.root.A.In.Int(1)
		}
		return nil
	})
	if why != "" {
		c.Ob("C08", false, w, "the number of received chunks is known", why)
		return
	}
	var loops []*LoopSum
	for _, e := range p.Events {
		if e.Kind == "loop" {
			n := 0
			for _, q := range e.Loop.Iters {
				for _, x := range q.Events {
					if isRecvCall(x) {
						n++
					}
				}
			}
			if n > 0 {
				loops = append(loops, e.Loop)
			}
		}
	}
	if len(loops) != 1 {
		c.Ob("C08", false, w, "chunks are received in one loop", fmt.Sprintf("%d loops", len(loops)))
		return
	}
	l := loops[0]
	lw := c.LoopWhere(l)
	// at the exit: the exit path may hold the receive of the last round
	tail := count[kOf(l)] == 1 && count[""] == 1
	if !(count[kOf(l)] == 1 && (count[""] == 0 || count[""] == 1) && len(count) <= 2) {
		c.Ob("C08", false, lw, "one chunk is received in a round", count.String())
		return
	}
	iter := lin{kOf(l): 1}
	iter1 := lin{kOf(l): 1, "": 1}
	after := iter1
	if !tail {
		after = nil // nothing was received in the round that ends
	}
	all, _ := k.compare(p.Facts, count, after)
	c.Ob("C08", all, lw, "a profile is returned only when the announced number of chunks has been received", "the path does not compare their number with NumChunks: "+shortFacts(p.Facts))
	for _, q := range l.Iters {
		_, more := k.compare(q.Facts, iter, iter1)
		c.Ob("C08", more, lw, "no chunk is awaited after the announced number", "a round goes on without comparing: "+shortFacts(q.Facts))
	}

	// the profile
	prof := p.Ret[0]
	var m *Term
	for _, f := range c.R.msgFields(pbPath, "Profile") {
		v := k.root.fieldOf(p.Mem, prof, f.Name())
		if f.Name() == "Pools" {
			m = stripConv(v)
			continue
		}
		c.Ob("C08", k.from(v, 0, "Profile", f.Name()), w, "the profile's "+f.Name()+" is that of the request", tstr(v))
	}
	if m == nil || m.Op != "mkmap" {
		c.Ob("C08", false, w, "the profile holds the merged pools", tstr(m))
		return
	}
	// made once: the rounds of the loop change the same map
	kept := false
	for t := range l.MemPhi {
		if t.Op == "written" && t.A[0] == m {
			kept = true
		}
	}
	c.Ob("C08", kept, lw, "the pools of all rounds are merged into one map", "each round starts with an empty one, or none adds to it")

	// every round merges the pools of its chunk
	n := 0
	merged := func(es []*Event, facts []Lit) {
		for i, e := range es {
			if !isRecvCall(e) {
				continue
			}
			if isNil, known := c.errNil(facts, e, 1); known && !isNil {
				continue
			}
			n++
			found := 0
			for _, x := range es[i:] {
				if x.Kind == "loop" && k.pools(x.Loop, e) && touches(x.Loop, m) {
					found++
					k.merge(x.Loop, m)
				}
			}
			c.Ob("C08", found == 1, c.Where(e), "the pools of every received chunk are merged, once", fmt.Sprintf("merged %d times on a path", found))
		}
	}
	for _, q := range l.Iters {
		merged(q.Events, q.Facts)
	}
	merged(p.Events, p.Facts)
	c.Ob("C08", n > 0, lw, "chunks are merged", "none")
	// nothing else changes the pools
	k.root.WalkAll(func(e *Event, at *At) {
		if len(e.Args) == 0 || e.Args[0] != m {
			return
		}
		bad := ""
		switch e.Kind {
		case "mapset":
			in := false
			if lp := at.Loop(); lp != nil && k.from(k.over(lp), 0, "Profile", "Pools") {
				in = true
			}
			if !in {
				bad = "a pool is set outside of the loop over the chunk's pools"
			}
		case "mapdel", "clear":
			bad = "pools are removed"
		}
		if bad != "" {
			c.Ob("C08", false, c.Where(e), "only the pools of the chunks are put into the profile", bad)
		}
	})
}

// pools: the loop goes over the pools of the chunk received by recv.
func (k *chunks) pools(l *LoopSum, recv *Event) bool {
	t := stripConv(k.over(l))
	return t != nil && k.from(t, 0, "Profile", "Pools") && t.A[0].A[0].Op == "res" && t.A[0].A[0].A[0] == recv.Res
}

// touches: a round of the loop asks or changes the map.
func touches(l *LoopSum, m *Term) bool {
	hit := false
	see := func(t *Term) {
		if t != nil {
			walkTerm(t, func(x *Term) { hit = hit || x == m })
		}
	}
	for _, q := range l.Iters {
		for _, f := range q.Facts {
			see(f.T)
		}
		for _, e := range q.Events {
			for _, a := range e.Args {
				see(a)
			}
			if e.Kind == "loop" && touches(e.Loop, m) {
				return true
			}
		}
	}
	return hit
}

// over: the map the loop visits, itself or through a list of all its keys.
func (k *chunks) over(l *LoopSum) *Term {
	if l.Kind == "map" {
		return l.Coll
	}
	if l.Kind != "slice" || l.Coll == nil {
		return nil
	}
	gs, ok := k.root.Gens().of(stripConv(l.Coll))
	if !ok || len(gs) == 0 {
		return nil
	}
	var by *LoopSum
	adds := map[*Path]int{}
	for _, g := range gs {
		v := stripConv(g.Val)
		if g.Spread || v == nil || v.Op != "key" || len(g.Iters) == 0 {
			return nil
		}
		it := g.Iters[len(g.Iters)-1]
		if by != nil && by != it.L || it.L.Kind != "map" || v.A[0] != it.L.Coll {
			return nil
		}
		by = it.L
		adds[it.P]++
	}
	if all, _ := complete(by); !all {
		return nil
	}
	for _, q := range by.Iters {
		if adds[q] != 1 {
			return nil
		}
	}
	return by.Coll
}

// merge checks one round of the loop over the pools of a chunk.
func (k *chunks) merge(l *LoopSum, m *Term) {
	c := k.c
	w := c.LoopWhere(l)
	coll := k.over(l)
	for _, x := range l.Exits {
		stays := l.Cond != nil && hasLit(x.Facts, l.Cond, l.Stay)
		c.Ob("C08", !stays, w, "all pools of a chunk are merged", "the loop can end before the last pool")
	}
	for _, q := range l.Iters {
		known, had := false, false
		var key *Term
		for _, f := range q.Facts {
			if f.T.Op == "lookupok" && f.T.A[0] == m {
				known, had, key = true, f.Val, f.T.A[1]
			}
			if f.T.Op == "eq" && f.T.A[1].IsNil() && f.T.A[0].Op == "lookup" && f.T.A[0].A[0] == m {
				known, had, key = true, !f.Val, f.T.A[0].A[1]
			}
		}
		isKey := key != nil && len(key.A) > 0 && key.A[0] == l.Coll && (l.Kind == "map" && key.Op == "key" || l.Kind == "slice" && key.Op == "elem")
		if !known || !isKey {
			c.Ob("C08", false, w, "merging a pool depends on whether one of its name was there", "the path does not ask for its name: "+shortFacts(q.Facts))
			continue
		}
		elem := func(t *Term) bool { // the chunk's pool
			t = stripConv(t)
			return t != nil && (l.Kind == "map" && t.Op == "elem" && t.A[0] == l.Coll || t.Op == "lookup" && t.A[0] == coll && t.A[1] == key || t.Op == "clone" && len(t.A) > 0 && l.Kind == "map" && t.A[0].Op == "elem" && t.A[0].A[0] == l.Coll)
		}
		part := func(t *Term) bool {
			t = stripConv(t)
			if t != nil && t.Op == "clone" && len(t.A) > 0 {
				t = t.A[0]
			}
			return t != nil && t.Op == "field" && t.S == "Participants" && elem(t.A[0])
		}
		tickets := func(t *Term) bool {
			t = stripConv(t)
			return t != nil && t.Op == "field" && t.S == "Tickets" && part(t.A[0])
		}
		// list: the tickets of the chunk's pool, after those of base
		list := func(t *Term, base func(t *Term) bool) bool {
			t = stripConv(t)
			if t == nil {
				return false
			}
			if base == nil && tickets(t) {
				return true
			}
			if t.Op == "seq" && len(t.A) == 1 && base == nil {
				return t.A[0].Op == "spread" && tickets(t.A[0].A[0])
			}
			if t.Op != "append" || len(t.A) != 2 || t.A[1].Op != "spread" || !tickets(t.A[1].A[0]) {
				return false
			}
			b := stripConv(t.A[0])
			if base == nil {
				return b.IsNil() || b.Op == "zero" || b.Op == "mkslice" && isZeroInt(b.A[0]) || b.Op == "seq" && len(b.A) == 0
			}
			return base(b)
		}
		stored := q.Mem.m[k.root.A.In.mk("lookupaddr", "", nil, nil, m, key)]
		if !had {
			if stored == nil {
				c.Ob("C08", false, w, "a pool that was not there is added", "the path does not")
				continue
			}
			if elem(stored) && (stored.Op != "clone" || !dirty(q.Mem, stored)) {
				c.Ob("C08", true, w, "a pool that was not there is added", "")
				continue
			}
			for _, f := range c.R.msgFields(pbPath, "Pool") {
				v := stripConv(k.root.fieldOf(q.Mem, stored, f.Name()))
				ok := false
				if f.Name() == "Participants" {
					if ok = part(v); !ok && v != nil {
						ok = list(k.root.fieldOf(q.Mem, v, "Tickets"), nil)
					}
				} else {
					ok = v != nil && v.Op == "field" && v.S == f.Name() && elem(v.A[0])
				}
				c.Ob("C08", ok, w, "a new pool has the "+f.Name()+" of the chunk's pool", tstr(v))
			}
			continue
		}
		// one was there
		old := k.root.A.In.mk("lookup", "", nil, nil, m, key)
		for _, f := range q.Facts {
			walkTerm(f.T, func(t *Term) {
				if t.Op == "lookup" && t.A[0] == m && t.A[1] == key {
					old = t
				}
			})
		}
		pool := old
		if stored != nil {
			pool = stored
		}
		v := k.root.fieldOf(q.Mem, pool, "Participants")
		was := func(t *Term) bool {
			t = stripConv(t)
			return t.Op == "field" && t.S == "Tickets" && t.A[0].Op == "field" && t.A[0].S == "Participants" && t.A[0].A[0].Op == "lookup" && t.A[0].A[0].A[0] == m && t.A[0].A[0].A[1] == key
		}
		none := false // there were no participants
		for _, f := range q.Facts {
			if f.T.Op == "eq" && f.Val && f.T.A[1].IsNil() && f.T.A[0].Op == "field" && f.T.A[0].S == "Participants" && f.T.A[0].A[0].Op == "lookup" && f.T.A[0].A[0].A[0] == m {
				none = true
			}
			if f.T.Op == "eq" && f.Val && isZeroInt(f.T.A[1]) && f.T.A[0].Op == "len" && was(f.T.A[0].A[0]) {
				none = true
			}
		}
		empty := false // the chunk's pool has none
		for _, f := range q.Facts {
			if f.T.Op == "eq" && f.Val && f.T.A[1].IsNil() && part(f.T.A[0]) {
				empty = true
			}
			if f.T.Op == "eq" && f.Val && isZeroInt(f.T.A[1]) && f.T.A[0].Op == "len" && tickets(f.T.A[0].A[0]) {
				empty = true
			}
			if f.T.Op == "lt" && !f.Val && isZeroInt(f.T.A[0]) && f.T.A[1].Op == "len" && tickets(f.T.A[1].A[0]) {
				empty = true
			}
		}
		tk := k.root.fieldOf(q.Mem, v, "Tickets")
		ok := list(tk, was) || none && (part(v) || list(tk, nil)) || empty && (was(tk) || none)
		c.Ob("C08", ok, w, "the participants of a later chunk's pool are added after those that were there", tstr(tk))
		if stored != nil && stored != old {
			for _, f := range c.R.msgFields(pbPath, "Pool") {
				if f.Name() == "Participants" {
					continue
				}
				v := stripConv(k.root.fieldOf(q.Mem, stored, f.Name()))
				ok := v != nil && v.Op == "field" && v.S == f.Name() && (elem(v.A[0]) || v.A[0].Op == "lookup" && v.A[0].A[0] == m)
				c.Ob("C08", ok, w, "a replaced pool has the "+f.Name()+" it had", tstr(v))
			}
		}
	}
}
