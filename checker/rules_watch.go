package main

import (
	"fmt"
	"strings"
)

func init() {
	rule("watch", "C31", "one watcher per listed id hands over one message with that id and its assignment; every message received is sent once; the watch lasts until all arrived or the time is over", ruleWatch)
	rule("gauge", "C29", "the changes of an up-down counter add up to nothing on every path of every call", ruleGauge)
}

// ---- sums over paths ----

// lin is a linear combination of terms; "" is the constant.
type lin map[string]int64

func (a lin) add(b lin, k int64) lin {
	out := lin{}
	for t, n := range a {
		out[t] += n
	}
	for t, n := range b {
		out[t] += k * n
	}
	for t, n := range out {
		if n == 0 {
			delete(out, t)
		}
	}
	return out
}

func (a lin) constant() (int64, bool) {
	for t := range a {
		if t != "" {
			return 0, false
		}
	}
	return a[""], true
}

func (a lin) String() string {
	s := ""
	for _, k := range sortedKeys(a) {
		s += fmt.Sprintf(" %+d*[%s]", a[k], k)
	}
	return strings.TrimSpace(s)
}

func kOf(l *LoopSum) string { return "iterations of " + short(l.ID) }

// lin writes t as a linear combination; indices and counters of a loop are
// expressed by the number of completed iterations of that loop.
func (g *Gens) lin(t *Term, d int) lin {
	t = stripConv(t)
	if n, ok := t.ConstInt(); ok {
		return lin{}.add(lin{"": n}, 1)
	}
	if d < 12 {
		switch t.Op {
		case "bin":
			a, b := t.A[0], t.A[1]
			switch t.S {
			case "+":
				return g.lin(a, d+1).add(g.lin(b, d+1), 1)
			case "-":
				return g.lin(a, d+1).add(g.lin(b, d+1), -1)
			case "*":
				x, y := g.lin(a, d+1), g.lin(b, d+1)
				if n, ok := x.constant(); ok {
					return lin{}.add(y, n)
				}
				if n, ok := y.constant(); ok {
					return lin{}.add(x, n)
				}
			}
		case "idx":
			for _, l := range g.all[s2loop(t.S)] {
				return lin{kOf(l): 1}
			}
		case "phi", "memphi":
			l, init, next := g.step(t)
			if l == nil || init == nil || len(l.Iters) == 0 {
				break
			}
			var by int64
			for i, p := range l.Iters {
				v := next(p)
				if v == nil {
					return lin{tstr(t): 1}
				}
				b, k := linear(v)
				if b != t || i > 0 && k != by {
					return lin{tstr(t): 1}
				}
				by = k
			}
			return g.lin(init, d+1).add(lin{kOf(l): 1}, by)
		}
	}
	return lin{tstr(t): 1}
}

// iterations gives, for a loop that has run on the path, the number of its
// iterations where the facts of the path tell it.
func (g *Gens) iterations(l *LoopSum, p *Path) (lin, bool) {
	k := kOf(l)
	solve := func(a, b lin) (lin, bool) {
		// a - b = 0 with one iteration more or less deciding
		x := a.add(b, -1)
		n := x[k]
		if n != 1 && n != -1 {
			return nil, false
		}
		delete(x, k)
		for t := range x {
			if strings.HasPrefix(t, "iterations of ") {
				return nil, false
			}
		}
		return lin{}.add(x, -n), true
	}
	if l.Cond != nil && hasLit(p.Facts, l.Cond, !l.Stay) && (l.Kind == "slice" || l.Kind == "map") {
		if tr := trip(g.root.A.In, l); tr != nil {
			return g.lin(tr, 0), true
		}
	}
	for _, f := range p.Facts {
		if len(f.T.A) != 2 || l.Cond == nil || f.T != l.Cond || f.Val == l.Stay {
			continue
		}
		switch f.T.Op {
		case "lt", "eq", "le":
			if v, ok := solve(g.lin(f.T.A[0], 0), g.lin(f.T.A[1], 0)); ok {
				return v, true
			}
		}
	}
	return nil, false
}

// sum adds up what the events of a path contribute.
func (g *Gens) sum(p *Path, val func(e *Event) *Term) (lin, string) {
	return g.sumPath(p, func(e *Event, _ *Path) *Term { return val(e) })
}

func (g *Gens) sumPath(p *Path, val func(e *Event, p *Path) *Term) (lin, string) {
	out := lin{}
	why := ""
	for _, e := range p.Events {
		if t := val(e, p); t != nil {
			out = out.add(g.lin(t, 0), 1)
		}
		var bodies []*Path
		what := ""
		switch {
		case e.Kind == "loop":
			bodies, what = e.Loop.Iters, "iterations"
		case e.Kind == "go" && e.Thread != nil:
			bodies, what = e.Thread.Paths, "ends of the goroutine"
		default:
			continue
		}
		var first lin
		set := false
		for _, q := range bodies {
			if q.Kind == "fatal" || q.Kind == "panic" {
				continue
			}
			s, w := g.sumPath(q, val)
			if w != "" {
				why = w
			}
			if e.Kind == "go" {
				s = g.settle(s, q)
			}
			if set && s.String() != first.String() {
				why = fmt.Sprintf("the %s contribute %s or %s", what, first, s)
			}
			first, set = s, true
		}
		if !set {
			continue
		}
		if e.Kind == "go" {
			out = out.add(first, 1)
			continue
		}
		n, ok := first.constant()
		if !ok {
			why = "an iteration contributes " + first.String()
			continue
		}
		if n != 0 {
			out = out.add(lin{kOf(e.Loop): 1}, n)
		}
	}
	return out, why
}

// settle replaces the numbers of iterations the path's facts tell.
func (g *Gens) settle(s lin, p *Path) lin {
	for r := 0; r < 4; r++ {
		for _, e := range p.Events {
			if e.Kind != "loop" {
				continue
			}
			k := kOf(e.Loop)
			n := s[k]
			if n == 0 {
				continue
			}
			if v, ok := g.iterations(e.Loop, p); ok {
				s = s.add(lin{k: 1}, -n).add(v, n)
			}
		}
	}
	return s
}

// ---- C29: gauges ----

func isUpDown(e *Event) bool {
	return e.Kind == "call" && mname(e.Name) == "Add" && strings.Contains(e.Name, "UpDownCounter)") && len(e.Args) >= 3
}

func ruleGauge(c *Ctx) {
	n := 0
	for _, root := range c.rpcs("C29") {
		m := root.Fn.Name()
		insts := map[*Term]*Event{}
		root.Walk(func(e *Event, at *At) {
			if isUpDown(e) {
				insts[e.Args[0]] = e
			}
		})
		if len(insts) == 0 {
			continue
		}
		g := root.Gens()
		for inst, ev := range insts {
			n++
			for _, p := range root.Paths {
				if p.Kind != "return" {
					continue
				}
				s, why := g.sum(p, func(e *Event) *Term {
					if isUpDown(e) && e.Args[0] == inst {
						return e.Args[2]
					}
					return nil
				})
				s = g.settle(s, p)
				if why == "" && len(s) > 0 {
					why = "they add up to " + s.String() + " when the call ends with " + litsStr(lastLits(p.Facts, 2))
				}
				c.Ob("C29", why == "", c.Where(ev), "the changes of the gauge in "+m+" add up to nothing", why)
			}
		}
	}
	c.Ob("C29", n > 0, "core/main.go", "a gauge of open watches is kept", "no call changes an up-down counter")
}

// ---- C31: watching assignments ----

const watchMsg = "StreamedWatchAssignmentsResponse"

func isWatchMsg(e *Event, kind string) bool {
	return e.Kind == kind && strings.HasSuffix(typeStr(e.Typ), watchMsg)
}

func isWatchSend(e *Event) bool {
	return e.Kind == "call" && mname(e.Name) == "Send" && strings.Contains(e.Name, "WatchAssignments") && len(e.Args) == 2
}

func ruleWatch(c *Ctx) {
	root := c.Handler("C31", "WatchAssignments")
	if root == nil {
		return
	}
	g := root.Gens()
	in := root.A.In
	where := c.FnWhere(root.Fn)
	const ids = "arg0.TicketIds"
	// what the call's end is told by
	var isDone func(ch *Term, d int) bool
	ctxs := map[*Term]*Event{}
	root.WalkAll(func(e *Event, at *At) {
		if e.Kind == "call" && e.Res != nil {
			ctxs[e.Res] = e
		}
	})
	isDone = func(ch *Term, d int) bool {
		if ch == nil || d > 8 {
			return false
		}
		switch ch.Op {
		case "res":
			return isDone(ch.A[0], d+1)
		case "app":
			if n := mname(ch.S); n == "Done" || n == "Context" || strings.HasPrefix(ch.S, "context.With") {
				return len(ch.A) > 0 && (n == "Context" && fpath(ch.A[0]) == "arg1" || isDone(ch.A[0], d+1))
			}
		case "call":
			e := ctxs[ch]
			if e == nil || len(e.Args) == 0 {
				return false
			}
			n := mname(e.Name)
			if n == "Context" {
				return fpath(e.Args[0]) == "arg1"
			}
			return (n == "Done" || strings.HasPrefix(e.Name, "context.With")) && isDone(e.Args[0], d+1)
		}
		return false
	}
	var list *Term
	root.Walk(func(e *Event, at *At) {
		if e.Kind == "loop" && e.Loop.Coll != nil && fpath(e.Loop.Coll) == ids {
			list = e.Loop.Coll
		}
	})
	c.Ob("C31", list != nil, where, "the listed ids are gone through", "no loop over them")
	if list == nil {
		return
	}
	chans := map[*Term]bool{}
	nRet := 0
	for _, p := range root.Paths {
		if p.Kind != "return" {
			continue
		}
		nRet++
		rs := gensOf(p, len(p.Events), func(e *Event) bool { return isWatchMsg(e, "recv") })
		if len(rs) == 0 {
			c.Ob("C31", false, where, "the assignments found are received", "no receive on the path to "+litsStr(lastLits(p.Facts, 2)))
			continue
		}
		// the receive of a round that is left early is part of the path itself
		var rounds []Gen
		for _, r := range rs {
			chans[r.Ev.Args[0]] = true
			if len(r.Iters) > 0 {
				rounds = append(rounds, r)
			}
		}
		l, per := perPath(rounds)
		c.Ob("C31", l != nil, where, "the results are received in one loop", "received in several places")
		if l == nil {
			continue
		}
		for _, q := range l.Iters {
			c.Ob("C31", per[q] == 1, c.LoopWhere(l), "one result is received in each round", fmt.Sprintf("%d", per[q]))
			for i, e := range q.Events {
				if isWatchMsg(e, "recv") {
					n := 0
					for _, s := range q.Events[i:] {
						if isWatchSend(s) && s.Args[1] == e.Res {
							n++
						}
					}
					c.Ob("C31", n == 1, c.Where(e), "a result that was received is sent to the caller, as it is, exactly once", fmt.Sprintf("%d times under %s", n, litsStr(lastLits(q.Facts, 2))))
				}
			}
		}
		for _, s := range gensOf(p, len(p.Events), isWatchSend) {
			from := false
			for _, e := range s.Path.Events {
				from = from || isWatchMsg(e, "recv") && e.Res == s.Ev.Args[1]
			}
			c.Ob("C31", from, c.Where(s.Ev), "only results that were received are sent", tstr(s.Ev.Args[1]))
		}
		// the loop goes on until all arrived, or the time is over
		over := false
		after := false
		for _, e := range p.Events {
			if e.Kind == "loop" && e.Loop == l {
				after = true
			}
			if after && e.Kind == "recv" && (bounded(e.Args[0], l) || isDone(e.Args[0], 0)) {
				over = true
			}
			if after && e.Kind == "recv" && isWatchMsg(e, "recv") {
				n := 0
				for _, s := range p.Events {
					if isWatchSend(s) && s.Args[1] == e.Res {
						n++
					}
				}
				c.Ob("C31", n == 1, c.Where(e), "the last result that was received is sent", fmt.Sprintf("%d times", n))
			}
		}
		for _, f := range p.Facts {
			// a caller that cannot be reached any more
			if f.T.Op == "eq" && f.T.A[1].IsNil() && !f.Val {
				if e := ctxs[f.T.A[0]]; e != nil && isWatchSend(e) {
					over = true
				}
			}
		}
		if over {
			c.Ob("C31", true, c.LoopWhere(l), "the watch ends early only when its time is over", "")
			continue
		}
		n, ok := g.iterations(l, p)
		want := g.lin(in.Len(list), 0)
		c.Ob("C31", ok && n.String() == want.String(), c.LoopWhere(l), "the watch goes on until a result was received for every listed id", "it ends after "+n.String()+" results under "+litsStr(lastLits(p.Facts, 2)))
	}
	c.Ob("C31", nRet > 0, where, "the watch ends", "no path returns")

	// the watchers
	isSpawn := func(e *Event) bool {
		if e.Kind != "go" || e.Thread == nil {
			return false
		}
		for _, q := range e.Thread.Paths {
			if len(gensOf(q, len(q.Events), func(e *Event) bool { return isWatchMsg(e, "send") })) > 0 {
				return true
			}
		}
		return false
	}
	for _, p := range root.Paths {
		if p.Kind != "return" {
			continue
		}
		gs := gensOf(p, len(p.Events), isSpawn)
		l, per := perPath(gs)
		c.Ob("C31", l != nil && l.Coll != nil && fpath(l.Coll) == ids, where, "a watcher is started for each listed id", "the watchers are not started by one loop over the listed ids")
		if l == nil || l.Coll == nil || fpath(l.Coll) != ids {
			continue
		}
		ok, why := complete(l)
		c.Ob("C31", ok, c.LoopWhere(l), "every listed id is watched", why)
		for _, q := range l.Iters {
			c.Ob("C31", per[q] == 1, c.LoopWhere(l), "one watcher is started for each listed id", fmt.Sprintf("%d under %s", per[q], litsStr(lastLits(q.Facts, 2))))
		}
		for _, s := range gs {
			for _, q := range s.Ev.Thread.Paths {
				c.watcher(root, g, q, ids, isDone, chans)
			}
		}
	}
	c.watchTime(root, g, ids)
}

// watcher judges one way a watcher can run.
func (c *Ctx) watcher(root *Root, g *Gens, q *Path, ids string, isDone func(*Term, int) bool, chans map[*Term]bool) {
	isLoad := func(e *Event) bool {
		f, m := syncMap(e)
		return f == "Assignments" && m == "Load"
	}
	found := func(p *Path, ld *Event) (bool, bool) {
		return evalFacts(p.Facts, root.A.In.mk("res", "1", nil, nil, ld.Res))
	}
	sends := gensOf(q, len(q.Events), func(e *Event) bool { return isWatchMsg(e, "send") })
	where := c.FnWhere(root.Fn)
	if len(q.Events) > 0 {
		where = c.Where(q.Events[0])
	}
	if q.Kind == "return" && len(sends) == 0 {
		over := false
		en := c.ender(root)
		for _, f := range q.Facts {
			over = over || f.T.Op == "eq" && f.T.A[1].IsNil() && !f.Val && en.over(f.T.A[0])
			// no assignment in the entry that was found
			if f.T.Op == "eq" && f.T.A[1].IsNil() && f.Val {
				for _, e := range q.Events {
					over = over || isLoad(e) && f.T.A[0] == root.A.In.mk("res", "0", nil, nil, e.Res)
				}
			}
		}
		for _, e := range q.Events {
			over = over || e.Kind == "recv" && (isDone(e.Args[0], 0) || timerOf(e.Args[0]) != nil && !inThread(timerOf(e.Args[0]), q))
		}
		c.Ob("C31", over, where, "a watcher gives up only when the call has ended", "it ends under "+litsStr(lastLits(q.Facts, 3)))
	}
	c.Ob("C31", len(sends) <= 1, where, "a watcher hands over one result", fmt.Sprintf("%d", len(sends)))
	// while the assignment is there the watcher does not go on looking
	for _, e := range q.Events {
		if e.Kind != "loop" {
			continue
		}
		for _, it := range e.Loop.Iters {
			for _, ev := range it.Events {
				if isLoad(ev) {
					v, known := found(it, ev)
					c.Ob("C31", known && !v, c.Where(ev), "an assignment that is found is handed over at once", "the watcher goes on under "+litsStr(lastLits(it.Facts, 2)))
				}
			}
			looks := false
			for _, ev := range it.Events {
				looks = looks || isLoad(ev)
			}
			c.Ob("C31", looks, c.LoopWhere(e.Loop), "each round of a watcher looks for the assignment", "a round under "+litsStr(lastLits(it.Facts, 2)))
		}
	}
	for _, s := range sends {
		w := c.Where(s.Ev)
		c.Ob("C31", len(s.Iters) == 0, w, "a watcher hands over one result", "it goes on after the result")
		ok := chans[s.Ev.Args[0]]
		c.Ob("C31", ok, w, "the result goes to the channel the call receives from", tstr(s.Ev.Args[0]))
		if s.Ev.Select {
			ok = s.Ev.Block
			for _, a := range s.Ev.Alts {
				if a.Kind != "recv" || !isDone(a.Args[0], 0) {
					ok = false
				}
			}
			c.Ob("C31", ok, w, "the watcher waits until its result is taken or the call has ended", "the result can be dropped")
		}
		msg := s.Ev.Args[1]
		id := stripConv(root.fieldOf(s.Ev.Mem, msg, "Id"))
		c.Ob("C31", id != nil && isElemOf(id, ids), w, "the result names the id that is watched", "it names "+tstr(id))
		as := stripConv(root.fieldOf(s.Ev.Mem, msg, "Assignment"))
		ok = false
		var ld *Event
		for _, e := range q.Events {
			if isLoad(e) && id != nil && stripConv(e.Args[1]) == id {
				ld = e
			}
		}
		if ld != nil {
			v, known := found(q, ld)
			want := root.A.In.mk("res", "0", nil, nil, ld.Res)
			ok = as == want && known && v || as != nil && as.Op == "clone" && as.A[0] == want && known && v
		}
		c.Ob("C31", ok, w, "the result carries the assignment of that id", "it carries "+tstr(as))
	}
}

func inThread(t *Term, q *Path) bool {
	for _, e := range q.Events {
		if e.Res == t {
			return true
		}
		if e.Kind == "loop" {
			for _, it := range e.Loop.Iters {
				if inThread(t, it) {
					return true
				}
			}
		}
	}
	return false
}

// watchTime: the time is over when the newest of the tickets has expired.
func (c *Ctx) watchTime(root *Root, g *Gens, ids string) {
	const ttl = 600
	var timers []*Term
	seen := map[*Term]bool{}
	w := c.FnWhere(root.Fn)
	root.Walk(func(e *Event, at *At) {
		if at.spawn() != nil || e.Kind != "recv" {
			return
		}
		if t := timerOf(e.Args[0]); t != nil && !seen[t] {
			seen[t] = true
			timers = append(timers, t)
			w = c.Where(e)
		}
	})
	c.Ob("C31", len(timers) == 1, w, "the watch has one time limit", fmt.Sprintf("%d", len(timers)))
	for _, t := range timers {
		var newest *Term
		walkTerm(t, func(x *Term) {
			if x.Op == "phi" || x.Op == "memphi" {
				newest = x
			}
		})
		if newest == nil || len(t.A) == 0 {
			c.Ob("C31", false, w, "the time limit follows the newest ticket", tstr(t))
			continue
		}
		var T, N int64
		sc := &Scenario{}
		sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
		id := ""
		sc.Val = func(x *Term, _ Inst) (any, bool) {
			switch {
			case x == newest:
				return T, true
			case x.Op == "now":
				return N, true
			case x.Op == "conf" && x.S == "OM_CACHE_TICKET_TTL_SECS":
				return int64(ttl), true
			case isElemOf(x, ids) && id != "":
				return id, true
			}
			return nil, false
		}
		arg := t.A[len(t.A)-1]
		for _, v := range [][2]int64{{50 * secNs, 50 * secNs}, {1000 * secNs, 20 * secNs}, {7 * secNs, 900 * secNs}} {
			T, N = v[0], v[1]
			x, ok := sc.eval(arg, Inst{})
			c.Ob("C31", ok && x == any(T+ttl*secNs-N), w, "the watch lasts until the newest ticket's lifetime is over", fmt.Sprintf("%v for %s", x, tstr(arg)))
		}
		l, init, next := g.step(newest)
		if l == nil {
			c.Ob("C31", false, w, "the newest ticket is found", tstr(newest))
			continue
		}
		ok, why := complete(l)
		c.Ob("C31", ok && l.Coll != nil && fpath(l.Coll) == ids, c.LoopWhere(l), "the newest of all listed tickets is found", why)
		N = 40 * secNs
		_, ok = sc.eval(init, Inst{})
		c.Ob("C31", ok, c.LoopWhere(l), "the newest time starts with a known time", tstr(init))
		for _, v := range []struct {
			t  int64
			id string
			w  int64
		}{{50 * secNs, "49000-0", 50 * secNs}, {50 * secNs, "50001-3", 50*secNs + secNs/1000}, {50 * secNs, "0-1", 50 * secNs}, {0, "77777-12", 77777 * secNs / 1000}} {
			T, id = v.t, v.id
			n := 0
			for _, q := range l.Iters {
				if !sc.consistent(q.Facts, Inst{}) {
					continue
				}
				n++
				x, ok := any(nil), false
				if nv := next(q); nv != nil {
					x, ok = sc.eval(nv, Inst{})
				}
				c.Ob("C31", ok && x == any(v.w), c.LoopWhere(l), "the newest creation time is the largest one", fmt.Sprintf("%v for id %s after %v", x, v.id, v.t))
			}
			c.Ob("C31", n > 0, c.LoopWhere(l), "the newest creation time: analysed", "")
		}
	}
}
