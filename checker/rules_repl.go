package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("outgoing", "C16,C23,C34", "conservation of requests in the sending loop: each received request is in exactly one batch, each reply goes to the request at the same position, batches end by a timer made before them or at the configured size", ruleOutgoing)
	rule("incoming", "C04,C13,C19,C20,C21,C27,C34", "each stored update read is handed on once in order and has exactly the effect of its kind, and reading cannot keep entries from expiring", ruleIncoming)
	rule("expiry", "C04,C22", "decision table of the clean-up of the three maps over the age of the entry", ruleExpiry)
	rule("cache-writers", "C21", "call graph: only the goroutine that applies updates can reach code that changes the shared maps, and no cached message is assigned to", ruleWriters)
}

const updType = storePath + ".StateUpdate"

// drivers are the entry points of the code that calls a method of the state
// storage: the functions of that package from which the call is reached.
func (c *Ctx) drivers(props, method string) []*ssa.Function {
	var start []*ssa.Function
	refs := map[*ssa.Function][]*ssa.Function{}
	for _, f := range c.R.Funcs {
		if f.Parent() != nil {
			refs[f] = append(refs[f], f.Parent())
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					if m := ci.Common().Method; m.Name() == method && ci.Common().Value.Type().String() == storePath+".StateReplicator" {
						start = append(start, f)
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok && pkgPathOf(g) == pkgPathOf(f) {
						refs[g] = append(refs[g], f)
					}
				}
			}
		}
	}
	top, seen := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	for len(start) > 0 {
		f := start[0]
		start = start[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		if len(refs[f]) == 0 {
			top[f] = true
		}
		start = append(start, refs[f]...)
	}
	var out []*ssa.Function
	for _, f := range c.R.Funcs {
		if top[f] {
			out = append(out, f)
		}
	}
	c.Ob(props, len(out) == 1, "core", "one background loop calls "+method+" of the state storage", fmt.Sprintf("%d entry points found", len(out)))
	return out
}

// isStop: waiting for the end of the process or of the caller's context.
func isStop(e *Event) bool {
	return e.Kind == "recv" && e.Args[0].IsApp("(context.Context).Done") && timerOf(e.Args[0]) == nil
}

// forever: the goroutine never ends by itself.
func (c *Ctx) forever(props string, ps []*Path, where string) {
	for _, p := range ps {
		ok := p.Kind == "diverge"
		for _, e := range p.Events {
			if isStop(e) {
				ok = true
			}
		}
		c.Ob(props, ok, where, "the loop runs for the life of the server", "it can end ("+p.Kind+") under "+litsStr(lastLits(p.Facts, 3)))
	}
}

// isReq: a request is taken from the replication queue.
func isReq(e *Event) bool {
	if e.Kind != "recv" || e.Typ == nil {
		return false
	}
	_, _, ok := reqFields(e.Typ)
	return ok
}

func isSendUpdates(e *Event) bool {
	return e.Kind == "call" && e.Name == "("+shortName(storePath)+".StateReplicator).SendUpdates" || e.Kind == "call" && strings.HasSuffix(e.Name, ".StateReplicator).SendUpdates")
}

func isGetUpdates(e *Event) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, ".StateReplicator).GetUpdates")
}

// ---- the sending loop ----

type entry struct {
	acc *Term // the contents of an accumulator
	req *Term // one request
	bad *Term // something else
}

func (t entry) String() string {
	switch {
	case t.acc != nil:
		return "contents of " + tstr(t.acc)
	case t.req != nil:
		return "request " + tstr(t.req)
	}
	return "unknown " + tstr(t.bad)
}

type outgoing struct {
	c      *Ctx
	root   *Root
	g      *Gens
	uf, rf string
	isIn   func(*Event) bool // an event that takes something in
	ret    bool              // the list is returned
	props  string
	what   string
}

// reqOf is the request an element of a batch stands for.
func (o *outgoing) reqOf(e *Term) *Term {
	e = o.g.Expand(e)
	for d := 0; d < 4 && e != nil; d++ {
		switch {
		case (e.Op == "fieldaddr" || e.Op == "field") && e.S == o.uf:
			e = e.A[0]
		case e.Op == "recv":
			return e
		default:
			return nil
		}
	}
	return nil
}

// contents lists what is in a slice, in order.
func (o *outgoing) contents(t *Term) []entry {
	switch t.Op {
	case "const", "empty", "zero", "mkslice":
		if t.Op == "mkslice" && !isZeroInt(t.A[0]) {
			if coll := o.copied(t); coll != nil {
				return o.contents(coll)
			}
			return []entry{{bad: t}}
		}
		return nil
	case "app":
		if t.S == "slices.Clone" || t.S == "slices.Clip" {
			return o.contents(t.A[0])
		}
	case "seq", "append":
		var out []entry
		es := t.A
		if t.Op == "append" {
			out = o.contents(t.A[0])
			es = t.A[1:]
		}
		for _, e := range es {
			if e.Op == "spread" {
				out = append(out, o.contents(e.A[0])...)
				continue
			}
			if r := o.reqOf(e); r != nil {
				out = append(out, entry{req: r})
			} else {
				out = append(out, entry{bad: e})
			}
		}
		return out
	case "phi", "memphi":
		l, init, next := o.g.step(t)
		if l == nil {
			break
		}
		// built from another collection, one element for each
		if ok, _ := complete(l); ok && l.Coll != nil && isLocal(l.Coll) {
			conv := true
			for _, p := range l.Iters {
				n := next(p)
				if n == nil || n.Op != "append" || n.A[0] != t || len(n.A) != 2 || !o.elemOf(n.A[1], l) {
					conv = false
				}
			}
			if conv && init != nil {
				return append(o.contents(init), o.contents(l.Coll)...)
			}
		}
		return []entry{{acc: t}}
	}
	return []entry{{bad: t}}
}

// copied: the list of which a list made with its length gets an entry at each
// position before it is used.
func (o *outgoing) copied(t *Term) *Term {
	n := stripConv(t.A[0])
	if n.Op != "len" || len(o.g.sets[t]) == 0 || !isLocal(n.A[0]) {
		return nil
	}
	coll := n.A[0]
	var l *LoopSum
	for _, x := range o.g.sets[t] {
		if len(x.Iters) == 0 || x.Spread {
			return nil
		}
		it := x.Iters[len(x.Iters)-1]
		if l != nil && l.ID != it.L.ID || !isIndex(x.Key, it.L) {
			return nil
		}
		l = it.L
	}
	for _, l := range o.g.all[l.ID] {
		if ok, _ := complete(l); !ok || l.Coll != coll {
			return nil
		}
		for _, p := range l.Iters {
			n := 0
			for _, e := range p.Events {
				if e.Kind != "store" || e.Args[0].Op != "indexaddr" || e.Args[0].A[0] != t {
					continue
				}
				n++
				if !isIndex(e.Args[0].A[1], l) || !o.elemOf(e.Args[1], l) {
					return nil
				}
			}
			if n != 1 {
				return nil
			}
		}
	}
	early := false
	o.root.WalkPaths(func(q *Path, _ *At) {
		done := false
		for _, e := range q.Events {
			done = done || e.Kind == "loop" && e.Loop.ID == l.ID
			for _, a := range e.Args {
				early = early || !done && a == t
			}
		}
	})
	if early {
		return nil
	}
	return coll
}

// elemOf: the update (or request) at the loop's position.
func (o *outgoing) elemOf(e *Term, l *LoopSum) bool {
	for (e.Op == "fieldaddr" || e.Op == "field") && e.S == o.uf {
		e = e.A[0]
	}
	return e.Op == "elem" && e.A[0] == l.Coll && s2loop(e.S) == l.ID
}

// parallel: two lists hold the same requests in the same order.
func (o *outgoing) parallel(a, b []entry, seen map[[2]*Term]bool) string {
	if len(a) != len(b) {
		return fmt.Sprintf("one gets %d entries, the other %d", len(a), len(b))
	}
	for i := range a {
		x, y := a[i], b[i]
		switch {
		case x.bad != nil || y.bad != nil:
			return x.String() + " against " + y.String()
		case x.req != nil || y.req != nil:
			if x.req != y.req {
				return x.String() + " against " + y.String()
			}
		case x.acc == y.acc || seen[[2]*Term{x.acc, y.acc}]:
		default:
			seen[[2]*Term{x.acc, y.acc}] = true
			if s2loop(x.acc.S) != s2loop(y.acc.S) {
				return x.String() + " against " + y.String()
			}
			for _, l := range o.g.all[s2loop(x.acc.S)] {
				ix, nx := o.g.stepOf(l, x.acc)
				iy, ny := o.g.stepOf(l, y.acc)
				if ix == nil || iy == nil {
					return x.String() + " against " + y.String()
				}
				if why := o.parallel(o.contents(ix), o.contents(iy), seen); why != "" {
					return "at the start: " + why
				}
				for _, p := range l.Iters {
					nxp, nyp := nx(p), ny(p)
					if nxp == nil || nyp == nil {
						return "unknown after " + litsStr(lastLits(p.Facts, 2))
					}
					if why := o.parallel(o.contents(nxp), o.contents(nyp), seen); why != "" {
						return why
					}
				}
			}
		}
	}
	return ""
}

// family is the set of accumulators a batch is collected in.
func (o *outgoing) family(t *Term) map[*Term]bool {
	fam := map[*Term]bool{}
	var add func(ts []entry)
	add = func(ts []entry) {
		for _, t := range ts {
			if t.acc == nil || fam[t.acc] {
				continue
			}
			fam[t.acc] = true
			for _, l := range o.g.all[s2loop(t.acc.S)] {
				init, next := o.g.stepOf(l, t.acc)
				if init != nil {
					add(o.contents(init))
				}
				if next == nil {
					continue
				}
				for _, p := range l.Iters {
					if n := next(p); n != nil {
						add(o.contents(n))
					}
				}
			}
		}
	}
	add(o.contents(t))
	return fam
}

// balance checks that a path neither loses nor repeats a request: what it
// starts with and receives is what it gives away and ends with.
func (o *outgoing) balance(p *Path, l *LoopSum, fam map[*Term]bool, flush func(e *Event) *Term) string {
	n := map[string]int{}
	put := func(ts []entry, d int) string {
		for _, t := range ts {
			if t.bad != nil {
				return "the batch holds " + t.String()
			}
			if t.acc != nil && !fam[t.acc] {
				return "the batch holds the " + t.String()
			}
			n[t.String()] += d
		}
		return ""
	}
	zero := map[string]bool{}
	for _, f := range p.Facts {
		if f.Val && f.T.Op == "eq" && f.T.A[0].Op == "len" {
			if k, ok := f.T.A[1].ConstInt(); ok && k == 0 {
				for _, t := range o.contents(f.T.A[0].A[0]) {
					zero[t.String()] = true
					// parallel lists are empty together
					for a := range fam {
						if t.acc != nil && o.parallel([]entry{t}, []entry{{acc: a}}, map[[2]*Term]bool{}) == "" {
							zero[entry{acc: a}.String()] = true
						}
					}
				}
			}
		}
	}
	if l != nil {
		for a := range fam {
			if s2loop(a.S) == l.ID {
				put([]entry{{acc: a}}, 1)
			}
		}
	}
	for _, e := range p.Events {
		if o.isIn(e) && !nothingReceived(p, e) {
			put([]entry{{req: e.Res}}, 1)
		}
		if e.Kind == "loop" {
			for a := range fam {
				if s2loop(a.S) != e.Loop.ID {
					continue
				}
				put([]entry{{acc: a}}, 1)
				init, _ := o.g.stepOf(e.Loop, a)
				if init == nil {
					return "the batch at the start of a loop is unknown"
				}
				if why := put(o.contents(init), -1); why != "" {
					return why
				}
			}
		}
		if b := flush(e); b != nil {
			if why := put(o.contents(b), -1); why != "" {
				return why
			}
		}
	}
	if l == nil && o.ret {
		if len(p.Ret) != 1 {
			return "nothing is returned"
		}
		if why := put(o.contents(p.Ret[0]), -1); why != "" {
			return why
		}
	}
	if l != nil {
		for a := range fam {
			if s2loop(a.S) != l.ID {
				continue
			}
			_, next := o.g.stepOf(l, a)
			v := next(p)
			if v == nil {
				return "the batch after the iteration is unknown"
			}
			if why := put(o.contents(v), -1); why != "" {
				return why
			}
		}
	}
	for _, k := range sortedKeys(n) {
		if n[k] > 0 && !zero[k] {
			return "lost: " + k
		}
		if n[k] < 0 && !zero[k] {
			return "written again: " + k
		}
	}
	return ""
}

func ruleOutgoing(c *Ctx) {
	for _, fn := range c.drivers("C16,C34", "SendUpdates") {
		root := c.Root(fn)
		if !c.Sound("C16,C34", root) {
			continue
		}
		o := &outgoing{c: c, root: root, g: root.Gens(), isIn: isReq, props: "C16,C34", what: "request"}
		c.forever("C34", root.Paths, c.FnWhere(fn))
		var reqs, sends []*At
		root.WalkAll(func(e *Event, at *At) {
			if isReq(e) {
				o.uf, o.rf, _ = reqFields(e.Typ)
				reqs = append(reqs, at)
			}
			if isSendUpdates(e) {
				sends = append(sends, at)
			}
		})
		c.Ob("C16,C34", len(reqs) > 0 && len(sends) > 0, c.FnWhere(fn), "requests are read from the queue and written to the state storage", "not found")
		if len(reqs) == 0 || len(sends) == 0 {
			continue
		}
		for _, s := range append(append([]*At{}, sends...), reqs...) {
			c.Ob("C16,C34", s.thread() == "", c.Where(s.Event()), "one goroutine collects and writes the batches", "done in a goroutine of its own")
		}
		seen := map[*Event]bool{}
		bad := map[string]bool{}
		for _, s := range sends {
			e := s.Event()
			if seen[e] || e.Args[len(e.Args)-1] == nil {
				continue
			}
			seen[e] = true
			batch := e.Args[len(e.Args)-1]
			if bad[batch.key] {
				continue
			}
			bad[batch.key] = true
			fam := o.family(batch)
			o.conserve(fam, "the batch that is written", func(e *Event) *Term {
				if isSendUpdates(e) {
					return e.Args[len(e.Args)-1]
				}
				return nil
			})
			o.replies(s, batch)
		}
		o.batching(reqs)
	}
}

// nothingReceived: the channel had been closed.
func nothingReceived(p *Path, e *Event) bool {
	for _, f := range p.Facts {
		if f.T.Op == "recvok" && e.Res != nil && f.T.S == e.Res.S && !f.Val {
			return true
		}
	}
	return false
}

// conserve checks the balance of all paths of all loops of the goroutine.
func (o *outgoing) conserve(fam map[*Term]bool, what string, flush func(e *Event) *Term) {
	seen := map[*Path]bool{}
	var rec func(ps []*Path, l *LoopSum)
	rec = func(ps []*Path, l *LoopSum) {
		for _, p := range ps {
			if seen[p] {
				continue
			}
			seen[p] = true
			rel := false
			eachEvent(p, func(e *Event, _ []IterAt) {
				if o.isIn(e) || flush(e) != nil {
					rel = true
				}
			})
			if l != nil {
				for a := range fam {
					if s2loop(a.S) == l.ID {
						rel = true
					}
				}
			}
			if rel {
				w := o.c.FnWhere(o.root.Fn)
				if l != nil {
					w = o.c.LoopWhere(l)
				}
				why := o.balance(p, l, fam, flush)
				o.c.Ob(o.props, why == "", w, "no "+o.what+" is lost from or repeated in "+what, why+" under "+litsStr(lastLits(p.Facts, 3)))
			}
			for _, e := range p.Events {
				if e.Kind == "loop" {
					rec(e.Loop.Iters, e.Loop)
				}
			}
		}
	}
	rec(o.root.Paths, nil)
}

// replies: after SendUpdates every result goes to the request it belongs to.
func (o *outgoing) replies(s *At, batch *Term) {
	c := o.c
	e := s.Event()
	isRep := func(e *Event) bool { return e.Kind == "send" && typeStr(e.Typ) == respType }
	after := s.Path.Events[s.I+1:]
	w := c.Where(e)
	n := 0
	for _, x := range after {
		if isRep(x) {
			c.Ob("C16", false, c.Where(x), "every result is sent to the request at its position", "a reply is sent outside a loop over the results")
			n++
		}
		if x.Kind != "loop" || !anyEvent(x.Loop, isRep) {
			continue
		}
		n++
		l := x.Loop
		lw := c.LoopWhere(l)
		ok, why := complete(l)
		over := l.Coll
		if !ok {
			if ro, _ := runsOut(l); ro && l.Kind == "count" {
				if tr := trip(o.root.A.In, l); tr != nil && tr.Op == "len" {
					ok, over = true, tr.A[0]
				}
			}
		}
		c.Ob("C16", ok, lw, "all results are given out", why)
		isRes := over == e.Res
		same := ""
		if over != nil && !isRes {
			same = o.parallel(o.contents(over), o.contents(batch), map[[2]*Term]bool{})
		}
		c.Ob("C16", over != nil && same == "", lw, "the loop that gives out the results runs over the results or the batch", same)
		for _, it := range l.Iters {
			cnt := 0
			for _, y := range it.Events {
				if y.Kind == "loop" && anyEvent(y.Loop, isRep) {
					cnt += 2
				}
				if !isRep(y) {
					continue
				}
				cnt++
				v, ch := y.Args[1], y.Args[0]
				val := v.Op == "elem" && v.A[0] == e.Res && s2loop(v.S) == l.ID
				c.Ob("C16", val, c.Where(y), "the reply is the unmodified result at the loop's position", "it is "+tstr(v))
				pair := ch.Op == "field" && ch.S == o.rf && ch.A[0].Op == "elem" && s2loop(ch.A[0].S) == l.ID
				why := "it goes to " + tstr(ch)
				if pair {
					why = o.parallel(o.contents(ch.A[0].A[0]), o.contents(batch), map[[2]*Term]bool{})
					pair = why == ""
				}
				c.Ob("C16", pair, c.Where(y), "the reply goes to the request that was written at that position of the batch", why)
			}
			nochan := false
			for _, f := range it.Facts {
				if f.Val && f.T.Op == "eq" && f.T.A[1].IsNil() && f.T.A[0].Op == "field" && f.T.A[0].S == o.rf {
					nochan = true
				}
			}
			c.Ob("C16", cnt == 1 || cnt == 0 && nochan, lw, "each result is sent exactly once", fmt.Sprintf("%d times under %s", cnt, litsStr(lastLits(it.Facts, 2))))
		}
	}
	c.Ob("C16", n == 1, w, "the results of a batch are given out once", fmt.Sprintf("%d times after writing it", n))
}

// ends: no iteration can follow iteration p in the scenario.
func (l *LoopSum) ends(p *Path, sc *Scenario) bool {
	if sc == nil {
		// what the iteration leaves behind
		sc = &Scenario{}
		sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
		sc.Val = func(t *Term, _ Inst) (any, bool) {
			for k, m := range l.MemPhi {
				if m.T == t && p.Mem != nil {
					if v := p.Mem.m[k]; v != nil {
						if b, ok := v.ConstBool(); ok {
							return b, true
						}
					}
				}
			}
			if t.Op != "phi" {
				return nil, false
			}
			for q, x := range l.PhiT {
				if v := p.Back[q]; x == t && v != nil && v.Op == "const" {
					if b, ok := v.ConstBool(); ok {
						return b, true
					}
				}
			}
			return nil, false
		}
	}
	for _, it := range l.Iters {
		if len(l.Vals) > 1 && it.From != p.To {
			continue
		}
		if sc.consistent(it.Facts, Inst{}) {
			return false
		}
	}
	return true
}

// batching: waiting for more requests is bounded in time and number.
func (o *outgoing) batching(reqs []*At) {
	c := o.c
	done := map[string]bool{}
	timers := 0
	for _, r := range reqs {
		l := r.Innermost()
		w := c.Where(r.Event())
		if l == nil {
			c.Ob("C34", false, w, "requests are collected in a loop", "not in a loop")
			continue
		}
		if done[l.ID] {
			continue
		}
		done[l.ID] = true
		inIter := false
		for _, it := range l.Iters {
			for _, e := range it.Events {
				if isReq(e) {
					inIter = true
				}
			}
		}
		writes := anyEvent(l, isSendUpdates)
		for _, it := range l.Iters {
			for i, e := range it.Events {
				if isReq(e) && (&At{Ev: &Event{Kind: "loop", Loop: l}, Path: it, I: i}).Innermost() == l {
					free := false
					for _, a := range e.Alts {
						if a.Kind == "recv" && bounded(a.Args[0], l) {
							c.Ob("C34", !wornOut(a.Args[0], r, l), c.Where(e), "the timer of a batch is started for every batch", "it goes off once only")
							free = true
							timers++
							o.duration(a.Args[0], c.Where(e))
						}
					}
					if !e.Block && e.Select {
						free = true // does not wait
					}
					if !free && !e.Select {
						// the first request of a batch may be waited for
						for _, x := range it.Events[i+1:] {
							if x.Kind == "loop" && anyEvent(x.Loop, isReq) {
								free = true
							}
						}
					}
					c.Ob("C34", free, c.Where(e), "waiting for more requests ends by a timer made before the batch was begun", "no such timer is among the cases")
				}
				if e.Kind == "recv" && timerOf(e.Args[0]) != nil {
					flushed := l.ends(it, nil)
					for _, x := range it.Events[i:] {
						if isSendUpdates(x) {
							flushed = true
						}
					}
					if writes {
						for _, f := range it.Facts {
							if f.Val && f.T.Op == "eq" && f.T.A[0].Op == "len" {
								flushed = true
							}
						}
					}
					c.Ob("C34", flushed, c.Where(e), "when the time is over the batch is written", "collecting goes on")
				}
			}
			// at the configured size
			recvd := countEv(it, isReq) > 0
			if !recvd || !inIter {
				continue
			}
			for _, n := range []int64{1, 2, 5} {
				at := func(k int64) *Scenario {
					sc := &Scenario{}
					sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
					sc.Val = func(t *Term, _ Inst) (any, bool) {
						switch {
						case t.Op == "conf" && t.S == "OM_CACHE_OUT_MAX_QUEUE_THRESHOLD":
							return n, true
						case t.Op == "len" && (t.A[0].Op == "phi" || t.A[0].Op == "memphi"):
							return k, true
						case (t.Op == "phi" || t.Op == "idx") && strings.HasPrefix(typeStr(t.Typ), "int"):
							return k, true
						}
						return nil, false
					}
					return sc
				}
				if !at(n-1).consistent(it.Facts, Inst{}) {
					continue
				}
				full := l.ends(it, at(n)) || countEv(it, isSendUpdates) > 0
				c.Ob("C34", full, c.LoopWhere(l), "a batch is written when it reaches the configured size", fmt.Sprintf("with size %d collecting goes on after request %d", n, n))
			}
		}
	}
	c.Ob("C34", timers > 0, c.FnWhere(o.root.Fn), "the waiting time of requests is bounded by a timer", "none found")
	c.rounds("C16,C34", reqs, isReq, "requests")
}

// rounds: each round of the goroutine that does something looks for it, whatever
// the round before left behind.
func (c *Ctx) rounds(props string, ats []*At, is func(e *Event) bool, what string) {
	chans := map[string]bool{}
	outer := map[*LoopSum]bool{}
	for _, r := range ats {
		if e := r.Event(); e.Kind == "recv" {
			chans[e.Args[0].key] = true
		}
		for up := r; up != nil && !up.Thread; up = up.Up {
			if l := up.Loop(); l != nil && (up.Up == nil || up.Up.Loop() == nil) {
				outer[l] = true
			}
		}
	}
	var looks func(e *Event) bool
	looks = func(e *Event) bool {
		if is(e) {
			return true
		}
		for _, a := range e.Alts {
			if a.Kind == "recv" && chans[a.Args[0].key] {
				return true
			}
		}
		if e.Kind != "loop" {
			return false
		}
		return anyEvent(e.Loop, looks) || e.Loop.Kind == "chan" && chans[e.Loop.Coll.key]
	}
	for l := range outer {
		for _, it := range l.Iters {
			ok := false
			for _, e := range it.Events {
				ok = ok || looks(e)
			}
			c.Ob(props, ok, c.LoopWhere(l), "every round of the goroutine looks for "+what, "a round goes by without under "+litsStr(lastLits(it.Facts, 3)))
		}
	}
	if len(ats) > 0 {
		c.Ob(props, len(outer) > 0, c.Where(ats[0].Event()), "the goroutine looks for "+what+" again and again", "not in a loop")
	}
}

// duration of the timer is the configured time.
func (o *outgoing) duration(ch *Term, w string) {
	t := timerOf(ch)
	if t == nil {
		return
	}
	d := timerDur(t)
	o.c.Ob("C34,C23", d != nil && isMillis(d, "OM_CACHE_OUT_WAIT_TIMEOUT_MS"), w, "the waiting time is the configured number of milliseconds", "it is "+tstr(d))
}

// isMillis: a duration of as many milliseconds as the setting says.
func isMillis(t *Term, key string) bool { return isScaled(t, key, 1e6) }

// isScaled: the term is the setting times a factor.
func isScaled(t *Term, key string, by int64) bool {
	for _, n := range []int64{1, 7, 250} {
		sc := &Scenario{}
		sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
		sc.Val = func(t *Term, _ Inst) (any, bool) {
			if t.Op == "conf" && t.S == key {
				if t.Aux == "Duration" {
					return n, true // viper takes a plain number as nanoseconds
				}
				return n, true
			}
			return nil, false
		}
		v, ok := sc.eval(t, Inst{})
		f, isI := v.(int64)
		if !ok || !isI || f != n*by {
			return false
		}
	}
	return true
}

// ---- the receiving loop ----

func isUpd(e *Event) bool {
	return (e.Kind == "recv" || e.Kind == "send") && (typeStr(e.Typ) == updType || typeStr(e.Typ) == "*"+updType)
}

// mutates: an operation that changes a shared map.
func mutates(e *Event) (field, method string) {
	f, m := syncMap(e)
	switch m {
	case "Store", "Delete", "LoadAndDelete", "LoadOrStore", "Swap", "CompareAndSwap", "CompareAndDelete", "Clear":
		if f == "" {
			f = "?"
		}
		return f, m
	}
	return "", ""
}

type incoming struct {
	c    *Ctx
	root *Root
	g    *Gens
	read *At // where the update is received by the goroutine that applies it
	used map[*Event]bool
}

func (c *Ctx) incoming(props string) []*incoming {
	var out []*incoming
	for _, fn := range c.drivers(props, "GetUpdates") {
		root := c.Root(fn)
		if !c.Sound(props, root) {
			continue
		}
		out = append(out, &incoming{c: c, root: root, g: root.Gens(), used: map[*Event]bool{}})
	}
	return out
}

func ruleIncoming(c *Ctx) {
	for _, n := range c.incoming("C04,C13,C19,C20,C34") {
		n.reader()
		n.apply()
	}
}

// deref1 drops a load of the pointed-to update.
func deref1(t *Term) *Term {
	if t != nil && t.Op == "load" && len(t.A) == 1 {
		return t.A[0]
	}
	return t
}

// reader: what GetUpdates returns is handed on completely and in order.
func (n *incoming) reader() {
	c, root := n.c, n.root
	var gets []*At
	root.WalkAll(func(e *Event, at *At) {
		if isGetUpdates(e) {
			gets = append(gets, at)
		}
	})
	threads := map[string]bool{}
	seen := map[*Event]bool{}
	for _, s := range gets {
		threads[s.thread()] = true
		e := s.Event()
		if s.Loop() == nil {
			c.Ob("C19,C34", false, c.Where(e), "the state storage is read again and again", "the read is not in a loop")
			continue
		}
		if sp := s.spawn(); sp != nil {
			c.Ob("C19", sp.Loop() == nil, c.Where(sp.Event()), "one goroutine reads the state storage", "it is started in a loop")
			c.forever("C34", sp.Event().Thread.Paths, c.Where(sp.Event()))
		}
		if seen[e] {
			continue
		}
		seen[e] = true
		n.handOn(s)
	}
	if len(gets) > 0 {
		c.rounds("C34", gets, isGetUpdates, "updates in the state storage")
	}
	c.Ob("C19", len(threads) == 1, c.FnWhere(root.Fn), "one goroutine reads the state storage", fmt.Sprintf("%d goroutines do", len(threads)))
	c.forever("C34", root.Paths, c.FnWhere(root.Fn))
}

// handOn: on the path of a read every update read is sent on once, in order.
func (n *incoming) handOn(s *At) {
	c := n.c
	e := s.Event()
	stop := false
	for _, x := range s.Path.Events {
		stop = stop || isStop(x)
	}
	cnt := 0
	direct := false
	for _, x := range s.Path.Events[s.I+1:] {
		if x.Kind == "loop" && x.Loop.Coll == e.Res {
			// applied or handed on in this loop
			l := x.Loop
			w := c.LoopWhere(l)
			isSend := func(e *Event) bool { return e.Kind == "send" && isUpd(e) }
			if !anyEvent(l, isSend) {
				continue
			}
			cnt++
			if !stop {
				ok, why := complete(l)
				c.Ob("C19", ok, w, "all updates of a read are handed on", why)
			}
			c.Ob("C19", l.Kind == "slice", w, "updates are handed on in the order read", "kind of loop "+l.Kind)
			for _, it := range l.Iters {
				k := 0
				for _, y := range it.Events {
					if y.Kind == "loop" && anyEvent(y.Loop, isSend) || y.Kind == "go" {
						k += 2
					}
					if !isSend(y) {
						continue
					}
					k++
					v := deref1(y.Args[1])
					c.Ob("C19", v.Op == "elem" && v.A[0] == e.Res && s2loop(v.S) == l.ID, c.Where(y), "what is handed on is the update read", "it is "+tstr(y.Args[1]))
				}
				isNil := false
				for _, f := range it.Facts {
					if f.Val && f.T.Op == "eq" && f.T.A[1].IsNil() && f.T.A[0].Op == "elem" && f.T.A[0].A[0] == e.Res {
						isNil = true
					}
				}
				c.Ob("C19", k == 1 || k == 0 && isNil, w, "each update is handed on exactly once", fmt.Sprintf("%d times under %s", k, litsStr(lastLits(it.Facts, 2))))
			}
		}
	}
	_ = direct
	empty := false
	for _, f := range s.Path.Facts {
		if f.Val && f.T.Op == "eq" && f.T.A[0].Op == "len" && f.T.A[0].A[0] == e.Res {
			empty = true
		}
	}
	c.Ob("C19", cnt == 1 || cnt == 0 && empty, c.Where(e), "the updates of every read are handed on once", fmt.Sprintf("%d times under %s", cnt, litsStr(lastLits(s.Path.Facts, 2))))
}

// apply: an update received has exactly the effect of its kind.
func (n *incoming) apply() {
	c, root := n.c, n.root
	var recvs []*At
	chans := map[*Term]bool{}
	root.WalkAll(func(e *Event, at *At) {
		if e.Kind == "send" && isUpd(e) {
			chans[e.Args[0]] = true
		}
		if e.Kind == "recv" && isUpd(e) {
			recvs = append(recvs, at)
		}
	})
	where := c.FnWhere(root.Fn)
	c.Ob("C19,C20", len(recvs) > 0 && len(chans) == 1, where, "updates go through one channel to the goroutine that applies them", fmt.Sprintf("%d channels, %d receives", len(chans), len(recvs)))
	threads := map[string]bool{}
	seen := map[*Path]bool{}
	kinds := map[int64]bool{}
	for _, r := range recvs {
		threads[r.thread()] = true
		e := r.Event()
		c.Ob("C19", chans[e.Args[0]], c.Where(e), "the updates applied are those read", "received from "+tstr(e.Args[0]))
		if sp := r.spawn(); sp != nil {
			c.Ob("C19,C21", sp.Loop() == nil, c.Where(sp.Event()), "one goroutine applies the updates", "it is started in a loop")
		}
		if seen[r.Path] {
			continue
		}
		seen[r.Path] = true
		// collected first and applied later?
		if coll := n.collected(r); coll != nil {
			k := 0
			root.WalkAll(func(x *Event, at *At) {
				if x.Kind == "loop" && x.Loop.Coll != nil && (x.Loop.Coll == coll || n.g.outer(x.Loop.Coll) == n.g.outer(coll)) && at.thread() == r.thread() {
					if seen[at.Path] {
						return
					}
					k++
					ok, why := complete(x.Loop)
					c.Ob("C19", ok, c.LoopWhere(x.Loop), "all updates collected are applied", why)
					for _, it := range x.Loop.Iters {
						n.effect(it, it.Events, n.elemTerm(x.Loop, it), c.LoopWhere(x.Loop), kinds)
					}
				}
			})
			c.Ob("C19,C20", k > 0, c.Where(e), "collected updates are applied", "no loop over them")
			continue
		}
		n.effect(r.Path, r.Path.Events, e.Res, c.Where(e), kinds)
	}
	c.Ob("C19,C21", len(threads) == 1, where, "one goroutine applies the updates", fmt.Sprintf("%d goroutines do", len(threads)))
	for i, k := range []string{"Ticket", "Activate", "Deactivate", "Assign"} {
		c.Ob("C20", kinds[c.cmdConst(k)], where, "updates of kind "+k+" are applied", "no path handles them")
		_ = i
	}
	n.bound(recvs)
	c.rounds("C20,C34", recvs, func(e *Event) bool { return e.Kind == "recv" && isUpd(e) }, "updates")
}

func (n *incoming) elemTerm(l *LoopSum, it *Path) *Term {
	var t *Term
	eachEvent(it, func(e *Event, _ []IterAt) {
		for _, a := range e.Args {
			a.Any(func(x *Term) bool {
				if x.Op == "elem" && x.A[0] == l.Coll && s2loop(x.S) == l.ID {
					t = x
				}
				return false
			})
		}
	})
	for _, f := range it.Facts {
		f.T.Any(func(x *Term) bool {
			if x.Op == "elem" && x.A[0] == l.Coll && s2loop(x.S) == l.ID {
				t = x
			}
			return false
		})
	}
	return t
}

// collected: the received update is only appended to a local list.
func (n *incoming) collected(r *At) *Term {
	l := r.Loop()
	if l == nil {
		return nil
	}
	for _, e := range r.Path.Events {
		if f, _ := mutates(e); f != "" {
			return nil
		}
	}
	for p, v := range r.Path.Back {
		if v != nil && v.Op == "append" && len(v.A) == 2 && sameUpdate(v.A[1], r.Event().Res) && v.A[0] == l.PhiT[p] {
			return l.PhiT[p]
		}
	}
	return nil
}

// sameUpdate: the update itself or a copy of it.
func sameUpdate(t, u *Term) bool {
	if t == u || deref1(t) == u {
		return true
	}
	if t.Op != "struct" || len(t.A) == 0 {
		return false
	}
	st := structOf(u.Typ)
	if st == nil || st.NumFields() != len(t.A) {
		return false
	}
	for i, f := range t.A {
		if f.Op != "field" || f.A[0] != u || f.S != st.Field(i).Name() {
			return false
		}
	}
	return true
}

// is: the update's field.
func (n *incoming) isField(t, u *Term, f string) bool {
	t = normKey(t)
	if t == nil || t.Op != "field" || t.S != f {
		return false
	}
	b := t.A[0]
	return b == u || deref1(b) == u || b == deref1(u)
}

// effect checks the map operations that follow the receipt of update u.
func (n *incoming) effect(p *Path, evs []*Event, u *Term, where string, kinds map[int64]bool) {
	c := n.c
	if u == nil {
		c.Ob("C20", false, where, "the update is looked at", "nothing of it is used under "+litsStr(lastLits(p.Facts, 3)))
		return
	}
	type op struct {
		f, m string
		e    *Event
	}
	var ops []op
	for _, e := range evs {
		if f, m := mutates(e); f != "" {
			ops = append(ops, op{f, m, e})
			n.used[e] = true
		}
		if e.Kind == "loop" {
			any := false
			for _, it := range e.Loop.Iters {
				eachEvent(it, func(x *Event, _ []IterAt) {
					if f, _ := mutates(x); f != "" && x.Args[1].Contains(u) {
						any = true
					}
				})
			}
			c.Ob("C20", !any, c.LoopWhere(e.Loop), "an update is applied once", "it is applied in a loop")
		}
	}
	for _, kind := range []string{"Ticket", "Activate", "Deactivate", "Assign", ""} {
		k := int64(99)
		if kind != "" {
			k = c.cmdConst(kind)
		}
		for _, ok := range []bool{true, false} {
			if !ok && kind != "Ticket" && kind != "Assign" {
				continue
			}
			sc := &Scenario{}
			sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
			sc.Val = func(t *Term, _ Inst) (any, bool) {
				if n.isField(t, u, "Cmd") {
					return k, true
				}
				if t.Op == "eq" && t.A[1].IsNil() && isDecode(t.A[0]) {
					return ok, true
				}
				return nil, false
			}
			if !sc.consistent(p.Facts, Inst{}) {
				continue
			}
			if ok {
				kinds[k] = true
			}
			var want []string
			switch {
			case kind == "Ticket" && ok:
				want = []string{"InactiveSet+", "Tickets+"}
			case kind == "Activate":
				want = []string{"InactiveSet-"}
			case kind == "Deactivate":
				want = []string{"InactiveSet+"}
			case kind == "Assign" && ok:
				want = []string{"Assignments+"}
			}
			name := kind
			if kind == "" {
				name = "unknown"
			}
			if !ok {
				name += " (undecodable)"
			}
			var got []string
			for _, o := range ops {
				s := o.f
				switch o.m {
				case "Store", "Swap":
					s += "+"
				case "LoadOrStore":
					if o.f == "InactiveSet" {
						s += "+"
					} else {
						s += " " + o.m
					}
				case "Delete", "LoadAndDelete":
					s += "-"
				default:
					s += " " + o.m
				}
				got = append(got, s)
			}
			gs := append([]string{}, got...)
			ws := append([]string{}, want...)
			sortStrings(gs)
			sortStrings(ws)
			pr := "C20"
			if kind == "Ticket" {
				pr = "C20,C04"
			}
			c.Ob(pr, strings.Join(gs, " ") == strings.Join(ws, " "), where, "an update of kind "+name+" has exactly the effect ["+strings.Join(want, " ")+"]", "it has the effect ["+strings.Join(got, " ")+"] under "+litsStr(lastLits(p.Facts, 4)))
			if kind == "Ticket" && ok && len(got) == 2 {
				c.Ob("C04", got[0] == "InactiveSet+", where, "a new ticket is marked inactive before it becomes visible", "the order is "+strings.Join(got, " "))
			}
			if strings.Join(gs, " ") != strings.Join(ws, " ") {
				continue
			}
			for _, o := range ops {
				w := c.Where(o.e)
				pk := "C20"
				if o.f == "Tickets" {
					pk = "C20,C13"
				}
				c.Ob(pk, n.isField(o.e.Args[1], u, "Key"), w, "the entry changed is the one the update names", "the key is "+tstr(o.e.Args[1]))
				if o.f == "InactiveSet" || len(o.e.Args) < 3 {
					continue
				}
				n.stored(o.e, u, o.f, w)
			}
		}
	}
}

func isDecode(t *Term) bool {
	return t.IsApp("google.golang.org/protobuf/proto.Unmarshal", "(google.golang.org/protobuf/proto.UnmarshalOptions).Unmarshal")
}

func sortStrings(s []string) {
	for i := range s {
		for j := i + 1; j < len(s); j++ {
			if s[j] < s[i] {
				s[i], s[j] = s[j], s[i]
			}
		}
	}
}

// stored: the message put into the map is the decoded value, a fresh one for
// each update, with the id of the update if it is a ticket.
func (n *incoming) stored(e *Event, u *Term, f, w string) {
	c, root := n.c, n.root
	v := e.Args[2]
	typ := map[string]string{"Tickets": "Ticket", "Assignments": "Assignment"}[f]
	c.Ob("C20", strings.TrimPrefix(typeStr(v.Typ), "*") == pbPath+"."+typ, w, "what is stored is a "+typ, "it is a "+typeStr(v.Typ))
	for _, fl := range c.R.msgFields(pbPath, typ) {
		x := root.fieldOf(e.Mem, v, fl.Name())
		if f == "Tickets" && fl.Name() == "Id" {
			c.Ob("C13,C20", x != nil && n.isField(x, u, "Key"), w, "the stored ticket carries the id it is stored under when it becomes visible", "its id is "+tstr(orNil(x)))
			continue
		}
		ok := x != nil && x.Op == "field" && x.S == fl.Name() && x.A[0].Op == "decoded" && n.isField(stripConv(x.A[0].A[0]), u, "Value")
		c.Ob("C20", ok, w, "field "+fl.Name()+" of the stored "+typ+" is the decoded one", "it is "+tstr(orNil(x)))
	}
	as, ok := v.Aux.(allocSite)
	fresh := v.Op == "obj" && ok
	if fresh && n.innerLoop(e) != nil {
		fresh = inLoop(as.frame, as.ins, n.innerLoop(e))
	}
	c.Ob("C20,C27", fresh, w, "every update gets a message of its own", "the message stored is shared: "+tstr(v))
}

// innerLoop is the innermost loop around an event.
func (n *incoming) innerLoop(e *Event) *LoopSum {
	var l *LoopSum
	n.root.WalkAll(func(x *Event, at *At) {
		if x == e {
			l = at.Loop()
		}
	})
	return l
}

var nilTerm = &Term{Op: "none"}

func orNil(t *Term) *Term {
	if t == nil {
		return nilTerm
	}
	return t
}

// bound: a steady stream of updates cannot keep the cleaning from running.
func (n *incoming) bound(recvs []*At) {
	c := n.c
	isRange := func(e *Event) bool { return e.Kind == "loop" && mapLoop(e.Loop) != "" }
	seen := map[string]bool{}
	for _, r := range recvs {
		l := r.Innermost()
		w := c.Where(r.Event())
		if l == nil {
			c.Ob("C34", false, w, "updates are received in a loop", "not in a loop")
			continue
		}
		if seen[l.ID] {
			continue
		}
		seen[l.ID] = true
		if anyEvent(l, isRange) {
			continue // every update is followed by the cleaning
		}
		if l.Kind == "count" || l.Kind == "slice" {
			continue
		}
		why := receivesForever(l)
		for _, it := range l.Iters {
			for _, e := range it.Events {
				if e.Kind == "recv" && isUpd(e) {
					for _, a := range e.Alts {
						if a.Kind == "recv" && bounded(a.Args[0], l) && wornOut(a.Args[0], r, l) {
							why = "the timer goes off once only"
						}
					}
				}
			}
		}
		c.Ob("C34", why == "", w, "applying updates ends after a bounded time", why)
	}
}

// receivesForever: why receiving updates in the loop may go on without end.
func receivesForever(l *LoopSum) string {
	why := ""
	for _, it := range l.Iters {
		for _, e := range it.Events {
			if e.Kind == "recv" && isUpd(e) {
				free := false
				for _, a := range e.Alts {
					if a.Kind == "recv" && bounded(a.Args[0], l) {
						free = true
					}
				}
				for _, f := range it.Facts {
					if clock(f.T) {
						free = true
					}
				}
				if !free {
					why = "no timer made before the loop is among the cases"
				}
			}
			if e.Kind == "recv" && timerOf(e.Args[0]) != nil && !l.ends(it, nil) {
				why = "receiving goes on when the time is over"
			}
			if e.Kind == "recv" && isUpd(e) && !e.Select {
				if bl := chanLenFact(it.Facts, e.Args[0]); !bl {
					why = "it waits for an update"
				}
			}
		}
	}
	return why
}

func clock(t *Term) bool {
	return t.Any(func(x *Term) bool { return x.Op == "now" })
}

func chanLenFact(fs []Lit, ch *Term) bool {
	for _, f := range fs {
		if f.T.Any(func(x *Term) bool { return x.Op == "chlen" && x.A[0] == ch }) {
			return true
		}
	}
	return false
}
