package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	rule("closing", "C25,C26", "every send on a channel happens before the channel is closed, and it is closed at most once", ruleClosing)
	rule("outlive", "C26", "a goroutine started by a call has ended when the call returns, or only waits for what the end of the call or a timer brings about; what a call or goroutine releases is not used by others any more", ruleOutlive)
}

// liveRoots are the functions whose goroutines are judged.
func (c *Ctx) liveRoots(props string) []*Root {
	out := append([]*Root{}, c.rpcs(props)...)
	for _, n := range c.incoming(props) {
		out = append(out, n.root)
	}
	return out
}

func ruleClosing(c *Ctx) {
	n := 0
	for _, root := range c.liveRoots("C25,C26") {
		hb := root.HB()
		sends, closes := map[*Term][]*At{}, map[*Term][]*At{}
		root.WalkAll(func(e *Event, at *At) {
			switch e.Kind {
			case "send":
				sends[e.Args[0]] = append(sends[e.Args[0]], at)
			case "close":
				closes[e.Args[0]] = append(closes[e.Args[0]], at)
			}
		})
		var chans []*Term
		for ch := range closes {
			chans = append(chans, ch)
		}
		sort.Slice(chans, func(i, j int) bool { return chans[i].key < chans[j].key })
		for _, ch := range chans {
			ks := closes[ch]
			n++
			seenK := map[string]bool{}
			for i, k := range ks {
				w := c.Where(k.Event())
				c.Ob("C25,C26", ch.Op == "mkchan", w, "a channel is closed by the call that made it", tstr(ch))
				// closed again in another round of a loop
				why := ""
				for x := k; x != nil && x.Up != nil; x = x.Up {
					if x.Ev != nil && x.Ev.Kind == "loop" && x.Path.Kind == "next" && !timerIn(ch, x.Ev.Loop) {
						why = "in every round of the loop at " + c.LoopWhere(x.Ev.Loop)
					}
				}
				c.Ob("C25,C26", why == "", w, "a channel is closed once", why)
				for _, k2 := range ks[i+1:] {
					if !together(k, k2) || parted(k, k2) {
						continue
					}
					c.Ob("C25,C26", false, w, "a channel is closed once", "also closed at "+c.Where(k2.Event()))
				}
				for _, s := range sends[ch] {
					if !together(s, k) || parted(s, k) {
						continue
					}
					key := fmt.Sprintf("%p/%p", s.Event().Site, k.Event().Site)
					ok := hb.Before(s, k)
					if ok && seenK[key] {
						continue
					}
					seenK[key] = true
					c.Ob("C25,C26", ok, c.Where(s.Event()), "the send happens before the channel is closed", "closed at "+w)
				}
			}
		}
	}
	c.Ob("C25,C26", n > 0, "core", "channels that are closed", fmt.Sprintf("%d", n))
}

// parted: the events are in the same goroutine, on different ways through it.
func parted(a, b *At) bool {
	as, bs := a.chain(), b.chain()
	if a.Path == b.Path && a.I == b.I {
		return true
	}
	if a.thread() != b.thread() || len(as) == 0 || len(bs) == 0 {
		return false
	}
	for i := 0; i < len(as) && i < len(bs); i++ {
		if as[i].Path != bs[i].Path {
			return i == 0
		}
		if as[i].I != bs[i].I {
			return false
		}
	}
	return false
}

// ender knows what the end of a call brings about.
type ender struct {
	c     *Ctx
	root  *Root
	calls map[*Term]*Event
	hb    *HB
}

func (c *Ctx) ender(root *Root) *ender {
	e := &ender{c: c, root: root, calls: map[*Term]*Event{}, hb: root.HB()}
	root.WalkAll(func(ev *Event, at *At) {
		if ev.Kind == "call" && ev.Res != nil {
			e.calls[ev.Res] = ev
		}
	})
	return e
}

// ends: the channel delivers, or is closed, when the call ends or after a
// bounded time.
func (e *ender) ends(ch *Term, d int) bool {
	if ch == nil || d > 10 {
		return false
	}
	if timerOf(ch) != nil {
		return true
	}
	ctxParam := func(t *Term) bool {
		p := fpath(t)
		return p == "arg0" && len(e.root.Fn.Params) > 1 && strings.HasSuffix(e.root.Fn.Params[1].Type().String(), "context.Context")
	}
	if ctxParam(ch) {
		return true
	}
	stream := func(t *Term) bool { return fpath(t) == "arg1" }
	with := func(name string, args []*Term) bool {
		n := mname(name)
		switch {
		case n == "Context":
			return len(args) > 0 && stream(args[0])
		case n == "Done":
			return len(args) > 0 && e.ends(args[0], d+1)
		case strings.HasPrefix(name, "context.WithTimeout"), strings.HasPrefix(name, "context.WithDeadline"):
			return true
		case strings.HasPrefix(name, "context.WithoutCancel"):
			return false
		case strings.HasPrefix(name, "context.With"):
			return len(args) > 0 && e.ends(args[0], d+1)
		}
		return false
	}
	switch ch.Op {
	case "res":
		if e.cancelled(ch.A[0]) {
			return true
		}
		return e.ends(ch.A[0], d+1)
	case "app":
		return with(ch.S, ch.A)
	case "call":
		if ev := e.calls[ch]; ev != nil {
			return with(ev.Name, ev.Args)
		}
	case "mkchan":
		return e.closedAtEnd(ch)
	}
	return false
}

// over: the term is the error of a context that ends with the call.
func (e *ender) over(t *Term) bool {
	if t.Op == "app" && mname(t.S) == "Err" && len(t.A) > 0 {
		return e.ends(t.A[0], 0)
	}
	if ev := e.calls[t]; ev != nil && ev.Name == "(context.Context).Err" && len(ev.Args) > 0 {
		return e.ends(ev.Args[0], 0)
	}
	return false
}

// cancelled: the context made by the call event is cancelled on every way out.
func (e *ender) cancelled(call *Term) bool {
	ev := e.calls[call]
	if ev == nil || !strings.HasPrefix(ev.Name, "context.WithCancel") {
		return false
	}
	for _, p := range e.root.Paths {
		if p.Kind != "return" {
			continue
		}
		made, done := false, false
		for _, x := range p.Events {
			made = made || x == ev || x.Kind == "call" && x.Res == call
			done = done || made && isCancel(x, call)
		}
		if made && !done {
			return false
		}
	}
	return true
}

func isCancel(x *Event, call *Term) bool {
	return x.Kind == "call" && x.Fn != nil && x.Fn.Op == "res" && x.Fn.S == "1" && x.Fn.A[0] == call
}

// closedAtEnd: the channel is closed on every way out after it was made.
func (e *ender) closedAtEnd(ch *Term) bool {
	ks := e.hb.sends[ch]
	any := false
	for _, p := range e.root.Paths {
		if p.Kind != "return" {
			continue
		}
		if !usesChan(p, ch) {
			continue
		}
		ok := false
		end := &At{Path: p, I: len(p.Events), Root: e.root}
		for _, k := range ks {
			if k.Event().Kind == "close" && rootPath(k) == p && e.hb.Before(k, end) {
				ok = true
			}
		}
		if !ok {
			return false
		}
		any = true
	}
	return any
}

func rootPath(x *At) *Path {
	for x.Up != nil {
		x = x.Up
	}
	return x.Path
}

func usesChan(p *Path, ch *Term) bool {
	found := false
	var rec func(p *Path)
	rec = func(p *Path) {
		for _, e := range p.Events {
			if len(e.Args) > 0 && e.Args[0] == ch && (e.Kind == "send" || e.Kind == "recv" || e.Kind == "close") {
				found = true
			}
			if e.Kind == "loop" {
				for _, q := range e.Loop.Iters {
					rec(q)
				}
			}
			if e.Kind == "go" && e.Thread != nil {
				for _, q := range e.Thread.Paths {
					rec(q)
				}
			}
		}
	}
	rec(p)
	return found
}

// room: the channel can hold everything that is ever sent on it.
func (e *ender) room(ch *Term) bool {
	if ch.Op != "mkchan" || len(ch.A) == 0 {
		return false
	}
	g := e.root.Gens()
	for _, p := range e.root.Paths {
		if p.Kind != "return" || !usesChan(p, ch) {
			continue
		}
		s, why := g.sum(p, func(x *Event) *Term {
			if x.Kind == "send" && x.Args[0] == ch {
				return e.root.A.In.Int(1)
			}
			return nil
		})
		if why != "" {
			// not every path of a goroutine sends: count one each
			return e.oneEach(ch, p)
		}
		s = g.settle(s, p)
		left, isK := g.lin(ch.A[0], 0).add(s, -1).constant()
		if !isK || left < 0 {
			return false
		}
	}
	return true
}

// oneEach: goroutines started once per element of a collection send at most
// once each, and the channel has room for one per element.
func (e *ender) oneEach(ch *Term, p *Path) bool {
	in := e.root.A.In
	for _, s := range e.hb.sends[ch] {
		if rootPath(s) != p || s.Event().Kind == "close" {
			continue
		}
		sp := s.spawn()
		if sp == nil || s.Loop() != nil && s.Path.Kind == "next" {
			return false
		}
		l := sp.Loop()
		if l == nil {
			return false
		}
		n := 0
		for _, x := range s.top().Path.Events {
			if x.Kind == "send" && x.Args[0] == ch {
				n++
			}
		}
		tr := trip(in, l)
		cp := stripConv(ch.A[0])
		if n > 1 || tr == nil || !(tr == cp || sameLen(tr, cp)) {
			return false
		}
	}
	return true
}

func ruleOutlive(c *Ctx) {
	nGo, nRel := 0, 0
	for _, root := range c.liveRoots("C26") {
		e := c.ender(root)
		handler := strings.Contains(root.Fn.String(), "grpcServer")
		for _, at := range e.hb.gos {
			ge := at.Event()
			if ge.Thread == nil {
				c.Ob("C26", false, c.Where(ge), "the goroutine's code is known", "")
				continue
			}
			nGo++
			if handler {
				c.thread(e, at, e.joined(at), handler)
			}
		}
		nRel += c.released(e, handler)
		if strings.HasSuffix(root.Fn.String(), ".WatchAssignments") {
			c.leaves(e)
		}
	}
	c.Ob("C26", nGo > 0 && nRel > 0, "core", "goroutines and what is released", fmt.Sprintf("%d goroutines, %d releases", nGo, nRel))
}

// leaves: a watch, whose length the request decides, ends when its caller has
// gone: what it waits for beside a timer includes the end of the call.
func (c *Ctx) leaves(e *ender) {
	n := 0
	e.root.Walk(func(x *Event, at *At) {
		if x.Kind != "recv" || !x.Select || !x.Block {
			return
		}
		timed, left := false, false
		for _, o := range append([]*Event{x}, x.Alts...) {
			if o.Kind != "recv" || len(o.Args) == 0 {
				continue
			}
			timed = timed || timerOf(o.Args[0]) != nil
			left = left || e.byCaller(o.Args[0], 0)
		}
		if !timed {
			return
		}
		n++
		c.Ob("C26", left, c.Where(x), "a watch ends when its caller has gone", "it only waits for "+tstr(x.Args[0])+" and a time that the request decides")
	})
	if n == 0 {
		c.Stats["watches without a timed wait"]++
	}
}

// byCaller: the channel delivers when the caller has gone.
func (e *ender) byCaller(t *Term, d int) bool {
	if t == nil || d > 10 {
		return false
	}
	if fpath(t) == "arg0" && len(e.root.Fn.Params) > 1 && strings.HasSuffix(e.root.Fn.Params[1].Type().String(), "context.Context") {
		return true
	}
	name, args := "", t.A
	switch t.Op {
	case "res":
		return e.byCaller(t.A[0], d+1)
	case "app":
		name = t.S
	case "call":
		ev := e.calls[t]
		if ev == nil {
			return false
		}
		name, args = ev.Name, ev.Args
	}
	if len(args) == 0 {
		return false
	}
	switch {
	case mname(name) == "Context":
		return fpath(args[0]) == "arg1"
	case mname(name) == "Done", strings.HasPrefix(name, "context.With") && !strings.HasPrefix(name, "context.WithoutCancel"):
		return e.byCaller(args[0], d+1)
	}
	return false
}

// joined: every end of the goroutine happens before the call returns.
func (e *ender) joined(at *At) bool {
	p := rootPath(at)
	if p.Kind != "return" {
		return true
	}
	end := &At{Path: p, I: len(p.Events), Root: e.root}
	ge := at.Event()
	for _, tp := range ge.Thread.Paths {
		if tp.Kind == "fatal" || tp.Kind == "panic" || len(tp.Events) == 0 {
			continue
		}
		last := &At{Up: at, Ev: ge, Path: tp, I: len(tp.Events) - 1, Root: e.root, Thread: true}
		// its last event that can block or signal
		for last.I > 0 {
			x := tp.Events[last.I]
			if x.Kind == "call" && (mname(x.Name) == "Done" || mname(x.Name) == "Close") && x.Def || isLog(x) || x.Kind == "close" {
				last.I--
				continue
			}
			break
		}
		if !e.hb.Before(last, end) {
			return false
		}
	}
	return true
}

func isLog(x *Event) bool { return x.Kind == "call" && strings.Contains(x.Name, "logrus") }

// thread judges what a goroutine waits for.
func (c *Ctx) thread(e *ender, at *At, joined, handler bool) {
	ge := at.Event()
	var rec func(p *Path, up *At, ev *Event)
	stream := func(x *Event) bool {
		return x.Kind == "call" && len(x.Args) > 0 && fpath(x.Args[0]) == "arg1" && handler && mname(x.Name) != "Context"
	}
	end := func(a *At) *At {
		p := rootPath(a)
		return &At{Path: p, I: len(p.Events), Root: e.root}
	}
	rec = func(p *Path, up *At, ev *Event) {
		for i, x := range p.Events {
			here := &At{Up: up, Ev: ev, Path: p, I: i, Root: e.root, Thread: ev == ge}
			switch {
			case stream(x):
				if rp := rootPath(at); rp.Kind == "return" {
					c.Ob("C26", e.hb.Before(here, end(here)), c.Where(x), "the caller's stream is not used after the call has returned", "the goroutine started at "+c.Where(ge)+" may still use it")
				}
			case (x.Kind == "send" || x.Kind == "recv") && (!x.Select || x.Block):
				ch := x.Args[0]
				ok := e.ends(ch, 0) && x.Kind == "recv"
				for _, o := range x.Alts {
					ok = ok || o.Kind == "recv" && e.ends(o.Args[0], 0)
				}
				if x.Kind == "send" && e.room(ch) {
					ok = true
				}
				why := "it waits on " + tstr(ch)
				if !ok && ch.Op == "mkchan" && x.Kind == "send" {
					ok, why = e.readUntil(here, ch)
				}
				if !ok && joined && (x.Kind == "recv" || ch.Op != "mkchan") {
					ok = true // the call itself waits for it
				}
				c.Ob("C26", ok, c.Where(x), "a goroutine never waits for something that need not happen", why)
			case x.Kind == "loop":
				c.threadLoop(e, here, x, joined)
				for _, q := range x.Loop.Iters {
					rec(q, here, x)
				}
			case x.Kind == "go" && x.Thread != nil:
				// judged on its own
			}
		}
	}
	for _, p := range ge.Thread.Paths {
		if p.Kind == "fatal" || p.Kind == "panic" {
			continue
		}
		rec(p, at, ge)
	}
}

// threadLoop: a goroutine's loop that is not bounded by data ends with the
// call, or after some time.
func (c *Ctx) threadLoop(e *ender, at *At, ev *Event, joined bool) {
	l := ev.Loop
	if l.Kind == "slice" || l.Kind == "map" || l.Kind == "count" || l.Kind == "string" {
		return
	}
	if l.Cond != nil && trip(e.root.A.In, l) != nil {
		return
	}
	why := ""
	for _, it := range l.Iters {
		if it.Kind != "next" {
			continue
		}
		ok := false
		for _, x := range it.Events {
			if x.Kind != "send" && x.Kind != "recv" && x.Kind != "selectdefault" {
				continue
			}
			all := append([]*Event{x}, x.Alts...)
			for _, o := range all {
				if o.Kind != "recv" || len(o.Args) == 0 {
					continue
				}
				ch := o.Args[0]
				if o == x && x.Select {
					// taken and yet the loop goes on
					continue
				}
				if t := timerOf(ch); t != nil && timerIn(ch, l) {
					continue // starts anew in every round
				}
				ok = ok || e.ends(ch, 0)
			}
		}
		for _, f := range it.Facts {
			walkTerm(f.T, func(t *Term) {
				ok = ok || e.over(t)
			})
			if _, over, timed := clockIn(f, l); timed && !over {
				ok = true
			}
		}
		// a call that fails when its stream or context is over
		for _, x := range it.Events {
			if x.Kind == "call" && mname(x.Name) == "Recv" {
				ok = true
			}
		}
		if !ok {
			why = "a round that goes on without looking whether the call has ended: " + litsStr(lastLits(it.Facts, 2))
		}
	}
	c.Ob("C26", why == "", c.LoopWhere(l), "a goroutine's loop ends with the call or after some time", why)
}

// readUntil: what receives from the channel goes on until every send has
// happened.
func (e *ender) readUntil(s *At, ch *Term) (bool, string) {
	n := 0
	for _, r := range e.hb.recvs[ch] {
		if rootPath(r) != rootPath(s) {
			continue
		}
		l := r.Loop()
		if l == nil || r.Path.Kind != "next" {
			continue
		}
		if r.thread() == s.thread() {
			continue
		}
		n++
		t := r.top()
		if !t.Thread {
			// received by the call itself
			p := rootPath(r)
			end := &At{Path: p, I: len(p.Events), Root: e.root}
			if !e.hb.Before(s, end) {
				return false, "the receiving loop can end before"
			}
			continue
		}
		for _, tp := range t.Ev.Thread.Paths {
			if tp.Kind == "fatal" || tp.Kind == "panic" {
				continue
			}
			x := &At{Up: t.Up, Ev: t.Ev, Path: tp, I: len(tp.Events), Root: e.root, Thread: true}
			if !e.hb.Before(s, x) {
				return false, "the goroutine that receives can end before"
			}
		}
	}
	if n == 0 {
		return false, "nothing receives from " + tstr(ch) + " in a loop"
	}
	return true, ""
}

// released: what is released (contexts cancelled, connections closed) is not
// used by a goroutine any more.
func (c *Ctx) released(e *ender, handler bool) int {
	type rel struct {
		at  *At
		obj *Term
		gen *Term
	}
	var rels []rel
	e.root.WalkAll(func(x *Event, at *At) {
		switch {
		case x.Kind == "call" && x.Fn != nil && x.Fn.Op == "res" && x.Fn.S == "1" && x.Fn.A[0].Op == "call":
			if ev := e.calls[x.Fn.A[0]]; ev != nil && strings.HasPrefix(ev.Name, "context.With") {
				rels = append(rels, rel{at, e.root.A.In.mk("res", "0", nil, nil, x.Fn.A[0]), x.Fn.A[0]})
			}
		case x.Kind == "call" && x.Name == "(*google.golang.org/grpc.ClientConn).Close":
			rels = append(rels, rel{at, x.Args[0], nil})
		}
	})
	for _, r := range rels {
		bad := ""
		e.root.WalkAll(func(x *Event, at *At) {
			if bad != "" || x.Kind != "call" && x.Kind != "send" || at.thread() == r.at.thread() || !together(at, r.at) {
				return
			}
			if x.Kind == "call" && (mname(x.Name) == "Done" || mname(x.Name) == "Err") || isLog(x) {
				return
			}
			uses := false
			for _, a := range x.Args {
				uses = uses || resOf(a, r.obj)
			}
			if !uses {
				return
			}
			// only goroutines below the one that releases
			below := false
			for y := at.spawn(); y != nil; y = y.spawn() {
				below = below || y.thread() == r.at.thread() && y.top().Path == r.at.top().Path
			}
			if below && !e.hb.Before(at, r.at) {
				bad = c.Where(x)
			}
		})
		c.Ob("C26", bad == "", c.Where(r.at.Event()), "what is released is not used by a goroutine any more", "used at "+bad)
	}
	return len(rels)
}

// resOf: a is the object, also inside a message or struct built in place.
func resOf(a, obj *Term) bool {
	if a == obj {
		return true
	}
	found := false
	walkTerm(a, func(t *Term) { found = found || t == obj })
	return found
}
