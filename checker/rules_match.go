package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("match-fan-in", "C09", "every match received from a function is handed once to the goroutine that streams it back, that goroutine streams each one once and ends only when all functions and all handovers are over (happens-before through wait groups and channels), and the call returns after that", ruleFanIn)
	rule("match-deactivation", "C10", "on every path of a match to the stream the ids of all tickets of all its rosters are queued as deactivations and the replies are received first; the hold-back depends on the wait option only", ruleDeactivate)
	rule("mmf-calls", "C11", "one goroutine per requested function, address built from host and port, one Run each with a deadline of its own, released on all paths", ruleMmfCalls)
}

const matchMsg = "*" + pbPath + ".StreamedMmfResponse"

// isMatchSend: a message is put on the caller's stream.
func isMatchSend(e *Event) bool {
	return e.Kind == "call" && mname(e.Name) == "Send" && len(e.Args) == 2 && callArgType(e, 1) == matchMsg
}

// isMatchRecv: a response is read from a function.
func isMatchRecv(e *Event) bool {
	if e.Kind != "call" || mname(e.Name) != "Recv" {
		return false
	}
	v, ok := e.Site.(ssa.Value)
	return ok && strings.Contains(v.Type().String(), matchMsg+",")
}

// errNil tells what the facts say about the error result of a call.
func (c *Ctx) errNil(facts []Lit, e *Event, i int) (isNil, known bool) {
	err := e.Res
	if i >= 0 {
		err = nil
		for _, f := range facts {
			for _, t := range []*Term{f.T} {
				if t.Op == "eq" && t.A[0].Op == "res" && t.A[0].S == fmt.Sprint(i) && t.A[0].A[0] == e.Res && t.A[1].IsNil() {
					return f.Val, true
				}
				if f.Val && t.IsApp("errors.Is", "github.com/pkg/errors.Is") && len(t.A) > 0 && t.A[0].Op == "res" && t.A[0].A[0] == e.Res {
					return false, true
				}
				if f.Val && t.Op == "eq" && t.A[0].Op == "res" && t.A[0].S == fmt.Sprint(i) && t.A[0].A[0] == e.Res {
					return false, true // equal to a particular error
				}
			}
		}
		return false, false
	}
	for _, f := range facts {
		if f.T.Op == "eq" && f.T.A[0] == err && f.T.A[1].IsNil() {
			return f.Val, true
		}
	}
	return false, false
}

type fanin struct {
	*invoke
	h     *HB
	sends []*At // messages put on the stream
	recvs []*At // responses read from functions
	ch    *Term // channel the streaming goroutine reads
}

func (c *Ctx) fanin(props string) *fanin {
	iv := c.invoke(props)
	if iv == nil {
		return nil
	}
	if v, ok := c.memo["fanin"]; ok {
		return v.(*fanin)
	}
	f := &fanin{invoke: iv, h: iv.root.HB()}
	iv.root.WalkAll(func(e *Event, at *At) {
		if isMatchSend(e) {
			f.sends = append(f.sends, at)
		}
		if isMatchRecv(e) {
			f.recvs = append(f.recvs, at)
		}
	})
	for _, s := range f.sends {
		v := f.sentMatch(s)
		if v != nil && v.Op == "recv" {
			f.ch = v.A[0]
		}
	}
	c.memo["fanin"] = f
	return f
}

// sentMatch is the match in the message put on the stream.
func (f *fanin) sentMatch(s *At) *Term {
	e := s.Event()
	m := e.Args[1]
	if m.Op == "obj" {
		return f.root.fieldOf(e.Mem, m, "Match")
	}
	// the response itself is passed on
	return f.root.fieldOf(e.Mem, m, "Match")
}

func ruleFanIn(c *Ctx) {
	f := c.fanin("C09")
	if f == nil {
		return
	}
	c.Ob("C09", len(f.sends) > 0, f.where, "matches are streamed to the caller", "no Send of a StreamedMmfResponse found")
	c.Ob("C09", len(f.recvs) > 0, f.where, "matches are received from the functions", "no Recv of a StreamedMmfResponse found")
	if len(f.sends) == 0 || len(f.recvs) == 0 {
		return
	}
	// one goroutine
	th := map[string]bool{}
	for _, s := range f.sends {
		th[s.thread()] = true
		w := c.Where(s.Event())
		for x := s.spawn(); x != nil; x = x.spawn() {
			c.Ob("C09", x.Loop() == nil, w, "messages are put on the stream by one goroutine", "the sending goroutine is started in a loop")
		}
	}
	c.Ob("C09", len(th) == 1, f.where, "messages are put on the stream by one goroutine", fmt.Sprintf("by %d goroutines", len(th)))
	if f.ch == nil {
		c.Ob("C09", false, c.Where(f.sends[0].Event()), "the streaming goroutine takes matches from a channel", "it sends "+tstr(f.sentMatch(f.sends[0])))
		return
	}
	f.streaming()
	f.handover()
	f.immutable()
}

// chanCap of a channel value (-1 unknown).
func chanCap(ch *Term) int64 {
	if ch.Op == "mkchan" && len(ch.A) > 0 {
		if n, ok := ch.A[0].ConstInt(); ok {
			return n
		}
	}
	return -1
}

// streaming: what the goroutine that streams matches does.
func (f *fanin) streaming() {
	c := f.c
	var st *At
	for _, s := range f.sends {
		st = s
	}
	w := c.Where(st.Event())
	okOf := func(facts []Lit, r *Event) (open, known bool) {
		for _, l := range facts {
			if l.T.Op == "recvok" && l.T.S == r.Res.S {
				return l.Val, true
			}
		}
		return true, false
	}
	isRecvM := func(e *Event) bool { return e.Kind == "recv" && e.Args[0] == f.ch }
	tk := st.thread()
	check := func(p *Path, facts []Lit, leaves bool, what string) {
		var pend []*Event
		got := map[*Event]int{}
		for _, e := range p.Events {
			if isRecvM(e) {
				if open, known := okOf(facts, e); !known || open {
					pend = append(pend, e)
				}
			}
			if isMatchSend(e) {
				v := f.root.fieldOf(e.Mem, e.Args[1], "Match")
				hit := false
				for _, r := range pend {
					if v == r.Res {
						got[r]++
						hit = true
						break
					}
				}
				c.Ob("C09", hit, c.Where(e), "what is streamed is the match taken from the channel, unmodified", "it is "+tstr(v))
			}
		}
		for _, r := range pend {
			c.Ob("C09", got[r] == 1, c.Where(r), "every match taken from the channel is streamed exactly once", fmt.Sprintf("%d times on a path with %s", got[r], litsStr(lits(facts, func(t *Term) bool { return t.Op != "eq" || !t.A[1].IsNil() }))))
		}
		if !leaves {
			return
		}
		// why does it stop?
		why := ""
		for _, e := range p.Events {
			if e.Kind != "recv" {
				continue
			}
			if isRecvM(e) {
				if open, known := okOf(facts, e); known && !open {
					why = "closed"
					// everything has been sent by then: close happens after all sends (checked at the close)
				} else {
					why = ""
				}
				continue
			}
			why = f.stopSignal(e, w)
		}
		c.Ob("C09", why != "", w, "streaming goes on until all functions are finished", "it ends on a path with "+litsStr(p.Facts))
	}
	n := 0
	f.root.WalkAll(func(e *Event, at *At) {
		if e.Kind != "loop" || at.thread() != tk || at.Loop() != nil {
			return
		}
		if !anyEvent(e.Loop, isRecvM) {
			return
		}
		n++
		for _, p := range e.Loop.Iters {
			check(p, p.Facts, false, "")
		}
		for _, p := range e.Loop.Exits {
			if p.Kind == "panic" || p.Kind == "fatal" {
				continue
			}
			if e.Loop.Kind == "chan" || e.Loop.Cond != nil && e.Loop.Cond.Op == "recvok" && hasLit(p.Facts, e.Loop.Cond, !e.Loop.Stay) {
				f.closedAfterAll(w)
				continue
			}
			check(p, p.Facts, true, "")
		}
		// the call returns after this loop
		if tk != "" {
			for _, p := range f.root.Paths {
				if p.Kind != "return" || indexOf(p, func(x *Event) bool { return x.Kind == "go" && tkey(x) == tk }) < 0 {
					continue
				}
				end := &At{Path: p, I: len(p.Events), Root: f.root}
				c.Ob("C09", f.h.Before(at, end), w, "the call returns only after the streaming goroutine is finished", "no wait group or channel orders its end before the return")
			}
		}
	})
	c.Ob("C09", n > 0, w, "matches are streamed in a loop until all functions are finished", "no loop that receives from the match channel found")
	if tk == "" {
		return
	}
	// the goroutine is started on every path that calls functions
	for _, p := range f.root.Paths {
		hasFan := indexOf(p, func(x *Event) bool { return x.Kind == "go" && tkey(x) == tk }) >= 0
		calls := false
		eachEvent(p, func(e *Event, _ []IterAt) {
			if e.Kind == "go" && tkey(e) != tk {
				calls = true
			}
		})
		if calls {
			c.Ob("C09", hasFan, w, "the streaming goroutine runs whenever functions are called", "")
		}
	}
}

// stopSignal: a receive that tells the streaming goroutine to stop comes after
// all handovers.
func (f *fanin) stopSignal(e *Event, w string) string {
	c := f.c
	ch := e.Args[0]
	qs := f.h.sends[ch]
	if len(qs) == 0 {
		return "" // timers, contexts: not a sign that all is over
	}
	c.Ob("C09", chanCap(f.ch) == 0, w, "no match is left in the channel when the streaming goroutine is told to stop", "the channel is buffered")
	for _, q := range qs {
		for _, s := range f.handovers() {
			c.Ob("C09", f.h.Before(s, q), c.Where(q.Event()), "the streaming goroutine is told to stop after every match was handed over", "a handover at "+c.Where(s.Event())+" may come later")
		}
	}
	return "stopped"
}

func (f *fanin) handovers() []*At {
	var out []*At
	for _, s := range f.h.sends[f.ch] {
		if s.Event().Kind == "send" {
			out = append(out, s)
		}
	}
	return out
}

func (f *fanin) closedAfterAll(w string) {
	c := f.c
	n := 0
	for _, q := range f.h.sends[f.ch] {
		if q.Event().Kind != "close" {
			continue
		}
		n++
		for _, s := range f.handovers() {
			c.Ob("C09", f.h.Before(s, q), c.Where(q.Event()), "the match channel is closed after every match was handed over", "a handover at "+c.Where(s.Event())+" may come later")
		}
	}
	c.Ob("C09", n > 0, w, "the match channel is closed when all functions are finished", "it never is")
}

func anyEvent(l *LoopSum, f func(e *Event) bool) bool {
	for _, ps := range [][]*Path{l.Iters, l.Exits} {
		for _, p := range ps {
			for _, e := range p.Events {
				if f(e) {
					return true
				}
			}
		}
	}
	return false
}

// handover: every received match gets into the channel exactly once.
func (f *fanin) handover() {
	c := f.c
	done := map[*Path]bool{}
	for _, r := range f.recvs {
		e := r.Event()
		w := c.Where(e)
		if done[r.Path] {
			continue
		}
		done[r.Path] = true
		c.Ob("C09", r.thread() != "", w, "functions are read concurrently with the streaming", "they are read by the handler itself")
		ok, known := c.errNil(r.Path.Facts, e, 1)
		n, bad := f.handed(r)
		inIter := r.Loop() != nil && r.Loop().hasIter(r.Path)
		switch {
		case known && !ok:
			c.Ob("C09", n == 0, w, "nothing is streamed when reading from a function fails", "")
			if inIter {
				c.Ob("C09", false, w, "a failed read ends the reading of that function", "the loop goes on under "+litsStr(lits(r.Path.Facts, func(t *Term) bool { return t.Contains(e.Res) })))
			}
		case !known && n > 0:
			c.Ob("C09", false, w, "a match is handed over only if reading it succeeded", "the error is not looked at")
		case !known && !inIter:
			// the reading loop was left after a read whose error is not known: inlined exit, judged in the loop
			if r.Loop() != nil {
				c.Ob("C09", false, w, "reading goes on until it fails", "the loop is left whatever the result")
			}
		default:
			c.Ob("C09", n == 1 && bad == "", w, "every match read successfully is handed to the streaming goroutine exactly once", fmt.Sprintf("%d times; %s", n, bad))
			if !inIter {
				more := false
				for i := r.I + 1; i < len(r.Path.Events); i++ {
					e := r.Path.Events[i]
					if isMatchRecv(e) || e.Kind == "loop" && anyEvent(e.Loop, isMatchRecv) {
						more = true
					}
				}
				c.Ob("C09", more, w, "reading goes on until it fails", "no further read after a successful one under "+litsStr(lastLits(r.Path.Facts, 4)))
			}
		}
	}
	// every way out of a goroutine that read has seen a failed read
	f.root.WalkAll(func(e *Event, at *At) {
		if e.Kind != "loop" || !anyEvent(e.Loop, isMatchRecv) || at.Loop() != nil {
			return
		}
		if at.Path.Kind == "panic" || at.Path.Kind == "fatal" {
			return
		}
		failed := false
		for i := at.I + 1; i < len(at.Path.Events); i++ {
			x := at.Path.Events[i]
			if isMatchRecv(x) {
				if ok, known := c.errNil(at.Path.Facts, x, 1); known && !ok {
					failed = true
				}
			}
		}
		if !failed {
			// left by a condition on the error of the last read
			for _, l := range at.Path.Facts {
				if l.T.Op == "eq" && l.T.A[1].IsNil() && !l.Val && (l.T.A[0].Op == "phi" || l.T.A[0].Op == "memphi") && s2loop(l.T.A[0].S) == e.Loop.ID {
					failed = true
				}
			}
		}
		c.Ob("C09", failed, c.LoopWhere(e.Loop), "a function is read until reading fails", "the loop ends under "+litsStr(lastLits(at.Path.Facts, 3)))
	})
}

func (l *LoopSum) hasIter(p *Path) bool {
	for _, q := range l.Iters {
		if q == p {
			return true
		}
	}
	return false
}

// handed counts how often the match read at r is put into the channel on this path.
func (f *fanin) handed(r *At) (int, string) {
	res := r.Event().Res
	isMatch := func(t *Term, m *Mem) bool {
		return t.Op == "field" && t.S == "Match" && t.A[0].Op == "res" && t.A[0].S == "0" && t.A[0].A[0] == res
	}
	n := 0
	bad := ""
	for i := r.I + 1; i < len(r.Path.Events); i++ {
		e := r.Path.Events[i]
		if isMatchRecv(e) {
			break
		}
		switch {
		case e.Kind == "send" && e.Args[0] == f.ch:
			if isMatch(e.Args[1], e.Mem) {
				n++
			} else {
				bad = "another value is handed over: " + tstr(e.Args[1])
			}
			if e.Select && len(e.Alts) > 0 {
				bad = "the handover can be given up"
			}
		case e.Kind == "selectdefault":
			for _, a := range e.Alts {
				if a.Kind == "send" && a.Args[0] == f.ch {
					bad = "the handover can be given up"
				}
			}
		case e.Kind == "go" && e.Thread != nil:
			k := -1
			for _, p := range e.Thread.Paths {
				m := 0
				eachEvent(p, func(x *Event, in []IterAt) {
					if x.Kind == "send" && x.Args[0] == f.ch {
						if len(in) > 0 {
							bad = "handed over in a loop"
						}
						if isMatch(x.Args[1], x.Mem) {
							m++
						} else {
							bad = "another value is handed over: " + tstr(x.Args[1])
						}
						if x.Select && len(x.Alts) > 0 {
							bad = "the handover can be given up"
						}
					}
				})
				if p.Kind == "panic" || p.Kind == "fatal" {
					continue
				}
				if k >= 0 && m != k {
					bad = fmt.Sprintf("handed over %d or %d times depending on %s", m, k, litsStr(lastLits(p.Facts, 3)))
				}
				if m > k {
					k = m
				}
			}
			if k > 0 {
				n += k
			}
		}
	}
	return n, bad
}

func lastLits(fs []Lit, n int) []Lit {
	if len(fs) > n {
		return fs[len(fs)-n:]
	}
	return fs
}

// immutable: nothing of a received match is written to.
func (f *fanin) immutable() {
	c := f.c
	res := map[*Term]bool{f.ch: true}
	for _, r := range f.recvs {
		res[r.Event().Res] = true
	}
	f.root.Walk(func(e *Event, at *At) {
		if e.Kind != "store" && e.Kind != "mapset" && e.Kind != "overwrite" {
			return
		}
		hit := e.Args[0].Any(func(t *Term) bool {
			return t.Op == "field" && t.S == "Match" && t.A[0].Op == "res" && res[t.A[0].A[0]] || t.Op == "recv" && res[t.A[0]]
		})
		if hit && (e.Args[0].Op == "fieldaddr" || e.Args[0].Op == "indexaddr" || e.Kind == "mapset") {
			b := e.Args[0]
			for b.Op == "fieldaddr" || b.Op == "indexaddr" || b.Op == "field" || b.Op == "elem" || b.Op == "index" {
				b = b.A[0]
			}
			if b.Op == "obj" || b.Op == "mkmap" || b.Op == "mkslice" || b.Op == "global" {
				return
			}
			c.Ob("C09", false, c.Where(e), "a match is passed on unmodified", "written: "+tstr(e.Args[0]))
		}
	})
	c.Ob("C09", true, f.where, "a match is passed on unmodified", "")
}

// matchOf: the value is the match of the response read at r.
func matchOf(t *Term, r *Event) bool {
	return t.Op == "field" && t.S == "Match" && t.A[0].Op == "res" && t.A[0].S == "0" && t.A[0].A[0] == r.Res
}

// ticketId: the value is the id of a ticket of a roster of that match.
func ticketId(t *Term, r *Event) bool {
	if t.Op != "field" || t.S != "Id" || t.A[0].Op != "elem" {
		return false
	}
	t = t.A[0].A[0]
	if t.Op != "field" || t.S != "Tickets" || t.A[0].Op != "elem" {
		return false
	}
	t = t.A[0].A[0]
	return t.Op == "field" && t.S == "Rosters" && matchOf(t.A[0], r)
}

const waitKey = "OM_MATCH_TICKET_DEACTIVATION_WAIT"

func ruleDeactivate(c *Ctx) {
	f := c.fanin("C10")
	if f == nil {
		return
	}
	deact := c.cmdConst("Deactivate")
	n := 0
	for _, r := range f.recvs {
		re := r.Event()
		if ok, known := c.errNil(r.Path.Facts, re, 1); !known || !ok {
			continue
		}
		// positions where this match is handed over or streamed
		var pos []*At
		f.root.WalkAll(func(e *Event, at *At) {
			var v *Term
			switch {
			case e.Kind == "send" && f.ch != nil && e.Args[0] == f.ch:
				v = e.Args[1]
			case isMatchSend(e):
				v = f.sentMatch(at)
			}
			if v != nil && matchOf(v, re) && below(at, r) {
				pos = append(pos, at)
			}
		})
		for _, s := range pos {
			n++
			f.deactivated(s, r, deact)
		}
	}
	c.Ob("C10", n > 0, f.where, "received matches are handed over", "no handover of a received match found")
}

// below: at is on r's path after r or in something started there after r.
func below(at, r *At) bool {
	for x := at; x != nil; x = x.Up {
		if x.Path == r.Path {
			return x.I > r.I
		}
	}
	return false
}

func (f *fanin) deactivated(s, r *At, deact int64) {
	c, g := f.c, f.g
	w := c.Where(s.Event())
	re := r.Event()
	// everything queued on the way: in the goroutine's own path and, before it
	// was started, since the match was received
	type seg struct {
		p        *Path
		from, to int
	}
	var segs []seg
	for x := s; x != nil; x = x.Up {
		from := 0
		if x.Path == r.Path {
			from = r.I
		}
		segs = append(segs, seg{x.Path, from, x.I})
		if x.Path == r.Path {
			break
		}
	}
	if s.Loop() != nil && s.Path != r.Path {
		c.Ob("C10", false, w, "a match is handed over outside of loops", "in a loop")
		return
	}
	okAll := false
	why := "no deactivation is queued before"
	for _, sg := range segs {
		qs := gensOf(sg.p, sg.to, func(e *Event) bool { return isQueue(e) })
		for i := range qs {
			u := f.root.update(qs[i].Ev)
			qs[i].Val = u.Key
			cm, isC := u.Cmd.ConstInt()
			c.Ob("C10", isC && cm == deact, c.Where(qs[i].Ev), "the updates queued for a match are deactivations", "the command is "+tstr(u.Cmd))
			k := g.Expand(u.Key)
			c.Ob("C10", ticketId(k, re), c.Where(qs[i].Ev), "the ids deactivated are those of the tickets in the rosters of the match", "it is "+tstr(k))
			if why := f.root.balanced(g, sg.p, sg.to, u.Reply); why != "" {
				c.Ob("C10", false, w, "the replies to all deactivations of a match are received before it is handed over", why)
			} else {
				c.Ob("C10", true, w, "the replies to all deactivations of a match are received before it is handed over", "")
			}
		}
		if len(qs) > 0 {
			okAll, why = g.covered(qs)
		}
	}
	if !okAll && noTickets(s.Path.Facts, re, g) {
		okAll = true
	}
	c.Ob("C10", okAll, w, "every ticket of every roster of a match is deactivated before the match is handed over", why)
	f.holdBack(s, r, segsLoops(s, r))
}

// noTickets: the facts say that there is nothing to deactivate.
func noTickets(facts []Lit, r *Event, g *Gens) bool {
	for _, l := range facts {
		t := l.T
		if t.Op == "eq" && l.Val {
			if n, ok := t.A[1].ConstInt(); ok && n == 0 && t.A[0].Op == "len" {
				x := t.A[0].A[0]
				if x.Op == "field" && x.S == "Rosters" && matchOf(x.A[0], r) {
					return true
				}
				if idList(x, r, g) {
					return true
				}
			}
		}
		if t.Op == "lt" && !l.Val && t.A[1].Op == "len" && idList(t.A[1].A[0], r, g) {
			if n, ok := t.A[0].ConstInt(); ok && n == 0 {
				return true
			}
		}
	}
	return false
}

// idList: a list of all ticket ids of the match.
func idList(t *Term, r *Event, g *Gens) bool {
	in, ok := g.of(t)
	if !ok || len(in) == 0 {
		return false
	}
	for _, x := range in {
		if x.Spread || x.Val == nil || !ticketId(g.Expand(x.Val), r) {
			return false
		}
	}
	ok, _ = g.covered(in)
	return ok
}

// segsLoops lists the wait loops between the receiving of a match and its
// handover: loops that look at the local inactive marks or sleep.
func segsLoops(s, r *At) []*Event {
	var out []*Event
	for x := s; x != nil; x = x.Up {
		from := 0
		if x.Path == r.Path {
			from = r.I
		}
		for i := from; i < x.I; i++ {
			e := x.Path.Events[i]
			if e.Kind == "loop" && anyEvent(e.Loop, isDelay) {
				out = append(out, e)
			}
		}
		if x.Path == r.Path {
			break
		}
	}
	return out
}

func isDelay(e *Event) bool {
	if e.Kind == "call" && e.Name == "time.Sleep" {
		return true
	}
	if f, m := syncMap(e); f == "InactiveSet" && m == "Load" {
		return true
	}
	return e.Kind == "recv" && e.Args[0].Op == "timer"
}

// confFact: what the path knows about a boolean setting.
func confFact(facts []Lit, key string) (val, known bool) {
	for _, l := range facts {
		t := l.T
		if t.Op == "conf" && t.S == key {
			return l.Val, true
		}
	}
	return false, false
}

// holdBack: the match waits for its deactivation exactly when asked to.
func (f *fanin) holdBack(s, r *At, loops []*Event) {
	c, g := f.c, f.g
	w := c.Where(s.Event())
	facts := s.Path.Facts
	on, known := confFact(facts, waitKey)
	if !known {
		for x := s; x != nil && !known; x = x.Up {
			on, known = confFact(x.Path.Facts, waitKey)
		}
	}
	delays := len(loops) > 0
	for i := 0; i < s.I; i++ {
		if e := s.Path.Events[i]; isDelay(e) {
			delays = true
		}
	}
	none := noTickets(facts, r.Event(), g)
	switch {
	case !known && none:
		c.Ob("C10", !delays, w, "a match without tickets is not held back", "it waits")
		return
	case !known:
		c.Ob("C10", false, w, "whether a match is held back depends on "+waitKey, "it is handed over whatever the setting is")
		return
	case !on:
		c.Ob("C10", !delays, w, "a match is not held back when "+waitKey+" is off", "it waits before the handover")
		return
	case none:
		return
	}
	c.Ob("C10", len(loops) == 1, w, "a match is held back when "+waitKey+" is on", fmt.Sprintf("%d waiting loops", len(loops)))
	for _, le := range loops {
		f.waitLoop(le, s, r)
	}
}

// waitLoop: ends only when the last ticket is inactive or time is up.
func (f *fanin) waitLoop(le *Event, s, r *At) {
	c, g := f.c, f.g
	l := le.Loop
	w := c.LoopWhere(l)
	last := func(k *Term) bool {
		k = normKey(k)
		if k.Op == "index" && len(k.A) == 2 {
			b, d := linear(k.A[1])
			return b.Op == "len" && b.A[0] == k.A[0] && d == -1 && idList(k.A[0], r.Event(), g)
		}
		return false
	}
	inactive := func(p *Path) bool {
		for _, x := range p.Facts {
			if !x.Val || x.T.Op != "res" || x.T.S != "1" {
				continue
			}
			if e := loadOf(p, x.T.A[0], "InactiveSet"); e != nil && last(e.Args[1]) {
				return true
			}
		}
		return false
	}
	timer := false
	for _, p := range append(append([]*Path{}, l.Iters...), l.Exits...) {
		for _, e := range p.Events {
			if f, m := syncMap(e); f == "InactiveSet" && m == "Load" {
				c.Ob("C10", last(e.Args[1]), c.Where(e), "waiting looks at the last ticket of the match", "it looks at "+tstr(e.Args[1]))
			}
		}
	}
	for _, p := range l.Iters {
		c.Ob("C10", !inactive(p), w, "waiting ends when the ticket is inactive", "it goes on")
		for _, e := range p.Events {
			for _, x := range append(e.Alts, e) {
				if x.Kind == "recv" && bounded(x.Args[0], l) {
					timer = true
				}
			}
		}
		for _, x := range p.Facts {
			if _, over, ok := clockIn(x, l); ok && !over {
				timer = true
			}
		}
	}
	for _, p := range l.Exits {
		timed := false
		for _, e := range p.Events {
			if e.Kind == "recv" && bounded(e.Args[0], l) && !inactive(p) {
				timed = true
				timer = true
				if t := timerDur(timerOf(e.Args[0])); t != nil {
					if d, ok := t.ConstInt(); ok {
						c.Ob("C10", d >= 1e9, c.Where(e), "waiting allows for the usual delay of replication (a second at least)", fmt.Sprintf("it ends after %d ns", d))
					}
				}
			}
		}
		for _, x := range p.Facts {
			if d, over, ok := clockIn(x, l); ok && over {
				timed, timer = true, true
				if n, ok := d.ConstInt(); ok && !inactive(p) {
					c.Ob("C10", n >= 1e9, w, "waiting allows for the usual delay of replication (a second at least)", fmt.Sprintf("it ends after %d ns", n))
				}
			}
		}
		if n, ok := l.countedOut(p); ok && !inactive(p) {
			timed = true
			c.Ob("C10", n >= 1e9, w, "waiting allows for the usual delay of replication (a second at least)", fmt.Sprintf("it ends after %d ns", n))
		}
		c.Ob("C10", inactive(p) || timed, w, "waiting ends only when the last ticket is seen inactive or time is up", "it ends under "+litsStr(lastLits(p.Facts, 3)))
	}
	if l.Kind == "count" {
		timer = true
	}
	c.Ob("C10", timer, w, "waiting is bounded by a timeout", "no timer made before the loop")
}

// countedOut: the path leaves the loop because a constant number of rounds are
// over; ns is how long those slept at least.
func (l *LoopSum) countedOut(p *Path) (ns int64, ok bool) {
	if l.Kind != "count" || l.Bound == nil {
		return 0, false
	}
	n, ok := stripConv(l.Bound).ConstInt()
	if !ok {
		return 0, false
	}
	if l.Start != nil {
		s, ok := l.Start.ConstInt()
		if !ok {
			return 0, false
		}
		n -= s
	}
	over := false
	for _, x := range p.Facts {
		if x.T.Op == "lt" && !x.Val && stripConv(x.T.A[1]) == stripConv(l.Bound) && x.T.A[0].Mentions(l.ID) {
			over = true
		}
		if a := x.T.A; x.T.Op == "lt" && !x.Val && isZeroInt(a[0]) && a[1].Op == "bin" && a[1].S == "-" && a[1].A[0] == l.Bound && a[1].Mentions(l.ID) {
			over = true // counting down
		}
	}
	if !over {
		return 0, false
	}
	least := int64(-1)
	for _, it := range l.Iters {
		var d int64
		for _, e := range it.Events {
			if e.Kind == "call" && e.Name == "time.Sleep" {
				if k, ok := e.Args[0].ConstInt(); ok {
					d += k
				}
			}
		}
		if least < 0 || d < least {
			least = d
		}
	}
	if least < 0 {
		least = 0
	}
	return n * least, true
}

// clockIn reads a comparison of the time in a round of the loop with a moment
// set before the loop: how long after a time taken before the loop that moment
// is, and whether it has passed.
func clockIn(x Lit, l *LoopSum) (d *Term, over, ok bool) {
	made := func(t *Term) (in, out bool) {
		walkTerm(t, func(y *Term) {
			if y.Op == "now" {
				if timerIn(y, l) {
					in = true
				} else {
					out = true
				}
			}
		})
		return
	}
	after := func(a, b *Term) (*Term, bool) { // a: now, b: the moment
		in, out := made(a)
		if !in || out || !(a.Op == "now") {
			return nil, false
		}
		if in, out := made(b); in || !out || !b.IsApp("(time.Time).Add") || b.A[0].Op != "now" {
			return nil, false
		}
		return b.A[1], true
	}
	since := func(t *Term) bool {
		if !t.IsApp("(time.Time).Sub") || t.A[0].Op != "now" || t.A[1].Op != "now" {
			return false
		}
		in, out := made(t.A[0])
		in1, out1 := made(t.A[1])
		return in && !out && !in1 && out1
	}
	switch t := x.T; t.Op {
	case "tlt":
		if d, ok := after(t.A[0], t.A[1]); ok {
			return d, !x.Val, true
		}
		if d, ok := after(t.A[1], t.A[0]); ok {
			return d, x.Val, true
		}
	case "lt":
		if since(t.A[0]) {
			return t.A[1], !x.Val, true
		}
		if since(t.A[1]) {
			return t.A[0], x.Val, true
		}
		// how long it is until the moment
		if y := t.A[1]; isZeroInt(t.A[0]) && y.IsApp("(time.Time).Sub") {
			if d, ok := after(y.A[1], y.A[0]); ok {
				return d, !x.Val, true
			}
		}
		if y := t.A[0]; isZeroInt(t.A[1]) && y.IsApp("(time.Time).Sub") {
			if d, ok := after(y.A[1], y.A[0]); ok {
				return d, x.Val, true
			}
		}
	}
	return nil, false, false
}

// bounded: a timer or deadline that was set before the loop.
func bounded(ch *Term, l *LoopSum) bool {
	if t := timerOf(ch); t != nil {
		return !timerIn(t, l) && !restarted(t, l)
	}
	return false
}

// restarted: the loop starts the timer again although it did not go off.
func restarted(t *Term, l *LoopSum) bool {
	for _, p := range l.Iters {
		again, off := false, false
		for _, e := range p.Events {
			again = again || isReset(e, t)
			if e.Kind == "recv" && timerOf(e.Args[0]) == t || isSendUpdates(e) {
				off = true
			}
		}
		if again && !off {
			return true
		}
	}
	return false
}

func isReset(e *Event, t *Term) bool {
	return e.Kind == "call" && (e.Name == "(*time.Timer).Reset" || e.Name == "(*time.Ticker).Reset") && timerOf(e.Args[0]) == t
}

// wornOut: the timer goes off once only, while the loop l that waits for it is
// entered, or goes on, again and again.
func wornOut(ch *Term, r *At, l *LoopSum) bool {
	t := timerOf(ch)
	if t == nil {
		return false
	}
	if as, ok := t.Aux.(allocSite); ok && t.Op == "timer" {
		if c, ok := as.ins.(ssa.CallInstruction); ok {
			if f := c.Common().StaticCallee(); f != nil && (f.Name() == "NewTicker" || f.Name() == "Tick") {
				return false
			}
		}
	}
	var outer *LoopSum
	for x := r; x != nil && !x.Thread; x = x.Up {
		if o := x.Loop(); o != nil && o.ID != l.ID {
			outer = o
			break
		}
	}
	if outer == nil {
		// the loop itself may go on after the timer went off
		for _, p := range l.Iters {
			off, again := false, false
			for _, e := range p.Events {
				off = off || e.Kind == "recv" && timerOf(e.Args[0]) == t
				again = again || isReset(e, t)
			}
			if off && !again && !l.ends(p, nil) {
				return true
			}
		}
		return false
	}
	if timerIn(t, outer) {
		return false
	}
	return !anyEvent(outer, func(e *Event) bool { return e.Res == t || isReset(e, t) })
}

// timerOf is the timer (or context with a deadline) a channel belongs to.
func timerOf(ch *Term) *Term {
	for d := 0; d < 6 && ch != nil; d++ {
		switch {
		case ch.Op == "timer":
			return ch
		case ch.Op == "field" && ch.S == "C", ch.Op == "load" && len(ch.A) > 0:
			ch = ch.A[0]
		case ch.Op == "fieldaddr" && ch.S == "C":
			ch = ch.A[0]
		case ch.Op == "app" && mname(ch.S) == "Done" && len(ch.A) > 0:
			ch = ch.A[0]
		case ch.Op == "res" && ch.S == "0" && len(ch.A) > 0:
			ch = ch.A[0]
		case ch.Op == "call":
			if strings.HasPrefix(ch.S, "(context.Context).Done@") && len(ch.A) > 0 {
				ch = ch.A[0]
				continue
			}
			if strings.HasPrefix(ch.S, "context.WithTimeout@") || strings.HasPrefix(ch.S, "context.WithDeadline@") {
				return ch
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

// timerDur: after which time the timer goes off.
func timerDur(t *Term) *Term {
	switch {
	case t == nil:
	case t.Op == "timer" && len(t.A) > 0:
		return t.A[0]
	case t.Op == "call" && strings.HasPrefix(t.S, "context.WithTimeout@") && len(t.A) == 2:
		return t.A[1]
	}
	return nil
}

func timerIn(ch *Term, l *LoopSum) bool {
	as, ok := ch.Aux.(allocSite)
	if !ok {
		return false
	}
	return inLoop(as.frame, as.ins, l)
}

func inLoop(fr *Frame, ins ssa.Instruction, l *LoopSum) bool {
	body := l.Frame.loops[l.Header]
	for fr != nil && fr != l.Frame {
		ins = fr.Call
		fr = fr.Parent
	}
	return fr != nil && ins != nil && body[ins.Block()]
}

// invokeInput: an invocation without a profile or without functions is refused
// before anything is started.
func (c *Ctx) invokeInput(root *Root, where string) {
	for _, miss := range []string{"arg0.Profile", "arg0.Mmfs"} {
		sc := &Scenario{Loop: func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }}
		sc.Val = func(t *Term, _ Inst) (any, bool) {
			if t.Op == "eq" && t.A[1].IsNil() {
				switch p := fpath(t.A[0]); p {
				case miss:
					return true, true
				case "arg0.Profile", "arg0.Mmfs":
					return false, true
				}
			}
			if t.Op == "len" && fpath(t.A[0]) == "arg0.Mmfs" {
				if miss == "arg0.Mmfs" {
					return int64(0), true
				}
				return int64(2), true
			}
			return nil, false
		}
		n := 0
		for _, p := range root.Paths {
			if len(sc.possible(p, Inst{})) == 0 {
				continue
			}
			n++
			why := refused(p)
			for _, e := range p.Events {
				if e.Kind == "go" {
					why = "a goroutine is started"
				}
			}
			c.Ob("C11", why == "", where, "a request without "+miss[5:]+" is refused with an invalid-argument error", why+" under "+litsStr(lastLits(p.Facts, 3)))
		}
		c.Ob("C11", n > 0, where, "a request without "+miss[5:]+": analysed", "no path")
	}
}

func ruleMmfCalls(c *Ctx) {
	f := c.fanin("C11")
	if f == nil {
		return
	}
	c.invokeInput(f.root, f.where)
	isRun := func(e *Event) bool {
		if e.Kind != "call" || mname(e.Name) != "Run" {
			return false
		}
		v, ok := e.Site.(ssa.Value)
		return ok && strings.Contains(v.Type().String(), "MatchMakingFunctionService_Run")
	}
	isDial := func(e *Event) bool {
		if e.Kind != "call" {
			return false
		}
		v, ok := e.Site.(ssa.Value)
		if !ok {
			return false
		}
		t, ok := v.Type().(*types.Tuple)
		return ok && t.Len() == 2 && t.At(0).Type().String() == "*google.golang.org/grpc.ClientConn"
	}
	var runs []*At
	f.root.WalkAll(func(e *Event, at *At) {
		if isRun(e) {
			runs = append(runs, at)
		}
	})
	c.Ob("C11", len(runs) > 0, f.where, "the functions are called", "no call of Run found")
	if len(runs) == 0 {
		return
	}
	w := c.Where(runs[0].Event())
	// the goroutine that calls one function
	gos := map[string]*At{}
	for _, r := range runs {
		sp := r.spawn()
		if sp == nil {
			c.Ob("C11", false, w, "every function is called in a goroutine of its own", "it is called by the handler itself")
			continue
		}
		c.Ob("C11", sp.thread() == "", w, "every function is called in a goroutine of its own started by the handler", "")
		l := sp.Loop()
		if l == nil {
			c.Ob("C11", false, w, "every function is called in a goroutine of its own", "the goroutine is not started in a loop over the functions")
			continue
		}
		gos[tkey(sp.Event())] = sp
		c.Ob("C11", l.Coll != nil && fpath(l.Coll) == "arg0.Mmfs", c.LoopWhere(l), "all functions of the request are called", "the loop is over "+tstr(l.Coll))
		ok, why := complete(l)
		c.Ob("C11", ok, c.LoopWhere(l), "all functions of the request are called", why)
		for _, p := range l.Iters {
			n := countEv(p, func(e *Event) bool { return e.Kind == "go" && tkey(e) == tkey(sp.Event()) })
			c.Ob("C11", n == 1, c.LoopWhere(l), "each function is called in exactly one goroutine", fmt.Sprintf("%d goroutines in an iteration with %s", n, litsStr(p.Facts)))
			for _, e := range p.Events {
				bl := e.Kind == "recv" || e.Kind == "call" && e.Name == "(*sync.WaitGroup).Wait"
				c.Ob("C11", !bl, c.LoopWhere(l), "the functions are called concurrently", "the loop that starts them waits at "+c.Where(e))
			}
		}
		// nothing before the loop ends the call
	}
	c.Ob("C11", len(gos) == 1, w, "each function is called in exactly one goroutine", fmt.Sprint(len(gos)))
	for _, sp := range gos {
		l := sp.Loop()
		for _, p := range sp.Event().Thread.Paths {
			if p.Kind == "panic" || p.Kind == "fatal" {
				continue
			}
			f.mmfPath(p, sp, l, isRun, isDial)
		}
	}
}

func (f *fanin) mmfPath(p *Path, sp *At, l *LoopSum, isRun, isDial func(e *Event) bool) {
	c := f.c
	w := c.Where(sp.Event())
	isM := func(t *Term, fld string) bool {
		t = stripConv(t)
		return t.Op == "field" && t.S == fld && t.A[0].Op == "elem" && s2loop(t.A[0].S) == l.ID
	}
	runs, dials := 0, 0
	var dial, run *Event
	rest := false
	for _, x := range p.Facts {
		if x.T.Op == "eq" && x.Val && isM(x.T.A[0], "Type") {
			if n, ok := x.T.A[1].ConstInt(); ok && n == c.enum("MatchmakingFunctionSpec_REST") {
				rest = true
			}
		}
		if x.T.Op == "eq" && !x.Val && isM(x.T.A[0], "Type") {
			if n, ok := x.T.A[1].ConstInt(); ok && n == c.enum("MatchmakingFunctionSpec_GRPC") {
				rest = true
			}
		}
	}
	eachEvent(p, func(e *Event, in []IterAt) {
		if isRun(e) {
			runs++
			run = e
			if len(in) > 0 {
				runs++
			}
		}
		if isDial(e) {
			dials++
			dial = e
			if len(in) > 0 {
				dials++
			}
		}
	})
	if dial != nil {
		f.address(p, dial, l)
		if mname(dial.Name) == "DialContext" && len(dial.Args) > 0 {
			base := dial.Args[0]
			for i := len(p.Events) - 1; i >= 0; i-- {
				e := p.Events[i]
				if e.Kind == "call" && strings.HasPrefix(e.Name, "context.With") && len(e.Args) > 0 && (base == e.Res || base.Op == "res" && base.A[0] == e.Res) {
					base = e.Args[0]
				}
			}
			c.Ob("C11", base.IsApp("context.Background", "context.TODO"), c.Where(dial), "a function's connection does not depend on the caller's context", "it is derived from "+tstr(base))
		}
		c.Ob("C11", dials == 1, w, "one connection is made for each function", fmt.Sprint(dials))
		ok, known := c.errNil(p.Facts, dial, 1)
		if !known || ok {
			conn := c.res0(f.root, dial)
			f.released(p, dial, "the connection", func(e *Event) bool {
				return e.Kind == "call" && mname(e.Name) == "Close" && len(e.Args) > 0 && e.Args[0] == conn
			})
			c.Ob("C11", runs == 1, w, "each function is called exactly once", fmt.Sprintf("%d times on a path with %s", runs, litsStr(lastLits(p.Facts, 4))))
		} else {
			c.Ob("C11", runs == 0, w, "a function that cannot be connected to is not called", "")
		}
	} else {
		c.Ob("C11", rest, w, "each function is called exactly once", "it is not called on a path with "+litsStr(lastLits(p.Facts, 4)))
	}
	if run == nil {
		return
	}
	// the context of the call
	ctx := run.Args[1]
	var mk *Event
	for _, e := range p.Events {
		if e.Kind == "call" && (e.Name == "context.WithTimeout" || e.Name == "context.WithDeadline") && ctx.Op == "res" && ctx.A[0] == e.Res {
			mk = e
		}
	}
	c.Ob("C11", mk != nil, c.Where(run), "a function is called with a deadline", "its context is "+tstr(ctx))
	if mk == nil {
		return
	}
	base := mk.Args[0]
	for base.IsApp("context.WithoutCancel", "context.WithValue") && len(base.A) > 0 {
		if base.IsApp("context.WithoutCancel") {
			base = f.root.A.In.mk("app", "context.Background", nil, nil)
			break
		}
		base = base.A[0]
	}
	c.Ob("C11", base.IsApp("context.Background", "context.TODO"), c.Where(mk), "a function's context does not depend on the caller's", "it is derived from "+tstr(base))
	d := mk.Args[1]
	if mk.Name == "context.WithTimeout" {
		c.Ob("C11", isSecs(d, "OM_MMF_TIMEOUT_SECS"), c.Where(mk), "the deadline is the configured timeout in seconds", "it is "+tstr(d))
	} else {
		c.Ob("C11", d.Any(func(t *Term) bool { return isSecs(t, "OM_MMF_TIMEOUT_SECS") }), c.Where(mk), "the deadline is the configured timeout in seconds", "it is "+tstr(d))
	}
	f.released(p, mk, "the deadline", func(e *Event) bool {
		return e.Kind == "call" && e.Fn != nil && e.Fn.Op == "res" && e.Fn.S == "1" && e.Fn.A[0] == mk.Res
	})
	// not before the reading of the results
	ci, ri := -1, -1
	for i, e := range p.Events {
		if e.Kind == "call" && e.Fn != nil && e.Fn.Op == "res" && e.Fn.S == "1" && e.Fn.A[0] == mk.Res && ci < 0 {
			ci = i
		}
		if isMatchRecv(e) || e.Kind == "loop" && anyEvent(e.Loop, isMatchRecv) {
			ri = i
		}
	}
	c.Ob("C11", ci < 0 || ri < ci, c.Where(mk), "a function's context is not cancelled before it is finished", "cancelled earlier")
}

func (c *Ctx) res0(r *Root, e *Event) *Term {
	return r.A.In.mk("res", "0", nil, nil, e.Res)
}

// isSecs: the setting, in seconds, as a duration.
func isSecs(t *Term, key string) bool { return isScaled(t, key, 1e9) }

func (c *Ctx) enum(name string) int64 {
	p := c.R.pkgTypes(pbPath)
	if p == nil {
		return -1
	}
	k, _ := p.Scope().Lookup(name).(*types.Const)
	if k == nil {
		return -1
	}
	var n int64
	fmt.Sscan(k.Val().String(), &n)
	return n
}

// released: something happens on the path after it was acquired.
func (f *fanin) released(p *Path, acq *Event, what string, rel func(e *Event) bool) {
	c := f.c
	i := indexOf(p, func(e *Event) bool { return e == acq })
	n := 0
	for j := i + 1; j < len(p.Events); j++ {
		if rel(p.Events[j]) {
			n++
		}
	}
	c.Ob("C11", n > 0, c.Where(acq), what+" of a function call is released on every way out", "not on a path with "+litsStr(lastLits(p.Facts, 4)))
}

// address: host, or host:port when a port is given.
func (f *fanin) address(p *Path, dial *Event, l *LoopSum) {
	c := f.c
	w := c.Where(dial)
	is := func(t *Term, fld string) bool {
		t = stripConv(t)
		return t.Op == "field" && t.S == fld && t.A[0].Op == "elem" && s2loop(t.A[0].S) == l.ID
	}
	can := func(n int64) bool {
		sc := &Scenario{Val: func(t *Term, _ Inst) (any, bool) {
			if is(t, "Port") {
				return n, true
			}
			return nil, false
		}}
		return sc.consistent(p.Facts, Inst{})
	}
	without := can(0)
	with := can(1) || can(80) || can(65535)
	var t *Term
	for _, a := range dial.Args {
		if a.Typ != nil && a.Typ.String() == "string" || is(a, "Host") || a.IsApp("fmt.Sprintf", "net.JoinHostPort") || a.Op == "bin" {
			t = a
			break
		}
	}
	if t == nil {
		c.Ob("C11", false, w, "a function is called at its own address", "the address was not recognised")
		return
	}
	if t.Op == "bin" && t.S == "+" {
		// passthrough:/// and similar prefixes
		if s, ok := t.A[0].ConstStr(); ok && strings.HasSuffix(s, ":///") {
			t = t.A[1]
		}
	}
	if without {
		c.Ob("C11", is(t, "Host"), w, "the address of a function without a port is its host", "it is "+tstr(t))
	}
	if with {
		c.Ob("C11", hostPort(t, is), w, "the address of a function with a port is host:port", "it is "+tstr(t))
	}
}

func hostPort(t *Term, is func(*Term, string) bool) bool {
	num := func(x *Term) bool {
		if is(x, "Port") {
			return true
		}
		if x.IsApp("strconv.Itoa", "strconv.FormatInt", "fmt.Sprint") && len(x.A) > 0 {
			y := x.A[0]
			if y.Op == "seq" && len(y.A) == 1 {
				y = y.A[0]
			}
			if len(x.A) == 2 {
				if n, ok := x.A[1].ConstInt(); !ok || n != 10 {
					return false
				}
			}
			return is(y, "Port")
		}
		if x.IsApp("fmt.Sprintf") && len(x.A) == 2 && x.A[1].Op == "seq" && len(x.A[1].A) == 1 {
			s, _ := x.A[0].ConstStr()
			return (s == "%v" || s == "%d") && is(x.A[1].A[0], "Port")
		}
		return false
	}
	switch {
	case t.IsApp("fmt.Sprintf") && len(t.A) == 2 && t.A[1].Op == "seq":
		s, _ := t.A[0].ConstStr()
		as := t.A[1].A
		switch s {
		case "%v:%v", "%s:%d", "%s:%v", "%v:%d":
			return len(as) == 2 && is(as[0], "Host") && (is(as[1], "Port") || (s == "%s:%v" || s == "%v:%v") && num(as[1]))
		case "%s:%s", "%v:%s":
			return len(as) == 2 && is(as[0], "Host") && !is(as[1], "Port") && num(as[1])
		}
	case t.IsApp("strings.Join") && len(t.A) == 2 && t.A[0].Op == "seq" && len(t.A[0].A) == 2:
		sep, _ := t.A[1].ConstStr()
		return sep == ":" && is(t.A[0].A[0], "Host") && !is(t.A[0].A[1], "Port") && num(t.A[0].A[1])
	case t.IsApp("net.JoinHostPort") && len(t.A) == 2:
		return is(t.A[0], "Host") && !is(t.A[1], "Port") && num(t.A[1])
	case t.Op == "bin" && t.S == "+":
		// host + ":" + port in any grouping
		var parts []*Term
		var flat func(*Term)
		flat = func(x *Term) {
			if x.Op == "bin" && x.S == "+" {
				flat(x.A[0])
				flat(x.A[1])
				return
			}
			parts = append(parts, x)
		}
		flat(t)
		if len(parts) == 3 {
			s, _ := parts[1].ConstStr()
			return is(parts[0], "Host") && s == ":" && !is(parts[2], "Port") && num(parts[2])
		}
		if len(parts) == 2 && is(parts[0], "Host") && parts[1].IsApp("fmt.Sprintf") && len(parts[1].A) == 2 && parts[1].A[1].Op == "seq" {
			s, _ := parts[1].A[0].ConstStr()
			return (s == ":%v" || s == ":%d") && len(parts[1].A[1].A) == 1 && is(parts[1].A[1].A[0], "Port")
		}
	}
	return false
}
