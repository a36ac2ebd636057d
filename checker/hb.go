package main

import (
	"fmt"
	"strings"
)

// HB decides happens-before between events of the goroutines of one root from
// wait groups, channel receives and goroutine starts.
type HB struct {
	root   *Root
	sends  map[*Term][]*At // sends and closes by channel
	recvs  map[*Term][]*At
	gos    []*At
	waits  map[*Term][]*At
	memo   map[hbKey]bool
	busy   map[hbKey]bool
	doneMm map[string]int
	n      int
}

type hbKey struct {
	p, q   *Path
	pi, qi int
}

func (r *Root) HB() *HB {
	h := &HB{root: r, sends: map[*Term][]*At{}, recvs: map[*Term][]*At{}, waits: map[*Term][]*At{}, memo: map[hbKey]bool{}, busy: map[hbKey]bool{}, doneMm: map[string]int{}}
	r.WalkAll(func(e *Event, at *At) {
		h.n++
		switch e.Kind {
		case "send", "close":
			h.sends[e.Args[0]] = append(h.sends[e.Args[0]], at)
		case "recv":
			h.recvs[e.Args[0]] = append(h.recvs[e.Args[0]], at)
		case "go":
			h.gos = append(h.gos, at)
		case "call":
			if e.Name == "(*sync.WaitGroup).Wait" {
				h.waits[e.Args[0]] = append(h.waits[e.Args[0]], at)
			}
		}
	})
	return h
}

// WalkAll visits every event of every abstract trace, with the exact chain of
// enclosing traces. The At values may be kept.
func (r *Root) WalkAll(f func(e *Event, at *At)) {
	var rec func(ps []*Path, up *At, ev *Event)
	rec = func(ps []*Path, up *At, ev *Event) {
		for _, p := range ps {
			for i, e := range p.Events {
				at := &At{Up: up, Ev: ev, Path: p, I: i, Root: r, Thread: ev != nil && ev.Kind == "go"}
				f(e, at)
				if e.Kind == "loop" {
					rec(e.Loop.Iters, at, e)
				}
				if e.Kind == "go" && e.Thread != nil {
					rec(e.Thread.Paths, at, e)
				}
			}
		}
	}
	rec(r.Paths, nil, nil)
}

func (at *At) Event() *Event {
	if at.I < len(at.Path.Events) {
		return at.Path.Events[at.I]
	}
	return nil
}

// thread names the goroutine (by where it is started); "" is the root.
func (at *At) thread() string {
	if g := at.InThread(); g != nil {
		return tkey(g)
	}
	return ""
}

func tkey(g *Event) string { return g.Frame.key + "!" + siteKey(g.Site) }

// top climbs to the level of the goroutine's own path.
func (at *At) top() *At {
	x := at
	for !x.Thread && x.Up != nil {
		x = x.Up
	}
	return x
}

// spawn is where the goroutine of at is started (nil for the root).
func (at *At) spawn() *At {
	x := at.top()
	if x.Thread {
		return x.Up
	}
	return nil
}

// Before: q has happened whenever p happens.
func (h *HB) Before(q, p *At) bool { return h.before(q, p, 0) }

func (h *HB) before(q, p *At, d int) bool {
	if d > 8 {
		return false
	}
	k := hbKey{q.Path, p.Path, q.I, p.I}
	if v, ok := h.memo[k]; ok {
		return v
	}
	if h.busy[k] {
		return false
	}
	h.busy[k] = true
	v := h.compute(q, p, d)
	h.busy[k] = false
	if v || d == 0 {
		h.memo[k] = v
	}
	return v
}

func (h *HB) compute(q, p *At, d int) bool {
	if q.thread() == p.thread() {
		// compare where their paths part
		qs, ps := q.chain(), p.chain()
		for i := 0; i < len(qs) && i < len(ps); i++ {
			if qs[i].Path != ps[i].Path {
				return i == 0 // other execution; other iteration of the same loop: not ordered
			}
			if qs[i].I != ps[i].I {
				return qs[i].I < ps[i].I
			}
		}
		return false
	}
	// q's goroutine is an ancestor of p's: events before the start
	for x := p.spawn(); x != nil; x = x.spawn() {
		if x.thread() == q.thread() && h.compute(q, x, d+1) {
			return true
		}
	}
	for x := p; x != nil; x = x.Up {
		n := x.I
		if n > len(x.Path.Events) {
			n = len(x.Path.Events)
		}
		for i := n - 1; i >= 0; i-- {
			e := x.Path.Events[i]
			b := *x
			b.I = i
			if h.barrier(q, e, &b, d) {
				return true
			}
		}
	}
	return false
}

// chain lists the levels from the goroutine's own path down to at.
func (at *At) chain() []*At {
	var out []*At
	for x := at; x != nil; x = x.Up {
		out = append([]*At{x}, out...)
		if x.Thread {
			break
		}
	}
	return out
}

// barrier: once event e (at b) has happened, q has.
func (h *HB) barrier(q *At, e *Event, b *At, d int) bool {
	switch {
	case e.Kind == "call" && e.Name == "(*sync.WaitGroup).Wait":
		w := e.Args[0]
		for _, g := range h.gos {
			ge := g.Event()
			di := h.doneBy(g, w)
			if di < 0 {
				continue
			}
			if tkey(ge) == q.thread() {
				// q comes before Done in its goroutine
				if qt := q.top(); qt.Path != nil {
					k := doneIndex(qt.Path, w)
					if k < 0 || qt.I > k {
						continue
					}
				}
				sp := q.spawn()
				if sp.thread() == b.thread() {
					if h.compute(sp, b, d+1) || sameLoop(sp, b) {
						return true
					}
				} else if h.before(sp, b, d+1) {
					return true
				}
				continue
			}
			// a goroutine that itself waits for q before Done
			if ge.Thread == nil || !(g.thread() == b.thread()) {
				continue
			}
			all := true
			for _, tp := range ge.Thread.Paths {
				if !pathOf(q, tp) {
					continue
				}
				k := doneIndex(tp, w)
				x := &At{Up: g, Ev: ge, Path: tp, I: k, Root: h.root, Thread: true}
				if k < 0 || !h.before(q, x, d+1) {
					all = false
				}
			}
			if all && h.contains(ge, q) && (h.compute(g, b, d+1)) {
				return true
			}
		}
	case e.Kind == "recv":
		ch := e.Args[0]
		n := 0
		closed := nothingReceived(b.Path, e)
		for _, s := range h.sends[ch] {
			if closed && s.Event().Kind != "close" {
				continue
			}
			if s.thread() == q.thread() && s.Path == q.Path && s.I == q.I {
				return false
			}
			if s.thread() == b.thread() {
				continue
			}
			if h.before(q, s, d+1) {
				n++
				continue
			}
			if h.before(s, b, d+1) {
				continue // received by someone else before
			}
			return false
		}
		return n > 0
	}
	return false
}

func sameLoop(a, b *At) bool { return false }

// pathOf: q lies on goroutine path tp (at its own level or below).
func pathOf(q *At, tp *Path) bool {
	for x := q; x != nil; x = x.Up {
		if x.Path == tp {
			return true
		}
	}
	return false
}

// contains: q happens in a goroutine started (directly or not) by ge's one.
func (h *HB) contains(ge *Event, q *At) bool {
	for x := q; x != nil; x = x.Up {
		if x.Ev == ge {
			return true
		}
	}
	return false
}

// doneIndex is the position of the only Done on a goroutine's path, -1.
func doneIndex(p *Path, w *Term) int {
	k := -1
	for i, e := range p.Events {
		if e.Kind == "call" && e.Name == "(*sync.WaitGroup).Done" && e.Args[0] == w {
			if k >= 0 {
				return -1
			}
			k = i
		}
	}
	return k
}

// doneBy: the goroutine started at g lowers w exactly once on every way out
// and w was raised for it before it was started.
func (h *HB) doneBy(g *At, w *Term) int {
	ge := g.Event()
	if ge.Thread == nil || len(ge.Thread.Paths) == 0 {
		return -1
	}
	any := false
	for _, p := range ge.Thread.Paths {
		if p.Kind == "fatal" || p.Kind == "panic" {
			continue
		}
		if doneIndex(p, w) < 0 {
			return -1
		}
		any = true
	}
	if !any {
		return -1
	}
	if why := h.added(g, w); why != "" {
		return -1
	}
	return 0
}

// added: w is raised before the goroutine is started ("" or what is wrong).
func (h *HB) added(g *At, w *Term) string {
	adds, gos := int64(0), int64(0)
	bulk := false
	for i := 0; i <= g.I; i++ {
		e := g.Path.Events[i]
		if e.Kind == "call" && e.Name == "(*sync.WaitGroup).Add" && e.Args[0] == w {
			if n, ok := e.Args[1].ConstInt(); ok {
				adds += n
			}
		}
		if e.Kind == "go" && e.Thread != nil && h.lowers(e, w) {
			gos++
		}
	}
	if adds >= gos {
		return ""
	}
	// Add(len(C)) before a loop over C
	if l := g.Loop(); l != nil && g.Up != nil && adds == 0 && gos == 1 {
		for i := 0; i < g.Up.I; i++ {
			e := g.Up.Path.Events[i]
			if e.Kind == "call" && e.Name == "(*sync.WaitGroup).Add" && e.Args[0] == w {
				n := stripConv(e.Args[1])
				if n.Op == "len" && l.Coll != nil && n.A[0] == l.Coll || l.Bound != nil && n == l.Bound {
					bulk = true
				}
			}
		}
		if bulk {
			return ""
		}
	}
	return fmt.Sprintf("raised %d times for %d goroutines before this one starts", adds, gos)
}

func (h *HB) lowers(ge *Event, w *Term) bool {
	for _, p := range ge.Thread.Paths {
		if doneIndex(p, w) >= 0 {
			return true
		}
	}
	return false
}

// isBlockingSend etc. (kept short for the rules)
func wgName(e *Event) string {
	if e.Kind == "call" && strings.HasPrefix(e.Name, "(*sync.WaitGroup).") {
		return mname(e.Name)
	}
	return ""
}
