package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C32: the sample matchmaking functions.

func init() {
	rule("samples", "C32", "each match that is sent has full rosters, made of pool entries that no cursor returns to; failed receives and sends end the run with their error", ruleSamples)
}

// what the samples announce to make
var samples = []struct {
	pkg           string
	rosters, size int64
}{
	{"open-match.dev/functions/golang/soloduel", 1, 2},
	{"open-match.dev/functions/golang/battleroyale", 1, 100},
	{"open-match.dev/functions/golang/teamshooter", 2, 5},
}

func ruleSamples(c *Ctx) {
	for _, s := range samples {
		for _, f := range c.sampleRuns(s.pkg) {
			c.sample(f, s.rosters, s.size)
		}
	}
}

// sampleRuns are the functions of a sample package that serve a run.
func (c *Ctx) sampleRuns(pkg string) (out []*ssa.Function) {
	p := c.R.SSA[pkg]
	if p == nil {
		c.Ob("C32", false, pkg, "the sample function is found", "no such package")
		return
	}
	for _, m := range p.Members {
		t, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		if ms := c.R.Prog.MethodSets.MethodSet(types.NewPointer(t.Type())); ms.Lookup(p.Pkg, "Run") != nil {
			f := c.R.Prog.MethodValue(ms.Lookup(p.Pkg, "Run"))
			if f == nil || f.Signature.Params().Len() != 1 || !isRunServer(typeStr(f.Signature.Params().At(0).Type())) || isGenerated(pkgPathOf(f)) {
				continue
			}
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	c.Ob("C32", len(out) > 0, pkg, "the sample function is found", "no type of it has a Run method")
	return
}

// sctx is a position in the summary: an iteration of a loop on a path.
type sctx struct {
	up   *sctx
	path *Path
	l    *LoopSum // nil at the top
	ev   *Event   // the loop event in up.path
}

type sample struct {
	c       *Ctx
	root    *Root
	g       *Gens
	rosters int64
	size    int64
	sets    []msite
	where   string
}

// msite is a mapset somewhere.
type msite struct {
	e  *Event
	cx *sctx
}

func (c *Ctx) sample(f *ssa.Function, rosters, size int64) {
	var opaque []string
	for _, r := range c.chunkReaders() {
		opaque = append(opaque, r.String())
	}
	root := c.Root(f, opaque...)
	c.Cov[f] = true
	if !c.Sound("C32", root) {
		return
	}
	s := &sample{c: c, root: root, g: root.Gens(), rosters: rosters, size: size, where: c.FnWhere(f)}
	s.ends()
	// all positions
	type sent struct {
		e  *Event
		i  int
		cx *sctx
	}
	var sends []sent
	seen := map[*LoopSum]bool{}
	var visit func(cx *sctx)
	visit = func(cx *sctx) {
		for i, e := range cx.path.Events {
			switch {
			case isMmfSend(e):
				sends = append(sends, sent{e, i, cx})
			case e.Kind == "mapset":
				s.sets = append(s.sets, msite{e, cx})
			case e.Kind == "loop" && !seen[e.Loop]:
				seen[e.Loop] = true
				for _, q := range e.Loop.Iters {
					visit(&sctx{cx, q, e.Loop, e})
				}
			case e.Kind == "go":
				c.Ob("C32", false, c.Where(e), "the function runs in one goroutine", "work in another one is not followed")
			}
		}
	}
	for _, p := range root.Paths {
		visit(&sctx{nil, p, nil, nil})
	}
	c.Ob("C32", len(sends) > 0, s.where, "matches are sent", "none are")
	for _, x := range sends {
		s.sent(x.e, x.i, x.cx)
	}
}

func isMmfSend(e *Event) bool {
	return e.Kind == "call" && strings.HasSuffix(e.Name, "MatchMakingFunctionService_RunServer).Send")
}

// request: the event receives the request.
func (s *sample) request(e *Event) bool {
	if e.Kind != "call" || e.Res == nil {
		return false
	}
	for _, f := range s.c.chunkReaders() {
		if e.Name == f.String() {
			return true
		}
	}
	return false
}

// ends: errors of the receive and of sends are returned.
func (s *sample) ends() {
	c := s.c
	for _, p := range s.root.Paths {
		if p.Kind != "return" {
			continue // a panic
		}
		got := false
		var failed *Event
		for _, e := range p.Events {
			if e.Kind == "loop" {
				continue
			}
			if !s.request(e) && !isMmfSend(e) {
				continue
			}
			i := -1
			if s.request(e) {
				i, got = 1, true
			}
			isNil, known := c.errNil(p.Facts, e, i)
			if failed != nil && isMmfSend(e) {
				c.Ob("C32", false, c.Where(e), "nothing is sent after an error", "a path goes on")
			}
			if !known {
				// returned as it is
				known = len(p.Ret) == 1 && mentionsErr(p.Ret[0], e, i)
				c.Ob("C32", known, c.Where(e), "the error is looked at", "a path does not depend on it")
				continue
			}
			if !isNil {
				failed = e
			}
		}
		if !got {
			c.Ob("C32", false, s.where, "the request is received with the function that reassembles it", "a path does not call it")
			continue
		}
		if failed != nil {
			i := -1
			if s.request(failed) {
				i = 1
			}
			c.Ob("C32", len(p.Ret) == 1 && mentionsErr(p.Ret[0], failed, i), c.Where(failed), "the error is returned", "the path returns "+tstr(p.Ret[0]))
		}
	}
	s.root.Walk(func(e *Event, at *At) {
		if !isMmfSend(e) || at.Up == nil {
			return
		}
		isNil, known := c.errNil(at.Path.Facts, e, -1)
		c.Ob("C32", known && isNil, c.Where(e), "the run only goes on after a match was sent", "a round goes on in spite of an error")
	})
}

func mentionsErr(t *Term, e *Event, i int) bool {
	found := false
	walkTerm(t, func(x *Term) {
		if i < 0 && x == e.Res || i >= 0 && x.Op == "res" && x.S == fmt.Sprint(i) && x.A[0] == e.Res {
			found = true
		}
	})
	return found
}

// open: the loop's current iteration encloses the position, the last partial
// one included.
func (s *sample) open(l *LoopSum, e *Event, cx *sctx) bool {
	for x := cx; x != nil; x = x.up {
		if x.l != nil && x.l.ID == l.ID {
			return true
		}
	}
	return e != nil && e.Site != nil && inLoop(e.Frame, e.Site, l)
}

// find resolves the loop of a phi from a position: the loop's summary, the
// event when it has ended there and the position of that event.
func (s *sample) find(t *Term, e *Event, cx *sctx) (l *LoopSum, ended *Event, at *sctx) {
	id := s2loop(t.S)
	for x := cx; x != nil; x = x.up {
		for i := len(x.path.Events) - 1; i >= 0; i-- {
			ev := x.path.Events[i]
			if ev.Kind != "loop" || ev.Loop.ID != id {
				continue
			}
			if e != nil && e.Site != nil && inLoop(e.Frame, e.Site, ev.Loop) {
				return ev.Loop, nil, x
			}
			return ev.Loop, ev, x
		}
		if x.l != nil && x.l.ID == id {
			return x.l, nil, x.up
		}
	}
	return nil, nil, nil
}

// ran lists the iteration paths that can have run when the loop has ended in
// the given valuation of its flags.
func ran(e *Event) []*Path {
	reach := map[int]bool{e.ExitV: true}
	for {
		n := len(reach)
		for _, q := range e.Loop.Iters {
			if reach[q.To] {
				reach[q.From] = true
			}
		}
		if len(reach) == n {
			break
		}
	}
	var out []*Path
	for _, q := range e.Loop.Iters {
		if reach[q.To] {
			out = append(out, q)
		}
	}
	return out
}

// ranOut: on the path the loop was left when nothing remained.
func ranOut(l *LoopSum, p *Path) (bool, string) {
	ok, why := runsOut(l)
	if !ok && l.Kind != "callback" && l.Cond != nil && hasLit(p.Facts, l.Cond, !l.Stay) {
		return true, ""
	}
	return ok, why
}

// count is the length of a list, as a linear combination of the lengths of
// lists that are being filled.
func (s *sample) count(t *Term, e *Event, cx *sctx, d int) (lin, string) {
	t = stripConv(t)
	if t == nil || d > 8 {
		return nil, "the list is not known"
	}
	switch t.Op {
	case "empty", "zero":
		return lin{}, ""
	case "const":
		if t.IsNil() {
			return lin{}, ""
		}
	case "seq", "append":
		out := lin{}
		es := t.A
		if t.Op == "append" {
			b, why := s.count(t.A[0], e, cx, d+1)
			if why != "" {
				return nil, why
			}
			out, es = out.add(b, 1), t.A[1:]
		}
		for _, x := range es {
			if x.Op != "spread" {
				out = out.add(lin{"": 1}, 1)
				continue
			}
			b, why := s.count(x.A[0], e, cx, d+1)
			if why != "" {
				return nil, why
			}
			out = out.add(b, 1)
		}
		return out, ""
	case "mkslice":
		return s.g.lin(t.A[0], 0), ""
	case "slice":
		lo := s.root.A.In.Int(0)
		if len(t.A) > 1 && t.A[1] != nil && t.A[1].Op != "none" {
			lo = t.A[1]
		}
		if len(t.A) < 3 || t.A[2] == nil || t.A[2].Op == "none" {
			return nil, "a slice without an end"
		}
		return s.g.lin(t.A[2], 0).add(s.g.lin(lo, 0), -1), ""
	case "phi", "memphi":
		l, ended, at := s.find(t, e, cx)
		if l == nil {
			return nil, "the loop that fills the list is not known"
		}
		if ended == nil {
			return lin{tstr(s.root.A.In.Len(t)): 1}, ""
		}
		if ok, why := ranOut(l, at.path); !ok {
			return nil, why
		}
		init, next := s.g.stepOf(l, t)
		if init == nil {
			return nil, "the list's start is not known"
		}
		out, why := s.count(init, nil, at, d+1)
		if why != "" {
			return nil, why
		}
		tr := trip(s.root.A.In, l)
		if tr == nil {
			return nil, "the number of rounds that fill the list is not known"
		}
		by := int64(-1)
		for _, q := range ran(ended) {
			v := next(q)
			n, why := s.count(v, nil, &sctx{at, q, l, ended}, d+1)
			if why != "" {
				return nil, why
			}
			k, ok := n.add(lin{tstr(s.root.A.In.Len(t)): 1}, -1).constant()
			if !ok || by >= 0 && k != by {
				return nil, "rounds add different numbers of entries"
			}
			by = k
		}
		if by < 0 {
			return out, ""
		}
		return out.add(s.g.lin(tr, 0), by), ""
	}
	return nil, "the length of " + tstr(t) + " is not known"
}

// bounded by: facts about a linear form. ge: x >= n, le: x <= n.
func (s *sample) atLeast(facts []Lit, x lin, n int64) bool {
	for _, f := range facts {
		if len(f.T.A) != 2 {
			continue
		}
		if q := stripConv(f.T.A[1]); f.T.Op == "lt" && f.Val && q.Op == "bin" && q.S == "/" {
			// a < b/m: m*(a+1) <= b
			if m, ok := q.A[1].ConstInt(); ok && m > 0 {
				d := s.g.lin(q.A[0], 0).add(s.g.lin(f.T.A[0], 0), -m)
				if k, ok := (lin{}).add(x, 1).add(d, -1).constant(); ok && m+k >= n {
					return true
				}
			}
		}
		d := s.g.lin(f.T.A[0], 0).add(s.g.lin(f.T.A[1], 0), -1) // a - b
		// x = sign*(a-b) + k
		for _, sign := range []int64{1, -1} {
			k, ok := lin{}.add(x, 1).add(d, -sign).constant()
			if !ok {
				continue
			}
			switch {
			case f.T.Op == "eq" && f.Val && k >= n:
				return true
			case f.T.Op == "lt" && !f.Val && sign == 1 && k >= n: // a-b >= 0
				return true
			case f.T.Op == "lt" && f.Val && sign == -1 && k+1 >= n: // b-a >= 1
				return true
			case f.T.Op == "le" && !f.Val && sign == 1 && k+1 >= n:
				return true
			case f.T.Op == "le" && f.Val && sign == -1 && k >= n:
				return true
			}
		}
	}
	return false
}

// full: the list has exactly the size.
func (s *sample) full(t *Term, e *Event, cx *sctx, facts []Lit) string {
	n, why := s.count(t, e, cx, 0)
	if why != "" {
		return why
	}
	if k, ok := n.constant(); ok {
		if k != s.size {
			return fmt.Sprintf("it has %d entries instead of %d", k, s.size)
		}
		if st := stripConv(t); st.Op == "slice" {
			// there must be that many
			end := s.g.lin(s.root.A.In.Len(st.A[0]), 0).add(s.g.lin(st.A[2], 0), -1)
			if !s.atLeast(facts, end, 0) {
				return "there may be less entries than that"
			}
		}
		return ""
	}
	neg := lin{}.add(n, -1)
	if s.atLeast(facts, n, s.size) && s.atLeast(facts, neg, -s.size) {
		return ""
	}
	if !s.atLeast(facts, n, s.size) {
		return fmt.Sprintf("it may have less than %d entries", s.size)
	}
	// at least the size, and before the last entry less
	phi := fillOf(t)
	if phi == nil {
		return "its length is not known"
	}
	l, ended, at := s.find(phi, e, cx)
	if l == nil || ended != nil {
		return "its length is not known"
	}
	c, ok := n.add(lin{tstr(s.root.A.In.Len(phi)): 1}, -1).constant()
	if !ok || c != 1 {
		return "more than one entry is added before its length is looked at"
	}
	init, next := s.g.stepOf(l, phi)
	b, why := s.count(init, nil, at, 0)
	if why != "" {
		return why
	}
	if k, ok := b.constant(); !ok || k >= s.size {
		return "it may be full at the start"
	}
	for _, q := range l.Iters {
		b, why := s.count(next(q), nil, &sctx{at, q, l, nil}, 0)
		if why != "" {
			return why
		}
		if k, ok := b.constant(); ok && k < s.size || s.atLeast(q.Facts, lin{}.add(b, -1), -s.size+1) {
			continue
		}
		if k, ok := b.add(lin{tstr(s.root.A.In.Len(phi)): 1}, -1).constant(); ok && k <= 0 {
			continue
		}
		return "it can grow beyond its size"
	}
	return ""
}

// fillOf is the list being filled that t extends.
func fillOf(t *Term) *Term {
	t = stripConv(t)
	for t != nil && t.Op == "append" {
		t = stripConv(t.A[0])
	}
	if t != nil && (t.Op == "phi" || t.Op == "memphi") {
		return t
	}
	return nil
}

// sent checks one Send.
func (s *sample) sent(e *Event, i int, cx *sctx) {
	c := s.c
	w := c.Where(e)
	facts := cx.path.Facts
	msg := stripConv(e.Args[len(e.Args)-1])
	match := stripConv(s.root.fieldOf(e.Mem, msg, "Match"))
	rm := stripConv(s.root.fieldOf(e.Mem, match, "Rosters"))
	if rm == nil || rm.Op != "mkmap" {
		c.Ob("C32", false, w, "the rosters of the match are known", tstr(rm))
		return
	}
	// the loop the match is made in
	in := cx.l
	for k := i - 1; k >= 0 && cx.l == nil; k-- {
		if x := cx.path.Events[k]; x.Kind == "loop" && inLoop(e.Frame, e.Site, x.Loop) {
			in = x.Loop
			break
		}
	}
	own := func(t *Term, what string) {
		if in == nil {
			return
		}
		ok := t != nil && (t.IsNil() || t.Op == "zero" || s.root.A.allocatedIn(t, in.Frame, in.Frame.loops[in.Header]))
		c.Ob("C32", ok, w, "the "+what+" of a match is its own", "it is kept from match to match: "+tstr(t))
	}
	own(msg, "message")
	own(match, "match")
	own(rm, "map of rosters")

	// the rosters put into the map before
	type put struct {
		e  *Event
		cx *sctx
	}
	var puts []put
	n := lin{}
	bad := ""
	var collect func(es []*Event, cx *sctx, times lin)
	collect = func(es []*Event, cx *sctx, times lin) {
		for _, x := range es {
			switch {
			case x.Kind == "mapset" && x.Args[0] == rm:
				puts = append(puts, put{x, cx})
				n = n.add(times, 1)
				if cx.l != nil && cx.l != in && !cx.l.fixedBy(x.Args[1]) {
					bad = "rosters of one match may have the same name"
				}
			case (x.Kind == "mapdel" || x.Kind == "clear") && x.Args[0] == rm:
				bad = "rosters are removed"
			case x.Kind == "loop":
				if in != nil && x.Loop.ID == in.ID {
					continue // other matches
				}
				tr := trip(s.root.A.In, x.Loop)
				adm := ran(x)
				for j, q := range adm {
					has := 0
					eachEvent(q, func(y *Event, _ []IterAt) {
						if y.Kind == "mapset" && y.Args[0] == rm {
							has++
						}
					})
					if has == 0 {
						if j > 0 && len(puts) > 0 && puts[len(puts)-1].cx.l == x.Loop {
							bad = "only some rounds add a roster"
						}
						continue
					}
					if j > 0 {
						// another path of the same rounds
						save := n
						collect(q.Events, &sctx{cx, q, x.Loop, x}, lin{})
						n = save
						continue
					}
					if ok, why := ranOut(x.Loop, cx.path); !ok {
						bad = why
					}
					k := int64(0)
					if tr != nil {
						k, _ = s.g.lin(tr, 0).constant()
					}
					if k == 0 {
						bad = "the number of rosters is not known"
					}
					m, _ := times.constant()
					collect(q.Events, &sctx{cx, q, x.Loop, x}, lin{"": m * k})
				}
			}
		}
	}
	collect(cx.path.Events[:i], cx, lin{"": 1})
	k, isC := n.constant()
	c.Ob("C32", bad == "" && isC && k == s.rosters, w, fmt.Sprintf("a match has %d roster(s)", s.rosters), fmt.Sprintf("%v %s", n, bad))
	direct := map[*Term]bool{}
	lists := map[*Term]bool{}
	for _, p := range puts {
		if p.cx == cx {
			c.Ob("C32", !direct[p.e.Args[1]], c.Where(p.e), "the rosters of a match have different names", tstr(p.e.Args[1]))
			direct[p.e.Args[1]] = true
		}
		r := stripConv(p.e.Args[2])
		own(r, "roster")
		mem, fx := e.Mem, facts
		ev := e
		if p.cx != cx {
			mem, fx, ev = p.cx.path.Mem, p.cx.path.Facts, nil
			// made anew for each of them
			ok := s.root.A.allocatedIn(r, p.cx.l.Frame, p.cx.l.Frame.loops[p.cx.l.Header])
			c.Ob("C32", ok, c.Where(p.e), "each roster of a match is its own", "it is made outside of the loop")
		}
		t := s.root.fieldOf(mem, r, "Tickets")
		why := s.full(t, ev, p.cx, fx)
		c.Ob("C32", why == "", w, "the rosters of a match are full", why)
		c.Ob("C32", !lists[t] || p.cx != cx, w, "the rosters of a match do not share their tickets", tstr(t))
		lists[t] = true
		s.unique(t, ev, p.cx, in)
	}
	// afterwards nothing changes what was sent
	sent := map[*Term]bool{msg: true, match: true, rm: true}
	for _, p := range puts {
		sent[stripConv(p.e.Args[2])] = true
	}
	for o := range sent {
		was, is := map[string]*Term{}, map[string]*Term{}
		fields := func(m *Mem, to map[string]*Term) {
			for a, v := range m.m {
				if a.Op == "fieldaddr" && a.A[0] == o {
					to[a.S] = v
				}
			}
		}
		fields(e.Mem, was)
		fields(cx.path.Mem, is)
		for n, v := range is {
			c.Ob("C32", was[n] == v || o.Op == "mkmap", w, "what was sent is left alone", n+" of "+tstr(o)+" is changed later")
		}
	}
	for _, x := range cx.path.Events[i+1:] {
		bad := false
		switch x.Kind {
		case "mapset", "mapdel", "clear":
			bad = sent[x.Args[0]]
		case "store":
			a := x.Args[0]
			for a != nil && (a.Op == "fieldaddr" || a.Op == "indexaddr") {
				a = a.A[0]
				bad = bad || sent[a]
			}
		case "call":
			if isMmfSend(x) {
				m := stripConv(s.root.fieldOf(x.Mem, x.Args[len(x.Args)-1], "Match"))
				bad = m == match || stripConv(s.root.fieldOf(x.Mem, m, "Rosters")) == rm
			}
		}
		c.Ob("C32", !bad, c.Where(x), "a match is not changed or sent again after it was sent", x.Kind)
	}
}

// fixedBy: the key differs from round to round.
func (l *LoopSum) fixedBy(key *Term) bool {
	found := false
	walkTerm(key, func(t *Term) {
		if (t.Op == "idx" || t.Op == "key" || t.Op == "elem") && s2loop(t.S) == l.ID {
			found = true
		}
		if t.Op == "phi" && s2loop(t.S) == l.ID {
			found = true
		}
	})
	return found
}

// suse is a use of an entry of a list: n entries from a position.
type suse struct {
	src, pos *Term
	n        int64
	e        *Event
	cx       *sctx
	guard    bool
}

// unique checks that the entries of a list that is sent are entries of pools,
// none of them used twice in a run.
func (s *sample) unique(t *Term, e *Event, cx *sctx, in *LoopSum) {
	c := s.c
	var uses []suse
	why := ""
	seen := map[string]bool{}
	// base is where lists start from: it must be new for each match
	fresh := func(t *Term, l *LoopSum) {
		if l == nil || t.IsNil() || t.Op == "zero" || t.Op == "seq" {
			return
		}
		o := t
		if (t.Op == "empty" || t.Op == "sliceof") && len(t.A) > 0 {
			o = t.A[0]
		}
		if !s.root.A.allocatedIn(o, l.Frame, l.Frame.loops[l.Header]) {
			why = "a roster that was sent is filled again: " + tstr(t)
		}
	}
	// top: the list itself, not one it takes its entries from
	var walk func(t *Term, e *Event, cx *sctx, keep *LoopSum, d int)
	walk = func(t *Term, e *Event, cx *sctx, keep *LoopSum, d int) {
		t = stripConv(t)
		if t == nil || d > 12 {
			why = "a list is not known"
			return
		}
		switch t.Op {
		case "empty", "zero", "mkslice", "sliceof":
			fresh(t, keep)
		case "const":
		case "append", "seq":
			es := t.A
			if t.Op == "append" {
				walk(t.A[0], e, cx, keep, d+1)
				es = t.A[1:]
			}
			for _, x := range es {
				if x.Op == "spread" {
					y := stripConv(x.A[0])
					switch {
					case y.Op == "slice":
						lo, hi := s.bounds(y)
						n, ok := s.g.lin(hi, 0).add(s.g.lin(lo, 0), -1).constant()
						if !ok {
							why = "the length of a part is not known"
						}
						uses = append(uses, suse{y.A[0], lo, n, e, cx, true})
					default:
						uses = append(uses, suse{y, nil, -1, e, cx, true})
					}
					continue
				}
				switch {
				case x.Op == "elem":
					uses = append(uses, suse{x.A[0], nil, 1, e, cx, true})
				case x.Op == "index":
					uses = append(uses, suse{x.A[0], x.A[1], 1, e, cx, false})
				default:
					why = "an entry is not one of a pool: " + tstr(x)
				}
			}
		case "slice":
			lo, hi := s.bounds(t)
			if hi == nil {
				why = "a part without an end"
				return
			}
			n, ok := s.g.lin(hi, 0).add(s.g.lin(lo, 0), -1).constant()
			if !ok {
				why = "the length of a part is not known"
			}
			uses = append(uses, suse{t.A[0], lo, n, e, cx, true})
		case "phi", "memphi":
			l, ended, at := s.find(t, e, cx)
			if l == nil {
				why = "a list is not known: " + tstr(t)
				return
			}
			k := fmt.Sprintf("%p %s", l, t.key)
			if seen[k] {
				return
			}
			seen[k] = true
			init, next := s.g.stepOf(l, t)
			if init == nil {
				why = "a list's start is not known"
				return
			}
			paths := l.Iters
			if ended != nil {
				paths = ran(ended)
				walk(init, nil, at, keep, d+1)
			} else {
				// filled across rounds: new at the start and after a match was sent
				walk(init, nil, at, nil, d+1)
			}
			for _, q := range paths {
				v := stripConv(next(q))
				if v == t {
					sentHere := false
					for _, x := range q.Events {
						sentHere = sentHere || isMmfSend(x)
					}
					if ended == nil && sentHere {
						why = "a roster that was sent is kept for the next match"
					}
					continue
				}
				qc := &sctx{at, q, l, ended}
				if ended == nil {
					sends := false
					for _, x := range q.Events {
						sends = sends || isMmfSend(x)
					}
					if sends {
						b := v
						for b.Op == "append" {
							b = stripConv(b.A[0])
						}
						if b == t || b.Op == "phi" || b.Op == "memphi" || b.Op == "slice" {
							why = "a roster that was sent is kept for the next match"
						} else {
							fresh(b, l)
						}
						if v.Op == "append" {
							walk(v, nil, qc, nil, d+1)
						}
						continue
					}
				}
				walk(v, nil, qc, nil, d+1)
			}
		default:
			why = "a list is not known: " + tstr(t)
		}
	}
	walk(t, e, cx, in, 0)
	w := s.where
	c.Ob("C32", why == "", w, "rosters are filled with entries of the pools", why)
	c.Ob("C32", len(uses) > 0, w, "rosters are filled", "no entry is put into them")
	for i, u := range uses {
		why := s.once(u)
		if why == "" && u.pos != nil {
			// other uses of the same list on the same path
			for j, v := range uses {
				if i == j || v.src != u.src || v.pos == nil || v.cx.path != u.cx.path {
					continue
				}
				k, ok := s.g.lin(v.pos, 0).add(s.g.lin(u.pos, 0), -1).constant()
				if !ok || k < u.n && -k < v.n {
					why = "two entries may be the same"
				}
			}
		} else if why == "" {
			for j, v := range uses {
				if i < j && v.src == u.src && v.cx.path == u.cx.path && v.pos == nil {
					why = "an entry is put in twice"
				}
			}
		}
		c.Ob("C32", why == "", w, "each pool entry is used at most once", why+" ("+tstr(u.src)+")")
	}
}

func (s *sample) bounds(t *Term) (lo, hi *Term) {
	lo = s.root.A.In.Int(0)
	if len(t.A) > 1 && t.A[1] != nil && t.A[1].Op != "none" {
		lo = t.A[1]
	}
	if len(t.A) > 2 && t.A[2] != nil && t.A[2].Op != "none" {
		hi = t.A[2]
	}
	return
}

// pool: the list is the tickets of one of the pools that were sent.
func (s *sample) pool(t *Term) (is bool, by *Term) {
	t = stripConv(t)
	if t == nil || t.Op != "field" || t.S != "Tickets" || t.A[0].Op != "field" || t.A[0].S != "Participants" {
		return false, nil
	}
	p := stripConv(t.A[0].A[0])
	var pools *Term
	switch p.Op {
	case "elem":
		pools, by = p.A[0], p
	case "lookup":
		pools, by = p.A[0], p.A[1]
	default:
		return false, nil
	}
	return pools.Op == "field" && pools.S == "Pools" && pools.A[0].Op == "res" && pools.A[0].S == "0", by
}

// once: the entry used is not used again in the run.
func (s *sample) once(u suse) string {
	src := stripConv(u.src)
	isPool, by := s.pool(src)
	// loops around the use, innermost first
	var loops []*sctx
	for x := u.cx; x != nil; x = x.up {
		if x.l != nil {
			loops = append(loops, x)
		}
	}
	if u.e != nil && u.cx.l == nil {
		// in the last, partial rounds
		for _, x := range u.cx.path.Events {
			if x.Kind == "loop" && x.Loop != nil && u.e.Site != nil && inLoop(u.e.Frame, u.e.Site, x.Loop) {
				loops = append([]*sctx{{u.cx, nil, x.Loop, nil}}, loops...)
			}
		}
	}
	// varies: the list differs from round to round of l
	varies := func(l *LoopSum) bool {
		if by == nil {
			return false
		}
		return (by.Op == "elem" || by.Op == "key") && s2loop(by.S) == l.ID && l.Kind == "map"
	}
	if u.n < 0 {
		// all entries of the list at once
		if !isPool {
			return "a list is copied"
		}
		for _, x := range loops {
			if !varies(x.l) {
				return "a pool is copied again and again"
			}
		}
		return ""
	}
	if u.pos == nil {
		// an element of a loop over the list
		if len(loops) == 0 {
			return "the loop is not known"
		}
		l := loops[0].l
		if stripConv(l.Coll) != src || l.Kind != "slice" {
			// taken from an outer loop's element
			return "the entry is taken from another loop"
		}
		for _, x := range loops[1:] {
			if !varies(x.l) {
				return "the list is gone through again and again"
			}
		}
	} else {
		p := s.g.lin(u.pos, 0)
		// within the list
		if !u.guard {
			rest := s.g.lin(s.root.A.In.Len(src), 0).add(p, -1)
			if !s.atLeast(u.cx.path.Facts, rest, 1) {
				return "the position may be beyond the end of the list"
			}
		}
		why := s.cursor(u, p, loops, varies)
		if why != "" {
			return why
		}
	}
	if isPool {
		return ""
	}
	// a list collected before
	return s.collected(src, u.cx, 0)
}

// cursor: the position moves on by at least the entries used.
func (s *sample) cursor(u suse, p lin, loops []*sctx, varies func(*LoopSum) bool) string {
	pos, off := linear(stripConv(u.pos))
	pos = stripConv(pos)
	if pos.Op == "lookup" {
		// a map of cursors
		m, key := pos.A[0], pos.A[1]
		if m.Op != "mkmap" {
			return "the cursor is not known"
		}
		_, by := s.pool(stripConv(u.src))
		if by != key {
			return "the cursor is not that of the list"
		}
		for _, x := range loops {
			if s.root.A.allocatedIn(m, x.l.Frame, x.l.Frame.loops[x.l.Header]) {
				return "the cursors start again"
			}
		}
		moved := false
		for _, st := range s.sets {
			if st.e.Args[0] != m {
				continue
			}
			shared := false
			for x := st.cx; x != nil; x = x.up {
				for _, y := range loops {
					if x.l != nil && x.l.ID == y.l.ID {
						shared = true
					}
				}
			}
			b, k := linear(stripConv(st.e.Args[2]))
			b = stripConv(b)
			own := b.Op == "lookup" && b.A[0] == m && b.A[1] == st.e.Args[1]
			if own && k >= 0 {
				if st.cx.path == u.cx.path && st.e.Args[1] == key && k >= off+u.n {
					moved = true
				}
				continue
			}
			if shared {
				return "a cursor is set back"
			}
		}
		if !moved {
			return "the cursor does not move on with the entry"
		}
		return ""
	}
	// a counter of a loop
	for i, x := range loops {
		l := x.l
		var stride int64
		switch {
		case (pos.Op == "phi" || pos.Op == "memphi") && s2loop(pos.S) == l.ID:
			init, next := s.g.stepOf(l, pos)
			if init == nil {
				return "the cursor is not known"
			}
			first := true
			for _, q := range l.Iters {
				b, k := linear(stripConv(next(q)))
				if stripConv(b) != pos || k < 0 {
					return "the cursor can move back"
				}
				uses := q == u.cx.path || contains(q, u.cx, l)
				if !uses {
					continue
				}
				if first || k < stride {
					stride = k
				}
				first = false
			}
			if first {
				stride = off + u.n // used in the round that ends the loop
			}
			if off < 0 || stride < off+u.n {
				return fmt.Sprintf("the cursor moves on by %d for %d entries", stride, off+u.n)
			}
			// started once
			for _, y := range loops[i+1:] {
				if varies(y.l) {
					continue
				}
				b, k := linear(stripConv(init))
				if k < 0 || !(b.Op == "phi" || b.Op == "memphi") || s2loop(b.S) != y.l.ID {
					return "the cursor starts again"
				}
				i2, n2 := s.g.stepOf(y.l, b)
				if i2 == nil {
					return "the cursor is not known"
				}
				for _, q := range y.l.Iters {
					e, k := linear(stripConv(n2(q)))
					if k < 0 || e != pos && e != b {
						return "the cursor starts again"
					}
					if e == b && contains(q, u.cx, y.l) {
						return "the cursor starts again"
					}
				}
				init, pos = i2, b
			}
			return ""
		}
	}
	// a multiple of the number of rounds
	for i, x := range loops {
		k := p[kOf(x.l)]
		if k == 0 {
			continue
		}
		if len(p) > 2 || len(p) == 2 && p[""] == 0 {
			return "the position is not a multiple of one counter"
		}
		if k < u.n {
			return fmt.Sprintf("the position moves on by %d for %d entries", k, u.n)
		}
		for _, y := range loops[i+1:] {
			if !varies(y.l) {
				return "the position starts again"
			}
		}
		for _, y := range loops[:i] {
			_ = y
			return "the position does not move on"
		}
		return ""
	}
	return "the position does not move on: " + tstr(u.pos)
}

// contains: the iteration q of loop l holds the position.
func contains(q *Path, cx *sctx, l *LoopSum) bool {
	for x := cx; x != nil; x = x.up {
		if x.l != nil && x.l.ID == l.ID && x.path == q {
			return true
		}
	}
	return false
}

// collected: a local list holds each pool entry at most once, and is not
// filled any more.
func (s *sample) collected(t *Term, cx *sctx, d int) string {
	if d > 3 {
		return "the list is not known"
	}
	t = stripConv(t)
	if ok, _ := s.pool(t); ok {
		return ""
	}
	var uses []suse
	why := ""
	seen := map[string]bool{}
	var walk func(t *Term, cx *sctx, d int)
	walk = func(t *Term, cx *sctx, d int) {
		t = stripConv(t)
		if t == nil || d > 10 {
			why = "the list is not known"
			return
		}
		switch t.Op {
		case "empty", "zero", "const", "sliceof":
			if t.Op == "sliceof" && len(s.root.A.elems(&State{mem: cx.path.Mem}, t)) > 0 {
				why = "the list does not start empty"
			}
		case "append":
			walk(t.A[0], cx, d+1)
			for _, x := range t.A[1:] {
				switch {
				case x.Op == "elem":
					uses = append(uses, suse{x.A[0], nil, 1, nil, cx, true})
				case x.Op == "spread":
					uses = append(uses, suse{x.A[0], nil, -1, nil, cx, true})
				case x.Op == "index":
					uses = append(uses, suse{x.A[0], x.A[1], 1, nil, cx, false})
				default:
					why = "an entry is not one of a pool: " + tstr(x)
				}
			}
		case "phi", "memphi":
			l, ended, at := s.find(t, nil, cx)
			if l == nil {
				why = "the list is not known"
				return
			}
			k := fmt.Sprintf("%p %s", l, t.key)
			if seen[k] {
				return
			}
			seen[k] = true
			init, next := s.g.stepOf(l, t)
			if init == nil {
				why = "the list's start is not known"
				return
			}
			walk(init, at, d+1)
			for _, q := range l.Iters {
				if v := next(q); stripConv(v) != t {
					walk(v, &sctx{at, q, l, ended}, d+1)
				}
			}
		default:
			why = "the list is not known: " + tstr(t)
		}
	}
	walk(t, cx, 0)
	if why != "" {
		return why
	}
	for i, u := range uses {
		if w := s.once(u); w != "" {
			return w
		}
		for j, v := range uses {
			if i < j && u.src == v.src && u.cx.path == v.cx.path {
				return "an entry is collected twice"
			}
		}
	}
	return ""
}
