package main

import (
	"go/types"
	"strings"
)

// Error propagation: something happens in an iteration of some loop (a failed
// reply, an invalid id). Which collections, counters and error variables are
// then certainly non-empty, positive or non-nil, and what can the function
// still return?

// Trigger tells of an abstract trace whether the happening is possible on it
// (may) and whether the trace implies it (must).
type Trigger func(p *Path) (may, must bool)

// A Case is one place on a path where the happening can take place.
type Case struct {
	Loop *LoopSum // nil: on the path itself
	at   int
}

type raiser struct {
	r       *Root
	g       *Gens
	trig    Trigger
	deep    int
	filling map[*Term]bool // being judged
}

func (r *Root) raiser(g *Gens, t Trigger) *raiser { return &raiser{r: r, g: g, trig: t} }

// mayIn: the happening is possible in the trace or a loop inside it.
func (z *raiser) mayIn(p *Path) bool {
	if may, _ := z.trig(p); may {
		return true
	}
	for _, e := range p.Events {
		if e.Kind == "loop" {
			for _, it := range e.Loop.Iters {
				if z.mayIn(it) {
					return true
				}
			}
		}
	}
	return false
}

func (z *raiser) cases(p *Path) []Case {
	var out []Case
	if may, _ := z.trig(p); may {
		out = append(out, Case{nil, -1})
	}
	for i, e := range p.Events {
		if e.Kind != "loop" {
			continue
		}
		for _, it := range e.Loop.Iters {
			if z.mayIn(it) {
				out = append(out, Case{e.Loop, i})
				break
			}
		}
	}
	return out
}

type raisedSet map[*Term]bool

func (k raisedSet) clone() raisedSet {
	n := raisedSet{}
	for a, b := range k {
		n[a] = b
	}
	return n
}

// up: the value is certainly non-nil, non-empty, positive or true.
func (z *raiser) up(k raisedSet, facts []Lit, t *Term) bool {
	if t == nil {
		return false
	}
	t = stripConv(t)
	if k[t] {
		return true
	}
	if v, ok := t.ConstBool(); ok {
		return v
	}
	if n, ok := t.ConstInt(); ok {
		return n > 0
	}
	if _, ok := t.ConstStr(); ok {
		return false
	}
	if facts != nil && t.Typ != nil && typeStr(t.Typ) == "error" {
		if v, known := evalFacts(facts, z.r.A.In.Eq(t, z.r.A.In.Nil())); known && !v {
			return true
		}
	}
	switch t.Op {
	case "res":
		// no data without an error
		if t.S == "1" && t.A[0].Op == "app" && strings.HasSuffix(t.A[0].S, "proto.Marshal") {
			for _, f := range facts {
				if f.Val && f.T.Op == "eq" && f.T.A[1].IsNil() && f.T.A[0].Op == "marshal" && f.T.A[0].A[0] == t.A[0].A[0] {
					return true
				}
			}
		}
	case "append":
		for _, e := range t.A[1:] {
			if e.Op != "spread" {
				return true
			}
			if z.up(k, facts, e.A[0]) {
				return true
			}
		}
		return z.up(k, facts, t.A[0])
	case "len":
		return z.up(k, facts, t.A[0])
	case "bin":
		if t.S == "+" {
			return z.up(k, facts, t.A[0]) && z.nonNeg(t.A[1]) || z.up(k, facts, t.A[1]) && z.nonNeg(t.A[0])
		}
	case "app":
		switch {
		case strings.HasSuffix(t.S, "status.Status).Err") || strings.HasSuffix(t.S, "status.Convert"):
			return z.badStatus(k, facts, t.A[0])
		case strings.HasSuffix(t.S, "errors.Join"):
			for _, a := range flatArgs(t.A) {
				if a.Op == "spread" {
					a = a.A[0]
				}
				if z.up(k, facts, a) {
					return true
				}
			}
			return false
		case strings.HasPrefix(t.S, "github.com/pkg/errors.W"):
			return z.up(k, facts, t.A[0])
		case t.S == "google.golang.org/grpc/status.Error" || t.S == "google.golang.org/grpc/status.Errorf":
			n, ok := t.A[0].ConstInt()
			return ok && n != 0
		}
	case "mkmap", "mkslice", "mkchan", "sliceof", "seq", "mapval":
		// collections: not empty
		return t.Op == "seq" && len(t.A) > 0
	}
	return nonNil(t)
}

func flatArgs(as []*Term) []*Term {
	var out []*Term
	for _, a := range as {
		if a.Op == "seq" {
			out = append(out, a.A...)
		} else {
			out = append(out, a)
		}
	}
	return out
}

func (z *raiser) nonNeg(t *Term) bool {
	t = stripConv(t)
	if n, ok := t.ConstInt(); ok {
		return n >= 0
	}
	return isLen(t) || t.Op == "idx" || t.Op == "phi" || t.Op == "memphi"
}

// badStatus: the status has an error code.
func (z *raiser) badStatus(k raisedSet, facts []Lit, t *Term) bool {
	if k[t] {
		return true
	}
	switch {
	case t.Op == "app" && (strings.HasSuffix(t.S, "status.New") || strings.HasSuffix(t.S, "status.Newf")):
		n, ok := t.A[0].ConstInt()
		return ok && n != 0
	case t.Op == "res" && t.S == "0" && t.A[0].Op == "app" && strings.HasSuffix(t.A[0].S, "WithDetails"):
		// nil when the details cannot be encoded
		err := z.r.A.In.mk("res", "1", nil, nil, t.A[0])
		for _, f := range facts {
			if f.Val && f.T.Op == "eq" && f.T.A[1].IsNil() && f.T.A[0].Op == "res" && f.T.A[0].S == "1" && f.T.A[0].A[0] == t.A[0] {
				return z.badStatus(k, facts, t.A[0].A[0])
			}
		}
		_ = err
		return false
	}
	return false
}

// accumulators of a loop: registers and memory cells carried around it.
func (z *raiser) accs(l *LoopSum) []*Term {
	var out []*Term
	for _, p := range l.Phis {
		if t := l.PhiT[p]; t != nil && (t.Op == "phi" || t.Op == "idx") {
			out = append(out, t)
		}
	}
	for _, m := range l.MemPhi {
		if m.T != nil {
			out = append(out, m.T)
		}
	}
	return out
}

// mapsSet: local maps that get an entry on the trace (inner loops not counted).
func mapsSet(p *Path) []*Term {
	var out []*Term
	for _, e := range p.Events {
		if e.Kind == "mapset" && e.Args[0].Op == "mkmap" {
			out = append(out, e.Args[0])
		}
	}
	return out
}

// run follows a trace and returns what is raised at its end, given that the
// happening takes place in case c (nil: nothing happens on this trace).
func (z *raiser) run(p *Path, k0 raisedSet, c *Case) raisedSet {
	k := k0.clone()
	for i, e := range p.Events {
		switch e.Kind {
		case "mapset":
			if e.Args[0].Op == "mkmap" {
				k[e.Args[0]] = true
			}
		case "mapdel", "clear":
			delete(k, e.Args[0])
		case "loop":
			z.loop(e.Loop, k, c != nil && c.Loop == e.Loop && c.at == i)
		}
	}
	return k
}

// loop adds what is raised after the loop.
func (z *raiser) loop(l *LoopSum, k raisedSet, here bool) {
	// does an iteration certainly run?
	ran := here
	all := !here
	if !here {
		switch l.Kind {
		case "slice", "map":
			ran = l.Coll != nil && z.up(k, nil, l.Coll)
		case "count":
			s, ok := int64(0), true
			if l.Start != nil {
				s, ok = l.Start.ConstInt()
			}
			ran = ok && s == 0 && l.Bound != nil && z.up(k, nil, l.Bound)
		}
	}
	deleted := map[*Term]bool{}
	for _, it := range l.Iters {
		eachEvent(it, func(e *Event, _ []IterAt) {
			if e.Kind == "mapdel" || e.Kind == "clear" {
				deleted[e.Args[0]] = true
			}
		})
	}
	raises := func(it *Path, base raisedSet, t *Term, next func(*Path) *Term, cs []Case) bool {
		one := func(c *Case) bool {
			kk := z.run(it, base, c)
			if next == nil {
				return kk[t]
			}
			return z.up(kk, it.Facts, next(it))
		}
		if len(cs) == 0 {
			return one(nil)
		}
		for i := range cs {
			if !one(&cs[i]) {
				return false
			}
		}
		return true
	}
	type acc struct {
		t    *Term
		next func(*Path) *Term
	}
	var as []acc
	for _, t := range z.accs(l) {
		ll, init, next := z.g.step(t)
		if ll == nil || init == nil {
			continue
		}
		if z.up(k, nil, init) {
			// stays raised when every iteration keeps it
			kk := k.clone()
			kk[t] = true
			keep := true
			for _, it := range l.Iters {
				if !raises(it, kk, t, next, nil) {
					keep = false
				}
			}
			if keep {
				k[t] = true
				continue
			}
		}
		as = append(as, acc{t, next})
	}
	seen := map[*Term]bool{}
	for _, it := range l.Iters {
		eachEvent(it, func(e *Event, _ []IterAt) {
			if e.Kind == "mapset" && e.Args[0].Op == "mkmap" && !seen[e.Args[0]] {
				seen[e.Args[0]] = true
				if !k[e.Args[0]] {
					as = append(as, acc{e.Args[0], nil})
				}
			}
		})
	}
	for m := range deleted {
		delete(k, m)
	}
	if !ran {
		return
	}
	for _, a := range as {
		if deleted[a.t] {
			continue
		}
		ok := true
		n := 0
		for _, it := range l.Iters {
			cs := z.cases(it)
			if all || here && len(cs) > 0 {
				n++
				if !all && !raises(it, k, a.t, a.next, cs) || all && !raises(it, k, a.t, a.next, nil) {
					ok = false
				}
			}
			// once raised it stays raised
			kk := k.clone()
			kk[a.t] = true
			if !raises(it, kk, a.t, a.next, nil) {
				ok = false
			}
		}
		if ok && n > 0 {
			k[a.t] = true
		}
	}
}

// contradicts: a fact of the path cannot hold with what is raised.
func (z *raiser) contradicts(k raisedSet, facts []Lit) bool {
	for _, f := range facts {
		t := f.T
		var v, known bool
		switch t.Op {
		case "eq":
			a, b := t.A[0], t.A[1]
			if b.IsNil() {
				known, v = z.up(k, nil, a), false
			} else if n, ok := b.ConstInt(); ok && n == 0 {
				known, v = z.up(k, nil, a), false
			}
		case "lt":
			if n, ok := t.A[0].ConstInt(); ok && n <= 0 {
				known, v = z.up(k, nil, t.A[1]), true
			} else if n, ok := t.A[1].ConstInt(); ok && n == 1 {
				known, v = z.up(k, nil, t.A[0]), false
			}
		case "phi", "memphi":
			known, v = k[t], true
		}
		if known && v != f.Val {
			return true
		}
	}
	return false
}

// fails checks that the function returns an error on path p whenever the
// happening takes place in case c ("" = yes).
func (z *raiser) fails(p *Path, c Case, ri int) string {
	k := z.run(p, raisedSet{}, &c)
	if z.contradicts(k, p.Facts) || p.Kind != "return" {
		return ""
	}
	if ri < len(p.Ret) && z.up(k, p.Facts, p.Ret[ri]) {
		return ""
	}
	if ri >= len(p.Ret) {
		return "nothing is returned"
	}
	return "the returned error can be " + tstr(p.Ret[ri])
}

// ---- nothing happens ----

// low: the value when the happening never takes place: nil, empty, zero or
// false.
func (z *raiser) low(p *Path, t *Term) bool {
	if t == nil {
		return false
	}
	t = stripConv(t)
	if isZeroVal(t) {
		return true
	}
	if z.deep > 12 {
		return false
	}
	z.deep++
	defer func() { z.deep-- }()
	switch t.Op {
	case "mkmap":
		if z.filling[t] {
			return false
		}
		if z.filling == nil {
			z.filling = map[*Term]bool{}
		}
		z.filling[t] = true
		defer delete(z.filling, t)
		empty := true
		z.allowed(p, func(q *Path) {
			for _, e := range q.Events {
				if e.Kind == "mapset" && e.Args[0] == t {
					empty = false
				}
			}
		})
		return empty
	case "sliceof":
		// a literal: how many elements?
		if a, ok := deref(t.A[0].Typ).Underlying().(*types.Array); t.A[0].Typ != nil && ok {
			return a.Len() == 0
		}
	case "len":
		return z.low(p, t.A[0])
	case "mkslice":
		return len(t.A) > 0 && z.low(p, t.A[0])
	case "join":
		for _, x := range t.A {
			if !z.low(p, x) {
				return false
			}
		}
		return true
	case "phi", "memphi":
		l, init, next := z.g.step(t)
		if l == nil || init == nil || !z.low(p, init) {
			return false
		}
		if l.Coll != nil && (l.Kind == "slice" || l.Kind == "map") && l.Coll != t && z.low(p, l.Coll) {
			return true
		}
		for _, it := range l.Iters {
			if !z.can(it) {
				continue
			}
			v := next(it)
			if v != t && !z.low(it, v) {
				return false
			}
		}
		return true
	case "app":
		switch {
		case strings.HasSuffix(t.S, "status.Status).Err"):
			s := t.A[0]
			if s.Op == "app" && (strings.HasSuffix(s.S, "status.New") || strings.HasSuffix(s.S, "status.Newf")) {
				n, ok := s.A[0].ConstInt()
				return ok && n == 0
			}
			return s.IsNil()
		case strings.HasSuffix(t.S, "errors.Join"):
			for _, a := range flatArgs(t.A) {
				if a.Op == "spread" {
					a = a.A[0]
				}
				if !z.low(p, a) {
					return false
				}
			}
			return true
		case strings.HasPrefix(t.S, "github.com/pkg/errors.W"):
			return z.low(p, t.A[0])
		}
	}
	for _, f := range p.Facts {
		if f.Val && f.T.Op == "eq" && f.T.A[1].IsNil() && f.T.A[0] == t {
			return true
		}
	}
	return false
}

// can: the trace does not imply the happening.
func (z *raiser) can(p *Path) bool {
	_, must := z.trig(p)
	return !must
}

// allowed visits the parts of a trace that can run when nothing happens.
func (z *raiser) allowed(p *Path, f func(*Path)) {
	f(p)
	for _, e := range p.Events {
		if e.Kind != "loop" {
			continue
		}
		if e.Loop.Coll != nil && (e.Loop.Kind == "slice" || e.Loop.Kind == "map") && isLocal(e.Loop.Coll) && z.low(p, e.Loop.Coll) {
			continue
		}
		for _, it := range e.Loop.Iters {
			if z.can(it) {
				z.allowed(it, f)
			}
		}
	}
}

// succeeds checks that path p returns no error when nothing happens.
func (z *raiser) succeeds(p *Path, ri int) string {
	if !z.can(p) || p.Kind != "return" {
		return ""
	}
	for _, f := range p.Facts {
		t := f.T
		switch t.Op {
		case "eq":
			n, isN := t.A[1].ConstInt()
			if (t.A[1].IsNil() || isN && n == 0) && !f.Val && z.low(p, t.A[0]) {
				return ""
			}
		case "lt":
			if n, ok := t.A[0].ConstInt(); ok && n >= 0 && f.Val && z.low(p, t.A[1]) {
				return ""
			}
		case "phi", "memphi":
			if f.Val && z.low(p, t) {
				return ""
			}
		}
	}
	if ri < len(p.Ret) && z.low(p, p.Ret[ri]) {
		return ""
	}
	return "the returned error can be " + tstr(p.Ret[ri])
}
