package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("instruments", "C29", "every instrument that is used was created, each under its own name, before the server accepts calls", ruleInstruments)
	rule("measurements", "C29", "counters and histograms receive one value that is the number of updates, matches, errors or entries", ruleMeasurements)
}

const metricPkg = "go.opentelemetry.io/otel/metric"

// isInstrument: the type of a metric instrument.
func isInstrument(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != metricPkg {
		return false
	}
	s := n.Obj().Name()
	return (strings.HasPrefix(s, "Int64") || strings.HasPrefix(s, "Float64")) &&
		(strings.HasSuffix(s, "Counter") || strings.HasSuffix(s, "Histogram") || strings.HasSuffix(s, "Gauge"))
}

// isMeasure: a value is given to an instrument.
func isMeasure(e *Event) bool {
	if e.Kind != "call" || len(e.Args) < 3 || !strings.Contains(e.Name, metricPkg+".") && !strings.Contains(e.Name, "(metric.") {
		return false
	}
	n := mname(e.Name)
	return n == "Add" || n == "Record"
}

func isCreate(e *Event) bool {
	return e.Kind == "call" && strings.HasSuffix(strings.TrimPrefix(e.Name[:strings.LastIndex(e.Name, ".")+1], "("), "metric.Meter).") && len(e.Args) >= 2 && mname(e.Name) != "RegisterCallback"
}

// startup is the analysis of the server's main function.
func (c *Ctx) startup(props string) *Root {
	f := c.Func(props, "open-match.dev/core.main")
	if f == nil {
		return nil
	}
	r := c.Root(f)
	if !c.Sound(props, r) {
		return nil
	}
	return r
}

func isServe(e *Event) bool {
	return e.Kind == "call" && e.Name == "(*google.golang.org/grpc.Server).Serve"
}

// used lists the instruments that functions of the server use.
func (c *Ctx) usedInstruments() map[string]ssa.Instruction {
	out := map[string]ssa.Instruction{}
	for _, f := range c.R.Funcs {
		if !strings.HasPrefix(pkgPathOf(f), "open-match.dev/core") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				u, ok := ins.(*ssa.UnOp)
				if !ok {
					continue
				}
				if g, ok := u.X.(*ssa.Global); ok && isInstrument(u.Type()) {
					out[g.String()] = ins
				}
			}
		}
	}
	return out
}

var metricName = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9_.\-/]{0,254}$`)

// instruments gives the name under which the instrument of each package
// variable is created.
func (c *Ctx) instruments(props string, judge bool) map[string]string {
	if v, ok := c.memo["instruments"]; ok && !judge {
		return v.(map[string]string)
	}
	root := c.startup(props)
	if root == nil {
		return nil
	}
	out := map[string]string{}
	used := c.usedInstruments()
	made := map[*Term]*Event{}
	where := c.FnWhere(root.Fn)
	root.Walk(func(e *Event, at *At) {
		if isCreate(e) {
			made[e.Res] = e
		}
	})
	n := 0
	seen := map[string]bool{}
	root.Walk(func(e *Event, at *At) {
		if judge && isMeasure(e) {
			from := e.Args[0]
			if from.Op == "res" {
				from = from.A[0]
			}
			key := c.Where(e)
			if !seen[key] || made[from] == nil {
				seen[key] = true
				c.Ob(props, made[from] != nil, key, "a goroutine started by main uses an instrument that exists by then", tstr(e.Args[0]))
			}
		}
		if !isServe(e) {
			return
		}
		n++
		byMade := map[*Term]string{}
		byName := map[string]string{}
		for _, v := range sortedKeys(used) {
			var val *Term
			for k, t := range e.Mem.m {
				if k.Op == "glob" && k.S == v {
					val = t
				}
			}
			w := c.R.Pos(used[v].Pos())
			ok := val != nil && val.Op == "res" && val.S == "0" && made[val.A[0]] != nil
			if judge {
				c.Ob(props, ok, w, "the instrument "+v+" is created before the server accepts calls", "it is "+tstr(val))
			}
			if !ok {
				continue
			}
			m := made[val.A[0]]
			name, isStr := m.Args[1].ConstStr()
			if judge {
				c.Ob(props, isStr && metricName.MatchString(name), c.Where(m), "the instrument has a valid constant name", tstr(m.Args[1]))
				other := byMade[val]
				c.Ob(props, other == "", c.Where(m), "each instrument is an instrument of its own", v+" and "+other+" are the same")
				other = byName[strings.ToLower(name)]
				c.Ob(props, other == "", c.Where(m), "each instrument has its own name", v+" and "+other+" are both named "+name)
			}
			byMade[val] = v
			byName[strings.ToLower(name)] = v
			if out[v] != "" && out[v] != name && judge {
				c.Ob(props, false, c.Where(m), "the instrument has one name", out[v]+" or "+name)
			}
			out[v] = name
		}
	})
	if judge {
		c.Ob(props, n > 0, where, "the server is started by main", "no call of Serve")
		c.Ob(props, len(used) > 0, where, "instruments are used", "none")
	}
	c.memo["instruments"] = out
	return out
}

func ruleInstruments(c *Ctx) { c.instruments("C29", true) }

// metricOf is the name of the instrument an event gives a value to.
func metricOf(e *Event, names map[string]string) string {
	t := e.Args[0]
	if e.Kind == "call" && strings.HasPrefix(mname(e.Name), "Observe") && len(e.Args) > 1 {
		t = e.Args[1]
	}
	if t.Op == "load" && t.A[0].Op == "glob" {
		return names[t.A[0].S]
	}
	return ""
}

func ruleMeasurements(c *Ctx) {
	names := c.instruments("C29", false)
	if names == nil {
		return
	}
	perCall := map[string]string{"ActivateTickets": "ticket.activation.requests", "DeactivateTickets": "ticket.deactivation.requests", "CreateAssignments": "ticket.assignment"}
	for _, root := range c.rpcs("C29") {
		m := root.Fn.Name()
		if m == "InvokeMatchmakingFunctions" {
			c.matchCounter(root, names)
			continue
		}
		g := root.Gens()
		for _, p := range root.Paths {
			if p.Kind != "return" {
				continue
			}
			recs := gensOf(p, len(p.Events), func(e *Event) bool {
				return isMeasure(e) && !isUpDown(e)
			})
			want := perCall[m]
			if want == "" {
				for _, r := range recs {
					c.Ob("C29", false, c.Where(r.Ev), m+" records only its own measurements", "it records "+metricOf(r.Ev, names))
				}
				continue
			}
			qs := gensOf(p, len(p.Events), isQueue)
			w := c.FnWhere(root.Fn)
			if len(recs) > 0 {
				w = c.Where(recs[0].Ev)
			}
			if len(qs) == 0 {
				c.Ob("C29", len(recs) == 0, w, m+" records nothing for a request that is refused", litsStr(lastLits(p.Facts, 2)))
				continue
			}
			ok := len(recs) == 1 && len(recs[0].Iters) == 0
			c.Ob("C29", ok, w, m+" records one measurement per call", fmt.Sprintf("%d under %s", len(recs), litsStr(lastLits(p.Facts, 2))))
			if !ok {
				continue
			}
			got := metricOf(recs[0].Ev, names)
			c.Ob("C29", strings.HasSuffix(got, "."+want), w, m+" records the metric named for it", "it records "+got)
			v := recs[0].Ev.Args[2]
			ok = g.counts(v, qs)
			if !ok {
				x, why := g.sum(p, func(e *Event) *Term {
					switch {
					case isQueue(e):
						return root.A.In.Int(1)
					case e == recs[0].Ev:
						return root.A.In.mk("bin", "*", v.Typ, nil, v, root.A.In.Int(-1))
					}
					return nil
				})
				ok = why == "" && len(g.settle(x, p)) == 0
			}
			c.Ob("C29", ok, w, m+" records the number of updates of the call", "it records "+tstr(v))
		}
	}
	c.rpcStats(names)
	c.cacheCounts(names)
}

// matchCounter: the matches counter grows by the number of matches received.
func (c *Ctx) matchCounter(root *Root, names map[string]string) {
	const suffix = "match.received"
	g := root.Gens()
	isCount := func(e *Event) bool { return isMeasure(e) && strings.HasSuffix(metricOf(e, names), "."+suffix) }
	n := 0
	recv := map[*Event]bool{}
	root.WalkPaths(func(p *Path, at *At) {
		has := false
		for _, q := range gensOf(p, len(p.Events), isMatchRecv) {
			recv[q.Ev] = true
			has = true
		}
		if !at.Thread && at.Up != nil || !has || p.Kind != "return" {
			return
		}
		n++
		s, why := g.sumPath(p, func(e *Event, q *Path) *Term {
			switch {
			case isCount(e):
				return e.Args[2]
			case isMatchRecv(e):
				isNil, known := c.errNil(q.Facts, e, 1)
				if !known {
					return root.A.In.mk("unknown", "outcome of "+c.Where(e), nil, nil)
				}
				if isNil {
					return root.A.In.Int(-1)
				}
			}
			return nil
		})
		s = g.settle(s, p)
		if why == "" && len(s) > 0 {
			why = "the difference is " + s.String() + " when the call ends with " + litsStr(lastLits(p.Facts, 2))
		}
		w := c.FnWhere(root.Fn)
		if len(p.Events) > 0 {
			w = c.Where(p.Events[0])
		}
		c.Ob("C29", why == "", w, "the counter of matches grows by the number of matches received", why)
	})
	c.Ob("C29", n > 0, c.FnWhere(root.Fn), "matches are received and counted", "none")
}

// rpcStats: one duration per call, one error per failed call.
func (c *Ctx) rpcStats(names map[string]string) {
	fs := c.Impl("google.golang.org/grpc/stats", "Handler", "HandleRPC")
	c.Ob("C29", len(fs) == 1, "core/server.go", "calls are measured by a stats handler", fmt.Sprintf("%d handlers", len(fs)))
	if len(fs) != 1 {
		return
	}
	root := c.Root(fs[0])
	if !c.Sound("C29", root) {
		return
	}
	c.statsUsed(fs[0])
	const begin, end = 1000 * secNs, 1000*secNs + 7*secNs + secNs/4
	for _, k := range []struct {
		name        string
		isEnd, fail bool
		dur, errs   int
	}{{"another event", false, false, 0, 0}, {"a call that succeeded", true, false, 1, 0}, {"a call that failed", true, true, 1, 1}} {
		sc := &Scenario{}
		sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
		sc.Val = func(t *Term, _ Inst) (any, bool) {
			switch {
			case t.Op == "assertok" && fpath(t.A[0]) == "arg1":
				return k.isEnd && strings.HasSuffix(t.S, "grpc/stats.End"), true
			case fpath(t) == "arg1.EndTime":
				return int64(end), true
			case fpath(t) == "arg1.BeginTime":
				return int64(begin), true
			case fpath(t) == "arg1.Error":
				if k.fail {
					return errSome, true
				}
				return errNone, true
			}
			return nil, false
		}
		n := 0
		for _, p := range root.Paths {
			if p.Kind != "return" || !sc.consistent(p.Facts, Inst{}) {
				continue
			}
			n++
			dur, errs := 0, 0
			for _, r := range gensOf(p, len(p.Events), isMeasure) {
				w := c.Where(r.Ev)
				v, ok := sc.eval(r.Ev.Args[2], Inst{})
				switch {
				case len(r.Iters) == 0 && strings.HasSuffix(metricOf(r.Ev, names), ".rpc.duration"):
					dur++
					f, _ := v.(float64)
					c.Ob("C29", ok && f == 7250, w, "the duration of a call is the time from begin to end in milliseconds", fmt.Sprintf("%v for 7.25 s: %s", v, tstr(r.Ev.Args[2])))
				case len(r.Iters) == 0 && strings.HasSuffix(metricOf(r.Ev, names), ".rpc.errors"):
					errs++
					c.Ob("C29", ok && v == any(int64(1)), w, "a failed call counts once", tstr(r.Ev.Args[2]))
				default:
					c.Ob("C29", false, w, "the stats handler records durations and errors", metricOf(r.Ev, names))
				}
			}
			c.Ob("C29", dur == k.dur && errs == k.errs, c.FnWhere(root.Fn), "what is recorded for "+k.name, fmt.Sprintf("%d durations and %d errors under %s", dur, errs, litsStr(lastLits(p.Facts, 3))))
		}
		c.Ob("C29", n > 0, c.FnWhere(root.Fn), "what is recorded for "+k.name+": analysed", "no path")
	}
}

// statsUsed: the server that serves reports its calls to the stats handler.
func (c *Ctx) statsUsed(h *ssa.Function) {
	root := c.startup("C29")
	if root == nil {
		return
	}
	made := map[*Term]*Event{}
	n := 0
	seen := map[string]bool{}
	root.Walk(func(e *Event, at *At) {
		if e.Kind == "call" && e.Name == grpcPkg+".NewServer" {
			made[e.Res] = e
		}
		if !isServe(e) {
			return
		}
		n++
		ev := made[e.Args[0]]
		ok, why := false, "the server is not made by grpc.NewServer"
		if ev != nil {
			why = "its options hold no such handler"
			for _, a := range ev.Args {
				for _, o := range root.A.elems(&State{mem: ev.Mem}, a) {
					if o == nil {
						continue
					}
					walkTerm(o, func(x *Term) {
						if x.IsApp(grpcPkg+".StatsHandler") && len(x.A) == 1 {
							y := stripConv(x.A[0])
							if y.Typ != nil && types.Identical(deref(y.Typ), deref(h.Signature.Recv().Type())) {
								ok = true
							}
						}
					})
				}
			}
		}
		if w := c.Where(e); !seen[w] || !ok {
			seen[w] = true
			c.Ob("C29", ok, w, "the server reports its calls to the stats handler", why)
		}
	})
	c.Ob("C29", n > 0, c.FnWhere(root.Fn), "the server reports its calls to the stats handler", "no server")
}

// cacheCounts: the sizes of the cache that are reported are the numbers of
// entries of the maps they are named for.
func (c *Ctx) cacheCounts(names map[string]string) {
	// the variables that hold a number of entries
	means := map[string]string{}
	for _, n := range c.incoming("C29") {
		c.tallies(n.root, means)
	}
	c.reported(names, means)
}

// tallies finds out what is counted in which variable.
func (c *Ctx) tallies(root *Root, means map[string]string) {
	g := root.Gens()
	root.Walk(func(e *Event, at *At) {
		if e.Kind != "call" || len(e.Args) != 2 || !(e.Name == "sync/atomic.StoreInt64" || strings.HasSuffix(e.Name, "sync/atomic.Int64).Store")) || e.Args[0].Op != "glob" {
			return
		}
		what, why := c.entries(g, e.Args[1])
		c.Ob("C29", why == "", c.Where(e), "the value kept in "+e.Args[0].S+" is a number of entries", why)
		if old := means[e.Args[0].S]; old != "" && old != what {
			c.Ob("C29", false, c.Where(e), e.Args[0].S+" has one meaning", old+" or "+what)
		}
		means[e.Args[0].S] = what
	})
}

// reported: what the callback reports.
func (c *Ctx) reported(names, means map[string]string) {
	want := map[string]string{"tickets.active": "+1 Tickets -1 InactiveSet", "tickets.inactive": "+1 InactiveSet", "assignments": "+1 Assignments"}
	got := map[string]int{}
	for _, f := range c.R.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok || !call.Common().IsInvoke() || call.Common().Method.FullName() != "("+metricPkg+".Meter).RegisterCallback" || len(call.Common().Args) == 0 {
					continue
				}
				v := call.Common().Args[0]
				for {
					if ct, ok := v.(*ssa.ChangeType); ok {
						v = ct.X
						continue
					}
					if mc, ok := v.(*ssa.MakeClosure); ok {
						v = mc.Fn
						continue
					}
					break
				}
				cb, ok := v.(*ssa.Function)
				c.Ob("C29", ok, c.R.Pos(ins.Pos()), "the callback that reports sizes is known", v.String())
				if !ok {
					continue
				}
				r := c.Root(cb)
				if !c.Sound("C29", r) {
					continue
				}
				gg := r.Gens()
				for _, p := range r.Paths {
					if p.Kind != "return" {
						continue
					}
					seen := map[string]int{}
					for _, o := range gensOf(p, len(p.Events), func(e *Event) bool {
						return e.Kind == "call" && strings.HasPrefix(mname(e.Name), "ObserveInt64") && strings.Contains(e.Name, "metric.Observer") && len(e.Args) >= 3
					}) {
						m := metricOf(o.Ev, names)
						short := strings.TrimPrefix(m, "om_core.cache.")
						seen[short]++
						got[short]++
						s := ""
						l := gg.lin(o.Ev.Args[2], 0)
						parts := map[string]int64{}
						for k, v := range l {
							parts[c.meaning(o.Ev.Args[2], k, means)] += v
						}
						for _, what := range []string{"Tickets", "InactiveSet", "Assignments"} {
							if parts[what] != 0 {
								s += fmt.Sprintf(" %+d %s", parts[what], what)
							}
							delete(parts, what)
						}
						for k, v := range parts {
							s += fmt.Sprintf(" %+d %s", v, k)
						}
						c.Ob("C29", want[short] != "" && strings.TrimSpace(s) == want[short], c.Where(o.Ev), "the size reported as "+m+" is that of the map it is named for", "it is"+s)
					}
					for _, k := range sortedKeys(want) {
						c.Ob("C29", seen[k] == 1, c.FnWhere(cb), "the size "+k+" is reported once", fmt.Sprintf("%d times", seen[k]))
					}
				}
			}
		}
	}
	c.Ob("C29", len(got) > 0, "core/internal/statestore/cache/metrics.go", "the sizes of the cache are reported", "no callback")
}

// meaning names the variable a loaded value comes from.
func (c *Ctx) meaning(t *Term, key string, means map[string]string) string {
	out := key
	walkTerm(t, func(x *Term) {
		if tstr(x) != key {
			return
		}
		walkTerm(x, func(y *Term) {
			if y.Op == "glob" && means[y.S] != "" {
				out = means[y.S]
			}
		})
	})
	return out
}

// entries: t counts the entries of a map: one for each entry visited by a
// pass over the map, and one for each entry another pass before it removed.
func (c *Ctx) entries(g *Gens, t *Term) (field, why string) {
	// the maps that are visited
	var maps []string
	var visit func(t *Term, d int)
	visit = func(t *Term, d int) {
		t = stripConv(t)
		if d > 10 {
			return
		}
		if t.Op == "bin" && t.S == "+" {
			visit(t.A[0], d+1)
			visit(t.A[1], d+1)
			return
		}
		if l, init, _ := g.step(t); l != nil && init != nil {
			if m := mapLoop(l); m != "" {
				maps = append(maps, m)
			}
			visit(init, d+1)
		}
	}
	visit(t, 0)
	why = "nothing is counted: " + tstr(t)
	for _, m := range maps {
		n, w := c.entriesOf(g, t, m, 0)
		if w == "" && n != 0 {
			w = fmt.Sprintf("it starts at %d", n)
		}
		k := 0
		for _, o := range maps {
			if o == m {
				k++
			}
		}
		if w == "" && k != 1 {
			w = fmt.Sprintf("the entries of %s are counted %d times", m, k)
		}
		if w == "" {
			return m, ""
		}
		if field == "" {
			field, why = m, w
		}
	}
	return field, why
}

func (c *Ctx) entriesOf(g *Gens, t *Term, field string, d int) (int64, string) {
	t = stripConv(t)
	if n, ok := t.ConstInt(); ok {
		return n, ""
	}
	if d > 10 {
		return 0, "it is " + tstr(t)
	}
	if t.Op == "bin" && t.S == "+" {
		a, w := c.entriesOf(g, t.A[0], field, d+1)
		b, w2 := c.entriesOf(g, t.A[1], field, d+1)
		if w == "" {
			w = w2
		}
		return a + b, w
	}
	l, init, next := g.step(t)
	if l == nil || init == nil {
		return 0, "it is " + tstr(t)
	}
	m := mapLoop(l)
	if m == "" {
		return 0, "it is changed by a loop that does not visit a map of the cache"
	}
	if ok, w := complete(l); !ok {
		return 0, w
	}
	for _, it := range l.Iters {
		v := next(it)
		if v == nil {
			return 0, "an unknown change"
		}
		b, k := linear(v)
		if b != t {
			return 0, "it becomes " + tstr(v)
		}
		want := int64(0)
		if m == field {
			want = 1
		} else {
			for _, e := range it.Events {
				if f, op := syncMap(e); f == field && op == "LoadAndDelete" {
					if v, known := evalFacts(it.Facts, g.root.A.In.mk("res", "1", nil, nil, e.Res)); known && v {
						want++
					}
				}
			}
		}
		if k != want {
			return 0, fmt.Sprintf("an entry of %s counts %d under %s", m, k, litsStr(lastLits(it.Facts, 2)))
		}
	}
	return c.entriesOf(g, init, field, d+1)
}
