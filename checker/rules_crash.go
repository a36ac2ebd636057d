package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C25: nothing that arrives can crash the server. Every instruction that can
// fail at run time is a Need of the interpreter; each has to follow from the
// facts of its path, from what loops keep true, and from what is known about
// the values that arrive.

func init() {
	rule("crash", "C25", "on every path that a request, a function's response or a stream entry can take, each index is in range, each pointer used is not nil, each type assertion fits, no divisor is zero and nothing ends the process", ruleCrash)
	rule("function-crash", "C08,C32", "no request makes the helper that reads it, or a sample function, fail at run time", ruleFunctionCrash)
}

func (c *Ctx) crashRoots() []*Root {
	var out []*Root
	have := map[*ssa.Function]bool{}
	add := func(f *ssa.Function) {
		if f != nil && !have[f] {
			have[f] = true
			r := c.Root(f)
			if c.Sound("C25", r) {
				out = append(out, r)
			}
		}
	}
	for _, r := range c.rpcs("C25") {
		have[r.Fn] = true
		out = append(out, r)
	}
	add(c.Func("C25", inName))
	add(c.Func("C25", validName))
	for _, m := range []string{"SendUpdates", "GetUpdates"} {
		for _, f := range c.drivers("C25", m) {
			add(f)
		}
		for _, f := range c.replicators("C25", m) {
			add(f)
		}
	}
	for _, m := range []string{"HandleRPC", "TagRPC", "HandleConn", "TagConn"} {
		for _, f := range c.Impl("google.golang.org/grpc/stats", "Handler", m) {
			add(f)
		}
	}
	return out
}

// crash judges the needs of all roots.
type crash struct {
	c     *Ctx
	props string
	roots []*Root
	by    map[*Root]*prover
	// what is asked of values that pass between the roots
	chans map[string]string // element type: why a value may be nil
	maps  map[string]string // concurrent map: why a value in it may be nil
}

func ruleCrash(c *Ctx) {
	k := &crash{c: c, props: "C25", roots: c.crashRoots(), by: map[*Root]*prover{}, chans: map[string]string{}, maps: map[string]string{}}
	for _, r := range k.roots {
		k.by[r] = newProver(k, r)
	}
	for _, r := range k.roots {
		k.needs(r)
		k.ends(r)
	}
	k.passed()
}

// ruleFunctionCrash judges the side of the matchmaking functions: the helper
// that reads requests and the sample functions.
func ruleFunctionCrash(c *Ctx) {
	one := func(props string, f *ssa.Function) {
		if f == nil {
			return
		}
		r := c.Root(f)
		if !c.Sound(props, r) {
			return
		}
		k := &crash{c: c, props: props, roots: []*Root{r}, by: map[*Root]*prover{}, chans: map[string]string{}, maps: map[string]string{}}
		k.by[r] = newProver(k, r)
		k.needs(r)
		k.ends(r)
	}
	for _, f := range c.chunkReaders() {
		one("C08", f)
	}
	for _, s := range samples {
		for _, f := range c.sampleRuns(s.pkg) {
			one("C32", f)
		}
	}
}

var needWhat = map[string]string{
	"nonnil": "what is used is not nil",
	"index":  "the index is in range",
	"slice":  "the bounds are in range",
	"assert": "the value has the type asserted",
	"divide": "the divisor is not zero",
	"size":   "the size is not negative",
}

func (k *crash) needs(r *Root) {
	p := k.by[r]
	seen := map[string]bool{}
	n := 0
	for _, x := range r.A.needs {
		id := fmt.Sprintf("%s %p %s", x.Kind, x.Site, factStr(x.Facts))
		for _, a := range x.Args {
			if a != nil {
				id += a.key
			}
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		n++
		why := p.need(x)
		var as []string
		for _, a := range x.Args {
			as = append(as, tstr(a))
		}
		if why != "" && os.Getenv("VERIF_NEEDS") != "" {
			fmt.Println(fnShort(r.Fn), x.Kind, k.c.R.Pos(x.Site.Pos()), strings.Join(as, " ; "), why, shortFacts(x.Facts))
		}
		w := k.c.R.Pos(x.Site.Pos()) + " (" + fnShort(x.Site.Parent()) + ")"
		k.c.Ob(k.props, why == "", w, needWhat[x.Kind], why+": "+strings.Join(as, ", ")+" under "+litsStr(lastLits(x.Facts, 3)))
	}
	k.c.Stats["accesses judged"] += n
}

// ends: no path ends the process.
func (k *crash) ends(r *Root) {
	n := 0
	r.WalkAll(func(e *Event, at *At) {
		if e.Kind != "fatal" && e.Kind != "panic" || unpackable(at.Path.Facts) {
			return
		}
		n++
		k.c.Ob(k.props, false, k.c.Where(e), "nothing ends the process", e.Kind+" under "+litsStr(lastLits(at.Path.Facts, 3)))
	})
	k.c.Ob(k.props, true, k.c.FnWhere(r.Fn), "the paths of the entry point are judged", "")
}

// unpackable: the facts say that a message of plain values of the standard
// types, which can always be encoded, was not.
func unpackable(facts []Lit) bool {
	for _, l := range facts {
		t := l.T
		if t.Op != "eq" || l.Val || !t.A[1].IsNil() || len(t.A[0].A) == 0 {
			continue
		}
		x := t.A[0].A[0]
		if x.Op != "app" || x.S != "google.golang.org/protobuf/types/known/anypb.New" || len(x.A) != 1 {
			continue
		}
		switch m := stripConv(x.A[0]); typeStr(m.Typ) {
		case "*google.golang.org/protobuf/types/known/timestamppb.Timestamp", "*google.golang.org/protobuf/types/known/durationpb.Duration", "*google.golang.org/protobuf/types/known/wrapperspb.Int32Value", "*google.golang.org/protobuf/types/known/wrapperspb.Int64Value":
			return true
		}
	}
	return false
}

// ---- values that pass from one root to another ----

// passed: the arguments that the entry points are given, and the values they
// return, are as assumed.
func (k *crash) passed() {
	c := k.c
	inner := map[string]bool{inName: true, validName: true}
	n := 0
	for _, r := range k.roots {
		p := k.by[r]
		r.WalkAll(func(e *Event, at *At) {
			if e.Kind != "call" {
				return
			}
			facts := at.Path.Facts
			if at.Event() == e && len(e.Facts) > 0 {
				facts = e.Facts
			}
			switch {
			case inner[e.Name]:
				n++
				for i, a := range e.Args {
					t := c.R.Prog.ImportedPackage(filterPath).Func(e.Name[len(filterPath)+1:]).Signature.Params().At(i).Type()
					if _, ok := t.Underlying().(*types.Pointer); !ok {
						continue
					}
					why := p.nonnil(a, facts, 0)
					c.Ob("C25", why == "", c.Where(e), "what is filtered is not nil", why+": "+tstr(a))
				}
			case mname(e.Name) == "SendUpdates" && strings.Contains(e.Name, "StateReplicator"):
				n++
				l := e.Args[len(e.Args)-1]
				why := p.full(l, facts)
				c.Ob("C25", why == "", c.Where(e), "the updates that are written are not nil", why+": "+tstr(l))
			}
		})
	}
	for _, m := range []string{"SendUpdates", "GetUpdates"} {
		for _, f := range c.replicators("C25", m) {
			for _, r := range k.roots {
				if r.Fn != f {
					continue
				}
				for _, q := range r.Paths {
					if q.Kind != "return" || len(q.Ret) == 0 {
						continue
					}
					why := k.by[r].full(q.Ret[0], q.Facts)
					c.Ob("C25", why == "", c.FnWhere(f), "the entries returned are not nil", why+": "+tstr(q.Ret[0]))
				}
			}
		}
	}
	c.Ob("C25", n > 0, "core", "calls between the entry points are judged", "none")
	c.Ob("C25", c.holds("replies", "C26"), "core", "no reply comes after its channel was closed", "see C26")
	// channels
	var ts []string
	for t := range k.chans {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	for _, t := range ts {
		c.Ob("C25", k.chans[t] == "", "channels of "+t, "what is sent on them is not nil, and they are not closed under a receiver", k.chans[t])
	}
}

// sentNonNil: values received from channels of this type are not nil.
func (k *crash) sentNonNil(t types.Type, ok bool) string {
	key := typeStr(t)
	if ok {
		key += " (open)"
	}
	if why, done := k.chans[key]; done {
		return why
	}
	k.chans[key] = ""
	why := ""
	n := 0
	sites := map[ssa.Instruction]bool{}
	for _, r := range k.roots {
		p := k.by[r]
		r.WalkAll(func(e *Event, at *At) {
			evs := append([]*Event{e}, e.Alts...)
			for _, x := range evs {
				switch x.Kind {
				case "send":
					ct := x.Typ
					if cht, ok := ct.Underlying().(*types.Chan); ok {
						ct = cht.Elem()
					}
					if !types.Identical(ct, t) {
						continue
					}
					n++
					sites[x.Site] = true
					if w := p.nonnil(x.Args[1], e.Facts, 0); w != "" && why == "" {
						why = "sent at " + k.c.Where(x) + ": " + w
					}
				case "close":
					if ok {
						continue
					}
					if cht, is := chanType(x); is && types.Identical(cht.Elem(), t) && why == "" && !k.readBefore(r, x.Args[0], at) {
						why = "closed at " + k.c.Where(x)
					}
				}
			}
		})
	}
	for _, f := range k.c.R.Funcs {
		if !strings.HasPrefix(pkgPathOf(f), "open-match.dev/core") {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var ct types.Type
				switch x := ins.(type) {
				case *ssa.Send:
					ct = x.X.Type()
				case *ssa.Select:
					for _, st := range x.States {
						if st.Dir == types.SendOnly && types.Identical(st.Send.Type(), t) {
							ct = t
						}
					}
				}
				if ct != nil && types.Identical(ct, t) && !sites[ins] && why == "" {
					why = "a send is not followed: " + k.c.R.Pos(ins.Pos())
				}
			}
		}
	}
	if n == 0 && why == "" {
		why = "nothing is sent"
	}
	k.chans[key] = why
	return why
}

// readBefore: every receive from the local channel that does not ask whether
// it was closed happens before it is closed.
func (k *crash) readBefore(r *Root, ch *Term, at *At) bool {
	if ch.Op != "mkchan" {
		return false
	}
	hb := r.HB()
	ok := true
	r.WalkAll(func(e *Event, x *At) {
		for _, y := range append([]*Event{e}, e.Alts...) {
			if y.Kind == "recv" && y.Args[0] == ch && together(x, at) && !parted(x, at) {
				ok = ok && hb.Before(x, at)
			}
		}
	})
	return ok
}

func chanType(e *Event) (*types.Chan, bool) {
	ci, ok := e.Site.(ssa.CallInstruction)
	if !ok || len(ci.Common().Args) != 1 {
		return nil, false
	}
	ch, ok := ci.Common().Args[0].Type().Underlying().(*types.Chan)
	return ch, ok
}

// ---- what is known ----

type prover struct {
	geq0Maps map[*Term]bool
	k        *crash
	root     *Root
	g        *Gens
	calls    map[*Term]*Event
	busy     map[*Term]bool
	growing  map[*Term]bool
	grew     map[*Term]grewTo
}

func newProver(k *crash, r *Root) *prover {
	p := &prover{k: k, root: r, g: r.Gens(), calls: map[*Term]*Event{}, busy: map[*Term]bool{}, growing: map[*Term]bool{}, grew: map[*Term]grewTo{}}
	r.WalkAll(func(e *Event, at *At) {
		if e.Kind == "call" && e.Res != nil {
			p.calls[e.Res] = e
		}
	})
	return p
}

func (p *prover) need(x *Need) string {
	in := p.root.A.In
	switch x.Kind {
	case "nonnil":
		return p.nonnil(x.Args[0], x.Facts, 0)
	case "index":
		n, i := x.Args[0], x.Args[1]
		if p.protocol(n, i) {
			return ""
		}
		low, high := p.geq0(p.lf(i), x.Facts, 0), p.geq0(p.lf(n).add(p.lf(i), -1).plus(-1), x.Facts, 0)
		switch {
		case low && high || p.replies(n, i, x):
		case !low:
			return "the index may be negative"
		case len(x.Args) < 3 || !p.answered(x.Args[2], i):
			return "the index may be too large"
		}
	case "slice":
		lo, hi := p.lf(x.Args[1]), p.lf(x.Args[2])
		n := p.lf(in.Len(x.Args[0]))
		if !p.geq0(lo, x.Facts, 0) || !p.geq0(hi.add(lo, -1), x.Facts, 0) || !p.geq0(n.add(hi, -1), x.Facts, 0) {
			return "the bounds may be out of range"
		}
	case "size":
		n, c := p.lf(x.Args[0]), p.lf(x.Args[1])
		if configured(x.Args[0]) && configured(x.Args[1]) {
			return "" // set by the operator
		}
		if !p.geq0(n, x.Facts, 0) || !p.geq0(c.add(n, -1), x.Facts, 0) {
			return "the size may be negative"
		}
	case "divide":
		y := p.lf(x.Args[0])
		if configured(x.Args[0]) {
			return ""
		}
		if v, known := evalFacts(x.Facts, in.Eq(x.Args[0], in.Int(0))); known && !v {
			return ""
		}
		if !p.geq0(y.plus(-1), x.Facts, 0) && !p.geq0(lform{}.add(y, -1).plus(-1), x.Facts, 0) {
			return "the divisor may be zero"
		}
	case "assert":
		return p.assert(x.Args[0], x.Typ, x.Facts, 0)
	}
	return ""
}

// configured: made of settings and constants only.
func configured(t *Term) bool {
	conf := false
	ok := !t.Any(func(x *Term) bool {
		if x.Op == "conf" {
			conf = true
		}
		switch x.Op {
		case "conf", "const", "bin", "conv", "narrow":
			return false
		}
		return !t.Any(func(y *Term) bool { return y.Op == "conf" && y.Any(func(z *Term) bool { return z == x }) })
	})
	return conf && ok
}

// nonnil tells why t may be nil; "" when it is not.
func (p *prover) nonnil(t *Term, facts []Lit, d int) string {
	t = stripConv(t)
	in := p.root.A.In
	if t == nil {
		return "it is not known"
	}
	if nonNil(t) {
		return ""
	}
	if d > 10 {
		return "it is not known"
	}
	if v, known := evalFacts(facts, in.Eq(t, in.Nil())); known {
		if v {
			return "it is nil"
		}
		return ""
	}
	for _, f := range facts {
		if f.Val && f.T.Op == "assertok" && f.T.A[0] == t {
			return ""
		}
	}
	switch t.Op {
	case "param", "timer":
		return ""
	case "clone":
		return p.nonnil(t.A[0], facts, d+1)
	case "recv":
		open := false
		for _, f := range facts {
			if f.Val && f.T.Op == "recvok" && f.T.S == t.S {
				open = true
			}
		}
		return p.k.sentNonNil(t.Typ, open)
	case "load":
		if t.A[0].Op == "glob" {
			return p.k.assigned(t.A[0].S, "", nil)
		}
		return "it is not known"
	case "field":
		owner := t.A[0]
		if owner.Typ != nil && isMessage(owner.Typ) {
			return "that part of the message may be missing"
		}
		return p.k.assigned("", t.S, fieldTypeOf(t))
	case "elem":
		return p.entry(t.A[0], t, facts, d)
	case "index":
		return p.entry(t.A[0], t, facts, d)
	case "lookup":
		for _, f := range facts {
			if f.Val && f.T.Op == "lookupok" && f.T.A[0] == t.A[0] && f.T.A[1] == t.A[1] {
				return p.entry(t.A[0], t, facts, d)
			}
		}
		if why := p.keyed(t.A[0], t.A[1], facts); why == "" {
			return p.entry(t.A[0], t, facts, d)
		}
		return "the map may have no such entry"
	case "phi", "memphi":
		if p.busy[t] {
			return ""
		}
		p.busy[t] = true
		defer delete(p.busy, t)
		ls := p.g.all[s2loop(t.S)]
		for _, l := range ls {
			init, next := p.g.stepOf(l, t)
			if why := p.nonnil(init, dropLoop(facts, l.ID), d+1); why != "" {
				return why
			}
			for _, q := range l.Iters {
				if why := p.nonnil(next(q), q.Facts, d+1); why != "" {
					return why
				}
			}
		}
		if len(ls) == 0 {
			return "it is not known"
		}
		return ""
	case "res":
		if e := p.calls[t.A[0]]; e != nil {
			return p.result(t, e, facts)
		}
		if t.A[0].Op == "app" {
			if strings.HasPrefix(t.A[0].S, "context.With") {
				return ""
			}
			// its error
			for _, f := range facts {
				if f.T.Op == "eq" && f.Val {
					if o := other(f.T, in.Nil()); o != nil && o.Op == "res" && o.A[0] == t.A[0] {
						return ""
					}
				}
			}
		}
		return "it may be nil"
	case "call", "app":
		if isErrorType(t.Typ) {
			return "there may be no error"
		}
		return "" // libraries return no nil pointers without an error
	case "const", "zero":
		return "it is nil"
	}
	if t.Op == "struct" || t.Op == "join" {
		return ""
	}
	return "it is not known (" + t.Op + ")"
}

func isErrorType(t types.Type) bool { return t != nil && t.String() == "error" }

// result: a result of a library call.
func (p *prover) result(t *Term, e *Event, facts []Lit) string {
	v, ok := e.Site.(ssa.Value)
	if !ok {
		return "it may be nil"
	}
	if strings.HasPrefix(e.Name, "context.With") {
		return ""
	}
	tup, ok := v.Type().(*types.Tuple)
	if !ok {
		return "it may be nil"
	}
	last := tup.Len() - 1
	if t.S != fmt.Sprint(last) {
		switch {
		case isErrorType(tup.At(last).Type()):
			if isNil, known := p.k.c.errNil(facts, e, last); known && isNil {
				return ""
			}
			return "the call may have failed"
		case types.Identical(tup.At(last).Type(), types.Typ[types.Bool]):
			if v, known := evalFacts(facts, p.root.A.In.mk("res", fmt.Sprint(last), types.Typ[types.Bool], nil, e.Res)); known && v {
				if f, _ := syncMap(e); f != "" {
					return ""
				}
				return ""
			}
			return "there may be no value"
		}
		return ""
	}
	if isErrorType(tup.At(last).Type()) {
		return "there may be no error"
	}
	return ""
}

// full: no entry of the list is nil.
func (p *prover) full(l *Term, facts []Lit) string {
	return p.entry(l, nil, facts, 0)
}

// entry: the entries of the collection are not nil. t is the one taken.
func (p *prover) entry(coll, t *Term, facts []Lit, d int) string {
	coll = stripConv(coll)
	if coll == nil || d > 10 {
		return "it is not known"
	}
	// parts of messages that arrived
	if p.message(coll) {
		return ""
	}
	if coll.Op == "param" {
		return "" // judged where it is called
	}
	if e := p.calls[coll]; e != nil && strings.Contains(e.Name, "StateReplicator") {
		return "" // judged where it is returned
	}
	if coll.Op == "mkslice" {
		return p.filled(coll)
	}
	if f := mapField(coll); f != "" {
		return p.k.storedNonNil(f)
	}
	es, ok := p.contents(coll, map[*Term]bool{})
	if !ok {
		return "the entries of " + tstr(coll) + " are not known"
	}
	for _, e := range es {
		if why := p.nonnil(e.v, e.facts, d+1); why != "" {
			return why
		}
	}
	return ""
}

// message: the collection is a field of a message that came from outside.
func (p *prover) message(coll *Term) bool {
	if coll.Op != "field" {
		return false
	}
	o := coll.A[0]
	if o.Typ != nil && isMessage(o.Typ) {
		return true
	}
	return false
}

// keyed: the key is one of the map's.
func (p *prover) keyed(m, key *Term, facts []Lit) string {
	if key.Op == "key" && key.A[0] == m {
		return ""
	}
	if v, known := evalFacts(facts, p.root.A.In.mk("lookupok", "", types.Typ[types.Bool], nil, m, key)); known && v {
		return ""
	}
	// a key of a local map whose keys are all the map's
	if key.Op == "key" && stripConv(key.A[0]).Op == "mkmap" {
		n := 0
		for _, x := range p.g.sets[stripConv(key.A[0])] {
			n++
			if x.Key == nil || p.keyed(m, x.Key, pathFacts(x.Path)) != "" {
				return "the key may not be there"
			}
		}
		if n > 0 {
			return ""
		}
	}
	// a key collected from the map
	if key.Op == "elem" || key.Op == "index" {
		es, ok := p.contents(key.A[0], map[*Term]bool{})
		if ok && len(es) > 0 {
			for _, e := range es {
				if e.v.Op != "key" || e.v.A[0] != m {
					return "the key may not be there"
				}
			}
			return ""
		}
	}
	return "the key may not be there"
}

type heldVal struct {
	v     *Term
	facts []Lit
}

// contents lists the entries that a local collection can have.
func (p *prover) contents(t *Term, seen map[*Term]bool) (out []heldVal, ok bool) {
	t = stripConv(t)
	if t == nil {
		return nil, false
	}
	if seen[t] {
		return nil, true
	}
	seen[t] = true
	ok = true
	add := func(t *Term) {
		es, o := p.contents(t, seen)
		out, ok = append(out, es...), ok && o
	}
	switch t.Op {
	case "const", "empty", "zero":
		return nil, true
	case "seq", "append":
		es := t.A
		if t.Op == "append" {
			add(t.A[0])
			es = t.A[1:]
		}
		for _, x := range es {
			if x.Op == "spread" {
				add(x.A[0])
			} else {
				out = append(out, heldVal{x, nil})
			}
		}
	case "slice":
		add(t.A[0])
	case "phi", "memphi":
		ls := p.g.all[s2loop(t.S)]
		if len(ls) == 0 {
			return nil, false
		}
		for _, l := range ls {
			init, next := p.g.stepOf(l, t)
			if init == nil {
				return nil, false
			}
			add(init)
			for _, q := range l.Iters {
				es, o := p.contents(next(q), seen)
				ok = ok && o
				for _, e := range es {
					out = append(out, heldVal{e.v, append(e.facts[:len(e.facts):len(e.facts)], q.Facts...)})
				}
			}
		}
	case "sliceof":
		n := 0
		for _, x := range p.g.sets[t.A[0]] {
			n++
			out = append(out, heldVal{x.Val, pathFacts(x.Path)})
		}
		for a, v := range p.stored(t.A[0]) {
			_ = a
			n++
			out = append(out, heldVal{v, nil})
		}
		at, isArr := t.A[0].Typ.Underlying().(*types.Array)
		if isArr && int64(n) < at.Len() {
			return out, false
		}
	case "mkmap", "mkslice":
		for _, x := range p.g.sets[t] {
			out = append(out, heldVal{x.Val, pathFacts(x.Path)})
		}
		if t.Op == "mkslice" && p.filled(t) != "" {
			if n, isC := t.A[0].ConstInt(); !isC || n != 0 {
				return out, false
			}
		}
	default:
		// parts of messages that arrived, and what is judged elsewhere
		if p.message(t) || t.Op == "param" {
			return nil, true
		}
		return nil, false
	}
	return out, ok
}

func pathFacts(q *Path) []Lit {
	if q == nil {
		return nil
	}
	return q.Facts
}

// stored lists the values at the places of a local array.
func (p *prover) stored(o *Term) map[*Term]*Term {
	out := map[*Term]*Term{}
	p.root.WalkPaths(func(q *Path, _ *At) {
		if q.Mem == nil {
			return
		}
		for a, v := range q.Mem.m {
			if a.Op == "indexaddr" && a.A[0] == o {
				out[a] = v
			}
		}
	})
	return out
}

// filled: each place of a list made with a length is assigned before any is
// used.
func (p *prover) filled(t *Term) string {
	n := t.A[0]
	if k, ok := n.ConstInt(); ok && k == 0 {
		return ""
	}
	why := "its entries are not assigned"
	for _, gn := range p.g.sets[t] {
		if len(gn.Iters) == 0 {
			continue
		}
		l := gn.Iters[len(gn.Iters)-1].L
		if ok, _ := runsOut(l); !ok {
			continue
		}
		tr := trip(p.root.A.In, l)
		if tr == nil || stripConv(tr) != stripConv(n) {
			continue
		}
		all := true
		for _, q := range l.Iters {
			has := false
			for _, x := range p.g.sets[t] {
				if len(x.Iters) > 0 && x.Iters[len(x.Iters)-1].P == q && isIndex(x.Key, l) && p.nonnil(x.Val, q.Facts, 5) == "" {
					has = true
				}
			}
			for _, e := range q.Events {
				if e.Kind == "store" && e.Args[0].Op == "indexaddr" && e.Args[0].A[0] == t && isIndex(e.Args[0].A[1], l) && p.nonnil(e.Args[1], q.Facts, 5) == "" {
					has = true
				}
			}
			all = all && has
		}
		if all {
			return ""
		}
	}
	return why
}

func isIndex(t *Term, l *LoopSum) bool {
	return t != nil && t.Op == "idx" && s2loop(t.S) == l.ID
}

// assigned: a variable or a field of the server's own is given a value
// somewhere that is not nil.
func (k *crash) assigned(glob, field string, owner types.Type) string {
	for _, f := range k.c.R.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if cv, isC := st.Val.(*ssa.Const); isC && cv.IsNil() {
					continue
				}
				if g, isG := st.Val.(*ssa.Global); isG && glob != "" && g.String() == glob && k.c.holds("startup", "C25") {
					return "" // by way of its address, in a table of variables
				}
				switch a := st.Addr.(type) {
				case *ssa.Global:
					if glob != "" && a.String() == glob {
						return ""
					}
				case *ssa.FieldAddr:
					if field == "" {
						continue
					}
					n, _ := fieldName(a.X.Type(), a.Field)
					if n == field && (owner == nil || types.Identical(deref(a.X.Type()), owner)) {
						return ""
					}
				}
			}
		}
	}
	return "it is never assigned"
}

func fieldTypeOf(t *Term) types.Type {
	o := t.A[0]
	if o.Typ == nil {
		return nil
	}
	if p, ok := o.Typ.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return o.Typ
}

// assert: t has the type.
func (p *prover) assert(t *Term, typ types.Type, facts []Lit, d int) string {
	t = stripConv(t)
	if t == nil || d > 8 {
		return "its type is not known"
	}
	for _, f := range facts {
		if f.Val && f.T.Op == "assertok" && f.T.A[0] == t && f.T.S == typ.String() {
			return ""
		}
	}
	fits := func(u types.Type) bool {
		if i, ok := typ.Underlying().(*types.Interface); ok {
			return types.Implements(u, i)
		}
		return types.Identical(u, typ)
	}
	if t.Typ != nil {
		if _, isI := t.Typ.Underlying().(*types.Interface); !isI {
			if fits(t.Typ) {
				return ""
			}
			return "it is a " + typeStr(t.Typ)
		}
	}
	if p.replyType(t, typ) {
		return ""
	}
	switch t.Op {
	case "key", "elem":
		if len(t.A) == 1 {
			if f := mapField(t.A[0]); f != "" && strings.HasSuffix(s2loop(t.S), "@cb") {
				return p.k.mapHolds(f, t.Op == "key", fits)
			}
		}
		if t.Op == "elem" {
			return p.assertAll(t.A[0], typ, d)
		}
	case "index":
		return p.assertAll(t.A[0], typ, d)
	case "res":
		if e := p.calls[t.A[0]]; e != nil && t.S == "0" {
			if f, m := syncMap(e); f != "" && (m == "Load" || m == "LoadAndDelete" || m == "LoadOrStore" || m == "Swap") {
				if m != "LoadOrStore" {
					if v, known := evalFacts(facts, p.root.A.In.mk("res", "1", types.Typ[types.Bool], nil, e.Res)); !known || !v {
						return "there may be no value"
					}
				}
				return p.k.mapHolds(f, false, fits)
			}
		}
	}
	return "its type is not known"
}

func (p *prover) assertAll(coll *Term, typ types.Type, d int) string {
	es, ok := p.contents(coll, map[*Term]bool{})
	if !ok || len(es) == 0 {
		return "its type is not known"
	}
	for _, e := range es {
		if why := p.assert(e.v, typ, e.facts, d+1); why != "" {
			return why
		}
	}
	return ""
}

// mapHolds: everything stored in the concurrent map with this field name has
// a fitting type.
func (k *crash) mapHolds(field string, key bool, fits func(types.Type) bool) string {
	n := 0
	for _, f := range k.c.R.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cf := ci.Common().StaticCallee()
				if cf == nil || !strings.HasPrefix(cf.String(), "(*sync.Map).") {
					continue
				}
				as := ci.Common().Args
				var v []ssa.Value
				switch cf.Name() {
				case "Store", "LoadOrStore", "Swap":
					v = as[1:3]
				case "CompareAndSwap":
					v = []ssa.Value{as[1], as[3]}
				default:
					continue
				}
				fa, ok := as[0].(*ssa.FieldAddr)
				if ok {
					if n, _ := fieldName(fa.X.Type(), fa.Field); n != field {
						continue
					}
				} // another way to reach a map: it may be this one
				x := v[1]
				if key {
					x = v[0]
				}
				n++
				mi, isM := x.(*ssa.MakeInterface)
				if !isM {
					if !k.passedTypes(x, fits, 0) {
						return "what is stored at " + k.c.R.Pos(ins.Pos()) + " has no known type"
					}
					continue
				}
				if !ok && !fits(mi.X.Type()) {
					// a map reached in another way holds something else: not this one
					continue
				}
				if !fits(mi.X.Type()) {
					return "a " + typeStr(mi.X.Type()) + " is stored at " + k.c.R.Pos(ins.Pos())
				}
			}
		}
	}
	if n == 0 {
		return "nothing is stored in " + field
	}
	return ""
}

// storedNonNil: nothing that is stored in the concurrent map is nil.
func (k *crash) storedNonNil(field string) string {
	if why, done := k.maps[field]; done {
		return why
	}
	k.maps[field] = ""
	why := ""
	n := 0
	sites := map[ssa.Instruction]bool{}
	for _, r := range k.roots {
		p := k.by[r]
		r.WalkAll(func(e *Event, at *At) {
			if e.Kind != "call" {
				return
			}
			v := -1
			switch f, m := syncMap(e); {
			case f == "":
				return
			case m == "Store" || m == "LoadOrStore" || m == "Swap":
				v = 2
			case m == "CompareAndSwap":
				v = 3
			default:
				return
			}
			sites[e.Site] = true
			if f, _ := syncMap(e); f != field {
				return
			}
			n++
			facts := at.Path.Facts
			if at.Event() == e && len(e.Facts) > 0 {
				facts = e.Facts
			}
			if w := p.nonnil(e.Args[v], facts, 0); w != "" && why == "" {
				why = "stored at " + k.c.Where(e) + ": " + w
			}
		})
	}
	for _, f := range k.c.R.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok || sites[ins] || ci.Common().StaticCallee() == nil {
					continue
				}
				switch ci.Common().StaticCallee().String() {
				case "(*sync.Map).Store", "(*sync.Map).LoadOrStore", "(*sync.Map).Swap", "(*sync.Map).CompareAndSwap":
					if why == "" {
						why = "a value that is stored is not followed: " + k.c.R.Pos(ins.Pos())
					}
				}
			}
		}
	}
	if n == 0 && why == "" {
		why = "nothing is stored in " + field
	}
	k.maps[field] = why
	return why
}

// passedTypes: all callers pass a value of a fitting type.
func (k *crash) passedTypes(v ssa.Value, fits func(types.Type) bool, d int) bool {
	if d > 4 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return fits(x.X.Type())
	case *ssa.ChangeInterface:
		return k.passedTypes(x.X, fits, d+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !k.passedTypes(e, fits, d+1) {
				return false
			}
		}
		return true
	case *ssa.Parameter:
		f := x.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == x {
				idx = i
			}
		}
		sites := k.c.callSites()[f]
		for _, s := range sites {
			ci, ok := s.(ssa.CallInstruction)
			if !ok || ci.Common().StaticCallee() != f || !k.passedTypes(ci.Common().Args[idx], fits, d+1) {
				return false
			}
		}
		return len(sites) > 0
	}
	return false
}

// ---- what redis replies ----

// reply gives the shape of (a part of) the reply to XREAD: a list of streams,
// each a name and a list of entries, each an id and a list of strings.
// depth 0: the reply, 1: a stream, 2: the entries, 3: an entry, 4: its fields.
func (p *prover) reply(t *Term) int {
	t = stripConv(t)
	switch t.Op {
	case "res":
		e := p.calls[t.A[0]]
		if t.S != "0" || e == nil || !isConnDo(e) {
			return -1
		}
		for _, a := range e.Args {
			if s, ok := a.ConstStr(); ok && strings.EqualFold(s, "XREAD") {
				return 0
			}
			if s, ok := a.ConstStr(); ok && s == "" {
				return 10 // all replies of a pipeline
			}
		}
	case "index", "elem":
		d := p.reply(t.A[0])
		switch {
		case d == 0:
			return 1
		case d == 1 && t.Op == "index":
			if n, ok := t.A[1].ConstInt(); ok && n == 1 {
				return 2
			}
		case d == 2:
			return 3
		case d == 3 && t.Op == "index":
			if n, ok := t.A[1].ConstInt(); ok && n == 1 {
				return 4
			}
		}
	}
	return -1
}

// protocol: the index is one that the shape of the reply has.
func (p *prover) protocol(n, i *Term) bool {
	if n.Op != "len" {
		return false
	}
	k, isC := i.ConstInt()
	if !isC {
		return false
	}
	switch p.reply(n.A[0]) {
	case 0:
		return k == 0
	case 1, 3:
		return k == 0 || k == 1
	}
	return false
}

func (p *prover) replyType(t *Term, typ types.Type) bool {
	switch d := p.reply(t); {
	case d >= 0:
		return typ.String() == "[]interface{}" || typ.String() == "[]any"
	}
	return false
}

// replies: the position of a pipeline's reply: one for each command sent.
func (p *prover) replies(n, i *Term, x *Need) bool {
	if n.Op != "len" || p.reply(n.A[0]) != 10 {
		return false
	}
	return p.pipeline(n.A[0], i, x)
}

// pipeline: redis replies once to each command that was sent; that positions
// count the commands sent before is what the rule storage-send decides.
func (p *prover) pipeline(reply, i *Term, x *Need) bool {
	n := p.lf(p.root.A.In.Len(reply)).add(p.lf(i), -1)
	if k := n.k; len(n.m) == 0 && k > 0 {
		// the k-th from the end: at least k commands are sent before
		do := p.calls[reply.A[0]]
		seen, ok := false, true
		p.root.WalkPaths(func(q *Path, _ *At) {
			c := int64(0)
			for _, e := range q.Events {
				if isConnSend(e) {
					c++
				}
				if e == do || e.Res != nil && e.Res == reply.A[0] {
					seen = true
					ok = ok && c >= k
				}
			}
		})
		return seen && ok
	}
	b, _ := linear(stripConv(i))
	return (b.Op == "phi" || b.Op == "memphi" || b.Op == "idx") && p.k.c.holds("storage-send", "C16")
}

// answered: a position in one of the lists that belong together in writing a
// batch: the requests, their updates, and the results. That there is one
// result for each update that is written is what the rule storage-send
// decides; that the request at the position is the one that was written there
// is what the rule outgoing decides.
func (p *prover) answered(list, i *Term) bool {
	if i.Op != "idx" || !p.batch(stripConv(list)) {
		return false
	}
	over := false
	for _, l := range p.g.all[s2loop(i.S)] {
		tr := trip(p.root.A.In, l)
		if tr == nil {
			return false
		}
		if b, _ := linear(tr); b == nil || b.Op != "len" || !p.batch(stripConv(b.A[0])) {
			return false
		}
		over = true
	}
	return over && p.k.c.holds("outgoing", "C16") && p.k.c.holds("storage-send", "C16")
}

func (p *prover) batch(t *Term) bool {
	if e := p.calls[t]; e != nil && mname(e.Name) == "SendUpdates" {
		return true
	}
	for t.Op == "append" && t.Typ == nil {
		t = stripConv(t.A[0])
	}
	if t.Typ == nil {
		return false
	}
	sl, ok := t.Typ.Underlying().(*types.Slice)
	return ok && isRequest(sl.Elem())
}

// isRequest: a request carries the channel for its reply.
func isRequest(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if ch, ok := s.Field(i).Type().Underlying().(*types.Chan); ok && strings.HasSuffix(typeStr(ch.Elem()), ".StateResponse") {
			return true
		}
	}
	return false
}

// holds runs another rule on the side.
func (c *Ctx) holds(name, prop string) bool {
	k := "rule " + name + " " + prop
	if v, done := c.side[k]; done {
		return v
	}
	var r *Rule
	for _, x := range rules {
		if x.Name == name {
			r = x
		}
	}
	if r == nil {
		return false
	}
	save, rule := c.Obls, c.rule
	c.Obls, c.rule = nil, r
	ok := true
	func() {
		defer func() {
			if recover() != nil {
				ok = false
			}
		}()
		r.Run(c)
	}()
	n := 0
	for _, o := range c.Obls {
		if has(o.Props, prop) {
			n++
			ok = ok && o.OK
		}
	}
	c.Obls, c.rule = save, rule
	ok = ok && n > 0
	if c.side == nil {
		c.side = map[string]bool{}
	}
	c.side[k] = ok
	return ok
}
