package main

import (
	"fmt"
	"go/types"
	"strings"
)

func init() {
	rule("create-ticket", "C12,C13,C17", "decision table over valid, missing and excessive times: the message that is stored, and what is returned", ruleCreate)
	rule("update-limits", "C14", "for every number of ids around the limit: refused before anything is queued, or processed", ruleLimits)
	rule("active-state", "C15", "each id of the request reaches the queue exactly when it is well formed; the others are reported", ruleActiveState)
	rule("id-format", "C15,C13", "the language of the id pattern is digits dash digits", ruleIdFormat)
	rule("update-errors", "C17", "a failed reply makes every handler return an error, success none", ruleUpdateErrors)
	rule("replies", "C16,C26", "every submitter receives one reply per queued update on a channel with room for them", ruleReplies)
	rule("assignments", "C31", "an assignment is queued for each listed ticket", ruleAssignments)
}

// statusCode is the code of an error made with the status package.
func statusCode(t *Term) (int64, bool) {
	if t == nil || t.Op != "app" {
		return 0, false
	}
	switch {
	case t.S == "google.golang.org/grpc/status.Error" || t.S == "google.golang.org/grpc/status.Errorf":
		return t.A[0].ConstInt()
	case strings.HasSuffix(t.S, "status.Status).Err"):
		s := t.A[0]
		if s.Op == "app" && (strings.HasSuffix(s.S, "status.New") || strings.HasSuffix(s.S, "status.Newf")) {
			return s.A[0].ConstInt()
		}
	}
	return 0, false
}

const codeInvalid = 3

// hasQueue: an update can be queued on the path.
func hasQueue(p *Path) bool {
	found := false
	eachEvent(p, func(e *Event, _ []IterAt) {
		if isQueue(e) {
			found = true
		}
		if e.Kind == "go" && e.Thread != nil {
			for _, q := range e.Thread.Paths {
				if hasQueue(q) {
					found = true
				}
			}
		}
	})
	return found
}

// marshalOK gives the outcome of encoding a message.
func marshalOK(t *Term, good bool) (any, bool) {
	if t.Op != "eq" || !t.A[1].IsNil() {
		return nil, false
	}
	switch x := t.A[0]; {
	case x.Op == "marshal":
		return !good, true
	case x.Op == "res" && x.S == "1" && x.A[0].Op == "app" && strings.HasSuffix(x.A[0].S, "proto.Marshal"):
		return good, true
	}
	return nil, false
}

// refused: the path returns an invalid-argument error without queueing.
func refused(p *Path) string {
	if hasQueue(p) {
		return "an update can be queued"
	}
	if p.Kind != "return" {
		return p.Kind
	}
	if n, ok := statusCode(p.Ret[len(p.Ret)-1]); !ok || n != codeInvalid {
		return "the error is " + tstr(p.Ret[len(p.Ret)-1])
	}
	return ""
}

// ---- C12, C13, C17: CreateTicket ----

const secNs = int64(1e9)

func ruleCreate(c *Ctx) {
	root := c.Handler("C12,C13", "CreateTicket")
	if root == nil {
		return
	}
	where := c.FnWhere(root.Fn)
	in := root.A.In
	const (
		tick   = "arg1.Ticket"
		crPath = "arg1.Ticket.Attributes.CreationTime"
		exPath = "arg1.Ticket.ExpirationTime"
		ttl    = 600
	)
	un := func(t *Term) *Term {
		for t.Op == "clone" {
			t = t.A[0]
		}
		return t
	}
	nows := map[*Term]int64{}
	nowVal := func(t *Term) int64 {
		if v, ok := nows[t]; ok {
			return v
		}
		v := 50000*secNs + int64(len(nows)+1)*7*secNs/10
		nows[t] = v
		return v
	}
	type when struct {
		name  string
		state string // absent, invalid, valid
		at    int64
	}
	mk := func(cr, ex when, ticket bool) *Scenario {
		sc := &Scenario{}
		sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
		of := func(t *Term) (when, bool) {
			switch fpath(un(t)) {
			case crPath:
				return cr, true
			case exPath:
				return ex, true
			}
			return when{}, false
		}
		sc.Val = func(t *Term, inst Inst) (any, bool) {
			switch t.Op {
			case "now":
				return nowVal(t), true
			case "conf":
				if t.S == "OM_CACHE_TICKET_TTL_SECS" {
					switch t.Aux {
					case "Float64":
						return float64(ttl), true
					case "", "Duration", nil:
						return int64(ttl), true
					}
				}
			case "field", "clone":
				if w, ok := of(t); ok && w.state == "valid" {
					return w.at, true
				}
				if t.Op == "field" && (t.S == "Seconds" || t.S == "Nanos") {
					if w, ok := of(t.A[0]); ok {
						if w.state == "absent" {
							return int64(0), true
						}
						s := floorDiv(w.at, secNs)
						if t.S == "Seconds" {
							return s, true
						}
						return w.at - s*secNs, true
					}
				}
			case "app":
				if mname(t.S) == "IsValid" && strings.Contains(t.S, "timestamppb") && len(t.A) == 1 {
					if w, ok := of(t.A[0]); ok {
						return w.state == "valid", true
					}
					if _, ok := sc.eval(t.A[0], inst); ok {
						return true, true
					}
				}
				if mname(t.S) == "AsTime" && len(t.A) == 1 {
					if w, ok := of(t.A[0]); ok {
						switch w.state {
						case "absent":
							return int64(0), true
						case "invalid":
							return w.at, true
						}
					}
				}
			case "msg", "struct":
				if strings.HasSuffix(t.S, "timestamppb.Timestamp") {
					s, ok1 := sc.eval(in.Field(t, "Seconds", types.Typ[types.Int64]), inst)
					n, ok2 := sc.eval(in.Field(t, "Nanos", types.Typ[types.Int32]), inst)
					if a, ok := s.(int64); ok && ok1 && ok2 {
						if b, ok := n.(int64); ok {
							return a*secNs + b, true
						}
					}
				}
			case "eq":
				if v, ok := marshalOK(t, true); ok {
					return v, true
				}
				if t.A[1].IsNil() {
					x := t.A[0]
					if w, ok := of(x); ok {
						return w.state == "absent", true
					}
					if fpath(un(x)) == tick {
						return !ticket, true
					}
					if !ticket && strings.HasPrefix(fpath(un(x)), tick) {
						return true, true
					}
					if x.Op == "app" && mname(x.S) == "CheckValid" {
						if w, ok := of(x.A[0]); ok {
							return w.state == "valid", true
						}
					}
					if fpath(un(x)) == "arg1.Ticket.Attributes" && cr.state == "valid" {
						return false, true
					}
				}
			}
			return nil, false
		}
		return sc
	}
	base := 1000*secNs + 300000000
	crs := []when{
		{"no creation time", "absent", 0},
		{"an invalid creation time", "invalid", 1000 * secNs},
		{"a creation time long ago", "valid", base},
		{"a creation time in the future", "valid", 90000*secNs + 123},
	}
	absent := when{"", "absent", 0}
	// the stored fields
	msgs := map[*Term][]*Path{}
	for _, p := range root.Paths {
		for _, e := range p.Events {
			if !isQueue(e) {
				continue
			}
			u := root.update(e)
			w := c.Where(e)
			n, ok := u.Cmd, false
			if n != nil {
				var k int64
				k, ok = n.ConstInt()
				ok = ok && k == c.cmdConst("Ticket")
			}
			c.Ob("C12,C13", ok, w, "a ticket creation is queued", "the command is "+tstr(u.Cmd))
			v := stripConv(u.Value)
			if v == nil || v.Op != "marshal" {
				c.Ob("C12", false, w, "the queued value is the encoded ticket", "it is "+tstr(u.Value))
				continue
			}
			c.Ob("C12,C17", encoded(e.Facts, v), w, "nothing is queued when the ticket cannot be encoded", "the error of the encoding is not looked at before")
			msgs[v.A[0]] = append(msgs[v.A[0]], p)
		}
	}
	// same: the value is the request's, or both are empty
	same := func(x *Term, path string, ps []*Path) bool {
		if fpath(un(x)) == path {
			return true
		}
		if !isZeroVal(x) {
			return false
		}
		for _, p := range ps {
			gone := false
			for _, f := range p.Facts {
				if f.T.Op != "eq" || !f.Val {
					continue
				}
				y := f.T.A[0]
				if y.Op == "len" {
					y = y.A[0]
				}
				q := fpath(un(y))
				if isZeroVal(f.T.A[1]) && q != "" && (path == q || strings.HasPrefix(path, q+".")) {
					gone = true
				}
			}
			if !gone {
				return false
			}
		}
		return true
	}
	for m, ps := range msgs {
		for _, f := range c.R.msgFields(pbPath, "Ticket") {
			v := in.Field(m, f.Name(), f.Type())
			switch f.Name() {
			case "Id", "ExpirationTime":
			case "Attributes":
				for _, g := range c.R.msgFields(pbPath, "Ticket_FilterableData") {
					if g.Name() == "CreationTime" {
						continue
					}
					x := in.Field(v, g.Name(), g.Type())
					c.Ob("C12", same(x, tick+".Attributes."+g.Name(), ps), where, "the stored ticket has the request's "+g.Name(), "stored is "+tstr(x))
				}
			default:
				c.Ob("C12", same(v, tick+"."+f.Name(), ps), where, "the stored ticket has the request's "+f.Name(), "stored is "+tstr(v))
			}
		}
	}
	c.Ob("C12", len(msgs) > 0, where, "a ticket is queued", "no queued ticket found")
	inst := Inst{}
	for _, cr := range crs {
		exs := []when{{"no expiration time", "absent", 0}, {"an invalid expiration time", "invalid", 1100 * secNs}}
		if cr.state == "valid" {
			lim := cr.at + ttl*secNs
			exs = append(exs,
				when{"an expiration time before the latest allowed", "valid", lim - 100000000},
				when{"the latest expiration time allowed", "valid", lim},
				when{"an expiration time just too late", "valid", lim + 1},
				when{"an expiration time a second too late", "valid", lim + secNs},
				when{"an expiration time far too late", "valid", lim + 1000*secNs},
				when{"an expiration time before the creation time", "valid", cr.at - 10*secNs})
		} else {
			exs = append(exs,
				when{"an expiration time in the past", "valid", 40000 * secNs},
				when{"an expiration time soon", "valid", 50100 * secNs},
				when{"an expiration time far in the future", "valid", 70000 * secNs})
		}
		for _, ex := range exs {
			sc := mk(cr, ex, true)
			name := cr.name + ", " + ex.name
			n := 0
			for _, p := range root.Paths {
				if len(sc.possible(p, inst)) == 0 {
					continue
				}
				var q *Event
				for _, e := range p.Events {
					if isQueue(e) {
						q = e
					}
				}
				if q == nil {
					c.Ob("C12", false, where, name+": the ticket is stored", "a path queues nothing and ends with "+p.Kind+" "+tstr(last(p.Ret)))
					continue
				}
				n++
				v := stripConv(root.update(q).Value)
				if v == nil || v.Op != "marshal" {
					continue
				}
				at := in.Field(v.A[0], "Attributes", nil)
				ft := timestampType(c)
				ct := in.Field(at, "CreationTime", ft)
				et := in.Field(v.A[0], "ExpirationTime", ft)
				cv, okc := sc.eval(ct, inst)
				ev, oke := sc.eval(et, inst)
				w := c.Where(q)
				if !okc || !oke {
					c.Ob("C12", false, w, name+": the stored times are understood", "creation "+tstr(ct)+", expiration "+tstr(et))
					continue
				}
				good := false
				if cr.state == "valid" {
					good = cv == any(cr.at)
				} else {
					for _, nv := range nows {
						if cv == any(nv) {
							good = true
						}
					}
				}
				c.Ob("C12", good, w, name+": the stored creation time is the request's if valid, else now", "it is "+tstr(ct))
				cn, _ := cv.(int64)
				want := cn + ttl*secNs
				if ex.state == "valid" && ex.at <= want {
					want = ex.at
				}
				c.Ob("C12", ev == any(want), w, name+": the stored expiration time is the request's if valid and allowed, else the latest allowed", "it is "+tstr(et)+fmt.Sprintf(" (%v, wanted %v)", ev, want))
			}
			c.Ob("C12", n > 0, where, name+": accepted", "no path stores the ticket")
		}
	}
	sc := mk(absent, absent, false)
	n := 0
	for _, p := range root.Paths {
		if len(sc.possible(p, inst)) == 0 {
			continue
		}
		n++
		why := refused(p)
		c.Ob("C12", why == "", where, "a request without a ticket is refused and stores nothing", why)
	}
	c.Ob("C12", n > 0, where, "a request without a ticket is refused", "no path")
	c.createReply(root)
}

func last(ts []*Term) *Term {
	if len(ts) == 0 {
		return nil
	}
	return ts[len(ts)-1]
}

func timestampType(c *Ctx) types.Type {
	for _, f := range c.R.msgFields(pbPath, "Ticket") {
		if f.Name() == "ExpirationTime" {
			return f.Type()
		}
	}
	return nil
}

// createReply: what CreateTicket returns.
func (c *Ctx) createReply(root *Root) {
	in := root.A.In
	for _, p := range root.Paths {
		var q, r []*Event
		for _, e := range p.Events {
			if isQueue(e) {
				q = append(q, e)
			}
			if isReply(e) {
				r = append(r, e)
			}
		}
		if !hasQueue(p) || p.Kind != "return" {
			continue
		}
		w := c.Where(firstOf(q, r))
		if len(q) != 1 || len(r) != 1 {
			c.Ob("C13", false, w, "one write and its reply", fmt.Sprintf("%d writes and %d replies on a path", len(q), len(r)))
			continue
		}
		ch := root.update(q[0]).Reply
		c.Ob("C13", ch == r[0].Args[0] && ch != nil && ch.Op == "mkchan", w, "the reply is read from the channel of that very write", "queued with "+tstr(ch)+", read from "+tstr(r[0].Args[0]))
		res := in.Field(r[0].Res, "Result", types.Typ[types.String])
		err := in.Field(r[0].Res, "Err", types.Universe.Lookup("error").Type())
		failed, known := false, false
		for _, f := range p.Facts {
			if f.T.Op == "eq" && f.T.A[0] == err && f.T.A[1].IsNil() {
				failed, known = !f.Val, true
			}
		}
		rerr := p.Ret[1]
		switch {
		case !known:
			ok := rerr == err || rerr.Op == "app" && strings.HasPrefix(rerr.S, "github.com/pkg/errors.W") && rerr.A[0] == err
			c.Ob("C17", ok, w, "the error of the reply is returned", "returned is "+tstr(rerr))
		case failed:
			c.Ob("C17", rerr == err || (&raiser{r: root}).up(raisedSet{}, p.Facts, rerr), w, "a failed write is returned as an error", "returned is "+tstr(rerr))
			continue
		default:
			c.Ob("C17", rerr.IsNil() || rerr == err, w, "a successful write is returned as success", "returned is "+tstr(rerr))
		}
		resp := p.Ret[0]
		id := root.fieldOf(p.Mem, resp, "TicketId")
		c.Ob("C13", id == res, w, "the returned id is the one in the reply", "it is "+tstr(id))
	}
}

func firstOf(xs ...[]*Event) *Event {
	for _, x := range xs {
		if len(x) > 0 {
			return x[0]
		}
	}
	return nil
}

// ---- C14 ----

func lenScenario(coll string, n, max int64, more func(t *Term) (any, bool)) *Scenario {
	sc := &Scenario{}
	sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
	sc.Val = func(t *Term, inst Inst) (any, bool) {
		switch t.Op {
		case "len":
			if fpath(t.A[0]) == coll {
				return n, true
			}
		case "conf":
			if t.S == "OM_MAX_STATE_UPDATES_PER_CALL" {
				if t.Aux == "Float64" {
					return float64(max), true
				}
				return max, true
			}
		case "eq":
			if t.A[1].IsNil() && fpath(t.A[0]) == coll && n > 0 {
				return false, true
			}
			if t.A[1].IsNil() && fpath(t.A[0]) == coll {
				return true, true
			}
		}
		if more != nil {
			return more(t)
		}
		return nil, false
	}
	return sc
}

func ruleLimits(c *Ctx) {
	const max = 10
	for _, h := range []string{"ActivateTickets", "DeactivateTickets", "CreateAssignments"} {
		root := c.Handler("C14", h)
		if root == nil {
			continue
		}
		coll := "arg1.TicketIds"
		if h == "CreateAssignments" {
			coll = "arg1.AssignmentRoster.Tickets"
		}
		where := c.FnWhere(root.Fn)
		for _, n := range []int64{0, 1, 2, max - 1, max, max + 1, max + 2, 2 * max, 1000 * max} {
			sc := lenScenario(coll, n, max, func(t *Term) (any, bool) {
				if v, ok := marshalOK(t, true); ok {
					return v, ok
				}
				if t.Op == "eq" && t.A[1].IsNil() {
					switch fpath(t.A[0]) {
					case "arg1.AssignmentRoster", "arg1.AssignmentRoster.Assignment":
						return false, true
					}
				}
				return nil, false
			})
			seen := 0
			for _, p := range root.Paths {
				if len(sc.possible(p, Inst{})) == 0 {
					continue
				}
				seen++
				name := fmt.Sprintf("%s with %d updates, the maximum being %d", h, n, max)
				if n > max || n == 0 && h != "CreateAssignments" {
					why := refused(p)
					c.Ob("C14", why == "", where, name+", is refused before anything is queued", why)
				} else if n > 0 {
					why := ""
					if !hasQueue(p) {
						why = "a path queues nothing and returns " + tstr(last(p.Ret))
					}
					c.Ob("C14", why == "", where, name+", is accepted", why)
				}
			}
			c.Ob("C14", seen > 0, where, fmt.Sprintf("%s with %d updates: analysed", h, n), "no path")
		}
	}
}

// ---- C15 ----

// validTest: t is the test of id against the pattern of the state storage.
func validTest(t *Term) (id *Term) {
	if t.Op != "app" || !strings.HasPrefix(t.S, "(*regexp.Regexp).Match") && !strings.HasPrefix(t.S, "regexp.Match") {
		return nil
	}
	re := t.A[0]
	if re.Op == "app" && strings.HasPrefix(re.S, "regexp.MustCompile") || re.Op == "res" && re.S == "0" && strings.HasPrefix(re.A[0].S, "regexp.Compile") {
		if re.Op == "res" {
			re = re.A[0]
		}
		re = re.A[0]
	}
	if re.Op != "call" || !strings.Contains(re.S, "GetReplIdValidationRegex") {
		return nil
	}
	return stripConv(t.A[1])
}

// requestGens follows queue events back to the elements of the request.
func (g *Gens) requestGens(gs []Gen, coll string, depth int) ([]Gen, string) {
	var out []Gen
	groups := map[string][]Gen{}
	var order []string
	for _, x := range gs {
		if len(x.Iters) != 1 {
			return nil, fmt.Sprintf("inside %d loops", len(x.Iters))
		}
		id := x.Iters[0].L.ID
		if groups[id] == nil {
			order = append(order, id)
		}
		groups[id] = append(groups[id], x)
	}
	for _, id := range order {
		gr := groups[id]
		l := gr[0].Iters[0].L
		lc := l.Coll
		if lc == nil && l.Kind == "count" {
			if b := stripConv(l.Bound); b.Op == "len" {
				lc = b.A[0]
			}
		}
		if lc == nil {
			return nil, "the loop's collection is not understood"
		}
		if fpath(lc) == coll {
			out = append(out, gr...)
			continue
		}
		if depth > 3 || !isLocal(lc) {
			return nil, "the loop goes over " + tstr(lc)
		}
		if ok, why := total(gr); !ok {
			return nil, why
		}
		in, ok := g.of(lc)
		if !ok {
			return nil, "the list " + tstr(lc) + " is not understood"
		}
		sub, why := g.requestGens(in, coll, depth+1)
		if why != "" {
			return nil, why
		}
		out = append(out, sub...)
	}
	return out, ""
}

func ruleActiveState(c *Ctx) {
	for _, h := range []struct{ name, cmd string }{{"ActivateTickets", "Activate"}, {"DeactivateTickets", "Deactivate"}} {
		root := c.Handler("C15", h.name)
		if root == nil {
			continue
		}
		g := root.Gens()
		where := c.FnWhere(root.Fn)
		cmd := c.cmdConst(h.cmd)
		const coll = "arg1.TicketIds"
		for _, p := range root.Paths {
			if p.Kind != "return" {
				c.Ob("C15", p.Kind == "fatal" || p.Kind == "panic", where, "ends", p.Kind)
				continue
			}
			if refused(p) == "" && len(lenScenario(coll, 5, 10, nil).possible(p, Inst{})) == 0 {
				continue // refusals for the number of ids are judged by C14
			}
			qs := gensOf(p, len(p.Events), isQueue)
			if len(qs) == 0 {
				c.Ob("C15", false, where, "every accepted request is processed", "a path queues nothing and returns "+tstr(last(p.Ret)))
				continue
			}
			for _, q := range qs {
				u := root.update(q.Ev)
				w := c.Where(q.Ev)
				n, ok := int64(0), false
				if u.Cmd != nil {
					n, ok = u.Cmd.ConstInt()
				}
				c.Ob("C15", ok && n == cmd, w, h.name+" queues "+h.cmd, "the command is "+tstr(u.Cmd))
				key := g.Expand(u.Key)
				c.Ob("C15", isElemOf(key, coll), w, h.name+" queues an id of the request", "the key is "+tstr(key))
			}
			gs, why := g.requestGens(qs, coll, 0)
			c.Ob("C15", why == "", where, h.name+": the queued ids come from the request's ids", why)
			if why != "" {
				continue
			}
			loops := map[string]*LoopSum{}
			for _, x := range gs {
				loops[x.Iters[0].L.ID] = x.Iters[0].L
			}
			c.Ob("C15", len(loops) == 1, where, h.name+": one pass over the request's ids", fmt.Sprintf("%d passes", len(loops)))
			for _, l := range loops {
				ok, why := complete(l)
				c.Ob("C15", ok, c.LoopWhere(l), h.name+": every id is looked at", why)
				for _, it := range l.Iters {
					n := 0
					for _, x := range gs {
						if x.Iters[0].P == it {
							n++
						}
					}
					valid, known := false, false
					for _, f := range it.Facts {
						if id := validTest(f.T); id != nil && isElemOf(id, coll) {
							valid, known = f.Val, true
						}
					}
					switch {
					case !known:
						c.Ob("C15", n == 0 && seenBefore(it, gs, 0), c.LoopWhere(l), h.name+": every id is tested against the pattern", "an iteration without test")
					case valid:
						c.Ob("C15", n == 1 || n == 0 && seenBefore(it, gs, 0), c.LoopWhere(l), h.name+": a well-formed id is queued exactly once", fmt.Sprintf("%d times under %s", n, litsStr(lastLits(it.Facts, 2))))
					default:
						c.Ob("C15", n == 0, c.LoopWhere(l), h.name+": a malformed id is not queued", fmt.Sprintf("%d times", n))
					}
				}
			}
			// malformed ids are reported
			z := root.raiser(g, func(q *Path) (bool, bool) {
				for _, f := range q.Facts {
					if id := validTest(f.T); id != nil && isElemOf(id, coll) {
						return !f.Val, !f.Val
					}
				}
				return false, false
			})
			for _, cs := range z.cases(p) {
				why := z.fails(p, cs, 1)
				c.Ob("C15", why == "", where, h.name+": a malformed id makes the call return an error", why)
				if why != "" || z.contradicts(z.run(p, raisedSet{}, &cs), p.Facts) || undetailed(p.Facts) {
					continue
				}
				c.Ob("C15", g.madeOf(last(p.Ret), p, func(t *Term, facts []Lit) bool {
					if t.Op != "elem" || !isElemOf(t, coll) {
						return false
					}
					for _, f := range facts {
						if id := validTest(f.T); id != nil && isElemOf(id, coll) && !f.Val {
							return true
						}
					}
					return false
				}), where, h.name+": the error names the malformed ids", "the error is "+tstr(last(p.Ret)))
			}
			c.Ob("C15", len(z.cases(p)) > 0, where, h.name+": malformed ids are recognised", "no test of the ids on the path")
		}
	}
}

// encoded: the facts say that encoding the message did not fail.
func encoded(facts []Lit, v *Term) bool {
	for _, l := range facts {
		if l.T.Op != "eq" || !l.T.A[1].IsNil() {
			continue
		}
		x := l.T.A[0]
		if x == v && !l.Val {
			return true
		}
		if l.Val && x.Op == "res" && x.S == "1" && len(x.A[0].A) > 0 && x.A[0].A[len(x.A[0].A)-1] == v.A[0] {
			return true
		}
	}
	return false
}

// undetailed: details could not be added to the error.
func undetailed(facts []Lit) bool {
	for _, l := range facts {
		if l.T.Op == "eq" && !l.Val && l.T.A[1].IsNil() && l.T.A[0].Any(func(x *Term) bool { return strings.HasSuffix(x.S, ".WithDetails") }) {
			return true
		}
	}
	return false
}

// madeOf: what the value is made of, directly or by way of variables of loops,
// lists, maps and messages, has a part with the property. The facts are those
// under which that part was taken.
func (g *Gens) madeOf(t *Term, p *Path, is func(t *Term, facts []Lit) bool) bool {
	seen := map[string]bool{}
	var from func(t *Term, facts []Lit, d int) bool
	from = func(t *Term, facts []Lit, d int) bool {
		if t == nil || d > 60 {
			return false
		}
		if is(t, facts) {
			return true
		}
		id := t.key + factStr(facts)
		if seen[id] {
			return false
		}
		seen[id] = true
		for _, a := range t.A {
			if from(a, facts, d+1) {
				return true
			}
		}
		switch t.Op {
		case "phi", "memphi":
			for _, l := range g.all[s2loop(t.S)] {
				init, next := g.stepOf(l, t)
				if init == nil {
					continue
				}
				if from(init, facts, d+1) {
					return true
				}
				for _, q := range l.Iters {
					if from(next(q), q.Facts, d+1) {
						return true
					}
				}
			}
		case "mkmap", "mkslice", "obj", "msg":
			for _, x := range g.sets[t] {
				fs := facts
				if x.Path != nil {
					fs = x.Path.Facts
				}
				if from(x.Key, fs, d+1) || from(x.Val, fs, d+1) {
					return true
				}
			}
			found := false
			g.root.WalkPaths(func(q *Path, _ *At) {
				if q.Mem == nil || found {
					return
				}
				for a, v := range q.Mem.m {
					if len(a.A) > 0 && a.A[0] == t && (a.Op == "fieldaddr" || a.Op == "indexaddr") && !found {
						found = from(v, q.Facts, d+1)
					}
				}
			})
			return found
		}
		return false
	}
	return from(t, p.Facts, 0)
}

// isElemOf: t is an element of the request's collection.
func isElemOf(t *Term, coll string) bool {
	t = stripConv(t)
	if t == nil {
		return false
	}
	return (t.Op == "elem" || t.Op == "index" || t.Op == "key") && len(t.A) > 0 && fpath(t.A[0]) == coll
}

// ---- C17 ----

func replyTrigger(root *Root) Trigger {
	return func(p *Path) (may, must bool) {
		for _, e := range p.Events {
			if !isReply(e) || e.Res == nil {
				continue
			}
			known := false
			for _, f := range p.Facts {
				t := f.T
				if t.Op == "eq" && t.A[1].IsNil() && t.A[0].Op == "field" && t.A[0].S == "Err" && t.A[0].A[0] == e.Res {
					known = true
					if !f.Val {
						may, must = true, true
					}
				}
			}
			if !known {
				may = true
			}
		}
		return
	}
}

func ruleUpdateErrors(c *Ctx) {
	for _, h := range []string{"ActivateTickets", "DeactivateTickets", "CreateAssignments"} {
		root := c.Handler("C17", h)
		if root == nil {
			continue
		}
		g := root.Gens()
		where := c.FnWhere(root.Fn)
		z := root.raiser(g, replyTrigger(root))
		n := 0
		for _, p := range root.Paths {
			for _, cs := range z.cases(p) {
				n++
				why := z.fails(p, cs, 1)
				w := where
				if cs.Loop != nil {
					w = c.LoopWhere(cs.Loop)
				}
				c.Ob("C17", why == "", w, h+": a failed update makes the call return an error", why)
			}
		}
		c.Ob("C17", n > 0, where, h+": replies are received", "none found")
		// and no error without a reason
		ok := root.raiser(g, func(p *Path) (may, must bool) {
			may, must = replyTrigger(root)(p)
			if must {
				return
			}
			for _, f := range p.Facts {
				if id := validTest(f.T); id != nil && !f.Val {
					return true, true
				}
				if f.T.Op == "eq" && f.Val && f.T.A[0].Op == "field" && f.T.A[0].S == "Id" {
					if s, ok := f.T.A[1].ConstStr(); ok && s == "" {
						return true, true
					}
				}
			}
			return
		})
		for _, p := range root.Paths {
			if p.Kind != "return" || !hasQueue(p) {
				continue
			}
			why := ok.succeeds(p, 1)
			c.Ob("C17", why == "", where, h+": when every update succeeds no error is returned", why)
		}
	}
}

// ---- C16, C26: replies ----

func ruleReplies(c *Ctx) {
	n := 0
	for _, root := range c.rpcs("C16,C26") {
		g := root.Gens()
		root.WalkPaths(func(p *Path, at *At) {
			if at != nil && at.Ev != nil && at.Ev.Kind == "loop" {
				return
			}
			qs := gensOf(p, len(p.Events), isQueue)
			chans := map[*Term][]Gen{}
			for _, q := range qs {
				u := root.update(q.Ev)
				chans[u.Reply] = append(chans[u.Reply], q)
			}
			for ch, gs := range chans {
				n++
				w := c.Where(gs[0].Ev)
				if ch == nil || ch.Op != "mkchan" {
					c.Ob("C16", false, w, "every update has a reply channel made by its submitter", "it is "+tstr(ch))
					continue
				}
				if p.Kind == "return" {
					why := root.balanced(g, p, len(p.Events), ch)
					c.Ob("C16,C26", why == "", w, "as many replies are received as updates were queued", why)
				}
				// room for the replies that are not read yet
				room := false
				cp := ch.A[0]
				if g.counts(cp, gs) {
					room = true
				}
				one := true
				for _, x := range gs {
					if len(x.Iters) > 0 {
						one = false
					}
				}
				if one && len(gs) == 1 {
					room = true
				}
				if !room {
					// at most one update per element, room for all elements
					if l, per := perPath(gs); l != nil {
						most := 0
						for _, k := range per {
							if k > most {
								most = k
							}
						}
						if tr := trip(root.A.In, l); most <= 1 && tr != nil && (tr == stripConv(cp) || sameLen(tr, stripConv(cp))) {
							room = true
						}
						// each update's reply is read before the next is queued
						rs := gensOf(p, len(p.Events), func(e *Event) bool { return isReply(e) && e.Args[0] == ch })
						if rl, _ := perPath(rs); rl != nil && rl.ID == l.ID && most <= 1 {
							room = true
						}
					}
				}
				c.Ob("C16,C26", room, w, "the reply channel has room for the replies that are not read yet", "capacity "+tstr(cp))
				// the request's own channel is not shared with other goroutines' updates
			}
		})
	}
	c.Ob("C16,C26", n > 0, "core", "submitters of updates", "none found")
}

// rpcs lists the handlers of the server.
func (c *Ctx) rpcs(props string) []*Root {
	var out []*Root
	ifc := c.R.iface(pbPath, "OpenMatchServiceServer")
	if ifc == nil {
		c.Ob(props, false, "pkg/pb", "the service interface exists", "OpenMatchServiceServer not found")
		return nil
	}
	for i := 0; i < ifc.NumMethods(); i++ {
		if m := ifc.Method(i); m.Exported() {
			if r := c.Handler(props, m.Name()); r != nil {
				out = append(out, r)
			}
		}
	}
	return out
}

// ---- C31 ----

func ruleAssignments(c *Ctx) {
	root := c.Handler("C31", "CreateAssignments")
	if root == nil {
		return
	}
	g := root.Gens()
	where := c.FnWhere(root.Fn)
	const coll = "arg1.AssignmentRoster.Tickets"
	in := root.A.In
	for _, miss := range []string{"arg1.AssignmentRoster", "arg1.AssignmentRoster.Assignment"} {
		sc := &Scenario{}
		sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
		sc.Val = func(t *Term, _ Inst) (any, bool) {
			if v, ok := marshalOK(t, true); ok {
				return v, ok
			}
			if t.Op == "eq" && t.A[1].IsNil() {
				p := fpath(t.A[0])
				if p == miss || strings.HasPrefix(p, miss+".") {
					return true, true
				}
				if p == "arg1.AssignmentRoster" {
					return false, true
				}
			}
			return nil, false
		}
		n := 0
		for _, p := range root.Paths {
			if len(sc.possible(p, Inst{})) == 0 {
				continue
			}
			n++
			why := refused(p)
			c.Ob("C31", why == "", where, "a request without "+miss[5:]+" is refused", why)
		}
		c.Ob("C31", n > 0, where, "a request without "+miss[5:]+": analysed", "no path")
	}
	isEmpty := func(t *Term) bool {
		if t.Op != "eq" {
			return false
		}
		s, ok := t.A[1].ConstStr()
		return ok && s == "" && t.A[0].Op == "field" && t.A[0].S == "Id"
	}
	for _, p := range root.Paths {
		if p.Kind != "return" || refused(p) == "" {
			continue
		}
		bad := false
		for _, f := range p.Facts {
			if v, ok := marshalOK(f.T, false); ok && v == any(f.Val) {
				bad = true
			}
		}
		qs := gensOf(p, len(p.Events), isQueue)
		if bad && len(qs) == 0 {
			c.Ob("C31", (&raiser{r: root}).up(raisedSet{}, p.Facts, last(p.Ret)), where, "an assignment that cannot be encoded is an error", "returned is "+tstr(last(p.Ret)))
			continue
		}
		if len(qs) == 0 {
			c.Ob("C31", false, where, "every accepted request is processed", "a path queues nothing and returns "+tstr(last(p.Ret)))
			continue
		}
		for _, q := range qs {
			u := root.update(q.Ev)
			w := c.Where(q.Ev)
			n, ok := int64(0), false
			if u.Cmd != nil {
				n, ok = u.Cmd.ConstInt()
			}
			c.Ob("C31", ok && n == c.cmdConst("Assign"), w, "an assignment is queued", "the command is "+tstr(u.Cmd))
			key := g.Expand(u.Key)
			c.Ob("C31", key != nil && key.Op == "field" && key.S == "Id" && isElemOf(key.A[0], coll), w, "the key is the id of a listed ticket", "it is "+tstr(key))
			v := stripConv(u.Value)
			ok = v != nil && v.Op == "marshal" && fpath(v.A[0]) == "arg1.AssignmentRoster.Assignment"
			if v != nil && v.Op == "marshal" && v.A[0].Op == "clone" {
				ok = fpath(v.A[0].A[0]) == "arg1.AssignmentRoster.Assignment"
			}
			c.Ob("C31", ok, w, "the value is the encoded assignment of the request", "it is "+tstr(u.Value))
			c.Ob("C31", !ok || encoded(q.Ev.Facts, v), w, "nothing is queued when the assignment cannot be encoded", "the error of the encoding is not looked at before")
		}
		gs, why := g.requestGens(qs, coll, 0)
		c.Ob("C31", why == "", where, "the queued ids come from the listed tickets", why)
		if why != "" {
			continue
		}
		loops := map[string]*LoopSum{}
		for _, x := range gs {
			loops[x.Iters[0].L.ID] = x.Iters[0].L
		}
		c.Ob("C31", len(loops) == 1, where, "one pass over the listed tickets", fmt.Sprintf("%d passes", len(loops)))
		for _, l := range loops {
			ok, why := complete(l)
			c.Ob("C31", ok, c.LoopWhere(l), "every listed ticket is looked at", why)
			for _, it := range l.Iters {
				n := 0
				for _, x := range gs {
					if x.Iters[0].P == it {
						n++
					}
				}
				empty, known := false, false
				for _, f := range it.Facts {
					if isEmpty(f.T) && isElemOf(f.T.A[0].A[0], coll) {
						empty, known = f.Val, true
					}
				}
				if known && empty {
					c.Ob("C31", n == 0, c.LoopWhere(l), "nothing is queued for a ticket without an id", fmt.Sprintf("%d updates", n))
				} else {
					c.Ob("C31", n == 1 && known, c.LoopWhere(l), "exactly one assignment is queued for each ticket with an id", fmt.Sprintf("%d times under %s", n, litsStr(lastLits(it.Facts, 2))))
				}
			}
		}
		z := root.raiser(g, func(q *Path) (bool, bool) {
			for _, f := range q.Facts {
				if isEmpty(f.T) && f.Val {
					return true, true
				}
			}
			return false, false
		})
		cs := z.cases(p)
		for _, cs := range cs {
			why := z.fails(p, cs, 1)
			c.Ob("C31", why == "", where, "a ticket without an id makes the call return an error", why)
		}
		c.Ob("C31", len(cs) > 0, where, "tickets without an id are recognised", "no test of the id on the path")
	}
	_ = in
}

// ---- the id pattern ----

func ruleIdFormat(c *Ctx) {
	fs := c.Impl(storePath, "StateReplicator", "GetReplIdValidationRegex")
	c.Ob("C15,C13", len(fs) > 0, storePath, "the state storages give a pattern for ids", "none found")
	for _, f := range fs {
		root := c.Root(f)
		for _, p := range root.Paths {
			if p.Kind != "return" {
				continue
			}
			s, ok := p.Ret[0].ConstStr()
			c.Ob("C15,C13", ok, c.FnWhere(f), "the pattern of ids is constant", "it is "+tstr(p.Ret[0]))
			if ok {
				why := sameLanguage(s, `\A[0-9]+-[0-9]+\z`)
				c.Ob("C15,C13", why == "", c.FnWhere(f), "the pattern matches exactly digits, a dash, digits", why)
			}
		}
	}
}
