package main

import (
	"fmt"
	"go/types"
	"slices"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The state storage implementations: every update of a batch is followed
// through the loops of SendUpdates (a typestate per update: written or not,
// reply made, error set, what the result is), and the table of what is written
// is compared with the table of what is read back.

const redigo = "github.com/gomodule/redigo/redis"

func init() {
	rule("storage-send", "C13,C16,C17,C18", "every update of a batch is written at most once and gets its own reply; failures are reported with the key", ruleStorageSend)
	rule("storage-read", "C13,C18,C19", "entries of the stream are read back as the updates that were written, once each and in order", ruleStorageRead)
	rule("memory-read", "C19,C23,C34", "the in-memory stream hands on everything it received", ruleMemoryRead)
	rule("memory-ids", "C13,C23", "ids of the in-memory storage are unique and of the form time-sequence", ruleMemoryIds)
	rule("trim", "C22,C23", "the stream is trimmed only of entries older than the ticket lifetime", ruleTrim)
	rule("connections", "C24", "connections taken from a pool are given back; writes go to the write endpoint", ruleConnections)
}

func isConnSend(e *Event) bool { return e.Kind == "call" && e.Name == "("+redigo+".Conn).Send" }
func isConnDo(e *Event) bool {
	return e.Kind == "call" && (e.Name == "("+redigo+".Conn).Do" || e.Name == redigo+".DoContext" || e.Name == redigo+".DoWithTimeout")
}

// cmdName is the name of the redis command a call issues.
func cmdName(e *Event) string {
	i := 1
	if !strings.HasPrefix(e.Name, "(") {
		i = 2
	}
	if i < len(e.Args) {
		if s, ok := e.Args[i].ConstStr(); ok {
			return s
		}
		return "?"
	}
	return ""
}

// cmdArgs are the arguments of a redis command.
func cmdArgs(r *Root, e *Event) []*Term {
	i := 2
	if !strings.HasPrefix(e.Name, "(") {
		i = 3
	}
	if i >= len(e.Args) {
		return nil
	}
	return r.list(e.Mem, e.Args[i])
}

// list flattens a slice that is written out in the code.
func (r *Root) list(m *Mem, t *Term) []*Term {
	var out []*Term
	switch t.Op {
	case "append":
		out = append(out, r.list(m, t.A[0])...)
		for _, x := range t.A[1:] {
			if x.Op == "spread" {
				out = append(out, r.list(m, x.A[0])...)
			} else {
				out = append(out, x)
			}
		}
		return out
	case "mkslice":
		if len(t.A) > 0 && isZeroVal(t.A[0]) {
			return nil
		}
	}
	for _, x := range r.A.elems(&State{mem: m}, t) {
		if x.Op == "spread" && x.A[0] != t {
			out = append(out, r.list(m, x.A[0])...)
		} else {
			out = append(out, x)
		}
	}
	return out
}

// replicators are the implementations of the state storage.
func (c *Ctx) replicators(props, method string) []*ssa.Function {
	fs := c.Impl(storePath, "StateReplicator", method)
	c.Ob(props, len(fs) > 0, storePath, "the state storage has implementations", "none found for "+method)
	return fs
}

// update is the state of one update of the batch at one point of the code.
type update struct {
	cmd      int64
	kind     string
	key, val bool // not empty
	// what has happened
	made, sent int
	err        bool
	res        string // "", key, own, or something else
	conv       bool   // its reply of the storage is unusable
	in         map[string]string
	id         string // memory: the id given
	why        string
}

func (u update) String() string {
	var in []string
	for k, v := range u.in {
		in = append(in, k+v)
	}
	sort.Strings(in)
	return fmt.Sprint(u.cmd, u.key, u.val, u.made, u.sent, u.err, u.res, u.conv, in, u.id, u.why)
}

func (u update) name() string {
	s := "an update of kind " + u.kind
	if !u.key {
		s += " without key"
	}
	if !u.val {
		s += " without value"
	}
	return s
}

func (u update) valid() bool {
	switch u.kind {
	case "ticket":
		return u.val
	case "activate", "deactivate":
		return u.key
	case "assign":
		return u.key && u.val
	}
	return false
}

type sender struct {
	c     *Ctx
	root  *Root
	g     *Gens
	arg   *Term // the updates
	out   *Term // the replies
	do    *Event
	doOK  bool
	redis bool
	lists map[*Term]string // local lists filled per update: what they hold
	sends int              // commands sent before the updates
	where string
	table map[int64][]string // written fields by kind
	seen  map[string]bool
}

func ruleStorageSend(c *Ctx) {
	for _, fn := range c.replicators("C13,C16,C17,C18", "SendUpdates") {
		root := c.Root(fn)
		if !c.Sound("C13,C16,C17,C18", root) {
			continue
		}
		s := &sender{c: c, root: root, g: root.Gens(), where: c.FnWhere(fn), table: map[int64][]string{}}
		root.WalkAll(func(e *Event, at *At) {
			if isConnSend(e) || isConnDo(e) {
				s.redis = true
			}
			if isConnSend(e) && cmdName(e) == "XADD" || e.Kind == "send" && isUpd(e) {
				c.Ob("C16", at.thread() == "", c.Where(e), "updates are written in the order of the batch", "they are written in a goroutine of their own")
			}
		})
		for _, p := range root.Paths {
			if p.Kind != "return" {
				continue
			}
			for _, doOK := range []bool{true, false} {
				s.path(p, doOK)
			}
		}
	}
}

// path follows the updates of a batch along one path.
func (s *sender) path(p *Path, doOK bool) {
	c := s.c
	s.do, s.doOK = nil, doOK
	s.lists = map[*Term]string{}
	s.sends = 0
	for _, e := range p.Events {
		if isConnDo(e) && cmdName(e) == "" {
			s.do = e
		}
	}
	if s.do == nil && !doOK {
		return
	}
	var ups []update
	names := []string{"ticket", "activate", "deactivate", "assign", "unknown", "unknown"}
	for i, cmd := range append(c.kinds(), 1001, -1001) {
		for k := 0; k < 4; k++ {
			for _, conv := range []bool{false, true} {
				if conv && (!doOK || !s.redis) {
					continue
				}
				ups = append(ups, update{cmd: cmd, kind: names[i], key: k&1 != 0, val: k&2 != 0, conv: conv})
			}
		}
	}
	// is this path one of a batch with updates and this outcome?
	sc := s.scenario(nil, nil, "")
	for _, f := range p.Facts {
		if f.T.Op == "eq" && f.Val && f.T.A[0].Op == "len" && f.T.A[0].A[0] == s.arg0() {
			return // no updates
		}
	}
	if !sc.consistent(p.Facts, Inst{}) {
		return
	}
	s.arg = s.arg0()
	if len(p.Ret) != 1 {
		c.Ob("C16", false, s.where, "replies are returned", "there are none")
		return
	}
	s.out = p.Ret[0]
	var stops []*Event
	for i, e := range p.Events {
		switch {
		case e.Kind == "loop":
			ups = s.loop(e, ups)
		case isConnSend(e):
			n := 0
			for _, u := range ups {
				n += u.sent
			}
			c.Ob("C16,C18", cmdName(e) != "XADD", c.Where(e), "each update is written where the updates are visited", "a write outside the loop over the updates")
			if n == 0 {
				s.sends++
			}
		case isConnDo(e) && cmdName(e) == "":
			stops = append(stops, e)
			for _, x := range p.Events[i+1:] {
				if x.Kind == "loop" {
					c.Ob("C16,C17", !anyEvent(x.Loop, isConnSend), c.Where(e), "replies are awaited when all updates have been sent", "updates are sent later")
				}
			}
		case e.Kind == "send" && isUpd(e):
			c.Ob("C16,C18", false, c.Where(e), "each update is written where the updates are visited", "a write outside the loop over the updates")
		case e.Kind == "store" && e.Args[0].Op == "fieldaddr" && (e.Args[0].A[0].Op == "index" || e.Args[0].A[0].Op == "elem") && e.Args[0].A[0].A[0] == s.out:
			c.Ob("C16,C17", false, c.Where(e), "replies are changed only in loops over the updates", "the reply at a fixed position is changed")
		}
	}
	if s.redis {
		c.Ob("C16,C17", len(stops) == 1, s.where, "the replies of the storage are read once", fmt.Sprintf("%d times", len(stops)))
	}
	for _, u := range ups {
		s.final(u, p)
	}
}

func (s *sender) arg0() *Term {
	n := len(s.root.Fn.Params)
	p := s.root.Fn.Params[n-1]
	return s.root.A.In.mk("param", paramName(s.root.Fn, n-1), p.Type(), p)
}

// final compares the outcome with what the submitter may rely on.
func (s *sender) final(u update, p *Path) {
	c := s.c
	id := u.String() + fmt.Sprint(s.doOK)
	if s.seen == nil {
		s.seen = map[string]bool{}
	}
	if s.seen[s.where+id] {
		return
	}
	s.seen[s.where+id] = true
	w := s.where
	if u.why != "" {
		c.Ob("C16,C17", false, w, "the reply of every update is followed", u.name()+": "+u.why)
		return
	}
	c.Ob("C16", u.made == 1, w, "every update has one reply at its position", fmt.Sprintf("%s has %d", u.name(), u.made))
	ok := u.sent == 1 || !u.valid() && u.sent == 0
	c.Ob("C16", ok, w, "every valid update is written exactly once", fmt.Sprintf("%s is written %d times", u.name(), u.sent))
	if s.redis && !u.valid() {
		c.Ob("C17,C18", u.sent == 0, w, "an update that is not valid is not written", u.name()+" is written")
	}
	good := u.sent == 1 && s.doOK && !u.conv
	what := " when the storage replied"
	switch {
	case !s.doOK:
		what = " when the batch failed"
	case u.conv && u.sent == 1:
		what = " when its write failed"
	}
	if good {
		c.Ob("C17", !u.err, w, "a successful write is not reported as failed", u.name()+what+" has an error")
		c.Ob("C13,C16", u.res == "own", w, "the result of an update is the reply of the storage to that update", u.name()+what+" has the result "+quote(u.res))
	} else {
		c.Ob("C17", u.err, w, "an update that was not written is reported with an error", u.name()+what+" has no error")
		c.Ob("C17", u.res == "key", w, "the reply of a failed update carries its key", u.name()+what+" has the result "+quote(u.res))
	}
}

func quote(s string) string {
	if s == "" {
		return `""`
	}
	return s
}

// isResp: the reply of the update the iteration of l is about.
func (s *sender) isResp(t *Term, l *LoopSum) bool {
	if l == nil {
		return false
	}
	switch t.Op {
	case "elem":
		return s2loop(t.S) == l.ID && (t.A[0] == s.out || s.kind(t.A[0]) == "resp")
	case "index":
		return t.A[0] == s.out && t.A[1].Op == "elem" && s2loop(t.A[1].S) == l.ID && s.kind(t.A[1].A[0]) == "idx"
	}
	return false
}

func (s *sender) isUpd(t *Term, l *LoopSum) bool {
	if l == nil {
		return false
	}
	switch t.Op {
	case "elem":
		return s2loop(t.S) == l.ID && (t.A[0] == s.arg || s.kind(t.A[0]) == "upd")
	case "index":
		return t.A[0] == s.arg && t.A[1].Op == "elem" && s2loop(t.A[1].S) == l.ID && s.kind(t.A[1].A[0]) == "idx"
	}
	return false
}

func (s *sender) kind(list *Term) string { return s.lists[list] }

// isReplies: the list of replies of the storage.
func (s *sender) isReplies(t *Term) bool {
	t = stripReply(t)
	return s.do != nil && t.Op == "res" && t.S == "0" && t.A[0] == s.do.Res
}

// stripReply removes conversions of the whole reply.
func stripReply(t *Term) *Term {
	for t.Op == "res" && t.S == "0" && t.A[0].Op == "app" && t.A[0].S == redigo+".Values" {
		t = t.A[0].A[0]
	}
	return t
}

// reply is the storage's reply a term is made from: "own", "foreign" or "".
func (s *sender) reply(t *Term, l *LoopSum) string {
	for d := 0; d < 6; d++ {
		switch {
		case t.Op == "res" && t.S == "0" && t.A[0].Op == "app" && (t.A[0].S == redigo+".String" || t.A[0].S == redigo+".Bytes"):
			t = t.A[0].A[0]
		case t.Op == "assert" || t.Op == "conv" || t.Op == "res" && t.A[0].Op == "assert":
			t = t.A[0]
		case t.Op == "index" && s.isReplies(t.A[0]):
			return s.own(t.A[1], l)
		case t.Op == "elem" && s.isReplies(t.A[0]):
			return "foreign"
		default:
			return ""
		}
	}
	return ""
}

// own: the position in the replies is the number of updates sent before.
func (s *sender) own(x *Term, l *LoopSum) string {
	if l == nil {
		return "foreign"
	}
	if x.Op == "idx" && s2loop(x.S) == l.ID && s.kind(l.Coll) != "" && s.sends == 0 {
		return "own" // over the updates that were sent
	}
	if x, m := linear(x); x != nil && (x.Op == "phi" || x.Op == "memphi") && s2loop(x.S) == l.ID {
		init, _ := s.g.stepOf(l, x)
		if init != nil {
			if n, ok := init.ConstInt(); ok && n+m == int64(s.sends) {
				return "own"
			}
		}
	}
	return "foreign"
}

// scenario gives the facts about one update their values.
func (s *sender) scenario(l *LoopSum, u *update, tag string) *Scenario {
	sc := &Scenario{}
	sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
	nilness := func(ok bool) (any, bool) {
		if ok {
			return errNone, true
		}
		return errSome, true
	}
	sc.Val = func(t *Term, _ Inst) (any, bool) {
		if s.do != nil && t.Op == "res" && t.A[0] == s.do.Res {
			if t.S == "1" {
				return nilness(s.doOK)
			}
			return nilness(!s.doOK)
		}
		if t.Op == "res" && t.S == "0" && stripReply(t) != t {
			if v, ok := sc.eval(stripReply(t), Inst{}); ok {
				return v, true
			}
		}
		if t.Op == "res" && t.S == "1" && t.A[0].Op == "app" && t.A[0].S == redigo+".Values" && s.isReplies(t.A[0].A[0]) {
			return nilness(s.doOK)
		}
		if t.Op == "len" && s.isReplies(t.A[0]) && s.doOK {
			return int64(5), true
		}
		if u == nil {
			return nil, false
		}
		str := func(b bool, v string) (any, bool) {
			if b {
				return v, true
			}
			return "", true
		}
		switch {
		case t.Op == "field" && s.isUpd(t.A[0], l):
			switch t.S {
			case "Cmd":
				return u.cmd, true
			case "Key":
				return str(u.key, witnessKey)
			case "Value":
				return str(u.val, witnessValue)
			}
		case t.Op == "field" && s.isResp(t.A[0], l):
			switch t.S {
			case "Err":
				return nilness(!u.err)
			case "Result":
				return str(u.res != "", u.res)
			}
		case t.Op == "res" && t.S == "1" && t.A[0].Op == "app" && (t.A[0].S == redigo+".String" || t.A[0].S == redigo+".Bytes"):
			switch s.reply(s.res0(t), l) {
			case "own":
				return nilness(!u.conv)
			}
		case t.Op == "app" && strings.HasPrefix(t.S, "assertok:") && len(t.A) == 1, strings.HasPrefix(t.Op, "assertok:") && len(t.A) == 1:
			if s.reply(t.A[0], l) == "own" {
				if strings.HasSuffix(t.S, "Error") || strings.HasSuffix(t.Op, "Error") || strings.HasSuffix(t.S, "error") || strings.HasSuffix(t.Op, "error") {
					return u.conv, true
				}
				return !u.conv, true
			}
		case nonNil(t):
			return nil, false
		}
		return nil, false
	}
	return sc
}

func (s *sender) res0(t *Term) *Term {
	return s.root.A.In.mk("res", "0", nil, nil, t.A[0])
}

// loop takes all updates through a loop.
func (s *sender) loop(e *Event, ups []update) []update {
	c, l := s.c, e.Loop
	isW := func(x *Event) bool {
		return isConnSend(x) && cmdName(x) == "XADD" || x.Kind == "send" && isUpd(x)
	}
	respAddr := func(t *Term) bool {
		return t.Op == "fieldaddr" && t.A[0].Typ != nil && strings.HasSuffix(typeStr(t.A[0].Typ), "store.StateResponse") || t.Op == "fieldaddr" && (s.isResp(t.A[0], l) || t.A[0].A != nil && len(t.A[0].A) > 0 && t.A[0].A[0] == s.out)
	}
	touches := anyEvent(l, func(x *Event) bool {
		if isW(x) {
			return true
		}
		if x.Kind != "store" {
			return false
		}
		a := x.Args[0]
		return respAddr(a) || a.Op == "indexaddr" && a.A[0] == s.out || a.Op == "elem" && a.A[0] == s.out
	})
	if s.out.Op == "phi" || s.out.Op == "memphi" {
		if s2loop(s.out.S) == l.ID {
			touches = true
		}
	}
	if !touches {
		return ups
	}
	w := c.LoopWhere(l)
	over := l.Coll
	ok, why := complete(l)
	if !ok && l.Kind == "count" {
		if ro, why2 := runsOut(l); ro {
			if tr := trip(s.root.A.In, l); tr != nil && tr.Op == "len" {
				ok, over = true, tr.A[0]
			} else {
				why = "it does not run over the updates"
			}
		} else {
			why = why2
		}
	}
	c.Ob("C16,C17", ok, w, "the loops over the updates visit all of them", why)
	if !ok {
		return nil
	}
	sub := s.kind(over) != ""
	dom := over == s.arg || over == s.out || sub || s.root.A.In.Len(over) == s.root.A.In.Len(s.arg)
	c.Ob("C16,C17", dom, w, "the loops run over the updates of the batch", "it runs over "+tstr(over))
	if !dom {
		return nil
	}
	// counters that stand for the position in the replies
	var ctr []*Term
	for _, it := range l.Iters {
		look := func(t *Term) {
			walkTerm(t, func(x *Term) {
				if x.Op != "index" || !s.isReplies(x.A[0]) {
					return
				}
				if b, _ := linear(x.A[1]); b != nil && (b.Op == "phi" || b.Op == "memphi") && s2loop(b.S) == l.ID {
					for _, y := range ctr {
						if y == b {
							return
						}
					}
					ctr = append(ctr, b)
				}
			})
		}
		for _, f := range it.Facts {
			look(f.T)
		}
		for _, x := range it.Events {
			for _, a := range x.Args {
				if a != nil {
					look(a)
				}
			}
		}
	}
	var out []update
	seen := map[string]bool{}
	for _, u := range ups {
		if sub && u.in[over.key] == "" {
			if !seen[u.String()] {
				seen[u.String()] = true
				out = append(out, u)
			}
			continue
		}
		n := 0
		for _, it := range l.Iters {
			v := u
			sc := s.scenario(l, &v, "")
			if !sc.consistent(it.Facts, Inst{}) {
				continue
			}
			n++
			for _, k := range ctr {
				_, next := s.g.stepOf(l, k)
				d := int64(-1)
				if next != nil {
					if nv := next(it); nv != nil {
						b, m := linear(nv)
						if b == k {
							d = m
						} else if nv == k {
							d = 0
						}
					}
				}
				c.Ob("C16", d == int64(u.sent), w, "the position in the storage's replies counts the updates that were written", fmt.Sprintf("it is raised by %d for %s that was written %d times", d, u.name(), u.sent))
			}
			s.step(l, it, &v, isW)
			if !seen[v.String()] {
				seen[v.String()] = true
				out = append(out, v)
			}
		}
		if n == 0 {
			c.Ob("C16,C17", false, w, "every update is handled", "nothing is done with "+u.name())
		}
	}
	// lists that are filled per update
	if !sub {
		for _, q := range s.accs(l) {
			k := ""
			for _, it := range l.Iters {
				if x := s.added(l, it, q); x != "" && x != "none" {
					k = x
				}
			}
			if k != "" && k != "bad" {
				s.lists[q] = k
			}
		}
	}
	return out
}

func walkTerm(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		f(t)
		for _, x := range t.A {
			rec(x)
		}
	}
	rec(t)
}

// accs are the accumulators of a loop.
func (s *sender) accs(l *LoopSum) []*Term {
	var out []*Term
	for _, p := range l.Phis {
		if t := l.PhiT[p]; t != nil && t.Op == "phi" && t != s.out {
			out = append(out, t)
		}
	}
	for _, m := range l.MemPhi {
		if m.T.Op == "memphi" && m.T != s.out {
			out = append(out, m.T)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].ID < out[j].ID })
	return out
}

// added tells what an iteration appends to a list: idx, resp, upd, none, bad.
func (s *sender) added(l *LoopSum, it *Path, q *Term) string {
	_, next := s.g.stepOf(l, q)
	if next == nil {
		return "bad"
	}
	v := next(it)
	if v == nil {
		return "bad"
	}
	if v == q {
		return "none"
	}
	if v.Op != "append" || v.A[0] != q || len(v.A) != 2 {
		return "bad"
	}
	x := v.A[1]
	switch {
	case x.Op == "idx" && s2loop(x.S) == l.ID:
		return "idx"
	case s.isUpd(x, l):
		return "upd"
	case x.Op == "obj" && s.made(l, it) == x:
		return "resp"
	}
	return "bad"
}

// made is the reply an iteration puts at the update's position.
func (s *sender) made(l *LoopSum, it *Path) *Term {
	if (s.out.Op == "phi" || s.out.Op == "memphi") && s2loop(s.out.S) == l.ID {
		_, next := s.g.stepOf(l, s.out)
		if next == nil {
			return nil
		}
		v := next(it)
		if v != nil && v.Op == "append" && v.A[0] == s.out && len(v.A) == 2 {
			return v.A[1]
		}
		return nil
	}
	var r *Term
	for _, e := range it.Events {
		if e.Kind == "store" && e.Args[0].Op == "indexaddr" && e.Args[0].A[0] == s.out {
			if x := e.Args[0].A[1]; x.Op == "idx" && s2loop(x.S) == l.ID {
				r = e.Args[1]
			}
		}
	}
	return r
}

// justAdded: the element at the loop's position of the list that each
// iteration appends one reply to.
func (s *sender) justAdded(t *Term, l *LoopSum, it *Path, resp *Term) bool {
	switch {
	case t.Op == "elem" && s2loop(t.S) == l.ID:
	case t.Op == "index" && t.A[1].Op == "idx" && s2loop(t.A[1].S) == l.ID:
	default:
		return false
	}
	v := t.A[0]
	if v.Op != "append" || len(v.A) != 2 || v.A[0] != s.out || v.A[1] != resp {
		return false
	}
	init, next := s.g.stepOf(l, s.out)
	if init == nil || next == nil || !isZeroVal(init) && init.Op != "mkslice" {
		return false
	}
	if init.Op == "mkslice" {
		if n, ok := init.A[0].ConstInt(); !ok || n != 0 {
			return false
		}
	}
	for _, x := range l.Iters {
		v := next(x)
		if v == nil || v.Op != "append" || v.A[0] != s.out || len(v.A) != 2 {
			return false
		}
	}
	return true
}

// step takes one update through one iteration.
func (s *sender) step(l *LoopSum, it *Path, u *update, isW func(*Event) bool) {
	c := s.c
	resp := s.made(l, it)
	if resp == nil {
		bad := false
		if (s.out.Op == "phi" || s.out.Op == "memphi") && s2loop(s.out.S) == l.ID {
			_, next := s.g.stepOf(l, s.out)
			bad = next == nil || next(it) != s.out
		}
		for _, e := range it.Events {
			if e.Kind == "store" && e.Args[0].Op == "indexaddr" && e.Args[0].A[0] == s.out {
				bad = true
			}
		}
		if bad {
			u.why = "the reply that is stored is not understood"
		}
	}
	m := map[string]string{}
	for k, v := range u.in {
		m[k] = v
	}
	u.in = m
	if s.kind(l.Coll) == "" {
		for _, q := range s.accs(l) {
			if x := s.added(l, it, q); x == "idx" || x == "resp" || x == "upd" {
				u.in[q.key] = x
			}
		}
	}
	id := ""
	keySet := (*Term)(nil)
	for _, e := range it.Events {
		switch {
		case isW(e):
			u.sent++
			if e.Kind == "send" {
				ok := s.isUpd(e.Args[1], l)
				c.Ob("C16,C18", ok, c.Where(e), "the update that is written is the one at the loop's position", "it is "+tstr(e.Args[1]))
				if keySet != nil {
					id = keySet.key
				}
			} else {
				s.written(l, e, u)
			}
		case e.Kind == "loop" && anyEvent(e.Loop, isW):
			u.why = "updates are written in an inner loop"
		case e.Kind == "store" && e.Args[0].Op == "fieldaddr" && s.isUpd(e.Args[0].A[0], l):
			if e.Args[0].S == "Key" && u.sent == 0 && !s.redis && u.kind == "ticket" {
				keySet = e.Args[1]
			} else {
				c.Ob("C13,C16,C18", false, c.Where(e), "updates are not changed when they are written", "the field "+e.Args[0].S+" of "+u.name()+" is changed")
			}
		case e.Kind == "store" && e.Args[0].Op == "fieldaddr" && s.isResp(e.Args[0].A[0], l):
			s.field(e.Args[0].S, e.Args[1], l, u, nil)
		case e.Kind == "store" && e.Args[0].Op == "fieldaddr" && len(e.Args[0].A[0].A) > 0 && e.Args[0].A[0].A[0] == s.out:
			u.why = "the reply of another position is changed"
		}
	}
	if resp != nil {
		u.made++
		u.err, u.res = false, ""
		if resp.Op != "obj" || it.Mem == nil {
			u.why = "the reply that is stored is not understood: " + tstr(resp)
			return
		}
		for _, f := range []string{"Err", "Result"} {
			v := it.Mem.m[s.root.A.In.FieldAddr(resp, f)]
			if v != nil {
				s.field(f, v, l, u, keySet)
			}
		}
		// the reply was appended and is then changed as the element at the
		// loop's position
		for _, e := range it.Events {
			if e.Kind == "store" && e.Args[0].Op == "fieldaddr" && s.justAdded(e.Args[0].A[0], l, it, resp) {
				s.field(e.Args[0].S, e.Args[1], l, u, keySet)
			}
		}
	}
	if !s.redis && u.sent > 0 {
		if u.kind == "ticket" {
			c.Ob("C13", id != "", s.c.LoopWhere(l), "a new ticket gets the id as its key before it is written", "no key is set before it is written")
		}
	}
}

// field sets a field of the reply.
func (s *sender) field(f string, v *Term, l *LoopSum, u *update, id *Term) {
	switch f {
	case "Err":
		switch {
		case v.IsNil():
			u.err = false
		case v.Op == "field" && v.S == "Err" && s.isResp(v.A[0], l):
		case nonNil(v):
			u.err = true
		default:
			x, ok := s.scenario(l, u, "").eval(v, Inst{})
			switch {
			case ok && x == errNone:
				u.err = false
			case ok && x == errSome:
				u.err = true
			default:
				u.why = "the error that is set is not understood: " + tstr(v)
			}
		}
	case "Result":
		if k, ok := v.ConstStr(); ok {
			u.res = k
			return
		}
		switch {
		case v.Op == "field" && v.S == "Key" && s.isUpd(v.A[0], l):
			u.res = "key"
		case v.Op == "field" && v.S == "Result" && s.isResp(v.A[0], l):
		case !s.redis && s.isId(v, l, u, id):
			u.res = "own"
		default:
			switch s.reply(v, l) {
			case "own":
				u.res = "own"
				if u.conv {
					u.res = ""
				}
			case "foreign":
				u.res = "the reply at another position"
			default:
				u.res = tstr(v)
			}
		}
	}
}

// isId: the id the in-memory storage gave: for tickets the same as the key.
func (s *sender) isId(v *Term, l *LoopSum, u *update, id *Term) bool {
	if u.kind == "ticket" {
		return id != nil && v == id
	}
	return v.Op != "const"
}

// written records the fields a kind of update is written with.
func (s *sender) written(l *LoopSum, e *Event, u *update) {
	c := s.c
	if !u.valid() {
		return
	}
	args := cmdArgs(s.root, e)
	sc := s.scenario(l, u, "")
	var fs []string
	for i, a := range args {
		v, ok := sc.eval(a, Inst{})
		if !ok {
			ps := "C18"
			if i <= 1 {
				// The stream and the id.
				ps = "C13,C18"
			}
			c.Ob(ps, false, c.Where(e), "what is written for an update is its kind, key and value", "it is "+tstr(a))
			return
		}
		fs = append(fs, fmt.Sprint(v))
	}
	w := c.Where(e)
	c.Ob("C13,C18", len(fs) >= 4 && fs[1] == "*", w, "the storage chooses the id of a new entry", "the command is XADD "+show(fs))
	if len(fs) < 4 {
		return
	}
	c.Ob("C18", len(fs)%2 == 0, w, "an entry is written as pairs of fields and values", "XADD "+show(fs))
	fs = append([]string{fs[0]}, fs[2:]...)
	// a present but irrelevant key or value must not matter
	if old, ok := s.table[u.cmd]; ok && !slices.Equal(old, fs) {
		c.Ob("C18", false, w, "every update of a kind is written in the same form", show(old)+" and "+show(fs))
	}
	s.table[u.cmd] = fs
}

// The updates that are followed through a storage have these keys and values.
// A value is any sequence of bytes of any length: this one must come through
// whatever is done to it on the way.
const (
	witnessKey = "\x01key"
	witnessId  = "\x01id"
)

var witnessValue = " \x01Va" + strings.Repeat("l\x00\xff%s\"\\\n\t", 8192) + "=ue\r\n "

func show(fs []string) string {
	s := strings.ReplaceAll(strings.Join(fs, " "), witnessValue, "$value")
	s = strings.ReplaceAll(s, "\x01", "$")
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// ---- reading back ----

type reader struct {
	c     *Ctx
	root  *Root
	g     *Gens
	do    *Event
	cur   string // the field that holds the position in the stream
	where string
}

// kinds are the constants of the four kinds of update.
func (c *Ctx) kinds() []int64 {
	return []int64{c.cmdConst("Ticket"), c.cmdConst("Activate"), c.cmdConst("Deactivate"), c.cmdConst("Assign")}
}

func ruleStorageRead(c *Ctx) {
	// what the writers write
	table := map[int64][]string{}
	for _, fn := range c.replicators("C13,C18,C19", "SendUpdates") {
		s := &sender{c: &Ctx{R: c.R, rule: &Rule{Name: "storage-read", Props: []string{"C13", "C16", "C17", "C18", "C19"}}, roots: c.roots, memo: c.memo, Cov: c.Cov, Stats: map[string]int{}}, root: c.Root(fn), where: c.FnWhere(fn), table: map[int64][]string{}}
		s.g = s.root.Gens()
		s.root.WalkAll(func(e *Event, _ *At) {
			if isConnSend(e) || isConnDo(e) {
				s.redis = true
			}
		})
		if !s.redis {
			continue
		}
		for _, p := range s.root.Paths {
			if p.Kind == "return" {
				s.path(p, true)
			}
		}
		table = s.table
	}
	for _, k := range c.kinds() {
		c.Ob("C18", table[k] != nil, "core", "what is written for each kind of update is known", fmt.Sprintf("unknown for kind %d", k))
	}
	n := 0
	for _, fn := range c.replicators("C13,C18,C19", "GetUpdates") {
		root := c.Root(fn)
		if !c.Sound("C13,C18,C19", root) {
			continue
		}
		r := &reader{c: c, root: root, g: root.Gens(), where: c.FnWhere(fn)}
		redis := false
		root.WalkAll(func(e *Event, _ *At) {
			if isConnDo(e) || isConnSend(e) {
				redis = true
			}
		})
		if !redis {
			continue
		}
		n++
		for _, p := range root.Paths {
			if p.Kind != "return" && p.Kind != "panic" {
				continue
			}
			r.path(p, table)
		}
		c.Ob("C19", r.cur != "", r.where, "the position in the stream is kept", "no position is passed to XREAD")
		if r.cur != "" {
			r.start(fn)
		}
	}
	c.Ob("C18,C19", n > 0, "core", "a storage reads a stream of entries", "none does")
}

// start: the position begins at the start of the stream and is not set by
// anything else.
func (r *reader) start(fn *ssa.Function) {
	c := r.c
	st := fn.Signature.Recv().Type()
	found := 0
	inits := map[*ssa.Function]bool{}
	for _, f := range c.R.makers(st) {
		root := c.Root(f)
		for x := range root.A.Covered {
			inits[x] = true
		}
		for _, p := range root.Paths {
			if p.Kind != "return" {
				continue
			}
			for _, t := range p.Ret {
				if t.Op != "obj" || p.Mem == nil || !sameType(t.Typ, st) {
					continue
				}
				found++
				v := p.Mem.m[root.A.In.FieldAddr(t, r.cur)]
				s := ""
				if v != nil {
					s, _ = v.ConstStr()
				}
				c.Ob("C19", s == "0-0" || s == "0", c.FnWhere(f), "reading starts at the beginning of the stream", "it starts at "+quote(s))
			}
		}
	}
	c.Ob("C19", found > 0, r.where, "the storage is set up by a constructor", "none found")
	for _, f := range c.R.fieldWriters(st, r.cur) {
		c.Ob("C19", r.root.A.Covered[f] || inits[f], c.FnWhere(f), "only reading moves the position in the stream", fnShort(f)+" sets it")
	}
}

func (r *reader) isReply(t *Term) bool {
	for d := 0; d < 8 && t != nil; d++ {
		switch {
		case t.Op == "res" && t.S == "0" && t.A[0] == r.do.Res:
			return true
		case t.Op == "index" || t.Op == "elem" || t.Op == "assert" || t.Op == "slice":
			t = t.A[0]
		case t.Op == "res" && t.S == "0" && t.A[0].Op == "app" && t.A[0].S == redigo+".Values":
			t = t.A[0].A[0]
		case t.Op == "res" && t.S == "0" && t.A[0].Op == "assert":
			t = t.A[0].A[0]
		default:
			return false
		}
	}
	return false
}

func plain(t *Term) *Term {
	for t != nil {
		switch {
		case t.Op == "res" && t.S == "0" && t.A[0].Op == "app" && (t.A[0].S == redigo+".Values" || t.A[0].S == redigo+".Strings" || t.A[0].S == redigo+".String" || t.A[0].S == redigo+".Bytes" || t.A[0].S == redigo+".ByteSlices"):
			t = t.A[0].A[0]
		case t.Op == "assert" || t.Op == "conv":
			t = t.A[0]
		case t.Op == "res" && t.S == "0" && t.A[0].Op == "assert":
			t = t.A[0].A[0]
		default:
			return t
		}
	}
	return t
}

// path checks one path of the reader.
func (r *reader) path(p *Path, table map[int64][]string) {
	c := r.c
	r.do = nil
	var pos *Term
	for _, e := range p.Events {
		if isConnDo(e) && cmdName(e) != "" {
			c.Ob("C19", r.do == nil && cmdName(e) == "XREAD", c.Where(e), "the entries after a position are read by one XREAD", "the command is "+cmdName(e))
			if r.do != nil {
				return
			}
			r.do = e
			args := cmdArgs(r.root, e)
			at := -1
			for i, a := range args {
				if s, ok := a.ConstStr(); ok && strings.EqualFold(s, "STREAMS") {
					at = i
				}
			}
			if at < 0 || len(args) != at+3 {
				c.Ob("C19", false, c.Where(e), "XREAD names the stream and the position", fmt.Sprintf("%d arguments", len(args)))
				return
			}
			str, _ := args[at+1].ConstStr()
			for _, k := range c.kinds() {
				if t := table[k]; t != nil {
					c.Ob("C18,C19", str == t[0], c.Where(e), "the stream that is read is the one that is written", str+" against "+t[0])
				}
			}
			pos = args[at+2]
			ok := pos.Op == "field" && pos.A[0].Op == "param" && pos.A[0].S == "recv"
			c.Ob("C19", ok, c.Where(e), "entries after the last one consumed are asked for", "the position is "+tstr(pos))
			if !ok {
				return
			}
			r.cur = pos.S
		}
	}
	if r.do == nil {
		c.Ob("C19", p.Kind == "panic", r.where, "the stream is read", "a path does not read it: "+litsStr(lastLits(p.Facts, 2)))
		return
	}
	isCur := func(e *Event) bool {
		return e.Kind == "store" && e.Args[0].Op == "fieldaddr" && e.Args[0].S == r.cur && e.Args[0].A[0].Op == "param"
	}
	isAdd := func(l *LoopSum) bool {
		for _, it := range l.Iters {
			for _, e := range it.Events {
				if isCur(e) {
					return true
				}
			}
		}
		return anyAppends(l)
	}
	for _, ok := range []bool{true, false} {
		sc := r.scenario(nil, nil, ok, false)
		if !sc.consistent(p.Facts, Inst{}) {
			continue
		}
		var loops []*LoopSum
		var up []*LoopSum
		var find func(es []*Event, chain []*LoopSum)
		find = func(es []*Event, chain []*LoopSum) {
			for _, e := range es {
				if e.Kind != "loop" || e.Loop.Coll == nil || !r.isReply(e.Loop.Coll) {
					continue
				}
				inner := false
				for _, it := range e.Loop.Iters {
					for _, x := range it.Events {
						if x.Kind == "loop" && x.Loop.Coll != nil && r.isReply(x.Loop.Coll) {
							inner = true
						}
					}
				}
				ch := append(append([]*LoopSum{}, chain...), e.Loop)
				if !inner {
					if isAdd(e.Loop) {
						loops = append(loops, e.Loop)
						up = ch
					}
					continue
				}
				seen := map[string]bool{}
				for _, it := range e.Loop.Iters {
					for _, x := range it.Events {
						if x.Kind == "loop" && !seen[x.Loop.ID] {
							seen[x.Loop.ID] = true
							find([]*Event{x}, ch)
						}
					}
				}
			}
		}
		find(p.Events, nil)
		if !ok {
			for _, e := range p.Events {
				c.Ob("C19", !isCur(e), r.where, "the position does not move when reading fails", "it is set")
			}
			continue
		}
		if p.Kind == "panic" {
			c.Ob("C18", false, r.where, "reading does not crash", "a panic under "+litsStr(lastLits(p.Facts, 2)))
			continue
		}
		c.Ob("C18,C19", len(loops) == 1, r.where, "the entries that were read are visited once", fmt.Sprintf("%d loops over the entries under %s", len(loops), litsStr(lastLits(p.Facts, 2))))
		if len(loops) != 1 {
			continue
		}
		for _, l := range up {
			okc, why := complete(l)
			c.Ob("C19", okc, c.LoopWhere(l), "all entries that were read are visited in order", why)
		}
		l := loops[0]
		out := p.Ret[0]
		acc := out
		if (out.Op == "phi" || out.Op == "memphi") && s2loop(out.S) != l.ID {
			acc = nil
			for _, q := range accsOf(l) {
				if r.g.outer(q) == out {
					acc = q
				}
			}
		}
		if acc == nil || (acc.Op != "phi" && acc.Op != "memphi") || s2loop(acc.S) != l.ID {
			c.Ob("C18,C19", false, r.where, "the updates read are returned", "returned is "+tstr(out))
			continue
		}
		init, _ := r.g.stepOf(up[0], r.g.outer(acc))
		c.Ob("C19", init != nil && isZeroVal(init), c.LoopWhere(l), "only the updates read are returned", "the list starts as "+tstr(init))
		// after the loop: the position may be set to the last entry
		var late *Term
		after := false
		for _, e := range p.Events {
			if e.Kind == "loop" && e.Loop == up[0] {
				after = true
			} else if isCur(e) {
				late = e.Args[1]
				c.Ob("C19", after, c.Where(e), "the position moves only to entries that were read", "it is set before")
			}
		}
		r.entries(l, acc, late, pos, table, isCur)
	}
}

func accsOf(l *LoopSum) []*Term {
	s := &sender{out: nil}
	return s.accs(l)
}

func anyAppends(l *LoopSum) bool {
	for _, q := range accsOf(l) {
		if q.Typ != nil && strings.Contains(typeStr(q.Typ), updType) {
			return true
		}
	}
	return false
}

// scenario: the reply and one of its entries.
func (r *reader) scenario(l *LoopSum, y []string, ok, entryErr bool) *Scenario {
	sc := &Scenario{}
	sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
	nilness := func(b bool) (any, bool) {
		if b {
			return errNone, true
		}
		return errSome, true
	}
	isEnt := func(t *Term) bool {
		t = plain(t)
		return l != nil && t.Op == "elem" && s2loop(t.S) == l.ID && t.A[0] == l.Coll
	}
	part := func(t *Term, k int64) bool {
		t = plain(t)
		if t.Op != "index" || !isEnt(t.A[0]) {
			return false
		}
		n, ok := t.A[1].ConstInt()
		return ok && n == k
	}
	sc.Val = func(t *Term, _ Inst) (any, bool) {
		if r.do != nil && t.Op == "res" && t.A[0] == r.do.Res {
			if t.S == "1" {
				return nilness(ok)
			}
			return nilness(!ok)
		}
		if t.Op == "assertok" && len(t.A) == 1 && r.isReply(t.A[0]) {
			isErr := t.S == redigo+".Error" || t.S == "error"
			if isErr {
				return false, true
			}
			return ok, true
		}
		if t.Op == "res" && t.S == "1" && t.A[0].Op == "app" && strings.HasPrefix(t.A[0].S, redigo+".") && len(t.A[0].A) > 0 && r.isReply(t.A[0].A[0]) {
			return nilness(!entryErr)
		}
		if t.Op == "len" && r.isReply(t.A[0]) && ok && !part(t.A[0], 1) {
			if isEnt(t.A[0]) {
				return int64(2), true
			}
			if l == nil || t.A[0] != l.Coll {
				return int64(2), true
			}
			return nil, false
		}
		if l == nil {
			return nil, false
		}
		switch {
		case part(t, 0):
			return witnessId, true
		case part(t, 1):
			return y, true
		}
		if u := plain(t); u != t && u.Op == "index" {
			return sc.eval(u, Inst{})
		}
		return nil, false
	}
	return sc
}

// entries: what happens with each kind of entry.
func (r *reader) entries(l *LoopSum, acc, late, pos *Term, table map[int64][]string, isCur func(*Event) bool) {
	c := r.c
	type entryCase struct {
		y    []string
		cmd  int64
		bad  bool
		errs bool
	}
	ks := c.kinds()
	var cases []entryCase
	names := map[string]bool{}
	for _, k := range ks {
		t := table[k]
		if len(t) < 2 {
			continue
		}
		cases = append(cases, entryCase{y: t[1:], cmd: k})
		c.Ob("C18", !names[t[1]], "core", "kinds of update are told apart by their first field", t[1]+" is used twice")
		names[t[1]] = true
		// entries with fields missing
		need := 0
		for i, f := range t[1:] {
			if strings.Contains(f, "\x01") {
				need = i
			}
		}
		for n := 1; n <= need; n++ {
			cases = append(cases, entryCase{y: t[1 : 1+n], cmd: k, bad: true})
		}
	}
	for _, y := range [][]string{{}, {"\x01bogus"}, {"\x01bogus", witnessValue}, {"", witnessValue}, {"\x01bogus", witnessKey, "connection", witnessValue}} {
		cases = append(cases, entryCase{y: y, bad: true})
	}
	cases = append(cases, entryCase{y: []string{}, bad: true, errs: true})
	w := c.LoopWhere(l)
	_, next := r.g.stepOf(l, acc)
	for _, ec := range cases {
		sc := r.scenario(l, ec.y, true, ec.errs)
		id := "an entry " + quote(show(ec.y))
		n := 0
		for _, it := range l.Iters {
			// facts in the order they were established
			crash := ""
			over := func(t *Term) {
				walkTerm(t, func(x *Term) {
					if x.Op != "index" {
						return
					}
					v, ok := sc.eval(x.A[0], Inst{})
					ys, isY := v.([]string)
					k, ok2 := sc.eval(x.A[1], Inst{})
					i, isI := k.(int64)
					if ok && isY && ok2 && isI && (i < 0 || int(i) >= len(ys)) {
						crash = fmt.Sprintf("field %d of %s is used", i, id)
					}
				})
			}
			poss := true
			for _, f := range it.Facts {
				over(f.T)
				if crash != "" {
					break
				}
				if !sc.consistent([]Lit{f}, Inst{}) {
					poss = false
					break
				}
			}
			if !poss {
				continue
			}
			n++
			if crash == "" {
				for _, e := range it.Events {
					for _, a := range e.Args {
						if a != nil && e.Kind != "loop" {
							over(a)
						}
					}
				}
			}
			c.Ob("C18", crash == "", w, "an entry with missing fields does not crash the reader", crash)
			c.Ob("C18", it.Kind != "panic", w, "reading does not crash", id+" causes a panic")
			if crash != "" {
				continue
			}
			var got []*Term
			v := next(it)
			if v != acc {
				if v == nil || v.Op != "append" || v.A[0] != acc {
					c.Ob("C19", false, w, "updates are returned in the order of the entries", "the list becomes "+tstr(v))
					continue
				}
				got = v.A[1:]
			}
			if ec.bad {
				c.Ob("C18", len(got) == 0, w, "an unknown or malformed entry gives no update", id+" gives one")
			} else {
				c.Ob("C18,C19", len(got) == 1, w, "every entry gives one update", fmt.Sprintf("%s gives %d", id, len(got)))
				if len(got) == 1 {
					r.same(got[0], it, sc, ec.cmd, id, table, w)
				}
			}
			// the position
			var cur *Term
			for _, e := range it.Events {
				if isCur(e) {
					cur = e.Args[1]
				}
			}
			if cur == nil && late != nil && (late.Op == "phi" || late.Op == "memphi") && s2loop(late.S) == l.ID {
				_, nx := r.g.stepOf(l, late)
				if nx != nil {
					cur = nx(it)
				}
			}
			val, okv := any(nil), false
			if cur != nil {
				val, okv = sc.eval(cur, Inst{})
			}
			if !ec.errs {
				c.Ob("C19", okv && val == witnessId, w, "the position moves to each entry as it is consumed", "after "+id+" it is "+tstr(cur))
			}
		}
		c.Ob("C18,C19", n > 0, w, "every entry is handled", "no iteration for "+id)
	}
}

// same: the update read back is the one that was written.
func (r *reader) same(t *Term, it *Path, sc *Scenario, cmd int64, id string, table map[int64][]string, w string) {
	c := r.c
	get := func(f string) any {
		if t.Op != "obj" || it.Mem == nil {
			return nil
		}
		v := it.Mem.m[r.root.A.In.FieldAddr(t, f)]
		if v == nil {
			if f == "Cmd" {
				return int64(0)
			}
			return ""
		}
		x, ok := sc.eval(v, Inst{})
		if !ok {
			return tstr(v)
		}
		return x
	}
	ks := c.kinds()
	key, val := any(witnessKey), any("")
	switch cmd {
	case ks[0]:
		key, val = witnessId, witnessValue
	case ks[3]:
		val = witnessValue
	}
	sh := func(x any) string { return quote(show([]string{fmt.Sprint(x)})) }
	c.Ob("C18", get("Cmd") == any(cmd), w, "an entry is read back as the kind of update that was written", fmt.Sprintf("%s becomes kind %v", id, get("Cmd")))
	ps := "C18"
	if cmd == ks[0] {
		ps = "C13,C18"
	}
	c.Ob(ps, get("Key") == key, w, "an entry is read back with the key that was written (a ticket's is its stream id)", fmt.Sprintf("%s has the key %s", id, sh(get("Key"))))
	c.Ob("C18", get("Value") == val, w, "an entry is read back with the value that was written", fmt.Sprintf("%s has the value %s", id, sh(get("Value"))))
}

// makers are the functions that return a *T (T the receiver's type).
func (r *Repo) makers(t types.Type) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.Funcs {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Blocks == nil {
			continue
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			if types.Identical(f.Signature.Results().At(i).Type(), t) {
				out = append(out, f)
				break
			}
		}
	}
	return out
}

func sameType(a, ptr types.Type) bool {
	p, ok := ptr.(*types.Pointer)
	return ok && a != nil && (types.Identical(a, p.Elem()) || types.Identical(a, ptr))
}

// fieldWriters are the functions that store to a field of T.
func (r *Repo) fieldWriters(t types.Type, field string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range r.Funcs {
		w := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok || !types.Identical(fa.X.Type(), t) || fldName(fa) != field {
					continue
				}
				for _, ref := range *fa.Referrers() {
					switch x := ref.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.Store:
						w = w || x.Addr == fa
					default:
						w = true
					}
				}
			}
		}
		if w {
			out = append(out, f)
		}
	}
	return out
}

func fldName(fa *ssa.FieldAddr) string {
	n, _ := fieldName(fa.X.Type(), fa.Field)
	return n
}

// ---- the in-memory stream ----

func (c *Ctx) memories(props, method string) []*Root {
	var out []*Root
	for _, fn := range c.replicators(props, method) {
		root := c.Root(fn)
		if !c.Sound(props, root) {
			continue
		}
		redis := false
		root.WalkAll(func(e *Event, _ *At) {
			if isConnDo(e) || isConnSend(e) {
				redis = true
			}
		})
		if !redis {
			out = append(out, root)
		}
	}
	c.Ob(props, len(out) > 0, "core", "there is an in-memory state storage", "none found for "+method)
	return out
}

func ruleMemoryRead(c *Ctx) {
	sent := map[string]bool{}
	for _, root := range c.memories("C19,C23", "SendUpdates") {
		root.WalkAll(func(e *Event, _ *At) {
			if e.Kind == "send" && isUpd(e) {
				sent[e.Args[0].key] = true
			}
		})
	}
	for _, root := range c.memories("C19,C23", "GetUpdates") {
		isIn := func(e *Event) bool { return e.Kind == "recv" && isUpd(e) }
		o := &outgoing{c: c, root: root, g: root.Gens(), isIn: isIn, ret: true, props: "C19", what: "update"}
		n := 0
		fam := map[*Term]bool{}
		for _, p := range root.Paths {
			if p.Kind == "return" && len(p.Ret) == 1 {
				for a := range o.family(p.Ret[0]) {
					fam[a] = true
				}
			}
		}
		root.WalkAll(func(e *Event, at *At) {
			if isIn(e) {
				n++
				c.Ob("C19", sent[e.Args[0].key], c.Where(e), "updates are read from where they are written", "they are read from "+tstr(e.Args[0]))
				c.Ob("C19", at.thread() == "", c.Where(e), "updates are read in order", "in a goroutine of their own")
				if l := at.Innermost(); l != nil && l.Kind != "count" && l.Kind != "slice" {
					why := receivesForever(l)
					c.Ob("C34", why == "", c.Where(e), "reading the state storage ends after a bounded time", why)
				}
			}
			if e.Kind == "recv" && timerOf(e.Args[0]) != nil {
				if d := timerDur(timerOf(e.Args[0])); d != nil {
					c.Ob("C23", isMillis(d, "OM_CACHE_IN_WAIT_TIMEOUT_MS"), c.Where(e), "the waiting time is the configured number of milliseconds", "it is "+tstr(d))
				}
			}
		})
		c.Ob("C19", n > 0, c.FnWhere(root.Fn), "updates are read from the stream", "nothing is received")
		o.conserve(fam, "what is read", func(*Event) *Term { return nil })
		for _, p := range root.Paths {
			if p.Kind == "return" {
				why := o.balance(p, nil, fam, func(*Event) *Term { return nil })
				c.Ob("C19", why == "", c.FnWhere(root.Fn), "all updates that were read are returned", why)
			}
		}
	}
}

// ruleMemoryIds: each id is greater than the one before, whatever the clock
// says.
func ruleMemoryIds(c *Ctx) {
	for _, root := range c.memories("C13,C23", "SendUpdates") {
		w := c.FnWhere(root.Fn)
		n := 0
		root.WalkAll(func(e *Event, at *At) {
			if e.Kind != "store" || e.Args[0].Op != "fieldaddr" || e.Args[0].S != "Key" || at.Loop() == nil || !strings.HasSuffix(typeStr(e.Args[0].A[0].Typ), updType) {
				return
			}
			n++
			c.memoryId(at.Loop(), at.Path, e.Args[1], c.Where(e))
		})
		c.Ob("C13", n > 0, w, "new tickets get an id", "no id is set")
	}
}

func (c *Ctx) memoryId(l *LoopSum, it *Path, id *Term, w string) {
	// the state the ids are made from: fields of the storage
	var fields []*Term
	addf := func(t *Term) {
		for _, x := range fields {
			if x == t {
				return
			}
		}
		fields = append(fields, t)
	}
	for k, m := range l.MemPhi {
		if k.Op == "fieldaddr" && k.A[0].Op == "param" && m.T.Op == "memphi" {
			addf(k)
		}
	}
	sort.Slice(fields, func(i, j int) bool { return fields[i].S < fields[j].S })
	var nows []*Term
	look := func(t *Term) {
		walkTerm(t, func(x *Term) {
			if x.Op == "now" {
				for _, y := range nows {
					if x == y {
						return
					}
				}
				nows = append(nows, x)
			}
		})
	}
	look(id)
	for _, f := range it.Facts {
		look(f.T)
	}
	for _, e := range it.Events {
		for _, a := range e.Args {
			if a != nil {
				look(a)
			}
		}
	}
	if len(fields) == 0 || len(fields) > 3 || len(nows) > 3 {
		c.Ob("C13", false, w, "the state that ids are made from is recognised", fmt.Sprintf("%d fields, %d clock readings", len(fields), len(nows)))
		return
	}
	const T = int64(1700000000000)
	// which field holds the time, which the counter?
	best := "no field holds time and counter"
	for ti := range fields {
		for ci := range fields {
			if ti == ci && len(fields) > 1 {
				continue
			}
			why := c.idsRise(l, it, id, fields, ti, ci, nows, T)
			if why == "" {
				c.Ob("C13", true, w, "every id is greater than the one before and of the form time-sequence", "")
				c.Ob("C23", true, w, "the time in an id is in milliseconds", "")
				return
			}
			if fields[ti].S < fields[ci].S || best == "no field holds time and counter" {
				best = why
			}
			if timeField(l, fields[ti]) {
				best = why
				ps := "C13"
				if strings.HasPrefix(why, "unit:") {
					ps = "C13,C23"
				}
				c.Ob(ps, false, w, "every id is greater than the one before and of the form time-sequence", why)
				return
			}
		}
	}
	c.Ob("C13", false, w, "every id is greater than the one before and of the form time-sequence", best)
}

func timeField(l *LoopSum, f *Term) bool {
	m := l.MemPhi[f]
	return m.T != nil && m.T.Typ != nil && isTimeStruct(m.T.Typ)
}

func (c *Ctx) idsRise(l *LoopSum, it *Path, id *Term, fields []*Term, ti, ci int, nows []*Term, T int64) string {
	offs := []int64{-3600000, -1, 0, 1, 5000}
	idx := make([]int, len(nows))
	n := 0
	for {
		for _, cnt := range []int64{0, 1, 9, 41} {
			sc := &Scenario{}
			sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
			sc.Val = func(t *Term, _ Inst) (any, bool) {
				for i, x := range nows {
					if t == x {
						return (T+offs[idx[i]])*1e6 + 345678, true
					}
				}
				for i, f := range fields {
					if l.MemPhi[f].T == t {
						switch i {
						case ti:
							if timeField(l, f) {
								return T*1e6 + 123456, true
							}
							return T, true
						case ci:
							return cnt, true
						}
					}
				}
				return nil, false
			}
			if !sc.consistent(it.Facts, Inst{}) {
				continue
			}
			v, ok := sc.eval(id, Inst{})
			s, isS := v.(string)
			if !ok || !isS {
				return "the id is not understood: " + tstr(id)
			}
			var ms, seq int64
			if k, err := fmt.Sscanf(s, "%d-%d", &ms, &seq); err != nil || k != 2 || fmt.Sprintf("%d-%d", ms, seq) != s {
				return "the id looks like " + s
			}
			if ms < T-2*3600000 || ms > T+2*3600000 {
				return "unit: the id " + s + " does not hold the time in milliseconds"
			}
			if ms < T || ms == T && seq <= cnt {
				var cl []string
				for _, i := range idx {
					cl = append(cl, fmt.Sprintf("%+d ms", offs[i]))
				}
				return fmt.Sprintf("after the id time-%d, with the clock at %s from that time, the next id is time%+d-%d", cnt, strings.Join(cl, " and "), ms-T, seq)
			}
			// the state afterwards must describe this id
			after := func(i int) (int64, bool) {
				f := fields[i]
				var t *Term
				if it.Mem != nil {
					t = it.Mem.m[f]
				}
				if t == nil {
					t = l.MemPhi[f].T
				}
				v, ok := sc.eval(t, Inst{})
				x, isI := v.(int64)
				if !ok || !isI {
					return 0, false
				}
				if timeField(l, f) {
					x = floorDiv(x, 1e6)
				}
				return x, true
			}
			a, ok1 := after(ti)
			b, ok2 := after(ci)
			if !ok1 || !ok2 || a != ms || b != seq {
				return fmt.Sprintf("after the id %s the storage remembers %d-%d", s, a, b)
			}
			n++
		}
		// next combination of clock readings
		k := 0
		for k < len(idx) {
			idx[k]++
			if idx[k] < len(offs) {
				break
			}
			idx[k] = 0
			k++
		}
		if k == len(idx) {
			break
		}
	}
	if n == 0 {
		return "no case in which an id is made is understood"
	}
	return ""
}

// ---- trimming ----

var destructive = map[string]bool{"XDEL": true, "DEL": true, "UNLINK": true, "FLUSHDB": true, "FLUSHALL": true, "EXPIRE": true, "PEXPIRE": true, "EXPIREAT": true, "PEXPIREAT": true, "RENAME": true, "XSETID": true, "SET": true, "GETDEL": true}

func ruleTrim(c *Ctx) {
	n := 0
	for _, fn := range append(c.replicators("C22,C23", "SendUpdates"), c.replicators("C22,C23", "GetUpdates")...) {
		root := c.Root(fn)
		if !c.Sound("C22", root) {
			continue
		}
		root.WalkAll(func(e *Event, at *At) {
			if !isConnSend(e) && !isConnDo(e) {
				return
			}
			w := c.Where(e)
			cmd := strings.ToUpper(cmdName(e))
			c.Ob("C22", cmd != "?" && !destructive[cmd], w, "nothing but trimming removes entries from the stream", "the command is "+cmd)
			if cmd != "XTRIM" && cmd != "XADD" {
				return
			}
			args := cmdArgs(root, e)
			by := -1
			for i, a := range args {
				s, _ := a.ConstStr()
				if strings.EqualFold(s, "MAXLEN") {
					c.Ob("C22", false, w, "the stream is trimmed by age", "it is trimmed by length")
				}
				if strings.EqualFold(s, "MINID") {
					by = i
				}
			}
			if by < 0 {
				c.Ob("C22", cmd == "XADD", w, "the stream is trimmed by age", "there is no MINID")
				return
			}
			n++
			by++
			if by < len(args) {
				if s, _ := args[by].ConstStr(); s == "~" || s == "=" {
					by++
				}
			}
			if by >= len(args) {
				c.Ob("C22", false, w, "the stream is trimmed by age", "there is no threshold")
				return
			}
			for _, ttl := range []int64{1, 60, 600, 86400} {
				const T = int64(1700000000123)
				sc := &Scenario{}
				sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
				sc.Val = func(t *Term, _ Inst) (any, bool) {
					switch {
					case t.Op == "now":
						return T * 1e6, true
					case t.Op == "conf" && t.S == "OM_CACHE_TICKET_TTL_SECS":
						return ttl, true
					}
					return nil, false
				}
				v, ok := sc.eval(args[by], Inst{})
				var ms int64
				if ok {
					k, err := fmt.Sscan(strings.TrimSuffix(fmt.Sprint(v), "-0"), &ms)
					ok = k == 1 && err == nil
				}
				if !ok {
					c.Ob("C22,C23", false, w, "the threshold is the current time less the ticket lifetime", "it is "+tstr(args[by]))
					return
				}
				c.Ob("C22", ms <= T-1000*ttl, w, "only entries older than the ticket lifetime are trimmed", fmt.Sprintf("with a lifetime of %d s entries of the last %d ms survive", ttl, T-ms))
				c.Ob("C23", ms >= T-1000*ttl-1000 && ms <= T-1000*ttl+1000, w, "the threshold is in milliseconds", fmt.Sprintf("with a lifetime of %d s it is %d ms back", ttl, T-ms))
			}
		})
	}
	c.Ob("C22,C23", n > 0, "core", "the stream is trimmed", "no trimming found")
}

// ---- connections ----

func isPoolGet(e *Event) bool {
	return e.Kind == "call" && (e.Name == "(*"+redigo+".Pool).Get" || e.Name == "(*"+redigo+".Pool).GetContext")
}

func ruleConnections(c *Ctx) {
	// functions that take connections, by their callers in the storage
	var roots []*Root
	cov := map[*ssa.Function]bool{}
	for _, m := range []string{"SendUpdates", "GetUpdates", "GetReplIdValidationRegex"} {
		for _, fn := range c.replicators("C24", m) {
			root := c.Root(fn)
			if !c.Sound("C24", root) {
				continue
			}
			roots = append(roots, root)
			for f := range root.A.Covered {
				cov[f] = true
			}
		}
	}
	n := 0
	for _, f := range c.R.Funcs {
		if cov[f] {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				ci, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if g := ci.Common().StaticCallee(); g != nil && (g.String() == "(*"+redigo+".Pool).Get" || g.String() == "(*"+redigo+".Pool).GetContext") && !cov[f] {
					cov[f] = true
					r := c.Root(f)
					if c.Sound("C24", r) {
						roots = append(roots, r)
					}
				}
			}
		}
	}
	for _, root := range roots {
		root.WalkPaths(func(p *Path, at *At) {
			if p.Kind == "panic" || p.Kind == "fatal" {
				return
			}
			for i, e := range p.Events {
				if isPoolGet(e) {
					n++
					c.connection(root, p, i, at)
				}
			}
		})
	}
	c.Ob("C24", n > 0, "core", "connections are taken from pools", "none are")
}

// connection follows one connection along the path on which it was taken.
func (c *Ctx) connection(root *Root, p *Path, i int, at *At) {
	get := p.Events[i]
	conn := get.Res
	if strings.HasSuffix(get.Name, "GetContext") {
		conn = root.A.In.mk("res", "0", nil, nil, get.Res)
		for _, f := range p.Facts {
			if !f.Val && f.T.Op == "eq" && f.T.A[1].IsNil() && f.T.A[0].Op == "res" && f.T.A[0].A[0] == get.Res {
				return // there is no connection
			}
		}
	}
	w := c.Where(get)
	has := func(t *Term) bool {
		r := false
		walkTerm(t, func(x *Term) { r = r || x == conn })
		return r
	}
	closed, uses := 0, 0
	var rec func(es []*Event, depth int)
	rec = func(es []*Event, depth int) {
		for _, e := range es {
			isClose := e.Kind == "call" && mname(e.Name) == "Close" && len(e.Args) > 0 && e.Args[0] == conn
			switch {
			case isClose && depth == 0:
				closed++
			case isClose:
				c.Ob("C24", false, c.Where(e), "a connection is given back once", "it is closed in a loop")
			case e.Kind == "loop":
				seen := map[*Path]bool{}
				for _, it := range e.Loop.Iters {
					if !seen[it] {
						seen[it] = true
						rec(it.Events, depth+1)
					}
				}
			case e.Kind == "go":
				u := false
				for _, a := range e.Args {
					u = u || a != nil && has(a)
				}
				if e.Fn != nil {
					u = u || has(e.Fn)
				}
				if e.Thread != nil {
					for _, q := range e.Thread.Paths {
						eachEvent(q, func(x *Event, _ []IterAt) {
							for _, a := range x.Args {
								u = u || a != nil && has(a)
							}
						})
					}
				}
				c.Ob("C24", !u, c.Where(e), "nothing uses a connection longer than the code that took it", "a goroutine uses it")
			case e.Kind == "store" && len(e.Args) > 1 && has(e.Args[1]), e.Kind == "send" && len(e.Args) > 1 && has(e.Args[1]), e.Kind == "mapset" && len(e.Args) > 2 && has(e.Args[2]):
				c.Ob("C24", false, c.Where(e), "nothing uses a connection longer than the code that took it", "it is kept in "+tstr(e.Args[0]))
			case e.Kind == "call":
				for _, a := range e.Args {
					if a != nil && has(a) {
						uses++
						c.Ob("C24", closed == 0, c.Where(e), "a connection is not used after it was given back", mname(e.Name)+" is called on it later")
						break
					}
				}
				if (isConnSend(e) || isConnDo(e)) && e.Args[0] == conn {
					c.endpoint(root, get, e)
				}
			}
		}
	}
	rec(p.Events[i+1:], 0)
	for _, t := range p.Ret {
		if has(t) {
			c.Ob("C24", false, w, "nothing uses a connection longer than the code that took it", "it is returned")
		}
	}
	how := "left by a " + p.Kind
	if f := lastLits(p.Facts, 2); len(f) > 0 {
		how += " under " + litsStr(f)
	}
	c.Ob("C24", closed == 1, w, "a connection is given back exactly once on every way out", fmt.Sprintf("it is closed %d times when %s", closed, how))
}

var writeCmds = map[string]bool{"XADD": true, "XTRIM": true}
var readCmds = map[string]bool{"XREAD": true, "XRANGE": true, "XLEN": true, "XINFO": true, "XREVRANGE": true}

// endpoint: the command goes to the server it belongs to.
func (c *Ctx) endpoint(root *Root, get, e *Event) {
	cmd := strings.ToUpper(cmdName(e))
	side := ""
	switch {
	case writeCmds[cmd]:
		side = "WRITE"
	case readCmds[cmd]:
		side = "READ"
	default:
		return
	}
	w := c.Where(e)
	pool := get.Args[0]
	if pool.Op != "field" || pool.A[0].Op != "param" {
		c.Ob("C24", false, w, "the pool of a connection is known", "it is "+tstr(pool))
		return
	}
	sides, why := c.poolSide(root.Fn.Signature.Recv().Type(), pool.S)
	c.Ob("C24", why == "" && sides == side, w, cmd+" goes to the "+strings.ToLower(side)+" endpoint", "the pool "+pool.S+" connects to "+sides+why)
}

// poolSide tells which endpoint a pool connects to.
func (c *Ctx) poolSide(t types.Type, field string) (string, string) {
	k := "pool:" + field
	type res struct{ s, why string }
	if v, ok := c.memo[k]; ok {
		return v.(res).s, v.(res).why
	}
	s, why := "", "an unknown server"
	for _, f := range c.R.makers(t) {
		root := c.Root(f)
		for _, p := range root.Paths {
			for _, r := range p.Ret {
				if r.Op != "obj" || p.Mem == nil || !sameType(r.Typ, t) {
					continue
				}
				pool := p.Mem.m[root.A.In.FieldAddr(r, field)]
				if pool == nil || pool.Op != "obj" {
					continue
				}
				d := p.Mem.m[root.A.In.FieldAddr(pool, "Dial")]
				if d == nil {
					d = p.Mem.m[root.A.In.FieldAddr(pool, "DialContext")]
				}
				if d == nil {
					continue
				}
				s1, why1 := c.dialSide(root, d, p.Mem)
				if s != "" && s1 != s {
					why1 = "different servers"
				}
				s, why = s1, why1
			}
		}
	}
	c.memo[k] = res{s, why}
	return s, why
}

// dialSide runs over the dial function of a pool.
func (c *Ctx) dialSide(root *Root, d *Term, m *Mem) (string, string) {
	fn, _ := d.Aux.(*ssa.Function)
	if fn == nil || fn.Blocks == nil {
		return "", "an unknown server"
	}
	st := &State{env: map[ssa.Value]*Term{}, mem: m}
	m.shared = true
	var args []*Term
	for i, p := range fn.Params {
		args = append(args, root.A.In.mk("param", paramName(fn, i), p.Type(), p))
	}
	binds := d.A
	if d.Op != "closure" {
		binds = nil
	}
	side, why := "", "no server"
	for _, s := range root.A.callFn(root.A.frame(fn, nil, nil), st, args, binds) {
		p := root.A.path(s)
		for _, e := range p.Events {
			if e.Kind != "call" || e.Name != redigo+".Dial" && e.Name != redigo+".DialContext" && e.Name != redigo+".DialTimeout" {
				continue
			}
			i := 1
			if e.Name == redigo+".DialContext" {
				i = 2
			}
			if i >= len(e.Args) {
				continue
			}
			conf := func(sub string) *Scenario {
				sc := &Scenario{}
				sc.Loop = func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }
				sc.Val = func(t *Term, _ Inst) (any, bool) {
					if t.Op == "conf" {
						return "<" + t.S + ">", true
					}
					return nil, false
				}
				return sc
			}
			v, ok := conf("").eval(e.Args[i], Inst{})
			switch {
			case ok && v == "<OM_REDIS_WRITE_HOST>:<OM_REDIS_WRITE_PORT>":
				side, why = "WRITE", ""
			case ok && v == "<OM_REDIS_READ_HOST>:<OM_REDIS_READ_PORT>":
				side, why = "READ", ""
			default:
				return "", tstr(e.Args[i])
			}
			// the credentials belong to the same server
			other := map[string]string{"WRITE": "OM_REDIS_READ_", "READ": "OM_REDIS_WRITE_"}[side]
			for _, a := range e.Args {
				if a == nil {
					continue
				}
				bad := ""
				walkTerm(a, func(x *Term) {
					if x.Op == "conf" && strings.HasPrefix(x.S, other) {
						bad = x.S
					}
					if x.Op == "app" && len(x.A) == 1 && x.A[0].Op == "conf" {
						if strings.HasSuffix(x.S, ".DialUsername") && !strings.HasSuffix(x.A[0].S, "_USER") || strings.HasSuffix(x.S, ".DialPassword") && !strings.HasSuffix(x.A[0].S, "_PASSWORD") {
							bad = mname(x.S) + " " + x.A[0].S
						}
					}
				})
				if bad != "" {
					return side, " with " + bad
				}
			}
		}
	}
	return side, why
}
