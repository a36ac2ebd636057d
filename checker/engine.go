package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation of a function on the abstract call stack.
type Frame struct {
	Fn     *ssa.Function
	Parent *Frame
	Call   ssa.Instruction
	key    string
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	rpo    map[*ssa.BasicBlock]int
	depth  int
}

func (f *Frame) String() string {
	s := f.Fn.String()
	for p := f.Parent; p != nil; p = p.Parent {
		s = p.Fn.Name() + " > " + s
	}
	return s
}

// Mem is abstract memory: address term -> value term. Copy on write.
type Mem struct {
	m      map[*Term]*Term
	shared bool
}

// Event is one observable step of an abstract trace.
type Event struct {
	Kind   string // call, send, recv, go, store, mapset, append..., loop, panic, fatal
	Name   string // callee for calls
	Args   []*Term
	Res    *Term
	Site   ssa.Instruction
	Frame  *Frame
	Facts  []Lit
	Mem    *Mem
	Loop   *LoopSum
	ExitV  int      // loop: valuation at exit
	Thread *Thread  // go
	Alts   []*Event // select: the other ready cases
	Def    bool     // executed as a deferred call
	Select bool     // part of a select
	Block  bool     // select without default
	Callee *ssa.Function
	Fn     *Term      // callee of calls, go and defer
	Typ    types.Type // send, recv, close: element type of the channel
}

// Thread is a goroutine body, analysed from the state at its start.
type Thread struct {
	Fn    *ssa.Function
	Args  []*Term
	Paths []*Path
}

// items is a persistent list of events.
type items struct {
	prev *items
	ev   *Event
	n    int
}

func (l *items) list() []*Event {
	if l == nil {
		return nil
	}
	out := make([]*Event, l.n)
	for p := l; p != nil; p = p.prev {
		out[p.n-1] = p.ev
	}
	return out
}

type deferred struct {
	call  *ssa.CallCommon
	site  ssa.Instruction
	fn    *Term
	args  []*Term
	frame *Frame
}

// State is one abstract state on one partition of the traces.
type State struct {
	env    map[ssa.Value]*Term
	mem    *Mem
	facts  []Lit
	it     *items
	defers []deferred
	ret    []*Term
	kind   string // "", return, panic, fatal
}

func (s *State) clone() *State {
	c := *s
	c.env = make(map[ssa.Value]*Term, len(s.env)+8)
	for k, v := range s.env {
		c.env[k] = v
	}
	s.mem.shared = true
	c.facts = s.facts[:len(s.facts):len(s.facts)]
	c.defers = s.defers[:len(s.defers):len(s.defers)]
	return &c
}

func (s *State) set(a, v *Term) {
	if s.mem.shared {
		n := make(map[*Term]*Term, len(s.mem.m)+4)
		for k, x := range s.mem.m {
			n[k] = x
		}
		s.mem = &Mem{m: n}
	}
	s.mem.m[a] = v
}

func (s *State) del(a *Term) {
	if _, ok := s.mem.m[a]; !ok {
		return
	}
	if s.mem.shared {
		n := make(map[*Term]*Term, len(s.mem.m))
		for k, x := range s.mem.m {
			n[k] = x
		}
		s.mem = &Mem{m: n}
	}
	delete(s.mem.m, a)
}

// Path is one finished abstract trace.
type Path struct {
	Events []*Event
	Facts  []Lit
	Ret    []*Term
	Kind   string
	Mem    *Mem
	// loop iterations only
	From, To int
	Back     map[*ssa.Phi]*Term
	Stop     bool // callback loops: the callback asked to stop
}

// LoopSum summarises a loop: one abstract iteration per path.
type LoopSum struct {
	ID     string
	Frame  *Frame
	Header *ssa.BasicBlock
	Kind   string // slice, map, count, chan, callback, other
	Coll   *Term  // what it iterates over
	Bound  *Term  // count loops
	Start  *Term  // count loops: first index
	Iters  []*Path
	Phis   []*ssa.Phi
	Init   map[*ssa.Phi]*Term
	PhiT   map[*ssa.Phi]*Term
	Part   []*ssa.Phi // boolean phis whose value partitions the iterations
	Vals   [][]*Term  // valuations of Part
	Callee string     // callback loops: the library function
	Cond   *Term      // condition at the header
	Stay   bool       // value of Cond under which the loop goes on
	MemPhi map[*Term]MemPhi
	pos    token.Pos
	// AllExits are the paths that leave an iteration early, relative to the
	// start of that iteration
	Exits []*Path
}

type MemPhi struct{ Init, T *Term }

// Analysis is one run of the interpreter.
type Analysis struct {
	R       *Repo
	In      *Interner
	Opaque  map[string]bool // repository functions not to follow
	NoGo    bool
	stack   int
	steps   int
	Trouble []string
	frames  map[string]*Frame
	cellCnt map[ssa.Value]int
	threads map[string]*Thread
	budget  int
	Covered map[*ssa.Function]bool
	active  map[string]int
	liveIn  map[*ssa.BasicBlock][]ssa.Value
	own     map[*ssa.Alloc]bool
	needs   []*Need
	// CallHook may supply the result of a call (nil: not handled)
	CallHook func(name string, args []*Term) *Term
}

func NewAnalysis(r *Repo) *Analysis {
	return &Analysis{R: r, In: NewInterner(), Opaque: map[string]bool{}, frames: map[string]*Frame{}, budget: 400000, Covered: map[*ssa.Function]bool{}, active: map[string]int{}, liveIn: map[*ssa.BasicBlock][]ssa.Value{}, own: map[*ssa.Alloc]bool{}}
}

func (a *Analysis) trouble(f string, args ...any) {
	m := fmt.Sprintf(f, args...)
	for _, t := range a.Trouble {
		if t == m {
			return
		}
	}
	a.Trouble = append(a.Trouble, m)
}

func (a *Analysis) frame(fn *ssa.Function, parent *Frame, call ssa.Instruction) *Frame {
	k := fn.String()
	if parent != nil {
		k = parent.key + "|" + siteKey(call) + ">" + k
	}
	if f, ok := a.frames[k]; ok {
		return f
	}
	f := &Frame{Fn: fn, Parent: parent, Call: call, key: k}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	f.findLoops()
	a.frames[k] = f
	a.Covered[fn] = true
	return f
}

var siteKeys = map[ssa.Instruction]string{}

func siteKey(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	if k, ok := siteKeys[i]; ok {
		return k
	}
	b := i.Block()
	n := 0
	for j, x := range b.Instrs {
		if x == i {
			n = j
		}
	}
	k := fmt.Sprintf("%s:%d.%d", i.Parent().String(), b.Index, n)
	siteKeys[i] = k
	return k
}

func (f *Frame) findLoops() {
	fn := f.Fn
	f.loops = map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	f.rpo = map[*ssa.BasicBlock]int{}
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		dfs(fn.Blocks[0])
	}
	if fn.Recover != nil && !seen[fn.Recover] {
		dfs(fn.Recover)
	}
	for i, b := range post {
		f.rpo[b] = len(post) - i
	}
	for _, b := range fn.Blocks {
		if !seen[b] {
			continue
		}
		for _, h := range b.Succs {
			if h.Dominates(b) {
				body := f.loops[h]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{h: true}
					f.loops[h] = body
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if body[x] || !seen[x] {
						return
					}
					body[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
}

// Run interprets fn from an unconstrained state.
func (a *Analysis) Run(fn *ssa.Function, args []*Term, mem *Mem) []*Path {
	if args == nil {
		for i, p := range fn.Params {
			args = append(args, a.In.mk("param", fmt.Sprintf("%s", paramName(fn, i)), p.Type(), p))
		}
	}
	st := &State{env: map[ssa.Value]*Term{}, mem: &Mem{m: map[*Term]*Term{}}}
	if mem != nil {
		mem.shared = true
		st.mem = mem
	}
	f := a.frame(fn, nil, nil)
	var out []*Path
	for _, s := range a.callFn(f, st, args, nil) {
		out = append(out, a.path(s))
	}
	return out
}

func paramName(fn *ssa.Function, i int) string {
	if fn.Signature.Recv() != nil {
		if i == 0 {
			return "recv"
		}
		return fmt.Sprintf("arg%d", i-1)
	}
	return fmt.Sprintf("arg%d", i)
}

func (a *Analysis) path(s *State) *Path {
	s.mem.shared = true
	return &Path{Events: s.it.list(), Facts: s.facts, Ret: s.ret, Kind: s.kind, Mem: s.mem}
}

// callFn runs the body of f.Fn; st.env is replaced.
func (a *Analysis) callFn(f *Frame, st *State, args []*Term, binds []*Term) []*State {
	s := st.clone()
	s.env = map[ssa.Value]*Term{}
	s.defers = nil
	s.ret = nil
	for i, p := range f.Fn.Params {
		if i < len(args) {
			s.env[p] = args[i]
		}
	}
	for i, fv := range f.Fn.FreeVars {
		if i < len(binds) {
			s.env[fv] = binds[i]
		}
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range f.Fn.Blocks {
		all[b] = true
	}
	res := a.region(f, f.Fn.Blocks[0], []*State{s}, all, nil)
	return res.rets
}

type edgeState struct {
	from, to *ssa.BasicBlock
	s        *State
	vals     map[*ssa.Phi]*Term
}

type regionResult struct {
	rets  []*State
	back  []edgeState
	exits []edgeState
}

// region interprets the blocks in body starting at start; header is the header
// of the loop whose body this is, or nil.
func (a *Analysis) region(f *Frame, start *ssa.BasicBlock, in []*State, body map[*ssa.BasicBlock]bool, header *ssa.BasicBlock) regionResult {
	var res regionResult
	pending := map[*ssa.BasicBlock][]*State{start: in}
	flow := func(from *ssa.BasicBlock, to *ssa.BasicBlock, s *State) {
		vals := map[*ssa.Phi]*Term{}
		pi := -1
		for i, p := range to.Preds {
			if p == from {
				pi = i
			}
		}
		for _, ins := range to.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			vals[ph] = a.val(s, ph.Edges[pi])
		}
		if to == header {
			res.back = append(res.back, edgeState{from, to, s, vals})
			return
		}
		if !body[to] {
			res.exits = append(res.exits, edgeState{from, to, s, vals})
			return
		}
		for ph, v := range vals {
			s.env[ph] = v
		}
		pending[to] = append(pending[to], s)
	}
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for x := range pending {
			if b == nil || f.rpo[x] < f.rpo[b] {
				b = x
			}
		}
		sts := a.merge(f, b, pending[b])
		delete(pending, b)
		if lb := f.loops[b]; lb != nil && b != header {
			for _, s := range sts {
				r := a.loop(f, b, lb, s)
				res.rets = append(res.rets, r.rets...)
				for _, e := range r.exits {
					// phis of the exit block were evaluated on the edge
					to := e.to
					if to == header {
						res.back = append(res.back, e)
					} else if !body[to] {
						res.exits = append(res.exits, e)
					} else {
						for ph, v := range e.vals {
							e.s.env[ph] = v
						}
						pending[to] = append(pending[to], e.s)
					}
				}
			}
			continue
		}
		for _, s := range sts {
			a.block(f, b, s, flow, &res)
			if a.steps > a.budget {
				a.trouble("analysis budget exceeded in %s", f.Fn)
				return res
			}
		}
	}
	return res
}

// merge joins states that differ only in one complementary branch fact.
func (a *Analysis) merge(f *Frame, b *ssa.BasicBlock, sts []*State) []*State {
	if len(sts) < 2 {
		return sts
	}
	type key struct {
		it  *items
		sig string
	}
	live := a.live(b)
	sig := func(s *State) string {
		var sb strings.Builder
		for _, v := range live {
			if t := s.env[v]; t != nil {
				fmt.Fprintf(&sb, "%d,", t.ID)
			} else {
				sb.WriteByte(',')
			}
		}
		sb.WriteByte('|')
		if len(s.mem.m) > 0 {
			ks := make([]int, 0, len(s.mem.m))
			byID := map[int]int{}
			for k, v := range s.mem.m {
				ks = append(ks, k.ID)
				byID[k.ID] = v.ID
			}
			sort.Ints(ks)
			for _, k := range ks {
				fmt.Fprintf(&sb, "%d=%d,", k, byID[k])
			}
		}
		for _, d := range s.defers {
			fmt.Fprintf(&sb, "|%p", d.site)
			if d.fn != nil {
				fmt.Fprintf(&sb, ":%d", d.fn.ID)
			}
			for _, t := range d.args {
				fmt.Fprintf(&sb, ",%d", t.ID)
			}
		}
		return sb.String()
	}
	groups := map[key][]*State{}
	var order []key
	for _, s := range sts {
		k := key{s.it, sig(s)}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], s)
	}
	var out []*State
	for _, k := range order {
		g := groups[k]
		for again := true; again && len(g) > 1; {
			again = false
		outer:
			for i := 0; i < len(g); i++ {
				for j := i + 1; j < len(g); j++ {
					if m, ok := resolve(g[i].facts, g[j].facts); ok {
						g[i].facts = m
						g = append(g[:j], g[j+1:]...)
						again = true
						break outer
					}
				}
			}
		}
		if len(g) > 64 {
			// too many partitions: keep the common facts only
			m := g[0].facts
			for _, s := range g[1:] {
				m = common(m, s.facts)
			}
			g[0].facts = m
			g = g[:1]
		}
		out = append(out, g...)
	}
	return out
}

// live lists the values that a block or a later one still reads.
func (a *Analysis) live(b *ssa.BasicBlock) []ssa.Value {
	if l, ok := a.liveIn[b]; ok {
		return l
	}
	fn := b.Parent()
	in := make([]map[ssa.Value]bool, len(fn.Blocks))
	for i := range in {
		in[i] = map[ssa.Value]bool{}
	}
	local := func(v ssa.Value) bool {
		ins, ok := v.(ssa.Instruction)
		return ok && ins.Parent() == fn
	}
	var up func(at *ssa.BasicBlock, v ssa.Value, def *ssa.BasicBlock)
	up = func(at *ssa.BasicBlock, v ssa.Value, def *ssa.BasicBlock) {
		// v is live on entry of at
		if in[at.Index][v] {
			return
		}
		in[at.Index][v] = true
		if at == def {
			return
		}
		for _, p := range at.Preds {
			if p != def {
				up(p, v, def)
			}
		}
	}
	for _, bb := range fn.Blocks {
		for _, ins := range bb.Instrs {
			if ph, ok := ins.(*ssa.Phi); ok {
				// phis are set on the edge: live on entry where used
				for i, e := range ph.Edges {
					if local(e) {
						def := e.(ssa.Instruction).Block()
						if bb.Preds[i] != def {
							up(bb.Preds[i], e, def)
						}
					}
				}
				continue
			}
			for _, op := range ins.Operands(nil) {
				v := *op
				if v == nil || !local(v) {
					continue
				}
				def := v.(ssa.Instruction).Block()
				if _, ph := v.(*ssa.Phi); ph || def != bb {
					up(bb, v, def)
				}
			}
		}
	}
	for i, bb := range fn.Blocks {
		// phis of the block itself are set before its states are merged
		l := make([]ssa.Value, 0, len(in[i]))
		for v := range in[i] {
			l = append(l, v)
		}
		for _, ins := range bb.Instrs {
			ph, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if !in[i][ph] {
				l = append(l, ph)
			}
		}
		sort.Slice(l, func(x, y int) bool { return l[x].Name() < l[y].Name() })
		a.liveIn[bb] = l
	}
	return a.liveIn[b]
}

// resolve joins two fact sets that differ in exactly one complementary literal,
// or where one implies the other.
func resolve(x, y []Lit) ([]Lit, bool) {
	has := func(s []Lit, l Lit) bool {
		for _, m := range s {
			if m == l {
				return true
			}
		}
		return false
	}
	var dx, dy []Lit
	for _, l := range x {
		if !has(y, l) {
			dx = append(dx, l)
		}
	}
	for _, l := range y {
		if !has(x, l) {
			dy = append(dy, l)
		}
	}
	if len(dx) == 0 {
		return x, true
	}
	if len(dy) == 0 {
		return y, true
	}
	if len(dx) == 1 && len(dy) == 1 && dx[0].T == dy[0].T && dx[0].Val != dy[0].Val {
		return common(x, y), true
	}
	return nil, false
}

func common(x, y []Lit) []Lit {
	var out []Lit
	for _, l := range x {
		for _, m := range y {
			if l == m {
				out = append(out, l)
				break
			}
		}
	}
	return out
}

func (a *Analysis) val(s *State, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return a.In.Const(v)
	case *ssa.Global:
		return a.In.mk("glob", v.String(), v.Type(), v)
	case *ssa.Function:
		return a.In.mk("fn", v.String(), v.Type(), v)
	case *ssa.Builtin:
		return a.In.mk("builtin", v.Name(), nil, v)
	}
	if t, ok := s.env[v]; ok {
		return t
	}
	t := a.In.mk("unknown", fmt.Sprintf("%s.%s", v.Parent(), v.Name()), v.Type(), v)
	return t
}

func (a *Analysis) emit(s *State, e *Event) *Event {
	e.Facts = s.facts
	s.mem.shared = true
	e.Mem = s.mem
	n := 1
	if s.it != nil {
		n = s.it.n + 1
	}
	s.it = &items{prev: s.it, ev: e, n: n}
	return e
}

// block executes one basic block.
func (a *Analysis) block(f *Frame, b *ssa.BasicBlock, s0 *State, flow func(from, to *ssa.BasicBlock, s *State), res *regionResult) {
	sts := []*State{s0}
	for _, ins := range b.Instrs {
		a.steps++
		for _, s := range sts {
			a.need(f, s, ins)
		}
		switch x := ins.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			for _, s := range sts {
				c := a.val(s, x.Cond)
				if v, ok := evalFacts(s.facts, c); ok {
					if v {
						flow(b, b.Succs[0], s)
					} else {
						flow(b, b.Succs[1], s)
					}
					continue
				}
				t := s.clone()
				s.facts = append(s.facts[:len(s.facts):len(s.facts)], mkLit(c, true))
				t.facts = append(t.facts[:len(t.facts):len(t.facts)], mkLit(c, false))
				flow(b, b.Succs[0], s)
				flow(b, b.Succs[1], t)
			}
			return
		case *ssa.Jump:
			for _, s := range sts {
				flow(b, b.Succs[0], s)
			}
			return
		case *ssa.Return:
			for _, s := range sts {
				s.ret = nil
				for _, r := range x.Results {
					s.ret = append(s.ret, a.val(s, r))
				}
				s.kind = "return"
				res.rets = append(res.rets, s)
			}
			return
		case *ssa.Panic:
			for _, s := range sts {
				a.emit(s, &Event{Kind: "panic", Args: []*Term{a.val(s, x.X)}, Site: x, Frame: f})
				for _, t := range a.runDefers(f, s) {
					t.kind = "panic"
					res.rets = append(res.rets, t)
				}
			}
			return
		case *ssa.RunDefers:
			var n []*State
			for _, s := range sts {
				n = append(n, a.runDefers(f, s)...)
			}
			sts = a.merge2(n)
		case *ssa.Call:
			var n []*State
			for _, s := range sts {
				for _, t := range a.call(f, s, &x.Call, x, x) {
					if t.kind == "diverge" {
						res.rets = append(res.rets, t)
						continue
					}
					if t.kind == "panic" || t.kind == "fatal" {
						for _, u := range a.runDefers(f, t) {
							res.rets = append(res.rets, u)
						}
						continue
					}
					n = append(n, t)
				}
			}
			sts = n
		case *ssa.Select:
			var n []*State
			for _, s := range sts {
				n = append(n, a.selectStmt(f, s, x)...)
			}
			sts = n
		default:
			for _, s := range sts {
				a.instr(f, s, ins)
			}
		}
		if len(sts) == 0 {
			return
		}
	}
}

// merge2 joins states after an inlined call.
func (a *Analysis) merge2(sts []*State) []*State {
	if len(sts) < 2 {
		return sts
	}
	return sts
}

func (a *Analysis) runDefers(f *Frame, s *State) []*State {
	sts := []*State{s}
	ds := s.defers
	for i := len(ds) - 1; i >= 0; i-- {
		d := ds[i]
		var n []*State
		for _, t := range sts {
			t.defers = ds[:i:i]
			kind, ret := t.kind, t.ret
			for _, u := range a.apply(f, t, d.call, d.fn, d.args, d.site, nil, true) {
				if u.kind == "" || kind != "" {
					u.kind = kind
				}
				u.ret = ret
				n = append(n, u)
			}
		}
		sts = n
	}
	for _, t := range sts {
		t.defers = nil
	}
	return sts
}

// loop summarises the loop at header h entered in state s.
func (a *Analysis) loop(f *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s *State) regionResult {
	if n := a.table(h, body, s); n > 0 {
		return a.unroll(f, h, body, s, n)
	}
	id := fmt.Sprintf("%s@%d", f.key, h.Index)
	sum := &LoopSum{ID: id, Frame: f, Header: h, Kind: "other", Init: map[*ssa.Phi]*Term{}, PhiT: map[*ssa.Phi]*Term{}, MemPhi: map[*Term]MemPhi{}}
	for _, ins := range h.Instrs {
		if ins.Pos().IsValid() && sum.pos == token.NoPos {
			sum.pos = ins.Pos()
		}
		if p, ok := ins.(*ssa.Phi); ok {
			sum.Phis = append(sum.Phis, p)
			sum.Init[p] = s.env[p]
		}
	}
	if sum.pos == token.NoPos {
		for b := range body {
			for _, ins := range b.Instrs {
				if ins.Pos().IsValid() && (sum.pos == token.NoPos || ins.Pos() < sum.pos) {
					sum.pos = ins.Pos()
				}
			}
		}
	}
	// induction variables
	idx := a.In.mk("idx", id, types.Typ[types.Int], nil)
	for _, p := range sum.Phis {
		sum.PhiT[p] = a.In.mk("phi", id+"#"+p.Name(), p.Type(), p)
		if bt, isInt := p.Type().Underlying().(*types.Basic); isInt && bt.Info()&types.IsInteger != 0 {
			down := true
			for i, e := range p.Edges {
				if !body[h.Preds[i]] {
					continue
				}
				bo, ok := e.(*ssa.BinOp)
				if !ok || bo.Op != token.SUB || bo.X != p {
					down = false
					break
				}
				c, ok := bo.Y.(*ssa.Const)
				if !ok || c.Value == nil || c.Int64() != 1 {
					down = false
				}
			}
			if down {
				sum.PhiT[p] = a.In.mk("bin", "-", p.Type(), nil, sum.Init[p], idx)
				continue
			}
		}
		init, ok := sum.Init[p].ConstInt()
		if !ok {
			continue
		}
		ind := true
		for i, e := range p.Edges {
			if !body[h.Preds[i]] {
				continue
			}
			bo, ok := e.(*ssa.BinOp)
			if !ok || bo.Op != token.ADD || bo.X != p {
				ind = false
				break
			}
			c, ok := bo.Y.(*ssa.Const)
			if !ok || c.Value == nil || c.Int64() != 1 {
				ind = false
			}
		}
		if ind {
			// value in iteration number idx (0, 1, 2, ...) is init + idx
			sum.PhiT[p] = a.In.Bin(token.ADD, idx, a.In.Int(init), types.Typ[types.Int])
			if init < 0 {
				sum.PhiT[p] = a.In.Bin(token.SUB, idx, a.In.Int(-init), types.Typ[types.Int])
			}
		}
	}
	// boolean phis partition the iterations
	for _, p := range sum.Phis {
		if _, ok := sum.Init[p].ConstBool(); ok {
			sum.Part = append(sum.Part, p)
		}
	}
	if len(sum.Part) > 4 {
		sum.Part = nil
	}
	havoc := map[*Term]bool{}
	inLoop := func(o *Term) bool { return a.allocatedIn(o, f, body) }
	// so do boolean variables in memory (captured by a function)
	var partM []*Term
	noPart := map[*Term]bool{}
	// and counters in memory follow the number of the iteration
	var indM []*Term
	noInd := map[*Term]bool{}
	vary := func(k *Term) {
		if v := s.mem.m[k]; v != nil && k.Op == "obj" && !strings.HasPrefix(k.S, "shared") && !noInd[k] && idx.Typ != nil && types.Identical(deref2(k.Typ), idx.Typ) {
			if _, ok := v.ConstInt(); ok {
				indM = append(indM, k)
				return
			}
		}
		if v := s.mem.m[k]; v != nil && k.Op == "obj" && !strings.HasPrefix(k.S, "shared") && !noPart[k] && len(sum.Part)+len(partM) < 4 {
			if _, ok := v.ConstBool(); ok {
				partM = append(partM, k)
				return
			}
		}
		havoc[k] = true
	}
	isPart := func(k *Term) bool {
		for _, x := range append(append([]*Term{}, partM...), indM...) {
			if x == k {
				return true
			}
		}
		return false
	}

	a.active[id]++
	defer func() { a.active[id]-- }()
	needs := len(a.needs)
	for round := 0; ; round++ {
		a.needs = a.needs[:needs]
		if round > 60 {
			a.trouble("loop summary does not converge in %s", f.Fn)
			break
		}
		sum.Iters, sum.Exits, sum.Vals = nil, nil, nil
		sum.MemPhi = map[*Term]MemPhi{}
		var out regionResult
		init := make([]*Term, len(sum.Part))
		for i, p := range sum.Part {
			init[i] = sum.Init[p]
		}
		for _, k := range partM {
			init = append(init, s.mem.m[k])
		}
		sum.Vals = [][]*Term{init}
		retry := false
		type ex struct {
			e  edgeState
			vi int
		}
		var exs []ex
		var rets []*State
		var retV []int
		for vi := 0; vi < len(sum.Vals) && !retry; vi++ {
			b := s.clone()
			b.it = nil
			for _, p := range sum.Phis {
				b.env[p] = sum.PhiT[p]
			}
			for i, p := range sum.Part {
				b.env[p] = sum.Vals[vi][i]
			}
			for i, k := range partM {
				b.set(k, sum.Vals[vi][len(sum.Part)+i])
			}
			for _, k := range indM {
				n, _ := s.mem.m[k].ConstInt()
				b.set(k, a.In.Bin(token.ADD, idx, a.In.Int(n), types.Typ[types.Int]))
			}
			for k := range havoc {
				t := a.In.mk("memphi", id+"#"+fmt.Sprint(k.ID), k.Typ, k)
				sum.MemPhi[k] = MemPhi{Init: s.mem.m[k], T: t}
				b.set(k, t)
			}
			b.facts = dropLoop(b.facts, id)
			a.dropKeys(b, id)
			startMem := b.mem.m
			r := a.region(f, h, []*State{b}, body, h)
			for _, e := range r.back {
				e.s.mem.shared = true
				// which memory did the iteration change?
				for k, v := range e.s.mem.m {
					if k.Mentions(id) || a.stale(k) || rootIn(k, inLoop) {
						continue
					}
					if v0, ok := startMem[k]; (!ok || v0 != v) && !havoc[k] && !isPart(k) {
						vary(k)
						retry = true
					}
				}
				for k := range startMem {
					if _, ok := e.s.mem.m[k]; !ok && !havoc[k] && !k.Mentions(id) && !a.stale(k) && !rootIn(k, inLoop) {
						partM = without(partM, k)
						indM = without(indM, k)
						havoc[k] = true
						retry = true
					}
				}
				for _, k := range indM {
					if retry {
						break
					}
					n, _ := s.mem.m[k].ConstInt()
					if b, d := linear(e.s.mem.m[k]); b != idx || d != n+1 {
						noInd[k] = true
						indM = without(indM, k)
						vary(k)
						retry = true
					}
				}
				if retry {
					continue
				}
				to := make([]*Term, len(sum.Part))
				for i, p := range sum.Part {
					to[i] = e.vals[p]
				}
				for _, k := range partM {
					v := e.s.mem.m[k]
					if _, ok := v.ConstBool(); !ok {
						noPart[k] = true
						partM = without(partM, k)
						havoc[k] = true
						retry = true
						break
					}
					to = append(to, v)
				}
				if retry {
					break
				}
				ti := -1
				bad := -1
				for i, t := range to {
					if _, ok := t.ConstBool(); !ok {
						bad = i
					}
				}
				if bad >= 0 {
					// not a flag with known values
					sum.Part = append(append([]*ssa.Phi{}, sum.Part[:bad]...), sum.Part[bad+1:]...)
					retry = true
					break
				}
				for i, v := range sum.Vals {
					same := true
					for j := range v {
						if v[j] != to[j] {
							same = false
						}
					}
					if same {
						ti = i
					}
				}
				if ti < 0 {
					ti = len(sum.Vals)
					sum.Vals = append(sum.Vals, to)
				}
				sum.Iters = append(sum.Iters, &Path{Events: e.s.it.list(), Facts: e.s.facts, Mem: e.s.mem, Kind: "next", From: vi, To: ti, Back: e.vals})
			}
			for _, e := range r.exits {
				exs = append(exs, ex{e, vi})
			}
			if hi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); ok && body[h.Succs[0]] != body[h.Succs[1]] {
				for _, e := range append(append([]edgeState{}, r.back...), r.exits...) {
					if t, ok := e.s.env[hi.Cond]; ok {
						l := mkLit(t, body[h.Succs[0]])
						sum.Cond, sum.Stay = l.T, l.Val
						break
					}
				}
			}
			for _, t := range r.rets {
				rets = append(rets, t)
				retV = append(retV, vi)
			}
		}
		if a.steps > a.budget {
			a.trouble("analysis budget exceeded in %s", f.Fn)
			return out
		}
		if retry {
			continue
		}
		a.classify(sum, idx, s)
		for _, x := range exs {
			e := x.e
			sum.Exits = append(sum.Exits, &Path{Events: e.s.it.list(), Facts: e.s.facts, Mem: e.s.mem, Kind: "exit", From: x.vi})
			e.s.it = joinItems(a, s, sum, x.vi, e.s, f)
			out.exits = append(out.exits, e)
		}
		for i, t := range rets {
			p := a.path(t)
			p.From = retV[i]
			sum.Exits = append(sum.Exits, p)
			t.it = joinItems(a, s, sum, retV[i], t, f)
			out.rets = append(out.rets, t)
		}
		a.listed(sum, s, out.exits)
		if len(out.exits)+len(out.rets) == 0 {
			// the loop runs for ever
			t := s.clone()
			t.kind = "diverge"
			t.defers = nil
			t.it = joinItems(a, s, sum, 0, &State{}, f)
			out.rets = append(out.rets, t)
		}
		return out
	}
	return regionResult{}
}

// deref2: the type of what an address points to, the type itself for others.
func deref2(t types.Type) types.Type {
	if t == nil {
		return types.Typ[types.Invalid]
	}
	return deref(t)
}

func without(ts []*Term, t *Term) []*Term {
	var out []*Term
	for _, x := range ts {
		if x != t {
			out = append(out, x)
		}
	}
	return out
}

// stale: the address belongs to an iteration of a loop that is over.
// table: the number of rounds of a loop over a list that is written out in the
// code and holds functions or addresses of variables, 0 for others.
func (a *Analysis) table(h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s *State) int {
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || body[h.Succs[0]] == body[h.Succs[1]] {
		return 0
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return 0
	}
	if _, isCall := cmp.Y.(*ssa.Call); !isCall {
		if _, isC := cmp.Y.(*ssa.Const); !isC {
			return 0
		}
	}
	if v, ok := cmp.Y.(ssa.Instruction); ok && body[v.Block()] {
		return 0
	}
	n, ok := a.val(s, cmp.Y).ConstInt()
	if !ok || n <= 0 || n > 32 {
		return 0
	}
	for b := range body {
		for _, ins := range b.Instrs {
			ia, ok := ins.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			if v, ok := ia.X.(ssa.Instruction); ok && body[v.Block()] {
				continue
			}
			x := a.val(s, ia.X)
			if x.Op == "sliceof" {
				x = x.A[0]
			}
			if x.Op != "obj" || x.Typ == nil {
				continue
			}
			at, ok := x.Typ.Underlying().(*types.Array)
			if !ok {
				if pt, isP := x.Typ.Underlying().(*types.Pointer); isP {
					at, ok = pt.Elem().Underlying().(*types.Array)
				}
			}
			if ok && at.Len() == n && tabular(at.Elem()) {
				return int(n)
			}
		}
	}
	return 0
}

// tabular: values of the type hold functions, or addresses of variables of a
// kind that is not a message or other structure.
func tabular(t types.Type) bool {
	held := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Signature:
			return true
		case *types.Pointer:
			_, isStruct := u.Elem().Underlying().(*types.Struct)
			return !isStruct
		}
		return false
	}
	if held(t) {
		return true
	}
	st, ok := t.Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if held(st.Field(i).Type()) {
			return true
		}
	}
	return false
}

// unroll runs the rounds of a loop one after the other.
func (a *Analysis) unroll(f *Frame, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, s *State, n int) regionResult {
	var out regionResult
	key := f.key
	defer func() { f.key = key }()
	in := []*State{s}
	for i := 0; i <= n && len(in) > 0; i++ {
		f.key = fmt.Sprintf("%s~%d.%d", key, h.Index, i)
		r := a.region(f, h, in, body, h)
		out.exits = append(out.exits, r.exits...)
		out.rets = append(out.rets, r.rets...)
		in = nil
		for _, e := range r.back {
			for ph, v := range e.vals {
				e.s.env[ph] = v
			}
			in = append(in, e.s)
		}
		if a.steps > a.budget {
			a.trouble("analysis budget exceeded in %s", f.Fn)
			return out
		}
	}
	if len(in) > 0 {
		a.trouble("a loop over a list of %d entries does not end in %s", n, f.Fn)
	}
	return out
}

func (a *Analysis) stale(k *Term) bool {
	for l := range k.loop {
		if a.active[l] == 0 {
			return true
		}
	}
	return false
}

// dropKeys forgets addresses of earlier iterations of a loop.
func (a *Analysis) dropKeys(s *State, id string) {
	for k := range s.mem.m {
		if k.Mentions(id) {
			s.del(k)
		}
	}
}

func joinItems(a *Analysis, s *State, sum *LoopSum, vi int, t *State, f *Frame) *items {
	l := s.it
	push := func(e *Event) {
		n := 1
		if l != nil {
			n = l.n + 1
		}
		l = &items{prev: l, ev: e, n: n}
	}
	s.mem.shared = true
	push(&Event{Kind: "loop", Loop: sum, ExitV: vi, Facts: s.facts, Mem: s.mem, Frame: f, Site: firstInstr(sum.Header)})
	for _, e := range t.it.list() {
		push(e)
	}
	return l
}

func firstInstr(b *ssa.BasicBlock) ssa.Instruction {
	for _, i := range b.Instrs {
		if i.Pos().IsValid() {
			return i
		}
	}
	return b.Instrs[0]
}

func dropLoop(facts []Lit, id string) []Lit {
	out := make([]Lit, 0, len(facts))
	for _, l := range facts {
		if !l.T.Mentions(id) {
			out = append(out, l)
		}
	}
	return out
}

// rootOf walks an address to the object it is part of.
func rootOf(t *Term) *Term {
	for t != nil {
		switch t.Op {
		case "fieldaddr", "indexaddr", "lookupaddr", "written", "havoc", "sliceof", "slice", "lookup", "index", "elem", "load", "field", "append":
			t = t.A[0]
			continue
		}
		return t
	}
	return t
}

func addrRoot(t *Term) *Term {
	for t != nil {
		switch t.Op {
		case "fieldaddr", "indexaddr", "lookupaddr", "written", "havoc", "sliceof":
			t = t.A[0]
			continue
		}
		return t
	}
	return t
}

func rootIn(k *Term, in func(*Term) bool) bool { return in(addrRoot(k)) }

type allocSite struct {
	ins   ssa.Instruction
	frame *Frame
}

// allocatedIn reports whether object o is allocated by an instruction inside
// the loop body of frame f (possibly in a function called from there).
func (a *Analysis) allocatedIn(o *Term, f *Frame, body map[*ssa.BasicBlock]bool) bool {
	if o == nil {
		return false
	}
	as, ok := o.Aux.(allocSite)
	if !ok {
		return false
	}
	fr, ins := as.frame, as.ins
	for fr != nil && fr != f {
		ins = fr.Call
		fr = fr.Parent
	}
	if fr == nil || ins == nil {
		return false
	}
	return body[ins.Block()]
}

// classify finds out what the loop iterates over.
func (a *Analysis) classify(sum *LoopSum, idx *Term, s *State) {
	h := sum.Header
	for _, ins := range h.Instrs {
		if nx, ok := ins.(*ssa.Next); ok && !nx.IsString {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				sum.Kind = "map"
				sum.Coll = a.val(s, r.X)
				return
			}
		}
		if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.ARROW && u.CommaOk {
			sum.Kind = "chan"
			sum.Coll = a.val(s, u.X)
			return
		}
	}
	// the condition at the header under which the loop goes on
	var conds []Lit
	for i, it := range sum.Iters {
		if i == 0 {
			conds = append(conds, it.Facts...)
			continue
		}
		conds = common(conds, it.Facts)
	}
	for _, c := range conds {
		t, v := c.T, c.Val
		if t.Op == "lt" && v && t.A[1].Op == "bin" && t.A[1].S == "-" && t.A[1].A[1] == idx {
			// counting down to zero
			if n, ok := t.A[0].ConstInt(); ok && n == 0 && !t.A[1].A[0].Mentions(sum.ID) {
				sum.Kind, sum.Bound, sum.Start = "count", t.A[1].A[0], a.In.Int(0)
				return
			}
		}
		if t.Op == "lt" && v {
			off := int64(0)
			l := t.A[0]
			if l.Op == "bin" && l.S == "+" && l.A[0] == idx {
				off, _ = l.A[1].ConstInt()
				l = idx
			}
			if l != idx || t.A[1].Mentions(sum.ID) || varies(sum, t.A[1]) {
				continue
			}
			if off == 0 && t.A[1].Op == "len" && t.A[1].A[0].Op == "maplist" {
				sum.Kind, sum.Coll = "map", t.A[1].A[0].A[0]
				return
			}
			if off == 0 && t.A[1].Op == "len" {
				sum.Kind = "slice"
				sum.Coll = t.A[1].A[0]
				return
			}
			if coll := a.ranged(s, sum); coll != nil && off == 0 && a.In.Len(coll) == t.A[1] {
				sum.Kind, sum.Coll = "slice", coll
				return
			}
			sum.Kind = "count"
			sum.Bound = t.A[1]
			sum.Start = a.In.Int(off)
			return
		}
	}
}

// ranged: the list with added elements whose length bounds the loop.
func (a *Analysis) ranged(s *State, sum *LoopSum) *Term {
	iff, ok := sum.Header.Instrs[len(sum.Header.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return nil
	}
	call, ok := cmp.Y.(*ssa.Call)
	if !ok {
		return nil
	}
	if b, ok := call.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
		return nil
	}
	if coll := a.val(s, call.Call.Args[0]); coll.Op == "append" && !coll.Mentions(sum.ID) {
		return coll
	}
	return nil
}

// varies: the value comes from a call or receive inside the loop.
func varies(sum *LoopSum, v *Term) bool {
	in := map[*Term]bool{}
	for _, it := range sum.Iters {
		eachEvent(it, func(e *Event, _ []IterAt) {
			if e.Res != nil {
				in[e.Res] = true
			}
		})
	}
	found := false
	walkTerm(v, func(t *Term) {
		if in[t] {
			found = true
		}
	})
	return found
}

// ---- instructions ----

func (a *Analysis) site(f *Frame, ins ssa.Instruction) string { return f.key + "!" + siteKey(ins) }

func (a *Analysis) newObj(op string, f *Frame, ins ssa.Instruction, s *State, t types.Type, args ...*Term) *Term {
	o := a.In.mk(op, a.site(f, ins), t, allocSite{ins, f}, args...)
	for k := range s.mem.m {
		if addrRoot(k) == o {
			s.del(k)
		}
	}
	return o
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func fieldName(t types.Type, i int) (string, types.Type) {
	st, ok := deref(t).Underlying().(*types.Struct)
	if !ok {
		return fmt.Sprint(i), nil
	}
	return st.Field(i).Name(), st.Field(i).Type()
}

func (a *Analysis) store(s *State, addr, v *Term, t types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok && !isOpaqueStruct(t) {
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			a.store(s, a.In.FieldAddr(addr, fl.Name()), a.In.Field(v, fl.Name(), fl.Type()), fl.Type())
		}
		return
	}
	if addr.Op == "indexaddr" {
		r := addr.A[0]
		s.set(a.In.mk("written", "", nil, nil, r), a.In.Bool(true))
	}
	s.set(addr, v)
}

// isOpaqueStruct: library structs are single values.
func isOpaqueStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	p := n.Obj().Pkg()
	return p != nil && !strings.HasPrefix(p.Path(), "open-match.dev/") && !strings.HasPrefix(p.Path(), "verif/")
}

func (a *Analysis) load(s *State, addr *Term, t types.Type) *Term {
	if st, ok := t.Underlying().(*types.Struct); ok && !isOpaqueStruct(t) && addrRoot(addr).Op == "obj" {
		var names []string
		var vals []*Term
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			names = append(names, fl.Name())
			vals = append(vals, a.load(s, a.In.FieldAddr(addr, fl.Name()), fl.Type()))
		}
		return a.In.mk("struct", t.String(), t, names, vals...)
	}
	if v, ok := s.mem.m[addr]; ok {
		if v.Op == "memphi" && v.Typ == nil {
			v.Typ = t
		}
		return v
	}
	root := addrRoot(addr)
	if root.Op == "obj" {
		if hv, ok := s.mem.m[a.In.mk("havoc", "", nil, nil, root)]; ok {
			return a.project(addr, root, hv, t)
		}
		if addr.Op == "indexaddr" {
			if _, ok := s.mem.m[a.In.mk("written", "", nil, nil, addr.A[0])]; ok {
				return a.In.mk("index", "", t, nil, addr.A[0], addr.A[1])
			}
		}
		return a.In.zero(t)
	}
	switch addr.Op {
	case "glob":
		if g, ok := addr.Aux.(*ssa.Global); ok {
			if t := a.constGlobal(g); t != nil {
				return t
			}
		}
	case "fieldaddr":
		if addr.A[0].Op == "glob" || addr.A[0].Op == "fieldaddr" || addr.A[0].Op == "indexaddr" {
			// part of a larger value in memory
			base := a.addrValue(addr.A[0])
			return a.In.mk("field", addr.S, t, nil, base)
		}
		return a.In.Field(addr.A[0], addr.S, t)
	case "indexaddr":
		return a.index(s, addr.A[0], addr.A[1], t)
	}
	return a.In.mk("load", "", t, nil, addr)
}

// addrValue is the value found at an address of unknown memory.
func (a *Analysis) addrValue(addr *Term) *Term {
	switch addr.Op {
	case "fieldaddr":
		if addr.A[0].Op == "glob" || addr.A[0].Op == "fieldaddr" || addr.A[0].Op == "indexaddr" {
			return a.In.mk("field", addr.S, nil, nil, a.addrValue(addr.A[0]))
		}
		return a.In.Field(addr.A[0], addr.S, nil)
	case "indexaddr":
		return a.In.mk("index", "", nil, nil, addr.A[0], addr.A[1])
	}
	return a.In.mk("load", "", nil, nil, addr)
}

func (a *Analysis) project(addr, root, hv *Term, t types.Type) *Term {
	if addr == root {
		return hv
	}
	if addr.Op == "fieldaddr" {
		return a.In.Field(a.project(addr.A[0], root, hv, nil), addr.S, t)
	}
	return a.In.mk("load", "", t, nil, addr, hv)
}

// index is the i-th element of a slice, array pointer or string value.
func (a *Analysis) index(s *State, base, i *Term, t types.Type) *Term {
	base, i = a.rebase(base, i)
	if base.Op == "seq" {
		if n, ok := i.ConstInt(); ok && n >= 0 && int(n) < len(base.A) && base.A[n].Op != "spread" {
			return base.A[n]
		}
	}
	if i.Op == "idx" && base.Op == "maplist" {
		if base.S == "Keys" {
			return a.In.mk("key", i.S, t, nil, base.A[0])
		}
		return a.In.mk("elem", i.S, t, nil, base.A[0])
	}
	if i.Op == "idx" {
		return a.In.mk("elem", i.S, t, nil, base)
	}
	if base.Op == "mkslice" {
		if _, ok := s.mem.m[a.In.mk("written", "", nil, nil, base)]; !ok {
			return a.In.zero(t)
		}
	}
	return a.In.mk("index", "", t, nil, base, i)
}

// rebase turns s[lo:][i] into s[lo+i].
func (a *Analysis) rebase(base, i *Term) (*Term, *Term) { return base, i }

func (a *Analysis) instr(f *Frame, s *State, ins ssa.Instruction) {
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		s.env[x] = a.newObj("obj", f, x, s, deref(x.Type()))
	case *ssa.MakeMap:
		s.env[x] = a.newObj("mkmap", f, x, s, x.Type())
	case *ssa.MakeChan:
		s.env[x] = a.newObj("mkchan", f, x, s, x.Type(), a.val(s, x.Size))
	case *ssa.MakeSlice:
		s.env[x] = a.newObj("mkslice", f, x, s, x.Type(), a.val(s, x.Len))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range x.Bindings {
			bs = append(bs, a.val(s, b))
		}
		s.env[x] = a.In.mk("closure", x.Fn.String(), x.Type(), x.Fn, bs...)
	case *ssa.MakeInterface:
		s.env[x] = a.val(s, x.X)
	case *ssa.ChangeInterface:
		s.env[x] = a.val(s, x.X)
	case *ssa.ChangeType:
		s.env[x] = a.val(s, x.X)
	case *ssa.Convert:
		v := a.val(s, x.X)
		ft, tt := x.X.Type().Underlying(), x.Type().Underlying()
		if fb, ok := ft.(*types.Basic); ok {
			if tb, ok := tt.(*types.Basic); ok {
				if (fb.Info()&types.IsFloat != 0) != (tb.Info()&types.IsFloat != 0) {
					v = a.In.mk("conv", tb.Name(), x.Type(), nil, v)
				} else if fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0 {
					v = a.In.mk("conv", tb.Name(), x.Type(), nil, v)
				} else if narrows(fb, tb) {
					if _, ok := v.ConstInt(); !ok {
						v = a.In.mk("narrow", tb.Name(), x.Type(), nil, v)
					}
				}
			}
		}
		s.env[x] = v
	case *ssa.MultiConvert:
		s.env[x] = a.val(s, x.X)
	case *ssa.SliceToArrayPointer:
		s.env[x] = a.val(s, x.X)
	case *ssa.FieldAddr:
		n, _ := fieldName(x.X.Type(), x.Field)
		s.env[x] = a.In.FieldAddr(a.val(s, x.X), n)
	case *ssa.Field:
		n, t := fieldName(x.X.Type(), x.Field)
		s.env[x] = a.In.Field(a.val(s, x.X), n, t)
	case *ssa.IndexAddr:
		b, i := a.val(s, x.X), a.val(s, x.Index)
		if b.Op == "sliceof" {
			b = b.A[0]
		}
		s.env[x] = a.In.mk("indexaddr", "", nil, nil, b, i)
	case *ssa.Index:
		s.env[x] = a.index(s, a.val(s, x.X), a.val(s, x.Index), x.Type())
	case *ssa.Lookup:
		m, k := a.val(s, x.X), a.val(s, x.Index)
		if _, ok := x.X.Type().Underlying().(*types.Map); !ok {
			s.env[x] = a.In.mk("index", "", x.Type(), nil, m, k)
			return
		}
		et := x.X.Type().Underlying().(*types.Map).Elem()
		v, ok := a.lookup(s, m, k, et)
		if x.CommaOk {
			s.env[x] = a.In.mk("tuple", "", nil, nil, v, ok)
		} else {
			s.env[x] = v
		}
	case *ssa.MapUpdate:
		m, k, v := a.val(s, x.Map), a.val(s, x.Key), a.val(s, x.Value)
		a.emit(s, &Event{Kind: "mapset", Args: []*Term{m, k, v}, Site: x, Frame: f})
		s.set(a.In.mk("lookupaddr", "", nil, nil, m, k), v)
		s.set(a.In.mk("written", "", nil, nil, m), a.In.Bool(true))
	case *ssa.UnOp:
		switch x.Op {
		case token.MUL:
			s.env[x] = a.load(s, a.val(s, x.X), x.Type())
		case token.ARROW:
			ch := a.val(s, x.X)
			et := x.X.Type().Underlying().(*types.Chan).Elem()
			v := a.In.mk("recv", a.site(f, x), et, nil, ch)
			ok := a.In.mk("recvok", a.site(f, x), types.Typ[types.Bool], nil, ch)
			a.emit(s, &Event{Kind: "recv", Args: []*Term{ch}, Res: v, Site: x, Frame: f, Typ: et})
			if x.CommaOk {
				s.env[x] = a.In.mk("tuple", "", nil, nil, v, ok)
			} else {
				s.env[x] = v
			}
		case token.NOT:
			s.env[x] = a.In.Not(a.val(s, x.X))
		case token.SUB:
			v := a.val(s, x.X)
			if n, ok := v.ConstInt(); ok && !isFloat(x.Type()) {
				s.env[x] = a.In.Int(-n)
			} else if isFloat(x.Type()) {
				s.env[x] = a.In.mk("neg", "", x.Type(), nil, v)
			} else {
				s.env[x] = a.In.Bin(token.MUL, v, a.In.Int(-1), x.Type())
			}
		default:
			s.env[x] = a.In.mk("un", x.Op.String(), x.Type(), nil, a.val(s, x.X))
		}
	case *ssa.BinOp:
		s.env[x] = a.In.Bin(x.Op, a.val(s, x.X), a.val(s, x.Y), x.X.Type())
	case *ssa.Store:
		addr, v := a.val(s, x.Addr), a.val(s, x.Val)
		if r := addrRoot(addr); r.Op != "obj" || strings.HasPrefix(r.S, "shared") {
			a.emit(s, &Event{Kind: "store", Args: []*Term{addr, v}, Site: x, Frame: f})
		}
		a.store(s, addr, v, x.Val.Type())
	case *ssa.Send:
		ch, v := a.val(s, x.Chan), a.val(s, x.X)
		a.emit(s, &Event{Kind: "send", Args: []*Term{ch, v}, Site: x, Frame: f, Typ: x.X.Type()})
	case *ssa.Slice:
		v := a.val(s, x.X)
		lo, hi := a.In.Nil(), a.In.Nil()
		if x.Low != nil {
			lo = a.val(s, x.Low)
		}
		if x.High != nil {
			hi = a.val(s, x.High)
		}
		if n, ok := lo.ConstInt(); ok && n == 0 {
			lo = a.In.Nil()
		}
		if v.Op == "obj" || (isArrayPtr(x.X.Type()) && v.Op != "obj") {
			if lo.IsNil() && hi.IsNil() {
				s.env[x] = a.In.mk("sliceof", "", deref(x.X.Type()), nil, v)
				return
			}
		}
		if lo.IsNil() && hi.IsNil() {
			s.env[x] = v
			return
		}
		if n, ok := hi.ConstInt(); ok && n == 0 && lo.IsNil() {
			if v.Op == "sliceof" || v.Op == "seq" && len(v.A) == 0 {
				s.env[x] = v
				if v.Op == "sliceof" {
					s.env[x] = a.In.mk("seq", "", nil, nil)
				}
				return
			}
			s.env[x] = a.In.mk("empty", "", x.Type(), nil, v)
			return
		}
		if v.Op == "slice" && v.A[2].IsNil() && !v.A[1].IsNil() {
			// s[a:][b:c] = s[a+b:a+c]
			add := func(t *Term) *Term { return a.In.Bin(token.ADD, v.A[1], t, types.Typ[types.Int]) }
			nlo := v.A[1]
			if !lo.IsNil() {
				nlo = add(lo)
			}
			nhi := hi
			if !hi.IsNil() {
				nhi = add(hi)
			}
			s.env[x] = a.In.mk("slice", "", x.Type(), nil, v.A[0], nlo, nhi)
			return
		}
		s.env[x] = a.In.mk("slice", "", x.Type(), nil, v, lo, hi)
	case *ssa.TypeAssert:
		v := a.val(s, x.X)
		if x.CommaOk && isReplyList(x) {
			// a storage reply is a list unless there is none
			s.env[x] = a.In.mk("tuple", "", nil, nil, v, a.In.Not(a.In.Eq(v, a.In.Nil())))
		} else if x.CommaOk {
			s.env[x] = a.In.mk("tuple", "", nil, nil, v, a.In.mk("assertok", x.AssertedType.String(), types.Typ[types.Bool], nil, v))
		} else {
			s.env[x] = v
		}
	case *ssa.Extract:
		s.env[x] = a.extract(a.val(s, x.Tuple), x.Index, x.Type())
	case *ssa.Range:
		s.env[x] = a.val(s, x.X)
	case *ssa.Next:
		id := fmt.Sprintf("%s@%d", f.key, x.Block().Index)
		coll := a.val(s, x.Iter)
		ok := a.In.mk("more", a.site(f, x), types.Typ[types.Bool], nil, coll)
		var kt, vt types.Type
		if tt, isT := x.Type().(*types.Tuple); isT {
			kt, vt = tt.At(1).Type(), tt.At(2).Type()
		}
		s.env[x] = a.In.mk("tuple", "", nil, nil, ok, a.In.mk("key", id, kt, nil, coll), a.In.mk("elem", id, vt, nil, coll))
	case *ssa.Defer:
		fn, args := a.calleeArgs(s, &x.Call)
		s.defers = append(s.defers[:len(s.defers):len(s.defers)], deferred{&x.Call, x, fn, args, f})
		a.emit(s, &Event{Kind: "defer", Fn: fn, Name: calleeName(&x.Call, fn), Args: args, Site: x, Frame: f, Callee: fnOf(fn)})
	case *ssa.Go:
		fn, args := a.calleeArgs(s, &x.Call)
		a.spawn(f, s, x, fn, args, calleeName(&x.Call, fn))
	default:
		if v, ok := ins.(ssa.Value); ok {
			s.env[v] = a.In.mk("unknown", a.site(f, ins), v.Type(), nil)
		}
	}
}

func narrows(f, t *types.Basic) bool {
	sz := func(b *types.Basic) int {
		switch b.Kind() {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr:
			return 64
		}
		return 0
	}
	a, b := sz(f), sz(t)
	return a > 0 && b > 0 && b < a
}

func isArrayPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	_, ok = p.Elem().Underlying().(*types.Array)
	return ok
}

func (a *Analysis) extract(t *Term, i int, typ types.Type) *Term {
	if t.Op == "tuple" && i < len(t.A) {
		return t.A[i]
	}
	return a.In.mk("res", fmt.Sprint(i), typ, nil, t)
}

func (a *Analysis) lookup(s *State, m, k *Term, et types.Type) (v, ok *Term) {
	addr := a.In.mk("lookupaddr", "", nil, nil, m, k)
	if v, found := s.mem.m[addr]; found {
		if v.Op == "deleted" {
			return a.In.zero(et), a.In.Bool(false)
		}
		return v, a.In.Bool(true)
	}
	if m.Op == "mkmap" {
		if _, w := s.mem.m[a.In.mk("written", "", nil, nil, m)]; !w {
			return a.In.zero(et), a.In.Bool(false)
		}
	}
	if m.IsNil() {
		return a.In.zero(et), a.In.Bool(false)
	}
	if k.Op == "key" && len(k.A) == 1 && k.A[0] == m {
		// the map's own key in an iteration over it
		return a.In.mk("elem", k.S, et, nil, m), a.In.Bool(true)
	}
	return a.In.mk("lookup", "", et, nil, m, k), a.In.mk("lookupok", "", types.Typ[types.Bool], nil, m, k)
}

func (a *Analysis) selectStmt(f *Frame, s *State, x *ssa.Select) []*State {
	var out []*State
	var alts []*Event
	for i, st := range x.States {
		ch := a.val(s, st.Chan)
		if st.Dir == types.SendOnly {
			alts = append(alts, &Event{Kind: "send", Args: []*Term{ch, a.val(s, st.Send)}, Site: x, Frame: f, Select: true, Block: x.Blocking, Typ: st.Chan.Type().Underlying().(*types.Chan).Elem()})
		} else {
			v := a.In.mk("recv", fmt.Sprintf("%s/%d", a.site(f, x), i), st.Chan.Type().Underlying().(*types.Chan).Elem(), nil, ch)
			alts = append(alts, &Event{Kind: "recv", Args: []*Term{ch}, Res: v, Site: x, Frame: f, Select: true, Block: x.Blocking, Typ: st.Chan.Type().Underlying().(*types.Chan).Elem()})
		}
	}
	mk := func(chosen int) {
		t := s.clone()
		// tuple: index, recvOk, received values
		tup := []*Term{a.In.Int(int64(chosen)), a.In.mk("recvok", fmt.Sprintf("%s/%d", a.site(f, x), chosen), types.Typ[types.Bool], nil)}
		for i, st := range x.States {
			if st.Dir == types.RecvOnly {
				if i == chosen {
					tup = append(tup, alts[i].Res)
				} else {
					tup = append(tup, a.In.mk("zero", "norecv", nil, nil))
				}
			}
		}
		t.env[x] = a.In.mk("tuple", "", nil, nil, tup...)
		if chosen >= 0 {
			e := *alts[chosen]
			for i, al := range alts {
				if i != chosen {
					e.Alts = append(e.Alts, al)
				}
			}
			a.emit(t, &e)
		} else {
			a.emit(t, &Event{Kind: "selectdefault", Site: x, Frame: f, Alts: alts})
		}
		out = append(out, t)
	}
	for i := range x.States {
		mk(i)
	}
	if !x.Blocking {
		mk(-1)
	}
	return out
}

// constGlobal gives the value of a package variable that is only assigned to
// by its initialiser, if that is a constant, an error made from constants or
// the like.
func (a *Analysis) constGlobal(g *ssa.Global) *Term {
	a.R.globOnce.Do(a.R.findGlobals)
	v := a.R.globInit[g]
	if v == nil {
		return nil
	}
	p, ok := g.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	if _, basic := p.Elem().Underlying().(*types.Basic); !basic && p.Elem().String() != "error" {
		return nil
	}
	return a.constValue(v, 0)
}

func (a *Analysis) constValue(v ssa.Value, depth int) *Term {
	if depth > 6 {
		return nil
	}
	switch v := v.(type) {
	case *ssa.Const:
		return a.In.Const(v)
	case *ssa.MakeInterface:
		return a.constValue(v.X, depth+1)
	case *ssa.ChangeType:
		return a.constValue(v.X, depth+1)
	case *ssa.Call:
		f := v.Call.StaticCallee()
		if f == nil || !pure(f.String()) {
			return nil
		}
		var args []*Term
		for _, x := range v.Call.Args {
			t := a.constValue(x, depth+1)
			if t == nil {
				return nil
			}
			args = append(args, t)
		}
		return a.In.mk("app", f.String(), v.Type(), nil, args...)
	}
	return nil
}

// findGlobals finds the package variables that are only assigned to by their
// initialiser and whose address is not taken.
func (r *Repo) findGlobals() {
	r.globInit = map[*ssa.Global]ssa.Value{}
	bad := map[*ssa.Global]bool{}
	for _, f := range r.Funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch in := in.(type) {
					case *ssa.UnOp:
						continue
					case *ssa.Store:
						if in.Addr == ssa.Value(g) && in.Val != ssa.Value(g) && f.Name() == "init" && f.Synthetic != "" && r.globInit[g] == nil {
							r.globInit[g] = in.Val
							continue
						}
					}
					bad[g] = true
				}
			}
		}
	}
	for g := range bad {
		delete(r.globInit, g)
	}
}

// isReplyList: the reply to a storage command as a list.
func isReplyList(x *ssa.TypeAssert) bool {
	l, ok := x.AssertedType.(*types.Slice)
	if !ok {
		return false
	}
	if _, ok := l.Elem().Underlying().(*types.Interface); !ok {
		return false
	}
	e, ok := x.X.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return false
	}
	call, ok := e.Tuple.(*ssa.Call)
	if !ok || !call.Call.IsInvoke() {
		return false
	}
	m := call.Call.Method
	return m.Name() == "Do" && m.Pkg() != nil && m.Pkg().Path() == redigo
}

// listed: after a loop that puts every key of a map into an empty list, the
// list is known as that of the map's keys.
func (a *Analysis) listed(sum *LoopSum, s *State, exits []edgeState) {
	if sum.Kind != "map" && sum.Kind != "slice" || len(sum.Vals) > 1 || len(sum.Iters) == 0 || sum.Coll == nil {
		return
	}
	if all, _ := complete(sum); !all {
		return
	}
	if sum.Kind == "slice" {
		a.copied(sum, exits)
		return
	}
	var m ssa.Value
	for _, ins := range sum.Header.Instrs {
		if nx, ok := ins.(*ssa.Next); ok {
			if r, ok := nx.Iter.(*ssa.Range); ok {
				m = r.X
			}
		}
	}
	if m == nil || sum.Coll.Op == "mkmap" && !unchanged(sum.Header.Instrs[len(sum.Header.Instrs)-1], m) {
		return
	}
	for phi, p := range sum.PhiT {
		if !startsEmpty(sum.Init[phi]) {
			continue
		}
		by := ""
		for _, q := range sum.Iters {
			t := q.Back[phi]
			is := ""
			if t != nil && t.Op == "append" && len(t.A) == 2 && t.A[0] == p && len(t.A[1].A) > 0 && t.A[1].A[0] == sum.Coll && s2loop(t.A[1].S) == sum.ID {
				switch t.A[1].Op {
				case "key":
					is = "Keys"
				case "elem":
					is = "Values"
				}
			}
			if is == "" || by != "" && by != is {
				by = ""
				break
			}
			by = is
		}
		if by == "" {
			continue
		}
		l := a.In.mk("maplist", by, phi.Type(), nil, sum.Coll)
		for _, e := range exits {
			for v, t := range e.s.env {
				if t == p {
					e.s.env[v] = l
				}
			}
		}
	}
}

func startsEmpty(t *Term) bool {
	return t != nil && (t.IsNil() || t.Op == "zero" || t.Op == "empty" || t.Op == "seq" && len(t.A) == 0 || t.Op == "mkslice" && isZeroInt(t.A[0]))
}

// copied: a loop that adds every element of a list to an empty one has copied
// the list.
func (a *Analysis) copied(sum *LoopSum, exits []edgeState) {
	if !isLocal(sum.Coll) {
		return
	}
	for phi, p := range sum.PhiT {
		if !startsEmpty(sum.Init[phi]) {
			continue
		}
		all := true
		for _, q := range sum.Iters {
			t := q.Back[phi]
			all = all && t != nil && t.Op == "append" && len(t.A) == 2 && t.A[0] == p && t.A[1].Op == "elem" && s2loop(t.A[1].S) == sum.ID && len(t.A[1].A) > 0 && t.A[1].A[0] == sum.Coll
		}
		if !all {
			continue
		}
		for _, e := range exits {
			for v, t := range e.s.env {
				if t == p {
					e.s.env[v] = sum.Coll
				}
			}
		}
	}
}
