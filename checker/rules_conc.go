package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("captured", "C27", "a variable that a goroutine shares with the code around it is not written while another goroutine may use it (order by start, wait group, channel; or a lock)", ruleCaptured)
	rule("wait-groups", "C27", "a wait group is raised before the goroutine it counts is started, and lowered once on every way out of it", ruleWaitGroups)
}

// ---- order within a function ----

// follows: instruction to can be executed after from without an instruction
// of cut in between.
func follows(from, to ssa.Instruction, cut func(ssa.Instruction) bool) bool {
	if from.Block() == nil || to.Block() == nil || from.Parent() != to.Parent() {
		return true
	}
	scan := func(b *ssa.BasicBlock, i int) (hit, stop bool) {
		for ; i < len(b.Instrs); i++ {
			x := b.Instrs[i]
			if x == to {
				return true, true
			}
			if cut != nil && cut(x) {
				return false, true
			}
		}
		return false, false
	}
	at := func(x ssa.Instruction) int {
		for i, y := range x.Block().Instrs {
			if x == y {
				return i
			}
		}
		return 0
	}
	hit, stop := scan(from.Block(), at(from)+1)
	if hit || stop {
		return hit
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock{}, from.Block().Succs...)
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		hit, stop := scan(b, 0)
		if hit {
			return true
		}
		if !stop {
			work = append(work, b.Succs...)
		}
	}
	return false
}

// ---- goroutine entries ----

// goEntry is a function that is started as a goroutine.
type goEntry struct {
	fn   *ssa.Function
	site ssa.Instruction
	grp  ssa.Value // error group or wait group that started it
}

func closureOf(v ssa.Value) *ssa.Function {
	for {
		switch x := v.(type) {
		case *ssa.MakeClosure:
			f, _ := x.Fn.(*ssa.Function)
			return f
		case *ssa.Function:
			return x
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

func (c *Ctx) entries_() map[*ssa.Function][]goEntry {
	if v, ok := c.memo["entries"]; ok {
		return v.(map[*ssa.Function][]goEntry)
	}
	out := map[*ssa.Function][]goEntry{}
	add := func(f *ssa.Function, s ssa.Instruction, g ssa.Value) {
		if f != nil {
			out[f] = append(out[f], goEntry{f, s, g})
		}
	}
	for _, f := range c.R.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Go:
					add(closureOf(x.Call.Value), x, nil)
				case *ssa.Call:
					cl := x.Call.StaticCallee()
					if cl == nil {
						continue
					}
					switch cl.String() {
					case "(*golang.org/x/sync/errgroup.Group).Go", "(*sync.WaitGroup).Go":
						add(closureOf(x.Call.Args[1]), x, x.Call.Args[0])
					case "time.AfterFunc":
						add(closureOf(x.Call.Args[1]), x, nil)
					}
				}
			}
		}
	}
	c.memo["entries"] = out
	return out
}

// cellOf resolves an address to the variable it denotes: an Alloc (of an
// enclosing function when captured).
func cellOf(v ssa.Value) *ssa.Alloc {
	for d := 0; d < 20; d++ {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			f := x.Parent()
			mc := makerOf(f)
			if mc == nil {
				return nil
			}
			found := false
			for i, fv := range f.FreeVars {
				if fv == x && i < len(mc.Bindings) {
					v = mc.Bindings[i]
					found = true
				}
			}
			if !found {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

func makerOf(f *ssa.Function) *ssa.MakeClosure {
	p := f.Parent()
	if p == nil {
		return nil
	}
	for _, b := range p.Blocks {
		for _, ins := range b.Instrs {
			if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == f {
				return mc
			}
		}
	}
	return nil
}

// access is a use of a shared variable.
type access struct {
	ins     ssa.Instruction
	write   bool
	atomic  bool
	content bool // not the variable itself but what it refers to
	locks   held
	ctx     *ssa.Function // goroutine entry it runs in (nil: the function that declares the variable)
	force   *ssa.Function
	what    string
}

func isSync(t types.Type) bool {
	switch path, name := namedIn(t); path {
	case "sync", "sync/atomic", "golang.org/x/sync/errgroup", "golang.org/x/sync/semaphore":
		return true
	case "time":
		return name == "Timer" || name == "Ticker"
	}
	return false
}

func namedIn(t types.Type) (path, name string) {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", ""
	}
	return n.Obj().Pkg().Path(), n.Obj().Name()
}

// oneUser: a library type whose methods must not be called concurrently.
func oneUser(t types.Type) bool {
	path, name := namedIn(t)
	switch path {
	case "math/rand", "math/rand/v2":
		return name == "Rand"
	case "bytes":
		return name == "Buffer"
	case "strings":
		return name == "Builder"
	case "bufio", "encoding/json", "encoding/gob":
		return true
	case "github.com/gomodule/redigo/redis":
		return name == "Conn"
	case "github.com/oklog/ulid", "github.com/oklog/ulid/v2":
		return name == "MonotonicEntropy"
	}
	return false
}

var viperWrites = map[string]bool{"Set": true, "SetDefault": true, "BindEnv": true, "AutomaticEnv": true, "ReadInConfig": true, "ReadConfig": true, "MergeInConfig": true, "MergeConfig": true, "MergeConfigMap": true, "WatchConfig": true, "RegisterAlias": true, "SetEnvPrefix": true, "SetEnvKeyReplacer": true, "SetConfigFile": true, "SetConfigType": true, "SetTypeByDefaultValue": true, "BindPFlag": true}

// above: f encloses g.
func above(f, g *ssa.Function) bool {
	for g = g.Parent(); g != nil; g = g.Parent() {
		if f == g {
			return true
		}
	}
	return false
}

// lockName names the mutex an address denotes.
func lockName(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		t := x.X.Type().Underlying().(*types.Pointer).Elem()
		return fmt.Sprintf("%s.%d", types.TypeString(t, nil), x.Field)
	case *ssa.Global:
		return x.String()
	case *ssa.UnOp:
		return "*" + lockName(x.X)
	}
	if a := cellOf(v); a != nil {
		return fmt.Sprintf("%s@%d", a.Comment, a.Pos())
	}
	return v.Name() + "@" + v.Parent().String()
}

type held map[string]bool // lock -> exclusively

// lockCall: the instruction locks or unlocks a mutex.
func lockCall(x ssa.Instruction) (name string, lock, excl, ok bool) {
	call, is := x.(*ssa.Call)
	if !is || call.Call.IsInvoke() {
		return
	}
	cl := call.Call.StaticCallee()
	if cl == nil || len(call.Call.Args) == 0 {
		return
	}
	switch cl.String() {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock":
		return lockName(call.Call.Args[0]), true, true, true
	case "(*sync.RWMutex).RLock":
		return lockName(call.Call.Args[0]), true, false, true
	case "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RUnlock":
		return lockName(call.Call.Args[0]), false, false, true
	}
	return
}

// locksAt lists the mutexes held at the instruction: locked before it on
// every path with no unlock in between, or held by every caller.
func (c *Ctx) locksAt(ins ssa.Instruction, depth int) held {
	out := held{}
	f := ins.Parent()
	if f == nil || len(f.Blocks) == 0 {
		return out
	}
	kinds := map[string]bool{}
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if n, lock, excl, ok := lockCall(x); ok && lock {
				if e, seen := kinds[n]; seen {
					excl = excl && e
				}
				kinds[n] = excl
			}
		}
	}
	first := f.Blocks[0].Instrs[0]
	for name, excl := range kinds {
		is := func(want bool) func(x ssa.Instruction) bool {
			return func(x ssa.Instruction) bool {
				n, lock, _, ok := lockCall(x)
				return ok && lock == want && n == name
			}
		}
		lock, unlock := is(true), is(false)
		if first == ins || !lock(first) && follows(first, ins, lock) {
			continue
		}
		bad := false
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				bad = bad || unlock(x) && follows(x, ins, lock)
			}
		}
		if !bad {
			out[name] = excl
		}
	}
	if depth > 3 {
		return out
	}
	// held by the callers
	ent := c.entries_()
	if len(ent[f]) > 0 || !c.onlyCalled(f) {
		return out
	}
	var common held
	for k, s := range c.callSites()[f] {
		h := c.locksAt(s, depth+1)
		if k == 0 {
			common = h
			continue
		}
		for n, e := range common {
			e2, ok := h[n]
			if !ok {
				delete(common, n)
			} else {
				common[n] = e && e2
			}
		}
	}
	for n, e := range common {
		unlocks := false
		for _, b := range f.Blocks {
			for _, x := range b.Instrs {
				if m, lock, _, ok := lockCall(x); ok && !lock && m == n {
					unlocks = true
				}
			}
		}
		if !unlocks {
			out[n] = e
		}
	}
	return out
}

// guarded: two accesses are under the same mutex, the writing ones
// exclusively.
func guarded(w, x access) bool {
	for n, e := range w.locks {
		e2, ok := x.locks[n]
		if ok && (e || !w.write) && (e2 || !x.write) {
			return true
		}
	}
	return false
}

// callSites lists the plain static calls of every function of the repository.
func (c *Ctx) callSites() map[*ssa.Function][]ssa.Instruction {
	if v, ok := c.memo["callsites"]; ok {
		return v.(map[*ssa.Function][]ssa.Instruction)
	}
	out := map[*ssa.Function][]ssa.Instruction{}
	other := map[*ssa.Function]bool{}
	for _, f := range c.R.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				var callee *ssa.Function
				if call, ok := ins.(*ssa.Call); ok {
					callee = call.Call.StaticCallee()
					if callee != nil {
						out[callee] = append(out[callee], ins)
					}
				}
				for _, op := range ins.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						if call, is := ins.(*ssa.Call); is && op == &call.Call.Value {
							continue
						}
						if mc, is := ins.(*ssa.MakeClosure); is && op == &mc.Fn {
							continue
						}
						other[g] = true
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					for _, r := range *mc.Referrers() {
						if call, is := r.(*ssa.Call); !is || call.Call.Value != mc {
							if _, dbg := r.(*ssa.DebugRef); !dbg {
								other[mc.Fn.(*ssa.Function)] = true
							}
						}
					}
				}
			}
		}
	}
	c.memo["callsites"] = out
	c.memo["funcvalues"] = other
	return out
}

// onlyCalled: the function is used by plain static calls only.
func (c *Ctx) onlyCalled(f *ssa.Function) bool {
	n := len(c.callSites()[f])
	if n == 0 || c.memo["funcvalues"].(map[*ssa.Function]bool)[f] {
		return false
	}
	// methods may be called through an interface
	if f.Signature.Recv() != nil && f.Object() != nil && f.Object().Exported() {
		return false
	}
	return true
}

// uses lists the accesses to the variable whose address v is, in the function
// of v.
func uses(v ssa.Value, content bool, out *[]access, depth int) {
	if depth > 6 || v.Referrers() == nil {
		return
	}
	for _, r := range *v.Referrers() {
		useAt(v, r, content, out, depth)
	}
}

// useAt is the access instruction r makes through address v.
func useAt(v ssa.Value, r ssa.Instruction, content bool, out *[]access, depth int) {
	add := func(ins ssa.Instruction, write, atomic bool, what string) {
		*out = append(*out, access{ins: ins, write: write, atomic: atomic, content: content, what: what})
	}
	switch x := r.(type) {
	case *ssa.Store:
		if x.Addr == v {
			add(x, true, false, "assigned")
		}
	case *ssa.UnOp:
		if x.Op == token.MUL && x.X == v {
			add(x, false, false, "read")
			contents(x, out, depth+1)
		}
	case *ssa.FieldAddr:
		if !isSync(x.Type()) {
			uses(x, content, out, depth+1)
		}
	case *ssa.IndexAddr:
		if x.X == v {
			uses(x, content, out, depth+1)
		}
	case *ssa.MakeClosure, *ssa.DebugRef, *ssa.Return, *ssa.Phi:
	case ssa.CallInstruction:
		cl := x.Common().StaticCallee()
		_, isGo := x.(*ssa.Go)
		switch {
		case cl != nil && pkgPathOf(cl) == "sync/atomic":
			add(x, !strings.HasPrefix(cl.Name(), "Load"), true, "atomically used")
		case isSync(v.Type()):
		case cl != nil && (pkgPathOf(cl) == "fmt" || pkgPathOf(cl) == "errors"):
			add(x, false, false, "read")
		case cl != nil && len(cl.Blocks) > 0 && depth < 5 && len(cl.Params) == len(x.Common().Args):
			for i, a := range x.Common().Args {
				if a != v {
					continue
				}
				var sub []access
				uses(cl.Params[i], content, &sub, depth+2)
				passed(sub, x, cl, isGo, out)
			}
		default:
			add(x, true, false, "passed on by address")
		}
	}
}

// passed adds the accesses a called function makes.
func passed(sub []access, x ssa.Instruction, cl *ssa.Function, isGo bool, out *[]access) {
	for _, y := range sub {
		if isGo {
			y.force = cl
		} else {
			y.ins = x
			y.what += " in " + cl.Name()
		}
		*out = append(*out, y)
	}
}

// contents lists the accesses to what a loaded value refers to.
func contents(v ssa.Value, out *[]access, depth int) {
	if depth > 6 || v.Referrers() == nil {
		return
	}
	add := func(ins ssa.Instruction, write bool, what string) {
		*out = append(*out, access{ins: ins, write: write, content: true, what: what})
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				add(x, true, "written to (an entry)")
			}
		case *ssa.Lookup:
			if x.X == v {
				add(x, false, "read (an entry)")
			}
		case *ssa.Range:
			add(x, false, "read (its entries)")
		case *ssa.FieldAddr:
			if !isSync(x.Type()) {
				uses(x, true, out, depth+1)
			}
		case *ssa.IndexAddr:
			if x.X == v && !ownIndex(x.Index) {
				uses(x, true, out, depth+1)
			}
		case *ssa.Slice:
			contents(x, out, depth+1)
		case ssa.CallInstruction:
			com := x.Common()
			if b, ok := com.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "delete", "clear":
					add(x, true, "written to (entries are deleted)")
				case "len":
					if _, ok := v.Type().Underlying().(*types.Map); ok {
						add(x, false, "read (its length)")
					}
				}
				continue
			}
			cl := com.StaticCallee()
			_, isGo := x.(*ssa.Go)
			recv := com.IsInvoke() && com.Value == v || cl != nil && cl.Signature.Recv() != nil && len(com.Args) > 0 && com.Args[0] == v
			switch {
			case recv && oneUser(v.Type()):
				name := "a method"
				if com.IsInvoke() {
					name = com.Method.Name()
				} else {
					name = cl.Name()
				}
				add(x, true, "used ("+name+"), which only one goroutine may do at a time")
			case recv && cl != nil && pkgPathOf(cl) == "github.com/spf13/viper":
				add(x, viperWrites[cl.Name()], "used ("+cl.Name()+")")
			case cl != nil && len(cl.Blocks) > 0 && depth < 5 && len(cl.Params) == len(com.Args) && !libraryType(v.Type()):
				for i, a := range com.Args {
					if a == v {
						var sub []access
						contents(cl.Params[i], &sub, depth+2)
						passed(sub, x, cl, isGo, out)
					}
				}
			}
		}
	}
}

// libraryType: a type whose own package keeps its data in order.
func libraryType(t types.Type) bool {
	path, _ := namedIn(t)
	return path != "" && !oneUser(t) && !strings.Contains(path, "open-match")
}

// ownIndex: an index that the goroutine was given.
func ownIndex(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.UnOp:
		if a := cellOf(x.X); a != nil && a.Parent() != x.Parent() {
			// a variable of its own for each goroutine
			n := 0
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					n++
				}
			}
			return n == 1
		}
	}
	return false
}

// lexical is the goroutine a function runs in when called where it is
// written: the nearest enclosing goroutine entry.
func lexical(f *ssa.Function, ent map[*ssa.Function][]goEntry, top *ssa.Function) *ssa.Function {
	for ; f != nil && f != top; f = f.Parent() {
		if len(ent[f]) > 0 {
			return f
		}
	}
	return nil
}

// runsIn lists the goroutines a closure can run in.
func runsIn(f *ssa.Function, ent map[*ssa.Function][]goEntry, top *ssa.Function, depth int) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	if f == top {
		out[nil] = true
		return out
	}
	if len(ent[f]) > 0 {
		out[f] = true
		return out
	}
	if depth > 5 {
		out[lexical(f, ent, top)] = true
		return out
	}
	mc := makerOf(f)
	if mc == nil {
		out[lexical(f, ent, top)] = true
		return out
	}
	merge := func(g *ssa.Function) {
		for k := range runsIn(g, ent, top, depth+1) {
			out[k] = true
		}
	}
	merge(f.Parent())
	for _, r := range *mc.Referrers() {
		if s, ok := r.(*ssa.Store); ok && s.Val == mc {
			if a, ok := s.Addr.(*ssa.Alloc); ok {
				for _, g := range nest(a.Parent()) {
					for _, fv := range g.FreeVars {
						if cellOf(fv) == a {
							merge(g)
						}
					}
				}
			}
		}
	}
	return out
}

func nest(f *ssa.Function) []*ssa.Function {
	out := []*ssa.Function{f}
	for _, a := range f.AnonFuncs {
		out = append(out, nest(a)...)
	}
	return out
}

// joins are the instructions of fn after which goroutine t has ended, or has
// made its last access.
func (c *Ctx) joins(t goEntry, fn *ssa.Function, many bool, last ssa.Instruction) func(ssa.Instruction) bool {
	// what t signals with
	done := map[*ssa.Alloc]bool{}
	chans := map[*ssa.Alloc]bool{}
	chanOf := func(v ssa.Value) *ssa.Alloc {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
			return cellOf(u.X)
		}
		return nil
	}
	after := func(ins ssa.Instruction) bool {
		_, def := ins.(*ssa.Defer)
		return def || last == nil || ins.Parent() != last.Parent() || !follows(ins, last, nil)
	}
	for _, b := range t.fn.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case ssa.CallInstruction:
				if cl := x.Common().StaticCallee(); cl != nil && cl.String() == "(*sync.WaitGroup).Done" && after(ins) {
					if a := cellOf(x.Common().Args[0]); a != nil {
						done[a] = true
					}
				}
				if bi, ok := x.Common().Value.(*ssa.Builtin); ok && bi.Name() == "close" && after(ins) {
					if a := chanOf(x.Common().Args[0]); a != nil {
						chans[a] = true
					}
				}
			case *ssa.Send:
				if a := chanOf(x.Chan); a != nil && after(ins) {
					chans[a] = true
				}
			}
		}
	}
	return func(x ssa.Instruction) bool {
		switch y := x.(type) {
		case ssa.CallInstruction:
			if _, ok := x.(*ssa.Call); !ok {
				return false
			}
			cl := y.Common().StaticCallee()
			if cl == nil {
				return false
			}
			switch cl.String() {
			case "(*sync.WaitGroup).Wait":
				a := cellOf(y.Common().Args[0])
				return a != nil && (done[a] || t.grp != nil && cellOf(t.grp) == a)
			case "(*golang.org/x/sync/errgroup.Group).Wait":
				if t.grp == nil {
					return false
				}
				if a := cellOf(t.grp); a != nil {
					return a == cellOf(y.Common().Args[0])
				}
				return sameGroup(t.grp, y.Common().Args[0])
			}
		case *ssa.UnOp:
			if y.Op == token.ARROW && !many {
				a := chanOf(y.X)
				return a != nil && chans[a]
			}
		}
		return false
	}
}

// sameGroup: two values that are the same error group.
func sameGroup(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ld := func(v ssa.Value) *ssa.Alloc {
		if u, ok := v.(*ssa.UnOp); ok {
			return cellOf(u.X)
		}
		return nil
	}
	return ld(a) != nil && ld(a) == ld(b)
}

// at maps an access in a closure to the places of fn where it can happen.
func placesIn(ins ssa.Instruction, fn *ssa.Function, depth int) ([]ssa.Instruction, bool) {
	if ins.Parent() == fn {
		return []ssa.Instruction{ins}, true
	}
	if depth > 4 {
		return nil, false
	}
	f := ins.Parent()
	mc := makerOf(f)
	if mc == nil {
		return nil, false
	}
	var out []ssa.Instruction
	addCall := func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Call:
				out = append(out, x)
			case *ssa.Defer:
				for _, b := range x.Parent().Blocks {
					for _, y := range b.Instrs {
						if _, ok := y.(*ssa.RunDefers); ok {
							out = append(out, y)
						}
					}
				}
			case *ssa.DebugRef, *ssa.Store:
			default:
				return false
			}
		}
		return true
	}
	if !addCall(mc) {
		return nil, false
	}
	for _, r := range *mc.Referrers() {
		s, ok := r.(*ssa.Store)
		if !ok {
			continue
		}
		a, ok := s.Addr.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		for _, q := range *a.Referrers() {
			if u, ok := q.(*ssa.UnOp); ok && !addCall(u) {
				return nil, false
			}
		}
	}
	var res []ssa.Instruction
	for _, o := range out {
		p, ok := placesIn(o, fn, depth+1)
		if !ok {
			return nil, false
		}
		res = append(res, p...)
	}
	return res, true
}

// ruleCaptured judges the variables shared with goroutines.
func ruleCaptured(c *Ctx) {
	ent := c.entries_()
	nGo, nVar := 0, 0
	done := map[*ssa.Alloc]bool{}
	var fs []*ssa.Function
	for f := range ent {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].Pos() < fs[j].Pos() })
	judge := func(a *ssa.Alloc) {
		done[a] = true
		nVar++
		why, at := c.cellRaces(a, ent)
		w := c.R.Pos(a.Pos()) + " (" + fnShort(a.Parent()) + ")"
		if at != nil {
			w = c.R.Pos(at.Pos()) + " (" + fnShort(at.Parent()) + ")"
		}
		c.Ob("C27", why == "", w, "the variable "+a.Comment+" is not written while another goroutine may use it", why)
	}
	for _, f := range fs {
		nGo++
		for _, fv := range f.FreeVars {
			a := cellOf(fv)
			if a == nil {
				c.Ob("C27", false, c.FnWhere(f), "the variable shared with a goroutine is known", fv.Name())
				continue
			}
			if done[a] || isSync(a.Type()) {
				continue
			}
			judge(a)
		}
		for _, e := range ent[f] {
			if g, ok := e.site.(*ssa.Go); ok {
				for _, v := range g.Call.Args {
					if a := cellOf(v); a != nil && !done[a] && !isSync(a.Type()) {
						judge(a)
					}
				}
			}
		}
	}
	c.Ob("C27", nGo > 0 && nVar > 0, "core", "goroutines and the variables they share", fmt.Sprintf("%d goroutines, %d variables", nGo, nVar))
}

func (c *Ctx) cellRaces(a *ssa.Alloc, ent map[*ssa.Function][]goEntry) (string, ssa.Instruction) {
	top := a.Parent()
	var all []access
	for _, f := range nest(top) {
		var list []access
		if f == top {
			uses(a, false, &list, 0)
		}
		for _, fv := range f.FreeVars {
			if cellOf(fv) == a {
				uses(fv, false, &list, 0)
			}
		}
		for _, x := range list {
			x.locks = c.locksAt(x.ins, 0)
			if x.force != nil {
				x.ctx = x.force
				all = append(all, x)
				continue
			}
			for ctx := range runsIn(f, ent, top, 0) {
				y := x
				y.ctx = ctx
				all = append(all, y)
			}
		}
	}
	isFresh := func(x ssa.Instruction) bool { return x == ssa.Instruction(a) }
	// chain of goroutines from the outermost to t
	chain := func(t *ssa.Function) []*ssa.Function {
		var out []*ssa.Function
		for t != nil {
			out = append([]*ssa.Function{t}, out...)
			t = lexical(ent[t][0].site.Parent(), ent, top)
		}
		return out
	}
	many := func(t *ssa.Function) bool {
		for _, x := range chain(t) {
			if len(ent[x]) > 1 {
				return true
			}
			s := ent[x][0].site
			if follows(s, s, isFresh) {
				return true
			}
		}
		return false
	}
	// ended: in the function of t's start, everything after x in t is over
	// ordered: w (in goroutine t) cannot happen at the same time as x
	ordered := func(w, x access) bool {
		tc, xc := chain(w.ctx), chain(x.ctx)
		k := 0
		for k < len(tc) && k < len(xc) && tc[k] == xc[k] {
			k++
		}
		if k == len(tc) {
			return false // x runs in a goroutine below w's: judged the other way round
		}
		t := tc[k]
		if len(ent[t]) != 1 {
			return false
		}
		te := ent[t][0]
		// t stands for the goroutines below it only if it waits for them
		for i := k + 1; i < len(tc); i++ {
			if len(ent[tc[i]]) != 1 {
				return false
			}
			ie := ent[tc[i]][0]
			j := c.joins(ie, ie.site.Parent(), true, nil)
			for _, b := range ie.site.Parent().Blocks {
				for _, y := range b.Instrs {
					if _, ok := y.(*ssa.Return); ok && follows(ie.site, y, j) {
						// waits in a deferred call count as well
						if !deferredJoin(ie.site.Parent(), j, c, ie) {
							te = goEntry{te.fn, te.site, te.grp}
							k = -1
						}
					}
				}
			}
		}
		joinable := k >= 0
		cut := func(y ssa.Instruction) bool { return isFresh(y) }
		if joinable {
			last := w.ins
			if w.ins.Parent() != te.fn {
				last = nil
			}
			j := c.joins(te, te.site.Parent(), many(t), last)
			cut = func(y ssa.Instruction) bool { return isFresh(y) || j(y) }
		}
		if k < 0 {
			k = 0
			for k < len(tc) && k < len(xc) && tc[k] == xc[k] {
				k++
			}
		}
		if k == len(xc) {
			// x runs in the goroutine that started t
			if above(x.ins.Parent(), te.site.Parent()) {
				ss, ok := placesIn(te.site, x.ins.Parent(), 0)
				if !ok {
					return false
				}
				for _, s := range ss {
					if follows(s, x.ins, isFresh) {
						return false
					}
				}
				return true
			}
			ps, ok := placesIn(x.ins, te.site.Parent(), 0)
			if !ok {
				return false
			}
			for _, p := range ps {
				if follows(te.site, p, cut) {
					return false
				}
			}
			return true
		}
		// both run in goroutines of their own
		o := xc[k]
		if len(ent[o]) != 1 || ent[o][0].site.Parent() != te.site.Parent() {
			return false
		}
		oe := ent[o][0]
		jo := c.joins(oe, oe.site.Parent(), many(o), nil)
		return !follows(te.site, oe.site, cut) && !follows(oe.site, te.site, func(y ssa.Instruction) bool { return isFresh(y) || jo(y) })
	}
	for _, w := range all {
		for _, x := range all {
			if !w.write && !x.write || w.ctx == nil || w.atomic && x.atomic || guarded(w, x) || w.content != x.content {
				continue
			}
			if w.ctx == x.ctx {
				if w.write && many(w.ctx) {
					return fmt.Sprintf("it is %s at %s by several goroutines", w.what, c.R.Pos(w.ins.Pos())), w.ins
				}
				continue
			}
			if ordered(w, x) {
				continue
			}
			if x.ctx != nil && ordered(x, w) {
				continue
			}
			p, q := w, x
			if !p.write {
				p, q = x, w
			}
			return fmt.Sprintf("%s at %s while a goroutine may use it: %s at %s", p.what, c.R.Pos(p.ins.Pos()), q.what, c.R.Pos(q.ins.Pos())), p.ins
		}
	}
	return "", nil
}

// deferredJoin: the function waits for the goroutine in a deferred call.
func deferredJoin(f *ssa.Function, j func(ssa.Instruction) bool, c *Ctx, t goEntry) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok {
				continue
			}
			cl := d.Call.StaticCallee()
			if cl == nil || cl.String() != "(*sync.WaitGroup).Wait" {
				continue
			}
			a := cellOf(d.Call.Args[0])
			for _, tb := range t.fn.Blocks {
				for _, y := range tb.Instrs {
					if x, ok := y.(ssa.CallInstruction); ok {
						if cl := x.Common().StaticCallee(); cl != nil && cl.String() == "(*sync.WaitGroup).Done" && a != nil && cellOf(x.Common().Args[0]) == a {
							// every start comes after the deferral
							if !follows(f.Blocks[0].Instrs[0], t.site, func(z ssa.Instruction) bool { return z == ins }) {
								return true
							}
						}
					}
				}
			}
		}
	}
	return false
}

// ruleWaitGroups judges the counts of the wait groups.
func ruleWaitGroups(c *Ctx) {
	owners := map[*ssa.Function]bool{}
	isWG := func(ins ssa.Instruction) bool {
		call, ok := ins.(ssa.CallInstruction)
		if !ok {
			return false
		}
		cl := call.Common().StaticCallee()
		return cl != nil && strings.HasPrefix(cl.String(), "(*sync.WaitGroup).")
	}
	calls := map[string]ssa.Instruction{}
	var fs []*ssa.Function
	for _, f := range c.R.Funcs {
		if isGenerated(pkgPathOf(f)) {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if isWG(ins) {
					calls[c.R.Pos(ins.Pos())] = ins
				}
				a, ok := ins.(*ssa.Alloc)
				if !ok {
					continue
				}
				if _, ptr := deref(a.Type()).Underlying().(*types.Pointer); ptr {
					continue // a variable for the address of one
				}
				if path, name := namedIn(a.Type()); path == "sync" && name == "WaitGroup" {
					top := f
					for top.Parent() != nil {
						top = top.Parent()
					}
					if !owners[top] {
						owners[top] = true
						fs = append(fs, top)
					}
				}
			}
		}
	}
	seen := map[string]bool{}
	n := 0
	for _, f := range fs {
		root := c.Root(f)
		if !c.Sound("C27", root) {
			continue
		}
		hb := root.HB()
		g := root.Gens()
		groups := map[*Term]bool{}
		adds, waits := map[*Term][]*At{}, map[*Term][]*At{}
		root.WalkAll(func(e *Event, at *At) {
			if wgName(e) == "" {
				return
			}
			seen[c.R.Pos(e.Site.Pos())] = true
			groups[e.Args[0]] = true
			switch wgName(e) {
			case "Add":
				adds[e.Args[0]] = append(adds[e.Args[0]], at)
			case "Wait":
				waits[e.Args[0]] = append(waits[e.Args[0]], at)
			}
		})
		var ws []*Term
		for w := range groups {
			ws = append(ws, w)
		}
		sort.Slice(ws, func(i, j int) bool { return ws[i].key < ws[j].key })
		for _, w := range ws {
			n++
			where := c.FnWhere(f)
			if len(waits[w]) > 0 {
				where = c.Where(waits[w][0].Event())
			}
			for _, p := range root.Paths {
				if p.Kind == "fatal" || p.Kind == "panic" {
					continue
				}
				s, why := g.sum(p, func(e *Event) *Term {
					if wgName(e) == "" || e.Args[0] != w {
						return nil
					}
					switch wgName(e) {
					case "Add":
						return e.Args[1]
					case "Done":
						return root.A.In.Int(-1)
					}
					return nil
				})
				s = g.settle(s, p)
				k, isK := s.constant()
				ok := why == "" && isK && k == 0
				if why == "" && !ok {
					why = "raised and lowered: difference " + s.String()
				}
				c.Ob("C27", ok, where, "the wait group is lowered as often as it is raised", why)
			}
			for _, a := range adds[w] {
				for _, q := range waits[w] {
					if a.top().Path != q.top().Path && a.thread() == q.thread() {
						continue // another way through the function
					}
					if a.Root == q.Root && !together(a, q) {
						continue
					}
					c.Ob("C27", hb.Before(a, q), c.Where(q.Event()), "the wait group is raised before it is waited for", "raised at "+c.Where(a.Event()))
				}
			}
			for _, at := range hb.gos {
				ge := at.Event()
				if ge.Thread == nil || !hb.lowers(ge, w) {
					continue
				}
				c.Ob("C27", hb.added(at, w) == "", c.Where(ge), "the wait group is raised before the goroutine it counts starts", hb.added(at, w))
			}
		}
	}
	var pos []string
	for k := range calls {
		pos = append(pos, k)
	}
	sort.Strings(pos)
	for _, k := range pos {
		c.Ob("C27", seen[k], k+" ("+fnShort(calls[k].Parent())+")", "the use of a wait group lies on an analysed path", "not reached from the function that declares the wait group")
	}
	c.Ob("C27", n > 0, "core", "wait groups", fmt.Sprintf("%d wait groups, %d calls", n, len(pos)))
}

// together: two events lie on the same execution of the root function.
func together(a, b *At) bool {
	rootOf := func(x *At) *Path {
		for x.Up != nil {
			x = x.Up
		}
		return x.Path
	}
	return rootOf(a) == rootOf(b)
}
