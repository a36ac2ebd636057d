package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Rules for the configuration: settings have defaults, are read with their
// type and after the environment is looked at, and have their effect.

func init() {
	rule("settings", "C28", "every key read is declared with a default of the type it is read as; the environment is looked at before the first read; every declared key is read", ruleSettings)
	rule("setting-effects", "C28,C34", "log level and format, storage type, port, poll size and pool sizes come from their settings", ruleSettingEffects)
}

// ---- constants ----

// A choice fixes what a constant was resolved through: the call site of a
// function, the element of a table.
type choice map[any]any

func (a choice) with(k, v any) choice {
	n := choice{k: v}
	for x, y := range a {
		n[x] = y
	}
	return n
}

func (a choice) and(b choice) (choice, bool) {
	n := choice{}
	for x, y := range a {
		n[x] = y
	}
	for x, y := range b {
		if z, ok := n[x]; ok && z != y {
			return nil, false
		}
		n[x] = y
	}
	return n, true
}

// cval is one value a variable may have. Val is nil if only the type is known.
type cval struct {
	val constant.Value
	typ types.Type
	in  choice
}

type constants struct {
	c    *Ctx
	busy map[ssa.Value]bool
}

// of lists the constants v may be; ok=false: it may be something else.
func (k *constants) of(v ssa.Value) (out []cval, ok bool) {
	if k.busy[v] {
		return nil, true
	}
	k.busy[v] = true
	defer delete(k.busy, v)
	switch v := v.(type) {
	case *ssa.Const:
		return []cval{{v.Value, v.Type(), nil}}, true
	case *ssa.MakeInterface:
		return k.of(v.X)
	case *ssa.ChangeInterface:
		return k.of(v.X)
	case *ssa.ChangeType:
		return k.of(v.X)
	case *ssa.Convert:
		out, ok = k.of(v.X)
		for i := range out {
			out[i].typ = v.Type()
		}
		return out, ok
	case *ssa.TypeAssert:
		return k.of(v.X)
	case *ssa.BinOp:
		if v.Op != token.ADD {
			break
		}
		xs, ok1 := k.of(v.X)
		ys, ok2 := k.of(v.Y)
		for _, x := range xs {
			for _, y := range ys {
				in, fits := x.in.and(y.in)
				if !fits || x.val == nil || y.val == nil || x.val.Kind() != y.val.Kind() {
					continue
				}
				out = append(out, cval{constant.BinaryOp(x.val, token.ADD, y.val), v.Type(), in})
			}
		}
		return out, ok1 && ok2
	case *ssa.Phi:
		ok = true
		for _, e := range v.Edges {
			o, is := k.of(e)
			out, ok = append(out, o...), ok && is
		}
		return out, ok
	case *ssa.Parameter:
		f := v.Parent()
		i := -1
		for j, p := range f.Params {
			if p == v {
				i = j
			}
		}
		sites := k.c.callSites()[f]
		ok = len(sites) > 0 && !k.c.memo["funcvalues"].(map[*ssa.Function]bool)[f]
		for _, s := range sites {
			args := s.(ssa.CallInstruction).Common().Args
			if i >= len(args) {
				return out, false
			}
			o, is := k.of(args[i])
			ok = ok && is
			for _, x := range o {
				if in, fits := x.in.and(choice{f: s}); fits {
					out = append(out, cval{x.val, x.typ, in})
				}
			}
		}
		return out, ok
	case *ssa.FreeVar:
		if mk := makerOf(v.Parent()); mk != nil {
			for i, fv := range v.Parent().FreeVars {
				if fv == v {
					return k.of(mk.Bindings[i])
				}
			}
		}
	case *ssa.Extract:
		if nx, is := v.Tuple.(*ssa.Next); is && v.Index > 0 {
			if rg, is := nx.Iter.(*ssa.Range); is {
				return k.entries(rg.X, func(m *ssa.MapUpdate) ssa.Value {
					if v.Index == 1 {
						return m.Key
					}
					return m.Value
				})
			}
		}
	case *ssa.Lookup:
		return k.entries(v.X, func(m *ssa.MapUpdate) ssa.Value { return m.Value })
	case *ssa.Field:
		if u, is := v.X.(*ssa.UnOp); is && u.Op == token.MUL {
			return k.load(u.X, []int{v.Field})
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			return k.load(v.X, nil)
		}
	}
	return []cval{{nil, v.Type(), nil}}, false
}

// maps lists the map a value stands for.
func (k *constants) mapOf(v ssa.Value) *ssa.MakeMap {
	switch v := v.(type) {
	case *ssa.MakeMap:
		return v
	case *ssa.UnOp:
		if g, ok := v.X.(*ssa.Global); ok && v.Op == token.MUL {
			if st := k.stores(g); len(st) == 1 {
				return k.mapOf(st[0].Val)
			}
		}
		if a, ok := v.X.(*ssa.Alloc); ok && v.Op == token.MUL {
			if st := k.stores(a); len(st) == 1 {
				return k.mapOf(st[0].Val)
			}
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if r, ok := ins.(*ssa.Return); ok && len(r.Results) == 1 {
						return k.mapOf(r.Results[0])
					}
				}
			}
		}
	}
	return nil
}

func (k *constants) entries(m ssa.Value, part func(*ssa.MapUpdate) ssa.Value) (out []cval, ok bool) {
	mk := k.mapOf(m)
	if mk == nil {
		return nil, false
	}
	ok = true
	for _, r := range *mk.Referrers() {
		if u, is := r.(*ssa.MapUpdate); is && u.Map == mk {
			o, is := k.of(part(u))
			ok = ok && is
			for _, x := range o {
				if in, fits := x.in.and(choice{mk: u}); fits {
					out = append(out, cval{x.val, x.typ, in})
				}
			}
		}
	}
	return out, ok
}

// stores lists the assignments to a variable.
func (k *constants) stores(v ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	if g, ok := v.(*ssa.Global); ok {
		for _, f := range k.c.everyFunction() {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if st, is := ins.(*ssa.Store); is && st.Addr == g {
						out = append(out, st)
					}
				}
			}
		}
		return out
	}
	for _, r := range *v.Referrers() {
		if st, is := r.(*ssa.Store); is && st.Addr == v {
			out = append(out, st)
		}
	}
	return out
}

// everyFunction: the functions of the repository and its package initialisers.
func (c *Ctx) everyFunction() []*ssa.Function {
	if v, ok := c.memo["everyfunction"]; ok {
		return v.([]*ssa.Function)
	}
	out := append([]*ssa.Function{}, c.R.Funcs...)
	seen := map[*ssa.Function]bool{}
	for _, f := range out {
		seen[f] = true
	}
	for _, f := range c.R.Funcs {
		if f.Pkg != nil {
			if g := f.Pkg.Func("init"); g != nil && !seen[g] {
				seen[g] = true
				out = append(out, g)
			}
		}
	}
	c.memo["everyfunction"] = out
	return out
}

// load lists what the variable at an address (below it: a field path) holds.
func (k *constants) load(addr ssa.Value, path []int) (out []cval, ok bool) {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		return k.load(a.X, append([]int{a.Field}, path...))
	case *ssa.IndexAddr:
		arr := k.array(a.X)
		if arr == nil {
			return nil, false
		}
		// the elements of a literal
		ok = true
		for _, r := range *arr.Referrers() {
			ia, is := r.(*ssa.IndexAddr)
			if !is || ia == a {
				continue
			}
			n, is := ia.Index.(*ssa.Const)
			if !is {
				continue
			}
			o, is := k.at(ia, path)
			ok = ok && is
			for _, x := range o {
				if in, fits := x.in.and(choice{arr: n.Int64()}); fits {
					out = append(out, cval{x.val, x.typ, in})
				}
			}
		}
		return out, ok
	case *ssa.Alloc, *ssa.Global:
		return k.at(a, path)
	case *ssa.FreeVar:
		if mk := makerOf(a.Parent()); mk != nil {
			for i, fv := range a.Parent().FreeVars {
				if fv == a {
					return k.load(mk.Bindings[i], path)
				}
			}
		}
	}
	return nil, false
}

// array finds the array behind a slice literal.
func (k *constants) array(v ssa.Value) *ssa.Alloc {
	switch v := v.(type) {
	case *ssa.Alloc:
		return v
	case *ssa.Slice:
		return k.array(v.X)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if st := k.stores(v.X); len(st) == 1 {
				if u, ok := st[0].Val.(*ssa.UnOp); ok && u.Op == token.MUL {
					return k.array(u.X)
				}
				return k.array(st[0].Val)
			}
		}
	case *ssa.Global:
		if st := k.stores(v); len(st) == 1 {
			return k.array(st[0].Val)
		}
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if r, ok := ins.(*ssa.Return); ok && len(r.Results) == 1 {
						return k.array(r.Results[0])
					}
				}
			}
		}
	}
	return nil
}

// at lists what is stored at an address, or the field of it.
func (k *constants) at(a ssa.Value, path []int) (out []cval, ok bool) {
	ok = true
	n := 0
	for _, st := range k.stores(a) {
		n++
		v := st.Val
		var o []cval
		is := true
		if len(path) == 0 {
			o, is = k.of(v)
		} else if u, isLoad := v.(*ssa.UnOp); isLoad && u.Op == token.MUL {
			o, is = k.load(u.X, path)
		} else {
			is = false
		}
		out, ok = append(out, o...), ok && is
	}
	if _, g := a.(*ssa.Global); !g && len(path) > 0 {
		for _, r := range *a.Referrers() {
			if fa, is := r.(*ssa.FieldAddr); is && fa.X == a && fa.Field == path[0] {
				if o, is := k.at(fa, path[1:]); is {
					out = append(out, o...)
					n++
				} else if len(k.stores(fa)) > 0 {
					ok = false
				}
			}
		}
	}
	return out, ok && n > 0
}

// constMaps are the package level maps with constant strings as keys and
// constants as values that are only ever looked into.
var constMaps map[string]map[string]any

func (c *Ctx) findConstMaps() {
	constMaps = map[string]map[string]any{}
	loads := map[*ssa.Global]bool{}
	bad := map[*ssa.Global]bool{}
	for _, f := range c.everyFunction() {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				for _, op := range ins.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if _, isMap := deref(g.Type()).Underlying().(*types.Map); !isMap {
						continue
					}
					if st, is := ins.(*ssa.Store); is && st.Addr == g && f.Name() == "init" && f.Parent() == nil {
						continue
					}
					u, is := ins.(*ssa.UnOp)
					if !is || u.Op != token.MUL {
						bad[g] = true
						continue
					}
					loads[g] = true
					for _, r := range *u.Referrers() {
						switch r := r.(type) {
						case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
						case *ssa.Call:
							if bi, is := r.Call.Value.(*ssa.Builtin); !is || bi.Name() != "len" {
								bad[g] = true
							}
						default:
							bad[g] = true
						}
					}
				}
			}
		}
	}
	for g := range loads {
		if bad[g] {
			continue
		}
		k := &constants{c, map[ssa.Value]bool{}}
		st := k.stores(g)
		if len(st) != 1 {
			continue
		}
		mk, ok := st[0].Val.(*ssa.MakeMap)
		if !ok {
			continue
		}
		table := map[string]any{}
		for _, r := range *mk.Referrers() {
			switch r := r.(type) {
			case *ssa.MapUpdate:
				kc, ok1 := r.Key.(*ssa.Const)
				vc, ok2 := r.Value.(*ssa.Const)
				if !ok1 || !ok2 || kc.Value == nil || vc.Value == nil || kc.Value.Kind() != constant.String {
					ok = false
					continue
				}
				var v any
				switch vc.Value.Kind() {
				case constant.Int:
					v = vc.Int64()
				case constant.Bool:
					v = constant.BoolVal(vc.Value)
				case constant.String:
					v = constant.StringVal(vc.Value)
				default:
					ok = false
				}
				table[constant.StringVal(kc.Value)] = v
			case *ssa.Store, *ssa.DebugRef:
			default:
				ok = false
			}
		}
		if ok {
			constMaps[g.String()] = table
		}
	}
}

// ---- uses of viper ----

const viperPkg = "github.com/spf13/viper"

// vcall is a call of viper.
type vcall struct {
	ins  ssa.Instruction
	name string // GetInt, SetDefault, New, …
	inst bool   // a method of a *viper.Viper
	args []ssa.Value
}

func (c *Ctx) viperCalls() []vcall {
	if v, ok := c.memo["viper"]; ok {
		return v.([]vcall)
	}
	var out []vcall
	for _, f := range c.R.Funcs {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := call.Common()
				if com.IsInvoke() {
					// an interface in front of the configuration
					n := com.Method.Name()
					if isGetter(n) && com.Method.Pkg() != nil && !strings.Contains(com.Method.Pkg().Path(), ".pb") && c.viperImplements(com.Value.Type()) {
						out = append(out, vcall{ins, n, true, com.Args})
					}
					continue
				}
				callee := com.StaticCallee()
				if callee == nil || callee.Object() == nil || pkgPathOf(callee) != viperPkg {
					continue
				}
				args := com.Args
				inst := callee.Signature.Recv() != nil
				if inst {
					args = args[1:]
				}
				out = append(out, vcall{ins, callee.Name(), inst, args})
			}
		}
	}
	c.memo["viper"] = out
	return out
}

func (c *Ctx) viperImplements(t types.Type) bool {
	ifc, ok := t.Underlying().(*types.Interface)
	if !ok || ifc.NumMethods() == 0 {
		return false
	}
	for _, f := range c.viperFns() {
		if types.Implements(f, ifc) {
			return true
		}
	}
	return false
}

// viperFns is the type *viper.Viper (as a list, empty if unused).
func (c *Ctx) viperFns() []types.Type {
	for _, f := range c.R.Funcs {
		if f.Pkg == nil {
			continue
		}
		for _, imp := range f.Pkg.Pkg.Imports() {
			if imp.Path() == viperPkg {
				if o := imp.Scope().Lookup("Viper"); o != nil {
					return []types.Type{types.NewPointer(o.Type())}
				}
			}
		}
	}
	return nil
}

func isGetter(n string) bool {
	return strings.HasPrefix(n, "Get") && n != "GetViper" && n != "GetFs" || n == "IsSet" || n == "Sub" || n == "UnmarshalKey"
}

// readable: a value declared with a default of type t can be read by the getter
// without loss.
func readable(getter string, d cval) bool {
	b, ok := d.typ.Underlying().(*types.Basic)
	if !ok {
		return getter == "Get" || getter == "IsSet"
	}
	dur := false
	if n, is := d.typ.(*types.Named); is && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Duration" {
		dur = true
	}
	zero := d.val != nil && d.val.Kind() == constant.Int && constant.Sign(d.val) == 0
	switch getter {
	case "Get", "IsSet":
		return true
	case "GetString":
		return b.Info()&(types.IsString|types.IsInteger|types.IsBoolean) != 0 && !dur
	case "GetInt", "GetInt32", "GetInt64":
		return b.Info()&types.IsInteger != 0
	case "GetUint", "GetUint16", "GetUint32", "GetUint64", "GetSizeInBytes":
		return b.Info()&types.IsInteger != 0 && d.val != nil && constant.Sign(d.val) >= 0
	case "GetBool":
		return b.Info()&types.IsBoolean != 0
	case "GetFloat64":
		return b.Info()&types.IsNumeric != 0 && !dur
	case "GetDuration":
		if dur || zero {
			return true
		}
		if d.val != nil && d.val.Kind() == constant.String {
			_, err := time.ParseDuration(constant.StringVal(d.val))
			return err == nil
		}
	case "GetTime":
		return false
	case "GetStringSlice":
		return b.Info()&types.IsString != 0
	}
	return false
}

type setting struct {
	key  string
	decl []cval
	at   []vcall
	read []vcall
}

// settings collects the declarations and reads of one program. Why explains
// what could not be resolved.
func (c *Ctx) settings(p *program) (map[string]*setting, []string) {
	out := map[string]*setting{}
	var why []string
	get := func(k string) *setting {
		k = strings.ToLower(k)
		if out[k] == nil {
			out[k] = &setting{key: k}
		}
		return out[k]
	}
	all := p.code()
	for _, v := range c.viperCalls() {
		if !all[v.ins.Parent()] || len(v.args) == 0 {
			continue
		}
		k := &constants{c, map[ssa.Value]bool{}}
		switch {
		case v.name == "SetDefault":
			keys, ok := k.of(v.args[0])
			vals, _ := k.of(v.args[1])
			if !ok {
				why = append(why, c.R.Pos(v.ins.Pos())+": a default is set for an unknown key")
			}
			for _, key := range keys {
				if key.val == nil || key.val.Kind() != constant.String {
					continue
				}
				s := get(constant.StringVal(key.val))
				s.key = constant.StringVal(key.val)
				s.at = append(s.at, v)
				for _, x := range vals {
					if _, fits := key.in.and(x.in); fits {
						s.decl = append(s.decl, x)
					}
				}
			}
		case isGetter(v.name):
			keys, ok := k.of(v.args[0])
			if !ok {
				why = append(why, c.R.Pos(v.ins.Pos())+": an unknown key is read")
			}
			seen := map[string]bool{}
			for _, key := range keys {
				if key.val == nil || key.val.Kind() != constant.String {
					continue
				}
				s := get(constant.StringVal(key.val))
				if s.key == strings.ToLower(s.key) {
					s.key = constant.StringVal(key.val)
				}
				if !seen[s.key] {
					seen[s.key] = true
					s.read = append(s.read, v)
				}
			}
		}
	}
	return out, why
}

// firstIn checks, from the start of f, that no instruction for which bad holds
// is executed before one for which good holds, and that every way out of f
// passes such an instruction. It looks into the calls of f.
type ordered struct {
	c         *Ctx
	good, bad func(ssa.Instruction) bool
	rg, rb    map[*ssa.Function]int // can reach a good, bad instruction
	must      map[*ssa.Function]int
}

func (o *ordered) reaches(f *ssa.Function, is func(ssa.Instruction) bool, memo map[*ssa.Function]int) bool {
	if m := memo[f]; m != 0 {
		return m == 2
	}
	memo[f] = 1
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if is(ins) {
				memo[f] = 2
				return true
			}
			for _, g := range o.c.callees(ins) {
				if o.reaches(g, is, memo) {
					memo[f] = 2
					return true
				}
			}
		}
	}
	return false
}

// cut: after the instruction a good one has been executed for certain.
func (o *ordered) cut(ins ssa.Instruction) bool {
	if o.good(ins) {
		return true
	}
	if x := o.everyRound(ins); x {
		return true
	}
	call, ok := ins.(*ssa.Call)
	if !ok {
		return false
	}
	f := call.Call.StaticCallee()
	if f == nil || f.Blocks == nil {
		return false
	}
	if m := o.must[f]; m != 0 {
		return m == 2
	}
	o.must[f] = 1
	for _, b := range f.Blocks {
		for _, x := range b.Instrs {
			if r, is := x.(*ssa.Return); is && (follows(f.Blocks[0].Instrs[0], r, o.cut) && !o.cut(f.Blocks[0].Instrs[0])) {
				return false
			}
		}
	}
	o.must[f] = 2
	return true
}

// everyRound: the instruction is the first of the head of a loop over a table
// that executes a good instruction in each round. The table is not empty (the
// keys come from it).
func (o *ordered) everyRound(ins ssa.Instruction) bool {
	head := ins.Block()
	if head == nil || head.Instrs[0] != ins || len(head.Succs) != 2 {
		return false
	}
	for _, b := range head.Parent().Blocks {
		if !head.Dominates(b) || b == head {
			continue
		}
		for _, x := range b.Instrs {
			if !o.good(x) {
				continue
			}
			// back to the head only by way of it
			body := head.Succs[0]
			if !body.Dominates(b) || !follows(x, ins, nil) {
				continue
			}
			if body == b || !follows(body.Instrs[0], ins, func(y ssa.Instruction) bool { return y == x }) {
				return true
			}
		}
	}
	return false
}

func (o *ordered) check(f *ssa.Function, depth int) (string, ssa.Instruction) {
	if depth > 8 || f.Blocks == nil {
		return "", nil
	}
	first := f.Blocks[0].Instrs[0]
	before := func(x ssa.Instruction) bool {
		return x == first || !o.cut(first) && follows(first, x, o.cut)
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if o.bad(ins) && before(ins) {
				return "it is executed before", ins
			}
			reachBad := false
			for _, g := range o.c.callees(ins) {
				if o.reaches(g, o.bad, o.rb) {
					reachBad = true
				}
			}
			if !reachBad || !before(ins) {
				continue
			}
			for _, g := range o.c.callees(ins) {
				if why, at := o.check(g, depth+1); why != "" {
					return why, at
				}
			}
		}
	}
	// what follows the function is the business of the caller
	return "", nil
}

func ruleSettings(c *Ctx) {
	n := 0
	for _, p := range c.programs() {
		all := p.code()
		uses := false
		for _, v := range c.viperCalls() {
			if all[v.ins.Parent()] {
				uses = true
				c.Cov[v.ins.Parent()] = true
			}
		}
		if !uses {
			continue
		}
		n++
		set, why := c.settings(p)
		c.Ob("C28", len(why) == 0, c.FnWhere(p.main), "the keys of the program's settings are constants", strings.Join(why, "; "))

		// one configuration
		insts := map[string]bool{}
		for _, v := range c.viperCalls() {
			if !all[v.ins.Parent()] {
				continue
			}
			switch {
			case v.name == "New" || v.name == "NewWithOptions" || v.name == "Sub":
				insts["made at "+c.R.Pos(v.ins.Pos())] = true
			case !v.inst:
				insts["the package's own"] = true
			}
			switch v.name {
			case "SetEnvPrefix", "SetEnvKeyReplacer", "Set", "BindEnv", "RegisterAlias", "Reset", "MergeConfigMap", "ReadConfig", "MergeConfig", "BindPFlag", "AddRemoteProvider":
				c.Ob("C28", false, c.R.Pos(v.ins.Pos()), "a setting has the value of its environment variable or its default", "viper."+v.name+" changes where values come from")
			}
		}
		c.Ob("C28", len(insts) == 1, c.FnWhere(p.main), "there is one configuration", fmt.Sprintf("%d: %s", len(insts), strings.Join(sortedStrings(insts), ", ")))

		// the environment comes first
		getter := func(x ssa.Instruction) bool {
			for _, v := range c.viperCalls() {
				if v.ins == x && isGetter(v.name) {
					return true
				}
			}
			return false
		}
		named := func(name string) func(ssa.Instruction) bool {
			return func(x ssa.Instruction) bool {
				for _, v := range c.viperCalls() {
					if v.ins == x && v.name == name {
						return true
					}
				}
				return false
			}
		}
		o := &ordered{c, named("AutomaticEnv"), getter, map[*ssa.Function]int{}, map[*ssa.Function]int{}, map[*ssa.Function]int{}}
		why1, at := o.check(p.main, 0)
		w := c.FnWhere(p.main)
		if at != nil {
			w = c.R.Pos(at.Pos()) + " (" + fnShort(at.Parent()) + ")"
		}
		c.Ob("C28", why1 == "", w, "no setting is read before the environment is looked at (AutomaticEnv)", why1)

		var keys []string
		for k := range set {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			s := set[k]
			for _, v := range s.read {
				w := c.R.Pos(v.ins.Pos()) + " (" + fnShort(v.ins.Parent()) + ")"
				c.Ob("C28", len(s.at) > 0, w, "the setting "+s.key+" has a default", "none is declared: the environment variable is ignored")
				for _, d := range s.decl {
					c.Ob("C28", d.typ != nil && readable(v.name, d), w, "the setting "+s.key+" is read as what it is declared", fmt.Sprintf("viper.%s of a default of type %s", v.name, d.typ))
				}
			}
			if len(s.at) == 0 {
				continue
			}
			w := c.R.Pos(s.at[0].ins.Pos()) + " (" + fnShort(s.at[0].ins.Parent()) + ")"
			// declared first, on every path
			reads := map[ssa.Instruction]bool{}
			for _, v := range s.read {
				reads[v.ins] = true
			}
			sets := map[ssa.Instruction]bool{}
			for _, v := range s.at {
				sets[v.ins] = true
			}
			o := &ordered{c, func(x ssa.Instruction) bool { return sets[x] }, func(x ssa.Instruction) bool { return reads[x] }, map[*ssa.Function]int{}, map[*ssa.Function]int{}, map[*ssa.Function]int{}}
			why, at := o.check(p.main, 0)
			if at != nil {
				why += " at " + c.R.Pos(at.Pos())
			}
			c.Ob("C28", why == "", w, "the default of "+s.key+" is declared before it is read", why)
			same := true
			for _, d := range s.decl {
				if d.val != nil && s.decl[0].val != nil && (d.val.Kind() != s.decl[0].val.Kind() || !constant.Compare(d.val, token.EQL, s.decl[0].val)) {
					same = false
				}
			}
			c.Ob("C28", same, w, "the setting "+s.key+" has one default", "it is declared with several")
			if strings.HasPrefix(s.key, "OM_") || s.key == "PORT" {
				c.ObKey("C28", "unused:"+s.key, len(s.read) > 0, w, "the setting "+s.key+" is used", "it is declared and never read")
			}
		}
	}
	c.Ob("C28", n > 0, "", "a program with settings", "none was found")
}

func sortedStrings(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- effects ----

// confKey is the setting a term is read from ("" if it is not one).
func confKey(t *Term) string {
	t = stripConv(t)
	if t.Op == "conf" {
		return t.S
	}
	return ""
}

// asNumber is what formatting the name of a setting as a number gives.
var asNumber = regexp.MustCompile(`%!\w\(string=(<[A-Z_]+>)\)`)

func ruleSettingEffects(c *Ctx) {
	root := c.startup("C28")
	if root == nil {
		return
	}
	key := func(name, val string) *Scenario {
		return &Scenario{Loop: func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }, Val: func(t *Term, _ Inst) (any, bool) {
			if t.Op == "conf" && t.S == name {
				return val, true
			}
			return nil, false
		}}
	}
	calls := func(p *Path, name string) []*Event {
		var out []*Event
		for _, e := range p.Events {
			if e.Kind == "call" && e.Name == name {
				out = append(out, e)
			}
		}
		return out
	}
	c.logging(key, calls)

	// where the state is stored
	for _, row := range [][2]string{{"redis", "redis"}, {"memory", "memory"}} {
		sc := key("OM_STATE_STORAGE_TYPE", row[0])
		n, bad, where := 0, "", c.FnWhere(root.Fn)
		for _, p := range root.Paths {
			if len(sc.possible(p, Inst{})) == 0 {
				continue
			}
			var last *Event
			for _, e := range p.Events {
				if e.Kind == "store" && e.Args[0].Op == "fieldaddr" && e.Args[0].S == "Replicator" && e.Args[0].A[0].Op == "glob" {
					last = e
				}
				if e.Kind == "go" && last == nil && c.replicates(e) {
					bad, where = "the replication is started before", c.Where(e)
				}
			}
			if last == nil {
				if p.Kind == "return" {
					bad = "on a path no storage is chosen"
				}
				continue
			}
			n++
			t := ""
			if v := stripConv(last.Args[1]); v.Typ != nil {
				t = v.Typ.String()
			}
			if !strings.Contains(t, "statestore/"+row[1]) && !strings.Contains(strings.ToLower(t), row[1]+"replicator") {
				bad, where = "the replicator is a "+t, c.Where(last)
			}
		}
		c.Ob("C28", n > 0 && bad == "", where, "OM_STATE_STORAGE_TYPE="+row[0]+" stores the state there", bad)
	}
	// the port
	asText := func(t *Term) string {
		sc := &Scenario{Loop: func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }}
		sc.Val = func(t *Term, _ Inst) (any, bool) {
			if t.Op == "conf" {
				return "<" + t.S + ">", true
			}
			return nil, false
		}
		v, ok := sc.eval(t, Inst{})
		if !ok {
			return tstr(t)
		}
		return asNumber.ReplaceAllString(fmt.Sprint(v), "$1")
	}
	listens := 0
	root.Walk(func(e *Event, at *At) {
		if e.Kind != "call" || e.Name != "net.Listen" || len(e.Args) != 2 {
			return
		}
		listens++
		addr := asText(e.Args[1])
		c.Ob("C28", (addr == ":<PORT>" || addr == "0.0.0.0:<PORT>" || addr == "[::]:<PORT>") && asText(e.Args[0]) == "tcp", c.Where(e), "the server listens on the port of the setting PORT", "it listens on "+addr)
	})
	c.Ob("C28", listens > 0, c.FnWhere(root.Fn), "the server listens", "no call of net.Listen")

	// how much is read from redis at once, and how long it is waited
	xreads := 0
	for _, f := range c.Impl(storePath, "StateReplicator", "GetUpdates") {
		r := c.Root(f)
		if !c.Sound("C28", r) {
			continue
		}
		r.Walk(func(e *Event, _ *At) {
			if !isConnDo(e) || cmdName(e) != "XREAD" {
				return
			}
			xreads++
			got := map[string]string{}
			args := cmdArgs(r, e)
			for i, a := range args {
				if s, ok := a.ConstStr(); ok && i+1 < len(args) {
					got[strings.ToUpper(s)] = asText(args[i+1])
				}
			}
			for opt, k := range map[string]string{"COUNT": "OM_CACHE_IN_MAX_UPDATES_PER_POLL", "BLOCK": "OM_CACHE_IN_WAIT_TIMEOUT_MS"} {
				c.Ob("C28", got[opt] == "<"+k+">", c.Where(e), opt+" of XREAD is the setting "+k, "it is "+got[opt])
			}
			c.Ob("C34", got["BLOCK"] != "0", c.Where(e), "a reading of the state storage ends after a bounded time", "it blocks until there is something to read")
		})
	}
	c.Ob("C28", xreads > 0, c.FnWhere(root.Fn), "updates are read from redis", "no XREAD")
	// the pools
	for _, f := range c.R.Funcs {
		if !strings.HasSuffix(pkgPathOf(f), "statestore/redis") || f.Signature.Recv() != nil || f.Parent() != nil || f.Signature.Results().Len() != 1 {
			continue
		}
		if _, t := namedIn(f.Signature.Results().At(0).Type()); !strings.HasSuffix(t, "eplicator") {
			continue
		}
		r := c.Root(f)
		if !c.Sound("C28", r) {
			continue
		}
		for _, p := range r.Paths {
			for _, ret := range p.Ret {
				if ret.Op != "obj" || p.Mem == nil {
					continue
				}
				st, _ := deref(ret.Typ).Underlying().(*types.Struct)
				for i := 0; st != nil && i < st.NumFields(); i++ {
					if _, t := namedIn(st.Field(i).Type()); t != "Pool" {
						continue
					}
					pool := p.Mem.m[r.A.In.FieldAddr(ret, st.Field(i).Name())]
					if pool == nil || pool.Op != "obj" {
						c.Ob("C28", false, c.FnWhere(f), "the connection pool "+st.Field(i).Name()+" is made with its settings", "it is "+tstr(pool))
						continue
					}
					for fld, k := range map[string]string{"MaxIdle": "OM_REDIS_POOL_MAX_IDLE", "MaxActive": "OM_REDIS_POOL_MAX_ACTIVE", "IdleTimeout": "OM_REDIS_POOL_IDLE_TIMEOUT"} {
						v := p.Mem.m[r.A.In.FieldAddr(pool, fld)]
						got := "its zero value"
						if v != nil {
							got = asText(v)
						}
						c.Ob("C28", got == "<"+k+">", c.FnWhere(f), fld+" of the pool "+st.Field(i).Name()+" is the setting "+k, "it is "+got)
					}
				}
			}
		}
	}
}

// replicates: the goroutine runs code that uses the replicator.
func (c *Ctx) replicates(e *Event) bool {
	return strings.Contains(e.Name, "ReplicationQueue")
}

// logging checks what the settings of the logger do. The rest of the program
// is left out: nothing it calls matters unless it sets the logger up.
func (c *Ctx) logging(key func(name, val string) *Scenario, calls func(p *Path, name string) []*Event) {
	const lr = "github.com/sirupsen/logrus"
	main := c.Func("C28", "open-match.dev/core.main")
	if main == nil {
		return
	}
	sets := func(ins ssa.Instruction) bool {
		call, ok := ins.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := call.Common().StaticCallee()
		return f != nil && pkgPathOf(f) == lr && strings.HasPrefix(f.Name(), "Set")
	}
	o := &ordered{c: c}
	memo := map[*ssa.Function]int{}
	opaque := []string{"!logrus"}
	for _, b := range main.Blocks {
		for _, ins := range b.Instrs {
			for _, g := range c.callees(ins) {
				if !o.reaches(g, sets, memo) {
					opaque = append(opaque, g.String())
				}
			}
		}
	}
	root := c.Root(main, opaque...)
	if !c.Sound("C28", root) {
		return
	}

	// the log level: what the last call of SetLevel gives it
	for _, row := range [][2]string{{"trace", "6"}, {"debug", "5"}, {"info", "4"}, {"warn", "3"}, {"warning", "3"}, {"error", "2"}, {"fatal", "1"}, {"panic", "0"}, {"DEBUG", "5"}, {"Warn", "3"}} {
		sc := key("OM_LOGGING_LEVEL", row[0])
		n, bad, where := 0, "", c.FnWhere(root.Fn)
		for _, p := range root.Paths {
			if len(sc.possible(p, Inst{})) == 0 {
				continue
			}
			n++
			ev := calls(p, lr+".SetLevel")
			if len(ev) == 0 {
				bad = "it is not set under " + p.Kind + " " + litsStr(lastLits(p.Facts, 3))
				continue
			}
			e := ev[len(ev)-1]
			v, ok := sc.eval(e.Args[0], Inst{})
			if !ok || fmt.Sprint(v) != row[1] {
				bad, where = "it is set to "+tstr(e.Args[0]), c.Where(e)
			}
		}
		c.Ob("C28", n > 0 && bad == "", where, "OM_LOGGING_LEVEL="+row[0]+" sets the level of that name", bad)
	}
	// the log format
	for _, row := range [][2]string{{"json", "JSONFormatter"}, {"text", "TextFormatter"}, {"stackdriver", "stackdriver"}, {"JSON", "JSONFormatter"}} {
		sc := key("OM_LOGGING_FORMAT", row[0])
		n, bad, where := 0, "", c.FnWhere(root.Fn)
		for _, p := range root.Paths {
			if len(sc.possible(p, Inst{})) == 0 {
				continue
			}
			n++
			ev := calls(p, lr+".SetFormatter")
			if len(ev) == 0 {
				bad = "on a path the format is not set"
				continue
			}
			e := ev[len(ev)-1]
			a := stripConv(e.Args[0])
			got := tstr(a)
			if a.Typ != nil {
				got += " " + a.Typ.String()
			}
			if !strings.Contains(got, row[1]) {
				bad, where = "it is set to "+got, c.Where(e)
			}
		}
		c.Ob("C28", n > 0 && bad == "", where, "OM_LOGGING_FORMAT="+row[0]+" sets the format of that name", bad)
	}

}
