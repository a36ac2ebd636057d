package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Rules for the served API: definitions, generated code (both copies of it),
// gateway and registration.

func init() {
	rule("mmf-served", "C30", "the helper for matchmaking functions registers the function it is given and serves it on the port it is given", ruleMmfServed)
	rule("api", "C30", "generated messages, stubs and gateway are those of the definitions, in the modules of the workspace and in core's copies of them", ruleAPI)
	rule("served", "C30", "the server registers its handlers and the gateway, on the endpoints that belong together, before it waits for its end", ruleServed)
}

const grpcPkg = "google.golang.org/grpc"

func ruleAPI(c *Ctx) {
	dir := filepath.Join(c.R.Root, "proto", "v2")
	defs, files, err := protoFiles(dir)
	if err != nil || len(files) == 0 {
		c.Ob("C30", false, "proto/v2", "the API definitions can be read", fmt.Sprint(err))
		return
	}
	rules, err := httpRules(filepath.Join(dir, "api.yaml"))
	if err != nil || len(rules) == 0 {
		c.Ob("C30", false, "proto/v2/api.yaml", "the HTTP rules can be read", fmt.Sprint(err))
		return
	}
	// every RPC of the public service has a rule, every rule an RPC
	byRPC := map[string]httpRule{}
	for _, r := range rules {
		i := strings.LastIndexByte(r.rpc, '.')
		_, ok := defs.svcs[r.rpc[:max(i, 0)]][r.rpc[i+1:]]
		c.Ob("C30", ok, "proto/v2/api.yaml", "the HTTP rule of "+r.rpc+" names an RPC", "there is none of that name")
		byRPC[r.rpc] = r
	}

	(&api{c, defs, rules, "pkg"}).check()
	r2, err := c.R.copies()
	if err != nil {
		c.Ob("C30", false, "core/go.mod", "core's copies of the generated code can be analysed", err.Error())
		return
	}
	if r2 == nil {
		c.Ob("C30", true, "core/go.mod", "core has no copies of the generated code", "")
		return
	}
	saved := constMaps
	c2 := NewCtx(r2)
	constMaps = saved
	c2.rule = c.rule
	(&api{c2, defs, rules, "core/pkg"}).check()
	for _, o := range c2.Obls {
		c.ObKey(strings.Join(o.Props, ","), o.Key, o.OK, o.Where, o.What, o.Detail)
	}
	for f := range c2.Cov {
		c.Cov[f] = true
	}
	for k, n := range c2.Stats {
		c.Stats[k] += n
	}
}

var replaceLine = regexp.MustCompile(`(?m)^\s*(?:replace\s+)?(\S+)(?:\s+v\S+)?\s+=>\s+(\.\S+)\s*$`)

// copies loads the modules that core's go.mod takes from its own directory, in
// place of the workspace's. nil: there are none.
func (r *Repo) copies() (*Repo, error) {
	data, err := os.ReadFile(filepath.Join(r.Root, "core", "go.mod"))
	if err != nil {
		return nil, err
	}
	swap := map[string]string{} // directory in the workspace -> directory of the copy
	for _, m := range replaceLine.FindAllStringSubmatch(string(data), -1) {
		to := filepath.Join(r.Root, "core", m[2])
		for _, p := range r.Pkgs {
			if p.Module != nil && p.Module.Path == m[1] && filepath.Clean(p.Module.Dir) != to {
				swap[filepath.Clean(p.Module.Dir)] = to
			}
		}
	}
	if len(swap) == 0 {
		return nil, nil
	}
	return load(r.Root, swap)
}

// failed: the facts have it that the call's only result is an error.
func (c *Ctx) failed(facts []Lit, e *Event) bool {
	isNil, known := c.errNil(facts, e, -1)
	return known && !isNil
}

type api struct {
	c     *Ctx
	defs  *idl
	rules []httpRule
	label string
}

func (x *api) check() {
	c := x.c
	var pbs []*packages.Package
	gen := newIDL()
	for _, p := range c.R.Pkgs {
		d, names := descriptors(p)
		if len(names) == 0 {
			continue
		}
		pbs = append(pbs, p)
		gen.add(d)
	}
	c.Ob("C30", len(pbs) > 0, x.label, "the generated messages are found", "no package has descriptors")
	x.compare(gen)
	for _, p := range pbs {
		x.messages(p)
		x.stubs(p)
	}
	x.gateway()
}

func (x *api) where(p token.Pos) string { return x.c.R.Pos(p) }

// compare: the descriptors in the generated code are those of the definitions.
func (x *api) compare(gen *idl) {
	c := x.c
	w := x.label
	for _, n := range sortedKeys(x.defs.msgs) {
		m, g := x.defs.msgs[n], gen.msgs[n]
		if g == nil {
			c.Ob("C30", false, w, "the message "+n+" is generated", "it is missing")
			continue
		}
		for _, fn := range sortedKeys(m.fields) {
			f := m.fields[fn]
			y, ok := g.fields[fn]
			if ok && y.json == "" {
				y.json = jsonName(y.name)
			}
			c.Ob("C30", ok && f == y, w, "the descriptor of "+n+"."+fn+" is that of the definition", fmt.Sprintf("defined %v, generated %v", f, y))
		}
		for fn := range g.fields {
			_, ok := m.fields[fn]
			c.Ob("C30", ok, w, "the field "+n+"."+fn+" is defined", "only the generated code has it")
		}
		c.Ob("C30", true, w, "the message "+n+" is generated", "")
	}
	for n := range gen.msgs {
		c.Ob("C30", x.defs.msgs[n] != nil, w, "the message "+n+" is defined", "only the generated code has it")
	}
	for _, n := range sortedKeys(x.defs.enums) {
		c.Ob("C30", fmt.Sprint(x.defs.enums[n]) == fmt.Sprint(gen.enums[n]), w, "the values of the enum "+n+" are those of the definition", fmt.Sprintf("defined %v, generated %v", x.defs.enums[n], gen.enums[n]))
	}
	for _, n := range sortedKeys(x.defs.svcs) {
		for _, m := range sortedKeys(x.defs.svcs[n]) {
			d, g := x.defs.svcs[n][m], gen.svcs[n][m]
			c.Ob("C30", d == g, w, "the descriptor of the RPC "+n+"."+m+" is that of the definition", fmt.Sprintf("defined %v, generated %v", d, g))
		}
		c.Ob("C30", len(gen.svcs[n]) == len(x.defs.svcs[n]), w, "the service "+n+" has the RPCs of the definition", fmt.Sprintf("%d defined, %d generated", len(x.defs.svcs[n]), len(gen.svcs[n])))
	}
}

// goName is the Go name of a protobuf type.
func (x *api) goName(full string) string {
	return strings.ReplaceAll(strings.TrimPrefix(full, x.defs.pkg+"."), ".", "_")
}

var wellKnown = map[string]string{
	"google.protobuf.Timestamp": "google.golang.org/protobuf/types/known/timestamppb.Timestamp",
	"google.protobuf.Any":       "google.golang.org/protobuf/types/known/anypb.Any",
	"google.protobuf.Duration":  "google.golang.org/protobuf/types/known/durationpb.Duration",
	"google.protobuf.Struct":    "google.golang.org/protobuf/types/known/structpb.Struct",
	"google.protobuf.Empty":     "google.golang.org/protobuf/types/known/emptypb.Empty",
}

var goScalars = map[string]string{"double": "float64", "float": "float32", "int32": "int32", "sint32": "int32", "sfixed32": "int32", "int64": "int64", "sint64": "int64", "sfixed64": "int64", "uint32": "uint32", "fixed32": "uint32", "uint64": "uint64", "fixed64": "uint64", "bool": "bool", "string": "string", "bytes": "[]byte"}

var wireWords = map[string]string{"double": "fixed64", "float": "fixed32", "fixed64": "fixed64", "fixed32": "fixed32", "sfixed64": "fixed64", "sfixed32": "fixed32", "sint32": "zigzag32", "sint64": "zigzag64", "bool": "varint", "int32": "varint", "int64": "varint", "uint32": "varint", "uint64": "varint", "string": "bytes", "bytes": "bytes"}

// goType is the Go type of a protobuf type.
func (x *api) goType(t, pkg string) string {
	if g := goScalars[t]; g != "" {
		return g
	}
	if w := wellKnown[t]; w != "" {
		return "*" + w
	}
	if x.defs.enums[t] != nil {
		return pkg + "." + x.goName(t)
	}
	return "*" + pkg + "." + x.goName(t)
}

func (x *api) wireWord(t string) string {
	if w := wireWords[t]; w != "" {
		return w
	}
	if x.defs.enums[t] != nil {
		return "varint"
	}
	return "bytes"
}

// messages: the Go types have the fields of the definition, and their getters
// return them.
func (x *api) messages(p *packages.Package) {
	c := x.c
	pkg := p.PkgPath
	for _, n := range sortedKeys(x.defs.msgs) {
		m := x.defs.msgs[n]
		o := p.Types.Scope().Lookup(x.goName(n))
		if o == nil {
			c.Ob("C30", false, x.label, "the message "+n+" has a Go type", "there is none in "+pkg)
			continue
		}
		st, ok := o.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		byName := map[string]int{}
		for i := 0; i < st.NumFields(); i++ {
			tag := protoTag(st.Tag(i))
			if tag["name"] != "" {
				byName[tag["name"]] = i
			}
		}
		for _, fn := range sortedKeys(m.fields) {
			f := m.fields[fn]
			w := x.where(o.Pos()) + " (" + x.label + ": " + n + "." + fn + ")"
			i, ok := byName[fn]
			if !ok {
				c.Ob("C30", false, w, "the field has a Go field", "none is tagged with its name")
				continue
			}
			w = x.where(st.Field(i).Pos()) + " (" + x.label + ": " + n + "." + fn + ")"
			tag := protoTag(st.Tag(i))
			gt, word, label := "", x.wireWord(f.typ), "opt"
			switch {
			case strings.HasPrefix(f.typ, "map<"):
				kv := strings.SplitN(f.typ[4:len(f.typ)-1], ",", 2)
				gt = "map[" + x.goType(kv[0], pkg) + "]" + x.goType(kv[1], pkg)
				word, label = "bytes", "rep"
			case f.repeated:
				gt, label = "[]"+x.goType(f.typ, pkg), "rep"
			default:
				gt = x.goType(f.typ, pkg)
			}
			got := st.Field(i).Type().String()
			c.Ob("C30", got == gt, w, "the Go field has the type of the definition", got+" against "+gt)
			num := tag["#1"]
			c.Ob("C30", tag["#0"] == word && num == strconv.FormatInt(f.num, 10) && tag["#2"] == label, w, "the Go field is tagged with the number and kind of the definition", fmt.Sprintf("tag %q, number %d", st.Tag(i), f.num))
			x.getter(o.Type(), st, i, w)
		}
		c.Ob("C30", len(byName) == len(m.fields), x.where(o.Pos())+" ("+x.label+": "+n+")", "the Go type has no other fields", fmt.Sprintf("%d Go fields, %d defined", len(byName), len(m.fields)))
	}
	// enums
	for _, n := range sortedKeys(x.defs.enums) {
		o := p.Types.Scope().Lookup(x.goName(n))
		if o == nil {
			continue
		}
		prefix := x.goName(n)
		if i := strings.LastIndexByte(n, '.'); x.defs.msgs[n[:i]] != nil {
			prefix = x.goName(n[:i])
		}
		for v, num := range x.defs.enums[n] {
			k, _ := p.Types.Scope().Lookup(prefix + "_" + v).(*types.Const)
			if k == nil {
				c.Ob("C30", false, x.where(o.Pos()), "the enum value "+n+"."+v+" has a Go constant", "there is none")
				continue
			}
			got, _ := constant.Int64Val(k.Val())
			c.Ob("C30", got == num && types.Identical(k.Type(), o.Type()), x.where(k.Pos()), "the Go constant of "+n+"."+v+" has its number", fmt.Sprintf("%d against %d", got, num))
		}
	}
}

// protoTag splits the protobuf tag of a field; positional parts are #0, #1, …
func protoTag(tag string) map[string]string {
	out := map[string]string{}
	t := reflectTag(tag, "protobuf")
	if t == "" {
		return out
	}
	for i, s := range strings.Split(t, ",") {
		if k, v, ok := strings.Cut(s, "="); ok {
			out[k] = v
		} else {
			out["#"+strconv.Itoa(i)] = s
		}
	}
	return out
}

func reflectTag(tag, key string) string {
	i := strings.Index(tag, key+`:"`)
	if i < 0 {
		return ""
	}
	s := tag[i+len(key)+2:]
	return s[:max(strings.IndexByte(s, '"'), 0)]
}

// getter: GetX returns the field X, or its zero value for a nil message. The
// other rules read getters that way.
func (x *api) getter(t types.Type, st *types.Struct, i int, w string) {
	c := x.c
	name := st.Field(i).Name()
	f := c.R.Prog.LookupMethod(types.NewPointer(t), t.(*types.Named).Obj().Pkg(), "Get"+name)
	if f == nil {
		c.Ob("C30", false, w, "the field has a getter", "none")
		return
	}
	root := c.Root(f)
	bad := strings.Join(root.A.Trouble, "; ")
	n := 0
	for _, p := range root.Paths {
		if p.Kind != "return" || len(p.Ret) != 1 {
			bad = "it may not return"
			continue
		}
		isNil, known := false, false
		for _, l := range p.Facts {
			if l.T.Op == "eq" && l.T.A[1].IsNil() && l.T.A[0].Op == "param" {
				isNil, known = l.Val, true
			}
		}
		r := stripConv(p.Ret[0])
		if known && !isNil {
			n++
			if r.Op != "field" || r.S != name || r.A[0].Op != "param" {
				bad = "it returns " + tstr(r)
			}
		} else if known {
			zero := r.IsNil() || r.Op == "zero"
			if v, ok := r.ConstInt(); ok && v == 0 {
				zero = true
			}
			if s, ok := r.ConstStr(); ok && s == "" {
				zero = true
			}
			if b, ok := r.ConstBool(); ok && !b {
				zero = true
			}
			if r.Op == "const" && (r.S == "0" || r.S == "") {
				zero = true
			}
			if !zero {
				bad = "for nil it returns " + tstr(r)
			}
		} else {
			bad = "it does not look at the message"
		}
	}
	c.Ob("C30", bad == "" && n > 0, w, "the getter returns the field", bad)
}

// ---- stubs ----

type svcDesc struct {
	name     string
	iface    *types.Named
	handlers map[string]*types.Func // by RPC
	streams  []string
	flags    map[string][2]bool // client, server streams
	pos      token.Pos
	v        *types.Var
}

// serviceDescs reads the grpc.ServiceDesc variables of a package.
func serviceDescs(p *packages.Package) []*svcDesc {
	var out []*svcDesc
	str := func(e ast.Expr) string {
		if tv := p.TypesInfo.Types[e]; tv.Value != nil && tv.Value.Kind() == constant.String {
			return constant.StringVal(tv.Value)
		}
		return ""
	}
	fn := func(e ast.Expr) *types.Func {
		if id, ok := e.(*ast.Ident); ok {
			f, _ := p.TypesInfo.Uses[id].(*types.Func)
			return f
		}
		return nil
	}
	for _, f := range p.Syntax {
		for _, dcl := range f.Decls {
			g, ok := dcl.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				v := s.(*ast.ValueSpec)
				for i, e := range v.Values {
					cl, ok := e.(*ast.CompositeLit)
					if !ok || p.TypesInfo.TypeOf(cl).String() != grpcPkg+".ServiceDesc" {
						continue
					}
					d := &svcDesc{handlers: map[string]*types.Func{}, flags: map[string][2]bool{}, pos: cl.Pos()}
					d.v, _ = p.TypesInfo.Defs[v.Names[i]].(*types.Var)
					for _, kv := range cl.Elts {
						kv, ok := kv.(*ast.KeyValueExpr)
						if !ok {
							continue
						}
						switch kv.Key.(*ast.Ident).Name {
						case "ServiceName":
							d.name = str(kv.Value)
						case "HandlerType":
							if pt, ok := p.TypesInfo.TypeOf(kv.Value).(*types.Pointer); ok {
								d.iface, _ = pt.Elem().(*types.Named)
							}
						case "Methods", "Streams":
							list, ok := kv.Value.(*ast.CompositeLit)
							if !ok {
								continue
							}
							for _, el := range list.Elts {
								el, ok := el.(*ast.CompositeLit)
								if !ok {
									continue
								}
								name, h, fl := "", (*types.Func)(nil), [2]bool{}
								for _, kv := range el.Elts {
									kv, ok := kv.(*ast.KeyValueExpr)
									if !ok {
										continue
									}
									yes := func() bool {
										tv := p.TypesInfo.Types[kv.Value]
										return tv.Value != nil && tv.Value.Kind() == constant.Bool && constant.BoolVal(tv.Value)
									}
									switch kv.Key.(*ast.Ident).Name {
									case "MethodName", "StreamName":
										name = str(kv.Value)
									case "Handler":
										h = fn(kv.Value)
									case "ClientStreams":
										fl[0] = yes()
									case "ServerStreams":
										fl[1] = yes()
									}
								}
								d.handlers[name], d.flags[name] = h, fl
								if kv.Key.(*ast.Ident).Name == "Streams" {
									d.streams = append(d.streams, name)
								}
							}
						}
					}
					out = append(out, d)
				}
			}
		}
	}
	return out
}

func (x *api) stubs(p *packages.Package) {
	c := x.c
	descs := serviceDescs(p)
	for _, n := range sortedKeys(x.defs.svcs) {
		var d *svcDesc
		for _, y := range descs {
			if y.name == n {
				d = y
			}
		}
		if d == nil || d.iface == nil {
			c.Ob("C30", false, x.label, "the service "+n+" has a description", "none is generated")
			continue
		}
		w := x.where(d.pos) + " (" + x.label + ": " + n + ")"
		c.Ob("C30", len(d.handlers) == len(x.defs.svcs[n]), w, "the service has the RPCs of its definition", fmt.Sprintf("%d handlers for %d RPCs", len(d.handlers), len(x.defs.svcs[n])))
		for _, m := range sortedKeys(x.defs.svcs[n]) {
			r := x.defs.svcs[n][m]
			h := d.handlers[m]
			if h == nil {
				c.Ob("C30", false, w, "the RPC "+m+" has a handler", "none is registered")
				continue
			}
			c.Ob("C30", d.flags[m] == [2]bool{r.inStr, r.outStr}, w, "the RPC "+m+" streams as defined", fmt.Sprintf("client, server: %v", d.flags[m]))
			x.handler(d, m, r, c.R.Prog.FuncValue(h))
			x.client(p, d, n, m, r)
		}
		// registration
		for _, f := range c.R.Funcs {
			if f.Pkg == nil || f.Pkg.Pkg != p.Types || f.Parent() != nil || f.Name() != "Register"+d.iface.Obj().Name() {
				continue
			}
			root := c.Root(f, "!generated")
			ok := false
			root.Walk(func(e *Event, _ *At) {
				if e.Kind == "call" && strings.HasSuffix(e.Name, "ServiceRegistrar).RegisterService") && len(e.Args) == 3 {
					ok = e.Args[1].Op == "glob" && d.v != nil && strings.HasSuffix(e.Args[1].S, "."+d.v.Name()) && fpath(e.Args[2]) == "arg1" && fpath(e.Args[0]) == "arg0"
				}
			})
			c.Ob("C30", ok, c.FnWhere(f)+" ("+x.label+")", "registering the service registers its description with the given server", "it does not")
		}
	}
}

// invokes lists the interface methods of t called in a function and the
// functions within it.
func invokes(f *ssa.Function, t *types.Named) map[string]int {
	out := map[string]int{}
	for _, g := range nest(f) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok && call.Common().IsInvoke() && types.Identical(call.Common().Value.Type(), t) {
					out[call.Common().Method.Name()]++
				}
			}
		}
	}
	return out
}

func (x *api) handler(d *svcDesc, m string, r idlRPC, f *ssa.Function) {
	c := x.c
	if f == nil || f.Blocks == nil {
		c.Ob("C30", false, x.where(d.pos), "the handler of "+m+" is found", "no code")
		return
	}
	w := c.FnWhere(f) + " (" + x.label + ")"
	// the method, in the closure for interceptors too
	got := map[string]int{}
	var look func(g *ssa.Function, depth int)
	look = func(g *ssa.Function, depth int) {
		for k, n := range invokes(g, d.iface) {
			got[k] += n
		}
		for _, h := range nest(g) {
			for _, b := range h.Blocks {
				for _, ins := range b.Instrs {
					if depth < 3 {
						for _, k := range c.callees(ins) {
							look(k, depth+1)
						}
					}
				}
			}
		}
	}
	look(f, 0)
	c.Ob("C30", got[m] > 0 && len(got) == 1, w, "the handler of "+m+" calls that method", fmt.Sprintf("it calls %v", sortedKeys(got)))
	root := c.Root(f, "!generated")
	if !c.Sound("C30", root) {
		return
	}
	for _, p := range root.Paths {
		var call, dec *Event
		for _, e := range p.Events {
			if e.Kind != "call" {
				continue
			}
			switch {
			case strings.HasSuffix(e.Name, "."+d.iface.Obj().Name()+")."+m):
				call = e
			case strings.HasSuffix(e.Name, "Stream).RecvMsg"), e.Fn != nil && fpath(e.Fn) == "arg2" && len(e.Args) == 1:
				dec = e
			case e.Fn != nil && fpath(e.Fn) == "arg3":
				call = e
			}
		}
		bad := ""
		switch {
		case call == nil:
			// only if the request could not be read
			last := p.Ret
			if dec == nil || p.Kind != "return" || len(last) == 0 || last[len(last)-1] != dec.Res || !c.failed(p.Facts, dec) {
				bad = "a path does not call it"
			}
		default:
			msg := false
			if r.inStr {
				msg = true
			} else if dec != nil {
				for _, a := range call.Args {
					msg = msg || a == dec.Args[len(dec.Args)-1]
				}
			}
			if !msg {
				bad = "the message that was read is not passed on"
			}
			for i, t := range p.Ret {
				if t != call.Res && !(t.Op == "res" && t.A[0] == call.Res && t.S == strconv.Itoa(i)) {
					bad = "it returns " + tstr(t)
				}
			}
		}
		c.Ob("C30", bad == "", w, "the handler of "+m+" passes the request on and the result back", bad)
	}
}

// client: the client's method calls the RPC of its name.
func (x *api) client(p *packages.Package, d *svcDesc, svc, m string, r idlRPC) {
	c := x.c
	base := strings.TrimSuffix(d.iface.Obj().Name(), "Server")
	tn, _ := p.Types.Scope().Lookup(base + "Client").(*types.TypeName)
	if tn == nil {
		c.Ob("C30", false, x.label, "the service "+svc+" has a client", "none")
		return
	}
	ifc, _ := tn.Type().Underlying().(*types.Interface)
	if ifc == nil {
		return
	}
	for _, n := range p.Types.Scope().Names() {
		t, ok := p.Types.Scope().Lookup(n).(*types.TypeName)
		if !ok || types.IsInterface(t.Type()) || !types.Implements(types.NewPointer(t.Type()), ifc) {
			continue
		}
		f := c.R.Prog.LookupMethod(types.NewPointer(t.Type()), p.Types, m)
		if f == nil || f.Blocks == nil {
			continue
		}
		w := c.FnWhere(f) + " (" + x.label + ")"
		root := c.Root(f, "!generated")
		if !c.Sound("C30", root) {
			continue
		}
		for _, q := range root.Paths {
			bad := ""
			n, sent, closed := 0, false, false
			var out *Term
			for _, e := range q.Events {
				if e.Kind != "call" {
					continue
				}
				switch {
				case strings.HasSuffix(e.Name, "ClientConnInterface).Invoke"):
					n++
					if s, _ := e.Args[2].ConstStr(); s != "/"+svc+"/"+m {
						bad = "it calls " + s
					}
					sent = fpath(e.Args[3]) == "arg1"
					closed = true
					out = e.Args[4]
				case strings.HasSuffix(e.Name, "ClientConnInterface).NewStream"):
					n++
					if s, _ := e.Args[3].ConstStr(); s != "/"+svc+"/"+m {
						bad = "it calls " + s
					}
					i, isIdx := int64(-1), false
					walkTerm(e.Args[2], func(t *Term) {
						if t.Op == "indexaddr" && len(t.A) == 2 {
							i, isIdx = t.A[1].ConstInt()
						}
					})
					if isIdx && (i < 0 || int(i) >= len(d.streams) || d.streams[i] != m) {
						bad = "it uses the description of another stream"
					}
					out = e.Res
				case strings.HasSuffix(e.Name, "ClientStream).SendMsg"):
					sent = fpath(e.Args[1]) == "arg1"
				case strings.HasSuffix(e.Name, "ClientStream).CloseSend"):
					closed = true
				}
			}
			if n != 1 {
				bad = fmt.Sprintf("a path makes %d calls", n)
			}
			if len(q.Ret) == 2 && q.Ret[1].IsNil() && bad == "" {
				if !r.inStr && (!sent || !closed) {
					bad = "the request is not sent"
				}
				if !r.outStr && q.Ret[0] != out {
					bad = "it returns " + tstr(q.Ret[0])
				}
			} else if len(q.Ret) == 2 && bad == "" && !q.Ret[0].IsNil() {
				bad = "an error comes with a result"
			}
			c.Ob("C30", bad == "", w, "the client's "+m+" calls the RPC of that name", bad)
		}
	}
}

// ---- gateway ----

// muxRoute is one call of ServeMux.Handle.
type muxRoute struct {
	verb, path string
	fn         *ssa.Function
	ev         *Event
}

// pathOf decodes a pattern made by the gateway generator.
func (x *api) pathOf(v ssa.Value) (string, bool) {
	switch y := v.(type) {
	case *ssa.UnOp:
		if g, ok := y.X.(*ssa.Global); ok {
			k := &constants{x.c, map[ssa.Value]bool{}}
			if st := k.stores(g); len(st) == 1 {
				return x.pathOf(st[0].Val)
			}
		}
	case *ssa.Extract:
		return x.pathOf(y.Tuple)
	case *ssa.Call:
		f := y.Call.StaticCallee()
		if f == nil {
			return "", false
		}
		if f.Name() == "MustPattern" {
			return x.pathOf(y.Call.Args[0])
		}
		if f.Name() != "NewPattern" || len(y.Call.Args) != 4 {
			return "", false
		}
		list := func(v ssa.Value) ([]constant.Value, bool) {
			k := &constants{x.c, map[ssa.Value]bool{}}
			arr := k.array(v)
			if arr == nil {
				return nil, false
			}
			n := arr.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			out := make([]constant.Value, n)
			for _, r := range *arr.Referrers() {
				ia, ok := r.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				i, ok := ia.Index.(*ssa.Const)
				if !ok {
					return nil, false
				}
				for _, u := range *ia.Referrers() {
					if st, ok := u.(*ssa.Store); ok {
						if cv, ok := st.Val.(*ssa.Const); ok {
							out[i.Int64()] = cv.Value
						}
					}
				}
			}
			return out, true
		}
		ops, ok1 := list(y.Call.Args[1])
		pool, ok2 := list(y.Call.Args[2])
		vc, ok3 := y.Call.Args[3].(*ssa.Const)
		if !ok1 || !ok2 || !ok3 || len(ops)%2 != 0 {
			return "", false
		}
		path := ""
		for i := 0; i < len(ops); i += 2 {
			op, arg := int64(0), int64(0)
			if ops[i] != nil {
				op, _ = constant.Int64Val(ops[i])
			}
			if ops[i+1] != nil {
				arg, _ = constant.Int64Val(ops[i+1])
			}
			if op != 2 || int(arg) >= len(pool) || pool[arg] == nil { // OpLitPush
				return "", false
			}
			path += "/" + constant.StringVal(pool[arg])
		}
		if s := constant.StringVal(vc.Value); s != "" {
			path += ":" + s
		}
		return path, true
	}
	return "", false
}

func (x *api) gateway() {
	c := x.c
	found := 0
	for _, f := range c.R.Funcs {
		if f.Parent() != nil {
			continue
		}
		direct := false
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && g.Name() == "Handle" && strings.HasSuffix(pkgPathOf(g), "grpc-gateway/v2/runtime") {
						direct = true
					}
				}
			}
		}
		if !direct {
			continue
		}
		// for the client and for the server in process
		ifcName := ""
		var ifc *types.Named
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if n, ok := f.Signature.Params().At(i).Type().(*types.Named); ok && types.IsInterface(n) && (strings.HasSuffix(n.Obj().Name(), "Client") || strings.HasSuffix(n.Obj().Name(), "Server")) {
				ifcName, ifc = n.Obj().Name(), n
			}
		}
		if ifc == nil {
			continue
		}
		found++
		root := c.Root(f, "!generated")
		if !c.Sound("C30", root) {
			continue
		}
		w := c.FnWhere(f) + " (" + x.label + ")"
		for _, p := range root.Paths {
			if p.Kind != "return" {
				continue
			}
			if len(p.Ret) == 1 && !p.Ret[0].IsNil() {
				continue // an error, reported
			}
			routes := map[string]*muxRoute{}
			for _, e := range p.Events {
				if e.Kind != "call" || !strings.HasSuffix(e.Name, "ServeMux).Handle") || len(e.Args) != 4 {
					continue
				}
				verb, ok := e.Args[1].ConstStr()
				path, ok2 := "", false
				if call, is := e.Site.(ssa.CallInstruction); is && call.Common().StaticCallee() != nil {
					path, ok2 = x.pathOf(call.Common().Args[2])
				}
				if !ok2 {
					// through a helper: the pattern by the name of its variable
					if t := e.Args[2]; t.Op == "load" && t.A[0].Op == "glob" {
						for _, sp := range c.R.SSA {
							for _, mem := range sp.Members {
								if g, is := mem.(*ssa.Global); is && g.String() == t.A[0].S {
									k := &constants{c, map[ssa.Value]bool{}}
									if st := k.stores(g); len(st) == 1 {
										path, ok2 = x.pathOf(st[0].Val)
									}
								}
							}
						}
					}
				}
				fn, _ := e.Args[3].Aux.(*ssa.Function)
				if !ok || !ok2 || fn == nil {
					c.Ob("C30", false, c.Where(e)+" ("+x.label+")", "the routes of the gateway are known", tstr(e.Args[1])+" "+tstr(e.Args[2]))
					continue
				}
				k := verb + " " + path
				c.Ob("C30", routes[k] == nil, c.Where(e)+" ("+x.label+")", "the route "+k+" is registered once", "it is registered again")
				routes[k] = &muxRoute{verb, path, fn, e}
			}
			used := map[string]bool{}
			for _, r := range x.rules {
				i := strings.LastIndexByte(r.rpc, '.')
				svc, m := r.rpc[:i], r.rpc[i+1:]
				if strings.TrimSuffix(strings.TrimSuffix(ifcName, "Client"), "Server") != svc[strings.LastIndexByte(svc, '.')+1:] {
					continue
				}
				k := r.verb + " " + r.path
				rt := routes[k]
				used[k] = true
				c.Ob("C30", rt != nil, w, "the gateway serves "+k, "it does not")
				if rt != nil {
					x.route(rt, ifc, svc, m, r)
				}
			}
			for k, rt := range routes {
				c.Ob("C30", used[k], c.Where(rt.ev)+" ("+x.label+")", "the route "+k+" is documented", "the description has no such rule")
			}
		}
	}
	c.Ob("C30", found > 0, x.label, "the gateway is found", "no routes are registered")
}

// route checks the handler of one route.
func (x *api) route(rt *muxRoute, ifc *types.Named, svc, m string, r httpRule) {
	c := x.c
	w := c.FnWhere(rt.fn) + " (" + x.label + ")"
	rpc := x.defs.svcs[svc][m]
	local := strings.HasSuffix(ifc.Obj().Name(), "Server")
	root := c.Root(rt.fn, "!generated")
	if !c.Sound("C30", root) {
		return
	}
	calls := 0
	for _, p := range root.Paths {
		var call, dec, fwd, errEv *Event
		bad := ""
		for _, e := range p.Events {
			if e.Kind != "call" {
				continue
			}
			name := e.Name
			if name == "dynamic" && e.Fn != nil {
				name = x.funcVar(e.Fn)
			}
			switch {
			case strings.HasSuffix(e.Name, "."+ifc.Obj().Name()+")."+m):
				call = e
			case strings.Contains(e.Name, "."+ifc.Obj().Name()+")."):
				bad = "it calls " + mname(e.Name)
			case strings.HasSuffix(e.Name, "runtime.Decoder).Decode"):
				dec = e
			case strings.Contains(name, "runtime.ForwardResponse"):
				if fwd != nil {
					bad = "it answers twice"
				}
				fwd = e
				want := "ForwardResponseMessage"
				if rpc.outStr {
					want = "ForwardResponseStream"
				}
				if !strings.HasSuffix(name, want) {
					bad = "it answers with " + mname(name)
				}
			case strings.HasSuffix(e.Name, "runtime.HTTPError"):
				errEv = e
			case strings.HasSuffix(e.Name, "runtime.AnnotateContext") || strings.HasSuffix(e.Name, "runtime.AnnotateIncomingContext"):
				if s, ok := e.Args[3].ConstStr(); ok && s != "/"+svc+"/"+m {
					bad = "it announces " + s
				}
			case strings.HasSuffix(e.Name, "runtime.WithHTTPPathPattern"):
				if s, ok := e.Args[0].ConstStr(); ok && s != r.path {
					bad = "it announces " + s
				}
			}
		}
		if p.Kind != "return" {
			bad = "it may not return"
		}
		if (fwd == nil) == (errEv == nil) && bad == "" {
			bad = "a path does not answer exactly once"
		}
		if local && rpc.outStr {
			// streams are not supported in process: an error
			if fwd != nil && bad == "" && call == nil {
				bad = "it answers without calling"
			}
			c.Ob("C30", bad == "", w, rt.verb+" "+rt.path+" calls "+m+" with the decoded body and answers with its result", bad)
			calls++
			continue
		}
		if fwd != nil && bad == "" {
			switch {
			case call == nil:
				bad = "it answers without calling " + m
			case r.body == "*" && dec == nil:
				bad = "the body is not decoded"
			}
			if bad == "" && r.body == "*" {
				msg := dec.Args[len(dec.Args)-1]
				has := false
				for _, a := range call.Args {
					has = has || a == msg
				}
				if !has {
					bad = "the decoded body is not what " + m + " is called with"
				}
				body := false
				for _, e := range p.Events {
					if e.Kind == "call" && e.Res == dec.Args[0] {
						for _, a := range e.Args {
							walkTerm(a, func(t *Term) { body = body || t.Op == "field" && t.S == "Body" })
						}
					}
				}
				if !body {
					bad = "something else than the body is decoded"
				}
			}
			if bad == "" {
				calls++
				// the result of the call, and only if it has no error
				okErr := false
				for _, l := range p.Facts {
					if l.T.Op == "eq" && l.Val && l.T.A[1].IsNil() && l.T.A[0].Op == "res" && l.T.A[0].A[0] == call.Res {
						okErr = true
					}
				}
				if !okErr {
					bad = "it answers although " + m + " failed"
				}
				if !rpc.outStr {
					is := false
					for _, a := range fwd.Args {
						is = is || a.Op == "res" && a.S == "0" && a.A[0] == call.Res
					}
					if !is {
						bad = "it answers with something else than the result"
					}
				} else {
					is := false
					for _, a := range fwd.Args {
						if fn, ok := a.Aux.(*ssa.Function); ok && a.Op == "closure" {
							is = recvs(fn)
						}
					}
					if !is {
						bad = "it does not answer with what the stream sends"
					}
				}
			}
		}
		if call != nil && dec != nil && bad == "" {
			// not called with a body that could not be decoded (io.EOF: an empty one)
			if c.failed(p.Facts, dec) {
				eof := false
				for _, l := range p.Facts {
					if l.T.Op == "eq" && l.Val && l.T.A[0] == dec.Res || l.Val && l.T.Op == "app" && l.T.S == "errors.Is" && l.T.A[0] == dec.Res {
						eof = true
					}
				}
				if !eof {
					bad = m + " is called with a body that could not be decoded"
				}
			}
		}
		c.Ob("C30", bad == "", w, rt.verb+" "+rt.path+" calls "+m+" with the decoded body and answers with its result", bad)
	}
	c.Ob("C30", calls > 0, w, rt.verb+" "+rt.path+" is answered by "+m, "no path calls it")
}

// recvs: the function returns what a stream received.
func recvs(f *ssa.Function) bool {
	for _, g := range nest(f) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if call, ok := ins.(*ssa.Call); ok && call.Call.IsInvoke() && call.Call.Method.Name() == "Recv" {
					return true
				}
			}
		}
	}
	return false
}

// funcVar names the function a package variable holds.
func (x *api) funcVar(t *Term) string {
	if t.Op != "load" || t.A[0].Op != "glob" {
		if fn, ok := t.Aux.(*ssa.Function); ok {
			return fn.String()
		}
		return ""
	}
	for _, sp := range x.c.R.SSA {
		for _, mem := range sp.Members {
			g, ok := mem.(*ssa.Global)
			if !ok || g.String() != t.A[0].S {
				continue
			}
			k := &constants{x.c, map[ssa.Value]bool{}}
			st := k.stores(g)
			if len(st) != 1 {
				return ""
			}
			v := st[0].Val
			for {
				switch y := v.(type) {
				case *ssa.ChangeType:
					v = y.X
					continue
				case *ssa.Function:
					return y.String()
				}
				break
			}
		}
	}
	return ""
}

// ---- the server ----

func ruleServed(c *Ctx) {
	root := c.startup("C30")
	if root == nil {
		return
	}
	text := func(t *Term) string {
		sc := &Scenario{Loop: func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }}
		sc.Val = func(t *Term, _ Inst) (any, bool) {
			if t.Op == "conf" {
				return "<" + t.S + ">", true
			}
			return nil, false
		}
		v, ok := sc.eval(t, Inst{})
		if !ok {
			return tstr(t)
		}
		return asNumber.ReplaceAllString(fmt.Sprint(v), "$1")
	}
	n := 0
	for _, p := range root.Paths {
		if p.Kind != "return" {
			continue // it ends with a fatal error
		}
		n++
		var server, mux, gwCtx *Term
		signals := map[*Term]bool{} // channels told about signals
		by := map[*Term]*Event{}
		ended := map[*Term]bool{} // channels told about the end of a server
		registered, gateway, served, http := false, false, false, false
		waits, stopped := false, false
		where := c.FnWhere(root.Fn)
		var scan func(es []*Event, thread bool)
		scan = func(es []*Event, thread bool) {
			for _, e := range es {
				if e.Kind == "call" && e.Res != nil {
					by[e.Res] = e
				}
				switch {
				case e.Kind == "go" && e.Thread != nil:
					for _, q := range e.Thread.Paths {
						scan(q.Events, true)
					}
				case e.Kind == "send" && thread:
					for _, b := range es {
						if b == e {
							break
						}
						if isServe(b) || isServeHTTP(b) {
							ended[e.Args[0]] = true
						}
					}
				case e.Kind == "recv" && !thread && !waits && (!e.Select || e.Block):
					waits = true
					all := append([]*Event{e}, e.Alts...)
					for _, w := range all {
						ok := w.Kind == "recv" && (signals[w.Args[0]] || ended[w.Args[0]] || signalCtx(by, w.Args[0]))
						c.Ob("C30", ok, c.Where(w), "the server only ends when a signal tells it to, or when it cannot serve any more", "it waits for "+tstr(w.Args[0]))
					}
					c.Ob("C30", registered && served, c.Where(e), "the gRPC service is served before the server waits for its end", fmt.Sprintf("registered %v, served %v", registered, served))
					c.Ob("C30", gateway && http, c.Where(e), "the gateway is served before the server waits for its end", fmt.Sprintf("registered %v, served %v", gateway, http))
				case e.Kind != "call":
				case !thread && !waits && (isServe(e) && gateway && http || isServeHTTP(e) && served && gateway):
					// it serves until a goroutine stops it
					waits = true
					if isServe(e) {
						served = e.Args[0] == server
						c.Ob("C30", served && registered, c.Where(e), "the server with the service is the one that serves", tstr(e.Args[0]))
						c.Ob("C30", stopped || len(signals) == 0, c.Where(e), "the server ends when a signal tells it to", "no goroutine stops it")
					} else {
						c.Ob("C30", mux != nil && c.httpHandler(root, e) == mux, c.Where(e), "the gateway is served before the server waits for its end", "it serves something else")
						addr := text(c.httpAddr(root, e))
						c.Ob("C30", addr == ":58081" || addr == "0.0.0.0:58081", c.Where(e), "the HTTP API is served on its port for all interfaces (:58081, which the clients of the repository use)", "it is served on "+addr)
						c.Ob("C30", len(signals) == 0, c.Where(e), "the server ends when a signal tells it to", "it goes on serving HTTP")
					}
				case !thread && !waits && (isServe(e) || isServeHTTP(e)):
					c.Ob("C30", false, c.Where(e), "nothing keeps the server from starting", "this call does not return while it serves, so what follows is not reached")
				case e.Name == "os/signal.Notify" && len(e.Args) == 2:
					signals[stripConv(e.Args[0])] = true
					c.stopSignals(root, e, e.Args[1])
				case e.Name == "os/signal.NotifyContext" && len(e.Args) == 2:
					c.stopSignals(root, e, e.Args[1])
				case e.Name == "dynamic" && gwCtx != nil && !waits && !thread && endsCtx(e.Fn, gwCtx):
					c.Ob("C30", false, c.Where(e), "the connection of the gateway is not cancelled before the server ends", "its context is cancelled here")
				case e.Name == grpcPkg+".NewServer":
					server = e.Res
				case strings.HasSuffix(e.Name, ".RegisterOpenMatchServiceServer"):
					registered = server != nil && e.Args[0] == server
					w := c.Where(e)
					c.Ob("C30", registered && !served, w, "the service is registered with the server before it serves", "it is registered with "+tstr(e.Args[0]))
					t := stripConv(e.Args[1])
					c.implementsAll(w, t)
				case isServe(e):
					served = e.Args[0] == server
					c.Ob("C30", served && registered, c.Where(e), "the server with the service is the one that serves", tstr(e.Args[0]))
				case strings.HasSuffix(e.Name, ".RegisterOpenMatchServiceHandlerFromEndpoint"):
					addr := text(e.Args[2])
					gateway = addr == "localhost:<PORT>" || addr == "127.0.0.1:<PORT>" || addr == ":<PORT>" || addr == "[::1]:<PORT>"
					mux = e.Args[1]
					gwCtx = e.Args[0]
					bound := ""
					for t := gwCtx; t != nil; {
						for t.Op == "res" {
							t = t.A[0]
						}
						from := by[t]
						if from == nil || !strings.HasPrefix(from.Name, "context.With") {
							break
						}
						if strings.Contains(from.Name, "Timeout") || strings.Contains(from.Name, "Deadline") {
							bound = from.Name
						}
						t = stripConv(from.Args[0])
					}
					c.Ob("C30", bound == "", c.Where(e), "the connection of the gateway does not end by itself", "its context comes from "+bound)
					c.Ob("C30", gateway, c.Where(e), "the gateway forwards to the port the server listens on", "it forwards to "+addr)
					c.Ob("C30", mux != nil && strings.HasSuffix(mux.Typ.String(), "runtime.ServeMux"), c.Where(e), "the gateway is set up on a mux", tstr(mux))
				case strings.HasSuffix(e.Name, ".RegisterOpenMatchServiceHandlerServer"):
					gateway = false
					c.Ob("C30", false, c.Where(e), "the gateway serves the streaming RPCs", "calls in process do not support them")
				case isServeHTTP(e) && mux != nil && c.httpHandler(root, e) == mux:
					http = true
					addr := text(c.httpAddr(root, e))
					c.Ob("C30", addr == ":58081" || addr == "0.0.0.0:58081", c.Where(e), "the HTTP API is served on its port for all interfaces (:58081, which the clients of the repository use)", "it is served on "+addr)
				case strings.HasPrefix(e.Name, "(*"+grpcPkg+".Server).") && (strings.HasSuffix(e.Name, "Stop")) && thread && e.Args[0] == server:
					told := false
					for _, b := range es {
						if b == e {
							break
						}
						if b.Kind == "recv" && (signals[b.Args[0]] || signalCtx(by, b.Args[0])) || isServe(b) || isServeHTTP(b) {
							told = true
						}
					}
					stopped = stopped || told
					c.Ob("C30", told, c.Where(e), "the server is not stopped before it was told to", "a goroutine stops it")
				case strings.HasPrefix(e.Name, "(*"+grpcPkg+".Server).") && (strings.HasSuffix(e.Name, "Stop")) && !thread && e.Args[0] == server:
					c.Ob("C30", waits, c.Where(e), "the server is not stopped before it was told to", "it is stopped earlier")
				}
			}
		}
		scan(p.Events, false)
		c.Ob("C30", waits, where, "the server serves until it is told to stop", "a path does not wait")
	}
	c.Ob("C30", n > 0, c.FnWhere(root.Fn), "the server starts", "no path returns")
}

func isServeHTTP(e *Event) bool {
	return e.Kind == "call" && (e.Name == "net/http.ListenAndServe" || e.Name == "(*net/http.Server).ListenAndServe")
}

// ruleMmfServed: the helper that hosts a matchmaking function.
func ruleMmfServed(c *Ctx) {
	fn := c.Func("C30", "open-match.dev/mmf/server.StartServer")
	if fn == nil {
		return
	}
	root := c.Root(fn)
	if !c.Sound("C30", root) {
		return
	}
	w := c.FnWhere(fn)
	impl := -1
	for i, p := range fn.Params {
		if _, name := namedIn(p.Type()); name == "MatchMakingFunctionServiceServer" {
			impl = i
		}
	}
	port := -1
	for i, p := range fn.Params {
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			port = i
		}
	}
	c.Ob("C30", impl >= 0 && port >= 0, w, "the helper is given a function and a port", "not found")
	if impl < 0 || port < 0 {
		return
	}
	arg := func(t *Term, i int) bool { return t != nil && t.Op == "param" && t.S == fmt.Sprintf("arg%d", i) }
	n := 0
	for _, p := range root.Paths {
		var lis *Event
		regs := map[*Term]*Event{}
		served := false
		failed := false
		for _, e := range p.Events {
			switch {
			case e.Kind == "call" && e.Name == "net.Listen" && len(e.Args) == 2:
				lis = e
				t := e.Args[1]
				sc := &Scenario{Loop: func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false }}
				sc.Val = func(t *Term, _ Inst) (any, bool) {
					if arg(t, port) {
						return int64(12345), true
					}
					return nil, false
				}
				v, ok := sc.eval(t, Inst{})
				s := fmt.Sprint(v)
				c.Ob("C30", ok && (s == ":12345" || s == "0.0.0.0:12345"), c.Where(e), "a matchmaking function is served on the port it is given", "it is served on "+tstr(t))
			case e.Kind == "call" && strings.HasSuffix(e.Name, ".RegisterMatchMakingFunctionServiceServer") && len(e.Args) == 2:
				regs[e.Args[0]] = e
				c.Ob("C30", arg(stripConv(e.Args[1]), impl), c.Where(e), "the function given to the helper is registered", "it is "+tstr(e.Args[1]))
			case isServe(e):
				served = true
				c.Ob("C30", regs[e.Args[0]] != nil, c.Where(e), "the function is registered with the server that serves", "nothing is registered with "+tstr(e.Args[0]))
				ok := lis != nil && len(e.Args) > 1 && stripConv(e.Args[1]).Op == "res" && stripConv(e.Args[1]).A[0] == lis.Res
				c.Ob("C30", ok, c.Where(e), "a matchmaking function is served where it listens", "it is "+tstr(e.Args[1]))
			}
		}
		if lis != nil {
			if isNil, known := c.errNil(p.Facts, lis, 1); known && !isNil {
				failed = true
			}
		}
		if p.Kind == "return" && !failed {
			n++
			c.Ob("C30", served, w, "the helper serves the function", "a path ends without serving: "+litsStr(lastLits(p.Facts, 3)))
		}
	}
	c.Ob("C30", n > 0, w, "the helper starts a server", "no path does")
}

// httpHandler and httpAddr are what is served, and where.
func (c *Ctx) httpHandler(r *Root, e *Event) *Term {
	if e.Name == "net/http.ListenAndServe" {
		return stripConv(e.Args[1])
	}
	if h := r.fieldOf(e.Mem, e.Args[0], "Handler"); h != nil {
		return stripConv(h)
	}
	return nil
}

func (c *Ctx) httpAddr(r *Root, e *Event) *Term {
	if e.Name == "net/http.ListenAndServe" {
		return e.Args[0]
	}
	return r.fieldOf(e.Mem, e.Args[0], "Addr")
}

// signalCtx: the channel is closed when a signal arrives.
func signalCtx(by map[*Term]*Event, t *Term) bool {
	e := by[t]
	if e == nil || !strings.HasSuffix(e.Name, "Context).Done") || len(e.Args) == 0 {
		return false
	}
	x := stripConv(e.Args[0])
	for x.Op == "res" {
		x = x.A[0]
	}
	e = by[x]
	return e != nil && e.Name == "os/signal.NotifyContext"
}

// endsCtx: the function is the one that cancels the context.
func endsCtx(fn, ctx *Term) bool {
	return fn != nil && fn.Op == "res" && fn.S == "1" && ctx.Op == "res" && ctx.A[0] == fn.A[0]
}

// stopSignals: only signals that ask for the end of a process end it. Without
// any listed, all would, those of the Go scheduler included.
func (c *Ctx) stopSignals(r *Root, e *Event, list *Term) {
	es := r.A.elems(&State{mem: e.Mem}, list)
	bad := ""
	if len(es) == 0 {
		bad = "every signal ends it"
	}
	for _, t := range es {
		t = stripConv(t)
		if n, ok := t.ConstInt(); ok && (n == 15 || n == 2 || n == 3 || n == 1 || n == 9) {
			continue
		}
		if s := tstr(t); strings.Contains(s, "os.Interrupt") || strings.Contains(s, "os.Kill") {
			continue
		}
		bad = tstr(t)
	}
	c.Ob("C30", bad == "", c.Where(e), "the server is ended by signals that ask for it", bad)
}

// implementsAll: the registered object implements every RPC itself.
func (c *Ctx) implementsAll(w string, t *Term) {
	if t.Typ == nil {
		c.Ob("C30", false, w, "the registered service is known", tstr(t))
		return
	}
	ifc := c.R.iface(pbPath, "OpenMatchServiceServer")
	if ifc == nil {
		c.Ob("C30", false, w, "the service interface is known", "it is not")
		return
	}
	for i := 0; i < ifc.NumMethods(); i++ {
		m := ifc.Method(i)
		if !m.Exported() {
			continue
		}
		obj, _, _ := types.LookupFieldOrMethod(t.Typ, true, m.Pkg(), m.Name())
		f, _ := obj.(*types.Func)
		ok := f != nil && f.Pkg() != nil && !isGenerated(f.Pkg().Path())
		c.Ob("C30", ok, w, "the RPC "+m.Name()+" is implemented", "the generated \"unimplemented\" answer is registered for it")
	}
}
