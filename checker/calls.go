package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fnOf(t *Term) *ssa.Function {
	if t == nil {
		return nil
	}
	switch t.Op {
	case "fn", "closure":
		f, _ := t.Aux.(*ssa.Function)
		return f
	}
	return nil
}

// calleeArgs evaluates the callee and the arguments (receiver first).
func (a *Analysis) calleeArgs(s *State, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	fn := a.val(s, c.Value)
	if c.IsInvoke() {
		args = append(args, fn)
		fn = a.In.mk("method", ifaceName(c.Method), nil, c.Method)
	}
	for _, x := range c.Args {
		args = append(args, a.val(s, x))
	}
	return fn, args
}

func ifaceName(m *types.Func) string { return m.FullName() }

func calleeName(c *ssa.CallCommon, fn *Term) string {
	if fn == nil {
		return "?"
	}
	switch fn.Op {
	case "fn", "closure":
		if f := fnOf(fn); f != nil && f.Origin() != nil {
			return f.Origin().String()
		}
		return fn.S
	case "builtin", "method":
		return fn.S
	}
	return "dynamic"
}

func (a *Analysis) call(f *Frame, s *State, c *ssa.CallCommon, site ssa.Instruction, val ssa.Value) []*State {
	fn, args := a.calleeArgs(s, c)
	return a.apply(f, s, c, fn, args, site, val, false)
}

// variadic arguments are passed as a slice of a fresh array: list its elements.
func (a *Analysis) elems(s *State, t *Term) []*Term {
	switch t.Op {
	case "sliceof":
		arr, ok := t.Typ.Underlying().(*types.Array)
		if !ok {
			break
		}
		var out []*Term
		for i := int64(0); i < arr.Len(); i++ {
			out = append(out, a.load(s, a.In.mk("indexaddr", "", nil, nil, t.A[0], a.In.Int(i)), arr.Elem()))
		}
		return out
	case "seq":
		return t.A
	case "empty":
		return nil
	case "const":
		if t.S == "nil" || t.S == `""` {
			return nil
		}
	}
	return []*Term{a.In.mk("spread", "", t.Typ, nil, t)}
}

// freeze turns references to local arrays into the values they hold.
func (a *Analysis) freeze(s *State, t *Term) *Term {
	if t.Op == "sliceof" {
		return a.In.mk("seq", "", t.Typ, nil, a.elems(s, t)...)
	}
	return t
}

// snapshot is the content of a message as a value.
func (a *Analysis) snapshot(m *Mem, t *Term, depth int) *Term {
	if t == nil || depth > 6 {
		return t
	}
	if t.Op == "obj" {
		st, ok := t.Typ.Underlying().(*types.Struct)
		if !ok {
			return t
		}
		if hv, ok := m.m[a.In.mk("havoc", "", nil, nil, t)]; ok {
			var names []string
			var vals []*Term
			for i := 0; i < st.NumFields(); i++ {
				fl := st.Field(i)
				if !fl.Exported() {
					continue
				}
				names = append(names, fl.Name())
				if v, ok := m.m[a.In.FieldAddr(t, fl.Name())]; ok {
					vals = append(vals, a.snapshot(m, v, depth+1))
				} else {
					vals = append(vals, a.In.Field(hv, fl.Name(), fl.Type()))
				}
			}
			return a.In.mk("msg", t.Typ.String(), t.Typ, names, vals...)
		}
		var names []string
		var vals []*Term
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			if !fl.Exported() {
				continue
			}
			fa := a.In.FieldAddr(t, fl.Name())
			names = append(names, fl.Name())
			v, ok := m.m[fa]
			if !ok {
				if sub, isS := fl.Type().Underlying().(*types.Struct); isS && !isOpaqueStruct(fl.Type()) {
					v = a.snapStruct(m, fa, fl.Type(), sub, depth+1)
				} else {
					v = a.In.zero(fl.Type())
				}
			}
			vals = append(vals, a.snapshot(m, v, depth+1))
		}
		return a.In.mk("msg", t.Typ.String(), t.Typ, names, vals...)
	}
	if t.Op == "mkmap" {
		// literal entries
		var ks, vs []*Term
		for k, v := range m.m {
			if k.Op == "lookupaddr" && k.A[0] == t {
				ks = append(ks, k.A[1])
				vs = append(vs, a.snapshot(m, v, depth+1))
			}
		}
		return a.In.mk("mapval", t.S, t.Typ, nil, interleave(ks, vs)...)
	}
	if t.Op == "sliceof" {
		st := &State{mem: m}
		var out []*Term
		for _, e := range a.elems(st, t) {
			out = append(out, a.snapshot(m, e, depth+1))
		}
		return a.In.mk("seq", "", t.Typ, nil, out...)
	}
	if (t.Op == "clone" || t.Op == "field" || t.Op == "arg" || t.Op == "param") && t.Typ != nil && isMessage(t.Typ) && dirty(m, t) {
		// fields of a message that is not built here have been assigned
		st, ok := deref(t.Typ).Underlying().(*types.Struct)
		if !ok {
			return t
		}
		var names []string
		var vals []*Term
		for i := 0; i < st.NumFields(); i++ {
			fl := st.Field(i)
			if !fl.Exported() {
				continue
			}
			v, ok := m.m[a.In.FieldAddr(t, fl.Name())]
			if !ok {
				v = a.In.Field(t, fl.Name(), fl.Type())
			}
			names = append(names, fl.Name())
			vals = append(vals, a.snapshot(m, v, depth+1))
		}
		return a.In.mk("msg", deref(t.Typ).String(), deref(t.Typ), names, vals...)
	}
	if t.Op == "seq" || t.Op == "append" {
		var out []*Term
		for _, e := range t.A {
			out = append(out, a.snapshot(m, e, depth+1))
		}
		return a.In.mk(t.Op, t.S, t.Typ, t.Aux, out...)
	}
	return t
}

// dirty: something reached through t has been assigned.
func dirty(m *Mem, t *Term) bool {
	for k := range m.m {
		x := k
		for len(x.A) > 0 && (x.Op == "fieldaddr" || x.Op == "field") {
			if x = x.A[0]; x == t {
				return true
			}
		}
		if x.Op != "clone" {
			continue
		}
		// a copy's parts belong to the copy
		id, of := x.S, x.A[0]
		for of.Op == "field" && strings.HasSuffix(id, "."+of.S) {
			id, of = strings.TrimSuffix(id, "."+of.S), of.A[0]
			if t.Op == "clone" && t.S == id && t.A[0] == of {
				return true
			}
		}
	}
	return false
}

func (a *Analysis) snapStruct(m *Mem, addr *Term, t types.Type, st *types.Struct, depth int) *Term {
	var names []string
	var vals []*Term
	for i := 0; i < st.NumFields(); i++ {
		fl := st.Field(i)
		fa := a.In.FieldAddr(addr, fl.Name())
		names = append(names, fl.Name())
		v, ok := m.m[fa]
		if !ok {
			if sub, isS := fl.Type().Underlying().(*types.Struct); isS && !isOpaqueStruct(fl.Type()) {
				v = a.snapStruct(m, fa, fl.Type(), sub, depth+1)
			} else {
				v = a.In.zero(fl.Type())
			}
		}
		vals = append(vals, a.snapshot(m, v, depth+1))
	}
	return a.In.mk("struct", t.String(), t, names, vals...)
}

func interleave(ks, vs []*Term) []*Term {
	// order by key id for a canonical result
	for i := 0; i < len(ks); i++ {
		for j := i + 1; j < len(ks); j++ {
			if ks[j].ID < ks[i].ID {
				ks[i], ks[j] = ks[j], ks[i]
				vs[i], vs[j] = vs[j], vs[i]
			}
		}
	}
	var out []*Term
	for i := range ks {
		out = append(out, ks[i], vs[i])
	}
	return out
}

// isMessage: generated protobuf message type (or pointer to one).
func isMessage(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := deref(t).(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "state" && strings.HasSuffix(st.Field(i).Type().String(), "protoimpl.MessageState") || strings.HasSuffix(st.Field(i).Type().String(), "impl.MessageState") {
			return true
		}
	}
	return false
}

// getter reports the field read by a generated getter.
func getter(fn *ssa.Function) (string, types.Type, bool) {
	sig := fn.Signature
	if sig.Recv() == nil || !strings.HasPrefix(fn.Name(), "Get") || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return "", nil, false
	}
	if !isMessage(sig.Recv().Type()) {
		return "", nil, false
	}
	st := deref(sig.Recv().Type()).Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == fn.Name()[3:] {
			return st.Field(i).Name(), st.Field(i).Type(), true
		}
	}
	return "", nil, false
}

// logging and similar calls without any effect on the properties.
func silent(name string) bool {
	for _, p := range []string{
		"github.com/sirupsen/logrus.With", "(*github.com/sirupsen/logrus.", "(github.com/sirupsen/logrus.",
		"github.com/sirupsen/logrus.Debug", "github.com/sirupsen/logrus.Info", "github.com/sirupsen/logrus.Warn", "github.com/sirupsen/logrus.Error", "github.com/sirupsen/logrus.Print", "github.com/sirupsen/logrus.Trace", "github.com/sirupsen/logrus.Set",
		"fmt.Print", "fmt.Fprint", "log.Print", "(*log.Logger).Print", "github.com/davecgh/go-spew/spew.Dump",
	} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

func fatal(name string) bool {
	if name == "os.Exit" {
		return true
	}
	i := strings.LastIndexByte(name, '.')
	m := name[i+1:]
	if !strings.HasPrefix(m, "Fatal") && !strings.HasPrefix(m, "Panic") && m != "Exit" {
		return false
	}
	return strings.Contains(name, "logrus") || strings.HasPrefix(name, "log.") || strings.HasPrefix(name, "(*log.Logger)")
}

// pure library functions: the result only depends on the arguments.
var purePkgs = []string{
	"fmt.Sprint", "fmt.Errorf", "errors.", "github.com/pkg/errors.", "strings.", "(*strings.Builder).String", "strconv.", "math.", "bytes.", "path/filepath.", "path.",
	"google.golang.org/grpc/status.", "(*google.golang.org/grpc/internal/status.Status).", "google.golang.org/protobuf/proto.Size", "google.golang.org/protobuf/proto.Clone", "google.golang.org/protobuf/proto.Equal",
	"(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).", "google.golang.org/protobuf/types/known/",
	"google.golang.org/protobuf/encoding/protojson.Marshal", "google.golang.org/grpc.With", "google.golang.org/grpc.StatsHandler", "google.golang.org/grpc/credentials/insecure.",
	"(time.Time).", "(time.Duration).", "time.Unix", "time.UnixMilli", "time.Date", "time.Parse", "(*regexp.Regexp).", "regexp.", "sort.Search",
	"go.opentelemetry.io/otel/attribute.", "go.opentelemetry.io/otel/metric.With", "github.com/gomodule/redigo/redis.Int", "github.com/gomodule/redigo/redis.String", "github.com/gomodule/redigo/redis.Bytes", "github.com/gomodule/redigo/redis.Values", "github.com/gomodule/redigo/redis.Dial",
	"reflect.", "unicode", "slices.Contains", "slices.Index", "slices.Max", "slices.Min", "slices.Equal", "maps.Keys", "maps.Values", "os.Getenv", "runtime.", "net.Join",
	"(error).Error", "(fmt.Stringer).String", "github.com/spf13/viper.New", "encoding/json.Marshal", "context.WithValue", "context.Background", "context.TODO", "cmp.",
}

func pure(name string) bool {
	switch strings.TrimPrefix(name, "github.com/gomodule/redigo/redis.") {
	case "Dial", "DialContext", "DialURL", "DialURLContext", "DialTimeout":
		return false
	}
	for _, p := range purePkgs {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// apply interprets a call. val receives the result unless nil.
func (a *Analysis) apply(f *Frame, s *State, c *ssa.CallCommon, fn *Term, args []*Term, site ssa.Instruction, val ssa.Value, def bool) []*State {
	name := calleeName(c, fn)
	// variants of library functions that do the same here
	switch name {
	case "context.WithTimeoutCause", "context.WithDeadlineCause":
		name, args = strings.TrimSuffix(name, "Cause"), args[:2]
	case "google.golang.org/grpc.DialContext":
		if len(args) > 1 && args[0].IsApp("context.Background", "context.TODO") {
			name, args = "google.golang.org/grpc.Dial", args[1:]
		}
	case "(google.golang.org/protobuf/proto.MarshalOptions).Marshal":
		if len(args) == 2 {
			name, args = "google.golang.org/protobuf/proto.Marshal", args[1:]
		}
	}
	set := func(t *Term) []*State {
		if val != nil {
			s.env[val] = t
		}
		return []*State{s}
	}
	rt := func() types.Type {
		if val != nil {
			return val.Type()
		}
		return nil
	}
	ev := func(kind string, args []*Term, res *Term) *Event {
		return a.emit(s, &Event{Fn: fn, Kind: kind, Name: name, Args: args, Res: res, Site: site, Frame: f, Def: def, Callee: fnOf(fn)})
	}
	if fn.Op == "builtin" {
		switch fn.S {
		case "len":
			t := args[0]
			if t.Op == "mkmap" {
				if _, w := s.mem.m[a.In.mk("written", "", nil, nil, t)]; !w {
					return set(a.In.Int(0))
				}
			}
			if len(c.Args) == 1 {
				if _, ok := c.Args[0].Type().Underlying().(*types.Chan); ok {
					// another one at each call
					return set(a.In.mk("chlen", a.site(f, site), types.Typ[types.Int], allocSite{site, f}, t))
				}
			}
			return set(a.In.Len(t))
		case "cap":
			if t := args[0]; t.Op == "mkchan" && len(t.A) == 1 {
				return set(t.A[0])
			}
			return set(a.In.mk("cap", "", types.Typ[types.Int], nil, args[0]))
		case "append":
			if len(args) == 1 {
				return set(args[0])
			}
			base := args[0]
			if base.Op == "sliceof" {
				base = a.freeze(s, base)
			}
			r := a.In.Append(base, a.elems(s, args[1]))
			if isReslice(base) {
				ev("overwrite", []*Term{base, r}, nil)
			}
			return set(r)
		case "copy":
			ev("copy", args, nil)
			s.set(a.In.mk("written", "", nil, nil, args[0]), a.In.Bool(true))
			return set(a.In.mk("unknown", a.site(f, site), nil, nil))
		case "delete":
			ev("mapdel", args, nil)
			s.set(a.In.mk("lookupaddr", "", nil, nil, args[0], args[1]), a.In.mk("deleted", "", nil, nil))
			s.set(a.In.mk("written", "", nil, nil, args[0]), a.In.Bool(true))
			return set(a.In.Nil())
		case "close":
			ev("close", args, nil)
			return set(a.In.Nil())
		case "min", "max":
			return set(a.In.mk("app", fn.S, rt(), nil, args...))
		case "recover":
			return set(a.In.mk("unknown", a.site(f, site), nil, nil))
		case "ssa:wrapnilchk":
			return set(args[0])
		}
		return set(a.In.mk("unknown", a.site(f, site), nil, nil))
	}
	if fatal(name) {
		ev("fatal", args, nil)
		s.kind = "fatal"
		return []*State{s}
	}
	if silent(name) && !(a.Opaque["!logrus"] && strings.HasPrefix(name, "github.com/sirupsen/logrus.Set")) {
		return set(a.In.mk("app", name, rt(), nil))
	}
	callee := fnOf(fn)
	if callee != nil && callee.Origin() != nil && !a.R.InRepo(callee) {
		callee = callee.Origin()
	}
	if a.CallHook != nil {
		if t := a.CallHook(name, args); t != nil {
			return set(t)
		}
	}
	if callee != nil {
		if fld, ft, ok := getter(callee); ok && len(args) == 1 {
			return set(a.msgField(s, args[0], fld, ft))
		}
	}
	if fn.Op == "method" {
		m := fn.Aux.(*types.Func)
		// an interface of the repository with a single implementation
		if impl := a.R.soleImpl(m); impl != nil {
			return a.inline(f, s, impl, args, nil, site, val)
		}
	}
	if r := a.transfer(f, s, name, fn, args, site, rt()); r != nil {
		return set(r)
	}
	if res, ok := a.callbackLoop(f, s, name, args, site, val); ok {
		return res
	}
	if callee != nil && a.R.InRepo(callee) && !a.Opaque[name] && (a.Opaque["!generated"] || !isGenerated(pkgPathOf(callee))) {
		var binds []*Term
		if fn.Op == "closure" {
			binds = fn.A
		}
		if !a.onStack(f, callee) && f.depth < 24 {
			return a.inline(f, s, callee, args, binds, site, val)
		}
	}
	if name == "(*sync.WaitGroup).Go" && len(args) == 2 {
		// Add(1); go func() { f(); Done() }()
		mk := func(n string, as ...*Term) *Event {
			return &Event{Kind: "call", Name: "(*sync.WaitGroup)." + n, Args: as, Site: site, Frame: f, Res: a.In.Nil()}
		}
		a.emit(s, mk("Add", args[0], a.In.Int(1)))
		a.spawn(f, s, site, args[1], nil, name)
		if g := s.it.ev; g.Kind == "go" && g.Thread != nil {
			for _, p := range g.Thread.Paths {
				d := mk("Done", args[0])
				d.Facts, d.Mem = p.Facts, p.Mem
				p.Events = append(p.Events[:len(p.Events):len(p.Events)], d)
			}
		}
		return set(a.In.Nil())
	}
	if (name == "time.AfterFunc" || name == "context.AfterFunc") && len(args) == 2 {
		a.spawn(f, s, site, args[1], nil, name)
	}
	if pure(name) || a.Opaque[name] {
		fr := make([]*Term, len(args))
		for i, x := range args {
			fr[i] = a.snapshotArg(s, x)
		}
		t := a.In.mk("app", name, rt(), nil, fr...)
		if a.Opaque[name] {
			ev("call", args, t)
		}
		return set(t)
	}
	var at []*Term
	if name == "(context.Context).Done" || name == "context.WithTimeout" {
		at = args // whose end is waited for, and when that is
	}
	t := a.In.mk("call", name+"@"+a.site(f, site), rt(), allocSite{site, f}, at...)
	ev("call", args, t)
	if fills(name) {
		for _, x := range args {
			a.filled(f, s, site, x)
		}
	}
	return set(t)
}

// fills: library functions that write through pointers they are given.
func fills(name string) bool {
	switch pkg := strings.TrimLeft(name, "(*"); {
	case strings.HasPrefix(pkg, "fmt."):
		return strings.Contains(name, "can")
	case strings.HasPrefix(pkg, "encoding/"), strings.HasPrefix(pkg, "google.golang.org/protobuf/encoding/"):
		m := mname(name)
		return strings.HasPrefix(m, "Unmarshal") || m == "Decode" || m == "Read"
	case strings.HasPrefix(pkg, "github.com/gomodule/redigo/redis.Scan"):
		return true
	case strings.HasSuffix(pkg, "errors.As"):
		return true
	}
	return false
}

// filled: the object is overwritten with something unknown.
func (a *Analysis) filled(f *Frame, s *State, site ssa.Instruction, x *Term) {
	switch x.Op {
	case "sliceof":
		for _, e := range a.elems(s, x) {
			a.filled(f, s, site, e)
		}
	case "obj":
		if x.Typ == nil {
			return
		}
		for k := range s.mem.m {
			if addrRoot(k) == x {
				s.del(k)
			}
		}
		s.set(a.In.mk("havoc", "", nil, nil, x), a.In.mk("read", a.site(f, site), deref(x.Typ), allocSite{site, f}, x))
	}
}

func isReslice(t *Term) bool {
	switch t.Op {
	case "empty":
		return true
	case "slice":
		return true
	case "append":
		return isReslice(t.A[0])
	}
	return false
}

func pkgPathOf(fn *ssa.Function) string {
	for p := fn; p != nil; p = p.Parent() {
		if p.Pkg != nil {
			return p.Pkg.Pkg.Path()
		}
	}
	if o, ok := fn.Object().(*types.Func); ok && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (a *Analysis) snapshotArg(s *State, t *Term) *Term {
	switch t.Op {
	case "sliceof":
		var out []*Term
		for _, e := range a.elems(s, t) {
			out = append(out, a.snapshotArg(s, e))
		}
		return a.In.mk("seq", "", t.Typ, nil, out...)
	case "obj":
		if isMessage(t.Typ) {
			return a.snapshot(s.mem, t, 0)
		}
	}
	return t
}

// msgField reads a field of a message through a pointer.
func (a *Analysis) msgField(s *State, p *Term, fld string, ft types.Type) *Term {
	if p.Op == "obj" || p.Op == "fieldaddr" || p.Op == "indexaddr" {
		return a.load(s, a.In.FieldAddr(p, fld), ft)
	}
	if v, ok := s.mem.m[a.In.FieldAddr(p, fld)]; ok {
		return v
	}
	return a.In.Field(p, fld, ft)
}

func (a *Analysis) onStack(f *Frame, fn *ssa.Function) bool {
	for p := f; p != nil; p = p.Parent {
		if p.Fn == fn {
			return true
		}
	}
	return false
}

func (a *Analysis) inline(f *Frame, s *State, callee *ssa.Function, args, binds []*Term, site ssa.Instruction, val ssa.Value) []*State {
	nf := a.frame(callee, f, site)
	env, defers := s.env, s.defers
	var out []*State
	rets := a.callFn(nf, s, args, binds)
	for _, r := range rets {
		t := r
		a.dropCells(nf, t)
		ne := make(map[ssa.Value]*Term, len(env)+4)
		for k, v := range env {
			ne[k] = v
		}
		t.env = ne
		t.defers = defers[:len(defers):len(defers)]
		if t.kind == "return" {
			t.kind = ""
			if val != nil {
				switch len(t.ret) {
				case 0:
				case 1:
					t.env[val] = t.ret[0]
				default:
					t.env[val] = a.In.mk("tuple", "", nil, nil, t.ret...)
				}
			}
		}
		t.ret = nil
		out = append(out, t)
	}
	return a.mergeCalls(out, val)
}

// dropCells forgets the variables of a call that is over, where only functions
// it called itself captured them.
func (a *Analysis) dropCells(f *Frame, s *State) {
	if s.kind != "return" {
		return
	}
	var gone []*Term
	for k := range s.mem.m {
		if k.Op != "obj" {
			continue
		}
		as, ok := k.Aux.(allocSite)
		if !ok || as.frame != f {
			continue
		}
		if al, ok := as.ins.(*ssa.Alloc); ok && a.ownCell(al) {
			gone = append(gone, k)
		}
	}
	for _, k := range gone {
		s.del(k)
	}
}

func (a *Analysis) ownCell(al *ssa.Alloc) bool {
	if v, ok := a.own[al]; ok {
		return v
	}
	_, basic := deref(al.Type()).Underlying().(*types.Basic)
	ok := basic
	var uses func(v ssa.Value, depth int)
	uses = func(v ssa.Value, depth int) {
		if v.Referrers() == nil || depth > 5 {
			ok = false
			return
		}
		for _, u := range *v.Referrers() {
			switch x := u.(type) {
			case *ssa.DebugRef:
			case *ssa.UnOp:
			case *ssa.Store:
				ok = ok && x.Addr == v && x.Val != v
			case *ssa.MakeClosure:
				for _, w := range *x.Referrers() {
					c, is := w.(*ssa.Call)
					ok = ok && is && c.Call.Value == x
					if ok {
						for _, arg := range c.Call.Args {
							ok = ok && arg != ssa.Value(x)
						}
					}
				}
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v && i < len(fn.FreeVars) {
						uses(fn.FreeVars[i], depth+1)
					}
				}
			default:
				ok = false
			}
		}
	}
	uses(al, 0)
	a.own[al] = ok
	return ok
}

// mergeCalls joins the return states of an inlined call.
func (a *Analysis) mergeCalls(sts []*State, val ssa.Value) []*State {
	if len(sts) < 2 {
		return sts
	}
	var out []*State
	for _, s := range sts {
		merged := false
		for _, t := range out {
			if t.it != s.it || t.kind != s.kind || !sameMem(t.mem, s.mem) {
				continue
			}
			if val != nil && t.env[val] != s.env[val] {
				continue
			}
			if m, ok := resolve(t.facts, s.facts); ok {
				t.facts = m
				merged = true
				break
			}
		}
		if !merged {
			out = append(out, s)
		}
	}
	return out
}

func sameMem(x, y *Mem) bool {
	if x == y {
		return true
	}
	if len(x.m) != len(y.m) {
		return false
	}
	for k, v := range x.m {
		if y.m[k] != v {
			return false
		}
	}
	return true
}

// spawn analyses a goroutine started here.
func (a *Analysis) spawn(f *Frame, s *State, site ssa.Instruction, fn *Term, args []*Term, name string) {
	e := &Event{Kind: "go", Fn: fn, Name: name, Args: args, Site: site, Frame: f, Callee: fnOf(fn)}
	callee := fnOf(fn)
	if callee != nil && a.R.InRepo(callee) && !a.onStack(f, callee) && !a.NoGo {
		th := &Thread{Fn: callee, Args: args}
		nf := a.frame(callee, f, site)
		t := s.clone()
		t.it = nil
		t.facts = append([]Lit(nil), s.facts...)
		t.kind = ""
		var binds []*Term
		if fn.Op == "closure" {
			binds = fn.A
		}
		// variables that change while the goroutine runs are unknown to it
		reached := map[*Term]bool{}
		a.reach(t, append(append([]*Term{}, binds...), args...), reached)
		for o := range reached {
			if as, ok := o.Aux.(allocSite); ok && o.Op == "obj" {
				if al, ok := as.ins.(*ssa.Alloc); ok && a.unstable(al, site, f) {
					for k := range t.mem.m {
						if addrRoot(k) == o {
							t.del(k)
						}
					}
					t.set(a.In.mk("havoc", "", nil, nil, o), a.In.mk("shared", o.S, o.Typ, nil, o))
				}
			}
		}
		for _, r := range a.callFn(nf, t, args, binds) {
			th.Paths = append(th.Paths, a.path(r))
		}
		e.Thread = th
		// and what the goroutine changes is unknown to its creator
		for o := range reached {
			if as, ok := o.Aux.(allocSite); ok && o.Op == "obj" {
				if al, ok := as.ins.(*ssa.Alloc); ok && storedByOthers(al) {
					for k := range s.mem.m {
						if addrRoot(k) == o {
							s.del(k)
						}
					}
					s.set(a.In.mk("havoc", "", nil, nil, o), a.In.mk("shared", o.S, o.Typ, nil, o))
				}
			}
		}
	}
	a.emit(s, e)
}

// reach collects the objects reachable from values directly (captured cells).
func (a *Analysis) reach(s *State, ts []*Term, out map[*Term]bool) {
	for _, t := range ts {
		if t == nil {
			continue
		}
		if t.Op == "obj" && !out[t] {
			out[t] = true
			if v, ok := s.mem.m[t]; ok {
				a.reach(s, []*Term{v}, out)
			}
		}
		if t.Op == "closure" {
			a.reach(s, t.A, out)
		}
	}
}

// cellUses lists every store to a local variable, through captures.
func cellStores(al ssa.Value) []*ssa.Store {
	var out []*ssa.Store
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] || v.Referrers() == nil {
			return
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					out = append(out, x)
				}
			case *ssa.MakeClosure:
				for i, b := range x.Bindings {
					if b == v {
						walk(x.Fn.(*ssa.Function).FreeVars[i])
					}
				}
			}
		}
	}
	walk(al)
	return out
}

// unstable: the variable may be stored after the goroutine has started.
func (a *Analysis) unstable(al *ssa.Alloc, g ssa.Instruction, f *Frame) bool {
	if _, ok := al.Type().(*types.Pointer).Elem().Underlying().(*types.Struct); ok {
		return false // struct variables are handled field-wise by the rules
	}
	for _, st := range cellStores(al) {
		// the instruction of the storing function through which we got here
		var at ssa.Instruction = g
		fr := f
		for fr != nil && fr.Fn != st.Parent() {
			at = fr.Call
			fr = fr.Parent
		}
		if fr == nil || at == nil {
			return true
		}
		// (a variable allocated anew on the way there is another one)
		var avoid ssa.Instruction
		avoid = al
		if reachAvoid(at, st, avoid) {
			return true
		}
	}
	return false
}

func storedByOthers(al *ssa.Alloc) bool {
	for _, st := range cellStores(al) {
		if st.Parent() != al.Parent() {
			return true
		}
	}
	return false
}

func reachableFrom(from, to ssa.Instruction) bool { return reachAvoid(from, to, nil) }

// reachAvoid: to can execute after from without executing avoid in between.
func reachAvoid(from, to, avoid ssa.Instruction) bool {
	if from.Parent() != to.Parent() {
		return false
	}
	type pt struct {
		b *ssa.BasicBlock
		i int
	}
	pos := func(x ssa.Instruction) int {
		for i, y := range x.Block().Instrs {
			if y == x {
				return i
			}
		}
		return -1
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int) bool
	walk = func(b *ssa.BasicBlock, i int) bool {
		for ; i < len(b.Instrs); i++ {
			if b.Instrs[i] == to {
				return true
			}
			if avoid != nil && b.Instrs[i] == avoid {
				return false
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				if walk(s, 0) {
					return true
				}
			}
		}
		return false
	}
	return walk(from.Block(), pos(from)+1)
}

// soleImpl resolves a method of an interface declared in the repository that
// has exactly one implementation there.
func (r *Repo) soleImpl(m *types.Func) *ssa.Function {
	if m.Pkg() == nil || r.SSA[m.Pkg().Path()] == nil || isGenerated(m.Pkg().Path()) {
		return nil
	}
	recv := m.Type().(*types.Signature).Recv()
	if recv == nil {
		return nil
	}
	if n, ok := recv.Type().(*types.Named); ok && n.Obj().Name() == "StateReplicator" {
		return nil
	}
	iface, ok := recv.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var found *ssa.Function
	for _, t := range r.implementers(iface) {
		fn := r.Prog.LookupMethod(t, m.Pkg(), m.Name())
		if fn == nil {
			continue
		}
		if found != nil && found != fn {
			return nil
		}
		found = fn
	}
	return found
}

// implementers lists the repository's own types that implement iface.
func (r *Repo) implementers(iface *types.Interface) []types.Type {
	var out []types.Type
	for _, p := range r.Pkgs {
		if isGenerated(p.PkgPath) {
			continue
		}
		sc := p.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			t := tn.Type()
			if types.IsInterface(t) {
				continue
			}
			if nt, ok := t.(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(t, iface) {
				out = append(out, t)
			} else if types.Implements(types.NewPointer(t), iface) {
				out = append(out, types.NewPointer(t))
			}
		}
	}
	return out
}

// method returns the body of a method of a type.
func (r *Repo) method(t types.Type, name string) *ssa.Function {
	var pkg *types.Package
	if n, ok := deref(t).(*types.Named); ok {
		pkg = n.Obj().Pkg()
	}
	sel := r.Prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return r.Prog.MethodValue(sel)
}

// transfer gives the abstract effect of known library functions; nil when the
// function is not known here.
func (a *Analysis) transfer(f *Frame, s *State, name string, fn *Term, args []*Term, site ssa.Instruction, rt types.Type) *Term {
	in := a.In
	switch name {
	case "slices.Clone", "slices.Clip", "maps.Clone":
		// the same contents; writing to the copy counts as writing to both
		// (a list built here and cleared later is not its copy)
		if len(args) == 1 && (name == "maps.Clone" || !isLocal(args[0])) {
			return args[0]
		}
	case "slices.Sorted", "slices.Collect":
		// a list of all keys (values) of a map is visited as the map itself
		if len(args) == 1 && args[0].IsApp("maps.Keys", "maps.Values") && len(args[0].A) == 1 {
			m := args[0].A[0]
			if m.Op == "mkmap" {
				if _, w := s.mem.m[in.mk("written", "", nil, nil, m)]; !w {
					return in.mk("seq", "", rt, nil)
				}
				if !settled(site, args[0]) {
					return nil
				}
			}
			return in.mk("maplist", strings.TrimPrefix(args[0].S, "maps."), rt, nil, m)
		}
	case "context.WithoutCancel":
		return in.mk("app", "context.Background", rt, nil)
	case "(github.com/gomodule/redigo/redis.Args).Add":
		if len(args) == 2 {
			base := args[0]
			if base.Op == "sliceof" {
				base = a.freeze(s, base)
			}
			return in.Append(base, a.elems(s, args[1]))
		}
	case "(time.Time).After":
		return in.mk("tlt", "", types.Typ[types.Bool], nil, args[1], args[0])
	case "(time.Time).Before":
		return in.mk("tlt", "", types.Typ[types.Bool], nil, args[0], args[1])
	case "(time.Time).Equal":
		x, y := args[0], args[1]
		return in.mk("teq", "Equal", types.Typ[types.Bool], nil, x, y)
	case "time.Now":
		return in.mk("now", a.site(f, site), rt, allocSite{site, f})
	case "google.golang.org/protobuf/types/known/timestamppb.Now":
		return in.mk("app", "google.golang.org/protobuf/types/known/timestamppb.New", rt, nil, in.mk("now", a.site(f, site), nil, allocSite{site, f}))
	case "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).AsTime":
		if args[0].IsApp("google.golang.org/protobuf/types/known/timestamppb.New") {
			return args[0].A[0]
		}
	case "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).CheckValid":
		// nil iff IsValid
		v := in.mk("app", "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).IsValid", types.Typ[types.Bool], nil, args[0])
		if b, ok := evalFacts(s.facts, v); ok && b {
			return in.Nil()
		}
		return in.mk("app", name, rt, nil, args...)
	case "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).IsValid":
		if args[0].IsApp("google.golang.org/protobuf/types/known/timestamppb.New") {
			return in.Bool(true)
		}
		if v, ok := evalFacts(s.facts, in.Eq(args[0], in.Nil())); ok && v || args[0].IsNil() {
			return in.Bool(false)
		}
	case "time.Since":
		return in.mk("app", "(time.Time).Sub", rt, nil, in.mk("now", a.site(f, site), nil, allocSite{site, f}), args[0])
	case "time.Until":
		return in.mk("app", "(time.Time).Sub", rt, nil, args[0], in.mk("now", a.site(f, site), nil, allocSite{site, f}))
	case "time.After", "time.NewTimer", "time.NewTicker", "time.Tick":
		t := in.mk("timer", a.site(f, site), rt, allocSite{site, f}, args[0])
		a.emit(s, &Event{Kind: "timer", Name: name, Args: args, Res: t, Site: site, Frame: f})
		return t
	case "errors.Is", "github.com/pkg/errors.Is":
		if args[0].IsNil() {
			return in.Bool(false)
		}
		return in.mk("app", "errors.Is", rt, nil, args...)
	case "github.com/pkg/errors.New", "errors.New":
		return in.mk("app", "errors.New", rt, nil, args...)
	case "google.golang.org/protobuf/proto.Clone":
		x := a.snapshot(s.mem, args[0], 0)
		return in.mk("clone", a.site(f, site), x.Typ, nil, x)
	case "google.golang.org/protobuf/proto.Marshal":
		t := in.mk("app", name, rt, nil, a.snapshot(s.mem, args[0], 0))
		return in.mk("tuple", "", nil, nil, in.mk("marshal", "", nil, nil, t.A[0]), in.mk("res", "1", types.Universe.Lookup("error").Type(), nil, t))
	case "google.golang.org/protobuf/proto.Unmarshal":
		dec := in.mk("decoded", "", deref(args[1].Typ), nil, args[0])
		o := args[1]
		for k := range s.mem.m {
			if addrRoot(k) == o {
				s.del(k)
			}
		}
		s.set(in.mk("havoc", "", nil, nil, o), dec)
		r := in.mk("app", name, rt, nil, args[0])
		return r
	case "sync/atomic.LoadInt64", "sync/atomic.LoadInt32", "sync/atomic.LoadUint64":
		return in.mk("aload", a.site(f, site), rt, nil, args[0])
	}
	if strings.HasPrefix(name, "(*github.com/spf13/viper.Viper).Get") {
		if k, ok := args[1].ConstStr(); ok {
			kind := strings.TrimPrefix(name, "(*github.com/spf13/viper.Viper).Get")
			op := ""
			if kind == "Duration" || kind == "Float64" || kind == "Bool" || kind == "String" {
				op = kind
			}
			return in.mk("conf", k, rt, op, nilArgs(in, op)...)
		}
		return in.mk("app", name, rt, nil, args[1:]...)
	}
	if strings.HasPrefix(name, "(*sync.Once).Do") && len(args) == 2 {
		return nil
	}
	return nil
}

func nilArgs(in *Interner, kind string) []*Term {
	if kind == "" {
		return nil
	}
	return []*Term{in.mk("kind", kind, nil, nil)}
}

// callbackLoop models library functions that call a function any number of
// times: sync.Map.Range, sort.Slice and the like.
func (a *Analysis) callbackLoop(f *Frame, s *State, name string, args []*Term, site ssa.Instruction, val ssa.Value) ([]*State, bool) {
	var cb *Term
	ci := -1
	for i, x := range args {
		if fnOf(x) != nil && a.R.InRepo(fnOf(x)) {
			cb, ci = x, i
		}
	}
	if cb == nil {
		return nil, false
	}
	kind := ""
	switch {
	case name == "(*sync.Map).Range":
		kind = "callback"
	case strings.HasPrefix(name, "sort."), strings.HasPrefix(name, "slices."):
		kind = "other"
	case name == "(*sync.Once).Do":
		res := a.inline(f, s, fnOf(cb), nil, cb.A, site, nil)
		return res, true
	default:
		return nil, false
	}
	_ = ci
	callee := fnOf(cb)
	if a.onStack(f, callee) {
		return nil, false
	}
	if name == "slices.ContainsFunc" || name == "slices.IndexFunc" {
		return a.searchLoop(f, s, name, args, cb, site, val), true
	}
	nf := a.frame(callee, f, site)
	id := fmt.Sprintf("%s@cb", nf.key)
	sum := &LoopSum{ID: id, Frame: nf, Kind: kind, Header: callee.Blocks[0], Callee: name, Init: map[*ssa.Phi]*Term{}, PhiT: map[*ssa.Phi]*Term{}, MemPhi: map[*Term]MemPhi{}, pos: site.Pos()}
	var cargs []*Term
	if kind == "callback" {
		sum.Coll = args[0]
		cargs = []*Term{a.In.mk("key", id, nil, nil, args[0]), a.In.mk("elem", id, nil, nil, args[0])}
	} else {
		for i, p := range callee.Params {
			cargs = append(cargs, a.In.mk("phi", fmt.Sprintf("%s#p%d", id, i), p.Type(), nil))
		}
	}
	havoc := map[*Term]bool{}
	a.active[id]++
	defer func() { a.active[id]-- }()
	var out []*State
	needs := len(a.needs)
	for round := 0; round < 40; round++ {
		a.needs = a.needs[:needs]
		out = nil
		sum.Iters, sum.Exits = nil, nil
		sum.Vals = [][]*Term{nil}
		b := s.clone()
		b.it = nil
		b.facts = dropLoop(b.facts, id)
		sum.MemPhi = map[*Term]MemPhi{}
		for k := range havoc {
			t := a.In.mk("memphi", id+"#"+fmt.Sprint(k.ID), k.Typ, k)
			sum.MemPhi[k] = MemPhi{Init: s.mem.m[k], T: t}
			b.set(k, t)
		}
		a.dropKeys(b, id)
		b.mem.shared = true
		base := &State{env: s.env, mem: b.mem, facts: s.facts, defers: s.defers}
		start := b.mem.m
		retry := false
		inBody := func(o *Term) bool {
			as, ok := o.Aux.(allocSite)
			if !ok {
				return false
			}
			for fr := as.frame; fr != nil; fr = fr.Parent {
				if fr == nf {
					return true
				}
			}
			return false
		}
		for _, r := range a.callFn(nf, b, cargs, cb.A) {
			if r.kind != "return" {
				p := a.path(r)
				sum.Exits = append(sum.Exits, p)
				t := r
				t.env = s.env
				t.it = joinItems(a, s, sum, 0, r, f)
				out = append(out, t)
				continue
			}
			for k, v := range r.mem.m {
				if k.Mentions(id) || a.stale(k) || rootIn(k, inBody) || havoc[k] {
					continue
				}
				if v0, ok := start[k]; !ok || v0 != v {
					havoc[k] = true
					retry = true
				}
			}
			for k := range start {
				if _, ok := r.mem.m[k]; !ok && !havoc[k] && !k.Mentions(id) && !a.stale(k) && !rootIn(k, inBody) {
					havoc[k] = true
					retry = true
				}
			}
			p := a.path(r)
			p.Kind = "next"
			if kind == "callback" && len(r.ret) == 1 {
				if v, ok := r.ret[0].ConstBool(); !ok || !v {
					p.Stop = true
				}
			}
			sum.Iters = append(sum.Iters, p)
		}
		if retry {
			continue
		}
		// after the loop: the state at the start of any iteration
		n := base.clone()
		n.env = make(map[ssa.Value]*Term, len(s.env)+1)
		for k, v := range s.env {
			n.env[k] = v
		}
		n.it = joinItems(a, s, sum, 0, &State{}, f)
		n.facts = s.facts
		if val != nil {
			n.env[val] = a.In.Nil()
		}
		out = append(out, n)
		return out, true
	}
	a.trouble("callback summary does not converge in %s", callee)
	return []*State{s}, true
}

// searchLoop models slices.ContainsFunc and slices.IndexFunc: a loop that ends
// at the first element for which the function reports true.
func (a *Analysis) searchLoop(f *Frame, s *State, name string, args []*Term, cb *Term, site ssa.Instruction, val ssa.Value) []*State {
	in := a.In
	callee := fnOf(cb)
	nf := a.frame(callee, f, site)
	id := fmt.Sprintf("%s@cb", nf.key)
	coll := args[0]
	idx := in.mk("idx", id, types.Typ[types.Int], nil)
	more := in.mk("lt", "", types.Typ[types.Bool], nil, idx, in.mk("len", "", types.Typ[types.Int], nil, coll))
	sum := &LoopSum{ID: id, Frame: nf, Kind: "slice", Header: callee.Blocks[0], Callee: name, Coll: coll, Init: map[*ssa.Phi]*Term{}, PhiT: map[*ssa.Phi]*Term{}, MemPhi: map[*Term]MemPhi{}, pos: site.Pos(), Cond: more, Stay: true, Vals: [][]*Term{nil}}
	a.active[id]++
	defer func() { a.active[id]-- }()
	b := s.clone()
	b.it = nil
	b.facts = append(dropLoop(b.facts, id), Lit{more, true})
	a.dropKeys(b, id)
	var pt types.Type
	if len(callee.Params) > 0 {
		pt = callee.Params[0].Type()
	}
	var out []*State
	finish := func(r *State, res *Term) {
		t := r
		t.env = map[ssa.Value]*Term{}
		for k, v := range s.env {
			t.env[k] = v
		}
		t.defers = s.defers
		t.kind = ""
		t.ret = nil
		if val != nil {
			t.env[val] = res
		}
		out = append(out, t)
	}
	found, none := in.Bool(true), in.Bool(false)
	if name == "slices.IndexFunc" {
		found, none = idx, in.Int(-1)
	}
	for _, r := range a.callFn(nf, b, []*Term{in.mk("elem", id, pt, nil, coll)}, cb.A) {
		if r.kind != "return" || len(r.ret) != 1 {
			sum.Exits = append(sum.Exits, a.path(r))
			r.env, r.defers = s.env, s.defers
			r.it = joinItems(a, s, sum, 0, r, f)
			out = append(out, r)
			continue
		}
		c := r.ret[0]
		v, known := evalFacts(r.facts, c)
		if !known || !v {
			p := a.path(r)
			if !known {
				p.Facts = append(p.Facts[:len(p.Facts):len(p.Facts)], mkLit(c, false))
			}
			p.Kind = "next"
			sum.Iters = append(sum.Iters, p)
		}
		if !known || v {
			t := r.clone()
			if !known {
				t.facts = append(t.facts[:len(t.facts):len(t.facts)], mkLit(c, true))
			}
			p := a.path(t)
			p.Kind = "exit"
			sum.Exits = append(sum.Exits, p)
			t.it = joinItems(a, s, sum, 0, t, f)
			finish(t, found)
		}
	}
	e := s.clone()
	e.facts = append(dropLoop(e.facts, id), Lit{more, false})
	sum.Exits = append(sum.Exits, &Path{Facts: e.facts, Mem: e.mem, Kind: "exit"})
	e.it = joinItems(a, s, sum, 0, &State{}, f)
	finish(e, none)
	return out
}

// settled: the map whose keys or values are listed by the call is not changed
// any more where the list can be used.
func settled(site ssa.Instruction, seq *Term) bool {
	call, ok := site.(*ssa.Call)
	if !ok || len(call.Call.Args) != 1 {
		return false
	}
	keys, ok := call.Call.Args[0].(*ssa.Call)
	if !ok || len(keys.Call.Args) != 1 {
		return false
	}
	return unchanged(site, keys.Call.Args[0])
}

// unchanged: the map made here is not changed after the site.
func unchanged(site ssa.Instruction, m ssa.Value) bool {
	for {
		x, ok := m.(*ssa.ChangeType)
		if !ok {
			break
		}
		m = x.X
	}
	if _, ok := m.(*ssa.MakeMap); !ok {
		return false
	}
	for _, u := range *m.Referrers() {
		switch u := u.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.ChangeType, *ssa.DebugRef:
			continue
		case *ssa.Call:
			if b, ok := u.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
			if f := u.Call.StaticCallee(); f != nil && f.Origin() != nil && strings.HasPrefix(f.Origin().String(), "maps.") && f.Origin().Name() != "Copy" && f.Origin().Name() != "DeleteFunc" && f.Origin().Name() != "Insert" {
				continue
			}
		}
		if reachableFrom(site, u.(ssa.Instruction)) {
			return false
		}
	}
	return true
}
