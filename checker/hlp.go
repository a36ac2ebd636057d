package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mname is the bare name of a called function or method.
func mname(n string) string {
	if i := strings.LastIndexByte(n, '.'); i >= 0 {
		return n[i+1:]
	}
	return n
}

// isCall: a call of one of the named functions (full names).
func isCall(e *Event, names ...string) bool {
	if e.Kind != "call" {
		return false
	}
	for _, n := range names {
		if e.Name == n {
			return true
		}
	}
	return false
}

// syncMap reports which shared map an operation works on and the method name.
func syncMap(e *Event) (field, method string) {
	if e.Kind != "call" || !strings.HasPrefix(e.Name, "(*sync.Map).") || len(e.Args) == 0 {
		return "", ""
	}
	return mapField(e.Args[0]), mname(e.Name)
}

func mapField(t *Term) string {
	if t.Op == "fieldaddr" {
		return t.S
	}
	return ""
}

// fieldOf reads a field of a message or struct value given the memory.
func (r *Root) fieldOf(m *Mem, t *Term, name string) *Term {
	if t == nil {
		return nil
	}
	if m != nil {
		if v, ok := m.m[r.A.In.FieldAddr(t, name)]; ok {
			return v
		}
	}
	st := structOf(t.Typ)
	var ft types.Type
	if st != nil {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				ft = st.Field(i).Type()
			}
		}
	}
	if t.Op == "obj" {
		if m != nil {
			if hv, ok := m.m[r.A.In.mk("havoc", "", nil, nil, t)]; ok {
				return r.A.In.Field(hv, name, ft)
			}
		}
		if ft != nil {
			return r.A.In.zero(ft)
		}
	}
	return r.A.In.Field(t, name, ft)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	st, _ := deref(t).Underlying().(*types.Struct)
	return st
}

// exported message fields of a generated type.
func (r *Repo) msgFields(pkg, name string) []*types.Var {
	p := r.pkgTypes(pkg)
	if p == nil {
		return nil
	}
	o := p.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	st, _ := o.Type().Underlying().(*types.Struct)
	if st == nil {
		return nil
	}
	var out []*types.Var
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Exported() {
			out = append(out, st.Field(i))
		}
	}
	return out
}

// typeName of a value ("*open-match.dev/pkg/pb/v2.Ticket").
func typeStr(t types.Type) string {
	if t == nil {
		return ""
	}
	return t.String()
}

const ticketPtr = "*" + pbPath + ".Ticket"

// elemTypeOf gives the element type of a send/recv event's channel.
func evType(e *Event) string { return typeStr(e.Typ) }

// stripConv removes number conversions.
func stripConv(t *Term) *Term {
	for t != nil && (t.Op == "narrow" || t.Op == "conv") {
		t = t.A[0]
	}
	return t
}

// linear splits t into base + constant.
func linear(t *Term) (*Term, int64) {
	t = stripConv(t)
	if t.Op == "bin" && (t.S == "+" || t.S == "-") {
		if c, ok := t.A[1].ConstInt(); ok {
			b, k := linear(t.A[0])
			if t.S == "-" {
				c = -c
			}
			return b, k + c
		}
	}
	return t, 0
}

// outer follows an accumulator of an inner loop to the accumulator of the
// outermost loop it is passed through unchanged.
func (g *Gens) outer(t *Term) *Term {
	for d := 0; d < 8; d++ {
		if t.Op != "phi" && t.Op != "memphi" {
			return t
		}
		_, init, _ := g.step(t)
		if init == nil || (init.Op != "phi" && init.Op != "memphi") {
			return t
		}
		lo, _, next := g.step(init)
		if lo == nil {
			return t
		}
		for _, p := range lo.Iters {
			if n := next(p); n != t && n != init {
				return t
			}
		}
		t = init
	}
	return t
}

// normKey reduces a sync.Map key that was printed to the key itself.
func normKey(t *Term) *Term {
	for {
		switch {
		case t.IsApp("fmt.Sprint") && len(t.A) == 1 && t.A[0].Op == "seq" && len(t.A[0].A) == 1:
			t = t.A[0].A[0]
		case t.IsApp("fmt.Sprintf") && len(t.A) == 2 && t.A[1].Op == "seq" && len(t.A[1].A) == 1:
			if s, ok := t.A[0].ConstStr(); ok && (s == "%v" || s == "%s") {
				t = t.A[1].A[0]
				continue
			}
			return t
		default:
			return t
		}
	}
}

// short rendering for reports.
func tstr(t *Term) string {
	s := t.String()
	if len(s) > 160 {
		s = s[:160] + "…"
	}
	return s
}

// hasFact: some fact about t is known on the path.
func factOf(facts []Lit, t *Term) (bool, bool) { return evalFacts(facts, t) }

// before reports whether event a comes before event b in the path's list.
func indexOf(p *Path, f func(e *Event) bool) int {
	for i, e := range p.Events {
		if f(e) {
			return i
		}
	}
	return -1
}

// findUp looks for an earlier event at any enclosing level (same thread).
func (at *At) earlier(f func(e *Event) bool) *Event {
	for x := at; x != nil; x = x.Up {
		n := x.I
		for i := n - 1; i >= 0; i-- {
			if f(x.Path.Events[i]) {
				return x.Path.Events[i]
			}
		}
		if x.Thread {
			break
		}
	}
	return nil
}

// all events of a path, loops included (iterations of loops, not goroutines).
func eachEvent(p *Path, f func(e *Event, in []IterAt)) {
	var rec func(p *Path, in []IterAt)
	rec = func(p *Path, in []IterAt) {
		for _, e := range p.Events {
			f(e, in)
			if e.Kind == "loop" {
				for _, it := range e.Loop.Iters {
					rec(it, append(in[:len(in):len(in)], IterAt{e.Loop, it}))
				}
			}
		}
	}
	rec(p, nil)
}

// isZeroVal: nil, 0, "" or an empty struct.
func isZeroVal(t *Term) bool {
	return t.Op == "zero" || t.Op == "const" && (t.S == "nil" || t.S == "0" || t.S == `""` || t.S == "false") || t.Op == "seq" && len(t.A) == 0 || t.Op == "empty"
}

func callRes(e *Event, i int, a *Analysis) *Term {
	return a.extract(e.Res, i, nil)
}

var _ = fmt.Sprint
var _ *ssa.Function
