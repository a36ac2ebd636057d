package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Term is an abstract value: where a value comes from. Terms are hash-consed,
// so two terms are the same value description iff the pointers are equal.
type Term struct {
	ID   int
	Op   string
	S    string  // name, constant text or key
	A    []*Term // operands
	Typ  types.Type
	Aux  any
	key  string
	loop map[string]bool // ids of the loops this term depends on
}

// Interner owns all terms of one analysis.
type Interner struct {
	m map[string]*Term
	n int
}

func NewInterner() *Interner { return &Interner{m: map[string]*Term{}} }

func (in *Interner) mk(op, s string, typ types.Type, aux any, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('\x00')
	b.WriteString(s)
	for _, a := range args {
		b.WriteByte('\x01')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := in.m[k]; ok {
		return t
	}
	in.n++
	t := &Term{ID: in.n, Op: op, S: s, A: append([]*Term(nil), args...), Typ: typ, Aux: aux, key: k}
	switch op {
	case "idx", "elem", "key", "phi", "memphi", "lrecv":
		if op != "lrecv" {
			t.loop = map[string]bool{s2loop(s): true}
		}
	}
	for _, a := range args {
		for l := range a.loop {
			if t.loop == nil {
				t.loop = map[string]bool{}
			}
			t.loop[l] = true
		}
	}
	in.m[k] = t
	return t
}

// the S of loop terms is "<loopid>" or "<loopid>#rest"
func s2loop(s string) string {
	if i := strings.IndexByte(s, '#'); i >= 0 {
		return s[:i]
	}
	return s
}

// Mentions reports whether t depends on the current iteration of loop id.
func (t *Term) Mentions(id string) bool { return t != nil && t.loop[id] }

// Contains reports whether sub occurs in t.
func (t *Term) Contains(sub *Term) bool {
	if t == nil {
		return false
	}
	if t == sub {
		return true
	}
	for _, a := range t.A {
		if a.Contains(sub) {
			return true
		}
	}
	return false
}

// Any reports whether some subterm satisfies f.
func (t *Term) Any(f func(*Term) bool) bool {
	if t == nil {
		return false
	}
	if f(t) {
		return true
	}
	for _, a := range t.A {
		if a.Any(f) {
			return true
		}
	}
	return false
}

func (t *Term) Is(op string) bool { return t != nil && t.Op == op }

// IsApp reports whether t is the application of the named library function.
func (t *Term) IsApp(names ...string) bool {
	if t == nil || t.Op != "app" {
		return false
	}
	for _, n := range names {
		if t.S == n {
			return true
		}
	}
	return false
}

func (t *Term) IsNil() bool { return t != nil && t.Op == "const" && t.S == "nil" }

func (t *Term) ConstInt() (int64, bool) {
	if t == nil || t.Op != "const" {
		return 0, false
	}
	v, err := strconv.ParseInt(t.S, 10, 64)
	return v, err == nil
}

func (t *Term) ConstStr() (string, bool) {
	if t == nil || t.Op != "const" || len(t.S) < 1 || t.S[0] != '"' {
		return "", false
	}
	s, err := strconv.Unquote(t.S)
	return s, err == nil
}

func (t *Term) ConstBool() (bool, bool) {
	if t == nil || t.Op != "const" {
		return false, false
	}
	switch t.S {
	case "true":
		return true, true
	case "false":
		return false, true
	}
	return false, false
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(0) }

func (t *Term) str(d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 9 {
		return "…"
	}
	args := func() string {
		var s []string
		for _, a := range t.A {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.Op {
	case "const":
		return t.S
	case "param":
		return t.S
	case "glob":
		return "&" + t.S
	case "field":
		return t.A[0].str(d+1) + "." + t.S
	case "fieldaddr":
		return "&" + t.A[0].str(d+1) + "." + t.S
	case "load":
		return "*" + t.A[0].str(d+1)
	case "idx":
		return "i@" + short(t.S)
	case "elem":
		return "elem@" + short(t.S) + "(" + args() + ")"
	case "key":
		return "key@" + short(t.S) + "(" + args() + ")"
	case "phi", "memphi":
		return t.Op + "@" + short(t.S)
	case "bin":
		return "(" + t.A[0].str(d+1) + " " + t.S + " " + t.A[1].str(d+1) + ")"
	case "conf":
		return "cfg[" + t.S + "]"
	case "app":
		return shortName(t.S) + "(" + args() + ")"
	case "obj", "mkmap", "mkslice", "mkchan", "call", "recv":
		return t.Op + "@" + short(t.S)
	}
	s := t.Op
	if t.S != "" {
		s += ":" + short(t.S)
	}
	if len(t.A) > 0 {
		s += "(" + args() + ")"
	}
	return s
}

func short(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}

func shortName(s string) string {
	i := strings.LastIndexByte(s, '/')
	if i < 0 {
		return s
	}
	p := ""
	if strings.HasPrefix(s, "(*") {
		p = "(*"
	} else if strings.HasPrefix(s, "(") {
		p = "("
	}
	return p + s[i+1:]
}

// ---- construction with simplification ----

func (in *Interner) Int(n int64) *Term {
	return in.mk("const", strconv.FormatInt(n, 10), types.Typ[types.Int], nil)
}
func (in *Interner) Bool(b bool) *Term {
	return in.mk("const", strconv.FormatBool(b), types.Typ[types.Bool], nil)
}
func (in *Interner) Str(s string) *Term {
	return in.mk("const", strconv.Quote(s), types.Typ[types.String], nil)
}
func (in *Interner) Nil() *Term { return in.mk("const", "nil", nil, nil) }

func (in *Interner) Const(c *ssa.Const) *Term {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return in.mk("zero", c.Type().String(), c.Type(), nil)
		case *types.Basic:
			return in.zero(c.Type())
		}
		if _, ok := c.Type().(*types.TypeParam); ok {
			return in.mk("zero", c.Type().String(), c.Type(), nil)
		}
		return in.Nil()
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return in.Bool(constant.BoolVal(c.Value))
	case constant.String:
		return in.Str(constant.StringVal(c.Value))
	case constant.Int:
		return in.mk("const", c.Value.ExactString(), types.Typ[types.Int], nil)
	default:
		return in.mk("const", c.Value.ExactString(), c.Type(), nil)
	}
}

func (in *Interner) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return in.Bool(false)
		case u.Info()&types.IsString != 0:
			return in.Str("")
		case u.Info()&types.IsNumeric != 0:
			return in.Int(0)
		}
		return in.Nil()
	case *types.Struct, *types.Array:
		return in.mk("zero", t.String(), t, nil)
	}
	return in.Nil()
}

func (in *Interner) Not(t *Term) *Term {
	if b, ok := t.ConstBool(); ok {
		return in.Bool(!b)
	}
	if t.Op == "not" {
		return t.A[0]
	}
	return in.mk("not", "", types.Typ[types.Bool], nil, t)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func nonNil(t *Term) bool {
	switch t.Op {
	case "obj", "mkmap", "mkslice", "mkchan", "closure", "fn", "struct", "glob", "fieldaddr", "indexaddr", "sliceof", "msg":
		return true
	case "seq":
		return len(t.A) > 0 || t.S != "nil"
	case "append":
		return len(t.A) > 1
	case "const":
		return t.S != "nil"
	case "app":
		switch t.S {
		case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf",
			"google.golang.org/grpc/status.Error", "google.golang.org/grpc/status.Errorf",
			"google.golang.org/protobuf/types/known/timestamppb.New", "google.golang.org/protobuf/types/known/timestamppb.Now",
			"fmt.Sprintf", "fmt.Sprint":
			return true
		}
	case "load":
		// error variables of the standard library
		if g := t.A[0]; g.Op == "glob" && (g.S == "io.EOF" || strings.HasPrefix(g.S, "context.")) {
			return true
		}
	}
	return false
}

// Eq builds an equality test.
func (in *Interner) Eq(a, b *Term) *Term {
	if a == b && !(a.Typ != nil && isFloat(a.Typ)) {
		return in.Bool(true)
	}
	if a.Op == "const" && b.Op == "const" {
		return in.Bool(a.S == b.S)
	}
	if a.IsNil() && nonNil(b) || b.IsNil() && nonNil(a) {
		return in.Bool(false)
	}
	if b.Op == "clone" && a.IsNil() {
		a, b = b, a
	}
	if a.Op == "clone" && b.IsNil() {
		return in.Eq(a.A[0], b)
	}
	// comparison with a boolean constant
	if v, ok := a.ConstBool(); ok {
		a, b = b, a
		_ = v
	}
	if v, ok := b.ConstBool(); ok {
		if v {
			return a
		}
		return in.Not(a)
	}
	if a.Op == "const" || (b.Op != "const" && a.ID > b.ID) {
		a, b = b, a
	}
	if c, ok := b.ConstInt(); ok {
		if n, ok := atLeast(a); ok && c < n {
			return in.Bool(false)
		}
	}
	// "" and length 0 of a string
	return in.mk("eq", "", types.Typ[types.Bool], nil, a, b)
}

// Lt builds a < b on integers, strings and the like.
func (in *Interner) Lt(a, b *Term) *Term {
	if x, ok := a.ConstInt(); ok {
		if y, ok := b.ConstInt(); ok {
			return in.Bool(x < y)
		}
	}
	if a == b {
		return in.Bool(false)
	}
	if a.Op == "idx" {
		if c, ok := b.ConstInt(); ok && c <= 0 {
			return in.Bool(false)
		}
	}
	if b.Op == "idx" {
		if c, ok := a.ConstInt(); ok && c < 0 {
			return in.Bool(true)
		}
	}
	// lengths are never negative: normalise tests against 0 and 1
	if isLen(b) {
		if c, ok := a.ConstInt(); ok {
			if c < 0 {
				return in.Bool(true)
			}
			if c == 0 {
				return in.Not(in.Eq(b, in.Int(0)))
			}
		}
	}
	if isLen(a) {
		if c, ok := b.ConstInt(); ok {
			if c <= 0 {
				return in.Bool(false)
			}
			if c == 1 {
				return in.Eq(a, in.Int(0))
			}
		}
	}
	if c, ok := a.ConstInt(); ok {
		if n, ok := atLeast(b); ok && c < n {
			return in.Bool(true)
		}
	}
	if c, ok := b.ConstInt(); ok {
		if n, ok := atLeast(a); ok && n >= c {
			return in.Bool(false)
		}
	}
	return in.mk("lt", "", types.Typ[types.Bool], nil, a, b)
}

// atLeast is a lower bound of lengths, positions and sums of them.
func atLeast(t *Term) (int64, bool) {
	switch {
	case t.Op == "len" || t.Op == "idx":
		return 0, true
	case t.Op == "bin" && t.S == "+" && len(t.A) == 2:
		x, ok1 := atLeast(t.A[0])
		y, ok2 := atLeast(t.A[1])
		return x + y, ok1 && ok2 && x < 1<<30 && y < 1<<30
	}
	if n, ok := t.ConstInt(); ok && n >= 0 {
		return n, true
	}
	return 0, false
}

func isLen(t *Term) bool { return t.Op == "len" }

func (in *Interner) Bin(op token.Token, a, b *Term, xt types.Type) *Term {
	fl := isFloat(xt)
	switch op {
	case token.EQL:
		if isTimeStruct(xt) {
			return in.mk("teq", "==", types.Typ[types.Bool], nil, a, b)
		}
		return in.Eq(a, b)
	case token.NEQ:
		if isTimeStruct(xt) {
			return in.Not(in.mk("teq", "==", types.Typ[types.Bool], nil, a, b))
		}
		return in.Not(in.Eq(a, b))
	case token.LSS:
		if fl {
			return in.mk("flt", "", types.Typ[types.Bool], nil, a, b)
		}
		return in.Lt(a, b)
	case token.GTR:
		if fl {
			return in.mk("flt", "", types.Typ[types.Bool], nil, b, a)
		}
		return in.Lt(b, a)
	case token.LEQ:
		if fl {
			return in.mk("fle", "", types.Typ[types.Bool], nil, a, b)
		}
		return in.Not(in.Lt(b, a))
	case token.GEQ:
		if fl {
			return in.mk("fle", "", types.Typ[types.Bool], nil, b, a)
		}
		return in.Not(in.Lt(a, b))
	}
	x, ok1 := a.ConstInt()
	y, ok2 := b.ConstInt()
	if ok1 && ok2 && !fl {
		switch op {
		case token.ADD:
			return in.Int(x + y)
		case token.SUB:
			return in.Int(x - y)
		case token.MUL:
			return in.Int(x * y)
		case token.QUO:
			if y != 0 {
				return in.Int(x / y)
			}
		case token.REM:
			if y != 0 {
				return in.Int(x % y)
			}
		}
	}
	if op == token.ADD {
		if x, ok := a.ConstStr(); ok {
			if y, ok := b.ConstStr(); ok {
				return in.Str(x + y)
			}
		}
	}
	switch op {
	case token.ADD, token.SUB:
		if ok2 && y == 0 && !fl {
			return a
		}
		if op == token.ADD && ok1 && x == 0 && !fl {
			return b
		}
		// (t + c1) ± c2
		if ok2 && a.Op == "bin" && (a.S == "+" || a.S == "-") {
			if c, ok := a.A[1].ConstInt(); ok {
				if a.S == "-" {
					c = -c
				}
				if op == token.SUB {
					y = -y
				}
				s := c + y
				if s == 0 {
					return a.A[0]
				}
				if s > 0 {
					return in.mk("bin", "+", xt, nil, a.A[0], in.Int(s))
				}
				return in.mk("bin", "-", xt, nil, a.A[0], in.Int(-s))
			}
		}
	}
	if op == token.MUL {
		if ok1 && x == 1 {
			return b
		}
		if ok2 && y == 1 {
			return a
		}
	}
	isStr := false
	if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		isStr = true
	}
	if (op == token.ADD && !isStr) || op == token.MUL {
		// commutative: constants last, otherwise by id
		if ok1 || (!ok2 && a.ID > b.ID) {
			a, b = b, a
		}
	}
	return in.mk("bin", op.String(), xt, nil, a, b)
}

func isTimeStruct(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func (in *Interner) Len(t *Term) *Term {
	switch t.Op {
	case "seq":
		return in.Int(int64(len(t.A)))
	case "empty":
		return in.Int(0)
	case "mkslice":
		return t.A[0]
	case "const":
		if t.S == "nil" {
			return in.Int(0)
		}
		if s, ok := t.ConstStr(); ok {
			return in.Int(int64(len(s)))
		}
	case "append":
		n := 0
		for _, e := range t.A[1:] {
			if e.Op == "spread" {
				return in.mk("len", "", types.Typ[types.Int], nil, t)
			}
			n++
		}
		return in.Bin(token.ADD, in.Len(t.A[0]), in.Int(int64(n)), types.Typ[types.Int])
	case "sliceof":
		if a, ok := t.Typ.Underlying().(*types.Array); ok {
			return in.Int(a.Len())
		}
	}
	return in.mk("len", "", types.Typ[types.Int], nil, t)
}

func (in *Interner) Field(t *Term, name string, typ types.Type) *Term {
	switch t.Op {
	case "struct", "msg":
		for i, f := range t.Aux.([]string) {
			if f == name {
				return t.A[i]
			}
		}
	case "zero":
		if typ != nil {
			return in.zero(typ)
		}
	case "const":
		if t.S == "nil" && typ != nil {
			return in.zero(typ)
		}
	case "clone":
		f := in.Field(t.A[0], name, typ)
		if f.Op != "const" && f.Op != "zero" && typ != nil && isMessage(typ) {
			if _, ptr := typ.Underlying().(*types.Pointer); ptr {
				return in.mk("clone", t.S+"."+name, typ, nil, f)
			}
		}
		return f
	case "load":
		// field of a struct loaded from memory
		return in.mk("load", "", typ, nil, in.FieldAddr(t.A[0], name))
	}
	return in.mk("field", name, typ, nil, t)
}

func (in *Interner) FieldAddr(t *Term, name string) *Term {
	return in.mk("fieldaddr", name, nil, nil, t)
}

func (in *Interner) Append(base *Term, elems []*Term) *Term {
	if len(elems) == 0 {
		return base
	}
	if base.IsNil() {
		return in.mk("seq", "", nil, nil, elems...)
	}
	if base.Op == "seq" {
		return in.mk("seq", base.S, nil, nil, append(append([]*Term{}, base.A...), elems...)...)
	}
	if base.Op == "mkslice" {
		if n, ok := base.A[0].ConstInt(); ok && n == 0 {
			return in.mk("seq", base.S, nil, base.Aux, elems...)
		}
	}
	if base.Op == "append" {
		return in.mk("append", "", nil, nil, append(append([]*Term{}, base.A...), elems...)...)
	}
	return in.mk("append", "", nil, nil, append([]*Term{base}, elems...)...)
}

// Lit is a branch fact.
type Lit struct {
	T   *Term
	Val bool
}

func (l Lit) String() string {
	if l.Val {
		return l.T.String()
	}
	return "!" + l.T.String()
}

// mkLit strips negations.
func mkLit(t *Term, v bool) Lit {
	for t.Op == "not" {
		t = t.A[0]
		v = !v
	}
	return Lit{t, v}
}

// evalFacts decides a condition from constants and earlier branch facts.
func evalFacts(facts []Lit, t *Term) (val, known bool) {
	neg := false
	for t.Op == "not" {
		t = t.A[0]
		neg = !neg
	}
	if b, ok := t.ConstBool(); ok {
		return b != neg, true
	}
	for _, f := range facts {
		if f.T == t {
			return f.Val != neg, true
		}
	}
	if t.Op == "eq" {
		x, c := t.A[0], t.A[1]
		for _, f := range facts {
			if f.T.Op == "eq" && f.Val && c.Op == "const" {
				o := other(f.T, x)
				if o != nil && o != c && (o.Op == "const" || nonNil(o) && c.IsNil()) {
					return neg, true
				}
			}
			if f.T.Op == "app" && f.T.S == "errors.Is" && f.Val && c.IsNil() && f.T.A[0] == x {
				return neg, true
			}
			if f.T.Op == "assertok" && f.Val && c.IsNil() && f.T.A[0] == x {
				return neg, true
			}
			// len(x) != 0 implies x != nil
			if f.T.Op == "eq" && !f.Val && c.IsNil() && f.T.A[0].Op == "len" && f.T.A[0].A[0] == x && f.T.A[1].S == "0" {
				return neg, true
			}
			// x == nil implies len(x) == 0
			if x.Op == "len" && f.T.Op == "eq" && f.Val && c.S == "0" {
				if o := other(f.T, x.A[0]); o != nil && o.IsNil() {
					return !neg, true
				}
			}
		}
	}
	if t.Op == "app" && (t.S == "errors.Is" || t.S == "github.com/pkg/errors.Is") {
		for _, f := range facts {
			if f.T.Op == "eq" && f.Val {
				if o := other(f.T, t.A[0]); o != nil && o.IsNil() {
					return neg, true
				}
			}
		}
	}
	if t.Op == "lt" {
		a, b := t.A[0], t.A[1]
		for _, f := range facts {
			if f.T.Op == "lt" && f.Val && f.T.A[0] == b && f.T.A[1] == a {
				return neg, true
			}
			if f.T.Op == "eq" && f.Val && (f.T.A[0] == a && f.T.A[1] == b || f.T.A[0] == b && f.T.A[1] == a) {
				return neg, true
			}
		}
	}
	return false, false
}

func other(eq *Term, x *Term) *Term {
	if eq.A[0] == x {
		return eq.A[1]
	}
	if eq.A[1] == x {
		return eq.A[0]
	}
	return nil
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = fmt.Sprint
