package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"
)

// A Scenario gives values to the unknowns of a function: base terms get
// concrete values of a small abstract domain, loops get a list of the kinds of
// elements they meet. The evaluator then decides which abstract paths are
// possible; anything without a value may go either way.
type Scenario struct {
	// Loop says what the loop meets: every iteration is of one of the kinds;
	// if must is not empty an iteration of that kind occurs. No kinds: the
	// loop has no iterations. ok=false: nothing is known about the loop.
	Loop func(l *LoopSum, inst Inst) (kinds []string, must string, ok bool)
	// Val gives a term its value (bool, int64, float64 or string).
	Val func(t *Term, inst Inst) (any, bool)
}

// Inst tells the kind of element each enclosing loop is at.
type Inst map[string]string

func (i Inst) with(k, v string) Inst {
	n := Inst{}
	for a, b := range i {
		n[a] = b
	}
	n[k] = v
	return n
}

// loopKind is the kind of the element a term of a loop belongs to.
func (i Inst) of(t *Term) string {
	if t == nil {
		return ""
	}
	return i[s2loop(t.S)]
}

func (sc *Scenario) eval(t *Term, inst Inst) (any, bool) {
	if v, ok := sc.Val(t, inst); ok {
		return v, true
	}
	switch t.Op {
	case "const":
		if n, ok := t.ConstInt(); ok {
			return n, true
		}
		if s, ok := t.ConstStr(); ok {
			return s, true
		}
		if b, ok := t.ConstBool(); ok {
			return b, true
		}
		var f float64
		if _, err := fmt.Sscanf(t.S, "%g", &f); err == nil {
			return f, true
		}
		return nil, false
	case "lookup", "lookupok":
		if t.A[0].Op != "load" || t.A[0].A[0].Op != "glob" {
			break
		}
		if table := constMaps[t.A[0].A[0].S]; table != nil {
			v, ok := sc.eval(t.A[1], inst)
			if s, isS := v.(string); ok && isS {
				x, in := table[s]
				if t.Op == "lookupok" {
					return in, true
				}
				return x, in
			}
		}
	case "not":
		if v, ok := sc.eval(t.A[0], inst); ok {
			return !v.(bool), true
		}
	case "eq", "teq":
		if t.A[1].IsNil() {
			if v, ok := sc.eval(t.A[0], inst); ok {
				if x, isE := v.(evalErr); isE {
					return x == errNone, true
				}
			}
		}
		a, ok1 := sc.eval(t.A[0], inst)
		b, ok2 := sc.eval(t.A[1], inst)
		if ok1 && ok2 {
			if x, y, ok := floats(a, b); ok {
				return x == y, true
			}
			return a == b, true
		}
	case "lt", "flt", "tlt", "fle":
		a, ok1 := sc.eval(t.A[0], inst)
		b, ok2 := sc.eval(t.A[1], inst)
		if ok1 && ok2 {
			if x, y, ok := floats(a, b); ok {
				if t.Op == "fle" {
					return x <= y, true
				}
				return x < y, true
			}
			if x, ok := a.(string); ok {
				if y, ok := b.(string); ok {
					return x < y, true
				}
			}
		}
	case "bin":
		a, ok1 := sc.eval(t.A[0], inst)
		b, ok2 := sc.eval(t.A[1], inst)
		if ok1 && ok2 {
			x, isI := a.(int64)
			y, isJ := b.(int64)
			if isI && isJ {
				switch t.S {
				case "+":
					return x + y, true
				case "-":
					return x - y, true
				case "*":
					return x * y, true
				case "/":
					if y != 0 {
						return x / y, true
					}
				case "%":
					if y != 0 {
						return x % y, true
					}
				}
			}
			if x, ok := a.(string); ok && t.S == "+" {
				if y, ok := b.(string); ok {
					return x + y, true
				}
			}
			if f, g, ok := floats(a, b); ok {
				switch t.S {
				case "+":
					return f + g, true
				case "-":
					return f - g, true
				case "*":
					return f * g, true
				case "/":
					return f / g, true
				}
			}
		}
	case "res":
		if v, ok := sc.eval(t.A[0], inst); ok {
			if tup, isT := v.([]any); isT {
				var i int
				fmt.Sscan(t.S, &i)
				if i < len(tup) && tup[i] != nil {
					return tup[i], true
				}
			}
		}
	case "index":
		a, ok1 := sc.eval(t.A[0], inst)
		b, ok2 := sc.eval(t.A[1], inst)
		if ok1 && ok2 {
			i, isI := b.(int64)
			if l, isL := a.([]string); isL && isI && i >= 0 && int(i) < len(l) {
				return l[i], true
			}
		}
	case "slice":
		if v, ok := sc.eval(t.A[0], inst); ok {
			x, isS := v.(string)
			xs, isL := v.([]string)
			lo, hi := int64(0), int64(len(x)+len(xs))
			for i, p := range []*int64{&lo, &hi} {
				if !t.A[i+1].IsNil() {
					n, ok := sc.eval(t.A[i+1], inst)
					k, isI := n.(int64)
					if !ok || !isI {
						return nil, false
					}
					*p = k
				}
			}
			if isS && 0 <= lo && lo <= hi && hi <= int64(len(x)) {
				return x[lo:hi], true
			}
			if isL && 0 <= lo && lo <= hi && hi <= int64(len(xs)) {
				return xs[lo:hi], true
			}
		}
	case "len":
		if v, ok := sc.eval(t.A[0], inst); ok {
			switch x := v.(type) {
			case string:
				return int64(len(x)), true
			case []string:
				return int64(len(x)), true
			}
		}
	case "conv", "narrow":
		if v, ok := sc.eval(t.A[0], inst); ok {
			return convVal(t, v)
		}
	case "app":
		if v, ok := sc.timeApp(t, inst); ok {
			return v, true
		}
		if v, ok := sc.strApp(t, inst); ok {
			return v, true
		}
		switch {
		case t.S == "(time.Time).Compare" || t.S == "cmp.Compare" || t.S == "strings.Compare":
			a, ok1 := sc.eval(t.A[0], inst)
			b, ok2 := sc.eval(t.A[1], inst)
			if ok1 && ok2 {
				if x, y, ok := floats(a, b); ok {
					switch {
					case x < y:
						return int64(-1), true
					case x > y:
						return int64(1), true
					case x == y:
						return int64(0), true
					}
				}
			}
		case (t.S == "min" || t.S == "max") && len(t.A) == 2:
			a, ok1 := sc.eval(t.A[0], inst)
			b, ok2 := sc.eval(t.A[1], inst)
			if ok1 && ok2 {
				if x, y, ok := floats(a, b); ok {
					if (x < y) == (t.S == "min") {
						return a, true
					}
					return b, true
				}
			}
		case t.S == "math.IsNaN":
			if a, ok := sc.eval(t.A[0], inst); ok {
				if x, _, ok := floats(a, 0.0); ok {
					return x != x, true
				}
			}
		}
	}
	return nil, false
}

func floats(a, b any) (float64, float64, bool) {
	f := func(x any) (float64, bool) {
		switch v := x.(type) {
		case float64:
			return v, true
		case int64:
			return float64(v), true
		case int:
			return float64(v), true
		}
		return 0, false
	}
	x, ok1 := f(a)
	y, ok2 := f(b)
	return x, y, ok1 && ok2
}

// consistent: the facts do not contradict the scenario.
func (sc *Scenario) consistent(facts []Lit, inst Inst) bool {
	for _, l := range facts {
		if v, ok := sc.eval(l.T, inst); ok {
			if b, isB := v.(bool); isB && b != l.Val {
				return false
			}
		}
	}
	return true
}

// possible reports the instances under which a path can be taken.
func (sc *Scenario) possible(p *Path, inst Inst) []Inst {
	cur := []Inst{inst}
	for _, e := range p.Events {
		if e.Kind != "loop" {
			continue
		}
		var n []Inst
		for _, i := range cur {
			n = append(n, sc.loopExit(e, p, i)...)
		}
		cur = n
	}
	var out []Inst
	for _, i := range cur {
		if sc.consistent(p.Facts, i) {
			out = append(out, i)
		}
	}
	return out
}

func hasLit(facts []Lit, t *Term, v bool) bool {
	for _, l := range facts {
		if l.T == t && l.Val == v {
			return true
		}
	}
	return false
}

const done = "\x00done"

// loopExit lists the ways path p can leave the loop.
func (sc *Scenario) loopExit(e *Event, p *Path, inst Inst) []Inst {
	l := e.Loop
	kinds, must, ok := sc.Loop(l, inst)
	if !ok {
		return []Inst{inst}
	}
	mayEnd, mayBreak := true, true
	if l.Cond != nil {
		if hasLit(p.Facts, l.Cond, l.Stay) {
			mayEnd = false
		}
		if hasLit(p.Facts, l.Cond, !l.Stay) {
			mayBreak = false
		}
	}
	// reachable (valuation, must seen)
	type node struct {
		v    int
		seen bool
	}
	reach := map[node]bool{{0, must == ""}: true}
	work := []node{{0, must == ""}}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		for _, k := range kinds {
			for _, it := range l.Iters {
				if it.From != n.v && len(l.Vals) > 1 {
					continue
				}
				if it.Stop {
					continue
				}
				if len(sc.possible(it, inst.with(l.ID, k))) == 0 {
					continue
				}
				m := node{it.To, n.seen || k == must}
				if len(l.Vals) <= 1 {
					m.v = 0
				}
				if !reach[m] {
					reach[m] = true
					work = append(work, m)
				}
			}
		}
	}
	ev := e.ExitV
	if len(l.Vals) <= 1 {
		ev = 0
	}
	var out []Inst
	if mayEnd && reach[node{ev, true}] {
		out = append(out, inst.with(l.ID, done))
	}
	if mayBreak && (reach[node{ev, true}] || reach[node{ev, false}]) {
		for _, k := range kinds {
			out = append(out, inst.with(l.ID, k))
		}
	}
	return out
}

// results lists the values the function can return in the scenario, with one
// path for each.
func (sc *Scenario) results(ps []*Path, ri int) map[string]*Path {
	out := map[string]*Path{}
	for _, p := range ps {
		for _, i := range sc.possible(p, Inst{}) {
			if p.Kind != "return" {
				out[p.Kind] = p
				continue
			}
			if ri >= len(p.Ret) {
				continue
			}
			v, ok := sc.eval(p.Ret[ri], i)
			s := "unknown"
			if ok {
				s = fmt.Sprint(v)
			} else if nonNil(p.Ret[ri]) {
				s = "non-nil"
			} else if p.Ret[ri].IsNil() {
				s = "nil"
			}
			if out[s] == nil {
				out[s] = p
			}
		}
	}
	return out
}

func resStr(m map[string]*Path) string { return strings.Join(sortedKeys(m), " or ") }

func convVal(t *Term, v any) (any, bool) {
	b, ok := t.Typ.Underlying().(*types.Basic)
	if !ok {
		return v, true
	}
	switch x := v.(type) {
	case int64:
		switch {
		case b.Info()&types.IsFloat != 0:
			return float64(x), true
		case b.Kind() == types.Int32:
			return int64(int32(x)), true
		case b.Kind() == types.Uint32:
			return int64(uint32(x)), true
		}
	case float64:
		if b.Info()&types.IsInteger != 0 {
			return int64(x), true
		}
	}
	return v, true
}

// timeApp evaluates times (nanoseconds since 1970) and durations
// (nanoseconds).
func (sc *Scenario) timeApp(t *Term, inst Inst) (any, bool) {
	n := t.S
	if !strings.HasPrefix(n, "(time.") && !strings.HasPrefix(n, "time.") && !strings.Contains(n, "timestamppb.") && !strings.Contains(n, "durationpb.") {
		return nil, false
	}
	arg := func(i int) (int64, bool) {
		if i >= len(t.A) {
			return 0, false
		}
		v, ok := sc.eval(t.A[i], inst)
		if !ok {
			return 0, false
		}
		x, ok := v.(int64)
		return x, ok
	}
	a, ok := arg(0)
	if !ok {
		return nil, false
	}
	b, okb := arg(1)
	m := mname(n)
	if strings.HasPrefix(n, "(time.Time).") {
		switch m {
		case "UTC", "Local", "In", "Round", "Truncate":
			if (m == "Round" || m == "Truncate") && !(okb && b <= 0) {
				if !okb {
					return nil, false
				}
				if m == "Truncate" {
					return a - a%b, true
				}
				return (a + b/2) - (a+b/2)%b, true
			}
			return a, true
		case "Unix":
			return floorDiv(a, 1e9), true
		case "UnixMilli":
			return floorDiv(a, 1e6), true
		case "UnixMicro":
			return floorDiv(a, 1e3), true
		case "UnixNano":
			return a, true
		case "Nanosecond":
			return a - floorDiv(a, 1e9)*1e9, true
		case "IsZero":
			return false, true
		}
		if !okb {
			return nil, false
		}
		switch m {
		case "Add":
			return a + b, true
		case "Sub":
			return a - b, true
		case "Before":
			return a < b, true
		case "After":
			return a > b, true
		case "Equal":
			return a == b, true
		}
		return nil, false
	}
	if strings.HasPrefix(n, "(time.Duration).") {
		switch m {
		case "Nanoseconds":
			return a, true
		case "Microseconds":
			return a / 1e3, true
		case "Milliseconds":
			return a / 1e6, true
		case "Seconds":
			return float64(a) / 1e9, true
		case "Minutes":
			return float64(a) / 6e10, true
		}
		return nil, false
	}
	switch {
	case n == "time.Unix" && okb:
		return a*1e9 + b, true
	case n == "time.UnixMilli":
		return a * 1e6, true
	case n == "time.UnixMicro":
		return a * 1e3, true
	case m == "AsTime" || m == "New" || m == "AsDuration":
		return a, true
	}
	return nil, false
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

// strApp evaluates functions that take strings apart. Results of several
// values are lists; an error that cannot occur is nil.
func (sc *Scenario) strApp(t *Term, inst Inst) (any, bool) {
	if !strings.HasPrefix(t.S, "strings.") && !strings.HasPrefix(t.S, "strconv.") && t.S != "fmt.Sprint" && t.S != "fmt.Sprintf" && t.S != "net.JoinHostPort" {
		return nil, false
	}
	str := func(i int) (string, bool) {
		if i >= len(t.A) {
			return "", false
		}
		v, ok := sc.eval(t.A[i], inst)
		if !ok {
			return "", false
		}
		s, ok := v.(string)
		return s, ok
	}
	a, ok := str(0)
	b, okb := str(1)
	switch t.S {
	case "strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi":
		if !ok {
			return nil, false
		}
		base := 10
		if len(t.A) > 1 {
			b, ok := t.A[1].ConstInt()
			if !ok {
				return nil, false
			}
			base = int(b)
		}
		if base != 0 && (base < 2 || base > 36) {
			return []any{int64(0), errSome}, true
		}
		bits := 64
		if len(t.A) > 2 {
			b, ok := t.A[2].ConstInt()
			if !ok || b < 0 || b > 64 {
				return nil, false
			}
			bits = int(b)
		}
		if n, err := strconv.ParseInt(a, base, bits); err == nil {
			return []any{n, errNone}, true
		}
		return []any{int64(0), errSome}, true
	case "strconv.FormatInt", "strconv.Itoa":
		if v, ok := sc.eval(t.A[0], inst); ok {
			n, isI := v.(int64)
			if len(t.A) == 1 || !isI {
				return fmt.Sprint(v), true
			}
			if b, ok := t.A[1].ConstInt(); ok && b >= 2 && b <= 36 {
				return strconv.FormatInt(n, int(b)), true
			}
		}
	case "fmt.Sprintf":
		if !ok || len(t.A) != 2 || t.A[1].Op != "seq" {
			return nil, false
		}
		var vs []any
		for _, x := range t.A[1].A {
			v, ok := sc.eval(x, inst)
			if !ok {
				return nil, false
			}
			vs = append(vs, v)
		}
		return fmt.Sprintf(a, vs...), true
	case "fmt.Sprint":
		if len(t.A) == 1 && t.A[0].Op == "seq" {
			var vs []any
			good := true
			for _, x := range t.A[0].A {
				v, ok := sc.eval(x, inst)
				switch v.(type) {
				case int64, string, bool:
				default:
					ok = false
				}
				good = good && ok
				vs = append(vs, v)
			}
			if good {
				return fmt.Sprint(vs...), true
			}
		}
		if n := normKey(t); n != t {
			return sc.eval(n, inst)
		}
	}
	if ok && len(t.A) == 1 {
		switch t.S {
		case "strings.ToLower":
			return strings.ToLower(a), true
		case "strings.ToUpper":
			return strings.ToUpper(a), true
		case "strings.TrimSpace":
			return strings.TrimSpace(a), true
		}
	}
	if !ok || !okb {
		return nil, false
	}
	switch t.S {
	case "strings.EqualFold":
		return strings.EqualFold(a, b), true
	case "net.JoinHostPort":
		return a + ":" + b, true
	case "strings.Split":
		return strings.Split(a, b), true
	case "strings.SplitN":
		if v, ok := sc.eval(t.A[2], inst); ok {
			if n, ok := v.(int64); ok {
				return strings.SplitN(a, b, int(n)), true
			}
		}
	case "strings.Cut":
		x, y, z := strings.Cut(a, b)
		return []any{x, y, z}, true
	case "strings.Index", "strings.IndexByte", "strings.IndexRune":
		return int64(strings.Index(a, b)), true
	case "strings.LastIndex":
		return int64(strings.LastIndex(a, b)), true
	case "strings.Contains":
		return strings.Contains(a, b), true
	case "strings.TrimSuffix":
		return strings.TrimSuffix(a, b), true
	case "strings.TrimPrefix":
		return strings.TrimPrefix(a, b), true
	}
	return nil, false
}

// errors of evaluated functions
type evalErr string

const errNone, errSome = evalErr("none"), evalErr("some")
