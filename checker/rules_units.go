package main

import (
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("units", "C23", "dimension analysis: every number that counts time (settings named in seconds or milliseconds, Unix times, lifetimes, the time in a ticket id) has a scale that constant factors change; durations, timers, comparisons, sums and storage commands are given the scale they take", ruleUnits)
}

// units knows how many of a term's units make a second.
type units struct {
	c    *Ctx
	root *Root
	memo map[*Term]*big.Rat
	busy map[*Term]bool
	n    int
}

func rat(n int64) *big.Rat { return big.NewRat(n, 1) }

var (
	perSec   = rat(1)
	perMilli = rat(1000)
	perMicro = rat(1000000)
	perNano  = rat(1000000000)
)

func unitName(r *big.Rat) string {
	switch {
	case r.Cmp(perSec) == 0:
		return "seconds"
	case r.Cmp(perMilli) == 0:
		return "milliseconds"
	case r.Cmp(perMicro) == 0:
		return "microseconds"
	case r.Cmp(perNano) == 0:
		return "nanoseconds"
	}
	return r.RatString() + " to the second"
}

// unitOf is the scale of a setting.
func unitOf(key string) *big.Rat {
	switch {
	case strings.HasSuffix(key, "_SECS"), strings.HasSuffix(key, "_SECONDS"), strings.HasSuffix(key, "_SEC"):
		return perSec
	case strings.HasSuffix(key, "_MS"), strings.HasSuffix(key, "_MILLIS"), strings.HasSuffix(key, "_MSECS"):
		return perMilli
	case strings.HasSuffix(key, "_US"):
		return perMicro
	case strings.HasSuffix(key, "_NS"):
		return perNano
	}
	return nil
}

func (u *units) scale(t *Term) *big.Rat {
	if t == nil {
		return nil
	}
	if r, ok := u.memo[t]; ok {
		return r
	}
	if u.busy[t] {
		return nil
	}
	u.busy[t] = true
	r := u.find(stripConv(t))
	delete(u.busy, t)
	u.memo[t] = r
	return r
}

func (u *units) find(t *Term) *big.Rat {
	switch t.Op {
	case "conf":
		return unitOf(t.S)
	case "bin":
		a, b := t.A[0], t.A[1]
		sa, sb := u.scale(a), u.scale(b)
		switch t.S {
		case "*":
			if n, ok := stripConv(b).ConstInt(); ok && sa != nil && n != 0 {
				return new(big.Rat).Mul(sa, rat(n))
			}
			if n, ok := stripConv(a).ConstInt(); ok && sb != nil && n != 0 {
				return new(big.Rat).Mul(sb, rat(n))
			}
		case "/":
			if n, ok := stripConv(b).ConstInt(); ok && sa != nil && n != 0 {
				return new(big.Rat).Quo(sa, rat(n))
			}
		case "+", "-", "%":
			if sa != nil {
				return sa
			}
			return sb
		}
	case "app":
		switch t.S {
		case "(time.Time).Unix":
			return perSec
		case "(time.Time).UnixMilli":
			return perMilli
		case "(time.Time).UnixMicro":
			return perMicro
		case "(time.Time).UnixNano", "(time.Time).Sub":
			return perNano
		case "(time.Duration).Milliseconds":
			return perMilli
		case "(time.Duration).Microseconds":
			return perMicro
		case "(time.Duration).Nanoseconds":
			return perNano
		case "(time.Duration).Seconds":
			return perSec
		case "(time.Duration).Round", "(time.Duration).Truncate", "(time.Duration).Abs":
			return perNano
		case "strconv.FormatInt", "strconv.Itoa", "strconv.FormatUint", "fmt.Sprint":
			return u.scale(t.A[0])
		case "min", "max":
			for _, x := range t.A {
				if s := u.scale(x); s != nil {
					return s
				}
			}
		}
	case "res":
		// the time at the start of a ticket id
		if x := t.A[0]; t.S == "0" && x.IsApp("strconv.ParseInt", "strconv.ParseUint", "strconv.Atoi") && idTime(x.A[0]) {
			return perMilli
		}
	}
	return nil
}

// idTime: the part of a text in front of its dash.
func idTime(t *Term) bool {
	t = stripConv(t)
	dash := func(x *Term) bool {
		s, ok := x.ConstStr()
		return ok && s == "-"
	}
	switch {
	case t.Op == "index" && isZeroInt(t.A[1]):
		x := stripConv(t.A[0])
		return x.IsApp("strings.Split", "strings.SplitN") && dash(x.A[1])
	case t.Op == "res" && t.S == "0":
		return t.A[0].IsApp("strings.Cut") && dash(t.A[0].A[1])
	}
	return false
}

// want checks that a term has the scale it is used with.
func (u *units) want(t *Term, r *big.Rat, where, what string) {
	s := u.scale(t)
	if s == nil {
		return
	}
	u.n++
	u.c.Ob("C23", s.Cmp(r) == 0, where, what+" is in "+unitName(r), "it is in "+unitName(s)+": "+tstr(t))
}

// alike checks that what is compared, added or subtracted has one unit.
func (u *units) alike(a, b *Term, where, what string) {
	x, y := u.scale(a), u.scale(b)
	if x == nil || y == nil {
		return
	}
	u.n++
	u.c.Ob("C23", x.Cmp(y) == 0, where, "times that are "+what+" have the same unit", tstr(a)+" is in "+unitName(x)+", "+tstr(b)+" in "+unitName(y))
}

// term checks the uses inside a term.
func (u *units) term(t *Term, where string) {
	switch t.Op {
	case "bin":
		switch t.S {
		case "+", "-", "%":
			u.alike(t.A[0], t.A[1], where, "added or subtracted")
		}
	case "lt", "eq", "le", "flt", "fle":
		u.alike(t.A[0], t.A[1], where, "compared")
	case "app":
		arg := func(i int) *Term {
			if i < len(t.A) {
				return t.A[i]
			}
			return nil
		}
		switch t.S {
		case "(time.Time).Add":
			u.want(arg(1), perNano, where, "a duration that is added to a time")
		case "time.UnixMilli":
			u.want(arg(0), perMilli, where, "a time counted in milliseconds")
		case "time.UnixMicro":
			u.want(arg(0), perMicro, where, "a time counted in microseconds")
		case "time.Unix":
			u.want(arg(0), perSec, where, "a time counted in seconds")
		case "(time.Duration).Milliseconds", "(time.Duration).Microseconds", "(time.Duration).Nanoseconds", "(time.Duration).Seconds", "(time.Duration).Minutes", "(time.Duration).Hours":
			u.want(arg(0), perNano, where, "a duration")
		case "google.golang.org/protobuf/types/known/durationpb.New":
			u.want(arg(0), perNano, where, "a duration")
		}
		u.list(t.A, where)
	case "seq", "append":
		u.list(t.A, where)
	}
}

// list checks the arguments of a storage command.
func (u *units) list(as []*Term, where string) {
	for i, x := range as {
		s, ok := stripConv(x).ConstStr()
		if !ok || i+1 >= len(as) {
			continue
		}
		switch strings.ToUpper(s) {
		case "BLOCK", "PX", "PXAT", "PEXPIRE":
			u.want(as[i+1], perMilli, where, "the time after "+s+" in a storage command")
		case "EX", "EXAT":
			u.want(as[i+1], perSec, where, "the time after "+s+" in a storage command")
		}
	}
}

func ruleUnits(c *Ctx) {
	var roots []*Root
	seen := map[*Root]bool{}
	add := func(r *Root) {
		if r != nil && !seen[r] {
			seen[r] = true
			roots = append(roots, r)
		}
	}
	for _, r := range c.rpcs("C23") {
		add(r)
	}
	var fns []*ssa.Function
	fns = append(fns, c.drivers("C23", "SendUpdates")...)
	fns = append(fns, c.drivers("C23", "GetUpdates")...)
	fns = append(fns, c.replicators("C23", "SendUpdates")...)
	fns = append(fns, c.replicators("C23", "GetUpdates")...)
	for _, f := range fns {
		r := c.Root(f)
		if c.Sound("C23", r) {
			add(r)
		}
	}
	total := 0
	for _, root := range roots {
		u := &units{c: c, root: root, memo: map[*Term]*big.Rat{}, busy: map[*Term]bool{}}
		terms := map[*Term]bool{}
		look := func(t *Term, where string) {
			walkTerm(t, func(x *Term) {
				if !terms[x] {
					terms[x] = true
					u.term(x, where)
				}
			})
		}
		root.WalkAll(func(e *Event, _ *At) {
			where := c.Where(e)
			for _, a := range e.Args {
				look(a, where)
			}
			look(e.Res, where)
			u.list(e.Args, where)
			switch {
			case e.Kind == "timer" && len(e.Args) > 0:
				u.want(e.Args[0], perNano, where, "the time until a timer fires")
			case e.Kind == "call" && (strings.HasPrefix(e.Name, "context.WithTimeout")) && len(e.Args) > 1:
				u.want(e.Args[1], perNano, where, "the time until a context ends")
			case (e.Kind == "call" || e.Kind == "sleep") && (e.Name == "time.Sleep" || e.Name == "time.AfterFunc") && len(e.Args) > 0:
				u.want(e.Args[0], perNano, where, "the time that is waited")
			case e.Kind == "call" && (mname(e.Name) == "Reset") && len(e.Args) > 1:
				u.want(e.Args[1], perNano, where, "the time until a timer fires")
			}
		})
		root.WalkPaths(func(p *Path, at *At) {
			where := c.FnWhere(root.Fn)
			for i := len(p.Events) - 1; i >= 0; i-- {
				if p.Events[i].Site != nil {
					where = c.Where(p.Events[i])
					break
				}
			}
			for _, f := range p.Facts {
				look(f.T, where)
			}
			for _, r := range p.Ret {
				look(r, where)
			}
		})
		total += u.n
	}
	c.Ob("C23", total > 0, "core", "times are derived from settings and ids", "no use of a setting that counts time was found")
}
