package main

import "go/types"

// lform is a linear form over terms.
type lform struct {
	k int64
	m map[*Term]int64
}

func (a lform) add(b lform, f int64) lform {
	out := lform{a.k + f*b.k, map[*Term]int64{}}
	for t, n := range a.m {
		out.m[t] += n
	}
	for t, n := range b.m {
		out.m[t] += f * n
	}
	for t, n := range out.m {
		if n == 0 {
			delete(out.m, t)
		}
	}
	return out
}

func (a lform) plus(k int64) lform { return lform{a.k + k, a.m} }

func (p *prover) lf(t *Term) lform {
	t = stripConv(t)
	if n, ok := t.ConstInt(); ok {
		return lform{k: n}
	}
	if t.Op == "zero" {
		return lform{}
	}
	if t.Op == "bin" {
		a, b := t.A[0], t.A[1]
		switch t.S {
		case "+":
			return p.lf(a).add(p.lf(b), 1)
		case "-":
			return p.lf(a).add(p.lf(b), -1)
		case "*":
			x, y := p.lf(a), p.lf(b)
			if len(x.m) == 0 {
				return lform{}.add(y, x.k)
			}
			if len(y.m) == 0 {
				return lform{}.add(x, y.k)
			}
		}
	}
	if e, ok := p.grown(t); ok {
		return e
	}
	return lform{0, map[*Term]int64{t: 1}}
}

// linForm is the linear form of a sum or difference.
func linForm(t *Term) lform {
	t = stripConv(t)
	if n, ok := t.ConstInt(); ok {
		return lform{k: n}
	}
	if t.Op == "bin" && (t.S == "+" || t.S == "-") {
		f := int64(1)
		if t.S == "-" {
			f = -1
		}
		return linForm(t.A[0]).add(linForm(t.A[1]), f)
	}
	return lform{0, map[*Term]int64{t: 1}}
}

// grown: the length of a list, or a number, that each round of a loop
// increases by the same amount.
func (p *prover) grown(t *Term) (lform, bool) {
	x, isLen := t, false
	if t.Op == "len" {
		x, isLen = t.A[0], true
	}
	if x.Op != "phi" && x.Op != "memphi" || p.growing[t] {
		return lform{}, false
	}
	if e, done := p.grew[t]; done {
		return e.e, e.ok
	}
	p.growing[t] = true
	defer delete(p.growing, t)
	in := p.root.A.In
	size := func(v *Term) lform {
		if isLen {
			v = in.Len(v)
		}
		return p.lf(v)
	}
	self := lform{0, map[*Term]int64{t: 1}}
	var out lform
	ls := p.g.all[s2loop(x.S)]
	ok := len(ls) > 0
	for i, l := range ls {
		init, next := p.g.stepOf(l, x)
		if init == nil || len(l.Iters) == 0 {
			ok = false
			break
		}
		var step int64
		for j, q := range l.Iters {
			v := next(q)
			if v == nil {
				ok = false
				break
			}
			d := size(v).add(self, -1)
			if len(d.m) > 0 || j > 0 && d.k != step {
				ok = false
				break
			}
			step = d.k
		}
		idx := in.mk("idx", l.ID, types.Typ[types.Int], nil)
		e := size(init)
		if step != 0 {
			e = e.add(lform{0, map[*Term]int64{idx: 1}}, step)
		}
		for y := range e.m {
			if y != idx && y.Mentions(l.ID) {
				ok = false
			}
		}
		if !ok || i > 0 && !same(e, out) {
			ok = false
			break
		}
		out = e
	}
	if len(p.growing) == 1 {
		p.grew[t] = grewTo{out, ok}
	}
	return out, ok
}

type grewTo struct {
	e  lform
	ok bool
}

func same(a, b lform) bool {
	d := a.add(b, -1)
	return d.k == 0 && len(d.m) == 0
}

// atom is a lower bound of a term.
func (p *prover) atom(t *Term) (int64, bool) {
	switch t.Op {
	case "idx", "cap", "chlen":
		return 0, true
	case "len":
		if x := t.A[0]; x.Op == "app" && (x.S == "strings.Split" || x.S == "strings.SplitN" && someParts(x)) {
			if s, ok := x.A[1].ConstStr(); ok && s != "" {
				return 1, true
			}
		}
		return 0, true
	}
	if b, ok := basic(t.Typ); ok && b.Info()&types.IsUnsigned != 0 {
		return 0, true
	}
	if t.Op == "lookup" && p.entriesGeq0(t.A[0]) {
		return 0, true
	}
	if t.Op == "app" && t.S == "max" {
		for _, x := range t.A {
			if n, ok := x.ConstInt(); ok {
				return n, true
			}
		}
	}
	if t.Op == "bin" && (t.S == "%" || t.S == "/") {
		if n, ok := t.A[1].ConstInt(); ok && n > 0 && p.geq0(p.lf(t.A[0]), nil, 3) {
			return 0, true
		}
	}
	return 0, false
}

// someParts: the limit of a strings.SplitN is not 0.
func someParts(x *Term) bool {
	n, ok := x.A[2].ConstInt()
	return ok && n != 0
}

// entriesGeq0: no number that is put into the map is negative, if those taken
// out of it are not.
func (p *prover) entriesGeq0(m *Term) bool {
	if m.Op != "mkmap" {
		return false
	}
	if v, ok := p.geq0Maps[m]; ok {
		return v
	}
	if p.geq0Maps == nil {
		p.geq0Maps = map[*Term]bool{}
	}
	p.geq0Maps[m] = true
	es, ok := p.contents(m, map[*Term]bool{})
	for _, e := range es {
		ok = ok && p.geq0(p.lf(e.v), e.facts, 3)
	}
	p.geq0Maps[m] = ok
	return ok
}

func basic(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

// plain: it is not negative whatever the facts.
func (p *prover) plain(e lform) bool {
	k := e.k
	for t, n := range e.m {
		b, ok := p.atom(t)
		if !ok || n < 0 {
			return false
		}
		k += n * b
	}
	return k >= 0
}

// known turns facts into forms that are not negative.
func (p *prover) known(facts []Lit) []lform {
	var out []lform
	for _, f := range facts {
		if len(f.T.A) != 2 {
			continue
		}
		if f.T.Op != "lt" && f.T.Op != "eq" {
			continue
		}
		if b, ok := basic(f.T.A[0].Typ); ok && b.Info()&types.IsInteger == 0 {
			continue
		}
		a, b := p.lf(f.T.A[0]), p.lf(f.T.A[1])
		switch {
		case f.T.Op == "lt" && f.Val:
			out = append(out, b.add(a, -1).plus(-1))
			if q := stripConv(f.T.A[1]); q.Op == "bin" && q.S == "/" {
				if m, ok := q.A[1].ConstInt(); ok && m > 0 {
					out = append(out, p.lf(q.A[0]).add(a, -m).plus(-m))
				}
			}
		case f.T.Op == "lt":
			out = append(out, a.add(b, -1))
		case f.Val:
			out = append(out, a.add(b, -1), b.add(a, -1))
		default:
			// a != b where a >= b
			for _, d := range []lform{a.add(b, -1), b.add(a, -1)} {
				if p.plain(d) {
					out = append(out, d.plus(-1))
				}
			}
		}
	}
	// x != y together with x <= y
	n := len(out)
	for _, f := range facts {
		if len(f.T.A) == 2 && f.T.Op == "eq" && !f.Val {
			a, b := p.lf(f.T.A[0]), p.lf(f.T.A[1])
			for _, d := range []lform{a.add(b, -1), b.add(a, -1)} {
				for _, g := range out[:n] {
					if p.plain(d.add(g, -1)) {
						out = append(out, d.plus(-1))
						break
					}
				}
			}
		}
	}
	return out
}

// rounds: a loop's number of rounds is at most what bounds it.
func (p *prover) rounds(e lform, ks []lform) []lform {
	var out []lform
	done := map[*Term]bool{}
	try := func(t *Term) {
		if t.Op != "idx" || done[t] {
			return
		}
		done[t] = true
		ls := p.g.all[s2loop(t.S)]
		if len(ls) != 1 {
			return
		}
		tr := trip(p.root.A.In, ls[0])
		if tr == nil || tr.Mentions(ls[0].ID) {
			return
		}
		if n := p.lf(tr); p.plain(n) {
			out = append(out, n.add(lform{0, map[*Term]int64{t: 1}}, -1))
		}
	}
	for t := range e.m {
		try(t)
	}
	for _, k := range ks {
		for t := range k.m {
			try(t)
		}
	}
	return out
}

// geq0: the form is not negative under the facts.
func (p *prover) geq0(e lform, facts []Lit, d int) bool {
	if p.plain(e) {
		return true
	}
	if len(e.m) == 0 || d > 6 {
		return false
	}
	ks := p.known(facts)
	ks = append(ks, p.rounds(e, ks)...)
	for i, f := range ks {
		r := e.add(f, -1)
		if p.plain(r) {
			return true
		}
		for _, g := range ks[i+1:] {
			if p.plain(r.add(g, -1)) {
				return true
			}
		}
	}
	// what the loops keep true
	done := map[string]bool{}
	for t := range e.m {
		x := t
		if t.Op == "len" {
			x = t.A[0]
		}
		if x.Op != "phi" && x.Op != "memphi" {
			continue
		}
		id := s2loop(x.S)
		if done[id] {
			continue
		}
		done[id] = true
		ls := p.g.all[id]
		ok := len(ls) > 0
		for _, l := range ls {
			ok = ok && p.kept(e, l, facts, d)
		}
		if ok {
			return true
		}
	}
	return false
}

// kept: the form is not negative when the loop starts, and a round does not
// make it smaller, or leaves it not negative.
func (p *prover) kept(e lform, l *LoopSum, facts []Lit, d int) bool {
	in := p.root.A.In
	subst := func(val func(t *Term) *Term, i int64) (lform, bool) {
		out := lform{k: e.k}
		for t, n := range e.m {
			x, isLen := t, false
			if t.Op == "len" {
				x, isLen = t.A[0], true
			}
			switch {
			case (x.Op == "phi" || x.Op == "memphi") && s2loop(x.S) == l.ID:
				v := val(x)
				if v == nil {
					return out, false
				}
				if isLen {
					v = in.Len(v)
				}
				out = out.add(p.lf(v), n)
			case x.Op == "idx" && s2loop(x.S) == l.ID:
				if i < 0 { // at the start
					continue
				}
				out = out.add(lform{1, map[*Term]int64{x: 1}}, n)
			case t.Mentions(l.ID):
				return out, false
			default:
				out = out.add(lform{0, map[*Term]int64{t: 1}}, n)
			}
		}
		return out, true
	}
	start, ok := subst(func(t *Term) *Term { i, _ := p.g.stepOf(l, t); return i }, -1)
	if !ok || !p.geq0(start, dropLoop(facts, l.ID), d+1) {
		return false
	}
	for _, q := range l.Iters {
		n, ok := subst(func(t *Term) *Term { _, next := p.g.stepOf(l, t); return next(q) }, 0)
		if !ok {
			return false
		}
		if p.plain(n.add(e, -1)) || p.geq0(n.add(e, -1), q.Facts, d+2) || p.geq0(n, q.Facts, d+3) {
			continue
		}
		// the form itself may be assumed
		ks := p.known(q.Facts)
		good := false
		for _, f := range ks {
			if p.plain(n.add(e, -1).add(f, -1)) {
				good = true
			}
		}
		if !good {
			return false
		}
	}
	return true
}
