package main

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"
)

// sameLanguage decides whether two patterns accept the same strings when used
// with MatchString (a match anywhere), by comparing the automata built from
// them over a finite alphabet of representative runes. The result is "" or a
// string on which they differ.
func sameLanguage(a, b string) string {
	pa, err := compile(a)
	if err != nil {
		return "the pattern does not compile: " + err.Error()
	}
	pb, err := compile(b)
	if err != nil {
		return err.Error()
	}
	al := alphabet(pa, pb)
	type st struct{ x, y string }
	xa, xb := newAut(pa), newAut(pb)
	start := st{xa.start(), xb.start()}
	type node struct {
		s st
		w string
	}
	seen := map[st]bool{start: true}
	work := []node{{start, ""}}
	for len(work) > 0 {
		n := work[0]
		work = work[1:]
		ma, mb := xa.accepts(n.s.x), xb.accepts(n.s.y)
		if ma != mb {
			if ma {
				return fmt.Sprintf("it also matches %q", n.w)
			}
			return fmt.Sprintf("it does not match %q", n.w)
		}
		if len(seen) > 20000 {
			return "the pattern is too complex to compare"
		}
		for _, r := range al {
			m := st{xa.step(n.s.x, r), xb.step(n.s.y, r)}
			if !seen[m] {
				seen[m] = true
				work = append(work, node{m, n.w + string(r)})
			}
		}
	}
	return ""
}

func compile(s string) (*syntax.Prog, error) {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, err
	}
	return syntax.Compile(re.Simplify())
}

func alphabet(ps ...*syntax.Prog) []rune {
	set := map[rune]bool{}
	add := func(r rune) {
		if r >= 0 && r <= 0x10ffff && !(r >= 0xd800 && r < 0xe000) {
			set[r] = true
		}
	}
	for _, r := range "0159-_ aAzZ\n\r\t.+/:x\u0660\uff10\u4e00" {
		add(r)
	}
	for _, p := range ps {
		for _, i := range p.Inst {
			for _, r := range i.Rune {
				add(r - 1)
				add(r)
				add(r + 1)
			}
		}
	}
	var out []rune
	for r := range set {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// aut is the subset automaton of a program. A state is the set of threads
// before the empty-width tests that depend on the next rune, together with the
// previous rune.
type aut struct {
	p    *syntax.Prog
	sets map[string]autState
	memo map[string]bool
	next map[string]string
}

type autState struct {
	pcs   []uint32 // not followed yet
	prev  rune
	match bool
}

func newAut(p *syntax.Prog) *aut {
	return &aut{p: p, sets: map[string]autState{}, memo: map[string]bool{}, next: map[string]string{}}
}

func class(r rune) string {
	switch {
	case r == -1:
		return "^"
	case r == '\n':
		return "n"
	case syntax.IsWordChar(r):
		return "w"
	}
	return "."
}

func (a *aut) put(s autState) string {
	if s.match {
		a.sets["match"] = s
		return "match"
	}
	sort.Slice(s.pcs, func(i, j int) bool { return s.pcs[i] < s.pcs[j] })
	var sb strings.Builder
	sb.WriteString(class(s.prev))
	for i, p := range s.pcs {
		if i > 0 && s.pcs[i-1] == p {
			continue
		}
		fmt.Fprintf(&sb, ",%d", p)
	}
	k := sb.String()
	a.sets[k] = s
	return k
}

func (a *aut) start() string { return a.put(autState{pcs: nil, prev: -1}) }

// follow resolves empty-width steps given the next rune (-1 at the end).
func (a *aut) follow(s autState, next rune) (runes []uint32, match bool) {
	fl := syntax.EmptyOpContext(s.prev, next)
	seen := map[uint32]bool{}
	var walk func(pc uint32)
	walk = func(pc uint32) {
		if seen[pc] {
			return
		}
		seen[pc] = true
		i := &a.p.Inst[pc]
		switch i.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			walk(i.Out)
			walk(i.Arg)
		case syntax.InstCapture, syntax.InstNop:
			walk(i.Out)
		case syntax.InstEmptyWidth:
			if syntax.EmptyOp(i.Arg)&^fl == 0 {
				walk(i.Out)
			}
		case syntax.InstMatch:
			match = true
		case syntax.InstFail:
		default:
			runes = append(runes, pc)
		}
	}
	for _, pc := range s.pcs {
		walk(pc)
	}
	walk(uint32(a.p.Start)) // a match may start anywhere
	return
}

func (a *aut) accepts(k string) bool {
	s := a.sets[k]
	if s.match {
		return true
	}
	_, m := a.follow(s, -1)
	return m
}

func (a *aut) step(k string, r rune) string {
	ck := k + "/" + string(r)
	if n, ok := a.next[ck]; ok {
		return n
	}
	s := a.sets[k]
	if s.match {
		return k
	}
	rs, m := a.follow(s, r)
	n := autState{prev: r, match: m}
	if !m {
		for _, pc := range rs {
			if a.p.Inst[pc].MatchRune(r) {
				n.pcs = append(n.pcs, a.p.Inst[pc].Out)
			}
		}
	}
	nk := a.put(n)
	a.next[ck] = nk
	return nk
}
