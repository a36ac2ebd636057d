package main

import (
	"fmt"
	"strings"
)

func (r *Repo) dumpPaths(ps []*Path, ind string) {
	for i, p := range ps {
		fmt.Printf("%s--- path %d %s stop=%v from=%d to=%d ret=%s\n", ind, i, p.Kind, p.Stop, p.From, p.To, termsStr(p.Ret))
		fmt.Printf("%s    facts: %s\n", ind, litsStr(p.Facts))
		for _, k := range p.Back {
			_ = k
		}
		for ph, v := range p.Back {
			fmt.Printf("%s    back %s := %s\n", ind, ph.Name()+"("+ph.Comment+")", v)
		}
		r.dumpEvents(p.Events, ind+"    ")
	}
}

func termsStr(ts []*Term) string {
	var s []string
	for _, t := range ts {
		s = append(s, t.String())
	}
	return "[" + strings.Join(s, ", ") + "]"
}

func litsStr(ls []Lit) string {
	var s []string
	for _, l := range ls {
		s = append(s, l.String())
	}
	return strings.Join(s, " & ")
}

func (r *Repo) dumpEvents(es []*Event, ind string) {
	for _, e := range es {
		pos := "?"
		if e.Site != nil {
			pos = r.Pos(e.Site.Pos())
		}
		switch e.Kind {
		case "loop":
			l := e.Loop
			fmt.Printf("%sLOOP %s kind=%s coll=%s bound=%s start=%s iters=%d exits=%d vals=%d exitv=%d pos=%s\n", ind, short(l.ID), l.Kind, l.Coll, l.Bound, l.Start, len(l.Iters), len(l.Exits), len(l.Vals), e.ExitV, r.Pos(l.pos))
			for _, p := range l.Phis {
				fmt.Printf("%s   phi %s(%s) init=%s t=%s\n", ind, p.Name(), p.Comment, l.Init[p], l.PhiT[p])
			}
			for k, m := range l.MemPhi {
				fmt.Printf("%s   memphi %s init=%s t=%s\n", ind, k, m.Init, m.T)
			}
			r.dumpPaths(l.Iters, ind+"   ")
			if len(l.Exits) > 0 {
				fmt.Printf("%s  EXITS\n", ind)
				r.dumpPaths(l.Exits, ind+"   ")
			}
		case "go":
			fmt.Printf("%sGO %s %s (%s)\n", ind, e.Name, termsStr(e.Args), pos)
			if e.Thread != nil {
				r.dumpPaths(e.Thread.Paths, ind+"  | ")
			}
		default:
			sel := ""
			if e.Select {
				sel = " select"
			}
			if e.Def {
				sel += " deferred"
			}
			fmt.Printf("%s%s %s %s -> %s (%s)%s\n", ind, e.Kind, shortName(e.Name), termsStr(e.Args), e.Res, pos, sel)
		}
	}
}

// skeleton prints the communication structure of the traces: loops,
// goroutines, channel operations and the calls that matter; identical paths
// are printed once.
func (r *Repo) skeleton(ps []*Path, ind string, seen map[string]bool) {
	for _, p := range ps {
		var b strings.Builder
		r.skelEvents(&b, p, ind, seen)
		fmt.Fprintf(&b, "%s=> %s stop=%v\n", ind, p.Kind, p.Stop)
		s := b.String()
		if seen[ind+s] {
			continue
		}
		seen[ind+s] = true
		fmt.Print(s)
	}
}

func (r *Repo) skelEvents(b *strings.Builder, p *Path, ind string, seen map[string]bool) {
	for _, e := range p.Events {
		line := 0
		if e.Site != nil {
			line = r.Prog.Fset.Position(e.Site.Pos()).Line
		}
		switch e.Kind {
		case "loop":
			l := e.Loop
			fmt.Fprintf(b, "%sLOOP %s line=%d coll=%.80s\n", ind, l.Kind, r.Prog.Fset.Position(l.pos).Line, fmt.Sprint(l.Coll))
			sub := map[string]bool{}
			rec := func(ps []*Path, tag string) {
				for _, q := range ps {
					var c strings.Builder
					r.skelEvents(&c, q, ind+"   ", sub)
					fmt.Fprintf(&c, "%s   => %s %s stop=%v\n", ind, tag, q.Kind, q.Stop)
					if !sub[tag+c.String()] {
						sub[tag+c.String()] = true
						b.WriteString(c.String())
					}
				}
			}
			rec(l.Iters, "iter")
			rec(l.Exits, "exit")
		case "go":
			fmt.Fprintf(b, "%sGO %s line=%d\n", ind, shortName(e.Name), line)
			if e.Thread != nil {
				sub := map[string]bool{}
				for _, q := range e.Thread.Paths {
					var c strings.Builder
					r.skelEvents(&c, q, ind+"  | ", sub)
					fmt.Fprintf(&c, "%s  | => %s\n", ind, q.Kind)
					if !sub[c.String()] {
						sub[c.String()] = true
						b.WriteString(c.String())
					}
				}
			}
		default:
			n := shortName(e.Name)
			if e.Kind == "mapset" || e.Kind == "store" || strings.Contains(n, "logrus") && !strings.Contains(n, "logrus.Set") || strings.Contains(n, "fmt.") || e.Kind == "mapdel" {
				continue
			}
			if e.Kind == "call" && (strings.HasPrefix(n, "strings.") || strings.HasPrefix(n, "(metric.")) {
				continue
			}
			f := ""
			if e.Select {
				f += " sel"
			}
			if e.Def {
				f += " def"
			}
			fmt.Fprintf(b, "%s%s %s %.90s%s :%d\n", ind, e.Kind, n, termsStr(e.Args), f, line)
		}
	}
}
