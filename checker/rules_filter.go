package main

import (
	"fmt"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	rule("filter-decision", "C01", "decision table of filter.In over presence, order against both edges and bounds of the number filters, equality of strings, presence of tags, any number of filters", ruleFilter)
	rule("filter-window", "C02", "decision table of filter.In over presence and order of the creation-time window's edges and its bounds", ruleWindow)
	rule("pool-validation", "C03", "decision table of ValidatePoolFilters over absent, valid and invalid edges", ruleValidate)
}

// params finds the pool and the ticket parameter by type.
func poolTicket(fn *ssa.Function) (pool, ticket string) {
	for i, p := range fn.Params {
		switch p.Type().String() {
		case "*" + pbPath + ".Pool":
			pool = paramName(fn, i)
		case "*" + pbPath + ".Ticket":
			ticket = paramName(fn, i)
		}
	}
	return
}

// fpath renders a chain of message fields starting at a parameter or another
// base: "arg0.Profile.Name".
func fpath(t *Term) string {
	switch t.Op {
	case "param":
		return t.S
	case "field":
		b := fpath(t.A[0])
		if b == "" {
			return ""
		}
		return b + "." + t.S
	}
	return ""
}

// loopField: field F of an element of the collection coll (a field path).
func elemField(t *Term, coll, f string) (*Term, bool) {
	if t.Op != "field" || t.S != f {
		return nil, false
	}
	return isElem(t.A[0], coll)
}

func isElem(e *Term, coll string) (*Term, bool) {
	if e.Op == "elem" && len(e.A) == 1 && fpath(e.A[0]) == coll {
		return e, true
	}
	return nil, false
}

const tsAsTime = "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).AsTime"
const tsIsValid = "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).IsValid"
const tsCheckValid = "(*google.golang.org/protobuf/types/known/timestamppb.Timestamp).CheckValid"

type dcell struct {
	name    string
	present bool
	v       float64
	min     float64
	max     float64
	bounds  int64
	match   bool
}

func dcells() []dcell {
	var out []dcell
	bn := []string{"NONE", "MIN", "MAX", "BOTH"}
	add := func(n string, v, min, max float64) {
		for b := int64(0); b < 4; b++ {
			m := v >= min && v <= max
			if v == min && (b == 1 || b == 3) {
				m = false
			}
			if v == max && (b == 2 || b == 3) {
				m = false
			}
			out = append(out, dcell{n + ", bounds EXCLUDE_" + bn[b], true, v, min, max, b, m})
		}
	}
	add("below the minimum", 5, 10, 20)
	add("at the minimum", 10, 10, 20)
	add("between", 15, 10, 20)
	add("at the maximum", 20, 10, 20)
	add("above the maximum", 25, 10, 20)
	add("at minimum and maximum", 10, 10, 10)
	add("negative below", -5, -3, -1)
	add("negative between", -2, -3, -1)
	add("zero between", 0, -1, 1)
	add("NaN", math.NaN(), 10, 20)
	for b := int64(0); b < 4; b++ {
		out = append(out, dcell{"absent, range around zero, bounds EXCLUDE_" + bn[b], false, 0, -10, 10, b, false})
	}
	return out
}

type scell struct {
	name    string
	present bool
	v, want string
	match   bool
}

func scells() []scell {
	return []scell{
		{"equal", true, "x", "x", true},
		{"different", true, "y", "x", false},
		{"prefix", true, "xy", "x", false},
		{"other case", true, "X", "x", false},
		{"empty and wanted empty", true, "", "", true},
		{"empty but wanted not", true, "", "x", false},
		{"present but wanted empty", true, "x", "", false},
		{"absent", false, "", "x", false},
		{"absent, wanted empty", false, "", "", false},
	}
}

// filterScenario builds the scenario of one run of filter.In.
type filterScenario struct {
	pool, ticket                  string
	dk, sk, tk                    []string // kinds met
	dm, sm, tm                    string   // kind that must occur
	noTags                        bool
	noAttrs                       bool
	window                        bool
	wStart, wEnd, hasStart, hasEn float64
	cr                            float64
	bounds                        int64
}

func (f *filterScenario) scenario(root *Root) *Scenario {
	ds, ss := map[string]dcell{}, map[string]scell{}
	for _, c := range dcells() {
		ds[c.name] = c
	}
	for _, c := range scells() {
		ss[c.name] = c
	}
	attrs := f.ticket + ".Attributes"
	dcoll, scoll, tcoll := f.pool+".DoubleRangeFilters", f.pool+".StringEqualsFilters", f.pool+".TagPresentFilters"
	tags := attrs + ".Tags"
	win := f.pool + ".CreationTimeRangeFilter"
	sc := &Scenario{}
	n := func(k []string) int64 {
		if len(k) == 0 {
			return 0
		}
		return 2
	}
	sc.Loop = func(l *LoopSum, inst Inst) ([]string, string, bool) {
		if l.Coll == nil {
			return nil, "", false
		}
		if l.Start != nil || l.Kind != "slice" {
			return nil, "", false
		}
		switch fpath(l.Coll) {
		case dcoll:
			return f.dk, f.dm, true
		case scoll:
			return f.sk, f.sm, true
		case tcoll:
			return f.tk, f.tm, true
		case tags:
			if f.noTags {
				return nil, "", true
			}
			// the tags of the ticket: does one equal the tag of the filter?
			for id, k := range inst {
				if strings.HasPrefix(k, "tag ") && id != l.ID {
					if k == "tag present" {
						return []string{"eq", "ne"}, "eq", true
					}
					return []string{"ne"}, "", true
				}
			}
			return []string{"ne"}, "", true
		}
		return nil, "", false
	}
	// maps filled with the tags of the ticket before the filters are tested
	tagSet := map[*Term]bool{}
	for _, p := range root.Paths {
		for _, e := range p.Events {
			if e.Kind == "loop" && e.Loop.Coll != nil && fpath(e.Loop.Coll) == tags && len(e.Loop.Iters) == 1 && len(e.Loop.Exits) <= 1 {
				for _, x := range e.Loop.Iters[0].Events {
					if x.Kind == "mapset" && x.Args[0].Op == "mkmap" {
						if _, ok := isElem(x.Args[1], tags); ok && !isFalse(x.Args[2]) {
							if _, dup := tagSet[x.Args[0]]; !dup {
								tagSet[x.Args[0]] = true
							}
						} else {
							tagSet[x.Args[0]] = false
						}
					}
				}
			} else if e.Kind == "loop" {
				walk(e.Loop.Iters, nil, e, root, func(x *Event, _ *At) {
					if (x.Kind == "mapset" || x.Kind == "mapdel") && x.Args[0].Op == "mkmap" {
						tagSet[x.Args[0]] = false
					}
				}, map[*Path]bool{})
			} else if (e.Kind == "mapset" || e.Kind == "mapdel") && e.Args[0].Op == "mkmap" {
				tagSet[e.Args[0]] = false
			}
		}
	}
	sc.Val = func(t *Term, inst Inst) (any, bool) {
		switch t.Op {
		case "lookupok", "lookup":
			m := fpath(t.A[0])
			if m == attrs+".DoubleArgs" {
				if e, ok := elemField(t.A[1], dcoll, "DoubleArg"); ok {
					if c, ok := ds[inst.of(e)]; ok {
						if t.Op == "lookupok" {
							return c.present, true
						}
						return c.v, true
					}
				}
			}
			if m == attrs+".StringArgs" {
				if e, ok := elemField(t.A[1], scoll, "StringArg"); ok {
					if c, ok := ss[inst.of(e)]; ok {
						if t.Op == "lookupok" {
							return c.present, true
						}
						return c.v, true
					}
				}
			}
			if tagSet[t.A[0]] {
				if e, ok := elemField(t.A[1], tcoll, "Tag"); ok {
					if k := inst.of(e); strings.HasPrefix(k, "tag ") && (t.Op == "lookupok" || t.Typ != nil && t.Typ.String() == "bool") {
						return k == "tag present", true
					}
				}
			}
		case "field":
			if e, ok := elemField(t, dcoll, t.S); ok {
				if c, ok := ds[inst.of(e)]; ok {
					switch t.S {
					case "Minimum":
						return c.min, true
					case "Maximum":
						return c.max, true
					case "Bounds":
						return c.bounds, true
					}
				}
			}
			if e, ok := elemField(t, scoll, "Value"); ok {
				if c, ok := ss[inst.of(e)]; ok {
					return c.want, true
				}
			}
			if fpath(t) == win+".Bounds" && f.window {
				return f.bounds, true
			}
		case "eq":
			// nil tests
			if t.A[1].IsNil() || t.A[0].IsNil() {
				x := t.A[0]
				if x.IsNil() {
					x = t.A[1]
				}
				switch fpath(x) {
				case win:
					return !f.window, true
				case win + ".Start":
					return f.hasStart == 0, true
				case win + ".End":
					return f.hasEn == 0, true
				case f.pool, f.ticket:
					return false, true
				case attrs:
					return f.noAttrs, true
				case attrs + ".CreationTime":
					return f.noAttrs, true
				case dcoll:
					return len(f.dk) == 0, true
				case scoll:
					return len(f.sk) == 0, true
				case tcoll:
					return len(f.tk) == 0, true
				}
				if x.Op == "elem" {
					return false, true
				}
			}
			// tags
			for _, pr := range [][2]*Term{{t.A[0], t.A[1]}, {t.A[1], t.A[0]}} {
				if tg, ok := isElem(pr[0], tags); ok {
					if ft, ok := elemField(pr[1], tcoll, "Tag"); ok {
						if strings.HasPrefix(inst.of(ft), "tag ") {
							switch inst.of(tg) {
							case "eq":
								return true, true
							case "ne":
								return false, true
							}
						}
					}
				}
			}
		case "len":
			switch fpath(t.A[0]) {
			case dcoll:
				return n(f.dk), true
			case scoll:
				return n(f.sk), true
			case tcoll:
				return n(f.tk), true
			case tags:
				if f.noTags {
					return int64(0), true
				}
			}
		case "app":
			if t.S == "slices.Contains" && fpath(t.A[0]) == tags {
				if ft, ok := elemField(t.A[1], tcoll, "Tag"); ok {
					if k := inst.of(ft); strings.HasPrefix(k, "tag ") {
						return k == "tag present", true
					}
				}
			}
			if t.S == "slices.Index" && fpath(t.A[0]) == tags {
				if ft, ok := elemField(t.A[1], tcoll, "Tag"); ok {
					if k := inst.of(ft); k == "tag present" {
						return int64(1), true
					} else if k == "tag absent" {
						return int64(-1), true
					}
				}
			}
			if t.S == tsAsTime {
				switch fpath(t.A[0]) {
				case attrs + ".CreationTime":
					return f.cr, true
				case win + ".Start":
					return f.wStart * f.hasStart, true
				case win + ".End":
					return f.wEnd * f.hasEn, true
				}
			}
			if t.S == tsIsValid {
				switch fpath(t.A[0]) {
				case attrs + ".CreationTime":
					return true, true
				case win + ".Start":
					return f.hasStart == 1, true
				case win + ".End":
					return f.hasEn == 1, true
				}
			}
		}
		return nil, false
	}
	return sc
}

func isFalse(t *Term) bool {
	b, ok := t.ConstBool()
	return ok && !b
}

// filterRoots: the functions deciding whether a ticket is in a pool.
func (c *Ctx) filterRoot(prop string) (*Root, string, string) {
	fn := c.Func(prop, inName)
	if fn == nil {
		return nil, "", ""
	}
	r := c.Root(fn)
	if !c.Sound(prop, r) {
		return nil, "", ""
	}
	pool, ticket := poolTicket(fn)
	if pool == "" || ticket == "" || fn.Signature.Results().Len() != 1 {
		c.Ob(prop, false, c.FnWhere(fn), "filter.In decides about a ticket and a pool", "its parameters are not a pool and a ticket")
		return nil, "", ""
	}
	return r, pool, ticket
}

func ruleFilter(c *Ctx) {
	r, pool, ticket := c.filterRoot("C01")
	if r == nil {
		return
	}
	var dm, sm []string
	for _, d := range dcells() {
		if d.match {
			dm = append(dm, d.name)
		}
	}
	for _, s := range scells() {
		if s.match {
			sm = append(sm, s.name)
		}
	}
	tm := []string{"tag present"}
	run := func(what string, f filterScenario, want bool) {
		f.pool, f.ticket = pool, ticket
		f.cr = 15
		if f.noAttrs {
			f.cr = 0
		}
		sc := f.scenario(r)
		res := sc.results(r.Paths, 0)
		w := fmt.Sprint(want)
		ok := len(res) == 1 && res[w] != nil
		det := ""
		if !ok {
			det = "result can be " + resStr(res) + ", must be " + w
			for k, p := range res {
				if k != w {
					det += "; path with " + lastFacts(p)
					break
				}
			}
		}
		c.Ob("C01", ok, c.FnWhere(r.Fn), what, det)
	}
	verdict := map[bool]string{true: "accepted", false: "rejected"}
	// a ticket meeting all filters is accepted, for every combination of kinds of filters
	for m := 0; m < 8; m++ {
		f := filterScenario{}
		n := "no number filter"
		if m&1 != 0 {
			f.dk = dm
			n = "matching number filters"
		}
		if m&2 != 0 {
			f.sk = sm
			n += ", matching string filters"
		} else {
			n += ", no string filter"
		}
		if m&4 != 0 {
			f.tk = tm
			n += ", matching tag filters"
		} else {
			n += ", no tag filter"
		}
		run(n+": accepted", f, true)
	}
	run("pool without filters, ticket without attributes: accepted", filterScenario{noAttrs: true, noTags: true}, true)
	for _, d := range dcells() {
		f := filterScenario{dk: append(append([]string{}, dm...), d.name), dm: d.name, sk: sm, tk: tm}
		if d.match {
			f.dk = dm
		}
		run("some number filter: value "+d.name+", all else matching: "+verdict[d.match], f, d.match)
		if !d.match {
			run("only one number filter: value "+d.name+": rejected", filterScenario{dk: []string{d.name}, dm: d.name}, false)
		} else {
			run("only number filters of the kind: value "+d.name+": accepted", filterScenario{dk: []string{d.name}, dm: d.name}, true)
		}
	}
	for _, s := range scells() {
		f := filterScenario{dk: dm, sk: append(append([]string{}, sm...), s.name), sm: s.name, tk: tm}
		if s.match {
			f.sk = sm
		}
		run("some string filter: value "+s.name+", all else matching: "+verdict[s.match], f, s.match)
		if !s.match {
			run("only one string filter: value "+s.name+": rejected", filterScenario{sk: []string{s.name}, sm: s.name}, false)
		}
	}
	run("some tag absent, all else matching: rejected", filterScenario{dk: dm, sk: sm, tk: []string{"tag present", "tag absent"}, tm: "tag absent"}, false)
	run("only one tag filter, absent: rejected", filterScenario{tk: []string{"tag absent"}, tm: "tag absent"}, false)
	run("only one tag filter, ticket without tags: rejected", filterScenario{tk: []string{"tag absent"}, tm: "tag absent", noTags: true}, false)
	run("attributes missing, a number is required: rejected", filterScenario{dk: []string{"absent, range around zero, bounds EXCLUDE_NONE"}, dm: "absent, range around zero, bounds EXCLUDE_NONE", noAttrs: true, noTags: true}, false)
	run("attributes missing, a tag is required: rejected", filterScenario{tk: []string{"tag absent"}, tm: "tag absent", noAttrs: true, noTags: true}, false)
	run("attributes missing, a string is required: rejected", filterScenario{sk: []string{"absent, wanted empty"}, sm: "absent, wanted empty", noAttrs: true, noTags: true}, false)
}

// lastFacts shows the facts that single out a path.
func lastFacts(p *Path) string {
	f := p.Facts
	if len(f) > 4 {
		f = f[len(f)-4:]
	}
	return litsStr(f)
}

func ruleWindow(c *Ctx) {
	r, pool, ticket := c.filterRoot("C02")
	if r == nil {
		return
	}
	bn := []string{"NONE", "START", "END", "BOTH"}
	type pos struct {
		n          string
		cr, st, en float64
	}
	ps := []pos{
		{"before-window", 5, 10, 20}, {"at-start", 10, 10, 20}, {"inside", 15, 10, 20}, {"at-end", 20, 10, 20}, {"after-window", 25, 10, 20},
		{"at-start-and-end", 10, 10, 10}, {"before-empty-instant", 5, 10, 10}, {"after-empty-instant", 15, 10, 10},
		{"between-reversed-edges", 15, 20, 10}, {"before-reversed-edges", 5, 20, 10}, {"after-reversed-edges", 25, 20, 10},
	}
	for hs := 0.0; hs < 2; hs++ {
		for he := 0.0; he < 2; he++ {
			for b := int64(0); b < 4; b++ {
				for _, q := range ps {
					if (hs == 0 || he == 0) && q.st >= q.en {
						continue
					}
					want := true
					if hs == 1 {
						want = want && q.cr >= q.st
						// the bounds enumeration of the window: EXCLUDE_START, EXCLUDE_END, EXCLUDE_BOTH
						if (b == 1 || b == 3) && q.cr == q.st {
							want = false
						}
					}
					if he == 1 {
						want = want && q.cr <= q.en
						if (b == 2 || b == 3) && q.cr == q.en {
							want = false
						}
					}
					f := filterScenario{pool: pool, ticket: ticket, window: true, wStart: q.st, wEnd: q.en, hasStart: hs, hasEn: he, cr: q.cr, bounds: b, noTags: true}
					res := f.scenario(r).results(r.Paths, 0)
					w := fmt.Sprint(want)
					ok := len(res) == 1 && res[w] != nil
					edge := map[float64]string{0: "absent", 1: "present"}
					key := fmt.Sprintf("window:start=%s,end=%s,bounds=EXCLUDE_%s,ticket=%s:must-be-%s,is-%s", edge[hs], edge[he], bn[b], q.n, w, strings.ReplaceAll(resStr(res), " ", "-"))
					what := fmt.Sprintf("window with start %s, end %s, bounds EXCLUDE_%s, ticket created %s: %s", edge[hs], edge[he], bn[b], q.n, map[bool]string{true: "accepted", false: "rejected"}[want])
					det := ""
					if !ok {
						det = "result can be " + resStr(res)
					} else {
						key = ""
					}
					c.ObKey("C02", key, ok, c.FnWhere(r.Fn), what, det)
				}
			}
		}
	}
	f := filterScenario{pool: pool, ticket: ticket, cr: 15, noTags: true}
	res := f.scenario(r).results(r.Paths, 0)
	c.Ob("C02", len(res) == 1 && res["true"] != nil, c.FnWhere(r.Fn), "pool without a window: the creation time is not looked at", "result can be "+resStr(res))
	// with a window, all other filters still count
	f = filterScenario{pool: pool, ticket: ticket, window: true, wStart: 20, wEnd: 10, hasStart: 1, hasEn: 1, cr: 15, noTags: true, tk: []string{"tag absent"}, tm: "tag absent"}
	res = f.scenario(r).results(r.Paths, 0)
	c.Ob("C02", len(res) == 1 && res["false"] != nil, c.FnWhere(r.Fn), "a window does not make other filters ineffective", "result can be "+resStr(res))
}

func ruleValidate(c *Ctx) {
	fn := c.Func("C03", validName)
	if fn == nil {
		return
	}
	r := c.Root(fn)
	if !c.Sound("C03", r) {
		return
	}
	pool, _ := poolTicket(fn)
	if pool == "" || fn.Signature.Results().Len() != 2 {
		c.Ob("C03", false, c.FnWhere(fn), "ValidatePoolFilters takes a pool and returns validity and error", "signature changed")
		return
	}
	win := pool + ".CreationTimeRangeFilter"
	st := []string{"absent", "valid", "invalid"}
	for w := 0; w < 2; w++ {
		for s := 0; s < 3; s++ {
			for e := 0; e < 3; e++ {
				if w == 0 && (s > 0 || e > 0) {
					continue
				}
				edge := func(p string) (int, bool) {
					switch p {
					case win + ".Start":
						return s, true
					case win + ".End":
						return e, true
					}
					return 0, false
				}
				sc := &Scenario{
					Loop: func(*LoopSum, Inst) ([]string, string, bool) { return nil, "", false },
					Val: func(t *Term, inst Inst) (any, bool) {
						switch t.Op {
						case "eq":
							if t.A[1].IsNil() {
								if fpath(t.A[0]) == win {
									return w == 0, true
								}
								if k, ok := edge(fpath(t.A[0])); ok {
									return k == 0, true
								}
								if fpath(t.A[0]) == pool {
									return false, true
								}
								if t.A[0].IsApp(tsCheckValid) {
									if k, ok := edge(fpath(t.A[0].A[0])); ok {
										return k == 1, true
									}
								}
							}
						case "app":
							if t.S == tsIsValid {
								if k, ok := edge(fpath(t.A[0])); ok {
									return k == 1, true
								}
							}
						}
						return nil, false
					},
				}
				want := s != 2 && e != 2
				r0 := sc.results(r.Paths, 0)
				r1 := map[string]bool{}
				for _, p := range r.Paths {
					for range sc.possible(p, Inst{}) {
						x := p.Ret[1]
						switch {
						case x.IsNil():
							r1["nil"] = true
						case nonNil(x):
							r1["error"] = true
						case x.IsApp(tsCheckValid):
							if k, ok := edge(fpath(x.A[0])); ok && k != 1 {
								r1["error"] = true
							} else if ok {
								r1["nil"] = true
							} else {
								r1["unknown"] = true
							}
						default:
							r1["unknown"] = true
						}
					}
				}
				we := "nil"
				if !want {
					we = "error"
				}
				ok := len(r0) == 1 && r0[fmt.Sprint(want)] != nil && len(r1) == 1 && r1[we]
				n := "no window"
				if w == 1 {
					n = "window with start " + st[s] + ", end " + st[e]
				}
				c.Ob("C03", ok, c.FnWhere(fn), fmt.Sprintf("%s: valid=%v, error=%s", n, want, we), fmt.Sprintf("can return %s with error %s", resStr(r0), strings.Join(sortedKeys(r1), " or ")))
			}
		}
	}
}
