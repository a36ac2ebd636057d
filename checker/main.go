package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func repoRoot() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: checker check ID | all | dump FUNC | rules")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		r, err := Load(repoRoot())
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, f := range r.Funcs {
			if strings.HasSuffix(f.String(), os.Args[2]) {
				t := time.Now()
				a := NewAnalysis(r)
				a.Opaque["!generated"] = os.Getenv("VERIF_GEN") != ""
				if o := os.Getenv("VERIF_OPAQUE"); o != "" {
					a.Opaque[o] = true
				}
				a.Opaque[inName] = len(os.Args) > 3
				a.Opaque[validName] = len(os.Args) > 3
				ps := a.Run(f, nil, nil)
				fmt.Println("=====", f, len(ps), "paths", time.Since(t), a.steps, a.Trouble)
				if len(os.Args) > 3 && os.Args[3] == "s" {
					r.skeleton(ps, "", map[string]bool{})
				} else {
					r.dumpPaths(ps, "")
				}
			}
		}
	case "refsites":
		r, err := Load(repoRoot())
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		refSites(r)
	case "rules":
		for _, r := range rules {
			fmt.Printf("%s\t%s\t%s\n", r.Name, strings.Join(r.Props, ","), r.Doc)
		}
	case "all":
		os.Exit(all(len(os.Args) > 2))
	case "keys":
		r, err := Load(repoRoot())
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		c := NewCtx(r)
		c.runRules(os.Args[2])
		for _, o := range c.obls(os.Args[2]) {
			if !o.OK {
				fmt.Printf("finding: property=%s key=%s %s\n", os.Args[2], o.Key, o.What)
			}
		}
	case "check":
		os.Exit(check(os.Args[2]))
	}
}

// all runs every rule once and prints the failed obligations.
func all(verbose bool) int {
	r, err := Load(repoRoot())
	if err != nil {
		fmt.Println("LOAD:", err)
		return 1
	}
	c := NewCtx(r)
	t0 := time.Now()
	c.runRules("")
	known, err := readFindings(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		fmt.Println(err)
	}
	bad := map[string]int{}
	n := map[string]int{}
	for _, o := range c.Obls {
		for _, p := range o.Props {
			n[p]++
		}
		if o.OK {
			if verbose {
				fmt.Printf("ok   %s [%s] %s: %s\n", strings.Join(o.Props, ","), o.Rule, o.Where, o.What)
			}
			continue
		}
		k := false
		for _, f := range known {
			if has(o.Props, f.prop) && f.key == o.Key && o.Key != "" {
				k = true
			}
		}
		if k {
			continue
		}
		for _, p := range o.Props {
			bad[p]++
		}
		fmt.Printf("FAIL %s [%s] %s: %s -- %s\n", strings.Join(o.Props, ","), o.Rule, o.Where, o.What, o.Detail)
	}
	for _, p := range sortedKeys(n) {
		fmt.Printf("%s:%d/%d ", p, n[p]-bad[p], n[p])
	}
	fmt.Println(time.Since(t0))
	if len(bad) > 0 {
		fmt.Println("BROKEN:", strings.Join(sortedKeys(bad), " "))
		return 1
	}
	return 0
}

func check(prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	evDir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(evDir, 0o755)
	replay := filepath.Join(evDir, prop+".report.txt")
	var rep strings.Builder
	var vio []map[string]any
	violation := func(o *Obl) {
		fmt.Fprintf(&rep, "VIOLATED [%s] %s\n  obligation: %s\n  found: %s\n", o.Rule, o.Where, o.What, o.Detail)
		vio = append(vio, map[string]any{"rule": o.Rule, "where": o.Where, "obligation": o.What, "found": o.Detail})
	}
	var obls []*Obl
	var c *Ctx
	known, kerr := readFindings(filepath.Join(verifDir(), "known-findings.txt"))
	func() {
		defer func() {
			if e := recover(); e != nil {
				violation(&Obl{Rule: "load", Where: repoRoot(), What: "the repository can be analysed", Detail: fmt.Sprint(e)})
			}
		}()
		if kerr != nil {
			violation(&Obl{Rule: "load", Where: "known-findings.txt", What: "the known findings can be read", Detail: kerr.Error()})
		}
		r, err := Load(repoRoot())
		if err != nil {
			violation(&Obl{Rule: "load", Where: repoRoot(), What: "the repository type-checks", Detail: err.Error()})
			return
		}
		c = NewCtx(r)
		c.runRules(prop)
		obls = c.obls(prop)
	}()
	disch, kn := 0, 0
	var kl []string
	for _, o := range obls {
		if o.OK {
			disch++
			fmt.Fprintf(&rep, "ok [%s] %s: %s\n", o.Rule, o.Where, o.What)
			continue
		}
		isKnown := false
		for _, f := range known {
			if f.prop == prop && f.key == o.Key && o.Key != "" {
				isKnown = true
				kl = append(kl, fmt.Sprintf("KNOWN-FINDING: property=%s %s (%s)", prop, f.text, f.key))
			}
		}
		if isKnown {
			kn++
			continue
		}
		violation(o)
	}
	if c != nil && len(obls) == 0 && len(vio) == 0 {
		violation(&Obl{Rule: "engine", Where: "checker", What: "some rule decides the property", Detail: "no rule produced an obligation"})
	}
	os.WriteFile(replay, []byte(rep.String()), 0o644)
	var samples []map[string]any
	rulesUsed := map[string]string{}
	for _, r := range rules {
		if has(r.Props, prop) {
			rulesUsed[r.Name] = r.Doc
		}
	}
	for i, o := range obls {
		if i < 40 {
			samples = append(samples, map[string]any{"rule": o.Rule, "where": o.Where, "obligation": o.What, "holds": o.OK})
		}
	}
	cov := map[string]any{
		"obligations":  len(obls) - kn,
		"discharged":   disch,
		"checker_cmd":  "bin/checker check " + prop,
		"trusted_base": "go/types and golang.org/x/tools/go/ssa; the abstract interpreter and the rules in /verif/checker; the library models listed in DESIGN.md",
		"explanation":  "static analysis of the SSA form of the current source of /repo: every obligation generated by the rules below was decided for all abstract paths of the analysed functions",
		"rules":        rulesUsed,
		"samples":      samples,
		"known":        kn,
	}
	if c != nil {
		cov["functions_analysed"] = len(c.Cov)
		cov["functions"] = c.coveredNames()
		for k, v := range c.Stats {
			cov[strings.ReplaceAll(k, " ", "_")] = v
		}
		cov["packages_loaded"] = len(c.R.Pkgs)
	}
	level := "other"
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(t0).Seconds(),
		"assumptions": []string{"the Go compiler and the runtime implement the language; the libraries behave as documented (models in DESIGN.md)"}}
	if len(vio) > 0 {
		ev["violations"] = len(vio)
		cov["violated"] = vio
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	seen := map[string]bool{}
	for _, l := range kl {
		if !seen[l] {
			fmt.Println(l)
		}
		seen[l] = true
	}
	if len(vio) > 0 {
		for _, v := range vio {
			fmt.Printf("%s: [%s] %s -- %s\n", v["where"], v["rule"], v["obligation"], v["found"])
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		return 1
	}
	fmt.Printf("property %s holds: %d obligations discharged, %d known findings, %.1f s\n", prop, disch, kn, time.Since(t0).Seconds())
	return 0
}
