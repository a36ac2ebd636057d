package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

// refgen lists edits of the repository that keep its behaviour, as JSON lines
// like tools/gomut: "checker refsites". They are used to look for alarms that
// come from how code is written (tools/refsweep.py); no check uses this.

type refEdit struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	App   string `json:"app,omitempty"`
	Op    string `json:"op"`
	Line  int    `json:"line"`
	Old   string `json:"old"`
}

type refGen struct {
	r    *Repo
	p    *packages.Package
	f    *ast.File
	src  []byte
	name string
	n    int
	lhs  map[ast.Node]bool
	out  func(refEdit)
}

func refSites(r *Repo) {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	seen := map[string]bool{}
	for _, p := range r.Pkgs {
		for _, f := range p.Syntax {
			fn := r.Fset.Position(f.Pos()).Filename
			rel, err := filepath.Rel(r.Root, fn)
			if err != nil || strings.HasPrefix(rel, "..") || seen[rel] || strings.HasSuffix(rel, "_test.go") || strings.Contains(rel, "pb.") || strings.Contains(rel, "testcases") {
				continue
			}
			seen[rel] = true
			src, err := os.ReadFile(fn)
			if err != nil {
				continue
			}
			g := &refGen{r: r, p: p, f: f, src: src, name: rel, out: func(e refEdit) { enc.Encode(e) }}
			g.file()
		}
	}
}

func (g *refGen) off(p token.Pos) int    { return g.r.Fset.Position(p).Offset }
func (g *refGen) text(n ast.Node) string { return string(g.src[g.off(n.Pos()):g.off(n.End())]) }
func (g *refGen) typ(e ast.Expr) types.Type {
	if tv, ok := g.p.TypesInfo.Types[e]; ok {
		return tv.Type
	}
	return nil
}

func (g *refGen) emit(op string, a, b token.Pos, neu, app string) {
	old := string(g.src[g.off(a):g.off(b)])
	if len(old) > 120 {
		old = old[:120]
	}
	g.out(refEdit{g.name, g.off(a), g.off(b), neu, app, op, g.r.Fset.Position(a).Line, old})
}

func (g *refGen) isLog(n ast.Node) bool {
	t := g.text(n)
	if i := strings.IndexByte(t, '\n'); i >= 0 {
		return false
	}
	for _, w := range []string{"logger.", "log.", "Logger.", "fmt.Print"} {
		if strings.HasPrefix(t, w) && !strings.Contains(t, "Fatal") {
			return true
		}
	}
	return false
}

// body returns the text between the braces of a block.
func (g *refGen) inner(b *ast.BlockStmt) string {
	return string(g.src[g.off(b.Lbrace)+1 : g.off(b.Rbrace)])
}

func (g *refGen) span(list []ast.Stmt) string {
	return string(g.src[g.off(list[0].Pos()):g.off(list[len(list)-1].End())])
}

// escapes: control leaves the statements other than at their end.
func escapes(n ast.Node) (ret, brk bool) {
	var rec func(n ast.Node, inLoop, inSwitch bool)
	rec = func(n ast.Node, inLoop, inSwitch bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == nil || x == n {
				return true
			}
			switch y := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ReturnStmt:
				ret = true
			case *ast.DeferStmt:
				ret = true
			case *ast.LabeledStmt:
				brk = true
			case *ast.BranchStmt:
				switch {
				case y.Label != nil, y.Tok == token.GOTO, y.Tok == token.FALLTHROUGH:
					brk = true
				case y.Tok == token.BREAK && !inLoop && !inSwitch:
					brk = true
				case y.Tok == token.CONTINUE && !inLoop:
					brk = true
				}
			case *ast.ForStmt, *ast.RangeStmt:
				rec(x, true, inSwitch)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				rec(x, inLoop, true)
				return false
			}
			return true
		})
	}
	switch y := n.(type) {
	case *ast.ReturnStmt, *ast.DeferStmt:
		return true, false
	case *ast.BranchStmt, *ast.LabeledStmt:
		return false, true
	case *ast.ForStmt, *ast.RangeStmt:
		rec(y, true, false)
	case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
		rec(y, false, true)
	default:
		rec(y, false, false)
	}
	return
}

func terminates(b *ast.BlockStmt) bool {
	if len(b.List) == 0 {
		return false
	}
	switch x := b.List[len(b.List)-1].(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.CONTINUE || x.Tok == token.BREAK
	}
	return false
}

func (g *refGen) v() string {
	g.n++
	return fmt.Sprintf("rf%d", g.n)
}

func (g *refGen) file() {
	g.lhs = map[ast.Node]bool{}
	ast.Inspect(g.f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			for _, l := range x.Lhs {
				g.lhs[l] = true
			}
		case *ast.IncDecStmt:
			g.lhs[x.X] = true
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				g.lhs[x.X] = true
			}
		}
		return true
	})
	for _, d := range g.f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		g.split(fd)
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				g.block(x.List)
			case *ast.CaseClause:
				g.block(x.Body)
			case *ast.CommClause:
				g.block(x.Body)
			case *ast.IfStmt:
				g.ifStmt(x)
			case *ast.ForStmt:
				g.forStmt(x)
				g.loopBody(x.Body)
			case *ast.RangeStmt:
				g.rangeStmt(x)
				g.loopBody(x.Body)
			case *ast.SwitchStmt:
				g.switchStmt(x)
			case *ast.BinaryExpr:
				g.binary(x)
			case *ast.BasicLit:
				if x.Kind == token.INT || x.Kind == token.STRING {
					h := "const" + g.v()
					g.emit("constx", x.Pos(), x.End(), h, "\nconst "+h+" = "+x.Value+"\n")
				}
			case *ast.CompositeLit:
				if len(x.Elts) == 0 && x.Type != nil {
					switch x.Type.(type) {
					case *ast.ArrayType:
						if x.Type.(*ast.ArrayType).Len == nil {
							g.emit("emptylit", x.Pos(), x.End(), "make("+g.text(x.Type)+", 0)", "")
						}
					case *ast.MapType:
						g.emit("emptylit", x.Pos(), x.End(), "make("+g.text(x.Type)+")", "")
					}
				}
			case *ast.SelectorExpr:
				g.getter(x)
			case *ast.CallExpr:
				if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && x.Ellipsis == token.NoPos && len(x.Args) == 2 {
					if t := g.typ(x.Args[0]); t != nil {
						okT := true
						tt := g.typeText(t, &okT)
						if _, sl := t.(*types.Slice); sl && okT {
							g.emit("appendspread", x.Pos(), x.End(), "append("+g.text(x.Args[0])+", "+tt+"{"+g.text(x.Args[1])+"}...)", "")
						}
					}
				}
			case *ast.GoStmt:
				g.goHelper(x)
			}
			return true
		})
	}
}

// getter: reading a field of a message through its getter.
func (g *refGen) getter(x *ast.SelectorExpr) {
	sel := g.p.TypesInfo.Selections[x]
	if sel == nil || sel.Kind() != types.FieldVal {
		return
	}
	if o, _, _ := types.LookupFieldOrMethod(sel.Recv(), true, nil, "Get"+x.Sel.Name); o == nil {
		return
	} else if _, ok := o.(*types.Func); !ok {
		return
	}
	if g.lhs[x] {
		return
	}
	g.emit("getter", x.Pos(), x.End(), g.text(x.X)+".Get"+x.Sel.Name+"()", "")
}

// goHelper: the body of a goroutine becomes a function of the package.
func (g *refGen) goHelper(x *ast.GoStmt) {
	lit, ok := x.Call.Fun.(*ast.FuncLit)
	if !ok {
		return
	}
	info := g.p.TypesInfo
	seen := map[*types.Var]bool{}
	var vs []*types.Var
	bad := false
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.Ident:
			o, ok := info.Uses[y].(*types.Var)
			if !ok || o.IsField() || o.Pkg() == nil || o.Parent() == o.Pkg().Scope() || o.Pos() >= lit.Pos() && o.Pos() < lit.End() || seen[o] {
				return true
			}
			seen[o] = true
			vs = append(vs, o)
			if g.assignedTwice(o) {
				bad = true
			}
		}
		return true
	})
	if bad {
		return
	}
	okT := true
	var params, args []string
	if lit.Type.Params != nil {
		for _, f := range lit.Type.Params.List {
			for _, n := range f.Names {
				params = append(params, n.Name+" "+g.text(f.Type))
			}
		}
	}
	for _, a := range x.Call.Args {
		args = append(args, g.text(a))
	}
	for _, o := range vs {
		t := g.typeText(o.Type(), &okT)
		if _, st := o.Type().Underlying().(*types.Struct); st && g.hasMethodAddr(o.Type()) {
			params = append(params, o.Name()+" *"+t)
			args = append(args, "&"+o.Name())
			continue
		}
		params = append(params, o.Name()+" "+t)
		args = append(args, o.Name())
	}
	if !okT {
		return
	}
	h := "goroutine" + g.v()
	g.emit("gohelper", x.Pos(), x.End(), "go "+h+"("+strings.Join(args, ", ")+")",
		"\nfunc "+h+"("+strings.Join(params, ", ")+") "+g.text(lit.Body)+"\n")
}

// inline: a variable that is only used in the next statement is replaced by its value.
func (g *refGen) inline(a, b ast.Stmt) {
	x, ok := a.(*ast.AssignStmt)
	if !ok || x.Tok != token.DEFINE || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
		return
	}
	if _, lit := x.Rhs[0].(*ast.FuncLit); lit {
		return
	}
	o := g.p.TypesInfo.Defs[x.Lhs[0].(*ast.Ident)]
	if o == nil {
		return
	}
	var n ast.Node = b
	switch y := b.(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.ReturnStmt, *ast.SendStmt:
	case *ast.IfStmt:
		n = y.Cond
		if y.Init != nil {
			n = y.Init
		}
	case *ast.RangeStmt:
		n = y.X
	case *ast.SwitchStmt:
		if y.Tag == nil || y.Init != nil {
			return
		}
		n = y.Tag
	default:
		return
	}
	var at *ast.Ident
	uses := 0
	for id, u := range g.p.TypesInfo.Uses {
		if u == o {
			uses++
			if id.Pos() >= n.Pos() && id.Pos() < n.End() {
				at = id
			}
		}
	}
	if uses != 1 || at == nil || g.lhs[at] {
		return
	}
	inLit := false
	ast.Inspect(n, func(m ast.Node) bool {
		if l, ok := m.(*ast.FuncLit); ok && at.Pos() >= l.Pos() && at.Pos() < l.End() {
			inLit = true
		}
		return true
	})
	if inLit {
		return
	}
	txt := g.text(b)
	i, j := g.off(at.Pos())-g.off(b.Pos()), g.off(at.End())-g.off(b.Pos())
	r := g.text(x.Rhs[0])
	switch x.Rhs[0].(type) {
	case *ast.BinaryExpr, *ast.UnaryExpr, *ast.CompositeLit:
		r = "(" + r + ")"
	}
	g.emit("inline", a.Pos(), b.End(), txt[:i]+r+txt[j:], "")
}

func (g *refGen) if2switch(x *ast.IfStmt) {
	bad := x.Init != nil
	s := "switch {\n"
	n := 0
	var rec func(f *ast.IfStmt)
	rec = func(f *ast.IfStmt) {
		if f.Init != nil {
			bad = true
			return
		}
		n++
		s += "case " + g.text(f.Cond) + ":\n" + g.inner(f.Body) + "\n"
		switch e := f.Else.(type) {
		case *ast.IfStmt:
			rec(e)
		case *ast.BlockStmt:
			s += "default:\n" + g.inner(e) + "\n"
		}
	}
	rec(x)
	ast.Inspect(x, func(m ast.Node) bool {
		if b, ok := m.(*ast.BranchStmt); ok && b.Tok == token.BREAK && b.Label == nil {
			bad = true
		}
		return true
	})
	if bad {
		return
	}
	g.emit("if2switch", x.Pos(), x.End(), s+"}", "")
}

// split: the body of a function moves to a helper.
func (g *refGen) split(fd *ast.FuncDecl) {
	if fd.Name.Name == "init" || fd.Name.Name == "main" || fd.Type.TypeParams != nil {
		return
	}
	var params, args []string
	field := func(l *ast.FieldList) bool {
		if l == nil {
			return true
		}
		for _, f := range l.List {
			if len(f.Names) == 0 {
				return false
			}
			for _, n := range f.Names {
				if n.Name == "_" {
					return false
				}
				params = append(params, n.Name+" "+g.text(f.Type))
				if _, ok := f.Type.(*ast.Ellipsis); ok {
					args = append(args, n.Name+"...")
				} else {
					args = append(args, n.Name)
				}
			}
		}
		return true
	}
	if !field(fd.Recv) || !field(fd.Type.Params) {
		return
	}
	h := "helper" + g.v()
	res := ""
	call := h + "(" + strings.Join(args, ", ") + ")"
	if fd.Type.Results != nil {
		res = " " + g.text(fd.Type.Results)
		call = "return " + call
	}
	g.emit("split", fd.Body.Pos(), fd.Body.End(), "{\n\t"+call+"\n}",
		"\nfunc "+h+"("+strings.Join(params, ", ")+")"+res+" "+g.text(fd.Body)+"\n")
}

func (g *refGen) ifStmt(x *ast.IfStmt) {
	g.condHelper(x.Cond)
	if len(x.Body.List) == 1 && x.Else == nil && x.Init == nil {
		if y, ok := x.Body.List[0].(*ast.IfStmt); ok && y.Else == nil && y.Init == nil {
			g.emit("mergeif", x.Pos(), x.End(), "if ("+g.text(x.Cond)+") && ("+g.text(y.Cond)+") "+g.text(y.Body), "")
		}
	}
	c := g.text(x.Cond)
	body := g.text(x.Body)
	in := ""
	if x.Init != nil {
		in = g.text(x.Init) + "; "
	}
	if e, ok := x.Else.(*ast.BlockStmt); ok {
		g.emit("ifinv", x.Pos(), x.End(), "if "+in+"!("+c+") "+g.text(e)+" else "+body, "")
	}
	if x.Init == nil {
		v := g.v()
		g.emit("condlocal", x.Cond.Pos(), x.Cond.End(), v+" := "+c+"; "+v, "")
	}
	if b, ok := x.Cond.(*ast.BinaryExpr); ok && (b.Op == token.LAND || b.Op == token.LOR) {
		op := "||"
		if b.Op == token.LOR {
			op = "&&"
		}
		g.emit("demorgan", x.Cond.Pos(), x.Cond.End(), "!(!("+g.text(b.X)+") "+op+" !("+g.text(b.Y)+"))", "")
		if b.Op == token.LAND && x.Else == nil {
			g.emit("nestif", x.Pos(), x.End(), "if "+in+g.text(b.X)+" {\nif "+g.text(b.Y)+" "+body+"\n}", "")
		}
	}
}

func (g *refGen) binary(b *ast.BinaryExpr) {
	flip := map[token.Token]string{token.LSS: ">", token.GTR: "<", token.LEQ: ">=", token.GEQ: "<=", token.EQL: "==", token.NEQ: "!="}[b.Op]
	if b.Op == token.MUL && !(g.calls(b.X) && g.calls(b.Y)) {
		g.emit("commute", b.Pos(), b.End(), g.text(b.Y)+" * "+g.text(b.X), "")
	}
	if flip == "" {
		return
	}
	if g.calls(b.X) && g.calls(b.Y) {
		return
	}
	g.emit("cmpflip", b.Pos(), b.End(), g.text(b.Y)+" "+flip+" "+g.text(b.X), "")
	neg := map[token.Token]string{token.LSS: ">=", token.GTR: "<=", token.LEQ: ">", token.GEQ: "<", token.EQL: "!=", token.NEQ: "=="}[b.Op]
	if t := g.typ(b.X); t != nil {
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
			return
		}
	}
	g.emit("cmpneg", b.Pos(), b.End(), "!("+g.text(b.X)+" "+neg+" "+g.text(b.Y)+")", "")
}

// condHelper: a condition becomes a function of the package.
func (g *refGen) condHelper(e ast.Expr) {
	if _, ok := e.(*ast.Ident); ok {
		return
	}
	seen := map[*types.Var]bool{}
	var params, args []string
	bad, okT := false, true
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			bad = true
		}
		id, ok := n.(*ast.Ident)
		if !ok {
			return true
		}
		o, ok := g.p.TypesInfo.Uses[id].(*types.Var)
		if !ok || o.IsField() || o.Pkg() == nil || o.Parent() == o.Pkg().Scope() || seen[o] {
			return true
		}
		seen[o] = true
		if _, st := o.Type().Underlying().(*types.Struct); st && g.hasMethodAddr(o.Type()) {
			bad = true
		}
		params = append(params, o.Name()+" "+g.typeText(o.Type(), &okT))
		args = append(args, o.Name())
		return true
	})
	if bad || !okT {
		return
	}
	h := "cond" + g.v()
	g.emit("condhelper", e.Pos(), e.End(), h+"("+strings.Join(args, ", ")+")", "\nfunc "+h+"("+strings.Join(params, ", ")+") bool {\n\treturn "+g.text(e)+"\n}\n")
}

// defHelper: the value of a new variable is computed by a function of the package.
func (g *refGen) defHelper(x *ast.AssignStmt) {
	if x.Tok != token.DEFINE || len(x.Rhs) != 1 || len(x.Lhs) > 2 {
		return
	}
	e := x.Rhs[0]
	switch y := e.(type) {
	case *ast.BasicLit, *ast.Ident, *ast.FuncLit, *ast.TypeAssertExpr, *ast.IndexExpr:
		return
	case *ast.UnaryExpr:
		if y.Op == token.ARROW && len(x.Lhs) == 2 {
			return
		}
	}
	seen := map[*types.Var]bool{}
	var params, args []string
	bad, okT := false, true
	ast.Inspect(e, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.FuncLit:
			bad = true
		case *ast.UnaryExpr:
			if y.Op == token.AND {
				if _, lit := y.X.(*ast.CompositeLit); !lit {
					bad = true
				}
			}
		case *ast.Ident:
			o, ok := g.p.TypesInfo.Uses[y].(*types.Var)
			if !ok || o.IsField() || o.Pkg() == nil || o.Parent() == o.Pkg().Scope() || seen[o] {
				return true
			}
			seen[o] = true
			if _, st := o.Type().Underlying().(*types.Struct); st && g.hasMethodAddr(o.Type()) {
				bad = true
			}
			params = append(params, o.Name()+" "+g.typeText(o.Type(), &okT))
			args = append(args, o.Name())
		}
		return true
	})
	t := g.typ(e)
	if bad || t == nil {
		return
	}
	res := ""
	if tu, ok := t.(*types.Tuple); ok {
		var rs []string
		for i := 0; i < tu.Len(); i++ {
			rs = append(rs, g.typeText(tu.At(i).Type(), &okT))
		}
		res = "(" + strings.Join(rs, ", ") + ")"
	} else {
		res = g.typeText(types.Default(t), &okT)
	}
	if !okT {
		return
	}
	h := "value" + g.v()
	g.emit("valuehelper", e.Pos(), e.End(), h+"("+strings.Join(args, ", ")+")", "\nfunc "+h+"("+strings.Join(params, ", ")+") "+res+" {\n\treturn "+g.text(e)+"\n}\n")
	if len(x.Lhs) == 1 {
		if g.p.TypesInfo.Defs[x.Lhs[0].(*ast.Ident)] != nil {
			g.emit("declassign", x.Pos(), x.End(), "var "+g.text(x.Lhs[0])+" "+res+"\n"+g.text(x.Lhs[0])+" = "+g.text(e), "")
		}
	}
}

// litAssign: the fields of a literal are set one by one.
func (g *refGen) litAssign(x *ast.AssignStmt) {
	if x.Tok != token.DEFINE || len(x.Rhs) != 1 || len(x.Lhs) != 1 {
		return
	}
	e := x.Rhs[0]
	pre := ""
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		pre = "&"
		e = u.X
	}
	l, ok := e.(*ast.CompositeLit)
	if !ok || len(l.Elts) == 0 {
		return
	}
	t := g.typ(l)
	if t == nil {
		return
	}
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return
	}
	v := g.text(x.Lhs[0])
	s := v + " := " + pre + g.text(l.Type) + "{}\n"
	for _, el := range l.Elts {
		kv, ok := el.(*ast.KeyValueExpr)
		if !ok {
			return
		}
		s += v + "." + g.text(kv.Key) + " = " + g.text(kv.Value) + "\n"
	}
	g.emit("litassign", x.Pos(), x.End(), s, "")
}

func (g *refGen) calls(n ast.Node) bool {
	is := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.CallExpr:
			if tv, ok := g.p.TypesInfo.Types[y.Fun]; ok && (tv.IsType() || tv.IsBuiltin()) {
				return true
			}
			is = true
		case *ast.UnaryExpr:
			if y.Op == token.ARROW {
				is = true
			}
		}
		return true
	})
	return is
}

func (g *refGen) rangeStmt(x *ast.RangeStmt) {
	t := g.typ(x.X)
	if t != nil && x.Tok != token.ASSIGN {
		if m, ok := t.Underlying().(*types.Map); ok {
			okT := true
			kt := g.typeText(m.Key(), &okT)
			mv, ks, k := g.v(), g.v(), g.v()
			pre := ""
			if id, ok := x.Key.(*ast.Ident); ok && id.Name != "_" {
				k = id.Name
			}
			if v, ok := x.Value.(*ast.Ident); ok && v.Name != "_" {
				pre = "\n" + v.Name + " := " + mv + "[" + k + "]"
			}
			if okT {
				g.emit("mapkeys", x.Pos(), x.End(), mv+" := "+g.text(x.X)+"\n"+ks+" := make([]"+kt+", 0, len("+mv+"))\nfor "+k+" := range "+mv+" {\n"+ks+" = append("+ks+", "+k+")\n}\nfor _, "+k+" := range "+ks+" {"+pre+"\n"+g.inner(x.Body)+"}", "")
			}
		}
	}
	if t == nil || x.Tok == token.ASSIGN {
		return
	}
	if _, ok := t.Underlying().(*types.Slice); !ok {
		return
	}
	i, xs := g.v(), g.v()
	pre := ""
	if k, ok := x.Key.(*ast.Ident); ok && k.Name != "_" {
		pre += "\n" + k.Name + " := " + i
	}
	if v, ok := x.Value.(*ast.Ident); ok && v.Name != "_" {
		pre += "\n" + v.Name + " := " + xs + "[" + i + "]"
	}
	g.emit("idxloop", x.Pos(), x.End(), "for "+i+", "+xs+" := 0, "+g.text(x.X)+"; "+i+" < len("+xs+"); "+i+"++ {"+pre+"\n"+g.inner(x.Body)+"}", "")
}

func (g *refGen) forStmt(x *ast.ForStmt) {
	if x.Cond == nil {
		return
	}
	post := ""
	if x.Post != nil {
		post = "; " + g.text(x.Post) + " "
	}
	in := ""
	if x.Init != nil {
		in = g.text(x.Init)
	}
	semi := ""
	if in != "" || post != "" {
		semi = in + "; "
		if post == "" {
			post = ";"
		}
	}
	g.emit("condbreak", x.Pos(), x.End(), "for "+semi+post+"{\nif !("+g.text(x.Cond)+") {\nbreak\n}\n"+g.inner(x.Body)+"}", "")
	cont := false
	ast.Inspect(x.Body, func(n ast.Node) bool {
		if b, ok := n.(*ast.BranchStmt); ok && b.Tok == token.CONTINUE {
			cont = true
		}
		_, lit := n.(*ast.FuncLit)
		return !lit
	})
	if !cont && x.Init != nil && x.Post != nil {
		g.emit("while", x.Pos(), x.End(), "{\n"+in+"\nfor "+g.text(x.Cond)+" {\n"+g.inner(x.Body)+"\n"+g.text(x.Post)+"\n}\n}", "")
	}
}

// loopBody: continue inverted, bodies extracted.
func (g *refGen) loopBody(b *ast.BlockStmt) {
	for i, s := range b.List {
		f, ok := s.(*ast.IfStmt)
		if !ok || f.Else != nil || f.Init != nil || i == len(b.List)-1 {
			continue
		}
		n := len(f.Body.List)
		if n == 0 {
			continue
		}
		br, ok := f.Body.List[n-1].(*ast.BranchStmt)
		if !ok || br.Tok != token.CONTINUE || br.Label != nil {
			continue
		}
		rest := g.span(b.List[i+1:])
		if n == 1 {
			g.emit("continv", f.Pos(), b.List[len(b.List)-1].End(), "if !("+g.text(f.Cond)+") {\n"+rest+"\n}", "")
		}
	}
	g.extract(b.List, "bodyhelper", true)
}

func (g *refGen) switchStmt(x *ast.SwitchStmt) {
	bad := false
	ast.Inspect(x.Body, func(n ast.Node) bool {
		switch y := n.(type) {
		case *ast.BranchStmt:
			if y.Tok == token.FALLTHROUGH || y.Tok == token.BREAK {
				bad = true
			}
		case *ast.FuncLit:
			return false
		}
		return true
	})
	if bad || len(x.Body.List) == 0 {
		return
	}
	in := ""
	if x.Init != nil {
		in = g.text(x.Init) + "; "
	}
	tag := ""
	if x.Tag != nil {
		tag = g.v()
		if in != "" {
			return
		}
		in = tag + " := " + g.text(x.Tag) + "; "
	}
	s, def := "", ""
	for _, cl := range x.Body.List {
		cc := cl.(*ast.CaseClause)
		b := "{\n"
		if len(cc.Body) > 0 {
			b += g.span(cc.Body) + "\n"
		}
		b += "}"
		if cc.List == nil {
			def = " else " + b
			continue
		}
		var cs []string
		for _, e := range cc.List {
			if tag != "" {
				cs = append(cs, tag+" == "+g.text(e))
			} else {
				cs = append(cs, "("+g.text(e)+")")
			}
		}
		if s != "" {
			s += " else "
			in = ""
		}
		s += "if " + in + strings.Join(cs, " || ") + " " + b
	}
	if s == "" {
		return
	}
	g.emit("switch2if", x.Pos(), x.End(), s+def, "")
}

func (g *refGen) block(list []ast.Stmt) {
	for i, s := range list {
		if g.isLog(s) {
			continue
		}
		g.stmt(s)
		if f, ok := s.(*ast.IfStmt); ok && f.Else == nil && f.Init == nil && terminates(f.Body) && i < len(list)-1 {
			lab := false
			for _, r := range list[i+1:] {
				if _, ok := r.(*ast.LabeledStmt); ok {
					lab = true
				}
			}
			if !lab {
				g.emit("earlyelse", f.Pos(), list[len(list)-1].End(), g.text(f)+" else {\n"+g.span(list[i+1:])+"\n}", "")
			}
		}
		if i > 0 {
			g.swap(list[i-1], s)
			g.inline(list[i-1], s)
		}
		if f, ok := s.(*ast.IfStmt); ok {
			g.if2switch(f)
		}
		if r, ok := s.(*ast.RangeStmt); ok && g.calls(r.X) {
			v := g.v()
			t := g.text(r)
			i, j := g.off(r.X.Pos())-g.off(r.Pos()), g.off(r.X.End())-g.off(r.Pos())
			g.emit("rangetmp", r.Pos(), r.End(), v+" := "+t[i:j]+"\n"+t[:i]+v+t[j:], "")
		}
		g.extract(list[i:i+1], "stmthelper", false)
		if i+2 <= len(list) {
			g.extract(list[i:i+2], "pairhelper", false)
		}
		if i+3 <= len(list) {
			g.extract(list[i:i+3], "triohelper", false)
		}
	}
}

func (g *refGen) swap(a, b ast.Stmt) {
	def := func(s ast.Stmt) (string, ast.Expr) {
		x, ok := s.(*ast.AssignStmt)
		if !ok || x.Tok != token.DEFINE || len(x.Lhs) != 1 || len(x.Rhs) != 1 {
			return "", nil
		}
		return x.Lhs[0].(*ast.Ident).Name, x.Rhs[0]
	}
	na, ea := def(a)
	nb, eb := def(b)
	if ea == nil || eb == nil || g.calls(ea) && g.calls(eb) {
		return
	}
	uses := false
	ast.Inspect(eb, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == na {
			uses = true
		}
		return true
	})
	_ = nb
	if !uses {
		g.emit("swap", a.Pos(), b.End(), g.text(b)+"\n"+g.text(a), "")
	}
}

func (g *refGen) stmt(s ast.Stmt) {
	ret, brk := escapes(s)
	switch x := s.(type) {
	case *ast.ExprStmt:
		if !ret && !brk {
			g.emit("closure", s.Pos(), s.End(), "func() {\n"+g.text(s)+"\n}()", "")
		}
		if c, ok := x.X.(*ast.CallExpr); ok {
			g.argTmp(s, c)
		}
	case *ast.AssignStmt:
		g.defHelper(x)
		g.litAssign(x)
		if x.Tok != token.DEFINE && !ret && !brk {
			g.emit("closure", s.Pos(), s.End(), "func() {\n"+g.text(s)+"\n}()", "")
		}
		if x.Tok == token.ADD_ASSIGN {
			g.emit("opassign", s.Pos(), s.End(), g.text(x.Lhs[0])+" = "+g.text(x.Lhs[0])+" + ("+g.text(x.Rhs[0])+")", "")
		}
		if x.Tok == token.DEFINE && len(x.Lhs) == 1 && len(x.Rhs) == 1 {
			g.emit("vardecl", s.Pos(), s.End(), "var "+g.text(x.Lhs[0])+" = "+g.text(x.Rhs[0]), "")
			v := g.v()
			g.emit("viatmp", s.Pos(), s.End(), v+" := "+g.text(x.Rhs[0])+"\n"+g.text(x.Lhs[0])+" := "+v, "")
		}
		if x.Tok == token.DEFINE && len(x.Lhs) == 2 && len(x.Rhs) == 1 {
			all := true
			for _, l := range x.Lhs {
				id := l.(*ast.Ident)
				if id.Name == "_" || g.p.TypesInfo.Defs[id] == nil {
					all = false
				}
			}
			if all {
				v, w := g.v(), g.v()
				g.emit("viatmp", s.Pos(), s.End(), v+", "+w+" := "+g.text(x.Rhs[0])+"\n"+g.text(x.Lhs[0])+", "+g.text(x.Lhs[1])+" := "+v+", "+w, "")
			}
		}
		if len(x.Rhs) == 1 {
			if c, ok := x.Rhs[0].(*ast.CallExpr); ok {
				g.argTmp(s, c)
			}
		}
	case *ast.IncDecStmt:
		op := "+="
		if x.Tok == token.DEC {
			op = "-="
		}
		g.emit("opassign", s.Pos(), s.End(), g.text(x.X)+" "+op+" 1", "")
	case *ast.ReturnStmt:
		if len(x.Results) == 1 {
			if c, ok := x.Results[0].(*ast.CallExpr); ok {
				if t, ok := g.typ(c).(*types.Tuple); !ok && t == nil {
					v := g.v()
					g.emit("rettmp", s.Pos(), s.End(), v+" := "+g.text(c)+"\nreturn "+v, "")
				}
				g.argTmp(s, c)
			}
		}
	case *ast.IfStmt:
		if x.Init != nil && !ret && !brk {
			g.emit("ifinit", s.Pos(), s.End(), "{\n"+g.text(x.Init)+"\nif "+string(g.src[g.off(x.Cond.Pos()):g.off(x.End())])+"\n}", "")
		} else if x.Init != nil {
			g.emit("ifinit", s.Pos(), s.End(), "{\n"+g.text(x.Init)+"\nif "+string(g.src[g.off(x.Cond.Pos()):g.off(x.End())])+"\n}", "")
		}
		if !ret && !brk {
			g.emit("closure", s.Pos(), s.End(), "func() {\n"+g.text(s)+"\n}()", "")
		}
	case *ast.ForStmt, *ast.RangeStmt:
		if !ret && !brk {
			g.emit("closure", s.Pos(), s.End(), "func() {\n"+g.text(s)+"\n}()", "")
		}
	case *ast.GoStmt:
		if _, ok := x.Call.Fun.(*ast.FuncLit); ok {
			v := g.v()
			g.emit("golocal", x.Pos(), x.End(), v+" := "+g.text(x.Call.Fun)+"\ngo "+v+string(g.src[g.off(x.Call.Lparen):g.off(x.Call.End())]), "")
		}
	case *ast.DeferStmt:
		if len(x.Call.Args) == 0 {
			if _, ok := x.Call.Fun.(*ast.FuncLit); !ok {
				g.emit("deferclosure", x.Pos(), x.End(), "defer func() {\n"+g.text(x.Call)+"\n}()", "")
			}
		}
	case *ast.SendStmt:
		v := g.v()
		g.emit("sendtmp", s.Pos(), s.End(), v+" := "+g.text(x.Value)+"\n"+g.text(x.Chan)+" <- "+v, "")
	}
}

// argTmp: the first argument that is a call or a literal gets a name.
func (g *refGen) argTmp(s ast.Stmt, c *ast.CallExpr) {
	if g.calls(c.Fun) {
		return
	}
	if tv, ok := g.p.TypesInfo.Types[c.Fun]; ok && (tv.IsType()) {
		return
	}
	if a, ok := s.(*ast.AssignStmt); ok {
		for _, l := range a.Lhs {
			if _, ok := l.(*ast.Ident); !ok {
				return
			}
		}
	}
	for _, a := range c.Args {
		switch a.(type) {
		case *ast.CallExpr, *ast.UnaryExpr, *ast.CompositeLit, *ast.BinaryExpr:
		default:
			continue
		}
		t := g.typ(a)
		if t == nil {
			return
		}
		if _, ok := t.(*types.Tuple); ok {
			return
		}
		if tv := g.p.TypesInfo.Types[a]; tv.IsType() || tv.Value != nil {
			continue
		}
		v := g.v()
		txt := g.text(s)
		i, j := g.off(a.Pos())-g.off(s.Pos()), g.off(a.End())-g.off(s.Pos())
		g.emit("argtmp", s.Pos(), s.End(), v+" := "+txt[i:j]+"\n"+txt[:i]+v+txt[j:], "")
		return
	}
}

// extract moves statements to a new function of the package. Variables the
// statements assign are passed by address unless there is a single one, which is returned.
func (g *refGen) extract(list []ast.Stmt, op string, loop bool) {
	if len(list) == 0 {
		return
	}
	a, b := list[0].Pos(), list[len(list)-1].End()
	info := g.p.TypesInfo
	cont := false
	for _, s := range list {
		if g.isLog(s) && len(list) == 1 {
			return
		}
		if loop {
			// continue becomes return
			ret, _ := escapes(s)
			if ret {
				return
			}
			ok := true
			var rec func(n ast.Node, l bool, sw bool)
			rec = func(n ast.Node, l, sw bool) {
				ast.Inspect(n, func(x ast.Node) bool {
					if x == nil || x == n {
						return true
					}
					switch y := x.(type) {
					case *ast.FuncLit:
						return false
					case *ast.LabeledStmt:
						ok = false
					case *ast.BranchStmt:
						switch {
						case y.Label != nil || y.Tok == token.GOTO:
							ok = false
						case y.Tok == token.BREAK && !l && !sw:
							ok = false
						case y.Tok == token.CONTINUE && !l:
							cont = true
						case y.Tok == token.CONTINUE:
							ok = ok && true
						}
					case *ast.ForStmt, *ast.RangeStmt:
						rec(x, true, sw)
						return false
					case *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
						rec(x, l, true)
						return false
					}
					return true
				})
			}
			switch s.(type) {
			case *ast.BranchStmt:
				ok = false
			case *ast.ForStmt, *ast.RangeStmt:
				rec(s, true, false)
			case *ast.SelectStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				rec(s, false, true)
			default:
				rec(s, false, false)
			}
			if !ok || cont {
				return
			}
		} else if ret, brk := escapes(s); ret || brk {
			return
		}
	}
	inside := func(p token.Pos) bool { return p >= a && p < b }
	type use struct {
		o       *types.Var
		written bool
	}
	vars := map[*types.Var]*use{}
	bad := false
	note := func(id *ast.Ident, w bool) {
		o, ok := info.Uses[id].(*types.Var)
		if !ok || o.IsField() || o.Pkg() == nil || o.Parent() == o.Pkg().Scope() || inside(o.Pos()) {
			return
		}
		if vars[o] == nil {
			vars[o] = &use{o: o}
		}
		vars[o].written = vars[o].written || w
	}
	for _, s := range list {
		ast.Inspect(s, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.Ident:
				note(x, false)
				if d := info.Defs[x]; d != nil {
					// defined inside and used after
					for id, o := range info.Uses {
						if o == d && id.Pos() >= b {
							bad = true
						}
					}
				}
			case *ast.AssignStmt:
				for _, l := range x.Lhs {
					if id, ok := l.(*ast.Ident); ok && info.Defs[id] == nil {
						note(id, true)
					}
				}
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					bad = true
				}
			case *ast.IncDecStmt:
				if id, ok := x.X.(*ast.Ident); ok {
					note(id, true)
				}
			case *ast.UnaryExpr:
				if id, ok := x.X.(*ast.Ident); ok && x.Op == token.AND {
					note(id, true)
					bad = true
				}
			case *ast.FuncLit:
				// captured variables would be captured by value
				ast.Inspect(x, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok {
						if o, ok := info.Uses[id].(*types.Var); ok && !inside(o.Pos()) && !o.IsField() && o.Pkg() != nil && o.Parent() != o.Pkg().Scope() {
							if g.assignedTwice(o) {
								bad = true
							}
						}
					}
					return true
				})
			}
			return true
		})
	}
	if bad {
		return
	}
	var us []*use
	for _, u := range vars {
		us = append(us, u)
	}
	sort.Slice(us, func(i, j int) bool { return us[i].o.Pos() < us[j].o.Pos() })
	var params, args []string
	var ret *use
	for _, u := range us {
		if u.written {
			if ret != nil {
				return
			}
			ret = u
		}
	}
	okT := true
	for _, u := range us {
		if s, ok := u.o.Type().Underlying().(*types.Struct); ok && s != nil {
			if strings.Contains(u.o.Type().String(), "sync.") && g.hasMethodAddr(u.o.Type()) && !u.written {
				// passed by address
				params = append(params, u.o.Name()+" *"+g.typeText(u.o.Type(), &okT))
				args = append(args, "&"+u.o.Name())
				continue
			}
			if strings.Contains(u.o.Type().String(), "sync.") || g.hasMethodAddr(u.o.Type()) {
				return
			}
		}
		if _, ok := u.o.Type().Underlying().(*types.Array); ok {
			return
		}
		params = append(params, u.o.Name()+" "+g.typeText(u.o.Type(), &okT))
		args = append(args, u.o.Name())
	}
	if !okT {
		return
	}
	h := "extracted" + g.v()
	body := string(g.src[g.off(a):g.off(b)])
	call := h + "(" + strings.Join(args, ", ") + ")"
	if ret != nil {
		g.emit(op, a, b, ret.o.Name()+" = "+call, "\nfunc "+h+"("+strings.Join(params, ", ")+") "+g.typeText(ret.o.Type(), &okT)+" {\n"+body+"\nreturn "+ret.o.Name()+"\n}\n")
		return
	}
	g.emit(op, a, b, call, "\nfunc "+h+"("+strings.Join(params, ", ")+") {\n"+body+"\n}\n")
}

func (g *refGen) hasMethodAddr(t types.Type) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	vs := types.NewMethodSet(t)
	return ms.Len() > vs.Len()
}

func (g *refGen) typeText(t types.Type, ok *bool) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p == g.p.Types {
			return ""
		}
		for _, im := range g.f.Imports {
			if strings.Trim(im.Path.Value, `"`) == p.Path() {
				if im.Name != nil {
					return im.Name.Name
				}
				return p.Name()
			}
		}
		*ok = false
		return p.Name()
	})
}

// assignedTwice: the variable is assigned after its declaration.
func (g *refGen) assignedTwice(o *types.Var) bool {
	n := false
	ast.Inspect(g.f, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if id, ok := l.(*ast.Ident); ok && g.p.TypesInfo.Uses[id] == o {
					n = true
				}
			}
		case *ast.IncDecStmt:
			if id, ok := y.X.(*ast.Ident); ok && g.p.TypesInfo.Uses[id] == o {
				n = true
			}
		case *ast.UnaryExpr:
			if id, ok := y.X.(*ast.Ident); ok && y.Op == token.AND && g.p.TypesInfo.Uses[id] == o {
				n = true
			}
		case *ast.RangeStmt:
			for _, e := range []ast.Expr{y.Key, y.Value} {
				if id, ok := e.(*ast.Ident); ok && (g.p.TypesInfo.Uses[id] == o || g.p.TypesInfo.Defs[id] == o) {
					n = true
				}
			}
		}
		return true
	})
	return n
}
