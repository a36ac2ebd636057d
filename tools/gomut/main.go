// gomut lists small syntactic changes of Go files, one per line, as JSON:
// {"file","start","end","new","op","line"}. It is used to look for code that no
// check covers.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Op    string `json:"op"`
	Line  int    `json:"line"`
	Old   string `json:"old"`
}

func main() {
	root := os.Args[1]
	for _, f := range os.Args[2:] {
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(a, b token.Pos, neu, op string) {
			m := mut{f, off(a), off(b), neu, op, fs.Position(a).Line, ""}
			m.Old = string(src[m.Start:m.End])
			if len(m.Old) > 100 {
				m.Old = m.Old[:100]
			}
			j, _ := json.Marshal(m)
			fmt.Println(string(j))
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		isLog := func(n ast.Node) bool {
			t := text(n)
			if i := strings.IndexByte(t, '\n'); i >= 0 {
				t = t[:i]
			}
			for _, w := range []string{"logger.", "log.", "logrus.", "Log(", "Logger", "fmt.Print", ".Errorf(", ".Debugf(", ".Infof(", ".Tracef(", ".Warn", ".Info(", ".Debug(", ".Error(", ".Trace"} {
				if strings.Contains(t, w) && !strings.Contains(t, "return") && !strings.Contains(t, "status.") && !strings.Contains(t, "Fatal") {
					return true
				}
			}
			return false
		}
		var stmts func(list []ast.Stmt)
		stmts = func(list []ast.Stmt) {
			for i, s := range list {
				if isLog(s) {
					continue
				}
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.GoStmt, *ast.DeferStmt, *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "delete")
					if d, ok := s.(*ast.DeferStmt); ok {
						emit(d.Pos(), d.Call.Pos(), "", "undefer")
					}
					if d, ok := s.(*ast.GoStmt); ok {
						emit(d.Pos(), d.Call.Pos(), "", "ungo")
					}
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN || x.Tok != token.DEFINE {
						var us []string
						for _, r := range x.Rhs {
							us = append(us, "_ = "+text(r))
						}
						if len(x.Lhs) == len(x.Rhs) {
							emit(s.Pos(), s.End(), strings.Join(us, "; "), "delete")
						} else {
							emit(s.Pos(), s.End(), "", "delete")
						}
					}
				case *ast.ReturnStmt:
					if i == len(list)-1 && len(list) > 0 {
						emit(s.Pos(), s.End(), "", "delete")
					}
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never")
						emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always")
					}
				}
				// swap with the next statement
				if i+1 < len(list) && !isLog(list[i+1]) {
					_, r1 := s.(*ast.ReturnStmt)
					_, r2 := list[i+1].(*ast.ReturnStmt)
					if !r1 && !r2 {
						n := list[i+1]
						emit(s.Pos(), n.End(), text(n)+"\n"+text(s), "swap")
					}
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.ExprStmt:
				if isLog(x) {
					return false
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate")
			case *ast.BinaryExpr:
				sw := map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
					token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
				}
				for _, o := range sw[x.Op] {
					if x.Op == token.ADD {
						if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
							continue
						}
						if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING {
							continue
						}
					}
					emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), o, "op")
				}
				if x.Op == token.EQL || x.Op == token.NEQ {
					o := "!="
					if x.Op == token.NEQ {
						o = "=="
					}
					emit(x.OpPos, x.OpPos+2, o, "op")
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "const")
						if v > 0 {
							emit(x.Pos(), x.End(), fmt.Sprint(v-1), "const")
						}
					}
				}
				if x.Kind == token.STRING && len(x.Value) > 2 && len(x.Value) < 40 && !strings.Contains(x.Value, " ") {
					emit(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:], "string")
				}
			case *ast.Ident:
				if x.Name == "true" || x.Name == "false" {
					emit(x.Pos(), x.End(), map[string]string{"true": "false", "false": "true"}[x.Name], "bool")
				}
			case *ast.CallExpr:
				if f, ok := x.Fun.(*ast.Ident); ok && f.Name == "append" && len(x.Args) == 2 {
					emit(x.Pos(), x.End(), text(x.Args[0]), "noappend")
				}
			}
			return true
		})
	}
}
