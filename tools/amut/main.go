// Command amut lists small syntactic mutants of Go files as JSON lines:
// amut ROOT FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strings"
)

type mutant struct {
	ID   string `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	From int    `json:"from"`
	To   int    `json:"to"`
	New  string `json:"new"`
	Op   string `json:"op"`
	Func string `json:"func"`
}

var swap = map[token.Token][]string{
	token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"},
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[2:] {
		path := filepath.Join(root, name)
		src, err := os.ReadFile(path)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn, n := "", 0
		emit := func(from, to token.Pos, repl, op string) {
			n++
			enc.Encode(mutant{fmt.Sprintf("%s:%d:%d", name, fset.Position(from).Line, n), name, fset.Position(from).Line, off(from), off(to), repl, op, fn})
		}
		boring := func(n ast.Node) bool {
			t := text(n)
			return strings.HasPrefix(t, "log.") || strings.HasPrefix(t, "panic(")
		}
		for _, d := range f.Decls {
			g, ok := d.(*ast.FuncDecl)
			if !ok || g.Body == nil {
				continue
			}
			fn = g.Name.Name
			if fn == "String" || fn == "Error" {
				continue
			}
			ast.Inspect(g.Body, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.CallExpr:
					if boring(x) || strings.HasPrefix(text(x.Fun), "fmt.Errorf") || strings.HasPrefix(text(x.Fun), "errors.New") {
						return false
					}
				case *ast.BinaryExpr:
					for _, s := range swap[x.Op] {
						if x.Op == token.ADD && (strings.Contains(text(x), "\"") || strings.Contains(text(x), "`")) {
							continue
						}
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+"->"+s)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "left of "+x.Op.String())
						emit(x.Pos(), x.End(), text(x.Y), "right of "+x.Op.String())
					}
				case *ast.IfStmt:
					if x.Init == nil || true {
						emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negate if")
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "never if")
						emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "always if")
					}
				case *ast.BlockStmt:
					for i, s := range x.List {
						del(s, emit, boring)
						if i+1 < len(x.List) {
							a, b := s, x.List[i+1]
							if simple(a) && simple(b) {
								emit(a.Pos(), b.End(), text(b)+"\n"+text(a), "swap")
							}
						}
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						del(s, emit, boring)
					}
					if len(x.List) > 1 {
						for i := range x.List {
							var keep []string
							for j, e := range x.List {
								if j != i {
									keep = append(keep, text(e))
								}
							}
							emit(x.List[0].Pos(), x.List[len(x.List)-1].End(), strings.Join(keep, ", "), "drop case "+text(x.List[i]))
						}
					}
				case *ast.CommClause:
					for _, s := range x.Body {
						del(s, emit, boring)
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						emit(x.Pos(), x.End(), "("+x.Value+"+1)", "const+1")
						if x.Value != "0" {
							emit(x.Pos(), x.End(), "("+x.Value+"-1)", "const-1")
						}
					case token.STRING:
						emit(x.Pos(), x.End(), `"x"+`+x.Value, "string")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.OpPos, x.OpPos+1, "", "drop !")
					}
				case *ast.DeferStmt:
					emit(x.Pos(), x.Call.Pos(), "", "no defer")
				case *ast.GoStmt:
					emit(x.Pos(), x.Call.Pos(), "", "no go")
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						switch text(r) {
						case "err":
							emit(r.Pos(), r.End(), "nil", "return nil")
						case "true":
							emit(r.Pos(), r.End(), "false", "return false")
						case "false":
							emit(r.Pos(), r.End(), "true", "return true")
						}
					}
				}
				return true
			})
		}
	}
}

func simple(s ast.Stmt) bool {
	switch s := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt:
		return true
	case *ast.AssignStmt:
		return s.Tok != token.DEFINE
	}
	return false
}

func del(s ast.Stmt, emit func(from, to token.Pos, repl, op string), boring func(ast.Node) bool) {
	switch s := s.(type) {
	case *ast.ExprStmt:
		if !boring(s) {
			emit(s.Pos(), s.End(), "", "delete")
		}
	case *ast.AssignStmt:
		if s.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "delete")
		}
	case *ast.IncDecStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.GoStmt, *ast.SendStmt:
		emit(s.Pos(), s.End(), "", "delete")
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			emit(s.Pos(), s.End(), "", "delete")
		}
	}
}
