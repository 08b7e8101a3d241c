package main

// Mechanical mutants of a tree (one edit each, as JSON lines), for testing the checks. Not used by any check.

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutation struct {
	File       string
	Start, End int
	New, What  string
	Line       int
	Func       string
}

func mutants(dir string) error {
	files, err := filepath.Glob(filepath.Join(dir, "*.go"))
	if err != nil {
		return err
	}
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, fn := range files {
		if strings.HasSuffix(fn, "_test.go") {
			continue
		}
		src, err := os.ReadFile(fn)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, fn, src, 0)
		if err != nil {
			return err
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		cur := ""
		emit := func(n ast.Node, repl, what string) {
			enc.Encode(mutation{filepath.Base(fn), off(n.Pos()), off(n.End()), repl, what, fset.Position(n.Pos()).Line, cur})
		}
		swaps := map[token.Token][]string{token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.SUB: {"+"}}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			cur = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.IfStmt:
					emit(x.Cond, "!("+text(x.Cond)+")", "negate condition")
					emit(x.Cond, "("+text(x.Cond)+") && false", "never")
					if x.Else != nil {
						emit(x.Else, "{}", "empty else")
					}
				case *ast.BinaryExpr:
					for _, s := range swaps[x.Op] {
						emit(x, text(x.X)+" "+s+" "+text(x.Y), x.Op.String()+" to "+s)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x, text(x.X), "drop right of "+x.Op.String())
						emit(x, text(x.Y), "drop left of "+x.Op.String())
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x, text(x.X), "drop !")
					}
				case *ast.BasicLit:
					switch x.Kind {
					case token.INT:
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit(x, strconv.Itoa(v+1), "constant + 1")
							if v > 0 {
								emit(x, strconv.Itoa(v-1), "constant - 1")
							}
						}
					case token.STRING:
						if len(x.Value) > 2 && len(x.Value) < 40 {
							emit(x, x.Value[:len(x.Value)-1]+"x"+x.Value[len(x.Value)-1:], "string constant")
						}
					}
				case *ast.Ident:
					switch {
					case x.Name == "true":
						emit(x, "false", "true to false")
					case x.Name == "false":
						emit(x, "true", "false to true")
					}
					for _, p := range [][2]string{{"min", "max"}, {"Min", "Max"}, {"MIN", "MAX"}, {"anyOf", "oneOf"}, {"ANY_OF", "ONE_OF"}, {"AnyOf", "OneOf"}, {"GTE", "GT"}, {"LTE", "LT"}, {"_then", "_else"}, {"THEN", "ELSE"}, {"Items", "Properties"}, {"RUnlock", "Unlock"}, {"RLock", "Lock"}, {"context", "subContext"}, {"currentNode", "value"}} {
						for _, q := range [][2]string{p, {p[1], p[0]}} {
							if strings.Contains(x.Name, q[0]) {
								emit(x, strings.Replace(x.Name, q[0], q[1], 1), "identifier "+x.Name)
							}
						}
					}
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
					emit(x, "", "delete statement")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						s := ""
						for _, r := range x.Rhs {
							s += "_ = " + text(r) + "; "
						}
						emit(x, s, "drop assignment")
					}
				case *ast.BranchStmt:
					emit(x, "", "delete "+x.Tok.String())
					if x.Tok == token.CONTINUE {
						emit(x, "break", "continue to break")
					}
					if x.Tok == token.BREAK {
						emit(x, "continue", "break to continue")
					}
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						last := x.Results[len(x.Results)-1]
						if t := text(last); t != "nil" && (t == "err" || strings.HasPrefix(t, "errors.New") || strings.HasPrefix(t, "fmt.Errorf")) {
							emit(last, "nil", "error dropped")
							emit(x, "{}", "return deleted")
						}
					}
				case *ast.CallExpr:
					for i := 0; i+1 < len(x.Args); i++ {
						emit(x, string(src[off(x.Pos()):off(x.Args[i].Pos())])+text(x.Args[i+1])+", "+text(x.Args[i])+string(src[off(x.Args[i+1].End()):off(x.End())]), "swap arguments")
					}
				case *ast.CaseClause:
					if len(x.List) > 1 {
						for i := range x.List {
							var l []string
							for j := range x.List {
								if j != i {
									l = append(l, text(x.List[j]))
								}
							}
							enc.Encode(mutation{filepath.Base(fn), off(x.List[0].Pos()), off(x.List[len(x.List)-1].End()), strings.Join(l, ", "), "drop a case", fset.Position(x.Pos()).Line, cur})
						}
					}
				case *ast.CompositeLit:
					if len(x.Elts) > 0 && len(x.Elts) < 30 {
						for i := range x.Elts {
							var l []string
							for j := range x.Elts {
								if j != i {
									l = append(l, text(x.Elts[j]))
								}
							}
							if len(strings.Join(l, "")) < 400 {
								emit(x, string(src[off(x.Pos()):off(x.Lbrace)])+"{"+strings.Join(l, ", ")+"}", "drop an element")
							}
						}
					}
				}
				return true
			})
		}
	}
	return nil
}
