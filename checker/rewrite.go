package main

// Mechanical behaviour-preserving rewrites of a whole tree, for testing that the checks judge behaviour and
// not form. Not used by any check.

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/token"
	"go/types"
	"os"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type rewriter struct {
	info *types.Info
	pkg  *types.Package
	n    int
	body *ast.FuncDecl
}

func id(s string) *ast.Ident { return ast.NewIdent(s) }

func (w *rewriter) fresh(p string) string { w.n++; return p + strconv.Itoa(w.n) + "x" }

func not(e ast.Expr) ast.Expr { return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}} }

func hasJump(n ast.Node, tok token.Token) bool {
	r := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.BranchStmt:
			if y.Tok == tok {
				r = true
			}
		}
		return true
	})
	return r
}

func rewriteTree(dir, kind string) error {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadSyntax, Dir: dir, Fset: fset, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")}
	pkgs, err := packages.Load(cfg, ".")
	if err != nil || len(pkgs[0].Errors) > 0 {
		return fmt.Errorf("%v %v", err, pkgs[0].Errors)
	}
	w := &rewriter{info: pkgs[0].TypesInfo, pkg: pkgs[0].Types}
	for i, f := range pkgs[0].Syntax {
		f.Comments = nil
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Body != nil {
				fd.Doc = nil
				w.body = fd
				w.funcDecl(kind, fd)
			}
			if gd, ok := d.(*ast.GenDecl); ok {
				ast.Inspect(gd, func(n ast.Node) bool {
					switch x := n.(type) {
					case *ast.Field:
						x.Doc, x.Comment = nil, nil
					case *ast.GenDecl:
						x.Doc = nil
					case *ast.ValueSpec:
						x.Doc, x.Comment = nil, nil
					case *ast.TypeSpec:
						x.Doc, x.Comment = nil, nil
					}
					return true
				})
			}
		}
		var b strings.Builder
		if err := format.Node(&b, fset, f); err != nil {
			return err
		}
		if err := os.WriteFile(pkgs[0].CompiledGoFiles[i], []byte(b.String()), 0o644); err != nil {
			return err
		}
	}
	return nil
}

func (w *rewriter) isSlice(e ast.Expr) bool {
	t := w.info.TypeOf(e)
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func (w *rewriter) pure(e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			ok = false
		}
		return true
	})
	return ok
}

func (w *rewriter) funcDecl(kind string, fd *ast.FuncDecl) {
	switch kind {
	case "params":
		// copies of the parameters
		var pre []ast.Stmt
		for _, l := range []*ast.FieldList{fd.Recv, fd.Type.Params} {
			if l == nil {
				continue
			}
			for _, f := range l.List {
				for _, n := range f.Names {
					if n.Name == "_" {
						continue
					}
					pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(n.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{id(n.Name)}}, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n.Name)}})
				}
			}
		}
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.BlockStmt{List: append(pre, fd.Body.List...)}}}
		if fd.Type.Results != nil {
			fd.Body.List = append(fd.Body.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: id("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}})
		}
		return
	case "closure":
		// the body in a function literal
		named := false
		if fd.Type.Results != nil {
			for _, f := range fd.Type.Results.List {
				named = named || len(f.Names) > 0
			}
		}
		if named || fd.Name.Name == "init" {
			return
		}
		lit := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}, Results: fd.Type.Results}, Body: fd.Body}
		call := &ast.CallExpr{Fun: lit}
		if fd.Type.Results == nil {
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
		} else {
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}}
		}
		return
	case "noop":
		noop := func() []ast.Stmt {
			v := w.fresh("unused")
			return []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}}, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(v)}}}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BlockStmt:
				isSwitch := false
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						isSwitch = true
					}
				}
				if !isSwitch {
					x.List = append(noop(), x.List...)
				}
			case *ast.CaseClause:
				x.Body = append(noop(), x.Body...)
			}
			return true
		})
		return
	}
	astutil.Apply(fd.Body, nil, func(c *astutil.Cursor) bool {
		switch kind {
		case "index":
			x, ok := c.Node().(*ast.RangeStmt)
			if !ok || x.Tok != token.DEFINE || !w.isSlice(x.X) {
				return true
			}
			lst := w.fresh("list")
			i := w.fresh("i")
			var pre []ast.Stmt
			if k, ok := x.Key.(*ast.Ident); ok && k.Name != "_" {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(k.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{id(i)}})
			}
			if k, ok := x.Value.(*ast.Ident); ok && k.Name != "_" {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(k.Name)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: id(lst), Index: id(i)}}})
			}
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{
				&ast.AssignStmt{Lhs: []ast.Expr{id(lst)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.X}},
				&ast.ForStmt{Init: &ast.AssignStmt{Lhs: []ast.Expr{id(i)}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "0"}}},
					Cond: &ast.BinaryExpr{X: id(i), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{id(lst)}}},
					Post: &ast.IncDecStmt{X: id(i), Tok: token.INC},
					Body: &ast.BlockStmt{List: append(pre, x.Body.List...)}}}})
		case "range":
			// index loops from nought to a length as range loops are left to the hand-written edits
		case "loopbreak":
			// for cond { ... } becomes for { if !cond { break } ... }
			x, ok := c.Node().(*ast.ForStmt)
			if !ok || x.Cond == nil {
				return true
			}
			x.Body.List = append([]ast.Stmt{&ast.IfStmt{Cond: not(x.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, x.Body.List...)
			x.Cond = nil
		case "invert":
			x, ok := c.Node().(*ast.IfStmt)
			if !ok || x.Else == nil {
				return true
			}
			el, ok := x.Else.(*ast.BlockStmt)
			if !ok {
				el = &ast.BlockStmt{List: []ast.Stmt{x.Else}}
			}
			x.Cond, x.Body, x.Else = not(x.Cond), el, x.Body
		case "elseafter":
			// if c { A } else { B } where A ends the function: B follows
			x, ok := c.Node().(*ast.BlockStmt)
			if !ok {
				return true
			}
			var out []ast.Stmt
			for _, s := range x.List {
				if i, ok := s.(*ast.IfStmt); ok && i.Else != nil && i.Init == nil && len(i.Body.List) > 0 {
					if _, ret := i.Body.List[len(i.Body.List)-1].(*ast.ReturnStmt); ret {
						el := i.Else
						i.Else = nil
						out = append(out, i, el)
						continue
					}
				}
				out = append(out, s)
			}
			x.List = out
		case "nest":
			x, ok := c.Node().(*ast.IfStmt)
			if !ok || x.Else != nil {
				return true
			}
			b, ok := x.Cond.(*ast.BinaryExpr)
			if !ok || b.Op != token.LAND {
				return true
			}
			x.Cond = b.X
			x.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: x.Body}}}
		case "demorgan":
			b, ok := c.Node().(*ast.BinaryExpr)
			if !ok || (b.Op != token.LAND && b.Op != token.LOR) {
				return true
			}
			op := token.LAND
			if b.Op == token.LAND {
				op = token.LOR
			}
			c.Replace(not(&ast.BinaryExpr{X: not(b.X), Op: op, Y: not(b.Y)}))
		case "swap":
			b, ok := c.Node().(*ast.BinaryExpr)
			if !ok || !w.pure(b) {
				return true
			}
			m := map[token.Token]token.Token{token.EQL: token.EQL, token.NEQ: token.NEQ, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
			if o, ok := m[b.Op]; ok {
				b.X, b.Y, b.Op = b.Y, b.X, o
			}
		case "negcmp":
			b, ok := c.Node().(*ast.BinaryExpr)
			if !ok {
				return true
			}
			if t, ok := w.info.TypeOf(b.X).(*types.Basic); ok && t.Info()&types.IsFloat != 0 {
				return true
			}
			m := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GTR: token.LEQ, token.LEQ: token.GTR, token.GEQ: token.LSS}
			if o, ok := m[b.Op]; ok {
				c.Replace(not(&ast.BinaryExpr{X: b.X, Op: o, Y: b.Y}))
			}
		case "ifinit":
			x, ok := c.Node().(*ast.IfStmt)
			if !ok || x.Init == nil || c.Index() < 0 {
				return true
			}
			in := x.Init
			x.Init = nil
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{in, x}})
		case "condvar":
			// the condition of an if in a variable of its own
			x, ok := c.Node().(*ast.IfStmt)
			if !ok || x.Init != nil || c.Index() < 0 {
				return true
			}
			v := w.fresh("cond")
			cond := x.Cond
			x.Cond = id(v)
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{cond}}, x}})
		case "switchif":
			x, ok := c.Node().(*ast.SwitchStmt)
			if !ok || x.Tag == nil || hasJump(x.Body, token.BREAK) || hasJump(x.Body, token.FALLTHROUGH) || len(x.Body.List) == 0 || c.Index() < 0 {
				return true
			}
			v := w.fresh("tag")
			var def *ast.BlockStmt
			var chain ast.Stmt
			for i := len(x.Body.List) - 1; i >= 0; i-- {
				cc := x.Body.List[i].(*ast.CaseClause)
				if cc.List == nil {
					def = &ast.BlockStmt{List: cc.Body}
				}
			}
			if def != nil {
				chain = def
			}
			for i := len(x.Body.List) - 1; i >= 0; i-- {
				cc := x.Body.List[i].(*ast.CaseClause)
				if cc.List == nil {
					continue
				}
				var cond ast.Expr
				for _, e := range cc.List {
					q := ast.Expr(&ast.BinaryExpr{X: id(v), Op: token.EQL, Y: e})
					if cond == nil {
						cond = q
					} else {
						cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: q}
					}
				}
				chain = &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}, Else: chain}
			}
			var l []ast.Stmt
			if x.Init != nil {
				l = append(l, x.Init)
			}
			l = append(l, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{x.Tag}}, chain)
			c.Replace(&ast.BlockStmt{List: l})
		case "retvar":
			x, ok := c.Node().(*ast.ReturnStmt)
			if !ok || len(x.Results) != 1 || c.Index() < 0 {
				return true
			}
			if t := w.info.TypeOf(x.Results[0]); t == nil || types.Identical(t, types.Typ[types.UntypedNil]) {
				return true
			} else if _, ok := t.(*types.Tuple); ok {
				return true
			} else if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				return true
			}
			v := w.fresh("res")
			r := x.Results[0]
			x.Results = []ast.Expr{id(v)}
			c.Replace(&ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{r}}, x}})
		case "argvar":
			// the arguments of a call statement in variables of their own
			x, ok := c.Node().(*ast.ExprStmt)
			if !ok || c.Index() < 0 {
				return true
			}
			call, ok := x.X.(*ast.CallExpr)
			if !ok || call.Ellipsis.IsValid() {
				return true
			}
			var pre []ast.Stmt
			for i, a := range call.Args {
				t := w.info.TypeOf(a)
				if t == nil || types.Identical(t, types.Typ[types.UntypedNil]) {
					continue
				}
				if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
					continue
				}
				if _, ok := t.(*types.Tuple); ok {
					continue
				}
				if tv, ok := w.info.Types[a]; ok && (tv.IsType() || tv.Value != nil) {
					continue
				}
				v := w.fresh("arg")
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id(v)}, Tok: token.DEFINE, Rhs: []ast.Expr{a}})
				call.Args[i] = id(v)
			}
			if len(pre) > 0 {
				c.Replace(&ast.BlockStmt{List: append(pre, x)})
			}
		case "funcs":
			// the body of a loop over a list in a function literal
			x, ok := c.Node().(*ast.RangeStmt)
			if !ok || x.Tok != token.DEFINE || hasJump(x.Body, token.BREAK) || hasJump(x.Body, token.CONTINUE) {
				return true
			}
			ret := false
			ast.Inspect(x.Body, func(n ast.Node) bool {
				switch n.(type) {
				case *ast.FuncLit:
					return false
				case *ast.ReturnStmt:
					ret = true
				}
				return true
			})
			if ret {
				return true
			}
			x.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: x.Body}}}}}
		case "ptrvar":
			// chains of selections through a local copy of the pointer
			x, ok := c.Node().(*ast.CompositeLit)
			if !ok {
				return true
			}
			_ = x
		}
		return true
	})
}

var rewriteKinds = []string{"params", "closure", "noop", "index", "loopbreak", "invert", "elseafter", "nest", "demorgan", "swap", "negcmp", "ifinit", "condvar", "switchif", "retvar", "argvar", "funcs"}
