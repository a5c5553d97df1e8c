package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

// ownMaps returns the local maps that no other task can see, or nil if no function of the package changes a map that
// another task can see.
func ownMaps(asts []*ast.File, info *types.Info) map[*types.Var]bool {
	fresh := map[*types.Var]bool{}
	isNew := func(e ast.Expr) bool {
		switch x := ast.Unparen(e).(type) {
		case *ast.CompositeLit:
			return true
		case *ast.CallExpr:
			id, ok := x.Fun.(*ast.Ident)
			return ok && id.Name == "make"
		}
		return false
	}
	def := func(id *ast.Ident) {
		if v, ok := info.Defs[id].(*types.Var); ok && isMap(v.Type()) {
			fresh[v] = true
		}
	}
	for _, a := range asts {
		ast.Inspect(a, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.AssignStmt:
				if x.Tok == token.DEFINE && len(x.Lhs) == len(x.Rhs) {
					for i, l := range x.Lhs {
						if id, ok := l.(*ast.Ident); ok && isNew(x.Rhs[i]) {
							def(id)
						}
					}
				}
			case *ast.DeclStmt:
				for _, sp := range x.Decl.(*ast.GenDecl).Specs {
					if vs, ok := sp.(*ast.ValueSpec); ok {
						for i, id := range vs.Names {
							if len(vs.Values) == 0 || i < len(vs.Values) && isNew(vs.Values[i]) {
								def(id)
							}
						}
					}
				}
			}
			return true
		})
	}
	for _, a := range asts { // used by a function literal that it does not belong to
		ast.Inspect(a, func(n ast.Node) bool {
			if l, ok := n.(*ast.FuncLit); ok {
				ast.Inspect(l.Body, func(n ast.Node) bool {
					if id, ok := n.(*ast.Ident); ok {
						if v, ok := info.Uses[id].(*types.Var); ok && (v.Pos() < l.Pos() || v.Pos() > l.End()) {
							delete(fresh, v)
						}
					}
					return true
				})
			}
			return true
		})
	}
	changes := false
	target := func(e ast.Expr) {
		if t := info.Types[e].Type; t == nil || !isMap(t) {
			return
		}
		if id, ok := ast.Unparen(e).(*ast.Ident); ok {
			if v, ok := info.Uses[id].(*types.Var); ok && fresh[v] {
				return
			}
		}
		changes = true
	}
	for _, a := range asts {
		for _, d := range a.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv == nil && fd.Name.Name == "init" {
				continue
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					for _, l := range x.Lhs {
						if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
							target(ix.X)
						}
					}
				case *ast.IncDecStmt:
					if ix, ok := ast.Unparen(x.X).(*ast.IndexExpr); ok {
						target(ix.X)
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && len(x.Args) > 0 {
						target(x.Args[0])
					}
				}
				return true
			})
		}
	}
	if !changes {
		return nil
	}
	return fresh
}

// calls counts the calls and receives in an expression or statement (conversions and built-in functions aside).
func (in *inst) calls(n ast.Node) int {
	k := 0
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				k++
			}
		case *ast.CallExpr:
			tv := in.info.Types[x.Fun]
			if !tv.IsType() && !tv.IsBuiltin() {
				k++
			}
		}
		return true
	})
	return k
}

// mapPoints puts a point before (or after) a statement that uses a map another task may see: two tasks that stand at
// such points of one map, at least one of them writing, are about to use it at the same time, which ends the program.
func (in *inst) mapPoints(s ast.Stmt) {
	if in.fresh == nil {
		return
	}
	start := s.Pos()
	var pre, post string
	point := func(m ast.Expr, write, after bool) {
		t := in.info.Types[m].Type
		if t == nil || !isMap(t) {
			return
		}
		var root *ast.Ident
		for e := m; root == nil; {
			switch x := ast.Unparen(e).(type) {
			case *ast.SelectorExpr:
				e = x.X
			case *ast.StarExpr:
				e = x.X
			case *ast.Ident:
				root = x
			default:
				return
			}
		}
		if v, ok := in.info.Uses[root].(*types.Var); ok {
			if v.Parent() != nil && v.Pkg() != nil && v.Parent() != v.Pkg().Scope() && v.Pos() >= start || in.fresh[v] {
				return
			}
		} else if _, ok := in.info.Uses[root].(*types.PkgName); !ok {
			return
		}
		text := fmt.Sprintf("%s.Map(%s, func() any { return %s }, %v); ", rt, in.site(start), types.ExprString(m), write)
		if after {
			post += "; " + text
		} else {
			pre += text
		}
	}
	reads := func(n ast.Node) {
		if n == nil {
			return
		}
		total := in.calls(n)
		var walk func(n ast.Node, within int)
		walk = func(n ast.Node, within int) {
			ast.Inspect(n, func(c ast.Node) bool {
				switch x := c.(type) {
				case nil, *ast.FuncLit, *ast.BlockStmt:
					return false
				case *ast.BinaryExpr:
					if x.Op == token.LAND || x.Op == token.LOR {
						walk(x.X, within)
						return false
					}
				case *ast.CallExpr:
					if tv := in.info.Types[x.Fun]; !tv.IsType() && !tv.IsBuiltin() && c != n {
						walk(x, within+1)
						return false
					}
				case *ast.IndexExpr:
					if total == within && in.calls(x.Index) == 0 {
						point(x.X, false, false)
					}
				}
				return true
			})
		}
		if c, ok := n.(*ast.CallExpr); ok {
			if tv := in.info.Types[c.Fun]; !tv.IsType() && !tv.IsBuiltin() {
				walk(n, 1)
				return
			}
		}
		walk(n, 0)
	}
	var stmt func(s ast.Stmt, top bool)
	stmt = func(s ast.Stmt, top bool) {
		switch x := s.(type) {
		case *ast.AssignStmt:
			all := in.calls(x)
			for _, r := range x.Rhs {
				if len(x.Rhs) == 1 {
					reads(r)
				}
			}
			if x.Tok == token.DEFINE {
				return
			}
			for _, l := range x.Lhs {
				if ix, ok := ast.Unparen(l).(*ast.IndexExpr); ok {
					if all == 0 {
						point(ix.X, true, false)
					} else if top {
						point(ix.X, true, true)
					}
				}
			}
		case *ast.IncDecStmt:
			if ix, ok := ast.Unparen(x.X).(*ast.IndexExpr); ok && in.calls(x) == 0 {
				point(ix.X, true, false)
			}
		case *ast.ExprStmt:
			if c, ok := x.X.(*ast.CallExpr); ok && in.info.Types[c.Fun].IsBuiltin() && len(c.Args) > 0 {
				if id, ok := c.Fun.(*ast.Ident); ok && (id.Name == "delete" || id.Name == "clear") && in.calls(x) == 0 {
					point(c.Args[0], true, false)
					return
				}
			}
			reads(x.X)
		case *ast.RangeStmt:
			if in.calls(x.X) == 0 {
				point(x.X, false, false)
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				reads(x.Results[0])
			}
		case *ast.IfStmt:
			if x.Init != nil {
				stmt(x.Init, false)
			} else {
				reads(x.Cond)
			}
		case *ast.SwitchStmt:
			if x.Init != nil {
				stmt(x.Init, false)
			} else if x.Tag != nil {
				reads(x.Tag)
			}
		}
	}
	stmt(s, true)
	if pre != "" {
		in.prepend(in.off(start), pre)
	}
	if post != "" {
		in.f.add(in.off(s.End()), in.off(s.End()), post)
	}
}
