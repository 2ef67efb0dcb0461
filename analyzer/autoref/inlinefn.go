package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// bodies of the unexported functions of the package, for inlining
func (t *T) declOf(f *types.Func) *ast.FuncDecl {
	for _, file := range t.pk.Syntax {
		for _, d := range file.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && t.info.Defs[fd.Name] == f {
				return fd
			}
		}
	}
	return nil
}

// inlinable returns the declaration and, in order, parameter names and arguments.
func (t *T) inlinable(e ast.Expr) (*ast.FuncDecl, []string, []ast.Expr, []types.Type) {
	c, ok := e.(*ast.CallExpr)
	if !ok || c.Ellipsis != 0 {
		return nil, nil, nil, nil
	}
	var f *types.Func
	var args []ast.Expr
	switch x := c.Fun.(type) {
	case *ast.Ident:
		f, _ = t.info.Uses[x].(*types.Func)
	case *ast.SelectorExpr:
		f, _ = t.info.Uses[x.Sel].(*types.Func)
		if s := t.info.Selections[x]; s == nil || len(s.Index()) != 1 {
			return nil, nil, nil, nil
		}
		args = append(args, x.X)
	}
	if f == nil || f.Pkg() != t.pk.Types || f.Exported() || strings.HasPrefix(f.Name(), "zz") {
		return nil, nil, nil, nil
	}
	sg := f.Type().(*types.Signature)
	if sg.Variadic() || sg.TypeParams() != nil || sg.RecvTypeParams() != nil {
		return nil, nil, nil, nil
	}
	fd := t.declOf(f)
	if fd == nil || fd.Body == nil || fd == t.fd || touched[fd] {
		return nil, nil, nil, nil
	}
	if t.hasDeferOrRecover(fd.Body) || hasStmt(fd.Body, func(n ast.Node) bool {
		i, ok := n.(*ast.Ident)
		return ok && t.info.Uses[i] == f
	}) {
		return nil, nil, nil, nil
	}
	for i := 0; i < sg.Results().Len(); i++ {
		if sg.Results().At(i).Name() != "" {
			return nil, nil, nil, nil
		}
	}
	var names []string
	var tys []types.Type
	if sg.Recv() != nil {
		if len(args) == 0 || types.IsInterface(sg.Recv().Type()) || !types.Identical(t.info.TypeOf(args[0]), sg.Recv().Type()) {
			return nil, nil, nil, nil
		}
		names = append(names, sg.Recv().Name())
		tys = append(tys, sg.Recv().Type())
	}
	for i := 0; i < sg.Params().Len(); i++ {
		names = append(names, sg.Params().At(i).Name())
		tys = append(tys, sg.Params().At(i).Type())
	}
	args = append(args, c.Args...)
	if len(args) != len(names) {
		return nil, nil, nil, nil
	}
	// no local of the caller may capture what the body mentions
	outer := map[string]bool{}
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			o := t.info.Uses[i]
			if o != nil && (o.Parent() == t.pk.Types.Scope() || o.Parent() == types.Universe) {
				outer[i.Name] = true
			}
			if p, ok := o.(*types.PkgName); ok {
				outer[p.Name()] = true
			}
		}
		return true
	})
	clash := false
	ast.Inspect(t.fd, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok && i != t.fd.Name && t.info.Defs[i] != nil && outer[i.Name] {
			clash = true
		}
		return true
	})
	// imports must be there under the same names
	ast.Inspect(fd.Body, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			if p, ok := t.info.Uses[i].(*types.PkgName); ok {
				found := false
				for _, im := range t.file.Imports {
					if o := t.info.Implicits[im]; o != nil {
						if q, ok := o.(*types.PkgName); ok && q.Imported() == p.Imported() && q.Name() == p.Name() {
							found = true
						}
					}
					if im.Name != nil {
						if q, ok := t.info.Defs[im.Name].(*types.PkgName); ok && q.Imported() == p.Imported() && q.Name() == p.Name() {
							found = true
						}
					}
				}
				if !found {
					clash = true
				}
			}
		}
		return true
	})
	if clash {
		return nil, nil, nil, nil
	}
	return fd, names, args, tys
}

var touched = map[*ast.FuncDecl]bool{}

func (t *T) bind(names []string, args []ast.Expr, tys []types.Type) ([]ast.Stmt, bool) {
	var lhs, rhs []ast.Expr
	var late []ast.Stmt
	for i, n := range names {
		if n == "_" || n == "" {
			if !nopanic(t.info, args[i]) {
				return nil, false
			}
			continue
		}
		if types.Identical(t.info.TypeOf(args[i]), tys[i]) && t.info.Types[args[i]].Value == nil {
			lhs = append(lhs, id(n))
			rhs = append(rhs, args[i])
		} else {
			te := t.typeExpr(tys[i])
			if te == nil {
				return nil, false
			}
			lhs = append(lhs, id(n))
			rhs = append(rhs, &ast.CallExpr{Fun: &ast.ParenExpr{X: te}, Args: []ast.Expr{args[i]}})
		}
		late = append(late, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{id(n)}})
	}
	if len(lhs) == 0 {
		return nil, true
	}
	return append([]ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}}, late...), true
}

func init() {
	// calls of unexported functions are replaced by their bodies where that is possible
	kindsLate["inlinefn"] = func(t *T) {
		t.each(func(s ast.Stmt) []ast.Stmt {
			switch x := s.(type) {
			case *ast.ReturnStmt:
				if len(x.Results) != 1 {
					return nil
				}
				fd, names, args, tys := t.inlinable(x.Results[0])
				if fd == nil {
					return nil
				}
				sg := t.info.Defs[fd.Name].Type().(*types.Signature)
				if sg.Results().Len() != t.sig.Results().Len() || t.named() {
					return nil
				}
				for i := 0; i < sg.Results().Len(); i++ {
					if !types.Identical(sg.Results().At(i).Type(), t.sig.Results().At(i).Type()) {
						return nil
					}
				}
				b, ok := t.bind(names, args, tys)
				if !ok {
					return nil
				}
				touched[t.fd] = true
				return []ast.Stmt{&ast.BlockStmt{List: append(b, fd.Body.List...)}}
			case *ast.ExprStmt:
				fd, names, args, tys := t.inlinable(x.X)
				if fd == nil || hasReturn(fd.Body) {
					return nil
				}
				b, ok := t.bind(names, args, tys)
				if !ok {
					return nil
				}
				touched[t.fd] = true
				return []ast.Stmt{&ast.BlockStmt{List: append(b, fd.Body.List...)}}
			case *ast.AssignStmt:
				if len(x.Rhs) != 1 || x.Tok != token.ASSIGN && x.Tok != token.DEFINE {
					return nil
				}
				fd, names, args, tys := t.inlinable(x.Rhs[0])
				if fd == nil || len(fd.Body.List) == 0 {
					return nil
				}
				l := fd.Body.List
				r, ok := l[len(l)-1].(*ast.ReturnStmt)
				if !ok || len(r.Results) != len(x.Lhs) || hasReturn(&ast.BlockStmt{List: l[:len(l)-1]}) {
					return nil
				}
				inner := map[string]bool{}
				ast.Inspect(fd, func(n ast.Node) bool {
					if i, ok := n.(*ast.Ident); ok && t.info.Defs[i] != nil {
						inner[i.Name] = true
					}
					return true
				})
				var out []ast.Stmt
				for j, lx := range x.Lhs {
					i, ok := lx.(*ast.Ident)
					if !ok || inner[i.Name] {
						return nil
					}
					if x.Tok == token.DEFINE && i.Name != "_" && t.info.Defs[i] != nil {
						te := t.typeExpr(t.info.Defs[i].Type())
						if te == nil {
							return nil
						}
						out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{i}, Type: te}}}})
					}
					_ = j
				}
				b, ok := t.bind(names, args, tys)
				if !ok {
					return nil
				}
				b = append(append(b, l[:len(l)-1]...), &ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: r.Results})
				touched[t.fd] = true
				return append(out, &ast.BlockStmt{List: b})
			}
			return nil
		})
	}
}
