package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

func isErrType(t types.Type) bool { return t != nil && types.TypeString(t, nil) == "error" }

func lockCall(t *T, e ast.Expr) (*ast.CallExpr, string) {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return nil, ""
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok {
		return nil, ""
	}
	f, ok := t.info.Uses[s.Sel].(*types.Func)
	if !ok || f.Pkg() == nil || f.Pkg().Path() != "sync" {
		return nil, ""
	}
	switch f.Name() {
	case "Lock", "Unlock", "RLock", "RUnlock":
		return c, f.Name()
	}
	return nil, ""
}

func init() {
	more := map[string]kindFn{
		// defer mu.Unlock() -> defer func() { mu.Unlock() }()
		"deferclosure": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				d, ok := s.(*ast.DeferStmt)
				if !ok {
					return nil
				}
				if c, _ := lockCall(t, d.Call); c == nil {
					return nil
				}
				return []ast.Stmt{&ast.DeferStmt{Call: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: d.Call}}}}}}}
			})
		},
		// mu.Lock(); defer mu.Unlock() at the top -> explicit unlocks before the returns
		"deferexplicit": func(t *T) {
			l := t.fd.Body.List
			if len(l) < 3 {
				return
			}
			t.sig = t.info.Defs[t.fd.Name].Type().(*types.Signature)
			d, ok := l[1].(*ast.DeferStmt)
			if !ok || t.named() {
				return
			}
			c, nm := lockCall(t, d.Call)
			if c == nil || !strings.HasSuffix(nm, "nlock") {
				return
			}
			if t.hasDeferOrRecover(&ast.BlockStmt{List: l[2:]}) {
				return
			}
			un := func() ast.Stmt { return &ast.ExprStmt{X: c} }
			n := t.sites
			ok = true
			rest := &ast.BlockStmt{List: l[2:]}
			save := t.fd.Body.List
			t.fd.Body.List = rest.List
			t.lists(func(l []ast.Stmt) []ast.Stmt {
				if t.body != t.fd.Body {
					return l // a function literal of its own
				}
				var out []ast.Stmt
				for _, s := range l {
					r, is := s.(*ast.ReturnStmt)
					if !is {
						out = append(out, s)
						continue
					}
					t.sites++
					var lhs []ast.Expr
					if len(r.Results) == 1 && t.sig.Results().Len() > 1 {
						for j := 0; j < t.sig.Results().Len(); j++ {
							lhs = append(lhs, id(t.fresh("ret")))
						}
						out = append(out, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: r.Results}, un(), &ast.ReturnStmt{Results: lhs})
						continue
					}
					for j, e := range r.Results {
						te := t.typeExpr(t.sig.Results().At(j).Type())
						if te == nil {
							ok = false
							te = id("int")
						}
						n := t.fresh("ret")
						out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: te, Values: []ast.Expr{e}}}}})
						lhs = append(lhs, id(n))
					}
					out = append(out, un(), &ast.ReturnStmt{Results: lhs})
				}
				return out
			})
			if !ok {
				t.fd.Body.List = save
				t.sites = n
				return
			}
			body := t.fd.Body.List
			if t.sig.Results().Len() == 0 {
				if len(body) == 0 || !terminating(body[len(body)-1]) {
					body = append(body, un())
					t.sites++
				}
			}
			t.fd.Body.List = append([]ast.Stmt{save[0]}, body...)
		},
		// x.lock.Lock() -> x.helper()
		"lockhelper": func(t *T) {
			sg := t.info.Defs[t.fd.Name].Type().(*types.Signature)
			if sg.Recv() == nil {
				return
			}
			made := map[string]string{}
			mk := func(c *ast.CallExpr) *ast.CallExpr {
				fr := t.freeVars(c)
				delete(fr.assigned, sg.Recv())
				if len(fr.vars) != 1 || fr.vars[0] != sg.Recv() || !ptr(sg.Recv().Type()) {
					return nil
				}
				call, ok := t.helper(fr, []ast.Stmt{&ast.ExprStmt{X: c}}, nil)
				if !ok {
					return nil
				}
				_ = made
				return call
			}
			t.each(func(s ast.Stmt) []ast.Stmt {
				switch x := s.(type) {
				case *ast.ExprStmt:
					if c, _ := lockCall(t, x.X); c != nil {
						if r := mk(c); r != nil {
							return []ast.Stmt{&ast.ExprStmt{X: r}}
						}
					}
				case *ast.DeferStmt:
					if c, _ := lockCall(t, x.Call); c != nil {
						if r := mk(c); r != nil {
							return []ast.Stmt{&ast.DeferStmt{Call: r}}
						}
					}
				}
				return nil
			})
		},
		// if err != nil { return err }; return nil -> return err
		"errtail": func(t *T) {
			t.lists(func(l []ast.Stmt) []ast.Stmt {
				if len(l) < 2 {
					return l
				}
				i, ok := l[len(l)-2].(*ast.IfStmt)
				r, ok2 := l[len(l)-1].(*ast.ReturnStmt)
				if !ok || !ok2 || i.Else != nil || len(i.Body.List) != 1 || len(r.Results) != 1 {
					return l
				}
				b, ok := i.Cond.(*ast.BinaryExpr)
				if !ok || b.Op != token.NEQ {
					return l
				}
				e, ok := b.X.(*ast.Ident)
				if !ok || !isErrType(t.info.TypeOf(e)) {
					return l
				}
				if n, ok := b.Y.(*ast.Ident); !ok || n.Name != "nil" {
					return l
				}
				ir, ok := i.Body.List[0].(*ast.ReturnStmt)
				if !ok || len(ir.Results) != 1 {
					return l
				}
				ie, ok := ir.Results[0].(*ast.Ident)
				rn, ok2 := r.Results[0].(*ast.Ident)
				if !ok || !ok2 || ie.Name != e.Name || rn.Name != "nil" {
					return l
				}
				t.sites++
				if a, ok := i.Init.(*ast.AssignStmt); ok && a.Tok == token.DEFINE && len(a.Lhs) == 1 {
					return append(append([]ast.Stmt(nil), l[:len(l)-2]...), &ast.ReturnStmt{Results: a.Rhs})
				} else if i.Init != nil {
					return append(append([]ast.Stmt(nil), l[:len(l)-2]...), &ast.BlockStmt{List: []ast.Stmt{i.Init, &ast.ReturnStmt{Results: []ast.Expr{e}}}})
				}
				return append(append([]ast.Stmt(nil), l[:len(l)-2]...), &ast.ReturnStmt{Results: []ast.Expr{e}})
			})
		},
		// return f() -> if err := f(); err != nil { return err }; return nil
		"errexpand": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				r, ok := s.(*ast.ReturnStmt)
				if !ok || len(r.Results) != 1 || t.sig.Results().Len() != 1 || !isErrType(t.sig.Results().At(0).Type()) {
					return nil
				}
				c, ok := r.Results[0].(*ast.CallExpr)
				if !ok || !isErrType(t.info.TypeOf(c)) {
					return nil
				}
				n := t.fresh("err")
				return []ast.Stmt{&ast.IfStmt{Init: define(n, c), Cond: &ast.BinaryExpr{X: id(n), Op: token.NEQ, Y: id("nil")}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{id(n)}}}}},
					&ast.ReturnStmt{Results: []ast.Expr{id("nil")}}}
			})
		},
		// if c { ..; return A }; return B -> var r; if c { ..; r = A } else { r = B }; return r
		"retmerge": func(t *T) {
			t.lists(func(l []ast.Stmt) []ast.Stmt {
				if len(l) < 2 {
					return l
				}
				i, ok := l[len(l)-2].(*ast.IfStmt)
				r, ok2 := l[len(l)-1].(*ast.ReturnStmt)
				if !ok || !ok2 || i.Else != nil || len(i.Body.List) == 0 || len(r.Results) != t.sig.Results().Len() || len(r.Results) == 0 {
					return l
				}
				ir, ok := i.Body.List[len(i.Body.List)-1].(*ast.ReturnStmt)
				if !ok || len(ir.Results) != len(r.Results) {
					return l
				}
				var decl []ast.Stmt
				var lhs []ast.Expr
				for j := range r.Results {
					te := t.typeExpr(t.sig.Results().At(j).Type())
					if te == nil {
						return l
					}
					n := t.fresh("res")
					lhs = append(lhs, id(n))
					decl = append(decl, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: te}}}})
				}
				i.Body.List[len(i.Body.List)-1] = &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: ir.Results}
				i.Else = &ast.BlockStmt{List: []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: r.Results}}}
				t.sites++
				return append(append(append(append([]ast.Stmt(nil), l[:len(l)-2]...), decl...), i), &ast.ReturnStmt{Results: lhs})
			})
		},
		// if c { return true }; return false -> return c
		"boolret": func(t *T) {
			t.lists(func(l []ast.Stmt) []ast.Stmt {
				if len(l) < 2 || t.sig.Results().Len() != 1 {
					return l
				}
				if b, ok := t.sig.Results().At(0).Type().(*types.Basic); !ok || b.Kind() != types.Bool {
					return l
				}
				i, ok := l[len(l)-2].(*ast.IfStmt)
				r, ok2 := l[len(l)-1].(*ast.ReturnStmt)
				if !ok || !ok2 || i.Else != nil || i.Init != nil || len(i.Body.List) != 1 || len(r.Results) != 1 {
					return l
				}
				ir, ok := i.Body.List[0].(*ast.ReturnStmt)
				if !ok || len(ir.Results) != 1 {
					return l
				}
				a, ok := ir.Results[0].(*ast.Ident)
				if !ok || a.Name != "true" && a.Name != "false" {
					return l
				}
				rest := append([]ast.Stmt(nil), l[:len(l)-2]...)
				p := func(e ast.Expr) ast.Expr { return &ast.ParenExpr{X: e} }
				t.sites++
				if a.Name == "true" {
					return append(rest, &ast.ReturnStmt{Results: []ast.Expr{&ast.BinaryExpr{X: p(i.Cond), Op: token.LOR, Y: p(r.Results[0])}}})
				}
				return append(rest, &ast.ReturnStmt{Results: []ast.Expr{&ast.BinaryExpr{X: &ast.UnaryExpr{Op: token.NOT, X: p(i.Cond)}, Op: token.LAND, Y: p(r.Results[0])}}})
			})
		},
		// x := &T{a: 1, b: f()} -> x := new(T); x.a = 1; x.b = f()
		"structlit": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				a, ok := s.(*ast.AssignStmt)
				if !ok || len(a.Lhs) != 1 || a.Tok != token.DEFINE {
					return nil
				}
				x, ok := a.Lhs[0].(*ast.Ident)
				if !ok || x.Name == "_" {
					return nil
				}
				e := a.Rhs[0]
				amp := false
				if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
					e, amp = u.X, true
				}
				cl, ok := e.(*ast.CompositeLit)
				if !ok || cl.Type == nil || len(cl.Elts) == 0 {
					return nil
				}
				if _, ok := t.info.TypeOf(cl).Underlying().(*types.Struct); !ok {
					return nil
				}
				var out []ast.Stmt
				if amp {
					out = append(out, define(x.Name, &ast.CallExpr{Fun: id("new"), Args: []ast.Expr{cl.Type}}))
				} else {
					out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{x}, Type: cl.Type}}}})
				}
				for _, el := range cl.Elts {
					kv, ok := el.(*ast.KeyValueExpr)
					if !ok {
						return nil
					}
					k := kv.Key.(*ast.Ident)
					bad := false
					ast.Inspect(kv.Value, func(n ast.Node) bool {
						if i, ok := n.(*ast.Ident); ok && i.Name == x.Name {
							bad = true
						}
						return true
					})
					if bad {
						return nil
					}
					if vc, ok := kv.Value.(*ast.CompositeLit); ok && vc.Type == nil {
						return nil
					}
					out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{&ast.SelectorExpr{X: id(x.Name), Sel: id(k.Name)}}, Tok: token.ASSIGN, Rhs: []ast.Expr{kv.Value}})
				}
				return out
			})
		},
		// return &T{...} -> r := &T{...}; return r with the field assignments spelled out
		"retstruct": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				r, ok := s.(*ast.ReturnStmt)
				if !ok || len(r.Results) == 0 {
					return nil
				}
				u, ok := r.Results[0].(*ast.UnaryExpr)
				if !ok || u.Op != token.AND {
					return nil
				}
				for _, e := range r.Results[1:] {
					if !nopanic(t.info, e) {
						return nil
					}
				}
				n := t.fresh("ret")
				d := define(n, u)
				r.Results[0] = id(n)
				return []ast.Stmt{d, r}
			})
		},
	}
	for k, f := range kindsLate {
		kinds[k] = f
	}
	for k, f := range more {
		kinds[k] = f
	}
}
