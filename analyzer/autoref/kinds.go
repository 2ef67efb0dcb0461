package main

import (
	"go/ast"
	"go/token"
	"go/types"
)

var kinds map[string]kindFn
var kindsLate = map[string]kindFn{}

func define(name string, e ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{id(name)}, Tok: token.DEFINE, Rhs: []ast.Expr{e}}
}

// each replaces single statements
func (t *T) each(f func(s ast.Stmt) []ast.Stmt) {
	t.lists(func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if r := f(s); r != nil {
				t.sites++
				out = append(out, r...)
			} else {
				out = append(out, s)
			}
		}
		return out
	})
}

func swapOp(o token.Token) token.Token {
	switch o {
	case token.LSS:
		return token.GTR
	case token.GTR:
		return token.LSS
	case token.LEQ:
		return token.GEQ
	case token.GEQ:
		return token.LEQ
	case token.EQL, token.NEQ:
		return o
	}
	return token.ILLEGAL
}

func zeroInt(e ast.Expr) bool {
	b, ok := e.(*ast.BasicLit)
	return ok && b.Value == "0"
}
func isLen(e ast.Expr) bool {
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return false
	}
	i, ok := c.Fun.(*ast.Ident)
	return ok && i.Name == "len"
}

func assignedIn(t *T, n ast.Node, obj types.Object) bool {
	bad := false
	ast.Inspect(n, func(x ast.Node) bool {
		is := func(e ast.Expr) bool { i, ok := e.(*ast.Ident); return ok && t.info.Uses[i] == obj }
		switch y := x.(type) {
		case *ast.AssignStmt:
			for _, l := range y.Lhs {
				if is(l) {
					bad = true
				}
			}
		case *ast.IncDecStmt:
			if is(y.X) {
				bad = true
			}
		case *ast.UnaryExpr:
			if y.Op == token.AND && is(y.X) {
				bad = true
			}
		case *ast.RangeStmt:
			if y.Key != nil && is(y.Key) || y.Value != nil && is(y.Value) {
				bad = true
			}
		}
		return true
	})
	return bad
}

func init() {
	kinds = map[string]kindFn{
		// if COND { -> z := COND; if z {
		"condtemp": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Init != nil {
					return nil
				}
				n := t.fresh("cond")
				c := i.Cond
				i.Cond = id(n)
				return []ast.Stmt{define(n, c), i}
			})
		},
		// if x := f(); c { -> { x := f(); if c {} }  /  x := f() before when the name stays unique
		"initout": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Init == nil {
					return nil
				}
				in := i.Init
				i.Init = nil
				return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{in, i}}}
			})
		},
		"swapeq": func(t *T) {
			t.exprs(func(e ast.Expr) ast.Expr {
				b, ok := e.(*ast.BinaryExpr)
				if !ok || swapOp(b.Op) == token.ILLEGAL || !nopanic(t.info, b.X) && !nopanic(t.info, b.Y) {
					return e
				}
				if !pure(t.info, b.X) && !pure(t.info, b.Y) {
					return e
				}
				return &ast.BinaryExpr{X: b.Y, Op: swapOp(b.Op), Y: b.X}
			})
		},
		"ifinvert": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Else == nil || t.hasFloatCmp(i.Cond) {
					return nil
				}
				b, ok := i.Else.(*ast.BlockStmt)
				if !ok {
					return nil
				}
				i.Cond, i.Body, i.Else = not(i.Cond), b, i.Body
				return []ast.Stmt{i}
			})
		},
		"splitand": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Else != nil {
					return nil
				}
				b, ok := i.Cond.(*ast.BinaryExpr)
				if !ok || b.Op != token.LAND {
					return nil
				}
				i.Cond = b.X
				i.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.IfStmt{Cond: b.Y, Body: i.Body}}}
				return []ast.Stmt{i}
			})
		},
		"splitor": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Else != nil || i.Init != nil || !terminating(i.Body) {
					return nil
				}
				b, ok := i.Cond.(*ast.BinaryExpr)
				if !ok || b.Op != token.LOR {
					return nil
				}
				return []ast.Stmt{&ast.IfStmt{Cond: b.X, Body: i.Body}, &ast.IfStmt{Cond: b.Y, Body: i.Body}}
			})
		},
		"rettemp": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				r, ok := s.(*ast.ReturnStmt)
				if !ok || len(r.Results) == 0 {
					return nil
				}
				var lhs []ast.Expr
				var out []ast.Stmt
				if len(r.Results) == 1 && t.sig.Results().Len() > 1 {
					for j := 0; j < t.sig.Results().Len(); j++ {
						lhs = append(lhs, id(t.fresh("ret")))
					}
					return []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: r.Results}, &ast.ReturnStmt{Results: lhs}}
				}
				for j, e := range r.Results {
					te := t.typeExpr(t.sig.Results().At(j).Type())
					if te == nil {
						return nil
					}
					n := t.fresh("ret")
					out = append(out, &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(n)}, Type: te, Values: []ast.Expr{e}}}}})
					lhs = append(lhs, id(n))
				}
				return append(out, &ast.ReturnStmt{Results: lhs})
			})
		},
		// if c { ...return } REST -> if !c { REST } else {...}
		"guardinv": func(t *T) {
			t.lists(func(l []ast.Stmt) []ast.Stmt {
				if t.named() {
					return l
				}
				for k, s := range l {
					i, ok := s.(*ast.IfStmt)
					if !ok || i.Init != nil || i.Else != nil || !terminating(i.Body) || k == len(l)-1 || !terminating(l[len(l)-1]) || t.hasFloatCmp(i.Cond) {
						continue
					}
					if hasStmt(&ast.BlockStmt{List: l[k:]}, func(n ast.Node) bool { _, ok := n.(*ast.LabeledStmt); return ok }) {
						continue
					}
					t.sites++
					ni := &ast.IfStmt{Cond: not(i.Cond), Body: &ast.BlockStmt{List: append([]ast.Stmt(nil), l[k+1:]...)}}
					return append(append(append([]ast.Stmt(nil), l[:k]...), ni), i.Body.List...)
				}
				return l
			})
		},
		"elseguard": func(t *T) { // the same with the guard kept in an else
			t.lists(func(l []ast.Stmt) []ast.Stmt {
				if t.named() {
					return l
				}
				for k, s := range l {
					i, ok := s.(*ast.IfStmt)
					if !ok || i.Else != nil || !terminating(i.Body) || k == len(l)-1 || !terminating(l[len(l)-1]) {
						continue
					}
					if i.Init != nil || hasStmt(&ast.BlockStmt{List: l[k:]}, func(n ast.Node) bool { _, ok := n.(*ast.LabeledStmt); return ok }) {
						continue
					}
					if t.body != nil && len(l) > 0 && len(t.body.List) > 0 && t.body.List[0] == l[0] && t.sig.Results().Len() > 0 && !retTerm(l[len(l)-1]) {
						continue
					}
					t.sites++
					ni := &ast.IfStmt{Cond: i.Cond, Body: i.Body, Else: &ast.BlockStmt{List: append([]ast.Stmt(nil), l[k+1:]...)}}
					return append(append([]ast.Stmt(nil), l[:k]...), ni)
				}
				return l
			})
		},
		"elseflat": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				i, ok := s.(*ast.IfStmt)
				if !ok || i.Init != nil || i.Else == nil || !terminating(i.Body) {
					return nil
				}
				b, ok := i.Else.(*ast.BlockStmt)
				if !ok {
					e := i.Else
					i.Else = nil
					return []ast.Stmt{i, e.(ast.Stmt)}
				}
				if declares(b.List) {
					return nil
				}
				i.Else = nil
				return append([]ast.Stmt{i}, b.List...)
			})
		},
		"rangeidx": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				r, ok := s.(*ast.RangeStmt)
				if !ok || r.Tok != token.DEFINE {
					return nil
				}
				tt := t.info.TypeOf(r.X)
				if tt == nil {
					return nil
				}
				if _, ok := tt.Underlying().(*types.Slice); !ok {
					return nil
				}
				ki, _ := r.Key.(*ast.Ident)
				if ki == nil {
					return nil
				}
				kn := ki.Name
				if kn == "_" {
					kn = t.fresh("i")
				} else if assignedIn(t, r.Body, t.info.Defs[ki]) {
					return nil
				}
				var pre []ast.Stmt
				x := r.X
				xi, ok := x.(*ast.Ident)
				if !ok || assignedIn(t, r.Body, t.info.Uses[xi]) || t.info.Uses[xi] == nil || t.info.Uses[xi].Parent() == t.pk.Types.Scope() {
					n := t.fresh("list")
					pre = append(pre, define(n, x))
					x = id(n)
				}
				body := r.Body.List
				if v, ok := r.Value.(*ast.Ident); ok && v.Name != "_" {
					body = append([]ast.Stmt{define(v.Name, &ast.IndexExpr{X: x, Index: id(kn)})}, body...)
				}
				f := &ast.ForStmt{Init: define(kn, &ast.BasicLit{Kind: token.INT, Value: "0"}), Cond: &ast.BinaryExpr{X: id(kn), Op: token.LSS, Y: &ast.CallExpr{Fun: id("len"), Args: []ast.Expr{x}}},
					Post: &ast.IncDecStmt{X: id(kn), Tok: token.INC}, Body: &ast.BlockStmt{List: body}}
				return append(pre, f)
			})
		},
		// for i := 0; i < len(x); i++ -> for i := range x (length not changed in the body)
		"idxrange": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				f, ok := s.(*ast.ForStmt)
				if !ok || f.Init == nil || f.Cond == nil || f.Post == nil {
					return nil
				}
				a, ok := f.Init.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE || len(a.Lhs) != 1 || !zeroInt(a.Rhs[0]) {
					return nil
				}
				i := a.Lhs[0].(*ast.Ident)
				c, ok := f.Cond.(*ast.BinaryExpr)
				if !ok || c.Op != token.LSS || !isLen(c.Y) {
					return nil
				}
				ci, ok := c.X.(*ast.Ident)
				if !ok || ci.Name != i.Name {
					return nil
				}
				p, ok := f.Post.(*ast.IncDecStmt)
				if !ok || p.Tok != token.INC {
					return nil
				}
				x := c.Y.(*ast.CallExpr).Args[0]
				xi, ok := x.(*ast.Ident)
				if !ok || assignedIn(t, f.Body, t.info.Uses[xi]) || assignedIn(t, f.Body, t.info.Defs[i]) {
					return nil
				}
				switch t.info.TypeOf(x).Underlying().(type) {
				case *types.Slice:
				default:
					return nil
				}
				if v, ok := t.info.Uses[xi].(*types.Var); !ok || t.shared(v) {
					return nil
				}
				return []ast.Stmt{&ast.RangeStmt{Key: i, Tok: token.DEFINE, X: x, Body: f.Body}}
			})
		},
		// for init; c; post {B} -> { init; for c { B; post } }
		"forwhile": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				f, ok := s.(*ast.ForStmt)
				if !ok || f.Post == nil {
					return nil
				}
				if hasStmt(f.Body, func(n ast.Node) bool { b, ok := n.(*ast.BranchStmt); return ok && (b.Tok == token.CONTINUE) }) {
					return nil
				}
				b := append(append([]ast.Stmt(nil), f.Body.List...), f.Post)
				if declaresName(f.Body.List, f.Post) {
					b = []ast.Stmt{&ast.BlockStmt{List: f.Body.List}, f.Post}
				}
				nf := &ast.ForStmt{Cond: f.Cond, Body: &ast.BlockStmt{List: b}}
				if f.Init == nil {
					return []ast.Stmt{nf}
				}
				return []ast.Stmt{&ast.BlockStmt{List: []ast.Stmt{f.Init, nf}}}
			})
		},
		"forbreak": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				f, ok := s.(*ast.ForStmt)
				if !ok || f.Cond == nil || t.hasFloatCmp(f.Cond) {
					return nil
				}
				c := f.Cond
				f.Cond = nil
				f.Body = &ast.BlockStmt{List: append([]ast.Stmt{&ast.IfStmt{Cond: not(c), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}}}, f.Body.List...)}
				return []ast.Stmt{f}
			})
		},
		"contguard": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				var b *ast.BlockStmt
				switch f := s.(type) {
				case *ast.ForStmt:
					b = f.Body
				case *ast.RangeStmt:
					b = f.Body
				default:
					return nil
				}
				for k := len(b.List) - 1; k >= 0; k-- {
					i, ok := b.List[k].(*ast.IfStmt)
					if !ok || i.Init != nil || i.Else != nil || t.hasFloatCmp(i.Cond) || len(i.Body.List) == 0 || k == len(b.List)-1 {
						continue
					}
					br, ok := i.Body.List[len(i.Body.List)-1].(*ast.BranchStmt)
					if !ok || br.Tok != token.CONTINUE || br.Label != nil {
						continue
					}
					rest := append([]ast.Stmt(nil), b.List[k+1:]...)
					var ni *ast.IfStmt
					if len(i.Body.List) == 1 {
						ni = &ast.IfStmt{Cond: not(i.Cond), Body: &ast.BlockStmt{List: rest}}
					} else {
						ni = &ast.IfStmt{Cond: i.Cond, Body: &ast.BlockStmt{List: i.Body.List[:len(i.Body.List)-1]}, Else: &ast.BlockStmt{List: rest}}
					}
					b.List = append(append([]ast.Stmt(nil), b.List[:k]...), ni)
					return []ast.Stmt{s}
				}
				return nil
			})
		},
		// a trailing if in a loop body becomes a continue guard
		"guardcont": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				var b *ast.BlockStmt
				switch f := s.(type) {
				case *ast.ForStmt:
					b = f.Body
				case *ast.RangeStmt:
					b = f.Body
				default:
					return nil
				}
				if len(b.List) == 0 {
					return nil
				}
				i, ok := b.List[len(b.List)-1].(*ast.IfStmt)
				if !ok || i.Init != nil || i.Else != nil || t.hasFloatCmp(i.Cond) || declares(i.Body.List) && len(b.List) > 1 {
					return nil
				}
				g := &ast.IfStmt{Cond: not(i.Cond), Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}
				b.List = append(append(append([]ast.Stmt(nil), b.List[:len(b.List)-1]...), g), i.Body.List...)
				return []ast.Stmt{s}
			})
		},
		"sw2if": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				w, ok := s.(*ast.SwitchStmt)
				if !ok || len(w.Body.List) == 0 {
					return nil
				}
				tag := w.Tag
				var out []ast.Stmt
				if w.Init != nil {
					out = append(out, w.Init)
				}
				if tag != nil && !nopanic(t.info, tag) {
					n := t.fresh("tag")
					out = append(out, define(n, tag))
					tag = id(n)
				}
				var first, last *ast.IfStmt
				var def *ast.BlockStmt
				for _, c := range w.Body.List {
					cc := c.(*ast.CaseClause)
					if hasStmt(&ast.BlockStmt{List: cc.Body}, func(n ast.Node) bool {
						b, ok := n.(*ast.BranchStmt)
						return ok && (b.Tok == token.FALLTHROUGH || b.Tok == token.BREAK)
					}) {
						return nil
					}
					if cc.List == nil {
						def = &ast.BlockStmt{List: cc.Body}
						continue
					}
					var cond ast.Expr
					for _, e := range cc.List {
						var x ast.Expr = e
						if tag != nil {
							x = &ast.BinaryExpr{X: tag, Op: token.EQL, Y: e}
						}
						if cond == nil {
							cond = x
						} else {
							cond = &ast.BinaryExpr{X: cond, Op: token.LOR, Y: x}
						}
					}
					ni := &ast.IfStmt{Cond: cond, Body: &ast.BlockStmt{List: cc.Body}}
					if first == nil {
						first = ni
					} else {
						last.Else = ni
					}
					last = ni
				}
				if first == nil {
					return nil
				}
				if def != nil {
					last.Else = def
				}
				out = append(out, first)
				if len(out) > 1 {
					return []ast.Stmt{&ast.BlockStmt{List: out}}
				}
				return out
			})
		},
		"if2sw": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				i, ok := s.(*ast.IfStmt)
				if !ok || hasStmt(i, func(n ast.Node) bool {
					b, ok := n.(*ast.BranchStmt)
					return ok && (b.Tok == token.BREAK || b.Tok == token.FALLTHROUGH)
				}) {
					return nil
				}
				w := &ast.SwitchStmt{Init: i.Init, Body: &ast.BlockStmt{}}
				for {
					w.Body.List = append(w.Body.List, &ast.CaseClause{List: []ast.Expr{i.Cond}, Body: i.Body.List})
					if i.Else == nil {
						break
					}
					if b, ok := i.Else.(*ast.BlockStmt); ok {
						w.Body.List = append(w.Body.List, &ast.CaseClause{Body: b.List})
						break
					}
					if e, ok := i.Else.(*ast.IfStmt); ok && e.Init == nil {
						i = e
						continue
					}
					w.Body.List = append(w.Body.List, &ast.CaseClause{Body: []ast.Stmt{i.Else}})
					break
				}
				return []ast.Stmt{w}
			})
		},
		"vardecl": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				a, ok := s.(*ast.AssignStmt)
				if !ok || a.Tok != token.DEFINE {
					return nil
				}
				var names []*ast.Ident
				for _, l := range a.Lhs {
					i := l.(*ast.Ident)
					if i.Name != "_" && t.info.Defs[i] == nil {
						return nil
					}
					names = append(names, i)
				}
				return []ast.Stmt{&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: names, Values: a.Rhs}}}}}
			})
		},
		// hoist the first nested call of a statement's only outer call
		"hoistarg": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				var e ast.Expr
				switch x := s.(type) {
				case *ast.ExprStmt:
					e = x.X
				case *ast.AssignStmt:
					if len(x.Rhs) != 1 {
						return nil
					}
					for _, l := range x.Lhs {
						if !nopanic(t.info, l) {
							return nil
						}
					}
					e = x.Rhs[0]
				case *ast.ReturnStmt:
					if len(x.Results) != 1 {
						return nil
					}
					e = x.Results[0]
				default:
					return nil
				}
				c, ok := e.(*ast.CallExpr)
				if !ok {
					return nil
				}
				if tv := t.info.Types[c.Fun]; tv.IsType() || tv.IsBuiltin() {
					return nil
				}
				if !nopanic(t.info, c.Fun) {
					if sel, ok := c.Fun.(*ast.SelectorExpr); !ok || !pure(t.info, sel.X) {
						return nil
					}
				}
				for k, a := range c.Args {
					n, ok := a.(*ast.CallExpr)
					if !ok {
						if !nopanic(t.info, a) || mutableRead(t, a) {
							return nil
						}
						continue
					}
					tv := t.info.Types[n]
					if tv.Type == nil || tv.IsBuiltin() || tv.Value != nil {
						return nil
					}
					if _, tup := tv.Type.(*types.Tuple); tup {
						return nil
					}
					if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
						return nil
					}
					if ft := t.info.Types[n.Fun]; ft.IsType() || ft.IsBuiltin() {
						return nil
					}
					nm := t.fresh("arg")
					c.Args[k] = id(nm)
					return []ast.Stmt{define(nm, n), s}
				}
				return nil
			})
		},
		"retbool": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				r, ok := s.(*ast.ReturnStmt)
				if !ok || len(r.Results) != 1 || t.sig.Results().Len() != 1 {
					return nil
				}
				if b, ok := t.sig.Results().At(0).Type().(*types.Basic); !ok || b.Kind() != types.Bool {
					return nil
				}
				if i, ok := r.Results[0].(*ast.Ident); ok && (i.Name == "true" || i.Name == "false") {
					return nil
				}
				return []ast.Stmt{&ast.IfStmt{Cond: r.Results[0], Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{id("true")}}}}}, &ast.ReturnStmt{Results: []ast.Expr{id("false")}}}
			})
		},
		"incdec": func(t *T) {
			astutilStmts(t, func(s ast.Stmt) ast.Stmt {
				switch x := s.(type) {
				case *ast.IncDecStmt:
					if !pure(t.info, x.X) {
						return s
					}
					o := token.ADD
					if x.Tok == token.DEC {
						o = token.SUB
					}
					t.sites++
					return &ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: x.X, Op: o, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}}}
				case *ast.AssignStmt:
					m := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.OR_ASSIGN: token.OR, token.AND_ASSIGN: token.AND, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.QUO_ASSIGN: token.QUO, token.MUL_ASSIGN: token.MUL}
					o, ok := m[x.Tok]
					if !ok || !pure(t.info, x.Lhs[0]) {
						return s
					}
					t.sites++
					return &ast.AssignStmt{Lhs: x.Lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: x.Lhs[0], Op: o, Y: &ast.ParenExpr{X: x.Rhs[0]}}}}
				}
				return s
			})
		},
		"lenzero": func(t *T) {
			t.exprs(func(e ast.Expr) ast.Expr {
				b, ok := e.(*ast.BinaryExpr)
				if !ok || !isLen(b.X) {
					return e
				}
				l, ok := b.Y.(*ast.BasicLit)
				if !ok {
					return e
				}
				switch {
				case b.Op == token.EQL && l.Value == "0":
					return &ast.BinaryExpr{X: b.X, Op: token.LSS, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
				case (b.Op == token.GTR || b.Op == token.NEQ) && l.Value == "0":
					return &ast.BinaryExpr{X: b.X, Op: token.GEQ, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
				}
				return e
			})
		},
		// if COND -> if predicate(vars)
		"predicate": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				i, ok := s.(*ast.IfStmt)
				if !ok {
					return nil
				}
				if _, ok := i.Cond.(*ast.BinaryExpr); !ok {
					return nil
				}
				fr := t.freeVars(i.Cond)
				if len(fr.vars) == 0 || len(fr.assigned) > 0 {
					return nil
				}
				for _, v := range fr.vars {
					if t.shared(v) {
						return nil
					}
				}
				call, ok := t.helper(fr, []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{i.Cond}}}, []ast.Expr{id("bool")})
				if !ok {
					return nil
				}
				i.Cond = call
				return []ast.Stmt{i}
			})
		},
		// the body of an if (or else) that returns becomes a helper
		"extractret": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				i, ok := s.(*ast.IfStmt)
				if !ok {
					return nil
				}
				did := false
				for _, b := range []*ast.BlockStmt{i.Body, elseBlock(i)} {
					if b == nil || len(b.List) < 2 {
						continue
					}
					if t.extractTail(b) {
						did = true
					}
				}
				if !did {
					return nil
				}
				return []ast.Stmt{s}
			})
		},
		// the second half of the function body becomes a helper
		"extracttail": func(t *T) {
			l := t.fd.Body.List
			t.sig = t.info.Defs[t.fd.Name].Type().(*types.Signature)
			t.body = t.fd.Body
			if len(l) < 4 {
				return
			}
			for k := len(l) / 2; k < len(l)-1; k++ {
				b := &ast.BlockStmt{List: append([]ast.Stmt(nil), l[k:]...)}
				if t.extractTailFrom(b, l[:k]) {
					t.fd.Body.List = append(append([]ast.Stmt(nil), l[:k]...), b.List...)
					t.sites++
					return
				}
			}
		},
		// one compound statement without escapes becomes a helper returning what it assigns
		"extractstmt": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				switch s.(type) {
				case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
				default:
					return nil
				}
				return t.extractVoid([]ast.Stmt{s})
			})
		},
		// the same for the outermost statements
		"extractouter": func(t *T) {
			t.sig = t.info.Defs[t.fd.Name].Type().(*types.Signature)
			t.body = t.fd.Body
			var out []ast.Stmt
			for _, s := range t.fd.Body.List {
				switch s.(type) {
				case *ast.IfStmt, *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt:
					if r := t.extractVoid([]ast.Stmt{s}); r != nil {
						t.sites++
						out = append(out, r...)
						continue
					}
				}
				out = append(out, s)
			}
			t.fd.Body.List = out
		},
		// the body of a loop or if without escapes becomes a helper
		"extractbody": func(t *T) {
			t.each(func(s ast.Stmt) []ast.Stmt {
				var bs []*ast.BlockStmt
				switch x := s.(type) {
				case *ast.ForStmt:
					bs = append(bs, x.Body)
				case *ast.RangeStmt:
					bs = append(bs, x.Body)
				case *ast.IfStmt:
					bs = append(bs, x.Body, elseBlock(x))
				}
				did := false
				for _, b := range bs {
					if b == nil || len(b.List) == 0 {
						continue
					}
					if r := t.extractVoid(b.List); r != nil {
						b.List = r
						did = true
					}
				}
				if !did {
					return nil
				}
				return []ast.Stmt{s}
			})
		},
		// func F(..) -> func F(..) { return zzF(..) }
		"wrapfn": func(t *T) {
			sg := t.info.Defs[t.fd.Name].Type().(*types.Signature)
			if sg.TypeParams() != nil || sg.RecvTypeParams() != nil || t.fd.Name.Name == "init" || t.fd.Name.Name == "main" || t.fd.Name.Name == "_" {
				return
			}
			if hasStmt(t.fd.Body, func(x ast.Node) bool {
				c, ok := x.(*ast.CallExpr)
				if !ok {
					return false
				}
				i, ok := c.Fun.(*ast.Ident)
				return ok && i.Name == "recover"
			}) {
				return
			}
			name := "zz" + t.fd.Name.Name
			n := 0
			var args []ast.Expr
			variadic := false
			np := &ast.FieldList{}
			for _, f := range t.fd.Type.Params.List {
				nf := &ast.Field{Type: f.Type}
				k := len(f.Names)
				if k == 0 {
					k = 1
				}
				for j := 0; j < k; j++ {
					nm := ""
					if len(f.Names) > 0 && f.Names[j].Name != "_" {
						nm = f.Names[j].Name
					} else {
						n++
						nm = "zzarg" + string(rune('a'+n))
					}
					nf.Names = append(nf.Names, id(nm))
					args = append(args, id(nm))
				}
				if _, ok := f.Type.(*ast.Ellipsis); ok {
					variadic = true
				}
				np.List = append(np.List, nf)
			}
			inner := &ast.FuncDecl{Name: id(name), Type: t.fd.Type, Body: t.fd.Body, Recv: t.fd.Recv}
			var fun ast.Expr = id(name)
			recv := t.fd.Recv
			if recv != nil {
				rn := "zzrecv"
				if len(recv.List[0].Names) > 0 && recv.List[0].Names[0].Name != "_" {
					rn = recv.List[0].Names[0].Name
				}
				recv = &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id(rn)}, Type: recv.List[0].Type}}}
				fun = &ast.SelectorExpr{X: id(rn), Sel: id(name)}
			}
			call := &ast.CallExpr{Fun: fun, Args: args}
			if variadic {
				call.Ellipsis = 1
			}
			var body ast.Stmt = &ast.ReturnStmt{Results: []ast.Expr{call}}
			if sg.Results().Len() == 0 {
				body = &ast.ExprStmt{X: call}
			}
			t.extra = append(t.extra, inner)
			t.fd.Type = &ast.FuncType{Params: np, Results: t.fd.Type.Results}
			t.fd.Recv = recv
			t.fd.Body = &ast.BlockStmt{List: []ast.Stmt{body}}
			t.sites++
		},
		// swap adjacent independent assignments
		"reorder": func(t *T) {
			t.lists(func(l []ast.Stmt) []ast.Stmt {
				for k := 0; k+1 < len(l); k++ {
					if t.indep(l[k], l[k+1]) {
						l[k], l[k+1] = l[k+1], l[k]
						t.sites++
						k++
					}
				}
				return l
			})
		},
		"rename": func(t *T) {
			sc := map[types.Object]bool{}
			ast.Inspect(t.fd, func(n ast.Node) bool {
				if i, ok := n.(*ast.Ident); ok {
					if v, ok := t.info.Defs[i].(*types.Var); ok && !v.IsField() && i.Name != "_" {
						sc[v] = true
					}
				}
				if o := t.info.Implicits[n]; n != nil && o != nil {
					if v, ok := o.(*types.Var); ok && v.Name() != "_" && v.Name() != "" {
						sc[v] = true
					}
				}
				return true
			})
			ast.Inspect(t.fd, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.Ident:
					o := t.info.Defs[x]
					if o == nil {
						o = t.info.Uses[x]
					}
					if o != nil && sc[o] {
						x.Name = "v" + x.Name + "Q"
						t.sites++
					}
				case *ast.TypeSwitchStmt:
					if a, ok := x.Assign.(*ast.AssignStmt); ok {
						i := a.Lhs[0].(*ast.Ident)
						i.Name = "v" + i.Name + "Q"
					}
				}
				return true
			})
		},
	}
}

func retTerm(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.IfStmt:
		b, ok := x.Else.(*ast.BlockStmt)
		return ok && len(b.List) > 0 && len(x.Body.List) > 0 && retTerm(b.List[len(b.List)-1]) && retTerm(x.Body.List[len(x.Body.List)-1])
	}
	return false
}

func elseBlock(i *ast.IfStmt) *ast.BlockStmt {
	b, _ := i.Else.(*ast.BlockStmt)
	return b
}

func mutableRead(t *T, e ast.Expr) bool {
	bad := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.SelectorExpr:
			if s := t.info.Selections[x]; s != nil && s.Kind() == types.FieldVal {
				bad = true
			}
		case *ast.Ident:
			if v, ok := t.info.Uses[x].(*types.Var); ok && t.shared(v) {
				bad = true
			}
		}
		return true
	})
	return bad
}

func declaresName(l []ast.Stmt, post ast.Stmt) bool {
	names := map[string]bool{}
	ast.Inspect(post, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			names[i.Name] = true
		}
		return true
	})
	for _, s := range l {
		if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
			for _, x := range a.Lhs {
				if i, ok := x.(*ast.Ident); ok && names[i.Name] {
					return true
				}
			}
		}
		if _, ok := s.(*ast.DeclStmt); ok {
			return true
		}
	}
	return false
}

func (t *T) named() bool {
	r := t.sig.Results()
	for i := 0; i < r.Len(); i++ {
		if n := r.At(i).Name(); n != "" {
			return true
		}
	}
	return false
}

func (t *T) extractTail(b *ast.BlockStmt) bool { return t.extractTailFrom(b, nil) }
func (t *T) extractTailFrom(b *ast.BlockStmt, before []ast.Stmt) bool {
	last := b.List[len(b.List)-1]
	res := t.sig.Results().Len()
	if res > 0 && !retTerm(last) {
		if _, ok := last.(*ast.ExprStmt); !ok || !terminating(last) {
			return false
		}
	}
	if res == 0 {
		if _, ok := last.(*ast.ReturnStmt); !ok && before == nil {
			return false
		}
	}
	if t.hasDeferOrRecover(b) || escapes(b.List) || nakedReturn(b) && res > 0 {
		return false
	}
	var ns []ast.Node
	for _, s := range b.List {
		ns = append(ns, s)
	}
	fr := t.freeVars(ns...)
	for _, v := range fr.vars {
		if t.shared(v) {
			return false
		}
	}
	if t.named() && len(fr.assigned) > 0 {
		for i := 0; i < res; i++ {
			if fr.assigned[t.sig.Results().At(i)] {
				return false
			}
		}
	}
	rt, ok := t.resultTypes()
	if !ok {
		return false
	}
	call, ok := t.helper(fr, b.List, rt)
	if !ok {
		return false
	}
	if res > 0 {
		b.List = []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{call}}}
	} else if before != nil {
		b.List = []ast.Stmt{&ast.ExprStmt{X: call}}
	} else {
		b.List = []ast.Stmt{&ast.ExprStmt{X: call}, &ast.ReturnStmt{}}
	}
	return true
}

func (t *T) extractVoid(l []ast.Stmt) []ast.Stmt {
	b := &ast.BlockStmt{List: l}
	if hasReturn(b) || t.hasDeferOrRecover(b) || escapes(l) || terminating(b) {
		return nil
	}
	if f, ok := l[len(l)-1].(*ast.ForStmt); ok && f.Cond == nil {
		return nil
	}
	var ns []ast.Node
	for _, s := range l {
		ns = append(ns, s)
	}
	fr := t.freeVars(ns...)
	var rt []ast.Expr
	var lhs []ast.Expr
	for _, v := range fr.vars {
		if t.shared(v) {
			return nil
		}
		if fr.assigned[v] {
			te := t.typeExpr(v.Type())
			if te == nil {
				return nil
			}
			rt = append(rt, te)
			lhs = append(lhs, id(v.Name()))
		}
	}
	body := append([]ast.Stmt(nil), l...)
	if len(lhs) > 0 {
		body = append(body, &ast.ReturnStmt{Results: lhs})
	}
	call, ok := t.helper(fr, body, rt)
	if !ok {
		return nil
	}
	if len(lhs) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: call}}
	}
	out := []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{call}}}
	for _, x := range lhs {
		out = append(out, &ast.AssignStmt{Lhs: []ast.Expr{id("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{x}})
	}
	return out
}

func (t *T) indep(a, b ast.Stmt) bool {
	x, ok := a.(*ast.AssignStmt)
	y, ok2 := b.(*ast.AssignStmt)
	if !ok || !ok2 {
		return false
	}
	if x.Tok != token.ASSIGN && x.Tok != token.DEFINE || y.Tok != token.ASSIGN && y.Tok != token.DEFINE {
		return false
	}
	// defines must define only fresh names so that swapping keeps declarations
	objs := func(s *ast.AssignStmt) (w map[types.Object]bool, wf map[string]bool, r map[types.Object]bool, rf map[string]bool, ok bool) {
		w, wf, r, rf, ok = map[types.Object]bool{}, map[string]bool{}, map[types.Object]bool{}, map[string]bool{}, true
		for _, l := range s.Lhs {
			switch z := l.(type) {
			case *ast.Ident:
				o := t.info.Defs[z]
				if o == nil {
					o = t.info.Uses[z]
					if s.Tok == token.DEFINE {
						ok = false
					}
				}
				if o == nil {
					ok = false
				}
				if v, is := o.(*types.Var); is && (v.Parent() == t.pk.Types.Scope() || t.shared(v)) {
					ok = false
				}
				w[o] = true
			case *ast.SelectorExpr:
				if !pure(t.info, z.X) {
					ok = false
				}
				if i, is := z.X.(*ast.Ident); is {
					r[t.info.Uses[i]] = true
				} else {
					ok = false
				}
				wf[z.Sel.Name] = true
			default:
				ok = false
			}
		}
		for _, e := range s.Rhs {
			if !pure(t.info, e) {
				// allow make/new
				ok = false
			}
			ast.Inspect(e, func(n ast.Node) bool {
				switch z := n.(type) {
				case *ast.Ident:
					if o := t.info.Uses[z]; o != nil {
						r[o] = true
						if v, is := o.(*types.Var); is && v.Parent() == t.pk.Types.Scope() {
							// package variables may not be written here, fine
						}
					}
				case *ast.SelectorExpr:
					rf[z.Sel.Name] = true
				case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.TypeAssertExpr:
					ok = false
				}
				return true
			})
		}
		return
	}
	w1, wf1, r1, rf1, ok1 := objs(x)
	w2, wf2, r2, rf2, okk := objs(y)
	if !ok1 || !okk {
		return false
	}
	for o := range w1 {
		if w2[o] || r2[o] {
			return false
		}
	}
	for o := range w2 {
		if r1[o] {
			return false
		}
	}
	for f := range wf1 {
		if wf2[f] || rf2[f] {
			return false
		}
	}
	for f := range wf2 {
		if rf1[f] {
			return false
		}
	}
	return true
}
