// autoref applies one kind of behaviour-preserving rewrite to (selected functions of) a copy of the
// repository, in place. It is a development aid: every check has to stay quiet on the result.
// usage: autoref -dir COPY -kind KIND [-only REGEXP] [-skip REGEXP]
package main

import (
	"bytes"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ast/astutil"
	"golang.org/x/tools/go/packages"
)

type T struct {
	pk    *packages.Package
	info  *types.Info
	file  *ast.File
	fd    *ast.FuncDecl
	n     int
	extra []ast.Decl
	sites int
	body  *ast.BlockStmt // innermost function body
	sig   *types.Signature
}

func id(s string) *ast.Ident { return &ast.Ident{Name: s} }
func (t *T) fresh(p string) string {
	t.n++
	return fmt.Sprintf("%sZ%d", p, t.n)
}
func (t *T) helperName() string {
	t.n++
	r := ""
	if t.fd.Recv != nil {
		r = recvName(t.fd)
	}
	return fmt.Sprintf("zz%s%sPart%d", r, strings.Title(t.fd.Name.Name), t.n)
}
func recvName(fd *ast.FuncDecl) string {
	e := fd.Recv.List[0].Type
	for {
		switch x := e.(type) {
		case *ast.StarExpr:
			e = x.X
		case *ast.IndexExpr:
			e = x.X
		case *ast.Ident:
			return x.Name
		default:
			return ""
		}
	}
}

type kindFn func(t *T)

// lists applies f bottom-up to every statement list of the function.
func (t *T) lists(f func(list []ast.Stmt) []ast.Stmt) {
	t.listsIn(t.fd.Body, t.info.Defs[t.fd.Name].Type().(*types.Signature), f)
}
func (t *T) listsIn(body *ast.BlockStmt, sig *types.Signature, f func(list []ast.Stmt) []ast.Stmt) {
	ob, os := t.body, t.sig
	defer func() { t.body, t.sig = ob, os }()
	var walk func(n ast.Node)
	do := func(l []ast.Stmt) []ast.Stmt {
		for _, s := range l {
			walk(s)
		}
		t.body, t.sig = body, sig
		return f(l)
	}
	walk = func(n ast.Node) {
		ast.Inspect(n, func(x ast.Node) bool {
			switch b := x.(type) {
			case *ast.FuncLit:
				if s, ok := t.info.TypeOf(b).(*types.Signature); ok {
					t.listsIn(b.Body, s, f)
				}
				t.body, t.sig = body, sig
				return false
			case *ast.BlockStmt:
				b.List = do(b.List)
				return false
			case *ast.CaseClause:
				b.Body = do(b.Body)
				return false
			case *ast.CommClause:
				b.Body = do(b.Body)
				return false
			}
			return true
		})
	}
	body.List = do(body.List)
}

// exprs rewrites expressions bottom-up.
func (t *T) exprs(f func(e ast.Expr) ast.Expr) {
	astutil.Apply(t.fd.Body, nil, func(c *astutil.Cursor) bool {
		if e, ok := c.Node().(ast.Expr); ok && e != nil {
			if r := f(e); r != e {
				c.Replace(r)
				t.sites++
			}
		}
		return true
	})
}

func clone(e ast.Expr) ast.Expr { return e } // nodes are printed only, sharing is harmless

func pure(info *types.Info, e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			if i, is := x.Fun.(*ast.Ident); is {
				if b, is := info.Uses[i].(*types.Builtin); is && (b.Name() == "len" || b.Name() == "cap") {
					return true
				}
			}
			if tv, is := info.Types[x.Fun]; is && tv.IsType() {
				return true
			}
			ok = false
		case *ast.FuncLit:
			ok = false
			return false
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				ok = false
			}
		}
		return ok
	})
	return ok
}

// nopanic: evaluating e cannot panic
func nopanic(info *types.Info, e ast.Expr) bool {
	ok := pure(info, e)
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.IndexExpr, *ast.SliceExpr, *ast.StarExpr, *ast.TypeAssertExpr:
			ok = false
		case *ast.SelectorExpr:
			if s := info.Selections[x]; s != nil {
				if s.Indirect() || ptr(info.TypeOf(x.X)) {
					ok = false
				}
			}
		case *ast.BinaryExpr:
			if x.Op == token.QUO || x.Op == token.REM || x.Op == token.SHL || x.Op == token.SHR {
				ok = false
			}
			if x.Op == token.EQL || x.Op == token.NEQ {
				if tt := info.TypeOf(x.X); tt == nil || types.IsInterface(tt) {
					ok = false
				}
			}
		case *ast.CallExpr:
			if tv, is := info.Types[x.Fun]; is && tv.IsType() {
				return true
			}
		}
		return ok
	})
	return ok
}
func ptr(t types.Type) bool {
	if t == nil {
		return true
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func terminating(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ReturnStmt:
		return true
	case *ast.BranchStmt:
		return x.Tok == token.BREAK || x.Tok == token.CONTINUE || x.Tok == token.GOTO
	case *ast.ExprStmt:
		if c, ok := x.X.(*ast.CallExpr); ok {
			if i, ok := c.Fun.(*ast.Ident); ok && i.Name == "panic" {
				return true
			}
		}
	case *ast.BlockStmt:
		return len(x.List) > 0 && terminating(x.List[len(x.List)-1])
	case *ast.IfStmt:
		return x.Else != nil && terminating(x.Body) && terminating(x.Else)
	}
	return false
}

// hasStmt reports whether a statement matching f appears in n outside function literals.
func hasStmt(n ast.Node, f func(ast.Node) bool) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		if found || x == nil {
			return false
		}
		if _, ok := x.(*ast.FuncLit); ok {
			return false
		}
		if f(x) {
			found = true
		}
		return true
	})
	return found
}
func declares(l []ast.Stmt) bool {
	for _, s := range l {
		switch x := s.(type) {
		case *ast.DeclStmt:
			return true
		case *ast.AssignStmt:
			if x.Tok == token.DEFINE {
				return true
			}
		case *ast.LabeledStmt:
			return true
		}
	}
	return false
}

func not(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return not(x.X)
	case *ast.UnaryExpr:
		if x.Op == token.NOT {
			return x.X
		}
	case *ast.BinaryExpr:
		inv := map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}
		if o, ok := inv[x.Op]; ok && o != 0 {
			return &ast.BinaryExpr{X: x.X, Op: o, Y: x.Y}
		}
	}
	return &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: e}}
}

// isFloat: inverting an ordered comparison of floats is not an equivalence
func (t *T) hasFloatCmp(e ast.Expr) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		if b, ok := n.(*ast.BinaryExpr); ok {
			if bt, ok := t.info.TypeOf(b.X).(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
				f = true
			}
		}
		return true
	})
	return f
}

// typeExpr renders a type in the file's scope; nil when it cannot be named there.
func (t *T) typeExpr(ty types.Type) ast.Expr {
	ok := true
	imports := map[string]string{}
	for _, im := range t.file.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if im.Name != nil {
			imports[p] = im.Name.Name
		} else if ip := t.pk.Imports[p]; ip != nil {
			imports[p] = ip.Name
		}
	}
	var visit func(ty types.Type, d int)
	visit = func(ty types.Type, d int) {
		if d > 10 {
			return
		}
		switch x := ty.(type) {
		case *types.Named:
			if x.Obj().Pkg() != nil && x.Obj().Parent() != x.Obj().Pkg().Scope() {
				ok = false
			}
			if x.Obj().Pkg() != nil && x.Obj().Pkg() != t.pk.Types && !x.Obj().Exported() {
				ok = false
			}
		case *types.Alias:
			if x.Obj().Pkg() != nil && x.Obj().Parent() != x.Obj().Pkg().Scope() {
				ok = false
			}
		case *types.TypeParam:
			ok = false
		case *types.Pointer:
			visit(x.Elem(), d+1)
		case *types.Slice:
			visit(x.Elem(), d+1)
		case *types.Array:
			visit(x.Elem(), d+1)
		case *types.Map:
			visit(x.Key(), d+1)
			visit(x.Elem(), d+1)
		case *types.Chan:
			visit(x.Elem(), d+1)
		case *types.Basic:
			if x.Info()&types.IsUntyped != 0 {
				ok = false
			}
		case *types.Struct, *types.Tuple:
			ok = false
		case *types.Interface:
			if x.NumMethods() > 0 {
				ok = false
			}
		case *types.Signature:
			for i := 0; i < x.Params().Len(); i++ {
				visit(x.Params().At(i).Type(), d+1)
			}
			for i := 0; i < x.Results().Len(); i++ {
				visit(x.Results().At(i).Type(), d+1)
			}
		}
	}
	visit(ty, 0)
	s := types.TypeString(ty, func(p *types.Package) string {
		if p == t.pk.Types {
			return ""
		}
		n, has := imports[p.Path()]
		if !has || n == "_" {
			ok = false
			return "BAD"
		}
		if n == "." {
			return ""
		}
		return n
	})
	if !ok {
		return nil
	}
	s = anyRe.ReplaceAllString(s, "interface{}")
	e, err := parser.ParseExpr(s)
	if err != nil {
		return nil
	}
	stripPos(e)
	// a name shadowed somewhere in the function cannot be used in it
	names := map[string]bool{}
	ast.Inspect(e, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok {
			names[i.Name] = true
		}
		return true
	})
	shadow := false
	ast.Inspect(t.fd, func(n ast.Node) bool {
		if i, ok := n.(*ast.Ident); ok && i != t.fd.Name && names[i.Name] && t.info.Defs[i] != nil {
			shadow = true
		}
		return true
	})
	if shadow {
		return nil
	}
	return e
}

var anyRe = regexp.MustCompile(`\bany\b`)

var posT = reflect.TypeOf(token.NoPos)

func stripPos(n ast.Node) {
	ast.Inspect(n, func(x ast.Node) bool {
		if x == nil {
			return false
		}
		v := reflect.ValueOf(x)
		if v.Kind() == reflect.Ptr {
			v = v.Elem()
		}
		if v.Kind() == reflect.Struct {
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				if f.Type() == posT && f.CanSet() {
					f.SetInt(0)
				}
			}
		}
		return true
	})
	// an ellipsis or func type keeps working without positions
	ast.Inspect(n, func(x ast.Node) bool {
		if ct, ok := x.(*ast.CallExpr); ok {
			_ = ct
		}
		return true
	})
}

type free struct {
	vars     []*types.Var
	assigned map[*types.Var]bool
	bad      bool
}

func within(p token.Pos, ns []ast.Node) bool {
	for _, n := range ns {
		if n.Pos() <= p && p < n.End() {
			return true
		}
	}
	return false
}

// freeVars of a region made of original nodes.
func (t *T) freeVars(ns ...ast.Node) free {
	fr := free{assigned: map[*types.Var]bool{}}
	seen := map[*types.Var]bool{}
	// variables defined in the region
	defd := map[types.Object]bool{}
	for _, n := range ns {
		ast.Inspect(n, func(x ast.Node) bool {
			if i, ok := x.(*ast.Ident); ok {
				if o := t.info.Defs[i]; o != nil {
					defd[o] = true
				}
			}
			if o := t.info.Implicits[x]; x != nil && o != nil {
				defd[o] = true
			}
			return true
		})
	}
	root := func(e ast.Expr, value bool) *types.Var {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				if s := t.info.Selections[x]; s == nil || s.Indirect() || ptr(t.info.TypeOf(x.X)) {
					return nil
				}
				e = x.X
			case *ast.IndexExpr:
				if tt := t.info.TypeOf(x.X); tt == nil {
					return nil
				} else if _, ok := tt.Underlying().(*types.Array); !ok {
					return nil
				}
				e = x.X
			case *ast.Ident:
				v, _ := t.info.Uses[x].(*types.Var)
				return v
			default:
				return nil
			}
		}
	}
	for _, n := range ns {
		ast.Inspect(n, func(x ast.Node) bool {
			mark := func(e ast.Expr) {
				if v := root(e, true); v != nil && !defd[v] {
					fr.assigned[v] = true
				}
			}
			switch y := x.(type) {
			case *ast.Ident:
				switch o := t.info.Uses[y].(type) {
				case *types.Const, *types.TypeName:
					if o.Pkg() == t.pk.Types && o.Parent() != t.pk.Types.Scope() && !defd[o] {
						fr.bad = true
					}
				}
				v, ok := t.info.Uses[y].(*types.Var)
				if !ok || v.IsField() || defd[v] || seen[v] {
					if t.info.Uses[y] == nil && t.info.Defs[y] == nil && y.Name != "_" {
						if y.Pos() == 0 {
							fr.bad = true // made by an earlier rewrite
						}
					}
					return true
				}
				if v.Parent() == t.pk.Types.Scope() || v.Parent() == types.Universe || v.Pkg() != t.pk.Types {
					return true
				}
				seen[v] = true
				fr.vars = append(fr.vars, v)
			case *ast.AssignStmt:
				for _, l := range y.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(y.X)
			case *ast.RangeStmt:
				if y.Tok == token.ASSIGN {
					if y.Key != nil {
						mark(y.Key)
					}
					if y.Value != nil {
						mark(y.Value)
					}
				}
			case *ast.UnaryExpr:
				if y.Op == token.AND {
					mark(y.X)
				}
			case *ast.SliceExpr:
				if tt := t.info.TypeOf(y.X); tt != nil {
					if _, ok := tt.Underlying().(*types.Array); ok {
						mark(y.X)
					}
				}
			case *ast.SelectorExpr:
				if s := t.info.Selections[y]; s != nil && s.Kind() == types.MethodVal {
					sg := s.Obj().Type().(*types.Signature)
					if sg.Recv() != nil && ptr(sg.Recv().Type()) && !ptr(t.info.TypeOf(y.X)) && !types.IsInterface(t.info.TypeOf(y.X)) {
						mark(y.X)
					}
				}
			case *ast.FuncLit:
				fr.bad = true
			}
			return true
		})
	}
	for o := range defd {
		for _, v := range fr.vars {
			if o.Name() == v.Name() {
				fr.bad = true
			}
		}
	}
	sort.Slice(fr.vars, func(i, j int) bool { return fr.vars[i].Pos() < fr.vars[j].Pos() })
	return fr
}

// shared: the variable is captured by a closure or has its address taken somewhere in the function.
func (t *T) shared(v *types.Var) bool {
	bad := false
	ast.Inspect(t.fd.Body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			ast.Inspect(x, func(m ast.Node) bool {
				if i, ok := m.(*ast.Ident); ok && t.info.Uses[i] == v {
					bad = true
				}
				return true
			})
		case *ast.UnaryExpr:
			if x.Op == token.AND {
				ast.Inspect(x.X, func(m ast.Node) bool {
					if i, ok := m.(*ast.Ident); ok && t.info.Uses[i] == v && !ptr(v.Type()) {
						bad = true
					}
					return true
				})
			}
		case *ast.SliceExpr:
			if i, ok := x.X.(*ast.Ident); ok && t.info.Uses[i] == v {
				if _, ok := v.Type().Underlying().(*types.Array); ok {
					bad = true
				}
			}
		case *ast.SelectorExpr:
			if s := t.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
				sg := s.Obj().Type().(*types.Signature)
				if i, ok := x.X.(*ast.Ident); ok && t.info.Uses[i] == v && sg.Recv() != nil && ptr(sg.Recv().Type()) && !ptr(v.Type()) && !types.IsInterface(v.Type()) {
					bad = true
				}
			}
		}
		return true
	})
	return bad
}

// helper makes a function (a method when the receiver is used) with the given body over the free
// variables; it returns the call and false when that is not possible.
func (t *T) helper(fr free, body []ast.Stmt, results []ast.Expr) (*ast.CallExpr, bool) {
	if fr.bad {
		return nil, false
	}
	sigTop := t.info.Defs[t.fd.Name].Type().(*types.Signature)
	if sigTop.TypeParams() != nil || sigTop.RecvTypeParams() != nil {
		return nil, false
	}
	var recv *types.Var
	if sigTop.Recv() != nil {
		recv = sigTop.Recv()
	}
	name := t.helperName()
	fd := &ast.FuncDecl{Name: id(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
	call := &ast.CallExpr{Fun: id(name)}
	for _, v := range fr.vars {
		if v.Name() == "_" {
			return nil, false
		}
		if v == recv {
			te := t.typeExpr(v.Type())
			if te == nil {
				return nil, false
			}
			fd.Recv = &ast.FieldList{List: []*ast.Field{{Names: []*ast.Ident{id(v.Name())}, Type: te}}}
			call.Fun = &ast.SelectorExpr{X: id(v.Name()), Sel: id(name)}
			continue
		}
		te := t.typeExpr(v.Type())
		if te == nil {
			return nil, false
		}
		fd.Type.Params.List = append(fd.Type.Params.List, &ast.Field{Names: []*ast.Ident{id(v.Name())}, Type: te})
		call.Args = append(call.Args, id(v.Name()))
	}
	if len(results) > 0 {
		fd.Type.Results = &ast.FieldList{}
		for _, r := range results {
			fd.Type.Results.List = append(fd.Type.Results.List, &ast.Field{Type: r})
		}
	}
	t.extra = append(t.extra, fd)
	return call, true
}

func (t *T) resultTypes() ([]ast.Expr, bool) {
	var out []ast.Expr
	for i := 0; i < t.sig.Results().Len(); i++ {
		e := t.typeExpr(t.sig.Results().At(i).Type())
		if e == nil {
			return nil, false
		}
		out = append(out, e)
	}
	return out, true
}

func (t *T) hasDeferOrRecover(n ast.Node) bool {
	return hasStmt(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.DeferStmt, *ast.LabeledStmt:
			return true
		case *ast.BranchStmt:
			return y.Label != nil || y.Tok == token.GOTO
		case *ast.CallExpr:
			if i, ok := y.Fun.(*ast.Ident); ok && i.Name == "recover" {
				return true
			}
		}
		return false
	})
}

// escapes: break/continue leaving the region
func escapes(l []ast.Stmt) bool {
	bad := false
	var w func(n ast.Node, loop, sw bool)
	w = func(n ast.Node, loop, sw bool) {
		ast.Inspect(n, func(x ast.Node) bool {
			if x == nil || x == n {
				return true
			}
			switch y := x.(type) {
			case *ast.FuncLit:
				return false
			case *ast.ForStmt, *ast.RangeStmt:
				w(x, true, true)
				return false
			case *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				w(x, loop, true)
				return false
			case *ast.BranchStmt:
				if y.Label != nil || y.Tok == token.GOTO || y.Tok == token.BREAK && !sw || y.Tok == token.CONTINUE && !loop {
					bad = true
				}
			}
			return true
		})
	}
	for _, s := range l {
		w(&ast.BlockStmt{List: []ast.Stmt{s}}, false, false)
	}
	return bad
}
func hasReturn(n ast.Node) bool {
	return hasStmt(n, func(x ast.Node) bool { _, ok := x.(*ast.ReturnStmt); return ok })
}
func nakedReturn(n ast.Node) bool {
	return hasStmt(n, func(x ast.Node) bool { r, ok := x.(*ast.ReturnStmt); return ok && len(r.Results) == 0 })
}

func main() {
	dir := flag.String("dir", "", "")
	kind := flag.String("kind", "", "")
	only := flag.String("only", "", "")
	skip := flag.String("skip", "", "")
	every := flag.Int("every", 1, "")
	list := flag.Bool("list", false, "")
	flag.Parse()
	if *list {
		ks := []string{"renamefn", "renamefield", "revdecl"}
		for k := range kinds {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
		return
	}
	var onlyRe, skipRe *regexp.Regexp
	if *only != "" {
		onlyRe = regexp.MustCompile(*only)
	}
	if *skip != "" {
		skipRe = regexp.MustCompile(*skip)
	}
	cfg := &packages.Config{Mode: packages.NeedName | packages.NeedFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps, Dir: *dir, Env: os.Environ(),
		ParseFile: func(fset *token.FileSet, fn string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
		}}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	k := kinds[*kind]
	if k == nil && *kind != "renamefn" && *kind != "renamefield" && *kind != "revdecl" {
		fmt.Println("unknown kind", *kind)
		os.Exit(2)
	}
	total, fno := 0, 0
	if *kind == "renamefn" || *kind == "renamefield" || *kind == "revdecl" {
		os.Exit(whole(*kind, *dir, pkgs))
	}
	abs, _ := filepath.Abs(*dir)
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			fmt.Println(e)
			os.Exit(2)
		}
		for _, f := range pk.Syntax {
			name := pk.Fset.Position(f.Package).Filename
			if !strings.HasPrefix(name, abs) {
				continue
			}
			src, _ := os.ReadFile(name)
			if bytes.Contains(src, []byte("//go:")) || bytes.Contains(src, []byte("// +build")) || bytes.Contains(src, []byte("import \"C\"")) {
				continue
			}
			n := 0
			var extra []ast.Decl
			cnt := 0
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body == nil {
					continue
				}
				full := pk.Name + "." + fd.Name.Name
				if fd.Recv != nil {
					full = pk.Name + "." + recvName(fd) + "." + fd.Name.Name
				}
				if onlyRe != nil && !onlyRe.MatchString(full) || skipRe != nil && skipRe.MatchString(full) {
					continue
				}
				fno++
				if fno%*every != 0 {
					continue
				}
				t := &T{pk: pk, info: pk.TypesInfo, file: f, fd: fd, n: cnt}
				k(t)
				cnt = t.n
				n += t.sites
				extra = append(extra, t.extra...)
			}
			if n == 0 {
				continue
			}
			f.Decls = append(f.Decls, extra...)
			var buf bytes.Buffer
			if err := format.Node(&buf, pk.Fset, f); err != nil {
				fmt.Println(name, err)
				os.Exit(2)
			}
			if err := os.WriteFile(name, buf.Bytes(), 0o644); err != nil {
				fmt.Println(err)
				os.Exit(2)
			}
			total += n
		}
	}
	fmt.Println(*kind, total, "sites")
	if *kind == "inlinefn" {
		cfg.ParseFile = func(fset *token.FileSet, fn string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, fn, src, parser.SkipObjectResolution)
		}
		pkgs, err = packages.Load(cfg, "./...")
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		os.Exit(prune(*dir, pkgs))
	}
}

// prune removes unexported functions nothing (no test either) mentions any more.
func prune(dir string, pkgs []*packages.Package) int {
	used := map[string]bool{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, "_test.go") {
			src, _ := os.ReadFile(p)
			for _, w := range regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`).FindAllString(string(src), -1) {
				used[w] = true
			}
		}
		return nil
	})
	n := 0
	for _, pk := range pkgs {
		uses := map[types.Object]bool{}
		for _, o := range pk.TypesInfo.Uses {
			uses[o] = true
		}
		for _, f := range pk.Syntax {
			name := pk.Fset.Position(f.Package).Filename
			src, _ := os.ReadFile(name)
			if bytes.Contains(src, []byte("//go:")) || bytes.Contains(src, []byte("// +build")) || bytes.Contains(src, []byte("import \"C\"")) {
				continue
			}
			var keep []ast.Decl
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && !fd.Name.IsExported() && fd.Name.Name != "init" && fd.Name.Name != "main" && !used[fd.Name.Name] && !uses[pk.TypesInfo.Defs[fd.Name]] && fd.Recv == nil {
					n++
					continue
				} else if ok && fd.Recv != nil && !fd.Name.IsExported() && !used[fd.Name.Name] && !uses[pk.TypesInfo.Defs[fd.Name]] && !ifaceMethod(pkgs, fd.Name.Name) {
					n++
					continue
				}
				keep = append(keep, d)
			}
			if len(keep) == len(f.Decls) {
				continue
			}
			f.Decls = keep
			var buf bytes.Buffer
			if err := format.Node(&buf, pk.Fset, f); err != nil {
				fmt.Println(name, err)
				return 2
			}
			// imports that became unused
			out := buf.String()
			for _, im := range f.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				nm := ""
				if im.Name != nil {
					nm = im.Name.Name
				} else if ip := pk.Imports[p]; ip != nil {
					nm = ip.Name
				}
				if nm != "" && nm != "_" && nm != "." && !strings.Contains(out, nm+".") {
					out = regexp.MustCompile(`(?m)^(import )?[ \t]*([A-Za-z_0-9]+ )?`+regexp.QuoteMeta(im.Path.Value)+`$`).ReplaceAllString(out, "")
				}
			}
			os.WriteFile(name, []byte(out), 0o644)
		}
	}
	fmt.Println("pruned", n)
	return 0
}

func ifaceMethod(pkgs []*packages.Package, n string) bool {
	for _, pk := range pkgs {
		for _, f := range pk.Syntax {
			found := false
			ast.Inspect(f, func(x ast.Node) bool {
				if it, ok := x.(*ast.InterfaceType); ok {
					for _, m := range it.Methods.List {
						for _, nm := range m.Names {
							if nm.Name == n {
								found = true
							}
						}
					}
				}
				return true
			})
			if found {
				return true
			}
		}
	}
	return false
}

// whole applies a rewrite of declarations.
func whole(kind, dir string, pkgs []*packages.Package) int {
	tests := map[string]bool{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && strings.HasSuffix(p, "_test.go") {
			src, _ := os.ReadFile(p)
			for _, w := range regexp.MustCompile(`[A-Za-z_][A-Za-z_0-9]*`).FindAllString(string(src), -1) {
				tests[w] = true
			}
		}
		return nil
	})
	n := 0
	skipped := func(name string) bool {
		src, _ := os.ReadFile(name)
		return bytes.Contains(src, []byte("//go:")) || bytes.Contains(src, []byte("// +build")) || bytes.Contains(src, []byte("import \"C\""))
	}
	for _, pk := range pkgs {
		bad := map[string]bool{}
		for _, f := range pk.Syntax {
			if name := pk.Fset.Position(f.Package).Filename; skipped(name) {
				ast.Inspect(f, func(x ast.Node) bool {
					if i, ok := x.(*ast.Ident); ok {
						bad[i.Name] = true
					}
					return true
				})
			}
		}
		iface := map[string]bool{}
		for _, f := range pk.Syntax {
			ast.Inspect(f, func(x ast.Node) bool {
				if it, ok := x.(*ast.InterfaceType); ok {
					for _, m := range it.Methods.List {
						for _, nm := range m.Names {
							iface[nm.Name] = true
						}
					}
				}
				if st, ok := x.(*ast.StructType); ok {
					for _, m := range st.Fields.List {
						if m.Tag != nil {
							for _, nm := range m.Names {
								bad[nm.Name] = true
							}
						}
					}
				}
				return true
			})
		}
		for _, f := range pk.Syntax {
			name := pk.Fset.Position(f.Package).Filename
			if skipped(name) {
				continue
			}
			c := 0
			if kind == "revdecl" {
				var head, tail []ast.Decl
				for _, d := range f.Decls {
					if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
						head = append(head, d)
					} else if ok && g.Tok != token.TYPE {
						head = append(head, d)
					} else {
						tail = append([]ast.Decl{d}, tail...)
					}
				}
				f.Decls = append(head, tail...)
				c = len(tail)
			} else {
				ast.Inspect(f, func(x ast.Node) bool {
					i, ok := x.(*ast.Ident)
					if !ok {
						return true
					}
					o := pk.TypesInfo.Defs[i]
					if o == nil {
						o = pk.TypesInfo.Uses[i]
					}
					if o == nil || o.Pkg() != pk.Types || o.Exported() || tests[i.Name] || bad[i.Name] || i.Name == "init" || i.Name == "main" || i.Name == "_" {
						return true
					}
					switch o := o.(type) {
					case *types.Func:
						if kind == "renamefn" && !iface[i.Name] {
							i.Name = "zzq" + i.Name
							c++
						}
					case *types.Var:
						if kind == "renamefield" && o.IsField() && !o.Embedded() {
							i.Name = "zzq" + i.Name
							c++
						}
					}
					return true
				})
			}
			if c == 0 {
				continue
			}
			var buf bytes.Buffer
			if err := format.Node(&buf, pk.Fset, f); err != nil {
				fmt.Println(name, err)
				return 2
			}
			os.WriteFile(name, buf.Bytes(), 0o644)
			n += c
		}
	}
	fmt.Println(kind, n, "sites")
	return 0
}
