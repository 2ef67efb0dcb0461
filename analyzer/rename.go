package main

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// names.txt lists the unexported functions, variables and struct fields the rules were written
// against. A declaration that was merely renamed is given its old name back before the analysis:
// the rules are about what the code does.
//
//go:embed names.txt
var namesText string

type declName struct {
	kind, pkg, owner, name, typ string
	words                       map[string]bool
	obj                         types.Object
	order                       int
}

func (d *declName) key() string { return d.kind + " " + d.pkg + " " + d.owner + " " + d.name }

func declsOf(pkgs []*packages.Package) []*declName {
	var out []*declName
	for _, pk := range pkgs {
		rel := strings.TrimPrefix(strings.TrimPrefix(pk.PkgPath, modPath), "/")
		qual := func(p *types.Package) string { return p.Path() }
		add := func(kind, owner string, o types.Object, typ string, words map[string]bool) {
			out = append(out, &declName{kind: kind, pkg: "/" + rel, owner: owner, name: o.Name(), typ: strings.ReplaceAll(typ, " ", ""), words: words, obj: o, order: len(out)})
		}
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					o, ok := pk.TypesInfo.Defs[d.Name].(*types.Func)
					if !ok || d.Name.Name == "_" || d.Name.Name == "init" {
						continue
					}
					owner := "-"
					sg := o.Type().(*types.Signature)
					if r := sg.Recv(); r != nil {
						owner = types.TypeString(r.Type(), func(*types.Package) string { return "" })
					}
					w := map[string]bool{}
					if d.Body != nil {
						ast.Inspect(d.Body, func(n ast.Node) bool {
							switch x := n.(type) {
							case *ast.SelectorExpr:
								w[x.Sel.Name] = true
							case *ast.CallExpr:
								if i, ok := x.Fun.(*ast.Ident); ok {
									w[i.Name] = true
								}
							case *ast.BasicLit:
								w[strings.Join(strings.Fields(x.Value), "")] = true
							}
							return true
						})
					}
					t := types.TypeString(types.NewSignatureType(nil, nil, nil, stripNames(sg.Params()), stripNames(sg.Results()), sg.Variadic()), qual)
					add("F", owner, o, t, w)
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.ValueSpec:
							if d.Tok != token.VAR {
								continue
							}
							for _, n := range s.Names {
								if o := pk.TypesInfo.Defs[n]; o != nil && n.Name != "_" {
									add("V", "-", o, types.TypeString(o.Type(), qual), nil)
								}
							}
						case *ast.TypeSpec:
							o := pk.TypesInfo.Defs[s.Name]
							if o == nil {
								continue
							}
							st, ok := o.Type().Underlying().(*types.Struct)
							if _, lit := s.Type.(*ast.StructType); !ok || !lit {
								continue
							}
							for i := 0; i < st.NumFields(); i++ {
								if fl := st.Field(i); !fl.Embedded() && fl.Name() != "_" {
									add("D", o.Name(), fl, types.TypeString(fl.Type(), qual), nil)
								}
							}
						}
					}
				}
			}
		}
	}
	return out
}

func stripNames(t *types.Tuple) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(0, nil, "", t.At(i).Type()))
	}
	return types.NewTuple(vs...)
}

// namesDump writes names.txt.
func namesDump(p *Prog) {
	for _, d := range declsOf(p.Pkgs) {
		var w []string
		for x := range d.words {
			w = append(w, x)
		}
		sort.Strings(w)
		if !d.obj.Exported() || d.kind == "F" {
			fmt.Printf("%s %s %s\n", d.key(), d.typ, strings.Join(w, " "))
		}
	}
}

// renamed finds declarations of the baseline that are gone and the new ones that took their place.
func renamed(pkgs []*packages.Package) map[types.Object]string {
	var base []*declName
	have := map[string]bool{}
	for n, l := range strings.Split(namesText, "\n") {
		f := strings.Split(l, " ")
		if len(f) < 5 {
			continue
		}
		d := &declName{kind: f[0], pkg: f[1], owner: f[2], name: f[3], typ: f[4], words: map[string]bool{}, order: n}
		for _, w := range f[5:] {
			if w != "" {
				d.words[w] = true
			}
		}
		have[d.key()] = true
		if !ast.IsExported(d.name) {
			base = append(base, d)
		}
	}
	if len(base) == 0 {
		return nil
	}
	now := map[string]bool{}
	fresh := map[string][]*declName{}
	group := func(d *declName) string { return d.kind + " " + d.pkg + " " + d.owner + " " + d.typ }
	for _, d := range declsOf(pkgs) {
		now[d.key()] = true
		if !have[d.key()] && !d.obj.Exported() {
			fresh[group(d)] = append(fresh[group(d)], d)
		}
	}
	out := map[types.Object]string{}
	for _, b := range base {
		if now[b.key()] {
			continue
		}
		var best *declName
		bs := -1.0
		for _, c := range fresh[group(b)] {
			if out[c.obj] != "" {
				continue
			}
			s := 1.0
			if b.kind == "F" {
				s = similar(b.words, c.words)
				if s < 0.5 {
					continue
				}
			}
			if s > bs {
				best, bs = c, s
			}
		}
		if best != nil {
			out[best.obj] = b.name
		}
	}
	return out
}

// similar compares what two bodies mention, leaving out what has no counterpart by its name alone.
func similar(a, b map[string]bool) float64 {
	if len(a) == 0 && len(b) == 0 {
		return 1
	}
	n, u := 0, 0
	for w := range a {
		if b[w] {
			n++
		}
		u++
	}
	for w := range b {
		if !a[w] {
			u++
		}
	}
	return float64(n) / float64(u)
}

// reloadRenamed loads the repository again with the old names in place of the new ones; the
// first view is kept when that does not type-check.
func reloadRenamed(cfg packages.Config, patterns []string, pkgs []*packages.Package) []*packages.Package {
	for round := 0; round < 3; round++ {
		rn := renamed(pkgs)
		if len(rn) == 0 {
			return pkgs
		}
		at := map[string]map[int]string{}
		if prev, ok := renameAt[cfg.Dir]; ok {
			at = prev
		}
		for _, pk := range pkgs {
			note := func(id *ast.Ident, o types.Object) {
				if f, ok := o.(*types.Func); ok {
					o = f.Origin()
				}
				if v, ok := o.(*types.Var); ok {
					o = v.Origin()
				}
				if n := rn[o]; n != "" {
					p := pk.Fset.PositionFor(id.Pos(), false)
					fn, _ := filepath.Abs(p.Filename)
					if at[fn] == nil {
						at[fn] = map[int]string{}
					}
					at[fn][p.Offset] = n
				}
			}
			for id, o := range pk.TypesInfo.Defs {
				if o != nil {
					note(id, o)
				}
			}
			for id, o := range pk.TypesInfo.Uses {
				note(id, o)
			}
		}
		renameAt[cfg.Dir] = at
		c := cfg
		c.ParseFile = func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			f, err := parser.ParseFile(fset, filename, src, parser.AllErrors|parser.ParseComments|parser.SkipObjectResolution)
			if f != nil {
				abs, _ := filepath.Abs(filename)
				if m := at[abs]; m != nil {
					ast.Inspect(f, func(n ast.Node) bool {
						if id, ok := n.(*ast.Ident); ok {
							if nn := m[fset.PositionFor(id.Pos(), false).Offset]; nn != "" {
								id.Name = nn
							}
						}
						return true
					})
				}
			}
			return f, err
		}
		again, err := packages.Load(&c, patterns...)
		if err != nil || len(again) != len(pkgs) {
			return pkgs
		}
		for _, pk := range again {
			if len(pk.Errors) > 0 {
				if os.Getenv("VSTAT_SANITY") != "" {
					fmt.Println("RENAME", pk.Errors[0])
				}
				return pkgs
			}
		}
		if os.Getenv("VSTAT_SANITY") != "" {
			fmt.Println("RENAMED", len(rn))
		}
		pkgs = again
	}
	return pkgs
}

var renameAt = map[string]map[string]map[int]string{}

// goneInto lists the functions (as fname writes them) that f used to call and that are gone:
// what they did may have moved into f.
func (p *Prog) goneInto(f *ssa.Function) []string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if p.gone == nil {
		p.gone = map[string][]string{}
		now := map[string]bool{}
		for g := range p.funcSet {
			now[baselineName(g)] = true
		}
		full := func(pkg, owner, name string) string {
			pk := strings.TrimPrefix(pkg, "/")
			if pk == "" {
				pk = "common"
			}
			if owner == "-" {
				return pk + "." + name
			}
			if strings.HasPrefix(owner, "*") {
				return "(*" + pk + "." + owner[1:] + ")." + name
			}
			return "(" + pk + "." + owner + ")." + name
		}
		missing := map[string][]string{} // package and name -> full names
		var lines [][]string
		for _, l := range strings.Split(namesText, "\n") {
			w := strings.Split(l, " ")
			if len(w) < 5 || w[0] != "F" {
				continue
			}
			lines = append(lines, w)
			if fn := full(w[1], w[2], w[3]); !now[fn] {
				missing[w[1]+" "+w[3]] = append(missing[w[1]+" "+w[3]], fn)
			}
		}
		if len(missing) > 0 {
			for _, w := range lines {
				for _, c := range w[5:] {
					for _, m := range missing[w[1]+" "+c] {
						fn := full(w[1], w[2], w[3])
						p.gone[fn] = append(p.gone[fn], m)
					}
				}
			}
		}
	}
	var out []string
	seen := map[string]bool{}
	var add func(n string, d int)
	add = func(n string, d int) {
		for _, m := range p.gone[n] {
			if !seen[m] && d < 4 {
				seen[m] = true
				out = append(out, m)
				add(m, d+1)
			}
		}
	}
	add(baselineName(f), 0)
	return out
}
