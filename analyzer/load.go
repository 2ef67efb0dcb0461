package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/ThinkiumGroup/go-common"

// Prog is the type-checked, SSA-built view of the repository under analysis.
type Prog struct {
	Dir     string
	ModPath string
	Fset    *token.FileSet
	Pkgs    []*packages.Package
	SSA     *ssa.Program
	ByPath  map[string]*packages.Package
	SByPath map[string]*ssa.Package
	Funcs   []*ssa.Function // every source function (methods, anonymous functions included)
	funcSet map[*ssa.Function]bool
	callers map[*ssa.Function][]ssa.CallInstruction
	taken   map[*ssa.Function]bool
	inl     *ssa.Inliner
	gone    map[string][]string
}

// loadRepo loads every package of the module in dir with the same toolchain
// that builds it and fails on any parse or type error.
func loadRepo(dir string, patterns ...string) (*Prog, error) {
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	p := &Prog{Dir: dir, ByPath: map[string]*packages.Package{}, SByPath: map[string]*ssa.Package{}, funcSet: map[*ssa.Function]bool{}}
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			return nil, fmt.Errorf("package %s does not type-check: %v", pk.PkgPath, e)
		}
		if pk.Module != nil {
			p.ModPath = pk.Module.Path
		}
	}
	pkgs = reloadRenamed(*cfg, patterns, pkgs)
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	p.Pkgs = pkgs
	p.Fset = pkgs[0].Fset
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p.SSA = prog
	for i, pk := range pkgs {
		p.ByPath[pk.PkgPath] = pk
		p.SByPath[pk.PkgPath] = spkgs[i]
	}
	inRepo := map[*ssa.Package]bool{}
	for _, sp := range spkgs {
		inRepo[sp] = true
	}
	dropped := p.normalise(inRepo)
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Blocks == nil {
			continue
		}
		pk := fnPkg(fn)
		if pk == nil || !inRepo[pk] || dropped(fn) {
			continue
		}
		p.funcSet[fn] = true
		if fn.Synthetic != "" {
			continue
		}
		p.Funcs = append(p.Funcs, fn)
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return fname(p.Funcs[i]) < fname(p.Funcs[j]) })
	p.callers = map[*ssa.Function][]ssa.CallInstruction{}
	for fn := range p.funcSet {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if callee := staticCallee(c); callee != nil {
						p.callers[callee] = append(p.callers[callee], c)
					}
				}
			}
		}
	}
	return p, nil
}

func fnPkg(fn *ssa.Function) *ssa.Package {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg
		}
		if f.Object() != nil && f.Object().Pkg() != nil {
			return f.Prog.ImportedPackage(f.Object().Pkg().Path())
		}
	}
	return nil
}

// fname is a stable, line-free name: pkg-relative function or method name.
func fname(fn *ssa.Function) string {
	if fn == nil {
		return "<nil>"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath, "common")
	return s
}

func (p *Prog) pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.Fset.Position(pos)
	rel, err := filepath.Rel(p.Dir, q.Filename)
	if err != nil {
		rel = q.Filename
	}
	return fmt.Sprintf("%s:%d", rel, q.Line)
}

// instrPos gives the best available position for an instruction.
func (p *Prog) ipos(in ssa.Instruction) string {
	if in == nil {
		return "?"
	}
	if in.Pos().IsValid() {
		return p.pos(in.Pos())
	}
	if v, ok := in.(ssa.Value); ok {
		if refs := v.Referrers(); refs != nil {
			for _, r := range *refs {
				if r.Pos().IsValid() {
					return p.pos(r.Pos())
				}
			}
		}
	}
	b := in.Block()
	if b != nil {
		for _, x := range b.Instrs {
			if x.Pos().IsValid() {
				return p.pos(x.Pos())
			}
		}
	}
	if in.Parent() != nil {
		return p.pos(in.Parent().Pos())
	}
	return "?"
}

func (p *Prog) pkg(rel string) *ssa.Package {
	if rel == "" || rel == "." {
		return p.SByPath[p.ModPath]
	}
	return p.SByPath[p.ModPath+"/"+rel]
}

// inPkg reports whether fn belongs to one of the given repo-relative packages ("" = root).
func (p *Prog) inPkg(fn *ssa.Function, rels ...string) bool {
	pk := fnPkg(fn)
	if pk == nil {
		return false
	}
	for _, r := range rels {
		if pk == p.pkg(r) {
			return true
		}
	}
	return false
}

func (p *Prog) funcsIn(rels ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.Funcs {
		if p.inPkg(f, rels...) {
			out = append(out, f)
		}
	}
	return out
}

// named looks a named type up.
func (p *Prog) named(rel, name string) *types.Named {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	o := pk.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(tn.Type()).(*types.Named)
	return n
}

// method finds the declared method (not a promoted wrapper) T.name or (*T).name.
func (p *Prog) method(rel, typ, name string) *ssa.Function {
	n := p.named(rel, typ)
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if m.Name() == name {
			return p.SSA.FuncValue(m)
		}
	}
	return nil
}

func (p *Prog) fn(rel, name string) *ssa.Function {
	pk := p.pkg(rel)
	if pk == nil {
		return nil
	}
	return pk.Func(name)
}

func (p *Prog) methodsOf(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if f := p.SSA.FuncValue(n.Method(i)); f != nil && f.Blocks != nil {
			out = append(out, f)
		}
	}
	return out
}

// recvNamed returns the named receiver type of a method (through a pointer).
func recvNamed(fn *ssa.Function) *types.Named {
	if fn == nil || fn.Signature.Recv() == nil {
		return nil
	}
	return namedOf(fn.Signature.Recv().Type())
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		t = types.Unalias(pt.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func structOf(t types.Type) *types.Struct {
	t = types.Unalias(t)
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func staticCallee(c ssa.CallInstruction) *ssa.Function {
	cc := c.Common()
	if cc.IsInvoke() {
		return nil
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		f, _ := v.Fn.(*ssa.Function)
		return f
	}
	return nil
}

// calleeFunc resolves the *types.Func a call refers to: concrete or interface method.
func calleeFunc(c ssa.CallInstruction) *types.Func {
	cc := c.Common()
	if cc.IsInvoke() {
		return cc.Method
	}
	if f := staticCallee(c); f != nil {
		if o, ok := f.Object().(*types.Func); ok {
			return o
		}
	}
	return nil
}

func calleePkgName(c ssa.CallInstruction) (pkg, name string) {
	if f := calleeFunc(c); f != nil {
		if f.Pkg() != nil {
			return f.Pkg().Path(), f.Name()
		}
		return "", f.Name()
	}
	if b, ok := c.Common().Value.(*ssa.Builtin); ok {
		return "builtin", b.Name()
	}
	return "", ""
}

func callName(c ssa.CallInstruction) string {
	cc := c.Common()
	if cc.IsInvoke() {
		s := cc.Method.FullName()
		s = strings.ReplaceAll(s, modPath+"/", "")
		return strings.ReplaceAll(s, modPath, "common")
	}
	if f := staticCallee(c); f != nil {
		return fname(f)
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	ts := types.TypeString(cc.Value.Type(), func(p *types.Package) string { return p.Name() })
	return "dynamic " + ts
}

// callArgs lists receiver+args uniformly for static and invoke calls.
func callArgs(c ssa.CallInstruction) []ssa.Value {
	cc := c.Common()
	if cc.IsInvoke() {
		return append([]ssa.Value{cc.Value}, cc.Args...)
	}
	return cc.Args
}

func fieldName(fa *ssa.FieldAddr) string {
	st := structOf(fa.X.Type())
	if st == nil {
		return "?"
	}
	return st.Field(fa.Field).Name()
}

func constNil(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && isNillable(c.Type())
}

func isNillable(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	case *types.Basic:
		b := t.Underlying().(*types.Basic)
		return b.Kind() == types.UntypedNil || b.Kind() == types.UnsafePointer
	}
	return false
}

func constBool(v ssa.Value) (bool, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Bool {
		return false, false
	}
	return constant.BoolVal(c.Value), true
}

func constInt(v ssa.Value) (int64, bool) {
	c, ok := v.(*ssa.Const)
	if !ok || c.Value == nil {
		return 0, false
	}
	cv := constant.ToInt(c.Value)
	if cv.Kind() != constant.Int {
		return 0, false
	}
	return constant.Int64Val(cv)
}

// reachableFns returns the static in-repo call closure of roots (anonymous functions included).
func (p *Prog) reachableFns(roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !p.funcSet[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					visit(staticCallee(c))
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					switch v := (*op).(type) {
					case *ssa.Function:
						visit(v)
					case *ssa.MakeClosure:
						visit(v.Fn.(*ssa.Function))
					}
				}
			}
		}
	}
	for _, r := range roots {
		visit(r)
	}
	return seen
}

func isExportedFn(fn *ssa.Function) bool {
	o := fn.Object()
	return o != nil && o.Exported()
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// implementers are the repository methods a call of the interface method m may reach.
func (p *Prog) implementers(m *types.Func) []*ssa.Function {
	sig, ok := m.Type().(*types.Signature)
	if !ok || sig.Recv() == nil {
		return nil
	}
	it, ok := sig.Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for f := range p.funcSet {
		if f.Name() != m.Name() || f.Signature.Recv() == nil {
			continue
		}
		if types.Implements(f.Signature.Recv().Type(), it) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}

// dynCallees are the repository functions used as values that have the signature sig.
func (p *Prog) dynCallees(sig *types.Signature) []*ssa.Function {
	if p.taken == nil {
		p.taken = map[*ssa.Function]bool{}
		for fn := range p.funcSet {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var call ssa.Value
					if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						call = c.Common().Value
					}
					for i, op := range in.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						f, ok := (*op).(*ssa.Function)
						if !ok || i == 0 && call == *op {
							continue
						}
						p.taken[f] = true
					}
				}
			}
		}
	}
	var out []*ssa.Function
	for f := range p.taken {
		s := f.Signature
		if types.Identical(types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()), types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic())) && s.Recv() == nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fname(out[i]) < fname(out[j]) })
	return out
}
