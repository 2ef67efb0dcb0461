package main

import (
	_ "embed"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// The rules are stated for the functions the repository has. A function that is not among
// them (one that an edit has split off another) is not looked at on its own: its body is
// spliced into the functions that call it, and they are judged with it in place. The list
// only selects what is spliced; it decides nothing about what holds.
//
//go:embed baseline.txt
var baselineText string

func baselineName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fname(fn)
}

func (p *Prog) normalise(inRepo map[*ssa.Package]bool) func(*ssa.Function) bool {
	base, rec := map[string]bool{}, map[string]bool{}
	for _, l := range strings.Split(baselineText, "\n") {
		if l0 := strings.TrimSuffix(l, " recursive"); l0 != l {
			l, rec[l0] = l0, true
		}
		if l != "" && !strings.HasPrefix(l, "#") {
			base[l] = true
		}
	}
	mode := os.Getenv("VSTAT_BASELINE")
	if mode == "none" {
		base = map[string]bool{}
	}
	isNew := func(g *ssa.Function) bool {
		pk := fnPkg(g)
		if pk == nil || !inRepo[pk] || g.Parent() != nil || g.Name() == "init" || strings.HasPrefix(g.Name(), "init#") {
			return false
		}
		if g.Synthetic != "" && g.Origin() == nil {
			return strings.Contains(g.Synthetic, "bound method wrapper") || strings.Contains(g.Synthetic, "thunk")
		}
		return !base[baselineName(g)] && mode != "all"
	}
	var fns []*ssa.Function
	for fn := range ssautil.AllFunctions(p.SSA) {
		if pk := fnPkg(fn); fn.Blocks != nil && pk != nil && inRepo[pk] && (fn.Synthetic == "" || fn.Origin() != nil) {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
	errGlobals := p.nonNilGlobals(fns)
	p.inl = &ssa.Inliner{Want: isNew, NonNil: func(v ssa.Value) bool {
		switch x := v.(type) {
		case *ssa.Call:
			return freshError(x)
		case *ssa.UnOp:
			g, ok := x.X.(*ssa.Global)
			return ok && x.Op == token.MUL && errGlobals[g]
		}
		return false
	}}
	for _, f := range fns {
		ssa.Canon(f)
	}
	for _, f := range fns {
		if rec[baselineName(f)] {
			ssa.Untail(f)
		}
	}
	p.inl.Run(fns)
	for _, f := range fns {
		if p.inl.Into[f] > 0 {
			ssa.Canon(f)
		}
	}
	if os.Getenv("VSTAT_SANITY") != "" {
		for _, f := range fns {
			n := p.inl.Into[f]
			if err := p.inl.Check(f); err != nil {
				fmt.Println("SANITY", fname(f), n, err)
			}
		}
		for g, n := range p.inl.Sites {
			fmt.Println("INLINED", fname(g), n)
		}
		for g, w := range p.inl.Kept {
			fmt.Println("KEPT", fname(g), w)
		}
	}
	if d := os.Getenv("VSTAT_DUMP"); d != "" {
		for _, f := range fns {
			if fname(f) == d {
				f.WriteTo(os.Stdout)
			}
		}
	}
	// what is still referred to
	after := ssautil.AllFunctions(p.SSA)
	refd := map[*ssa.Function]bool{}
	invoked := map[string]bool{}
	for fn := range after {
		skip := fn.Synthetic != "" && fn.Origin() == nil && fn.Name() != "init"
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					invoked[c.Common().Method.Name()] = true
				}
				for _, op := range in.Operands(nil) {
					if op != nil && *op != nil {
						if g, ok := (*op).(*ssa.Function); ok && !(skip && isNew(g)) {
							refd[g] = true
						}
					}
				}
			}
		}
	}
	gone := map[*ssa.Function]bool{}
	for _, fn := range fns {
		if isNew(fn) && !isExportedFn(fn) && !refd[fn] && !(fn.Signature.Recv() != nil && invoked[fn.Name()]) {
			gone[fn] = true
		}
	}
	// literals nothing creates any more, and those of functions that are gone
	return func(fn *ssa.Function) bool {
		for f := fn; f != nil; f = f.Parent() {
			if gone[f] || f.Parent() != nil && !refd[f] {
				return true
			}
		}
		return false
	}
}

func freshError(c *ssa.Call) bool {
	pk, n := calleePkgName(c)
	return pk == "errors" && n == "New" || pk == "fmt" && n == "Errorf" || pk == "github.com/pkg/errors" && (n == "New" || n == "Errorf")
}

// nonNilGlobals are the error variables that only the package initialiser sets, to a new error.
func (p *Prog) nonNilGlobals(fns []*ssa.Function) map[*ssa.Global]bool {
	good, bad := map[*ssa.Global]bool{}, map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(p.SSA) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok || !isErrorType(types.Unalias(g.Type()).(*types.Pointer).Elem()) {
						continue
					}
					switch x := in.(type) {
					case *ssa.Store:
						c, ok := x.Val.(*ssa.Call)
						if x.Addr == ssa.Value(g) && ok && freshError(c) && fn.Name() == "init" {
							good[g] = true
						} else {
							bad[g] = true
						}
					case *ssa.UnOp:
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for g := range bad {
		delete(good, g)
	}
	return good
}
