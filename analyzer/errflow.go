package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Error-discipline analysis. For every call site whose callee reports an error,
// every path on which that error is non-nil must hand a non-nil error on: return
// it (or another error that is provably non-nil), store it in an error variable
// that outlives the call, pass it to a callback, or panic.

type errRule struct {
	p *Prog
	// isSource decides which call sites are obligations.
	isSource func(fn *ssa.Function, c ssa.CallInstruction) bool
	// okSentinel: comparing the error equal to this global is handling it.
	okSentinel map[string]string
	// okFunc: functions that have no error channel by contract (reason).
	sites    int
	funcs    int
	capped   []string
	c        *Ctx
	rule     string
	pure     bool              // skip callees that only compute on their arguments
	optional map[string]string // callee -> reason its error may be ignored
	skipped  []string
	except   map[string]string // "func <- callee" -> reason
	used     map[string]bool
	noError  func(fn *ssa.Function) string
	entries  bool // io.EOF ends a loop over entries and nothing else
}

func errIdx(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isErrorType(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

func infallibleWriter(c ssa.CallInstruction) bool {
	pkg, name := calleePkgName(c)
	switch pkg {
	case "fmt":
		return strings.HasPrefix(name, "Fprint") || strings.HasPrefix(name, "Print") || name == "Errorf"
	case "errors":
		return true
	case "bytes", "strings":
		// Buffer/Builder writes never fail
		if f := calleeFunc(c); f != nil && f.Type().(*types.Signature).Recv() != nil && strings.HasPrefix(name, "Write") {
			return true
		}
	}
	if strings.HasPrefix(name, "Write") {
		args := callArgs(c)
		if len(args) > 0 && isHashType(args[0].Type()) {
			return true
		}
		if len(args) > 0 {
			if n := namedOf(args[0].Type()); n != nil && n.Obj().Pkg() != nil {
				pp := n.Obj().Pkg().Path()
				if (pp == "bytes" && n.Obj().Name() == "Buffer") || (pp == "strings" && n.Obj().Name() == "Builder") {
					return true
				}
			}
		}
	}
	return false
}

// isHashType: the type offers the hash.Hash method set (Sum, Reset, Size, BlockSize).
func isHashType(t types.Type) bool {
	ms := types.NewMethodSet(t)
	for _, m := range []string{"Sum", "Reset", "Size", "BlockSize"} {
		found := false
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == m {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

type errClient struct {
	r    *errRule
	fn   *ssa.Function
	site map[ssa.Instruction]int
	list []ssa.CallInstruction
	bad  map[int]string
}

func (r *errRule) checkFunc(fn *ssa.Function) {
	cl := &errClient{r: r, fn: fn, site: map[ssa.Instruction]int{}, bad: map[int]string{}}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok || errIdx(c.Common().Signature()) < 0 || infallibleWriter(c) {
				continue
			}
			if call, ok := in.(*ssa.Call); ok && nonNilErrCtor(call) {
				continue
			}
			if cannotFail(r.p, c, 0) || (r.pure && pureCallee(r.p, c, map[*ssa.Function]bool{})) {
				continue
			}
			if why, ok := r.optional[callName(c)]; ok {
				if !r.used[callName(c)] {
					r.used[callName(c)] = true
					r.c.except("errors of "+callName(c), why)
				}
				continue
			}
			if !r.isSource(fn, c) {
				continue
			}
			cl.site[in] = len(cl.list)
			cl.list = append(cl.list, c)
		}
	}
	if len(cl.list) == 0 {
		return
	}
	if errIdx(fn.Signature) < 0 && !storesError(fn) {
		// no channel to report an error on: not an obligation of this rule
		r.skipped = append(r.skipped, fname(fn))
		return
	}
	for _, c := range cl.list {
		r.c.ob(r.rule, fname(fn)+" <- "+callName(c))
	}
	r.funcs++
	r.sites += len(cl.list)
	// one run per site keeps the state space linear
	for i, c := range cl.list {
		switch c.(type) {
		case *ssa.Defer, *ssa.Go:
			r.report(fn, c, "", "its error result is discarded by defer/go")
			continue
		}
		one := &errClient{r: r, fn: fn, site: map[ssa.Instruction]int{c.(ssa.Instruction): i}, list: cl.list, bad: map[int]string{}}
		e := newEngine(r.p, one)
		e.MaxDepth = 3
		e.Run(fn, "")
		if e.Capped {
			r.capped = append(r.capped, fname(fn))
		}
		if t, ok := one.bad[i]; ok {
			r.report(fn, c, t, "a non-nil error from it does not reach the caller")
		}
	}
}

func (r *errRule) report(fn *ssa.Function, c ssa.CallInstruction, trace, msg string) {
	key := fname(fn) + " <- " + callName(c)
	if why, ok := r.except[key]; ok {
		if !r.used[key] {
			r.used[key] = true
			r.c.except(key, why)
		}
		return
	}
	r.c.fail(r.rule, key, r.p.ipos(c.(ssa.Instruction)), "%s: call %s: %s (path %s)", fname(fn), callName(c), msg, trace)
}

func (cl *errClient) Inline(e *Engine, st *State, fr *Frame, c ssa.CallInstruction, callee *ssa.Function) bool {
	if _, isSite := cl.site[c.(ssa.Instruction)]; isSite {
		return false
	}
	if _, ok := c.(*ssa.Defer); ok {
		return true
	}
	if st.C != "p" {
		return callee.Parent() != nil && !hasErrSource(callee)
	}
	// helpers that look at the error
	for i := 0; i < callee.Signature.Params().Len(); i++ {
		if isErrorType(callee.Signature.Params().At(i).Type()) {
			return true
		}
	}
	return callee.Parent() != nil
}

func hasErrSource(fn *ssa.Function) bool { return false }

func (cl *errClient) Pre(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
	if call, ok := in.(*ssa.Call); ok && fr.parent == nil {
		if _, ok := cl.site[in]; ok {
			if st.C != "" {
				return nil
			}
			j := errIdx(call.Call.Signature())
			idx := j
			if call.Call.Signature().Results().Len() == 1 {
				idx = -1
			}
			a := st.clone()
			a.facts[fkey{fr, call, idx}] = fact{k: 'N'}
			b := st.noted("error at " + cl.r.p.ipos(in))
			b.C = "p"
			b.facts[fkey{fr, call, idx}] = fact{k: 'V'}
			return []*State{a, b}
		}
	}
	if st.C != "p" {
		return nil
	}
	switch x := in.(type) {
	case *ssa.Panic:
		return []*State{}
	case *ssa.Store:
		a := e.canon(VV{fr, x.Addr})
		if _, isAlloc := a.v.(*ssa.Alloc); isAlloc {
			return nil
		}
		if isErrorType(x.Val.Type()) && e.Fact(st, VV{fr, x.Val}).k == 'V' {
			return []*State{} // recorded in state that outlives the call
		}
	case *ssa.Send:
		if isErrorType(x.X.Type()) && e.Fact(st, VV{fr, x.X}).k == 'V' {
			return []*State{}
		}
	case *ssa.Call:
		if e.callee(fr, x) == nil && !x.Call.IsInvoke() {
			for _, a := range x.Call.Args {
				if isErrorType(a.Type()) && e.Fact(st, VV{fr, a}).k == 'V' {
					return []*State{} // handed to a callback
				}
			}
		}
		// process exit
		pkg, name := calleePkgName(x)
		if pkg == "os" && name == "Exit" {
			return []*State{}
		}
	}
	return nil
}

func (cl *errClient) Branch(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
	if st.C != "p" {
		return st
	}
	c := e.canon(VV{fr, cond})
	// a reader may deliver the last bytes together with an error: deciding on the
	// number of bytes delivered is handling the error
	if bo, ok := c.v.(*ssa.BinOp); ok {
		for s := range cl.site {
			if call, ok := s.(*ssa.Call); ok && isReadCall(call) && enoughRead(bo, taken, call) {
				n := st.clone()
				n.C = "d"
				return n
			}
		}
	}
	switch v := c.v.(type) {
	case *ssa.BinOp:
		if (v.Op == token.EQL && taken) || (v.Op == token.NEQ && !taken) {
			for _, s := range []ssa.Value{v.X, v.Y} {
				o := v.X
				if o == s {
					o = v.Y
				}
				if isErrorType(s.Type()) && cl.sentinel(e, VV{c.fr, s}) && cl.endOfEntries(e, VV{c.fr, s}, VV{c.fr, o}) {
					n := st.clone()
					n.C = "d"
					return n
				}
			}
		}
	case *ssa.Call:
		pkg, name := calleePkgName(v)
		if taken && pkg == "strings" && (name == "Contains" || name == "HasSuffix") && len(v.Call.Args) == 2 {
			// recognition of the backend's not-found error by its text
			if k, ok := v.Call.Args[1].(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == "\"not found\"" {
				n := st.clone()
				n.C = "d"
				return n
			}
		}
		if taken && pkg == "errors" && name == "Is" && cl.sentinel(e, VV{c.fr, v.Call.Args[1]}) {
			n := st.clone()
			n.C = "d"
			return n
		}
	}
	return st
}

func (cl *errClient) sentinel(e *Engine, x VV) bool {
	c := e.canon(x)
	u, ok := c.v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return false
	}
	_, ok = cl.r.okSentinel[g.Pkg.Pkg.Path()+"."+g.Name()]
	return ok
}

// endOfEntries: the end of a stream is an ordinary end only for the first read of
// an entry, in a loop that asks its reader for more entries.
func (cl *errClient) endOfEntries(e *Engine, sent, err VV) bool {
	if !cl.r.entries {
		return true
	}
	u, ok := e.canon(sent).v.(*ssa.UnOp)
	if !ok || u.X.Name() != "EOF" {
		return true
	}
	v := e.canon(err).v
	if x, ok := v.(*ssa.Extract); ok {
		v = x.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	for _, b := range call.Parent().Blocks {
		for _, in := range b.Instrs {
			h, ok := in.(*ssa.Call)
			if !ok || !b.Dominates(call.Block()) || !blockReaches(call.Block(), b) {
				continue
			}
			if _, name := calleePkgName(h); name != "HasMore" {
				continue
			}
			first := true
			for _, m := range call.Parent().Blocks {
				if !b.Dominates(m) || !m.Dominates(call.Block()) || m == b {
					continue
				}
				for _, in2 := range m.Instrs {
					o, ok := in2.(*ssa.Call)
					if ok && o != call && errIdx(o.Common().Signature()) >= 0 && (m != call.Block() || before(o).i < before(call).i) {
						first = false
					}
				}
			}
			if first {
				return true
			}
		}
	}
	return false
}

func blockReaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	w := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if x == b {
			return true
		}
		if !seen[x] {
			seen[x] = true
			w = append(w, x.Succs...)
		}
	}
	return false
}

func (cl *errClient) Exit(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
	if st.C != "p" {
		return
	}
	if cl.r.noError != nil && cl.r.noError(cl.fn) != "" {
		return
	}
	for i, r := range ret.Results {
		if isErrorType(fr.fn.Signature.Results().At(i).Type()) && e.Fact(st, VV{fr, r}).k == 'V' {
			return
		}
	}
	for _, i := range cl.site {
		if _, ok := cl.bad[i]; !ok {
			cl.bad[i] = st.trace() + " -> return " + cl.r.p.ipos(ret)
		}
	}
}

// storesError: fn records errors in a field of type error (its channel).
func storesError(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && isErrorType(st.Val.Type()) {
				if _, ok := st.Addr.(*ssa.FieldAddr); ok {
					return true
				}
			}
		}
	}
	return false
}

// isReadCall: an io.Reader-like call returning (count, error).
func isReadCall(c *ssa.Call) bool {
	r := c.Call.Signature().Results()
	if r.Len() != 2 || !isErrorType(r.At(1).Type()) {
		return false
	}
	b, ok := r.At(0).Type().Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	_, name := calleePkgName(c)
	return strings.HasPrefix(name, "Read")
}

// enoughRead: the branch on which as many bytes were delivered as were asked for.
func enoughRead(bo *ssa.BinOp, taken bool, call *ssa.Call) bool {
	x := dependsOnCount(bo.X, call, 0, map[ssa.Value]bool{})
	y := dependsOnCount(bo.Y, call, 0, map[ssa.Value]bool{})
	op := bo.Op
	if !taken {
		op = negRel(op)
	}
	switch op {
	case token.EQL:
		return x || y
	case token.GEQ, token.GTR:
		return x
	case token.LEQ, token.LSS:
		return y
	}
	return false
}

func dependsOnCount(v ssa.Value, call *ssa.Call, depth int, seen map[ssa.Value]bool) bool {
	if depth > 12 || seen[v] {
		return false
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Extract:
		return x.Tuple == call && x.Index == 0
	case *ssa.BinOp:
		return dependsOnCount(x.X, call, depth+1, seen) || dependsOnCount(x.Y, call, depth+1, seen)
	case *ssa.Convert:
		return dependsOnCount(x.X, call, depth+1, seen)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if dependsOnCount(e, call, depth+1, seen) {
				return true
			}
		}
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			for _, r := range *al.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == al && dependsOnCount(st.Val, call, depth+1, seen) {
					return true
				}
			}
		}
	}
	return false
}

// cannotFail: the callee's every return carries a nil error, or the call has only
// constant arguments (its outcome does not depend on data).
func cannotFail(p *Prog, c ssa.CallInstruction, depth int) bool {
	f := staticCallee(c)
	if f == nil {
		return false
	}
	if f.Signature.Recv() == nil && len(c.Common().Args) > 0 {
		all := true
		for _, a := range c.Common().Args {
			if _, ok := a.(*ssa.Const); !ok {
				all = false
			}
		}
		if all {
			return true
		}
	}
	return alwaysNilErr(p, f, depth)
}

func alwaysNilErr(p *Prog, f *ssa.Function, depth int) bool {
	if f.Blocks == nil || depth > 4 || !p.funcSet[f] {
		return false
	}
	idx := errIdx(f.Signature)
	if idx < 0 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			v := r.Results[idx]
			if constNil(v) {
				continue
			}
			if call, ok := v.(*ssa.Call); ok && cannotFail(p, call, depth+1) {
				continue
			}
			return false
		}
	}
	return true
}

// pureCallee: the callee only computes on its arguments: it (transitively) makes no
// dynamic, interface or external call other than error construction and byte helpers.
func pureCallee(p *Prog, c ssa.CallInstruction, seen map[*ssa.Function]bool) bool {
	f := staticCallee(c)
	if f == nil || f.Blocks == nil || !p.funcSet[f] || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			cc, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if _, ok := cc.Common().Value.(*ssa.Builtin); ok {
				continue
			}
			pkg, _ := calleePkgName(cc)
			switch pkg {
			case "errors", "fmt", "bytes", "math/bits", "encoding/binary":
				continue
			}
			if !pureCallee(p, cc, seen) {
				return false
			}
		}
	}
	return true
}
