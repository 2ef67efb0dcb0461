package main

// Lock analysis: per-function must/may locksets over access paths, with
// summaries (lock requirements, net effects, acquired locks) propagated to
// callers until a requirement is met or an entry point is reached.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	lkR = 1
	lkW = 2
)

type lockReq struct {
	path string
	mode int
	what string // construct: field accessed and how
	site string // position of the access
	in   string // function of the access
	id   string // key
}

type lockSum struct {
	reqs   map[string]lockReq // by path|mode|id
	netAcq map[string]int
	netRel map[string]int
	acq    map[string]int // path -> mode, rooted at params/globals
	class  map[string]bool
	sclass map[string]bool // through static calls only
	held   map[string]int
	par    map[int]map[string]int // function-typed parameter -> locks held whenever it is called
}

type lockState struct {
	held   map[string]int // must
	may    map[string]int
	defers []ssa.CallInstruction
}

func (s *lockState) clone() *lockState {
	n := &lockState{held: map[string]int{}, may: map[string]int{}}
	for k, v := range s.held {
		n.held[k] = v
	}
	for k, v := range s.may {
		n.may[k] = v
	}
	n.defers = append(n.defers, s.defers...)
	return n
}

func (s *lockState) equal(o *lockState) bool {
	return mapEq(s.held, o.held) && mapEq(s.may, o.may) && len(s.defers) == len(o.defers)
}

func mapEq(a, b map[string]int) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if b[k] != v {
			return false
		}
	}
	return true
}

func joinLock(a, b *lockState) *lockState {
	if a == nil {
		return b.clone()
	}
	n := &lockState{held: map[string]int{}, may: map[string]int{}}
	for k, v := range a.held {
		if w, ok := b.held[k]; ok {
			if w < v {
				v = w
			}
			n.held[k] = v
		}
	}
	for k, v := range a.may {
		n.may[k] = v
	}
	for k, v := range b.may {
		if n.may[k] < v {
			n.may[k] = v
		}
	}
	for i := range a.defers {
		if i < len(b.defers) && a.defers[i] == b.defers[i] {
			n.defers = append(n.defers, a.defers[i])
		} else {
			break
		}
	}
	return n
}

type lockEngine struct {
	p        *Prog
	sums     map[*ssa.Function]*lockSum
	accesses map[*ssa.Function]map[ssa.Instruction][]lockReq
	final    bool
	rep      func(kind, construct, where, msg string)
	addrTkn  map[*ssa.Function]bool
	goTkn    map[*ssa.Function]bool
	fresh    map[*ssa.Function]bool
	edges    map[string]map[string]string // class -> class -> where
	sedges   map[string]map[string]string // the part found through static calls only
	locked   int
	lockFns  map[string]bool
	govern   map[string]string // field key -> lock
	immut    map[string]bool
	nAccess  int
	hooks    map[string]bool
	owned    int
	alias    map[*ssa.Parameter]string
	heldAt   map[*ssa.Function]map[ssa.Instruction]map[string]int
	retHeld  int
}

// isMutex: 1 Mutex, 2 RWMutex.
func isMutex(t types.Type) int {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return 0
	}
	switch n.Obj().Name() {
	case "Mutex":
		return 1
	case "RWMutex":
		return 2
	}
	return 0
}

func lockField(st *types.Struct) (string, int) {
	for i := 0; i < st.NumFields(); i++ {
		if k := isMutex(st.Field(i).Type()); k != 0 {
			return st.Field(i).Name(), k
		}
	}
	return "", 0
}

// path names the object or location a value denotes relative to its function's roots.
func (e *lockEngine) path(v ssa.Value) string { return e.pathN(v, 0) }

func (e *lockEngine) pathN(v ssa.Value, d int) string {
	if d > 40 {
		return "?"
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				if a := e.alias[x]; a != "" {
					return a
				}
				return fmt.Sprintf("P<%s>%d", fname(x.Parent()), i)
			}
		}
	case *ssa.FreeVar:
		if mc := closureSite(x.Parent()); mc != nil {
			for i, fv := range x.Parent().FreeVars {
				if fv == x {
					return e.pathN(mc.Bindings[i], d+1)
				}
			}
		}
	case *ssa.Global:
		pk := ""
		if x.Pkg != nil {
			pk = x.Pkg.Pkg.Name()
		}
		return "G<" + pk + "." + x.Name() + ">"
	case *ssa.FieldAddr:
		b := e.pathN(x.X, d+1)
		return b + "." + fieldName(x)
	case *ssa.Field:
		st := structOf(x.X.Type())
		return e.pathN(x.X, d+1) + "." + st.Field(x.Field).Name()
	case *ssa.IndexAddr:
		return e.pathN(x.X, d+1) + "[]"
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return e.pathN(x.X, d+1)
		}
	case *ssa.Alloc:
		if sv := singleStore(x); sv != nil {
			if _, isPtr := sv.Type().Underlying().(*types.Pointer); isPtr || isNillable(sv.Type()) {
				return e.pathN(sv, d+1)
			}
		}
		return fmt.Sprintf("A<%s>%s", fname(x.Parent()), x.Name())
	case *ssa.MakeInterface:
		return e.pathN(x.X, d+1)
	case *ssa.ChangeType:
		return e.pathN(x.X, d+1)
	case *ssa.ChangeInterface:
		return e.pathN(x.X, d+1)
	case *ssa.TypeAssert:
		return e.pathN(x.X, d+1)
	case *ssa.Extract:
		if ta, ok := x.Tuple.(*ssa.TypeAssert); ok && x.Index == 0 {
			return e.pathN(ta.X, d+1)
		}
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := staticCallee(c); f != nil && e.isFresh(f, x.Index) {
				return fmt.Sprintf("A<%s>%s.%d", fname(c.Parent()), c.Name(), x.Index)
			}
		}
	case *ssa.Call:
		if f := staticCallee(x); f != nil && e.isFresh(f, 0) {
			return fmt.Sprintf("A<%s>%s", fname(x.Parent()), x.Name())
		}
		return fmt.Sprintf("?call<%s>%s", fname(x.Parent()), x.Name())
	case *ssa.Phi:
		r := ""
		for _, ed := range x.Edges {
			if ed == v || constNil(ed) {
				continue
			}
			q := e.pathN(ed, d+1)
			if r == "" {
				r = q
			} else if r != q {
				return "?phi"
			}
		}
		if r != "" {
			return r
		}
	}
	return "?"
}

// isFresh: result idx of f is a newly allocated object on every return (nil aside).
func (e *lockEngine) isFresh(f *ssa.Function, idx int) bool {
	if f.Blocks == nil || !e.p.funcSet[f] {
		return false
	}
	if r, ok := e.fresh[f]; ok {
		return r
	}
	e.fresh[f] = false
	ok, any := true, false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			r, isR := in.(*ssa.Return)
			if !isR || idx >= len(r.Results) {
				continue
			}
			v := r.Results[idx]
			if constNil(v) {
				continue
			}
			any = true
			q := e.path(v)
			if !strings.HasPrefix(q, "A<") || strings.ContainsAny(strings.TrimPrefix(q[strings.LastIndex(q, ">"):], ">"), ".[") && !strings.Contains(q, ">t") {
				ok = false
			}
		}
	}
	e.fresh[f] = ok && any
	return e.fresh[f]
}

func closureSite(fn *ssa.Function) *ssa.MakeClosure {
	par := fn.Parent()
	if par == nil {
		return nil
	}
	for _, b := range par.Blocks {
		for _, in := range b.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == fn {
				return mc
			}
		}
	}
	return nil
}

func rootOf(p string) string {
	if i := strings.LastIndexByte(p, '>'); i >= 0 {
		j := i + 1
		for j < len(p) && p[j] != '.' && p[j] != '[' {
			j++
		}
		return p[:j]
	}
	return "?"
}

// subst rewrites a callee path into the caller's terms at call c ("" = unknown).
func (e *lockEngine) subst(path string, callee *ssa.Function, args []ssa.Value) string {
	pre := "P<" + fname(callee) + ">"
	if !strings.HasPrefix(path, pre) {
		return path
	}
	rest := path[len(pre):]
	j := 0
	for j < len(rest) && rest[j] >= '0' && rest[j] <= '9' {
		j++
	}
	var idx int
	fmt.Sscanf(rest[:j], "%d", &idx)
	if idx >= len(args) {
		return "?"
	}
	return e.path(args[idx]) + rest[j:]
}

func lockOp(c ssa.CallInstruction) (op string, recv ssa.Value) {
	f := staticCallee(c)
	if f == nil || f.Signature.Recv() == nil || isMutex(f.Signature.Recv().Type()) == 0 {
		return "", nil
	}
	return f.Name(), c.Common().Args[0]
}

func (e *lockEngine) lockClass(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		if n := namedOf(x.X.Type()); n != nil {
			return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + fieldName(x)
		}
		return "struct." + fieldName(x)
	case *ssa.Global:
		return "var " + x.Pkg.Pkg.Name() + "." + x.Name()
	}
	return "?"
}

func newLockEngine(p *Prog, rep func(kind, construct, where, msg string)) *lockEngine {
	e := &lockEngine{p: p, sums: map[*ssa.Function]*lockSum{}, rep: rep, addrTkn: map[*ssa.Function]bool{}, goTkn: map[*ssa.Function]bool{},
		fresh: map[*ssa.Function]bool{}, edges: map[string]map[string]string{}, sedges: map[string]map[string]string{}, accesses: map[*ssa.Function]map[ssa.Instruction][]lockReq{},
		lockFns: map[string]bool{}, hooks: map[string]bool{}, govern: map[string]string{}, immut: map[string]bool{}, heldAt: map[*ssa.Function]map[ssa.Instruction]map[string]int{}}
	for _, fn := range p.Funcs {
		e.sums[fn] = &lockSum{reqs: map[string]lockReq{}, netAcq: map[string]int{}, netRel: map[string]int{}, acq: map[string]int{}, class: map[string]bool{}, sclass: map[string]bool{}}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var skip ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
					skip = c.Common().Value
					if g, ok := in.(*ssa.Go); ok {
						if f := staticCallee(g); f != nil {
							e.goTkn[f] = true
						}
					}
				}
				if _, ok := in.(*ssa.MakeClosure); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil || *op == skip {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						e.addrTkn[f] = true
					}
				}
			}
		}
	}
	// bound method wrappers and thunks call their method: such methods are address-taken
	for fn := range p.funcSet {
		if fn.Synthetic == "" || fn.Blocks == nil {
			continue
		}
		if strings.HasSuffix(fn.Name(), "$bound") || strings.HasSuffix(fn.Name(), "$thunk") {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok {
						if f := staticCallee(c); f != nil {
							e.addrTkn[f] = true
						}
					}
				}
			}
		}
	}
	e.singletons()
	e.collectAccesses()
	for i := 0; i < 30; i++ {
		if !e.round() {
			break
		}
	}
	e.final = true
	e.round()
	return e
}

// singletons: a parameter of an unexported function that every call site binds to
// the same package-level variable denotes that variable.
func (e *lockEngine) singletons() {
	e.alias = map[*ssa.Parameter]string{}
	for it := 0; it < 6; it++ {
		ch := false
		for _, fn := range e.p.Funcs {
			if fn.Parent() != nil || isExportedFn(fn) || e.addrTkn[fn] || len(e.p.callers[fn]) == 0 {
				continue
			}
			for i, prm := range fn.Params {
				if e.alias[prm] != "" {
					continue
				}
				a := ""
				for _, c := range e.p.callers[fn] {
					as := c.Common().Args
					q := "?"
					if i < len(as) {
						q = e.path(as[i])
					}
					if a == "" {
						a = q
					} else if a != q {
						a = "?"
					}
				}
				if strings.HasPrefix(a, "G<") {
					e.alias[prm] = a
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
}

func (e *lockEngine) round() bool {
	changed := false
	for _, fn := range e.p.Funcs {
		if e.analyze(fn) {
			changed = true
		}
	}
	return changed
}

func (e *lockEngine) analyze(fn *ssa.Function) bool {
	sum := e.sums[fn]
	before := fmt.Sprint(len(sum.reqs), len(sum.netAcq), len(sum.netRel), len(sum.acq), len(sum.class), len(sum.sclass))
	in := map[*ssa.BasicBlock]*lockState{}
	in[fn.Blocks[0]] = &lockState{held: map[string]int{}, may: map[string]int{}}
	var exits []*lockState
	// fixpoint over blocks
	for iter := 0; iter < 50; iter++ {
		ch := false
		for _, b := range fn.Blocks {
			s := in[b]
			if s == nil {
				continue
			}
			out := e.block(fn, b, s.clone(), sum, false, nil)
			for _, su := range b.Succs {
				j := joinLock(in[su], out)
				if in[su] == nil || !in[su].equal(j) {
					in[su] = j
					ch = true
				}
			}
		}
		if !ch {
			break
		}
	}
	sum.par = nil
	for _, b := range fn.Blocks {
		if s := in[b]; s != nil {
			e.block(fn, b, s.clone(), sum, true, &exits)
		}
	}
	// net effect: acquired on every exit
	if len(exits) > 0 {
		acq := map[string]int{}
		for k, v := range exits[0].held {
			acq[k] = v
		}
		for _, x := range exits[1:] {
			for k := range acq {
				if x.held[k] == 0 {
					delete(acq, k)
				}
			}
		}
		sum.netAcq = acq
	}
	after := fmt.Sprint(len(sum.reqs), len(sum.netAcq), len(sum.netRel), len(sum.acq), len(sum.class), len(sum.sclass))
	return before != after
}

func (e *lockEngine) need(fn *ssa.Function, sum *lockSum, st *lockState, r lockReq) {
	if strings.HasPrefix(rootOf(r.path), "A<") {
		return // object under construction
	}
	if st.held[r.path] >= r.mode {
		return
	}
	k := fmt.Sprintf("%s|%d|%s", r.path, r.mode, r.id)
	sum.reqs[k] = r
}

func (e *lockEngine) acquire(fn *ssa.Function, sum *lockSum, st *lockState, path string, class string, mode int, at ssa.Instruction, via string) {
	if e.final {
		if h := st.held[path]; h != 0 && !strings.Contains(path, "?") {
			e.rep("self", fname(fn)+" re-acquires "+shortPath(path), e.p.ipos(at), fmt.Sprintf("%s acquires %s%s while already holding it (deadlock on a non-reentrant lock)", fname(fn), shortPath(path), via))
		}
	}
	if class != "" && class != "?" {
		sum.class[class] = true
		sum.sclass[class] = true
	}
	root := rootOf(path)
	if strings.HasPrefix(root, "P<") || strings.HasPrefix(root, "G<") {
		if sum.acq[path] < mode {
			sum.acq[path] = mode
		}
	}
}

func shortPath(p string) string {
	if i := strings.LastIndexByte(p, '>'); i >= 0 {
		if strings.HasPrefix(p, "G<") {
			return p[2:i] + p[i+1:]
		}
		j := i + 1
		for j < len(p) && p[j] != '.' && p[j] != '[' {
			j++
		}
		return "self" + p[j:]
	}
	return p
}

func (e *lockEngine) orderEdge(st *lockState, heldClass map[string]string, to string, where string, static bool) {
	for h := range st.held {
		hc := heldClass[h]
		if hc == "" || hc == to {
			continue
		}
		if e.edges[hc] == nil {
			e.edges[hc] = map[string]string{}
		}
		if e.edges[hc][to] == "" {
			e.edges[hc][to] = where
		}
		if static {
			if e.sedges[hc] == nil {
				e.sedges[hc] = map[string]string{}
			}
			if e.sedges[hc][to] == "" {
				e.sedges[hc][to] = where
			}
		}
	}
}

var pathClass = map[string]string{}

func (e *lockEngine) applyCall(fn *ssa.Function, sum *lockSum, st *lockState, c ssa.CallInstruction, at ssa.Instruction, record bool) {
	if op, recv := lockOp(c); op != "" {
		path := e.path(recv)
		class := e.lockClass(recv)
		pathClass[path] = class
		switch op {
		case "Lock", "RLock":
			m := lkW
			if op == "RLock" {
				m = lkR
			}
			if record {
				e.acquire(fn, sum, st, path, class, m, at, "")
				if e.final {
					e.locked++
					e.lockFns[fname(fn)] = true
					e.orderEdge(st, pathClass, class, e.p.ipos(at), true)
				}
			}
			st.held[path] = m
			st.may[path] = m
		case "Unlock", "RUnlock":
			m := lkW
			if op == "RUnlock" {
				m = lkR
			}
			if st.may[path] == 0 {
				sum.netRel[path] = m
				if e.final && record {
					e.rep("unheld", fname(fn)+" releases "+shortPath(path), e.p.ipos(at), fmt.Sprintf("%s releases %s which is not held there", fname(fn), shortPath(path)))
				}
			} else if st.may[path] != m && e.final && record {
				e.rep("mode", fname(fn)+" "+op+" "+shortPath(path), e.p.ipos(at), fmt.Sprintf("%s calls %s on a lock acquired in the other mode", fname(fn), op))
			}
			delete(st.held, path)
			delete(st.may, path)
		}
		return
	}
	args := c.Common().Args
	apply := func(callee *ssa.Function, as []ssa.Value) {
		cs := e.sums[callee]
		if cs == nil {
			return
		}
		if record {
			for _, r := range cs.reqs {
				if e.isRoot(callee) && callee.Parent() == nil {
					continue // reported at the callee itself
				}
				n := r
				n.path = e.subst(r.path, callee, as)
				e.need(fn, sum, st, n)
			}
			for pth, m := range cs.acq {
				q := e.subst(pth, callee, as)
				e.acquire(fn, sum, st, q, "", m, at, " via "+fname(callee))
			}
			for cl := range cs.class {
				sum.class[cl] = true
				if e.final {
					e.orderEdge(st, pathClass, cl, e.p.ipos(at)+" via "+fname(callee), cs.sclass[cl])
				}
			}
			for cl := range cs.sclass {
				sum.sclass[cl] = true
			}
		}
		for pth := range cs.netRel {
			q := e.subst(pth, callee, as)
			if st.may[q] == 0 {
				// the release is the caller's caller's business
				sum.netRel[q] = cs.netRel[pth]
			}
			delete(st.held, q)
			delete(st.may, q)
		}
		for pth, m := range cs.netAcq {
			q := e.subst(pth, callee, as)
			if !strings.HasPrefix(q, "A<") {
				st.held[q] = m
				st.may[q] = m
				pathClass[q] = pathClass[pth]
			}
		}
	}
	if f := staticCallee(c); f != nil {
		apply(f, args)
	} else if !c.Common().IsInvoke() {
		// closure held in a variable
		if f := closureValue(c.Common().Value); f != nil {
			apply(f, args)
		}
	} else if e.final && record {
		for _, f := range e.impls(c) {
			if cs := e.sums[f]; cs != nil {
				for cl := range cs.class {
					e.orderEdge(st, pathClass, cl, e.p.ipos(at)+" via "+fname(f), false)
				}
			}
		}
	}
	if c.Common().IsInvoke() && record {
		for _, f := range e.impls(c) {
			if cs := e.sums[f]; cs != nil {
				for cl := range cs.class {
					sum.class[cl] = true
				}
			}
		}
	}
	for _, pc := range e.p.printed(c) {
		apply(pc.fn, []ssa.Value{pc.recv})
	}
	if record {
		e.paramCall(fn, sum, st, c)
	}
	// closures handed to the callee run synchronously under the same locks and
	// under those the callee takes around the call
	for i, a := range args {
		if f := closureValue(a); f != nil {
			if cs := e.sums[f]; cs != nil && record {
				in := st
				if g := staticCallee(c); g != nil && e.sums[g] != nil && len(e.sums[g].par[i]) > 0 {
					in = st.clone()
					for pth, m := range e.sums[g].par[i] {
						q := e.subst(pth, g, args)
						if in.held[q] < m {
							in.held[q] = m
						}
					}
				}
				for _, r := range cs.reqs {
					e.need(fn, sum, in, r)
				}
				for pth, m := range cs.acq {
					e.acquire(fn, sum, in, pth, "", m, at, " in a callback")
				}
			}
		}
	}
}

// paramCall records the locks held around calls of function-typed parameters.
func (e *lockEngine) paramCall(fn *ssa.Function, sum *lockSum, st *lockState, c ssa.CallInstruction) {
	idx := func(v ssa.Value) int {
		if p, ok := v.(*ssa.Parameter); ok {
			if _, isF := p.Type().Underlying().(*types.Signature); isF {
				for i, q := range fn.Params {
					if q == p {
						return i
					}
				}
			}
		}
		return -1
	}
	note := func(i int, held map[string]int) {
		if i < 0 {
			return
		}
		if sum.par == nil {
			sum.par = map[int]map[string]int{}
		}
		cur, ok := sum.par[i]
		n := map[string]int{}
		for k, m := range held {
			if !ok || cur[k] > 0 {
				if ok && cur[k] < m {
					m = cur[k]
				}
				n[k] = m
			}
		}
		sum.par[i] = n
	}
	if !c.Common().IsInvoke() {
		note(idx(c.Common().Value), st.held)
	}
	for _, a := range c.Common().Args {
		note(idx(a), nil) // handed on: nothing is known there
	}
}

func closureValue(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		if x.Parent() != nil {
			return x
		}
	case *ssa.ChangeType:
		return closureValue(x.X)
	case *ssa.UnOp:
		if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if sv := singleStore(al); sv != nil {
				return closureValue(sv)
			}
		}
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			if mc := closureSite(fv.Parent()); mc != nil {
				for i, f := range fv.Parent().FreeVars {
					if f == fv {
						if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
							if sv := singleStore(al); sv != nil {
								return closureValue(sv)
							}
						}
					}
				}
			}
		}
	}
	return nil
}

var implMemo = map[*types.Func][]*ssa.Function{}

// impls: in-repository concrete methods an interface call may reach.
func (e *lockEngine) impls(c ssa.CallInstruction) []*ssa.Function {
	m := c.Common().Method
	if r, ok := implMemo[m]; ok {
		return r
	}
	iface, _ := c.Common().Value.Type().Underlying().(*types.Interface)
	var out []*ssa.Function
	if iface != nil && m.Pkg() != nil && strings.HasPrefix(m.Pkg().Path(), e.p.ModPath) {
		out = e.p.implsOf(iface, m.Name())
	}
	implMemo[m] = out
	return out
}

func (p *Prog) implsOf(iface *types.Interface, name string) []*ssa.Function {
	var out []*ssa.Function
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok {
				continue
			}
			n, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(n) {
				continue
			}
			if types.Implements(types.NewPointer(n), iface) {
				if f := p.SSA.LookupMethod(types.NewPointer(n), pk.Types, name); f != nil {
					// skip promotion wrappers
					for f.Synthetic != "" {
						var next *ssa.Function
						for _, b := range f.Blocks {
							for _, in := range b.Instrs {
								if cc, ok := in.(ssa.CallInstruction); ok {
									if g := staticCallee(cc); g != nil {
										next = g
									}
								}
							}
						}
						if next == nil {
							break
						}
						f = next
					}
					if p.funcSet[f] {
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

func (e *lockEngine) block(fn *ssa.Function, b *ssa.BasicBlock, st *lockState, sum *lockSum, record bool, exits *[]*lockState) *lockState {
	acc := e.accesses[fn]
	for _, in := range b.Instrs {
		if record {
			for _, r := range acc[in] {
				e.need(fn, sum, st, r)
			}
			if e.final {
				if e.heldAt[fn] == nil {
					e.heldAt[fn] = map[ssa.Instruction]map[string]int{}
				}
				h := map[string]int{}
				for k, v := range st.held {
					h[k] = v
				}
				e.heldAt[fn][in] = h
			}
		}
		switch x := in.(type) {
		case *ssa.Call:
			e.applyCall(fn, sum, st, x, in, record)
		case *ssa.Defer:
			st.defers = append(st.defers, x)
		case *ssa.Go:
			// the new goroutine holds nothing
			if f := staticCallee(x); f != nil && record {
				if cs := e.sums[f]; cs != nil {
					empty := &lockState{held: map[string]int{}, may: map[string]int{}}
					for _, r := range cs.reqs {
						n := r
						n.path = e.subst(r.path, f, x.Call.Args)
						e.need(fn, sum, empty, n)
						if e.final && !strings.HasPrefix(rootOf(n.path), "A<") {
							e.rep("guard", n.id, n.site, fmt.Sprintf("%s of %s in %s runs on a goroutine started in %s without the lock", n.what, shortPath(n.path), n.in, fname(fn)))
						}
					}
				}
			}
		case *ssa.RunDefers:
			for i := len(st.defers) - 1; i >= 0; i-- {
				e.applyCall(fn, sum, st, st.defers[i], in, record)
			}
			st.defers = nil
		case *ssa.Return:
			if record && exits != nil {
				*exits = append(*exits, st.clone())
				if e.final {
					e.retHeld++
					for k := range st.may {
						if e.sums[fn].netAcq[k] != 0 && !e.isRoot(fn) {
							continue // lock helper: its callers release
						}
						e.rep("leak", fname(fn)+" returns holding "+shortPath(k), e.p.ipos(in), fmt.Sprintf("%s can return at %s with %s still held", fname(fn), e.p.ipos(in), shortPath(k)))
					}
				}
			}
		}
	}
	return st
}

// isRoot: callable from outside the analysed package set, or with no visible caller.
func (e *lockEngine) isRoot(fn *ssa.Function) bool {
	if fn.Parent() != nil {
		// closures: roots only when they escape or run as goroutines
		return e.goTkn[fn]
	}
	if isExportedFn(fn) {
		return true
	}
	if fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#") {
		return false
	}
	if e.addrTkn[fn] {
		return true
	}
	// an unexported method may still be reached through an interface of its package
	if fn.Signature.Recv() != nil && len(e.p.callers[fn]) == 0 {
		if pk := fnPkg(fn); pk != nil {
			for _, nm := range pk.Pkg.Scope().Names() {
				if it, ok := pk.Pkg.Scope().Lookup(nm).Type().Underlying().(*types.Interface); ok {
					for i := 0; i < it.NumMethods(); i++ {
						if it.Method(i).Name() == fn.Name() {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// --- access collection ---

func selfSync(t types.Type) bool {
	t = types.Unalias(t)
	if _, ok := t.Underlying().(*types.Chan); ok {
		return true
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	pp := n.Obj().Pkg().Path()
	return pp == "sync" || pp == "sync/atomic"
}

type rawAccess struct {
	fn    *ssa.Function
	in    ssa.Instruction
	base  ssa.Value // struct pointer
	owner string    // pkg.Type or "var"
	field string
	lock  string
	mode  int
	what  string
	glob  *ssa.Global
}

func (e *lockEngine) collectAccesses() {
	var raw []rawAccess
	for _, fn := range e.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				st := structOf(fa.X.Type())
				n := namedOf(fa.X.Type())
				if st == nil || n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), e.p.ModPath) {
					continue
				}
				lf, _ := lockField(st)
				if lf == "" || fieldName(fa) == lf || selfSync(st.Field(fa.Field).Type()) {
					continue
				}
				if _, isFn := st.Field(fa.Field).Type().Underlying().(*types.Signature); isFn {
					e.hooks[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+fieldName(fa)] = true
					continue
				}
				owner := n.Obj().Pkg().Name() + "." + n.Obj().Name()
				e.uses(fn, fa, func(at ssa.Instruction, mode int, what string) {
					raw = append(raw, rawAccess{fn: fn, in: at, base: fa.X, owner: owner, field: fieldName(fa), lock: lf, mode: mode, what: what})
				})
			}
		}
	}
	e.collectGlobals()
	// a field is shared state when it is written on an object that is not under construction
	mutable := map[string]bool{}
	for _, r := range raw {
		if r.mode == lkW && !strings.HasPrefix(rootOf(e.path(r.base)), "A<") {
			mutable[r.owner+"."+r.field] = true
		}
	}
	for _, r := range raw {
		k := r.owner + "." + r.field
		if !mutable[k] {
			e.immut[k] = true
			continue
		}
		if why := lockExceptions[k]; why != "" {
			continue
		}
		e.govern[k] = r.lock
		m := "reads"
		if r.mode == lkW {
			m = "writes"
		}
		if e.accesses[r.fn] == nil {
			e.accesses[r.fn] = map[ssa.Instruction][]lockReq{}
		}
		e.nAccess++
		e.accesses[r.fn][r.in] = append(e.accesses[r.fn][r.in], lockReq{
			path: e.path(r.base) + "." + r.lock, mode: r.mode, what: r.what,
			site: e.p.ipos(r.in), in: fname(r.fn), id: fname(r.fn) + " " + m + " " + k,
		})
	}
}

// collectGlobals: package-level variables that are written after initialisation and
// whose accessing functions take a package-level lock are guarded by that lock.
func (e *lockEngine) collectGlobals() {
	type acc struct {
		fn   *ssa.Function
		in   ssa.Instruction
		mode int
		what string
	}
	accs := map[*ssa.Global][]acc{}
	written := map[*ssa.Global]bool{}
	assoc := map[*ssa.Global]map[string]int{}
	for _, fn := range e.p.Funcs {
		locks := map[string]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if op, recv := lockOp(c); op == "Lock" || op == "RLock" {
						if q := e.path(recv); strings.HasPrefix(q, "G<") {
							locks[q] = true
						}
					}
				}
			}
		}
		initFn := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
		seen := map[*ssa.Global]bool{}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), e.p.ModPath) || initFn {
						continue
					}
					el := g.Type().Underlying().(*types.Pointer).Elem()
					if selfSync(el) {
						continue
					}
					if st := structOf(el); st != nil {
						if lf, _ := lockField(st); lf != "" {
							continue
						}
					}
					add := func(at ssa.Instruction, mode int, what string) {
						accs[g] = append(accs[g], acc{fn, at, mode, what})
						if mode == lkW {
							written[g] = true
						}
					}
					switch x := in.(type) {
					case *ssa.UnOp:
						add(x, lkR, "read")
						e.valueUses(fn, x, add, 0)
					case *ssa.Store:
						if x.Addr == g {
							add(x, lkW, "write")
						}
					case *ssa.IndexAddr:
						e.uses(fn, x, add)
					case *ssa.FieldAddr:
						e.uses(fn, x, add)
					}
					if !seen[g] {
						seen[g] = true
						for l := range locks {
							if assoc[g] == nil {
								assoc[g] = map[string]int{}
							}
							assoc[g][l]++
						}
					}
				}
			}
		}
	}
	for g, as := range accs {
		if !written[g] {
			continue
		}
		best := ""
		if want := globalGuards[g.Pkg.Pkg.Name()+"."+g.Name()]; want != "" {
			best = "G<" + want + ">"
		}
		for _, l := range sortedKeys(assoc[g]) {
			if best == "" || globalGuards[g.Pkg.Pkg.Name()+"."+g.Name()] == "" && assoc[g][l] > assoc[g][best] {
				best = l
			}
		}
		key := g.Pkg.Pkg.Name() + "." + g.Name()
		if best == "" || lockExceptions[key] != "" {
			continue
		}
		e.govern[key] = shortPath(best)
		for _, a := range as {
			m := "reads"
			if a.mode == lkW {
				m = "writes"
			}
			if e.accesses[a.fn] == nil {
				e.accesses[a.fn] = map[ssa.Instruction][]lockReq{}
			}
			e.nAccess++
			e.accesses[a.fn][a.in] = append(e.accesses[a.fn][a.in], lockReq{path: best, mode: a.mode, what: a.what,
				site: e.p.ipos(a.in), in: fname(a.fn), id: fname(a.fn) + " " + m + " " + key})
		}
	}
}

// globalGuards: confirmed by reading; used when every accessing function stopped locking.
var globalGuards = map[string]string{}

// uses reports every access made through the address of a guarded field.
func (e *lockEngine) uses(fn *ssa.Function, addr ssa.Value, f func(at ssa.Instruction, mode int, what string)) {
	if addr.Referrers() == nil {
		return
	}
	for _, r := range *addr.Referrers() {
		switch x := r.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				f(x, lkR, "read")
				e.valueUses(fn, x, f, 0)
			}
		case *ssa.Store:
			if x.Addr == addr {
				f(x, lkW, "write")
			}
		case *ssa.FieldAddr:
			st := structOf(x.X.Type())
			if lf, _ := lockField(st); lf != "" || selfSync(st.Field(x.Field).Type()) {
				continue
			}
			e.uses(fn, x, f)
		case *ssa.IndexAddr:
			e.uses(fn, x, f)
		case *ssa.Slice:
			e.valueUses(fn, x, f, 0)
		case ssa.CallInstruction:
			pkg, _ := calleePkgName(x)
			if pkg == "sync/atomic" {
				continue
			}
			if st := structOf(addr.Type()); st != nil {
				if lf, _ := lockField(st); lf != "" {
					continue // has its own lock
				}
			}
			f(r, lkW, "address passed to "+callName(x))
		}
	}
}

// valueUses: accesses to the contents of a map/slice/pointer loaded from a guarded field.
func (e *lockEngine) valueUses(fn *ssa.Function, v ssa.Value, f func(at ssa.Instruction, mode int, what string), d int) {
	if d > 4 || v.Referrers() == nil {
		return
	}
	t := v.Type().Underlying()
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.MapUpdate:
			if x.Map == v {
				f(x, lkW, "map update")
			}
		case *ssa.Lookup:
			if x.X == v {
				f(x, lkR, "map lookup")
			}
		case *ssa.Range:
			f(x, lkR, "iteration")
			if x.Referrers() != nil {
				for _, n := range *x.Referrers() {
					if nx, ok := n.(*ssa.Next); ok {
						f(nx, lkR, "iteration")
					}
				}
			}
		case *ssa.IndexAddr:
			if x.X != v || x.Referrers() == nil {
				continue
			}
			for _, n := range *x.Referrers() {
				switch y := n.(type) {
				case *ssa.Store:
					if y.Addr == x {
						f(y, lkW, "element write")
					}
				case *ssa.UnOp:
					f(y, lkR, "element read")
				}
			}
		case *ssa.Slice:
			if _, ok := t.(*types.Slice); ok {
				e.valueUses(fn, x, f, d+1)
			}
		case *ssa.Phi:
			e.valueUses(fn, x, f, d+1)
		case ssa.CallInstruction:
			if _, isMap := t.(*types.Map); isMap {
				_, name := calleePkgName(x)
				if name == "delete" || name == "clear" {
					f(r, lkW, name)
					continue
				}
			}
			switch t.(type) {
			case *types.Map, *types.Slice:
				f(r, lkR, "use by "+callName(x))
			case *types.Pointer:
				// an internal object reached through the guarded field
				if st := structOf(v.Type()); st != nil {
					if lf, _ := lockField(st); lf == "" {
						if n := namedOf(v.Type()); n != nil && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), e.p.ModPath) {
							if len(callArgs(x)) > 0 {
								f(r, lkR, "use by "+callName(x))
							}
						}
					}
				}
			}
		case *ssa.FieldAddr:
			// fields of an internal (lock-less) object
			if _, ok := t.(*types.Pointer); ok && x.X == v {
				if st := structOf(v.Type()); st != nil {
					if lf, _ := lockField(st); lf == "" && x.Referrers() != nil {
						for _, n := range *x.Referrers() {
							switch y := n.(type) {
							case *ssa.Store:
								if y.Addr == x {
									f(y, lkW, "write into")
								}
							case *ssa.UnOp:
								f(y, lkR, "read of")
							}
						}
					}
				}
			}
		}
	}
}

var lockExceptions = map[string]string{}

// ownedFields: a struct field holding an object that only this struct can reach.
// The claim is checked: every value stored into such a field must be newly built by
// the function that constructs the holder (or by its caller).
var ownedFields = map[string]string{
	"trie.nodeIterator.trie":          "iterators walk a private clone of the trie",
	"trie.reversedValueIterator.trie": "iterators walk a private clone of the trie",
}

func (e *lockEngine) ownedPath(path string) bool {
	for k := range ownedFields {
		f := k[strings.LastIndexByte(k, '.'):]
		if strings.Contains(path, f+".") {
			return true
		}
	}
	return false
}

// selectorParam: the path is rooted at the first parameter of a node-selector callback,
// which iterators invoke with the trie they own.
func (e *lockEngine) selectorParam(path string) bool {
	sel := e.p.named("trie", "NodeSelector")
	if sel == nil || !strings.HasPrefix(path, "P<") {
		return false
	}
	name := path[2:strings.LastIndexByte(path, '>')]
	for f := range e.sums {
		if f.Parent() != nil && fname(f) == name && types.Identical(f.Signature, sel.Underlying()) {
			return true
		}
	}
	return false
}

// checkOwned reports constructions that put a shared object into an owned field.
func (e *lockEngine) checkOwned() int {
	n := 0
	for _, fn := range e.p.Funcs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				nt := namedOf(fa.X.Type())
				if nt == nil || nt.Obj().Pkg() == nil {
					continue
				}
				if ownedFields[nt.Obj().Pkg().Name()+"."+nt.Obj().Name()+"."+fieldName(fa)] == "" {
					continue
				}
				n++
				e.ownedArg(fn, st.Val, in, 0)
			}
		}
	}
	return n
}

func (e *lockEngine) ownedArg(fn *ssa.Function, v ssa.Value, at ssa.Instruction, d int) {
	p := e.path(v)
	if strings.HasPrefix(p, "A<") || d > 5 {
		return
	}
	for {
		if ct, ok := v.(*ssa.ChangeType); ok {
			v = ct.X
			continue
		}
		break
	}
	if prm, ok := v.(*ssa.Parameter); ok {
		if isExportedFn(fn) && fn.Object().(*types.Func).Pkg() != nil && len(e.p.callers[fn]) == 0 {
			e.rep("guard", fname(fn)+" shares an iterated trie", e.p.ipos(at), fname(fn)+" stores a caller-supplied object into an owned field")
			return
		}
		for i, q := range fn.Params {
			if q != prm {
				continue
			}
			for _, c := range e.p.callers[fn] {
				if i < len(c.Common().Args) {
					e.ownedArg(c.Parent(), c.Common().Args[i], c.(ssa.Instruction), d+1)
				}
			}
		}
		return
	}
	e.rep("guard", fname(fn)+" shares an iterated trie", e.p.ipos(at), fname(fn)+" hands a shared object to an iterator that walks it without the lock")
}

func (e *lockEngine) rootViolations() {
	var fns []*ssa.Function
	for f := range e.sums {
		fns = append(fns, f)
	}
	sort.Slice(fns, func(i, j int) bool { return fname(fns[i]) < fname(fns[j]) })
	for _, fn := range fns {
		root := e.isRoot(fn)
		for _, k := range sortedKeys(e.sums[fn].reqs) {
			r := e.sums[fn].reqs[k]
			unresolved := !strings.HasPrefix(r.path, "P<") && !strings.HasPrefix(r.path, "G<")
			if strings.HasPrefix(r.path, "P<") && !strings.HasPrefix(r.path, "P<"+fname(fn)+">") && fn.Parent() == nil {
				unresolved = true
			}
			if e.ownedPath(r.path) || e.selectorParam(r.path) {
				continue
			}
			if root || (unresolved && fn.Parent() == nil) {
				mode := "read"
				if r.mode == lkW {
					mode = "exclusive"
				}
				e.rep("guard", r.id, r.site, fmt.Sprintf("%s in %s reached from %s without %s held (%s mode needed)", r.what, r.in, fname(fn), shortPath(r.path), mode))
			}
		}
	}
}
