package main

// Property automata on top of the path-sensitive engine: a rule gives the
// transition on calls and other instructions and the condition at exits; terms
// (desc) name values by where they come from, so that rules speak about "the
// wrapped database", "the caller's key" and not about variable names.

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// desc renders where a value comes from on this path as a term over the entry
// function's parameters (p0, p1, ...), fields, globals, constants and calls.
func (e *Engine) desc(st *State, x VV) string { return e.descD(st, x, 0) }

func (e *Engine) descD(st *State, x VV, d int) string {
	if d > 14 {
		return "?"
	}
	x = e.res(st, x)
	dd := func(v ssa.Value) string { return e.descD(st, VV{x.fr, v}, d+1) }
	switch v := x.v.(type) {
	case *ssa.Parameter:
		for i, p := range v.Parent().Params {
			if p == v {
				return "p" + strconv.Itoa(i)
			}
		}
		return "p?"
	case *ssa.FreeVar:
		return "fv:" + v.Name()
	case *ssa.Const:
		if v.Value == nil {
			if isNillable(v.Type()) {
				return "nil"
			}
			return "zero"
		}
		return "c:" + v.Value.ExactString()
	case *ssa.Global:
		return "&g:" + gname(v)
	case *ssa.Function:
		return "fn:" + fname(v)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return v.Op.String() + dd(v.X)
		}
		a := e.res(st, VV{x.fr, v.X})
		switch y := a.v.(type) {
		case *ssa.Global:
			return "g:" + gname(y)
		case *ssa.FieldAddr, *ssa.IndexAddr:
			return e.descD(st, a, d+1)
		case *ssa.Alloc:
			if sv := singleStore(y); sv != nil {
				if in, ok := sv.(ssa.Instruction); !ok || in.Parent() == y.Parent() {
					return e.descD(st, VV{a.fr, sv}, d+1)
				}
			}
			return "cell:" + y.Name() + "@" + strconv.Itoa(frID(a.fr))
		}
		return "*" + e.descD(st, a, d+1)
	case *ssa.FieldAddr:
		return dd(v.X) + "." + fieldName(v)
	case *ssa.Field:
		stt := structOf(v.X.Type())
		return dd(v.X) + "." + stt.Field(v.Field).Name()
	case *ssa.IndexAddr:
		return dd(v.X) + "[" + dd(v.Index) + "]"
	case *ssa.Index:
		return dd(v.X) + "[" + dd(v.Index) + "]"
	case *ssa.Lookup:
		return dd(v.X) + "[" + dd(v.Index) + "]"
	case *ssa.BinOp:
		return "(" + dd(v.X) + v.Op.String() + dd(v.Y) + ")"
	case *ssa.Extract:
		t := e.res(st, VV{x.fr, v.Tuple})
		switch y := t.v.(type) {
		case *ssa.TypeAssert:
			if v.Index == 0 {
				return e.descD(st, VV{t.fr, y.X}, d+1)
			}
			return "is:" + tname(y.AssertedType) + "(" + e.descD(st, VV{t.fr, y.X}, d+1) + ")"
		case *ssa.Lookup:
			if v.Index == 0 {
				return e.descD(st, t, d+1)
			}
			return "ok(" + e.descD(st, t, d+1) + ")"
		case *ssa.Next:
			if r, ok := y.Iter.(*ssa.Range); ok {
				return []string{"more", "key", "val"}[v.Index] + "(" + e.descD(st, VV{t.fr, r.X}, d+1) + ")"
			}
		}
		return "x" + strconv.Itoa(v.Index) + "(" + e.descD(st, t, d+1) + ")"
	case *ssa.TypeAssert:
		return dd(v.X)
	case *ssa.MakeInterface:
		return dd(v.X)
	case *ssa.ChangeType:
		return dd(v.X)
	case *ssa.Convert:
		return "conv:" + tname(v.Type()) + "(" + dd(v.X) + ")"
	case *ssa.MultiConvert:
		return "conv:" + tname(v.Type()) + "(" + dd(v.X) + ")"
	case *ssa.SliceToArrayPointer:
		return dd(v.X)
	case *ssa.Slice:
		if v.Low == nil && v.High == nil && v.Max == nil {
			return dd(v.X)
		}
		s := "slice(" + dd(v.X)
		for _, o := range []ssa.Value{v.Low, v.High} {
			s += ","
			if o != nil {
				s += dd(o)
			}
		}
		return s + ")"
	case *ssa.Call:
		var as []string
		for _, a := range callArgs(v) {
			as = append(as, dd(a))
		}
		if v.Call.IsInvoke() {
			return as[0] + "!" + v.Call.Method.Name() + "(" + strings.Join(as[1:], ",") + ")"
		}
		if f := e.callee(x.fr, v); f != nil {
			return fname(f) + "(" + strings.Join(as, ",") + ")"
		}
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			return b.Name() + "(" + strings.Join(as, ",") + ")"
		}
		return "dyn:" + dd(v.Call.Value) + "(" + strings.Join(as, ",") + ")"
	case *ssa.Alloc:
		return "new:" + tname(v.Type().Underlying().(*types.Pointer).Elem()) + "@" + strconv.Itoa(frID(x.fr)) + "." + v.Name()
	case *ssa.MakeSlice:
		return "mkslice@" + strconv.Itoa(frID(x.fr)) + "." + v.Name()
	case *ssa.MakeMap:
		return "mkmap@" + strconv.Itoa(frID(x.fr)) + "." + v.Name()
	case *ssa.MakeChan:
		return "mkchan@" + strconv.Itoa(frID(x.fr)) + "." + v.Name()
	case *ssa.MakeClosure:
		return "closure:" + fname(v.Fn.(*ssa.Function))
	case *ssa.Phi:
		return "phi:" + v.Name() + "@" + strconv.Itoa(frID(x.fr))
	}
	return "?" + x.v.Name()
}

func frID(f *Frame) int {
	if f == nil {
		return -1
	}
	return f.id
}

func gname(g *ssa.Global) string {
	if g.Pkg == nil {
		return g.Name()
	}
	return strings.TrimPrefix(strings.TrimPrefix(g.Pkg.Pkg.Path(), modPath), "/") + "." + g.Name()
}

func tname(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// auto is a property automaton.
type auto struct {
	p *Prog
	// call is consulted for every call that is not inlined, at the point where
	// it runs (deferred calls when they run). nil keeps the state.
	call func(e *Engine, st *State, fr *Frame, c ssa.CallInstruction) []*State
	// instr sees every other instruction (calls included, before inlining).
	instr  func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State
	branch func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State
	inline func(fr *Frame, c ssa.CallInstruction, callee *ssa.Function) bool
	exit   func(e *Engine, st *State, fr *Frame, ret *ssa.Return)
	// onRet sees returns of inlined frames
	onRet func(e *Engine, st *State, fr *Frame, ret *ssa.Return) *State
	pkgs  map[*ssa.Package]bool // default inlining: same package set
	lits  bool                  // the client state carries path literals
	// stable says which literals keep their truth besides the obvious ones
	stable func(l string) bool
	// aliasInts: integers joined outside of loops keep their path's value
	aliasInts bool
}

func isLit(w string) bool {
	for _, p := range []string{"T|", "F|", "nil|", "some|", "eq|", "ne|", "ge|"} {
		if strings.HasPrefix(w, p) {
			return true
		}
	}
	return false
}

// dropLits forgets the literals about a term that gets a new value.
func dropLits(st *State, term string) *State {
	if !strings.Contains(st.C, term) {
		return st
	}
	return st.withC(delTag(st.C, func(w string) bool {
		i := strings.Index(w, term)
		for i >= 0 {
			j := i + len(term)
			if j == len(w) || w[j] < '0' || w[j] > '9' {
				return isLit(w)
			}
			k := strings.Index(w[j:], term)
			if k < 0 {
				return false
			}
			i = j + k
		}
		return false
	}))
}

// Edge forgets literals about loop variables that move on.
func (a *auto) Edge(e *Engine, st *State, fr *Frame, from, to *ssa.BasicBlock, pi int) *State {
	if !a.lits {
		return st
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		st = dropLits(st, "phi:"+phi.Name()+"@"+strconv.Itoa(frID(fr)))
	}
	return st
}

var loopMemo = map[*ssa.BasicBlock]bool{}

func inLoop(b *ssa.BasicBlock) bool {
	if r, ok := loopMemo[b]; ok {
		return r
	}
	r := inLoop1(b)
	loopMemo[b] = r
	return r
}

func inLoop1(b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if !seen[s] {
				seen[s] = true
				if walk(s) {
					return true
				}
			}
		}
		return false
	}
	return walk(b)
}

func (a *auto) Pre(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
	if !a.lits {
		return a.pre(e, st, fr, in)
	}
	n := st
	switch v := in.(type) {
	case *ssa.Call:
		if inLoop(in.Block()) {
			n = dropLits(st, e.desc(st, VV{fr, v}))
		}
	case *ssa.Next:
		if r, ok := v.Iter.(*ssa.Range); ok {
			d := "(" + e.desc(st, VV{fr, r.X}) + ")"
			n = dropLits(dropLits(st, "key"+d), "val"+d)
		}
	}
	outs := a.pre(e, n, fr, in)
	if outs == nil && n != st {
		return []*State{n}
	}
	return outs
}

func (a *auto) pre(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
	if a.instr != nil {
		if o := a.instr(e, st, fr, in); o != nil {
			return o
		}
	}
	if c, ok := in.(*ssa.Call); ok && a.call != nil && e.canInline(st, fr, c) == nil {
		return a.call(e, st, fr, c)
	}
	return nil
}

func (a *auto) PreDefer(e *Engine, st *State, fr *Frame, d *ssa.Defer) []*State {
	if a.call != nil && e.canInline(st, fr, d) == nil {
		return a.call(e, st, fr, d)
	}
	return nil
}

func (a *auto) Inline(e *Engine, st *State, fr *Frame, c ssa.CallInstruction, callee *ssa.Function) bool {
	if a.inline != nil {
		return a.inline(fr, c, callee)
	}
	if copies(callee) {
		return false
	}
	if a.pkgs == nil {
		return fnPkg(callee) == fnPkg(rootFrame(fr).fn)
	}
	return a.pkgs[fnPkg(callee)]
}

func (a *auto) Exit(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
	if a.exit != nil {
		a.exit(e, st, fr, ret)
	}
}

func (a *auto) Ret(e *Engine, st *State, fr *Frame, ret *ssa.Return) *State {
	if a.onRet != nil {
		return a.onRet(e, st, fr, ret)
	}
	return st
}

func (a *auto) Branch(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
	if a.branch != nil {
		return a.branch(e, st, fr, cond, taken)
	}
	return st
}

func rootFrame(f *Frame) *Frame {
	for f.parent != nil {
		f = f.parent
	}
	return f
}

// run explores fn from the given client state with alias tracking.
func (a *auto) run(c *Ctx, rule string, fn *ssa.Function, start string) *Engine {
	e := newEngine(c.p, a)
	e.Alias = true
	e.MaxSteps = 2000000
	e.Run(fn, start)
	c.funcs[fname(fn)] = true
	if e.Steps > e.MaxSteps {
		c.fail(rule, fname(fn)+" exploration", c.p.pos(fn.Pos()), "the path exploration did not finish within its budget; the property is undecided here")
	}
	return e
}

// tags: the client state as a set of words.
func hasTag(c, t string) bool {
	for _, w := range strings.Split(c, ";") {
		if w == t {
			return true
		}
	}
	return false
}

func addTag(c, t string) string {
	if hasTag(c, t) {
		return c
	}
	var ws []string
	if c != "" {
		ws = strings.Split(c, ";")
	}
	ws = append(ws, t)
	sort.Strings(ws)
	return strings.Join(ws, ";")
}

func delTag(c string, match func(string) bool) string {
	var ws []string
	for _, w := range strings.Split(c, ";") {
		if w != "" && !match(w) {
			ws = append(ws, w)
		}
	}
	return strings.Join(ws, ";")
}

func tagsWith(c, prefix string) []string {
	var out []string
	for _, w := range strings.Split(c, ";") {
		if strings.HasPrefix(w, prefix) {
			out = append(out, strings.TrimPrefix(w, prefix))
		}
	}
	return out
}

func (s *State) tag(t string) *State { return s.withC(addTag(s.C, t)) }

// errResult gives what is known of the function's error result at ret:
// 'V' certainly an error, 'N' certainly nil, 0 unknown or none.
func (e *Engine) errResult(st *State, fr *Frame, ret *ssa.Return) byte {
	for i := len(ret.Results) - 1; i >= 0; i-- {
		if isErrorType(ret.Results[i].Type()) {
			return e.Fact(st, VV{fr, ret.Results[i]}).k
		}
	}
	return 0
}

// methodName of a call's callee and the term of its receiver ("" when none).
func (e *Engine) recvAndName(st *State, fr *Frame, c ssa.CallInstruction) (recv, name string, args []ssa.Value) {
	cc := c.Common()
	if cc.IsInvoke() {
		return e.desc(st, VV{fr, cc.Value}), cc.Method.Name(), cc.Args
	}
	f := e.callee(fr, c)
	if f == nil {
		if b, ok := cc.Value.(*ssa.Builtin); ok {
			return "", b.Name(), cc.Args
		}
		return "", "dyn:" + e.desc(st, VV{fr, cc.Value}), cc.Args
	}
	if f.Signature.Recv() != nil && len(cc.Args) > 0 {
		return e.desc(st, VV{fr, cc.Args[0]}), f.Name(), cc.Args[1:]
	}
	return "", f.Name(), cc.Args
}
