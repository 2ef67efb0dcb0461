package main

// A path-sensitive, interprocedural dataflow engine (property simulation in the
// style of ESP): it propagates (client state, nil/bool/const facts) pairs over
// the virtually inlined control-flow graph of an entry function. Nothing is
// executed and no solver is used: branches are pruned only by constant and
// nil-ness facts already established on the same path.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Frame struct {
	id       int
	parent   *Frame
	fn       *ssa.Function
	call     ssa.CallInstruction
	args     []VV
	bindings []VV
	depth    int
}

type VV struct {
	fr *Frame
	v  ssa.Value
}

type fkey struct {
	fr  *Frame
	v   ssa.Value
	idx int // -1: the value; -2: content of the cell; >=0: tuple element
}

type fact struct {
	k byte // 'N' nil, 'V' non-nil, 'T', 'F', 'C' constant
	c string
}

type deferRec struct {
	fr *Frame
	d  *ssa.Defer
}

type State struct {
	C      string
	facts  map[fkey]fact
	al     map[fkey]VV // value aliases: phis, results of inlined calls, cell contents (Engine.Alias)
	defers []deferRec
	prev   *State
	note   string
}

func (s *State) clone() *State {
	n := &State{C: s.C, prev: s.prev, note: s.note}
	n.facts = make(map[fkey]fact, len(s.facts)+1)
	for k, v := range s.facts {
		n.facts[k] = v
	}
	if s.al != nil {
		n.al = make(map[fkey]VV, len(s.al)+1)
		for k, v := range s.al {
			n.al[k] = v
		}
	}
	n.defers = append([]deferRec(nil), s.defers...)
	return n
}

// withC forks the state with another client state.
func (s *State) withC(c string) *State {
	n := s.clone()
	n.C = c
	return n
}

func (s *State) noted(n string) *State {
	c := s.clone()
	c.prev = s
	c.note = n
	return c
}

func (s *State) trace() string {
	var out []string
	for x := s; x != nil; x = x.prev {
		if x.note != "" && (len(out) == 0 || out[len(out)-1] != x.note) {
			out = append(out, x.note)
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return strings.Join(out, " -> ")
}

type node struct {
	fr  *Frame
	b   *ssa.BasicBlock
	idx int
}

type Client interface {
	// Pre runs before the default transfer of in. nil keeps st; otherwise the
	// returned states replace it (an empty non-nil slice ends the path).
	Pre(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State
	Inline(e *Engine, st *State, fr *Frame, c ssa.CallInstruction, callee *ssa.Function) bool
	Exit(e *Engine, st *State, fr *Frame, ret *ssa.Return)
}

// Brancher is an optional client extension: called on each feasible branch edge.
type Brancher interface {
	Branch(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State
}

type frameKey struct {
	parent *Frame
	call   ssa.CallInstruction
	fn     *ssa.Function
}

type Engine struct {
	P        *Prog
	cl       Client
	frames   map[frameKey]*Frame
	nframes  int
	MaxDepth int
	MaxSteps int
	Steps    int
	Capped   bool
	Fold     bool // fold integer constants (bounded loops are followed iteration by iteration)
	Alias    bool // track value aliases and small-integer signs (value-level clients)
	perNode  map[node]map[string]bool
	work     []workItem
	live     map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	retVals  map[*Frame][]*ssa.Return
}

type workItem struct {
	n  node
	st *State
}

func newEngine(p *Prog, cl Client) *Engine {
	return &Engine{P: p, cl: cl, frames: map[frameKey]*Frame{}, MaxDepth: 7, MaxSteps: 3000000,
		perNode: map[node]map[string]bool{}, live: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}}
}

func (e *Engine) frame(parent *Frame, call ssa.CallInstruction, fn *ssa.Function) *Frame {
	k := frameKey{parent, call, fn}
	if f := e.frames[k]; f != nil {
		return f
	}
	f := &Frame{id: e.nframes, parent: parent, fn: fn, call: call}
	e.nframes++
	if parent != nil {
		f.depth = parent.depth + 1
	}
	e.frames[k] = f
	if call != nil {
		cc := call.Common()
		if mc := e.closureOf(parent, cc.Value); mc.v != nil {
			m := mc.v.(*ssa.MakeClosure)
			for _, b := range m.Bindings {
				f.bindings = append(f.bindings, VV{mc.fr, b})
			}
		}
		if cc.IsInvoke() {
			f.args = append(f.args, VV{parent, cc.Value})
		}
		for _, a := range cc.Args {
			f.args = append(f.args, VV{parent, a})
		}
	}
	return f
}

func (e *Engine) closureOf(fr *Frame, v ssa.Value) VV {
	r := e.canon(VV{fr, v})
	if m, ok := r.v.(*ssa.MakeClosure); ok {
		_ = m
		return r
	}
	return VV{}
}

// callee resolves static calls and calls of closures visible on the frame chain.
func (e *Engine) callee(fr *Frame, c ssa.CallInstruction) *ssa.Function {
	if f := staticCallee(c); f != nil {
		return f
	}
	cc := c.Common()
	if cc.IsInvoke() {
		return nil
	}
	r := e.canon(VV{fr, cc.Value})
	switch v := r.v.(type) {
	case *ssa.Function:
		return v
	case *ssa.MakeClosure:
		return v.Fn.(*ssa.Function)
	case *ssa.UnOp:
		// load of a captured cell stored once with a closure
		if v.Op == token.MUL {
			a := e.canon(VV{r.fr, v.X})
			if al, ok := a.v.(*ssa.Alloc); ok {
				if sv := singleStore(al); sv != nil {
					switch f := sv.(type) {
					case *ssa.Function:
						return f
					case *ssa.MakeClosure:
						return f.Fn.(*ssa.Function)
					}
				}
			}
		}
	}
	return nil
}

func singleStore(al *ssa.Alloc) ssa.Value {
	var out ssa.Value
	n := 0
	var scan func(v ssa.Value)
	scan = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, r := range *v.Referrers() {
			switch x := r.(type) {
			case *ssa.Store:
				if x.Addr == v {
					n++
					out = x.Val
				} else {
					n += 2
				}
			case *ssa.MakeClosure:
				fn := x.Fn.(*ssa.Function)
				for i, b := range x.Bindings {
					if b == v {
						scan(fn.FreeVars[i])
					}
				}
			}
		}
	}
	scan(al)
	if n == 1 {
		return out
	}
	return nil
}

// canon follows parameters, captured variables and representation-preserving
// conversions to the value's defining occurrence.
func (e *Engine) canon(x VV) VV {
	for i := 0; i < 64; i++ {
		switch v := x.v.(type) {
		case *ssa.Parameter:
			if x.fr == nil || x.fr.parent == nil && x.fr.args == nil {
				return x
			}
			idx := -1
			for j, p := range x.fr.fn.Params {
				if p == v {
					idx = j
				}
			}
			if idx < 0 || idx >= len(x.fr.args) {
				return x
			}
			x = x.fr.args[idx]
		case *ssa.FreeVar:
			if x.fr == nil {
				return x
			}
			idx := -1
			for j, p := range x.fr.fn.FreeVars {
				if p == v {
					idx = j
				}
			}
			if idx < 0 || idx >= len(x.fr.bindings) {
				return x
			}
			x = x.fr.bindings[idx]
		case *ssa.ChangeType:
			x.v = v.X
		case *ssa.ChangeInterface:
			x.v = v.X
		default:
			return x
		}
	}
	return x
}

// res follows canon and the state's aliases to the value's origin on this path.
func (e *Engine) res(s *State, x VV) VV {
	x = e.canon(x)
	if s == nil || len(s.al) == 0 {
		return x
	}
	for i := 0; i < 16; i++ {
		a, ok := s.al[fkey{x.fr, x.v, -1}]
		if !ok {
			if ex, isEx := x.v.(*ssa.Extract); isEx {
				t := e.canon(VV{x.fr, ex.Tuple})
				if a, ok = s.al[fkey{t.fr, t.v, ex.Index}]; !ok {
					return x
				}
			} else {
				return x
			}
		}
		n := e.canon(a)
		if n == x {
			return x
		}
		x = n
	}
	return x
}

func (s *State) setAlias(k fkey, v VV) {
	if s.al == nil {
		s.al = map[fkey]VV{}
	}
	s.al[k] = v
}

// --- facts ---

func factKey(k fkey, f fact) string {
	id := -1
	if k.fr != nil {
		id = k.fr.id
	}
	return strconv.Itoa(id) + "/" + k.v.Name() + "/" + strconv.Itoa(k.idx) + string(f.k) + f.c
}

func (e *Engine) stKey(s *State) string {
	ks := make([]string, 0, len(s.facts))
	for k, f := range s.facts {
		ks = append(ks, factKey(k, f))
	}
	sort.Strings(ks)
	var b strings.Builder
	b.WriteString(s.C)
	b.WriteByte('|')
	for _, k := range ks {
		b.WriteString(k)
		b.WriteByte(';')
	}
	if len(s.al) > 0 {
		ks = ks[:0]
		for k, a := range s.al {
			ks = append(ks, factKey(k, fact{k: '='})+factKey(fkey{a.fr, a.v, 0}, fact{}))
		}
		sort.Strings(ks)
		b.WriteByte('|')
		for _, k := range ks {
			b.WriteString(k)
			b.WriteByte(';')
		}
	}
	b.WriteByte('|')
	for _, d := range s.defers {
		fmt.Fprintf(&b, "%d.%p,", d.fr.id, d.d)
	}
	return b.String()
}

func (e *Engine) setFact(s *State, x VV, f fact) {
	c := e.res(s, x)
	if _, ok := c.v.(*ssa.Const); ok {
		return
	}
	s.facts[fkey{c.fr, c.v, -1}] = f
}

// Fact evaluates what is known of a value in state s ("" kind 0 = unknown).
func (e *Engine) Fact(s *State, x VV) fact { return e.factD(s, x, 0) }

func (e *Engine) factD(s *State, x VV, depth int) fact {
	if depth > 12 {
		return fact{}
	}
	c := e.res(s, x)
	switch v := c.v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if isNillable(v.Type()) {
				return fact{k: 'N'}
			}
			return fact{}
		}
		if v.Value.Kind() == constant.Bool {
			if constant.BoolVal(v.Value) {
				return fact{k: 'T'}
			}
			return fact{k: 'F'}
		}
		return fact{k: 'C', c: v.Value.ExactString()}
	case *ssa.MakeInterface, *ssa.Alloc, *ssa.MakeClosure, *ssa.Function, *ssa.Global, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.FieldAddr, *ssa.IndexAddr:
		return fact{k: 'V'}
	}
	if f, ok := s.facts[fkey{c.fr, c.v, -1}]; ok {
		return f
	}
	switch v := c.v.(type) {
	case *ssa.Call:
		if nonNilErrCtor(v) {
			return fact{k: 'V'}
		}
		if e.Alias {
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
				return fact{k: 'Z'}
			}
		}
	case *ssa.UnOp:
		switch v.Op {
		case token.NOT:
			switch e.factD(s, VV{c.fr, v.X}, depth+1).k {
			case 'T':
				return fact{k: 'F'}
			case 'F':
				return fact{k: 'T'}
			}
		case token.MUL:
			if g, ok := v.X.(*ssa.Global); ok && isErrorType(v.Type()) && isSentinel(g) {
				return fact{k: 'V'}
			}
		}
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			r := e.cmpEq(s, c.fr, v.X, v.Y, depth+1)
			if r != 0 {
				t := r > 0
				if v.Op == token.NEQ {
					t = !t
				}
				if t {
					return fact{k: 'T'}
				}
				return fact{k: 'F'}
			}
		}
		if e.Alias {
			switch v.Op {
			case token.LSS, token.GTR, token.LEQ, token.GEQ:
				if r := e.cmpOrd(s, c.fr, v.Op, v.X, v.Y, depth+1); r != 0 {
					if r > 0 {
						return fact{k: 'T'}
					}
					return fact{k: 'F'}
				}
			}
		}
	}
	return fact{}
}

// cmpOrd decides integer order from signs: 'C' exact, 'P' positive, 'Z' non-negative.
func (e *Engine) cmpOrd(s *State, fr *Frame, op token.Token, a, b ssa.Value, depth int) int {
	fa, fb := e.factD(s, VV{fr, a}, depth), e.factD(s, VV{fr, b}, depth)
	lo := func(f fact) (int64, int64, bool) { // [lo, hi], hi==lo when exact
		switch f.k {
		case 'C':
			if n, err := strconv.ParseInt(f.c, 10, 64); err == nil {
				return n, n, true
			}
		case 'P':
			return 1, 1 << 62, true
		case 'Z':
			return 0, 1 << 62, true
		}
		return 0, 0, false
	}
	la, ha, oka := lo(fa)
	lb, hb, okb := lo(fb)
	if !oka || !okb {
		return 0
	}
	switch op {
	case token.GTR:
		la, ha, lb, hb = lb, hb, la, ha
		fallthrough
	case token.LSS: // a < b
		if ha < lb {
			return 1
		}
		if la >= hb {
			return -1
		}
	case token.GEQ:
		la, ha, lb, hb = lb, hb, la, ha
		fallthrough
	case token.LEQ:
		if ha <= lb {
			return 1
		}
		if la > hb {
			return -1
		}
	}
	return 0
}

// addFact: sign of x+y.
func addFact(a, b fact) fact {
	sg := func(f fact) int { // 0 unknown, 1 non-negative, 2 positive
		switch f.k {
		case 'P':
			return 2
		case 'Z':
			return 1
		case 'C':
			if n, err := strconv.ParseInt(f.c, 10, 64); err == nil {
				if n > 0 {
					return 2
				}
				if n == 0 {
					return 1
				}
			}
		}
		return 0
	}
	x, y := sg(a), sg(b)
	if x == 0 || y == 0 {
		return fact{}
	}
	if x == 2 || y == 2 {
		return fact{k: 'P'}
	}
	return fact{k: 'Z'}
}

// cmpEq: >0 equal, <0 different, 0 unknown.
func (e *Engine) cmpEq(s *State, fr *Frame, a, b ssa.Value, depth int) int {
	fa, fb := e.factD(s, VV{fr, a}, depth), e.factD(s, VV{fr, b}, depth)
	if fa.k == 0 || fb.k == 0 {
		return 0
	}
	switch {
	case fa.k == 'N' && fb.k == 'N':
		return 1
	case fa.k == 'N' && fb.k == 'V', fa.k == 'V' && fb.k == 'N':
		return -1
	case fa.k == 'C' && fb.k == 'C':
		if fa.c == fb.c {
			return 1
		}
		return -1
	case (fa.k == 'T' || fa.k == 'F') && (fb.k == 'T' || fb.k == 'F'):
		if fa.k == fb.k {
			return 1
		}
		return -1
	case fa.k == 'C' && fa.c == "0" && fb.k == 'P', fb.k == 'C' && fb.c == "0" && fa.k == 'P':
		return -1
	}
	return 0
}

// isSentinel: a package-level error variable that is assigned only by package
// initialisation (errors.New / fmt.Errorf / a composite), so never nil.
func isSentinel(g *ssa.Global) bool {
	if g.Pkg == nil {
		return true
	}
	init := g.Pkg.Func("init")
	for _, m := range g.Pkg.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f == init || f.Blocks == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && st.Addr == g {
					return false
				}
			}
		}
	}
	return true
}

func nonNilErrCtor(c *ssa.Call) bool {
	pkg, name := calleePkgName(c)
	switch pkg + "." + name {
	case "errors.New", "fmt.Errorf":
		return true
	}
	// repository constructors whose every return is a non-nil error
	if f := staticCallee(c); f != nil && f.Blocks != nil && f.Signature.Results().Len() == 1 {
		return alwaysNonNilErr(f, 0)
	}
	return false
}

var nonNilMemo = map[*ssa.Function]int{}

func alwaysNonNilErr(f *ssa.Function, depth int) bool {
	if r, ok := nonNilMemo[f]; ok {
		return r == 1
	}
	if depth > 3 {
		return false
	}
	nonNilMemo[f] = 0
	any := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ret, ok := in.(*ssa.Return)
			if !ok {
				continue
			}
			any = true
			if len(ret.Results) != 1 {
				return false
			}
			switch v := ret.Results[0].(type) {
			case *ssa.MakeInterface:
				switch x := v.X.(type) {
				case *ssa.Alloc:
				case *ssa.Call:
					if g := staticCallee(x); g == nil || !returnsFresh(g) {
						if _, isPtr := x.Type().Underlying().(*types.Pointer); isPtr {
							return false
						}
					}
				default:
					_ = x
					if _, isPtr := v.X.Type().Underlying().(*types.Pointer); isPtr {
						return false
					}
				}
			case *ssa.Alloc:
			case *ssa.Call:
				if !nonNilErrCtor(v) {
					return false
				}
			default:
				return false
			}
		}
	}
	if any {
		nonNilMemo[f] = 1
	}
	return any
}

func returnsFresh(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				for _, v := range r.Results {
					if _, ok := v.(*ssa.Alloc); !ok {
						return false
					}
				}
			}
		}
	}
	return true
}

// assume refines s under cond==taken; nil when infeasible.
func (e *Engine) assume(s *State, fr *Frame, cond ssa.Value, taken bool) *State {
	f := e.Fact(s, VV{fr, cond})
	if f.k == 'T' && !taken || f.k == 'F' && taken {
		return nil
	}
	n := s.clone()
	e.refine(n, VV{fr, cond}, taken)
	if b, ok := e.cl.(Brancher); ok {
		n = b.Branch(e, n, fr, cond, taken)
	}
	return n
}

func (e *Engine) refine(n *State, x VV, taken bool) {
	c := e.res(n, x)
	if _, isC := c.v.(*ssa.Const); isC {
		return
	}
	tf := fact{k: 'F'}
	if taken {
		tf = fact{k: 'T'}
	}
	switch v := c.v.(type) {
	case *ssa.UnOp:
		if v.Op == token.NOT {
			e.refine(n, VV{c.fr, v.X}, !taken)
			return
		}
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			eq := taken == (v.Op == token.EQL)
			e.refineEq(n, VV{c.fr, v.X}, VV{c.fr, v.Y}, eq)
			e.refineEq(n, VV{c.fr, v.Y}, VV{c.fr, v.X}, eq)
		}
		if e.Alias {
			e.refineOrd(n, c.fr, v, taken)
		}
	case *ssa.Call:
		pkg, name := calleePkgName(v)
		if taken && pkg == "errors" && (name == "Is" || name == "As") {
			e.setFact(n, VV{c.fr, v.Call.Args[0]}, fact{k: 'V'})
		}
	}
	n.facts[fkey{c.fr, c.v, -1}] = tf
}

// refineOrd keeps signs of integers compared against constants.
func (e *Engine) refineOrd(n *State, fr *Frame, v *ssa.BinOp, taken bool) {
	x, y, op := v.X, v.Y, v.Op
	k, ok := constInt(y)
	if !ok {
		if k, ok = constInt(x); !ok {
			return
		}
		x = y
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if !taken {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.GEQ:
			op = token.LSS
		case token.GTR:
			op = token.LEQ
		case token.LEQ:
			op = token.GTR
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	cur := e.Fact(n, VV{fr, x})
	switch {
	case op == token.GTR && k >= 0, op == token.GEQ && k >= 1:
		e.setFact(n, VV{fr, x}, fact{k: 'P'})
	case op == token.GEQ && k == 0 && cur.k == 0, op == token.GTR && k == -1 && cur.k == 0:
		e.setFact(n, VV{fr, x}, fact{k: 'Z'})
	case op == token.NEQ && k == 0 && cur.k == 'Z':
		e.setFact(n, VV{fr, x}, fact{k: 'P'})
	case (op == token.LEQ && k == 0 || op == token.LSS && k == 1) && cur.k == 'Z':
		e.setFact(n, VV{fr, x}, fact{k: 'C', c: "0"})
	}
}

func (e *Engine) refineEq(n *State, x, y VV, eq bool) {
	fy := e.Fact(n, y)
	cx := e.res(n, x)
	if _, isC := cx.v.(*ssa.Const); isC {
		return
	}
	switch fy.k {
	case 'N':
		if eq {
			e.setFact(n, x, fact{k: 'N'})
		} else {
			e.setFact(n, x, fact{k: 'V'})
		}
	case 'V':
		if eq {
			e.setFact(n, x, fact{k: 'V'})
		}
	case 'T', 'F':
		if eq {
			e.setFact(n, x, fy)
		} else if fy.k == 'T' {
			e.setFact(n, x, fact{k: 'F'})
		} else {
			e.setFact(n, x, fact{k: 'T'})
		}
	case 'C':
		if eq {
			e.setFact(n, x, fy)
		}
	}
}

// --- liveness ---

// valueDeps adds the values from which facts about v may be derived when they are asked for.
func valueDeps(v ssa.Value, add func(ssa.Value), depth int) {
	if v == nil || depth > 6 {
		return
	}
	add(v)
	// facts may be derived through these at evaluation time
	switch x := v.(type) {
	case *ssa.ChangeType:
		valueDeps(x.X, add, depth+1)
	case *ssa.ChangeInterface:
		valueDeps(x.X, add, depth+1)
	case *ssa.BinOp:
		valueDeps(x.X, add, depth+1)
		valueDeps(x.Y, add, depth+1)
	case *ssa.UnOp:
		valueDeps(x.X, add, depth+1)
	case *ssa.MakeInterface:
		valueDeps(x.X, add, depth+1)
	case *ssa.Convert:
		valueDeps(x.X, add, depth+1)
	case *ssa.Slice:
		valueDeps(x.X, add, depth+1)
		valueDeps(x.Low, add, depth+1)
		valueDeps(x.High, add, depth+1)
	case *ssa.IndexAddr:
		valueDeps(x.X, add, depth+1)
		valueDeps(x.Index, add, depth+1)
	case *ssa.FieldAddr:
		valueDeps(x.X, add, depth+1)
	case *ssa.Extract:
		valueDeps(x.Tuple, add, depth+1)
	case *ssa.Call:
		if depth < 3 {
			for _, a := range x.Call.Args {
				valueDeps(a, add, depth+1)
			}
		}
	}
}

func (e *Engine) liveIn(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if l, ok := e.live[fn]; ok {
		return l
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	deps := valueDeps
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range in[s] {
					cur[v] = true
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						deps(phi.Edges[pi], func(v ssa.Value) { cur[v] = true }, 0)
					}
				}
			}
			for j := len(b.Instrs) - 1; j >= 0; j-- {
				ins := b.Instrs[j]
				if v, ok := ins.(ssa.Value); ok {
					delete(cur, v)
				}
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				for _, op := range ins.Operands(nil) {
					if op != nil && *op != nil {
						deps(*op, func(v ssa.Value) { cur[v] = true }, 0)
					}
				}
			}
			if len(cur) != len(in[b]) {
				changed = true
				in[b] = cur
			} else {
				for v := range cur {
					if !in[b][v] {
						changed = true
						in[b] = cur
						break
					}
				}
			}
		}
	}
	// deferred closures read cells at any exit: cells are kept regardless
	e.live[fn] = in
	return in
}

// --- driver ---

func (e *Engine) Run(fn *ssa.Function, c string) *Frame {
	fr := e.frame(nil, nil, fn)
	st := &State{C: c, facts: map[fkey]fact{}}
	e.push(node{fr, fn.Blocks[0], 0}, st)
	e.loop()
	return fr
}

// RunFrom starts with a prepared state.
func (e *Engine) RunFrom(fr *Frame, st *State) {
	e.push(node{fr, fr.fn.Blocks[0], 0}, st)
	e.loop()
}

// deadline bounds an exploration in time: an answer ("undecided" is one) is due in any case.
var deadline = time.Now().Add(600 * time.Second)

func (e *Engine) loop() {
	n := 0
	for len(e.work) > 0 {
		w := e.work[len(e.work)-1]
		e.work = e.work[:len(e.work)-1]
		e.exec(w.n, w.st)
		if n++; n&1023 == 0 && time.Now().After(deadline) {
			e.Steps = e.MaxSteps + 1
		}
		if e.Steps > e.MaxSteps {
			e.Capped = true
			e.work = nil
			return
		}
	}
}

func (e *Engine) push(n node, st *State) {
	k := e.stKey(st)
	m := e.perNode[n]
	if m == nil {
		m = map[string]bool{}
		e.perNode[n] = m
	}
	if m[k] {
		return
	}
	if len(m) > 3000 {
		// give up precision, not soundness: forget facts
		e.Capped = true
		st = st.clone()
		st.facts = map[fkey]fact{}
		k = e.stKey(st)
		if m[k] {
			return
		}
	}
	m[k] = true
	e.work = append(e.work, workItem{n, st})
}

func (e *Engine) exec(n node, st *State) {
	fr, b, i := n.fr, n.b, n.idx
	for i < len(b.Instrs) {
		e.Steps++
		in := b.Instrs[i]
		if _, ok := in.(*ssa.Phi); ok {
			i++
			continue
		}
		if _, ok := in.(*ssa.DebugRef); ok {
			i++
			continue
		}
		// kill
		if v, ok := in.(ssa.Value); ok {
			st = e.kill(st, fr, v)
		}
		outs := e.cl.Pre(e, st, fr, in)
		if outs != nil {
			if len(outs) == 0 {
				return
			}
			for _, o := range outs[1:] {
				e.transfer(o, fr, b, i, in)
			}
			st = outs[0]
		}
		var cont bool
		st, cont = e.transferInline(st, fr, b, i, in)
		if !cont {
			return
		}
		i++
	}
}

func (e *Engine) kill(st *State, fr *Frame, v ssa.Value) *State {
	dirty := false
	for k := range st.facts {
		if k.fr == fr && k.v == v {
			dirty = true
			break
		}
	}
	for k, a := range st.al {
		if k.fr == fr && k.v == v || a.fr == fr && a.v == v {
			dirty = true
			break
		}
	}
	if !dirty {
		return st
	}
	n := st.clone()
	for k, a := range n.al {
		if k.fr == fr && k.v == v || a.fr == fr && a.v == v {
			delete(n.al, k)
		}
	}
	for k := range n.facts {
		if k.fr == fr && k.v == v {
			delete(n.facts, k)
		}
	}
	return n
}

// transfer continues a forked state after instruction i through the worklist.
func (e *Engine) transfer(st *State, fr *Frame, b *ssa.BasicBlock, i int, in ssa.Instruction) {
	s2, cont := e.transferInline(st, fr, b, i, in)
	if cont {
		e.push(node{fr, b, i + 1}, s2)
	}
}

func (e *Engine) onStack(fr *Frame, fn *ssa.Function) bool {
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			return true
		}
	}
	return false
}

func (e *Engine) canInline(st *State, fr *Frame, c ssa.CallInstruction) *ssa.Function {
	callee := e.callee(fr, c)
	if callee == nil || callee.Blocks == nil || fr.depth >= e.MaxDepth || e.onStack(fr, callee) {
		return nil
	}
	if !e.P.funcSet[callee] {
		return nil
	}
	if !e.cl.Inline(e, st, fr, c, callee) {
		return nil
	}
	return callee
}

func zeroFact(t types.Type) fact {
	if isNillable(t) {
		return fact{k: 'N'}
	}
	if isBool(t) {
		return fact{k: 'F'}
	}
	return fact{}
}

func (e *Engine) transferInline(st *State, fr *Frame, b *ssa.BasicBlock, i int, in ssa.Instruction) (*State, bool) {
	switch x := in.(type) {
	case *ssa.Alloc:
		el := x.Type().Underlying().(*types.Pointer).Elem()
		if f := zeroFact(el); f.k != 0 {
			st = st.clone()
			st.facts[fkey{fr, x, -2}] = f
		}
	case *ssa.Store:
		a := e.res(st, VV{fr, x.Addr})
		if al, ok := a.v.(*ssa.Alloc); ok {
			st = st.clone()
			f := e.Fact(st, VV{fr, x.Val})
			if f.k != 0 {
				st.facts[fkey{a.fr, al, -2}] = f
			} else {
				delete(st.facts, fkey{a.fr, al, -2})
			}
			if e.Alias {
				st.setAlias(fkey{a.fr, al, -2}, e.res(st, VV{fr, x.Val}))
			}
		}
	case *ssa.BinOp:
		if e.Fold && isIntish(x.Type()) {
			a, b := e.Fact(st, VV{fr, x.X}), e.Fact(st, VV{fr, x.Y})
			if a.k == 'C' && b.k == 'C' {
				if v, ok := foldInt(x.Op, a.c, b.c, x.Type()); ok {
					st = st.clone()
					st.facts[fkey{fr, x, -1}] = fact{k: 'C', c: v}
					break
				}
			}
		}
		if e.Alias && x.Op == token.ADD {
			if f := addFact(e.Fact(st, VV{fr, x.X}), e.Fact(st, VV{fr, x.Y})); f.k != 0 {
				st = st.clone()
				st.facts[fkey{fr, x, -1}] = f
			}
		}
	case *ssa.UnOp:
		if x.Op == token.MUL {
			a := e.canon(VV{fr, x.X})
			if al, ok := a.v.(*ssa.Alloc); ok {
				if f, ok := st.facts[fkey{a.fr, al, -2}]; ok {
					st = st.clone()
					st.facts[fkey{fr, x, -1}] = f
				}
				if t, ok := st.al[fkey{a.fr, al, -2}]; ok && (t != VV{fr, x}) {
					st = st.clone()
					st.al[fkey{fr, x, -1}] = t
				}
			}
		}
	case *ssa.Extract:
		t := e.canon(VV{fr, x.Tuple})
		if f, ok := st.facts[fkey{t.fr, t.v, x.Index}]; ok {
			st = st.clone()
			st.facts[fkey{fr, x, -1}] = f
		}
	case *ssa.Defer:
		st = st.clone()
		st.defers = append(st.defers, deferRec{fr, x})
	case *ssa.RunDefers:
		if k := len(st.defers); k > 0 && st.defers[k-1].fr == fr {
			d := st.defers[k-1].d
			n := st.clone()
			n.defers = n.defers[:k-1]
			outs := []*State{n}
			if dp, ok := e.cl.(interface {
				PreDefer(e *Engine, st *State, fr *Frame, d *ssa.Defer) []*State
			}); ok {
				if o := dp.PreDefer(e, n, fr, d); o != nil {
					outs = o
				}
			}
			for _, o := range outs {
				if callee := e.canInline(o, fr, d); callee != nil {
					nf := e.frame(fr, d, callee)
					o = o.clone()
					o.facts[fkey{fr, d.Call.Value, -3}] = fact{k: 'C', c: strconv.Itoa(b.Index)}
					e.push(node{nf, callee.Blocks[0], 0}, o)
				} else {
					e.push(node{fr, b, i}, o)
				}
			}
			return nil, false
		}
	case *ssa.Call:
		if callee := e.canInline(st, fr, x); callee != nil {
			nf := e.frame(fr, x, callee)
			e.push(node{nf, callee.Blocks[0], 0}, st)
			return nil, false
		}
		for _, a := range x.Call.Args {
			c := e.canon(VV{fr, a})
			if al, ok := c.v.(*ssa.Alloc); ok {
				if _, has := st.facts[fkey{c.fr, al, -2}]; has {
					st = st.clone()
					delete(st.facts, fkey{c.fr, al, -2})
				}
				if _, has := st.al[fkey{c.fr, al, -2}]; has {
					st = st.clone()
					delete(st.al, fkey{c.fr, al, -2})
				}
			}
		}
	case *ssa.If:
		for k, taken := range []bool{true, false} {
			n := e.assume(st, fr, x.Cond, taken)
			if n == nil {
				continue
			}
			if st.prev != n.prev || true {
				n.prev = st
				if x.Cond.Pos().IsValid() {
					n.note = fmt.Sprintf("%s[%v]", e.P.pos(x.Cond.Pos()), taken)
				} else {
					n.note = ""
				}
			}
			e.goBlock(n, fr, b, b.Succs[k])
		}
		return nil, false
	case *ssa.Jump:
		e.goBlock(st, fr, b, b.Succs[0])
		return nil, false
	case *ssa.Return:
		e.doReturn(st, fr, x)
		return nil, false
	case *ssa.Panic:
		return nil, false
	}
	return st, true
}

func (e *Engine) goBlock(st *State, fr *Frame, from, to *ssa.BasicBlock) {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
			break
		}
	}
	n := st.clone()
	n.prev = st
	// phis
	type upd struct {
		k fkey
		f fact
		a VV
	}
	var ups []upd
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		u := upd{k: fkey{fr, phi, -1}, f: e.Fact(st, VV{fr, phi.Edges[pi]})}
		if e.Alias {
			u.a = e.res(st, VV{fr, phi.Edges[pi]})
		}
		ups = append(ups, u)
	}
	live := e.liveIn(fr.fn)[to]
	var more map[ssa.Value]bool
	for _, u := range ups {
		if u.a.fr == fr && u.a.v != nil {
			if _, ok := u.a.v.(*ssa.Phi); !ok {
				valueDeps(u.a.v, func(v ssa.Value) {
					if v != u.a.v && !live[v] {
						if more == nil {
							more = map[ssa.Value]bool{}
							for w := range live {
								more[w] = true
							}
						}
						more[v] = true
					}
				}, 0)
			}
		}
	}
	if more != nil {
		live = more
	}
	for k := range n.al {
		if k.fr == fr && k.idx != -2 && !live[k.v] {
			delete(n.al, k)
		}
	}
	keep := map[VV]bool{}
	for _, a := range n.al {
		keep[a] = true
	}
	for _, u := range ups {
		if u.a.v != nil {
			keep[u.a] = true
		}
	}
	for k := range n.facts {
		if k.fr == fr && k.idx != -2 && !live[k.v] && !keep[VV{k.fr, k.v}] {
			delete(n.facts, k)
		}
	}
	for _, u := range ups {
		// the phi is redefined: whatever was said about its previous value goes
		for k, a := range n.al {
			if a.fr == fr && a.v == u.k.v {
				delete(n.al, k)
			}
		}
	}
	for _, u := range ups {
		if e.Alias && (!isIntish(u.k.v.Type()) || e.aliasInts() && !inLoop(to)) && u.a.v != nil && u.a != (VV{fr, u.k.v}) && !phiOf(to, u.a, fr) {
			delete(n.facts, u.k)
			n.setAlias(u.k, u.a)
			if u.f.k != 0 {
				e.setFact(n, u.a, u.f)
			}
			continue
		}
		delete(n.al, u.k)
		if u.f.k != 0 {
			n.facts[u.k] = u.f
		} else {
			delete(n.facts, u.k)
		}
	}
	if pb, ok := e.cl.(interface {
		Edge(e *Engine, st *State, fr *Frame, from, to *ssa.BasicBlock, pi int) *State
	}); ok {
		n = pb.Edge(e, n, fr, from, to, pi)
		if n == nil {
			return
		}
	}
	e.push(node{fr, to, 0}, n)
}

// foldInt folds an integer operation on constants; wrap-around is refused.
func foldInt(op token.Token, a, b string, t types.Type) (string, bool) {
	x, ok1 := new(big.Int).SetString(a, 10)
	y, ok2 := new(big.Int).SetString(b, 10)
	if !ok1 || !ok2 {
		return "", false
	}
	r := new(big.Int)
	switch op {
	case token.ADD:
		r.Add(x, y)
	case token.SUB:
		r.Sub(x, y)
	case token.MUL:
		r.Mul(x, y)
	case token.QUO, token.REM:
		if y.Sign() == 0 {
			return "", false
		}
		if op == token.QUO {
			r.Quo(x, y)
		} else {
			r.Rem(x, y)
		}
	case token.SHL, token.SHR:
		if !y.IsInt64() || y.Int64() < 0 || y.Int64() > 256 {
			return "", false
		}
		if op == token.SHL {
			r.Lsh(x, uint(y.Int64()))
		} else {
			r.Rsh(x, uint(y.Int64()))
		}
	case token.AND:
		r.And(x, y)
	case token.OR:
		r.Or(x, y)
	case token.XOR:
		r.Xor(x, y)
	case token.AND_NOT:
		r.AndNot(x, y)
	default:
		return "", false
	}
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return "", false
	}
	bits := map[types.BasicKind]int{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64,
		types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64}[bt.Kind()]
	if bits == 0 {
		return "", false
	}
	if bt.Info()&types.IsUnsigned != 0 {
		if r.Sign() < 0 || r.BitLen() > bits {
			return "", false
		}
	} else if r.BitLen() >= bits {
		return "", false
	}
	return r.String(), true
}

func isIntish(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsNumeric != 0
}

func phiOf(b *ssa.BasicBlock, x VV, fr *Frame) bool {
	phi, ok := x.v.(*ssa.Phi)
	return ok && x.fr == fr && phi.Block() == b
}

func (e *Engine) doReturn(st *State, fr *Frame, ret *ssa.Return) {
	if fr.parent == nil {
		e.cl.Exit(e, st, fr, ret)
		return
	}
	n := st.clone()
	n.prev = st
	res := make([]fact, len(ret.Results))
	for i, r := range ret.Results {
		res[i] = e.Fact(st, VV{fr, r})
	}
	var rv []VV
	keep := map[VV]bool{}
	if e.Alias {
		for _, r := range ret.Results {
			v := e.res(st, VV{fr, r})
			rv = append(rv, v)
			keep[v] = true
		}
		for k, a := range n.al {
			if k.fr == fr && !keep[VV{k.fr, k.v}] && !cellEscapes(k) {
				delete(n.al, k)
			} else {
				keep[a] = true
			}
		}
	}
	for k := range n.facts {
		if k.fr == fr && !keep[VV{k.fr, k.v}] {
			delete(n.facts, k)
		}
	}
	if call, ok := fr.call.(*ssa.Call); ok && e.Alias {
		for i, v := range rv {
			k := fkey{fr.parent, call, i}
			if len(rv) == 1 {
				k.idx = -1
			}
			n.setAlias(k, v)
		}
	}
	if call, ok := fr.call.(*ssa.Call); ok {
		if len(res) == 1 {
			if res[0].k != 0 {
				n.facts[fkey{fr.parent, call, -1}] = res[0]
			}
		} else {
			for i, f := range res {
				if f.k != 0 {
					n.facts[fkey{fr.parent, call, i}] = f
				}
			}
		}
	}
	if rp, ok := e.cl.(interface {
		Ret(e *Engine, st *State, fr *Frame, ret *ssa.Return) *State
	}); ok {
		n = rp.Ret(e, n, fr, ret)
		if n == nil {
			return
		}
	}
	// position after the call
	ci := fr.call.(ssa.Instruction)
	b := ci.Block()
	if d, ok := fr.call.(*ssa.Defer); ok {
		_ = d
		// resume at the RunDefers of the parent: find it on the current exit
		// path; the parent frame re-executes the RunDefers instruction.
		rb, ri := e.runDefersSite(n, fr)
		if rb != nil {
			for k := range n.facts {
				if k.fr == fr.parent && k.idx == -3 {
					delete(n.facts, k)
				}
			}
			e.push(node{fr.parent, rb, ri}, n)
		}
		return
	}
	for i, x := range b.Instrs {
		if x == ci {
			e.push(node{fr.parent, b, i + 1}, n)
			return
		}
	}
}

// cellEscapes: the content alias of a heap cell may still be read by others.
func cellEscapes(k fkey) bool {
	al, ok := k.v.(*ssa.Alloc)
	return ok && k.idx == -2 && al.Heap
}

// runDefersSite: Go SSA has one RunDefers per return block; several may exist.
// The site is recorded in the client-independent fact table when the deferred
// call starts.
func (e *Engine) runDefersSite(st *State, fr *Frame) (*ssa.BasicBlock, int) {
	// all RunDefers of the parent function are followed by loads of the named
	// results and a Return; resuming at each of them over-approximates, so use
	// the recorded one when present.
	for k, f := range st.facts {
		if k.fr == fr.parent && k.idx == -3 {
			bi, _ := strconv.Atoi(f.c)
			b := fr.parent.fn.Blocks[bi]
			for i, in := range b.Instrs {
				if _, ok := in.(*ssa.RunDefers); ok {
					return b, i
				}
			}
		}
	}
	return nil, 0
}
