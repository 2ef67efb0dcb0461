package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Event paths: every path of a small function, with the calls it makes, the
// values involved as terms over its inputs, and the fields it changes. Helpers
// of the module are followed, loops are taken as one generic iteration.

type pEv struct {
	op   string // call, go, close, send, recv, loop, panic
	name string // callee
	args []string
	in   ssa.Instruction
	loop []string // enclosing generic iterations
	res  string
	mem  map[string]string // fields at that point
}

func (e pEv) String() string {
	return e.op + " " + e.name + "(" + strings.Join(e.args, ", ") + ")"
}

type pPath struct {
	mem   map[string]string
	conds map[string]bool
	evs   []pEv
	res   []string
	end   string // return, panic
	at    ssa.Instruction
	order []string // conditions in order
	loops map[string]pLoop
	vars  map[string]pVar   // loop variables: first and next value
	after map[string]string // value behind the loop -> loop variable
}

type pVar struct{ start, next string }

type pLoop struct {
	cond        string
	start, step string
	left        bool // left before the end
}

func (p *pPath) clone() *pPath {
	q := &pPath{mem: map[string]string{}, conds: map[string]bool{}, loops: map[string]pLoop{}, vars: map[string]pVar{}, after: map[string]string{}}
	for k, v := range p.vars {
		q.vars[k] = v
	}
	for k, v := range p.after {
		q.after[k] = v
	}
	for k, v := range p.mem {
		q.mem[k] = v
	}
	for k, v := range p.conds {
		q.conds[k] = v
	}
	for k, v := range p.loops {
		q.loops[k] = v
	}
	q.evs = append(q.evs, p.evs...)
	q.order = append(q.order, p.order...)
	return q
}

type pFrame struct {
	fn     *ssa.Function
	env    map[ssa.Value]string
	defers []*ssa.Defer
	dargs  [][]string
	depth  int
	loop   []string
	heads  map[*ssa.BasicBlock]string // loops being iterated
	ret    func(p *pPath, res []string)
	id     int
}

func (f *pFrame) clone() *pFrame {
	g := *f
	g.env = map[ssa.Value]string{}
	for k, v := range f.env {
		g.env[k] = v
	}
	g.heads = map[*ssa.BasicBlock]string{}
	for k, v := range f.heads {
		g.heads[k] = v
	}
	g.defers = append([]*ssa.Defer(nil), f.defers...)
	g.dargs = append([][]string(nil), f.dargs...)
	g.loop = append([]string(nil), f.loop...)
	return &g
}

type pEval struct {
	p     *Prog
	out   []*pPath
	fresh int
	steps int
	// inline decides whether a module callee is followed
	inline func(f *ssa.Function) bool
	clos   map[string]*ssa.MakeClosure
	cenv   map[string]map[ssa.Value]string
	why    string
}

type pGiveUp struct{ why string }

func (e *pEval) giveUp(f string, a ...any) { panic(pGiveUp{fmt.Sprintf(f, a...)}) }

// eventPaths: all paths of fn, or a reason why they are not known.
func eventPaths(p *Prog, fn *ssa.Function, inline func(*ssa.Function) bool, init map[string]string) (paths []*pPath, why string) {
	e := &pEval{p: p, inline: inline, clos: map[string]*ssa.MakeClosure{}, cenv: map[string]map[ssa.Value]string{}}
	defer func() {
		if r := recover(); r != nil {
			g, ok := r.(pGiveUp)
			if !ok {
				panic(r)
			}
			paths, why = nil, g.why
		}
	}()
	st := &pPath{mem: map[string]string{}, conds: map[string]bool{}, loops: map[string]pLoop{}}
	for k, v := range init {
		st.mem[k] = v
	}
	var args []string
	for i := range fn.Params {
		args = append(args, "p"+strconv.Itoa(i))
	}
	e.fn(fn, args, nil, st, 0, nil, func(p *pPath, res []string) {
		p.res = res
		p.end = "return"
		e.out = append(e.out, p)
	})
	return e.out, ""
}

func (e *pEval) fn(f *ssa.Function, args []string, free map[ssa.Value]string, st *pPath, depth int, loop []string, ret func(*pPath, []string)) {
	if depth > 12 {
		e.giveUp("calls of %s nest too deep", fname(f))
	}
	e.fresh++
	fr := &pFrame{fn: f, env: map[ssa.Value]string{}, depth: depth, loop: loop, heads: map[*ssa.BasicBlock]string{}, ret: ret, id: e.fresh}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for k, v := range free {
		fr.env[k] = v
	}
	e.block(fr, f.Blocks[0], nil, st)
}

func (e *pEval) new(what string) string {
	e.fresh++
	return what + "#" + strconv.Itoa(e.fresh)
}

func (e *pEval) val(f *pFrame, v ssa.Value) string {
	if t, ok := f.env[v]; ok {
		return t
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isNillable(x.Type()) {
				return "nil"
			}
			return "zero"
		}
		return x.Value.ExactString()
	case *ssa.Global:
		return "&" + gname(x)
	case *ssa.Function:
		return "fn:" + fname(x)
	case *ssa.Builtin:
		return "builtin:" + x.Name()
	case *ssa.FreeVar:
		return "free:" + x.Name()
	}
	return "?" + v.Name() + "@" + strconv.Itoa(f.id)
}

// load: the content of a place.
func (p *pPath) load(place string) string {
	if v, ok := p.mem[place]; ok {
		return v
	}
	// a struct field of a stored struct value is not tracked
	return "*" + place
}

func zeroTerm(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "false"
		case u.Info()&types.IsString != 0:
			return `""`
		case u.Info()&types.IsNumeric != 0:
			return "0"
		}
	case *types.Struct, *types.Array:
		return "zero"
	}
	return "nil"
}

func isConstTerm(t string) bool {
	if t == "nil" || t == "true" || t == "false" || t == "zero" {
		return true
	}
	if t == "" {
		return false
	}
	c := t[0]
	return c == '"' || c >= '0' && c <= '9' || c == '-'
}

// truth of a term in a path: 1, 0 or -1.
func (p *pPath) truth(t string) int {
	switch t {
	case "true":
		return 1
	case "false":
		return 0
	}
	if v, ok := p.conds[t]; ok {
		if v {
			return 1
		}
		return 0
	}
	if strings.HasPrefix(t, "!") {
		if r := p.truth(t[1:]); r >= 0 {
			return 1 - r
		}
		return -1
	}
	if l, r, ok := splitCmp(t); ok {
		if l == r {
			return 1
		}
		if isConstTerm(l) && isConstTerm(r) {
			return 0
		}
		if r == "nil" && (strings.HasPrefix(l, "new#") || strings.HasPrefix(l, "fn:") || strings.HasPrefix(l, "closure#") || strings.HasPrefix(l, "mkchan#") || strings.HasPrefix(l, "mkmap#") || strings.HasPrefix(l, "mkslice#") || strings.HasPrefix(l, "err:") || strings.HasPrefix(l, "err#")) {
			return 0
		}
		if isConstTerm(r) {
			for c, v := range p.conds {
				if cl, cr, ok := splitCmp(c); ok && v && cl == l && cr != r && isConstTerm(cr) {
					return 0
				}
			}
		}
	}
	return -1
}

func splitCmp(t string) (string, string, bool) {
	if strings.HasPrefix(t, "eq{") {
		i := strings.Index(t, "}{")
		return t[3:i], t[i+2 : len(t)-1], true
	}
	return "", "", false
}

func eqTerm(a, b string) string {
	for i := 0; i < 2; i++ {
		switch a {
		case "true":
			return b
		case "false":
			if strings.HasPrefix(b, "!") {
				return b[1:]
			}
			return "!" + b
		}
		a, b = b, a
	}
	if isConstTerm(a) && !isConstTerm(b) || !isConstTerm(b) && a > b {
		a, b = b, a
	}
	return "eq{" + a + "}{" + b + "}"
}

func negTerm(t string) string {
	switch {
	case strings.HasPrefix(t, "!"):
		return t[1:]
	case t == "true":
		return "false"
	case t == "false":
		return "true"
	}
	return "!" + t
}

func (p *pPath) assume(t string, v bool) bool {
	for strings.HasPrefix(t, "!") {
		t, v = t[1:], !v
	}
	if r := p.truth(t); r >= 0 {
		return (r == 1) == v
	}
	p.conds[t] = v
	if v {
		p.order = append(p.order, t)
	} else {
		p.order = append(p.order, "!"+t)
	}
	return true
}

func (e *pEval) block(f *pFrame, b, from *ssa.BasicBlock, st *pPath) {
	if e.steps++; e.steps > 60000 {
		e.giveUp("too many paths")
	}
	// loops
	head := false
	for _, p := range b.Preds {
		if b.Dominates(p) {
			head = true
		}
	}
	if head {
		if it, ok := f.heads[b]; ok {
			// one iteration done: leave the loop
			for _, in := range b.Instrs {
				phi, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for i, p := range b.Preds {
					if v := st.vars[f.env[phi]]; p == from && st.vars != nil {
						v.next = e.val(f, phi.Edges[i])
						st.vars[f.env[phi]] = v
					}
				}
			}
			e.leave(f, b, it, st)
			return
		}
		it := e.new("iter")
		f = f.clone()
		f.heads[b] = it
		lp := pLoop{}
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			start, step := "", ""
			for i, p := range b.Preds {
				if p == from {
					start = e.val(f, phi.Edges[i])
				}
				if b.Dominates(p) {
					if bo, ok := phi.Edges[i].(*ssa.BinOp); ok && bo.X == phi {
						step = bo.Op.String() + e.val(f, bo.Y)
					}
				}
			}
			if step != "" && lp.step == "" && isConstTerm(start) {
				lp.start, lp.step = start, step
				f.env[phi] = it
			} else {
				f.env[phi] = e.new("loopvar")
			}
			if st.vars == nil {
				st.vars = map[string]pVar{}
			}
			st.vars[f.env[phi]] = pVar{start: start}
		}
		st.loops[it] = lp
		f.loop = append(f.loop, it)
		// fields changed in the loop are unknown at its start
		body := natLoop(b)
		for bb := range body {
			for _, in := range bb.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if t, ok := f.env[s.Addr]; ok {
						delete(st.mem, t)
					}
				}
			}
		}
		e.instrs(f, b, e.skipPhi(b), st)
		return
	}
	// phis
	vals := map[ssa.Value]string{}
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, p := range b.Preds {
			if p == from {
				vals[phi] = e.val(f, phi.Edges[i])
			}
		}
	}
	for k, v := range vals {
		f.env[k] = v
	}
	e.instrs(f, b, e.skipPhi(b), st)
}

func (e *pEval) skipPhi(b *ssa.BasicBlock) int {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	return i
}

// leave continues after the loop: the header is evaluated again with fresh
// loop variables and its exit taken.
func (e *pEval) leave(f *pFrame, h *ssa.BasicBlock, it string, st *pPath) {
	body := natLoop(h)
	g := f.clone()
	for i, l := range g.loop {
		if l == it {
			g.loop = g.loop[:i]
			break
		}
	}
	for _, in := range h.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		g.env[phi] = e.new("after")
		if st.after == nil {
			st.after = map[string]string{}
		}
		st.after[g.env[phi]] = f.env[phi]
	}
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return // an endless loop
	}
	_ = ifi
	for _, s := range h.Succs {
		if !body[s] {
			n := len(st.evs)
			_ = n
			// header instructions have no effect of their own
			for _, in := range h.Instrs[e.skipPhi(h) : len(h.Instrs)-1] {
				e.simple(g, in, st)
			}
			e.block(g, s, h, st)
			return
		}
	}
}

func (e *pEval) instrs(f *pFrame, b *ssa.BasicBlock, i int, st *pPath) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch x := in.(type) {
		case *ssa.If:
			c := e.val(f, x.Cond)
			it, isHead := f.heads[b]
			for k, s := range b.Succs {
				n := st.clone()
				if isHead {
					body := natLoop(b)
					if body[s] && !body[b.Succs[1-k]] {
						lp := n.loops[it]
						lp.cond = c
						n.loops[it] = lp
					} else if !body[s] {
						// the loop does not run: covered by leaving it after the generic iteration
						continue
					}
				}
				if !n.assume(c, k == 0) {
					continue
				}
				g := f.clone()
				// leaving a loop from inside
				for h, hit := range g.heads {
					if h == b {
						continue
					}
					body := natLoop(h)
					if body[b] && !body[s] {
						lp := n.loops[hit]
						lp.left = true
						n.loops[hit] = lp
					}
				}
				e.block(g, s, b, n)
			}
			return
		case *ssa.Jump:
			e.block(f, b.Succs[0], b, st)
			return
		case *ssa.Return:
			var res []string
			for _, r := range x.Results {
				res = append(res, e.val(f, r))
			}
			st.at = x
			f.ret(st, res)
			return
		case *ssa.Panic:
			st.evs = append(st.evs, pEv{op: "panic", in: in})
			st.end, st.at = "panic", x
			e.out = append(e.out, st)
			return
		case *ssa.RunDefers:
			e.runDefers(f, st, func(st *pPath) { e.instrs(f, b, i+1, st) })
			return
		case *ssa.Defer:
			var args []string
			args = append(args, e.val(f, x.Call.Value))
			for _, a := range x.Call.Args {
				args = append(args, e.val(f, a))
			}
			f.defers = append(f.defers, x)
			f.dargs = append(f.dargs, args)
		case *ssa.Go:
			e.event(f, "go", x, st)
		case *ssa.Call:
			if e.call(f, x, e.vals(f, x.Common()), st, func(st *pPath, res []string) {
				g := f.clone()
				e.bind(g, x, res)
				e.instrs(g, b, i+1, st)
			}) {
				return
			}
		default:
			e.simple(f, in, st)
		}
	}
}

func (e *pEval) bind(g *pFrame, x *ssa.Call, res []string) {
	if len(res) == 1 {
		g.env[x] = res[0]
	} else if len(res) > 1 {
		g.env[x] = "tuple(" + strings.Join(res, "\x00") + ")"
	}
}

func (e *pEval) vals(f *pFrame, c *ssa.CallCommon) []string {
	var args []string
	if c.IsInvoke() {
		args = append(args, e.val(f, c.Value))
	}
	for _, a := range c.Args {
		args = append(args, e.val(f, a))
	}
	return args
}

func (e *pEval) runDefers(f *pFrame, st *pPath, k func(*pPath)) {
	if len(f.defers) == 0 {
		k(st)
		return
	}
	n := len(f.defers) - 1
	d, args := f.defers[n], f.dargs[n]
	g := f.clone()
	g.defers, g.dargs = g.defers[:n], g.dargs[:n]
	if !d.Call.IsInvoke() {
		args = args[1:]
	}
	if !e.call(g, d, args, st, func(st *pPath, res []string) { e.runDefers(g, st, k) }) {
		e.runDefers(g, st, k)
	}
}

func snap(m map[string]string) map[string]string {
	r := make(map[string]string, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (e *pEval) event(f *pFrame, op string, x ssa.CallInstruction, st *pPath) *pEv {
	name := callName(x)
	args := e.vals(f, x.Common())
	if !x.Common().IsInvoke() && staticCallee(x) == nil {
		if _, ok := x.Common().Value.(*ssa.Builtin); !ok {
			name = "dyn " + e.val(f, x.Common().Value)
		}
	}
	st.evs = append(st.evs, pEv{op: op, name: name, args: args, in: x, loop: append([]string(nil), f.loop...), mem: snap(st.mem)})
	return &st.evs[len(st.evs)-1]
}

// call: follows the callee (true) or records an event (false).
func (e *pEval) call(f *pFrame, x ssa.CallInstruction, args []string, st *pPath, k func(*pPath, []string)) bool {
	cc := x.Common()
	if bi, ok := cc.Value.(*ssa.Builtin); ok {
		v, _ := x.(ssa.Value)
		switch bi.Name() {
		case "len", "cap":
			if v != nil {
				f.env[v] = bi.Name() + "(" + args[0] + ")"
			}
		case "append":
			if v != nil {
				f.env[v] = "append(" + strings.Join(args, ", ") + ")"
			}
		case "recover":
			if v != nil {
				f.env[v] = "nil"
			}
		default:
			st.evs = append(st.evs, pEv{op: bi.Name(), args: args, in: x, loop: append([]string(nil), f.loop...), mem: snap(st.mem)})
			if v != nil && v.Type() != nil {
				f.env[v] = e.new(bi.Name())
			}
		}
		return false
	}
	g := staticCallee(x)
	var free map[ssa.Value]string
	if g == nil && !cc.IsInvoke() {
		t := e.val(f, cc.Value)
		if mc, ok := e.clos[t]; ok {
			g = mc.Fn.(*ssa.Function)
			free = e.cenv[t]
		} else if strings.HasPrefix(t, "fn:") {
			if fn, ok := cc.Value.(*ssa.Function); ok {
				g = fn
			}
		}
	} else if g != nil && !cc.IsInvoke() {
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			free = e.cenv[e.val(f, mc)]
		}
	}
	if g != nil && len(g.Blocks) > 0 && e.p.inPkg(g, allPkgs...) && f.depth < 12 && (e.inline == nil || e.inline(g) || g.Parent() != nil) {
		e.fn(g, args, free, st, f.depth+1, f.loop, k)
		return true
	}
	ev := e.event(f, "call", x, st)
	ev.args = args
	if v, ok := x.(ssa.Value); ok {
		var r string
		if g != nil && pureCall(g) {
			r = fname(g) + "(" + strings.Join(args, ", ") + ")"
		} else {
			r = e.new("call")
			if cl, ok := x.(*ssa.Call); ok && nonNilErrCtor(cl) {
				r = e.new("err")
			}
		}
		ev.res = r
		if tp, ok := v.Type().(*types.Tuple); ok && tp.Len() > 1 {
			var rs []string
			for i := 0; i < tp.Len(); i++ {
				rs = append(rs, r+"."+strconv.Itoa(i))
			}
			f.env[v] = "tuple(" + strings.Join(rs, "\x00") + ")"
		} else {
			f.env[v] = r
		}
	}
	return false
}

// pureCall: same arguments, same result.
func pureCall(g *ssa.Function) bool {
	if o := g.Object(); o != nil && o.Pkg() != nil {
		switch o.Pkg().Path() {
		case "strings", "strconv", "unicode", "math":
			return true
		}
	}
	return false
}

func (e *pEval) simple(f *pFrame, in ssa.Instruction, st *pPath) {
	switch x := in.(type) {
	case *ssa.Alloc:
		t := e.new("new")
		f.env[x] = t
		el := derefType(x.Type())
		if s, ok := el.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				st.mem[t+"."+s.Field(i).Name()] = zeroTerm(s.Field(i).Type())
			}
		}
		st.mem[t] = zeroTerm(el)
	case *ssa.FieldAddr:
		f.env[x] = e.val(f, x.X) + "." + fieldName(x)
	case *ssa.Field:
		s := structOf(x.X.Type())
		b := e.val(f, x.X)
		if strings.HasPrefix(b, "*") {
			// a copy of a struct: its fields as they were when it was read
			f.env[x] = st.load(b[1:] + "." + s.Field(x.Field).Name())
		} else {
			f.env[x] = b + "." + s.Field(x.Field).Name()
		}
	case *ssa.IndexAddr:
		f.env[x] = e.val(f, x.X) + "[" + e.val(f, x.Index) + "]"
	case *ssa.Index:
		f.env[x] = "*" + e.val(f, x.X) + "[" + e.val(f, x.Index) + "]"
	case *ssa.UnOp:
		v := e.val(f, x.X)
		switch x.Op {
		case token.MUL:
			f.env[x] = st.load(v)
			if g, ok := x.X.(*ssa.Global); ok && isSentinel(g) {
				f.env[x] = "err:" + gname(g)
			}
		case token.NOT:
			f.env[x] = negTerm(v)
		case token.ARROW:
			st.evs = append(st.evs, pEv{op: "recv", args: []string{v}, in: in, loop: append([]string(nil), f.loop...), mem: snap(st.mem)})
			f.env[x] = e.new("recv")
		default:
			f.env[x] = x.Op.String() + v
		}
	case *ssa.Store:
		pl := e.val(f, x.Addr)
		v := e.val(f, x.Val)
		// forget what lies in the place
		for k := range st.mem {
			if strings.HasPrefix(k, pl+".") || strings.HasPrefix(k, pl+"[") {
				delete(st.mem, k)
			}
		}
		if s, ok := x.Val.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				n := s.Field(i).Name()
				switch {
				case v == "zero":
					st.mem[pl+"."+n] = zeroTerm(s.Field(i).Type())
				case strings.HasPrefix(v, "*"):
					st.mem[pl+"."+n] = st.load(v[1:] + "." + n)
				}
			}
		}
		st.mem[pl] = v
		if len(f.loop) > 0 || strings.Contains(pl, "[") {
			st.evs = append(st.evs, pEv{op: "store", args: []string{pl, v}, in: in, loop: append([]string(nil), f.loop...), mem: snap(st.mem)})
		} else {
			st.evs = append(st.evs, pEv{op: "store", args: []string{pl, v}, in: in, mem: nil})
		}
	case *ssa.BinOp:
		a, b := e.val(f, x.X), e.val(f, x.Y)
		switch x.Op {
		case token.EQL:
			f.env[x] = eqTerm(a, b)
		case token.NEQ:
			f.env[x] = negTerm(eqTerm(a, b))
		case token.LSS:
			f.env[x] = "lt{" + a + "}{" + b + "}"
		case token.GTR:
			f.env[x] = "lt{" + b + "}{" + a + "}"
		case token.GEQ:
			f.env[x] = "!lt{" + a + "}{" + b + "}"
		case token.LEQ:
			f.env[x] = "!lt{" + b + "}{" + a + "}"
		default:
			f.env[x] = "(" + a + x.Op.String() + b + ")"
		}
	case *ssa.Extract:
		t := e.val(f, x.Tuple)
		if strings.HasPrefix(t, "tuple(") {
			parts := strings.Split(t[6:len(t)-1], "\x00")
			if x.Index < len(parts) {
				f.env[x] = parts[x.Index]
				return
			}
		}
		f.env[x] = t + "." + strconv.Itoa(x.Index)
	case *ssa.MakeInterface:
		f.env[x] = e.val(f, x.X)
	case *ssa.ChangeInterface:
		f.env[x] = e.val(f, x.X)
	case *ssa.ChangeType:
		f.env[x] = e.val(f, x.X)
	case *ssa.Convert:
		v := e.val(f, x.X)
		if isConstTerm(v) || isIntish(x.Type()) && isIntish(x.X.Type()) {
			f.env[x] = v
		} else {
			f.env[x] = tname(x.Type()) + "(" + v + ")"
		}
	case *ssa.TypeAssert:
		v := e.val(f, x.X)
		if x.CommaOk {
			f.env[x] = "tuple(" + v + ".(" + tname(x.AssertedType) + ")\x00ok(" + v + ".(" + tname(x.AssertedType) + ")))"
		} else {
			f.env[x] = v + ".(" + tname(x.AssertedType) + ")"
		}
	case *ssa.MakeClosure:
		t := e.new("closure")
		f.env[x] = t
		e.clos[t] = x
		fe := map[ssa.Value]string{}
		for i, b := range x.Bindings {
			fe[x.Fn.(*ssa.Function).FreeVars[i]] = e.val(f, b)
		}
		e.cenv[t] = fe
	case *ssa.MakeChan:
		t := e.new("mkchan")
		f.env[x] = t
		st.mem["cap:"+t] = e.val(f, x.Size)
	case *ssa.MakeMap:
		f.env[x] = e.new("mkmap")
	case *ssa.MakeSlice:
		t := e.new("mkslice")
		f.env[x] = t
		st.mem["len:"+t] = e.val(f, x.Len)
	case *ssa.Slice:
		v := e.val(f, x.X)
		if x.Low != nil || x.High != nil || x.Max != nil {
			o := func(v ssa.Value) string {
				if v == nil {
					return ""
				}
				return e.val(f, v)
			}
			v = v + "[" + o(x.Low) + ":" + o(x.High) + "]"
		}
		f.env[x] = v
	case *ssa.Lookup:
		t := e.val(f, x.X) + "[" + e.val(f, x.Index) + "]"
		if x.CommaOk {
			f.env[x] = "tuple(*" + t + "\x00has(" + t + "))"
		} else {
			f.env[x] = "*" + t
		}
	case *ssa.MapUpdate:
		st.evs = append(st.evs, pEv{op: "mapset", args: []string{e.val(f, x.Map), e.val(f, x.Key), e.val(f, x.Value)}, in: in, loop: append([]string(nil), f.loop...), mem: snap(st.mem)})
	case *ssa.Send:
		st.evs = append(st.evs, pEv{op: "send", args: []string{e.val(f, x.Chan), e.val(f, x.X)}, in: in, loop: append([]string(nil), f.loop...), mem: snap(st.mem)})
	case *ssa.Range:
		f.env[x] = "range(" + e.val(f, x.X) + ")"
	case *ssa.Next:
		t := e.val(f, x.Iter)
		id := e.new("next")
		f.env[x] = "tuple(more(" + id + ")\x00key(" + t + "," + id + ")\x00val(" + t + "," + id + "))"
	case *ssa.Select:
		id := e.new("select")
		var as []string
		for _, s := range x.States {
			d := "recv:"
			if s.Dir == types.SendOnly {
				d = "send:"
			}
			as = append(as, d+e.val(f, s.Chan))
		}
		if !x.Blocking {
			as = append(as, "default")
		}
		st.evs = append(st.evs, pEv{op: "select", args: as, in: in, res: id, loop: append([]string(nil), f.loop...), mem: snap(st.mem)})
		f.env[x] = id
	case *ssa.DebugRef:
	case *ssa.Phi:
	default:
		if v, ok := in.(ssa.Value); ok {
			f.env[v] = e.new("?")
		}
	}
}

var _ = constant.MakeInt64
