package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T02",
		"every function of trie that saves nodes is explored path by path: a node is saved under its own computed hash with exactly the bytes its encoding wrote to an emptied buffer, its value under its own value hash with the bytes that were hashed, children are all visited and saved before their parent, the dirty mark is taken away only after the node and its value have been saved, and success is reported only then; every committing operation starts at the root of its tree",
		"that the hash covers the encoding and the store keeps what it accepted; a node counts as saved when the tree has no store, is empty or is not dirty (T03 keeps the dirty marks)",
		checkCommit)
}

// savesNodes: f calls Save on a DataAdapter.
func savesDirectly(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && isAdapterSave(call) {
				return true
			}
		}
	}
	return false
}

func isAdapterSave(call ssa.CallInstruction) bool {
	cc := call.Common()
	return cc.IsInvoke() && cc.Method.Name() == "Save" && len(cc.Args) == 2
}

// arrayIndex: the comparison decides whether a loop over an array of n elements goes on.
// It returns whether "taken" continues the loop.
func fullLoop(b *ssa.BinOp, n int64) (goesOn func(taken bool) bool, full bool, ok bool) {
	x, op := b.X, b.Op
	k, isC := constInt(b.Y)
	if !isC {
		if k2, c2 := constInt(b.X); c2 {
			k, isC, x = k2, true, b.Y
			switch op {
			case token.GTR:
				op = token.LSS
			case token.LSS:
				op = token.GTR
			case token.GEQ:
				op = token.LEQ
			case token.LEQ:
				op = token.GEQ
			}
		}
	}
	if !isC || !isIntish(x.Type()) {
		return nil, false, false
	}
	isIdx := false
	switch v := x.(type) {
	case *ssa.Phi:
		isIdx = true
		for _, e := range v.Edges {
			if _, c := constInt(e); !c {
				if bo, ok := e.(*ssa.BinOp); !ok || bo.X != ssa.Value(v) {
					isIdx = false
				}
			}
		}
	case *ssa.BinOp:
		if p, ok := v.X.(*ssa.Phi); ok && v.Op == token.ADD {
			for _, e := range p.Edges {
				if e == ssa.Value(v) {
					isIdx = true
				}
			}
		}
	}
	if !isIdx {
		return nil, false, false
	}
	// only loop conditions, not comparisons of the index inside the loop
	if !loopCond(b) {
		return nil, false, false
	}
	switch op {
	case token.LSS:
		return func(t bool) bool { return t }, k == n && fullForward(x), true
	case token.LEQ:
		return func(t bool) bool { return t }, k == n-1 && fullForward(x), true
	case token.NEQ:
		return func(t bool) bool { return t }, k == n && fullForward(x), true
	case token.GEQ:
		if backward(x, n-1) {
			return func(t bool) bool { return t }, k == 0, true
		}
		return func(t bool) bool { return !t }, k == n && fullForward(x), true
	case token.GTR:
		if backward(x, n-1) {
			return func(t bool) bool { return t }, k == -1, true
		}
		return func(t bool) bool { return !t }, k == n-1 && fullForward(x), true
	case token.EQL:
		return func(t bool) bool { return !t }, k == n && fullForward(x), true
	}
	return nil, false, false
}

func backward(v ssa.Value, start int64) bool {
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	for _, e := range p.Edges {
		if k, ok := constInt(e); ok && k == start {
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.X != ssa.Value(p) {
			return false
		}
		k, _ := constInt(b.Y)
		if !(b.Op == token.SUB && k == 1 || b.Op == token.ADD && k == -1) {
			return false
		}
	}
	return true
}

// loopCond: the If on this comparison has one successor that cannot come back to it.
func loopCond(b *ssa.BinOp) bool {
	blk := b.Block()
	ifi, ok := blk.Instrs[len(blk.Instrs)-1].(*ssa.If)
	if !ok || ifi.Cond != ssa.Value(b) {
		return false
	}
	back := func(s *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		var dfs func(x *ssa.BasicBlock) bool
		dfs = func(x *ssa.BasicBlock) bool {
			if x == blk {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for _, y := range x.Succs {
				if dfs(y) {
					return true
				}
			}
			return false
		}
		return dfs(s)
	}
	return back(blk.Succs[0]) != back(blk.Succs[1])
}

func checkCommit(c *Ctx) {
	ks := trieKinds(c)
	if ks == nil {
		return
	}
	nk, tk := ks[0], ks[1]
	direct := map[*ssa.Function]bool{}
	for _, f := range c.p.funcsIn("trie") {
		if savesDirectly(f) && !hasLoad(f) && nodeParam(f, ks) >= 0 {
			direct[f] = true
		}
	}
	reach := callersClosure(c.p, direct)
	for f := range direct {
		reach[f] = true
	}
	// the recursive walkers
	var walkers []*ssa.Function
	for _, f := range c.p.funcsIn("trie") {
		if reach[f] && nodeParam(f, ks) >= 0 && inCycle(f) {
			walkers = append(walkers, f)
		}
	}
	isWalker := map[*ssa.Function]bool{}
	for _, w := range walkers {
		isWalker[w] = true
	}
	for _, w := range walkers {
		k := nk
		if namedOf(w.Params[nodeParam(w, ks)].Type()) == tk.t {
			k = tk
		}
		commitWalk(c, w, k, ks, isWalker, reach)
	}
	// entries: every other function that saves
	for _, f := range c.p.funcsIn("trie") {
		if isWalker[f] || !reach[f] || f.Signature.Recv() == nil {
			continue
		}
		n := recvNamed(f)
		if n == nil || fieldIndex(n, "root") < 0 || !strings.HasPrefix(f.Name(), "Commit") {
			continue
		}
		commitEntry(c, f, ks, isWalker, reach)
	}
	c.min("save-key", 4)
	c.min("save-bytes", 4)
	c.min("children", 2)
	c.min("clean", 2)
	c.min("saved", 2)
	c.min("entry", 4)
}

func fieldIndex(n *types.Named, f string) int {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == f {
			return i
		}
	}
	return -1
}

// inCycle: f can call itself through functions of its package.
func inCycle(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var dfs func(g *ssa.Function) bool
	dfs = func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if h := staticCallee(call); h != nil && fnPkg(h) == fnPkg(f) {
						if h == f {
							return true
						}
						if !seen[h] && h.Blocks != nil {
							seen[h] = true
							if dfs(h) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	return dfs(f)
}

func commitWalk(c *Ctx, w *ssa.Function, k *nodeKind, ks []*nodeKind, isWalker, reach map[*ssa.Function]bool) {
	pi := nodeParam(w, ks)
	N := "p" + string(rune('0'+pi))
	childF := "children"
	if k == ks[1] {
		childF = "Children"
	}
	a := &auto{p: c.p}
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
		if fnPkg(callee) != fnPkg(w) || isWalker[callee] {
			return false
		}
		return reach[callee] || len(callee.Blocks) == 1 && callee.Signature.Results().Len() == 1 && isBool(callee.Signature.Results().At(0).Type())
	}
	isHash := func(d string) bool { return hashTerm(d, N) }
	bufTerm := func(e *Engine, st *State, v VV) string {
		r := e.res(st, v)
		if mi, ok := r.v.(*ssa.MakeInterface); ok {
			r = e.res(st, VV{r.fr, mi.X})
		}
		return e.desc(st, r)
	}
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		cc := call.Common()
		if isAdapterSave(call) {
			key := e.desc(st, VV{fr, cc.Args[0]})
			val := e.desc(st, VV{fr, cc.Args[1]})
			where := fname(w)
			if strings.HasPrefix(key, "x0(") && strings.HasSuffix(key, "valueHash("+N+"))") {
				c.ob("save-key", where+" value")
				c.ob("save-bytes", where+" value")
				if val != "x1"+key[2:] {
					c.fail("save-bytes", where+" value", c.p.ipos(call), "saves %s under the value hash: not the bytes that were hashed", val)
				}
				return e.errSplit(st.tag("savedvalue"), st, fr, call)
			}
			c.ob("save-key", where+" node")
			if !isHash(key) {
				c.fail("save-key", where+" node", c.p.ipos(call), "saves under key %s, which is not the hash of the node %s", key, N)
			}
			c.ob("save-bytes", where+" node")
			okB := false
			for _, b := range tagsWith(st.C, "enc|") {
				if val == "(*bytes.Buffer).Bytes("+b+")" {
					okB = true
				}
			}
			if !okB {
				c.fail("save-bytes", where+" node", c.p.ipos(call), "the saved bytes %s are not (only) the encoding of the node: %s", val, st.trace())
			}
			c.ob("children", where)
			if !hasTag(st.C, "walked") && !hasTag(st.C, "leaf") {
				c.fail("children", where+" order", c.p.ipos(call), "the node is saved before all of its children: %s", st.trace())
			}
			n := st.tag("savednode")
			return e.errSplit(n, st, fr, call)
		}
		g := e.callee(fr, call)
		if g != nil && isWalker[g] {
			arg := e.desc(st, VV{fr, cc.Args[nodeParam(g, ks)]})
			if strings.HasPrefix(arg, N+"."+childF+"[") {
				return e.errSplit(st.tag("vis"), st, fr, call)
			}
			return nil
		}
		pkg, name := calleePkgName(call)
		args := callArgs(call)
		// buffers
		if strings.HasSuffix(pkg, "bytes") && name == "Reset" {
			b := bufTerm(e, st, VV{fr, args[0]})
			return []*State{st.withC(addTag(delTag(st.C, func(x string) bool { return x == "enc|"+b || x == "dirtybuf|"+b }), "empty|"+b))}
		}
		isW := -1 // which argument is a writer receiving an encoding
		var src string
		switch {
		case strings.HasSuffix(pkg, "go-rtl") && name == "Encode" && len(args) == 2:
			isW, src = 1, bufTerm(e, st, VV{fr, args[0]})
		case g != nil && recvNamed(g) == k.t && len(args) >= 2 && isWriter(args[1].Type()):
			isW, src = 1, e.desc(st, VV{fr, args[0]})
		case strings.HasSuffix(pkg, "bytes") && strings.HasPrefix(name, "Write"):
			b := bufTerm(e, st, VV{fr, args[0]})
			if !strings.Contains(b, "BytesBufferPool") && !strings.HasPrefix(b, "new:bytes.Buffer") {
				return nil
			}
			d := e.desc(st, VV{fr, args[1]})
			if strings.HasPrefix(d, "c:") && !hasTag(st.C, "enc|"+b) {
				return nil // a constant header
			}
			return []*State{st.withC(addTag(delTag(st.C, func(x string) bool { return x == "enc|"+b || x == "empty|"+b }), "dirtybuf|"+b))}
		}
		if isW >= 0 {
			b := bufTerm(e, st, VV{fr, args[isW]})
			okSrc := src == N || src == "*"+N || strings.HasPrefix(src, "x0((*trie.TreeNode).") && strings.HasSuffix(src, "("+N+"))") || strings.HasPrefix(src, N+".")
			fresh := strings.HasPrefix(b, "new:bytes.Buffer") && !hasTag(st.C, "dirtybuf|"+b) && !hasTag(st.C, "enc|"+b) || hasTag(st.C, "empty|"+b)
			bad := st.withC(addTag(delTag(st.C, func(x string) bool { return x == "enc|"+b || x == "empty|"+b }), "dirtybuf|"+b))
			good := bad
			if okSrc && fresh && !hasTag(st.C, "dirtybuf|"+b) {
				good = st.withC(addTag(delTag(st.C, func(x string) bool { return x == "empty|"+b }), "enc|"+b))
			}
			return e.errSplit(good, bad, fr, call)
		}
		return nil
	}
	a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
		r := e.res(st, VV{fr, cond})
		for {
			u, ok := r.v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			r = e.res(st, VV{r.fr, u.X})
			taken = !taken
		}
		b, isB := r.v.(*ssa.BinOp)
		if isB && (b.Op == token.EQL || b.Op == token.NEQ) {
			if v, isC := constBool(b.Y); isC {
				if v == (b.Op == token.NEQ) {
					taken = !taken
				}
				r = e.res(st, VV{r.fr, b.X})
				isB = false
			}
		}
		if !isB {
			d := e.desc(st, r)
			dirty := func(x string) bool {
				return d == x+".dirty" || d == x+".isDirty" || strings.HasSuffix(d, ".isDirty("+x+")")
			}
			switch {
			case dirty(N) && !taken:
				return st.tag("clean")
			case strings.HasPrefix(d, N+"."+childF+"[") && (strings.HasSuffix(d, "].isDirty") || strings.HasSuffix(d, "].dirty")) && !taken:
				return st.tag("vis")
			case strings.Contains(d, ".isDirty("+N+"."+childF+"[") && !taken:
				return st.tag("vis")
			case d == N+".isLeaf" && taken:
				return st.tag("leaf")
			}
			return st
		}
		if on, full, ok := fullLoop(b, 16); ok && touchesChildren(b, childF) {
			if fr.parent == nil || callsAny(fr.fn, isWalker) {
				if !callsAny(fr.fn, isWalker) {
					return st
				}
				if !full {
					c.fail("children", fname(w)+" range", c.p.ipos(b), "not all children are visited")
				}
				if hasTag(st.C, "iter") && !hasTag(st.C, "vis") {
					c.fail("children", fname(w)+" skipped", c.p.ipos(b), "a child is passed over without being saved: %s", st.trace())
				}
				n := st.withC(delTag(st.C, func(x string) bool { return x == "vis" || x == "iter" }))
				if on(taken) {
					return n.tag("iter")
				}
				return n.tag("walked")
			}
		}
		d := e.desc(st, VV{r.fr, b.X})
		if constNil(b.Y) && (b.Op == token.EQL || b.Op == token.NEQ) {
			isNil := taken == (b.Op == token.EQL)
			if !isNil {
				return st
			}
			if n := namedOf(b.X.Type()); n != nil && n.Obj().Name() == "DataAdapter" {
				if strings.Contains(d, "value") {
					return st.tag("novalue")
				}
				return st.tag("nostore")
			}
			switch {
			case strings.HasPrefix(d, N+"."+childF+"[") && strings.HasSuffix(d, "]"):
				return st.tag("vis")
			case d == N || isHash(d):
				return st.tag("nothing")
			case strings.HasPrefix(d, "x0(") && strings.HasSuffix(d, "valueHash("+N+"))"):
				return st.tag("novalue")
			}
			return st
		}
		// len(valuehash) against HashLength: too short to be stored
		if strings.HasPrefix(d, "len(x0(") && strings.HasSuffix(d, "valueHash("+N+")))") {
			if kk, ok := constInt(b.Y); ok {
				short := b.Op == token.GEQ && kk == 32 && !taken || b.Op == token.LSS && kk == 32 && taken || b.Op == token.GTR && kk <= 31 && !taken || b.Op == token.EQL && kk == 0 && taken || b.Op == token.NEQ && kk == 0 && !taken
				if short {
					return st.tag("novalue")
				}
			}
		}
		return st
	}
	hasValues := k == ks[0]
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		s, ok := in.(*ssa.Store)
		if !ok {
			return nil
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || namedOf(fa.X.Type()) != k.t {
			return nil
		}
		f := fieldName(fa)
		if f != "dirty" && f != "isDirty" {
			return nil
		}
		if v, ok := constBool(s.Val); ok && v {
			return nil
		}
		b := e.desc(st, VV{fr, fa.X})
		c.ob("clean", fname(w))
		okN := hasTag(st.C, "savednode") || hasTag(st.C, "nostore") || hasTag(st.C, "nothing") || hasTag(st.C, "clean")
		okV := !hasValues || hasTag(st.C, "savedvalue") || hasTag(st.C, "novalue")
		if b != N || !okN || !okV {
			c.fail("clean", fname(w), c.p.ipos(in), "node %s is marked as saved before it and its value have been: %s", b, st.trace())
		}
		return nil
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if e.errResult(st, fr, ret) == 'V' {
			return
		}
		c.ob("saved", fname(w))
		if hasTag(st.C, "clean") && k == ks[1] || e.Fact(st, VV{fr, w.Params[pi]}).k == 'N' {
			return
		}
		if !hasTag(st.C, "walked") && !hasTag(st.C, "leaf") {
			c.fail("children", fname(w)+" exit", c.p.ipos(ret), "success is reported without visiting the children: %s", st.trace())
		}
		if hasTag(st.C, "clean") {
			return
		}
		if !hasTag(st.C, "savednode") && !hasTag(st.C, "nostore") && !hasTag(st.C, "nothing") {
			c.fail("saved", fname(w), c.p.ipos(ret), "success is reported although the dirty node was not saved: %s", st.trace())
		}
		if hasValues && !hasTag(st.C, "savedvalue") && !hasTag(st.C, "novalue") && !hasTag(st.C, "nothing") {
			c.fail("saved", fname(w)+" value", c.p.ipos(ret), "success is reported although the value of the dirty node was not saved: %s", st.trace())
		}
	}
	a.run(c, "saved", w, "")
}

func isWriter(t types.Type) bool {
	i, ok := t.Underlying().(*types.Interface)
	if !ok {
		return false
	}
	for j := 0; j < i.NumMethods(); j++ {
		if i.Method(j).Name() == "Write" {
			return true
		}
	}
	return false
}

func callsAny(f *ssa.Function, set map[*ssa.Function]bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := staticCallee(call); g != nil && set[g] {
					return true
				}
			}
		}
	}
	return false
}

// touchesChildren: the loop governed by b indexes the children array with its index.
func touchesChildren(b *ssa.BinOp, childF string) bool {
	idx := b.X
	if _, ok := constInt(idx); ok {
		idx = b.Y
	}
	if idx.Referrers() == nil {
		return false
	}
	for _, r := range *idx.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && ia.Index == idx {
			if fa, ok := ia.X.(*ssa.FieldAddr); ok && fieldName(fa) == childF {
				return true
			}
			if al, ok := ia.X.(*ssa.Alloc); ok {
				if u, ok := singleStore(al).(*ssa.UnOp); ok {
					if fa, ok := u.X.(*ssa.FieldAddr); ok && fieldName(fa) == childF {
						return true
					}
				}
			}
		}
		if ia, ok := r.(*ssa.Index); ok && ia.Index == idx {
			return true
		}
	}
	return false
}

// hashTerm: d is the hash computed for the whole node N.
func hashTerm(d, N string) bool {
	if !strings.HasPrefix(d, "x0(") || !strings.HasSuffix(d, "))") {
		return false
	}
	in := d[3 : len(d)-1]
	i := strings.LastIndex(in, ").")
	j := strings.Index(in, "("+N)
	if i < 0 || j < 0 {
		return false
	}
	m := in[i+2 : j]
	switch m {
	case "HashValue":
		return in[j:] == "("+N+")"
	case "HashAtPrefix":
		return in[j:] == "("+N+",nil)"
	}
	return false
}

func commitEntry(c *Ctx, f *ssa.Function, ks []*nodeKind, isWalker, reach map[*ssa.Function]bool) {
	a := &auto{p: c.p}
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
		return fnPkg(callee) == fnPkg(f) && !isWalker[callee] && reach[callee]
	}
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		g := e.callee(fr, call)
		if g == nil || !isWalker[g] {
			return nil
		}
		d := e.desc(st, VV{fr, call.Common().Args[nodeParam(g, ks)]})
		if !strings.HasSuffix(d, ".root") {
			return nil
		}
		return e.errSplit(st.tag("root"), st, fr, call)
	}
	a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
		r := e.res(st, VV{fr, cond})
		if b, ok := r.v.(*ssa.BinOp); ok && constNil(b.Y) && (b.Op == token.EQL || b.Op == token.NEQ) && taken == (b.Op == token.EQL) {
			d := e.desc(st, VV{r.fr, b.X})
			if strings.HasSuffix(d, ".root") || d == "p0" {
				return st.tag("nothing")
			}
		}
		return st
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if e.errResult(st, fr, ret) == 'V' {
			return
		}
		c.ob("entry", fname(f))
		if !hasTag(st.C, "root") && !hasTag(st.C, "nothing") {
			c.fail("entry", fname(f), c.p.ipos(ret), "success is reported without saving the tree from its root: %s", st.trace())
		}
	}
	a.run(c, "entry", f, "")
}
