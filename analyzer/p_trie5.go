package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T07",
		"the recursive functions of the trie that walk down by key (found by their signature: node, key nibbles, offset) are explored path by path with linear terms for positions: the value of an existing node is returned, set or removed only where both the node's prefix and the key are used up; the walk goes down only where the node's prefix is used up, to the child of the key's next nibble, with the offset advanced past prefix and nibble; new nodes are linked where the remaining nibbles put them; walks start at the root with the whole key",
		"that matching a prefix (matchPrefix) and splitting a key into nibbles (keyToPrefix) compute what they say",
		checkWalk)
	register("T08",
		"every call that changes the value of a trie node is followed path by path: its count delta is added exactly once to the trie's value count; the delta itself is +1, -1 or 0 exactly as the old and the new value are absent or present; clones and rebased copies take the count over",
		"a trie opened from a root hash counts from zero (documented by the code: the count is not stored)",
		checkCount)
}

// keyWalkers: methods with a trie node, a byte slice and an int parameter that can call themselves.
func keyWalkers(c *Ctx, nk *nodeKind) (ws []*ssa.Function) {
	for _, f := range c.p.funcsIn("trie") {
		if f.Parent() != nil || f.Signature.Recv() == nil || !inCycle(f) {
			continue
		}
		if n := recvNamed(f); n == nil || fieldIndex(n, "root") < 0 || fieldIndex(n, "valueCount") < 0 {
			continue
		}
		ni, bi, oi := walkParams(f, nk)
		if ni > 0 && bi > 0 && oi > 0 {
			ws = append(ws, f)
		}
	}
	return
}

func walkParams(f *ssa.Function, nk *nodeKind) (ni, bi, oi int) {
	ni, bi, oi = -1, -1, -1
	for i, p := range f.Params {
		if i == 0 {
			continue
		}
		switch t := p.Type().Underlying().(type) {
		case *types.Pointer:
			if namedOf(p.Type()) == nk.t && ni < 0 {
				ni = i
			}
		case *types.Slice:
			if b, ok := t.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && bi < 0 {
				bi = i
			}
		case *types.Basic:
			if t.Kind() == types.Int && oi < 0 {
				oi = i
			}
		}
	}
	return
}

func pdesc(i int) string { return "p" + itoa(int64(i)) }

func checkWalk(c *Ctx) {
	ks := trieKinds(c)
	if ks == nil {
		return
	}
	nk := ks[0]
	ws := keyWalkers(c, nk)
	isW := map[*ssa.Function]bool{}
	for _, w := range ws {
		isW[w] = true
	}
	setters := valueSetters(c, nk)
	for _, w := range ws {
		walkOne(c, w, nk, isW, setters)
	}
	// entries
	for _, f := range c.p.funcsIn("trie") {
		if isW[f] || !callsAny(f, isW) {
			continue
		}
		f := f
		// a pass-through wrapper hands its own parameters on
		a := &auto{p: c.p}
		a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool { return false }
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			g := e.callee(fr, call)
			if g == nil || !isW[g] {
				return nil
			}
			ni, bi, oi := walkParams(g, nk)
			args := call.Common().Args
			n, k, o := e.desc(st, VV{fr, args[ni]}), e.desc(st, VV{fr, args[bi]}), e.desc(st, VV{fr, args[oi]})
			c.ob("walk-start", fname(f))
			mi, mb, mo := walkParams(f, nk)
			if mi > 0 && n == pdesc(mi) && k == pdesc(mb) && o == pdesc(mo) {
				isWrapper(c, f, isW)
				return nil
			}
			if !(strings.HasSuffix(n, ".root") && strings.HasPrefix(k, "trie.keyToPrefix(p") && o == "c:0") {
				c.fail("walk-start", fname(f), c.p.ipos(call), "walks from %s with key %s at %s, not from the root with the whole key", n, k, o)
			}
			return nil
		}
		a.run(c, "walk-start", f, "")
	}
	c.min("hit", 5)
	c.min("descend", 3)
	c.min("new-node", 3)
	c.min("walk-start", 4)
	c.check(len(ws) >= 3, "scope", "key walkers", "", "found %d functions walking by key, expected at least 3", len(ws))
}

func isWrapper(c *Ctx, f *ssa.Function, isW map[*ssa.Function]bool) {
	// its own callers are checked by treating it as a walker entry
	ni, bi, oi := walkParams(f, trieKinds(c)[0])
	for _, g := range c.p.funcsIn("trie") {
		if g == f || isW[g] {
			continue
		}
		g := g
		if !callsAny(g, map[*ssa.Function]bool{f: true}) {
			continue
		}
		a := &auto{p: c.p}
		a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool { return false }
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			if e.callee(fr, call) != f {
				return nil
			}
			args := call.Common().Args
			n, k, o := e.desc(st, VV{fr, args[ni]}), e.desc(st, VV{fr, args[bi]}), e.desc(st, VV{fr, args[oi]})
			c.ob("walk-start", fname(g))
			if !(strings.HasSuffix(n, ".root") && strings.HasPrefix(k, "trie.keyToPrefix(p") && o == "c:0") {
				c.fail("walk-start", fname(g), c.p.ipos(call), "walks from %s with key %s at %s, not from the root with the whole key", n, k, o)
			}
			return nil
		}
		a.run(c, "walk-start", g, "")
	}
}

// valueSetters: methods of the node that store the parameter as its value.
func valueSetters(c *Ctx, nk *nodeKind) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range c.p.funcsIn("trie") {
		if recvNamed(f) != nk.t {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "value" && fa.X == ssa.Value(f.Params[0]) && len(f.Params) > 1 && s.Val == ssa.Value(f.Params[1]) {
						out[f] = true
					}
				}
			}
		}
	}
	return out
}

func smallFn(f *ssa.Function) bool {
	n := 0
	for _, b := range f.Blocks {
		n += len(b.Instrs)
	}
	return n <= 12 && len(f.Blocks) <= 3
}

func walkOne(c *Ctx, w *ssa.Function, nk *nodeKind, isW, setters map[*ssa.Function]bool) {
	ni, bi, oi := walkParams(w, nk)
	N, K, O := pdesc(ni), pdesc(bi), pdesc(oi)
	a := &auto{p: c.p}
	isPoint := func(g *ssa.Function) bool { return g.Name() == "createNode" || g.Name() == "setPrefix" }
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
		if fnPkg(callee) != fnPkg(w) || isW[callee] || setters[callee] || callee.Name() == "matchPrefix" || callee.Name() == "setChild" || callee.Name() == "createNode" || strings.HasPrefix(callee.Name(), "chopPrefix") || hasLoad(callee) {
			return false
		}
		if callsAny(callee, setters) && recvNamed(callee) == recvNamed(w) || callee.Signature.Recv() == nil && callsAny(callee, setters) {
			return true
		}
		return smallFn(callee) && !isPoint(callee)
	}
	atom := func(s string) lin { l := newLin(0); l.at[s] = 1; return l }
	klen := atom("len(" + K + ")")
	off := atom(O)
	plen := atom("len(" + N + ".prefix)")
	match := func(st *State) (lin, bool) {
		for _, m := range tagsWith(st.C, "M|") {
			return atom(m), true
		}
		return lin{}, false
	}
	// prefix used up / key used up
	prefixDone := func(st *State) bool {
		if isZero(st, plen) {
			return true
		}
		m, ok := match(st)
		return ok && isZeroBounded(st, plen.plus(m, -1))
	}
	keyDone := func(st *State) bool {
		if isGE(st, off.plus(klen, -1)) && isZero(st, plen) {
			return true
		}
		m, ok := match(st)
		return ok && isZeroBounded(st, klen.plus(off, -1).plus(m, -1))
	}
	exact := func(st *State) bool { return prefixDone(st) && keyDone(st) }
	next := func(st *State) (lin, bool) { // position of the key's next nibble
		m, ok := match(st)
		if !ok {
			return off, prefixDone(st)
		}
		return off.plus(m, 1), true
	}
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		g := e.callee(fr, call)
		if g == nil {
			return nil
		}
		args := call.Common().Args
		if g.Name() == "matchPrefix" {
			// the match of this node's prefix against the rest of the key
			var seq, px string
			if recvNamed(g) == nk.t {
				seq, px = e.seqTerm(st, VV{fr, args[1]}), e.desc(st, VV{fr, args[0]})+".prefix"
			} else {
				px, seq = e.desc(st, VV{fr, args[0]}), e.seqTerm(st, VV{fr, args[1]})
			}
			if px == N+".prefix" && seq == K+"["+off.String()+":]" {
				return []*State{st.tag("M|" + e.desc(st, VV{fr, call.(ssa.Value)}))}
			}
			return nil
		}
		where := fname(w)
		switch {
		case isW[g]:
			gi, gb, gof := walkParams(g, nk)
			c.ob("descend", where)
			pos, ok := next(st)
			if !ok || !prefixDone(st) {
				c.fail("descend", where, c.p.ipos(call), "goes down to a child although the key leaves the node's prefix: %s", st.trace())
			}
			child := e.childTerm(st, VV{fr, args[gi]})
			want := N + ".children[1*" + K + "[" + pos.String() + "]+0]"
			if child != want {
				c.fail("descend", where+" child", c.p.ipos(call), "goes down to %s, not to the child of the key's next nibble: %s", child, st.trace())
			}
			o := e.linOf(st, VV{fr, args[gof]})
			if k := e.seqTerm(st, VV{fr, args[gb]}); o.String() == newLin(0).String() && k == K+"["+pos.plus(newLin(1), 1).String()+":]" {
				return []*State{st.tag("descended")} // the rest of the key as a key of its own
			}
			if k := e.desc(st, VV{fr, args[gb]}); k != K {
				c.fail("descend", where+" key", c.p.ipos(call), "goes down with key %s", k)
			}
			if o.String() != pos.plus(newLin(1), 1).String() {
				c.fail("descend", where+" offset", c.p.ipos(call), "goes down with offset %s, want %s", o, pos.plus(newLin(1), 1))
			}
			return []*State{st.tag("descended")}
		case setters[g]:
			n := e.desc(st, VV{fr, args[0]})
			if n == N {
				c.ob("hit", where+" set")
				if !exact(st) && !(hasTag(st.C, "empty") && hasTag(st.C, "placed")) {
					c.fail("hit", where+" set", c.p.ipos(call), "changes the value of a node the key does not lead to exactly: %s", st.trace())
				}
				return nil
			}
			c.ob("new-node", where)
			if !hasTag(st.C, "at|"+n) {
				c.fail("new-node", where, c.p.ipos(call), "the value goes to node %s, which does not stand where the key leads: %s", n, st.trace())
			}
			return nil
		case g.Name() == "setPrefix" && recvNamed(g) == nk.t:
			if e.desc(st, VV{fr, args[0]}) == N {
				if e.seqTerm(st, VV{fr, args[1]}) == K+"["+off.String()+":]" && hasTag(st.C, "empty") {
					return []*State{st.tag("placed")}
				}
				c.fail("new-node", where+" prefix", c.p.ipos(call), "gives the node the prefix %s: %s", e.seqTerm(st, VV{fr, args[1]}), st.trace())
			}
		case g.Name() == "createNode":
			id := e.desc(st, VV{fr, call.(ssa.Value)})
			par := e.desc(st, VV{fr, args[1]})
			seq := e.seqTerm(st, VV{fr, args[2]})
			pos, ok := next(st)
			if !ok {
				return nil
			}
			rest := K + "[" + pos.plus(newLin(1), 1).String() + ":]"
			idx := e.linOf(st, VV{fr, args[3]})
			isNext := idx.String() == "1*"+K+"["+pos.String()+"]+0"
			switch {
			case par == N && isNext && seq == rest && prefixDone(st):
				return []*State{st.tag("at|" + id)}
			case hasTag(st.C, "split|"+par) && isNext && seq == rest:
				return []*State{st.tag("at|" + id)}
			case len(idx.at) == 0 && idx.k < 0 && seq == K+"["+off.String()+":"+pos.String()+"]":
				n := st.tag("split|" + id)
				return []*State{n}
			}
			c.fail("new-node", where+" position", c.p.ipos(call), "creates a node with prefix %s at child %s of %s: %s", seq, idx, par, st.trace())
		case g.Name() == "setChild":
			par := e.desc(st, VV{fr, args[0]})
			ch := e.desc(st, VV{fr, args[2]})
			idx := e.linOf(st, VV{fr, args[1]})
			m, ok := match(st)
			switch {
			case hasTag(st.C, "split|"+par) && ch == N:
				c.ob("new-node", where+" split")
				if !ok || idx.String() != "1*"+N+".prefix["+m.String()+"]+0" || hasTag(st.C, "chopped") {
					c.fail("new-node", where+" split", c.p.ipos(call), "the split node is linked at child %s: %s", idx, st.trace())
				}
				return []*State{st.tag("linked")}
			case par == N:
				c.ob("descend", where+" link")
				pos, _ := next(st)
				if idx.String() != "1*"+K+"["+pos.String()+"]+0" {
					c.fail("descend", where+" link", c.p.ipos(call), "links the changed child at %s, not at the key's next nibble: %s", idx, st.trace())
				}
			}
		case strings.HasPrefix(g.Name(), "chopPrefix"):
			m, ok := match(st)
			c.ob("new-node", where+" chop")
			if e.desc(st, VV{fr, args[0]}) != N || !ok || g.Name() != "chopPrefixHead" || e.linOf(st, VV{fr, args[1]}).String() != m.plus(newLin(1), 1).String() {
				c.fail("new-node", where+" chop", c.p.ipos(call), "cuts the prefix of the split node at the wrong place: %s", st.trace())
			}
			return []*State{st.tag("chopped")}
		}
		return nil
	}
	a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
		r := e.res(st, VV{fr, cond})
		for {
			u, ok := r.v.(*ssa.UnOp)
			if !ok || u.Op != token.NOT {
				break
			}
			r = e.res(st, VV{r.fr, u.X})
			taken = !taken
		}
		switch b := r.v.(type) {
		case *ssa.BinOp:
			n := e.relTags(st, r.fr, b, taken)
			// a value set on the split node needs the key used up
			for _, s := range tagsWith(n.C, "split|") {
				if keyDoneSplit(n, klen, off, match) && !hasTag(n.C, "at|"+s) {
					n = n.tag("at|" + s)
				}
			}
			return n
		case *ssa.Call:
			if g := staticCallee(b); g != nil && g.Name() == "isEmpty" && taken && len(b.Call.Args) > 0 && e.desc(st, VV{r.fr, b.Call.Args[0]}) == N {
				return st.tag("empty")
			}
		}
		return st
	}
	returnsValue := w.Signature.Results().Len() >= 2 && len(setters) > 0
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		for _, s := range tagsWith(st.C, "split|") {
			_ = s
			if !hasTag(st.C, "linked") || !hasTag(st.C, "chopped") {
				c.fail("new-node", fname(w)+" split exit", c.p.ipos(ret), "a node was split without linking its rest: %s", st.trace())
			}
		}
		if !returnsValue {
			return
		}
		for _, rv := range ret.Results {
			if e.desc(st, VV{fr, rv}) == N+".value" {
				c.ob("hit", fname(w)+" get")
				if !exact(st) {
					c.fail("hit", fname(w)+" get", c.p.ipos(ret), "returns the value of a node the key does not lead to exactly: %s", st.trace())
				}
			}
		}
	}
	a.run(c, "hit", w, "")
}

// keyDoneSplit: the key ends exactly where the node was split.
func keyDoneSplit(st *State, klen, off lin, match func(*State) (lin, bool)) bool {
	m, ok := match(st)
	return ok && isZeroBounded(st, klen.plus(off, -1).plus(m, -1))
}

// isZeroBounded: D=0, where D>=0 is a guard that was passed or D<=0 suffices
// because a match is never longer than either side.
func isZeroBounded(st *State, d lin) bool {
	return isZero(st, d) || hasTag(st.C, "ge|"+d.neg().String())
}

// childTerm: N.children[index] with a linear index.
func (e *Engine) childTerm(st *State, x VV) string {
	r := e.res(st, x)
	if u, ok := r.v.(*ssa.UnOp); ok && u.Op == token.MUL {
		a := e.res(st, VV{r.fr, u.X})
		if ia, ok := a.v.(*ssa.IndexAddr); ok {
			base := e.desc(st, VV{a.fr, ia.X})
			return base + "[" + e.linOf(st, VV{a.fr, ia.Index}).String() + "]"
		}
	}
	return e.desc(st, r)
}

func checkCount(c *Ctx) {
	ks := trieKinds(c)
	if ks == nil {
		return
	}
	nk := ks[0]
	setters := valueSetters(c, nk)
	for f := range setters {
		countDelta(c, f)
	}
	for _, f := range c.p.funcsIn("trie") {
		if !callsAny(f, setters) {
			continue
		}
		f := f
		a := &auto{p: c.p}
		a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool { return false }
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			g := e.callee(fr, call)
			if g == nil || !setters[g] {
				return nil
			}
			c.ob("add-delta", fname(f))
			return []*State{st.tag("open|" + e.desc(st, VV{fr, call.(ssa.Value)}) + "@" + call.(ssa.Value).Name())}
		}
		a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
			s, ok := in.(*ssa.Store)
			if !ok {
				return nil
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa) != "valueCount" {
				return nil
			}
			base := e.desc(st, VV{fr, fa.X})
			l := e.linOf(st, VV{fr, s.Val})
			own := base + ".valueCount"
			n := st
			okk := l.at[own] == 1 && l.k == 0 && len(l.at) == 2
			var used string
			for x, k := range l.at {
				if x == own {
					continue
				}
				for _, o := range tagsWith(st.C, "open|") {
					id := o[:strings.LastIndex(o, "@")]
					if k == 1 && strings.HasPrefix(x, "x") && strings.HasSuffix(x, "("+id+")") {
						used = o
					}
				}
			}
			if !okk || used == "" {
				c.fail("add-delta", fname(f)+" count", c.p.ipos(in), "the value count becomes %s: %s", l, st.trace())
				return nil
			}
			n = st.withC(delTag(st.C, func(w string) bool { return w == "open|"+used }))
			return []*State{n}
		}
		// nothing to add where the delta was found to be zero
		a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
			r := e.res(st, VV{fr, cond})
			b, ok := r.v.(*ssa.BinOp)
			if !ok || b.Op != token.EQL && b.Op != token.NEQ || taken != (b.Op == token.EQL) {
				return st
			}
			d := e.linOf(st, VV{r.fr, b.X}).plus(e.linOf(st, VV{r.fr, b.Y}), -1)
			if d.k != 0 || len(d.at) != 1 {
				return st
			}
			for x, k := range d.at {
				for _, o := range tagsWith(st.C, "open|") {
					id := o[:strings.LastIndex(o, "@")]
					if (k == 1 || k == -1) && strings.HasPrefix(x, "x") && strings.HasSuffix(x, "("+id+")") {
						return st.withC(delTag(st.C, func(w string) bool { return w == "open|"+o }))
					}
				}
			}
			return st
		}
		a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
			if len(tagsWith(st.C, "open|")) > 0 {
				c.fail("add-delta", fname(f)+" lost", c.p.ipos(ret), "the value count is not adjusted after a value was set: %s", st.trace())
			}
		}
		a.run(c, "add-delta", f, "")
	}
	// copies of a trie keep the count
	for _, f := range c.p.funcsIn("trie") {
		n := recvNamed(f)
		if n == nil || fieldIndex(n, "valueCount") < 0 || f.Name() != "Clone" && f.Name() != "Rebase" {
			continue
		}
		got := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "valueCount" {
						if u, ok := s.Val.(*ssa.UnOp); ok {
							if f2, ok := u.X.(*ssa.FieldAddr); ok && fieldName(f2) == "valueCount" && f2.X == ssa.Value(f.Params[0]) {
								got = true
							}
						}
					}
				}
			}
		}
		c.check(got, "copy-count", fname(f), c.p.pos(f.Pos()), "the copy does not take over the number of values")
	}
	c.min("add-delta", 6)
	c.min("delta", 3)
	c.min("copy-count", 2)
}

// countDelta: the int result of the setter is new-present minus old-present.
func countDelta(c *Ctx, f *ssa.Function) {
	ri := -1
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if b, ok := f.Signature.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int {
			ri = i
		}
	}
	if ri < 0 {
		c.fail("delta", fname(f), c.p.pos(f.Pos()), "the setter reports no count")
		return
	}
	a := &auto{p: c.p, aliasInts: true}
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool { return false }
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "value" {
				return []*State{st.tag("stored")}
			}
		}
		return nil
	}
	a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
		r := e.res(st, VV{fr, cond})
		b, ok := r.v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ || !constNil(b.Y) {
			return st
		}
		isNil := taken == (b.Op == token.EQL)
		d := e.desc(st, VV{r.fr, b.X})
		which := ""
		switch d {
		case "p1":
			which = "new"
		case "p0.value":
			if hasTag(st.C, "stored") {
				return st
			}
			which = "old"
		}
		if which == "" {
			return st
		}
		a, bb := which+"=nil", which+"=set"
		if !isNil {
			a, bb = bb, a
		}
		if hasTag(st.C, bb) {
			return nil // contradicts an earlier test
		}
		return st.tag(a)
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		k := e.Fact(st, VV{fr, ret.Results[ri]})
		val := ""
		if k.k == 'C' {
			val = k.c
		} else if k.k == 'Z' {
			val = "0"
		} else if l := e.linOf(st, VV{fr, ret.Results[ri]}); len(l.at) == 0 {
			val = itoa(l.k)
		}
		want := map[string]bool{"0": true, "1": true, "-1": true}
		poss := map[string]bool{}
		for _, o := range []string{"nil", "set"} {
			for _, n := range []string{"nil", "set"} {
				if hasTag(st.C, "old="+map[string]string{"nil": "set", "set": "nil"}[o]) || hasTag(st.C, "new="+map[string]string{"nil": "set", "set": "nil"}[n]) {
					continue
				}
				switch {
				case o == n:
					poss["0"] = true
				case n == "set":
					poss["1"] = true
				default:
					poss["-1"] = true
				}
			}
		}
		c.ob("delta", fname(f))
		if len(poss) == 0 {
			return
		}
		if !want[val] || len(poss) != 1 || !poss[val] {
			c.fail("delta", fname(f)+" "+val, c.p.ipos(ret), "the reported change of the number of values is %q where it may be %v: %s", val, sortedKeys(poss), st.trace())
		}
	}
	a.run(c, "delta", f, "")
}
