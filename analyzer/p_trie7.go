package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T09",
		"iterators of the trie are made on a clone of it; the callback of IterateAll gets exactly what the iterator stands on, entries without key or value are left out only if asked for, and its false ends the iteration; the step to the next sibling returns the child the index is moved to; iterators stop only at nodes known to have a value",
		"the order of the produced keys as a whole, and nodes that cannot be loaded (reported in the log only)",
		checkIter)
	register("T10",
		"at every call that drops the content of a trie node (found as methods that set the value to nil and stay clean) the node is known clean and the trie known to have both adapters, for values the value adapter; content of a history tree node is dropped only when it is known clean after saving; the hash it can be found by is computed first; a clone or rebased copy is made from the hash only after a commit",
		"iterators, which work on a private clone (T09)",
		checkDrop)
	register("T11",
		"Append reaches the tree only where the key equals the expected one and the value is not empty; the expected key changes by exactly one and only after a successful change; new trees expect the key after the last one they hold; the recursive walk follows the nibbles of the key one by one, takes leaves only at the last nibble and only from leaf nodes, and changes them only when appending",
		"conversion between key and nibbles (heightToPrefix, prefixToHeight)",
		checkAppend)
}

// collapsers: methods of the trie node that drop the value while the node stays clean.
func collapsers(c *Ctx, nk *nodeKind) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range c.p.funcsIn("trie") {
		if recvNamed(f) != nk.t {
			continue
		}
		nils, dirties := false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.X != ssa.Value(f.Params[0]) {
					continue
				}
				if fieldName(fa) == "value" && constNil(s.Val) {
					nils = true
				}
				if fieldName(fa) == nk.dirty {
					dirties = true
				}
			}
		}
		if nils && !dirties {
			out[f] = true
		}
	}
	return out
}

func dropsChildren(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				a := s.Addr
				if ia, ok := a.(*ssa.IndexAddr); ok {
					a = ia.X
				}
				if fa, ok := a.(*ssa.FieldAddr); ok && fieldName(fa) == "children" {
					return true
				}
			}
		}
	}
	return false
}

// predicate: a small function without effects returning a bool.
func predicate(f *ssa.Function) bool {
	if f.Signature.Results().Len() != 1 || !isBool(f.Signature.Results().At(0).Type()) || len(f.Blocks) > 12 {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if _, ok := x.Addr.(*ssa.FieldAddr); ok {
					return false
				}
			case *ssa.MapUpdate, *ssa.Defer, *ssa.Go, *ssa.Send:
				return false
			}
		}
	}
	return true
}

func checkDrop(c *Ctx) {
	ks := trieKinds(c)
	if ks == nil {
		return
	}
	nk, hk := ks[0], ks[1]
	col := collapsers(c, nk)
	c.check(len(col) >= 2, "scope", "collapsers", "", "found %d methods dropping node content, expected 2", len(col))
	for f := range col {
		f := f
		// the hash first
		a := litAuto(c.p, keepAll)
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			g := e.callee(fr, call)
			if g == nil || len(call.Common().Args) == 0 || e.desc(st, VV{fr, call.Common().Args[0]}) != "p0" {
				return nil
			}
			return []*State{st.tag("did|" + g.Name())}
		}
		a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
			s, ok := in.(*ssa.Store)
			if !ok {
				return nil
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok || !constNil(s.Val) || fieldName(fa) != "value" {
				return nil
			}
			c.ob("hash-first", fname(f))
			want, alt := "HashValue(p0", "hash(p0"
			if !dropsChildren(f) {
				want, alt = "valueHash(p0", "ValueHash(p0"
			}
			if !anyLit(st.C, "nil|x", want) && !anyLit(st.C, "nil|x", alt) {
				c.fail("hash-first", fname(f), c.p.ipos(in), "drops the content without having its hash: %s", st.trace())
			}
			return nil
		}
		a.run(c, "hash-first", f, "")
	}
	for _, f := range c.p.funcsIn("trie") {
		if !callsAny(f, col) {
			continue
		}
		f := f
		if iteratorRecv(f) || isIterType(f) {
			c.obn("drop in iterator", 1)
			continue
		}
		a := litAuto(c.p, keepAll)
		a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
			return fnPkg(callee) == fnPkg(f) && predicate(callee)
		}
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			g := e.callee(fr, call)
			if g == nil || !col[g] {
				return nil
			}
			n := e.desc(st, VV{fr, call.Common().Args[0]})
			c.ob("drop", fname(f))
			if !hasTag(st.C, "F|"+n+"."+nk.dirty) {
				c.fail("drop", fname(f)+" dirty", c.p.ipos(call), "drops the content of a node that may have unsaved changes: %s", st.trace())
			}
			need := []string{"valueAdapter"}
			if dropsChildren(g) {
				need = append(need, "nodeAdapter")
			}
			for _, w := range need {
				if !hasTag(st.C, "some|p0."+w) {
					c.fail("drop", fname(f)+" "+w, c.p.ipos(call), "drops the content of a node although the trie may have no %s to load it from: %s", w, st.trace())
				}
			}
			return nil
		}
		a.run(c, "drop", f, "")
	}
	c.min("drop", 3)
	c.min("hash-first", 2)
	// history tree nodes
	hdrop := map[*ssa.Function]bool{}
	for _, f := range c.p.funcsIn("trie") {
		if recvNamed(f) != hk.t || f.Parent() != nil || !callsReset(f, hk.t) {
			continue
		}
		f := f
		if hasDirectLoad(f) {
			continue // a load replaces the content
		}
		hdrop[f] = true
		a := litAuto(c.p, keepAll)
		a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
			return fnPkg(callee) == fnPkg(f) && predicate(callee)
		}
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			g := e.callee(fr, call)
			if g == nil || recvNamed(g) != hk.t {
				return nil
			}
			recv := e.desc(st, VV{fr, call.Common().Args[0]})
			if recv != "p0" {
				return nil
			}
			if g.Name() == "Reset" {
				c.ob("drop-history", fname(f))
				if !hasTag(st.C, "F|p0."+hk.dirty) {
					c.fail("drop-history", fname(f)+" dirty", c.p.ipos(call), "drops the content of a node that may have unsaved changes: %s", st.trace())
				}
				if !anyLit(st.C, "nil|x", "Hash", "(p0") {
					c.fail("drop-history", fname(f)+" hash", c.p.ipos(call), "drops the content without having its hash: %s", st.trace())
				}
				return []*State{st.tag("reset")}
			}
			if savesContent(g) {
				// the dirty mark may have changed
				return []*State{st.withC(delTag(st.C, func(w string) bool { return strings.Contains(w, "p0."+hk.dirty) }))}
			}
			return nil
		}
		a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
			if mu, ok := in.(*ssa.MapUpdate); ok && strings.HasPrefix(e.desc(st, VV{fr, mu.Map}), "p0.Branchs") {
				d := e.desc(st, VV{fr, mu.Value})
				if !strings.Contains(d, "Hash") || !strings.Contains(d, "(p0") {
					c.fail("drop-history", fname(f)+" kept", c.p.ipos(in), "keeps %s as the hash", d)
				}
				return []*State{st.tag("kept")}
			}
			return nil
		}
		a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
			if hasTag(st.C, "reset") && !hasTag(st.C, "kept") {
				c.fail("drop-history", fname(f)+" lost", c.p.ipos(ret), "the hash is not kept after the content was dropped: %s", st.trace())
			}
		}
		a.run(c, "drop-history", f, "")
	}
	c.min("drop-history", 1)
	for _, f := range c.p.funcsIn("trie") {
		if recvNamed(f) == hk.t || !callsAny(f, hdrop) {
			continue
		}
		f := f
		a := litAuto(c.p, keepAll)
		a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
			return fnPkg(callee) == fnPkg(f) && predicate(callee)
		}
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			g := e.callee(fr, call)
			if g == nil || !hdrop[g] {
				return nil
			}
			n := e.desc(st, VV{fr, call.Common().Args[0]})
			c.ob("drop-caller", fname(f))
			if !hasTag(st.C, "F|"+n+"."+hk.dirty) {
				c.fail("drop-caller", fname(f), c.p.ipos(call), "collapses a subtree that may have unsaved changes below its top: %s", st.trace())
			}
			return nil
		}
		a.run(c, "drop-caller", f, "")
	}
	c.min("drop-caller", 1)
	// copies by hash
	for _, f := range c.p.funcsIn("trie") {
		n := recvNamed(f)
		if n == nil || f.Parent() != nil || !(f.Name() == "Clone" || f.Name() == "Rebase" || f.Name() == "Copy") || fieldIndex(n, "root") < 0 || fieldIndex(n, "lock") < 0 {
			continue
		}
		if rt := namedOf(n.Underlying().(*types.Struct).Field(fieldIndex(n, "root")).Type()); rt != nk.t && rt != hk.t {
			continue
		}
		f := f
		a := litAuto(c.p, keepAll)
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			g := e.callee(fr, call)
			if g == nil || len(call.Common().Args) == 0 || e.desc(st, VV{fr, call.Common().Args[0]}) != "p0" {
				return nil
			}
			ln := strings.ToLower(g.Name())
			switch {
			case strings.Contains(ln, "commit"):
				return []*State{st.tag("committed")}
			case strings.Contains(ln, "hash"):
				c.ob("copy", fname(f))
				if !hasTag(st.C, "committed") {
					c.fail("copy", fname(f), c.p.ipos(call), "makes a copy from the hash without saving the content first: %s", st.trace())
				}
			}
			return nil
		}
		a.run(c, "copy", f, "")
	}
	c.min("copy", 4)
}

// onTrie: its trie field is the trie of nodes itself.
func onTrie(n *types.Named) bool {
	t := namedOf(n.Underlying().(*types.Struct).Field(fieldIndex(n, "trie")).Type())
	return t != nil && t.Obj().Name() == "Trie"
}

func callsReset(f *ssa.Function, t *types.Named) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := staticCallee(call); g != nil && g.Name() == "Reset" && recvNamed(g) == t {
					return true
				}
			}
		}
	}
	return false
}

func isIterType(f *ssa.Function) bool {
	n := recvNamed(f)
	if n == nil {
		return false
	}
	s := strings.ToLower(n.Obj().Name())
	return strings.Contains(s, "iterator") || strings.Contains(s, "trace")
}

func hasDirectLoad(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && isLoadCall(call) {
				return true
			}
		}
	}
	return false
}

func savesContent(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && isAdapterSave(call) {
				return true
			}
		}
	}
	return false
}

// ---- T09

func checkIter(c *Ctx) {
	var iters []*types.Named
	for _, m := range sortedMembers(c.p.pkg("trie")) {
		if tn, ok := m.(*ssa.Type); ok {
			if n, ok := tn.Type().(*types.Named); ok && fieldIndex(n, "trie") >= 0 && onTrie(n) && strings.Contains(strings.ToLower(n.Obj().Name()), "iterator") {
				iters = append(iters, n)
			}
		}
	}
	isIter := map[*types.Named]bool{}
	for _, n := range iters {
		isIter[n] = true
	}
	c.check(len(iters) >= 2, "scope", "iterators", "", "found %d iterator types on a trie, expected 2", len(iters))
	// constructors hand the trie on; the outermost call gives a clone
	maker := map[*ssa.Function]int{}
	for _, f := range c.p.funcsIn("trie") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "trie" || !isIter[namedOf(fa.X.Type())] {
					continue
				}
				if p, ok := s.Val.(*ssa.Parameter); ok {
					for i, q := range f.Params {
						if q == p {
							maker[f] = i
						}
					}
				} else {
					c.fail("snapshot", fname(f), c.p.ipos(in), "an iterator is made on %s", s.Val.Name())
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range c.p.funcsIn("trie") {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					call, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := staticCallee(call)
					if i, isM := maker[g]; isM && g != nil {
						if p, ok := call.Call.Args[i].(*ssa.Parameter); ok && f.Signature.Recv() == nil {
							if _, had := maker[f]; !had {
								for j, q := range f.Params {
									if q == p {
										maker[f] = j
										changed = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	for _, f := range c.p.funcsIn("trie") {
		if _, isM := maker[f]; isM {
			continue
		}
		calls := false
		for g := range maker {
			if callsAny(f, map[*ssa.Function]bool{g: true}) {
				calls = true
			}
		}
		if !calls {
			continue
		}
		f := f
		a := litAuto(c.p, keepAll)
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			g := e.callee(fr, call)
			i, isM := maker[g]
			if g == nil || !isM {
				return nil
			}
			d := e.desc(st, VV{fr, call.Common().Args[i]})
			c.ob("snapshot", fname(f))
			if !strings.HasSuffix(d, "Clone(p0)") {
				c.fail("snapshot", fname(f), c.p.ipos(call), "iterates over %s, not over a clone of the trie", d)
			}
			return nil
		}
		a.run(c, "snapshot", f, "")
	}
	c.min("snapshot", 2)
	// IterateAll
	for _, f := range c.p.funcsIn("trie") {
		if f.Parent() != nil || f.Name() != "IterateAll" || f.Blocks == nil || recvNamed(f) == nil {
			continue
		}
		iterateAll(c, f)
	}
	c.min("callback", 1)
	if m := c.p.method("trie", "tracenode", "moveToNext"); m != nil {
		siblingStart(c, m)
	}
	if m := c.p.method("trie", "reversedValueIterator", "Next"); must(c, m, "scope", "reversedValueIterator.Next") {
		reversedNext(c, m)
	}
	if m := c.p.method("trie", "trieValueIterator", "Next"); must(c, m, "scope", "trieValueIterator.Next") {
		for _, f := range m.AnonFuncs {
			if f.Signature.Results().Len() != 1 || !isBool(f.Signature.Results().At(0).Type()) {
				continue
			}
			f := f
			a := litAuto(c.p, keepAll)
			a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
				c.ob("select", fname(f))
				for _, v := range []bool{true, false} {
					n, poss := e.whenBool(st, r0(fr, ret), v)
					if !poss {
						continue
					}
					ok := v && (anyLit(n.C, "T|", "hasValue(p1)") || hasTag(n.C, "some|p1.value")) || !v && (anyLit(n.C, "F|", "hasValue(p1)") || hasTag(n.C, "nil|p1.value"))
					if !ok {
						c.fail("select", fname(f), c.p.ipos(ret), "the node is selected=%v not by whether it has a value: %s", v, st.trace())
					}
				}
			}
			a.run(c, "select", f, "")
		}
		c.min("select", 1)
	}
}

func isIterType2(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return isIterType(f)
}

func iterateAll(c *Ctx, f *ssa.Function) {
	cb := -1
	for i, p := range f.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			cb = i
		}
	}
	if cb < 0 {
		return
	}
	a := litAuto(c.p, keepAll)
	isNext := func(st *State, e *Engine, fr *Frame, call ssa.CallInstruction) string {
		r, n, _ := e.recvAndName(st, fr, call)
		if strings.Contains(r, "Iterator(") {
			return n
		}
		return ""
	}
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		cc := call.Common()
		if !cc.IsInvoke() && e.desc(st, VV{fr, cc.Value}) == pdesc(cb) {
			c.ob("callback", fname(f))
			if hasTag(st.C, "stop") {
				c.fail("callback", fname(f)+" stop", c.p.ipos(call), "goes on after the callback asked to stop: %s", st.trace())
			}
			k, v := e.desc(st, VV{fr, cc.Args[0]}), e.desc(st, VV{fr, cc.Args[1]})
			if !strings.HasPrefix(k, "x0(") || !strings.Contains(k, "Current(") || v != "x1("+k[3:] {
				c.fail("callback", fname(f)+" args", c.p.ipos(call), "the callback gets %s, %s", k, v)
			}
			d := e.desc(st, VV{fr, call.(ssa.Value)})
			n := st.withC(delTag(st.C, func(w string) bool { return w == "fresh" || strings.Contains(w, d) }))
			return []*State{n.tag("asked|" + strings.ReplaceAll(d, ";", ","))}
		}
		switch isNext(st, e, fr, call) {
		case "Next":
			if hasTag(st.C, "fresh") {
				// the entry before this one was left out
				c.ob("skip", fname(f))
				if !hasTag(st.C, "T|p1") || !anyLit(st.C, "nil|x", "Current(") {
					c.fail("skip", fname(f), c.p.ipos(call), "leaves an entry out: %s", st.trace())
				}
			}
			if len(tagsWith(st.C, "asked|")) > 0 {
				for _, d := range tagsWith(st.C, "asked|") {
					if !hasTag(st.C, "T|"+d) {
						c.fail("callback", fname(f)+" stop", c.p.ipos(call), "goes on although the callback may have asked to stop: %s", st.trace())
					}
				}
			}
			n := st.withC(delTag(st.C, func(w string) bool {
				return w == "fresh" || strings.HasPrefix(w, "asked|") || strings.Contains(w, "Current(") || strings.Contains(w, "Next(")
			}))
			return []*State{n}
		case "Current":
			return []*State{st.tag("fresh")}
		}
		return nil
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		c.ob("iterate-end", fname(f))
		asked := len(tagsWith(st.C, "asked|")) > 0
		if hasTag(st.C, "fresh") {
			c.fail("iterate-end", fname(f)+" entry", c.p.ipos(ret), "ends with an entry not handed to the callback: %s", st.trace())
		}
		if asked {
			for _, d := range tagsWith(st.C, "asked|") {
				if hasTag(st.C, "T|"+d) {
					c.fail("iterate-end", fname(f)+" early", c.p.ipos(ret), "ends although the callback wants more: %s", st.trace())
				}
			}
		} else if !anyLit(st.C, "F|", "Next(") && !hasTag(st.C, "nil|p0") {
			c.fail("iterate-end", fname(f)+" early", c.p.ipos(ret), "ends before the iterator does: %s", st.trace())
		}
	}
	a.run(c, "callback", f, "")
}

// nextSibling: the loop variable starts behind another index or at 0 and moves by one.
func nextSibling(b *ssa.BinOp) bool {
	phi, ok := b.X.(*ssa.Phi)
	if !ok {
		return false
	}
	k, isK := constInt(b.Y)
	if !isK || b.Op != token.LSS || k != 16 {
		return false
	}
	var okEdge func(v ssa.Value, d int) bool
	okEdge = func(v ssa.Value, d int) bool {
		if d > 4 {
			return false
		}
		switch x := v.(type) {
		case *ssa.Const:
			k, ok := constInt(x)
			return ok && k == 0
		case *ssa.BinOp:
			k, ok := constInt(x.Y)
			return ok && k == 1 && x.Op == token.ADD
		case *ssa.Phi:
			if x == phi {
				return true
			}
			for _, e := range x.Edges {
				if !okEdge(e, d+1) {
					return false
				}
			}
			return true
		}
		return false
	}
	for _, e := range phi.Edges {
		if !okEdge(e, 0) {
			return false
		}
	}
	return true
}

// siblingStart: the search for the next sibling visits children in order from
// the current index plus one and moves the index to what it returns.
func siblingStart(c *Ctx, m *ssa.Function) {
	a := litAuto(c.p, keepAll)
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == "index" && e.desc(st, VV{fr, fa.X}) == "p0" {
				l := e.linOf(st, VV{fr, s.Val}).String()
				return []*State{st.withC(addTag(delTag(st.C, func(w string) bool { return strings.HasPrefix(w, "idx|") }), "idx|"+l))}
			}
		}
		return nil
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		r := e.childTerm(st, r0(fr, ret))
		if r == "nil" {
			return
		}
		c.ob("sibling", fname(m))
		okk := false
		for _, i := range tagsWith(st.C, "idx|") {
			if r == "p0.node.children["+i+"]" {
				okk = true
			}
		}
		if !okk {
			c.fail("sibling", fname(m), c.p.ipos(ret), "returns %s with the index at %v", r, tagsWith(st.C, "idx|"))
		}
	}
	a.run(c, "sibling", m, "")
	c.min("sibling", 1)
}

// reversedNext: the iterator stops only at nodes with a value.
func reversedNext(c *Ctx, m *ssa.Function) {
	a := litAuto(c.p, keepAll)
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		n, poss := e.whenBool(st, r0(fr, ret), true)
		if !poss {
			return
		}
		c.ob("reversed", fname(m))
		if !anyLit(n.C, "some|p0.stack[", ".node.value") && !anyLit(n.C, "T|", "hasValue(") {
			c.fail("reversed", fname(m), c.p.ipos(ret), "stops at a node that may have no value: %s", st.trace())
		}
	}
	a.run(c, "reversed", m, "")
	c.min("reversed", 1)
}

// ---- T11

func checkAppend(c *Ctx) {
	ks := trieKinds(c)
	if ks == nil {
		return
	}
	hk := ks[1]
	ht := c.p.named("trie", "HistoryTree")
	if !must(c, ht, "scope", "HistoryTree") {
		return
	}
	writers := dirtyWriters(c.p)
	// all changes of the expected key
	for _, f := range c.p.funcsIn("trie") {
		if !storesField(f, "expecting", ht) {
			continue
		}
		f := f
		if recvNamed(f) == ht && f.Name() != "Chop" {
			appendEntry(c, f, writers)
			continue
		}
		freshExpecting(c, f)
	}
	for _, f := range c.p.funcsIn("trie") {
		if recvNamed(f) == hk.t && inCycle(f) && f.Parent() == nil {
			if bi, oi := seqParams(f); bi > 0 && oi > 0 {
				historyWalk(c, f, hk, bi, oi)
			}
		}
		if recvNamed(f) == ht && f.Parent() == nil {
			historyEntry(c, f, hk)
		}
	}
	c.min("append", 1)
	c.min("expecting", 3)
	c.min("leaf", 2)
	c.min("walk-down", 2)
	c.min("walk-entry", 2)
}

func storesField(f *ssa.Function, name string, t *types.Named) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if s, ok := in.(*ssa.Store); ok {
				if fa, ok := s.Addr.(*ssa.FieldAddr); ok && fieldName(fa) == name && namedOf(fa.X.Type()) == t {
					return true
				}
			}
		}
	}
	return false
}

func seqParams(f *ssa.Function) (bi, oi int) {
	bi, oi = -1, -1
	for i, p := range f.Params {
		if i == 0 {
			continue
		}
		if isByteSlice(p.Type()) && bi < 0 {
			bi = i
		}
		if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int && oi < 0 {
			oi = i
		}
	}
	return
}

func appendEntry(c *Ctx, f *ssa.Function, writers map[*ssa.Function]bool) {
	a := litAuto(c.p, keepAll)
	K, V := "", ""
	for i, p := range f.Params {
		if i > 0 && isIntish(p.Type()) {
			K = pdesc(i)
		}
		if i > 0 && isByteSlice(p.Type()) {
			V = pdesc(i)
		}
	}
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
		return fnPkg(callee) == fnPkg(f) && callee.Parent() == nil && recvNamed(callee) == recvNamed(f)
	}
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		g := e.callee(fr, call)
		if g == nil || !writers[g] {
			return nil
		}
		c.ob("append", fname(f))
		same := hasTag(st.C, "eq|"+atom1(K).plus(atom1("p0.expecting"), -1).norm())
		if !same {
			c.fail("append", fname(f)+" order", c.p.ipos(call), "changes the tree for a key that may not be the expected one: %s", st.trace())
		}
		lv := atom1("len(" + V + ")")
		if !hasTag(st.C, "ne|"+lv.norm()) && !hasTag(st.C, "ge|"+lv.plus(newLin(1), -1).String()) {
			c.fail("append", fname(f)+" empty", c.p.ipos(call), "an empty value reaches the tree: %s", st.trace())
		}
		if g.Signature.Recv() != nil {
			okP, okV := false, false
			for _, x := range call.Common().Args[1:] {
				d := e.desc(st, VV{fr, x})
				okP = okP || d == "trie.heightToPrefix("+K+")"
				okV = okV || d == V
			}
			if !okP || !okV {
				c.fail("append", fname(f)+" args", c.p.ipos(call), "the walk does not get the nibbles of the key and the value")
			}
		}
		return nil
	}
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		s, ok := in.(*ssa.Store)
		if !ok {
			return nil
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || fieldName(fa) != "expecting" {
			return nil
		}
		c.ob("expecting", fname(f))
		l := e.linOf(st, VV{fr, s.Val})
		if l.String() != atom1("p0.expecting").plus(newLin(1), 1).String() && l.String() != atom1(K).plus(newLin(1), 1).String() || hasTag(st.C, "advanced") {
			c.fail("expecting", fname(f)+" step", c.p.ipos(in), "the expected key becomes %s", l)
		}
		changed, nilErr := false, false
		for _, w := range strings.Split(st.C, ";") {
			changed = changed || strings.HasPrefix(w, "T|x0(") && strings.Contains(w, V)
			nilErr = nilErr || strings.HasPrefix(w, "nil|x") && strings.Contains(w, V)
		}
		if !changed || !nilErr {
			c.fail("expecting", fname(f)+" success", c.p.ipos(in), "the expected key moves on although the value may not have been taken: %s", st.trace())
		}
		return []*State{st.tag("advanced")}
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if e.errResult(st, fr, ret) == 'V' {
			return
		}
		for _, w := range strings.Split(st.C, ";") {
			if strings.HasPrefix(w, "T|x0(") && strings.Contains(w, V) && !hasTag(st.C, "advanced") {
				c.fail("expecting", fname(f)+" stuck", c.p.ipos(ret), "the expected key does not move on after a value was taken: %s", st.trace())
			}
		}
	}
	a.run(c, "append", f, "")
}

// freshExpecting: a new tree expects the key after the last one it holds.
func freshExpecting(c *Ctx, f *ssa.Function) {
	a := litAuto(c.p, func(l string) bool { return strings.Contains(l, "nil|") || strings.Contains(l, "some|") })
	a.aliasInts = true
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		s, ok := in.(*ssa.Store)
		if !ok {
			return nil
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok || fieldName(fa) != "expecting" {
			return nil
		}
		c.ob("expecting", fname(f))
		l := e.linOf(st, VV{fr, s.Val})
		good := false
		switch {
		case len(l.at) == 0 && l.k == 0:
			// nothing in the tree
			good = true
			for _, r := range *fa.X.(ssa.Value).Referrers() {
				if fb, ok := r.(*ssa.FieldAddr); ok && fieldName(fb) == "root" {
					for _, r2 := range *fb.Referrers() {
						if s2, ok := r2.(*ssa.Store); ok && !constNil(e.res(st, VV{fr, s2.Val}).v) && e.Fact(st, VV{fr, s2.Val}).k != 'N' {
							good = false
						}
					}
				}
			}
		case len(l.at) == 1 && l.k == 1:
			for x, k := range l.at {
				switch {
				case k != 1:
				case strings.HasPrefix(x, "x0(trie.prefixToHeight(x0(trie.findRightmost("):
					good = anyLit(st.C, "nil|x1(trie.prefixToHeight(") && anyLit(st.C, "nil|x3(trie.findRightmost(")
				case len(x) == 2 && x[0] == 'p':
					// the key whose nibbles placed the last leaf
					good = usesHeight(f, int(x[1]-'0'))
				}
			}
		}
		if !good {
			c.fail("expecting", fname(f), c.p.ipos(in), "the new tree expects %s: %s", l, st.trace())
		}
		return nil
	}
	a.run(c, "expecting", f, "")
}

func usesHeight(f *ssa.Function, i int) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if g := staticCallee(call); g != nil && g.Name() == "heightToPrefix" && i < len(f.Params) && call.Call.Args[0] == ssa.Value(f.Params[i]) {
					return true
				}
			}
		}
	}
	return false
}

func historyWalk(c *Ctx, w *ssa.Function, hk *nodeKind, bi, oi int) {
	K, O := pdesc(bi), pdesc(oi)
	last := atom1(O).plus(atom1("len("+K+")"), -1).plus(newLin(1), 1) // O - (len-1)
	apnd := ""
	for i, p := range w.Params {
		if isBool(p.Type()) {
			apnd = pdesc(i)
		}
	}
	here := "1*" + K + "[1*" + O + "+0]+0"
	a := litAuto(c.p, keepAll)
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
		return fnPkg(callee) == fnPkg(w) && predicate(callee) && smallFn(callee)
	}
	a.stable = func(l string) bool { return strings.HasSuffix(l, "|p0.isLeaf") }
	idx := func(e *Engine, st *State, v VV) string { return e.linOf(st, v).String() }
	leafHere := func(st *State) bool { return hasTag(st.C, "T|p0.isLeaf") && isZero(st, last) }
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		g := e.callee(fr, call)
		if g == nil || recvNamed(g) != hk.t {
			return nil
		}
		args := call.Common().Args
		rcv := e.res(st, VV{fr, args[0]})
		if g == w {
			c.ob("walk-down", fname(w))
			if d := e.desc(st, VV{fr, args[bi]}); d != K {
				c.fail("walk-down", fname(w)+" key", c.p.ipos(call), "goes down with %s", d)
			}
			if l := idx(e, st, VV{fr, args[oi]}); l != "1*"+O+"+1" {
				c.fail("walk-down", fname(w)+" offset", c.p.ipos(call), "goes down with offset %s", l)
			}
			if !hasTag(st.C, "F|p0.isLeaf") {
				c.fail("walk-down", fname(w)+" leaf", c.p.ipos(call), "goes down from a node that may be a leaf node: %s", st.trace())
			}
			for i, p := range w.Params {
				if i > 0 && i != bi && i != oi && e.desc(st, VV{fr, args[i]}) != pdesc(i) {
					c.fail("walk-down", fname(w)+" "+p.Name(), c.p.ipos(call), "goes down with another %s", p.Name())
				}
			}
			d := e.childTerm(st, rcv)
			if strings.Contains(d, ".Children[") {
				if d != "p0.Children["+here+"]" {
					c.fail("walk-down", fname(w)+" child", c.p.ipos(call), "goes down to %s", d)
				}
				return nil
			}
			// a new node
			if !hasTag(st.C, "T|"+apnd) {
				c.fail("walk-down", fname(w)+" new", c.p.ipos(call), "makes a new node although nothing is appended: %s", st.trace())
			}
			nl := last.plus(newLin(1), 1)
			leafT, leafF := hasTag(st.C, "leaf|"+d+"=T"), hasTag(st.C, "leaf|"+d+"=F")
			exact := hasTag(st.C, "leaf|"+d+"=exact")
			zero, nz := hasTag(st.C, "eq|"+nl.norm()), hasTag(st.C, "ne|"+nl.norm())
			if !exact && !(leafT && zero) && !(leafF && nz) {
				c.fail("walk-down", fname(w)+" kind", c.p.ipos(call), "the new node is a leaf node or not regardless of its depth: %s", st.trace())
			}
			return []*State{st.tag("newnode|" + d)}
		}
		if e.desc(st, rcv) == "p0" && g.Name() == "putLeaf" {
			c.ob("leaf", fname(w)+" put")
			if !leafHere(st) || !hasTag(st.C, "T|"+apnd) || idx(e, st, VV{fr, args[1]}) != here {
				c.fail("leaf", fname(w)+" put", c.p.ipos(call), "sets leaf %s: %s", idx(e, st, VV{fr, args[1]}), st.trace())
			}
		}
		return nil
	}
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		s, ok := in.(*ssa.Store)
		if !ok {
			return nil
		}
		switch x := s.Addr.(type) {
		case *ssa.FieldAddr:
			if fieldName(x) == "isLeaf" && namedOf(x.X.Type()) == hk.t {
				base := e.desc(st, VV{fr, x.X})
				st = st.withC(delTag(st.C, func(w string) bool { return strings.HasPrefix(w, "leaf|"+base+"=") }))
				if v, isK := constBool(e.res(st, VV{fr, s.Val}).v); isK {
					if v {
						return []*State{st.tag("leaf|" + base + "=T")}
					}
					return []*State{st.tag("leaf|" + base + "=F")}
				}
				want := "eq|" + last.plus(newLin(1), 1).norm()
				if ls := e.literals(st, fr, s.Val, true); len(ls) == 1 && ls[0] == want {
					return []*State{st.tag("leaf|" + base + "=exact")}
				}
				return []*State{st}
			}
		case *ssa.IndexAddr:
			fa, ok := x.X.(*ssa.FieldAddr)
			if !ok || namedOf(fa.X.Type()) != hk.t || e.desc(st, VV{fr, fa.X}) != "p0" {
				return nil
			}
			c.ob("walk-down", fname(w)+" link")
			d := e.desc(st, VV{fr, s.Val})
			if fieldName(fa) != "Children" || idx(e, st, VV{fr, x.Index}) != here || !hasTag(st.C, "newnode|"+d) {
				c.fail("walk-down", fname(w)+" link", c.p.ipos(in), "sets %s[%s]: %s", fieldName(fa), idx(e, st, VV{fr, x.Index}), st.trace())
			}
		}
		return nil
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		for _, rv := range ret.Results {
			if !isByteSlice(rv.Type()) {
				continue
			}
			r := e.res(st, VV{fr, rv})
			d := e.childTerm(st, r)
			if strings.HasPrefix(d, "p0.Leafs[") {
				c.ob("leaf", fname(w)+" get")
				if d != "p0.Leafs["+here+"]" || !leafHere(st) {
					c.fail("leaf", fname(w)+" get", c.p.ipos(ret), "returns %s: %s", d, st.trace())
				}
			} else if d != "nil" && !strings.HasPrefix(d, "x") {
				c.fail("leaf", fname(w)+" other", c.p.ipos(ret), "returns %s", d)
			}
		}
	}
	a.run(c, "leaf", w, "")
}

// historyEntry: walks start with the nibbles of the key at offset 0.
func historyEntry(c *Ctx, f *ssa.Function, hk *nodeKind) {
	uses := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if g := staticCallee(call); g != nil && recvNamed(g) == hk.t && (inCycle(g) && g.Name() != "commitNode" || passesWalk(g, hk)) {
					if bi, oi := seqParams(g); bi > 0 && oi > 0 {
						uses = true
					}
				}
			}
		}
	}
	if !uses {
		return
	}
	a := litAuto(c.p, keepAll)
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		g := e.callee(fr, call)
		if g == nil || recvNamed(g) != hk.t {
			return nil
		}
		bi, oi := seqParams(g)
		if bi < 0 || oi < 0 || !inCycle(g) && !passesWalk(g, hk) {
			return nil
		}
		args := call.Common().Args
		n, k, o := e.desc(st, VV{fr, args[0]}), e.desc(st, VV{fr, args[bi]}), e.desc(st, VV{fr, args[oi]})
		c.ob("walk-entry", fname(f))
		if !strings.HasPrefix(k, "trie.heightToPrefix(p") || o != "c:0" || !(n == "p0.root" || strings.HasPrefix(n, "new:") || strings.Contains(n, "NewTreeNode")) {
			c.fail("walk-entry", fname(f), c.p.ipos(call), "starts at %s with %s at %s", n, k, o)
		}
		for i, p := range g.Params {
			if isBool(p.Type()) {
				if v := e.desc(st, VV{fr, args[i]}); v != "c:false" && f.Name() != "Append" {
					c.fail("walk-entry", fname(f)+" append", c.p.ipos(call), "a reading walk appends")
				}
			}
		}
		return nil
	}
	a.run(c, "walk-entry", f, "")
}

// passesWalk: hands its key and offset to a recursive walk.
func passesWalk(g *ssa.Function, hk *nodeKind) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(*ssa.Call); ok {
				if h := staticCallee(call); h != nil && h != g && recvNamed(h) == hk.t && inCycle(h) {
					if bi, oi := seqParams(h); bi > 0 && oi > 0 {
						return true
					}
				}
			}
		}
	}
	return false
}
