package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T06",
		"path literals at every point where a proof is believed: a history tree merges the content of a proof chain (any call that changes nodes) only where the key of the chain equals the key, the chain applied to the value gives the hash of the tree without error, and the place is empty; VerifyProofChain is true only where the chain succeeded with the expected root; the value hash of an existence proof is returned only where the walk over all nodes used up both prefix and key, absence only where a prefix differs or a child is missing; every proof computation folds each hash with its recorded side",
		"that the hash function is collision free and that proofs are built correctly (values)",
		checkProofUse)
}

func keepAll(string) bool { return true }

// litAuto explores f keeping branch literals.
func litAuto(p *Prog, keep func(string) bool) *auto {
	a := &auto{p: p, lits: true}
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool { return false }
	a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
		return e.withLits(st, fr, cond, taken, keep)
	}
	return a
}

func anyLit(c string, subs ...string) bool { return len(litsWith(c, subs...)) > 0 }

func isChain(t types.Type) bool {
	n := namedOf(t)
	return n != nil && n.Obj().Name() == "ProofChain"
}

// dirtyWriters: functions that may mark a history tree node dirty.
func dirtyWriters(p *Prog) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	for _, f := range p.funcsIn("trie") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						n := fieldName(fa)
						if v, isK := constBool(s.Val); n == "isDirty" && isK && v {
							set[f] = true
						}
					}
				}
			}
		}
	}
	return callersClosure(p, set)
}

func checkProofUse(c *Ctx) {
	writers := dirtyWriters(c.p)
	// (a) merging
	for _, f := range c.p.funcsIn("trie") {
		if f.Parent() != nil || recvNamed(f) == nil || !isExportedFn(f) || !writers[f] {
			continue
		}
		ci, vi, ki := -1, -1, -1
		for i, q := range f.Params {
			switch {
			case isChain(q.Type()):
				ci = i
			case i > 0 && isByteSlice(q.Type()):
				vi = i
			case i > 0 && isIntish(q.Type()):
				ki = i
			}
		}
		if ci < 0 || vi < 0 || ki < 0 || fieldIndex(recvNamed(f), "root") < 0 {
			continue
		}
		C, V, K := pdesc(ci), pdesc(vi), pdesc(ki)
		f := f
		a := litAuto(c.p, func(l string) bool {
			return strings.Contains(l, "Proof(") || strings.Contains(l, "BigKey(") || strings.Contains(l, "locateNode(") || strings.Contains(l, "len("+V) || strings.Contains(l, "_hashValue(")
		})
		a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
			if fnPkg(callee) != fnPkg(f) || writers[callee] || recvNamed(callee) != nil && recvNamed(callee).Obj().Name() == "ProofChain" {
				return false
			}
			for _, q := range callee.Params {
				if isChain(q.Type()) {
					return true
				}
			}
			return callee.Parent() != nil
		}
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			g := e.callee(fr, call)
			if g == nil || !writers[g] || hasLoad(g) && !strings.Contains(strings.ToLower(g.Name()), "merge") {
				return nil
			}
			c.ob("merge", fname(f))
			w := fname(f) + " -> " + g.Name()
			if !anyLit(st.C, "T|eq(", "BigKey("+C, "conv:uint64("+K) && !anyLit(st.C, "T|eq(", "BigKey("+C, "("+K+")") && !anyLit(st.C, "T|eq(", "BigKey("+C, ","+K+")") {
				c.fail("merge", w+" key", c.p.ipos(call), "changes the tree without having compared the key with the key of the proofs: %s", st.trace())
			}
			rootOK := false
			for _, l := range litsWith(st.C, "T|eq(", "ProofChain).Proof("+C, V) {
				if strings.Contains(l, "HashValue(") || strings.Contains(l, "hashValue(") {
					rootOK = true
				}
			}
			if !rootOK || !anyLit(st.C, "nil|x1(", "ProofChain).Proof("+C) || !anyLit(st.C, "nil|x1(", "ashValue(") {
				c.fail("merge", w+" root", c.p.ipos(call), "changes the tree without having compared its root with the root of the proofs: %s", st.trace())
			}
			if !anyLit(st.C, "F|x3(", "locateNode(") || !anyLit(st.C, "nil|x4(", "locateNode(") {
				c.fail("merge", w+" place", c.p.ipos(call), "changes the tree although the place may be taken: %s", st.trace())
			}
			return nil
		}
		a.run(c, "merge", f, "")
	}
	c.min("merge", 2)
	// (b) boolean verification
	for _, f := range c.p.funcsIn("trie", "") {
		res := f.Signature.Results()
		if f.Parent() != nil || res.Len() != 1 || !isBool(res.At(0).Type()) || f.Signature.Recv() != nil {
			continue
		}
		ci := -1
		for i, q := range f.Params {
			if isChain(q.Type()) {
				ci = i
			}
		}
		if ci < 0 {
			continue
		}
		f := f
		a := litAuto(c.p, keepAll)
		a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
			n, poss := e.whenBool(st, r0(fr, ret), true)
			if !poss {
				return
			}
			c.ob("verify", fname(f))
			got := false
			for _, l := range litsWith(n.C, "T|eq(", "ProofChain).Proof("+pdesc(ci)) {
				for i := range f.Params {
					if i != ci && strings.Contains(l, "ProofChain).Proof("+pdesc(ci)+",") && (strings.HasSuffix(l, ","+pdesc(i)+")") || strings.HasPrefix(l, "T|eq("+pdesc(i)+",")) {
						got = true
					}
				}
			}
			if !got || !anyLit(n.C, "nil|x1(", "ProofChain).Proof("+pdesc(ci)) {
				c.fail("verify", fname(f), c.p.ipos(ret), "a chain is accepted that did not give the expected root: %s", st.trace())
			}
		}
		a.run(c, "verify", f, "")
	}
	c.min("verify", 1)
	if m := c.p.method("trie", "NodeProof", "ExistenceMatch"); must(c, m, "scope", "NodeProof.ExistenceMatch") {
		existenceMatch(c, m)
	}
	if m := c.p.method("trie", "ProofChain", "Exist"); must(c, m, "scope", "ProofChain.Exist") {
		existChain(c, m)
	}
	if m := c.p.method("trie", "ProofChain", "HistoryProof"); must(c, m, "scope", "ProofChain.HistoryProof") {
		historyProof(c, m)
	}
	if m := c.p.method("trie", "ProofChain", "ExistenceHash"); must(c, m, "scope", "ProofChain.ExistenceHash") {
		a := litAuto(c.p, keepAll)
		a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
			if e.errResult(st, fr, ret) == 'V' {
				return
			}
			c.ob("existence-root", fname(m))
			if len(litsWith(st.C, "IsProofExistence(p0[c:0].PType", "T|")) == 0 && len(litsWith(st.C, "T|eq(", "p0[c:0].PType")) == 0 && len(litsWith(st.C, "some|x1")) == 0 {
				c.fail("existence-root", fname(m), c.p.ipos(ret), "gives the root of a chain that does not prove existence: %s", st.trace())
			}
		}
		a.run(c, "existence-root", m, "")
	}
	// (f) folding
	for _, f := range c.p.funcsIn("", "trie") {
		if f.Parent() == nil || len(f.Params) != 2 || !isByteSlice(f.Params[0].Type()) || !isBool(f.Params[1].Type()) || !callsNamed(f, "HashPairOrder") && f.Parent().Name() != "Proof" {
			continue
		}
		foldClosure(c, f)
	}
	c.min("fold", 3)
	if f := c.p.fn("", "HashPairOrder"); must(c, f, "scope", "HashPairOrder") {
		a := litAuto(c.p, keepAll)
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			g := e.callee(fr, call)
			if g == nil || len(call.Common().Args) != 1 || !g.Signature.Variadic() {
				if g != nil && len(call.Common().Args) == 2 && strings.HasPrefix(g.Name(), "HashPair") {
					x, y := e.desc(st, VV{fr, call.Common().Args[0]}), e.desc(st, VV{fr, call.Common().Args[1]})
					orderCheck(c, f, call, st, x, y)
				}
				return nil
			}
			if s, ok := e.res(st, VV{fr, call.Common().Args[0]}).v.(*ssa.Slice); ok {
				if el := variadicElems(s.X); len(el) == 2 {
					orderCheck(c, f, call, st, e.desc(st, VV{fr, el[0]}), e.desc(st, VV{fr, el[1]}))
				}
			}
			return nil
		}
		a.run(c, "order", f, "")
		c.min("order", 2)
	}
}

func orderCheck(c *Ctx, f *ssa.Function, call ssa.CallInstruction, st *State, x, y string) {
	c.ob("order", fname(f))
	left := x == "p1" && y == "p2" && hasTag(st.C, "T|p0")
	right := x == "p2" && y == "p1" && hasTag(st.C, "F|p0")
	if !left && !right {
		c.fail("order", fname(f), c.p.ipos(call), "combines %s and %s: %s", x, y, st.trace())
	}
}

// variadicElems: the values stored into the array of a variadic call.
func variadicElems(v ssa.Value) (out []ssa.Value) {
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	m := map[int64]ssa.Value{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := constInt(ia.Index)
		if !ok {
			return nil
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
				m[k] = s.Val
			}
		}
	}
	for i := int64(0); i < int64(len(m)); i++ {
		if m[i] == nil {
			return nil
		}
		out = append(out, m[i])
	}
	return
}

func callsNamed(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := staticCallee(call); g != nil && g.Name() == name {
					return true
				}
			}
		}
	}
	return false
}

// foldClosure: the accumulator becomes HashPairOrder(order, val, accumulator).
func foldClosure(c *Ctx, f *ssa.Function) {
	a := litAuto(c.p, keepAll)
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		s, ok := in.(*ssa.Store)
		if !ok {
			return nil
		}
		fv, ok := s.Addr.(*ssa.FreeVar)
		if !ok || !isByteSlice(s.Val.Type()) {
			return nil
		}
		d := e.desc(st, VV{fr, s.Val})
		want := "HashPairOrder(p1,p0,*fv:" + fv.Name() + "))"
		if !strings.HasPrefix(d, "x0(") || !strings.HasSuffix(d, want) {
			c.fail("fold", fname(f), c.p.ipos(in), "the accumulated hash becomes %s", d)
		}
		if hasTag(st.C, "folded") {
			c.fail("fold", fname(f), c.p.ipos(in), "folds a hash twice")
		}
		return []*State{st.tag("folded")}
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if e.errResult(st, fr, ret) == 'V' {
			return
		}
		c.ob("fold", fname(f))
		if !hasTag(st.C, "folded") {
			c.fail("fold", fname(f)+" skipped", c.p.ipos(ret), "a hash of the proof is not used: %s", st.trace())
		}
	}
	a.run(c, "fold", f, "")
}

func existenceMatch(c *Ctx, m *ssa.Function) {
	a := litAuto(c.p, keepAll)
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
		if recvNamed(callee) != nil && recvNamed(callee).Obj().Name() == "ProofType" || callee.Name() == "matchPrefix" || callee.Name() == "KeyToPrefix" || callee.Name() == "HasChild" {
			return false
		}
		return fnPkg(callee) == fnPkg(m)
	}
	at := func(s string) lin { l := newLin(0); l.at[s] = 1; return l }
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if len(ret.Results) != 4 || e.errResult(st, fr, ret) == 'V' {
			return
		}
		k := e.Fact(st, VV{fr, ret.Results[3]}).k
		if k != 'N' && !constNil(e.res(st, VV{fr, ret.Results[3]}).v) {
			// the error of a nested call handed on: nothing is decided
			return
		}
		c.ob("existence", fname(m))
		px, mt := "", ""
		for _, l := range strings.Split(st.C, ";") {
			for _, s := range []string{"len((*trie.NodeHeader).KeyToPrefix(", "len((trie.NodeHeader).KeyToPrefix("} {
				if i := strings.Index(l, s); i >= 0 {
					px = inParens(l[i+3:])
				}
			}
			if i := strings.Index(l, "trie.matchPrefix("); i >= 0 {
				mt = "trie.matchPrefix(" + inParens(l[i+len("trie.matchPrefix"):]) + ")"
			}
		}
		plen, klen := at("len("+px+")"), at("len(p1)")
		zero := func(d lin) bool { return isZero(st, d) }
		nonzero := func(d lin) bool {
			return hasTag(st.C, "ne|"+d.norm()) || hasTag(st.C, "ge|"+d.plus(newLin(1), -1).String())
		}
		matchOK := mt == "trie.matchPrefix("+px+",p1)"
		noPrefix := px != "" && zero(plen) || hasTag(st.C, "ge|"+plen.neg().String())
		prefixDone := noPrefix || matchOK && (zero(plen.plus(at(mt), -1)))
		keyDone := zero(klen) || hasTag(st.C, "ge|"+klen.neg().String()) || matchOK && zero(klen.plus(at(mt), -1))
		matched := e.Fact(st, VV{fr, ret.Results[0]}).k
		vh := e.desc(st, VV{fr, ret.Results[1]})
		first := "p1[0]"
		if !noPrefix {
			first = "p1[1*" + mt + "+0]"
		}
		switch {
		case matched == 'T' && vh != "nil":
			if vh != "p0.ValueHash" || !anyLit(st.C, "some|p0.ValueHash") {
				c.fail("existence", fname(m)+" value", c.p.ipos(ret), "reports %s as the hash of the value", vh)
			}
			if !prefixDone || !keyDone {
				c.fail("existence", fname(m)+" found", c.p.ipos(ret), "reports a value although prefix and key are not both used up: %s", st.trace())
			}
			if !anyLit(st.C, "F|", "IsProofValue(p0.PType") && !anyLit(st.C, "ne|", "p0.PType") {
				c.fail("existence", fname(m)+" kind", c.p.ipos(ret), "a proof of the value itself carries no value hash: %s", st.trace())
			}
		case matched == 'T':
			if !prefixDone || !anyLit(st.C, "T|", "HasChild(p0.Header", "IsProof") && !anyLit(st.C, "T|", "HasChild(p0.Header") {
				c.fail("existence", fname(m)+" down", c.p.ipos(ret), "goes on although the prefix of the node differs or the child is missing: %s", st.trace())
			}
			if !anyLit(st.C, "T|", "IsProofChild(p0.PType") || !hasTag(st.C, "eq|"+at(first).plus(at("p0.PType"), -1).norm()) {
				c.fail("existence", fname(m)+" child", c.p.ipos(ret), "goes on although the node does not prove the child of the key: %s", st.trace())
			}
			want := "p1[1:]"
			if !noPrefix {
				want = "p1[1*" + mt + "+1:]"
			}
			if s := e.seqTerm(st, VV{fr, ret.Results[2]}); s != want {
				c.fail("existence", fname(m)+" suffix", c.p.ipos(ret), "goes on with %s, want %s", s, want)
			}
		case matched == 'F':
			keyEmpty := zero(klen) || hasTag(st.C, "ge|"+klen.neg().String())
			short := keyEmpty && !noPrefix && nonzero(plen) || keyEmpty && hasTag(st.C, "ge|"+plen.plus(newLin(1), -1).String())
			differs := matchOK && (nonzero(plen.plus(at(mt), -1)) || zero(at(mt)))
			child := prefixDone && anyLit(st.C, "F|", "HasChild(p0.Header")
			if !short && !differs && !child {
				c.fail("existence", fname(m)+" absent", c.p.ipos(ret), "reports absence although neither the prefix differs nor the child is missing: %s", st.trace())
			}
		default:
			c.fail("existence", fname(m)+" undecided", c.p.ipos(ret), "the result is not decided on this path: %s", st.trace())
		}
	}
	a.run(c, "existence", m, "")
	c.min("existence", 5)
}

// existChain: the walk hands each node the suffix of the one before and trusts
// only decided answers.
func existChain(c *Ctx, m *ssa.Function) {
	a := litAuto(c.p, keepAll)
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		g := e.callee(fr, call)
		if g == nil || g.Name() != "ExistenceMatch" {
			return nil
		}
		k := e.desc(st, VV{fr, call.Common().Args[1]})
		c.ob("exist-walk", fname(m))
		if hasTag(st.C, "walked") {
			if !strings.HasPrefix(k, "x2(") || !strings.Contains(k, "ExistenceMatch(") {
				c.fail("exist-walk", fname(m)+" suffix", c.p.ipos(call), "hands the next node %s instead of the rest of the key", k)
			}
		} else if k != "p1" {
			c.fail("exist-walk", fname(m)+" key", c.p.ipos(call), "starts with %s instead of the key", k)
		}
		// literals of the previous node do not speak about this one
		st = st.withC(delTag(st.C, func(w string) bool { return strings.Contains(w, "ExistenceMatch(") }))
		return []*State{st.tag("walked")}
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if e.errResult(st, fr, ret) == 'V' || len(ret.Results) != 2 {
			return
		}
		c.ob("exist", fname(m))
		if !constNil(e.res(st, VV{fr, ret.Results[1]}).v) && e.Fact(st, VV{fr, ret.Results[1]}).k != 'N' {
			return
		}
		v := e.desc(st, VV{fr, ret.Results[0]})
		errNil := anyLit(st.C, "nil|x3(", "ExistenceMatch(")
		switch {
		case v == "nil":
			if !errNil || !anyLit(st.C, "F|x0(", "ExistenceMatch(") {
				c.fail("exist", fname(m)+" absent", c.p.ipos(ret), "reports absence without a node that shows it: %s", st.trace())
			}
		default:
			if !strings.HasPrefix(v, "x1(") || !strings.Contains(v, "ExistenceMatch(") || !errNil || !anyLit(st.C, "T|x0(", "ExistenceMatch(") {
				c.fail("exist", fname(m)+" found", c.p.ipos(ret), "reports %s: %s", v, st.trace())
			}
		}
	}
	a.run(c, "exist", m, "")
	c.min("exist", 2)
	c.min("exist-walk", 1)
}

func historyProof(c *Ctx, m *ssa.Function) {
	a := litAuto(c.p, keepAll)
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if e.errResult(st, fr, ret) == 'V' {
			return
		}
		c.ob("history", fname(m))
		if !anyLit(st.C, "T|", "IsNil(p1)") && !anyLit(st.C, "T|eq(", "BigKey(p0)", "p1") {
			c.fail("history", fname(m)+" height", c.p.ipos(ret), "accepts the chain without comparing its height: %s", st.trace())
		}
		v := e.desc(st, VV{fr, ret.Results[0]})
		if v != "nil" && (!strings.Contains(v, "ProofChain).Proof(p0,") || !anyLit(st.C, "nil|x1(", "ProofChain).Proof(p0,")) {
			c.fail("history", fname(m)+" root", c.p.ipos(ret), "returns %s as the root: %s", v, st.trace())
		}
		if v == "nil" && !hasTag(st.C, "ge|"+atom1("len(p2)").neg().String()) && !hasTag(st.C, "eq|"+atom1("len(p2)").norm()) {
			c.fail("history", fname(m)+" unproved", c.p.ipos(ret), "accepts a hash without proving it: %s", st.trace())
		}
	}
	a.run(c, "history", m, "")
	c.min("history", 2)
}

func atom1(s string) lin { l := newLin(0); l.at[s] = 1; return l }

// inParens: the text inside the parenthesis s starts with.
func inParens(s string) string {
	d := 0
	for i := range s {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
			if d == 0 {
				return s[1:i]
			}
		}
	}
	return ""
}
