package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T03",
		"every function of trie that writes the content of a trie node (prefix, children, value) or of a history tree node (Children, Leafs), directly or through unexported helpers, is explored path by path: on every return each cached quantity that depends on the written content has been dropped (node hash, value hash, the branch hashes of exactly the written index) and the node is marked dirty; a recursive change of a descendant marks every node of the path, is reported to the caller, and a replaced child is linked in",
		"contents assigned from the store while loading (see T04), collapsing after a successful hash, and proofs already verified against the root (see T06) are recognised as not changing the node",
		checkInvalidation)
}

// freshBase: v is a struct created by this activation (or returned fresh by a constructor).
func freshValue(e *Engine, st *State, x VV, d int) (fresh, local bool) {
	x = e.res(st, x)
	if d > 6 {
		return false, false
	}
	switch v := x.v.(type) {
	case *ssa.Alloc:
		return true, true
	case *ssa.Const:
		return v.Value == nil, false
	case *ssa.Call:
		return freshFn(staticCallee(v), 0, 0), false
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return freshFn(staticCallee(c), v.Index, 0), false
		}
	case *ssa.Phi:
		for _, ed := range v.Edges {
			if ed == v {
				continue
			}
			if f, _ := freshValue(e, nil, VV{x.fr, ed}, d+1); !f {
				return false, false
			}
		}
		return true, false
	}
	return false, false
}

// freshFn: result idx of f is nil or a struct allocated in f (or by such a function) that is not stored anywhere else by f's callers' view.
func freshFn(f *ssa.Function, idx, d int) bool {
	if f == nil || f.Blocks == nil || d > 4 || idx >= f.Signature.Results().Len() {
		return false
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			continue
		}
		if !freshVal(r.Results[idx], d, map[ssa.Value]bool{}) {
			return false
		}
	}
	return true
}

func freshVal(v ssa.Value, d int, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc:
		return x.Heap
	case *ssa.Const:
		return x.Value == nil
	case *ssa.Call:
		return freshFn(staticCallee(x), 0, d+1)
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return freshFn(staticCallee(c), x.Index, d+1)
		}
	case *ssa.Phi:
		for _, ed := range x.Edges {
			if !freshVal(ed, d, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp: // named result cell
		if al, ok := x.X.(*ssa.Alloc); ok && !al.Heap {
			for _, r := range *al.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == al && !freshVal(s.Val, d, seen) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// nodeKind describes a node type, its content and what is derived from it.
type nodeKind struct {
	t       *types.Named
	content map[string]bool
	dirty   string
}

func trieKinds(c *Ctx) []*nodeKind {
	n := c.p.named("trie", "node")
	t := c.p.named("trie", "TreeNode")
	if n == nil || t == nil {
		c.fail("anchors", "node types", "-", "the node types of the trie and of the history tree were not found")
		return nil
	}
	return []*nodeKind{
		{n, map[string]bool{"prefix": true, "children": true, "value": true}, "dirty"},
		{t, map[string]bool{"Children": true, "Leafs": true}, "isDirty"},
	}
}

// contentAddr: the struct base and content field an address points into.
func contentAddr(k *nodeKind, a ssa.Value) (base ssa.Value, field string, index ssa.Value) {
	if ia, ok := a.(*ssa.IndexAddr); ok {
		index = ia.Index
		a = ia.X
		if l, ok := a.(*ssa.UnOp); ok { // slice content (prefix bytes)
			a = l.X
		}
		if s, ok := a.(*ssa.Slice); ok {
			a = s.X
			if l, ok := a.(*ssa.UnOp); ok {
				a = l.X
			}
		}
	}
	fa, ok := a.(*ssa.FieldAddr)
	if !ok || namedOf(fa.X.Type()) != k.t {
		return nil, "", nil
	}
	f := fieldName(fa)
	if !k.content[f] {
		return nil, "", nil
	}
	return fa.X, f, index
}

// contentWriters: functions of trie with a direct write to node content.
func contentWriters(p *Prog, ks []*nodeKind) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, fn := range p.funcsIn("trie") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, k := range ks {
					switch x := in.(type) {
					case *ssa.Store:
						if base, _, _ := contentAddr(k, x.Addr); base != nil {
							out[fn] = true
						}
						if pt, ok := x.Addr.Type().Underlying().(*types.Pointer); ok && namedOf(pt.Elem()) == k.t && pt.Elem() == types.Type(k.t) {
							if _, isAl := x.Addr.(*ssa.Alloc); !isAl {
								out[fn] = true
							}
						}
					}
				}
			}
		}
	}
	return out
}

// closure of callers within trie over static calls
func callersClosure(p *Prog, set map[*ssa.Function]bool) map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for f := range set {
		out[f] = true
	}
	for ch := true; ch; {
		ch = false
		for _, fn := range p.funcsIn("trie") {
			if out[fn] {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok {
						if g := staticCallee(call); g != nil && out[g] && !out[fn] {
							out[fn] = true
							ch = true
						}
					}
				}
			}
		}
	}
	return out
}

func isLoadCall(call ssa.CallInstruction) bool {
	cc := call.Common()
	return cc.IsInvoke() && cc.Method.Name() == "Load" && cc.Method.Pkg() != nil && strings.HasSuffix(cc.Method.Pkg().Path(), "/db")
}

func hasHashItems(fn *ssa.Function) bool {
	for _, p := range fn.Params {
		if s, ok := p.Type().Underlying().(*types.Slice); ok {
			if n := namedOf(s.Elem()); n != nil && n.Obj().Name() == "HashItem" {
				return true
			}
		}
	}
	return false
}

// openBracket: position of the bracket matching a final "]".
func openBracket(s string) int {
	if !strings.HasSuffix(s, "]") {
		return -1
	}
	n := 0
	for i := len(s) - 1; i >= 0; i-- {
		switch s[i] {
		case ']':
			n++
		case '[':
			n--
			if n == 0 {
				return i
			}
		}
	}
	return -1
}

func stripConv(d string) string {
	for strings.HasPrefix(d, "conv:") {
		i := strings.Index(d, "(")
		if i < 0 || !strings.HasSuffix(d, ")") {
			return d
		}
		d = d[i+1 : len(d)-1]
	}
	return d
}

func checkInvalidation(c *Ctx) {
	ks := trieKinds(c)
	if ks == nil {
		return
	}
	nk, tk := ks[0], ks[1]
	writers := contentWriters(c.p, ks)
	trans := callersClosure(c.p, writers)
	c.obn("content writers", len(writers))
	// functions that only drop caches, and functions that fill them
	nilers, fillers := map[*ssa.Function]bool{}, map[*ssa.Function]bool{}
	caches := map[string]bool{"hash": true, "valuehash": true, "valuestream": true}
	for _, fn := range c.p.funcsIn("trie") {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					fa, ok := x.Addr.(*ssa.FieldAddr)
					if !ok {
						continue
					}
					t := namedOf(fa.X.Type())
					if t == nk.t && caches[fieldName(fa)] {
						if constNil(x.Val) {
							nilers[fn] = true
						} else if _, al := fa.X.(*ssa.Alloc); !al {
							fillers[fn] = true
						}
					}
					if (t == nk.t && fieldName(fa) == nk.dirty) || (t == tk.t && fieldName(fa) == tk.dirty) {
						if b, ok := constBool(x.Val); ok && b {
							nilers[fn] = true
						}
					}
				case *ssa.MapUpdate:
					if isField(x.Map, tk.t, "Branchs") {
						if _, al := baseOfField(x.Map).(*ssa.Alloc); !al {
							fillers[fn] = true
						}
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" && len(x.Call.Args) == 2 && isField(x.Call.Args[0], tk.t, "Branchs") {
						nilers[fn] = true
					}
				}
			}
		}
	}
	// and those that only pass their receiver on to one of these
	for changed := true; changed; {
		changed = false
		for _, fn := range c.p.funcsIn("trie") {
			if t := recvNamed(fn); nilers[fn] || t != nk.t && t != tk.t || len(fn.Params) != 1 || !smallFn(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(*ssa.Call); ok && nilers[staticCallee(call)] && len(call.Call.Args) > 0 && call.Call.Args[0] == ssa.Value(fn.Params[0]) {
						nilers[fn] = true
						changed = true
					}
				}
			}
		}
	}
	fillTrans := callersClosure(c.p, fillers)
	// the routine that clears the branch hashes of an index
	clearers := map[*ssa.Function]bool{}
	for f := range nilers {
		if !fillers[f] && recvNamed(f) == tk.t && len(f.Params) == 2 && isByteSlice(f.Params[1].Type()) {
			clearers[f] = true
		}
	}
	for f := range clearers {
		checkClearer(c, f)
	}
	if len(clearers) == 0 {
		c.fail("clear-branches", "anchor", "-", "no routine that clears the branch hashes above an index was found")
	}
	// fixpoint over entries: direct writers, then callers of functions that leave duties behind
	leaky := map[*ssa.Function]bool{}
	done := map[*ssa.Function]bool{}
	var work []*ssa.Function
	for f := range writers {
		work = append(work, f)
	}
	recursive := map[*ssa.Function]bool{}
	for f := range trans {
		if callsItself(f) && nodeParam(f, ks) >= 0 && !loaderOnly(f, writers, trans, map[*ssa.Function]bool{}) {
			recursive[f] = true
			if !writers[f] {
				work = append(work, f)
			}
		}
	}
	callers := func(f *ssa.Function) (out []*ssa.Function, escapes bool) {
		for _, g := range c.p.funcsIn("trie") {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if call, ok := in.(ssa.CallInstruction); ok && staticCallee(call) == f {
						out = append(out, g)
					} else {
						for _, op := range in.Operands(nil) {
							if *op == ssa.Value(f) {
								if call, ok := in.(ssa.CallInstruction); !ok || call.Common().Value != ssa.Value(f) {
									escapes = true
								}
							}
						}
					}
				}
			}
		}
		return
	}
	for f := range recursive {
		if nodeResult(f, nk) < 0 {
			continue
		}
		cs, _ := callers(f)
		for _, g := range cs {
			if !done[g] && !recursive[g] && !writers[g] {
				work = append(work, g)
			}
		}
	}
	for len(work) > 0 {
		sort.Slice(work, func(i, j int) bool { return fname(work[i]) < fname(work[j]) })
		f := work[0]
		work = work[1:]
		if done[f] {
			continue
		}
		done[f] = true
		pend := invalidationOf(c, f, ks, writers, trans, nilers, fillTrans, clearers, leaky, recursive)
		if len(pend) == 0 {
			continue
		}
		cs, esc := callers(f)
		deferrable := !isExportedFn(f) && !recursive[f] && len(cs) > 0 && !esc && f.Name() != "Deserialization"
		for _, pd := range pend {
			if !strings.HasPrefix(pd.base, "p") {
				deferrable = false
			}
		}
		if f.Name() == "Deserialization" {
			c.except(fname(f), "fills a node from its encoding; that the node is new at that point is T04's obligation")
			continue
		}
		if !deferrable {
			for _, pd := range pend {
				c.fail("invalidate", fname(f)+" "+pd.what, pd.where, "%s", pd.msg)
			}
			continue
		}
		leaky[f] = true
		for _, g := range cs {
			if g != f {
				delete(done, g)
				work = append(work, g)
			}
		}
	}
	// clones of the duty for functions that were judged before a callee became leaky are re-run above
	c.min("content writers", 14)
	c.min("invalidate", 30)
	c.min("recursive-change", 3)
	c.min("relink", 2)
	c.min("clear-branches", 1)
}

func isField(v ssa.Value, t *types.Named, f string) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok {
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	return ok && namedOf(fa.X.Type()) == t && fieldName(fa) == f
}

func baseOfField(v ssa.Value) ssa.Value {
	if u, ok := v.(*ssa.UnOp); ok {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			return fa.X
		}
	}
	return nil
}

func callsItself(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && staticCallee(call) == f {
				return true
			}
		}
	}
	return false
}

// nodeParam: index of the first parameter that is a node.
func nodeParam(f *ssa.Function, ks []*nodeKind) int {
	for i, p := range f.Params {
		if pt, ok := p.Type().(*types.Pointer); ok {
			for _, k := range ks {
				if namedOf(pt.Elem()) == k.t {
					return i
				}
			}
		}
	}
	return -1
}

// nodeResult: index of a node among the results of f (the possibly replaced node).
func nodeResult(f *ssa.Function, k *nodeKind) int {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if namedOf(rs.At(i).Type()) == k.t {
			return i
		}
	}
	return -1
}

type pending struct{ base, what, where, msg string }

func invalidationOf(c *Ctx, f *ssa.Function, ks []*nodeKind, writers, trans, nilers, fillTrans, clearers, leaky, recursive map[*ssa.Function]bool) (out []pending) {
	nk, tk := ks[0], ks[1]
	seen := map[string]bool{}
	resIdx := -1
	nodeRes := nodeResult(f, nk)
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if resIdx < 0 && isBool(rs.At(i).Type()) {
			resIdx = i
		}
	}
	a := &auto{p: c.p}
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
		if leaky[callee] {
			return true
		}
		if rt := recvNamed(callee); writers[callee] && !recursive[callee] && !hasLoad(callee) && (rt == nk.t || rt == tk.t) && !hasHashItems(callee) && !isExportedFn(callee) {
			return true
		}
		// invalidators and helpers around them that write no content
		return nilers[callee] && !trans[callee] && !clearers[callee] && fnPkg(callee) == fnPkg(f)
	}
	need := func(st *State, base, what string) *State {
		if hasTag(st.C, "have|"+base+"|"+what) {
			return st
		}
		return st.tag("need|" + base + "|" + what)
	}
	have := func(st *State, base, what string) *State {
		n := st.withC(delTag(st.C, func(w string) bool { return w == "need|"+base+"|"+what }))
		return n.tag("have|" + base + "|" + what)
	}
	lose := func(st *State, base, what string) *State {
		return st.withC(delTag(st.C, func(w string) bool {
			return strings.HasPrefix(w, "have|") && (base == "" || w == "have|"+base+"|"+what)
		}))
	}
	content := func(e *Engine, st *State, fr *Frame, k *nodeKind, base VV, field string, index ssa.Value, val ssa.Value, in ssa.Instruction) *State {
		b := e.desc(st, base)
		fresh, local := freshValue(e, st, base, 0)
		c.ob("invalidate", fname(fr.fn)+" "+field)
		if hasTag(st.C, "loaded") {
			return st
		}
		if !fresh && val != nil && constNil(val) && hasTag(st.C, "hashed|"+b) {
			return st // collapse
		}
		n := st
		if !fresh {
			n = n.tag("mutated")
		}
		if fresh && !local {
			return n
		}
		n = need(n, b, k.dirty)
		if fresh {
			return n
		}
		if k == nk {
			n = need(n, b, "hash")
			if field == "value" {
				n = need(n, b, "valuehash")
			}
		} else {
			if hasHashItems(fr.fn) {
				return n
			}
			ix := "*"
			if index != nil {
				ix = stripConv(e.desc(n, VV{fr, index}))
			}
			if !hasTag(n.C, "have|"+b+"|branches:*") {
				n = need(n, b, "branches:"+ix)
			}
		}
		return n
	}
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		switch x := in.(type) {
		case *ssa.Store:
			if rl := tagsWith(st.C, "relink|"); len(rl) > 0 {
				d := e.desc(st, VV{fr, x.Val})
				for _, r := range rl {
					if d == r {
						st = st.withC(delTag(st.C, func(w string) bool { return w == "relink|"+r }))
					}
				}
			}
			for _, k := range ks {
				if base, field, ix := contentAddr(k, x.Addr); base != nil {
					n := content(e, st, fr, k, VV{fr, base}, field, ix, x.Val, in)
					return []*State{n}
				}
			}
			fa, ok := x.Addr.(*ssa.FieldAddr)
			if !ok {
				if pt, ok := x.Addr.Type().Underlying().(*types.Pointer); ok {
					for _, k := range ks {
						if pt.Elem() == types.Type(k.t) && !hasTag(st.C, "loaded") {
							if _, isAl := x.Addr.(*ssa.Alloc); !isAl {
								c.fail("invalidate", fname(fr.fn)+" whole node", c.p.ipos(in), "a node is overwritten as a whole with something that was not just loaded from the store")
							}
						}
					}
				}
				return nil
			}
			t := namedOf(fa.X.Type())
			if t != nk.t && t != tk.t {
				return []*State{st}
			}
			b := e.desc(st, VV{fr, fa.X})
			fld := fieldName(fa)
			switch {
			case t == nk.t && (fld == "hash" || fld == "valuehash"):
				if e.Fact(st, VV{fr, x.Val}).k == 'N' {
					return []*State{have(st, b, fld)}
				}
				return []*State{lose(st, b, fld)}
			case t == nk.t && fld == nk.dirty, t == tk.t && fld == tk.dirty:
				if e.Fact(st, VV{fr, x.Val}).k == 'T' {
					return []*State{have(st, b, fld)}
				}
				if e.Fact(st, VV{fr, x.Val}).k == 'F' && t == tk.t && hasTag(st.C, "have|"+b+"|branches:*") {
					return []*State{have(st, b, fld)} // emptied as a whole
				}
				return []*State{lose(st, b, fld)}
			case t == tk.t && fld == "Branchs":
				if _, ok := e.res(st, VV{fr, x.Val}).v.(*ssa.MakeMap); ok {
					n := st.withC(delTag(st.C, func(w string) bool { return strings.HasPrefix(w, "need|"+b+"|branches:") }))
					return []*State{n.tag("have|" + b + "|branches:*")}
				}
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
				for _, k := range ks {
					if u, ok := x.Call.Args[0].(*ssa.UnOp); ok {
						if fa, ok := u.X.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == k.t && k.content[fieldName(fa)] {
							return []*State{content(e, st, fr, k, VV{fr, fa.X}, fieldName(fa), nil, nil, in)}
						}
					}
				}
			}
		}
		return nil
	}
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		if isLoadCall(call) {
			return []*State{st.tag("loaded")}
		}
		g := e.callee(fr, call)
		if g == nil {
			return nil
		}
		args := call.Common().Args
		if clearers[g] && len(args) == 2 {
			b := e.desc(st, VV{fr, args[0]})
			d := e.desc(st, VV{fr, args[1]})
			ix := "?" + d
			if strings.HasPrefix(d, "x0(trie.ToBinary(") {
				in := strings.TrimSuffix(strings.TrimPrefix(d, "x0(trie.ToBinary("), "))")
				if i := strings.LastIndex(in, ","); i > 0 {
					ix = stripConv(in[:i])
				}
			}
			return []*State{have(st, b, "branches:"+ix)}
		}
		if recursive[g] && g == f && fr.parent == nil {
			// the result says whether the descendant changed
			i := nodeParam(g, ks)
			child := e.desc(st, VV{fr, args[i]})
			base := "p" + itoa(int64(i))
			fresh, _ := freshValue(e, st, VV{fr, args[i]}, 0)
			k := nk
			if namedOf(args[i].Type()) == tk.t {
				k = tk
			}
			if fresh {
				return nil
			}
			if resIdx < 0 {
				return nil
			}
			c.ob("recursive-change", fname(f)+" of "+child)
			v, ok := call.(ssa.Value)
			if !ok {
				c.fail("recursive-change", fname(f)+" ignored", c.p.ipos(call), "the result of the recursive change is ignored")
				return nil
			}
			key := func(idx int) fkey {
				if rs.Len() == 1 {
					return fkey{fr, v, -1}
				}
				return fkey{fr, v, idx}
			}
			// unchanged
			u := st.clone()
			u.facts[key(resIdx)] = fact{k: 'F'}
			u = u.tag("unchanged")
			// changed: what depends on the descendant must go, whatever was true before the call
			ch := st.clone()
			ch.facts[key(resIdx)] = fact{k: 'T'}
			ch = lose(ch, "", "")
			ch = ch.tag("mutated")
			ch = need(ch, base, k.dirty)
			if k == nk {
				ch = need(ch, base, "hash")
			} else {
				ix := "?"
				if j := openBracket(child); j > 0 {
					ix = stripConv(child[j+1 : len(child)-1])
				}
				ch = need(ch, base, "branches:"+ix)
			}
			outs := []*State{u, ch}
			if nodeRes > 0 && rs.Len() > 2 && isBool(rs.At(1).Type()) && resIdx == 0 {
				r := ch.clone()
				r.facts[key(1)] = fact{k: 'T'}
				r = r.tag("relink|x" + itoa(int64(nodeRes)) + "(" + e.desc(st, VV{fr, v}) + ")")
				c.ob("relink", fname(f))
				ch.facts[key(1)] = fact{k: 'F'}
				outs = append(outs, r)
			}
			return outs
		}
		if nr := nodeResult(g, nk); recursive[g] && g != f && nr >= 2 {
			v, ok := call.(ssa.Value)
			if !ok {
				c.fail("relink", fname(f), c.p.ipos(call), "the possibly replaced root of the changed subtree is ignored")
				return nil
			}
			var outs []*State
			for _, r := range [][2]byte{{'F', 'F'}, {'T', 'F'}, {'T', 'T'}} {
				n := st.clone()
				n.facts[fkey{fr, v, 0}] = fact{k: r[0]}
				n.facts[fkey{fr, v, 1}] = fact{k: r[1]}
				if r[1] == 'T' {
					n = n.tag("relink|" + "x" + itoa(int64(nr)) + "(" + e.desc(st, VV{fr, v}) + ")")
				}
				if r[0] == 'T' {
					n = n.tag("mutated")
				}
				outs = append(outs, n)
			}
			c.ob("relink", fname(f))
			return outs
		}
		name := g.Name()
		if len(args) > 0 && (namedOf(args[0].Type()) == nk.t || namedOf(args[0].Type()) == tk.t) {
			b := e.desc(st, VV{fr, args[0]})
			if (fillTrans[g] || strings.Contains(strings.ToLower(name), "hash")) && !trans[g] {
				n := lose(st, b, "hash")
				n = lose(n, b, "valuehash")
				n = n.withC(delTag(n.C, func(w string) bool { return strings.HasPrefix(w, "have|"+b+"|branches:") }))
				if rs := g.Signature.Results(); rs.Len() > 0 && isErrorType(rs.At(rs.Len()-1).Type()) {
					n = n.tag("hashed|" + b)
				}
				return []*State{n}
			}
		}
		if trans[g] {
			// a helper judged on its own: it changes nodes unless it only loads them
			ro := loaderOnly(g, writers, trans, map[*ssa.Function]bool{})
			if ro {
				return nil
			}
			n := st.tag("mutated")
			// linking a replaced child
			for _, r := range tagsWith(n.C, "relink|") {
				for _, x := range args {
					if e.desc(n, VV{fr, x}) == r {
						n = n.withC(delTag(n.C, func(w string) bool { return w == "relink|"+r }))
					}
				}
			}
			return []*State{n}
		}
		return nil
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if e.errResult(st, fr, ret) == 'V' {
			return
		}
		for _, w := range tagsWith(st.C, "need|") {
			if seen[w] {
				continue
			}
			seen[w] = true
			p := strings.SplitN(w, "|", 2)
			out = append(out, pending{p[0], p[1], c.p.ipos(ret), "the content of node " + p[0] + " changes but " + describeNeed(p[1]) + ": " + st.trace()})
		}
		if recursive[f] && resIdx >= 0 && hasTag(st.C, "mutated") && !hasTag(st.C, "unchanged") {
			c.check(e.Fact(st, VV{fr, ret.Results[resIdx]}).k != 'F', "reported", fname(f), c.p.ipos(ret), "a node below changed but the caller is told that nothing changed, so the hashes above it stay: %s", st.trace())
		}
		for _, r := range tagsWith(st.C, "relink|") {
			c.fail("relink", fname(f), c.p.ipos(ret), "the replaced child returned by %s is not linked into its parent: %s", r, st.trace())
		}
	}
	a.run(c, "invalidate", f, "")
	return out
}

func describeNeed(w string) string {
	switch {
	case w == "dirty" || w == "isDirty":
		return "the node is not marked dirty, so the change is never saved"
	case strings.HasPrefix(w, "branches:"):
		return "the cached branch hashes above index " + strings.TrimPrefix(w, "branches:") + " are kept"
	}
	return "its cached " + w + " is kept"
}

// loaderOnly: every content write g reaches goes through functions that load nodes from the store.
func loaderOnly(g *ssa.Function, writers, trans map[*ssa.Function]bool, seen map[*ssa.Function]bool) bool {
	if seen[g] {
		return true
	}
	seen[g] = true
	if hasLoad(g) {
		return true
	}
	if writers[g] {
		return false
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if h := staticCallee(call); h != nil && trans[h] && !loaderOnly(h, writers, trans, seen) {
					return false
				}
			}
		}
	}
	return true
}

func hasLoad(g *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok && isLoadCall(call) {
				return true
			}
		}
	}
	return false
}

// checkClearer: for a path of any length the routine deletes the hash of every
// proper prefix, of lengths 0..3, from the branch map. The lengths are found by
// propagating the constant length of the argument.
func checkClearer(c *Ctx, f *ssa.Function) {
	rule := "clear-branches"
	c.ob(rule, fname(f))
	del := map[string]bool{}
	a := &auto{p: c.p}
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool { return false }
	e := newEngine(c.p, a)
	e.Alias, e.Fold = true, true
	lenOf := func(st *State, fr *Frame, v ssa.Value) (string, bool) {
		r := e.res(st, VV{fr, v})
		if r.v == ssa.Value(f.Params[1]) {
			return "4", true
		}
		if s, ok := r.v.(*ssa.Slice); ok && s.High != nil && s.Low == nil {
			if k := e.Fact(st, VV{r.fr, s.High}); k.k == 'C' {
				return k.c, true
			}
		}
		return "", false
	}
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		call, ok := in.(*ssa.Call)
		if !ok {
			return nil
		}
		bi, ok := call.Call.Value.(*ssa.Builtin)
		if !ok {
			return nil
		}
		switch bi.Name() {
		case "len":
			if k, ok := lenOf(st, fr, call.Call.Args[0]); ok {
				n := st.clone()
				n.facts[fkey{fr, call, -1}] = fact{k: 'C', c: k}
				return []*State{n}
			}
		case "delete":
			if strings.HasSuffix(e.desc(st, VV{fr, call.Call.Args[0]}), ".Branchs") {
				d := call.Call.Args[1]
				if cv, ok := d.(*ssa.Convert); ok {
					d = cv.X
				}
				k := "?"
				if cst, ok := d.(*ssa.Const); ok && cst.Value != nil && cst.Value.ExactString() == `""` {
					k = "0"
				} else if l, ok := lenOf(st, fr, d); ok {
					k = l
				}
				return []*State{st.tag("del:" + k)}
			}
		}
		return nil
	}
	n := 0
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if e.errResult(st, fr, ret) == 'V' {
			return
		}
		n++
		for _, l := range []string{"0", "1", "2", "3"} {
			if !hasTag(st.C, "del:"+l) {
				c.fail(rule, fname(f)+" length "+l, c.p.ipos(ret), "the hash of the subtree at the length-%s prefix of the changed index is not dropped: %s", l, st.trace())
			}
		}
		for _, k := range tagsWith(st.C, "del:") {
			del[k] = true
		}
	}
	e.MaxSteps = 500000
	e.Run(f, "")
	c.funcs[fname(f)] = true
	if n == 0 {
		c.fail(rule, fname(f)+" exits", c.p.pos(f.Pos()), "no successful exit was reached")
	}
}
