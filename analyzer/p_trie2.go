package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T04",
		"every load of a node or value from the store (calls of DataAdapter.Load in trie) is followed path by path: the key is the hash recorded in that very node, decoding goes into a new object, the node receives content only after the decoding succeeded and then all of it, a value is set only from a successful decode, empty content is an error, and a Dump writes the loaded bytes under the loaded key; functions that walk the trees read the content of a node only after it is known not to be collapsed or has been expanded without error",
		"whether the bytes hash to the key (the store is trusted); iterators, printing and saving, which handle collapsed nodes as such",
		checkLoad)
}

func checkLoad(c *Ctx) {
	ks := trieKinds(c)
	if ks == nil {
		return
	}
	nk, tk := ks[0], ks[1]
	isKind := func(t types.Type) *nodeKind {
		switch namedOf(t) {
		case nk.t:
			return nk
		case tk.t:
			return tk
		}
		return nil
	}
	moved := map[*nodeKind][]string{nk: {"prefix", "children", "valuehash"}, tk: {"isLeaf", "Branchs", "Children", "Leafs"}}
	content := map[string]bool{"prefix": true, "children": true, "value": true, "valuehash": true, "Branchs": true, "Children": true, "Leafs": true, "isLeaf": true}
	var loaders []*ssa.Function
	for _, fn := range c.p.funcsIn("trie") {
		if hasLoad(fn) {
			loaders = append(loaders, fn)
		}
	}
	for _, fn := range loaders {
		fn := fn
		a := &auto{p: c.p}
		a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
			if fnPkg(callee) != fnPkg(fn) || hasLoad(callee) || callee.Name() == "Deserialization" || copies(callee) {
				return false
			}
			// helpers that write node content, and splitting helpers without loops
			return writesKindField(callee, ks, content) || len(callee.Blocks) <= 2
		}
		own := func(d string) bool { // the hash recorded in a node
			return strings.HasSuffix(d, ".hash") || strings.HasSuffix(d, ".valuehash") || strings.HasSuffix(d, `.Branchs[c:""]`)
		}
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			cc := call.Common()
			if isLoadCall(call) {
				k := e.desc(st, VV{fr, cc.Args[0]})
				recvd := e.desc(st, VV{fr, cc.Value})
				ok := own(k)
				if !ok && nodeParam(fn, ks) < 0 {
					return nil // a container of tries, not a node (see T12)
				}
				if !ok && strings.HasPrefix(k, "p") && len(k) == 2 {
					ok = loadKeyFromCallers(c, fn, int(k[1]-'0'))
				}
				c.check(ok, "load-key", fname(fn)+" "+recvd, c.p.ipos(call), "loads %s, which is not the hash recorded in the node", k)
				v := call.(ssa.Value)
				good, bad := st.clone(), st.clone()
				good.facts[fkey{fr, v, 1}] = fact{k: 'N'}
				bad.facts[fkey{fr, v, 1}] = fact{k: 'V'}
				return []*State{good.tag("loaded|" + k), bad}
			}
			if cc.IsInvoke() && cc.Method.Name() == "Save" {
				k := e.desc(st, VV{fr, cc.Args[0]})
				d := e.desc(st, VV{fr, cc.Args[1]})
				c.ob("dump", fname(fn))
				if !(strings.HasPrefix(d, "x0(") && strings.HasSuffix(d, "!Load("+k+"))")) {
					c.fail("dump", fname(fn)+" "+e.desc(st, VV{fr, cc.Value}), c.p.ipos(call), "writes %s under key %s: not the bytes loaded under that key", d, k)
				}
				return nil
			}
			pkg, name := calleePkgName(call)
			if strings.HasSuffix(pkg, "go-rtl") && name == "Decode" {
				args := callArgs(call)
				tgt := e.res(st, VV{fr, args[len(args)-1]})
				if mi, ok := tgt.v.(*ssa.MakeInterface); ok {
					tgt = e.res(st, VV{tgt.fr, mi.X})
				}
				c.ob("decode-target", fname(fn))
				base := tgt
				if fa, ok := tgt.v.(*ssa.FieldAddr); ok {
					base = e.res(st, VV{tgt.fr, fa.X})
				}
				fresh, _ := freshValue(e, st, base, 0)
				if !fresh {
					c.fail("decode-target", fname(fn)+" "+e.desc(st, tgt), c.p.ipos(call), "decodes into %s itself, so a failed decoding leaves it half-filled", e.desc(st, tgt))
				}
				ok, bad := st.tag("decoded|"+e.desc(st, tgt)), st
				return e.errSplit(ok, bad, fr, call)
			}
			if g := e.callee(fr, call); g != nil && g.Name() == "Deserialization" {
				tgt := e.res(st, VV{fr, cc.Args[0]})
				if fresh, _ := freshValue(e, st, tgt, 0); !fresh {
					c.fail("decode-target", fname(fn)+" Deserialization", c.p.ipos(call), "decodes into %s itself, so a failed decoding leaves it half-filled", e.desc(st, tgt))
				}
				n := st.tag("decoded|" + e.desc(st, tgt))
				if v, ok := call.(ssa.Value); ok {
					good, bad := n.clone(), st.clone()
					good.facts[fkey{fr, v, 1}] = fact{k: 'N'}
					bad.facts[fkey{fr, v, 1}] = fact{k: 'V'}
					return []*State{good, bad}
				}
			}
			if e.callee(fr, call) == nil && !cc.IsInvoke() {
				d := e.desc(st, VV{fr, cc.Value})
				if strings.HasSuffix(d, ".valueDecode") {
					v := call.(ssa.Value)
					good, bad := st.clone(), st.clone()
					good.facts[fkey{fr, v, 1}] = fact{k: 'N'}
					bad.facts[fkey{fr, v, 1}] = fact{k: 'V'}
					return []*State{good.tag("valued"), bad}
				}
			}
			return nil
		}
		a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
			r := e.res(st, VV{fr, cond})
			b, ok := r.v.(*ssa.BinOp)
			if !ok {
				return st
			}
			d := e.desc(st, r)
			for _, pre := range []string{"(len(x0(", "(c:0"} {
				if strings.HasPrefix(d, pre) && strings.Contains(d, "!Load(") && strings.Contains(d, "c:0") {
					if b.Op == token.EQL && taken || (b.Op == token.NEQ || b.Op == token.GTR) && !taken || b.Op == token.LEQ && taken {
						return st.tag("empty")
					}
				}
			}
			return st
		}
		a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
			s, ok := in.(*ssa.Store)
			if !ok {
				return nil
			}
			if pt, ok := s.Addr.Type().Underlying().(*types.Pointer); ok {
				if k := isKind(pt.Elem()); k != nil && pt.Elem() == types.Type(k.t) {
					if _, al := e.res(st, VV{fr, s.Addr}).v.(*ssa.Alloc); al {
						return nil
					}
					d := e.desc(st, VV{fr, s.Val})
					c.ob("assign", fname(fn)+" whole node")
					fresh := false
					if u, ok := e.res(st, VV{fr, s.Val}).v.(*ssa.UnOp); ok {
						fresh, _ = freshValue(e, st, VV{e.res(st, VV{fr, s.Val}).fr, u.X}, 0)
					}
					if !fresh || len(tagsWith(st.C, "decoded|")) == 0 {
						c.fail("assign", fname(fn)+" whole node", c.p.ipos(in), "the node is overwritten with %s before its content has been decoded: %s", d, st.trace())
					}
					b := e.desc(st, VV{fr, s.Addr})
					n := st
					for _, f := range moved[k] {
						n = n.tag("got|" + b + "|" + f)
					}
					return []*State{n}
				}
			}
			var fa *ssa.FieldAddr
			addr := s.Addr
			if ia, ok := addr.(*ssa.IndexAddr); ok {
				addr = ia.X
			}
			fa, ok = addr.(*ssa.FieldAddr)
			if !ok || isKind(fa.X.Type()) == nil || !content[fieldName(fa)] {
				return nil
			}
			base := VV{fr, fa.X}
			if fresh, _ := freshValue(e, st, base, 0); fresh {
				return nil
			}
			f := fieldName(fa)
			b := e.desc(st, base)
			d := e.desc(st, VV{fr, s.Val})
			c.ob("assign", fname(fn)+" "+f)
			switch {
			case f == "value":
				if !strings.Contains(d, ".valueDecode(") || !strings.HasPrefix(d, "x0(") || !hasTag(st.C, "valued") {
					c.fail("assign", fname(fn)+" value", c.p.ipos(in), "the value of the node becomes %s, which is not the successfully decoded value: %s", d, st.trace())
				}
				if !hasTag(st.C, "loaded|"+b+".valuehash") {
					c.fail("assign", fname(fn)+" value key", c.p.ipos(in), "the value of node %s is set from content that was not loaded under its value hash: %s", b, st.trace())
				}
			default:
				src := e.res(st, VV{fr, s.Val})
				if _, isMap := src.v.(*ssa.MakeMap); len(tagsWith(st.C, "loaded|")) == 0 && (isMap || d == "nil") {
					// resetting to the empty tree, which has no stored content
					return nil
				}
				fresh := false
				if u, ok := src.v.(*ssa.UnOp); ok {
					if sa, ok := e.res(st, VV{src.fr, u.X}).v.(*ssa.FieldAddr); ok && fieldName(sa) == f {
						fresh, _ = freshValue(e, st, VV{e.res(st, VV{src.fr, u.X}).fr, sa.X}, 0)
					}
				}
				if !fresh {
					c.fail("assign", fname(fn)+" "+f, c.p.ipos(in), "field %s of the node becomes %s, which is not that field of the newly decoded node: %s", f, d, st.trace())
				} else if len(tagsWith(st.C, "decoded|")) == 0 {
					c.fail("assign", fname(fn)+" "+f+" early", c.p.ipos(in), "field %s of the node is set before its content has been decoded successfully: %s", f, st.trace())
				}
				if !hasTag(st.C, "loaded|"+b+".hash") && isKind(fa.X.Type()) == nk {
					c.fail("assign", fname(fn)+" "+f+" key", c.p.ipos(in), "node %s receives content that was not loaded under its hash: %s", b, st.trace())
				}
			}
			return []*State{st.tag("got|" + b + "|" + f)}
		}
		a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
			err := e.errResult(st, fr, ret) == 'V'
			if hasTag(st.C, "empty") && !err && recvNamed(fn) == tk.t {
				c.fail("empty-content", fname(fn), c.p.ipos(ret), "missing content is taken for an empty node: %s", st.trace())
			}
			got := map[string]map[string]bool{}
			for _, w := range tagsWith(st.C, "got|") {
				p := strings.SplitN(w, "|", 2)
				if got[p[0]] == nil {
					got[p[0]] = map[string]bool{}
				}
				got[p[0]][p[1]] = true
			}
			for b, fs := range got {
				k := nk
				if fs["Children"] || fs["Leafs"] || fs["Branchs"] {
					k = tk
				}
				if len(fs) == 1 && fs["value"] {
					continue
				}
				c.ob("complete", fname(fn))
				for _, f := range moved[k] {
					if !fs[f] {
						c.fail("complete", fname(fn)+" "+f, c.p.ipos(ret), "node %s is left with only part of its loaded content (%s missing): %s", b, f, st.trace())
					}
				}
			}
			if !err && nodeParam(fn, ks) >= 0 && len(tagsWith(st.C, "loaded|")) > 0 && len(got) == 0 && fn.Name() != "Dump" {
				c.fail("complete", fname(fn)+" nothing", c.p.ipos(ret), "succeeds without giving the loaded content to the node: %s", st.trace())
			}
		}
		a.run(c, "load", fn, "")
	}
	checkExpanded(c, ks)
	c.min("load-key", 5)
	c.min("decode-target", 3)
	c.min("assign", 5)
	c.min("complete", 2)
	c.min("dump", 2)
}

func writesKindField(fn *ssa.Function, ks []*nodeKind, fields map[string]bool) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			s, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			addr := s.Addr
			if ia, ok := addr.(*ssa.IndexAddr); ok {
				addr = ia.X
			}
			if fa, ok := addr.(*ssa.FieldAddr); ok && fields[fieldName(fa)] {
				for _, k := range ks {
					if namedOf(fa.X.Type()) == k.t {
						return true
					}
				}
			}
		}
	}
	return false
}

// loadKeyFromCallers: every caller passes the hash recorded in the receiver.
func loadKeyFromCallers(c *Ctx, fn *ssa.Function, idx int) bool {
	n := 0
	okAll := true
	for _, g := range c.p.funcsIn("trie") {
		calls := false
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok && staticCallee(call) == fn {
					calls = true
				}
			}
		}
		if !calls {
			continue
		}
		a := &auto{p: c.p}
		a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool { return false }
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			if e.callee(fr, call) != fn {
				return nil
			}
			n++
			recv := e.desc(st, VV{fr, call.Common().Args[0]})
			k := e.desc(st, VV{fr, call.Common().Args[idx]})
			if k != recv+`.Branchs[c:""]` && k != recv+".hash" {
				okAll = false
				c.fail("load-key", fname(g)+" for "+fn.Name(), c.p.ipos(call), "node %s is read from key %s, which is not the hash recorded in it", recv, k)
			}
			return nil
		}
		a.run(c, "load", g, "")
	}
	return okAll && n > 0
}

// checkExpanded: walking functions read content only of nodes known to be expanded.
func checkExpanded(c *Ctx, ks []*nodeKind) {
	nk, tk := ks[0], ks[1]
	rule := "expanded"
	isExp := func(g *ssa.Function) bool { // primitive expanders
		return g != nil && hasLoad(g) && (recvNamed(g) == nk.t || recvNamed(g) == tk.t || nodeParam(g, ks) >= 0)
	}
	// expanding helpers: reach a primitive within trie and carry a node
	helper := map[*ssa.Function]bool{}
	for _, f := range c.p.funcsIn("trie") {
		if isExp(f) {
			helper[f] = true
		}
	}
	if len(helper) == 0 {
		return
	}
	calls := func(f *ssa.Function, set map[*ssa.Function]bool) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := staticCallee(call); g != nil && set[g] {
						return true
					}
				}
			}
		}
		return false
	}
	// thin wrappers: call expanders and read no content themselves
	reads := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok {
					for _, k := range ks {
						if namedOf(fa.X.Type()) == k.t && k.content[fieldName(fa)] {
							return true
						}
					}
				}
			}
		}
		return false
	}
	wrap := map[*ssa.Function]bool{}
	for g := range helper {
		wrap[g] = true
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.p.funcsIn("trie") {
			if !wrap[f] && calls(f, wrap) && !reads(f) && nodeParam(f, ks) >= 0 {
				wrap[f] = true
				ch = true
			}
		}
	}
	// functions that need their node expanded by the caller
	decoders := calleeClosure(c.p, func(f *ssa.Function) bool { return f.Name() == "Deserialization" })
	for _, f := range loadersOf(c.p) {
		for g := range calleeClosure(c.p, func(h *ssa.Function) bool { return h == f }) {
			if g != f {
				decoders[g] = true
			}
		}
	}
	assumed := map[*ssa.Function]int{}
	for _, f := range c.p.funcsIn("trie") {
		if i := nodeParam(f, ks); i >= 0 && !wrap[f] && reads(f) && calls(f, wrap) && !token.IsExported(f.Name()) && namedOf(f.Params[i].Type()) == nk.t && !expandsParam(f, i, wrap) {
			assumed[f] = i
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range c.p.funcsIn("trie") {
			i := nodeParam(f, ks)
			if _, done := assumed[f]; done || i < 0 || wrap[f] || token.IsExported(f.Name()) || namedOf(f.Params[i].Type()) != nk.t || expandsParam(f, i, wrap) {
				continue
			}
			set := map[*ssa.Function]bool{}
			for g := range assumed {
				set[g] = true
			}
			if expandsParam(f, i, set) {
				assumed[f] = i
				ch = true
			}
		}
	}
	iter := map[string]bool{}
	for _, f := range c.p.funcsIn("trie") {
		callsAssumed := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := staticCallee(call); g != nil {
						if _, ok := assumed[g]; ok {
							callsAssumed = true
						}
					}
				}
			}
		}
		if (wrap[f] || !reads(f) || !calls(f, wrap)) && !callsAssumed {
			continue
		}
		if decoders[f] || writesKindField(f, []*nodeKind{tk}, tk.content) {
			continue // T03 and the load rules above
		}
		pos := c.p.pos(f.Pos())
		if strings.HasPrefix(pos, "trie/iterator.go") || f.Name() == "Dump" || strings.Contains(strings.ToLower(f.Name()), "print") || f.Signature.Recv() != nil && iteratorRecv(f) {
			iter[fname(f)] = true
			continue
		}
		f := f
		a := &auto{p: c.p}
		a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
			return fnPkg(callee) == fnPkg(f) && (wrap[callee] && !isExp(callee))
		}
		split := func(e *Engine, st, good *State, fr *Frame, call ssa.CallInstruction) []*State {
			return e.errSplit(good, st, fr, call)
		}
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			g := e.callee(fr, call)
			if g == nil {
				return nil
			}
			args := call.Common().Args
			if i, ok := assumed[g]; ok {
				b := e.desc(st, VV{fr, args[i]})
				c.ob("expanded-call", fname(f))
				if j, ok := assumed[f]; ok && e.res(st, VV{fr, args[i]}).v == ssa.Value(f.Params[j]) {
					return nil
				}
				if hasTag(st.C, "nostore") {
					return nil
				}
				if e.Fact(st, VV{fr, args[i]}).k != 'N' && !(hasTag(st.C, "exp|"+b) && hasTag(st.C, "expv|"+b)) {
					c.fail("expanded-call", fname(f)+" "+g.Name(), c.p.ipos(call), "passes node %s, which may still be collapsed, to a function that reads its content: %s", b, st.trace())
				}
				return nil
			}
			if isExp(g) {
				i := nodeParam(g, ks)
				if i < 0 {
					return nil
				}
				b := e.desc(st, VV{fr, args[i]})
				if recvNamed(g) == nk.t { // loads the value of the node
					return split(e, st, st.tag("expv|"+b), fr, call)
				}
				return split(e, st, st.tag("exp|"+b).tag("expv|"+b), fr, call)
			}
			if len(args) > 0 && (recvNamed(g) == nk.t || recvNamed(g) == tk.t) && strings.Contains(strings.ToLower(g.Name()), "collapse") && g.Signature.Results().Len() == 1 && !isBool(g.Signature.Results().At(0).Type()) {
				b := e.desc(st, VV{fr, args[0]})
				return []*State{st.withC(delTag(st.C, func(w string) bool { return w == "exp|"+b || w == "expv|"+b }))}
			}
			return nil
		}
		a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
			r := e.res(st, VV{fr, cond})
			for {
				u, ok := r.v.(*ssa.UnOp)
				if !ok || u.Op != token.NOT {
					break
				}
				r = e.res(st, VV{r.fr, u.X})
				taken = !taken
			}
			if bo, ok := r.v.(*ssa.BinOp); ok && (bo.Op == token.EQL || bo.Op == token.NEQ) {
				if n := namedOf(bo.X.Type()); n != nil && n.Obj().Name() == "DataAdapter" && constNil(bo.Y) && taken == (bo.Op == token.EQL) {
					return st.tag("nostore") // a tree without a store never collapses
				}
				if b, isC := constBool(bo.Y); isC {
					if (b == false) == (bo.Op == token.EQL) {
						taken = !taken
					}
					r = e.res(st, VV{r.fr, bo.X})
				}
			}
			call, ok := r.v.(*ssa.Call)
			if !ok {
				return st
			}
			g := staticCallee(call)
			if g == nil || len(call.Call.Args) == 0 {
				return st
			}
			b := e.desc(st, VV{r.fr, call.Call.Args[0]})
			switch {
			case g.Name() == "isCollapsed" && !taken:
				return st.tag("exp|" + b)
			case g.Name() == "isValueCollapsed" && !taken, g.Name() == "hasValue" && taken:
				return st.tag("expv|" + b)
			}
			return st
		}
		a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
			fa, ok := in.(*ssa.FieldAddr)
			if !ok || fr.parent != nil {
				return nil
			}
			for _, k := range ks {
				if namedOf(fa.X.Type()) != k.t || !k.content[fieldName(fa)] {
					continue
				}
				base := VV{fr, fa.X}
				if fresh, _ := freshValue(e, st, base, 0); fresh || e.Fact(st, base).k == 'N' {
					return nil
				}
				if i, ok := assumed[f]; ok && e.res(st, base).v == ssa.Value(f.Params[i]) {
					return nil
				}
				if hasTag(st.C, "nostore") {
					return nil
				}
				b := e.desc(st, base)
				fld := fieldName(fa)
				c.ob(rule, fname(f)+" "+fld)
				if fld == "value" && !hasTag(st.C, "expv|"+b) {
					c.fail(rule, fname(f)+" "+fld, c.p.ipos(in), "reads the value of node %s, which may still be collapsed: %s", b, st.trace())
				}
				if fld != "value" && !hasTag(st.C, "exp|"+b) {
					c.fail(rule, fname(f)+" "+fld, c.p.ipos(in), "reads %s of node %s, which may still be collapsed: %s", fld, b, st.trace())
				}
			}
			return nil
		}
		a.run(c, rule, f, "")
	}
	if len(iter) > 0 {
		c.except("iteration and printing", strings.Join(sortedKeys(iter), ", ")+" tolerate nodes that cannot be loaded by design (their interface has no error); see T09")
	}
	c.min(rule, 20)
}

func iteratorRecv(f *ssa.Function) bool {
	n := recvNamed(f)
	if n == nil {
		return false
	}
	ms := types.NewMethodSet(types.NewPointer(n))
	return ms.Lookup(n.Obj().Pkg(), "Next") != nil && ms.Lookup(n.Obj().Pkg(), "Current") != nil
}

func loadersOf(p *Prog) (out []*ssa.Function) {
	for _, f := range p.funcsIn("trie") {
		if hasLoad(f) {
			out = append(out, f)
		}
	}
	return
}

// calleeClosure: the selected functions and what they call in their package.
func calleeClosure(p *Prog, sel func(*ssa.Function) bool) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if set[f] {
			return
		}
		set[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(ssa.CallInstruction); ok {
					if g := staticCallee(call); g != nil && fnPkg(g) == fnPkg(f) && g.Blocks != nil {
						add(g)
					}
				}
			}
		}
	}
	for _, f := range p.funcsIn("trie") {
		if sel(f) {
			add(f)
		}
	}
	return set
}

// expandsParam: f calls an expander on its own i-th parameter.
func expandsParam(f *ssa.Function, i int, wrap map[*ssa.Function]bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if call, ok := in.(ssa.CallInstruction); ok {
				if g := staticCallee(call); g != nil && wrap[g] {
					for _, a := range call.Common().Args {
						if a == ssa.Value(f.Params[i]) {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
