package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("T05",
		"every method of the revertable trees is explored path by path with the state of its two trees: changing operations reach only the live tree after the origin has been saved and replaced by a clone of itself; committed reads never use the live tree and live reads use it exactly when it exists; the live tree becomes the origin only after it was committed successfully and together with dropping the checkpoints; it is dropped only by Rollback, SetTo and after its promotion; RevertTo checks index and hash of the checkpoint, restores that root and truncates the list; CheckPoint records the committed live root",
		"what Clone, Inherit and Commit of the trees themselves do (T02, T04)",
		checkRevertable)
}

func checkRevertable(c *Ctx) {
	n := 0
	pkg := c.p.pkg("trie")
	if pkg == nil {
		c.fail("scope", "trie", "", "package trie not found")
		return
	}
	for _, mem := range sortedMembers(pkg) {
		tn, ok := mem.(*ssa.Type)
		if !ok {
			continue
		}
		named, ok := tn.Type().(*types.Named)
		if !ok {
			continue
		}
		oi, li := fieldIndex(named, "Origin"), fieldIndex(named, "Live")
		if oi < 0 || li < 0 {
			continue
		}
		st := named.Underlying().(*types.Struct)
		tree := namedOf(st.Field(oi).Type())
		if tree == nil || namedOf(st.Field(li).Type()) != tree {
			continue
		}
		n++
		muts := treeMutators(c.p, tree)
		c.obn("mutators of "+tree.Obj().Name(), len(muts))
		for _, m := range c.p.funcsIn("trie") {
			if recvNamed(m) == named && m.Parent() == nil {
				revertMethod(c, m, named, tree, muts)
			}
		}
	}
	c.check(n >= 2, "scope", "trie", "", "found %d types with Origin and Live trees, expected 2", n)
	c.min("mutate-live", 4)
	c.min("committed-read", 12)
	c.min("live-read", 5)
	c.min("promote", 4)
	c.min("drop", 3)
	c.min("revert", 2)
	c.min("clone-origin", 2)
}

func sortedMembers(p *ssa.Package) []ssa.Member {
	var ns []string
	for n := range p.Members {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	var out []ssa.Member
	for _, n := range ns {
		out = append(out, p.Members[n])
	}
	return out
}

// treeMutators: methods of t that reach a store of true to a dirty mark.
func treeMutators(p *Prog, t *types.Named) map[*ssa.Function]bool {
	set := map[*ssa.Function]bool{}
	for _, f := range p.funcsIn("trie") {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fieldName(fa) != "dirty" && fieldName(fa) != "isDirty" {
					continue
				}
				if v, ok := constBool(s.Val); ok && v {
					if _, isPar := fa.X.(*ssa.Parameter); isPar {
						set[f] = true
					}
				}
			}
		}
	}
	// decoding builds new nodes with the same helpers
	loads := map[*ssa.Function]bool{}
	for _, f := range p.funcsIn("trie") {
		if hasLoad(f) && recvNamed(f) != t {
			loads[f] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for _, f := range p.funcsIn("trie") {
			if set[f] || hasLoad(f) || f.Name() == "Deserialization" || strings.HasPrefix(f.Name(), "decode") || strings.HasPrefix(f.Name(), "from") {
				continue
			}
			if callsAny(f, set) && !callsOnlyOnFresh(f, set) {
				set[f] = true
				ch = true
			}
		}
	}
	out := map[*ssa.Function]bool{}
	for f := range set {
		if recvNamed(f) == t && (!token.IsExported(f.Name()) || marksDirty(p, f, set)) {
			out[f] = true
		}
	}
	return out
}

// marksDirty: on some path with this function's constants a node is marked dirty.
func marksDirty(p *Prog, f *ssa.Function, set map[*ssa.Function]bool) bool {
	hit := false
	a := &auto{p: p}
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool { return set[callee] }
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && (fieldName(fa) == "dirty" || fieldName(fa) == "isDirty") {
				if v, ok := constBool(s.Val); ok && v {
					if fresh, _ := freshValue(e, st, VV{fr, fa.X}, 0); !fresh {
						hit = true
					}
				}
			}
		}
		return nil
	}
	// induction over recursive calls: they change nothing and report no change,
	// provided that every return under this assumption does the same
	changedResult := func(g *ssa.Function) bool {
		r := g.Signature.Results()
		return r.Len() > 1 && isBool(r.At(0).Type())
	}
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		if g := e.callee(fr, call); g != nil && set[g] && changedResult(g) {
			if v, ok := call.(ssa.Value); ok {
				n := st.clone()
				n.facts[fkey{fr, v, 0}] = fact{k: 'F'}
				return []*State{n}
			}
		}
		return nil
	}
	a.onRet = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) *State {
		if set[fr.fn] && changedResult(fr.fn) && inCycle(fr.fn) && e.Fact(st, VV{fr, ret.Results[0]}).k != 'F' {
			hit = true
		}
		return st
	}
	e := newEngine(p, a)
	e.Alias = true
	e.MaxSteps = 500000
	e.Run(f, "")
	return hit || e.Steps > e.MaxSteps
}

// callsOnlyOnFresh: f calls members of set only on nodes it created.
func callsOnlyOnFresh(f *ssa.Function, set map[*ssa.Function]bool) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			call, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			g := staticCallee(call)
			if g == nil || !set[g] {
				continue
			}
			args := call.Common().Args
			if len(args) == 0 || !freshVal(args[0], 0, map[ssa.Value]bool{}) {
				return false
			}
		}
	}
	return true
}

func revertMethod(c *Ctx, m *ssa.Function, named, tree *types.Named, muts map[*ssa.Function]bool) {
	name := m.Name()
	if !token.IsExported(name) {
		return // explored inline from the exported methods
	}
	lower := strings.ToLower(name)
	live := strings.Contains(lower, "live") || strings.HasPrefix(lower, "pre")
	admin := strings.HasPrefix(lower, "commit") || lower == "checkpoint" || lower == "revertto" || lower == "string" || lower == "isdirty" || lower == "rollback" || lower == "setto"
	rootField := func(e *Engine, st *State, fr *Frame, fa *ssa.FieldAddr) (string, bool) {
		if namedOf(fa.X.Type()) != named {
			return "", false
		}
		if e.desc(st, VV{fr, fa.X}) != "p0" {
			return "", false
		}
		return fieldName(fa), true
	}
	a := &auto{p: c.p}
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
		return recvNamed(callee) == named
	}
	// liveTerm: which tree a receiver term denotes on this path
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		g := e.callee(fr, call)
		if g == nil || recvNamed(g) != tree {
			return nil
		}
		recv := treeAt(e, st, VV{fr, call.Common().Args[0]})
		where := fname(m) + " " + g.Name()
		if muts[g] && token.IsExported(g.Name()) {
			c.ob("mutate-live", where)
			if recv != "live" || hasTag(st.C, "aliased") || !hasTag(st.C, "live=set") {
				c.fail("mutate-live", where, c.p.ipos(call), "changes %s, which is not (only) the live tree: %s", e.desc(st, VV{fr, call.Common().Args[0]}), st.trace())
			}
			if strings.HasPrefix(lower, "collapse") || strings.HasPrefix(lower, "get") {
				return nil
			}
			return nil
		}
		switch g.Name() {
		case "Clone":
			return nil
		case "Commit", "CommitAndHash":
			tag := "committed-" + recv
			if recv == "live" && hasTag(st.C, "promoted") {
				tag = "committed-origin"
			}
			return treeSplit(e, st.tag(tag), st, fr, call)
		}
		if g.Signature.Results().Len() == 0 && !token.IsExported(g.Name()) {
			return nil
		}
		if recv == "live" && !hasTag(st.C, "promoted") {
			switch {
			case live:
				c.ob("live-read", where)
			case admin || muts[g] || g.Name() == "Inherit" || g.Name() == "info":
			default:
				if !swapped(st) {
					c.fail("committed-read", where, c.p.ipos(call), "a read of committed data uses the live tree: %s", st.trace())
				}
			}
			return nil
		}
		if recv == "origin" {
			if live {
				c.ob("live-read", where)
				if !hasTag(st.C, "live=nil") && !hasTag(st.C, "swapping") {
					c.fail("live-read", where, c.p.ipos(call), "a read of the uncommitted data uses the origin although there may be a live tree: %s", st.trace())
				}
			} else {
				c.ob("committed-read", where)
			}
		}
		return nil
	}
	a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
		r := e.res(st, VV{fr, cond})
		b, ok := r.v.(*ssa.BinOp)
		if !ok || b.Op != token.EQL && b.Op != token.NEQ {
			if ok && (b.Op == token.GEQ || b.Op == token.LSS || b.Op == token.GTR || b.Op == token.LEQ) {
				x, y := e.desc(st, VV{r.fr, b.X}), e.desc(st, VV{r.fr, b.Y})
				op := b.Op
				if x == "len(p0.chkpts)" {
					x, y = y, x
					op = map[token.Token]token.Token{token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.LSS: token.GTR}[op]
				}
				if y == "len(p0.chkpts)" && (op == token.GEQ && !taken || op == token.LSS && taken) {
					return st.tag("inrange|" + x)
				}
			}
			return st
		}
		eq := taken == (b.Op == token.EQL)
		d := e.desc(st, VV{r.fr, b.X})
		if constNil(b.Y) {
			if d == "p0" && eq {
				return st.tag("nil")
			}
			switch treeAt(e, st, VV{r.fr, b.X}) {
			case "live":
				if namedOf(b.X.Type()) == tree {
					if eq {
						if hasTag(st.C, "live=set") {
							return nil
						}
						return st.tag("live=nil")
					}
					if hasTag(st.C, "live=nil") {
						return nil
					}
					return st.tag("live=set")
				}
			}
			return st
		}
		y := e.desc(st, VV{r.fr, b.Y})
		if strings.HasPrefix(d, "p0.chkpts[") {
			d, y = y, d
		}
		if strings.HasPrefix(y, "p0.chkpts[") && eq {
			return st.tag("match|" + strings.TrimSuffix(strings.TrimPrefix(y, "p0.chkpts["), "]") + "|" + d)
		}
		return st
	}
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		// reads of the trees are tagged by the tree they denote at this moment
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if fa, ok := u.X.(*ssa.FieldAddr); ok {
				if f, ok := rootField(e, st, fr, fa); ok && (f == "Origin" || f == "Live") {
					// remember which tree this value is
					n := st.withC(delTag(st.C, func(w string) bool { return strings.HasPrefix(w, "val|"+valID(fr, u)+"|") }))
					which := currentTree(st, f)
					return []*State{n.tag("val|" + valID(fr, u) + "|" + which)}
				}
			}
		}
		s, ok := in.(*ssa.Store)
		if !ok {
			return nil
		}
		fa, ok := s.Addr.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		f, ok := rootField(e, st, fr, fa)
		if !ok {
			return nil
		}
		d := e.desc(st, VV{fr, s.Val})
		switch f {
		case "Origin":
			src := treeAt(e, st, VV{fr, s.Val})
			isClone := strings.Contains(d, ".Clone(") && strings.HasPrefix(d, "(*")
			switch {
			case isClone:
				c.ob("clone-origin", fname(m))
				inner := cloneArg(e, st, VV{fr, s.Val})
				ok := (inner == "origin" || inner == "live") && hasTag(st.C, "committed-origin")
				if !ok {
					c.fail("clone-origin", fname(m), c.p.ipos(in), "the origin is replaced by a clone of %s before its own content has been saved: %s", d, st.trace())
				}
				return []*State{st.withC(addTag(delTag(st.C, func(w string) bool { return w == "aliased" }), "cloned"))}
			case src == "live":
				c.ob("promote", fname(m))
				if !hasTag(st.C, "committed-live") && !hasTag(st.C, "live=nil") {
					c.fail("promote", fname(m), c.p.ipos(in), "the live tree becomes the origin before it has been committed: %s", st.trace())
				}
				if !hasTag(st.C, "live=set") {
					c.fail("promote", fname(m)+" nil", c.p.ipos(in), "the origin is replaced by a live tree that may not exist: %s", st.trace())
				}
				return []*State{st.tag("promoted")}
			case strings.HasPrefix(d, "p") && len(d) == 2 && lower == "setto":
				return []*State{st.tag("set")}
			}
			c.fail("promote", fname(m)+" origin", c.p.ipos(in), "the origin becomes %s: %s", d, st.trace())
		case "Live":
			src := treeAt(e, st, VV{fr, s.Val})
			switch {
			case d == "nil":
				c.ob("drop", fname(m))
				if !hasTag(st.C, "promoted") && !hasTag(st.C, "set") && lower != "rollback" && lower != "setto" && !hasTag(st.C, "live=nil") {
					c.fail("drop", fname(m), c.p.ipos(in), "uncommitted changes are dropped: %s", st.trace())
				}
				return []*State{st.withC(addTag(delTag(st.C, func(w string) bool { return w == "live=set" || w == "live=nil" }), "dropped"))}
			case src == "origin":
				n := st.withC(delTag(st.C, func(w string) bool { return w == "live=nil" }))
				n.C = addTag(n.C, "live=set")
				if !hasTag(st.C, "cloned") {
					n.C = addTag(n.C, "aliased")
				}
				return []*State{n}
			case strings.Contains(d, ".Inherit(p0.Live,p2)") && lower == "revertto":
				c.ob("revert", fname(m))
				if len(tagsWith(st.C, "match|")) == 0 {
					c.fail("revert", fname(m)+" unchecked", c.p.ipos(in), "the live tree is restored without comparing the root with the recorded checkpoint: %s", st.trace())
				}
				return []*State{st.tag("restored")}
			}
			c.fail("drop", fname(m)+" live", c.p.ipos(in), "the live tree becomes %s: %s", d, st.trace())
		case "chkpts":
			switch {
			case d == "nil":
				if lower != "rollback" && lower != "setto" && !hasTag(st.C, "promoted") && !hasTag(st.C, "live=nil") {
					c.fail("drop", fname(m)+" checkpoints", c.p.ipos(in), "the checkpoints are dropped although the live tree stays: %s", st.trace())
				}
				return []*State{st.tag("nochk")}
			case strings.HasPrefix(d, "slice(p0.chkpts,"):
				c.ob("revert", fname(m)+" list")
				p := strings.Split(strings.TrimSuffix(strings.TrimPrefix(d, "slice(p0.chkpts,"), ")"), ",")
				if p[0] != "" && p[0] != "c:0" || p[len(p)-1] != "p1" && p[len(p)-1] != "(p1+c:1)" {
					c.fail("revert", fname(m)+" list", c.p.ipos(in), "the checkpoints kept are %s, not the ones before the restored one: %s", d, st.trace())
				}
				return []*State{st.tag("truncated")}
			case strings.HasPrefix(d, "append(p0.chkpts"):
				return []*State{st.tag("recorded")}
			}
			c.fail("revert", fname(m)+" checkpoints", c.p.ipos(in), "the checkpoints become %s: %s", d, st.trace())
		}
		return nil
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if e.Fact(st, VV{fr, m.Params[0]}).k == 'N' || hasTag(st.C, "nil") {
			return
		}
		bad := e.errResult(st, fr, ret) == 'V'
		if hasTag(st.C, "aliased") {
			c.fail("clone-origin", fname(m)+" exit", c.p.ipos(ret), "the live tree and the origin are left being the same tree: %s", st.trace())
		}
		if hasTag(st.C, "promoted") && !(hasTag(st.C, "dropped") && hasTag(st.C, "nochk")) {
			c.fail("promote", fname(m)+" exit", c.p.ipos(ret), "the live tree or its checkpoints stay after they became the origin: %s", st.trace())
		}
		if bad {
			return
		}
		switch {
		case strings.HasPrefix(lower, "commit"):
			c.ob("promote", fname(m)+" exit")
			if !hasTag(st.C, "promoted") && !hasTag(st.C, "live=nil") {
				c.fail("promote", fname(m)+" nothing", c.p.ipos(ret), "success is reported without making the live tree the origin: %s", st.trace())
			}
			if !hasTag(st.C, "nochk") {
				c.fail("promote", fname(m)+" checkpoints", c.p.ipos(ret), "checkpoints of before the commit stay usable: %s", st.trace())
			}
		case lower == "rollback":
			c.ob("drop", fname(m)+" exit")
			if !hasTag(st.C, "dropped") || !hasTag(st.C, "nochk") {
				c.fail("drop", fname(m)+" exit", c.p.ipos(ret), "the live tree or its checkpoints survive the rollback: %s", st.trace())
			}
		case lower == "setto":
			c.ob("drop", fname(m)+" exit")
			if !hasTag(st.C, "set") || !hasTag(st.C, "dropped") || !hasTag(st.C, "nochk") {
				c.fail("drop", fname(m)+" exit", c.p.ipos(ret), "origin, live tree and checkpoints are not all replaced: %s", st.trace())
			}
		case lower == "revertto":
			c.ob("revert", fname(m)+" exit")
			if !hasTag(st.C, "restored") || !hasTag(st.C, "truncated") {
				c.fail("revert", fname(m)+" exit", c.p.ipos(ret), "success is reported without restoring the checkpoint: %s", st.trace())
			}
			ok := false
			for _, w := range tagsWith(st.C, "match|") {
				p := strings.SplitN(w, "|", 2)
				if p[0] == "p1" && strings.Contains(p[1], "p2") && hasTag(st.C, "inrange|p1") {
					ok = true
				}
			}
			if !ok {
				c.fail("revert", fname(m)+" match", c.p.ipos(ret), "the restored root was not compared with the checkpoint of that number: %s", st.trace())
			}
		case lower == "checkpoint":
			c.ob("revert", fname(m)+" record")
			if !hasTag(st.C, "recorded") || !hasTag(st.C, "committed-live") && !hasTag(st.C, "live=nil") {
				c.fail("revert", fname(m)+" record", c.p.ipos(ret), "a checkpoint is handed out that was not saved and recorded: %s", st.trace())
			}
		}
		// results
		if !live && !admin {
			for _, rv := range ret.Results {
				if treeAt(e, st, VV{fr, rv}) == "live" && namedOf(rv.Type()) == tree {
					c.fail("committed-read", fname(m)+" result", c.p.ipos(ret), "the live tree is handed out: %s", st.trace())
				}
			}
		}
	}
	a.run(c, "revertable", m, "")
}

func valID(fr *Frame, v ssa.Value) string { return v.Name() + "@" + itoa(int64(frID(fr))) }

func swapped(st *State) bool { return hasTag(st.C, "cloned") }

// currentTree: the tree a member holds now ("live": what was or will be the live tree).
func currentTree(st *State, f string) string {
	if f == "Live" {
		return "live"
	}
	if hasTag(st.C, "promoted") {
		return "origin"
	}
	return "origin"
}

// treeAt: "live", "origin" or "".
func treeAt(e *Engine, st *State, x VV) string {
	r := e.res(st, x)
	for _, w := range tagsWith(st.C, "val|") {
		if strings.HasPrefix(w, valID(r.fr, r.v)+"|") {
			return w[strings.LastIndex(w, "|")+1:]
		}
	}
	switch e.desc(st, r) {
	case "p0.Live":
		return "live"
	case "p0.Origin":
		return "origin"
	}
	return ""
}

func cloneArg(e *Engine, st *State, x VV) string {
	r := e.res(st, x)
	if call, ok := r.v.(*ssa.Call); ok && len(call.Call.Args) > 0 {
		return treeAt(e, st, VV{r.fr, call.Call.Args[0]})
	}
	return ""
}

// treeSplit splits on the error result wherever it is in the tuple.
func treeSplit(e *Engine, good, bad *State, fr *Frame, call ssa.CallInstruction) []*State {
	v, ok := call.(ssa.Value)
	if !ok {
		return []*State{good}
	}
	if t, ok := v.Type().(*types.Tuple); ok {
		for i := 0; i < t.Len(); i++ {
			if isErrorType(t.At(i).Type()) {
				g, b := good.clone(), bad.clone()
				g.facts[fkey{fr, v, i}] = fact{k: 'N'}
				b.facts[fkey{fr, v, i}] = fact{k: 'V'}
				return []*State{g, b}
			}
		}
		return []*State{good}
	}
	return e.errSplit(good, bad, fr, call)
}
