package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// --- S07: byte ownership ---

type ownership struct {
	p     *Prog
	sinks map[*ssa.Function][]sinkUse // memo: values kept by fn (own parameters resolved by callers)
}

type sinkUse struct {
	v    ssa.Value
	at   ssa.Instruction
	what string
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Byte
}

// origins traces aliases of v backwards: parameters, loads, calls.
func (o *ownership) origins(v ssa.Value) map[ssa.Value]bool {
	out := map[ssa.Value]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value, d int)
	walk = func(v ssa.Value, d int) {
		if v == nil || seen[v] || d > 40 {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Slice:
			walk(x.X, d+1)
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e, d+1)
			}
		case *ssa.ChangeType:
			walk(x.X, d+1)
		case *ssa.Convert:
			// string <-> []byte copies; slice type conversions alias
			if isByteSlice(x.Type()) && isByteSlice(x.X.Type()) {
				walk(x.X, d+1)
			}
		case *ssa.MakeInterface:
			walk(x.X, d+1)
		case *ssa.ChangeInterface:
			walk(x.X, d+1)
		case *ssa.TypeAssert:
			walk(x.X, d+1)
		case *ssa.Extract:
			if ta, ok := x.Tuple.(*ssa.TypeAssert); ok {
				walk(ta.X, d+1)
				return
			}
			if call, ok := x.Tuple.(*ssa.Call); ok {
				if g := staticCallee(call); g != nil && o.p.funcSet[g] {
					o.viaReturn(call, g, x.Index, walk, d)
					return
				}
			}
			out[x] = true
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
				for _, r := range *al.Referrers() {
					if s, ok := r.(*ssa.Store); ok && s.Addr == al {
						walk(s.Val, d+1)
					}
				}
				return
			}
			out[x] = true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok {
				if b.Name() == "append" {
					walk(x.Call.Args[0], d+1) // elements are copied, the destination aliases
				}
				return
			}
			if g := staticCallee(x); g != nil {
				if copies(g) {
					return
				}
				pk, nm := calleePkgName(x)
				if (pk == "bytes" || pk == "slices") && nm == "Clone" {
					return
				}
				if o.p.funcSet[g] {
					o.viaReturn(x, g, 0, walk, d)
					return
				}
			}
			out[x] = true
		case *ssa.Const, *ssa.MakeSlice, *ssa.Alloc:
		default:
			out[v] = true
		}
	}
	walk(v, 0)
	return out
}

func (o *ownership) viaReturn(call *ssa.Call, g *ssa.Function, idx int, walk func(ssa.Value, int), d int) {
	if d > 25 {
		walk(nil, d)
		return
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			r, ok := in.(*ssa.Return)
			if !ok || idx >= len(r.Results) {
				continue
			}
			for x := range o.origins(r.Results[idx]) {
				if p, ok := x.(*ssa.Parameter); ok && p.Parent() == g {
					for i, q := range g.Params {
						if q == p && i < len(call.Call.Args) {
							walk(call.Call.Args[i], d+5)
						}
					}
				} else {
					walk(x, d+5)
				}
			}
		}
	}
}

var keepers = map[string][]int{ // container methods keeping an argument (receiver is 0)
	"sync.Map.Store": {2}, "sync.Map.LoadOrStore": {2}, "sync.Map.Swap": {2}, "sync.Map.CompareAndSwap": {3},
	"lru.Cache.Add": {2}, "lru.Cache.ContainsOrAdd": {2}, "lru.Cache.PeekOrAdd": {2},
}

func recvTypeName(c ssa.CallInstruction) string {
	f := calleeFunc(c)
	if f == nil {
		return ""
	}
	sig := f.Type().(*types.Signature)
	if sig.Recv() == nil {
		return ""
	}
	if n := namedOf(sig.Recv().Type()); n != nil && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + f.Name()
	}
	return ""
}

func (o *ownership) kept(fn *ssa.Function, depth int) []sinkUse {
	if u, ok := o.sinks[fn]; ok {
		return u
	}
	o.sinks[fn] = nil
	var out []sinkUse
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !isByteSlice(x.Val.Type()) {
					if mi, ok := x.Val.(*ssa.MakeInterface); !ok || !isByteSlice(mi.X.Type()) {
						continue
					}
				}
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					out = append(out, sinkUse{x.Val, in, "field " + fieldName(a)})
				case *ssa.IndexAddr:
					out = append(out, sinkUse{x.Val, in, "slice element"})
				case *ssa.Global:
					out = append(out, sinkUse{x.Val, in, "variable " + a.Name()})
				}
			case *ssa.MapUpdate:
				if isByteSlice(x.Value.Type()) {
					out = append(out, sinkUse{x.Value, in, "map"})
				}
			case ssa.CallInstruction:
				args := callArgs(x)
				for _, i := range keepers[recvTypeName(x)] {
					if i < len(args) {
						out = append(out, sinkUse{args[i], in, recvTypeName(x)})
					}
				}
				g := staticCallee(x)
				if g != nil && o.p.funcSet[g] && depth < 6 && !copies(g) {
					for _, u := range o.kept(g, depth+1) {
						for v := range o.origins(u.v) {
							for i, q := range g.Params {
								if v == q && i < len(args) {
									out = append(out, sinkUse{args[i], in, fname(g) + " (" + u.what + ")"})
								}
							}
						}
					}
				}
			}
		}
	}
	o.sinks[fn] = out
	return out
}

func containerLoad(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.UnOp:
		if fa, ok := x.X.(*ssa.FieldAddr); ok && x.Op == token.MUL {
			return "field " + fieldName(fa)
		}
		if ia, ok := x.X.(*ssa.IndexAddr); ok && x.Op == token.MUL {
			_ = ia
			return "slice element"
		}
		if g, ok := x.X.(*ssa.Global); ok {
			return "variable " + g.Name()
		}
	case *ssa.Field:
		return "field"
	case *ssa.Lookup:
		return "map"
	case *ssa.Call:
		return containerCall(x)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Lookup:
			return "map"
		case *ssa.Call:
			return containerCall(t)
		}
	}
	return ""
}

func containerCall(c *ssa.Call) string {
	n := recvTypeName(c)
	if strings.HasPrefix(n, "sync.Map.Load") || strings.HasPrefix(n, "lru.Cache.Get") || strings.HasPrefix(n, "lru.Cache.Peek") {
		return n
	}
	return ""
}

func checkIsolation(c *Ctx) {
	o := &ownership{p: c.p, sinks: map[*ssa.Function][]sinkUse{}}
	nk := 0
	for _, fn := range c.p.funcsIn("db") {
		if fn.Parent() != nil || !isExportedFn(fn) {
			continue
		}
		kept := o.kept(fn, 0)
		keptOrig := map[ssa.Value]string{}
		for _, u := range kept {
			nk++
			c.ob("kept", fname(fn)+" -> "+u.what)
			for v := range o.origins(u.v) {
				keptOrig[v] = u.what
				if p, ok := v.(*ssa.Parameter); ok && p.Parent() == fn && isByteSlice(p.Type()) {
					c.fail("kept", fname(fn)+" "+p.Name(), c.p.ipos(u.at), "the caller's slice %s is kept in %s without being copied: later writes by the caller change the stored data", p.Name(), u.what)
				}
			}
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				r, ok := in.(*ssa.Return)
				if !ok {
					continue
				}
				for _, res := range r.Results {
					if !isByteSlice(res.Type()) {
						continue
					}
					c.ob("returned", fname(fn))
					for v := range o.origins(res) {
						if w := containerLoad(v); w != "" {
							c.fail("returned", fname(fn), c.p.ipos(r), "a slice kept in %s is handed to the caller without being copied", w)
						}
						if w := keptOrig[v]; w != "" {
							c.fail("returned", fname(fn), c.p.ipos(r), "the slice handed to the caller is also kept in %s: later writes by the caller change the stored data", w)
						}
					}
				}
			}
		}
	}
	c.min("kept", 6)
	c.min("returned", 6)
}

// --- S08 ---

func implementers(p *Prog, rel, iface string) []*types.Named {
	it := p.named(rel, iface)
	if it == nil {
		return nil
	}
	i := it.Underlying().(*types.Interface)
	var out []*types.Named
	for _, pk := range p.Pkgs {
		sc := pk.Types.Scope()
		for _, n := range sc.Names() {
			tn, ok := sc.Lookup(n).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			nt, ok := tn.Type().(*types.Named)
			if !ok || types.IsInterface(nt) || nt.TypeParams().Len() > 0 {
				continue
			}
			if types.Implements(nt, i) || types.Implements(types.NewPointer(nt), i) {
				out = append(out, nt)
			}
		}
	}
	sort.Slice(out, func(a, b int) bool { return out[a].String() < out[b].String() })
	return out
}

func checkBatchType(c *Ctx) {
	seen := map[*ssa.Function]bool{}
	var scan func(root, fn *ssa.Function)
	scan = func(root, fn *ssa.Function) {
		for f := range c.p.reachableFns(fn) {
			if !c.p.inPkg(f, "db") || seen[f] {
				continue
			}
			seen[f] = true
			c.ob("no-panic", fname(f))
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch x := in.(type) {
					case *ssa.Panic:
						c.fail("no-panic", fname(f), c.p.ipos(in), "a storage operation (%s) can panic instead of returning an error", fname(root))
					case *ssa.TypeAssert:
						if !x.CommaOk && assertsCaller(x.X) {
							c.fail("no-panic", fname(f)+" assertion", c.p.ipos(in), "unchecked assertion of a caller-supplied value to %s", tname(x.AssertedType))
						}
					}
				}
			}
		}
	}
	for _, ifc := range []string{"Database", "Batch"} {
		for _, t := range implementers(c.p, "db", ifc) {
			for _, m := range c.p.methodsOf(t) {
				if isExportedFn(m) {
					scan(m, m)
				}
			}
		}
	}
	for _, t := range implementers(c.p, "db", "Database") {
		m := c.p.method("db", t.Obj().Name(), "Batch")
		if m == nil || m.Blocks == nil {
			continue
		}
		a := &auto{p: c.p}
		a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
			d := e.desc(st, VV{fr, cond})
			for strings.HasPrefix(d, "!") {
				d, taken = d[1:], !taken
			}
			if strings.HasPrefix(d, "is:") && strings.HasSuffix(d, "(p1)") && !taken {
				return st.tag("mismatch")
			}
			return st
		}
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			_, name, args := e.recvAndName(st, fr, call)
			if name == "Batch" && len(args) == 1 && e.desc(st, VV{fr, args[0]}) == "p1" {
				return []*State{st.tag("delegated")}
			}
			return nil
		}
		a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
			if !hasTag(st.C, "mismatch") || hasTag(st.C, "delegated") {
				c.ob("mismatch", fname(m))
				return
			}
			c.check(e.errResult(st, fr, ret) == 'V', "mismatch", fname(m)+" refusal", c.p.ipos(ret), "a batch of a foreign type is accepted silently: %s", st.trace())
		}
		a.run(c, "mismatch", m, "")
	}
	c.min("no-panic", 40)
	c.min("mismatch", 5)
}

func assertsCaller(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.Parameter:
		return true
	case *ssa.ChangeInterface:
		return assertsCaller(x.X)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if assertsCaller(e) {
				return true
			}
		}
	}
	return false
}

// --- S09 ---

func checkBatchApply(c *Ctx) {
	// recorder: a Batch implementation whose methods append records {kind,key,value}
	kinds := map[string]string{} // method -> constant
	var rec *types.Named
	var listField, kindField, keyField, valField string
	for _, t := range implementers(c.p, "db", "Batch") {
		stt := structOf(t)
		if stt == nil || stt.NumFields() != 1 {
			continue
		}
		sl, ok := stt.Field(0).Type().Underlying().(*types.Slice)
		if !ok || structOf(sl.Elem()) == nil {
			continue
		}
		rec = t
		listField = stt.Field(0).Name()
	}
	if !must(c, rec, "recorder", "recording batch type") {
		return
	}
	for _, mn := range []string{"Put", "Delete"} {
		m := c.p.method("db", rec.Obj().Name(), mn)
		if !must(c, m, "recorder", rec.Obj().Name()+"."+mn) {
			return
		}
		a := &auto{p: c.p}
		a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
			return fnPkg(callee) == fnPkg(m) && !copies(callee)
		}
		a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
			s, ok := in.(*ssa.Store)
			if !ok {
				return nil
			}
			fa, ok := s.Addr.(*ssa.FieldAddr)
			if !ok {
				return nil
			}
			if e.desc(st, VV{fr, fa}) == "p0."+listField {
				d := e.desc(st, VV{fr, s.Val})
				if strings.HasPrefix(d, "append(p0."+listField+",") {
					return []*State{st.tag("appended")}
				}
				c.fail("recorder", fname(m)+" list", c.p.ipos(in), "the list of recorded operations is replaced by %s", d)
				return nil
			}
			if _, isNew := e.res(st, VV{fr, fa.X}).v.(*ssa.Alloc); !isNew {
				return nil
			}
			v := e.res(st, VV{fr, s.Val})
			if k, ok := constInt(v.v); ok {
				kindField = fieldName(fa)
				return []*State{st.tag("kind:" + itoa(k))}
			}
			if isByteSlice(s.Val.Type()) {
				d := e.desc(st, v)
				if cp, ok := v.v.(*ssa.Call); ok && len(cp.Call.Args) == 1 && copies(e.callee(v.fr, cp)) {
					d = e.desc(st, VV{v.fr, cp.Call.Args[0]})
				} else if cp, ok := v.v.(*ssa.Call); ok {
					if b, isB := cp.Call.Value.(*ssa.Builtin); isB && b.Name() == "append" && len(cp.Call.Args) == 2 {
						d = e.desc(st, VV{v.fr, cp.Call.Args[1]})
					}
				}
				switch d {
				case "p1":
					keyField = fieldName(fa)
					return []*State{st.tag("key")}
				case "p2":
					valField = fieldName(fa)
					return []*State{st.tag("val")}
				}
			}
			return nil
		}
		a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
			if e.errResult(st, fr, ret) == 'V' {
				return
			}
			ks := tagsWith(st.C, "kind:")
			k := "0" // a field left at its zero value
			if len(ks) == 1 {
				k = ks[0]
			}
			kinds[mn] = k
			okk := hasTag(st.C, "appended") && hasTag(st.C, "key") && (mn == "Delete" || hasTag(st.C, "val")) && len(ks) <= 1
			c.check(okk, "recorder", fname(m), c.p.ipos(ret), "an operation is accepted without recording its key%s in the list (%s)", map[bool]string{true: " and value", false: ""}[mn == "Put"], st.C)
		}
		a.run(c, "recorder", m, "")
	}
	c.check(kinds["Put"] != kinds["Delete"], "recorder", "kinds", "-", "puts and deletes are recorded with the same kind %q", kinds["Put"])
	if kindField == "" || keyField == "" || valField == "" {
		c.fail("recorder", "record fields", "-", "kind/key/value fields of the record not identified")
		return
	}
	for _, t := range implementers(c.p, "db", "Database") {
		m := c.p.method("db", t.Obj().Name(), "Batch")
		if m == nil || m.Blocks == nil || !assertsTo(c, m, rec) {
			continue
		}
		applyLoop(c, m, t, listField, kindField, keyField, valField, kinds)
	}
	c.min("applier", 2)
	c.min("iteration", 2)
}

func itoa(k int64) string { return fmtInt(k) }

func fmtInt(k int64) string {
	if k == 0 {
		return "0"
	}
	neg := k < 0
	if neg {
		k = -k
	}
	s := ""
	for k > 0 {
		s = string(rune('0'+k%10)) + s
		k /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

func assertsTo(c *Ctx, m *ssa.Function, t *types.Named) bool {
	for f := range c.p.reachableFns(m) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ta, ok := in.(*ssa.TypeAssert); ok && namedOf(ta.AssertedType) == t {
					return true
				}
			}
		}
	}
	return false
}

// fullForward: v is an index that starts at the first element and advances by one.
func fullForward(v ssa.Value) bool {
	isStep := func(x ssa.Value, phi *ssa.Phi) bool {
		b, ok := x.(*ssa.BinOp)
		if !ok || b.Op != token.ADD {
			return false
		}
		one, ok := constInt(b.Y)
		return ok && one == 1 && b.X == phi
	}
	check := func(phi *ssa.Phi, start int64) bool {
		ns, nst := 0, 0
		for _, e := range phi.Edges {
			if k, ok := constInt(e); ok && k == start {
				ns++
			} else if isStep(e, phi) {
				nst++
			} else {
				return false
			}
		}
		return ns == 1 && nst >= 1
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return check(x, 0)
	case *ssa.BinOp: // range loop: phi(-1, x) + 1
		if phi, ok := x.X.(*ssa.Phi); ok && isStep(x, phi) {
			for _, e := range phi.Edges {
				if e != x {
					if k, ok := constInt(e); !ok || k != -1 {
						return false
					}
				}
			}
			return true
		}
	}
	return false
}

func applyLoop(c *Ctx, m *ssa.Function, t *types.Named, list, kind, key, val string, kinds map[string]string) {
	a := &auto{p: c.p}
	L := "p1." + list
	a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
		if fnPkg(callee) != fnPkg(m) || copies(callee) {
			return false
		}
		return !(recvNamed(callee) == t && (callee.Name() == "Put" || callee.Name() == "Delete"))
	}
	a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
		r := e.res(st, VV{fr, cond})
		b, ok := r.v.(*ssa.BinOp)
		if !ok {
			return st
		}
		x, y, op := b.X, b.Y, b.Op
		dx, dy := e.desc(st, VV{r.fr, x}), e.desc(st, VV{r.fr, y})
		if dx == "len("+L+")" {
			x, y, dx, dy = y, x, dy, dx
			switch op {
			case token.GTR:
				op = token.LSS
			case token.LEQ:
				op = token.GEQ
			}
		}
		if dy == "len("+L+")" && (op == token.LSS || op == token.NEQ || op == token.GEQ || op == token.EQL) {
			ix := e.res(st, VV{r.fr, x})
			if !fullForward(ix.v) {
				c.fail("iteration", fname(m)+" order", c.p.ipos(b), "the recorded operations are not walked one by one from the first to the last (index %s)", dx)
			}
			if op == token.GEQ || op == token.EQL {
				taken = !taken
			}
			c.ob("iteration", fname(m))
			if hasTag(st.C, "iter") && !hasTag(st.C, "done") && !(hasTag(st.C, "not:"+kinds["Put"]) && hasTag(st.C, "not:"+kinds["Delete"])) {
				c.fail("iteration", fname(m)+" skipped", c.p.ipos(b), "an iteration ends without applying the recorded operation: %s", st.trace())
			}
			n := st.withC(delTag(st.C, func(w string) bool {
				return w == "done" || strings.HasPrefix(w, "is:") || strings.HasPrefix(w, "not:") || w == "iter" || w == "ended" || strings.HasPrefix(w, "ix:")
			}))
			if taken {
				n.C = addTag(n.C, "iter")
				n.C = addTag(n.C, "ix:"+dx)
			} else {
				n.C = addTag(n.C, "ended")
			}
			return n
		}
		if op == token.EQL || op == token.NEQ {
			if strings.HasPrefix(dy, L+"[") {
				dx, dy = dy, dx
			}
			if strings.HasPrefix(dx, L+"[") && strings.HasSuffix(dx, "]."+kind) && strings.HasPrefix(dy, "c:") {
				k := strings.TrimPrefix(dy, "c:")
				if taken == (op == token.EQL) {
					return st.tag("is:" + k)
				}
				return st.tag("not:" + k)
			}
		}
		return st
	}
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		recv, name, args := e.recvAndName(st, fr, call)
		if (name != "Put" && name != "Delete") || !(recv == "p0" || strings.HasPrefix(recv, "p0.")) || len(args) == 0 {
			return nil
		}
		if !hasTag(st.C, "iter") {
			c.fail("applier", fname(m)+" "+name+" outside", c.p.ipos(call), "an operation is applied outside the walk over the recorded operations")
			return nil
		}
		ix := tagsWith(st.C, "ix:")
		el := ""
		if len(ix) == 1 {
			el = L + "[" + ix[0] + "]"
		}
		k := e.desc(st, VV{fr, args[0]})
		c.check(k == el+"."+key, "applier", fname(m)+" "+name+" key", c.p.ipos(call), "applies key %s instead of the current record's key", k)
		if name == "Put" {
			v := e.desc(st, VV{fr, args[1]})
			c.check(v == el+"."+val, "applier", fname(m)+" Put value", c.p.ipos(call), "applies value %s instead of the current record's value", v)
		}
		other := kinds["Put"]
		if name == "Put" {
			other = kinds["Delete"]
		}
		c.check(hasTag(st.C, "is:"+kinds[name]) || hasTag(st.C, "not:"+other), "applier", fname(m)+" "+name+" kind", c.p.ipos(call), "%s is applied to a record whose kind was not tested: %s", name, st.trace())
		if hasTag(st.C, "done") {
			c.fail("iteration", fname(m)+" twice", c.p.ipos(call), "a second operation is applied for one record: %s", st.trace())
		}
		return []*State{st.tag("done")}
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if e.errResult(st, fr, ret) == 'V' {
			return
		}
		c.check(hasTag(st.C, "ended"), "applier", fname(m)+" complete", c.p.ipos(ret), "returns success before all recorded operations were applied: %s", st.trace())
	}
	a.run(c, "applier", m, "")
}
