package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// dynType is the concrete type an interface value certainly has on this path.
func (e *Engine) dynType(st *State, x VV) types.Type {
	x = e.res(st, x)
	switch v := x.v.(type) {
	case *ssa.MakeInterface:
		return v.X.Type()
	case *ssa.Extract:
		if ta, ok := e.res(st, VV{x.fr, v.Tuple}).v.(*ssa.TypeAssert); ok && v.Index == 0 && !types.IsInterface(ta.AssertedType) {
			return ta.AssertedType
		}
		return nil
	case *ssa.TypeAssert:
		if !types.IsInterface(v.AssertedType) {
			return v.AssertedType
		}
		return nil
	}
	if !types.IsInterface(x.v.Type()) {
		return x.v.Type()
	}
	return nil
}

// returnedTypes runs fn and collects the concrete types of its first result.
func returnedTypes(c *Ctx, rule string, fn *ssa.Function) (ts []*types.Named, unknown []string) {
	seen := map[string]bool{}
	a := &auto{p: c.p}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		if e.errResult(st, fr, ret) == 'V' {
			return
		}
		t := e.dynType(st, VV{fr, ret.Results[0]})
		if t == nil {
			d := e.desc(st, VV{fr, ret.Results[0]})
			if d != "nil" && !seen[d] {
				seen[d] = true
				unknown = append(unknown, d)
			}
			return
		}
		if n := namedOf(t); n != nil && !seen[t.String()] {
			seen[t.String()] = true
			ts = append(ts, n)
		}
	}
	a.run(c, rule, fn, "")
	return
}

// ctorFields: which fields of the freshly built T receive which term in ctor.
func ctorFields(c *Ctx, rule string, ctor *ssa.Function, t *types.Named) map[string]string {
	out := map[string]string{}
	a := &auto{p: c.p}
	a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
		if s, ok := in.(*ssa.Store); ok {
			if fa, ok := s.Addr.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == t {
				if _, isAl := e.res(st, VV{fr, fa.X}).v.(*ssa.Alloc); isAl {
					out[fieldName(fa)] = e.desc(st, VV{fr, s.Val})
				}
			}
		}
		return nil
	}
	a.run(c, rule, ctor, "")
	return out
}

func dbFieldsFromParam(c *Ctx, rule string, ctor *ssa.Function, t *types.Named) (base []string) {
	for f, d := range ctorFields(c, rule, ctor, t) {
		if d == "p0" {
			base = append(base, f)
		}
	}
	return
}

var dbMutators = map[string]bool{"Put": true, "Delete": true, "Batch": true, "Replace": true, "Save": true, "SaveBatch": true}

func must[T comparable](c *Ctx, v T, rule, what string) bool {
	var zero T
	if v == zero {
		c.fail(rule, "anchor "+what, "-", "%s was not found: the rule has lost its anchor", what)
		return false
	}
	return true
}

func init() {
	register("S01", "The type(s) returned by db.ReadOnly are analysed method by method on every path (helpers inlined): no mutating call may reach the wrapped database, every write operation of the view and of the batches it hands out must return a certainly non-nil error, reads must return exactly the wrapped database's result for the same key, and ReadOnly must return a read-only view on every path.",
		"what the wrapped database itself does on reads", checkReadOnly)
	register("S02", "The type returned by db.Temporary: path automata over every method decide that no mutating call reaches the base, that a read consults the deletion marks and then the overlay before the base and returns the value of the layer that decided, that a successful put removes the deletion mark of the same key and a successful delete sets it, also inside batches.",
		"", checkTemporary)
	register("S03", "The cached database: on every path of every method a write to the base store is paired, inside one exclusive critical section, with the removal of the same key from the cache (batches: of every recorded key, or a purge), cache entries are only filled with the non-nil value just read from the base for the same key in the same section, reads return the cached or the base value of the requested key, and replacing the base renews the cache.",
		"eviction policy and counters", checkCached)
	register("S04", "Key mapping: every operation of every wrapper that forwards to a wrapped Database or Batch passes the mapped key (the configured prefix or key function applied to the caller's key, identity only where the mapping was tested to be absent), the unchanged value, and returns the wrapped result; batches are unwrapped before they are applied; clones and rebased adapters keep the mapping.",
		"that PrefixKey concatenates", checkAdapters)
	register("S06", "BatchWrite: path automaton with sign facts: after an accepted write the pending batch must be applied before a nil-error return, every batch is applied at most once, writes only go to the current unapplied batch, and an error of the callback or of the store ends the operation with that error.",
		"", checkBatchWrite)
	register("S07", "Byte ownership: alias flow (slicing, phis, interface boxing, helper calls) of every []byte a caller passes in to a container the database layer keeps, and of every kept []byte to a result; every such flow must pass a copy.",
		"the on-disk store and foreign Database implementations", checkIsolation)
	register("S08", "No operation of a Database or Batch implementation contains a reachable panic or an unchecked type assertion on a caller-supplied batch; each refuses with a non-nil error on the mismatch branch.",
		"panics inside the underlying store", checkBatchType)
	register("S09", "Batch application: the recorder stores the operation kind, key and value; the applier walks the recorded operations from first to last and on every iteration performs exactly the operation matching the recorded kind with that record's key and value, before moving on or returning success.",
		"the on-disk store's own batch", checkBatchApply)
}

func checkReadOnly(c *Ctx) {
	ctor := c.p.fn("db", "ReadOnly")
	if !must(c, ctor, "read-only", "db.ReadOnly") {
		return
	}
	ts, unk := returnedTypes(c, "read-only", ctor)
	for _, u := range unk {
		c.fail("read-only-view", fname(ctor)+" returns "+u, c.p.pos(ctor.Pos()), "ReadOnly can return a value that is not one of its read-only views (%s)", u)
	}
	c.check(len(ts) > 0, "read-only-view", fname(ctor), c.p.pos(ctor.Pos()), "no read-only type found")
	// a concrete type other than the one ReadOnly builds itself is not a view
	for _, t := range ts {
		base := dbFieldsFromParam(c, "read-only", ctor, t)
		if len(base) == 0 {
			c.fail("read-only-view", "type "+t.Obj().Name(), c.p.pos(ctor.Pos()), "ReadOnly returns a %s which it does not build around its argument", t.Obj().Name())
			continue
		}
		var batches []*types.Named
		for _, m := range c.p.methodsOf(t) {
			m := m
			a := &auto{p: c.p}
			a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
				recv, name, _ := e.recvAndName(st, fr, call)
				if dbMutators[name] && strings.HasPrefix(recv, "p0.") {
					c.fail("no-write-through", fname(m)+" -> "+name, c.p.ipos(call), "a read-only operation reaches %s of the underlying database", name)
				}
				return nil
			}
			a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
				switch m.Name() {
				case "Put", "Delete", "Batch":
					c.check(e.errResult(st, fr, ret) == 'V', "write-refused", fname(m), c.p.ipos(ret), "write operation of a read-only database may return a nil error: %s", st.trace())
				case "Get", "Has":
					if e.errResult(st, fr, ret) == 'V' {
						return
					}
					d := e.desc(st, VV{fr, ret.Results[0]})
					ok := false
					for _, b := range base {
						ok = ok || d == "x0(p0."+b+"!"+m.Name()+"(p1))"
					}
					c.check(ok, "read-forwarded", fname(m), c.p.ipos(ret), "returns %s instead of the underlying database's result for the requested key", d)
				case "NewBatch":
					if t := e.dynType(st, VV{fr, ret.Results[0]}); t != nil {
						batches = append(batches, namedOf(t))
					} else if d := e.desc(st, VV{fr, ret.Results[0]}); d != "nil" {
						c.fail("no-write-through", fname(m), c.p.ipos(ret), "hands out %s as a batch", d)
					} else {
						c.fail("write-refused", fname(m), c.p.ipos(ret), "hands out a nil batch: recording a write panics instead of being refused")
					}
				}
			}
			a.run(c, "read-only", m, "")
			c.ob("method", fname(m))
		}
		for _, bt := range batches {
			for _, m := range c.p.methodsOf(bt) {
				m := m
				if m.Name() != "Put" && m.Name() != "Delete" {
					continue
				}
				a := &auto{p: c.p}
				a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
					c.check(e.errResult(st, fr, ret) == 'V', "write-refused", fname(m), c.p.ipos(ret), "write recorded in a read-only database's batch may return a nil error")
				}
				a.run(c, "read-only", m, "")
			}
		}
	}
	c.min("write-refused", 5)
	c.min("read-forwarded", 2)
}

// strKey strips the string conversion of a []byte key term.
func strKey(d string) string {
	if strings.HasPrefix(d, "conv:string(") {
		return strings.TrimSuffix(strings.TrimPrefix(d, "conv:string("), ")")
	}
	return d
}

func checkTemporary(c *Ctx) {
	ctor := c.p.fn("db", "Temporary")
	if !must(c, ctor, "overlay", "db.Temporary") {
		return
	}
	ts, unk := returnedTypes(c, "overlay", ctor)
	for _, u := range unk {
		c.fail("overlay-view", fname(ctor)+" returns "+u, c.p.pos(ctor.Pos()), "Temporary can return a value that is not a temporary overlay (%s)", u)
	}
	for _, t := range ts {
		fields := ctorFields(c, "overlay", ctor, t)
		var base, mem, del string
		stt := structOf(t)
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			switch {
			case fields[f.Name()] == "p0":
				base = f.Name()
			case types.IsInterface(f.Type()) && namedOf(f.Type()) == c.p.named("db", "Database"):
				mem = f.Name()
			default:
				if _, ok := f.Type().Underlying().(*types.Map); ok {
					del = f.Name()
				}
			}
		}
		if base == "" || mem == "" || del == "" {
			c.fail("overlay", "anchor fields of "+t.Obj().Name(), c.p.pos(ctor.Pos()), "base/overlay/deletion-mark fields not identified (base=%q overlay=%q marks=%q)", base, mem, del)
			continue
		}
		B, M, D := "p0."+base, "p0."+mem, "p0."+del
		c.check(fields[mem] != "" && !strings.Contains(fields[mem], "p0"), "fresh-overlay", fname(ctor), c.p.pos(ctor.Pos()), "the overlay layer is built from the base (%s)", fields[mem])
		for _, m := range c.p.methodsOf(t) {
			if !isExportedFn(m) {
				continue
			}
			m := m
			c.ob("method", fname(m))
			isWrite := m.Name() == "Put" || m.Name() == "Delete" || m.Name() == "Batch"
			a := &auto{p: c.p}
			lookupTags := func(e *Engine, st *State) *State {
				// layer decisions implied by facts on this path
				for k, f := range st.facts {
					ex, ok := k.v.(*ssa.Extract)
					if !ok || ex.Index != 0 {
						continue
					}
					call, ok := e.res(st, VV{k.fr, ex.Tuple}).v.(*ssa.Call)
					if !ok || !call.Call.IsInvoke() {
						continue
					}
					d := e.desc(st, VV{k.fr, ex})
					if d == "x0("+M+"!Get(p1))" || d == "x0("+M+"!Has(p1))" {
						switch f.k {
						case 'N', 'F':
							st = st.tag("miss")
						case 'V', 'T':
							st = st.tag("hit")
						}
					}
				}
				return st
			}
			a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
				d := e.desc(st, VV{fr, cond})
				for strings.HasPrefix(d, "!") {
					d, taken = d[1:], !taken
				}
				if strings.HasPrefix(d, "ok("+D+"[") {
					k := strKey(strings.TrimSuffix(strings.TrimPrefix(d, "ok("+D+"["), "])"))
					if k == "p1" {
						if taken {
							st = st.tag("del")
						} else {
							st = st.tag("notdel")
						}
					}
				}
				return lookupTags(e, st)
			}
			a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
				if mu, ok := in.(*ssa.MapUpdate); ok && e.desc(st, VV{fr, mu.Map}) == D {
					k := strKey(e.desc(st, VV{fr, mu.Key}))
					n := st.tag("mark:" + k)
					return []*State{n.withC(delTag(n.C, func(w string) bool { return w == "needmark:"+k || w == "undel:"+k }))}
				}
				return nil
			}
			a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
				recv, name, args := e.recvAndName(st, fr, call)
				if name == "delete" && len(args) == 2 && e.desc(st, VV{fr, args[0]}) == D {
					k := strKey(e.desc(st, VV{fr, args[1]}))
					n := st.tag("undel:" + k)
					return []*State{n.withC(delTag(n.C, func(w string) bool { return w == "needundel:"+k || w == "mark:"+k }))}
				}
				st = lookupTags(e, st)
				switch recv {
				case B:
					if dbMutators[name] || name == "NewBatch" || name == "Close" {
						c.fail("base-untouched", fname(m)+" -> "+name, c.p.ipos(call), "the temporary database calls %s on its base", name)
						return []*State{st}
					}
					if name == "Get" || name == "Has" {
						c.ob("layer-order", fname(m))
						k := e.desc(st, VV{fr, args[0]})
						if m.Name() == "Get" || m.Name() == "Has" {
							if k != "p1" {
								c.fail("layer-order", fname(m)+" key", c.p.ipos(call), "asks the base for key %s instead of the requested one", k)
							}
							if !hasTag(st.C, "notdel") {
								c.fail("layer-order", fname(m)+" deleted", c.p.ipos(call), "the base is consulted without the deletion mark of the key being tested first: %s", st.trace())
							}
							if !hasTag(st.C, "miss") {
								c.fail("layer-order", fname(m)+" overlay", c.p.ipos(call), "the base is consulted although the overlay was not found to miss the key: %s", st.trace())
							}
						}
						return []*State{st.tag("base")}
					}
				case M:
					switch name {
					case "Get", "Has":
						if k := e.desc(st, VV{fr, args[0]}); k != "p1" && (m.Name() == "Get" || m.Name() == "Has") {
							c.fail("layer-order", fname(m)+" overlay key", c.p.ipos(call), "asks the overlay for key %s instead of the requested one", k)
						}
						return []*State{st.withC(delTag(st.C, func(w string) bool { return w == "miss" || w == "hit" }))}
					case "Put":
						k := e.desc(st, VV{fr, args[0]})
						n := st.tag("memput:" + k + "=" + e.desc(st, VV{fr, args[1]}))
						if !hasTag(n.C, "undel:"+k) {
							n = n.tag("needundel:" + k)
						}
						return []*State{n}
					case "Delete":
						k := e.desc(st, VV{fr, args[0]})
						n := st.tag("memdel:" + k)
						if !hasTag(n.C, "mark:"+k) {
							n = n.tag("needmark:" + k)
						}
						return []*State{n}
					}
				}
				return []*State{st}
			}
			a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
				st = lookupTags(e, st)
				if e.errResult(st, fr, ret) == 'V' {
					return
				}
				if isWrite {
					c.ob("mask", fname(m))
					for _, k := range tagsWith(st.C, "needundel:") {
						c.fail("mask", fname(m)+" put", c.p.ipos(ret), "returns success after storing key %s in the overlay without clearing its deletion mark: %s", k, st.trace())
					}
					for _, k := range tagsWith(st.C, "needmark:") {
						c.fail("mask", fname(m)+" delete", c.p.ipos(ret), "returns success after deleting key %s from the overlay without setting its deletion mark: %s", k, st.trace())
					}
				}
				switch m.Name() {
				case "Put":
					c.check(hasTag(st.C, "memput:p1=p2"), "stored", fname(m), c.p.ipos(ret), "returns success without storing the key and value in the overlay: %s", st.trace())
				case "Delete":
					c.check(hasTag(st.C, "memdel:p1") && hasTag(st.C, "mark:p1"), "stored", fname(m), c.p.ipos(ret), "returns success without deleting from the overlay and marking the key deleted: %s", st.trace())
				case "Get", "Has":
					r := VV{fr, ret.Results[0]}
					d, f := e.desc(st, r), e.Fact(st, r).k
					ok := false
					switch {
					case hasTag(st.C, "del"):
						ok = f == 'N' || f == 'F'
					case hasTag(st.C, "base"):
						ok = d == "x0("+B+"!"+m.Name()+"(p1))"
					case hasTag(st.C, "hit"):
						ok = d == "x0("+M+"!"+m.Name()+"(p1))" || m.Name() == "Has" && f == 'T'
					}
					c.check(ok, "layer-result", fname(m), c.p.ipos(ret), "returns %s, which is not the answer of the layer that decides on this path (%s): %s", d, st.C, st.trace())
				}
			}
			a.run(c, "overlay", m, "")
		}
	}
	c.min("layer-result", 2)
	c.min("stored", 2)
	c.min("mask", 3)
	c.min("layer-order", 2)
}

func isLockOp(name string) (lock, unlock bool) {
	switch name {
	case "Lock", "RLock":
		return true, false
	case "Unlock", "RUnlock":
		return false, true
	}
	return false, false
}

func checkCached(c *Ctx) {
	t := c.p.named("db", "cachedDB")
	if ctor := c.p.fn("db", "NewCachedDBWithPath"); ctor != nil {
		ts, _ := returnedTypes(c, "cache", ctor)
		for _, x := range ts {
			st := structOf(x)
			for i := 0; st != nil && i < st.NumFields(); i++ {
				if strings.Contains(st.Field(i).Type().String(), "lru.Cache") {
					t = x
				}
			}
		}
	}
	if !must(c, t, "cache", "cached database type") {
		return
	}
	var base, cache, lock string
	stt := structOf(t)
	for i := 0; i < stt.NumFields(); i++ {
		f := stt.Field(i)
		switch {
		case namedOf(f.Type()) == c.p.named("db", "Database"):
			base = f.Name()
		case strings.Contains(f.Type().String(), "lru.Cache"):
			cache = f.Name()
		case strings.HasPrefix(f.Type().String(), "sync."):
			lock = f.Name()
		}
	}
	if base == "" || cache == "" || lock == "" {
		c.fail("cache", "anchor fields of "+t.Obj().Name(), "-", "base/cache/lock fields not identified")
		return
	}
	B, K, L := "p0."+base, "p0."+cache, "p0."+lock
	var batchType *types.Named
	for _, m := range c.p.methodsOf(t) {
		if !isExportedFn(m) {
			continue
		}
		m := m
		c.ob("method", fname(m))
		a := &auto{p: c.p}
		a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
			for k, f := range st.facts {
				if f.k == 'N' && e.desc(st, VV{k.fr, k.v}) == "x0("+B+"!Get(p1))" {
					st = st.tag("absent")
				}
			}
			d := e.desc(st, VV{fr, cond})
			for strings.HasPrefix(d, "!") {
				d, taken = d[1:], !taken
			}
			switch {
			case strings.HasPrefix(d, "more("):
				x := strings.TrimSuffix(strings.TrimPrefix(d, "more("), ")")
				if hasTag(st.C, "iter:"+x) {
					c.fail("invalidate", fname(m)+" batch keys", c.p.ipos(cond.(ssa.Instruction)), "a recorded key of the batch is skipped without being removed from the cache: %s", st.trace())
				}
				if taken {
					st = st.tag("iter:" + x)
				} else {
					st = st.tag("rangedall:" + x)
				}
			case strings.HasPrefix(d, "x1("+K+"!") || strings.HasPrefix(d, "x1((*github.com/hashicorp/golang-lru.Cache).Get("+K+",") || strings.HasPrefix(d, "x1((*lru.Cache).Get("):
				if taken {
					st = st.tag("hit")
				} else {
					st = st.tag("miss")
				}
			}
			return st
		}
		a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
			recv, name, args := e.recvAndName(st, fr, call)
			switch recv {
			case L:
				lk, ul := isLockOp(name)
				if lk {
					return []*State{st.tag("held:" + name)}
				}
				if ul {
					n := st.withC(delTag(st.C, func(w string) bool {
						return strings.HasPrefix(w, "held:") || strings.HasPrefix(w, "removed:") || strings.HasPrefix(w, "read:") || w == "purged" || strings.HasPrefix(w, "rangedall:")
					}))
					for _, k := range tagsWith(n.C, "dirty:") {
						c.fail("invalidate", fname(m)+" section", c.p.ipos(call), "the lock is released between writing key %s to the store and removing it from the cache: %s", k, st.trace())
					}
					return []*State{n}
				}
			case B:
				switch name {
				case "Put", "Delete":
					c.ob("base-write", fname(m)+" "+name)
					if !hasTag(st.C, "held:Lock") {
						c.fail("base-write", fname(m)+" "+name+" lock", c.p.ipos(call), "writes the store without holding the cache lock exclusively: %s", st.trace())
					}
					k := e.desc(st, VV{fr, args[0]})
					if k != "p1" {
						c.fail("base-write", fname(m)+" "+name+" key", c.p.ipos(call), "writes key %s instead of the caller's key", k)
					}
					if name == "Put" {
						if v := e.desc(st, VV{fr, args[1]}); v != "p2" {
							c.fail("base-write", fname(m)+" Put value", c.p.ipos(call), "writes value %s instead of the caller's value", v)
						}
					}
					n := st.tag("wrote:" + name)
					if !hasTag(st.C, "removed:"+k) && !hasTag(st.C, "purged") {
						n = n.tag("dirty:" + k)
					}
					return e.errSplit(n, st, fr, call)
				case "Batch":
					c.ob("base-write", fname(m)+" Batch")
					if !hasTag(st.C, "held:Lock") {
						c.fail("base-write", fname(m)+" Batch lock", c.p.ipos(call), "applies a batch without holding the cache lock exclusively: %s", st.trace())
					}
					n := st.tag("wrote:Batch")
					inv := hasTag(st.C, "purged")
					b := e.desc(st, VV{fr, args[0]})
					for _, x := range tagsWith(st.C, "rangedall:") {
						// the keys of the very batch whose inner batch is applied
						if i := strings.LastIndex(x, "."); i > 0 && (strings.HasPrefix(b, x[:i]+".") || b == x[:i]) {
							inv = true
						}
					}
					if !inv {
						n = n.tag("dirty:batch")
					}
					return e.errSplit(n, st, fr, call)
				case "Get", "Has":
					k := e.desc(st, VV{fr, args[0]})
					if k != "p1" {
						c.fail("read-key", fname(m), c.p.ipos(call), "reads key %s of the store instead of the requested one", k)
					}
					if !hasTag(st.C, "held:Lock") && !hasTag(st.C, "held:RLock") {
						c.fail("fill", fname(m)+" lock", c.p.ipos(call), "reads the store outside the cache lock: %s", st.trace())
					}
					return []*State{st.tag("read:" + k).tag("asked:" + k)}
				}
			case K:
				switch name {
				case "Remove":
					k := strKey(e.desc(st, VV{fr, args[0]}))
					n := st.tag("removed:" + k)
					n = n.withC(delTag(n.C, func(w string) bool {
						return w == "dirty:"+k || strings.HasPrefix(w, "iter:") && k == "key("+strings.TrimPrefix(w, "iter:")+")"
					}))
					return []*State{n}
				case "Purge":
					n := st.tag("purged").tag("renewed")
					return []*State{n.withC(delTag(n.C, func(w string) bool { return strings.HasPrefix(w, "dirty:") }))}
				case "Get", "Contains", "Peek":
					if k := strKey(e.desc(st, VV{fr, args[0]})); k != "p1" {
						c.fail("read-key", fname(m)+" cache", c.p.ipos(call), "looks up key %s in the cache instead of the requested one", k)
					}
				case "Add", "ContainsOrAdd", "PeekOrAdd":
					c.ob("fill", fname(m))
					k := strKey(e.desc(st, VV{fr, args[0]}))
					v := e.res(st, VV{fr, args[1]})
					if mi, ok := v.v.(*ssa.MakeInterface); ok {
						v = e.res(st, VV{v.fr, mi.X})
					}
					v = e.uncopied(st, v)
					d := e.desc(st, v)
					if d != "x0("+B+"!Get("+k+"))" || !hasTag(st.C, "read:"+k) {
						c.fail("fill", fname(m)+" value", c.p.ipos(call), "caches %s for key %s, which is not the value just read from the store for that key in the same critical section: %s", d, k, st.trace())
					} else if e.Fact(st, v).k != 'V' {
						c.fail("fill", fname(m)+" absent", c.p.ipos(call), "may cache a nil value, after which an absent key is reported as present: %s", st.trace())
					}
				}
			}
			return nil
		}
		a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
			if s, ok := in.(*ssa.Store); ok {
				switch e.desc(st, VV{fr, s.Addr}) {
				case B:
					n := st.tag("replaced")
					return []*State{n}
				case K:
					d := e.desc(st, VV{fr, s.Val})
					if strings.Contains(d, "lru.New") {
						return []*State{st.tag("renewed")}
					}
					c.fail("renew", fname(m)+" cache", c.p.ipos(in), "the cache is replaced by %s, which is not a new empty cache", d)
				}
			}
			return nil
		}
		a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
			if hasTag(st.C, "replaced") {
				c.check(hasTag(st.C, "renewed"), "renew", fname(m), c.p.ipos(ret), "the underlying store is replaced but the cache of the old one is kept: %s", st.trace())
			}
			if e.errResult(st, fr, ret) == 'V' {
				return
			}
			c.ob("invalidate", fname(m))
			for _, k := range tagsWith(st.C, "dirty:") {
				c.fail("invalidate", fname(m), c.p.ipos(ret), "writes %s to the store without removing it from the cache: %s", k, st.trace())
			}
			switch m.Name() {
			case "Put", "Delete", "Batch":
				c.check(hasTag(st.C, "wrote:"+m.Name()), "write-through", fname(m), c.p.ipos(ret), "returns success without writing to the store: %s", st.trace())
			case "Get", "Has":
				r := VV{fr, ret.Results[0]}
				v := e.res(st, r)
				v = e.uncopied(st, v)
				d := e.desc(st, v)
				ok := d == "x0("+B+"!"+m.Name()+"(p1))"
				if hasTag(st.C, "hit") {
					ok = m.Name() == "Has" && e.Fact(st, r).k == 'T' || m.Name() == "Get" && strings.HasPrefix(d, "x0(") && strings.Contains(d, K+",") && strings.Contains(d, "p1")
				} else if e.Fact(st, v).k == 'N' && m.Name() == "Get" {
					ok = ok || hasTag(st.C, "asked:p1") && hasTag(st.C, "absent")
				}
				c.check(ok, "read-result", fname(m), c.p.ipos(ret), "returns %s, neither the cached nor the stored value of the key: %s", d, st.trace())
			case "NewBatch":
				if t := e.dynType(st, r0(fr, ret)); t != nil {
					batchType = namedOf(t)
				}
			}
		}
		a.run(c, "cache", m, "")
	}
	// the batch handed out records every key it writes
	if batchType != nil && batchType.Obj().Pkg().Path() == modPath+"/db" {
		for _, m := range c.p.methodsOf(batchType) {
			if m.Name() != "Put" && m.Name() != "Delete" {
				continue
			}
			m := m
			a := &auto{p: c.p}
			a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
				if mu, ok := in.(*ssa.MapUpdate); ok && strings.HasPrefix(e.desc(st, VV{fr, mu.Map}), "p0.") {
					if strKey(e.desc(st, VV{fr, mu.Key})) == "p1" {
						return []*State{st.tag("recorded")}
					}
				}
				return nil
			}
			a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
				if e.errResult(st, fr, ret) == 'V' {
					return
				}
				c.check(hasTag(st.C, "recorded"), "batch-records-key", fname(m), c.p.ipos(ret), "a key written through the batch is not remembered for invalidation: %s", st.trace())
			}
			a.run(c, "cache", m, "")
		}
	} else {
		c.fail("batch-records-key", "batch type", "-", "the cached database's batch type was not identified")
	}
	c.min("base-write", 3)
	c.min("fill", 1)
	c.min("read-result", 2)
	c.min("renew", 1)
	c.min("batch-records-key", 2)
}

// uncopied strips copying calls from a value.
func (e *Engine) uncopied(st *State, v VV) VV {
	for i := 0; i < 4; i++ {
		v = e.res(st, v)
		if mi, ok := v.v.(*ssa.MakeInterface); ok {
			v = VV{v.fr, mi.X}
			continue
		}
		cp, ok := v.v.(*ssa.Call)
		if !ok || len(cp.Call.Args) != 1 || !copies(e.callee(v.fr, cp)) {
			return v
		}
		v = VV{v.fr, cp.Call.Args[0]}
	}
	return v
}

// errSplit forks after a call whose single result is an error: done (nil) / undone (non-nil).
func (e *Engine) errSplit(done, undone *State, fr *Frame, call ssa.CallInstruction) []*State {
	v, ok := call.(ssa.Value)
	if !ok {
		return []*State{done}
	}
	d, u := done.clone(), undone.clone()
	d.facts[fkey{fr, v, -1}] = fact{k: 'N'}
	u.facts[fkey{fr, v, -1}] = fact{k: 'V'}
	return []*State{d, u}
}

func r0(fr *Frame, ret *ssa.Return) VV { return VV{fr, ret.Results[0]} }

// copies: f returns nil or a slice freshly made in f (its argument's bytes are copied).
var copiesMemo = map[*ssa.Function]bool{}

func copies(f *ssa.Function) bool {
	if r, ok := copiesMemo[f]; ok {
		return r
	}
	copiesMemo[f] = false
	r := copies1(f)
	copiesMemo[f] = r
	return r
}

func copies1(f *ssa.Function) bool {
	if f == nil || f.Blocks == nil || f.Signature.Results().Len() != 1 {
		return false
	}
	if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); !ok {
		return false
	}
	copied := false
	var fresh func(v ssa.Value, d int) bool
	seen := map[ssa.Value]bool{}
	fresh = func(v ssa.Value, d int) bool {
		if d > 8 {
			return false
		}
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const:
			return x.Value == nil
		case *ssa.MakeSlice:
			return true
		case *ssa.Slice:
			return fresh(x.X, d+1)
		case *ssa.Alloc:
			_, isArr := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
			if isArr {
				return true
			}
			ok := true
			for _, r := range *x.Referrers() {
				if s, o := r.(*ssa.Store); o && s.Addr == x {
					ok = ok && fresh(s.Val, d+1)
				}
			}
			return ok
		case *ssa.UnOp:
			if x.Op == token.MUL {
				if al, ok := x.X.(*ssa.Alloc); ok {
					return fresh(al, d+1)
				}
			}
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !fresh(e, d+1) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				if fresh(x.Call.Args[0], d+1) {
					copied = true
					return true
				}
				return false
			}
			if g := staticCallee(x); g != nil && g != f {
				pk, nm := calleePkgName(x)
				if pk == "bytes" && nm == "Clone" || pk == "slices" && nm == "Clone" {
					copied = true
					return true
				}
				if copies(g) {
					copied = true
					return true
				}
			}
		}
		return false
	}
	any := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Return:
				any = true
				if !fresh(x.Results[0], 0) {
					return false
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "copy" {
					copied = true
				}
			}
		}
	}
	return any && copied
}

func checkAdapters(c *Ctx) {
	dbi := c.p.named("db", "Database")
	bti := c.p.named("db", "Batch")
	if !must(c, dbi, "adapter", "db.Database") || !must(c, bti, "adapter", "db.Batch") {
		return
	}
	pk := c.p.pkg("db")
	var kbType *types.Named
	for _, name := range pk.Pkg.Scope().Names() {
		tn, ok := pk.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		n, _ := tn.Type().(*types.Named)
		if n == nil {
			continue
		}
		stt, _ := n.Underlying().(*types.Struct)
		if stt == nil {
			continue
		}
		inner, mapper, mapKind := "", "", ""
		isBatch := false
		for i := 0; i < stt.NumFields(); i++ {
			f := stt.Field(i)
			switch {
			case namedOf(f.Type()) == dbi:
				inner = f.Name()
			case namedOf(f.Type()) == bti:
				inner, isBatch = f.Name(), true
			default:
				switch u := f.Type().Underlying().(type) {
				case *types.Signature:
					if u.Params().Len() == 1 && u.Results().Len() == 1 {
						mapper, mapKind = f.Name(), "func"
					}
				case *types.Slice:
					mapper, mapKind = f.Name(), "prefix"
				}
			}
		}
		if inner == "" || mapper == "" {
			continue
		}
		if isBatch {
			kbType = n
		}
		c.ob("mapping-type", name)
		I, MP := "p0."+inner, "p0."+mapper
		for _, m := range c.p.methodsOf(n) {
			if !isExportedFn(m) {
				continue
			}
			m := m
			a := &auto{p: c.p}
			a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
				// facts about the mapping being absent
				d := e.desc(st, VV{fr, cond})
				for strings.HasPrefix(d, "!") {
					d, taken = d[1:], !taken
				}
				switch d {
				case "(" + MP + "==nil)", "(len(" + MP + ")==c:0)":
					if taken {
						return st.tag("absent")
					}
				case "(" + MP + "!=nil)", "(len(" + MP + ")!=c:0)", "(len(" + MP + ")>c:0)", "(c:0<len(" + MP + "))":
					if !taken {
						return st.tag("absent")
					}
				}
				return st
			}
			keyOK := func(st *State, d string) bool {
				if d == "p1" {
					return hasTag(st.C, "absent")
				}
				if mapKind == "func" {
					return d == "dyn:"+MP+"(p1)"
				}
				// a pure function of the prefix and the key
				return strings.Contains(d, MP) && strings.Contains(d, "p1") && strings.HasPrefix(d, "db.PrefixKey(")
			}
			a.inline = func(fr *Frame, call ssa.CallInstruction, callee *ssa.Function) bool {
				return fnPkg(callee) == pk && callee.Name() != "PrefixKey" && callee.Name() != "PrefixKey2"
			}
			a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
				recv, name, args := e.recvAndName(st, fr, call)
				if recv != I {
					return nil
				}
				switch name {
				case "Put", "Get", "Has", "Delete", "Load", "Save":
					k := e.desc(st, VV{fr, args[0]})
					c.check(keyOK(st, k), "key-mapped", fname(m)+" -> "+name, c.p.ipos(call), "passes key %s to the wrapped store, not the mapped key: %s", k, st.trace())
					if len(args) > 1 {
						v := e.desc(st, VV{fr, args[1]})
						c.check(v == "p2", "value-forwarded", fname(m)+" -> "+name, c.p.ipos(call), "passes value %s instead of the caller's", v)
					}
					return []*State{st.tag("did:" + name)}
				case "Batch":
					b := e.res(st, VV{fr, args[0]})
					bd := e.desc(st, b)
					okU := strings.HasPrefix(bd, "p1.") || bd == "p1" && hasTag(st.C, "notwrapped")
					c.check(okU, "batch-unwrapped", fname(m), c.p.ipos(call), "hands %s to the wrapped store, which did not create it: %s", bd, st.trace())
					return []*State{st.tag("did:Batch")}
				}
				return nil
			}
			// "not a wrapped batch" is established by a failed assertion to the wrapper type
			prev := a.branch
			a.branch = func(e *Engine, st *State, fr *Frame, cond ssa.Value, taken bool) *State {
				st = prev(e, st, fr, cond, taken)
				d := e.desc(st, VV{fr, cond})
				for strings.HasPrefix(d, "!") {
					d, taken = d[1:], !taken
				}
				if strings.HasPrefix(d, "is:*db.") && strings.HasSuffix(d, "(p1)") && !taken {
					st = st.tag("notwrapped")
				}
				if d == "(p1!=nil)" && !taken || d == "(p1==nil)" && taken {
					st = st.tag("notwrapped")
				}
				return st
			}
			want := map[string][]string{"Put": {"Put", "Save"}, "Save": {"Put", "Save"}, "Get": {"Get", "Load"}, "Load": {"Get", "Load"}, "Has": {"Has"}, "Delete": {"Delete"}, "Batch": {"Batch"}, "SaveBatch": {"Batch"}}
			a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
				if w := want[m.Name()]; w != nil && e.errResult(st, fr, ret) != 'V' {
					done := false
					for _, x := range w {
						done = done || hasTag(st.C, "did:"+x)
					}
					c.check(done, "forwarded", fname(m), c.p.ipos(ret), "returns success without forwarding the operation: %s", st.trace())
					if m.Name() == "Get" || m.Name() == "Load" || m.Name() == "Has" {
						d := e.desc(st, r0(fr, ret))
						c.check(strings.HasPrefix(d, "x0("+I+"!"), "result-forwarded", fname(m), c.p.ipos(ret), "returns %s instead of the wrapped store's answer", d)
					}
				}
				switch m.Name() {
				case "NewBatch":
					t := e.dynType(st, r0(fr, ret))
					c.check(t != nil && kbLike(namedOf(t), bti), "batch-mapped", fname(m), c.p.ipos(ret), "hands out a batch that does not map keys")
				}
			}
			// stores into a freshly built sibling: the mapping and the inner store it gets
			a.instr = func(e *Engine, st *State, fr *Frame, in ssa.Instruction) []*State {
				s, ok := in.(*ssa.Store)
				if !ok {
					return nil
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					return nil
				}
				x := e.res(st, VV{fr, fa.X})
				if _, isNew := x.v.(*ssa.Alloc); !isNew {
					return nil
				}
				owner := namedOf(fa.X.Type())
				fn := fieldName(fa)
				d := e.desc(st, VV{fr, s.Val})
				switch {
				case owner == n && fn == mapper && (m.Name() == "Clone" || m.Name() == "Rebase"):
					c.check(strings.Contains(d, MP) || d == "nil" && hasTag(st.C, "absent"), "mapping-kept", fname(m), c.p.ipos(in), "the derived adapter gets mapping %s instead of its own", d)
					return []*State{st.tag("kept")}
				case owner == n && fn == inner && m.Name() == "Clone":
					c.check(d == I, "store-kept", fname(m), c.p.ipos(in), "the clone uses store %s instead of the original's", d)
				case owner == n && fn == inner && m.Name() == "Rebase":
					c.check(d == "p1", "store-kept", fname(m), c.p.ipos(in), "the rebased adapter uses store %s instead of the given one", d)
				case kbLike(owner, bti) && namedOf(fa.Type().Underlying().(*types.Pointer).Elem()) == bti:
					c.check(d == I+"!NewBatch()", "batch-mapped", fname(m)+" inner", c.p.ipos(in), "the mapped batch wraps %s instead of a batch of the wrapped store", d)
				case kbLike(owner, bti):
					if _, isF := fa.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Signature); isF {
						okM := d == MP
						if r := e.res(st, VV{fr, s.Val}); !okM {
							if mc, ok := r.v.(*ssa.MakeClosure); ok {
								okM = closureMapsKey(c, mc.Fn.(*ssa.Function), n, mapper)
							}
						}
						c.check(okM, "batch-mapped", fname(m)+" mapping", c.p.ipos(in), "the batch maps keys with %s, not with the mapping of the other operations", d)
						return []*State{st.tag("batchmap")}
					}
				}
				return nil
			}
			a.run(c, "adapter", m, "")
			if m.Name() == "Clone" || m.Name() == "Rebase" {
				c.min("mapping-kept", 1)
			}
		}
	}
	if kbType == nil {
		c.fail("adapter", "batch type", "-", "no key-mapping batch type found")
	}
	c.min("mapping-type", 3)
	c.min("key-mapped", 12)
	c.min("batch-unwrapped", 2)
	c.min("mapping-kept", 2)
	c.min("batch-mapped", 4)
}

func kbLike(n *types.Named, bti *types.Named) bool {
	if n == nil {
		return false
	}
	st, _ := n.Underlying().(*types.Struct)
	if st == nil {
		return false
	}
	b, f := false, false
	for i := 0; i < st.NumFields(); i++ {
		if namedOf(st.Field(i).Type()) == bti {
			b = true
		}
		if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok {
			f = true
		}
	}
	return b && f
}

// closureMapsKey: a bound method or closure that yields the prefix mapping of T.
func closureMapsKey(c *Ctx, f *ssa.Function, t *types.Named, mapper string) bool {
	target := f
	// bound method wrapper: find the method it calls
	if f.Synthetic != "" || len(f.Blocks) == 1 {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if call, ok := in.(*ssa.Call); ok {
					if g := staticCallee(call); g != nil && recvNamed(g) == t {
						target = g
					}
				}
			}
		}
	}
	uses := false
	for fn := range c.p.reachableFns(target) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if fa, ok := in.(*ssa.FieldAddr); ok && namedOf(fa.X.Type()) == t && fieldName(fa) == mapper {
					uses = true
				}
			}
		}
	}
	return uses
}

func checkBatchWrite(c *Ctx) {
	fn := c.p.fn("db", "BatchWrite")
	if !must(c, fn, "flush", "db.BatchWrite") {
		return
	}
	a := &auto{p: c.p}
	// the callback parameter is the one of function type
	cb := ""
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			cb = fmt.Sprintf("p%d", i)
		}
	}
	a.call = func(e *Engine, st *State, fr *Frame, call ssa.CallInstruction) []*State {
		recv, name, args := e.recvAndName(st, fr, call)
		switch {
		case name == "NewBatch" && recv == "p0":
			if hasTag(st.C, "pending") {
				c.fail("flush", fname(fn)+" dropped", c.p.ipos(call), "a new batch is started while accepted writes of the previous one were never applied: %s", st.trace())
			}
			return []*State{st.withC(delTag(st.C, func(w string) bool { return w == "applied" || w == "undecided" }))}
		case name == "Batch" && recv == "p0":
			c.ob("flush", fname(fn)+" apply")
			d := e.desc(st, VV{fr, args[0]})
			if !strings.Contains(d, "NewBatch()") {
				c.fail("flush", fname(fn)+" batch", c.p.ipos(call), "applies %s, which is not the batch the writes went to", d)
			}
			if hasTag(st.C, "applied") && !hasTag(st.C, "pending") {
				c.fail("flush", fname(fn)+" twice", c.p.ipos(call), "the same batch is applied twice: %s", st.trace())
			}
			n := st.withC(delTag(st.C, func(w string) bool { return w == "pending" || w == "storeerr" || w == "undecided" }))
			bad := n.clone()
			bad.C = addTag(bad.C, "storeerr")
			if v, ok := call.(ssa.Value); ok {
				bad.facts[fkey{fr, v, -1}] = fact{k: 'V'}
				n = n.clone()
				n.facts[fkey{fr, v, -1}] = fact{k: 'N'}
			}
			n.C = addTag(n.C, "applied")
			return []*State{n, bad}
		case name == "dyn:"+cb:
			c.ob("flush", fname(fn)+" write")
			if hasTag(st.C, "applied") {
				c.fail("flush", fname(fn)+" stale", c.p.ipos(call), "a write is recorded in a batch that was already applied: %s", st.trace())
			}
			v := call.(ssa.Value)
			okS, noS, erS := st.clone(), st.clone(), st.clone()
			okS.C = addTag(okS.C, "pending")
			okS.facts[fkey{fr, v, 0}] = fact{k: 'T'}
			okS.facts[fkey{fr, v, 1}] = fact{k: 'N'}
			noS.facts[fkey{fr, v, 0}] = fact{k: 'F'}
			noS.facts[fkey{fr, v, 1}] = fact{k: 'N'}
			erS.C = addTag(erS.C, "cberr")
			erS.facts[fkey{fr, v, 1}] = fact{k: 'V'}
			return []*State{okS, noS, erS}
		}
		if hasTag(st.C, "cberr") || hasTag(st.C, "storeerr") {
			if name == "Batch" || name == "NewBatch" {
				c.fail("flush", fname(fn)+" after error", c.p.ipos(call), "work continues after an error")
			}
		}
		return nil
	}
	a.exit = func(e *Engine, st *State, fr *Frame, ret *ssa.Return) {
		r := e.errResult(st, fr, ret)
		if hasTag(st.C, "cberr") || hasTag(st.C, "storeerr") {
			c.check(r == 'V', "error-reported", fname(fn), c.p.ipos(ret), "an error of the callback or of the store is not returned: %s", st.trace())
			return
		}
		if r == 'V' {
			return
		}
		c.check(!hasTag(st.C, "pending"), "flush", fname(fn)+" return", c.p.ipos(ret), "returns success while accepted writes are still in an unapplied batch: %s", st.trace())
	}
	a.run(c, "flush", fn, "")
	c.min("flush", 3)
	c.min("error-reported", 2)
}
