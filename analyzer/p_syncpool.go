package main

import (
	"fmt"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C07: objects taken from a sync.Pool.

func init() {
	register("C07",
		"every function that takes from, puts into or keeps an object of a sync.Pool is followed path by path: the object is reset before anything else uses it, it is put back into the pool it came from and only by its owner, at most once, nothing uses it after that and no place keeps it, and no result or stored value points into it; the reset operation itself gives every field of the object a fixed value; results and destinations of the operations on pooled objects never point into their scratch memory",
		"leaving an object to the garbage collector instead of putting it back, which is harmless; whether an interface implementation outside the repository keeps the bytes it is given",
		syncPools)
}

type poolInfo struct {
	g    *ssa.Global
	elem types.Type // type of the pooled objects
}

// scratch fields that need no reset: they are written before they are read.
var poolScratch = map[string]string{
	"rlp.encBuffer.sizebuf": "holds one header while it is appended",
	"rlp.Stream.remaining":  "means something only while limited is set",
	"rlp.Stream.uintbuf":    "filled before it is read",
}

func isPoolCall(c ssa.CallInstruction, name string) bool {
	p, n := calleePkgName(c)
	if p != "sync" || n != name {
		return false
	}
	f := calleeFunc(c)
	if f == nil {
		return false
	}
	s := f.Type().(*types.Signature)
	return s.Recv() != nil && namedOf(s.Recv().Type()) != nil && namedOf(s.Recv().Type()).Obj().Name() == "Pool"
}

func syncPools(c *Ctx) {
	// the pools and what they hold
	pools := map[*ssa.Global]*poolInfo{}
	for _, sp := range c.p.SByPath {
		for _, m := range sp.Members {
			g, ok := m.(*ssa.Global)
			if !ok {
				continue
			}
			n := namedOf(derefType(g.Type()))
			if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" || n.Obj().Name() != "Pool" {
				continue
			}
			pools[g] = &poolInfo{g: g}
		}
	}
	if len(pools) == 0 {
		c.fail("pool", "sync.Pool", "", "no pool found")
		return
	}
	// New functions: stores of functions into the New field in init
	for _, sp := range c.p.SByPath {
		init := sp.Func("init")
		if init == nil {
			continue
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				g := poolOf(fa.X)
				if pools[g] == nil || fieldName(fa) != "New" {
					continue
				}
				var f *ssa.Function
				switch v := st.Val.(type) {
				case *ssa.Function:
					f = v
				case *ssa.MakeClosure:
					f = v.Fn.(*ssa.Function)
				}
				if f == nil {
					continue
				}
				cons := gname(g) + ".New"
				for _, bb := range f.Blocks {
					if r, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Return); ok {
						mi, ok := r.Results[0].(*ssa.MakeInterface)
						fresh := false
						if ok {
							switch a := mi.X.(type) {
							case *ssa.Alloc:
								fresh = a.Heap
							case *ssa.Call:
								fresh = true
							}
							pools[g].elem = mi.X.Type()
						}
						c.check(ok && fresh, "new", cons, c.p.pos(f.Pos()), "the pool does not make a new object when it is empty")
					}
				}
			}
		}
	}
	elems := map[string]*poolInfo{}
	for _, pi := range pools {
		if pi.elem == nil {
			c.note("not decided: objects of %s", gname(pi.g))
		}
	}
	isElem := func(t types.Type) bool { return elems[types.TypeString(t, nil)] != nil }
	k := &spChk{c: c, pools: pools, isElem: isElem, an: mutSummaries(c.p), owner: map[string]bool{}, resetDone: map[*ssa.Function]bool{}}
	// functions that touch a pool, directly or through a function that hands out a pooled object
	direct := map[*ssa.Function]bool{}
	k.wrap = map[*ssa.Function]bool{}
	for _, f := range c.p.funcsIn(allPkgs...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && (isPoolCall(ci, "Get") || isPoolCall(ci, "Put")) {
					direct[f] = true
					if g := globalOf(ci.Common().Args[0]); pools[g] != nil && pools[g].elem != nil {
						elems[types.TypeString(pools[g].elem, nil)] = pools[g]
					}
				}
			}
		}
	}
	for f := range direct {
		if f.Signature.Results().Len() == 1 && isElem(f.Signature.Results().At(0).Type()) {
			k.wrap[f] = true
		}
	}
	var fns []*ssa.Function
	for _, f := range c.p.funcsIn(allPkgs...) {
		use := direct[f]
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := staticCallee(ci); g != nil && k.wrap[g] {
						use = true
					}
				}
			}
		}
		if use && f.Synthetic == "" {
			fns = append(fns, f)
		}
	}
	k.owners(fns)
	for _, f := range c.p.funcsIn(allPkgs...) { // and those that fill or empty an owner
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && isElem(st.Val.Type()) && k.ownerPlace(f, st) && f.Synthetic == "" && !slices.Contains(fns, f) {
					fns = append(fns, f)
				}
			}
		}
	}
	for _, f := range fns {
		k.fn(f)
	}
	k.internals(elems)
	c.min("pool", 10)
	c.min("taken", 9)
	c.min("put", 9)
	c.min("reset", 8)
	c.min("inside", 20)
}

type spChk struct {
	c         *Ctx
	pools     map[*ssa.Global]*poolInfo
	isElem    func(types.Type) bool
	an        *mutAn
	wrap      map[*ssa.Function]bool
	owner     map[string]bool // struct fields that hold pooled objects: "rlp.encReader.buf"
	resetDone map[*ssa.Function]bool
}

// owners: struct fields a pooled object is stored in.
func (k *spChk) owners(fns []*ssa.Function) {
	for _, f := range fns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok || !k.isElem(st.Val.Type()) || !k.taken(st.Val, 0) {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if n := namedOf(derefType(fa.X.Type())); n != nil {
					k.owner[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+fieldName(fa)] = true
				}
			}
		}
	}
}

// taken: the value comes out of a pool.
func (k *spChk) taken(v ssa.Value, d int) bool {
	switch x := v.(type) {
	case *ssa.TypeAssert:
		if c, ok := x.X.(*ssa.Call); ok {
			return isPoolCall(c, "Get")
		}
	case *ssa.Call:
		g := staticCallee(x)
		return g != nil && k.wrap[g]
	case *ssa.Phi:
		if d < 4 {
			for _, e := range x.Edges {
				if k.taken(e, d+1) {
					return true
				}
			}
		}
	}
	return false
}

// ownerFields: owner fields of a struct.
func (k *spChk) ownerFields(t types.Type) (out []string) {
	n := namedOf(derefType(t))
	if n == nil || n.Obj().Pkg() == nil {
		return nil
	}
	for o := range k.owner {
		if strings.HasPrefix(o, n.Obj().Pkg().Name()+"."+n.Obj().Name()+".") {
			out = append(out, o[strings.LastIndex(o, ".")+1:])
		}
	}
	return out
}

func baseTerm(t, n string) bool { // t is n or lies inside of n
	if t == n {
		return true
	}
	for _, p := range []string{"", "*"} {
		if strings.HasPrefix(t, p+n) {
			r := t[len(p+n):]
			if r == "" || r[0] == '.' || r[0] == '[' {
				return true
			}
		}
	}
	return false
}

func (k *spChk) fn(f *ssa.Function) {
	c := k.c
	pkg := fnPkg(f)
	ps, why := eventPaths(c.p, f, func(g *ssa.Function) bool {
		return k.wrap[g] && fnPkg(g) == pkg || g.Signature.Recv() == nil && len(g.Blocks) == 1 && fnPkg(g) == pkg
	}, nil)
	if why != "" {
		c.note("not decided: %s (%s)", fname(f), why)
		return
	}
	c.ob("pool", fname(f))
	for _, p := range ps {
		k.path(f, p)
	}
}

type spObj struct {
	fields map[string]bool // given a fixed value
	term   string          // the object
	pool   string
	ready  bool
	put    bool
	putAt  ssa.Instruction
	alias  map[string]bool // terms pointing into it
}

func (k *spChk) path(f *ssa.Function, p *pPath) {
	c := k.c
	cons := fname(f)
	objs := map[string]*spObj{}
	var find func(t string) *spObj
	find = func(t string) *spObj {
		for _, o := range objs {
			if baseTerm(t, o.term) {
				return o
			}
			for a := range o.alias {
				if baseTerm(t, a) {
					return o
				}
			}
		}
		return nil
	}
	in := func(t string) *spObj { // anywhere in the term
		if o := find(t); o != nil {
			return o
		}
		if strings.HasPrefix(t, "append(") || strings.HasPrefix(t, "[]") {
			for _, o := range objs {
				if strings.Contains(t, o.term) {
					return o
				}
			}
		}
		return nil
	}
	bad := func(e ssa.Instruction, format string, a ...any) {
		pos := c.p.pos(f.Pos())
		if e != nil {
			pos = c.p.ipos(e)
		}
		c.fail("pool", cons, pos, "%s%s", fmt.Sprintf(format, a...), p.describe())
	}
	for i := range p.evs {
		e := &p.evs[i]
		ci, _ := e.in.(ssa.CallInstruction)
		if e.op == "call" && ci != nil && isPoolCall(ci, "Get") {
			c.ob("taken", cons)
			v, _ := ci.(ssa.Value)
			o := &spObj{term: e.res, pool: strings.TrimPrefix(e.args[0], "&"), alias: map[string]bool{}}
			if v != nil && v.Referrers() != nil {
				for _, r := range *v.Referrers() {
					if ta, ok := r.(*ssa.TypeAssert); ok {
						want := k.pools[globalOf(ci.Common().Args[0])]
						if want != nil && want.elem != nil && !types.Identical(ta.AssertedType, want.elem) {
							bad(e.in, "takes a %s from %s, which holds %s", tname(ta.AssertedType), o.pool, tname(want.elem))
						}
						o.alias[e.res+".("+tname(ta.AssertedType)+")"] = true
					}
				}
			}
			objs[o.term] = o
			continue
		}
		if e.op == "call" && ci != nil && isPoolCall(ci, "Put") {
			c.ob("put", cons)
			t := e.args[1]
			pl := strings.TrimPrefix(e.args[0], "&")
			var at types.Type
			if a := ci.Common().Args[1]; a != nil {
				at = a.Type()
				if mi, ok := a.(*ssa.MakeInterface); ok {
					at = mi.X.Type()
				}
			}
			if want := k.pools[globalOf(ci.Common().Args[0])]; want != nil && want.elem != nil && at != nil && !types.Identical(at, want.elem) {
				bad(e.in, "puts a %s into %s, which holds %s", tname(at), pl, tname(want.elem))
			}
			o := find(t)
			if o == nil {
				switch {
				case strings.HasPrefix(t, "new#"), strings.HasPrefix(t, "nil"):
					o = &spObj{term: t, pool: pl, ready: true, alias: map[string]bool{}}
					if t == "nil" {
						bad(e.in, "puts nil into %s", pl)
					}
				case strings.HasPrefix(t, "*") && k.ownerTerm(f, t):
					o = &spObj{term: t, pool: pl, ready: true, alias: map[string]bool{}}
					if why := k.mayPut(f, p, e, t); why != "" {
						bad(e.in, "%s", why)
					}
				default:
					bad(e.in, "puts back %s, which was not taken from the pool here", t)
					continue
				}
				objs[o.term] = o
			}
			if o.pool != pl {
				bad(e.in, "puts an object of %s into %s", o.pool, pl)
			}
			if o.put {
				bad(e.in, "puts the object back twice, first at %s", c.p.ipos(o.putAt))
			}
			o.put, o.putAt = true, e.in
			continue
		}
		switch e.op {
		case "call", "go", "panic", "send", "mapset", "copy":
			if g, ok := e.in.(*ssa.Go); ok {
				if mc, ok := g.Call.Value.(*ssa.MakeClosure); ok {
					for _, b := range mc.Bindings {
						if k.isElem(b.Type()) || k.isElem(derefType(b.Type())) {
							bad(e.in, "hands a pooled object to another goroutine")
						}
					}
				}
			}
			for ai, a := range e.args {
				o := in(a)
				if o == nil {
					continue
				}
				reset := ai == 0 && ci != nil && k.isReset(ci)
				switch {
				case o.put:
					bad(e.in, "uses the object after putting it back at %s", c.p.ipos(o.putAt))
				case e.op == "go" || e.op == "send":
					bad(e.in, "hands a pooled object to another goroutine")
				case reset:
					o.ready = true
				case !o.ready:
					bad(e.in, "uses a pooled object that was not reset: it still has the content of its last use")
				}
				// results that point into the object
				if ci == nil || e.op != "call" {
					continue
				}
				if g := staticCallee(ci); g != nil && k.an.sums[g] != nil {
					s := k.an.sums[g]
					for ri := range s.res {
						if isErrorType(g.Signature.Results().At(ri).Type()) {
							continue
						}
						for _, r := range []rset{s.res[ri], s.resC[ri]} {
							for root := range r {
								if root == fmt.Sprintf("p%d", ai) || strings.HasPrefix(root, fmt.Sprintf("p%d#", ai)) || strings.HasPrefix(root, fmt.Sprintf("p%d*", ai)) {
									if len(s.res) > 1 {
										o.alias[fmt.Sprintf("%s.%d", e.res, ri)] = true
									} else {
										o.alias[e.res] = true
									}
								}
							}
						}
					}
				} else if cf := calleeFunc(ci); cf != nil && ai == 0 && cf.Pkg() != nil {
					switch cf.Pkg().Path() + "." + cf.Name() {
					case "bytes.Bytes", "bytes.Next", "bytes.AvailableBuffer", "math/big.Bits", "bytes.ReadBytes":
						o.alias[e.res] = true
					}
				}
			}
			if e.op == "mapset" {
				if o := in(e.args[2]); o != nil {
					bad(e.in, "keeps memory of a pooled object in a map")
				}
			}
		case "store":
			k.inlineReset(*e, objs)
			o := in(e.args[1])
			if o == nil {
				continue
			}
			if o.put {
				bad(e.in, "keeps the object after putting it back")
				continue
			}
			pl := e.args[0]
			if strings.HasPrefix(pl, "new#") || baseTerm(pl, o.term) || find(pl) == o {
				continue // local, or the object itself
			}
			if e.args[1] != "" && k.ownerPlace(f, e.in) {
				continue
			}
			bad(e.in, "keeps memory of a pooled object in %s", pl)
		}
	}
	if p.end != "return" {
		return
	}
	for _, o := range objs {
		if !o.ready && !o.put {
			used := false
			for _, r := range p.res {
				used = used || in(r) == o
			}
			for pl, v := range p.mem {
				used = used || in(v) == o && !strings.HasPrefix(pl, "new#") || in(v) == o && len(p.res) > 0
			}
			if used {
				bad(p.at, "gives away a pooled object that was not reset")
			}
		}
		if !o.put {
			continue
		}
		for i, r := range p.res {
			if in(r) == o {
				bad(p.at, "result %d points into an object that was put back at %s", i, c.p.ipos(o.putAt))
			}
		}
		// places that still hold it
		for pl, v := range p.mem {
			given := !strings.HasPrefix(pl, "new#")
			for _, r := range p.res {
				given = given || baseTerm(pl, r)
			}
			if in(v) == o && given && !baseTerm(pl, o.term) {
				bad(p.at, "%s still holds the object that was put back at %s", pl, c.p.ipos(o.putAt))
			}
		}
		if strings.HasPrefix(o.term, "*") {
			if v, ok := p.mem[o.term[1:]]; !ok || v == o.term {
				bad(p.at, "%s still holds the object that was put back at %s", o.term[1:], c.p.ipos(o.putAt))
			}
		}
	}
}

// poolOf: the package variable an address belongs to, or that a literal is stored in.
func poolOf(v ssa.Value) *ssa.Global {
	if g, ok := v.(*ssa.Global); ok {
		return g
	}
	al, ok := v.(*ssa.Alloc)
	if !ok {
		return nil
	}
	for _, r := range *al.Referrers() {
		if u, ok := r.(*ssa.UnOp); ok {
			for _, s := range *u.Referrers() {
				if st, ok := s.(*ssa.Store); ok && st.Val == u {
					if g, ok := st.Addr.(*ssa.Global); ok {
						return g
					}
				}
			}
		}
	}
	return nil
}

func globalOf(v ssa.Value) *ssa.Global {
	g, _ := v.(*ssa.Global)
	return g
}

// ownerTerm: the term is the content of a field that holds pooled objects.
func (k *spChk) ownerTerm(f *ssa.Function, t string) bool {
	i := strings.LastIndex(t, ".")
	if i < 0 {
		return false
	}
	for o := range k.owner {
		if strings.HasSuffix(o, t[i:]) {
			return true
		}
	}
	return false
}

func (k *spChk) ownerPlace(f *ssa.Function, in ssa.Instruction) bool {
	st, ok := in.(*ssa.Store)
	if !ok {
		return false
	}
	if fa, ok := st.Addr.(*ssa.FieldAddr); ok {
		for _, o := range k.ownerFields(fa.X.Type()) {
			if o == fieldName(fa) && k.isElem(st.Val.Type()) {
				return true
			}
		}
	}
	// a whole owner struct
	return len(k.ownerFields(st.Val.Type())) > 0
}

// mayPut: an object held in a field may be put back only when it is there and owned.
func (k *spChk) mayPut(f *ssa.Function, p *pPath, e *pEv, t string) string {
	place := t[1:]
	base := place[:strings.LastIndex(place, ".")]
	fld := place[strings.LastIndex(place, ".")+1:]
	// which struct
	var st *types.Struct
	var n *types.Named
	for _, pr := range f.Params {
		if o := namedOf(derefType(pr.Type())); o != nil {
			for _, of := range k.ownerFields(o) {
				if of == fld {
					n, st = o, structOf(o)
				}
			}
		}
	}
	if st == nil {
		return ""
	}
	flag, borrowed := k.ownership(n, fld)
	if borrowed && flag == "" {
		return "puts back " + place + ", which may belong to another holder"
	}
	if borrowed {
		if p.conds["*"+base+"."+flag] {
			return ""
		}
		return "puts back " + place + " without knowing that it is the owner (" + flag + ")"
	}
	if v, ok := p.conds[eqTerm(t, "nil")]; ok && !v {
		return ""
	}
	return "puts back " + place + " without knowing that there is one"
}

// ownership: whether field fld of n also holds objects that were not taken from
// the pool, and the flag that tells.
func (k *spChk) ownership(n *types.Named, fld string) (flag string, borrowed bool) {
	st := structOf(n)
	var flags []string
	for i := 0; i < st.NumFields(); i++ {
		if isBool(st.Field(i).Type()) {
			flags = append(flags, st.Field(i).Name())
		}
	}
	ok := map[string]bool{}
	for _, fl := range flags {
		ok[fl] = true
	}
	for _, f := range k.c.p.funcsIn(allPkgs...) {
		touches := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, y := in.(*ssa.Store); y {
					if fa, y := s.Addr.(*ssa.FieldAddr); y && namedOf(derefType(fa.X.Type())) == n {
						touches = true
					}
				}
			}
		}
		if !touches || f.Synthetic != "" {
			continue
		}
		ps, why := eventPaths(k.c.p, f, func(g *ssa.Function) bool { return k.wrap[g] }, nil)
		if why != "" {
			return "", true
		}
		for _, p := range ps {
			for pl, v := range p.mem {
				if !strings.HasSuffix(pl, "."+fld) {
					continue
				}
				b := strings.TrimSuffix(pl, "."+fld)
				taken := false
				for _, e := range p.evs {
					if ci, y := e.in.(ssa.CallInstruction); y && e.op == "call" && isPoolCall(ci, "Get") && strings.HasPrefix(v, e.res) {
						taken = true
					}
				}
				if v == "nil" || v == "zero" || v == "*"+pl {
					continue
				}
				if !taken {
					borrowed = true
				}
				for fl := range ok {
					fv, y := p.mem[b+"."+fl]
					if taken && !(y && fv == "true") || !taken && !(y && fv == "false") {
						delete(ok, fl)
					}
				}
			}
		}
	}
	for _, fl := range flags {
		if ok[fl] {
			return fl, borrowed
		}
	}
	return "", borrowed
}

// inlineReset: a store of a field of an object fresh from the pool; when every
// field has been given a fixed value the object is reset.
func (k *spChk) inlineReset(e pEv, objs map[string]*spObj) {
	for _, o := range objs {
		if o.ready || o.put {
			continue
		}
		for base := range map[string]bool{o.term: true} {
			k.inlineField(e, o, base)
		}
		for base := range o.alias {
			k.inlineField(e, o, base)
		}
	}
}

func (k *spChk) inlineField(e pEv, o *spObj, base string) {
	pl, v := e.args[0], e.args[1]
	if !strings.HasPrefix(pl, base+".") {
		return
	}
	f := pl[len(base)+1:]
	var want *poolInfo
	for g, i := range k.pools {
		if g != nil && strings.HasSuffix(o.pool, "."+g.Name()) {
			want = i
		}
	}
	if want == nil || want.elem == nil {
		return
	}
	st, n := structOf(derefType(want.elem)), namedOf(want.elem)
	if st == nil || n == nil {
		return
	}
	fixed := v == "nil" || v == "zero" || v == "false" || v == "true" || isConstTerm(v) || strings.HasPrefix(v, "*"+pl) && strings.HasSuffix(v, "[:0]")
	if o.fields == nil {
		o.fields = map[string]bool{}
	}
	o.fields[f] = fixed
	for i := 0; i < st.NumFields(); i++ {
		fn := st.Field(i).Name()
		if poolScratch[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+fn] == "" && !o.fields[fn] {
			return
		}
	}
	for f := range o.fields {
		k.c.ob("reset", fname(e.in.Parent())+" "+f)
	}
	o.ready = true
}

// isReset: the call resets the object, and does so completely.
func (k *spChk) isReset(ci ssa.CallInstruction) bool {
	cf := calleeFunc(ci)
	if cf == nil {
		return false
	}
	if cf.Pkg() != nil {
		switch cf.Pkg().Path() {
		case "bytes":
			return cf.Name() == "Reset"
		case "math/big":
			return strings.HasPrefix(cf.Name(), "Set") && cf.Name() != "SetBit"
		}
	}
	g := staticCallee(ci)
	if g == nil || len(g.Blocks) == 0 || !strings.EqualFold(g.Name(), "reset") {
		return false
	}
	if k.resetDone[g] {
		return true
	}
	k.resetDone[g] = true
	st := structOf(derefType(g.Params[0].Type()))
	n := namedOf(g.Params[0].Type())
	if st == nil || n == nil {
		return true
	}
	ps, why := eventPaths(k.c.p, g, func(h *ssa.Function) bool { return fnPkg(h) == fnPkg(g) }, nil)
	if why != "" {
		k.c.note("not decided: %s (%s)", fname(g), why)
		return true
	}
	for i := 0; i < st.NumFields(); i++ {
		fn := st.Field(i).Name()
		id := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + fn
		if w := poolScratch[id]; w != "" {
			k.c.except(id, w)
			continue
		}
		k.c.ob("reset", fname(g)+" "+fn)
		for _, p := range ps {
			if p.end != "return" {
				continue
			}
			v, ok := p.mem["p0."+fn]
			if !ok || strings.HasPrefix(v, "*p0."+fn) && !strings.HasSuffix(v, "[:0]") {
				k.c.fail("reset", fname(g)+" "+fn, k.c.p.pos(g.Pos()), "field %s keeps what the last user left (%s)%s", fn, v, p.describe())
			}
		}
	}
	return true
}

// internals: nothing outside points into the memory of a pooled object.
func (k *spChk) internals(elems map[string]*poolInfo) {
	c := k.c
	own := func(t types.Type) bool { return len(k.ownerFields(t)) > 0 || k.isElem(t) }
	for _, f := range c.p.funcsIn(allPkgs...) {
		s := k.an.sums[f]
		if s == nil || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		for i, pr := range f.Params {
			pt := pr.Type()
			if !own(pt) && !own(types.NewPointer(pt)) {
				continue
			}
			n := namedOf(derefType(pt))
			if n == nil || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), c.p.ModPath) {
				continue
			}
			p0 := fmt.Sprintf("p%d", i)
			st := structOf(n)
			// memory of the object: its arrays and slices of plain data
			var inner []string
			if st != nil {
				for j := 0; j < st.NumFields(); j++ {
					switch u := st.Field(j).Type().Underlying().(type) {
					case *types.Array:
						inner = append(inner, fmt.Sprintf("%s#%d", p0, j))
					case *types.Slice:
						if !hasRefs(u.Elem()) {
							inner = append(inner, fmt.Sprintf("%s#%d*", p0, j))
						}
					case *types.Pointer:
						if k.isElem(st.Field(j).Type()) {
							inner = append(inner, fmt.Sprintf("%s#%d*", p0, j))
						}
					}
				}
			}
			hit := func(r rset) string {
				for _, root := range sortedKeys(r) {
					for _, w := range inner {
						if root == w || strings.HasPrefix(root, w+"*") {
							return root
						}
					}
				}
				return ""
			}
			cons := fname(f)
			if isExportedFn(f) {
				for ri := range s.res {
					rt := f.Signature.Results().At(ri).Type()
					if !hasRefs(rt) || own(rt) || own(types.NewPointer(rt)) {
						continue
					}
					if _, ok := rt.Underlying().(*types.Interface); ok {
						continue
					}
					c.ob("inside", cons)
					if h := hit(s.res[ri]); h != "" {
						c.fail("inside", cons, c.p.pos(f.Pos()), "result %d points into the memory of the %s, which is used again", ri, n.Obj().Name())
					}
				}
			}
			c.ob("inside", cons)
			for dst, fl := range s.flow {
				if dst == p0 || strings.HasPrefix(dst, p0+"#") || strings.HasPrefix(dst, p0+"*") {
					continue
				}
				if h := hit(fl); h != "" {
					c.fail("inside", cons, c.p.pos(f.Pos()), "memory of the %s, which is used again, is stored in another object", n.Obj().Name())
				}
			}
			// reflection keeps what it is given
			m := k.an.values(f)
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					pk, nm := calleePkgName(ci)
					if pk != "reflect" || !strings.HasPrefix(nm, "Set") && nm != "ValueOf" && nm != "Append" {
						continue
					}
					for _, a := range ci.Common().Args {
						if !hasRefs(a.Type()) {
							continue
						}
						if h := hit(m.of(a).roots); h != "" {
							c.fail("inside", cons, c.p.ipos(in), "memory of the %s, which is used again, is handed to reflect.%s", n.Obj().Name(), nm)
						}
					}
				}
			}
		}
	}
}

// values: the points-to state of a function after analysis.
func (an *mutAn) values(fn *ssa.Function) *mutFn {
	return an.analyse(fn)
}
