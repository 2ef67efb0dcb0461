package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Determinism: what leaves an operation does not depend on the order in which
// Go happens to walk a map, nor on time, randomness or the environment.

type detChk struct {
	c *Ctx
	// functions that return a sequence in map order, by result index
	unsorted map[*ssa.Function]map[int]string
	sorter   map[*ssa.Function]map[int]bool
	quiet    *[]string // collects instead of reporting
	params   map[string]string
}

func (d *detChk) fail(cons, where, format string, a ...any) {
	if d.quiet != nil {
		*d.quiet = append(*d.quiet, fmt.Sprintf(format, a...))
		return
	}
	d.c.fail("map-order", cons, where, format, a...)
}

func (d *detChk) ob(s string) {
	if d.quiet == nil {
		d.c.ob("map-order", s)
	}
}

// param: what the function does with the order of parameter i, "" for nothing.
func (d *detChk) param(f *ssa.Function, i, depth int) string {
	if depth > 3 || len(f.Blocks) == 0 || i >= len(f.Params) || !d.c.p.inPkg(f, allPkgs...) || d.c.p.inPkg(f, "log") || stringOnly(f) {
		return ""
	}
	key := fmt.Sprint(fname(f), "#", i)
	if w, ok := d.params[key]; ok {
		return w
	}
	d.params[key] = ""
	save := d.quiet
	var got []string
	d.quiet = &got
	k := &detClass{d: d, f: f, vals: map[ssa.Value]bool{f.Params[i]: true}, cells: map[string]bool{}}
	k.grow()
	for _, u := range k.walk(f.Blocks[0], 0, false) {
		if u.what != "is returned" {
			got = append(got, "the list "+u.what)
		}
	}
	before := k.unsortedBlocks([]*ssa.BasicBlock{f.Blocks[0]})
	for _, l := range d.seqLoops(k, nil) {
		if before[l.head] {
			d.src(l, 2)
		}
	}
	d.quiet = save
	w := ""
	if len(got) > 0 {
		w = got[0]
	}
	d.params[key] = w
	return w
}

// sorts: the call orders the elements of argument i.
func (d *detChk) sorts(cc ssa.CallInstruction, i int) bool {
	pk, n := calleePkgName(cc)
	switch pk {
	case "sort":
		return n != "Reverse" && !strings.HasPrefix(n, "Search") && !strings.Contains(n, "AreSorted") && n != "IsSorted" && n != "SliceIsSorted"
	case "slices":
		return strings.HasPrefix(n, "Sort")
	}
	f := staticCallee(cc)
	return f != nil && d.sortsParam(f, i)
}

// sortsParam: the function sorts its parameter on every path (or returns early
// because there is nothing to sort).
func (d *detChk) sortsParam(f *ssa.Function, i int) bool {
	if len(f.Blocks) == 0 || i >= len(f.Params) || !d.c.p.inPkg(f, allPkgs...) {
		return false
	}
	if m := d.sorter[f]; m != nil {
		if v, ok := m[i]; ok {
			return v
		}
	} else {
		d.sorter[f] = map[int]bool{}
	}
	d.sorter[f][i] = false
	cl := &detClass{d: d, f: f, vals: map[ssa.Value]bool{f.Params[i]: true}, cells: map[string]bool{}}
	cl.grow()
	r := len(cl.walk(f.Blocks[0], 0, true)) == 0
	d.sorter[f][i] = r
	return r
}

// detClass: the values of a function that hold one sequence.
type detClass struct {
	d     *detChk
	f     *ssa.Function
	vals  map[ssa.Value]bool
	cells map[string]bool // fields and variables that hold it
}

func cellOf(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.Alloc:
		return "alloc:" + x.Name()
	case *ssa.FreeVar:
		return "free:" + x.Name()
	case *ssa.Global:
		return "global:" + x.String()
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", cellBase(x.X), x.Field)
	}
	return ""
}

func cellBase(v ssa.Value) string {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		if c := cellOf(u.X); c != "" {
			return "*" + c
		}
	}
	if c := cellOf(v); c != "" {
		return c
	}
	return v.Name()
}

func seqLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Slice, *types.Array:
		return true
	}
	return false
}

func (k *detClass) grow() {
	for ch := true; ch; {
		ch = false
		add := func(v ssa.Value) {
			if !k.vals[v] {
				k.vals[v] = true
				ch = true
			}
		}
		for _, b := range k.f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Phi:
					for _, e := range x.Edges {
						if k.vals[e] {
							add(x)
						}
					}
				case *ssa.Slice:
					if k.vals[x.X] {
						add(x)
					}
				case *ssa.ChangeType:
					if k.vals[x.X] {
						add(x)
					}
				case *ssa.Convert:
					if k.vals[x.X] && seqLike(x.Type()) {
						add(x)
					}
				case *ssa.MakeInterface:
					if k.vals[x.X] {
						add(x)
					}
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
						for _, a := range x.Call.Args {
							if k.vals[a] {
								add(x)
							}
						}
					}
					if pk, n := calleePkgName(x); pk == "sort" && len(x.Call.Args) > 0 && k.vals[x.Call.Args[0]] && (n == "Reverse" || strings.HasSuffix(n, "Slice") && x.Type().String() != "()") {
						add(x)
					}
				case *ssa.Store:
					if c := cellOf(x.Addr); c != "" && k.vals[x.Val] && !k.cells[c] {
						k.cells[c] = true
						ch = true
					}
				case *ssa.UnOp:
					if x.Op == token.MUL && k.cells[cellOf(x.X)] && (seqLike(x.Type()) || isIface(x.Type())) {
						add(x)
					}
				}
			}
		}
	}
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

type detUse struct {
	in   ssa.Instruction
	what string
	ret  int
}

// walk: the uses of the sequence reached from b without being sorted.
func (k *detClass) walk(b *ssa.BasicBlock, at int, mustSort bool) []detUse {
	var uses []detUse
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock, at int)
	hit := func(in ssa.Instruction, what string, ret int) {
		uses = append(uses, detUse{in, what, ret})
	}
	// closures that capture a cell of the sequence and sort it or are its order
	visit = func(b *ssa.BasicBlock, at int) {
		if at == 0 {
			if seen[b] {
				return
			}
			seen[b] = true
		}
		for _, in := range b.Instrs[at:] {
			switch x := in.(type) {
			case *ssa.Return:
				if mustSort {
					hit(x, "", 0)
					return
				}
				for i, r := range x.Results {
					if k.vals[r] {
						hit(x, "is returned", i)
					}
				}
				return
			case *ssa.Store:
				if k.vals[x.Val] {
					if _, ok := x.Addr.(*ssa.Alloc); ok {
						break
					}
					// a field: sorted later through the field?
				}
			case ssa.CallInstruction:
				args := callArgs(x)
				done := false
				for i, a := range args {
					if k.vals[a] && k.d.sorts(x, i) {
						done = true
					}
				}
				if done {
					return
				}
				if mustSort {
					break
				}
				if w := k.d.sinkCall(x, func(v ssa.Value) bool { return k.vals[v] }); w != "" {
					hit(x, w, -1)
				} else if g := staticCallee(x); g != nil && g != k.f {
					for i, a := range args {
						if !k.vals[a] {
							continue
						}
						if w := k.d.param(g, i, 1); w != "" {
							hit(x, "is passed to "+fname(g)+" ("+w+")", -1)
						}
					}
				}
			case *ssa.If:
				// nothing to sort in a list of at most one element
				for i, s := range b.Succs {
					if !k.short(x.Cond, i == 0) {
						visit(s, 0)
					}
				}
				return
			case *ssa.Jump:
				visit(b.Succs[0], 0)
				return
			}
		}
	}
	visit(b, at)
	return uses
}

// short: the condition, when it has the value, bounds the length by one.
func (k *detClass) short(cond ssa.Value, taken bool) bool {
	x, ok := cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	op, l, r := x.Op, x.X, x.Y
	isLen := func(v ssa.Value) bool {
		c, ok := v.(*ssa.Call)
		if !ok {
			return false
		}
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
			return k.vals[c.Call.Args[0]] || c.Call.Args[0].Type().Underlying() != nil && func() bool { _, m := c.Call.Args[0].Type().Underlying().(*types.Map); return m }()
		}
		f := staticCallee(c)
		return f != nil && f.Name() == "Len" && k.vals[c.Call.Args[0]]
	}
	if isLen(r) && !isLen(l) {
		l, r = r, l
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if k.vals[l] && constNil(r) {
		return op == token.EQL && taken || op == token.NEQ && !taken
	}
	n, ok := constInt(r)
	if !isLen(l) || !ok {
		return false
	}
	if !taken {
		switch op {
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		}
	}
	switch op {
	case token.LSS:
		return n <= 2
	case token.LEQ, token.EQL:
		return n <= 1
	}
	return false
}

// sinkCall: the call makes the order of its argument visible.
func (d *detChk) sinkCall(x ssa.CallInstruction, tainted func(ssa.Value) bool) string {
	if _, ok := x.Common().Value.(*ssa.Builtin); ok {
		return ""
	}
	any := false
	args := callArgs(x)
	for _, a := range args {
		if tainted(a) {
			any = true
		}
	}
	if !any {
		return ""
	}
	pk, n := calleePkgName(x)
	switch pk {
	case "fmt", "log", "errors", "sort":
		if !strings.HasPrefix(n, "F") {
			return ""
		}
	}
	if strings.HasSuffix(pk, "go-common/log") {
		return ""
	}
	if strings.HasPrefix(n, "Write") || strings.HasPrefix(n, "Fprint") || n == "Encode" || strings.HasPrefix(n, "Hash") || n == "EncodeAndHash" || n == "Sum" || n == "HashAndWrite" {
		return "is passed to " + n
	}
	return ""
}

// stringOnly: the function renders text for people.
func stringOnly(f *ssa.Function) bool {
	r := f.Signature.Results()
	if r.Len() != 1 {
		return false
	}
	b, ok := r.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

type detSrc struct {
	f    *ssa.Function
	what string
	// values that carry the order
	vals map[ssa.Value]bool
	// loop of the walk
	body map[*ssa.BasicBlock]bool
	head *ssa.BasicBlock
	pos  ssa.Instruction
}

// natural loop with header h
func natLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var st []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) && !body[p] {
			body[p] = true
			st = append(st, p)
		}
	}
	for len(st) > 0 {
		b := st[len(st)-1]
		st = st[:len(st)-1]
		for _, p := range b.Preds {
			if !body[p] {
				body[p] = true
				st = append(st, p)
			}
		}
	}
	return body
}

func (d *detChk) mapLoops(f *ssa.Function) (out []detSrc) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			nx, ok := in.(*ssa.Next)
			if !ok || nx.IsString {
				continue
			}
			r, ok := nx.Iter.(*ssa.Range)
			if !ok {
				continue
			}
			if _, ok := r.X.Type().Underlying().(*types.Map); !ok {
				continue
			}
			out = append(out, detSrc{f: f, what: "a walk over a map", vals: map[ssa.Value]bool{nx: true}, body: natLoop(b), head: b, pos: nx})
		}
	}
	return
}

// seqLoops: loops over the elements of the unsorted sequence.
func (d *detChk) seqLoops(k *detClass, from map[*ssa.BasicBlock]bool) (out []detSrc) {
	for _, b := range k.f.Blocks {
		for _, in := range b.Instrs {
			ia, ok := in.(*ssa.IndexAddr)
			if !ok || !k.vals[ia.X] || from[b] {
				continue
			}
			// the innermost loop around the access
			var head *ssa.BasicBlock
			var body map[*ssa.BasicBlock]bool
			for _, h := range k.f.Blocks {
				isHead := false
				for _, p := range h.Preds {
					if h.Dominates(p) {
						isHead = true
					}
				}
				if !isHead {
					continue
				}
				lb := natLoop(h)
				if lb[b] && (body == nil || len(lb) < len(body)) {
					head, body = h, lb
				}
			}
			if head == nil {
				continue
			}
			out = append(out, detSrc{f: k.f, what: "a walk over an unsorted list", vals: map[ssa.Value]bool{ia: true}, body: body, head: head, pos: ia})
		}
	}
	return
}

// taint: values of the loop derived from the walked elements.
func (s *detSrc) taint() {
	for ch := true; ch; {
		ch = false
		for b := range s.body {
			for _, in := range b.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || s.vals[v] {
					continue
				}
				if _, isPhi := v.(*ssa.Phi); isPhi && b == s.head {
					continue
				}
				hit := false
				switch x := in.(type) {
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
						if bi.Name() == "append" {
							// growing a byte string that is not carried around the loop
							hit = s.vals[x.Call.Args[0]] || s.vals[x.Call.Args[1]]
						} else {
							hit = bi.Name() == "copy" && false
						}
						break
					}
					for _, a := range callArgs(x) {
						hit = hit || s.vals[a]
					}
				default:
					for _, op := range in.Operands(nil) {
						hit = hit || *op != nil && s.vals[*op]
					}
				}
				if hit {
					s.vals[v] = true
					ch = true
				}
			}
		}
		// contents stored into local cells of the loop
		for b := range s.body {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok && s.vals[st.Val] {
					base := st.Addr
					for {
						if fa, ok := base.(*ssa.FieldAddr); ok {
							base = fa.X
							continue
						}
						if ia, ok := base.(*ssa.IndexAddr); ok {
							base = ia.X
							continue
						}
						break
					}
					if al, ok := base.(*ssa.Alloc); ok && s.body[al.Block()] && !s.vals[al] {
						s.vals[al] = true
						ch = true
					}
				}
			}
		}
	}
}

// collected: sequences the loop fills in the order of the walk.
func (s *detSrc) collected() (out []*ssa.Call, idx []*ssa.IndexAddr) {
	for b := range s.body {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && s.vals[x] {
					// carried around the loop: through a phi of the header or a cell
					if s.carried(x.Call.Args[0], 0) {
						out = append(out, x)
					}
				}
			case *ssa.Store:
				ia, ok := x.Addr.(*ssa.IndexAddr)
				if !ok || !s.vals[x.Val] || s.vals[ia.Index] || s.vals[ia.X] {
					continue
				}
				if _, ok := ia.Index.(*ssa.Const); ok {
					continue
				}
				// the index does not come from the element
				if in, ok := ia.X.(ssa.Instruction); ok && s.body[in.Block()] {
					if _, isLoad := ia.X.(*ssa.UnOp); !isLoad {
						continue
					}
				}
				idx = append(idx, ia)
			}
		}
	}
	return
}

func (s *detSrc) carried(v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		if x.Block() == s.head {
			return true
		}
		if !s.body[x.Block()] {
			return true
		}
		for _, e := range x.Edges {
			if e != v && s.carried(e, depth+1) {
				return true
			}
		}
		return false
	case *ssa.UnOp:
		if x.Op == token.MUL {
			if al, ok := x.X.(*ssa.Alloc); ok && s.body[al.Block()] {
				return false
			}
			return true
		}
		return false
	case *ssa.Call:
		if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			return s.carried(x.Call.Args[0], depth+1)
		}
		return false
	case *ssa.Slice:
		return s.carried(x.X, depth+1)
	case *ssa.Const:
		return false
	case ssa.Instruction:
		return !s.body[x.Block()]
	}
	return true
}

func (d *detChk) src(s detSrc, depth int) {
	c := d.c
	cons := fname(s.f)
	d.ob(cons + " " + s.what)
	s.taint()
	// direct sinks
	for b := range s.body {
		for _, in := range b.Instrs {
			cl, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if stringOnly(s.f) {
				continue
			}
			if w := d.sinkCall(cl, func(v ssa.Value) bool { return s.vals[v] }); w != "" {
				d.fail(cons, c.p.ipos(in), "an element of %s %s in that order", s.what, w)
			}
		}
	}
	calls, idx := s.collected()
	var exits []*ssa.BasicBlock
	for b := range s.body {
		for _, n := range b.Succs {
			if !s.body[n] {
				exits = append(exits, n)
			}
		}
	}
	judge := func(k *detClass, at ssa.Instruction) {
		k.grow()
		rep := map[string]bool{}
		for _, ex := range exits {
			for _, u := range k.walk(ex, 0, false) {
				if stringOnly(s.f) {
					continue
				}
				if u.ret >= 0 && u.what == "is returned" {
					if !isExportedFn(s.f) || s.f.Parent() != nil {
						m := d.unsorted[s.f]
						if m == nil {
							m = map[int]string{}
							d.unsorted[s.f] = m
						}
						if d.quiet == nil {
							m[u.ret] = c.p.ipos(at)
						}
						continue
					}
				}
				if rep[u.what] {
					continue
				}
				rep[u.what] = true
				d.fail(cons, c.p.ipos(u.in), "a list filled in the order of %s (%s) %s without being sorted", s.what, c.p.ipos(at), u.what)
			}
		}
		// fields that hold the list at the end
		for cell := range k.cells {
			if strings.HasPrefix(cell, "alloc:") && !strings.Contains(cell, ".") {
				continue
			}
			if k.sortedCell(exits) {
				continue
			}
			if stringOnly(s.f) {
				continue
			}
			d.fail(cons, c.p.ipos(at), "a list filled in the order of %s is kept in a field without being sorted", s.what)
		}
		if depth < 3 {
			if len(exits) > 0 {
				// loops over the list that start before it is sorted
				before := k.unsortedBlocks(exits)
				for _, l := range d.seqLoops(k, s.body) {
					if before[l.head] && !s.body[l.head] {
						d.src(l, depth+1)
					}
				}
			}
		}
	}
	for _, x := range calls {
		k := &detClass{d: d, f: s.f, vals: map[ssa.Value]bool{x: true}, cells: map[string]bool{}}
		judge(k, x)
	}
	for _, x := range idx {
		k := &detClass{d: d, f: s.f, vals: map[ssa.Value]bool{x.X: true}, cells: map[string]bool{}}
		if u, ok := x.X.(*ssa.UnOp); ok {
			if cl := cellOf(u.X); cl != "" {
				k.cells[cl] = true
			}
		}
		judge(k, x)
	}
}

func (k *detClass) sortedCell(exits []*ssa.BasicBlock) bool {
	for _, ex := range exits {
		if len(k.walk(ex, 0, true)) > 0 {
			return false
		}
	}
	return true
}

// unsortedBlocks: blocks reached before the list is sorted.
func (k *detClass) unsortedBlocks(exits []*ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, in := range b.Instrs {
			if x, ok := in.(ssa.CallInstruction); ok {
				for i, a := range callArgs(x) {
					if k.vals[a] && k.d.sorts(x, i) {
						return
					}
				}
			}
		}
		for _, s := range b.Succs {
			visit(s)
		}
	}
	for _, b := range exits {
		visit(b)
	}
	return seen
}

// sources of values that differ from run to run
func nondet(f *ssa.Function) string {
	if f.Pkg == nil && f.Object() == nil {
		return ""
	}
	o := f.Object()
	if o == nil || o.Pkg() == nil {
		return ""
	}
	switch o.Pkg().Path() {
	case "time":
		switch o.Name() {
		case "Now", "Since", "Until":
			return "time." + o.Name()
		}
	case "math/rand", "math/rand/v2", "crypto/rand":
		return o.Pkg().Path() + "." + o.Name()
	case "os":
		switch o.Name() {
		case "Getenv", "LookupEnv", "Getpid", "Hostname", "Getwd", "Environ":
			return "os." + o.Name()
		}
	case "runtime":
		switch o.Name() {
		case "NumGoroutine", "NumCPU", "GOMAXPROCS", "Caller", "Callers", "Stack":
			return "runtime." + o.Name()
		}
	}
	return ""
}

func (d *detChk) effects() {
	c := d.c
	for _, f := range c.p.funcsIn("", "rlp", "abi", "trie", "math", "hexutil") {
		if f.Synthetic != "" || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		n := f.Name()
		switch {
		case n == "HashValue" || n == "Hash" && f.Signature.Recv() != nil || strings.HasPrefix(n, "Hash") && f.Signature.Recv() == nil && n != "HashRandom",
			n == "Serialization" || n == "Deserialization" || n == "EncodeRLP" || n == "DecodeRLP" || n == "Pack" || n == "Unpack",
			c.p.inPkg(f, "rlp") && isExportedFn(f) && strings.HasPrefix(n, "Encode"),
			c.p.inPkg(f, "trie") && isExportedFn(f) && (strings.HasSuffix(n, "Proof") || n == "Exist" || n == "PreHashValue" || n == "Commit" || n == "Prove" || n == "Put" || n == "Get" || n == "Delete"):
		default:
			continue
		}
		c.ob("effects", fname(f))
		// breadth-first over static calls and interface implementations in the module
		type st struct {
			f    *ssa.Function
			path string
		}
		seen := map[*ssa.Function]bool{f: true}
		q := []st{{f, fname(f)}}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			for _, b := range x.f.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Select); ok && in.(*ssa.Select).Blocking {
						continue
					}
					cc, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					var tos []*ssa.Function
					if g := staticCallee(cc); g != nil {
						tos = append(tos, g)
						if w := nondet(g); w != "" {
							c.fail("effects", fname(f), c.p.ipos(in), "the result depends on %s (%s)", w, x.path)
						}
					} else if m := calleeFunc(cc); m != nil && cc.Common().IsInvoke() {
						tos = c.p.implementers(m)
					}
					for _, a := range cc.Common().Args {
						if mc, ok := a.(*ssa.MakeClosure); ok {
							tos = append(tos, mc.Fn.(*ssa.Function))
						}
					}
					for _, g := range tos {
						if seen[g] || len(g.Blocks) == 0 || !c.p.inPkg(g, allPkgs...) || c.p.inPkg(g, "log") {
							continue
						}
						seen[g] = true
						q = append(q, st{g, x.path + " -> " + fname(g)})
					}
				}
			}
		}
	}
}

func detCheck(c *Ctx) {
	d := &detChk{c: c, unsorted: map[*ssa.Function]map[int]string{}, sorter: map[*ssa.Function]map[int]bool{}, params: map[string]string{}}
	var fs []*ssa.Function
	for _, f := range c.p.funcsIn(allPkgs...) {
		if len(f.Blocks) > 0 && f.Synthetic == "" {
			fs = append(fs, f)
		}
	}
	for _, f := range fs {
		for _, s := range d.mapLoops(f) {
			d.src(s, 0)
		}
	}
	// helpers that hand on an unsorted list
	for round := 0; round < 3; round++ {
		done := map[*ssa.Function]bool{}
		pend := d.unsorted
		d.unsorted = map[*ssa.Function]map[int]string{}
		for g := range pend {
			done[g] = true
		}
		if len(pend) == 0 {
			break
		}
		for _, f := range fs {
			for _, b := range f.Blocks {
				for i, in := range b.Instrs {
					x, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					g := staticCallee(x)
					if g == nil || pend[g] == nil {
						continue
					}
					for ri := range pend[g] {
						d.helper(f, b, i, x, g, ri)
					}
				}
			}
		}
	}
	d.effects()
	c.min("map-order", 10)
	c.min("effects", 30)
}

func (d *detChk) helper(f *ssa.Function, b *ssa.BasicBlock, i int, x *ssa.Call, g *ssa.Function, ri int) {
	c := d.c
	k := &detClass{d: d, f: f, vals: map[ssa.Value]bool{}, cells: map[string]bool{}}
	if g.Signature.Results().Len() == 1 {
		k.vals[x] = true
	} else {
		for _, r := range *x.Referrers() {
			if e, ok := r.(*ssa.Extract); ok && e.Index == ri {
				k.vals[e] = true
			}
		}
	}
	d.ob(fname(f) + " call of " + fname(g))
	if stringOnly(f) {
		return
	}
	k.grow()
	for _, u := range k.walk(b, i+1, false) {
		if u.what == "is returned" && !isExportedFn(f) {
			m := d.unsorted[f]
			if m == nil {
				m = map[int]string{}
				d.unsorted[f] = m
			}
			m[u.ret] = c.p.ipos(x)
			continue
		}
		d.fail(fname(f), c.p.ipos(u.in), "the unsorted list of %s %s without being sorted", fname(g), u.what)
	}
	for _, l := range d.seqLoops(k, nil) {
		if k.unsortedBlocks(b.Succs)[l.head] || b == l.head {
			d.src(l, 1)
		}
	}
	for cell := range k.cells {
		if strings.HasPrefix(cell, "alloc:") && !strings.Contains(cell, ".") {
			continue
		}
		if len(k.walk(b, i+1, true)) > 0 {
			d.fail(fname(f), c.p.ipos(x), "the unsorted list of %s is kept in a field without being sorted", fname(g))
		}
	}
}

func init() {
	register("G03", "order analysis: every walk over a map (and every loop over a list filled in map order) is followed to what it fills, writes or returns; an ordered result needs a sort on every path; effect analysis: no function reachable from hashing, encoding, proving or tree operations reads the clock, randomness, process or environment state", "functions whose only result is text for people (String, Dump) are exempt from the order rule", detCheck)
}
