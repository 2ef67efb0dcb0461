package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The order evaluator: abstract interpretation of small functions over a
// finite domain. Values are terms over the parameters; what is known about
// them is a set of order relations (<, =, > or unordered nil facts) between
// terms, closed under transitivity and congruence. A comparison of two terms
// splits the abstract state into the relations that are still possible.

type oT struct {
	op  string
	k   string
	a   []*oT
	t   types.Type
	c   constant.Value
	key string
	alt []oAltVal // what a choice stands for
}

type oAltVal struct {
	s *oState
	v *oT
}

func (t *oT) String() string {
	if t == nil {
		return "?"
	}
	if t.key != "" {
		return t.key
	}
	var s string
	switch t.op {
	case "const":
		s = t.c.ExactString()
	default:
		s = t.op
		if t.k != "" {
			s += ":" + t.k
		}
		if len(t.a) > 0 {
			var p []string
			for _, x := range t.a {
				p = append(p, x.String())
			}
			s += "(" + strings.Join(p, ",") + ")"
		}
	}
	t.key = s
	return s
}

func mk(op, k string, t types.Type, a ...*oT) *oT { return &oT{op: op, k: k, t: t, a: a} }

func oConst(c constant.Value, t types.Type) *oT { return &oT{op: "const", c: c, t: t} }
func oInt(n int64) *oT                          { return oConst(constant.MakeInt64(n), types.Typ[types.Int]) }
func oBool(b bool) *oT                          { return oConst(constant.MakeBool(b), types.Typ[types.Bool]) }
func oNil(t types.Type) *oT                     { return mk("nil", "", t) }

func (t *oT) isNil() bool { return t != nil && t.op == "nil" }
func (t *oT) bool() (bool, bool) {
	if t != nil && t.op == "const" && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}
func (t *oT) int() (int64, bool) {
	if t != nil && t.op == "const" && t.c.Kind() == constant.Int {
		return constant.Int64Val(t.c)
	}
	return 0, false
}

const (
	oLT  = 1
	oEQ  = 2
	oGT  = 4
	oANY = 7
)

func oFlip(b int) int {
	r := b & oEQ
	if b&oLT != 0 {
		r |= oGT
	}
	if b&oGT != 0 {
		r |= oLT
	}
	return r
}

func oStr(b int) string {
	return map[int]string{1: "<", 2: "==", 4: ">", 3: "<=", 6: ">=", 5: "!=", 7: "?", 0: "none"}[b]
}

type oFact struct {
	x, y *oT
	r    int
}

type oState struct {
	facts []oFact
	heap  map[string]*oT
	ver   int
	clo   *oClosure
}

func newOState() *oState { return &oState{heap: map[string]*oT{}} }

func (s *oState) clone() *oState {
	n := &oState{facts: s.facts[:len(s.facts):len(s.facts)], heap: map[string]*oT{}, clo: s.clo}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	return n
}

func (s *oState) with(x, y *oT, r int) *oState {
	n := s.clone()
	n.facts = append(n.facts, oFact{x, y, r})
	n.clo = nil
	return n
}

type oClosure struct {
	terms []*oT
	idx   map[string]int
	m     [][]int
	bad   bool
}

func compose(a, b int) int {
	r := 0
	for _, p := range [...]int{oLT, oEQ, oGT} {
		if a&p == 0 {
			continue
		}
		for _, q := range [...]int{oLT, oEQ, oGT} {
			if b&q == 0 {
				continue
			}
			switch {
			case p == oEQ:
				r |= q
			case q == oEQ:
				r |= p
			case p == q:
				r |= p
			default:
				r |= oANY
			}
		}
	}
	return r
}

// sort of a term: only terms of one sort are ordered among each other.
func oSort(t *oT) string {
	if t.op == "len" {
		return "int"
	}
	if t.op == "const" {
		switch t.c.Kind() {
		case constant.Bool:
			return "bool"
		case constant.Int:
			return "int"
		case constant.String:
			return "bytes"
		}
	}
	if t.op == "bytes" || t.op == "elems" {
		return t.op
	}
	if t.t == nil {
		return "?"
	}
	switch u := t.t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsInteger != 0:
			return "int"
		case u.Info()&types.IsString != 0:
			return "bytes"
		}
	case *types.Array:
		return "bytes"
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return "ref"
	}
	if namedIs(t.t, "math/big", "Int") || namedIs(t.t, "math/big", "Rat") {
		return "big"
	}
	return "other"
}

func namedIs(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		// a type defined from big.Int has its structure
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path() == pkg && o.Name() == name
}

// isBigInt: big.Int or a type defined with its structure.
func isBigInt(t types.Type) bool {
	if namedIs(t, "math/big", "Int") {
		return true
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || st.NumFields() != 2 {
		return false
	}
	return st.Field(0).Pkg() != nil && st.Field(0).Pkg().Path() == "math/big" && st.Field(0).Name() == "neg"
}

func isBigRat(t types.Type) bool { return namedIs(t, "math/big", "Rat") }

func (s *oState) closure(extra ...*oT) *oClosure {
	c := &oClosure{idx: map[string]int{}}
	var add func(t *oT)
	add = func(t *oT) {
		if _, ok := c.idx[t.String()]; ok {
			return
		}
		c.idx[t.String()] = len(c.terms)
		c.terms = append(c.terms, t)
		for _, x := range t.a {
			add(x)
		}
		switch t.op {
		case "elems", "bytes":
			add(mk("len", "", types.Typ[types.Int], t.a[0]))
		case "len":
			add(oNil(t.a[0].t))
			add(oInt(0))
		}
		switch oSort(t) {
		case "bool":
			add(oBool(true))
			add(oBool(false))
		}
	}
	for _, f := range s.facts {
		add(f.x)
		add(f.y)
	}
	for _, t := range extra {
		add(t)
	}
	n := len(c.terms)
	c.m = make([][]int, n)
	for i := range c.m {
		c.m[i] = make([]int, n)
		for j := range c.m[i] {
			c.m[i][j] = oANY
			if i == j {
				c.m[i][j] = oEQ
			} else {
				ti, tj := c.terms[i], c.terms[j]
				c.m[i][j] = oBase(ti, tj)
			}
		}
	}
	for _, f := range s.facts {
		i, j := c.idx[f.x.String()], c.idx[f.y.String()]
		c.m[i][j] &= f.r
		c.m[j][i] &= oFlip(f.r)
	}
	set := func(i, j, r int) bool {
		o := c.m[i][j]
		if o&r != o {
			c.m[i][j] = o & r
			c.m[j][i] = oFlip(o & r)
			return true
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for k := 0; k < n; k++ {
			for i := 0; i < n; i++ {
				if c.m[i][k] == oANY {
					continue
				}
				for j := 0; j < n; j++ {
					if set(i, j, compose(c.m[i][k], c.m[k][j])) {
						changed = true
					}
				}
			}
		}
		// congruence and the rules about lengths, bools and nil
		for i := 0; i < n; i++ {
			ti := c.terms[i]
			for j := i + 1; j < n; j++ {
				tj := c.terms[j]
				if len(ti.a) > 0 && ti.op == tj.op && ti.k == tj.k && len(ti.a) == len(tj.a) && c.m[i][j] != oEQ && ti.op != "addr" {
					same := true
					for x := range ti.a {
						if c.m[c.idx[ti.a[x].String()]][c.idx[tj.a[x].String()]] != oEQ {
							same = false
						}
					}
					if same && set(i, j, oEQ) {
						changed = true
					}
				}
				// two empty slices have the same elements; equal content has equal length
				if (ti.op == "elems" && tj.op == "elems") || (ti.op == "bytes" && tj.op == "bytes") {
					li := c.idx[mk("len", "", nil, ti.a[0]).String()]
					lj := c.idx[mk("len", "", nil, tj.a[0]).String()]
					if z, ok := c.idx[oInt(0).String()]; ok {
						if c.m[li][z] == oEQ && c.m[lj][z] == oEQ && set(i, j, oEQ) {
							changed = true
						}
					}
					if ti.op == "bytes" && c.m[i][j] == oEQ && set(li, lj, oEQ) {
						changed = true
					}
				}
			}
			if ti.op == "len" {
				z := c.idx[oInt(0).String()]
				if nl, ok := c.idx[oNil(nil).String()]; ok {
					x := c.idx[ti.a[0].String()]
					if c.m[x][nl] == oEQ && set(i, z, oEQ) {
						changed = true
					}
					if c.m[i][z] == oGT && c.m[x][nl]&oEQ != 0 {
						set(x, nl, oLT|oGT)
						changed = true
					}
				}
			}
			if oSort(ti) == "bool" && ti.op != "const" {
				f, t := c.idx[oBool(false).String()], c.idx[oBool(true).String()]
				if c.m[i][t]&oEQ == 0 && set(i, f, oEQ) {
					changed = true
				}
				if c.m[i][f]&oEQ == 0 && set(i, t, oEQ) {
					changed = true
				}
			}
		}
	}
	for i := range c.m {
		for j := range c.m {
			if c.m[i][j] == 0 {
				c.bad = true
			}
		}
	}
	return c
}

// oBase: relations known from the terms alone.
func oBase(x, y *oT) int {
	if x.op == "const" && y.op == "const" && x.c.Kind() == y.c.Kind() {
		switch x.c.Kind() {
		case constant.Bool:
			a, b := constant.BoolVal(x.c), constant.BoolVal(y.c)
			switch {
			case a == b:
				return oEQ
			case !a:
				return oLT
			default:
				return oGT
			}
		case constant.Int, constant.String:
			switch {
			case constant.Compare(x.c, token.LSS, y.c):
				return oLT
			case constant.Compare(x.c, token.EQL, y.c):
				return oEQ
			default:
				return oGT
			}
		}
	}
	if x.op == "const" && y.op != "const" {
		return oFlip(oBase(y, x))
	}
	if y.op == "const" {
		if y.c.Kind() == constant.Bool {
			if constant.BoolVal(y.c) {
				return oLT | oEQ
			}
			return oGT | oEQ
		}
		if y.c.Kind() == constant.Int && x.op != "const" {
			lo, hi := oRange(x)
			r := oANY
			if lo != nil {
				if constant.Compare(lo, token.GTR, y.c) {
					r &= oGT
				} else if constant.Compare(lo, token.EQL, y.c) {
					r &= oGT | oEQ
				}
			}
			if hi != nil {
				if constant.Compare(hi, token.LSS, y.c) {
					r &= oLT
				} else if constant.Compare(hi, token.EQL, y.c) {
					r &= oLT | oEQ
				}
			}
			return r
		}
	}
	if x.isNil() && !y.isNil() {
		return oFlip(oBase(y, x))
	}
	if y.isNil() {
		switch x.op {
		case "alloc", "addr", "sl", "mkslice":
			return oGT
		}
		return oGT | oEQ
	}
	if x.op == "alloc" && y.op == "alloc" {
		return oLT | oGT
	}
	return oANY
}

func oRange(x *oT) (lo, hi constant.Value) {
	if x.op == "len" || x.op == "iter" {
		return constant.MakeInt64(0), nil
	}
	b, ok := typeBasic(x.t)
	if !ok {
		return nil, nil
	}
	switch b.Kind() {
	case types.Uint, types.Uint64, types.Uintptr:
		return constant.MakeInt64(0), constant.MakeUint64(^uint64(0))
	case types.Uint32:
		return constant.MakeInt64(0), constant.MakeInt64(1<<32 - 1)
	case types.Uint16:
		return constant.MakeInt64(0), constant.MakeInt64(1<<16 - 1)
	case types.Uint8:
		return constant.MakeInt64(0), constant.MakeInt64(255)
	}
	return nil, nil
}

func typeBasic(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

// rel: the relations of x and y that are possible in s.
func (s *oState) rel(x, y *oT) int {
	if x.String() == y.String() {
		return oEQ
	}
	c := s.clo
	if c != nil {
		i, ok := c.idx[x.String()]
		j, ok2 := c.idx[y.String()]
		if ok && ok2 {
			return c.m[i][j]
		}
	}
	c = s.closure(x, y)
	s.clo = c
	return c.m[c.idx[x.String()]][c.idx[y.String()]]
}

func (s *oState) consistent() bool {
	c := s.clo
	if c == nil {
		c = s.closure()
		s.clo = c
	}
	return !c.bad
}

type oAlt struct {
	s *oState
	r int
}

// split: the states for the relations of x and y; only eq/ne for what is not
// ordered.
func (s *oState) split(x, y *oT) []oAlt {
	m := s.rel(x, y)
	rs := []int{oLT, oEQ, oGT}
	if so := oSort(x); so == "ref" || so == "elems" || x.isNil() || y.isNil() {
		rs = []int{oEQ, oLT | oGT}
	}
	var out []oAlt
	for _, r := range rs {
		if m&r == 0 {
			continue
		}
		if m&^r == 0 {
			return []oAlt{{s, r}}
		}
		n := s.with(x, y, r)
		if n.consistent() {
			out = append(out, oAlt{n, r})
		}
	}
	return out
}

func (s *oState) describe() string {
	var p []string
	for _, f := range s.facts {
		p = append(p, fmt.Sprintf("%s %s %s", f.x, oStr(f.r), f.y))
	}
	return strings.Join(p, ", ")
}

// oEval evaluates functions.
type oEval struct {
	p       *Prog
	n       int // budget
	allocs  int
	why     string // why an evaluation was given up
	inline  func(f *ssa.Function) bool
	stop    map[string]func(e *oEval, s *oState, args []*oT) []oOut
	ranges  bool
	indexed map[string][]*oT // iteration variable -> slice terms indexed by it
}

type oOut struct {
	s     *oState
	res   []*oT
	panic bool
}

type oGiveUp struct{ why string }

func (e *oEval) giveUp(f string, a ...any) { panic(oGiveUp{fmt.Sprintf(f, a...)}) }

// try evaluates fn and reports why it could not be decided.
func (e *oEval) try(f func()) (why string) {
	defer func() {
		if r := recover(); r != nil {
			if g, ok := r.(oGiveUp); ok {
				why = g.why
				if why == "" {
					why = "not understood"
				}
				return
			}
			panic(r)
		}
	}()
	e.n = 0
	f()
	return ""
}

type oFrame struct {
	fn    *ssa.Function
	env   map[ssa.Value]*oT
	depth int
	trace map[*ssa.BasicBlock]bool
	stop  *oLoop // innermost active generic iteration
}

func (f *oFrame) clone() *oFrame {
	n := &oFrame{fn: f.fn, depth: f.depth, stop: f.stop, env: map[ssa.Value]*oT{}, trace: map[*ssa.BasicBlock]bool{}}
	for k, v := range f.env {
		n.env[k] = v
	}
	for k := range f.trace {
		n.trace[k] = true
	}
	return n
}

type oLoop struct {
	head  *ssa.BasicBlock
	body  map[*ssa.BasicBlock]bool
	iter  *oT
	bound *oT
	conts []oCont
	outer *oLoop
	exits []oCont
}

type oCont struct {
	s    *oState
	f    *oFrame
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
}

func (e *oEval) call(fn *ssa.Function, args []*oT, s *oState, depth int) []oOut {
	if len(fn.Blocks) == 0 {
		e.giveUp("no body of %s", fname(fn))
	}
	if depth > 8 {
		e.giveUp("call depth at %s", fname(fn))
	}
	fr := &oFrame{fn: fn, env: map[ssa.Value]*oT{}, depth: depth, trace: map[*ssa.BasicBlock]bool{}}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for _, v := range fn.FreeVars {
		fr.env[v] = mk("free", v.Name(), v.Type())
	}
	return e.block(fr, fn.Blocks[0], nil, s)
}

func (e *oEval) val(f *oFrame, v ssa.Value) *oT {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			if isNillable(x.Type()) {
				return oNil(x.Type())
			}
			return e.zero(x.Type())
		}
		return oConst(x.Value, x.Type())
	case *ssa.Global:
		return mk("addr", "", x.Type(), mk("global", x.Name(), derefType(x.Type())))
	case *ssa.Function:
		return mk("func", fname(x), x.Type())
	}
	if t, ok := f.env[v]; ok {
		return t
	}
	e.giveUp("value %s of %s", v.Name(), fname(f.fn))
	return nil
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (e *oEval) zero(t types.Type) *oT {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return oConst(constant.MakeBool(false), t)
		case u.Info()&types.IsInteger != 0:
			return oConst(constant.MakeInt64(0), t)
		case u.Info()&types.IsString != 0:
			return oConst(constant.MakeString(""), t)
		}
		return mk("zero", "", t)
	case *types.Struct:
		if isBigInt(t) || isBigRat(t) {
			return mk("zero", "big", t)
		}
		r := mk("struct", typeKey(t), t)
		for i := 0; i < u.NumFields(); i++ {
			r.a = append(r.a, e.zero(u.Field(i).Type()))
		}
		return r
	case *types.Array:
		if b, ok := typeBasic(u.Elem()); u.Len() <= 16 && !(ok && b.Kind() == types.Uint8) {
			r := mk("arrlit", "", t)
			for i := int64(0); i < u.Len(); i++ {
				r.a = append(r.a, e.zero(u.Elem()))
			}
			return r
		}
		return mk("zero", typeKey(t), t)
	}
	return oNil(t)
}

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

// field projects a content term.
func (e *oEval) field(t *oT, i int, ft types.Type) *oT {
	if t.op == "struct" {
		return t.a[i]
	}
	return mk("field", strconv.Itoa(i), ft, t)
}

// load reads the content at an address.
func (e *oEval) load(s *oState, addr *oT) *oT {
	switch addr.op {
	case "addr":
		return e.norm(s, addr.a[0])
	case "alloc":
		if v, ok := s.heap[addr.k]; ok {
			return v
		}
		e.giveUp("content of %s", addr)
	}
	return mk("deref", "", derefType(addr.t), addr)
}

// norm resolves places that lie in allocated objects.
func (e *oEval) norm(s *oState, t *oT) *oT {
	switch t.op {
	case "deref":
		if t.a[0].op == "alloc" {
			return e.load(s, t.a[0])
		}
	case "field":
		b := e.norm(s, t.a[0])
		i, _ := strconv.Atoi(t.k)
		if b.op == "struct" {
			return b.a[i]
		}
		if b != t.a[0] {
			return mk("field", t.k, t.t, b)
		}
	case "idx":
		if t.a[0].op == "mkslice" || t.a[0].op == "deref" {
			b := t.a[0]
			if b.op == "deref" {
				b = e.norm(s, b)
				if b.op == "deref" {
					return t
				}
				if i, ok := t.a[1].int(); ok && b.op == "arrlit" && i >= 0 && int(i) < len(b.a) {
					return b.a[i]
				}
				return mk("idx", "", t.t, b, t.a[1])
			}
			return e.elem(s, s.heap[b.k], t.a[1], t.t)
		}
	}
	return t
}

// elem: element i of a sequence held by a made slice.
func (e *oEval) elem(s *oState, seq *oT, i *oT, et types.Type) *oT {
	if seq == nil {
		e.giveUp("unknown sequence")
	}
	switch seq.op {
	case "copyof": // copyof(src, n)
		return mk("idx", "", et, seq.a[0], i)
	case "lambda": // lambda(iter, value)
		if seq.a[1].op == "choice" {
			e.giveUp("element of %s", seq)
		}
		return subst(seq.a[1], seq.a[0], i)
	case "zeros":
		return e.zero(et)
	}
	e.giveUp("element of %s", seq)
	return nil
}

func subst(t, x, by *oT) *oT {
	if t.String() == x.String() {
		return by
	}
	if len(t.a) == 0 {
		return t
	}
	n := mk(t.op, t.k, t.t)
	n.c = t.c
	ch := false
	for _, a := range t.a {
		b := subst(a, x, by)
		ch = ch || b != a
		n.a = append(n.a, b)
	}
	if !ch {
		return t
	}
	return n
}

func (e *oEval) store(s *oState, addr, v *oT) *oState {
	n := s.clone()
	switch addr.op {
	case "alloc":
		n.heap[addr.k] = v
		return n
	case "addr":
		if e.storePlace(n, addr.a[0], v) {
			return n
		}
	}
	e.giveUp("store to %s", addr)
	return nil
}

func (e *oEval) storePlace(s *oState, pl, v *oT) bool {
	switch pl.op {
	case "deref":
		if pl.a[0].op == "alloc" {
			s.heap[pl.a[0].k] = v
			return true
		}
	case "field":
		b := e.norm(s, pl.a[0])
		if b.op != "struct" {
			return false
		}
		i, _ := strconv.Atoi(pl.k)
		nb := mk("struct", b.k, b.t)
		nb.a = append([]*oT{}, b.a...)
		nb.a[i] = v
		return e.storePlace(s, pl.a[0], nb)
	case "idx":
		if b := pl.a[0]; b.op == "deref" && b.a[0].op == "alloc" {
			if i, ok := pl.a[1].int(); ok {
				if c := s.heap[b.a[0].k]; c != nil && c.op == "arrlit" && int(i) < len(c.a) && i >= 0 {
					n := mk("arrlit", "", c.t)
					n.a = append([]*oT{}, c.a...)
					n.a[i] = v
					s.heap[b.a[0].k] = n
					return true
				}
			}
			return false
		}
		if pl.a[0].op == "mkslice" && pl.a[1].op == "iter" {
			s.heap[pl.a[0].k+"@"+pl.a[1].k] = v
			return true
		}
	}
	return false
}

// notNil keeps the states in which p is not nil; the others end in a panic.
func (e *oEval) notNil(s *oState, p *oT, out *[]oOut) *oState {
	if p.isNil() {
		*out = append(*out, oOut{s: s, panic: true})
		return nil
	}
	if p.op == "alloc" || p.op == "addr" {
		return s
	}
	nl := oNil(p.t)
	var keep *oState
	for _, a := range s.split(p, nl) {
		if a.r&oEQ != 0 {
			*out = append(*out, oOut{s: a.s, panic: true})
		} else {
			keep = a.s
		}
	}
	return keep
}

func (e *oEval) sliceContent(s *oState, x *oT) *oT {
	if x.op == "sl" {
		if x.k != "" {
			return retype(s.heap[x.k], x.a[0].t)
		}
		return x.a[0]
	}
	if x.op == "mkslice" {
		if q := s.heap[x.k]; q != nil && q.op == "copyof" {
			return e.sliceContent(s, q.a[0])
		}
		e.giveUp("content of %s", x)
	}
	if x.op == "const" {
		return x
	}
	if b, ok := typeBasic(x.t); ok && b.Info()&types.IsString != 0 {
		return x
	}
	return mk("bytes", "", x.t, x)
}

func (e *oEval) lenOf(x *oT) *oT {
	switch x.op {
	case "sl":
		if at, ok := x.a[0].t.Underlying().(*types.Array); ok {
			return oInt(at.Len())
		}
	case "nil":
		return oInt(0)
	case "mkslice":
		return x.a[0]
	case "const":
		if x.c.Kind() == constant.String {
			return oInt(int64(len(constant.StringVal(x.c))))
		}
	}
	if at, ok := x.t.Underlying().(*types.Array); ok {
		return oInt(at.Len())
	}
	return mk("len", "", types.Typ[types.Int], x)
}

// compare splits on the equality or order of two values, component by
// component for structs.
func (e *oEval) compare(s *oState, x, y *oT) []oAlt {
	if x.op == "nilst" || y.op == "nilst" {
		e.giveUp("comparison of %s", x)
	}
	if st, ok := structUnder(x.t); ok && x.op != "nil" && !isBigInt(x.t) && !isBigRat(x.t) {
		cur := []*oState{s}
		var out []oAlt
		for i := 0; i < st.NumFields(); i++ {
			var next []*oState
			for _, c := range cur {
				for _, a := range e.compare(c, e.field(x, i, st.Field(i).Type()), e.field(y, i, st.Field(i).Type())) {
					if a.r == oEQ {
						next = append(next, a.s)
					} else {
						out = append(out, oAlt{a.s, oLT | oGT})
					}
				}
			}
			cur = next
		}
		for _, c := range cur {
			out = append(out, oAlt{c, oEQ})
		}
		return out
	}
	if x.op == "struct" || y.op == "struct" {
		e.giveUp("comparison of %s", x)
	}
	e.n++
	if e.n > 60000 {
		e.giveUp("budget")
	}
	return s.split(x, y)
}

func structUnder(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

// loopOf: the natural loop of a header.
func loopBody(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	body := map[*ssa.BasicBlock]bool{h: true}
	var back []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			back = append(back, p)
		}
	}
	if len(back) == 0 {
		return nil
	}
	for len(back) > 0 {
		b := back[len(back)-1]
		back = back[:len(back)-1]
		if body[b] {
			continue
		}
		body[b] = true
		back = append(back, b.Preds...)
	}
	return body
}

func (e *oEval) block(f *oFrame, b, from *ssa.BasicBlock, s *oState) []oOut {
	e.n++
	if e.n > 60000 {
		e.giveUp("budget")
	}
	if f.stop != nil {
		if b == f.stop.head {
			f.stop.conts = append(f.stop.conts, oCont{s, f, from, b})
			return nil
		}
	}
	if body := loopBody(b); body != nil {
		return e.loop(f, b, from, s, body)
	}
	e.phis(f, b, from)
	return e.instrs(f, b, 0, s)
}

func (e *oEval) phis(f *oFrame, b, from *ssa.BasicBlock) {
	if from == nil {
		return
	}
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
		}
	}
	vals := map[ssa.Value]*oT{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi >= 0 {
			if _, isC := ph.Edges[pi].(*ssa.Const); !isC {
				if _, known := f.env[ph.Edges[pi]]; !known {
					continue
				}
			}
			vals[ph] = e.val(f, ph.Edges[pi])
		}
	}
	for k, v := range vals {
		f.env[k] = v
	}
}

// loop evaluates one generic iteration of a counting loop and summarises it.
func (e *oEval) loop(f *oFrame, h, from *ssa.BasicBlock, s *oState, body map[*ssa.BasicBlock]bool) []oOut {
	var iv *ssa.Phi
	off := int64(0)
	down := false
	appends := map[*ssa.Phi]*ssa.Call{}
	for _, in := range h.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		// the phi is a counter: starts at 0 or -1 and grows by one
		start, okS := int64(0), false
		inc, dec := true, true
		var app *ssa.Call
		for i, p := range h.Preds {
			ed := ph.Edges[i]
			if body[p] {
				bo, ok := ed.(*ssa.BinOp)
				if ok && bo.Op == token.ADD && bo.X == ph {
					if n, ok := constInt(bo.Y); ok && n == 1 {
						dec = false
						continue
					}
				}
				inc = false
				if ok && bo.Op == token.SUB && bo.X == ph {
					if n, ok := constInt(bo.Y); ok && n == 1 {
						continue
					}
				}
				dec = false
				if cl, ok := ed.(*ssa.Call); ok {
					if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && cl.Call.Args[0] == ph {
						app = cl
					}
				}
				continue
			}
			if p != from {
				continue
			}
			if n, ok := constInt(ed); ok && n >= -1 {
				start, okS = n, true
			}
		}
		if dec && iv == nil && !okS {
			iv, down = ph, true
			continue
		}
		switch {
		case inc && okS && iv == nil:
			iv, off = ph, start
		case app != nil:
			appends[ph] = app
		default:
			e.giveUp("loop of %s", fname(f.fn))
		}
	}
	if iv == nil {
		e.giveUp("loop of %s", fname(f.fn))
	}
	e.allocs++
	it := mk("iter", strconv.Itoa(e.allocs), types.Typ[types.Int])
	lp := &oLoop{head: h, body: body, iter: it, outer: f.stop}
	fr := f.clone()
	e.phis(fr, h, from)
	pre := fr.clone()
	if off != -1 {
		fr.env[iv] = it
	} else {
		fr.env[iv] = mk("before", "", types.Typ[types.Int], it)
	}
	for ph := range appends {
		fr.env[ph] = mk("acc", ph.Name(), ph.Type())
	}
	fr.stop = lp
	// the header itself: everything up to the exit condition
	ifi, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		e.giveUp("loop of %s", fname(f.fn))
	}
	cond, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || !down && cond.Op != token.LSS && cond.Op != token.NEQ || down && cond.Op != token.GEQ {
		e.giveUp("loop condition of %s", fname(f.fn))
	}
	for _, in := range h.Instrs[:len(h.Instrs)-1] {
		switch x := in.(type) {
		case *ssa.Phi:
		case *ssa.BinOp:
			if x == cond {
				continue
			}
			v := e.arith(fr, x)
			fr.env[x] = v
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				fr.env[x] = e.lenOf(e.val(fr, x.Call.Args[0]))
				continue
			}
			e.giveUp("loop header of %s", fname(f.fn))
		case *ssa.UnOp:
			if x.Op == token.MUL {
				fr.env[x] = e.load(s, e.val(fr, x.X))
				continue
			}
			e.giveUp("loop header of %s", fname(f.fn))
		case *ssa.FieldAddr:
			e.fieldAddr(fr, x)
		case *ssa.DebugRef:
		default:
			e.giveUp("loop header of %s: %s", fname(f.fn), in)
		}
	}
	if e.val(fr, cond.X).String() != it.String() {
		e.giveUp("loop condition of %s", fname(f.fn))
	}
	lp.bound = e.val(fr, cond.Y)
	if down {
		// from n-1 down to 0
		st := pre.env[iv]
		if !isZeroInt(lp.bound) || st == nil || st.op != "op" || st.k != "-" || len(st.a) != 2 || st.a[1].String() != oInt(1).String() {
			e.giveUp("loop bounds of %s", fname(f.fn))
		}
		lp.bound = st.a[0]
	}
	in, outB := h.Succs[0], h.Succs[1]
	if !body[in] || body[outB] {
		e.giveUp("loop shape of %s", fname(f.fn))
	}
	st := s.with(it, lp.bound, oLT)
	var outs []oOut
	if st.consistent() {
		outs = e.block(fr.clone(), in, h, st)
	}
	// paths that left the loop without returning are evaluated already: block
	// follows them because only the header stops it.
	var pairs [][2]*oT
	idx := e.indexed[it.k]
	for i := 0; i < len(idx); i++ {
		for j := i + 1; j < len(idx); j++ {
			pairs = append(pairs, [2]*oT{idx[i], idx[j]})
		}
	}
	elemsFact := func(st *oState, x, y *oT) (allEq, allNe bool) {
		et := elemType(x.t)
		if et == nil || elemType(y.t) == nil || !types.Identical(et, elemType(y.t)) {
			return false, false
		}
		allEq, allNe = true, true
		for _, a := range e.equal(st, mk("idx", "", et, x, it), mk("idx", "", et, y, it), et) {
			switch a.r {
			case oEQ:
				allNe = false
			case 0: // nil and empty: either way
			default:
				allEq = false
			}
		}
		return
	}
	exit := s
	for _, pr := range pairs {
		covers := off <= 0 && s.rel(lp.bound, e.lenOf(pr[0])) == oEQ
		ok := covers
		for _, c := range lp.conts {
			eq, _ := elemsFact(c.s, pr[0], pr[1])
			if !eq {
				ok = false
			}
		}
		if ok {
			exit = exit.with(mk("elems", "", nil, pr[0]), mk("elems", "", nil, pr[1]), oEQ)
		}
		for i := range outs {
			if outs[i].panic {
				continue
			}
			if _, ne := elemsFact(outs[i].s, pr[0], pr[1]); ne {
				outs[i].s = outs[i].s.with(mk("elems", "", nil, pr[0]), mk("elems", "", nil, pr[1]), oLT|oGT)
			}
		}
	}
	// what the iterations stored or appended
	if off > 0 && len(appends) > 0 {
		e.giveUp("loop of %s", fname(f.fn))
	}
	if len(lp.conts) > 0 {
		exit = exit.clone()
		exit.clo = nil
		seen := map[string]bool{}
		for _, c := range lp.conts {
			for k, v := range c.s.heap {
				if i := strings.IndexByte(k, '@'); i >= 0 && k[i+1:] == it.k && !seen[k] {
					seen[k] = true
					ch := mk("choice", it.k, v.t)
					for _, d := range lp.conts {
						w := d.s.heap[k]
						if w == nil {
							e.giveUp("element not stored on every path of the loop of %s", fname(f.fn))
						}
						ch.alt = append(ch.alt, oAltVal{d.s, w})
					}
					if len(ch.alt) > 1 {
						v = ch
					}
					base := exit.heap[k[:i]]
					if base != nil && base.op == "zeros" && off > 0 {
						exit.heap[k[:i]] = mk("part", "", nil, v)
						continue
					}
					if base == nil || base.op != "zeros" || s.rel(lp.bound, base.a[0]) != oEQ {
						e.giveUp("sequence stored in a loop of %s", fname(f.fn))
					}
					exit.heap[k[:i]] = mk("lambda", "", nil, it, v, lp.bound)
				} else if i < 0 {
					if old, ok := s.heap[k]; ok && old.String() != v.String() {
						e.giveUp("state changed in a loop of %s", fname(f.fn))
					}
					if _, ok := s.heap[k]; !ok {
						exit.heap[k] = v
					}
				}
			}
		}
	}
	for ph, app := range appends {
		var v *oT
		ch := mk("choice", it.k, nil)
		for _, c := range lp.conts {
			a := c.f.env[app]
			if a == nil || a.op != "appended" {
				e.giveUp("append in a loop of %s", fname(f.fn))
			}
			v = a.a[1]
			ch.t = v.t
			ch.alt = append(ch.alt, oAltVal{c.s, v})
		}
		if len(ch.alt) > 1 {
			v = ch
		}
		init := pre.env[ph]
		if init == nil || v == nil {
			e.giveUp("append in a loop of %s", fname(f.fn))
		}
		if !init.isNil() && !(init.op == "mkslice" && isZeroInt(init.a[0])) {
			e.giveUp("append in a loop of %s", fname(f.fn))
		}
		e.allocs++
		id := strconv.Itoa(e.allocs)
		exit = exit.clone()
		exit.heap[id] = mk("lambda", "", nil, it, v, lp.bound)
		pre.env[ph] = mk("mkslice", id, ph.Type(), lp.bound)
	}
	if !exit.consistent() {
		return outs
	}
	pre.stop = f.stop
	for k, v := range fr.env {
		if _, ok := pre.env[k]; !ok {
			if in, ok := k.(ssa.Instruction); ok && in.Block() == h {
				if k != iv && k != ssa.Value(cond) && !mentions(v, it) {
					pre.env[k] = v
				}
			}
		}
	}
	delete(pre.env, iv)
	outs = append(outs, e.block(pre, outB, h, exit)...)
	return outs
}

func isZeroInt(t *oT) bool { n, ok := t.int(); return ok && n == 0 }

func mentions(t, x *oT) bool {
	if t.String() == x.String() {
		return true
	}
	for _, a := range t.a {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	}
	return nil
}

func (e *oEval) fieldAddr(f *oFrame, x *ssa.FieldAddr) {
	p := e.val(f, x.X)
	var base *oT
	if p.op == "addr" {
		base = p.a[0]
	} else {
		base = mk("deref", "", derefType(p.t), p)
		if base.t == nil {
			base.t = derefType(x.X.Type())
		}
	}
	base = mk(base.op, base.k, derefType(x.X.Type()), base.a...)
	f.env[x] = mk("addr", "", x.Type(), mk("field", strconv.Itoa(x.Field), derefType(x.Type()), base))
}

// arith: an arithmetic term.
func (e *oEval) arith(f *oFrame, x *ssa.BinOp) *oT {
	a, b := e.val(f, x.X), e.val(f, x.Y)
	if a.op == "const" && b.op == "const" && a.c.Kind() == constant.Int && b.c.Kind() == constant.Int {
		switch x.Op {
		case token.ADD, token.SUB, token.MUL:
			return oConst(constant.BinaryOp(a.c, x.Op, b.c), x.Type())
		}
	}
	if x.Op == token.ADD && a.op == "before" {
		if n, ok := b.int(); ok && n == 1 {
			return a.a[0]
		}
	}
	if x.Op == token.ADD && b.op == "const" {
		if n, ok := b.int(); ok && n == 0 {
			return a
		}
	}
	return mk("op", x.Op.String(), x.Type(), a, b)
}

func (e *oEval) instrs(f *oFrame, b *ssa.BasicBlock, i int, s *oState) []oOut {
	var out []oOut
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		e.n++
		if e.n > 60000 {
			e.giveUp("budget")
		}
		fork := func(alts []oAlt, v func(r int) *oT) []oOut {
			for _, a := range alts {
				nf := f.clone()
				nf.env[in.(ssa.Value)] = v(a.r)
				out = append(out, e.instrs(nf, b, i+1, a.s)...)
			}
			return out
		}
		switch x := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.RunDefers:
		case *ssa.Alloc:
			e.allocs++
			id := strconv.Itoa(e.allocs)
			s = s.clone()
			s.heap[id] = e.zero(derefType(x.Type()))
			f.env[x] = mk("alloc", id, x.Type())
		case *ssa.Store:
			a := e.val(f, x.Addr)
			if a.op != "alloc" && a.op != "addr" {
				a = mk("addr", "", a.t, mk("deref", "", derefType(a.t), a))
			}
			s = e.store(s, a, e.val(f, x.Val))
		case *ssa.FieldAddr:
			p := e.val(f, x.X)
			if s = e.notNil(s, p, &out); s == nil {
				return out
			}
			e.fieldAddr(f, x)
		case *ssa.Field:
			v := e.val(f, x.X)
			f.env[x] = e.field(v, x.Field, x.Type())
		case *ssa.IndexAddr:
			p := e.val(f, x.X)
			ix := e.val(f, x.Index)
			if _, isP := x.X.Type().Underlying().(*types.Pointer); isP {
				var base *oT
				if p.op == "addr" {
					base = p.a[0]
				} else {
					base = mk("deref", "", derefType(x.X.Type()), p)
				}
				f.env[x] = mk("addr", "", x.Type(), mk("idx", "", derefType(x.Type()), base, ix))
				break
			}
			if ix.op == "iter" {
				e.noteIndexed(ix, p)
			}
			f.env[x] = mk("addr", "", x.Type(), mk("idx", "", derefType(x.Type()), p, ix))
		case *ssa.Index:
			p := e.val(f, x.X)
			ix := e.val(f, x.Index)
			if ix.op == "iter" {
				e.noteIndexed(ix, p)
			}
			f.env[x] = mk("idx", "", x.Type(), p, ix)
		case *ssa.UnOp:
			v := e.val(f, x.X)
			switch x.Op {
			case token.MUL:
				if s = e.notNil(s, v, &out); s == nil {
					return out
				}
				r := e.load(s, v)
				if r.t == nil || r.op == "deref" {
					r = &oT{op: r.op, k: r.k, a: r.a, t: x.Type(), c: r.c}
				}
				f.env[x] = r
			case token.NOT:
				if bv, ok := v.bool(); ok {
					f.env[x] = oBool(!bv)
				} else {
					return fork(s.split(v, oBool(true)), func(r int) *oT { return oBool(r != oEQ) })
				}
			case token.SUB:
				if n, ok := v.int(); ok {
					f.env[x] = oConst(constant.MakeInt64(-n), x.Type())
				} else {
					f.env[x] = mk("op", "neg", x.Type(), v)
				}
			default:
				f.env[x] = mk("op", x.Op.String(), x.Type(), v)
			}
		case *ssa.BinOp:
			switch x.Op {
			case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
				a, c := e.val(f, x.X), e.val(f, x.Y)
				want := map[token.Token]int{token.EQL: oEQ, token.NEQ: oLT | oGT, token.LSS: oLT, token.LEQ: oLT | oEQ, token.GTR: oGT, token.GEQ: oGT | oEQ}[x.Op]
				alts := e.compare(s, a, c)
				return fork(alts, func(r int) *oT { return oBool(r&want != 0) })
			default:
				f.env[x] = e.arith(f, x)
			}
		case *ssa.Convert:
			v := e.val(f, x.X)
			f.env[x] = e.convert(v, x.X.Type(), x.Type())
		case *ssa.ChangeType:
			v := e.val(f, x.X)
			f.env[x] = retype(v, x.Type())
		case *ssa.MakeInterface:
			f.env[x] = mk("iface", "", x.Type(), e.val(f, x.X))
		case *ssa.Slice:
			p := e.val(f, x.X)
			whole := x.High == nil && x.Max == nil
			if whole && x.Low != nil {
				n, ok := e.val(f, x.Low).int()
				whole = ok && n == 0
			}
			if whole {
				if _, isP := x.X.Type().Underlying().(*types.Pointer); isP {
					if s = e.notNil(s, p, &out); s == nil {
						return out
					}
					var c *oT
					switch p.op {
					case "addr":
						c = p.a[0]
					case "alloc":
						c = e.load(s, p)
						f.env[x] = mk("sl", p.k, x.Type(), retype(c, derefType(x.X.Type())))
					default:
						c = mk("deref", "", derefType(x.X.Type()), p)
					}
					if p.op != "alloc" {
						f.env[x] = mk("sl", "", x.Type(), retype(c, derefType(x.X.Type())))
					}
				} else {
					f.env[x] = p
				}
				break
			}
			f.env[x] = mk("slice", fmt.Sprint(x.Low != nil, x.High != nil), x.Type(), append([]*oT{p}, e.optVals(f, x.Low, x.High)...)...)
		case *ssa.MakeSlice:
			e.allocs++
			id := strconv.Itoa(e.allocs)
			n := e.val(f, x.Len)
			s = s.clone()
			s.heap[id] = mk("zeros", "", nil, n)
			f.env[x] = mk("mkslice", id, x.Type(), n)
		case *ssa.TypeAssert:
			v := e.val(f, x.X)
			if v.op == "iface" && types.Identical(v.a[0].t, x.AssertedType) {
				if x.CommaOk {
					f.env[x] = mk("tuple", "", x.Type(), v.a[0], oBool(true))
				} else {
					f.env[x] = v.a[0]
				}
				break
			}
			e.giveUp("type assertion in %s", fname(f.fn))
		case *ssa.Extract:
			v := e.val(f, x.Tuple)
			if v.op != "tuple" || x.Index >= len(v.a) {
				e.giveUp("result of a call in %s", fname(f.fn))
			}
			f.env[x] = v.a[x.Index]
		case *ssa.MakeClosure:
			e.giveUp("closure in %s", fname(f.fn))
		case *ssa.Defer:
			if oIsLock(x) {
				break
			}
			e.giveUp("deferred call in %s", fname(f.fn))
		case *ssa.Call:
			if oIsLock(x) {
				break
			}
			res := e.doCall(f, x, s)
			for _, o := range res {
				if o.panic {
					out = append(out, o)
					continue
				}
				nf := f.clone()
				switch len(o.res) {
				case 0:
				case 1:
					nf.env[x] = o.res[0]
				default:
					nf.env[x] = mk("tuple", "", x.Type(), o.res...)
				}
				out = append(out, e.instrs(nf, b, i+1, o.s)...)
			}
			return out
		case *ssa.If:
			c := e.val(f, x.Cond)
			if v, ok := c.bool(); ok {
				t := b.Succs[1]
				if v {
					t = b.Succs[0]
				}
				return append(out, e.block(f, t, b, s)...)
			}
			for _, a := range s.split(c, oBool(true)) {
				t := b.Succs[1]
				if a.r == oEQ {
					t = b.Succs[0]
				}
				out = append(out, e.block(f.clone(), t, b, a.s)...)
			}
			return out
		case *ssa.Jump:
			return append(out, e.block(f, b.Succs[0], b, s)...)
		case *ssa.Return:
			o := oOut{s: s}
			for _, r := range x.Results {
				o.res = append(o.res, e.val(f, r))
			}
			return append(out, o)
		case *ssa.Panic:
			return append(out, oOut{s: s, panic: true})
		default:
			e.giveUp("%T in %s", in, fname(f.fn))
		}
	}
	return out
}

func (e *oEval) optVals(f *oFrame, vs ...ssa.Value) []*oT {
	var r []*oT
	for _, v := range vs {
		if v != nil {
			r = append(r, e.val(f, v))
		}
	}
	return r
}

func (e *oEval) noteIndexed(it, sl *oT) {
	if e.indexed == nil {
		e.indexed = map[string][]*oT{}
	}
	for _, x := range e.indexed[it.k] {
		if x.String() == sl.String() {
			return
		}
	}
	e.indexed[it.k] = append(e.indexed[it.k], sl)
}

func retype(v *oT, t types.Type) *oT {
	return &oT{op: v.op, k: v.k, a: v.a, t: t, c: v.c}
}

func (e *oEval) convert(v *oT, from, to types.Type) *oT {
	fb, ok1 := typeBasic(from)
	tb, ok2 := typeBasic(to)
	switch {
	case ok1 && ok2 && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		if v.op == "const" {
			return retype(v, to)
		}
		if fb.Kind() == tb.Kind() || v.op == "len" || v.op == "iter" {
			return retype(v, to)
		}
		fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
		fw, tw := intBits(fb.Kind()), intBits(tb.Kind())
		if fu && (tw > fw || tu && tw >= fw) || !fu && !tu && tw >= fw {
			return retype(v, to)
		}
		return mk("conv", tb.Name(), to, v)
	case ok2 && tb.Info()&types.IsString != 0:
		if v.op == "sl" || v.op == "bytes" {
			return retype(v.a[0], to)
		}
		if isByteSlice(from) {
			return mk("bytes", "", to, v)
		}
	case ok1 && fb.Info()&types.IsString != 0 && isByteSlice(to):
		if v.op == "bytes" {
			return retype(v.a[0], to)
		}
		return mk("sl", "", to, v)
	}
	return mk("conv", typeKey(to), to, v)
}

func intBits(k types.BasicKind) int {
	switch k {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	}
	return 64
}

// isLockOp: a call on a sync lock, without meaning for sequential values.
func oIsLock(c ssa.CallInstruction) bool {
	pk, n := calleePkgName(c)
	if pk != "sync" {
		return false
	}
	switch n {
	case "Lock", "Unlock", "RLock", "RUnlock":
		return true
	}
	return strings.Contains(n, "Lock") || strings.Contains(n, "Unlock")
}

func (e *oEval) ord(alts []oAlt) []oOut {
	var out []oOut
	for _, a := range alts {
		switch a.r {
		case oLT:
			out = append(out, oOut{s: a.s, res: []*oT{oInt(-1)}})
		case oEQ:
			out = append(out, oOut{s: a.s, res: []*oT{oInt(0)}})
		default:
			out = append(out, oOut{s: a.s, res: []*oT{oInt(1)}})
		}
	}
	return out
}

func (e *oEval) eqOut(alts []oAlt) []oOut {
	var out []oOut
	for _, a := range alts {
		out = append(out, oOut{s: a.s, res: []*oT{oBool(a.r == oEQ)}})
	}
	return out
}

func (e *oEval) doCall(f *oFrame, x *ssa.Call, s *oState) []oOut {
	one := func(t *oT) []oOut { return []oOut{{s: s, res: []*oT{t}}} }
	if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len", "cap":
			if bi.Name() == "cap" {
				return one(mk("cap", "", types.Typ[types.Int], e.val(f, x.Call.Args[0])))
			}
			return one(e.lenOf(e.val(f, x.Call.Args[0])))
		case "copy":
			return e.copyBuiltin(f, x, s)
		case "append":
			return e.appendBuiltin(f, x, s)
		}
		e.giveUp("builtin %s in %s", bi.Name(), fname(f.fn))
	}
	if x.Call.IsInvoke() {
		e.giveUp("dynamic call in %s", fname(f.fn))
	}
	pk, name := calleePkgName(x)
	cal := staticCallee(x)
	var args []*oT
	for _, a := range x.Call.Args {
		args = append(args, e.val(f, a))
	}
	full := pk + "." + name
	if cal != nil && e.stop != nil {
		if h := e.stop[fname(cal)]; h != nil {
			return h(e, s, args)
		}
	}
	recv := ""
	if cal != nil && cal.Signature.Recv() != nil {
		if n := namedOf(cal.Signature.Recv().Type()); n != nil {
			recv = n.Obj().Name()
		}
	}
	switch full {
	case "bytes.Compare", "strings.Compare", "cmp.Compare":
		if full == "cmp.Compare" {
			return e.ord(e.compare(s, args[0], args[1]))
		}
		return e.ord(s.split(e.sliceContent(s, args[0]), e.sliceContent(s, args[1])))
	case "bytes.Equal":
		return e.eqOut(s.split(e.sliceContent(s, args[0]), e.sliceContent(s, args[1])))
	case "cmp.Less":
		var out []oOut
		for _, a := range e.compare(s, args[0], args[1]) {
			out = append(out, oOut{s: a.s, res: []*oT{oBool(a.r == oLT)}})
		}
		return out
	}
	if pk == "slices" && strings.HasPrefix(name, "Equal") && len(args) == 2 {
		return e.eqOut(e.equal(s, args[0], args[1], args[0].t))
	}
	if pk == "slices" && strings.HasPrefix(name, "Clone") && len(args) == 1 {
		var out []oOut
		for _, a := range s.split(args[0], oNil(args[0].t)) {
			if a.r == oEQ {
				out = append(out, oOut{s: a.s, res: []*oT{oNil(args[0].t)}})
				continue
			}
			e.allocs++
			id := strconv.Itoa(e.allocs)
			n := a.s.clone()
			ln := e.lenOf(args[0])
			n.heap[id] = mk("copyof", "", nil, args[0], ln)
			out = append(out, oOut{s: n, res: []*oT{mk("mkslice", id, args[0].t, ln)}})
		}
		return out
	}
	if pk == "bytes" && name == "Clone" {
		return e.bytesClone(s, args[0])
	}
	if pk == "math/big" && (recv == "Int" || recv == "Rat") {
		var out []oOut
		st := e.notNil(s, args[0], &out)
		if st == nil {
			return out
		}
		switch name {
		case "Cmp":
			if st = e.notNil(st, args[1], &out); st == nil {
				return out
			}
			return append(out, e.ord(st.split(e.bigVal(st, args[0]), e.bigVal(st, args[1])))...)
		case "Sign":
			return append(out, e.ord(st.split(e.bigVal(st, args[0]), oConst(constant.MakeInt64(0), nil)))...)
		case "Set":
			if st = e.notNil(st, args[1], &out); st == nil {
				return out
			}
			if args[0].op != "alloc" {
				e.giveUp("big.Int set in %s", fname(f.fn))
			}
			n := st.clone()
			v := e.load(st, args[1])
			if v.op != "bigset" && v.op != "zero" {
				v = mk("bigset", "", v.t, v)
			}
			n.heap[args[0].k] = v
			return append(out, oOut{s: n, res: []*oT{args[0]}})
		}
		e.giveUp("big.%s in %s", name, fname(f.fn))
	}
	if cal != nil && len(cal.Blocks) > 0 && e.p.inPkg(cal, allPkgs...) {
		fargs := args
		return e.call(cal, fargs, s, f.depth+1)
	}
	e.giveUp("call of %s in %s", full, fname(f.fn))
	return nil
}

func (e *oEval) bigVal(s *oState, p *oT) *oT {
	v := e.load(s, p)
	if v.op == "bigset" {
		v = v.a[0]
	}
	if v.op == "zero" {
		return oConst(constant.MakeInt64(0), nil)
	}
	return &oT{op: v.op, k: v.k, a: v.a, t: types.Typ[types.UntypedInt], c: v.c}
}

func (e *oEval) bytesClone(s *oState, x *oT) []oOut {
	var out []oOut
	for _, a := range s.split(x, oNil(x.t)) {
		if a.r == oEQ {
			out = append(out, oOut{s: a.s, res: []*oT{oNil(x.t)}})
			continue
		}
		e.allocs++
		id := strconv.Itoa(e.allocs)
		n := a.s.clone()
		ln := e.lenOf(x)
		n.heap[id] = mk("copyof", "", nil, x, ln)
		out = append(out, oOut{s: n, res: []*oT{mk("mkslice", id, x.t, ln)}})
	}
	return out
}

// copyBuiltin: copy into a made slice or a whole array of the same length.
func (e *oEval) copyBuiltin(f *oFrame, x *ssa.Call, s *oState) []oOut {
	d, sr := e.val(f, x.Call.Args[0]), e.val(f, x.Call.Args[1])
	n := mk("copied", "", types.Typ[types.Int], d, sr)
	if d.op == "mkslice" {
		if s.rel(e.lenOf(d), e.lenOf(sr)) == oEQ && s.heap[d.k] != nil && s.heap[d.k].op == "zeros" {
			st := s.clone()
			st.heap[d.k] = mk("copyof", "", nil, sr, e.lenOf(d))
			return []oOut{{s: st, res: []*oT{n}}}
		}
		// a shorter copy leaves zeros, a longer one is cut
		st := s.clone()
		st.heap[d.k] = mk("part", "", nil, sr)
		return []oOut{{s: st, res: []*oT{n}}}
	}
	if d.op == "slice" && d.a[0].op == "mkslice" && s.heap[d.a[0].k] != nil && s.heap[d.a[0].k].op == "zeros" {
		st := s.clone()
		st.heap[d.a[0].k] = mk("part", "", nil, sr)
		return []oOut{{s: st, res: []*oT{n}}}
	}
	if d.op == "sl" && d.k != "" && sr.op == "sl" && types.Identical(sr.a[0].t, d.a[0].t) {
		st := s.clone()
		st.heap[d.k] = e.sliceContent(s, sr)
		return []oOut{{s: st, res: []*oT{n}}}
	}
	e.giveUp("copy in %s", fname(f.fn))
	return nil
}

// appendBuiltin: append(nil or empty, x...) makes a copy, append of one
// element is recorded for the loop around it.
func (e *oEval) appendBuiltin(f *oFrame, x *ssa.Call, s *oState) []oOut {
	d := e.val(f, x.Call.Args[0])
	sr := e.val(f, x.Call.Args[1])
	if d.op == "acc" {
		if sr.op == "sl" && sr.k != "" {
			if c := s.heap[sr.k]; c.op == "arrlit" && len(c.a) == 1 {
				return []oOut{{s: s, res: []*oT{mk("appended", "", x.Type(), d, c.a[0])}}}
			}
		}
		e.giveUp("append in %s", fname(f.fn))
	}
	empty := d.isNil() || d.op == "mkslice" && isZeroInt(d.a[0]) || d.op == "slice"
	if empty && sr.op != "sl" && d.op != "slice" {
		var out []oOut
		if d.isNil() {
			// nothing appended to nil stays nil
			for _, a := range s.split(e.lenOf(sr), oInt(0)) {
				if a.r == oEQ {
					out = append(out, oOut{s: a.s, res: []*oT{oNil(x.Type())}})
				} else {
					e.allocs++
					id := strconv.Itoa(e.allocs)
					n := a.s.clone()
					n.heap[id] = mk("copyof", "", nil, sr, e.lenOf(sr))
					out = append(out, oOut{s: n, res: []*oT{mk("mkslice", id, x.Type(), e.lenOf(sr))}})
				}
			}
			return out
		}
		e.allocs++
		id := strconv.Itoa(e.allocs)
		n := s.clone()
		n.heap[id] = mk("copyof", "", nil, sr, e.lenOf(sr))
		return []oOut{{s: n, res: []*oT{mk("mkslice", id, x.Type(), e.lenOf(sr))}}}
	}
	e.giveUp("append in %s", fname(f.fn))
	return nil
}

// equal: the specification of equality of two values of a type, as alternatives
// with oEQ or not. A nil and an empty slice may count either way: r == 0.
func (e *oEval) equal(s *oState, x, y *oT, t types.Type) []oAlt {
	ne := oLT | oGT
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		var out []oAlt
		for _, a := range s.split(x, y) {
			if a.r == oEQ {
				out = append(out, oAlt{a.s, oEQ})
				continue
			}
			for _, b := range a.s.split(x, oNil(t)) {
				for _, c := range b.s.split(y, oNil(t)) {
					switch {
					case b.r == oEQ && c.r == oEQ:
						out = append(out, oAlt{c.s, oEQ})
					case b.r == oEQ || c.r == oEQ:
						out = append(out, oAlt{c.s, ne})
					default:
						out = append(out, e.equal(c.s, e.content(c.s, x, u.Elem()), e.content(c.s, y, u.Elem()), u.Elem())...)
					}
				}
			}
		}
		return out
	case *types.Struct:
		if isBigInt(t) || isBigRat(t) {
			return s.split(e.bigTerm(x), e.bigTerm(y))
		}
		cur := []*oState{s}
		var out []oAlt
		maybe := map[*oState]bool{}
		for i := 0; i < u.NumFields(); i++ {
			if skipField(u.Field(i)) {
				continue
			}
			var next []*oState
			for _, c := range cur {
				for _, a := range e.equal(c, e.field(x, i, u.Field(i).Type()), e.field(y, i, u.Field(i).Type()), u.Field(i).Type()) {
					switch a.r {
					case oEQ:
						next = append(next, a.s)
					case 0:
						next = append(next, a.s)
						maybe[a.s] = true
					default:
						out = append(out, a)
					}
					if maybe[c] {
						maybe[a.s] = true
					}
				}
			}
			cur = next
		}
		for _, c := range cur {
			if maybe[c] {
				out = append(out, oAlt{c, 0})
			} else {
				out = append(out, oAlt{c, oEQ})
			}
		}
		return out
	case *types.Slice:
		var out []oAlt
		lx, ly := e.lenOf(x), e.lenOf(y)
		for _, a := range s.split(lx, ly) {
			if a.r != oEQ {
				out = append(out, oAlt{a.s, ne})
				continue
			}
			var el []oAlt
			if isByteSlice(t) {
				el = a.s.split(e.sliceContent(s, x), e.sliceContent(s, y))
			} else {
				el = a.s.split(mk("elems", "", nil, x), mk("elems", "", nil, y))
			}
			for _, b := range el {
				if b.r != oEQ {
					out = append(out, oAlt{b.s, ne})
					continue
				}
				for _, c := range b.s.split(x, oNil(t)) {
					for _, d := range c.s.split(y, oNil(t)) {
						r := oEQ
						if c.r != d.r {
							r = 0
						}
						out = append(out, oAlt{d.s, r})
					}
				}
			}
		}
		return out
	}
	var out []oAlt
	for _, a := range s.split(x, y) {
		r := ne
		if a.r == oEQ {
			r = oEQ
		}
		out = append(out, oAlt{a.s, r})
	}
	return out
}

func (e *oEval) bigTerm(x *oT) *oT {
	if x.op == "bigset" {
		x = x.a[0]
	}
	return &oT{op: x.op, k: x.k, a: x.a, t: types.Typ[types.UntypedInt], c: x.c}
}

func (e *oEval) content(s *oState, p *oT, t types.Type) *oT {
	if p.op == "alloc" || p.op == "addr" {
		return e.load(s, p)
	}
	return mk("deref", "", t, p)
}

// skipField: locks and functions are not part of the value.
func skipField(f *types.Var) bool {
	if n := namedOf(f.Type()); n != nil && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
		return true
	}
	return false
}

func sortedOuts(o []oOut) []oOut {
	sort.SliceStable(o, func(i, j int) bool { return o[i].s.describe() < o[j].s.describe() })
	return o
}
