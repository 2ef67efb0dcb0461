package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effects on arguments: which memory reachable from a parameter a function may write.
//
// A value has roots (the parameters it points into: "p0" is the object the parameter
// refers to, "p0#2" its field 2, "p0*" and "p0#2*" whatever is reached from there, "f0" a captured variable, "g:x" a
// package variable) and cells (the local objects it points to, by field).

type rset map[string]bool

func (r rset) add(o rset) bool {
	ch := false
	for k := range o {
		if !r[k] {
			r[k] = true
			ch = true
		}
	}
	return ch
}

type cell struct {
	v ssa.Value
	f int // -1: the whole object
}

type mutVal struct {
	roots rset
	cells map[cell]bool
}

func newMutVal() *mutVal { return &mutVal{rset{}, map[cell]bool{}} }

func (a *mutVal) join(b *mutVal) bool {
	ch := a.roots.add(b.roots)
	for k := range b.cells {
		if !a.cells[k] {
			a.cells[k] = true
			ch = true
		}
	}
	return ch
}

type mutSum struct {
	mut  map[string]string // root -> what happens and where
	res  []rset            // what a result points into
	resC []rset            // what is reached from a result
	flow map[string]rset   // roots that are stored into memory of a root
}

type mutAn struct {
	p    *Prog
	sums map[*ssa.Function]*mutSum
}

type mutFn struct {
	an   *mutAn
	fn   *ssa.Function
	vals map[ssa.Value]*mutVal
	cont map[cell]*mutVal
	sum  *mutSum
	ch   bool
}

func newMutSum(fn *ssa.Function) *mutSum {
	s := &mutSum{mut: map[string]string{}, flow: map[string]rset{}}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		s.res = append(s.res, rset{})
		s.resC = append(s.resC, rset{})
	}
	return s
}

// hasRefs: a value of the type can lead to memory that others see.
func hasRefs(t types.Type) bool { return hasRefsD(t, 0) }

func hasRefsD(t types.Type, d int) bool {
	if d > 8 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Array:
		return hasRefsD(u.Elem(), d+1)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasRefsD(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Tuple:
		return true
	case *types.Signature:
		return false
	}
	return true
}

func (m *mutFn) of(v ssa.Value) *mutVal {
	if g, ok := v.(*ssa.Global); ok {
		r := newMutVal()
		r.roots["g:"+gname(g)] = true
		return r
	}
	if m.vals[v] == nil {
		m.vals[v] = newMutVal()
	}
	return m.vals[v]
}

func (m *mutFn) in(k cell) *mutVal {
	if m.cont[k] == nil {
		m.cont[k] = newMutVal()
	}
	return m.cont[k]
}

func (m *mutFn) join(v ssa.Value, x *mutVal) {
	if m.of(v).join(x) {
		m.ch = true
	}
}

func (m *mutFn) fresh(v ssa.Value) {
	r := newMutVal()
	r.cells[cell{v, -1}] = true
	m.join(v, r)
}

// same: v refers to the same memory as x.
func (m *mutFn) same(v, x ssa.Value) {
	if hasRefs(v.Type()) {
		m.join(v, m.of(x))
	}
}

// content: v was loaded through x.
func (m *mutFn) content(v, x ssa.Value) {
	if hasRefs(v.Type()) {
		m.join(v, m.loaded(m.of(x)))
	}
}

func (m *mutFn) rootsOf(v ssa.Value) rset { return m.of(v).roots }

func (m *mutFn) rootsDeep(v ssa.Value) rset { return m.reach(m.of(v)).roots }

// fieldVal: the address of a field.
func fieldVal(v *mutVal, f int) *mutVal {
	r := newMutVal()
	for k := range v.roots {
		if k[0] == 'p' && !strings.ContainsAny(k, "#*") {
			k = fmt.Sprintf("%s#%d", k, f)
		}
		r.roots[k] = true
	}
	for k := range v.cells {
		if k.f < 0 {
			k.f = f
		}
		r.cells[k] = true
	}
	return r
}

func deepRoots(r rset) rset {
	out := rset{}
	for k := range r {
		if k[0] == 'p' && !strings.HasSuffix(k, "**") {
			k += "*"
		}
		out[k] = true
	}
	return out
}

// loaded: what a load through x yields.
func (m *mutFn) loaded(x *mutVal) *mutVal {
	r := newMutVal()
	r.roots.add(deepRoots(x.roots))
	for k := range x.cells {
		if k.f < 0 {
			for kk, cv := range m.cont {
				if kk.v == k.v {
					r.join(cv)
				}
			}
		} else {
			r.join(m.in(k))
			r.join(m.in(cell{k.v, -1}))
		}
	}
	return r
}

// reach: every root reached from x by loading, with x itself.
func (m *mutFn) reach(x *mutVal) *mutVal {
	r := newMutVal()
	r.join(x)
	for n := 0; n < 6; n++ {
		if !r.join(m.loaded(r)) {
			break
		}
	}
	return r
}

// into: x is stored into the memory addr points to.
func (m *mutFn) into(addr, x ssa.Value) {
	if hasRefs(x.Type()) {
		m.intoVal(m.of(addr), m.of(x))
	}
}

func (m *mutFn) intoVal(addr, x *mutVal) {
	for k := range addr.cells {
		if m.in(k).join(x) {
			m.ch = true
		}
	}
	for k := range addr.roots {
		if k[0] != 'p' {
			continue
		}
		if m.sum.flow[k] == nil {
			m.sum.flow[k] = rset{}
		}
		if m.sum.flow[k].add(m.reach(x).roots) {
			m.ch = true
		}
	}
}

func (m *mutFn) mutate(r rset, in ssa.Instruction, what string) {
	for k := range r {
		if m.sum.mut[k] == "" {
			m.sum.mut[k] = what + " at " + m.an.p.ipos(in)
			m.ch = true
		}
	}
}

func (an *mutAn) analyse(fn *ssa.Function) *mutFn {
	m := &mutFn{an: an, fn: fn, vals: map[ssa.Value]*mutVal{}, cont: map[cell]*mutVal{}, sum: an.sums[fn]}
	for i, p := range fn.Params {
		if hasRefs(p.Type()) {
			m.of(p).roots[fmt.Sprintf("p%d", i)] = true
		}
	}
	for i, p := range fn.FreeVars {
		m.of(p).roots[fmt.Sprintf("f%d", i)] = true
	}
	for round := 0; round < 60; round++ {
		m.ch = false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				m.instr(in)
			}
		}
		if !m.ch {
			break
		}
	}
	return m
}

func (m *mutFn) instr(in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.Alloc:
		m.fresh(x)
	case *ssa.MakeSlice, *ssa.MakeMap, *ssa.MakeChan:
		m.fresh(x.(ssa.Value))
	case *ssa.FieldAddr:
		m.join(x, fieldVal(m.of(x.X), x.Field))
	case *ssa.IndexAddr:
		m.same(x, x.X)
	case *ssa.Field:
		m.same(x, x.X)
	case *ssa.Index:
		m.same(x, x.X)
	case *ssa.Slice:
		m.same(x, x.X)
	case *ssa.Lookup:
		m.content(x, x.X)
	case *ssa.Extract:
		m.same(x, x.Tuple)
	case *ssa.Range:
		m.same(x, x.X)
	case *ssa.Next:
		m.content(x, x.Iter)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			m.content(x, x.X)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			m.same(x, e)
		}
	case *ssa.ChangeType:
		m.same(x, x.X)
	case *ssa.ChangeInterface:
		m.same(x, x.X)
	case *ssa.MakeInterface:
		if hasRefs(x.X.Type()) {
			m.same(x, x.X)
		}
	case *ssa.TypeAssert:
		m.same(x, x.X)
	case *ssa.SliceToArrayPointer:
		m.same(x, x.X)
	case *ssa.Convert:
		if isSeq(x.Type()) && isSeq(x.X.Type()) {
			m.same(x, x.X)
		}
	case *ssa.Store:
		m.mutate(m.rootsOf(x.Addr), in, "is written")
		m.into(x.Addr, x.Val)
	case *ssa.MapUpdate:
		m.mutate(m.rootsOf(x.Map), in, "gets a map entry")
		m.into(x.Map, x.Value)
		m.into(x.Map, x.Key)
	case *ssa.MakeClosure:
		fn := x.Fn.(*ssa.Function)
		m.fresh(x)
		if s := m.an.sums[fn]; s != nil {
			for i, b := range x.Bindings {
				if w := s.mut[fmt.Sprintf("f%d", i)]; w != "" {
					m.mutate(m.rootsOf(b), in, w)
				}
			}
			for k, w := range s.mut {
				if strings.HasPrefix(k, "g:") && m.sum.mut[k] == "" {
					m.sum.mut[k] = w
					m.ch = true
				}
			}
		}
		for _, b := range x.Bindings {
			m.into(x, b)
		}
	case *ssa.Return:
		for i, r := range x.Results {
			if i < len(m.sum.res) && hasRefs(r.Type()) {
				if m.sum.res[i].add(m.rootsOf(r)) {
					m.ch = true
				}
				if m.sum.resC[i].add(m.reach(m.loaded(m.of(r))).roots) {
					m.ch = true
				}
			}
		}
	case ssa.CallInstruction:
		m.call(x)
	}
}

func isSeq(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

var bigReaders = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "Bytes": true, "String": true, "Text": true, "BitLen": true, "Bit": true, "Int64": true, "Uint64": true, "IsInt64": true, "IsUint64": true, "Append": true, "FillBytes": true, "Format": true, "MarshalText": true, "MarshalJSON": true, "GobEncode": true, "ProbablyPrime": true, "TrailingZeroBits": true, "Bits": true, "Num": true, "Denom": true, "IsInt": true, "Float64": true, "Float32": true, "FloatString": true, "RatString": true, "Mode": true, "Prec": true, "IsInf": true, "Signbit": true, "MinPrec": true, "AppendText": true}

func (m *mutFn) result(c ssa.CallInstruction) ssa.Value {
	if v, ok := c.(*ssa.Call); ok && hasRefs(v.Type()) {
		return v
	}
	return nil
}

func (m *mutFn) call(c ssa.CallInstruction) {
	cc := c.Common()
	res := m.result(c)
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			m.mutate(m.rootsOf(cc.Args[0]), c, "is overwritten by copy")
			if hasRefs(cc.Args[0].Type().Underlying().(*types.Slice).Elem()) {
				m.into(cc.Args[0], cc.Args[1])
			}
		case "append":
			if !freshAppend(cc.Args[0]) {
				m.mutate(m.rootsOf(cc.Args[0]), c, "is appended to in place")
			}
			if res != nil {
				m.same(res, cc.Args[0])
				m.fresh(res)
				if len(cc.Args) > 1 && hasRefs(res.Type().Underlying().(*types.Slice).Elem()) {
					m.into(res, cc.Args[1])
				}
			}
		case "delete", "clear":
			m.mutate(m.rootsOf(cc.Args[0]), c, "loses entries")
		}
		return
	}
	args := cc.Args
	if f := staticCallee(c); f != nil && len(f.Blocks) > 0 && m.an.sums[f] != nil {
		m.apply(c, f, args, false)
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok && res != nil {
			m.content(res, mc)
		}
		return
	}
	if cc.IsInvoke() {
		impl := m.an.p.implementers(cc.Method)
		if n := cc.Method.Name(); n == "Read" || n == "ReadAt" {
			for _, a := range args {
				m.mutate(m.rootsOf(a), c, "is read into")
			}
		} else if n == "Sum" && len(args) == 1 && isSeq(args[0].Type()) {
			m.mutate(m.rootsOf(args[0]), c, "is appended to in place")
		}
		for _, f := range impl {
			if m.an.sums[f] != nil {
				m.apply(c, f, append([]ssa.Value{cc.Value}, args...), true)
			}
		}
		if res != nil && len(impl) == 0 {
			m.fresh(res)
			for _, a := range append([]ssa.Value{cc.Value}, args...) {
				m.same(res, a)
			}
		}
		return
	}
	pk, n := calleePkgName(c)
	if pk == "" {
		// a function value: it may hand back what it was given
		if res != nil {
			m.fresh(res)
			for _, a := range args {
				m.same(res, a)
			}
		}
		return
	}
	recv := ""
	if f := calleeFunc(c); f != nil {
		if sg := f.Type().(*types.Signature); sg.Recv() != nil {
			if nn := namedOf(sg.Recv().Type()); nn != nil {
				recv = nn.Obj().Name()
			}
		}
	}
	mutArg := func(i int, what string) {
		if i < len(args) {
			m.mutate(m.rootsOf(args[i]), c, what)
		}
	}
	alias := true
	switch {
	case pk == "math/big" && recv != "":
		if !bigReaders[n] {
			mutArg(0, "is set by "+n)
			if res != nil {
				m.same(res, args[0])
			}
			if n == "DivMod" || n == "QuoRem" {
				mutArg(3, "is set by "+n)
			}
			if n == "GCD" {
				mutArg(1, "is set by "+n)
				mutArg(2, "is set by "+n)
			}
			return
		}
		if n == "Append" || n == "FillBytes" || n == "AppendText" {
			mutArg(1, "is written by "+n)
		}
		alias = n == "Bits" || n == "Num" || n == "Denom" || n == "Append" || n == "FillBytes"
	case pk == "math/big":
		alias = false
	case pk == "sort":
		if !strings.HasPrefix(n, "Search") && !strings.Contains(n, "AreSorted") && n != "IsSorted" && n != "SliceIsSorted" && n != "Reverse" && n != "Find" {
			if mi, ok := args[0].(*ssa.MakeInterface); ok && n != "Slice" && n != "SliceStable" {
				if sw := m.an.p.SSA.LookupMethod(mi.X.Type(), nil, "Swap"); sw != nil && m.an.sums[sw] != nil {
					m.apply(c, sw, []ssa.Value{mi.X}, false)
					return
				}
			}
			mutArg(0, "is sorted in place")
		}
	case pk == "slices":
		if strings.HasPrefix(n, "Sort") || n == "Reverse" || n == "Insert" || n == "Delete" || n == "Compact" || n == "Replace" {
			mutArg(0, "is changed by slices."+n)
		}
		alias = n != "Clone" && n != "Sorted"
	case pk == "encoding/binary":
		if strings.HasPrefix(n, "Put") {
			for i := range args {
				if isSeq(args[i].Type()) {
					mutArg(i, "is written by "+n)
				}
			}
		}
		if strings.HasPrefix(n, "Append") {
			for i := range args {
				if isSeq(args[i].Type()) && !freshAppend(args[i]) {
					mutArg(i, "is appended to in place")
				}
			}
		}
		if n == "Read" {
			m.mutate(m.rootsDeep(args[2]), c, "is read into")
		}
	case strings.HasPrefix(pk, "encoding/") && (n == "Encode" || n == "Decode") && len(args) >= 2:
		i := 0
		if recv != "" {
			i = 1
		}
		mutArg(i, "is written by "+n)
	case n == "Unmarshal" && len(args) == 2:
		m.mutate(m.rootsDeep(args[1]), c, "is filled by Unmarshal")
	case pk == "io" && (n == "ReadFull" || n == "ReadAtLeast"):
		mutArg(1, "is read into")
	case n == "Read" && (pk == "crypto/rand" || pk == "math/rand"):
		mutArg(len(args)-1, "is filled with random bytes")
	case n == "Read" && recv != "":
		mutArg(1, "is read into")
	case pk == "bytes" && recv == "" || pk == "strings" && recv == "":
		alias = strings.HasPrefix(n, "Trim") || strings.HasPrefix(n, "Split") || strings.HasPrefix(n, "Fields") || strings.HasPrefix(n, "Cut") || n == "NewReader" || n == "NewBuffer"
	case recv == "Buffer" && pk == "bytes":
		if n != "Bytes" && n != "Len" && n != "String" && n != "Cap" {
			mutArg(0, "is changed by "+n)
		}
		alias = n == "Bytes"
	case pk == "sync/atomic":
		if strings.HasPrefix(n, "Store") || strings.HasPrefix(n, "Add") || strings.HasPrefix(n, "Swap") || strings.HasPrefix(n, "Compare") {
			mutArg(0, "is changed by "+n)
		}
	case pk == "reflect":
		switch {
		case recv == "Value" && (strings.HasPrefix(n, "Set") || n == "Grow" || n == "Clear"):
			mutArg(0, "is set by reflection")
			for _, a := range args[1:] {
				m.into(args[0], a)
			}
		case n == "Copy":
			mutArg(0, "is overwritten by reflection")
		case n == "New" || n == "Zero" || n == "MakeSlice" || n == "MakeMap" || n == "MakeMapWithSize" || n == "TypeOf" || n == "DeepEqual" || recv == "Value" && (n == "Type" || n == "String" || n == "Kind"):
			alias = false
		}
	case pk == "fmt" || pk == "errors" || pk == "strconv" || pk == "time" || pk == "encoding/hex" || pk == "encoding/json":
		alias = false
	}
	if res != nil {
		m.fresh(res)
		if alias {
			for _, a := range args {
				if hasRefs(a.Type()) {
					m.same(res, a)
				}
			}
		}
	}
}

// freshAppend: appending to the value always copies, as it has no room left.
func freshAppend(v ssa.Value) bool { return tightSlice(v, map[ssa.Value]bool{}) }

func tightSlice(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Slice:
		return x.Max != nil && (x.Max == x.High || sameConst(x.Max, x.High) || sameLen(x.Max, x.High))
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !tightSlice(e, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return tightSlice(x.Call.Args[0], seen)
		}
	case *ssa.ChangeType:
		return tightSlice(x.X, seen)
	}
	return constNil(v)
}

func sameLen(a, b ssa.Value) bool {
	of := func(v ssa.Value) ssa.Value {
		if x, ok := v.(*ssa.Call); ok {
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
				return x.Call.Args[0]
			}
		}
		return nil
	}
	return of(a) != nil && of(a) == of(b)
}

func sameConst(a, b ssa.Value) bool {
	if b == nil {
		return false
	}
	x, ok := constInt(a)
	y, ok2 := constInt(b)
	return ok && ok2 && x == y
}

// apply: the summary of a callee.
func (m *mutFn) apply(c ssa.CallInstruction, f *ssa.Function, args []ssa.Value, invoke bool) {
	s := m.an.sums[f]
	arg := func(k string) (int, bool) {
		var i int
		if k[0] != 'p' {
			return 0, false
		}
		fmt.Sscanf(k, "p%d", &i)
		return i, i < len(args)
	}
	trans := func(r rset) *mutVal {
		out := newMutVal()
		for k := range r {
			if strings.HasPrefix(k, "g:") {
				out.roots[k] = true
			} else if i, ok := arg(k); ok {
				v := m.of(args[i])
				if j := strings.IndexByte(k, '#'); j >= 0 {
					var fi int
					fmt.Sscanf(k[j:], "#%d", &fi)
					v = fieldVal(v, fi)
				}
				switch {
				case strings.HasSuffix(k, "**"):
					v = m.reach(m.loaded(m.loaded(v)))
				case strings.HasSuffix(k, "*"):
					v = m.loaded(v)
				}
				out.join(v)
			}
		}
		return out
	}
	for _, k := range sortedKeys(s.mut) {
		w := s.mut[k]
		i, ok := arg(k)
		if strings.HasPrefix(k, "g:") {
			if m.sum.mut[k] == "" {
				m.sum.mut[k] = w
				m.ch = true
			}
			continue
		}
		if !ok || invoke && i == 0 {
			continue
		}
		if j := strings.Index(w, " in "); j < 0 {
			w += " in " + fname(f)
		}
		if j := strings.Index(w, ", called"); j >= 0 {
			w = w[:j]
		}
		for r := range trans(rset{k: true}).roots {
			if strings.HasPrefix(r, "g:") && (strings.Contains(k, "*") || !dataConst(args[i].Type()) && !dataConst(derefType(args[i].Type()))) {
				continue
			}
			if m.sum.mut[r] == "" {
				m.sum.mut[r] = w + ", called at " + m.an.p.ipos(c)
				m.ch = true
			}
		}
	}
	for _, k := range sortedKeys(s.flow) {
		m.intoVal(trans(rset{k: true}), trans(s.flow[k]))
	}
	if res, ok := c.(*ssa.Call); ok && hasRefs(res.Type()) {
		one := func(v ssa.Value, i int) {
			m.fresh(v)
			m.join(v, trans(s.res[i]))
			if m.in(cell{v, -1}).join(trans(s.resC[i])) {
				m.ch = true
			}
		}
		if len(s.res) == 1 {
			one(res, 0)
			return
		}
		for _, u := range *res.Referrers() {
			if e, ok := u.(*ssa.Extract); ok && e.Index < len(s.res) && hasRefs(e.Type()) {
				one(e, e.Index)
			}
		}
	}
}

func mutSummaries(p *Prog) *mutAn {
	an := &mutAn{p: p, sums: map[*ssa.Function]*mutSum{}}
	var fns []*ssa.Function
	for _, f := range p.funcsIn(allPkgs...) {
		if len(f.Blocks) > 0 {
			fns = append(fns, f)
			an.sums[f] = newMutSum(f)
		}
	}
	for round := 0; round < 12; round++ {
		ch := false
		for _, f := range fns {
			before := an.sums[f].size()
			an.analyse(f)
			if an.sums[f].size() != before {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	return an
}

func (s *mutSum) size() int {
	n := len(s.mut)
	for i := range s.res {
		n += len(s.res[i]) + len(s.resC[i])
	}
	for _, r := range s.flow {
		n += len(r)
	}
	return n
}

// of: what happens to the memory of a parameter.
func (s *mutSum) param(i int) string {
	for _, k := range sortedKeys(s.mut) {
		p := fmt.Sprintf("p%d", i)
		if k == p || strings.HasPrefix(k, p+"#") || strings.HasPrefix(k, p+"*") {
			return s.mut[k]
		}
	}
	return ""
}

// methods of a pointer that only look at the value
var observers = regexp.MustCompile(`^(String|ToString|PrintString|InfoString|Summary|TerminalString|Equal|Equals|SliceEqual|Compare|Cmp|Diff|Less|Len|Count|Number|Is[A-Z]\w*|Has[A-Z]\w*|Bytes|Slice|Hash|HashValue|Big|Hex|Clone|Copy|ForRLP|Value|Key|Index|Contains|Get[A-Z]\w*|Find|Marshal\w*|EncodeRLP|Serialization|Proof|Iterate|To[A-Z]\w*|Order|Exist\w*|BigKey|Formalize|Validate|Validation|Split|Pack\w*|Unpack\w*|MethodString|EventString|ReturnsString|MethodById|EventByID|ShardTo|Pos|AllIDs|MustInt|MustBigInt)$`)

// objects that are handles to state of their own: their content is the subject of other properties
var mutHandles = map[string]bool{
	"trie.Trie": true, "trie.HistoryTree": true, "trie.TreeNode": true, "trie.node": true, "trie.RevertableTrie": true, "trie.RevertableHistoryTree": true, "trie.SmallCombinedTrie": true, "trie.SyncTrie": true,
	"rlp.Stream": true, "rlp.EncoderBuffer": true, "rlp.encBuffer": true, "rlp.encReader": true, "rlp.listIterator": true, "bytes.Buffer": true, "rand.Rand": true, "bufio.Reader": true,
}

// mutDest: parameters that are there to be written.
var mutDest = []struct{ fn, typ, why string }{
	{`^\(abi\.(ABI|Arguments)\)\.(Unpack|Copy|Input)\w*$`, `^(interface\{\}|any|map\[string\](interface\{\}|any))$`, "the destination of the unpacked values"},
	{`^abi\.(ConvertType|ParseTopics|ParseTopicsIntoMap)$`, `^(interface\{\}|any|map\[string\](interface\{\}|any))$`, "the destination of the converted values"},
	{`^(\(\*rlp\.Stream\)\.|rlp\.)Decode\w*$`, `^(interface\{\}|any)$`, "the destination of the decoded value"},
	{`^\(\*?rlp\.\w+\)\.(ReadBytes|Read|AppendToBytes)$`, `^\[\]byte$`, "the buffer that is filled"},
	{`^rlp\.AppendUint64$`, `^\[\]byte$`, "the buffer that is appended to"},
	{`^hexutil\.UnmarshalFixed\w*$`, `^\[\]byte$`, "the buffer that is filled"},
	{`^math\.ReadBits$`, `^\[\]byte$`, "the buffer that is filled"},
	{`^math\.(U256|U256Bytes)$`, `^\*math/big\.Int$`, "documented to be destructive"},
	{`^math\.AddBigInt$`, `^\*math/big\.Int$`, "the accumulator"},
	{`Merkle\w*Hash\w*$`, `MerkleProofs$`, "collects the proofs"},
	{`BigKey$`, `^\*math/big\.Int$`, "the number that is filled"},
	{`GetProof$`, `ProofChain$`, "collects the proofs"},
	{`^common\.ReverseBytes$`, `^\[\]byte$`, "reverses in place"},
	{`^\(\*?\w+\.\w+\)\.Swap$`, ``, "sort interface"},
	{`^\(common\.NetInfo\)\.AddAddr$`, `NetInfo$`, "changes the receiver"},
	{`^\(common\.ChainAttrs\)\.FromMap$`, `ChainAttrs$`, "reuses the receiver as buffer"},
	{`^\(common\.MoreTimes\)\.Append$`, `MoreTimes$`, "append of the receiver"},
	{`^abi\.New(Error|Event)$`, `Arguments$`, "documented to give names to the arguments"},
}

func mutCheck(c *Ctx) {
	an := mutSummaries(c.p)
	used := map[int]bool{}
	for _, f := range c.p.funcsIn(allPkgs...) {
		s := an.sums[f]
		if s == nil || f.Parent() != nil || f.Synthetic != "" || !isExportedFn(f) {
			continue
		}
		for i, p := range f.Params {
			if !hasRefs(p.Type()) {
				continue
			}
			if _, ok := p.Type().Underlying().(*types.Chan); ok {
				continue
			}
			if it, ok := p.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 {
				continue
			}
			t := p.Type()
			ptr := isPtr(t)
			if n := namedOf(t); n != nil {
				if n.Obj().Pkg() != nil && mutHandles[n.Obj().Pkg().Name()+"."+n.Obj().Name()] {
					continue
				}
				if st, ok := n.Underlying().(*types.Struct); ok && ptr && hasLock(st) {
					continue
				}
			}
			recv := i == 0 && f.Signature.Recv() != nil
			if recv && ptr && !observers.MatchString(f.Name()) {
				continue
			}
			cons := fmt.Sprintf("%s %s", fname(f), p.Name())
			rule := "argument"
			if recv {
				rule = "receiver"
			}
			w := s.param(i)
			if w != "" {
				ts := types.TypeString(t, func(p *types.Package) string { return p.Path() })
				dest := false
				for k, d := range mutDest {
					if regexp.MustCompile(d.fn).MatchString(fname(f)) && regexp.MustCompile(d.typ).MatchString(ts) {
						dest = true
						if !used[k] {
							used[k] = true
							c.except(d.fn+" "+d.typ, d.why)
						}
					}
				}
				if dest {
					continue
				}
			}
			c.ob(rule, cons)
			if w != "" {
				c.fail(rule, cons, c.p.pos(f.Pos()), "the memory of %s belongs to the caller but %s", p.Name(), w)
			}
		}
	}
	// package values
	glob := map[string]*ssa.Global{}
	for _, sp := range c.p.SByPath {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				glob["g:"+gname(g)] = g
			}
		}
	}
	hit := map[string]string{}
	for _, f := range c.p.funcsIn(allPkgs...) {
		s := an.sums[f]
		if s == nil || isInitFn(f) {
			continue
		}
		for k, w := range s.mut {
			if glob[k] != nil && hit[k] == "" {
				hit[k] = w
			}
		}
	}
	for _, k := range sortedKeys(glob) {
		g := glob[k]
		if !dataConst(derefType(g.Type())) || strings.HasPrefix(g.Name(), "init$") {
			continue
		}
		c.ob("constant", k[2:])
		if hit[k] != "" {
			c.fail("constant", k[2:], c.p.pos(g.Pos()), "a value of the whole package is changed after initialisation: it %s", hit[k])
		}
	}
	c.min("constant", 15)
	c.min("argument", 300)
	c.min("receiver", 100)
}

// dataConst: a package variable of the type is a table or a number, not a registry.
func dataConst(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return true
	case *types.Array:
		return true
	case *types.Pointer:
		return isBigInt(t) || isBigRat(t) || isBigInt(u.Elem())
	}
	return false
}

func isInitFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")
}

func isPtr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func init() {
	register("G11", "interprocedural mod/ref analysis (SSA, summaries per function): which memory reachable from a parameter, from the receiver of an observing method or from a package-wide table or number may be written, by stores, copy, append in place, in-place sorting, arithmetic on big numbers or reflection", "handles with state of their own (trees, streams, buffers, databases) and parameters documented as destinations are not arguments in this sense; function values are assumed not to change what they are given", mutCheck)
}
