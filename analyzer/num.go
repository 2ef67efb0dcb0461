package main

// Numeric facts over SSA: integers and lengths are read as linear terms over
// SSA values; conditions that dominate a point, the way values are made and
// induction over loop variables decide inequalities at that point. Values are
// immutable in SSA, loads of the same place are one value as long as nothing in
// between may write the place.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nlin struct {
	k  *big.Int
	at map[string]*big.Int
}

func nk(k int64) nlin { return nlin{big.NewInt(k), map[string]*big.Int{}} }
func nkb(k *big.Int) nlin {
	return nlin{new(big.Int).Set(k), map[string]*big.Int{}}
}
func natom(a string) nlin {
	l := nk(0)
	l.at[a] = big.NewInt(1)
	return l
}

func (a nlin) add(b nlin, f *big.Int) nlin {
	r := nlin{new(big.Int).Add(a.k, new(big.Int).Mul(f, b.k)), map[string]*big.Int{}}
	for x, c := range a.at {
		r.at[x] = new(big.Int).Set(c)
	}
	for x, c := range b.at {
		if r.at[x] == nil {
			r.at[x] = new(big.Int)
		}
		r.at[x].Add(r.at[x], new(big.Int).Mul(f, c))
	}
	for x, c := range r.at {
		if c.Sign() == 0 {
			delete(r.at, x)
		}
	}
	return r
}

var big1, bigM1 = big.NewInt(1), big.NewInt(-1)

func (a nlin) plus(b nlin) nlin   { return a.add(b, big1) }
func (a nlin) minus(b nlin) nlin  { return a.add(b, bigM1) }
func (a nlin) plusK(k int64) nlin { return a.plus(nk(k)) }
func (a nlin) neg() nlin          { return nk(0).minus(a) }
func (a nlin) isConst() bool      { return len(a.at) == 0 }

func (a nlin) String() string {
	var ks []string
	for x := range a.at {
		ks = append(ks, x)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, x := range ks {
		fmt.Fprintf(&sb, "%s*%s + ", a.at[x], x)
	}
	return sb.String() + a.k.String()
}

// npoint is a place in a function: before instruction i of block b, or on the
// edge from b to another block (to != nil).
type npoint struct {
	b  *ssa.BasicBlock
	i  int
	to *ssa.BasicBlock
}

type nfact struct {
	l  nlin // l >= 0
	ne bool // l != 0 instead
}

// num analyses one function.
type num struct {
	p     *Prog
	fn    *ssa.Function
	lins  map[ssa.Value]nlin
	lens  map[ssa.Value]nlin
	vals  map[string]ssa.Value // atom -> integer value
	seqs  map[string]ssa.Value // len atom -> sequence
	loads map[ssa.Value]string
	busy  map[ssa.Value]bool
	reach map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	sum   *numSums
	steps int
	hyps  []nfact
	bigs  map[string]ssa.Value // big atom -> bytes
	weak  bool                 // slices that are nil on some paths are not used there
}

type numSums struct {
	p     *Prog
	fns   map[*ssa.Function]*num
	mods  map[*ssa.Function]map[string]bool
	lenOf map[*ssa.Function]map[int]*int64
	cond  map[string][]sumFact
}

func newNumSums(p *Prog) *numSums {
	return &numSums{p: p, fns: map[*ssa.Function]*num{}, lenOf: map[*ssa.Function]map[int]*int64{}, cond: map[string][]sumFact{}}
}

func (s *numSums) of(fn *ssa.Function) *num {
	if n := s.fns[fn]; n != nil {
		return n
	}
	n := &num{p: s.p, fn: fn, lins: map[ssa.Value]nlin{}, lens: map[ssa.Value]nlin{}, vals: map[string]ssa.Value{}, seqs: map[string]ssa.Value{}, loads: map[ssa.Value]string{}, busy: map[ssa.Value]bool{}, reach: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, bigs: map[string]ssa.Value{}, sum: s}
	s.fns[fn] = n
	return n
}

func before(in ssa.Instruction) npoint {
	for i, x := range in.Block().Instrs {
		if x == in {
			return npoint{in.Block(), i, nil}
		}
	}
	return npoint{in.Block(), 0, nil}
}

func defPoint(v ssa.Value) npoint {
	if in, ok := v.(ssa.Instruction); ok && in.Block() != nil {
		return before(in)
	}
	return npoint{v.Parent().Blocks[0], 0, nil}
}

// ---- ranges of types

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isB := t.Underlying().(*types.Basic)
	if !isB || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	sz := map[types.BasicKind]uint{types.Int8: 8, types.Uint8: 8, types.Int16: 16, types.Uint16: 16, types.Int32: 32, types.Uint32: 32}[b.Kind()]
	if sz == 0 {
		sz = 64
	}
	one := big.NewInt(1)
	if b.Info()&types.IsUnsigned != 0 {
		return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, sz), one), true
	}
	h := new(big.Int).Lsh(one, sz-1)
	return new(big.Int).Neg(h), h.Sub(h, one), true
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// ---- values

func (n *num) name(v ssa.Value) string {
	if l, ok := n.loads[v]; ok {
		return l
	}
	return v.Name()
}

// lin reads an integer value.
func (n *num) lin(v ssa.Value) nlin {
	if l, ok := n.lins[v]; ok {
		return l
	}
	if n.busy[v] {
		return n.atom(v)
	}
	n.busy[v] = true
	l := n.lin1(v)
	delete(n.busy, v)
	n.lins[v] = l
	return l
}

func (n *num) atom(v ssa.Value) nlin {
	k := n.key(v)
	n.vals[k] = v
	return natom(k)
}

func (n *num) lin1(v ssa.Value) nlin {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value != nil && x.Value.Kind() == constant.Int {
			if b, ok := new(big.Int).SetString(x.Value.ExactString(), 10); ok {
				return nkb(b)
			}
		}
		return nk(0)
	case *ssa.BinOp:
		lo, hi, ok := intRange(x.Type())
		if !ok {
			break
		}
		var r nlin
		switch x.Op {
		case token.ADD:
			r = n.lin(x.X).plus(n.lin(x.Y))
		case token.SUB:
			r = n.lin(x.X).minus(n.lin(x.Y))
		case token.MUL:
			a, b := n.lin(x.X), n.lin(x.Y)
			switch {
			case a.isConst():
				r = nk(0).add(b, a.k)
			case b.isConst():
				r = nk(0).add(a, b.k)
			default:
				return n.atom(v)
			}
		case token.SHL:
			b := n.lin(x.Y)
			if !b.isConst() || !b.k.IsInt64() || b.k.Int64() > 62 || b.k.Sign() < 0 {
				return n.atom(v)
			}
			r = nk(0).add(n.lin(x.X), new(big.Int).Lsh(big1, uint(b.k.Int64())))
		default:
			return n.atom(v)
		}
		if lo.Sign() < 0 && hi.BitLen() == 63 {
			// int: sizes in memory do not overflow
			return r
		}
		pt := defPoint(v)
		if n.prove(r.minus(nkb(lo)), pt) && n.prove(nkb(hi).minus(r), pt) {
			return r
		}
		return n.atom(v)
	case *ssa.Convert:
		if _, _, ok := intRange(x.X.Type()); ok {
			if n.fits(x) {
				return n.lin(x.X)
			}
		}
	case *ssa.ChangeType:
		return n.lin(x.X)
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len") {
			return n.lenOf(x.Call.Args[0])
		}
		if l, ok := n.bigLow(x); ok {
			return l
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			if lo, _, ok := intRange(x.Type()); ok && lo.Sign() < 0 {
				return n.lin(x.X).neg()
			}
		}
	}
	return n.atom(v)
}

// fits: an integer conversion keeps the value.
func (n *num) fits(x *ssa.Convert) bool {
	lo, hi, ok := intRange(x.Type())
	lo2, hi2, ok2 := intRange(x.X.Type())
	if !ok || !ok2 {
		return false
	}
	if lo2.Cmp(lo) >= 0 && hi2.Cmp(hi) <= 0 {
		return true
	}
	l := n.lin(x.X)
	pt := defPoint(x)
	return (lo2.Cmp(lo) >= 0 || n.prove(l.minus(nkb(lo)), pt)) && (hi2.Cmp(hi) <= 0 || n.prove(nkb(hi).minus(l), pt))
}

// lenOf reads the length of a sequence.
func (n *num) lenOf(v ssa.Value) nlin {
	if l, ok := n.lens[v]; ok {
		return l
	}
	n.lens[v] = n.lenAtom(v)
	l := n.len1(v)
	n.lens[v] = l
	return l
}

func (n *num) lenAtom(v ssa.Value) nlin {
	k := "len(" + n.key(v) + ")"
	n.seqs[k] = v
	return natom(k)
}

func arrayLen(t types.Type) (int64, bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len(), true
	}
	return 0, false
}

func (n *num) len1(v ssa.Value) nlin {
	if k, ok := arrayLen(v.Type()); ok {
		return nk(k)
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return nk(0)
		}
		if x.Value.Kind() == constant.String {
			return nk(int64(len(constant.StringVal(x.Value))))
		}
	case *ssa.Slice:
		lo := nk(0)
		if x.Low != nil {
			lo = n.lin(x.Low)
		}
		hi := nlin{}
		if x.High != nil {
			hi = n.lin(x.High)
		} else {
			hi = n.lenOf(x.X)
		}
		return hi.minus(lo)
	case *ssa.MakeSlice:
		return n.lin(x.Len)
	case *ssa.ChangeType:
		return n.lenOf(x.X)
	case *ssa.Convert:
		if isStr(x.X.Type()) && isByteSlice(x.Type()) || isByteSlice(x.X.Type()) && isStr(x.Type()) {
			return n.lenOf(x.X)
		}
	case *ssa.BinOp:
		if x.Op == token.ADD && isStr(x.Type()) {
			return n.lenOf(x.X).plus(n.lenOf(x.Y))
		}
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			return n.lenOf(x.Call.Args[0]).plus(n.lenOf(x.Call.Args[1]))
		}
		if f := staticCallee(x); f != nil {
			if k := n.sum.fixedLen(f, 0); k != nil {
				return nk(*k)
			}
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			if f := staticCallee(c); f != nil {
				if k := n.sum.fixedLen(f, x.Index); k != nil {
					return nk(*k)
				}
			}
		}
	}
	return n.lenAtom(v)
}

func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// fixedLen: every return gives a sequence of the same constant length.
func (s *numSums) fixedLen(f *ssa.Function, i int) *int64 {
	if m, ok := s.lenOf[f]; ok {
		if r, ok := m[i]; ok {
			return r
		}
	} else {
		s.lenOf[f] = map[int]*int64{}
	}
	s.lenOf[f][i] = nil
	if f.Blocks == nil || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) {
		return nil
	}
	var out *int64
	n := s.of(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				if i >= len(r.Results) {
					return nil
				}
				l := n.lenOf(r.Results[i])
				if !l.isConst() || !l.k.IsInt64() || out != nil && *out != l.k.Int64() {
					return nil
				}
				k := l.k.Int64()
				out = &k
			}
		}
	}
	s.lenOf[f][i] = out
	return out
}

// ---- places

// key names a value; loads of the same unwritten place share a name.
func (n *num) key(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		return "c:" + x.String()
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return n.loadKey(x)
		}
	case *ssa.Field:
		return n.key(x.X) + "." + strconv.Itoa(x.Field)
	case *ssa.Convert:
		if isStr(x.X.Type()) != isStr(x.Type()) && (isByteSlice(x.X.Type()) || isByteSlice(x.Type())) {
			return n.key(x.X)
		}
	case *ssa.ChangeType:
		return n.key(x.X)
	case *ssa.MakeInterface:
		return n.key(x.X)
	case *ssa.Global:
		return "&" + gname(x)
	case *ssa.Call:
		// the length of a reflected array or slice header does not change
		if f := staticCallee(x); f != nil && f.String() == "(reflect.Value).Len" {
			return "rlen(" + n.key(x.Call.Args[0]) + ")"
		}
	}
	return v.Name()
}

// addrKey names a place.
func (n *num) addrKey(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		return n.addrKey(x.X) + "." + strconv.Itoa(x.Field)
	case *ssa.IndexAddr:
		return n.addrKey(x.X) + "[" + n.lin(x.Index).String() + "]"
	case *ssa.Global:
		return "&" + gname(x)
	case *ssa.UnOp:
		if x.Op == token.MUL {
			return n.key(x)
		}
	case *ssa.ChangeType:
		return n.addrKey(x.X)
	}
	return a.Name()
}

func (n *num) loadKey(l *ssa.UnOp) string {
	if k, ok := n.loads[l]; ok {
		return k
	}
	n.loads[l] = l.Name()
	ak := n.addrKey(l.X)
	if g, ok := l.X.(*ssa.Global); ok && !n.sum.globalWritten(g) {
		n.loads[l] = "g:" + gname(g)
		return n.loads[l]
	}
	// an earlier load of the same place
	for _, b := range n.fn.Blocks {
		if b != l.Block() && !b.Dominates(l.Block()) {
			continue
		}
		for _, in := range b.Instrs {
			if in == ssa.Instruction(l) {
				break
			}
			m, ok := in.(*ssa.UnOp)
			if !ok || m.Op != token.MUL || !types.Identical(m.Type(), l.Type()) {
				continue
			}
			if n.addrKey(m.X) == ak && !n.killed(m, l, l.X) {
				n.loads[l] = n.key(m)
				return n.loads[l]
			}
		}
	}
	return l.Name()
}

func (n *num) reachable(a *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	if r, ok := n.reach[a]; ok {
		return r
	}
	r := map[*ssa.BasicBlock]bool{}
	w := append([]*ssa.BasicBlock{}, a.Succs...)
	for len(w) > 0 {
		b := w[len(w)-1]
		w = w[:len(w)-1]
		if r[b] {
			continue
		}
		r[b] = true
		w = append(w, b.Succs...)
	}
	n.reach[a] = r
	return r
}

// killed: something between a and b may write the place. Paths that run through
// a again start over there.
func (n *num) killed(a, b ssa.Instruction, addr ssa.Value) bool {
	ab, bb := a.Block(), b.Block()
	ia, ib := before(a).i, before(b).i
	scan := func(blk *ssa.BasicBlock, from, to int) bool {
		for i := from; i < to; i++ {
			if n.mayWrite(blk.Instrs[i], addr) {
				return true
			}
		}
		return false
	}
	if ab == bb && ia < ib {
		return scan(ab, ia+1, ib)
	}
	if scan(ab, ia+1, len(ab.Instrs)) || scan(bb, 0, ib) {
		return true
	}
	// blocks between, not through a
	seen := map[*ssa.BasicBlock]bool{ab: true}
	w := append([]*ssa.BasicBlock{}, ab.Succs...)
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if seen[x] {
			continue
		}
		seen[x] = true
		if !n.reachable(x)[bb] && x != bb {
			continue
		}
		if x == bb {
			if n.reachable(bb)[bb] && scan(bb, ib+1, len(bb.Instrs)) {
				// only if the loop does not run through a
				if loopAvoiding(bb, ab) {
					return true
				}
			}
		} else if scan(x, 0, len(x.Instrs)) {
			return true
		}
		w = append(w, x.Succs...)
	}
	return false
}

// loopAvoiding: b is reachable from itself without running through a.
func loopAvoiding(b, a *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{a: true}
	w := append([]*ssa.BasicBlock{}, b.Succs...)
	for len(w) > 0 {
		x := w[len(w)-1]
		w = w[:len(w)-1]
		if x == b {
			return true
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		w = append(w, x.Succs...)
	}
	return false
}

func rootAlloc(a ssa.Value) *ssa.Alloc {
	for {
		switch x := a.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			a = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			a = x.X
		default:
			return nil
		}
	}
}

// escapes: the address of a local variable is known elsewhere.
func escapes(al *ssa.Alloc) bool {
	var esc func(v ssa.Value) bool
	esc = func(v ssa.Value) bool {
		rs := v.Referrers()
		if rs == nil {
			return true
		}
		for _, r := range *rs {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if x.Val == v {
					return true
				}
			case *ssa.FieldAddr:
				if esc(x) {
					return true
				}
			case *ssa.IndexAddr:
				if esc(x) {
					return true
				}
			default:
				return true
			}
		}
		return false
	}
	return esc(al)
}

// placeKind classifies places for may-write tests.
func placeKind(a ssa.Value) string {
	switch x := a.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		return "f:" + tname(st) + "." + fieldName(x)
	case *ssa.IndexAddr:
		t := x.X.Type().Underlying()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem().Underlying()
		}
		switch s := t.(type) {
		case *types.Slice:
			return "e:" + tname(s.Elem())
		case *types.Array:
			return "e:" + tname(s.Elem())
		}
	case *ssa.Global:
		return "g:" + gname(x)
	}
	return "p:" + tname(a.Type().Underlying())
}

func (n *num) mayWrite(in ssa.Instruction, addr ssa.Value) bool {
	k := placeKind(addr)
	al := rootAlloc(addr)
	local := al != nil && !escapes(al)
	switch x := in.(type) {
	case *ssa.Store:
		k2 := placeKind(x.Addr)
		if al2 := rootAlloc(x.Addr); al2 != nil || al != nil {
			if al2 != nil && al != nil && al2 != al {
				return false
			}
			if local && al2 != al {
				return false
			}
		}
		if k2 == k {
			// different elements of a known array
			return true
		}
		if strings.HasPrefix(k, "p:") || strings.HasPrefix(k2, "p:") {
			t1 := addr.Type().Underlying().(*types.Pointer).Elem()
			t2 := x.Addr.Type().Underlying().(*types.Pointer).Elem()
			if types.Identical(t1, t2) {
				return true
			}
			// a whole struct holding the field
			if fa, ok := addr.(*ssa.FieldAddr); ok {
				return types.Identical(fa.X.Type().Underlying().(*types.Pointer).Elem(), t2)
			}
		}
		return false
	case ssa.CallInstruction:
		if local {
			return false
		}
		if b, ok := x.Common().Value.(*ssa.Builtin); ok {
			return b.Name() == "copy" && strings.HasPrefix(k, "e:")
		}
		return n.sum.callWrites(x, k)
	}
	return false
}

// modKinds: kinds of places a function may write, itself or in what it calls.
func (s *numSums) modKinds() map[*ssa.Function]map[string]bool {
	if s.mods != nil {
		return s.mods
	}
	s.mods = map[*ssa.Function]map[string]bool{}
	calls := map[*ssa.Function][]ssa.CallInstruction{}
	var fs []*ssa.Function
	for _, pk := range allPkgs {
		fs = append(fs, s.p.funcsIn(pk)...)
	}
	for _, f := range fs {
		m := map[string]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if al := rootAlloc(x.Addr); al != nil && !escapes(al) {
						continue
					}
					m[placeKind(x.Addr)] = true
				case ssa.CallInstruction:
					if bi, ok := x.Common().Value.(*ssa.Builtin); ok {
						if bi.Name() == "copy" {
							m["e:byte"], m["e:uint8"] = true, true
						}
						continue
					}
					calls[f] = append(calls[f], x)
				}
			}
		}
		s.mods[f] = m
	}
	for ch := true; ch; {
		ch = false
		for _, f := range fs {
			for _, c := range calls[f] {
				for _, g := range s.callees(c) {
					for k := range s.mods[g] {
						if !s.mods[f][k] {
							s.mods[f][k] = true
							ch = true
						}
					}
				}
			}
		}
	}
	return s.mods
}

var allPkgs = []string{"", "abi", "db", "hexutil", "log", "math", "rlp", "trie"}

// callees of a call among the repository's functions.
func (s *numSums) callees(c ssa.CallInstruction) []*ssa.Function {
	if f := c.Common().StaticCallee(); f != nil {
		if f.Blocks == nil {
			return nil
		}
		if mc, ok := c.Common().Value.(*ssa.MakeClosure); ok {
			return []*ssa.Function{mc.Fn.(*ssa.Function)}
		}
		return []*ssa.Function{f}
	}
	if c.Common().IsInvoke() {
		return s.p.implementers(c.Common().Method)
	}
	return s.p.dynCallees(c.Common().Signature())
}

func (s *numSums) callWrites(c ssa.CallInstruction, kind string) bool {
	m := s.modKinds()
	for _, g := range s.callees(c) {
		if m[g][kind] {
			return true
		}
	}
	if f := c.Common().StaticCallee(); f != nil && (f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)) || c.Common().IsInvoke() {
		// foreign code writes bytes it is given
		if kind == "e:byte" || kind == "e:uint8" {
			for _, a := range c.Common().Args {
				if isByteSlice(a.Type()) {
					return true
				}
			}
		}
	}
	return false
}

func (s *numSums) globalWritten(g *ssa.Global) bool {
	k := "g:" + gname(g)
	for f, m := range s.modKinds() {
		if m[k] && f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
						return true
					}
				}
			}
		}
	}
	return false
}

// ---- facts

// condFacts: what holds if cond has the value taken.
func (n *num) condFacts(cond ssa.Value, taken bool, d int) []nfact {
	if d > 6 {
		return nil
	}
	switch x := cond.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return n.condFacts(x.X, !taken, d+1)
		}
	case *ssa.BinOp:
		op := x.Op
		if !taken {
			op = negRel(op)
		}
		if _, _, ok := intRange(x.X.Type()); ok {
			l := n.lin(x.X).minus(n.lin(x.Y))
			fs := n.bigFacts(x, op)
			switch op {
			case token.EQL:
				return append(fs, nfact{l: l}, nfact{l: l.neg()})
			case token.NEQ:
				return append(fs, nfact{l: l, ne: true})
			case token.GEQ:
				return append(fs, nfact{l: l})
			case token.LEQ:
				return append(fs, nfact{l: l.neg()})
			case token.GTR:
				return append(fs, nfact{l: l.plusK(-1)})
			case token.LSS:
				return append(fs, nfact{l: l.neg().plusK(-1)})
			}
			return nil
		}
		if isStr(x.X.Type()) || isByteSlice(x.X.Type()) {
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				c, ok := p[1].(*ssa.Const)
				if !ok {
					continue
				}
				if c.Value == nil && op == token.EQL {
					l := n.lenOf(p[0])
					return []nfact{{l: l.neg()}}
				}
				if c.Value != nil && c.Value.Kind() == constant.String {
					k := int64(len(constant.StringVal(c.Value)))
					l := n.lenOf(p[0]).plusK(-k)
					if op == token.EQL {
						return []nfact{{l: l}, {l: l.neg()}}
					}
					if op == token.NEQ && k == 0 {
						return []nfact{{l: l, ne: true}}
					}
				}
			}
			return nil
		}
		// err == nil of a call
		if k, ok := x.Y.(*ssa.Const); ok && k.Value == nil && op == token.EQL {
			return n.callFacts(x.X, "nil", d)
		}
		if k, ok := x.Y.(*ssa.Const); ok && k.Value == nil && op == token.NEQ {
			return n.callFacts(x.X, "some", d)
		}
		if b, ok := constBool(x.Y); ok && (op == token.EQL || op == token.NEQ) {
			return n.condFacts(x.X, b == (op == token.EQL), d+1)
		}
	case *ssa.Phi:
		// a && b, a || b as values: edges with the other constant are out
		var left []int
		for i, e := range x.Edges {
			if b, ok := constBool(e); ok && b != taken {
				continue
			}
			left = append(left, i)
		}
		if len(left) == 1 {
			i := left[0]
			fs := n.facts(npoint{x.Block().Preds[i], len(x.Block().Preds[i].Instrs), x.Block()})
			if _, isK := x.Edges[i].(*ssa.Const); !isK {
				fs = append(fs, n.condFacts(x.Edges[i], taken, d+1)...)
			}
			return fs
		}
	case *ssa.Call, *ssa.Extract:
		if c, ok := x.(*ssa.Call); ok {
			if fs := n.bigBool(c, taken); fs != nil {
				return fs
			}
		}
		w := "F"
		if taken {
			w = "T"
		}
		return n.callFacts(cond, w, d)
	}
	return nil
}

// facts that hold at a point: conditions on the way.
func (n *num) facts(p npoint) []nfact {
	var out []nfact
	edge := func(from, to *ssa.BasicBlock) {
		if len(from.Instrs) == 0 {
			return
		}
		if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
			out = append(out, n.condFacts(i.Cond, from.Succs[0] == to, 0)...)
		}
	}
	if p.to != nil {
		edge(p.b, p.to)
	}
	for b := p.b; b != nil; b = b.Idom() {
		if len(b.Preds) == 1 {
			edge(b.Preds[0], b)
		}
	}
	return out
}

// sumFact: a fact over the parameters of a callee.
type sumFact struct {
	l  nlin // atoms "#i" (parameter i) and "len(#i)", "=r" result r, "len(=r)"
	ne bool
}

// callFacts: what a call's result tells, by what dominates the returns with it.
func (n *num) callFacts(v ssa.Value, want string, d int) []nfact {
	ri := 0
	if x, ok := v.(*ssa.Extract); ok {
		ri = x.Index
		v = x.Tuple
	}
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil
	}
	f := staticCallee(c)
	if f == nil {
		return nil
	}
	var out []nfact
	for _, sf := range n.sum.retFacts(f, ri, want, d) {
		if l, ok := n.subst(sf.l, c); ok {
			out = append(out, nfact{l, sf.ne})
		}
	}
	return out
}

// subst puts the arguments and results of a call into a summary.
func (n *num) subst(l nlin, c *ssa.Call) (nlin, bool) {
	r := nkb(l.k)
	for a, k := range l.at {
		in := a
		isLen := strings.HasPrefix(in, "len(")
		if isLen {
			in = in[4 : len(in)-1]
		}
		i, err := strconv.Atoi(in[1:])
		if err != nil {
			return nlin{}, false
		}
		var v ssa.Value
		if in[0] == '#' {
			args := c.Call.Args
			if i >= len(args) {
				return nlin{}, false
			}
			v = args[i]
		} else {
			if c.Call.Signature().Results().Len() == 1 {
				v = c
			} else {
				for _, u := range *c.Referrers() {
					if x, ok := u.(*ssa.Extract); ok && x.Index == i {
						v = x
					}
				}
			}
			if v == nil {
				return nlin{}, false
			}
		}
		if isLen {
			r = r.add(n.lenOf(v), k)
		} else {
			r = r.add(n.lin(v), k)
		}
	}
	return r, true
}

// retFacts: facts common to all returns whose result ri is as wanted.
func (s *numSums) retFacts(f *ssa.Function, ri int, want string, d int) []sumFact {
	if f.Blocks == nil || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || d > 3 || len(f.Blocks) > 60 {
		return nil
	}
	key := fname(f) + "|" + strconv.Itoa(ri) + "|" + want
	if r, ok := s.cond[key]; ok {
		return r
	}
	s.cond[key] = nil
	n := s.of(f)
	var common []sumFact
	first := true
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || ri >= len(r.Results) {
			continue
		}
		for _, alt := range n.retAlts(r, ri, want, d) {
			here := n.sumOf(alt)
			if first {
				common, first = here, false
				continue
			}
			var keep []sumFact
			for _, c := range common {
				if sfImplied(here, c) {
					keep = append(keep, c)
				}
			}
			for _, c := range here {
				if !sfHas(keep, c) && sfImplied(common, c) {
					keep = append(keep, c)
				}
			}
			common = keep
		}
	}
	s.cond[key] = common
	return common
}

func sfHas(fs []sumFact, c sumFact) bool {
	k := c.l.String()
	for _, x := range fs {
		if x.ne == c.ne && x.l.String() == k {
			return true
		}
	}
	return false
}

// sfImplied: a fact, or one with the same terms and a stronger bound.
func sfImplied(fs []sumFact, c sumFact) bool {
	if sfHas(fs, c) {
		return true
	}
	if c.ne {
		return false
	}
	var ls []nlin
	for _, x := range fs {
		if !x.ne {
			ls = append(ls, x.l)
		}
	}
	for a := range c.l.at {
		if strings.HasPrefix(a, "len(") {
			ls = append(ls, natom(a))
		}
	}
	n := &num{}
	return n.comb(c.l, ls, 3)
}

type retAlt struct {
	p   npoint
	fs  []nfact
	res []ssa.Value
}

// retAlts: ways this return gives the wanted result.
func (n *num) retAlts(r *ssa.Return, ri int, want string, d int) []retAlt {
	base := retAlt{p: before(r), fs: n.facts(before(r)), res: r.Results}
	return n.altsOf(r.Results[ri], want, base, d, 0)
}

func (n *num) altsOf(v ssa.Value, want string, base retAlt, d, depth int) []retAlt {
	switch x := v.(type) {
	case *ssa.Const:
		switch want {
		case "nil":
			if x.Value == nil {
				return []retAlt{base}
			}
			return nil
		case "some":
			if x.Value == nil {
				return nil
			}
			return []retAlt{base}
		}
		if b, ok := constBool(x); ok && b == (want == "T") {
			return []retAlt{base}
		}
		return nil
	case *ssa.MakeInterface:
		if want == "nil" {
			return nil
		}
		return []retAlt{base}
	case *ssa.UnOp:
		if _, isG := x.X.(*ssa.Global); isG && x.Op == token.MUL && isErrorT(x.Type()) {
			// error variables are set
			if want == "nil" {
				return nil
			}
			return []retAlt{base}
		}
	case *ssa.Phi:
		if depth < 3 {
			var out []retAlt
			for i, e := range x.Edges {
				a := retAlt{res: make([]ssa.Value, len(base.res))}
				pred := x.Block().Preds[i]
				a.p = npoint{pred, len(pred.Instrs), x.Block()}
				a.fs = n.facts(a.p)
				if !n.reachable(x.Block())[x.Block()] {
					h, dead := n.edgeFacts(x.Block(), i, base.p, base.fs, false, false)
					if dead {
						continue
					}
					a.fs = append(a.fs, h...)
				}
				for j, rv := range base.res {
					a.res[j] = rv
					if ph, ok := rv.(*ssa.Phi); ok && ph.Block() == x.Block() {
						a.res[j] = ph.Edges[i]
					}
				}
				out = append(out, n.altsOf(e, want, a, d, depth+1)...)
			}
			return out
		}
	}
	if want == "T" || want == "F" {
		base.fs = append(append([]nfact{}, base.fs...), n.condFacts(v, want == "T", d+1)...)
	} else {
		base.fs = append(append([]nfact{}, base.fs...), n.callFacts(v, want, d+1)...)
	}
	// a call to an error constructor is never nil
	if want == "nil" {
		if c, ok := v.(*ssa.Call); ok {
			if f := staticCallee(c); f != nil && f.Pkg != nil {
				switch f.Pkg.Pkg.Path() + "." + f.Name() {
				case "fmt.Errorf", "errors.New":
					return nil
				}
			}
		}
	}
	return []retAlt{base}
}

func isErrorT(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

// export rewrites a term over parameters.
func (n *num) export(l nlin) (nlin, bool) {
	r := nkb(l.k)
	for a, k := range l.at {
		p := -1
		isLen := false
		for i, q := range n.fn.Params {
			if a == q.Name() {
				p = i
			}
			if a == "len("+q.Name()+")" {
				p, isLen = i, true
			}
		}
		if p < 0 {
			return nlin{}, false
		}
		nm := "#" + strconv.Itoa(p)
		if isLen {
			nm = "len(" + nm + ")"
		}
		r = r.add(natom(nm), k)
	}
	return r, true
}

// sumOf: the facts of one way to return, over parameters and results.
func (n *num) sumOf(alt retAlt) []sumFact {
	var here []sumFact
	// results name the atoms they are made of
	via := map[string]nlin{}
	eq := func(name string, l nlin) {
		at := natom(name)
		if e, ok := n.exportVia(l, via); ok {
			e = at.minus(e)
			here = append(here, sumFact{l: e}, sumFact{l: e.neg()})
			return
		}
		for a, k := range l.at {
			if k.Cmp(big1) != 0 || via[a].k != nil {
				continue
			}
			rest := l.minus(natom(a))
			if e, ok := n.exportVia(rest, via); ok {
				via[a] = at.minus(e)
				for _, f := range n.intrinsic(a) {
					if m, ok := n.exportVia(f.l, via); ok {
						here = append(here, sumFact{m, f.ne})
					}
				}
				return
			}
		}
	}
	for j, res := range alt.res {
		if res == nil {
			continue
		}
		if _, _, isI := intRange(res.Type()); isI {
			nm := "=" + strconv.Itoa(j)
			eq(nm, n.lin(res))
			if lo, hi := n.constRange(res); lo != nil {
				here = append(here, sumFact{l: natom(nm).minus(nkb(lo))}, sumFact{l: nkb(hi).minus(natom(nm))})
			}
		} else if isByteSlice(res.Type()) || isStr(res.Type()) {
			eq("len(="+strconv.Itoa(j)+")", n.lenOf(res))
		}
	}
	for _, x := range alt.fs {
		if l, ok := n.exportVia(x.l, via); ok && !l.isConst() {
			here = append(here, sumFact{l, x.ne})
		}
	}
	return here
}

func (n *num) exportVia(l nlin, via map[string]nlin) (nlin, bool) {
	r := nkb(l.k)
	for a, k := range l.at {
		if v, ok := via[a]; ok {
			r = r.add(v, k)
			continue
		}
		e, ok := n.export(natom(a))
		if !ok {
			return nlin{}, false
		}
		r = r.add(e, k)
	}
	return r, true
}

// constRange: bounds of a value that need no context.
func (n *num) constRange(v ssa.Value) (lo, hi *big.Int) {
	l := n.lin(v)
	if l.isConst() {
		return l.k, l.k
	}
	lo2, hi2, ok := intRange(v.Type())
	if !ok {
		return nil, nil
	}
	lo, hi = lo2, hi2
	if len(l.at) == 1 && l.k.Sign() == 0 {
		for a := range l.at {
			for _, f := range n.intrinsic(a) {
				if f.ne || len(f.l.at) != 1 || f.l.at[a] == nil {
					continue
				}
				if f.l.at[a].Cmp(big1) == 0 {
					if x := new(big.Int).Neg(f.l.k); x.Cmp(lo) > 0 {
						lo = x
					}
				}
				if f.l.at[a].Cmp(bigM1) == 0 && f.l.k.Cmp(hi) < 0 {
					hi = f.l.k
				}
			}
		}
	}
	return lo, hi
}

// intrinsic facts about an atom from how its value is made.
func (n *num) intrinsic(a string) []nfact {
	at := natom(a)
	ge := func(l nlin) nfact { return nfact{l: l} }
	if v := n.seqs[a]; v != nil {
		out := []nfact{ge(at), ge(nkb(new(big.Int).Lsh(big1, 47)).minus(at))}
		if c, ok := v.(*ssa.Call); ok {
			out = append(out, n.resultFacts(c)...)
			if f := staticCallee(c); f != nil && f.Pkg != nil {
				switch f.Pkg.Pkg.Path() + "." + f.Name() {
				case "strings.Split", "bytes.Split":
					if k, ok := c.Call.Args[1].(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) != "" {
						out = append(out, ge(at.plusK(-1)))
					}
				case "strings.TrimSpace", "strings.TrimPrefix", "strings.TrimSuffix", "bytes.TrimLeft", "bytes.TrimRight":
					out = append(out, ge(n.lenOf(c.Call.Args[0]).minus(at)))
				}
				if bigMethod(c) == "Bytes" {
					if l, ok := n.bigAt(c.Call.Args[0], before(c), 0); ok && n.prove(l, before(c)) {
						for _, k := range []int64{4, 8, 20, 32, 64} {
							if n.prove(nkb(new(big.Int).Lsh(big1, uint(8*k))).plusK(-1).minus(l), before(c)) {
								out = append(out, ge(nk(k).minus(at)))
								break
							}
						}
					}
				}
			}
		}
		if x, ok := v.(*ssa.Extract); ok {
			if c, ok := x.Tuple.(*ssa.Call); ok {
				out = append(out, n.resultFacts(c)...)
			}
		}
		return out
	}
	v := n.vals[a]
	if v == nil {
		if strings.HasPrefix(a, "big:") {
			return n.bigIntrinsic(a)
		}
		return nil
	}
	var out []nfact
	lo, hi, ok := intRange(v.Type())
	if ok {
		out = append(out, ge(at.minus(nkb(lo))), ge(nkb(hi).minus(at)))
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		switch x.Op {
		case token.AND:
			for _, o := range []ssa.Value{x.X, x.Y} {
				if l := n.lin(o); l.isConst() && l.k.Sign() >= 0 {
					out = append(out, ge(at), ge(nkb(l.k).minus(at)))
				} else if isUnsigned(x.Type()) {
					out = append(out, ge(l.minus(at)))
				}
			}
		case token.REM:
			l := n.lin(x.Y)
			pos := isUnsigned(x.Type()) || n.prove(n.lin(x.X), defPoint(x))
			if pos {
				out = append(out, ge(at), ge(n.lin(x.X).minus(at)))
				if isUnsigned(x.Type()) || n.prove(l, defPoint(x)) {
					out = append(out, ge(l.minus(at).plusK(-1)))
				}
			} else if l.isConst() && l.k.Sign() > 0 {
				out = append(out, ge(l.minus(at).plusK(-1)), ge(l.plus(at).plusK(-1)))
			}
		case token.QUO:
			l := n.lin(x.Y)
			if (isUnsigned(x.Type()) || n.prove(n.lin(x.X), defPoint(x))) && (isUnsigned(x.Type()) || l.isConst() && l.k.Sign() > 0) {
				out = append(out, ge(at), ge(n.lin(x.X).minus(at)))
				if l.isConst() && l.k.Sign() > 0 {
					// at*k <= X <= at*k + k-1
					q := nk(0).add(at, l.k)
					out = append(out, ge(n.lin(x.X).minus(q)), ge(q.plus(nkb(l.k)).plusK(-1).minus(n.lin(x.X))))
				}
			}
		case token.SHR:
			l := n.lin(x.Y)
			if isUnsigned(x.Type()) || n.prove(n.lin(x.X), defPoint(x)) {
				out = append(out, ge(at), ge(n.lin(x.X).minus(at)))
				if l.isConst() && l.k.IsInt64() && l.k.Int64() < 64 {
					q := nk(0).add(at, new(big.Int).Lsh(big1, uint(l.k.Int64())))
					out = append(out, ge(n.lin(x.X).minus(q)))
					out = append(out, ge(q.plus(nkb(new(big.Int).Lsh(big1, uint(l.k.Int64())))).plusK(-1).minus(n.lin(x.X))))
				}
			}
		case token.MUL:
			// q := a / b; q * b <= a
			for _, p := range [][2]ssa.Value{{x.X, x.Y}, {x.Y, x.X}} {
				if q, ok := p[0].(*ssa.BinOp); ok && q.Op == token.QUO && isUnsigned(x.Type()) && n.lin(q.Y).String() == n.lin(p[1]).String() {
					out = append(out, ge(n.lin(q.X).minus(at)))
				}
			}
		}
	case *ssa.Call:
		out = append(out, n.callRange(x, at)...)
		out = append(out, n.resultFacts(x)...)
	case *ssa.Extract:
		switch t := x.Tuple.(type) {
		case *ssa.Call:
			if x.Index == 0 {
				out = append(out, n.callRange(t, at)...)
			}
			out = append(out, n.resultFacts(t)...)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && t.IsString && x.Index == 1 {
				out = append(out, ge(at), ge(n.lenOf(r.X).minus(at).plusK(-1)))
			}
		}
	case *ssa.Convert:
		if _, _, ok := intRange(x.X.Type()); ok && isUnsigned(x.Type()) && isUnsigned(x.X.Type()) {
			out = append(out, ge(n.lin(x.X).minus(at)))
		}
	}
	return out
}

// resultFacts: equations for results that hold on every return of the callee.
func (n *num) resultFacts(c *ssa.Call) []nfact {
	f := staticCallee(c)
	if f == nil || f.Blocks == nil {
		return nil
	}
	var out []nfact
	for _, sf := range n.sum.allRets(f) {
		if l, ok := n.subst(sf.l, c); ok {
			out = append(out, nfact{l, sf.ne})
		}
	}
	return out
}

func (s *numSums) allRets(f *ssa.Function) []sumFact {
	if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modPath) || len(f.Blocks) > 60 {
		return nil
	}
	key := fname(f) + "|*"
	if r, ok := s.cond[key]; ok {
		return r
	}
	s.cond[key] = nil
	n := s.of(f)
	var common []sumFact
	first := true
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		here := n.sumOf(retAlt{fs: n.facts(before(r)), res: r.Results})
		if first {
			common, first = here, false
			continue
		}
		var keep []sumFact
		for _, c := range common {
			if sfImplied(here, c) {
				keep = append(keep, c)
			}
		}
		for _, c := range here {
			if !sfHas(keep, c) && sfImplied(common, c) {
				keep = append(keep, c)
			}
		}
		common = keep
	}
	s.cond[key] = common
	return common
}

// callRange: results of known functions.
func (n *num) callRange(c *ssa.Call, at nlin) []nfact {
	ge := func(l nlin) nfact { return nfact{l: l} }
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "copy":
			return []nfact{ge(at), ge(n.lenOf(c.Call.Args[0]).minus(at)), ge(n.lenOf(c.Call.Args[1]).minus(at))}
		case "cap":
			return []nfact{ge(at.minus(n.lenOf(c.Call.Args[0])))}
		case "min":
			var out []nfact
			for _, a := range c.Call.Args {
				out = append(out, ge(n.lin(a).minus(at)))
			}
			return out
		case "max":
			var out []nfact
			for _, a := range c.Call.Args {
				out = append(out, ge(at.minus(n.lin(a))))
			}
			return out
		}
		return nil
	}
	if c.Call.IsInvoke() {
		switch c.Call.Method.Name() {
		case "Read", "Write", "ReadAt":
			if len(c.Call.Args) > 0 && isByteSlice(c.Call.Args[0].Type()) {
				return []nfact{ge(at), ge(n.lenOf(c.Call.Args[0]).minus(at))}
			}
		case "Len", "Size", "NumField", "NumIn", "NumOut", "NumMethod":
			if len(c.Call.Args) == 0 {
				return []nfact{ge(at)}
			}
		}
		return nil
	}
	f := staticCallee(c)
	if f == nil || f.Pkg == nil {
		return nil
	}
	a := c.Call.Args
	switch f.Pkg.Pkg.Path() + "." + f.Name() {
	case "sort.Search":
		return []nfact{ge(at), ge(n.lin(a[0]).minus(at))}
	case "io.ReadFull", "io.ReadAtLeast":
		return []nfact{ge(at), ge(n.lenOf(a[1]).minus(at))}
	case "math/bits.LeadingZeros64", "math/bits.TrailingZeros64", "math/bits.Len64", "math/bits.OnesCount64":
		return []nfact{ge(at), ge(nk(64).minus(at))}
	case "strings.Index", "strings.IndexByte", "strings.LastIndex", "bytes.Index", "bytes.IndexByte", "strings.IndexRune":
		return []nfact{ge(at.plusK(1)), ge(n.lenOf(a[0]).minus(at).plusK(-1))}
	case "strings.Compare", "bytes.Compare":
		return []nfact{ge(at.plusK(1)), ge(nk(1).minus(at))}
	case "math/big.Sign", "math/big.Cmp":
		return []nfact{ge(at.plusK(1)), ge(nk(1).minus(at))}
	case "math/big.BitLen", "reflect.Len", "reflect.NumField", "bytes.Len":
		return []nfact{ge(at)}
	case "math/rand.Intn":
		return []nfact{ge(at), ge(n.lin(a[len(a)-1]).minus(at).plusK(-1))}
	}
	return nil
}

// ---- proving

func (n *num) prove(goal nlin, p npoint) bool {
	if goal.isConst() {
		return goal.k.Sign() >= 0
	}
	n.steps = 0
	return n.proveD(goal, p, n.hyps, 0)
}

func (n *num) proveD(goal nlin, p npoint, hyps []nfact, d int) bool {
	if goal.isConst() {
		return goal.k.Sign() >= 0
	}
	if d > 5 {
		return false
	}
	fs := append(append([]nfact{}, hyps...), n.facts(p)...)
	if n.derive(goal, fs) {
		return true
	}
	// split joins of the goal's values, innermost first
	blocks := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	add := func(ls nlin) {
		for a := range ls.at {
			v := n.vals[a]
			if v == nil {
				v = n.seqs[a]
			}
			if ph, ok := v.(*ssa.Phi); ok && !blocks[ph.Block()] {
				blocks[ph.Block()] = true
				order = append(order, ph.Block())
			}
		}
	}
	add(goal)
	if d == 0 {
		for _, f := range fs {
			if len(f.l.at) == 1 {
				add(f.l)
			}
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].Index > order[j].Index })
	for _, b := range order {
		if n.split(goal, b, p, hyps, d) {
			return true
		}
	}
	return false
}

func (n *num) split(goal nlin, b *ssa.BasicBlock, p npoint, hyps []nfact, d int) bool {
	if p.b != b && !b.Dominates(p.b) {
		return false
	}
	if len(b.Preds) > 12 {
		return false
	}
	loop := n.reachable(b)[b]
	// everything else in the goal and the hypotheses must be known at the join
	for a := range goal.at {
		v := n.vals[a]
		if v == nil {
			v = n.seqs[a]
		}
		if v == nil {
			if strings.HasPrefix(a, "big:") {
				continue
			}
			return false
		}
		in, ok := v.(ssa.Instruction)
		if !ok {
			continue
		}
		if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
			continue
		}
		if in.Block() == b || !in.Block().Dominates(b) {
			return false
		}
		if loop && n.reachable(b)[in.Block()] && n.reachable(in.Block())[b] && !in.Block().Dominates(b) {
			return false
		}
	}
	// around a loop: by induction over its rounds, from what does not change in it,
	// or else each round on its own, from what is known at p
	if loop && n.splitEdges(goal, b, p, hyps, d, true, true) {
		return true
	}
	return n.splitEdges(goal, b, p, hyps, d, loop, false)
}

func (n *num) splitEdges(goal nlin, b *ssa.BasicBlock, p npoint, hyps []nfact, d int, loop, induct bool) bool {
	for i, pred := range b.Preds {
		g := nkb(goal.k)
		skip := false
		for a, k := range goal.at {
			if ph, ok := n.vals[a].(*ssa.Phi); ok && ph.Block() == b {
				g = g.add(n.lin(ph.Edges[i]), k)
			} else if ph, ok := n.seqs[a].(*ssa.Phi); ok && ph.Block() == b {
				g = g.add(n.lenOf(ph.Edges[i]), k)
				if c, ok := ph.Edges[i].(*ssa.Const); ok && c.Value == nil && n.weak {
					skip = true
				}
			} else {
				g = g.add(natom(a), k)
			}
		}
		if skip {
			continue
		}
		h, dead := n.edgeFacts(b, i, p, hyps, loop, induct)
		if dead {
			continue
		}
		if induct && b.Dominates(pred) {
			h = append(h, nfact{l: goal})
		}
		if !n.proveD(g, npoint{pred, len(pred.Instrs), b}, h, d+1) {
			return false
		}
	}
	return true
}

// edgeFacts: what is known at p, told for the edge i into b; dead if p cannot be
// reached over that edge.
func (n *num) edgeFacts(b *ssa.BasicBlock, i int, p npoint, hyps []nfact, loop, induct bool) (out []nfact, dead bool) {
	move := func(f nfact) {
		g := nkb(f.l.k)
		for a, k := range f.l.at {
			v := n.vals[a]
			isLen := false
			if v == nil {
				v, isLen = n.seqs[a], true
			}
			if v == nil {
				if loop {
					return
				}
				g = g.add(natom(a), k)
				continue
			}
			if ph, ok := v.(*ssa.Phi); ok && ph.Block() == b {
				if induct {
					return
				}
				if isLen {
					g = g.add(n.lenOf(ph.Edges[i]), k)
				} else {
					g = g.add(n.lin(ph.Edges[i]), k)
				}
				continue
			}
			if in, ok := v.(ssa.Instruction); ok && loop && (in.Block() == b || !in.Block().Dominates(b)) {
				return
			}
			g = g.add(natom(a), k)
		}
		if g.isConst() {
			if !f.ne && g.k.Sign() < 0 || f.ne && g.k.Sign() == 0 {
				dead = true
			}
			return
		}
		out = append(out, nfact{g, f.ne})
	}
	for _, f := range hyps {
		move(f)
	}
	for _, f := range n.facts(p) {
		move(f)
	}
	if induct {
		return out, dead
	}
	// conditions on joined values other than integers
	for _, c := range n.conds(p) {
		fs, no := n.edgeCond(c.v, c.taken, b, i, 0)
		if no {
			return nil, true
		}
		if !loop {
			out = append(out, fs...)
		}
	}
	return out, dead
}

type ncond struct {
	v     ssa.Value
	taken bool
}

func (n *num) conds(p npoint) []ncond {
	var out []ncond
	edge := func(from, to *ssa.BasicBlock) {
		if len(from.Instrs) == 0 {
			return
		}
		if i, ok := from.Instrs[len(from.Instrs)-1].(*ssa.If); ok && from.Succs[0] != from.Succs[1] {
			out = append(out, ncond{i.Cond, from.Succs[0] == to})
		}
	}
	if p.to != nil {
		edge(p.b, p.to)
	}
	for b := p.b; b != nil; b = b.Idom() {
		if len(b.Preds) == 1 {
			edge(b.Preds[0], b)
		}
	}
	return out
}

// edgeCond: a condition with the joined values of b replaced by those of edge i.
func (n *num) edgeCond(c ssa.Value, taken bool, b *ssa.BasicBlock, i, d int) (fs []nfact, dead bool) {
	if d > 3 {
		return nil, false
	}
	if ph, ok := c.(*ssa.Phi); ok && ph.Block() == b {
		if k, ok := constBool(ph.Edges[i]); ok {
			return nil, k != taken
		}
		return n.condFacts(ph.Edges[i], taken, 0), false
	}
	switch x := c.(type) {
	case *ssa.UnOp:
		if x.Op == token.NOT {
			return n.edgeCond(x.X, !taken, b, i, d+1)
		}
	case *ssa.BinOp:
		ph, ok := x.X.(*ssa.Phi)
		if !ok || ph.Block() != b {
			return nil, false
		}
		k, ok := x.Y.(*ssa.Const)
		if !ok || k.Value != nil {
			return nil, false
		}
		isNil := (x.Op == token.EQL) == taken
		if x.Op != token.EQL && x.Op != token.NEQ {
			return nil, false
		}
		switch e := ph.Edges[i].(type) {
		case *ssa.Const:
			if e.Value == nil {
				return nil, !isNil
			}
		case *ssa.MakeInterface:
			return nil, isNil
		case *ssa.UnOp:
			if _, isG := e.X.(*ssa.Global); isG && isErrorT(e.Type()) {
				return nil, isNil
			}
		}
		w := "some"
		if isNil {
			w = "nil"
		}
		return n.callFacts(ph.Edges[i], w, 0), false
	}
	return nil, false
}

// derive: goal follows from the facts by adding some up.
func (n *num) derive(goal nlin, fs []nfact) bool {
	// intrinsic facts of every atom seen, twice over
	seen := map[string]bool{}
	have := map[string]bool{}
	var all []nlin
	var nes []nlin
	var push func(f nfact, lvl int)
	var atoms func(l nlin, lvl int)
	push = func(f nfact, lvl int) {
		k := f.l.String()
		if f.ne {
			nes = append(nes, f.l)
			atoms(f.l, lvl)
			return
		}
		if have[k] || f.l.isConst() {
			return
		}
		have[k] = true
		all = append(all, f.l)
		atoms(f.l, lvl)
	}
	atoms = func(l nlin, lvl int) {
		if lvl > 2 {
			return
		}
		for a := range l.at {
			if seen[a] {
				continue
			}
			seen[a] = true
			for _, f := range n.intrinsic(a) {
				push(f, lvl+1)
			}
		}
	}
	atoms(goal, 0)
	for _, f := range fs {
		push(f, 0)
	}
	// x != 0 and x >= 0 give x >= 1
	for _, l := range nes {
		if n.comb(l, all, 3) {
			all = append(all, l.plusK(-1))
		} else if n.comb(l.neg(), all, 3) {
			all = append(all, l.neg().plusK(-1))
		}
	}
	n.steps = 0
	return n.comb(goal, all, 4)
}

// comb: goal >= 0 by subtracting facts.
func (n *num) comb(goal nlin, fs []nlin, d int) bool {
	if goal.isConst() {
		return goal.k.Sign() >= 0
	}
	n.steps++
	if d == 0 || n.steps > 4000 {
		return false
	}
	// eliminate one atom
	var ks []string
	for a := range goal.at {
		ks = append(ks, a)
	}
	sort.Strings(ks)
	for _, a := range ks {
		k := goal.at[a]
		for _, f := range fs {
			c := f.at[a]
			if c == nil || c.Sign() != k.Sign() {
				continue
			}
			// goal*|c| - f*|k|
			g := nk(0).add(goal, new(big.Int).Abs(c)).add(f, new(big.Int).Neg(new(big.Int).Abs(k)))
			if len(g.at) > len(goal.at)+1 {
				continue
			}
			if n.comb(g, fs, d-1) {
				return true
			}
		}
	}
	return false
}

// ---- big integers (contents of *big.Int at a point) are left to bignum.go

var _ = token.ADD
