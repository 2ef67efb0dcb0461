package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contents of *big.Int objects that a function makes for itself (or loads from a
// variable that never changes) as linear terms: every call that writes the
// object is found, the content at a point is what the last one left.

func isBigPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && tname(p.Elem()) == "big.Int"
}

func bigMethod(c *ssa.Call) string {
	f := staticCallee(c)
	if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "math/big" {
		return ""
	}
	if f.Signature.Recv() == nil {
		if f.Name() == "NewInt" {
			return "NewInt"
		}
		return ""
	}
	if !isBigPtr(f.Signature.Recv().Type()) {
		return ""
	}
	return f.Name()
}

// bigReads never write their receiver.
var bigReads = map[string]bool{"Cmp": true, "CmpAbs": true, "Sign": true, "BitLen": true, "Uint64": true, "Int64": true, "IsUint64": true, "IsInt64": true, "Bytes": true, "String": true, "Bits": true, "Text": true, "FillBytes": true, "Bit": true, "Append": true, "Format": true, "MarshalText": true, "MarshalJSON": true, "TrailingZeroBits": true}

// bigRoot is the object a pointer stands for.
func bigRoot(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Call:
			m := bigMethod(x)
			if m == "" || m == "NewInt" || !isBigPtr(x.Type()) {
				return v
			}
			v = x.Call.Args[0]
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		default:
			return v
		}
	}
}

// bigMutators are the calls that write the object, in no order; false if it may
// be written elsewhere.
func (n *num) bigMutators(root ssa.Value) ([]*ssa.Call, bool) {
	var out []*ssa.Call
	ok := true
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		rs := v.Referrers()
		if rs == nil {
			ok = false
			return
		}
		for _, r := range *rs {
			switch x := r.(type) {
			case *ssa.DebugRef, *ssa.BinOp:
			case *ssa.MakeInterface:
				// printed
				for _, u := range *x.Referrers() {
					if st, isSt := u.(*ssa.Store); !isSt || rootAlloc(st.Addr) == nil {
						ok = false
					}
				}
			case *ssa.Call:
				m := bigMethod(x)
				if m == "" {
					ok = false
					continue
				}
				if len(x.Call.Args) > 0 && x.Call.Args[0] == v && !bigReads[m] && m != "NewInt" {
					out = append(out, x)
					if isBigPtr(x.Type()) {
						walk(x)
					}
				}
			case *ssa.Return:
			default:
				ok = false
			}
		}
	}
	walk(root)
	return out, ok
}

// bigAt is the content of a big integer before the point.
func (n *num) bigAt(v ssa.Value, p npoint, d int) (nlin, bool) {
	if d > 8 {
		return nlin{}, false
	}
	root := bigRoot(v)
	if u, ok := root.(*ssa.UnOp); ok && u.Op == token.MUL {
		if g, ok := u.X.(*ssa.Global); ok && !n.sum.globalWritten(g) {
			if k, ok := globalBig(g); ok {
				return nk(k), true
			}
		}
		return nlin{}, false
	}
	switch root.(type) {
	case *ssa.Alloc, *ssa.Call:
	default:
		return nlin{}, false
	}
	ms, ok := n.bigMutators(root)
	if !ok {
		return nlin{}, false
	}
	dom := func(c *ssa.Call) bool {
		b := c.Block()
		if b == p.b {
			return before(c).i < p.i
		}
		return b.Dominates(p.b)
	}
	var last *ssa.Call
	for _, m := range ms {
		if !dom(m) {
			if m.Block() != p.b && n.reachable(m.Block())[p.b] || m.Block() == p.b && n.reachable(p.b)[p.b] {
				return nlin{}, false
			}
			continue
		}
		if n.reachable(m.Block())[m.Block()] {
			in, ok := root.(ssa.Instruction)
			if !ok || in.Block() != m.Block() && loopAvoiding(m.Block(), in.Block()) {
				return nlin{}, false
			}
		}
		if last == nil || last.Block() == m.Block() && before(last).i < before(m).i || last.Block() != m.Block() && last.Block().Dominates(m.Block()) {
			last = m
		}
	}
	if last == nil {
		switch x := root.(type) {
		case *ssa.Alloc:
			return nk(0), true
		case *ssa.Call:
			if bigMethod(x) == "NewInt" {
				return n.lin(x.Call.Args[0]), true
			}
		}
		return nlin{}, false
	}
	a := last.Call.Args
	pt := before(last)
	switch bigMethod(last) {
	case "SetBytes", "SetUint64", "SetInt64":
		if bigMethod(last) != "SetBytes" {
			return n.lin(a[1]), true
		}
		k := "big:" + last.Name()
		n.bigs[k] = a[1]
		return natom(k), true
	case "Set":
		return n.bigAt(a[1], pt, d+1)
	case "Add", "Sub":
		x, ok1 := n.bigAt(a[1], pt, d+1)
		y, ok2 := n.bigAt(a[2], pt, d+1)
		if !ok1 || !ok2 {
			return nlin{}, false
		}
		if bigMethod(last) == "Add" {
			return x.plus(y), true
		}
		return x.minus(y), true
	}
	return nlin{}, false
}

// globalBig: the constant a package variable of type *big.Int is initialised with.
func globalBig(g *ssa.Global) (int64, bool) {
	init := g.Pkg.Func("init")
	if init == nil {
		return 0, false
	}
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && st.Addr == ssa.Value(g) {
				if c, ok := st.Val.(*ssa.Call); ok && bigMethod(c) == "NewInt" {
					if k, ok := c.Call.Args[0].(*ssa.Const); ok {
						return k.Int64(), true
					}
				}
			}
		}
	}
	return 0, false
}

// bigFacts: comparisons of Cmp, Sign and BitLen results with constants.
func (n *num) bigFacts(x *ssa.BinOp, op token.Token) []nfact {
	c, ok := x.X.(*ssa.Call)
	if !ok {
		return nil
	}
	l := n.lin(x.Y)
	if !l.isConst() {
		return nil
	}
	pt := before(c)
	switch bigMethod(c) {
	case "Cmp", "Sign":
		a, ok := n.bigAt(c.Call.Args[0], pt, 0)
		if !ok {
			return nil
		}
		b := nk(0)
		if bigMethod(c) == "Cmp" {
			if b, ok = n.bigAt(c.Call.Args[1], pt, 0); !ok {
				return nil
			}
		}
		// which of -1, 0, 1 remain
		var left [3]bool
		for i := int64(-1); i <= 1; i++ {
			d := new(big.Int).Sub(big.NewInt(i), l.k).Sign()
			left[i+1] = map[token.Token]bool{token.EQL: d == 0, token.NEQ: d != 0, token.LSS: d < 0, token.LEQ: d <= 0, token.GTR: d > 0, token.GEQ: d >= 0}[op]
		}
		df := a.minus(b)
		switch left {
		case [3]bool{true, false, false}:
			return []nfact{{l: df.neg().plusK(-1)}}
		case [3]bool{true, true, false}:
			return []nfact{{l: df.neg()}}
		case [3]bool{false, true, false}:
			return []nfact{{l: df}, {l: df.neg()}}
		case [3]bool{false, true, true}:
			return []nfact{{l: df}}
		case [3]bool{false, false, true}:
			return []nfact{{l: df.plusK(-1)}}
		case [3]bool{true, false, true}:
			return []nfact{{l: df, ne: true}}
		}
	case "BitLen":
		a, ok := n.bigAt(c.Call.Args[0], pt, 0)
		if !ok || !l.k.IsInt64() {
			return nil
		}
		k := l.k.Int64()
		switch op {
		case token.LSS:
			k--
		case token.LEQ, token.EQL:
		default:
			return nil
		}
		if k < 0 || k > 4096 {
			return nil
		}
		m := nkb(new(big.Int).Sub(new(big.Int).Lsh(big1, uint(k)), big1))
		return []nfact{{l: m.minus(a)}, {l: m.plus(a)}}
	}
	return nil
}

// bigBool: what IsUint64 and IsInt64 tell.
func (n *num) bigBool(c *ssa.Call, taken bool) []nfact {
	m := bigMethod(c)
	if !taken || m != "IsUint64" && m != "IsInt64" {
		return nil
	}
	a, ok := n.bigAt(c.Call.Args[0], before(c), 0)
	if !ok {
		return nil
	}
	lo, hi, _ := intRange(types.Typ[map[string]types.BasicKind{"IsUint64": types.Uint64, "IsInt64": types.Int64}[m]])
	return []nfact{{l: a.minus(nkb(lo))}, {l: nkb(hi).minus(a)}}
}

// bigLow: Uint64 and Int64 give the content where it fits.
func (n *num) bigLow(c *ssa.Call) (nlin, bool) {
	m := bigMethod(c)
	if m != "Uint64" && m != "Int64" {
		return nlin{}, false
	}
	p := before(c)
	a, ok := n.bigAt(c.Call.Args[0], p, 0)
	if !ok {
		return nlin{}, false
	}
	lo, hi, _ := intRange(c.Type())
	if n.prove(a.minus(nkb(lo)), p) && n.prove(nkb(hi).minus(a), p) {
		return a, true
	}
	return nlin{}, false
}

func (n *num) bigIntrinsic(a string) []nfact {
	at := natom(a)
	out := []nfact{{l: at}}
	if b := n.bigs[a]; b != nil {
		if l := n.lenOf(b); l.isConst() && l.k.IsInt64() && l.k.Int64() <= 64 {
			m := new(big.Int).Sub(new(big.Int).Lsh(big1, uint(8*l.k.Int64())), big1)
			out = append(out, nfact{l: nkb(m).minus(at)})
		}
	}
	return out
}

var _ = strings.HasPrefix
