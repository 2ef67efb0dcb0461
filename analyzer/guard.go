package main

// Path literals: every branch passed on a path leaves canonical literals over
// terms, so that rules can ask what is known at a site, however the test was
// written (negated, nested, swapped, early return, helper, boolean variable).

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// literals of a condition being taken or not.
func (e *Engine) literals(st *State, fr *Frame, cond ssa.Value, taken bool) []string {
	r := e.res(st, VV{fr, cond})
	for {
		u, ok := r.v.(*ssa.UnOp)
		if !ok || u.Op != token.NOT {
			break
		}
		r = e.res(st, VV{r.fr, u.X})
		taken = !taken
	}
	switch v := r.v.(type) {
	case *ssa.BinOp:
		return e.relLits(st, r.fr, v, taken)
	case *ssa.Const:
		return nil
	}
	return []string{boolLit(e.predTerm(st, r), taken)}
}

func boolLit(t string, v bool) string {
	if v {
		return "T|" + t
	}
	return "F|" + t
}

// predTerm names a boolean value, with the arguments of symmetric predicates
// in order.
func (e *Engine) predTerm(st *State, x VV) string {
	x = e.res(st, x)
	if c, ok := x.v.(*ssa.Call); ok {
		if f := staticCallee(c); f != nil && f.Name() == "Equal" && f.Pkg != nil && f.Pkg.Pkg.Path() == "bytes" {
			return symTerm("eq", e.contentTerm(st, VV{x.fr, c.Call.Args[0]}), e.contentTerm(st, VV{x.fr, c.Call.Args[1]}))
		}
	}
	return e.desc(st, x)
}

// contentTerm drops full slices and copies: the same bytes.
func (e *Engine) contentTerm(st *State, x VV) string {
	x = e.res(st, x)
	if s, ok := x.v.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
		return e.contentTerm(st, VV{x.fr, s.X})
	}
	return e.desc(st, x)
}

func symTerm(op, a, b string) string {
	if b < a {
		a, b = b, a
	}
	return op + "(" + a + "," + b + ")"
}

func negRel(op token.Token) token.Token {
	return map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
}

func (e *Engine) relLits(st *State, fr *Frame, b *ssa.BinOp, taken bool) []string {
	op := b.Op
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.GEQ, token.GTR, token.LEQ:
	default:
		return []string{boolLit(e.desc(st, VV{fr, b}), taken)}
	}
	if !taken {
		op = negRel(op)
	}
	x, y := VV{fr, b.X}, VV{fr, b.Y}
	rx, ry := e.res(st, x), e.res(st, y)
	if op == token.EQL || op == token.NEQ {
		for _, p := range [][2]VV{{rx, ry}, {ry, rx}} {
			if k, ok := p[1].v.(*ssa.Const); ok && k.Value == nil && isNillable(k.Type()) {
				t := e.desc(st, p[0])
				if op == token.EQL {
					return []string{"nil|" + t}
				}
				return []string{"some|" + t}
			}
			if k, ok := constBool(p[1].v); ok {
				return e.literals(st, p[0].fr, p[0].v, k == (op == token.EQL))
			}
		}
	}
	if isIntish(b.X.Type()) {
		// comparison results
		for _, p := range [][2]VV{{rx, ry}, {ry, rx}} {
			c, ok := p[0].v.(*ssa.Call)
			if !ok {
				continue
			}
			k, isK := constInt(p[1].v)
			f := staticCallee(c)
			if !isK || k != 0 || f == nil || (op != token.EQL && op != token.NEQ) {
				continue
			}
			a := c.Call.Args
			switch {
			case f.Name() == "Compare" && f.Pkg != nil && f.Pkg.Pkg.Path() == "bytes":
				return []string{boolLit(symTerm("eq", e.contentTerm(st, VV{p[0].fr, a[0]}), e.contentTerm(st, VV{p[0].fr, a[1]})), op == token.EQL)}
			case f.Name() == "Cmp" && len(a) == 2:
				return []string{boolLit(symTerm("eq", e.desc(st, VV{p[0].fr, a[0]}), e.desc(st, VV{p[0].fr, a[1]})), op == token.EQL)}
			}
		}
		d := e.linOf(st, x).plus(e.linOf(st, y), -1)
		one := newLin(1)
		switch op {
		case token.EQL:
			return []string{"eq|" + d.norm()}
		case token.NEQ:
			return []string{"ne|" + d.norm()}
		case token.GEQ:
			return []string{"ge|" + d.String()}
		case token.LEQ:
			return []string{"ge|" + d.neg().String()}
		case token.GTR:
			return []string{"ge|" + d.plus(one, -1).String()}
		default:
			return []string{"ge|" + d.neg().plus(one, -1).String()}
		}
	}
	switch op {
	case token.EQL, token.NEQ:
		return []string{boolLit(symTerm("eq", e.contentTerm(st, x), e.contentTerm(st, y)), op == token.EQL)}
	case token.GTR, token.LSS, token.GEQ, token.LEQ:
		// a<b as T|lt(a,b)
		a, bb := e.desc(st, x), e.desc(st, y)
		switch op {
		case token.LSS:
			return []string{"T|lt(" + a + "," + bb + ")"}
		case token.GTR:
			return []string{"T|lt(" + bb + "," + a + ")"}
		case token.GEQ:
			return []string{"F|lt(" + a + "," + bb + ")"}
		default:
			return []string{"F|lt(" + bb + "," + a + ")"}
		}
	}
	return nil
}

// withLits adds the literals of a branch that keep lets through.
func (e *Engine) withLits(st *State, fr *Frame, cond ssa.Value, taken bool, keep func(string) bool) *State {
	for _, l := range e.literals(st, fr, cond, taken) {
		l = strings.ReplaceAll(l, ";", ",")
		if keep == nil || keep(l) {
			if x := contrary(l); hasTag(st.C, x) {
				if stable(l) || e.stableLit(l) {
					return nil
				}
				st = st.withC(delTag(st.C, func(w string) bool { return w == x }))
			}
			st = st.tag(l)
		}
	}
	return st
}

// stable: a literal over parameters, constants and pure operations, which keeps
// its truth along the path.
func stable(l string) bool {
	for _, s := range []string{"phi:", "cell:", "!", "*", ".", "key(", "val(", "fv:", "g:"} {
		if strings.Contains(l, s) {
			return false
		}
	}
	return true
}

// contrary literal of a decided one ("" if none).
func contrary(l string) string {
	switch {
	case strings.HasPrefix(l, "T|"):
		return "F|" + l[2:]
	case strings.HasPrefix(l, "F|"):
		return "T|" + l[2:]
	case strings.HasPrefix(l, "nil|"):
		return "some|" + l[4:]
	case strings.HasPrefix(l, "some|"):
		return "nil|" + l[5:]
	case strings.HasPrefix(l, "eq|"):
		return "ne|" + l[3:]
	case strings.HasPrefix(l, "ne|"):
		return "eq|" + l[3:]
	}
	return "\x00"
}

// whenTrue gives the literals that hold if the boolean value is true; poss is
// false if it cannot be.
func (e *Engine) whenBool(st *State, x VV, want bool) (n *State, poss bool) {
	f := e.Fact(st, x)
	if f.k == 'T' {
		return st, want
	}
	if f.k == 'F' {
		return st, !want
	}
	r := e.res(st, x)
	if k, ok := constBool(r.v); ok {
		return st, k == want
	}
	n = e.withLits(st, r.fr, r.v, want, nil)
	if n == nil {
		return st, false
	}
	return n, true
}

// lits lists the path's literals matching all substrings.
func litsWith(c string, subs ...string) (out []string) {
next:
	for _, w := range strings.Split(c, ";") {
		for _, s := range subs {
			if !strings.Contains(w, s) {
				continue next
			}
		}
		out = append(out, w)
	}
	sort.Strings(out)
	return
}

// okLit: a call's error result is known to be nil on this path ("nil|xI(call)").
func (e *Engine) errOK(st *State, call VV) bool {
	c, ok := call.v.(*ssa.Call)
	if !ok {
		return false
	}
	i := errIdx(c.Call.Signature())
	if i < 0 {
		return false
	}
	t := e.desc(st, call)
	if c.Call.Signature().Results().Len() > 1 {
		t = "x" + itoa(int64(i)) + "(" + t + ")"
	}
	return hasTag(st.C, "nil|"+strings.ReplaceAll(t, ";", ","))
}

var _ = types.Typ

func (e *Engine) stableLit(l string) bool {
	a, ok := e.cl.(*auto)
	return ok && a.stable != nil && a.stable(l)
}

func (e *Engine) aliasInts() bool {
	a, ok := e.cl.(*auto)
	return ok && a.aliasInts
}
