package main

// Linear integer terms over path terms: sums are compared regardless of how
// they are written, slices of slices are reduced to the underlying sequence.

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type lin struct {
	k  int64
	at map[string]int64
}

func newLin(k int64) lin { return lin{k: k, at: map[string]int64{}} }

func (a lin) plus(b lin, f int64) lin {
	r := newLin(a.k + f*b.k)
	for x, c := range a.at {
		r.at[x] += c
	}
	for x, c := range b.at {
		r.at[x] += f * c
	}
	for x, c := range r.at {
		if c == 0 {
			delete(r.at, x)
		}
	}
	return r
}

func (a lin) String() string {
	var ks []string
	for x := range a.at {
		ks = append(ks, x)
	}
	sort.Strings(ks)
	var sb strings.Builder
	for _, x := range ks {
		sb.WriteString(strconv.FormatInt(a.at[x], 10) + "*" + x + "+")
	}
	sb.WriteString(strconv.FormatInt(a.k, 10))
	return sb.String()
}

func (a lin) neg() lin { return newLin(0).plus(a, -1) }

// norm gives the sign-independent form of a=0.
func (a lin) norm() string {
	s, t := a.String(), a.neg().String()
	if t < s {
		return t
	}
	return s
}

// linOf reads an integer value as a linear term.
func (e *Engine) linOf(st *State, x VV) lin { return e.linD(st, x, 0) }

func (e *Engine) linD(st *State, x VV, d int) lin {
	x = e.res(st, x)
	if d > 12 {
		l := newLin(0)
		l.at["?"+x.v.Name()] = 1
		return l
	}
	if k, ok := constInt(x.v); ok {
		return newLin(k)
	}
	switch v := x.v.(type) {
	case *ssa.BinOp:
		a, b := VV{x.fr, v.X}, VV{x.fr, v.Y}
		switch v.Op {
		case token.ADD:
			return e.linD(st, a, d+1).plus(e.linD(st, b, d+1), 1)
		case token.SUB:
			return e.linD(st, a, d+1).plus(e.linD(st, b, d+1), -1)
		case token.MUL:
			la, lb := e.linD(st, a, d+1), e.linD(st, b, d+1)
			if len(la.at) == 0 {
				return newLin(0).plus(lb, la.k)
			}
			if len(lb.at) == 0 {
				return newLin(0).plus(la, lb.k)
			}
		}
	case *ssa.Convert:
		if bt, ok := v.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
			if bt2, ok := v.Type().Underlying().(*types.Basic); ok && bt2.Info()&types.IsInteger != 0 {
				return e.linD(st, VV{x.fr, v.X}, d+1)
			}
		}
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			root, lo, hi := e.seqOf(st, VV{x.fr, v.Call.Args[0]})
			if hi != nil {
				return hi.plus(lo, -1)
			}
			l := newLin(0)
			l.at["len("+root+")"] = 1
			return l.plus(lo, -1)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			a := e.res(st, VV{x.fr, v.X})
			if ia, ok := a.v.(*ssa.IndexAddr); ok {
				l := newLin(0)
				l.at[e.elemOf(st, VV{a.fr, ia.X}, VV{a.fr, ia.Index})] = 1
				return l
			}
		}
	}
	l := newLin(0)
	l.at[e.desc(st, x)] = 1
	return l
}

// seqOf reduces a slice expression to root[lo:hi]; hi nil is the end.
func (e *Engine) seqOf(st *State, x VV) (root string, lo lin, hi *lin) {
	x = e.res(st, x)
	if s, ok := x.v.(*ssa.Slice); ok {
		if _, isPtr := s.X.Type().Underlying().(*types.Pointer); !isPtr {
			r, l0, h0 := e.seqOf(st, VV{x.fr, s.X})
			l := l0
			if s.Low != nil {
				l = l0.plus(e.linOf(st, VV{x.fr, s.Low}), 1)
			}
			h := h0
			if s.High != nil {
				hh := l0.plus(e.linOf(st, VV{x.fr, s.High}), 1)
				h = &hh
			}
			return r, l, h
		}
	}
	return e.desc(st, x), newLin(0), nil
}

// elemOf names element i of a sequence.
func (e *Engine) elemOf(st *State, seq, i VV) string {
	root, lo, _ := e.seqOf(st, seq)
	return root + "[" + lo.plus(e.linOf(st, i), 1).String() + "]"
}

// seqTerm renders a slice as root[lo:hi].
func (e *Engine) seqTerm(st *State, x VV) string {
	root, lo, hi := e.seqOf(st, x)
	h := ""
	if hi != nil {
		h = hi.String()
	}
	return root + "[" + lo.String() + ":" + h + "]"
}

// relTags records what a branch says about the difference of two integers:
// "eq|D" for D=0, "ge|D" for D>=0 (D in canonical form).
func (e *Engine) relTags(st *State, fr *Frame, b *ssa.BinOp, taken bool) *State {
	if !isIntish(b.X.Type()) {
		return st
	}
	d := e.linOf(st, VV{fr, b.X}).plus(e.linOf(st, VV{fr, b.Y}), -1) // X-Y
	op := b.Op
	if !taken {
		op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
	}
	one := newLin(1)
	switch op {
	case token.EQL:
		return st.tag("eq|" + d.norm())
	case token.GEQ:
		return st.tag("ge|" + d.String())
	case token.LEQ:
		return st.tag("ge|" + d.neg().String())
	case token.GTR:
		return st.tag("ge|" + d.plus(one, -1).String())
	case token.LSS:
		return st.tag("ge|" + d.neg().plus(one, -1).String())
	}
	return st
}

// isZero: the recorded relations say D=0.
func isZero(st *State, d lin) bool {
	if len(d.at) == 0 && d.k == 0 {
		return true
	}
	if hasTag(st.C, "eq|"+d.norm()) {
		return true
	}
	return isGE(st, d) && isGE(st, d.neg())
}

// isGE: the recorded relations say D>=0 (single facts, sums of lengths).
func isGE(st *State, d lin) bool {
	if hasTag(st.C, "ge|"+d.String()) || hasTag(st.C, "eq|"+d.norm()) {
		return true
	}
	nonneg := d.k >= 0
	for x, c := range d.at {
		if !strings.HasPrefix(x, "len(") || c < 0 {
			nonneg = false
		}
	}
	return nonneg
}
