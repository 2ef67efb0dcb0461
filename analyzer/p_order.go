package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Comparators: Compare, Cmp, Diff, Less, Equal and the functions given to
// sort, decided over all order relations of their operands.

type orderChk struct {
	c       *Ctx
	undec   []string
	decided int
}

func (k *orderChk) eval() *oEval { return &oEval{p: k.c.p} }

func (k *orderChk) run(fn *ssa.Function, rule string, f func(e *oEval, bad func(s *oState, format string, a ...any))) {
	e := k.eval()
	n := 0
	type msg struct {
		f string
		a []any
	}
	var msgs []msg
	why := e.try(func() {
		f(e, func(s *oState, format string, a ...any) {
			n++
			if len(msgs) < 2 {
				msgs = append(msgs, msg{format + " [" + strings.ReplaceAll(s.describe(), "%", "%%") + "]", a})
			}
		})
	})
	if why != "" {
		k.undec = append(k.undec, fname(fn)+" ("+why+")")
		return
	}
	k.decided++
	k.c.ob(rule, fname(fn))
	if n > 0 {
		k.c.fail(rule, fname(fn), k.c.p.pos(fn.Pos()), msgs[0].f, msgs[0].a...)
	}
}

func sgn(n int64) int64 {
	switch {
	case n < 0:
		return -1
	case n > 0:
		return 1
	}
	return 0
}

func (e *oEval) intRes(o oOut, i int) int64 {
	if i >= len(o.res) {
		e.giveUp("no result")
	}
	n, ok := o.res[i].int()
	if !ok {
		e.giveUp("result %s", o.res[i])
	}
	return n
}

func (e *oEval) boolRes(o oOut, i int) []oAlt {
	if i >= len(o.res) {
		e.giveUp("no result")
	}
	if b, ok := o.res[i].bool(); ok {
		r := 0
		if b {
			r = 1
		}
		return []oAlt{{o.s, r}}
	}
	var out []oAlt
	for _, a := range o.s.split(o.res[i], oBool(true)) {
		r := 0
		if a.r == oEQ {
			r = 1
		}
		out = append(out, oAlt{a.s, r})
	}
	return out
}

// isNilMethod finds T.IsNil, the notion of a nil value of a numeric type.
func (k *orderChk) isNilMethod(t types.Type) *ssa.Function {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	for _, m := range k.c.p.methodsOf(n) {
		if m.Name() == "IsNil" && len(m.Params) == 1 && types.Identical(m.Params[0].Type(), t) {
			return m
		}
	}
	return nil
}

type oVal struct {
	s   *oState
	nil bool
	ptr bool // the pointer itself is nil
	v   *oT
}

// nilness splits on whether x counts as nil: a nil pointer or the nil value of
// its type.
func (k *orderChk) nilness(e *oEval, s *oState, x *oT) []oVal {
	if pt, ok := x.t.Underlying().(*types.Pointer); ok {
		var out []oVal
		for _, a := range s.split(x, oNil(x.t)) {
			if a.r == oEQ {
				out = append(out, oVal{a.s, true, true, x})
				continue
			}
			out = append(out, k.nilness(e, a.s, mk("deref", "", pt.Elem(), x))...)
		}
		return out
	}
	if m := k.isNilMethod(x.t); m != nil {
		if b, ok := typeBasic(x.t); ok && b.Info()&types.IsInteger != 0 {
			var out []oVal
			for _, o := range e.call(m, []*oT{x}, s, 0) {
				if o.panic {
					continue
				}
				for _, a := range e.boolRes(o, 0) {
					out = append(out, oVal{a.s, a.r == 1, false, x})
				}
			}
			return out
		}
	}
	return []oVal{{s, false, false, x}}
}

// wantOrder: the expected sign of Compare(a, b) as alternatives, or ok=false
// for types without a natural order (structs).
func (k *orderChk) wantOrder(e *oEval, s *oState, a, b *oT) ([]oAlt, bool) {
	t := a.t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	if _, ok := t.Underlying().(*types.Struct); ok && !isBigInt(t) && !isBigRat(t) {
		return nil, false
	}
	sign := func(r int) int {
		switch r {
		case oLT:
			return -1
		case oEQ:
			return 0
		}
		return 1
	}
	var out []oAlt
	for _, x := range k.nilness(e, s, a) {
		for _, y := range k.nilness(e, x.s, b) {
			switch {
			case x.ptr && y.ptr || x.nil && y.nil && !x.ptr && !y.ptr:
				out = append(out, oAlt{y.s, 0})
			case x.ptr:
				out = append(out, oAlt{y.s, -1})
			case y.ptr:
				out = append(out, oAlt{y.s, 1})
			case x.nil:
				out = append(out, oAlt{y.s, -1})
			case y.nil:
				out = append(out, oAlt{y.s, 1})
			default:
				u, v := x.v, y.v
				if isBigInt(t) || isBigRat(t) {
					u, v = e.bigTerm(u), e.bigTerm(v)
				}
				for _, z := range y.s.split(u, v) {
					out = append(out, oAlt{z.s, sign(z.r)})
				}
			}
		}
	}
	return out, true
}

var orderDocs = map[int]string{-1: "smaller", 0: "equal", 1: "larger"}

func (k *orderChk) compare(fn *ssa.Function, ta, tb types.Type, nilIsZero bool) {
	k.run(fn, "compare", func(e *oEval, bad func(*oState, string, ...any)) {
		a, b, c := mk("param", "a", ta), mk("param", "b", tb), mk("param", "c", tb)
		for _, o := range e.call(fn, []*oT{a, b}, newOState(), 0) {
			if o.panic {
				bad(o.s, "panics")
				continue
			}
			r := sgn(e.intRes(o, 0))
			if nilIsZero {
				for _, w := range k.zeroOrder(e, o.s, a, b) {
					if int64(w.r) != r {
						bad(w.s, "returns %d where the first operand is %s (nil counts as zero)", r, orderDocs[w.r])
					}
				}
				continue
			}
			if ws, ok := k.wantOrder(e, o.s, a, b); ok {
				for _, w := range ws {
					if int64(w.r) != r {
						bad(w.s, "returns %d where the first operand is %s", r, orderDocs[w.r])
					}
				}
				continue
			}
			// no natural order: a total preorder with equal values equal
			for _, q := range e.equal(o.s, a, b, ta) {
				if q.r == oEQ && r != 0 {
					bad(q.s, "returns %d for equal values", r)
				}
			}
			for _, p := range e.call(fn, []*oT{b, a}, o.s, 0) {
				if p.panic {
					continue
				}
				if q := sgn(e.intRes(p, 0)); q != -r {
					bad(p.s, "returns %d one way and %d the other way", r, q)
				}
			}
			if r > 0 {
				continue
			}
			for _, p := range e.call(fn, []*oT{b, c}, o.s, 0) {
				if p.panic {
					continue
				}
				q := sgn(e.intRes(p, 0))
				if q > 0 {
					continue
				}
				for _, z := range e.call(fn, []*oT{a, c}, p.s, 0) {
					if z.panic {
						continue
					}
					w := sgn(e.intRes(z, 0))
					if w > 0 || (w == 0) != (r == 0 && q == 0) {
						bad(z.s, "is not transitive: %d and %d but %d", r, q, w)
					}
				}
			}
		}
	})
}

// zeroOrder: order of big numbers where nil counts as zero.
func (k *orderChk) zeroOrder(e *oEval, s *oState, a, b *oT) []oAlt {
	zero := oConst(constant.MakeInt64(0), nil)
	val := func(s *oState, x *oT) []oVal {
		var out []oVal
		for _, q := range s.split(x, oNil(x.t)) {
			if q.r == oEQ {
				out = append(out, oVal{s: q.s, v: zero})
			} else {
				out = append(out, oVal{s: q.s, v: e.bigTerm(mk("deref", "", derefType(x.t), x))})
			}
		}
		return out
	}
	var out []oAlt
	for _, x := range val(s, a) {
		for _, y := range val(x.s, b) {
			for _, z := range y.s.split(x.v, y.v) {
				r := 1
				switch z.r {
				case oLT:
					r = -1
				case oEQ:
					r = 0
				}
				out = append(out, oAlt{z.s, r})
			}
		}
	}
	return out
}

func (k *orderChk) diff(fn *ssa.Function) {
	k.run(fn, "diff", func(e *oEval, bad func(*oState, string, ...any)) {
		t := fn.Params[0].Type()
		a, b := mk("param", "a", t), mk("param", "b", t)
		plus1 := func(x *oT) string { return mk("op", "+", nil, x, oInt(1)).String() }
		minus := func(x, y *oT) string { return mk("op", "-", nil, x, y).String() }
		for _, o := range e.call(fn, []*oT{a, b}, newOState(), 0) {
			if o.panic {
				bad(o.s, "panics")
				continue
			}
			r := sgn(e.intRes(o, 1))
			for _, x := range k.nilness(e, o.s, a) {
				for _, y := range k.nilness(e, x.s, b) {
					for _, z := range y.s.split(a, b) {
						want, wd := int64(0), "0"
						switch {
						case z.r == oEQ:
						case x.nil:
							want, wd = -1, plus1(b)
						case y.nil:
							want, wd = 1, plus1(a)
						case z.r == oLT:
							want, wd = -1, minus(b, a)
						default:
							want, wd = 1, minus(a, b)
						}
						if r != want {
							bad(z.s, "returns sign %d where the first operand is %s", r, orderDocs[int(want)])
						}
						if got := o.res[0].String(); got != wd {
							bad(z.s, "returns the difference %s, not %s", got, wd)
						}
					}
				}
			}
		}
	})
}

func (k *orderChk) equals(fn *ssa.Function) {
	k.run(fn, "equal", func(e *oEval, bad func(*oState, string, ...any)) {
		t := fn.Params[0].Type()
		a, b := mk("param", "a", t), mk("param", "b", t)
		for _, o := range e.call(fn, []*oT{a, b}, newOState(), 0) {
			if o.panic {
				bad(o.s, "panics")
				continue
			}
			for _, r := range e.boolRes(o, 0) {
				for _, q := range e.equal(r.s, a, b, t) {
					switch {
					case q.r == oEQ && r.r == 0:
						bad(q.s, "returns false for equal values")
					case q.r != oEQ && q.r != 0 && r.r == 1:
						bad(q.s, "returns true for different values")
					}
				}
			}
		}
	})
}

// equalsNil: equality in which everything that equals nil is one class.
func (k *orderChk) equalsNil(fn *ssa.Function) {
	k.run(fn, "equal", func(e *oEval, bad func(*oState, string, ...any)) {
		t := fn.Params[0].Type()
		a, b := mk("param", "a", t), mk("param", "b", t)
		nl := oNil(t)
		isNil := func(s *oState, x *oT) []oAlt {
			var out []oAlt
			for _, o := range e.call(fn, []*oT{x, nl}, s, 0) {
				if o.panic {
					bad(o.s, "panics on nil")
					continue
				}
				out = append(out, e.boolRes(o, 0)...)
			}
			return out
		}
		for _, o := range e.call(fn, []*oT{a, b}, newOState(), 0) {
			if o.panic {
				bad(o.s, "panics")
				continue
			}
			for _, r := range e.boolRes(o, 0) {
				for _, x := range isNil(r.s, a) {
					for _, y := range isNil(x.s, b) {
						switch {
						case x.r != y.r:
							if r.r == 1 {
								bad(y.s, "returns true for a nil and a proper hash")
							}
						case x.r == 1:
							if r.r == 0 {
								bad(y.s, "returns false for two nil hashes")
							}
							if !k.nilClass(e, y.s, a) {
								bad(y.s, "takes a proper hash for nil")
							}
						default:
							for _, q := range e.equal(y.s, a, b, t) {
								if (q.r == oEQ) != (r.r == 1) && q.r != 0 {
									bad(q.s, "returns %v for hashes that are %s", r.r == 1, map[bool]string{true: "equal", false: "different"}[q.r == oEQ])
								}
							}
						}
					}
				}
			}
		}
	})
}

// nilClass: x is nil, empty or a known constant of the package.
func (k *orderChk) nilClass(e *oEval, s *oState, x *oT) bool {
	if s.rel(x, oNil(x.t)) == oEQ {
		return true
	}
	var content *oT
	if _, ok := x.t.Underlying().(*types.Slice); ok {
		if s.rel(e.lenOf(x), oInt(0)) == oEQ {
			return true
		}
		content = e.sliceContent(s, x)
	} else {
		content = mk("deref", "", derefType(x.t), x)
	}
	for _, f := range s.facts {
		for _, t := range []*oT{f.x, f.y} {
			if strings.Contains(t.String(), "global:") && s.rel(content, t) == oEQ {
				return true
			}
		}
	}
	return false
}

func (k *orderChk) sliceEqual(fn *ssa.Function) {
	k.run(fn, "equal", func(e *oEval, bad func(*oState, string, ...any)) {
		a, b := mk("param", "a", fn.Params[0].Type()), mk("param", "b", fn.Params[1].Type())
		for _, o := range e.call(fn, []*oT{a, b}, newOState(), 0) {
			if o.panic {
				bad(o.s, "panics")
				continue
			}
			for _, r := range e.boolRes(o, 0) {
				for _, n := range r.s.split(a, oNil(a.t)) {
					if n.r == oEQ {
						for _, q := range n.s.split(e.lenOf(b), oInt(0)) {
							if (q.r == oEQ) != (r.r == 1) {
								bad(q.s, "returns %v for nil and a slice whose length is%s zero", r.r == 1, map[bool]string{true: "", false: " not"}[q.r == oEQ])
							}
						}
						continue
					}
					for _, q := range n.s.split(mk("deref", "", derefType(a.t), a), e.sliceContent(n.s, b)) {
						if (q.r == oEQ) != (r.r == 1) {
							bad(q.s, "returns %v where the bytes are%s the same", r.r == 1, map[bool]string{true: "", false: " not"}[q.r == oEQ])
						}
					}
				}
			}
		}
	})
}

// less checks a strict weak order given by args(x, y).
func (k *orderChk) less(fn *ssa.Function, rule string, recv []*oT, asc bool, natural func(e *oEval, s *oState, i, j *oT) (x, y *oT, ok bool)) {
	k.run(fn, rule, func(e *oEval, bad func(*oState, string, ...any)) {
		np := len(fn.Params)
		t := fn.Params[np-1].Type()
		i, j, l := mk("param", "i", t), mk("param", "j", t), mk("param", "k", t)
		type res struct {
			s *oState
			b bool
		}
		call := func(s *oState, x, y *oT) []res {
			var out []res
			for _, o := range e.call(fn, append(append([]*oT{}, recv...), x, y), s, 0) {
				if o.panic {
					continue
				}
				for _, r := range e.boolRes(o, 0) {
					out = append(out, res{r.s, r.r == 1})
				}
			}
			return out
		}
		any := false
		for _, r := range call(newOState(), i, i) {
			any = true
			if r.b {
				bad(r.s, "says that a value is less than itself")
			}
		}
		if !any {
			e.giveUp("no results")
		}
		for _, r := range call(newOState(), i, j) {
			if natural != nil && asc {
				if x, y, ok := natural(e, r.s, i, j); ok {
					ws, _ := k.wantOrder(e, r.s, x, y)
					for _, z := range ws {
						if (z.r < 0) != r.b {
							bad(z.s, "returns %v where the first value is %s", r.b, orderDocs[z.r])
						}
					}
				}
			}
			for _, q := range call(r.s, j, i) {
				if r.b && q.b {
					bad(q.s, "says a < b and b < a")
				}
				if r.b {
					for _, u := range call(q.s, j, l) {
						if !u.b {
							continue
						}
						for _, w := range call(u.s, i, l) {
							if !w.b {
								bad(w.s, "is not transitive")
							}
						}
					}
					continue
				}
				if q.b {
					continue
				}
				for _, u := range call(q.s, j, l) {
					if u.b {
						for _, w := range call(u.s, i, l) {
							if !w.b {
								bad(w.s, "treats a and b as equal, b < c but not a < c")
							}
						}
						continue
					}
					for _, v := range call(u.s, l, j) {
						if v.b {
							continue
						}
						for _, w := range call(v.s, i, l) {
							if w.b {
								bad(w.s, "treats a and b, b and c as equal, but a < c")
							}
						}
					}
				}
			}
		}
	})
}

// elemNatural: the natural order of the elements of a slice that are plain
// values or pointers to plain values.
func elemNatural(sl func(e *oEval, s *oState) *oT) func(e *oEval, s *oState, i, j *oT) (x, y *oT, ok bool) {
	return func(e *oEval, s *oState, i, j *oT) (*oT, *oT, bool) {
		b := sl(e, s)
		if b == nil {
			return nil, nil, false
		}
		et := elemType(b.t)
		if et == nil {
			return nil, nil, false
		}
		x, y := mk("idx", "", et, b, i), mk("idx", "", et, b, j)
		if isByteSlice(et) {
			return e.sliceContent(s, x), e.sliceContent(s, y), true
		}
		if pt, ok := et.Underlying().(*types.Pointer); ok {
			et = pt.Elem()
			x, y = mk("deref", "", et, x), mk("deref", "", et, y)
		}
		switch et.Underlying().(type) {
		case *types.Array, *types.Basic:
			return x, y, true
		}
		return nil, nil, false
	}
}

func cmpCheck(c *Ctx) {
	k := &orderChk{c: c}
	for _, f := range c.p.funcsIn(allPkgs...) {
		if f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		sig := f.Signature
		n := f.Name()
		np := len(f.Params)
		same := np == 2 && types.Identical(f.Params[0].Type(), f.Params[1].Type())
		res := func(i int, info types.BasicInfo) bool {
			if sig.Results().Len() <= i {
				return false
			}
			b, ok := typeBasic(sig.Results().At(i).Type())
			return ok && b.Info()&info != 0
		}
		switch {
		case same && (n == "Cmp" || strings.HasPrefix(n, "Compare")) && sig.Results().Len() == 1 && res(0, types.IsInteger):
			pt, isP := f.Params[0].Type().Underlying().(*types.Pointer)
			zero := isP && isBigInt(pt.Elem()) && sig.Recv() != nil
			if _, isI := f.Params[0].Type().Underlying().(*types.Interface); isI {
				continue
			}
			k.compare(f, f.Params[0].Type(), f.Params[1].Type(), zero)
		case np == 2 && n == "CompareInt" && sig.Recv() != nil && res(0, types.IsInteger):
			k.compare(f, f.Params[0].Type(), f.Params[1].Type(), true)
		case same && n == "Diff" && sig.Results().Len() == 2 && res(1, types.IsInteger):
			k.diff(f)
		case same && sig.Results().Len() == 1 && res(0, types.IsBoolean) && sig.Recv() == nil && (n == "HashEquals" || n == "HashSliceEquals"):
			k.equalsNil(f)
		case same && sig.Results().Len() == 1 && res(0, types.IsBoolean) && (strings.HasSuffix(n, "Equal") || strings.HasSuffix(n, "Equals")):
			if isByteSlice(f.Params[0].Type()) && sig.Recv() == nil {
				continue
			}
			k.equals(f)
		case np == 2 && n == "SliceEqual" && sig.Recv() != nil && res(0, types.IsBoolean) && isByteSlice(f.Params[1].Type()):
			k.sliceEqual(f)
		case np == 3 && n == "Less" && sig.Recv() != nil && res(0, types.IsBoolean):
			rv := mk("param", "s", f.Params[0].Type())
			k.less(f, "less", []*oT{rv}, true, elemNatural(func(e *oEval, s *oState) *oT {
				if elemType(rv.t) != nil {
					return rv
				}
				return nil
			}))
		case same && sig.Recv() == nil && strings.HasSuffix(n, "Less") && res(0, types.IsBoolean):
			k.less(f, "less", nil, true, func(e *oEval, s *oState, i, j *oT) (*oT, *oT, bool) {
				_, isA := i.t.Underlying().(*types.Array)
				return i, j, isA
			})
		}
	}
	// the functions given to sort
	for _, f := range c.p.funcsIn(allPkgs...) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				cl, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				pk, n := calleePkgName(cl)
				if pk != "sort" || n != "Slice" && n != "SliceStable" || len(cl.Call.Args) != 2 {
					continue
				}
				var g *ssa.Function
				switch x := cl.Call.Args[1].(type) {
				case *ssa.MakeClosure:
					g, _ = x.Fn.(*ssa.Function)
				case *ssa.Function:
					g = x
				}
				if g == nil || len(g.Params) != 2 {
					continue
				}
				k.less(g, "sort-order", nil, false, nil)
			}
		}
	}
	if len(k.undec) > 0 {
		c.note("not decided: %s", strings.Join(k.undec, "; "))
	}
	c.min("compare", 6)
	c.min("equal", 9)
	c.min("less", 4)
}

func init() {
	register("G09", "abstract interpretation of every comparator over the finite order relations of its operands (nil or not, <, =, > of each compared component, nil constants as their own cell; loops over elements summarised by one generic iteration): Compare and Cmp give the natural order with nil smallest, Diff gives its sign and the distance, Equal is equality of the contents component by component, Less and the functions given to sort are strict weak orders", "functions outside the evaluator's fragment are listed in the notes", cmpCheck)
}
