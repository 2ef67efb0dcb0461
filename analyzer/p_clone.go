package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Copies: a Clone or Copy has all of the content of its source and shares no
// memory with it.

// flat: values of the type hold no references.
func flat(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Array:
		return flat(u.Elem())
	case *types.Struct:
		if isBigInt(t) || isBigRat(t) {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if !flat(u.Field(i).Type()) && !skipField(u.Field(i)) {
				return false
			}
		}
		return true
	}
	return false
}

// copied checks that r is a complete, separate copy of x and reports what is not.
func (e *oEval) copied(s *oState, x, r *oT, t types.Type, what string, bad func(s *oState, format string, a ...any)) {
	if r.op == "iface" {
		r = r.a[0]
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		for _, a := range s.split(x, oNil(t)) {
			if a.r == oEQ {
				if a.s.rel(r, oNil(t)) != oEQ {
					bad(a.s, "%s: the copy of nil is not nil", what)
				}
				continue
			}
			if r.isNil() {
				bad(a.s, "%s: the copy of a value is nil", what)
				continue
			}
			if a.s.rel(r, x) == oEQ {
				bad(a.s, "%s: the copy is the same pointer", what)
				continue
			}
			if r.op != "alloc" {
				e.giveUp("copy %s", r)
			}
			e.copied(a.s, e.content(a.s, x, u.Elem()), e.load(a.s, r), u.Elem(), what, bad)
		}
	case *types.Slice:
		for _, a := range s.split(x, oNil(t)) {
			if a.r == oEQ {
				if a.s.rel(r, oNil(t)) != oEQ && a.s.rel(e.lenOf(r), oInt(0)) != oEQ {
					bad(a.s, "%s: the copy of nil has elements", what)
				}
				continue
			}
			if r.isNil() {
				if a.s.rel(e.lenOf(x), oInt(0)) != oEQ {
					bad(a.s, "%s: the copy of a list is nil", what)
				}
				continue
			}
			if a.s.rel(r, x) == oEQ {
				bad(a.s, "%s: the copy shares the elements", what)
				continue
			}
			if r.op == "slice" && a.s.rel(r.a[0], x) == oEQ {
				bad(a.s, "%s: the copy shares the elements", what)
				continue
			}
			if r.op != "mkslice" {
				e.giveUp("copy %s", r)
			}
			if a.s.rel(e.lenOf(r), e.lenOf(x)) != oEQ {
				bad(a.s, "%s: the copy may have another length (%s)", what, e.lenOf(r))
				continue
			}
			q := a.s.heap[r.k]
			if q == nil {
				e.giveUp("copy %s", r)
			}
			switch q.op {
			case "copyof":
				src := q.a[0]
				if a.s.rel(src, x) != oEQ && !(src.op == "sl" && sameTerm(src, x)) {
					bad(a.s, "%s: the copy has the elements of %s", what, src)
				} else if !flat(u.Elem()) {
					bad(a.s, "%s: the elements of the copy share memory with the source", what)
				}
			case "lambda":
				it := q.a[0]
				el := mk("idx", "", u.Elem(), x, it)
				if q.a[1].op == "choice" {
					for _, v := range q.a[1].alt {
						e.copied(v.s, el, v.v, u.Elem(), what+" element", bad)
					}
				} else {
					e.copied(a.s, el, q.a[1], u.Elem(), what+" element", bad)
				}
			case "zeros":
				if a.s.rel(e.lenOf(x), oInt(0)) != oEQ {
					bad(a.s, "%s: the elements are not copied", what)
				}
			default:
				bad(a.s, "%s: not all elements are copied", what)
			}
		}
	case *types.Struct:
		if isBigInt(t) || isBigRat(t) {
			if s.rel(e.bigTerm(x), e.bigTerm(r)) != oEQ {
				bad(s, "%s: the copy has another value (%s)", what, r)
			}
			if r.op != "bigset" && r.op != "zero" {
				// copied by assignment: the digits are shared
				bad(s, "%s: the copy shares the digits of the number", what)
			}
			return
		}
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			if skipField(f) {
				continue
			}
			if _, isF := f.Type().Underlying().(*types.Signature); isF {
				continue
			}
			e.copied(s, e.field(x, i, f.Type()), e.field(r, i, f.Type()), f.Type(), what+" "+f.Name(), bad)
		}
	case *types.Interface:
		if s.rel(x, r) != oEQ {
			e.giveUp("copy %s", r)
		}
	case *types.Map, *types.Chan:
		if s.rel(x, r) == oEQ {
			for _, a := range s.split(x, oNil(t)) {
				if a.r != oEQ {
					bad(a.s, "%s: the copy shares the %s", what, strings.Split(fmt.Sprint(u), "[")[0])
				}
			}
			return
		}
		e.giveUp("copy %s", r)
	case *types.Array:
		if !flat(t) {
			e.giveUp("copy %s", r)
		}
		if s.rel(x, r) != oEQ {
			bad(s, "%s: the copy has the value %s", what, r)
		}
	default:
		if s.rel(x, r) != oEQ {
			bad(s, "%s: the copy has the value %s", what, r)
		}
	}
}

func sameTerm(a, b *oT) bool { return a.String() == b.String() }

func cloneCheck(c *Ctx) {
	k := &orderChk{c: c}
	for _, f := range c.p.funcsIn(allPkgs...) {
		if f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 || len(f.Params) != 1 {
			continue
		}
		n := f.Name()
		sig := f.Signature
		if sig.Results().Len() != 1 {
			continue
		}
		pt, rt := f.Params[0].Type(), sig.Results().At(0).Type()
		m := n == "Clone" || n == "Copy" && sig.Recv() != nil || n == "New" && sig.Recv() != nil || sig.Recv() == nil && (strings.HasPrefix(n, "Copy") || n == "NewBigInt")
		if !m {
			continue
		}
		rp, isP := rt.Underlying().(*types.Pointer)
		_, isI := rt.Underlying().(*types.Interface)
		ptp, isPP := pt.Underlying().(*types.Pointer)
		same := types.Identical(pt, rt) || isI || isP && isPP && isBigInt(rp.Elem()) && isBigInt(ptp.Elem())
		toPtr := isP && types.Identical(rp.Elem(), pt)
		if !same && !toPtr {
			continue
		}
		if n == "Clone" && c.p.inPkg(f, "db") {
			continue // adapters share their database (S04)
		}
		if nt := namedOf(pt); nt != nil && c.p.inPkg(f, "trie") {
			if st, ok := nt.Underlying().(*types.Struct); ok && hasLock(st) {
				continue // trees (T properties)
			}
		}
		k.run(f, "copy", func(e *oEval, bad func(*oState, string, ...any)) {
			a := mk("param", "a", pt)
			for _, o := range e.call(f, []*oT{a}, newOState(), 0) {
				if o.panic {
					if isPP && o.s.rel(a, oNil(pt)) == oEQ && !flat(ptp.Elem()) {
						bad(o.s, "panics on nil")
					}
					continue
				}
				r := o.res[0]
				if toPtr {
					if r.op != "alloc" {
						e.giveUp("copy %s", r)
					}
					e.copied(o.s, a, e.load(o.s, r), pt, "value", bad)
					continue
				}
				e.copied(o.s, a, r, pt, "value", bad)
			}
		})
	}
	k.optional()
	k.versioned()
	if len(k.undec) > 0 {
		c.note("not decided: %s", strings.Join(k.undec, "; "))
	}
	c.min("copy", 12)
	c.min("rlp-optional", 1)
	c.min("versioned-hash", 1)
}

func hasLock(st *types.Struct) bool {
	for i := 0; i < st.NumFields(); i++ {
		if skipField(st.Field(i)) {
			return true
		}
	}
	return false
}

// optional: ForRLP and FromRLP are inverse for optional pointers.
func (k *orderChk) optional() {
	for _, f := range k.c.p.funcsIn(allPkgs...) {
		if f.Name() != "ForRLP" || f.Signature.Recv() == nil || len(f.Params) != 1 || f.Signature.Results().Len() != 1 || !types.Identical(f.Params[0].Type(), f.Signature.Results().At(0).Type()) {
			continue
		}
		t := f.Params[0].Type()
		pt, ok := t.Underlying().(*types.Pointer)
		n := namedOf(t)
		if !ok || n == nil {
			continue
		}
		var g *ssa.Function
		for _, m := range k.c.p.methodsOf(n) {
			if m.Name() == "FromRLP" {
				g = m
			}
		}
		if g == nil {
			continue
		}
		k.run(f, "rlp-optional", func(e *oEval, bad func(*oState, string, ...any)) {
			a := mk("param", "a", t)
			for _, o := range e.call(f, []*oT{a}, newOState(), 0) {
				if o.panic {
					bad(o.s, "panics")
					continue
				}
				r := o.res[0]
				if r.String() == a.String() {
					bad(o.s, "the RLP form is the value itself, not a copy")
				}
				for _, z := range o.s.split(r, oNil(t)) {
					if z.r == oEQ {
						bad(z.s, "the RLP form of an optional value is nil")
					}
				}
				for _, b := range e.call(g, []*oT{r}, o.s, 0) {
					if b.panic {
						bad(b.s, "FromRLP panics")
						continue
					}
					for _, z := range b.s.split(a, oNil(t)) {
						w := b.res[0]
						if z.r == oEQ {
							if z.s.rel(w, oNil(t)) != oEQ {
								bad(z.s, "nil does not come back as nil")
							}
							continue
						}
						if w.isNil() {
							// only the empty value is taken for nil
							empty := false
							for _, fa := range z.s.facts {
								for _, q := range []*oT{fa.x, fa.y} {
									if strings.HasPrefix(q.String(), "global:Empty") && z.s.rel(e.content(z.s, a, pt.Elem()), q) == oEQ {
										empty = true
									}
								}
							}
							if !empty {
								bad(z.s, "a value comes back as nil")
							}
							continue
						}
						e.copied(z.s, a, w, t, "value", bad)
					}
				}
			}
			for _, o := range e.call(g, []*oT{a}, newOState(), 0) {
				if !o.panic && o.res[0].String() == a.String() && o.s.rel(a, oNil(t)) != oEQ {
					bad(o.s, "FromRLP returns the decoded value itself, not a copy")
				}
			}
		})
	}
}

// versioned: the hash of an old version is taken from a struct with the same
// fields as the object.
func (k *orderChk) versioned() {
	for _, f := range k.c.p.funcsIn("") {
		if f.Name() != "HashValue" || f.Signature.Recv() == nil || len(f.Params) != 1 {
			continue
		}
		t := f.Params[0].Type()
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		st, ok := pt.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		// does it hash another struct?
		other := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if al, ok := in.(*ssa.Alloc); ok {
					if _, ok := derefType(al.Type()).Underlying().(*types.Struct); ok && !types.Identical(derefType(al.Type()), pt.Elem()) {
						other = true
					}
				}
			}
		}
		if !other {
			continue
		}
		k.run(f, "versioned-hash", func(e *oEval, bad func(*oState, string, ...any)) {
			a := mk("param", "a", t)
			n := 0
			hook := func(e *oEval, s *oState, args []*oT) []oOut {
				v := args[0]
				if v.op == "iface" {
					v = v.a[0]
				}
				n++
				switch {
				case s.rel(v, a) == oEQ:
				case v.op == "alloc":
					q := e.load(s, v)
					qs, ok := structUnder(q.t)
					if !ok || q.op != "struct" {
						e.giveUp("hashed value %s", q)
					}
					for i := 0; i < qs.NumFields(); i++ {
						j := stFieldIndex(st, qs.Field(i).Name())
						if j < 0 {
							bad(s, "the old version has a field %s the object does not have", qs.Field(i).Name())
							continue
						}
						want := e.field(mk("deref", "", pt.Elem(), a), j, st.Field(j).Type())
						ft := qs.Field(i).Type()
						if _, ok := ft.Underlying().(*types.Struct); ok || !sameTerm(q.a[i], want) {
							if s.rel(q.a[i], want) != oEQ {
								bad(s, "field %s of the hashed old version is %s", qs.Field(i).Name(), q.a[i])
							}
						}
					}
				default:
					bad(s, "hashes %s", v)
				}
				return []oOut{{s: s, res: []*oT{mk("hash", "", nil), mk("err", "", nil)}}}
			}
			e.stop = map[string]func(e *oEval, s *oState, args []*oT) []oOut{"common.EncodeAndHash": hook}
			e.call(f, []*oT{a}, newOState(), 0)
			if n == 0 {
				e.giveUp("hashes nothing")
			}
		})
	}
}

func stFieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func init() {
	register("G02", "abstract interpretation of every Clone, Copy and Copy* function: on every path each component of the result is equal to the component of the source and every pointer and slice in it is freshly allocated (element by element where the elements hold references); ForRLP/FromRLP round trip; the struct hashed for an old version has the object's fields", "functions outside the evaluator's fragment are listed in the notes; interfaces and functions are shared handles", cloneCheck)
}
