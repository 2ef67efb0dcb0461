package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G01: arithmetic of heights, epochs, eras and block numbers. The functions
// are evaluated on symbolic arguments; results are compared as polynomials
// modulo 2^64 over the arguments, the epoch length and quotients (x % y is
// x - y*(x/y)), the conditions of each path say which operations cannot wrap.

var mod64 = new(big.Int).Lsh(big.NewInt(1), 64)

type poly map[string]*big.Int // monomial (sorted atoms joined by *) -> coefficient

func polyC(n *big.Int) poly {
	p := poly{}
	v := new(big.Int).Mod(n, mod64)
	if v.Sign() != 0 {
		p[""] = v
	}
	return p
}

func polyA(a string) poly { return poly{a: big.NewInt(1)} }

func (p poly) add(q poly, f int64) poly {
	r := poly{}
	for k, v := range p {
		r[k] = new(big.Int).Set(v)
	}
	for k, v := range q {
		x := new(big.Int).Mul(v, big.NewInt(f))
		if o := r[k]; o != nil {
			x.Add(x, o)
		}
		x.Mod(x, mod64)
		if x.Sign() == 0 {
			delete(r, k)
		} else {
			r[k] = x
		}
	}
	return r
}

func (p poly) mul(q poly) poly {
	r := poly{}
	for a, x := range p {
		for b, y := range q {
			var fs []string
			if a != "" {
				fs = append(fs, strings.Split(a, "*")...)
			}
			if b != "" {
				fs = append(fs, strings.Split(b, "*")...)
			}
			sort.Strings(fs)
			k := strings.Join(fs, "*")
			v := new(big.Int).Mul(x, y)
			if o := r[k]; o != nil {
				v.Add(v, o)
			}
			v.Mod(v, mod64)
			if v.Sign() == 0 {
				delete(r, k)
			} else {
				r[k] = v
			}
		}
	}
	return r
}

func (p poly) String() string {
	var ks []string
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var s []string
	for _, k := range ks {
		c := p[k]
		if c.Bit(63) == 1 {
			c = new(big.Int).Sub(c, mod64)
		}
		switch {
		case k == "":
			s = append(s, c.String())
		case c.IsInt64() && c.Int64() == 1:
			s = append(s, k)
		default:
			s = append(s, c.String()+"·"+k)
		}
	}
	if len(s) == 0 {
		return "0"
	}
	return strings.Join(s, " + ")
}

func (p poly) eq(q poly) bool { return len(p.add(q, -1)) == 0 }

// atoms of the polynomials; compound ones carry no '*' in their name.
type polyEnv struct{ inner map[string]poly }

func atomName(op string, ps ...poly) string {
	var s []string
	for _, p := range ps {
		s = append(s, strings.ReplaceAll(p.String(), "*", "×"))
	}
	return op + "(" + strings.Join(s, ",") + ")"
}

func (pe *polyEnv) wrap32(p poly) poly {
	if len(p) == 0 {
		return p
	}
	if len(p) == 1 {
		if c := p[""]; c != nil && c.IsUint64() && c.Uint64() < 1<<32 {
			return p
		}
	}
	// inside a 32-bit value inner truncations make no difference
	for changed := true; changed; {
		changed = false
		for k, c := range p {
			if in, ok := pe.inner[k]; ok {
				q := p.add(poly{k: c}, -1)
				for kk, cc := range in {
					q = q.add(poly{kk: new(big.Int).Mod(new(big.Int).Mul(c, cc), mod64)}, 1)
				}
				p, changed = q, true
				break
			}
		}
	}
	n := atomName("u32", p)
	pe.inner[n] = p
	return polyA(n)
}

func is32(t types.Type) bool {
	b, ok := typeBasic(t)
	return ok && (b.Kind() == types.Uint32)
}

func isSigned(t types.Type) bool {
	b, ok := typeBasic(t)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

func (pe *polyEnv) of(t *oT) (poly, bool) {
	switch t.op {
	case "const":
		if t.c.Kind() != constant.Int {
			return nil, false
		}
		n, ok := new(big.Int).SetString(t.c.ExactString(), 10)
		if !ok {
			return nil, false
		}
		return polyC(n), true
	case "op":
		if len(t.a) != 2 {
			return nil, false
		}
		a, ok1 := pe.of(t.a[0])
		b, ok2 := pe.of(t.a[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		var r poly
		div := "div"
		if isSigned(t.t) {
			div = "sdiv"
		}
		switch t.k {
		case "+":
			r = a.add(b, 1)
		case "-":
			r = a.add(b, -1)
		case "*":
			r = a.mul(b)
		case "/":
			r = polyA(atomName(div, a, b))
		case "%":
			r = a.add(b.mul(polyA(atomName(div, a, b))), -1)
		case "<<":
			k := b[""]
			if len(b) > 1 || k == nil || !k.IsInt64() || k.Int64() > 63 {
				return nil, false
			}
			r = a.mul(polyC(new(big.Int).Lsh(big.NewInt(1), uint(k.Int64()))))
		default:
			return nil, false
		}
		if is32(t.t) {
			r = pe.wrap32(r)
		}
		return r, true
	case "conv":
		p, ok := pe.of(t.a[0])
		if !ok {
			return nil, false
		}
		switch t.k {
		case "uint32":
			return pe.wrap32(p), true
		case "uint64", "int64", "int", "uint", "uintptr":
			return p, true
		}
		return nil, false
	case "mulhi":
		a, ok1 := pe.of(t.a[0])
		b, ok2 := pe.of(t.a[1])
		if !ok1 || !ok2 {
			return nil, false
		}
		if a.String() > b.String() {
			a, b = b, a
		}
		return polyA(atomName("mulhi", a, b)), true
	case "carry", "borrow":
		var ps []poly
		for _, x := range t.a {
			p, ok := pe.of(x)
			if !ok {
				return nil, false
			}
			ps = append(ps, p)
		}
		if t.op == "carry" && ps[0].String() > ps[1].String() {
			ps[0], ps[1] = ps[1], ps[0]
		}
		return polyA(atomName(t.op, ps...)), true
	}
	if b, ok := typeBasic(t.t); ok && b.Info()&types.IsInteger != 0 {
		return polyA(strings.ReplaceAll(t.String(), "*", "×")), true
	}
	return nil, false
}

// pFactN: a condition of a path in polynomial form: x r y.
type pFactN struct {
	x, y poly
	r    int
	used bool
	src  string
}

func (pe *polyEnv) facts(s *oState) []*pFactN {
	var out []*pFactN
	for _, f := range s.facts {
		x, ok1 := pe.of(f.x)
		y, ok2 := pe.of(f.y)
		if !ok1 || !ok2 {
			continue
		}
		out = append(out, &pFactN{x, y, f.r, false, fmt.Sprintf("%s %s %s", f.x, oStr(f.r), f.y)})
	}
	return out
}

// relOf: what the conditions say about x and y directly.
func relOf(fs []*pFactN, x, y poly) int {
	r := oANY
	for _, f := range fs {
		switch {
		case f.x.eq(x) && f.y.eq(y):
			r &= f.r
			f.used = true
		case f.x.eq(y) && f.y.eq(x):
			r &= oFlip(f.r)
			f.used = true
		}
	}
	return r
}

// zeroOf: what the conditions say about d=0: oEQ, oLT|oGT, or oANY.
func zeroOf(fs []*pFactN, d poly) int {
	if len(d) == 0 {
		return oEQ
	}
	r := oANY
	for _, f := range fs {
		for _, z := range [][2]poly{{f.x, f.y}, {f.y, f.x}} {
			c := z[1][""]
			if !z[0].eq(d) || len(z[1]) != 1 || c == nil {
				continue
			}
			fr := f.r
			if z[0].eq(f.y) {
				fr = oFlip(fr)
			}
			f.used = true
			switch {
			case fr&oLT == 0:
				r &= oLT | oGT
			case fr == oLT && c.IsUint64() && c.Uint64() == 1:
				r &= oEQ
			}
		}
		df := f.x.add(f.y, -1)
		if f.r == oEQ {
			for _, q := range []poly{df.add(d, -1), df.add(d, 1)} {
				if len(q) == 1 && q[""] != nil {
					f.used = true
					r &= oLT | oGT
				}
			}
		}
		if df.eq(d) || df.add(d, 1).eq(poly{}) {
			f.used = true
			switch {
			case f.r == oEQ:
				r &= oEQ
			case f.r&oEQ == 0:
				r &= oLT | oGT
			}
		}
	}
	return r
}

// opaque: a value that is more than a sum of products.
func (p poly) opaque() bool {
	for k := range p {
		if strings.Contains(k, "(") {
			return true
		}
	}
	return false
}

var polyMax = polyC(new(big.Int).Sub(mod64, big.NewInt(1)))
var polyOne = polyC(big.NewInt(1))

// prodFits: the conditions say that a*b fits (oEQ) or does not (oGT) in 64 bits.
func prodFits(fs []*pFactN, a, b poly) int {
	r := oANY
	and := func(x int) { r &= x }
	for _, p := range [][2]poly{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		q := polyA(atomName("div", polyMax, x))
		switch v := relOf(fs, y, q); {
		case v == oGT:
			and(oGT)
		case v&oGT == 0:
			and(oEQ)
		}
		if zeroOf(fs, x) == oEQ {
			and(oEQ)
		}
		if zeroOf(fs, x.add(polyOne, -1)) == oEQ {
			and(oEQ)
		}
		// x*y/x == y
		switch zeroOf(fs, polyA(atomName("div", a.mul(b), x)).add(y, -1)) {
		case oEQ:
			and(oEQ)
		case oLT | oGT:
			and(oGT)
		}
	}
	s, t := a, b
	if s.String() > t.String() {
		s, t = t, s
	}
	switch zeroOf(fs, polyA(atomName("mulhi", s, t))) {
	case oEQ:
		and(oEQ)
	case oLT | oGT:
		and(oGT)
	}
	return r
}

func sumFits(fs []*pFactN, a, b poly) int {
	r := oANY
	for _, p := range [][2]poly{{a, b}, {b, a}} {
		x, y := p[0], p[1]
		switch v := relOf(fs, y, polyMax.add(x, -1)); {
		case v == oGT:
			r &= oGT
		case v&oGT == 0:
			r &= oEQ
		}
		switch v := relOf(fs, a.add(b, 1), x); {
		case v == oLT:
			r &= oGT
		case v&oLT == 0:
			r &= oEQ
		}
		if zeroOf(fs, x) == oEQ {
			r &= oEQ
		}
	}
	s, t := a, b
	if s.String() > t.String() {
		s, t = t, s
	}
	switch zeroOf(fs, polyA(atomName("carry", s, t, poly{}))) {
	case oEQ:
		r &= oEQ
	case oLT | oGT:
		r &= oGT
	}
	return r
}

type heightChk struct {
	orderChk
	pe *polyEnv
	B  poly
}

// bitsStops: the functions of math/bits on symbolic values.
func bitsStops(e *oEval) {
	u := types.Typ[types.Uint64]
	if e.stop == nil {
		e.stop = map[string]func(e *oEval, s *oState, args []*oT) []oOut{}
	}
	for _, pre := range []string{"math/bits.", "bits."} {
		e.stop[pre+"Mul64"] = func(e *oEval, s *oState, a []*oT) []oOut {
			return []oOut{{s: s, res: []*oT{mk("mulhi", "", u, a[0], a[1]), mk("op", "*", u, a[0], a[1])}}}
		}
		e.stop[pre+"Add64"] = func(e *oEval, s *oState, a []*oT) []oOut {
			return []oOut{{s: s, res: []*oT{mk("op", "+", u, mk("op", "+", u, a[0], a[1]), a[2]), mk("carry", "", u, a[0], a[1], a[2])}}}
		}
		e.stop[pre+"Sub64"] = func(e *oEval, s *oState, a []*oT) []oOut {
			return []oOut{{s: s, res: []*oT{mk("op", "-", u, mk("op", "-", u, a[0], a[1]), a[2]), mk("borrow", "", u, a[0], a[1], a[2])}}}
		}
	}
}

func (k *heightChk) res(e *oEval, o oOut, i int) poly {
	if i >= len(o.res) {
		e.giveUp("no result")
	}
	p, ok := k.pe.of(o.res[i])
	if !ok {
		e.giveUp("result %s", o.res[i])
	}
	return p
}

// isNil: what a path knows about x being the nil value of its type.
func (k *heightChk) nilRel(s *oState, x *oT) int {
	max := polyMax
	if is32(x.t) {
		max = polyC(big.NewInt(1<<32 - 1))
	}
	n, _ := new(big.Int).SetString(max.unsigned(), 10)
	return s.rel(x, oConst(constant.Make(n), x.t))
}

func (p poly) unsigned() string {
	if c := p[""]; c != nil {
		return c.String()
	}
	return "0"
}

func nilPoly(t types.Type) poly {
	if is32(t) {
		return polyC(big.NewInt(1<<32 - 1))
	}
	return polyMax
}

func (k *heightChk) each(fn *ssa.Function, f func(e *oEval, a []*oT, o oOut, fs []*pFactN, bad func(string, ...any))) {
	k.run(fn, "height", func(e *oEval, bad func(*oState, string, ...any)) {
		bitsStops(e)
		nbad, why := 0, ""
		var as []*oT
		for i, p := range fn.Params {
			as = append(as, mk("param", string(rune('a'+i)), p.Type()))
		}
		for _, o := range e.call(fn, as, newOState(), 0) {
			if o.panic {
				continue // division by a configuration of zero
			}
			o := o
			fs := k.pe.facts(o.s)
			if zeroOf(fs, k.B) == oEQ {
				continue // configured with epochs of no blocks
			}
			possible := true
			for _, f := range fs {
				if zeroOf(fs, f.x.add(f.y, -1)) == 0 {
					possible = false
				}
			}
			if !possible {
				continue
			}
			for _, f := range fs {
				f.used = false
			}
			if w := e.try(func() {
				f(e, as, o, fs, func(m string, a ...any) { nbad++; bad(o.s, m, a...) })
			}); w != "" {
				why = w
			}
		}
		if why != "" && nbad == 0 {
			e.giveUp("%s", why)
		}
	})
}

// bools: the outcomes of a predicate, one per value.
func (k *heightChk) pred(fn *ssa.Function, f func(e *oEval, a []*oT, s *oState, fs []*pFactN, res bool, bad func(string, ...any))) {
	k.each(fn, func(e *oEval, a []*oT, o oOut, _ []*pFactN, bad func(string, ...any)) {
		for _, z := range e.boolRes(o, 0) {
			f(e, a, z.s, k.pe.facts(z.s), z.r == 1, bad)
		}
	})
}

func (k *heightChk) atom(x *oT) poly { p, _ := k.pe.of(x); return p }

// quotient functions: nil gives nilRes, everything else the polynomial.
func (k *heightChk) total(fn *ssa.Function, nilRes []poly, want func(h poly) []poly) {
	k.each(fn, func(e *oEval, a []*oT, o oOut, fs []*pFactN, bad func(string, ...any)) {
		h := k.atom(a[0])
		w := want(h)
		for i := range w {
			got := k.res(e, o, i)
			switch k.nilRel(o.s, a[0]) {
			case oEQ:
				if !got.eq(nilRes[i]) {
					bad("nil becomes %s, not %s", got, nilRes[i])
				}
			default:
				if k.nilRel(o.s, a[0])&oEQ != 0 {
					bad("nil is not told from a height")
					return
				}
				if !got.eq(w[i]) {
					bad("result %d is %s, not %s", i, got, w[i])
				}
			}
		}
	})
}

func (k *heightChk) unknown(fs []*pFactN) string {
	for _, f := range fs {
		if f.used {
			continue
		}
		// comparing a product with its factors says nothing about a wrap-around
		if (f.x.product() || f.y.product()) && !f.x.opaque() && !f.y.opaque() {
			continue
		}
		return f.src
	}
	return ""
}

func (p poly) product() bool {
	if len(p) != 1 {
		return false
	}
	for k := range p {
		return strings.Contains(k, "*")
	}
	return false
}

// product: e*B+c, nil for nil and invalid arguments and for what does not fit.
func (k *heightChk) product(fn *ssa.Function, off func(a []*oT) poly, valid func(s *oState, a []*oT) int) {
	k.each(fn, func(e *oEval, a []*oT, o oOut, fs []*pFactN, bad func(string, ...any)) {
		got := k.res(e, o, 0)
		en, c := k.atom(a[0]), off(a)
		prod := en.mul(k.B)
		want := prod.add(c, 1)
		nr, vr := k.nilRel(o.s, a[0]), valid(o.s, a)
		relOf(fs, en, polyMax)
		for i := range a {
			relOf(fs, k.atom(a[i]), k.B)
		}
		if nr == oEQ || vr == 0 {
			if !got.eq(polyMax) {
				bad("a nil or invalid argument gives %s", got)
			}
			return
		}
		pf, sf := prodFits(fs, en, k.B), oEQ
		if len(c) > 0 {
			sf = sumFits(fs, prod, c)
		}
		alt := oANY
		if c.eq(k.B.add(polyOne, -1)) { // (e+1)*B-1
			alt = prodFits(fs, en.add(polyOne, 1), k.B)
		}
		if got.eq(polyMax) {
			if pf == oGT || sf == oGT || alt == oGT || zeroOf(fs, prod.add(polyMax, -1)) == oEQ || zeroOf(fs, want.add(polyMax, -1)) == oEQ {
				return
			}
			if u := k.unknown(fs); u != "" {
				e.giveUp("condition %s", u)
			}
			bad("nil is returned although nothing overflows")
			return
		}
		if !got.eq(want) {
			// zero epochs written as a constant
			if zeroOf(fs, en) == oEQ && (got.eq(c) || got.eq(poly{}) && len(c) == 0) {
				return
			}
			if z := prod; (zeroOf(fs, en) == oEQ || zeroOf(fs, k.B) == oEQ) && got.add(z, 1).eq(want) {
				return
			}
			bad("the result is %s, not %s", got, want)
			return
		}
		if nr&oEQ != 0 {
			bad("a nil epoch is multiplied")
			return
		}
		if vr != 1 {
			bad("an invalid block number is added")
			return
		}
		if (pf == oEQ && sf == oEQ) || alt == oEQ {
			return
		}
		if pf == oGT || sf == oGT {
			bad("an overflowing result is returned")
			return
		}
		if u := k.unknown(fs); u != "" {
			e.giveUp("condition %s", u)
		}
		what := "product"
		if pf == oEQ {
			what = "sum"
		}
		bad("the %s may wrap around", what)
	})
}

func heightChecks(c *Ctx) {
	k := &heightChk{pe: &polyEnv{inner: map[string]poly{}}}
	k.c = c
	k.B = polyA("global:BlocksInEpoch")
	E := polyA("global:EpochsInEra")
	div := func(x, y poly) poly { return polyA(atomName("div", x, y)) }
	mod := func(x, y poly) poly { return x.add(y.mul(div(x, y)), -1) }
	n32 := func(p poly) poly { return k.pe.wrap32(p) }
	zero := poly{}
	m := func(typ, name string) *ssa.Function {
		f := c.p.method("", typ, name)
		if f == nil {
			c.note("%s.%s not found", typ, name)
			return nil
		}
		if len(f.Blocks) == 0 {
			return nil
		}
		return f
	}
	if f := m("Height", "EpochNum"); f != nil {
		k.total(f, []poly{polyMax}, func(h poly) []poly { return []poly{div(h, k.B)} })
	}
	if f := m("Height", "UsefulEpoch"); f != nil {
		k.total(f, []poly{zero}, func(h poly) []poly { return []poly{div(h, k.B)} })
	}
	if f := m("Height", "BlockNum"); f != nil {
		k.total(f, []poly{nilPoly(f.Signature.Results().At(0).Type())}, func(h poly) []poly { return []poly{n32(mod(h, k.B))} })
	}
	if f := m("Height", "UsefulBlock"); f != nil {
		k.total(f, []poly{zero}, func(h poly) []poly { return []poly{n32(mod(h, k.B))} })
	}
	if f := m("Height", "Split"); f != nil {
		k.total(f, []poly{polyMax, nilPoly(f.Signature.Results().At(1).Type())}, func(h poly) []poly { return []poly{div(h, k.B), n32(mod(h, k.B))} })
	}
	if f := m("Height", "EraNum"); f != nil {
		k.total(f, []poly{polyMax}, func(h poly) []poly { return []poly{div(h, k.B.mul(E))} })
	}
	yes := func(*oState, []*oT) int { return 1 }
	if f := m("EpochNum", "FirstHeight"); f != nil {
		k.product(f, func([]*oT) poly { return zero }, yes)
	}
	if f := m("EpochNum", "LastHeight"); f != nil {
		k.product(f, func([]*oT) poly { return k.B.add(polyOne, -1) }, yes)
	}
	if f := c.p.fn("", "ToHeight"); f != nil {
		k.product(f, func(a []*oT) poly { return k.atom(a[1]) }, func(s *oState, a []*oT) int {
			switch r := relOf(k.pe.facts(s), k.atom(a[1]), k.B); {
			case r == oLT:
				return 1
			case r&oLT == 0:
				return 0
			}
			return 2
		})
	}
	eqPred := func(f *ssa.Function, ds func(h poly) []poly, guard func(s *oState, a []*oT, fs []*pFactN) int) {
		k.pred(f, func(e *oEval, a []*oT, s *oState, fs []*pFactN, res bool, bad func(string, ...any)) {
			r := oANY
			for _, d := range ds(k.atom(a[0])) {
				r &= zeroOf(fs, d)
			}
			g := guard(s, a, fs)
			switch {
			case res && g == 1 && r == oEQ, !res && (g == 0 || r == oLT|oGT):
			case r == oANY && g != 0:
				for _, f := range fs {
					if !f.used && !f.y.eq(polyMax) {
						e.giveUp("condition %s", f.src)
					}
				}
				bad("%v is returned for any height", res)
			default:
				bad("%v is returned", res)
			}
		})
	}
	notNil := func(s *oState, a []*oT, fs []*pFactN) int {
		r := k.nilRel(s, a[0])
		switch {
		case r == oEQ:
			return 0
		case r&oEQ == 0:
			return 1
		}
		return 2
	}
	if f := m("Height", "IsFirstOfEpoch"); f != nil {
		eqPred(f, func(h poly) []poly { return []poly{mod(h, k.B)} }, notNil)
	}
	if f := m("Height", "IsLastOfEpoch"); f != nil {
		eqPred(f, func(h poly) []poly {
			return []poly{mod(h.add(polyOne, 1), k.B), mod(h, k.B).add(k.B, -1).add(polyOne, 1)}
		}, notNil)
	}
	if f := m("BlockNum", "IsFirstOfEpoch"); f != nil {
		eqPred(f, func(b poly) []poly { return []poly{b} }, func(*oState, []*oT, []*pFactN) int { return 1 })
	}
	if f := m("BlockNum", "IsLastOfEpoch"); f != nil {
		eqPred(f, func(b poly) []poly { return []poly{b.add(polyOne, 1).add(k.B, -1)} }, func(s *oState, a []*oT, fs []*pFactN) int {
			r := relOf(fs, k.atom(a[0]), k.B)
			if r&oLT == 0 {
				return 0
			}
			return 1 // the equality with the last block implies it
		})
	}
	if f := m("BlockNum", "IsValid"); f != nil {
		k.pred(f, func(e *oEval, a []*oT, s *oState, fs []*pFactN, res bool, bad func(string, ...any)) {
			r := relOf(fs, k.atom(a[0]), k.B)
			if r == oANY {
				if u := k.unknown(fs); u != "" {
					e.giveUp("condition %s", u)
				}
			}
			if res && r != oLT || !res && r&oLT != 0 {
				bad("%v where the block number is %s the number of blocks", res, oStr(r))
			}
		})
	}
	if f := m("Height", "RemoveRemainder"); f != nil {
		k.each(f, func(e *oEval, a []*oT, o oOut, fs []*pFactN, bad func(string, ...any)) {
			h, n := k.atom(a[0]), k.atom(a[1])
			got := k.res(e, o, 0)
			small := o.s.rel(a[1], oConst(constant.MakeInt64(0), a[1].t)) == oEQ || o.s.rel(a[1], oConst(constant.MakeInt64(1), a[1].t)) == oEQ
			switch {
			case small:
				if !got.eq(h) && !(k.nilRel(o.s, a[0]) == oEQ && got.eq(polyMax)) {
					bad("0 and 1 leave no remainder, the result is %s", got)
				}
			case k.nilRel(o.s, a[0]) == oEQ:
				if !got.eq(polyMax) {
					bad("nil becomes %s", got)
				}
			case k.nilRel(o.s, a[0])&oEQ != 0:
				bad("nil is not told from a height")
			default:
				if !got.eq(h.add(mod(h, n), -1)) {
					bad("the result is %s, not %s", got, h.add(mod(h, n), -1))
				}
			}
		})
	}
	if f := m("CommID", "ShouldPropose"); f != nil {
		k.each(f, func(e *oEval, a []*oT, o oOut, fs []*pFactN, bad func(string, ...any)) {
			i, n := k.atom(a[0]), k.atom(a[1])
			got := k.res(e, o, 0)
			q := polyA(atomName("sdiv", k.B, n))
			rem := k.B.add(n.mul(q), -1)
			switch r := relOf(fs, rem, i); {
			case r == oGT:
				if !got.eq(q.add(polyOne, 1)) {
					bad("a member below the remainder proposes %s blocks", got)
				}
			case r&oGT == 0:
				if !got.eq(q) {
					bad("a member at or above the remainder proposes %s blocks", got)
				}
			default:
				if u := k.unknown(fs); u != "" {
					e.giveUp("condition %s", u)
				}
				bad("every member proposes %s blocks", got)
			}
		})
	}
	k.safe("SafeAdd", func(x, y poly) poly { return x.add(y, 1) }, func(fs []*pFactN, x, y poly) int { return sumFits(fs, x, y) })
	k.safe("SafeMul", func(x, y poly) poly { return x.mul(y) }, func(fs []*pFactN, x, y poly) int { return prodFits(fs, x, y) })
	k.safe("SafeSub", func(x, y poly) poly { return x.add(y, -1) }, func(fs []*pFactN, x, y poly) int {
		r := oANY
		switch v := relOf(fs, x, y); {
		case v == oLT:
			r &= oGT
		case v&oLT == 0:
			r &= oEQ
		}
		switch v := relOf(fs, x.add(y, -1), x); {
		case v == oGT:
			r &= oGT
		case v&oGT == 0:
			r &= oEQ
		}
		switch zeroOf(fs, polyA(atomName("borrow", x, y, poly{}))) {
		case oEQ:
			r &= oEQ
		case oLT | oGT:
			r &= oGT
		}
		return r
	})
	k.numberBytes()
	if len(k.undec) > 0 {
		c.note("not decided: %s", strings.Join(k.undec, "; "))
	}
	c.min("height", 8)
	c.min("number-bytes", 2)
}

// numberBytes: the byte form of a number is all of its bytes, big-endian, as
// the BytesTo functions (G04) read them.
func (k *heightChk) numberBytes() {
	for _, f := range k.c.p.funcsIn("") {
		if f.Name() != "Bytes" || f.Signature.Recv() == nil || f.Synthetic != "" || len(f.Params) != 1 || len(f.Blocks) == 0 {
			continue
		}
		bt, ok := typeBasic(f.Params[0].Type())
		if !ok || bt.Info()&types.IsInteger == 0 {
			continue
		}
		width := int64(intBits(bt.Kind()) / 8)
		put := 0
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				x, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				pk, n := calleePkgName(x)
				w := map[string]int64{"PutUint16": 2, "PutUint32": 4, "PutUint64": 8, "AppendUint16": 2, "AppendUint32": 4, "AppendUint64": 8}[n]
				if pk != "encoding/binary" || w == 0 || len(x.Call.Args) < 3 {
					continue
				}
				put++
				name := fname(f)
				at := k.c.p.pos(x.Pos())
				k.c.ob("number-bytes", name)
				g := x.Call.StaticCallee()
				k.c.check(g != nil && strings.Contains(g.String(), "bigEndian"), "number-bytes", name, at, "the number is not written in big-endian order")
				k.c.check(w == width, "number-bytes", name, at, "%d of the %d bytes of the number are written", w, width)
				v, narrow := x.Call.Args[2], false
				for {
					c, ok := v.(*ssa.Convert)
					if !ok {
						if ct, ok := v.(*ssa.ChangeType); ok {
							v = ct.X
							continue
						}
						break
					}
					cb, ok := typeBasic(c.Type())
					if ok && int64(intBits(cb.Kind())/8) < width {
						narrow = true
					}
					v = c.X
				}
				k.c.check(!narrow, "number-bytes", name, at, "the number is truncated before it is written")
				if v != ssa.Value(f.Params[0]) {
					if _, isC := v.(*ssa.Const); isC {
						k.c.fail("number-bytes", name, at, "a constant is written instead of the number")
					} else {
						k.undec = append(k.undec, name+" (value "+v.String()+")")
					}
				}
				if strings.HasPrefix(n, "Put") {
					if n, ok := madeLen(x.Call.Args[1]); ok {
						k.c.check(n == width, "number-bytes", name, at, "a number of %d bytes is written at the start of %d bytes", width, n)
					}
				}
			}
		}
		if put == 0 {
			k.undec = append(k.undec, fname(f)+" (no encoding/binary call)")
		}
	}
}

// madeLen: the length of a slice made in the function, taken from its start.
func madeLen(v ssa.Value) (int64, bool) {
	switch x := v.(type) {
	case *ssa.MakeSlice:
		return constInt(x.Len)
	case *ssa.Slice:
		if x.Low != nil {
			if n, ok := constInt(x.Low); !ok || n != 0 {
				return 0, false
			}
		}
		if al, ok := x.X.(*ssa.Alloc); ok {
			if at, ok := derefType(al.Type()).Underlying().(*types.Array); ok {
				if x.High != nil {
					if n, ok := constInt(x.High); ok {
						return n, true
					}
					return 0, false
				}
				return at.Len(), true
			}
		}
	}
	return 0, false
}

func (k *heightChk) safe(name string, val func(x, y poly) poly, fits func(fs []*pFactN, x, y poly) int) {
	f := k.c.p.fn("math", name)
	if f == nil || len(f.Blocks) == 0 {
		k.c.note("math.%s not found", name)
		return
	}
	k.each(f, func(e *oEval, a []*oT, o oOut, _ []*pFactN, bad func(string, ...any)) {
		x, y := k.atom(a[0]), k.atom(a[1])
		got := k.res(e, o, 0)
		for _, z := range e.boolRes(o, 1) {
			fs := k.pe.facts(z.s)
			fit := fits(fs, x, y)
			if fit == oANY {
				if u := k.unknown(fs); u != "" {
					e.giveUp("condition %s", u)
				}
				bad("the overflow flag is always %v", z.r == 1)
				continue
			}
			if (fit == oGT) != (z.r == 1) {
				bad("the overflow flag is %v", z.r == 1)
			}
			if z.r == 0 && !got.eq(val(x, y)) {
				if len(got) == 0 && (zeroOf(fs, x) == oEQ || zeroOf(fs, y) == oEQ) && name == "SafeMul" {
					continue
				}
				bad("the result is %s, not %s", got, val(x, y))
			}
		}
	})
}

func init() {
	register("G01", "every conversion between heights, epochs, eras and block numbers is evaluated on symbolic arguments; on each path the result is compared, as a polynomial modulo 2^64 over the arguments, the epoch length and quotients, with its definition, and the conditions of the path must exclude every wrap-around of a sum or product", "functions outside the evaluator's fragment are listed in the notes; an epoch length that is not zero", heightChecks)
}
