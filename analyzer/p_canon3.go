package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R05, the encoders: every encoder is split by the classes of values that have
// one form (0, below 128, n bytes; strings of 0, 1, up to 55 and more bytes),
// and each of its paths that a class may take must append that form.

// ---- whole functions of one integer, run on an interval of arguments

type rgVal struct {
	lo, hi *big.Int
	sh     int  // the parameter shifted right by sh
	par    bool // (sh counts)
	ref    string
	off    int64
	ok     bool
}

func rgK(n int64) rgVal { return rgVal{lo: big.NewInt(n), hi: big.NewInt(n), ok: true} }

func (v rgVal) one() (int64, bool) {
	if v.ok && v.lo != nil && v.lo.Cmp(v.hi) == 0 && v.lo.IsInt64() {
		return v.lo.Int64(), true
	}
	return 0, false
}

type rgRun struct {
	mem   map[string]rgVal // stores: ref[off]
	steps int
	why   string
}

func (r *rgRun) no(f string, a ...any) rgVal {
	if r.why == "" {
		r.why = fmt.Sprintf(f, a...)
	}
	return rgVal{}
}

func rgBits(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32:
		return 32, true
	}
	return 64, true
}

func rgUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

// run fn on args; the results.
func (r *rgRun) run(fn *ssa.Function, args []rgVal, depth int) []rgVal {
	if depth > 4 || len(fn.Blocks) == 0 {
		r.no("call of %s", fname(fn))
		return nil
	}
	env := map[ssa.Value]rgVal{}
	for i, p := range fn.Params {
		if i < len(args) {
			env[p] = args[i]
		}
	}
	val := func(v ssa.Value) rgVal {
		if c, ok := v.(*ssa.Const); ok {
			if c.Value == nil {
				return rgVal{}
			}
			if b, ok := new(big.Int).SetString(c.Value.ExactString(), 10); ok {
				return rgVal{lo: b, hi: b, ok: true}
			}
			if s := c.Value.ExactString(); s == "true" {
				return rgK(1)
			} else if s == "false" {
				return rgK(0)
			}
			return rgVal{}
		}
		return env[v]
	}
	b, prev := fn.Blocks[0], (*ssa.BasicBlock)(nil)
	for {
		if r.steps++; r.steps > 400 {
			r.no("does not end")
			return nil
		}
		nphi := map[ssa.Value]rgVal{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				continue
			}
			for i, p := range b.Preds {
				if p == prev {
					nphi[ph] = val(ph.Edges[i])
				}
			}
		}
		for k, v := range nphi {
			env[k] = v
		}
		var next *ssa.BasicBlock
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Phi, *ssa.DebugRef:
			case *ssa.BinOp:
				env[x] = r.bin(x, val(x.X), val(x.Y))
			case *ssa.Convert:
				env[x] = r.conv(val(x.X), x.Type())
			case *ssa.ChangeType:
				env[x] = val(x.X)
			case *ssa.Slice:
				v := val(x.X)
				if x.Low != nil {
					n, ok := val(x.Low).one()
					if !ok {
						v = rgVal{}
					}
					v.off += n
				}
				env[x] = v
			case *ssa.IndexAddr:
				v := val(x.X)
				n, ok := val(x.Index).one()
				if v.ref == "" || !ok {
					r.no("an address that depends on the value")
					return nil
				}
				v.off += n
				env[x] = v
			case *ssa.Store:
				a := val(x.Addr)
				if a.ref == "" {
					r.no("a store outside the buffer")
					return nil
				}
				r.mem[a.ref+"["+strconv.FormatInt(a.off, 10)+"]"] = val(x.Val)
			case *ssa.UnOp:
				switch x.Op {
				case token.MUL:
					a := val(x.X)
					env[x] = r.mem[a.ref+"["+strconv.FormatInt(a.off, 10)+"]"]
				case token.NOT:
					if n, ok := val(x.X).one(); ok {
						env[x] = rgK(1 - n)
					}
				case token.SUB:
					v := val(x.X)
					if v.ok {
						env[x] = rgVal{lo: new(big.Int).Neg(v.hi), hi: new(big.Int).Neg(v.lo), ok: true}
					}
				}
			case *ssa.Call:
				g := x.Call.StaticCallee()
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() == "len" || bi.Name() == "cap" {
						env[x] = rgVal{}
					}
					continue
				}
				if g == nil {
					continue
				}
				var as []rgVal
				for _, a := range x.Call.Args {
					as = append(as, val(a))
				}
				switch {
				case g.Pkg != nil && g.Pkg.Pkg.Path() == "math/bits" && strings.HasPrefix(g.Name(), "Len") && as[0].ok:
					env[x] = rgVal{lo: big.NewInt(int64(as[0].lo.BitLen())), hi: big.NewInt(int64(as[0].hi.BitLen())), ok: true}
				case g.Pkg != nil && g.Pkg == fn.Pkg:
					if rs := r.run(g, as, depth+1); len(rs) == 1 {
						env[x] = rs[0]
					}
				}
				if r.why != "" {
					return nil
				}
			case *ssa.If:
				n, ok := val(x.Cond).one()
				if !ok {
					r.no("a condition the class does not decide (%s)", x.Cond)
					return nil
				}
				next = b.Succs[1-n]
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				var rs []rgVal
				for _, v := range x.Results {
					rs = append(rs, val(v))
				}
				return rs
			default:
				if v, ok := in.(ssa.Value); ok {
					env[v] = rgVal{}
				}
			}
		}
		if next == nil {
			r.no("the function does not return")
			return nil
		}
		b, prev = next, b
	}
}

func (r *rgRun) conv(v rgVal, t types.Type) rgVal {
	n, ok := rgBits(t)
	if !ok || !v.ok {
		return rgVal{}
	}
	max := new(big.Int).Lsh(big.NewInt(1), uint(n))
	if !rgUnsigned(t) {
		max.Rsh(max, 1)
	}
	if v.lo.Sign() >= 0 && v.hi.Cmp(max) < 0 {
		return v
	}
	if n == 8 && v.par {
		v.lo, v.hi = big.NewInt(0), big.NewInt(255)
		return v
	}
	return rgVal{lo: big.NewInt(0), hi: new(big.Int).Sub(max, big.NewInt(1)), ok: rgUnsigned(t)}
}

func (r *rgRun) bin(x *ssa.BinOp, a, b rgVal) rgVal {
	tri := func(yes, no bool) rgVal {
		switch {
		case yes:
			return rgK(1)
		case no:
			return rgK(0)
		}
		return rgVal{}
	}
	if !a.ok || !b.ok {
		return rgVal{}
	}
	switch x.Op {
	case token.LSS:
		return tri(a.hi.Cmp(b.lo) < 0, a.lo.Cmp(b.hi) >= 0)
	case token.LEQ:
		return tri(a.hi.Cmp(b.lo) <= 0, a.lo.Cmp(b.hi) > 0)
	case token.GTR:
		return tri(a.lo.Cmp(b.hi) > 0, a.hi.Cmp(b.lo) <= 0)
	case token.GEQ:
		return tri(a.lo.Cmp(b.hi) >= 0, a.hi.Cmp(b.lo) < 0)
	case token.EQL, token.NEQ:
		same := a.lo.Cmp(a.hi) == 0 && b.lo.Cmp(b.hi) == 0 && a.lo.Cmp(b.lo) == 0
		diff := a.hi.Cmp(b.lo) < 0 || a.lo.Cmp(b.hi) > 0
		if x.Op == token.NEQ {
			same, diff = diff, same
		}
		return tri(same, diff)
	}
	res := rgVal{ok: true}
	n, fixed := b.one()
	switch {
	case x.Op == token.ADD:
		res.lo, res.hi = new(big.Int).Add(a.lo, b.lo), new(big.Int).Add(a.hi, b.hi)
	case x.Op == token.SUB:
		res.lo, res.hi = new(big.Int).Sub(a.lo, b.hi), new(big.Int).Sub(a.hi, b.lo)
	case x.Op == token.MUL && fixed && n >= 0:
		res.lo, res.hi = new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.hi, b.lo)
	case x.Op == token.SHR && fixed && n >= 0 && a.lo.Sign() >= 0:
		res.lo, res.hi = new(big.Int).Rsh(a.lo, uint(n)), new(big.Int).Rsh(a.hi, uint(n))
		if a.par {
			res.par, res.sh = true, a.sh+int(n)
		}
	case x.Op == token.SHL && fixed && n >= 0 && n < 64:
		res.lo, res.hi = new(big.Int).Lsh(a.lo, uint(n)), new(big.Int).Lsh(a.hi, uint(n))
	case x.Op == token.QUO && fixed && n > 0 && a.lo.Sign() >= 0:
		res.lo, res.hi = new(big.Int).Quo(a.lo, b.lo), new(big.Int).Quo(a.hi, b.lo)
	case x.Op == token.AND && fixed && n == 255 && a.par:
		return rgVal{lo: big.NewInt(0), hi: big.NewInt(255), par: true, sh: a.sh, ok: true}
	case x.Op == token.AND && fixed && n == -8 && a.lo.Sign() >= 0:
		f := func(v *big.Int) *big.Int { return new(big.Int).Lsh(new(big.Int).Rsh(v, 3), 3) }
		res.lo, res.hi = f(a.lo), f(a.hi)
	default:
		return rgVal{}
	}
	if w, ok := rgBits(x.Type()); ok {
		max := new(big.Int).Lsh(big.NewInt(1), uint(w))
		min := new(big.Int)
		if !rgUnsigned(x.Type()) {
			max.Rsh(max, 1)
			min.Neg(max)
		}
		if res.lo.Cmp(min) < 0 || res.hi.Cmp(max) >= 0 {
			return rgVal{}
		}
	}
	return res
}

// rgClass: the arguments lo..hi.
func (k *canonChk) rgClass(fn *ssa.Function, idx int, lo, hi *big.Int) ([]rgVal, *rgRun) {
	r := &rgRun{mem: map[string]rgVal{}}
	args := make([]rgVal, len(fn.Params))
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Slice); ok {
			args[i] = rgVal{ref: "p" + strconv.Itoa(i)}
		}
	}
	args[idx] = rgVal{lo: lo, hi: hi, par: true, ok: true}
	return r.run(fn, args, 0), r
}

func pow256(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(8*n)) }

// sizes: what a function of one integer answers, class by class.
func (k *canonChk) sizes(name string, idx int, first []int64, firstAns []int64, add int64) *ssa.Function {
	fn := k.fn(name)
	if fn == nil {
		return nil
	}
	lo := big.NewInt(0)
	one := func(lo, hi *big.Int, want int64) {
		rs, r := k.rgClass(fn, idx, lo, hi)
		k.c.ob("width", fname(fn)+" "+lo.String())
		if r.why != "" || len(rs) != 1 {
			k.c.fail("width", fname(fn), k.c.p.pos(fn.Pos()), "for %s..%s: %s", lo, hi, r.why)
			return
		}
		if n, ok := rs[0].one(); !ok || n != want {
			k.c.fail("width", fname(fn), k.c.p.pos(fn.Pos()), "for %s..%s it answers %v..%v, not %d", lo, hi, rs[0].lo, rs[0].hi, want)
		}
	}
	for i, f := range first {
		one(lo, big.NewInt(f), firstAns[i])
		lo = big.NewInt(f + 1)
	}
	for n := 1; n <= 8; n++ {
		hi := new(big.Int).Sub(pow256(n), big.NewInt(1))
		if lo.Cmp(hi) > 0 {
			continue
		}
		one(lo, hi, int64(n)+add)
		lo = pow256(n)
	}
	return fn
}

func (k *canonChk) putint() {
	fn := k.sizes("rlp.putint", 1, nil, nil, 0)
	if fn == nil {
		return
	}
	for n := 1; n <= 8; n++ {
		lo := pow256(n - 1)
		if n == 1 {
			lo = big.NewInt(1)
		}
		_, r := k.rgClass(fn, 1, lo, new(big.Int).Sub(pow256(n), big.NewInt(1)))
		if r.why != "" {
			continue
		}
		k.c.ob("bigendian", fname(fn)+" "+iterm(int64(n)))
		for j := 0; j < n; j++ {
			v, ok := r.mem["p0["+iterm(int64(j))+"]"]
			if !ok || !v.par || v.sh != 8*(n-1-j) {
				k.c.fail("bigendian", fname(fn), k.c.p.pos(fn.Pos()), "byte %d of a %d-byte integer is not its bits %d..%d", j, n, 8*(n-1-j), 8*(n-j)-1)
			}
		}
		if len(r.mem) != n {
			k.c.fail("bigendian", fname(fn), k.c.p.pos(fn.Pos()), "a %d-byte integer stores %d bytes", n, len(r.mem))
		}
	}
}

// ---- what a path appends

type encPiece struct {
	op   string // byte, head (tag+width, then the width's bytes), puthead, data
	t    string // byte: the value; data: the bytes
	tag  string // head: its tag
	tag2 string
	v    string // head: the number
}

// chunks of the bytes appended to base.
func (k *canonChk) appended(p *pPath, final string) (base string, out []string) {
	for strings.HasPrefix(final, "append(") && tClose(final, 6) == len(final)-1 {
		in := final[7 : len(final)-1]
		d, at := 0, -1
		for i := 0; i < len(in); i++ {
			switch in[i] {
			case '(', '[', '{':
				d++
			case ')', ']', '}':
				d--
			case ',':
				if d == 0 && at < 0 {
					at = i
				}
			}
		}
		if at < 0 {
			return
		}
		out = append([]string{strings.TrimSpace(in[at+1:])}, out...)
		final = in[:at]
	}
	return final, out
}

// the last value stored at place before the event at.
func storedAt(p *pPath, place string, at int) (string, bool) {
	for i := at - 1; i >= 0; i-- {
		e := p.evs[i]
		if e.op == "store" && len(e.args) == 2 && e.args[0] == place {
			return e.args[1], true
		}
	}
	return "", false
}

func (k *canonChk) pieces(p *pPath, chunk string, at int) ([]encPiece, string) {
	if strings.HasPrefix(chunk, "new#") && !strings.Contains(chunk, "[") {
		var out []encPiece
		for i := 0; ; i++ {
			v, ok := storedAt(p, chunk+"["+strconv.Itoa(i)+"]", at)
			if !ok {
				break
			}
			out = append(out, encPiece{op: "byte", t: v})
		}
		if len(out) == 0 {
			return nil, "nothing is put into " + chunk
		}
		return out, ""
	}
	if x, lo, hi, ok := tSliced(chunk); ok && (lo == "" || lo == "0") && hi != "" {
		// B[:n+1] with n = putint(B[1:], v), or B[:n] with n = puthead(B, s, l, v)
		for i := at - 1; i >= 0; i-- {
			e := p.evs[i]
			if e.op != "call" {
				continue
			}
			q := &tProver{p: p}
			switch evName(e.name) {
			case "putint":
				if e.args[0] != x+"[1:]" || !q.same(hi, "("+e.res+"+1)") {
					continue
				}
				h, ok := storedAt(p, x+"[0]", at)
				if !ok {
					return nil, "the header's first byte is not set"
				}
				l := q.lin(h)
				if l.at[e.res] != 1 {
					return nil, "the header's first byte does not tell the width of the length"
				}
				l = l.add(tLin{0, map[string]int64{e.res: 1}}, -1)
				if len(l.at) == 0 {
					return []encPiece{{op: "head", tag: iterm(l.k), v: e.args[1]}}, ""
				}
				if len(l.at) == 1 && l.k == 0 {
					for a, n := range l.at {
						if n == 1 {
							return []encPiece{{op: "head", tag: a, v: e.args[1]}}, ""
						}
					}
				}
				return nil, "the header's first byte is " + h
			case "puthead":
				if e.args[0] == x && q.same(hi, e.res) {
					return []encPiece{{op: "puthead", tag: e.args[1], tag2: e.args[2], v: e.args[3]}}, ""
				}
			}
		}
	}
	return []encPiece{{op: "data", t: chunk}}, ""
}

// outputs of a path: the pieces appended to the buffer buf ("p0" for p0.str).
func (k *canonChk) output(p *pPath, buf string) ([]encPiece, string) {
	final, at := "", -1
	if buf == "" {
		if len(p.res) != 1 {
			return nil, "no result"
		}
		final, at = p.res[0], len(p.evs)
	} else {
		for i, e := range p.evs {
			if e.op == "store" && len(e.args) == 2 && e.args[0] == buf+".str" {
				final, at = e.args[1], i
			}
		}
		if at < 0 {
			return nil, ""
		}
	}
	base, cs := k.appended(p, final)
	want := "*" + buf + ".str"
	if buf == "" {
		want = "p0"
	}
	if base != want {
		return nil, "the output does not go behind what is already there (" + base + ")"
	}
	var out []encPiece
	for _, c := range cs {
		ps, why := k.pieces(p, c, at)
		if why != "" {
			return nil, why
		}
		out = append(out, ps...)
	}
	return out, ""
}

func showPieces(ps []encPiece) string {
	var s []string
	for _, p := range ps {
		switch p.op {
		case "byte":
			s = append(s, p.t)
		case "head":
			s = append(s, p.tag+"+width of "+p.v+", "+p.v)
		case "puthead":
			s = append(s, "header("+p.tag+", "+p.tag2+", "+p.v+")")
		default:
			s = append(s, p.t+"...")
		}
	}
	return "[" + strings.Join(s, " ") + "]"
}

// headOK: the pieces ps[i:] begin with a header for size under the short and
// long tags; how many pieces it takes.
func (k *canonChk) headOK(q *tProver, ps []encPiece, short, long int64, size string, small bool) int {
	if len(ps) == 0 {
		return 0
	}
	switch h := ps[0]; h.op {
	case "byte":
		if small && q.equal(h.t, "("+iterm(short)+"+"+size+")") {
			return 1
		}
	case "head":
		if !small && h.tag == iterm(long) && q.equal(h.v, size) {
			return 1
		}
	case "puthead":
		if h.tag == iterm(short) && h.tag2 == iterm(long) && q.equal(h.v, size) {
			return 1
		}
	}
	return 0
}

// integer: out is the form of the integer v on every class the path may take.
func (k *canonChk) intForm(p *pPath, v string, out []encPiece, extra []string, bad func(string, ...any)) {
	for n := 0; n <= 9; n++ {
		q := k.prover(p, nil)
		switch {
		case n == 0:
			q.extra = []string{"eq{" + v + "}{0}"}
		case n == 1:
			q.extra = []string{ltT("0", v), ltT(v, "128")}
		case n == 2:
			q.extra = []string{geT(v, "128"), ltT(v, "256")}
		default:
			q.extra = []string{geT(v, pow256(n-2).String())}
			if n < 9 {
				q.extra = append(q.extra, ltT(v, pow256(n-1).String()))
			}
		}
		q.extra = append(q.extra, extra...)
		if q.refuted() {
			continue
		}
		ok := false
		switch {
		case n == 0:
			ok = len(out) == 1 && out[0].op == "byte" && out[0].t == "128"
		case n == 1:
			ok = len(out) == 1 && out[0].op == "byte" && q.equal(out[0].t, v)
		default:
			w := n - 1
			if len(out) == 1 && out[0].op == "head" {
				ok = out[0].tag == "128" && q.equal(out[0].v, v)
			} else if len(out) == w+1 && out[0].op == "byte" && out[0].t == iterm(int64(128+w)) {
				ok = true
				for j := 0; j < w; j++ {
					b := v
					if s := 8 * (w - 1 - j); s > 0 {
						b = "(" + v + ">>" + strconv.Itoa(s) + ")"
					}
					if out[1+j].op != "byte" || out[1+j].t != b {
						ok = false
					}
				}
			}
		}
		if !ok {
			d := []string{"zero", "an integer below 128"}
			w := fmt.Sprintf("an integer of %d byte(s)", n-1)
			if n < 2 {
				w = d[n]
			}
			bad("%s is written as %s", w, showPieces(out))
		}
	}
}

// strForm: out is the form of the string data with length n.
func (k *canonChk) strForm(p *pPath, data, n, first string, out []encPiece, bad func(string, ...any)) {
	type cl struct {
		what string
		cond []string
	}
	for i, c := range []cl{
		{"an empty string", []string{"eq{" + n + "}{0}"}},
		{"a single byte below 0x80", []string{"eq{" + n + "}{1}", ltT(first, "128")}},
		{"a single byte above 0x7f", []string{"eq{" + n + "}{1}", geT(first, "128")}},
		{"a string of 2 to 55 bytes", []string{geT(n, "2"), ltT(n, "56")}},
		{"a string of more than 55 bytes", []string{geT(n, "56")}},
	} {
		q := k.prover(p, func(a string) bool { return a == first })
		q.extra = c.cond
		if q.refuted() {
			continue
		}
		isData := func(o encPiece) bool {
			return o.op == "data" && o.t == data || o.op == "byte" && (i == 1 || i == 2) && (o.t == first || normElem(o.t) == normElem(first))
		}
		ok := false
		switch i {
		case 0:
			ok = len(out) >= 1 && k.headOK(q, out, 0x80, 0xb7, n, true) == 1 && (len(out) == 1 || len(out) == 2 && isData(out[1]))
		case 1:
			ok = len(out) == 1 && isData(out[0])
		default:
			ok = len(out) == 2 && k.headOK(q, out, 0x80, 0xb7, n, i < 4) == 1 && isData(out[1])
		}
		if !ok {
			bad("%s is written as %s", c.what, showPieces(out))
		}
	}
}

// evalT: the value of a term under an assignment.
func evalT(t string, at map[string]int64) (int64, bool) {
	if n, err := strconv.ParseInt(t, 10, 64); err == nil {
		return n, true
	}
	if n, ok := at[t]; ok {
		return n, true
	}
	a, op, b, ok := tBin(t)
	if !ok {
		return 0, false
	}
	x, o1 := evalT(a, at)
	y, o2 := evalT(b, at)
	if !o1 || !o2 {
		return 0, false
	}
	switch op {
	case "+":
		return x + y, true
	case "-":
		return x - y, true
	case "*":
		return x * y, true
	case "/":
		if y != 0 {
			return x / y, true
		}
	case "%":
		if y != 0 {
			return x % y, true
		}
	case "&":
		return x & y, true
	case ">>":
		if y >= 0 && y < 64 {
			return x >> uint(y), true
		}
	case "<<":
		if y >= 0 && y < 32 {
			return x << uint(y), true
		}
	}
	return 0, false
}

// ceilBytes: t is bitlen rounded up to bytes.
func ceilBytes(t, bitlen string, max int64) bool {
	for b := int64(57); b <= max; b++ {
		if n, ok := evalT(t, map[string]int64{bitlen: b}); !ok || n != (b+7)/8 {
			return false
		}
	}
	return true
}

// bigForm: integers of any width.
func (k *canonChk) bigForm(fn *ssa.Function, p *pPath, x string, out []encPiece, fixed bool, bad func(string, ...any)) {
	bl := ""
	for _, e := range p.evs {
		if e.op == "call" && evName(e.name) == "BitLen" && len(e.args) == 1 && e.args[0] == x {
			bl = e.res
		}
	}
	for _, e := range p.evs {
		if e.op == "call" && evName(e.name) == "Uint64" && len(e.args) == 1 && e.args[0] == x {
			q := k.prover(p, nil)
			wide := true
			if bl != "" {
				wide = !q.refuted(ltT("64", bl))
			}
			for _, o := range p.evs {
				if o.op == "call" && evName(o.name) == "IsUint64" && p.conds[o.res] {
					wide = false
				}
			}
			if wide {
				bad("an integer wider than 64 bits may be written by its low 64 bits")
			}
			k.intForm(p, e.res, out, nil, bad)
			return
		}
	}
	if bl == "" {
		bad("the integer is written without looking at its width")
		return
	}
	q := k.prover(p, nil)
	if !q.refuted(ltT(bl, "8")) {
		bad("an integer below 128 may be written with a header: %s", showPieces(out))
	}
	max := int64(1024)
	if fixed {
		max = 256
	}
	if len(out) >= 1 && out[0].op != "data" {
		// header, then the bytes
		h := out[0]
		n := h.v
		if h.op == "byte" {
			l := q.lin(h.t)
			l.k -= 0x80
			if a := linAtom(l); a != "" {
				n = a
			}
		} else if h.op == "head" && h.tag != "183" || h.op == "puthead" && (h.tag != "128" || h.tag2 != "183") {
			bad("a wide integer is written with %s", showPieces(out))
			return
		}
		if !ceilBytes(n, bl, max) {
			bad("the length given for a wide integer (%s) is not its width in whole bytes", n)
		}
		if len(out) != 2 || out[1].op != "data" {
			bad("a wide integer is written as %s", showPieces(out))
			return
		}
		d := out[1].t
		if strings.HasPrefix(d, "call#") {
			for _, e := range p.evs {
				if e.res == d && evName(e.name) == "Bytes" && e.args[0] == x {
					return
				}
			}
			bad("the bytes of a wide integer are %s", d)
			return
		}
		if l := q.length(d); !strings.HasPrefix(d, "mkslice#") || l.add(q.lin(n), -1).k != 0 {
			bad("the bytes of a wide integer are %s", d)
		}
		k.wordLoop(fn, bad)
		return
	}
	// a window at the end of a fixed buffer: B[s:], B[s] the header
	if len(out) != 1 {
		bad("a wide integer is written as %s", showPieces(out))
		return
	}
	b, lo, hi, ok := tSliced(out[0].t)
	if !ok || hi != "" {
		bad("a wide integer is written as %s", showPieces(out))
		return
	}
	h, ok := storedAt(p, b+"["+lo+"]", len(p.evs))
	if !ok {
		bad("a wide integer is written without a header")
		return
	}
	for bits := int64(65); bits <= 256; bits++ {
		at := map[string]int64{bl: bits}
		s, o1 := evalT(lo, at)
		hv, o2 := evalT(h, at)
		if n := (bits + 7) / 8; !o1 || !o2 || s != 32-n || hv != 0x80+n {
			bad("a wide integer of %d bits: header %s at %s", bits, h, lo)
			break
		}
	}
	words := map[string]string{}
	for _, e := range p.evs {
		if e.op == "call" && evName(e.name) == "PutUint64" && strings.Contains(e.name, "bigEndian") && len(e.args) >= 2 {
			words[e.args[len(e.args)-2]] = e.args[len(e.args)-1]
		}
	}
	for i := 0; i < 4; i++ {
		w := fmt.Sprintf("%s[%d:%d]", b, 1+8*i, 9+8*i)
		w2 := fmt.Sprintf("%s[%d:]", b, 1+8*i)
		want := fmt.Sprintf("*%s[%d]", x, 3-i)
		if words[w] != want && words[w2] != want {
			bad("bytes %d to %d of a wide integer are not its word %d", 8*i, 8*i+7, 3-i)
		}
	}
}

func linAtom(l tLin) string {
	if len(l.at) != 1 || l.k != 0 {
		return ""
	}
	for a, n := range l.at {
		if n == 1 {
			return a
		}
	}
	return ""
}

// wordLoop: the bytes of the words are put from the end: the value stored is
// shifted by 8 from one byte to the next, eight times a word, the place goes
// down by one.
func (k *canonChk) wordLoop(fn *ssa.Function, bad func(string, ...any)) {
	shifted, down, eight := false, false, false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				if g := x.Call.StaticCallee(); g != nil && g.Name() == "FillBytes" {
					return
				}
			case *ssa.BinOp:
				n := int64(-1)
				if c, ok := x.Y.(*ssa.Const); ok && c.Value != nil {
					n = c.Int64()
				}
				switch {
				case x.Op == token.SHR && n == 8:
					if ph, ok := x.X.(*ssa.Phi); ok && phiHas(ph, x) {
						shifted = true
					}
				case x.Op == token.SUB && n == 1:
					if ph, ok := x.X.(*ssa.Phi); ok && phiReach(ph, x) {
						down = true
					}
				case (x.Op == token.LSS || x.Op == token.GTR) && n == 8:
					eight = true
				}
			}
		}
	}
	if !shifted || !down || !eight {
		bad("the bytes of a wide integer are not put word by word, from the end")
	}
}

func phiHas(ph *ssa.Phi, v ssa.Value) bool {
	for _, e := range ph.Edges {
		if e == v {
			return true
		}
	}
	return false
}

func phiReach(ph *ssa.Phi, v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var f func(x ssa.Value) bool
	f = func(x ssa.Value) bool {
		if x == v {
			return true
		}
		q, ok := x.(*ssa.Phi)
		if !ok || seen[x] {
			return false
		}
		seen[x] = true
		for _, e := range q.Edges {
			if f(e) {
				return true
			}
		}
		return false
	}
	return f(ph)
}

func (p *pPath) callOf(name string, args ...string) *pEv {
	for i := range p.evs {
		e := &p.evs[i]
		if e.op != "call" || evName(e.name) != name || len(e.args) < len(args) {
			continue
		}
		ok := true
		for j, a := range args {
			if a != "" && e.args[j] != a {
				ok = false
			}
		}
		if ok {
			return e
		}
	}
	return nil
}

func (k *canonChk) encoders() {
	for _, n := range strings.Fields("putint intsize cachedWriter infoWhileGenerating typeNilKind list listEnd structFields firstOptionalField") {
		k.stop[n] = true
	}
	// widths
	k.putint()
	k.sizes("rlp.intsize", 0, nil, nil, 0)
	k.sizes("rlp.headsize", 0, []int64{55}, []int64{1}, 1)
	k.sizes("rlp.IntSize", 0, []int64{127}, []int64{1}, 1)

	each := func(name string, unstop []string, f func(fn *ssa.Function, p *pPath, bad func(string, ...any))) {
		fn, ps := k.get("form", name, unstop...)
		for _, p := range ps {
			k.c.ob("form", name+" "+strings.Join(p.order, ", "))
			f(fn, p, k.bad("form", fn, p))
		}
	}
	out := func(p *pPath, buf string, bad func(string, ...any)) ([]encPiece, bool) {
		o, why := k.output(p, buf)
		if why != "" {
			bad("%s", why)
			return nil, false
		}
		return o, true
	}

	// headers
	each("rlp.puthead", []string{"puthead"}, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		for _, small := range []bool{true, false} {
			q := k.prover(p, nil)
			q.extra = []string{ltT("p3", "56")}
			if !small {
				q.extra[0] = geT("p3", "56")
			}
			if q.refuted() {
				continue
			}
			h, ok := storedAt(p, "p0[0]", len(p.evs))
			if !ok {
				bad("the first byte is not set")
				continue
			}
			if small {
				if !q.equal(h, "(p1+p3)") || p.res[0] != "1" {
					bad("a size below 56 gives the header %s, %s byte(s)", h, p.res[0])
				}
				continue
			}
			e := p.callOf("putint", "p0[1:]", "p3")
			if e == nil || !q.equal(h, "(p2+"+e.res+")") || !q.equal(p.res[0], "("+e.res+"+1)") {
				bad("a size of 56 and more gives the header %s, %s byte(s)", h, p.res[0])
			}
		}
	})
	for _, fn := range k.c.p.funcsIn("rlp") {
		rlpInstrs(fn, func(in ssa.Instruction) {
			c, ok := in.(*ssa.Call)
			if !ok || c.Call.StaticCallee() == nil || fname(c.Call.StaticCallee()) != "rlp.puthead" {
				return
			}
			s, o1 := c.Call.Args[1].(*ssa.Const)
			l, o2 := c.Call.Args[2].(*ssa.Const)
			k.c.ob("tags", fname(fn))
			if !o1 || !o2 || !(s.Int64() == 0x80 && l.Int64() == 0xb7 || s.Int64() == 0xc0 && l.Int64() == 0xf7) {
				k.c.fail("tags", fname(fn), k.c.p.ipos(in), "a header is written with tags that are not those of strings or lists")
			}
		})
	}
	each("(*rlp.listhead).encode", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		e := p.callOf("puthead", "p1", "192", "247", "*p0.size")
		if e == nil || p.res[0] != "p1[:"+e.res+"]" {
			bad("a list header is not the list tags with the size of the list")
		}
	})
	// integers
	each("rlp.AppendUint64", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		if o, ok := out(p, "", bad); ok {
			k.intForm(p, "p1", o, nil, bad)
		}
	})
	each("(*rlp.encBuffer).writeUint64", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		if o, ok := out(p, "p0", bad); ok {
			k.intForm(p, "p1", o, nil, bad)
		}
	})
	each("rlp.writeUint", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		e := p.callOf("Uint", "p0")
		if e == nil {
			bad("the integer of the value is not taken")
		} else if o, ok := out(p, "p1", bad); ok {
			k.intForm(p, e.res, o, nil, bad)
		}
	})
	each("(*rlp.encBuffer).writeBigInt", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		if o, ok := out(p, "p0", bad); ok {
			k.bigForm(fn, p, "p1", o, false, bad)
		}
	})
	each("(*rlp.encBuffer).writeUint256", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		if o, ok := out(p, "p0", bad); ok {
			k.bigForm(fn, p, "p1", o, true, bad)
		}
	})
	k.stop["writeBigInt"], k.stop["writeUint256"], k.stop["writeUint64"] = true, true, true
	for _, n := range []string{"rlp.writeBigIntPtr", "rlp.writeBigIntNoPtr", "rlp.writeU256IntPtr", "rlp.writeU256IntNoPtr"} {
		n := n
		each(n, nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
			st, _ := p.errState(errIdx(fn.Signature))
			if st == "panic" {
				return
			}
			if p.res[0] != "nil" {
				st = "fail"
			}
			var w *pEv
			for i := range p.evs {
				if e := &p.evs[i]; e.op == "call" && (evName(e.name) == "writeBigInt" || evName(e.name) == "writeUint256") {
					w = e
				}
			}
			o, ok := out(p, "p1", bad)
			if !ok {
				return
			}
			null := false
			for c := range p.conds {
				if op, _, b, neg, ok := tCmp(c); ok && op == "eq" && !neg && b == "nil" && p.conds[c] {
					null = true
				}
			}
			switch {
			case st == "fail":
				neg := false
				for _, e := range p.evs {
					if e.op == "call" && evName(e.name) == "Sign" {
						q := k.prover(p, nil)
						q.signed = func(string) bool { return true }
						neg = neg || q.refuted(geT(e.res, "0"))
					}
				}
				if !neg || w != nil || len(o) != 0 {
					bad("an integer is refused that is not negative")
				}
			case null:
				if w != nil || len(o) != 1 || o[0].op != "byte" || o[0].t != "128" {
					bad("a nil integer is written as %s", showPieces(o))
				}
			default:
				if w == nil || len(o) != 0 || w.args[0] != "p1" {
					bad("the integer is not written by its one form")
					return
				}
				if evName(w.name) == "writeBigInt" {
					q := k.prover(p, nil)
					q.signed = func(string) bool { return true }
					neg := true
					for _, e := range p.evs {
						if e.op == "call" && evName(e.name) == "Sign" && e.args[0] == w.args[1] {
							// Sign answers -1, 0 or 1
							q.extra = []string{geT(e.res, "-1")}
							if q.refuted(ltT(e.res, "0")) {
								neg = false
							}
						}
					}
					if neg {
						bad("a negative integer may be written")
					}
				}
			}
		})
	}
	delete(k.stop, "writeUint64")
	each("(*rlp.encBuffer).writeBool", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		o, ok := out(p, "p0", bad)
		if !ok {
			return
		}
		want := ""
		switch {
		case p.conds["p1"]:
			want = "1"
		case p.truth("p1") == 0:
			want = "128"
		}
		if len(o) != 1 || o[0].op != "byte" || o[0].t != want {
			bad("a bool is written as %s", showPieces(o))
		}
	})
	// strings
	each("(*rlp.encBuffer).encodeStringHeader", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		o, ok := out(p, "p0", bad)
		if !ok {
			return
		}
		for _, small := range []bool{true, false} {
			q := k.prover(p, nil)
			q.extra = []string{ltT("p1", "56")}
			if !small {
				q.extra[0] = geT("p1", "56")
			}
			if !q.refuted() && (len(o) != 1 || k.headOK(q, o, 0x80, 0xb7, "p1", small) != 1) {
				bad("the header of a string (size %s) is %s", q.extra[0], showPieces(o))
			}
		}
	})
	str := func(name, buf string, data func(p *pPath) (string, string, string)) {
		each(name, nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
			if p.end == "panic" {
				return
			}
			d, n, first := data(p)
			if d == "" {
				bad("the bytes of the value are not taken")
				return
			}
			if o, ok := out(p, buf, bad); ok {
				k.strForm(p, d, n, first, o, bad)
			}
		})
	}
	whole := func(d string) (string, string, string) { return d, "len(" + d + ")", "*" + d + "[0]" }
	byCall := func(name string) func(p *pPath) (string, string, string) {
		return func(p *pPath) (string, string, string) {
			if e := p.callOf(name, "p0"); e != nil {
				for _, f := range p.evs {
					if b := "[]byte(" + e.res + ")"; strings.Contains(strings.Join(f.args, " "), b) {
						return whole(b)
					}
				}
				return whole(e.res)
			}
			return "", "", ""
		}
	}
	str("(*rlp.encBuffer).writeBytes", "p0", func(*pPath) (string, string, string) { return whole("p1") })
	str("(*rlp.encBuffer).writeString", "p0", func(p *pPath) (string, string, string) {
		for _, e := range p.evs {
			if strings.Contains(strings.Join(e.args, " "), "[]byte(p1)") {
				return whole("[]byte(p1)")
			}
		}
		return whole("p1")
	})
	str("rlp.writeBytes", "p1", byCall("Bytes"))
	str("rlp.writeString", "p1", byCall("String"))
	each("rlp.writeLengthZeroByteArray", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		if o, ok := out(p, "p1", bad); ok && (len(o) != 1 || o[0].op != "byte" || o[0].t != "128") {
			bad("an array of no bytes is written as %s", showPieces(o))
		}
	})
	each("rlp.writeLengthOneByteArray", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		e := p.callOf("Index", "p0", "0")
		if e == nil {
			bad("the byte of the array is not taken")
			return
		}
		u := p.callOf("Uint", e.res)
		if u == nil {
			bad("the byte of the array is not taken")
			return
		}
		if o, ok := out(p, "p1", bad); ok {
			q := *p
			q.order = append(append([]string(nil), p.order...), "eq{1}{1}")
			k.strForm(&q, "", "1", u.res, o, bad)
		}
	})
	if fn := k.fn("rlp.makeByteArrayWriter"); fn != nil {
		for _, g := range fn.AnonFuncs {
			each(fname(g), nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
				o, ok := out(p, "p1", bad)
				if !ok {
					return
				}
				e := p.callOf("byteArrayBytes")
				if e == nil || e.args[0] != "p0" && !strings.HasPrefix(e.args[0], "call#") {
					bad("the bytes of the array are not taken")
					return
				}
				for i, cond := range []string{ltT("len("+e.res+")", "56"), geT("len("+e.res+")", "56")} {
					q := k.prover(p, nil)
					q.extra = []string{cond}
					if !q.refuted() && (len(o) != 2 || k.headOK(q, o, 0x80, 0xb7, "len("+e.res+")", i == 0) != 1 || o[1].op != "data" || o[1].t != e.res) {
						bad("a byte array (%s) is written as %s", cond, showPieces(o))
					}
				}
			})
		}
	}
	// sizes of strings and lists
	for _, n := range []string{"rlp.StringSize", "rlp.BytesSize"} {
		n := n
		each(n, nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
			first := "*p0[0]"
			l := "len(p0)"
			for i, cond := range [][]string{
				{"eq{" + l + "}{0}"},
				{"eq{" + l + "}{1}", ltT(first, "128")},
				{"eq{" + l + "}{1}", geT(first, "128")},
				{geT(l, "2"), ltT(l, "56")},
				{geT(l, "56")},
			} {
				q := k.prover(p, func(a string) bool { return a == first })
				q.extra = cond
				if q.refuted() {
					continue
				}
				ok := false
				if h := p.callOf("headsize", l); h != nil && i != 1 && q.equal(p.res[0], "("+h.res+"+"+l+")") {
					ok = true
				}
				switch i {
				case 0, 1:
					ok = ok || q.equal(p.res[0], "1")
				case 2:
					ok = ok || q.equal(p.res[0], "2")
				case 3:
					ok = ok || q.equal(p.res[0], "(1+"+l+")")
				}
				if !ok {
					bad("the size given (for %s) is %s", strings.Join(cond, ", "), p.res[0])
				}
			}
		})
	}
	each("rlp.ListSize", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		h := p.callOf("headsize", "p0")
		q := k.prover(p, nil)
		if h == nil || !q.equal(p.res[0], "("+h.res+"+p0)") {
			bad("the size of a list is %s", p.res[0])
		}
	})
	each("(*rlp.Stream).Raw", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		if st, _ := p.errState(1); st != "ok" && st != "maybe" {
			return
		}
		kd := p.callOf("Kind", "p0")
		if kd == nil {
			bad("a raw value is taken without looking at its kind")
			return
		}
		kind, size := kd.res+".0", kd.res+".1"
		for name, tags := range map[string][2]string{"Byte": {}, "String": {"128", "183"}, "List": {"192", "247"}} {
			q := k.prover(p, nil)
			q.extra = []string{geT(kind, "0"), ltT(kind, "3"), eqTerm(kind, k.kinds[name])}
			if q.refuted() {
				continue
			}
			if name == "Byte" {
				v, ok := storedAt(p, p.res[0]+"[0]", len(p.evs))
				if !ok || v != "*p0.byteval" || p.callOf("readFull") != nil {
					bad("a single byte is answered as %s", v)
				}
				continue
			}
			ph := p.callOf("puthead", p.res[0], tags[0], tags[1], size)
			rf := p.callOf("readFull", "p0")
			if ph == nil || rf == nil {
				bad("the %s answered does not begin with its header", name)
				continue
			}
			x, lo, hi, ok := tSliced(rf.args[1])
			hs := p.callOf("headsize", size)
			if !ok || x != p.res[0] || hi != "" || hs == nil || !q.equal(lo, hs.res) {
				bad("the content of a raw %s is not read behind its header", name)
			} else if l := q.length(x); !q.equal2(l, "("+hs.res+"+"+size+")") {
				bad("the room for a raw %s is not its header and content", name)
			}
		}
	})
	k.encLists(each, out)
	k.assembly(each)
}

// assembly of the output: the string data, with every header put where its
// list begins.
func (k *canonChk) assembly(each func(string, []string, func(*ssa.Function, *pPath, func(string, ...any)))) {
	const heads = "*p0.lheads"
	headOf := func(t, field string) string {
		if strings.HasPrefix(t, "*"+heads+"[") && strings.HasSuffix(t, "]."+field) {
			return t[len(heads)+2 : len(t)-len(field)-2]
		}
		return ""
	}
	// inOrder: the headers are gone through from the first, one by one
	inOrder := func(p *pPath, i string) bool {
		q := k.prover(p, nil)
		l := q.lin(i)
		a, n := "", 0
		for x, v := range l.at {
			if v == 1 {
				a = x
			}
			n++
		}
		v := p.vars[a]
		start, err := strconv.ParseInt(v.start, 10, 64)
		for _, lp := range p.loops {
			if lp.cond == ltT(i, "len("+heads+")") && n == 1 && err == nil && start+l.k == 0 && q.same(v.next, "("+a+"+1)") {
				return true
			}
		}
		return false
	}
	each("(*rlp.encBuffer).copyTo", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		var cp, last, ph *pEv
		for i := range p.evs {
			e := &p.evs[i]
			switch {
			case e.op == "copy" && len(e.loop) > 0:
				cp = e
			case e.op == "copy":
				last = e
			case e.op == "call" && evName(e.name) == "puthead" && len(e.loop) > 0:
				ph = e
			}
		}
		if cp == nil || last == nil || ph == nil {
			bad("the output is not put together from the string data and the list headers")
			return
		}
		if cp.res == "" {
			cp.res = copyRes(p, cp)
		}
		q := k.prover(p, nil)
		i := headOf(ph.args[3], "size")
		if i == "" || ph.args[1] != "192" || ph.args[2] != "247" || !inOrder(p, i) {
			bad("the list headers are not written in their order, each with its size")
			return
		}
		d, pos, dh, ok1 := tSliced(cp.args[0])
		st, spos, shi, ok2 := tSliced(cp.args[1])
		hd, hpos, hh, ok3 := tSliced(ph.args[0])
		if !ok1 || !ok2 || !ok3 || d != "p1" || hd != "p1" || dh != "" || hh != "" || st != "*p0.str" || headOf(shi, "offset") != i {
			bad("the data before a header is not the string data up to where its list begins")
			return
		}
		n := cp.res
		if n == "" || !q.same(hpos, "("+pos+"+"+n+")") {
			n = "(" + shi + "-" + spos + ")"
		}
		pv, sv := p.vars[pos], p.vars[spos]
		switch {
		case pv.start != "0" || sv.start != "0":
			bad("the output does not begin at the first byte")
		case !q.same(hpos, "("+pos+"+"+n+")"):
			bad("a list header is put at %s", hpos)
		case !q.same(pv.next, "("+hpos+"+"+ph.res+")"):
			bad("the output goes on at %s behind a header", pv.next)
		case !q.same(sv.next, "("+spos+"+"+n+")") && !q.same(sv.next, shi):
			bad("the string data goes on at %s behind a header", sv.next)
		}
		d, lpos, lh, ok1 := tSliced(last.args[0])
		st, ls, lsh, ok2 := tSliced(last.args[1])
		if !ok1 || !ok2 || d != "p1" || st != "*p0.str" || lh != "" || lsh != "" || p.after[lpos] != pos || p.after[ls] != spos {
			bad("the data behind the last header is not the rest of the string data")
		}
	})
	each("(*rlp.encBuffer).writeTo", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		for _, lp := range p.loops {
			if lp.left {
				return // a failed write: R02
			}
		}
		q := k.prover(p, nil)
		q.signed = func(string) bool { return true }
		var data, head, last, ph *pEv
		for i := range p.evs {
			e := &p.evs[i]
			if e.op != "call" {
				continue
			}
			switch n := evName(e.name); {
			case n == "puthead":
				ph = e
			case n == "Write" && len(e.loop) == 0:
				last = e
			case n == "Write" && ph != nil:
				head = e
			case n == "Write":
				data = e
			}
		}
		if ph == nil || head == nil {
			bad("a list header is not written")
			return
		}
		i := headOf(ph.args[3], "size")
		if i == "" || ph.args[1] != "192" || ph.args[2] != "247" || !inOrder(p, i) || head.args[0] != "p1" || head.args[1] != ph.args[0]+"[:"+ph.res+"]" {
			bad("the list headers are not written in their order, each with its size")
			return
		}
		off := "*" + heads + "[" + i + "].offset"
		spos := ""
		if data != nil {
			st, lo, hi, ok := tSliced(data.args[1])
			if !ok || st != "*p0.str" || hi != off || data.args[0] != "p1" {
				bad("the data before a header is not the string data up to where its list begins")
				return
			}
			spos = lo
			if v := p.vars[spos]; !q.same(v.next, "("+spos+"+"+data.res+".0)") && !q.same(v.next, off) {
				bad("the string data goes on at %s behind a header", v.next)
			}
		} else {
			for a, v := range p.vars {
				if v.start == "0" && v.next == a && q.refuted(ltT("0", "("+off+"-"+a+")")) {
					spos = a
				}
			}
			if spos == "" {
				bad("the data before a header may be left out")
				return
			}
		}
		if p.vars[spos].start != "0" {
			bad("the output does not begin at the first byte")
		}
		rest := ""
		for a, v := range p.after {
			if v == spos {
				rest = a
			}
		}
		if last != nil {
			if last.args[0] != "p1" || last.args[1] != "*p0.str["+rest+":]" {
				bad("the data behind the last header is not the rest of the string data")
			}
		} else if !q.refuted(ltT(rest, "len(*p0.str)")) {
			bad("the data behind the last header may be left out")
		}
	})
	each("(*rlp.encReader).next", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		q := k.prover(p, nil)
		q.signed = func(string) bool { return true }
		const b = "*p0.buf"
		if p.truth(eqTerm(b, "nil")) == 1 {
			if p.res[0] != "nil" {
				bad("a reader without data answers %s", p.res[0])
			}
			return
		}
		if p.truth(eqTerm("*p0.piece", "nil")) != 1 {
			if p.truth(eqTerm("*p0.piece", "nil")) < 0 || p.res[0] != "*p0.piece" {
				bad("the piece not read to its end is not gone on with")
			}
			return
		}
		set := map[string]string{}
		for _, e := range p.evs {
			if e.op == "store" && len(e.args) == 2 && strings.HasPrefix(e.args[0], "p0.") {
				set[e.args[0]] = e.args[1]
			}
		}
		more := ltT("*p0.lhpos", "len(*"+b+".lheads)")
		off := "**" + b + ".lheads[*p0.lhpos].offset"
		str := "*" + b + ".str"
		same := func(place, want string) bool {
			if want == "" {
				return set[place] == ""
			}
			return set[place] != "" && q.same(set[place], want)
		}
		ok := false
		switch x, lo, hi, sl := tSliced(p.res[0]); {
		case p.res[0] == "nil":
			ok = q.refuted(more) && q.refuted(ltT("*p0.strpos", "len("+str+")")) && len(set) == 0
		case sl && x == str && lo == "*p0.strpos" && hi == "":
			ok = q.refuted(more) && same("p0.strpos", "len("+str+")") && same("p0.lhpos", "")
		case sl && x == str && lo == "*p0.strpos":
			ok = q.holds(more) && hi == off && same("p0.strpos", off) && same("p0.lhpos", "")
		default:
			e := p.callOf("puthead", "", "192", "247", "**"+b+".lheads[*p0.lhpos].size")
			ok = e != nil && p.res[0] == e.args[0]+"[:"+e.res+"]" && q.holds(more) && q.refuted(ltT("*p0.strpos", off)) && same("p0.lhpos", "(*p0.lhpos+1)") && same("p0.strpos", "")
		}
		if !ok {
			bad("the next piece is %s, the place becomes %v", p.res[0], set)
		}
	})
	k.stop["next"] = true
	each("(*rlp.encReader).Read", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		q := k.prover(p, nil)
		q.signed = func(string) bool { return true }
		nx := p.callOf("next", "p0")
		var cp *pEv
		for i := range p.evs {
			if p.evs[i].op == "copy" {
				cp = &p.evs[i]
			}
		}
		if nx == nil || cp == nil {
			bad("the pieces are not copied to the reader's buffer")
			return
		}
		x, pos, hi, ok := tSliced(cp.args[0])
		if !ok || x != "p1" || hi != "" || cp.args[1] != nx.res && cp.args[1] != "*p0.piece" {
			bad("a piece is not copied behind what was read")
			return
		}
		v := p.vars[pos]
		n := copyRes(p, cp)
		if v.start != "0" {
			bad("reading does not begin at the first byte")
		}
		if left := v.next == ""; left {
			st, _ := storedAt(p, "p0.piece", len(p.evs))
			if !q.same(p.res[0], "("+pos+"+"+n+")") || st != nx.res+"["+n+":]" || p.res[1] != "nil" {
				bad("the rest of a piece is not kept, or the count is %s", p.res[0])
			}
			return
		}
		if !q.same(v.next, "("+pos+"+"+n+")") || !q.refuted(ltT(n, "len("+nx.res+")")) {
			bad("the place behind a piece is %s", v.next)
		}
		if p.after[p.res[0]] != pos {
			bad("the count at the end is %s", p.res[0])
		}
	})
	delete(k.stop, "next")
}

// copyRes: the term of what a copy answers.
func copyRes(p *pPath, e *pEv) string {
	if e.res != "" {
		return e.res
	}
	for _, v := range p.vars {
		if r := findCopy(v.next); r != "" {
			return r
		}
	}
	for _, t := range append(append([]string(nil), p.res...), p.order...) {
		if r := findCopy(t); r != "" {
			return r
		}
	}
	return ""
}

func findCopy(t string) string {
	i := strings.Index(t, "copy#")
	if i < 0 {
		return ""
	}
	j := i + 5
	for j < len(t) && t[j] >= '0' && t[j] <= '9' {
		j++
	}
	return t[i:j]
}

func (q *tProver) equal2(l tLin, b string) bool {
	d := l.add(q.lin(b), -1)
	return len(d.at) == 0 && d.k == 0
}

func (k *canonChk) encLists(each func(string, []string, func(*ssa.Function, *pPath, func(string, ...any))), out func(*pPath, string, func(string, ...any)) ([]encPiece, bool)) {
	// the header stack
	each("(*rlp.encBuffer).list", []string{"list"}, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		h := map[string]string{}
		lst := ""
		for _, e := range p.evs {
			if e.op != "store" || len(e.args) != 2 {
				continue
			}
			switch {
			case strings.HasSuffix(e.args[0], ".offset"):
				h["offset"] = e.args[1]
			case strings.HasSuffix(e.args[0], ".size"):
				h["size"] = e.args[1]
			case e.args[0] == "p0.lheads":
				lst = e.args[1]
			}
		}
		if h["offset"] != "len(*p0.str)" || h["size"] != "*p0.lhsize" {
			bad("a list header does not note where the list begins (%v)", h)
		}
		q := k.prover(p, nil)
		if !strings.HasPrefix(lst, "append(*p0.lheads, ") || !(q.same(p.res[0], "(len("+lst+")-1)") || p.res[0] == "len(*p0.lheads)") {
			bad("the index of the list header is %s", p.res[0])
		}
	})
	each("(*rlp.encBuffer).listEnd", []string{"listEnd"}, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		lh := "*p0.lheads[p1]"
		var size, grow string
		for _, e := range p.evs {
			if e.op != "store" || len(e.args) != 2 {
				continue
			}
			switch e.args[0] {
			case lh + ".size":
				size = e.args[1]
			case "p0.lhsize":
				grow = e.args[1]
			default:
				bad("closing a list changes %s", e.args[0])
			}
		}
		q := k.prover(p, nil)
		q.signed = func(string) bool { return true }
		want := "(((len(*p0.str)+*p0.lhsize)-*" + lh + ".offset)-*" + lh + ".size)"
		if size == "" || !q.same(size, want) {
			bad("the size noted for a list is %s", size)
			return
		}
		for _, small := range []bool{true, false} {
			q := k.prover(p, nil)
			q.signed = func(string) bool { return true }
			q.extra = []string{ltT(size, "56")}
			if !small {
				q.extra[0] = geT(size, "56")
			}
			if q.refuted() {
				continue
			}
			ok := small && q.equal(grow, "(*p0.lhsize+1)")
			for _, e := range p.evs {
				if e.op != "call" || len(e.args) != 1 || !q.same(e.args[0], size) {
					continue
				}
				switch evName(e.name) {
				case "intsize":
					ok = ok || !small && q.equal(grow, "(*p0.lhsize+(1+"+e.res+"))")
				case "headsize":
					ok = ok || q.equal(grow, "(*p0.lhsize+"+e.res+")")
				}
			}
			if !ok {
				bad("the size of the list headers (%s) becomes %s", q.extra[0], grow)
			}
		}
	})
	each("(*rlp.encBuffer).size", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		q := k.prover(p, nil)
		if !q.same(p.res[0], "(len(*p0.str)+*p0.lhsize)") {
			bad("the size of the output is %s", p.res[0])
		}
	})
	// lists opened are closed, on every path that succeeds
	n := 0
	for _, fn := range k.c.p.funcsIn("rlp") {
		uses := false
		rlpInstrs(fn, func(in ssa.Instruction) {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && fname(c.Call.StaticCallee()) == "(*rlp.encBuffer).list" {
				uses = true
			}
		})
		if !uses || fn.Name() == "List" {
			continue
		}
		n++
		each(fname(fn), nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
			if ei := errIdx(fn.Signature); ei >= 0 {
				if st, _ := p.errState(ei); st != "ok" && st != "maybe" {
					return
				}
			}
			open := []string{}
			for _, e := range p.evs {
				if e.op != "call" {
					continue
				}
				switch evName(e.name) {
				case "list":
					open = append(open, e.res)
				case "listEnd":
					if len(open) == 0 || e.args[1] != open[len(open)-1] {
						bad("the list closed (%s) is not the one opened last", e.args[1])
						return
					}
					open = open[:len(open)-1]
				}
			}
			if len(open) > 0 {
				bad("a list is opened and not closed")
			}
			if len(p.evs) > 0 && p.callOf("list") == nil {
				o, ok := out(p, "p1", bad)
				if ok && len(o) > 0 && (len(o) != 1 || o[0].op != "byte" || o[0].t != "192") {
					bad("an empty list is written as %s", showPieces(o))
				}
				empty := false
				for _, c := range p.order {
					if op, _, b, neg, ok := tCmp(c); ok && op == "eq" && b == "0" && !neg {
						empty = true
					}
				}
				if ok && len(o) > 0 && !empty {
					bad("a list that is not empty may be written as %s", showPieces(o))
				}
				if ok && len(o) == 0 {
					bad("a list is not written")
				}
			}
		})
	}
	if n < 3 {
		k.c.note("%d encoders open lists, 3 were known", n)
	}
	// nil
	each("rlp.writeInterface", nil, func(fn *ssa.Function, p *pPath, bad func(string, ...any)) {
		e := p.callOf("IsNil", "p0")
		if e == nil {
			bad("a nil interface is not looked for")
			return
		}
		o, ok := out(p, "p1", bad)
		if ok && p.truth(e.res) == 1 && (len(o) != 1 || o[0].op != "byte" || o[0].t != "192") {
			bad("a nil interface is written as %s", showPieces(o))
		}
		if ok && p.truth(e.res) != 1 && len(o) != 0 {
			bad("the value of an interface is written as %s", showPieces(o))
		}
	})
	if fn, ps := k.get("form", "rlp.makePtrWriter"); fn != nil {
		for _, p := range ps {
			if st, _ := p.errState(1); st != "ok" {
				continue
			}
			bad := k.bad("form", fn, p)
			k.c.ob("form", fname(fn))
			e := p.callOf("typeNilKind")
			ne := ""
			for _, ev := range p.evs {
				if ev.op == "store" && len(ev.args) == 2 && (ev.args[1] == "192" || ev.args[1] == "128") {
					ne = ev.args[1]
				}
			}
			if e == nil {
				bad("the form of a nil pointer does not depend on the element")
				continue
			}
			switch p.truth(eqTerm(e.res, k.kinds["String"])) {
			case 1:
				if ne != "128" {
					bad("a nil pointer to a string is written as %s", ne)
				}
			default:
				if ne != "192" {
					bad("a nil pointer to a list is written as %s", ne)
				}
			}
		}
	}
}

func rlpInstrs(fn *ssa.Function, f func(ssa.Instruction)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			f(in)
		}
	}
}
