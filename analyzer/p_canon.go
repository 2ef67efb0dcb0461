package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// R05: RLP has one encoding for each value, and decoding takes no other. Each
// header and value decoder is walked path by path; the conditions of a path
// must exclude everything that is not canonical where it succeeds, and
// everything canonical where it refuses.

type canonChk struct {
	c     *Ctx
	kinds map[string]string // Byte, String, List
	stop  map[string]bool
	gone  int
}

// functions the others are described by; each has its own obligations
var rlpPrims = "Kind readKind readFull readUint readByte readSize willRead listLimit wrapStreamError addErrorContext byteArrayBytes List ListEnd Decode Reset zeroFields decodeSliceElems decodeListSlice headsize puthead Split SplitString"

func (k *canonChk) paths(fn *ssa.Function, unstop ...string) ([]*pPath, string) {
	ps, why := eventPaths(k.c.p, fn, func(g *ssa.Function) bool {
		for _, u := range unstop {
			if g.Name() == u {
				return true
			}
		}
		return !k.stop[g.Name()] || fnPkg(g) != fnPkg(fn)
	}, nil)
	var out []*pPath
	for _, p := range ps {
		if !p.wrapClash() {
			out = append(out, p)
		}
	}
	return out, why
}

// wrapClash: an error wrapped is nil exactly when the error is.
func (p *pPath) wrapClash() bool {
	null := func(t string) int {
		switch {
		case t == "nil":
			return 1
		case strings.HasPrefix(t, "err:"), strings.HasPrefix(t, "err#"), strings.HasPrefix(t, "new#"):
			return 0
		}
		if v := p.truth(eqTerm(t, "nil")); v >= 0 {
			return v
		}
		for _, c := range p.order {
			if op, a, b, neg, ok := tCmp(c); ok && op == "eq" && !neg && a == t && strings.HasPrefix(b, "err:") {
				return 0
			}
		}
		return -1
	}
	val := map[string]int{}
	for _, e := range p.evs {
		if n := evName(e.name); e.op == "call" && len(e.args) > 0 && (n == "wrapStreamError" || n == "addErrorContext") {
			a, ok := val[e.args[0]]
			if !ok {
				a = null(e.args[0])
			}
			r := null(e.res)
			if a >= 0 && r >= 0 && a != r {
				return true
			}
			val[e.res] = a
			if a < 0 {
				val[e.res] = r
			}
		}
	}
	return false
}

// errNil: the error is nil, itself or wrapped.
func (p *pPath) errNil(t string) bool {
	for d := 0; d < 5; d++ {
		if p.truth(eqTerm(t, "nil")) == 1 {
			return true
		}
		next := ""
		for _, e := range p.evs {
			if n := evName(e.name); e.op == "call" && len(e.args) > 0 && e.args[0] == t && (n == "wrapStreamError" || n == "addErrorContext") {
				next = e.res
			}
		}
		if next == "" {
			return false
		}
		t = next
	}
	return false
}

func (p *pPath) event(name string) *pEv {
	for i := range p.evs {
		if e := &p.evs[i]; e.op == "call" && evName(e.name) == name {
			return e
		}
	}
	return nil
}

func evName(s string) string {
	return s[strings.LastIndexByte(s, '.')+1:]
}

// errState of a path: ok, fail (an error made here), call (the failure of a
// call made on the path) or maybe (whatever that call reports).
func (p *pPath) errState(i int) (string, string) {
	if p.end != "return" || i >= len(p.res) {
		return "panic", ""
	}
	t := p.res[i]
	for d := 0; d < 5; d++ {
		sw := false
		for _, e := range p.evs {
			if n := evName(e.name); e.op == "call" && e.res == t && len(e.args) > 0 && (n == "wrapStreamError" || n == "addErrorContext") {
				t, sw = e.args[0], true
			}
		}
		if !sw {
			break
		}
	}
	switch {
	case t == "nil":
		return "ok", t
	case strings.HasPrefix(t, "err:"), strings.HasPrefix(t, "err#"), strings.HasPrefix(t, "new#"):
		// the failure of a call, reported under another name?
		for _, c := range p.order {
			op, a, b, neg, ok := tCmp(c)
			if ok && op == "eq" && strings.HasPrefix(a, "call#") && (b == "nil" && neg || strings.HasPrefix(b, "err:") && !neg) {
				return "call", a
			}
		}
		return "fail", t
	}
	switch p.truth(eqTerm(t, "nil")) {
	case 1:
		return "ok", t
	case 0:
		return "call", t
	}
	return "maybe", t
}

func (k *canonChk) prover(p *pPath, byt func(string) bool) *tProver {
	return &tProver{p: p, byt: byt, signed: func(a string) bool { return strings.HasSuffix(a, "p0.kind") }}
}

func (k *canonChk) fn(name string) *ssa.Function {
	for _, f := range k.c.p.funcsIn("rlp") {
		if fname(f) == name {
			return f
		}
	}
	k.c.note("%s is gone; what it did is looked at where it is done", name)
	k.gone++
	return nil
}

type rlpClass struct {
	kind   string
	lo, hi int64
	base   int64
	long   bool
}

var rlpClasses = []rlpClass{
	{"Byte", 0, 0x7f, 0, false},
	{"String", 0x80, 0xb7, 0x80, false},
	{"String", 0xb8, 0xbf, 0xb7, true},
	{"List", 0xc0, 0xf7, 0xc0, false},
	{"List", 0xf8, 0xff, 0xf7, true},
}

func (c rlpClass) String() string {
	l := ""
	if c.long {
		l = " long"
	}
	return fmt.Sprintf("%#x-%#x%s %s", c.lo, c.hi, l, c.kind)
}

func iterm(n int64) string { return strconv.FormatInt(n, 10) }

func ltT(a, b string) string { return "lt{" + a + "}{" + b + "}" }
func geT(a, b string) string { return "!lt{" + a + "}{" + b + "}" }

// elemIdx: the byte X[i] as a place relative to the whole of X, for constant
// offsets.
func normElem(t string) string {
	for strings.HasPrefix(t, "*") && strings.HasSuffix(t, "]") {
		i := strings.LastIndexByte(t, '[')
		n, err := strconv.Atoi(t[i+1 : len(t)-1])
		if err != nil {
			return t
		}
		x, lo, _, ok := tSliced(t[1:i])
		if !ok {
			return t
		}
		l := 0
		if lo != "" {
			if l, err = strconv.Atoi(lo); err != nil {
				return t
			}
		}
		t = "*" + x + "[" + strconv.Itoa(l+n) + "]"
	}
	return t
}

func (k *canonChk) header(fn *ssa.Function, stream bool) {
	if fn == nil {
		return
	}
	ps, why := k.paths(fn)
	if why != "" {
		k.c.fail("header", fname(fn), k.c.p.pos(fn.Pos()), "%s", "the header decoder cannot be followed: "+why)
		return
	}
	ei := errIdx(fn.Signature)
	reached := map[string]bool{}
	for _, p := range ps {
		bad := func(f string, a ...any) {
			k.c.fail("header", fname(fn), k.c.p.ipos(p.at), "%s", fmt.Sprintf(f, a...)+" (path: "+strings.Join(p.order, ", ")+")")
		}
		tag := "*p0[0]"
		if stream {
			e := p.event("readByte")
			if e == nil {
				bad("a header is answered without reading its first byte")
				continue
			}
			tag = e.res + ".0"
		}
		st, et := p.errState(ei)
		byt := func(a string) bool { return a == tag || strings.HasPrefix(a, "*p0[") }
		for _, cl := range rlpClasses {
			q := k.prover(p, byt)
			q.extra = []string{geT(tag, iterm(cl.lo)), ltT(tag, iterm(cl.hi+1))}
			if !stream {
				q.extra = append(q.extra, ltT("0", "len(p0)"))
			}
			if q.refuted() {
				continue
			}
			// the size as the header gives it
			size, ts := "", "1"
			var rd *pEv
			switch {
			case cl.kind == "Byte" && !stream:
				size, ts = "1", "0"
			case cl.kind == "Byte":
				size = "0"
			case !cl.long:
				size = "(" + tag + "-" + iterm(cl.base) + ")"
			default:
				ts = "((" + tag + "-" + iterm(cl.base) + ")+1)"
				n := "readSize"
				if stream {
					n = "readUint"
				}
				if rd = p.event(n); rd != nil {
					size = rd.res + ".0"
					want := "p0"
					if !stream {
						want = "p0[1:]"
					}
					if len(rd.args) != 2 || rd.args[0] != want || !q.equal(rd.args[1], "("+tag+"-"+iterm(cl.base)+")") {
						bad("the length of the length of a %s value is not the first byte less %#x", cl, cl.base)
					}
				}
			}
			switch st {
			case "ok", "maybe":
				if cl.long && rd == nil {
					bad("a %s value is accepted without reading its length", cl)
					continue
				}
				if cl.long {
					if st == "maybe" && et != rd.res+".1" || st == "ok" && p.truth(eqTerm(rd.res+".1", "nil")) != 1 {
						bad("a %s value is accepted although its length could not be read", cl)
					}
				}
				reached[cl.String()] = true
				k.c.obn("header", 1)
				if p.res[0] != k.kinds[cl.kind] {
					bad("a value starting with %s is taken for kind %s", cl, p.res[0])
				}
				si := 2
				if stream {
					si = 1
				}
				if !q.equal(p.res[si], size) {
					bad("the size of a %s value is %s, not %s", cl, p.res[si], size)
				}
				if stream {
					if cl.kind == "Byte" {
						v := ""
						for _, e := range p.evs {
							if e.op == "store" && e.args[0] == "p0.byteval" {
								v = e.args[1]
							}
						}
						if v != tag {
							bad("the value of a single byte is not remembered")
						}
					}
					if cl.long && !(st == "maybe") && !q.refuted(ltT(size, "56")) {
						bad("a %s value shorter than 56 bytes is accepted", cl)
					}
					continue
				}
				if !q.equal(p.res[1], ts) {
					bad("the header size of a %s value is %s, not %s", cl, p.res[1], ts)
				}
				if !q.refuted(ltT("(len(p0)-"+ts+")", size)) {
					bad("a %s value reaching beyond the input is accepted", cl)
				}
				if cl.kind == "String" && !cl.long && !q.refuted("eq{"+tag+"}{129}", ltT("1", "len(p0)"), ltT("*p0[1]", "128")) {
					bad("a single byte below 0x80 is accepted with a header")
				}
			case "fail":
				if stream {
					if e := p.event("readByte"); p.truth(eqTerm(e.res+".1", "nil")) == 0 {
						continue
					}
				}
				k.c.obn("refuse", 1)
				var alts [][]string
				switch {
				case cl.kind == "String" && !cl.long && !stream:
					alts = [][]string{{ltT(tag, "129")}, {ltT("129", tag)}, {"eq{" + tag + "}{129}", geT("*p0[1]", "128")}}
				case cl.long && rd == nil:
					bad("a %s value is refused without reading its length", cl)
					continue
				case cl.long:
					alts = [][]string{{geT(size, "56")}}
				default:
					alts = [][]string{nil}
				}
				for _, a := range alts {
					if !stream {
						a = append(a, geT("(len(p0)-"+ts+")", size), geT("len(p0)", ts))
					}
					if !q.refuted(a...) {
						bad("a canonical %s value is refused (%s)", cl, et)
						break
					}
				}
			}
		}
	}
	for _, cl := range rlpClasses {
		if !reached[cl.String()] {
			k.c.fail("header", fname(fn), k.c.p.pos(fn.Pos()), "%s", fmt.Sprintf("no %s value is ever accepted", cl))
		}
	}
}

// bigEndian: the term is the big endian number of b[0..n-1].
func bigEndian(t, b string, n int) bool {
	got := map[int]int{}
	var walk func(t string, sh int) bool
	walk = func(t string, sh int) bool {
		if x, op, y, ok := tBin(t); ok {
			switch op {
			case "|", "+", "^":
				return walk(x, sh) && walk(y, sh)
			case "<<":
				s, err := strconv.Atoi(y)
				return err == nil && walk(x, sh+s)
			case "*":
				s, err := strconv.Atoi(y)
				if err != nil || s != 256 {
					return false
				}
				return walk(x, sh+8)
			}
			return false
		}
		if t == "0" {
			return true
		}
		t = normElem(t)
		if !strings.HasPrefix(t, "*"+b+"[") || !strings.HasSuffix(t, "]") {
			return false
		}
		i, err := strconv.Atoi(t[len(b)+2 : len(t)-1])
		if err != nil {
			return false
		}
		if _, dup := got[i]; dup {
			return false
		}
		got[i] = sh
		return true
	}
	if !walk(t, 0) || len(got) != n {
		return false
	}
	for i := 0; i < n; i++ {
		if s, ok := got[i]; !ok || s != 8*(n-1-i) {
			return false
		}
	}
	return true
}

// shiftLoop: v is a loop variable starting at 0 and taking in one byte of the
// slice at a time, most significant first.
func shiftLoop(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			zero, step := false, false
			for _, e := range phi.Edges {
				if c, ok := e.(*ssa.Const); ok && c.Value != nil && constant.Sign(c.Value) == 0 {
					zero = true
				}
				o, ok := e.(*ssa.BinOp)
				if !ok || o.Op.String() != "|" && o.Op.String() != "+" {
					continue
				}
				for _, xy := range [][2]ssa.Value{{o.X, o.Y}, {o.Y, o.X}} {
					sh, ok := xy[0].(*ssa.BinOp)
					if !ok || sh.Op.String() != "<<" || sh.X != ssa.Value(phi) {
						continue
					}
					if c, ok := sh.Y.(*ssa.Const); !ok || c.Int64() != 8 {
						continue
					}
					v := xy[1]
					if cv, ok := v.(*ssa.Convert); ok {
						v = cv.X
					}
					if u, ok := v.(*ssa.UnOp); ok {
						if _, ok := u.X.(*ssa.IndexAddr); ok {
							step = true
						}
					}
				}
			}
			if zero && step {
				return true
			}
		}
	}
	return false
}

func (k *canonChk) readSize(fn *ssa.Function) {
	if fn == nil {
		return
	}
	ps, why := k.paths(fn)
	if why != "" {
		k.c.fail("length", fname(fn), k.c.p.pos(fn.Pos()), "%s", "cannot be followed: "+why)
		return
	}
	loop := shiftLoop(fn)
	seen := map[int]bool{}
	for _, p := range ps {
		bad := func(f string, a ...any) {
			k.c.fail("length", fname(fn), k.c.p.ipos(p.at), "%s", fmt.Sprintf(f, a...)+" (path: "+strings.Join(p.order, ", ")+")")
		}
		q := k.prover(p, func(a string) bool { return strings.HasPrefix(a, "*p0[") || a == "p1" })
		q.extra = []string{ltT("0", "p1"), ltT("p1", "9")}
		if q.refuted() {
			continue
		}
		st, et := p.errState(1)
		switch st {
		case "ok":
			k.c.obn("length", 1)
			v := p.res[0]
			if !q.refuted("eq{*p0[0]}{0}") {
				bad("a length with a leading zero is accepted")
			}
			if !q.refuted(ltT(v, "56")) {
				bad("a length below 56 in the long form is accepted")
			}
			if !q.refuted(ltT("len(p0)", "p1")) {
				bad("a length reaching beyond the input is accepted")
			}
			if loop && (strings.Contains(v, "after#") || strings.Contains(v, "loopvar#") || strings.Contains(v, "iter#")) {
				seen[0] = true
				continue
			}
			any := false
			for n := 1; n <= 8; n++ {
				if q.refuted("eq{p1}{" + iterm(int64(n)) + "}") {
					continue
				}
				any = true
				if !bigEndian(v, "p0", n) {
					bad("a length of %d bytes is read as %s", n, v)
				} else {
					seen[n] = true
				}
			}
			if !any {
				continue
			}
		case "fail":
			k.c.obn("length", 1)
			v := ""
			for _, c := range p.order {
				if op, a, b, _, ok := tCmp(c); ok && op == "lt" {
					for _, x := range []string{a, b} {
						if bigEndianAny(x) || loop && strings.Contains(x, "#") {
							v = x
						}
					}
				}
			}
			ex := []string{geT("len(p0)", "p1"), "!eq{*p0[0]}{0}"}
			if v != "" {
				ex = append(ex, geT(v, "56"))
			}
			if !q.refuted(ex...) {
				bad("a canonical length is refused (%s)", et)
			}
		}
	}
	for n := 1; n <= 8 && !seen[0]; n++ {
		if !seen[n] {
			k.c.fail("length", fname(fn), k.c.p.pos(fn.Pos()), "lengths of %d bytes are not read", n)
		}
	}
}

func bigEndianAny(t string) bool {
	for n := 1; n <= 8; n++ {
		if bigEndian(t, "p0", n) {
			return true
		}
	}
	return false
}

// readUint: an integer or length of size bytes from the stream.
func (k *canonChk) readUint(fn *ssa.Function) {
	if fn == nil {
		return
	}
	ps, why := k.paths(fn)
	if why != "" {
		k.c.fail("length", fname(fn), k.c.p.pos(fn.Pos()), "%s", "cannot be followed: "+why)
		return
	}
	for _, p := range ps {
		bad := func(f string, a ...any) {
			k.c.fail("length", fname(fn), k.c.p.ipos(p.at), "%s", fmt.Sprintf(f, a...)+" (path: "+strings.Join(p.order, ", ")+")")
		}
		st, et := p.errState(1)
		for n := int64(0); n <= 8; n++ {
			q := k.prover(p, func(a string) bool { return strings.HasSuffix(a, "]") })
			q.extra = []string{"eq{p1}{" + iterm(n) + "}"}
			if q.refuted() {
				continue
			}
			k.c.obn("length", 1)
			rb, rf := p.event("readByte"), p.event("readFull")
			switch st {
			case "ok", "maybe":
				switch {
				case n == 0:
					if !q.equal(p.res[0], "0") || rb != nil || rf != nil || !p.rearmed(-1) {
						bad("an integer of no bytes is not zero, or the next header is not read afterwards")
					}
				case rb != nil && rf == nil:
					if n != 1 || p.res[0] != rb.res+".0" || st == "maybe" && et != rb.res+".1" || st == "ok" && p.truth(eqTerm(rb.res+".1", "nil")) != 1 {
						bad("an integer of %d bytes is read as a single byte", n)
					}
				case rf == nil:
					bad("an integer of %d bytes is not read", n)
				default:
					if p.truth(eqTerm(rf.res, "nil")) != 1 {
						bad("the bytes of an integer are used although reading them failed")
						continue
					}
					x := rf.args[1]
					if d := q.length(x); len(d.add(q.lin(iterm(n)), -1).at) != 0 && !q.equal("len("+x+")", iterm(n)) {
						bad("%s bytes are read for an integer of %d bytes", d, n)
					}
					first := "*" + x + "[0]"
					whole, lo, _, sl := tSliced(x)
					if sl && lo != "" {
						// the place where the slice starts
						first = "*" + whole + "[" + lo + "]"
					}
					if n > 1 && !q.refuted("eq{"+first+"}{0}") && !q.refuted("eq{*"+x+"[0]}{0}") {
						bad("an integer of %d bytes with a leading zero is accepted", n)
					}
					be := p.event("Uint64")
					okv := false
					if be != nil && p.res[0] == be.res && strings.Contains(be.name, "bigEndian") && sl {
						// the last n of eight bytes, the others cleared before
						w := be.args[len(be.args)-1]
						okv = w == whole && len(q.length(w).at) == 0 && q.length(w).k == 8 && q.equal(lo, iterm(8-n)) && k.cleared(p, w, rf)
					}
					if strings.Contains(p.res[0], "#") && shiftLoop(fn) {
						okv = true
					}
					if !okv {
						bad("an integer of %d bytes is not read as the big endian number of just these bytes", n)
					}
				}
			case "fail":
				if rf == nil || n < 2 {
					bad("an integer of %d bytes is refused (%s)", n, et)
					continue
				}
				x := rf.args[1]
				first := "*" + x + "[0]"
				if whole, lo, _, ok := tSliced(x); ok && lo != "" {
					first = "*" + whole + "[" + lo + "]"
				}
				if !q.refuted("!eq{"+first+"}{0}") && !q.refuted("!eq{*"+x+"[0]}{0}") {
					bad("a canonical integer of %d bytes is refused (%s)", n, et)
				}
			}
		}
	}
}

func (a tLin) String() string {
	s := strconv.FormatInt(a.k, 10)
	for k, v := range a.at {
		s += fmt.Sprintf("%+d*%s", v, k)
	}
	return s
}

// cleared: all elements of w are zeroed before the event at.
func (k *canonChk) cleared(p *pPath, w string, at *pEv) bool {
	base, _, _, _ := tSliced(w)
	for i := range p.evs {
		e := &p.evs[i]
		if e == at {
			return false
		}
		if e.op != "store" || len(e.args) != 2 {
			continue
		}
		if e.args[1] == "zero" && (e.args[0] == base || e.args[0] == w) {
			return true
		}
		if e.args[1] == "0" && strings.HasPrefix(e.args[0], w+"[") && len(e.loop) == 1 {
			it := e.loop[0]
			idx := e.args[0][len(w)+1 : len(e.args[0])-1]
			l := p.loops[it]
			q := k.prover(p, nil)
			start, err := strconv.Atoi(l.start)
			if err != nil || l.step != "+1" || l.left {
				continue
			}
			off := q.lin(idx).add(q.lin(it), -1)
			if len(off.at) != 0 || off.k+int64(start) != 0 {
				continue
			}
			op, a, b, neg, ok := tCmp(l.cond)
			if ok && op == "lt" && !neg && q.lin(a).add(q.lin(idx), -1).k == 0 && len(q.lin(a).add(q.lin(idx), -1).at) == 0 && len(q.length(w).add(q.lin(b), -1).at) == 0 && q.length(w).add(q.lin(b), -1).k == 0 {
				return true
			}
		}
	}
	return false
}

// rearmed: the stream forgets the header it has read, after event i.
func (p *pPath) rearmed(i int) bool {
	for j, e := range p.evs {
		if j > i && e.op == "store" && e.args[0] == "p0.kind" && strings.HasPrefix(e.args[1], "-") {
			return true
		}
	}
	return false
}

func (p *pPath) indexOf(e *pEv) int {
	for i := range p.evs {
		if &p.evs[i] == e {
			return i
		}
	}
	return -1
}

func (k *canonChk) init() {
	k.kinds = map[string]string{}
	k.stop = map[string]bool{}
	for _, n := range strings.Fields(rlpPrims) {
		k.stop[n] = true
	}
	pk := k.c.p.pkg("rlp")
	if pk == nil {
		return
	}
	for _, n := range []string{"Byte", "String", "List"} {
		if c, ok := pk.Pkg.Scope().Lookup(n).(*types.Const); ok {
			v, _ := constant.Int64Val(c.Val())
			k.kinds[n] = iterm(v)
		}
	}
}

func init() {
	register("R05", "canonical RLP: path conditions of the header and value decoders exclude every non-canonical form and admit every canonical one; consumed exactly; lists are closed", "rlp", func(c *Ctx) {
		k := &canonChk{c: c}
		k.init()
		k.header(k.fn("rlp.readKind"), false)
		k.header(k.fn("(*rlp.Stream).readKind"), true)
		k.readSize(k.fn("rlp.readSize"))
		k.readUint(k.fn("(*rlp.Stream).readUint"))
		k.values()
		k.limits()
		k.lists()
		k.splits()
		k.encoders()
		if k.gone > 12 {
			c.fail("function", "count", "rlp", "%d functions of the RLP coding are gone", k.gone)
		}
	})
}
