package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// G04, widths: a byte string of any length becomes a value of fixed size by
// keeping its last bytes (numbers and hashes are big-endian: the end of the
// value is the end of the input) and by leaving zeros in front. Every path of
// the conversion functions is followed with linear terms over len(input).

type padSlice struct {
	root     string
	off, len lin
}

func (s padSlice) String() string { return fmt.Sprintf("%s[%s:+%s]", s.root, s.off, s.len) }

type padState struct {
	ints  map[ssa.Value]lin
	seqs  map[ssa.Value]padSlice
	alias map[string]padSlice // buffers that hold the end of the input
	conds []lin               // each >= 0
	sink  bool
	seen  map[*ssa.BasicBlock]bool
	steps []string
}

func (s *padState) clone() *padState {
	t := &padState{map[ssa.Value]lin{}, map[ssa.Value]padSlice{}, map[string]padSlice{}, append([]lin(nil), s.conds...), s.sink, map[*ssa.BasicBlock]bool{}, append([]string(nil), s.steps...)}
	for k, v := range s.ints {
		t.ints[k] = v
	}
	for k, v := range s.seqs {
		t.seqs[k] = v
	}
	for k, v := range s.alias {
		t.alias[k] = v
	}
	for k := range s.seen {
		t.seen[k] = true
	}
	return t
}

// ge: d >= 0 follows from one condition of the path or from d itself.
func (s *padState) ge(d lin) bool {
	nonneg := func(l lin) bool {
		if l.k < 0 {
			return false
		}
		for x, c := range l.at {
			if c < 0 || !strings.HasPrefix(x, "len") {
				return false
			}
		}
		return true
	}
	if nonneg(d) {
		return true
	}
	for _, c := range s.conds {
		if nonneg(d.plus(c, -1)) {
			return true
		}
	}
	return false
}

func (s *padState) zero(d lin) bool {
	return len(d.at) == 0 && d.k == 0 || s.ge(d) && s.ge(d.neg())
}

// dead: the conditions contradict each other.
func (s *padState) dead() bool {
	for _, c := range s.conds {
		if len(c.at) == 0 && c.k < 0 {
			return true
		}
		if s.ge(c.neg().plus(newLin(1), -1)) {
			return true
		}
	}
	return false
}

type padErr struct{ why string }

type padEval struct {
	c     *Ctx
	f     *ssa.Function
	src   ssa.Value
	right bool
	paths int
	bad   map[string]bool
}

const padSrc = "input"

func (e *padEval) giveUp(f string, a ...any) { panic(padErr{fmt.Sprintf(f, a...)}) }

func (e *padEval) fail(s *padState, in ssa.Instruction, f string, a ...any) {
	pos := e.f.Pos()
	if in != nil && in.Pos().IsValid() {
		pos = in.Pos()
	}
	m := fmt.Sprintf(f, a...)
	if e.bad[m] {
		return
	}
	e.bad[m] = true
	e.c.fail("width", fname(e.f), e.c.p.pos(pos), "%s, when %s", m, e.when(s))
}

func (e *padEval) when(s *padState) string {
	if len(s.steps) == 0 {
		return "always"
	}
	return strings.Join(s.steps, " and ")
}

func (e *padEval) num(s *padState, v ssa.Value) lin {
	if k, ok := constInt(v); ok {
		return newLin(k)
	}
	if l, ok := s.ints[v]; ok {
		return l
	}
	switch x := v.(type) {
	case *ssa.BinOp:
		a, b := e.num(s, x.X), e.num(s, x.Y)
		switch x.Op {
		case token.ADD:
			return a.plus(b, 1)
		case token.SUB:
			return a.plus(b, -1)
		case token.MUL:
			if len(a.at) == 0 {
				return newLin(0).plus(b, a.k)
			}
			if len(b.at) == 0 {
				return newLin(0).plus(a, b.k)
			}
		}
	case *ssa.UnOp:
		if x.Op == token.SUB {
			return e.num(s, x.X).neg()
		}
	case *ssa.Convert:
		return e.num(s, x.X)
	case *ssa.ChangeType:
		return e.num(s, x.X)
	}
	l := newLin(0)
	l.at[v.Name()] = 1
	return l
}

func (e *padEval) seq(s *padState, v ssa.Value) (padSlice, bool) {
	if v == e.src {
		l := newLin(0)
		l.at["len"] = 1
		return padSlice{padSrc, newLin(0), l}, true
	}
	if q, ok := s.seqs[v]; ok {
		if a, ok := s.alias[q.root]; ok {
			return padSlice{padSrc, a.off.plus(q.off, 1), q.len}, true
		}
		return q, true
	}
	switch x := v.(type) {
	case *ssa.ChangeType:
		return e.seq(s, x.X)
	case *ssa.Convert:
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			return e.seq(s, x.X)
		}
	case *ssa.Parameter, *ssa.Alloc, *ssa.FieldAddr:
		if pt, ok := v.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				q := padSlice{v.Name(), newLin(0), newLin(at.Len())}
				if a, ok := s.alias[q.root]; ok {
					return padSlice{padSrc, a.off, q.len}, true
				}
				return q, true
			}
		}
	}
	return padSlice{}, false
}

func (e *padEval) isSrc(s *padState, v ssa.Value) (padSlice, bool) {
	q, ok := e.seq(s, v)
	return q, ok && q.root == padSrc
}

// end: the slice reaches the end of the input.
func (e *padEval) end(s *padState, q padSlice) bool {
	l := newLin(0)
	l.at["len"] = 1
	return s.zero(q.off.plus(q.len, 1).plus(l, -1))
}

func (e *padEval) uses(in ssa.Instruction, v ssa.Value) bool {
	for _, o := range in.Operands(nil) {
		if *o == v {
			return true
		}
	}
	return false
}

func (e *padEval) block(s *padState, b, from *ssa.BasicBlock) {
	e.paths++
	if e.paths > 400 {
		e.giveUp("too many paths")
	}
	if s.seen[b] {
		e.giveUp("a loop")
	}
	s.seen[b] = true
	if from != nil {
		i := 0
		for k, p := range b.Preds {
			if p == from {
				i = k
			}
		}
		ni, ns := map[ssa.Value]lin{}, map[ssa.Value]padSlice{}
		for _, in := range b.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			v := ph.Edges[i]
			if isIntish(ph.Type()) {
				ni[ph] = e.num(s, v)
			} else if q, ok := e.seq(s, v); ok {
				ns[ph] = q
			}
		}
		for k, v := range ni {
			s.ints[k] = v
		}
		for k, v := range ns {
			s.seqs[k] = v
		}
	}
	e.instrs(s, b, 0)
}

func (e *padEval) instrs(s *padState, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		switch x := b.Instrs[i].(type) {
		case *ssa.MakeSlice:
			s.seqs[x] = padSlice{x.Name(), newLin(0), e.num(s, x.Len)}
		case *ssa.Slice:
			q, ok := e.seq(s, x.X)
			if !ok {
				continue
			}
			lo := newLin(0)
			if x.Low != nil {
				lo = e.num(s, x.Low)
			}
			n := q.len.plus(lo, -1)
			if x.High != nil {
				n = e.num(s, x.High).plus(lo, -1)
			}
			s.seqs[x] = padSlice{q.root, q.off.plus(lo, 1), n}
		case *ssa.SliceToArrayPointer:
			n := derefType(x.Type()).Underlying().(*types.Array).Len()
			if q, ok := e.seq(s, x.X); ok {
				s.seqs[x] = padSlice{q.root, q.off, newLin(n)}
				if q.root == padSrc {
					e.into(s, x, s.seqs[x], newLin(n), newLin(0))
				}
			}
		case *ssa.IndexAddr:
			if _, ok := e.isSrc(s, x.X); ok {
				e.giveUp("reads single bytes")
			}
		case *ssa.Index:
			if _, ok := e.isSrc(s, x.X); ok {
				e.giveUp("reads single bytes")
			}
		case *ssa.Store, *ssa.Phi, *ssa.DebugRef:
		case *ssa.Call:
			if e.call(s, b, i, x) {
				return
			}
		case *ssa.Defer, *ssa.Go:
			e.giveUp("go or defer")
		case *ssa.Return:
			e.ret(s, x)
			return
		case *ssa.Panic:
			return
		case *ssa.Jump:
			e.block(s, b.Succs[0], b)
			return
		case *ssa.If:
			for k, t := range b.Succs {
				n := s.clone()
				e.cond(n, x.Cond, k == 0)
				if !n.dead() {
					e.block(n, t, b)
				}
			}
			return
		}
	}
}

func (e *padEval) cond(s *padState, v ssa.Value, taken bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
		e.cond(s, u.X, !taken)
		return
	}
	b, ok := v.(*ssa.BinOp)
	if !ok || !isIntish(b.X.Type()) {
		return
	}
	d := e.num(s, b.X).plus(e.num(s, b.Y), -1)
	op := b.Op
	if !taken {
		op = map[token.Token]token.Token{token.EQL: token.NEQ, token.NEQ: token.EQL, token.LSS: token.GEQ, token.GEQ: token.LSS, token.GTR: token.LEQ, token.LEQ: token.GTR}[op]
	}
	one := newLin(1)
	switch op {
	case token.EQL:
		s.conds = append(s.conds, d, d.neg())
	case token.GEQ:
		s.conds = append(s.conds, d)
	case token.LEQ:
		s.conds = append(s.conds, d.neg())
	case token.GTR:
		s.conds = append(s.conds, d.plus(one, -1))
	case token.LSS:
		s.conds = append(s.conds, d.neg().plus(one, -1))
	case token.NEQ:
		// a length that is not zero
		if s.ge(d) {
			s.conds = append(s.conds, d.plus(one, -1))
		} else if s.ge(d.neg()) {
			s.conds = append(s.conds, d.neg().plus(one, -1))
		}
	}
	s.steps = append(s.steps, strings.ReplaceAll(strings.ReplaceAll(d.String(), "+-", "-"), "1*len", "len(input)")+" "+op.String()+" 0")
}

// into: the part q of the input is put at offset off of a place of size n.
func (e *padEval) into(s *padState, in ssa.Instruction, q padSlice, n, off lin) {
	s.sink = true
	e.c.ob("width", fname(e.f)+" "+e.c.p.pos(in.Pos()))
	if e.right {
		if !s.zero(q.off) {
			e.fail(s, in, "bytes from position %s of the input are kept", q.off)
		}
		if !s.zero(off) {
			e.fail(s, in, "the input starts at position %s of the result", off)
		}
		return
	}
	if !e.end(s, q) {
		e.fail(s, in, "the last bytes of the input are not the ones kept (%s)", q)
		return
	}
	if !s.zero(off.plus(q.len, 1).plus(n, -1)) {
		e.fail(s, in, "the input does not end where the result of %s bytes ends", n)
		return
	}
	if !s.zero(q.off) && !s.ge(q.len.plus(n, -1)) && !s.zero(q.len.plus(n, -1)) {
		// composites reach before the input: nothing is cut there
		if !s.ge(q.off.neg()) {
			e.fail(s, in, "more of the input is cut than does not fit (%s of %s)", q.len, n)
		}
	}
}

func (e *padEval) call(s *padState, b *ssa.BasicBlock, i int, x *ssa.Call) (forked bool) {
	if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len":
			if q, ok := e.seq(s, x.Call.Args[0]); ok {
				s.ints[x] = q.len
			}
		case "min", "max":
			for k, a := range x.Call.Args {
				n := s.clone()
				la := e.num(s, a)
				n.ints[x] = la
				for j, o := range x.Call.Args {
					if j == k {
						continue
					}
					d := e.num(s, o).plus(la, -1) // other - this
					if bi.Name() == "max" {
						d = d.neg()
					}
					n.conds = append(n.conds, d)
				}
				if !n.dead() {
					e.instrs(n, b, i+1)
				}
			}
			return true
		case "copy":
			q, ok := e.isSrc(s, x.Call.Args[1])
			d, okd := e.seq(s, x.Call.Args[0])
			if !ok {
				return
			}
			if !okd {
				e.giveUp("copies the input into %s", x.Call.Args[0])
			}
			n := e.sizeOf(s, d)
			e.into(s, x, q, n, d.off)
			if !e.right {
				l := newLin(0)
				l.at["len"] = 1
				s.alias[d.root] = padSlice{padSrc, l.plus(n, -1), n}
			}
		case "append":
			q, ok := e.isSrc(s, x.Call.Args[1])
			d, okd := e.seq(s, x.Call.Args[0])
			if k, isK := x.Call.Args[0].(*ssa.Const); isK && k.IsNil() {
				d, okd = padSlice{"nil", newLin(0), newLin(0)}, true
			}
			switch {
			case ok && okd && !e.right:
				s.seqs[x] = padSlice{padSrc, q.off.plus(d.len, -1), q.len.plus(d.len, 1)}
				if !e.end(s, q) {
					e.fail(s, x, "the last bytes of the input are not the ones kept (%s)", q)
				}
			case okd && d.root == padSrc:
				if e.right {
					return
				}
				e.giveUp("appends to the input")
			case ok:
				e.giveUp("appends the input")
			}
		}
		return
	}
	for k, a := range x.Call.Args {
		q, ok := e.isSrc(s, a)
		if !ok {
			continue
		}
		g := x.Call.StaticCallee()
		if g == nil {
			e.giveUp("hands the input to %s", x.Call.Value)
		}
		pk, n := calleePkgName(x)
		w := int64(0)
		if pk == "encoding/binary" {
			w = map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8}[n]
		}
		switch {
		case w > 0:
			if !strings.Contains(g.String(), "bigEndian") {
				e.fail(s, x, "the input is not read in big-endian order")
			}
			e.into(s, x, padSlice{padSrc, q.off, newLin(w)}, newLin(w), newLin(0))
		case n == "SetBytes" || strings.HasPrefix(n, "BytesTo") || n == "ParseNodeIDBytes" || n == "LeftPadBytes":
			s.sink = true
			e.c.ob("width", fname(e.f)+" "+e.c.p.pos(x.Pos()))
			if !e.end(s, q) {
				e.fail(s, x, "the last bytes of the input are not the ones kept (%s)", q)
			}
			if n == "LeftPadBytes" && k == 0 && len(x.Call.Args) == 2 {
				e.giveUp("pads through %s", n)
			}
			if !s.zero(q.off) {
				e.giveUp("crops before %s", n)
			}
		default:
			e.giveUp("hands the input to %s", n)
		}
	}
	return false
}

// sizeOf: the size of the whole place a slice lies in.
func (e *padEval) sizeOf(s *padState, d padSlice) lin {
	for _, b := range e.f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok && v.Name() == d.root {
				if m, ok := v.(*ssa.MakeSlice); ok {
					return e.num(s, m.Len)
				}
				if at, ok := derefType(v.Type()).Underlying().(*types.Array); ok {
					return newLin(at.Len())
				}
			}
		}
	}
	for _, p := range e.f.Params {
		if p.Name() == d.root {
			if at, ok := derefType(p.Type()).Underlying().(*types.Array); ok {
				return newLin(at.Len())
			}
		}
	}
	return d.off.plus(d.len, 1)
}

func (e *padEval) ret(s *padState, x *ssa.Return) {
	for _, r := range x.Results {
		if types.Identical(r.Type(), types.Universe.Lookup("error").Type()) {
			if k, ok := r.(*ssa.Const); !ok || !k.IsNil() {
				return // reported
			}
		}
		if q, ok := e.seq(s, r); ok && isByteSlice(r.Type()) && q.root == padSrc {
			s.sink = true
			e.c.ob("width", fname(e.f)+" "+e.c.p.pos(x.Pos()))
			if e.right && !s.zero(q.off) || !e.right && !e.end(s, q) {
				e.fail(s, x, "the wrong end of the input is returned (%s)", q)
			}
		}
	}
	if !s.sink && !s.emptyInput() {
		e.fail(s, x, "the input is not used")
	}
}

func (s *padState) emptyInput() bool {
	l := newLin(0)
	l.at["len"] = 1
	return s.zero(l)
}

func padWidths(c *Ctx) {
	var undec []string
	for _, f := range c.p.funcsIn("") {
		if f.Parent() != nil || f.Synthetic != "" || len(f.Blocks) == 0 {
			continue
		}
		n := f.Name()
		e := &padEval{c: c, f: f, bad: map[string]bool{}}
		switch {
		case n == "SetBytes" && f.Signature.Recv() != nil, n == "ParseNodeIDBytes", n == "LeftPadBytes", n == "RightPadBytes",
			strings.HasPrefix(n, "BytesTo") && len(f.Params) == 1:
			e.right = n == "RightPadBytes"
			for _, p := range f.Params {
				if isByteSlice(p.Type()) {
					e.src = p
				}
			}
		case n == "Hex2BytesFixed":
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if x, ok := in.(*ssa.Extract); ok && x.Index == 0 && isByteSlice(x.Type()) {
						e.src = x
					}
				}
			}
		}
		if e.src == nil {
			continue
		}
		c.ob("width-functions", fname(f))
		func() {
			defer func() {
				if r := recover(); r != nil {
					g, ok := r.(padErr)
					if !ok {
						panic(r)
					}
					undec = append(undec, fname(f)+" ("+g.why+")")
				}
			}()
			e.block(&padState{ints: map[ssa.Value]lin{}, seqs: map[ssa.Value]padSlice{}, alias: map[string]padSlice{}, seen: map[*ssa.BasicBlock]bool{}}, f.Blocks[0], nil)
		}()
	}
	if len(undec) > 0 {
		c.note("width not decided: %s", strings.Join(undec, "; "))
	}
	c.min("width-functions", 10)
	c.min("width", 3)
}
