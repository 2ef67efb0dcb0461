package main

import (
	"fmt"
	"go/token"
	"slices"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type ngoal struct {
	what string
	l    nlin // >= 0
	ne   bool // != 0
	in   ssa.Instruction
}

// boundsGoals are the conditions under which an instruction does not panic for
// an index, a length or a divisor out of range.
func (n *num) boundsGoals(in ssa.Instruction) []ngoal {
	var out []ngoal
	add := func(what string, l nlin) { out = append(out, ngoal{what: what, l: l, in: in}) }
	switch x := in.(type) {
	case *ssa.IndexAddr:
		i := n.lin(x.Index)
		add("index >= 0", i)
		add("index < length", n.lenOf(x.X).minus(i).plusK(-1))
	case *ssa.Index:
		i := n.lin(x.Index)
		add("index >= 0", i)
		add("index < length", n.lenOf(x.X).minus(i).plusK(-1))
	case *ssa.Lookup:
		if isStr(x.X.Type()) {
			i := n.lin(x.Index)
			add("index >= 0", i)
			add("index < length", n.lenOf(x.X).minus(i).plusK(-1))
		}
	case *ssa.Slice:
		lo := nk(0)
		if x.Low != nil {
			lo = n.lin(x.Low)
			add("lower bound >= 0", lo)
		}
		ln := n.lenOf(x.X)
		hi := ln
		if x.High != nil {
			hi = n.lin(x.High)
			add("upper bound <= length", ln.minus(hi))
		}
		add("lower bound <= upper bound", hi.minus(lo))
	case *ssa.SliceToArrayPointer:
		if k, ok := arrayLen(x.Type()); ok {
			add(fmt.Sprintf("length >= %d", k), n.lenOf(x.X).plusK(-k))
		}
	case *ssa.MakeSlice:
		add("length >= 0", n.lin(x.Len))
		if x.Cap != x.Len {
			add("capacity >= length", n.lin(x.Cap).minus(n.lin(x.Len)))
		}
	case *ssa.BinOp:
		if _, _, ok := intRange(x.Type()); ok && (x.Op == token.QUO || x.Op == token.REM) {
			out = append(out, ngoal{what: "divisor != 0", l: n.lin(x.Y), ne: true, in: in})
		}
	case *ssa.Call:
		if f := staticCallee(x); f != nil && f.String() == "reflect.MakeSlice" && len(n.fn.Params) > 0 {
			// no more elements than the input has bytes
			ln := n.lin(x.Call.Args[1])
			if !ln.isConst() {
				for _, p := range n.fn.Params {
					if isByteSlice(p.Type()) {
						add("length >= 0", ln)
						add("no more elements than the input has bytes", n.lenOf(p).minus(ln))
						break
					}
				}
			}
		}
		if f := staticCallee(x); f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "encoding/binary" && f.Signature.Recv() != nil {
			k := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}[f.Name()]
			if k > 0 {
				add(fmt.Sprintf("length >= %d", k), n.lenOf(x.Call.Args[1]).plusK(-k))
			}
		}
	}
	var r []ngoal
	for _, g := range out {
		if g.l.isConst() && (!g.ne && g.l.k.Sign() >= 0 || g.ne && g.l.k.Sign() != 0) {
			continue
		}
		r = append(r, g)
	}
	return r
}

func (n *num) holds(g ngoal) bool {
	p := before(g.in)
	if g.ne {
		return n.prove(g.l.plusK(-1), p) || n.prove(g.l.neg().plusK(-1), p)
	}
	return n.prove(g.l, p)
}

// bounds decides boundsGoals over a set of functions.
type bounds struct {
	c      *Ctx
	s      *numSums
	rule   string
	in     func(f *ssa.Function) bool
	except map[string]string // function (or "function: parameter") -> why
	used   map[string]bool
	lifted map[string]bool // function|goal known or assumed to hold at every call
	taken  map[*ssa.Function]bool
	nLift  int
	undec  map[string]bool
}

func newBounds(c *Ctx, rule string, s *numSums) *bounds {
	return &bounds{c: c, s: s, rule: rule, used: map[string]bool{}, lifted: map[string]bool{}, undec: map[string]bool{}, except: map[string]string{}}
}

// prove tries a goal at a point, then weakly.
func (b *bounds) prove(n *num, goal nlin, p npoint) bool {
	if n.prove(goal, p) {
		return true
	}
	n.weak = true
	defer func() { n.weak = false }()
	return n.prove(goal, p)
}

func (b *bounds) internal(f *ssa.Function) bool {
	if f.Parent() != nil || isExportedFn(f) || f.Signature.Recv() != nil && f.Object() == nil {
		return false
	}
	b.c.p.dynCallees(f.Signature)
	return !b.c.p.taken[f] && len(b.c.p.callers[f]) > 0
}

// lift: the goal holds at every call of fn.
func (b *bounds) lift(fn *ssa.Function, goal nlin, depth int) bool {
	key := fname(fn) + "|" + goal.String()
	if b.lifted[key] {
		return true
	}
	if depth > 4 || !b.internal(fn) {
		return false
	}
	b.lifted[key] = true
	nf := b.s.of(fn)
	saved := len(nf.hyps)
	if l, ok := nf.unexport(goal); ok {
		nf.hyps = append(nf.hyps, nfact{l: l})
	}
	ok := true
	for _, ci := range b.c.p.callers[fn] {
		c, isCall := ci.(*ssa.Call)
		if !isCall {
			ok = false
			break
		}
		g := c.Parent()
		ng := b.s.of(g)
		need, can := ng.subst(goal, c)
		if !can {
			ok = false
			break
		}
		if b.prove(ng, need, before(c)) {
			continue
		}
		if e, can := ng.export(need); can && b.lift(g, e, depth+1) {
			continue
		}
		ok = false
		break
	}
	if !ok {
		delete(b.lifted, key)
		nf.hyps = nf.hyps[:saved]
	}
	nf.forget()
	return ok
}

// forget drops what was worked out from hypotheses that have changed.
func (n *num) forget() {
	n.lins = map[ssa.Value]nlin{}
	n.lens = map[ssa.Value]nlin{}
}

// unwrap: arithmetic on parameters that no caller makes overflow.
func (b *bounds) unwrap(n *num, l nlin) bool {
	any := false
	for a := range l.at {
		x, ok := n.vals[a].(*ssa.BinOp)
		if !ok || x.Op != token.ADD && x.Op != token.SUB {
			continue
		}
		lo, hi, ok := intRange(x.Type())
		if !ok {
			continue
		}
		r := n.lin(x.X)
		if x.Op == token.ADD {
			r = r.plus(n.lin(x.Y))
		} else {
			r = r.minus(n.lin(x.Y))
		}
		good := true
		for _, need := range []nlin{r.minus(nkb(lo)), nkb(hi).minus(r)} {
			if n.prove(need, defPoint(x)) {
				continue
			}
			if e, ok := n.export(need); !ok || !b.lift(n.fn, e, 0) {
				good = false
			}
		}
		any = any || good
	}
	if any {
		n.forget()
	}
	return any
}

func (n *num) unexport(l nlin) (nlin, bool) {
	r := nkb(l.k)
	for a, k := range l.at {
		in, isLen := a, false
		if strings.HasPrefix(in, "len(") {
			in, isLen = in[4:len(in)-1], true
		}
		i, err := strconv.Atoi(strings.TrimPrefix(in, "#"))
		if err != nil || i >= len(n.fn.Params) {
			return nlin{}, false
		}
		if isLen {
			r = r.add(n.lenOf(n.fn.Params[i]), k)
		} else {
			r = r.add(n.lin(n.fn.Params[i]), k)
		}
	}
	return r, true
}

// sortParam: the term is an index handed to a comparison by the sort package.
func (b *bounds) sortParam(n *num, l nlin) bool {
	f := n.fn
	isIdx := false
	switch {
	case f.Parent() != nil:
		for _, r := range refsOf(f) {
			if c, ok := r.(*ssa.Call); ok {
				if g := staticCallee(c); g != nil && g.Pkg != nil && (g.Pkg.Pkg.Path() == "sort" || g.Pkg.Pkg.Path() == "slices") {
					isIdx = true
				}
			}
		}
	case f.Signature.Recv() != nil && (f.Name() == "Less" || f.Name() == "Swap") && f.Signature.Params().Len() == 2:
		isIdx = true
	}
	if !isIdx {
		return false
	}
	for a := range l.at {
		if p, ok := n.vals[a].(*ssa.Parameter); ok {
			_ = p
			return true
		}
	}
	return false
}

// refsOf: the instructions a closure (or function value) is used in.
func refsOf(f *ssa.Function) []ssa.Instruction {
	var out []ssa.Instruction
	if f.Parent() == nil {
		return nil
	}
	for _, blk := range f.Parent().Blocks {
		for _, in := range blk.Instrs {
			if mc, ok := in.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
				out = append(out, *mc.Referrers()...)
			}
			for _, op := range in.Operands(nil) {
				if *op == ssa.Value(f) {
					out = append(out, in)
				}
			}
		}
	}
	return out
}

// excepted: the function, or every function it is called from, is listed.
func (b *bounds) excepted(n *num, f *ssa.Function, what string, l nlin, depth int) bool {
	if f.Parent() != nil {
		return b.excepted(n, f.Parent(), what, l, depth)
	}
	for _, k := range []string{fname(f), fname(f) + " | " + what} {
		if _, ok := b.except[k]; ok {
			b.used[k] = true
			return true
		}
	}
	for _, g := range b.c.p.goneInto(f) {
		for k := range b.except {
			if k == g || strings.HasPrefix(k, g+": ") || k == g+" | "+what {
				b.used[k] = true
				return true
			}
		}
	}
	if n.fn == f && len(l.at) == 1 {
		for a := range l.at {
			v := n.vals[a]
			if v == nil {
				v = n.seqs[a]
			}
			if p, ok := v.(*ssa.Parameter); ok {
				k := fmt.Sprintf("%s: #%d", fname(f), slices.Index(f.Params, p))
				if _, ok := b.except[k]; ok {
					b.used[k] = true
					return true
				}
			}
		}
	}
	if depth > 2 || isExportedFn(f) || len(b.c.p.callers[f]) == 0 {
		return false
	}
	for _, c := range b.c.p.callers[f] {
		if c.Parent() != f && !b.excepted(n, c.Parent(), what, l, depth+1) {
			return false
		}
	}
	return true
}

func (b *bounds) run(fns []*ssa.Function) {
	for _, f := range fns {
		n := b.s.of(f)
		nf := 0
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				for _, g := range n.boundsGoals(in) {
					nf++
					b.goal(n, g)
				}
			}
		}
		if nf > 0 {
			b.c.ob(b.rule+"-functions", fname(f))
		}
	}
}

func (b *bounds) goal(n *num, g ngoal) {
	b.c.obn(b.rule, 1)
	if n.holds(g) {
		return
	}
	l := g.l
	if g.ne {
		l = l.plusK(-1)
	}
	if b.prove(n, l, before(g.in)) {
		return
	}
	if e, ok := n.export(l); ok && b.lift(n.fn, e, 0) {
		b.nLift++
		return
	}
	if b.unwrap(n, l) {
		for _, h := range n.boundsGoals(g.in) {
			if h.what == g.what && n.holds(h) {
				b.nLift++
				return
			}
		}
	}
	// parameters that no caller makes negative
	more := false
	for i, p := range n.fn.Params {
		if _, _, ok := intRange(p.Type()); ok && !isUnsigned(p.Type()) {
			k := "#" + strconv.Itoa(i)
			if !b.lifted[fname(n.fn)+"|"+natom(k).String()] && b.lift(n.fn, natom(k), 0) {
				more = true
			}
		}
	}
	if more && b.prove(n, l, before(g.in)) {
		b.nLift++
		return
	}
	// parameters that every caller makes positive
	more = false
	for i, p := range n.fn.Params {
		if _, _, ok := intRange(p.Type()); ok {
			k := natom("#" + strconv.Itoa(i)).plusK(-1)
			if !b.lifted[fname(n.fn)+"|"+k.String()] && b.lift(n.fn, k, 0) {
				more = true
			}
		}
	}
	if more && b.prove(n, l, before(g.in)) {
		b.nLift++
		return
	}
	if b.sortParam(n, l) {
		return
	}
	if b.excepted(n, n.fn, g.what, l, 0) {
		return
	}
	b.c.fail(b.rule, fname(n.fn)+" "+g.what, b.c.p.ipos(g.in), "%s: nothing on the way here makes sure of %s (%s >= 0)", strings.TrimSpace(g.in.String()), g.what, l)
}

func (b *bounds) done() {
	for k, why := range b.except {
		if b.used[k] {
			b.c.except(k, why)
		}
	}
	b.c.note("%d goals settled at the callers of unexported functions", b.nLift)
}

// boundsCheck registers the bounds of some packages.
func boundsCheck(id, rule string, pkgs []string, only func(f *ssa.Function) bool, minFns, minGoals int, except map[string]string, extra ...func(*Ctx)) {
	register(id, rule, strings.Join(pkgs, ","), func(c *Ctx) {
		s := newNumSums(c.p)
		b := newBounds(c, "bounds", s)
		b.except = except
		for _, pk := range pkgs {
			var fns []*ssa.Function
			for _, f := range c.p.funcsIn(pk) {
				if only == nil || only(f) {
					fns = append(fns, f)
				}
			}
			b.run(fns)
		}
		b.done()
		c.min("bounds", minGoals)
		c.min("bounds-functions", minFns)
		for _, f := range extra {
			f(c)
		}
	})
}

const boundsRule = "every index, slice bound, make length, integer divisor, array conversion and encoding/binary access is shown in range by the conditions on the way to it (linear arithmetic over SSA values, with overflow checked), or by every caller of an unexported function"

func init() {
	argPre := "documented precondition on the argument"
	encStack := "encoder buffer bookkeeping: header offsets and sizes are those recorded while the strings were appended, a data-structure invariant"
	boundsCheck("R02", boundsRule, []string{"rlp"}, nil, 20, 90, map[string]string{
		"(*rlp.encBuffer).copyTo":            encStack,
		"(*rlp.encBuffer).writeTo":           encStack,
		"(*rlp.encBuffer).listEnd":           encStack,
		"(*rlp.encBuffer).makeBytes":         encStack,
		"(*rlp.encReader).next":              encStack,
		"(*rlp.encReader).Read":              encStack,
		"(*rlp.EncoderBuffer).AppendToBytes": encStack,
		"(*rlp.encBuffer).writeBigInt":       "length is computed from the bit length of the number",
		"(*rlp.encBuffer).writeUint256":      "a uint256 has at most 256 bits",
		"rlp.puthead: #0":                    "headers are written into at least 9 bytes",
		"rlp.putint: #0":                     "headers are written into at least 9 bytes",
		"(*rlp.listhead).encode":             "headers are written into at least 9 bytes",
		"(*rlp.Stream).Raw":                  "headsize is between 1 and 9, and the sum with a size read from a bounded input does not overflow",
		"(*rlp.Stream).readUint":             "integers and sizes of at most 8 bytes are asked for (checked against maxbits by the caller)",
		"(*rlp.Stream).List":                 "stack is not empty inside a list (listLimit)",
		"(*rlp.Stream).ListEnd":              "stack is not empty inside a list (listLimit)",
		"(*rlp.Stream).willRead":             "stack is not empty inside a list (listLimit)",
		"rlp.makeStructWriter":               "indexes come from the type's own field list",
		"rlp.structFields":                   "parallel slices filled in one loop",
	})
	abiPar := "slices of equal length filled or checked in parallel"
	boundsCheck("A02", boundsRule, []string{"abi"}, nil, 20, 80, map[string]string{
		"(abi.ABI).EventString":             abiPar,
		"(abi.Arguments).UnpackIntoMap":     abiPar,
		"(abi.Arguments).copyTuple":         abiPar,
		"(abi.Arguments).copyTupleEvent":    abiPar,
		"(abi.Type).pack":                   abiPar,
		"abi.mapArgNamesToStructFields":     "names are not empty once checked by ToCamelCase",
		"abi.NewType":                       "regular expression submatches; position of a bracket known to occur",
		"abi.NewMethod":                     "a hash has 32 bytes",
		"abi.ReadInteger: #1":               "a word of 32 bytes",
		"abi.ReadFixedBytes":                "a word of 32 bytes and the size of a parsed bytesN type",
		"abi.UnpackRevert | index < length": "one argument unpacks to one value",
		"abi.genIntType":                    "size of a Go integer",
		"abi.lengthPrefixPointsTo: #0":      "offsets start at 0 and grow by element sizes",
		"abi.tuplePointsTo: #0":             "offsets start at 0 and grow by element sizes",
		"abi.toGoType: #0":                  "offsets start at 0 and grow by element sizes",
	})
	cfg := "package configuration that is not zero"
	boundsCheck("G04", boundsRule, []string{"", "hexutil", "math", "log"}, nil, 60, 200, map[string]string{
		"(*common.MerkleProofs).Deserialization": "a slice made with the length of the loop",
		"(*common.MerkleProofs).ToItems":         "a count of hashes is not negative",
		"(*common.NodeIDSet).Delete":             "index map and list are kept together",
		"(*common.moreTimesIterator).next":       "cursor is compared with the length by its caller",
		"(*hexutil.Big).UnmarshalText":           "words are counted from the digits",
		"hexutil.DecodeBig":                      "words are counted from the digits",
		"(common.AccountShards).index":           "at most 2^19*8 shards",
		"(common.AccountShards).shardTo":         "index is made of address bits, not negative",
		"(common.Address).Hex":                   "a hash has 32 bytes",
		"common.AddressFromPubSlice":             "a hash has 32 bytes",
		"common.CreateAddress":                   "a hash has 32 bytes",
		"common.CreateAddress2":                  "a hash has 32 bytes",
		"(common.Bits).Bit":                      argPre,
		"(common.ChainID).FromFormalize: #1":     argPre,
		"(common.CommID).ShouldPropose":          argPre,
		"(common.Height).BlockNum":               cfg,
		"(common.Height).EpochNum":               cfg,
		"(common.Height).EraNum":                 cfg,
		"(common.Height).IsFirstOfEpoch":         cfg,
		"(common.Height).IsLastOfEpoch":          cfg,
		"(common.Height).Split":                  cfg,
		"(common.Height).UsefulBlock":            cfg,
		"(common.Height).UsefulEpoch":            cfg,
		"common.ConcatenateBytes":                "sum of the lengths",
		"common.ForPrintSlice":                   "startAndEnd: cropped to the length",
		"common.ForPrintValue":                   "startAndEnd: cropped to the length",
		"common.Hex2BytesFixed: #1":              argPre,
		"common.MerkleHash":                      "levels halve a list that is not empty",
		"common.MerkleHashComplete":              "levels halve a list that is not empty",
		"common.MerkleHashCompleteOld":           "levels halve a list that is not empty",
		"common.NewRoutinePool":                  argPre,
		"common.ParseBytesToNodeIdBytes":         "length is a multiple of the id length",
		"common.ParseBytesToNodeIds":             "length is a multiple of the id length",
		"common.RandomByteSlices: #0":            argPre,
		"common.RandomBytes: #0":                 argPre,
		"common.SplitBytes":                      argPre,
		"common.SubBytes":                        "from and size are checked against the bit length",
		"log.InitCheckLog":                       argPre,
		"math.bigEndianByteAt":                   argPre,
	}, padWidths)
}
