package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// isReadMethod: Read([]byte) (int, error).
func isReadMethod(c ssa.CallInstruction) bool {
	cc := c.Common()
	name := ""
	if cc.IsInvoke() {
		name = cc.Method.Name()
	} else if f := staticCallee(c); f != nil && f.Signature.Recv() != nil {
		name = f.Name()
	}
	sig := cc.Signature()
	return name == "Read" && sig.Params().Len() == 1 && isByteSlice(sig.Params().At(0).Type()) && sig.Results().Len() == 2 && isErrorType(sig.Results().At(1).Type())
}

// countMatters: the number of bytes a call delivered is returned, compared or
// added up.
func countMatters(v ssa.Value, d int) bool {
	if v == nil || v.Referrers() == nil || d > 6 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Return, *ssa.If, *ssa.IndexAddr, *ssa.Slice, *ssa.Store:
			return true
		case *ssa.BinOp:
			return true
		case *ssa.Phi:
			if countMatters(x, d+1) {
				return true
			}
		case *ssa.Convert:
			if countMatters(x, d+1) {
				return true
			}
		}
	}
	return false
}

func takesReader(f *ssa.Function) bool {
	for _, p := range f.Params {
		t := p.Type()
		if _, ok := t.Underlying().(*types.Interface); !ok {
			continue
		}
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "Read" {
				return true
			}
		}
	}
	return false
}

func init() {
	register("G05", "no decoder takes the bytes of a single Read for a whole field (the number of bytes delivered must be used), and in every function that reads from a reader each failed or short read reaches the caller as an error (path-sensitive error propagation)", "", func(c *Ctx) {
		for _, f := range c.p.funcsIn("", "trie", "abi", "db", "rlp") {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					ci, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if takesReader(f) && errIdx(ci.Common().Signature()) >= 0 {
						c.ob("reader-function", fname(f))
					}
					if !isReadMethod(ci) {
						continue
					}
					c.ob("single-read", c.p.ipos(in))
					call, ok := in.(*ssa.Call)
					used := false
					if ok {
						for _, r := range *call.Referrers() {
							if x, ok := r.(*ssa.Extract); ok && x.Index == 0 && countMatters(x, 0) {
								used = true
							}
							if _, ok := r.(*ssa.Return); ok {
								used = true
							}
						}
					}
					if !used {
						c.fail("single-read", fname(f), c.p.ipos(in), "one Read may deliver fewer bytes than asked for without an error, and its count is not used: the rest of the field stays zero")
					}
				}
			}
		}
		r := &errRule{p: c.p, c: c, rule: "read-errors", okSentinel: map[string]string{"io.EOF": ""}, entries: true, pure: true, except: map[string]string{}, optional: map[string]string{}, used: map[string]bool{}}
		r.isSource = func(fn *ssa.Function, call ssa.CallInstruction) bool { return true }
		for _, f := range c.p.funcsIn("", "trie") {
			if takesReader(f) {
				r.checkFunc(f)
			}
		}
		c.min("reader-function", 10)
		c.min("read-errors", 20)
	})
}
