package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Values handed to a formatting call are printed by their own Format, Error or
// String method: printed finds those implicit calls.

type printedCall struct {
	fn   *ssa.Function
	recv ssa.Value
}

func (p *Prog) printed(c ssa.CallInstruction) []printedCall {
	f := staticCallee(c)
	if f == nil {
		return nil
	}
	pk := fnPkg(f)
	if pk == nil {
		return nil
	}
	path := pk.Pkg.Path()
	if path != "fmt" && path != "log" && path != p.ModPath+"/log" && !strings.HasSuffix(path, "/logrus") {
		return nil
	}
	sig := f.Signature
	if !sig.Variadic() {
		return nil
	}
	np := sig.Params().Len()
	sl, ok := sig.Params().At(np - 1).Type().(*types.Slice)
	if !ok {
		return nil
	}
	if it, ok := sl.Elem().Underlying().(*types.Interface); !ok || it.NumMethods() > 0 {
		return nil
	}
	args := c.Common().Args
	va := varArgs(args[len(args)-1])
	var verbs []byte
	formatted := false
	if np >= 2 && len(args) >= 2 {
		if b, ok := sig.Params().At(np - 2).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			if k, ok := args[len(args)-2].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
				verbs, formatted = formatVerbs(constant.StringVal(k.Value))
			}
		}
	}
	var out []printedCall
	for i, a := range va {
		if a == nil {
			continue
		}
		if formatted && (i >= len(verbs) || !strings.ContainsRune("vsqxX", rune(verbs[i]))) {
			continue
		}
		mi, ok := a.(*ssa.MakeInterface)
		if !ok {
			continue
		}
		for _, m := range []string{"Format", "Error", "String"} {
			sel := p.SSA.MethodSets.MethodSet(mi.X.Type()).Lookup(nil, m)
			if sel == nil {
				continue
			}
			g := p.SSA.MethodValue(sel)
			if g != nil && p.funcSet[g] {
				out = append(out, printedCall{g, mi.X})
			}
			break
		}
	}
	return out
}

// varArgs: the values stored into the array a variadic call's slice is made of.
func varArgs(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		i := int(k.Int64())
		for _, u := range *ia.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
				for len(out) <= i {
					out = append(out, nil)
				}
				out[i] = st.Val
			}
		}
	}
	return out
}

// formatVerbs: the verb each argument is printed with ('*' for widths); not ok
// with explicit argument indexes.
func formatVerbs(s string) ([]byte, bool) {
	var out []byte
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			continue
		}
		i++
		sharp := false
		for i < len(s) && strings.IndexByte("+-# 0123456789.*[", s[i]) >= 0 {
			switch s[i] {
			case '*':
				out = append(out, '*')
			case '[':
				return nil, false
			case '#':
				sharp = true
			}
			i++
		}
		if i >= len(s) {
			break
		}
		if s[i] == '%' {
			continue
		}
		v := s[i]
		if v == 'v' && sharp {
			v = 'G'
		}
		out = append(out, v)
	}
	return out, true
}
