package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// lockEscape: a map or slice that a lock protects stays inside: no function that
// others call hands out the very map or slice, and none keeps one it was given.
func lockEscape(c *Ctx, e *lockEngine) {
	an := mutSummaries(c.p)
	guarded := func(t types.Type) map[int]string {
		n := namedOf(t)
		st := structOf(t)
		if n == nil || st == nil || n.Obj().Pkg() == nil {
			return nil
		}
		out := map[int]string{}
		for i := 0; i < st.NumFields(); i++ {
			k := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + st.Field(i).Name()
			if e.govern[k] == "" {
				continue
			}
			switch st.Field(i).Type().Underlying().(type) {
			case *types.Map, *types.Slice:
				out[i] = k
			}
		}
		return out
	}
	globs := map[string]*ssa.Global{}
	for _, sp := range c.p.SByPath {
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok && e.govern[strings.TrimPrefix(gname(g), ".")] != "" || ok && e.govern[g.Pkg.Pkg.Name()+"."+g.Name()] != "" {
				switch derefType(g.Type()).Underlying().(type) {
				case *types.Map, *types.Slice:
					globs["g:"+gname(g)] = g
				}
			}
		}
	}
	c.obn("escape", len(globs))
	for _, f := range c.p.funcsIn(allPkgs...) {
		s := an.sums[f]
		if s == nil || f.Synthetic != "" || f.Parent() != nil || !isExportedFn(f) {
			continue
		}
		for i := range f.Params {
			g := guarded(f.Params[i].Type())
			for k, name := range g {
				root := fmt.Sprintf("p%d#%d*", i, k)
				c.ob("escape", fname(f)+" "+name)
				for j := range s.res {
					switch f.Signature.Results().At(j).Type().Underlying().(type) {
					case *types.Map, *types.Slice, *types.Interface:
						if s.res[j][root] {
							c.fail("escape", fname(f)+" "+name, c.p.pos(f.Pos()), "result %d is the very %s that %s protects: the caller uses it without the lock", j, name, e.govern[name])
						}
					}
				}
				in := s.flow[fmt.Sprintf("p%d#%d", i, k)]
				for j, q := range f.Params {
					if j == i {
						continue
					}
					switch q.Type().Underlying().(type) {
					case *types.Map, *types.Slice:
						if in[fmt.Sprintf("p%d", j)] && sameKind(q.Type(), structOf(f.Params[i].Type()).Field(k).Type()) {
							c.fail("escape", fname(f)+" "+name, c.p.pos(f.Pos()), "%s becomes the map or slice that %s protects: the caller still uses it without the lock", q.Name(), e.govern[name])
						}
					}
				}
			}
		}
		for j := range s.res {
			rt := f.Signature.Results().At(j).Type()
			for k, g := range globs {
				if s.res[j][k] && types.Identical(rt.Underlying(), derefType(g.Type()).Underlying()) {
					c.fail("escape", fname(f)+" "+k[2:], c.p.pos(f.Pos()), "result %d is the very %s that a lock protects", j, k[2:])
				}
			}
		}
	}
	c.min("escape", 30)
}

func sameKind(a, b types.Type) bool { return types.Identical(a.Underlying(), b.Underlying()) }
