package main

import (
	"sort"
	"strings"
)

type lockFinding struct{ kind, construct, where, msg string }

var lockOnce struct {
	p *Prog
	e *lockEngine
	f []lockFinding
}

func lockResults(p *Prog) (*lockEngine, []lockFinding) {
	if lockOnce.p == p {
		return lockOnce.e, lockOnce.f
	}
	var fs []lockFinding
	e := newLockEngine(p, func(kind, construct, where, msg string) {
		fs = append(fs, lockFinding{kind, construct, where, msg})
	})
	e.rootViolations()
	e.owned = e.checkOwned()
	lockOnce.p, lockOnce.e, lockOnce.f = p, e, fs
	return e, fs
}

// lockRank orders the layers: a lock of a lower layer may be taken while one of
// a higher layer is held, never the other way round.
func lockRank(class string) int {
	pk := strings.TrimPrefix(class, "var ")
	if i := strings.Index(pk, "."); i >= 0 {
		pk = pk[:i]
	}
	if i := strings.LastIndex(pk, "/"); i >= 0 {
		pk = pk[i+1:]
	}
	switch pk {
	case "trie":
		return 3
	case "db":
		return 2
	case "log":
		return 0
	}
	return 1
}

// lockCycles lists the elementary cycles' members of the static lock-order graph.
func lockCycles(g map[string]map[string]string) [][]string {
	// Tarjan
	idx, low := map[string]int{}, map[string]int{}
	on := map[string]bool{}
	var st []string
	n := 0
	var out [][]string
	var visit func(v string)
	visit = func(v string) {
		n++
		idx[v], low[v] = n, n
		st = append(st, v)
		on[v] = true
		for _, w := range sortedKeys(g[v]) {
			if idx[w] == 0 {
				visit(w)
				if low[w] < low[v] {
					low[v] = low[w]
				}
			} else if on[w] && idx[w] < low[v] {
				low[v] = idx[w]
			}
		}
		if low[v] == idx[v] {
			var c []string
			for {
				w := st[len(st)-1]
				st = st[:len(st)-1]
				on[w] = false
				c = append(c, w)
				if w == v {
					break
				}
			}
			if len(c) > 1 {
				sort.Strings(c)
				out = append(out, c)
			}
		}
	}
	for _, v := range sortedKeys(g) {
		if idx[v] == 0 {
			visit(v)
		}
	}
	return out
}

func init() {
	register("C01", "Interprocedural must-lockset analysis over SSA: guarded fields are derived from the code (mutable fields of every struct that carries a mutex, and package variables accessed under a package lock); every read or write of a guarded location on every path is an obligation that the guarding lock (same access path) is held in the right mode, requirements of helpers are propagated to their callers up to the entry points; closures inherit the locks at their call site. No function that others call hands out the very map or slice behind a guarded location, or keeps one it was given there (points-to summaries).",
		"objects before their constructor returns; function-typed hook fields; fields never written after construction", func(c *Ctx) {
			e, fs := lockResults(c.p)
			for k, l := range e.govern {
				c.ob("guarded-field", k+" by "+l)
			}
			c.obn("guarded-access", e.nAccess)
			for _, f := range fs {
				if f.kind == "guard" {
					c.fail("guarded-access", f.construct, f.where, "%s", f.msg)
				}
			}
			lockEscape(c, e)
			c.min("guarded-field", 33)
			c.min("guarded-access", 450)
			c.note("immutable after construction: %s", strings.Join(sortedKeys(e.immut), " "))
		})
	register("C02", "May-lockset dataflow over SSA: at every return of every function that operates a lock, directly or through helpers (net-effect summaries), the locks that may be held are exactly those held on entry; releases of locks that are not held and releases in the other mode are reported.",
		"panics while a lock is held", func(c *Ctx) {
			e, fs := lockResults(c.p)
			c.obn("lock-site", e.locked)
			c.obn("return", e.retHeld)
			for _, f := range fs {
				switch f.kind {
				case "leak", "unheld", "mode":
					c.fail("release", f.construct, f.where, "%s", f.msg)
				}
			}
			c.min("lock-site", 140)
		})
	register("C03", "Held-set analysis: no call chain acquires a lock (same access path) it already holds, read locks included; the lock-order graph over lock classes has no cycle through static calls, and over all in-repository implementations of interface calls no layer (trie, database, common, log - in this order) acquires a lock of a layer above it.",
		"ordering of two instances of one class, and of tries or databases wrapped in each other through interfaces", func(c *Ctx) {
			e, fs := lockResults(c.p)
			c.obn("lock-site", e.locked)
			for _, f := range fs {
				if f.kind == "self" {
					c.fail("self-deadlock", f.construct, f.where, "%s", f.msg)
				}
			}
			for a, m := range e.edges {
				for b, w := range m {
					c.check(lockRank(a) >= lockRank(b), "layer-order", a+" -> "+b, w, "while holding a lock of a lower layer (%s) a lock of a higher layer (%s) is acquired", a, b)
				}
			}
			for a, m := range e.sedges {
				for b := range m {
					c.ob("lock-order", a+" -> "+b)
				}
			}
			for _, cy := range lockCycles(e.sedges) {
				w := ""
				for _, a := range cy {
					for _, b := range cy {
						if x := e.sedges[a][b]; x != "" {
							w += a + " -> " + b + " at " + x + "; "
						}
					}
				}
				c.fail("lock-order", "cycle "+strings.Join(cy, " "), strings.SplitN(w, " at ", 2)[1], "locks are acquired in both orders: %s", w)
			}
			c.min("lock-site", 140)
			c.min("lock-order", 8)
			c.min("layer-order", 40)
		})
}
