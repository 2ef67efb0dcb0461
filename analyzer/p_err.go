package main

import (
	"golang.org/x/tools/go/ssa"
)

type errOpts struct {
	min       int
	pkgs      []string
	except    map[string]string
	optional  map[string]string
	sentinels map[string]string
	pure      bool
	entries   bool
}

func runErr(c *Ctx, rule string, o errOpts) {
	r := &errRule{p: c.p, c: c, rule: rule, okSentinel: o.sentinels, except: o.except, optional: o.optional, pure: o.pure, entries: o.entries, used: map[string]bool{}}
	r.isSource = func(fn *ssa.Function, call ssa.CallInstruction) bool { return true }
	for _, f := range c.p.funcsIn(o.pkgs...) {
		r.checkFunc(f)
	}
	if len(r.capped) > 0 {
		c.note("path budget reached (facts dropped, still sound) in %v", r.capped)
	}
	if len(r.skipped) > 0 {
		c.note("no error channel, not obligations: %v", r.skipped)
	}
	c.note("%s: %d functions, %d call sites", rule, r.funcs, r.sites)
	c.min(rule, o.min)
}

var errRuleText = "error discipline: for every call site whose callee can return a non-nil error, every path of the function on which that error is non-nil (path-sensitive propagation of nil/bool facts through the SSA control-flow graph, helpers and deferred closures inlined) must return a non-nil error, record it in an error field, hand it to a callback or panic; end-of-stream and not-found sentinels, and decisions taken on the byte count of a short read, count as handling"

func init() {
	eof := map[string]string{
		"io.EOF":                      "end of a stream of entries",
		modPath + "/rlp.EOL":          "end of the current list",
		modPath + "/rlp.errNoPointer": "",
		"github.com/syndtr/goleveldb/leveldb.ErrNotFound":        "absent key",
		"github.com/syndtr/goleveldb/leveldb/errors.ErrNotFound": "absent key",
	}
	register("S05", errRuleText, "functions without an error result (listed in notes) have no channel and are not obligations", func(c *Ctx) {
		runErr(c, "error-discipline", errOpts{min: 30, pkgs: []string{"db"}, entries: true, sentinels: eof, except: map[string]string{
			"db.NewLDB <- (*common.AbstractService).Init":  "a freshly built service whose init callback cannot fail",
			"db.NewLDB <- (*common.AbstractService).Start": "a freshly built service whose start callback cannot fail",
		}})
	})
	register("T01", errRuleText, "functions without an error result (listed in notes) have no channel and are not obligations", func(c *Ctx) {
		runErr(c, "error-discipline", errOpts{min: 30, pkgs: []string{"trie"}, entries: true, sentinels: eof, pure: true, optional: map[string]string{
			"(*trie.node).collapse":      "releasing memory of an already persisted subtree is optional",
			"(*trie.node).collapseValue": "releasing memory of an already persisted value is optional",
		}, except: map[string]string{
			"(*trie.node).expandValue <- dynamic trie.NodeValueHasher": "diagnostic comparison only, the loaded value is returned regardless",
			"(*trie.node).expandValue <- trie.DefaultValueHasher":      "diagnostic comparison only, the loaded value is returned regardless",
		}})
	})
	register("R06", errRuleText, "", func(c *Ctx) {
		runErr(c, "error-discipline", errOpts{min: 30, pkgs: []string{"rlp"}, sentinels: eof})
	})
	register("A04", errRuleText, "", func(c *Ctx) {
		runErr(c, "error-discipline", errOpts{min: 30, pkgs: []string{"abi"}, entries: true, sentinels: eof})
	})
	register("G12", errRuleText, "", func(c *Ctx) {
		runErr(c, "error-discipline", errOpts{min: 20, pkgs: []string{"", "math", "hexutil", "log"}, entries: true, sentinels: eof, optional: map[string]string{
			"(*plugin.Plugin).Lookup": "a shared object without a registration hook is legal",
			"encoding/hex.Decode":     "every digit was validated before (decided by the text-codec check)",
		}})
	})
}
