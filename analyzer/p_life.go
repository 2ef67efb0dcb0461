package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Service life cycle and logging front end.

// svc: the transitions of an operation: from which states it is allowed, and to which state it leads.
var svcOps = map[string]struct {
	from []string
	to   string
}{
	"Init":  {[]string{"SSCreated", "SSStopped"}, "SSInitialized"},
	"Start": {[]string{"SSInitialized"}, "SSStarted"},
	"Close": {[]string{"SSStarted"}, "SSStopped"},
}

var svcChecks = map[string]string{"CheckInit": "Init", "CheckStart": "Start", "CheckStop": "Close"}

func constOf(c *Ctx, name string) string {
	if o, ok := c.p.pkg("").Pkg.Scope().Lookup(name).(*types.Const); ok {
		return o.Val().ExactString()
	}
	return ""
}

func lifeCheck(c *Ctx) {
	n := c.p.named("", "AbstractService")
	stt := c.p.named("", "ServiceStatus")
	if n == nil || stt == nil {
		c.fail("life", "AbstractService", "", "type not found")
		return
	}
	st := n.Underlying().(*types.Struct)
	sf := ""
	for i := 0; i < st.NumFields(); i++ {
		if types.Identical(st.Field(i).Type(), stt) {
			sf = st.Field(i).Name()
		}
	}
	if sf == "" {
		c.note("not decided: AbstractService has no field of type ServiceStatus")
		return
	}
	names := []string{"SSCreated", "SSInitialized", "SSStarted", "SSStopped"}
	val := map[string]string{}
	dup := map[string]string{}
	for _, s := range names {
		val[s] = constOf(c, s)
		if val[s] == "" {
			c.note("not decided: constant %s not found", s)
			return
		}
		if o, ok := dup[val[s]]; ok {
			c.fail("life", s, "", "%s and %s are the same", o, s)
		}
		dup[val[s]] = s
	}
	if val["SSCreated"] != "0" {
		c.fail("life", "SSCreated", "", "a zero service is not in state SSCreated")
	}
	isFrom := func(op, s string) bool {
		for _, f := range svcOps[op].from {
			if f == s {
				return true
			}
		}
		return false
	}
	for _, m := range c.p.methodsOf(n) {
		op, ok := svcOps[m.Name()]
		if !ok || len(m.Blocks) == 0 {
			continue
		}
		for _, s := range names {
			cons := fname(m) + " in " + s
			place := "p0." + sf
			ps, why := eventPaths(c.p, m, nil, map[string]string{place: val[s]})
			if why != "" {
				c.note("not decided: %s (%s)", fname(m), why)
				continue
			}
			c.ob("life", cons)
			bad := func(p *pPath, format string, a ...any) {
				c.fail("life", cons, c.p.pos(m.Pos()), "%s%s", fmt.Sprintf(format, a...), p.describe())
			}
			for _, p := range ps {
				if p.end != "return" {
					bad(p, "panics")
					continue
				}
				var fns []pEv
				for _, e := range p.evs {
					if e.op == "call" && strings.HasPrefix(e.name, "dyn ") {
						fns = append(fns, e)
					}
				}
				res := p.res[0]
				after := p.mem[place]
				if !isFrom(m.Name(), s) {
					if res == "nil" {
						bad(p, "%s succeeds in state %s", m.Name(), s)
					}
					if len(fns) > 0 {
						bad(p, "%s runs the service function in state %s", m.Name(), s)
					}
					if after != val[s] {
						bad(p, "a refused %s changes the state", m.Name())
					}
					continue
				}
				want := "dyn *p0." + m.Name() + "Func"
				fn := "*p0." + m.Name() + "Func"
				switch {
				case len(fns) > 1:
					bad(p, "the service function runs %d times", len(fns))
				case len(fns) == 1 && fns[0].name != want:
					bad(p, "%s runs %s", m.Name(), strings.TrimPrefix(fns[0].name, "dyn *p0."))
				case len(fns) == 0 && p.truth(eqTerm(fn, "nil")) != 1:
					bad(p, "%s does not run its function (answers %s)", m.Name(), res)
				case len(fns) == 0:
					if res != "nil" {
						bad(p, "%s is refused in state %s", m.Name(), s)
					}
					if after != val[op.to] {
						bad(p, "a successful %s does not lead to %s", m.Name(), op.to)
					}
				default:
					failed := p.truth(eqTerm(fns[0].res, "nil"))
					if failed == 1 || res == "nil" {
						// success
						if failed != 1 {
							bad(p, "an error of the service function is dropped")
						}
						if res != "nil" && res != fns[0].res {
							bad(p, "a successful %s answers %s", m.Name(), res)
						}
						if after != val[op.to] {
							bad(p, "a successful %s does not lead to %s", m.Name(), op.to)
						}
						break
					}
					if failed == 0 {
						if m.Name() != "Close" && after != val[s] {
							bad(p, "a failed %s leaves the service in another state", m.Name())
						}
						break
					}
					// the error is handed on without looking at it
					if after == val[op.to] && m.Name() != "Close" {
						bad(p, "a failed %s counts as done", m.Name())
					}
				}
				// under one lock from the check to the end
				depth, touched := 0, false
				for _, e := range p.evs {
					switch {
					case e.op == "call" && strings.HasSuffix(e.name, ").Lock"):
						depth++
					case e.op == "call" && strings.HasSuffix(e.name, ").Unlock"):
						depth--
						touched = touched || depth == 0
					case e.op == "store" && e.args[0] == place, e.op == "call" && strings.HasPrefix(e.name, "dyn "):
						if depth < 1 {
							bad(p, "the state changes or the service function runs without the service lock")
						}
						if touched {
							bad(p, "the service lock is given up between the check and the change of state")
						}
					}
				}
			}
		}
	}
	for _, m := range c.p.methodsOf(stt) {
		opn, ok := svcChecks[m.Name()]
		if !ok || len(m.Blocks) == 0 {
			continue
		}
		op := svcOps[opn]
		for _, s := range names {
			cons := fname(m) + " in " + s
			ps, why := eventPaths(c.p, m, nil, map[string]string{"p0": val[s]})
			if why != "" {
				c.note("not decided: %s (%s)", fname(m), why)
				continue
			}
			c.ob("life", cons)
			for _, p := range ps {
				if p.end != "return" {
					c.fail("life", cons, c.p.pos(m.Pos()), "panics")
					continue
				}
				okState := p.res[0] == "nil"
				if okState != isFrom(opn, s) {
					c.fail("life", cons, c.p.pos(m.Pos()), "answers %s", p.res[0])
				}
				want := val[s]
				if isFrom(opn, s) {
					want = val[op.to]
				}
				if p.mem["p0"] != want {
					c.fail("life", cons, c.p.pos(m.Pos()), "leads to state %s", p.mem["p0"])
				}
			}
		}
	}
	for _, m := range c.p.methodsOf(n) {
		if m.Name() != "SetChanger" || len(m.Blocks) == 0 {
			continue
		}
		want := map[string]string{"InitFunc": "Initializer", "StartFunc": "Starter", "CloseFunc": "Closer"}
		for _, b := range m.Blocks {
			for _, in := range b.Instrs {
				s, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || want[fieldName(fa)] == "" {
					continue
				}
				mc, ok := s.Val.(*ssa.MakeClosure)
				if !ok {
					continue
				}
				c.ob("changer", fname(m)+" "+fieldName(fa))
				if got := strings.TrimSuffix(mc.Fn.Name(), "$bound"); mc.Fn.Name() != got && got != want[fieldName(fa)] {
					c.fail("changer", fname(m)+" "+fieldName(fa), c.p.ipos(in), "is set to %s", got)
				}
				delete(want, fieldName(fa))
			}
		}
		for f := range want {
			c.fail("changer", fname(m)+" "+f, c.p.pos(m.Pos()), "is not set")
		}
	}
	c.min("life", 20)
}

// --- logging ---

var logLevels = []string{"Debug", "Debugf", "Info", "Infof", "Warn", "Warnf", "Error", "Errorf"}

func logCheck(c *Ctx) {
	isLevel := func(n string) bool {
		for _, l := range logLevels {
			if l == n {
				return true
			}
		}
		return n == "Warning" || n == "Warningf"
	}
	for _, f := range c.p.funcsIn("log") {
		if f.Parent() != nil || f.Signature.Recv() != nil || len(f.Blocks) == 0 || !isExportedFn(f) {
			continue
		}
		n := f.Name()
		base, kind := n, ""
		if strings.HasPrefix(n, "Must") {
			base, kind = n[4:], "must"
		} else if strings.HasPrefix(n, "CC") {
			base, kind = n[2:], "cc"
		}
		switch {
		case isLevel(base):
			ps, why := eventPaths(c.p, f, nil, nil)
			if why != "" {
				c.note("not decided: %s (%s)", fname(f), why)
				continue
			}
			c.ob("level", fname(f))
			for _, p := range ps {
				bad := func(format string, a ...any) {
					c.fail("level", fname(f), c.p.pos(f.Pos()), "%s%s", fmt.Sprintf(format, a...), p.describe())
				}
				if p.end != "return" {
					bad("panics")
					continue
				}
				k := 0
				for _, e := range p.evs {
					if e.op != "call" {
						continue
					}
					i := strings.LastIndex(e.name, ".")
					m := e.name[i+1:]
					if !isLevel(m) && !strings.HasPrefix(m, "Print") && !strings.HasPrefix(m, "Panic") && !strings.HasPrefix(m, "Fatal") && !strings.HasPrefix(m, "Trace") && !strings.HasPrefix(m, "Log") {
						continue
					}
					k++
					if m != base && !(strings.HasPrefix(m, "Warning") && strings.Replace(m, "Warning", "Warn", 1) == base) {
						bad("a message of level %s is written with %s", base, m)
					}
					var want []string
					first := 0
					if kind == "must" {
						first = 1
					}
					for i := first; i < len(f.Params); i++ {
						want = append(want, fmt.Sprintf("p%d", i))
					}
					got := e.args
					if len(got) > 0 {
						recv := got[0]
						got = got[1:]
						if kind == "must" && recv == "p0" && p.truth(eqTerm("p0", "nil")) != 0 {
							bad("writes to a logger that may be nil")
						}
						if kind == "must" && recv != "p0" && p.truth(eqTerm("p0", "nil")) != 1 {
							bad("does not write to the given logger")
						}
					}
					if strings.Join(got, ",") != strings.Join(want, ",") {
						bad("writes (%s) instead of its arguments", strings.Join(got, ", "))
					}
				}
				if k != 1 {
					bad("a message is written %d times", k)
				}
			}
		case base == "WithFields" || base == "SetFields":
			ps, why := eventPaths(c.p, f, nil, nil)
			if why != "" {
				c.note("not decided: %s (%s)", fname(f), why)
				continue
			}
			c.ob("fields", fname(f))
			for _, p := range ps {
				if p.end != "return" {
					continue
				}
				hit := ""
				for _, e := range p.evs {
					if e.op == "call" && strings.HasSuffix(e.name, "WithFields") && len(e.args) > 1 && e.args[1] == "p0" {
						hit = e.res
					}
				}
				if hit == "" {
					c.fail("fields", fname(f), c.p.pos(f.Pos()), "the fields are not added%s", p.describe())
					continue
				}
				if base == "WithFields" && p.res[0] != hit {
					c.fail("fields", fname(f), c.p.pos(f.Pos()), "the logger with the fields is not returned%s", p.describe())
				}
				if base == "SetFields" {
					ok := false
					for k, v := range p.mem {
						ok = ok || v == hit && strings.HasPrefix(k, "&")
					}
					if !ok {
						c.fail("fields", fname(f), c.p.pos(f.Pos()), "the logger with the fields is not kept%s", p.describe())
					}
				}
			}
		case base == "WithField":
			withField(c, f)
		}
	}
	if n := c.p.named("log", "FileAndConsoleHook"); n != nil {
		hook(c, n)
	}
	c.min("level", 12)
	c.min("fields", 2)
	c.min("hook", 1)
}

// withField: every key of the list with its value.
func withField(c *Ctx, f *ssa.Function) {
	ps, why := eventPaths(c.p, f, nil, nil)
	if why != "" {
		c.note("not decided: %s (%s)", fname(f), why)
		return
	}
	c.ob("fields", fname(f))
	bad := func(p *pPath, format string, a ...any) {
		c.fail("fields", fname(f), c.p.pos(f.Pos()), "%s%s", fmt.Sprintf(format, a...), p.describe())
	}
	sets := 0
	for _, p := range ps {
		if p.end != "return" {
			bad(p, "panics")
			continue
		}
		var m string
		for _, e := range p.evs {
			if e.op != "mapset" {
				continue
			}
			sets++
			m = e.args[0]
			if len(e.loop) == 0 {
				bad(p, "only one pair is kept")
				continue
			}
			it := e.loop[len(e.loop)-1]
			lp := p.loops[it]
			k, v := "*p0["+it+"].(string)", "*p0[("+it+"+1)]"
			if lp.start == "1" {
				k, v = "*p0[("+it+"-1)].(string)", "*p0["+it+"]"
			}
			if lp.step != "+2" || lp.left {
				if lp.step == "" {
					c.note("not decided: loop of %s", fname(f))
					continue
				}
				bad(p, "the list is walked in steps of %s", lp.step)
				continue
			}
			if lp.start != "0" && lp.start != "1" {
				bad(p, "the walk starts at %s", lp.start)
			}
			if e.args[1] != k || e.args[2] != v {
				bad(p, "a pair (%s, %s) is kept instead of (%s, %s)", e.args[1], e.args[2], k, v)
			}
			n := "len(p0)"
			last := map[string]bool{"lt{(" + it + "+1)}{" + n + "}": true, "lt{" + it + "}{(" + n + "-1)}": true, "!lt{(" + n + "-2)}{" + it + "}": true, "!lt{(" + n + "-1)}{(" + it + "+1)}": true}
			if lp.start == "1" {
				last = map[string]bool{"lt{" + it + "}{" + n + "}": true}
			}
			if !last[lp.cond] {
				if strings.Contains(lp.cond, n) && strings.Contains(lp.cond, it) && !strings.Contains(lp.cond, "lt{"+it+"}{"+n+"}") {
					bad(p, "the last pair is left out (%s)", lp.cond)
				}
			}
		}
		for _, lp := range p.loops {
			if lp.left {
				bad(p, "the walk stops before the end of the list")
			}
		}
		// the fields reach the answer
		if m != "" {
			ok := false
			for _, e := range p.evs {
				if e.op == "call" && strings.HasSuffix(e.name, "WithFields") && len(e.args) > 1 && e.args[1] == m && p.res[0] == e.res {
					ok = true
				}
			}
			if !ok {
				bad(p, "the kept pairs are not added to the answered logger")
			}
		}
		if len(p.order) > 0 && m == "" {
			// without a loop: only when there is no pair
			if p.truth("lt{1}{len(p0)}") != 0 && p.truth("lt{len(p0)}{2}") != 1 && p.truth(eqTerm("len(p0)", "0")) != 1 && len(p.loops) == 0 {
				bad(p, "the pairs are dropped")
			}
		}
	}
	if sets == 0 {
		c.note("not decided: %s keeps no pair", fname(f))
	}
}

// hook: every entry goes to the log file, and to the console when its level is selected.
func hook(c *Ctx, n *types.Named) {
	for _, m := range c.p.methodsOf(n) {
		if m.Name() == "Levels" && len(m.Blocks) > 0 {
			// the hook is asked for entries of every level
			ps, why := eventPaths(c.p, m, nil, nil)
			if why != "" {
				c.note("not decided: %s (%s)", fname(m), why)
				continue
			}
			c.ob("hook", fname(m))
			for _, p := range ps {
				if p.end == "return" && strings.Contains(p.res[0], "AllLevels") && !strings.HasSuffix(p.res[0], "AllLevels") {
					c.fail("hook", fname(m), c.p.pos(m.Pos()), "answers only some levels: %s", p.res[0])
				}
			}
		}
		if m.Name() != "Fire" || len(m.Blocks) == 0 {
			continue
		}
		ps, why := eventPaths(c.p, m, nil, nil)
		if why != "" {
			c.note("not decided: %s (%s)", fname(m), why)
			continue
		}
		c.ob("hook", fname(m))
		for _, p := range ps {
			bad := func(format string, a ...any) {
				c.fail("hook", fname(m), c.p.pos(m.Pos()), "%s%s", fmt.Sprintf(format, a...), p.describe())
			}
			if p.end != "return" || len(p.res) != 1 || p.res[0] != "nil" {
				continue
			}
			if p.truth("*p0.enabled") == 0 {
				continue
			}
			var msg string
			w := map[string]int{}
			for _, e := range p.evs {
				if e.op == "call" && strings.HasSuffix(e.name, ".Format") {
					msg = e.res + ".0"
					if len(e.args) < 2 || e.args[1] != "p1" {
						bad("formats %s", strings.Join(e.args, ","))
					}
				}
				if e.op == "call" && strings.HasSuffix(e.name, ".Write") && len(e.args) == 2 {
					w[e.args[0]]++
					if e.args[1] != msg {
						bad("writes %s instead of the formatted entry", e.args[1])
					}
				}
			}
			for _, t := range []struct{ f, what string }{{"logfile", "log file"}, {"consoleWriter", "console"}} {
				fd := "*p0." + t.f
				has := -1
				if stFieldIndex(n.Underlying().(*types.Struct), t.f) < 0 {
					c.note("not decided: field %s", t.f)
					continue
				}
				if v := p.truth(eqTerm(fd, "nil")); v >= 0 {
					has = 1 - v
				}
				want := has != 0
				if t.f == "consoleWriter" {
					for cd, v := range p.conds {
						if strings.HasPrefix(cd, "has(") && !v {
							want = false
						}
					}
				}
				switch {
				case want && w[fd] == 0:
					bad("an entry is not written to the %s", t.what)
				case w[fd] > 1:
					bad("an entry is written %d times to the %s", w[fd], t.what)
				case !want && w[fd] > 0:
					bad("an entry is written to the %s that must not be", t.what)
				}
			}
		}
	}
}

func init() {
	register("G06", "event-path analysis of Init, Start, Close and the status checks in each of the four states: allowed transitions, function runs once, refused and failed operations leave the state, all under the service lock", "what the service functions do is up to their owner; the state after a failed Close is not specified", lifeCheck)
	register("G07", "event-path analysis of the logging front end: each level function writes exactly one message of its own level with its arguments unchanged; fields and key-value pairs reach the logger; the hook writes every entry to the file and selected levels to the console", "formatting and the logrus library itself are not analysed", logCheck)
}
