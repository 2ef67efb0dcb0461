package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Worker pool: start, stop, restart, priorities and key counts.

// iterAll: the generic iteration visits every index of seq, and idx is the index.
func (p *pPath) iterAll(it, idx, seq string) bool {
	lp, ok := p.loops[it]
	if !ok || lp.left || lp.step != "+1" {
		return false
	}
	n := "len(" + seq + ")"
	var i string
	switch lp.start {
	case "0":
		i = it
	case "-1":
		i = "(" + it + "+1)"
	default:
		return false
	}
	if lp.cond != "lt{"+i+"}{"+n+"}" && lp.cond != "!"+eqTerm(i, n) {
		// the length may be known under another term
		if !strings.HasPrefix(lp.cond, "lt{"+i+"}{") {
			return false
		}
		b := strings.TrimSuffix(strings.TrimPrefix(lp.cond, "lt{"+i+"}{"), "}")
		if b != n && b != p.mem["len:"+seq] {
			return false
		}
	}
	return idx == i
}

func (p *pPath) describe() string {
	if len(p.order) == 0 {
		return ""
	}
	return " [" + strings.Join(p.order, ", ") + "]"
}

type poolChk struct {
	c    *Ctx
	n    *types.Named
	st   *types.Struct
	flag string            // field: running
	wg   string            // field: wait group
	quit string            // field: quit channel
	list string            // field: workers
	wmap map[string]string // worker channel field -> pool field
	wqui string            // worker quit field
	wt   *types.Named
}

func (k *poolChk) paths(f *ssa.Function, inl func(*ssa.Function) bool) []*pPath {
	ps, why := eventPaths(k.c.p, f, inl, nil)
	if why != "" {
		k.c.note("not decided: %s (%s)", fname(f), why)
		return nil
	}
	return ps
}

func isChanStruct(t types.Type) bool {
	ch, ok := t.Underlying().(*types.Chan)
	if !ok {
		return false
	}
	s, ok := ch.Elem().Underlying().(*types.Struct)
	return ok && s.NumFields() == 0
}

func inlMethods(f *ssa.Function) bool { return f.Signature.Recv() != nil }

func poolCheck(c *Ctx) {
	k := &poolChk{c: c, n: c.p.named("", "RoutinePool"), wmap: map[string]string{}}
	if k.n == nil {
		c.fail("pool", "RoutinePool", "", "type not found")
		return
	}
	k.st = k.n.Underlying().(*types.Struct)
	for i := 0; i < k.st.NumFields(); i++ {
		f := k.st.Field(i)
		switch {
		case namedIs(f.Type(), "sync", "WaitGroup"):
			k.wg = f.Name()
		case isBool(f.Type()):
			k.flag = f.Name()
		case isChanStruct(f.Type()):
			k.quit = f.Name()
		}
		if s, ok := f.Type().Underlying().(*types.Slice); ok {
			if p, ok := s.Elem().Underlying().(*types.Pointer); ok {
				if n := namedOf(p); n != nil {
					k.list, k.wt = f.Name(), n
				}
			}
		}
	}
	if k.wg == "" || k.flag == "" || k.quit == "" || k.list == "" {
		c.note("not decided: the pool does not have one flag, wait group, quit channel and worker list")
		return
	}
	ws, _ := k.wt.Underlying().(*types.Struct)
	for i := 0; ws != nil && i < ws.NumFields(); i++ {
		if isChanStruct(ws.Field(i).Type()) {
			k.wqui = ws.Field(i).Name()
		}
	}
	k.constructor()
	var start, stop []*ssa.Function
	for _, m := range c.p.methodsOf(k.n) {
		if len(m.Blocks) == 0 {
			continue
		}
		hasGo, hasClose := false, false
		for g := range c.p.reachableFns(m) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if _, ok := in.(*ssa.Go); ok && c.p.inPkg(g, "") {
						hasGo = true
					}
					if cl, ok := in.(*ssa.Call); ok {
						if bi, ok := cl.Call.Value.(*ssa.Builtin); ok && bi.Name() == "close" && c.p.inPkg(g, "") {
							hasClose = true
						}
					}
				}
			}
		}
		if !isExportedFn(m) {
			continue
		}
		if hasGo {
			start = append(start, m)
		}
		if hasClose {
			stop = append(stop, m)
		}
	}
	stopFresh := k.stop(stop)
	k.start(start, stopFresh)
	k.posts()
	k.counters()
	c.min("pool-start", 1)
	c.min("pool-stop", 1)
	c.min("pool-worker", 1)
	c.min("pool-new", 1)
	c.min("pool-post", 2)
	c.min("key-count", 2)
}

func (k *poolChk) constructor() {
	c := k.c
	for _, f := range c.p.funcsIn("") {
		if f.Parent() != nil || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || !isExportedFn(f) {
			continue
		}
		if namedOf(f.Signature.Results().At(0).Type()) != k.n {
			continue
		}
		ps := k.paths(f, nil)
		if ps == nil {
			continue
		}
		c.ob("pool-new", fname(f))
		bad := func(format string, a ...any) {
			c.fail("pool-new", fname(f), c.p.pos(f.Pos()), format, a...)
		}
		for _, p := range ps {
			if p.end != "return" {
				continue
			}
			r := p.res[0]
			if !strings.HasPrefix(r, "new#") {
				continue
			}
			if v := p.mem[r+"."+k.flag]; v != "false" {
				bad("a new pool starts in the running state (%s)", v)
			}
			// channels of the pool
			chans := map[string]string{}
			for i := 0; i < k.st.NumFields(); i++ {
				fd := k.st.Field(i)
				ch, ok := fd.Type().Underlying().(*types.Chan)
				if !ok {
					continue
				}
				v := p.mem[r+"."+fd.Name()]
				if !strings.HasPrefix(v, "mkchan#") {
					if fd.Name() == k.quit {
						continue
					}
					bad("the channel %s is not made", fd.Name())
					continue
				}
				if o, dup := chans[v]; dup {
					bad("%s and %s are the same channel", o, fd.Name())
				}
				chans[v] = fd.Name()
				if !isChanStruct(ch) {
					if cp := p.mem["cap:"+v]; !strings.HasPrefix(cp, "p") {
						bad("the queue %s does not have the requested size (%s)", fd.Name(), cp)
					}
				}
			}
			// workers
			seen := false
			for _, e := range p.evs {
				if e.op != "store" || !strings.HasPrefix(e.args[1], "new#") || len(e.loop) == 0 {
					continue
				}
				it := e.loop[len(e.loop)-1]
				list := p.mem[r+"."+k.list]
				if !strings.HasPrefix(e.args[0], list+"[") {
					continue
				}
				seen = true
				idx := strings.TrimSuffix(e.args[0][len(list)+1:], "]")
				if !p.iterAll(it, idx, list) {
					bound := p.mem["len:"+list]
					lp := p.loops[it]
					if !(lp.start == "0" && lp.step == "+1" && !lp.left && idx == it && lp.cond == "lt{"+it+"}{"+bound+"}") {
						bad("not every worker is made")
					}
				}
				w := e.args[1]
				ws := k.wt.Underlying().(*types.Struct)
				for i := 0; i < ws.NumFields(); i++ {
					fd := ws.Field(i)
					v := e.mem[w+"."+fd.Name()]
					switch t := fd.Type().Underlying().(type) {
					case *types.Chan:
						if isChanStruct(t) {
							continue
						}
						pf, ok := chans[v]
						if !ok {
							bad("the worker's %s is not a queue of the pool (%s)", fd.Name(), v)
							continue
						}
						for o, q := range k.wmap {
							if q == pf && o != fd.Name() {
								bad("the worker's %s and %s are the same queue", o, fd.Name())
							}
						}
						k.wmap[fd.Name()] = pf
					case *types.Pointer:
						if namedOf(t) == k.n && v != r {
							bad("the worker's %s is not the pool", fd.Name())
						}
					case *types.Signature:
						if !strings.HasPrefix(v, "p") {
							bad("the worker's %s is not the given function (%s)", fd.Name(), v)
						}
					}
				}
			}
			if !seen {
				c.note("not decided: workers of %s", fname(f))
			}
		}
	}
}

func (k *poolChk) field(s string) string { return "*p0." + s }

func (k *poolChk) stop(fs []*ssa.Function) bool {
	c := k.c
	fresh := false
	for _, f := range fs {
		ps := k.paths(f, nil)
		if ps == nil {
			continue
		}
		c.ob("pool-stop", fname(f))
		bad := func(p *pPath, format string, a ...any) {
			c.fail("pool-stop", fname(f), c.p.pos(f.Pos()), "%s%s", fmt.Sprintf(format, a...), p.describe())
		}
		for _, p := range ps {
			if p.end != "return" {
				continue
			}
			nc, closeAt, waitAt := 0, -1, -1
			for i, e := range p.evs {
				switch {
				case e.op == "close":
					nc++
					closeAt = i
					if e.args[0] != k.field(k.quit) {
						bad(p, "closes %s", e.args[0])
					}
				case e.op == "call" && strings.HasSuffix(e.name, "WaitGroup).Wait"):
					waitAt = i
				}
			}
			run := p.truth(k.field(k.flag))
			switch {
			case nc == 0 && run == 1:
				bad(p, "a running pool is left without being told to quit")
			case nc == 0:
				if v, ok := p.mem["p0."+k.flag]; ok && v == "true" {
					bad(p, "a stopped pool counts as running")
				}
			case nc > 0 && run != 1:
				bad(p, "the quit channel is closed though the pool may not be running: a second close panics")
			case nc > 1:
				bad(p, "the quit channel is closed twice")
			default:
				if v, ok := p.mem["p0."+k.flag]; !ok || p.truth(v) != 0 {
					bad(p, "a stopped pool still counts as running: it can not be started again and a second Stop panics")
				}
				if waitAt < closeAt {
					bad(p, "does not wait for the workers after telling them to quit")
				}
				fresh = strings.HasPrefix(p.mem["p0."+k.quit], "mkchan#")
			}
		}
	}
	return fresh
}

func (k *poolChk) start(fs []*ssa.Function, stopFresh bool) {
	c := k.c
	workers := map[*ssa.Function]bool{}
	for _, f := range fs {
		ps := k.paths(f, nil)
		if ps == nil {
			continue
		}
		c.ob("pool-start", fname(f))
		bad := func(p *pPath, format string, a ...any) {
			c.fail("pool-start", fname(f), c.p.pos(f.Pos()), "%s%s", fmt.Sprintf(format, a...), p.describe())
		}
		for _, p := range ps {
			if p.end != "return" {
				continue
			}
			run := p.truth(k.field(k.flag))
			var gos, adds []int
			for i, e := range p.evs {
				if e.op == "go" {
					gos = append(gos, i)
				}
				if e.op == "call" && strings.HasSuffix(e.name, "WaitGroup).Add") {
					adds = append(adds, i)
				}
			}
			if len(gos) == 0 {
				if run == 0 && len(p.loops) == 0 {
					bad(p, "a stopped pool is not started")
				}
				continue
			}
			if run != 0 {
				bad(p, "workers are launched though the pool may be running already")
			}
			if p.truth(p.mem["p0."+k.flag]) != 1 {
				bad(p, "the started pool does not count as running: a second Start launches more workers, Stop does nothing")
			}
			if len(gos) != 1 {
				bad(p, "a worker is launched %d times", len(gos))
				continue
			}
			g := p.evs[gos[0]]
			if len(g.loop) == 0 {
				bad(p, "only one worker is launched")
				continue
			}
			it := g.loop[len(g.loop)-1]
			target := staticCallee(g.in.(ssa.CallInstruction))
			if target == nil {
				c.note("not decided: goroutine of %s", fname(f))
				continue
			}
			recv := ""
			if len(g.args) > 0 {
				recv = g.args[0]
			}
			list := k.field(k.list)
			pre := "*" + list + "["
			if !strings.HasPrefix(recv, pre) || !p.iterAll(it, strings.TrimSuffix(recv[len(pre):], "]"), list) {
				bad(p, "not every worker of the list is launched once")
				continue
			}
			workers[target] = true
			// wait group
			okAdd := len(adds) == 1
			if okAdd {
				a := p.evs[adds[0]]
				amount := a.args[len(a.args)-1]
				if len(a.loop) == 0 {
					okAdd = adds[0] < gos[0] && amount == "len("+list+")"
				} else {
					okAdd = a.loop[len(a.loop)-1] == it && adds[0] < gos[0] && amount == "1"
				}
			}
			if !okAdd {
				bad(p, "the wait group is not raised by the number of launched workers before they run")
			}
			// quit channel
			q := g.mem["p0."+k.quit]
			isFresh := strings.HasPrefix(q, "mkchan#")
			if !isFresh && !stopFresh {
				bad(p, "the workers of a restarted pool get the closed quit channel")
			}
			if k.wqui != "" {
				if q == "" {
					q = k.field(k.quit)
				}
				w := g.mem[recv+"."+k.wqui]
				if w != q {
					bad(p, "the worker does not listen to the pool's current quit channel (%s)", w)
				}
			}
		}
	}
	for w := range workers {
		k.worker(w)
	}
}

// worker: one goroutine.
func (k *poolChk) worker(f *ssa.Function) {
	c := k.c
	ps := k.paths(f, inlMethods)
	if ps == nil {
		return
	}
	c.ob("pool-worker", fname(f))
	bad := func(p *pPath, format string, a ...any) {
		c.fail("pool-worker", fname(f), c.p.pos(f.Pos()), "%s%s", fmt.Sprintf(format, a...), p.describe())
	}
	hi, lo := k.queue("PostHigher"), k.queue("PostLower")
	wf := func(pool string) string {
		for w, p := range k.wmap {
			if p == pool {
				return w
			}
		}
		return pool
	}
	for _, p := range ps {
		if p.end != "return" {
			continue
		}
		done := 0
		for _, e := range p.evs {
			if e.op == "call" && strings.HasSuffix(e.name, "WaitGroup).Done") {
				done++
			}
		}
		if done != 1 {
			bad(p, "a worker that ends reports it %d times to the wait group", done)
		}
		sawDefault := false
		type got struct{ term, q string }
		var pending []got
		for i, e := range p.evs {
			if e.op == "recv" {
				bad(p, "waits for %s without listening to the quit channel", e.args[0])
				continue
			}
			if e.op != "select" {
				continue
			}
			blocking := e.args[len(e.args)-1] != "default"
			sts := e.args
			if !blocking {
				sts = sts[:len(sts)-1]
			}
			qk, hk, lk := -1, -1, -1
			nrecv := 0
			slot := map[int]int{}
			for j, s := range sts {
				slot[j] = nrecv
				if strings.HasPrefix(s, "recv:") {
					nrecv++
				}
				switch s {
				case "recv:*p0." + k.wqui:
					qk = j
				case "recv:" + k.field(wf(hi)):
					hk = j
				case "recv:" + k.field(wf(lo)):
					lk = j
				case "recv:*" + "*p0.pool." + k.quit:
					qk = j
				}
			}
			if blocking && (qk < 0 || hk < 0 || lk < 0) {
				bad(p, "waits without listening to quit and both queues")
			}
			idx := e.res + ".0"
			taken := -1
			for j := range sts {
				if p.truth(eqTerm(idx, fmt.Sprint(j))) == 1 {
					taken = j
				}
			}
			if taken < 0 && !blocking {
				if hk >= 0 {
					sawDefault = true
				}
				continue
			}
			if taken < 0 {
				// the last case of a blocking select needs no test
				free := []int{}
				for j := range sts {
					if p.truth(eqTerm(idx, fmt.Sprint(j))) != 0 {
						free = append(free, j)
					}
				}
				if len(free) == 1 {
					taken = free[0]
				}
			}
			if taken < 0 {
				continue
			}
			if taken == lk && !sawDefault {
				bad(p, "takes from the lower queue without looking at the higher queue first")
			}
			if taken == hk || taken == lk {
				pending = append(pending, got{fmt.Sprintf("%s.%d", e.res, 2+slot[taken]), ""})
			}
			_ = i
		}
		for _, g := range pending {
			if p.truth(eqTerm(g.term, "nil")) == 1 {
				continue
			}
			// no work function: nothing to run
			n, wi := 0, -1
			none := false
			for cd, v := range p.conds {
				if l, r, ok := splitCmp(cd); ok && v && r == "nil" && strings.HasPrefix(l, "*p0.") {
					if ws, ok := k.wt.Underlying().(*types.Struct); ok {
						if i := stFieldIndex(ws, strings.TrimPrefix(l, "*p0.")); i >= 0 {
							if _, ok := ws.Field(i).Type().Underlying().(*types.Signature); ok {
								none = true
							}
						}
					}
				}
			}
			for i, e := range p.evs {
				if e.op == "call" && strings.HasPrefix(e.name, "dyn *p0.") && len(e.args) > 0 && e.args[len(e.args)-1] == g.term && len(e.args) > 1 {
					n++
					wi = i
				}
			}
			if none {
				continue
			}
			if n != 1 {
				bad(p, "an event taken from a queue is handed to the work function %d times", n)
				continue
			}
			// key counts around the work
			var inc, dec []string
			for i, e := range p.evs {
				if e.op != "call" {
					continue
				}
				g := staticCallee(e.in.(ssa.CallInstruction))
				if g == nil {
					continue
				}
				switch k.kind(g) {
				case 1:
					inc = append(inc, e.args[0])
					if i > wi {
						bad(p, "an event is counted after its work is done")
					}
				case -1:
					dec = append(dec, e.args[0])
					if i < wi {
						bad(p, "an event stops counting before its work is done")
					}
				}
			}
			if len(inc) != len(dec) || len(inc) > 1 || len(inc) == 1 && inc[0] != dec[0] {
				bad(p, "the count of running events of a key is raised %d times and lowered %d times", len(inc), len(dec))
			}
		}
	}
}

// queue: the pool's queue field a Post method sends to.
func (k *poolChk) queue(name string) string {
	for _, m := range k.c.p.methodsOf(k.n) {
		if m.Name() != name {
			continue
		}
		for _, p := range k.paths(m, nil) {
			for _, e := range p.evs {
				if e.op == "send" {
					return strings.TrimPrefix(e.args[0], "*p0.")
				}
			}
		}
	}
	return "?" + name
}

func (k *poolChk) posts() {
	c := k.c
	qs := map[string]string{}
	for _, name := range []string{"PostHigher", "PostLower"} {
		for _, m := range c.p.methodsOf(k.n) {
			if m.Name() != name {
				continue
			}
			c.ob("pool-post", fname(m))
			for _, p := range k.paths(m, nil) {
				n := 0
				for _, e := range p.evs {
					if e.op == "send" {
						n++
						if e.args[1] != "p1" {
							c.fail("pool-post", fname(m), c.p.ipos(e.in), "sends %s", e.args[1])
						}
						qs[name] = e.args[0]
					}
				}
				if n != 1 && p.end == "return" {
					c.fail("pool-post", fname(m), c.p.pos(m.Pos()), "the event is queued %d times%s", n, p.describe())
				}
			}
		}
	}
	if qs["PostHigher"] != "" && qs["PostHigher"] == qs["PostLower"] {
		c.fail("pool-post", "PostHigher and PostLower", "", "both use the queue %s", qs["PostLower"])
	}
	for _, m := range c.p.methodsOf(k.n) {
		w := map[string]string{"HigherLen": "PostHigher", "LowerLen": "PostLower"}[m.Name()]
		if w == "" || qs[w] == "" {
			continue
		}
		c.ob("pool-post", fname(m))
		for _, p := range k.paths(m, nil) {
			if p.end == "return" && p.res[0] != "len("+qs[w]+")" {
				c.fail("pool-post", fname(m), c.p.pos(m.Pos()), "answers %s, not the length of the queue of %s", p.res[0], w)
			}
		}
	}
}

// kind: 1 raises, -1 lowers the count of a key, 0 otherwise.
func (k *poolChk) kind(f *ssa.Function) int {
	if len(f.Params) != 1 || f.Signature.Recv() != nil || len(f.Blocks) == 0 || f.Signature.Results().Len() != 0 {
		return 0
	}
	if b, ok := f.Params[0].Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
		return 0
	}
	up, down, writes := false, false, false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.MapUpdate:
				writes = true
			case *ssa.BinOp:
				if n, ok := constInt(x.Y); ok && n == 1 {
					switch x.Op.String() {
					case "+":
						up = true
					case "-":
						down = true
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					down = true
				}
			}
		}
	}
	if !writes {
		return 0
	}
	if down {
		return -1
	}
	if up {
		return 1
	}
	return 0
}

func (k *poolChk) counters() {
	c := k.c
	for _, f := range c.p.funcsIn("") {
		kd := k.kind(f)
		if kd == 0 || f.Parent() != nil {
			continue
		}
		ps := k.paths(f, nil)
		if ps == nil {
			continue
		}
		c.ob("key-count", fname(f))
		bad := func(p *pPath, format string, a ...any) {
			c.fail("key-count", fname(f), c.p.pos(f.Pos()), "%s%s", fmt.Sprintf(format, a...), p.describe())
		}
		for _, p := range ps {
			if p.end != "return" {
				continue
			}
			var sets, dels []pEv
			for _, e := range p.evs {
				if e.op == "mapset" {
					sets = append(sets, e)
				}
				if e.op == "delete" {
					dels = append(dels, e)
				}
			}
			has := -1
			for cd, v := range p.conds {
				if strings.HasPrefix(cd, "has(") && strings.HasSuffix(cd, "[p0])") {
					has = 0
					if v {
						has = 1
					}
				}
			}
			for _, e := range append(append([]pEv{}, sets...), dels...) {
				if e.args[1] != "p0" {
					bad(p, "changes the count of %s", e.args[1])
				}
			}
			if kd == 1 {
				if len(sets) != 1 || len(dels) != 0 {
					bad(p, "the count is raised %d times", len(sets))
					continue
				}
				v := sets[0].args[2]
				old := "*" + sets[0].args[0] + "[p0]"
				if !(v == "("+old+"+1)" || v == "(1+"+old+")" || v == "1" && has == 0) {
					bad(p, "the count becomes %s", v)
				}
				continue
			}
			switch {
			case len(sets)+len(dels) > 1:
				bad(p, "the count is lowered more than once")
			case len(sets) == 1:
				old := "*" + sets[0].args[0] + "[p0]"
				if sets[0].args[2] != "("+old+"-1)" {
					bad(p, "the count becomes %s", sets[0].args[2])
				}
				if p.truth("lt{1}{"+old+"}") != 1 && p.truth("lt{0}{"+old+"}") != 1 {
					bad(p, "a count that reaches zero is not checked")
				}
			case len(dels) == 1:
				old := "*" + dels[0].args[0] + "[p0]"
				if p.truth("lt{1}{"+old+"}") != 0 && p.truth(eqTerm(old, "1")) != 1 && p.truth("lt{"+old+"}{2}") != 1 {
					bad(p, "the key is removed while it still has running events")
				}
			default:
				if has != 0 {
					bad(p, "the count is not lowered")
				}
			}
		}
	}
}

func init() {
	register("C08", "event-path analysis (every path of the pool's methods and of the worker, loops as one generic iteration, helpers followed): typestate of the running flag, quit channel and wait group; queue priority; each event handed over once; key counts paired", "a panic of the user's work function is not recovered by the pool and not covered", poolCheck)
}
