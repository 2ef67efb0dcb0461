package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type canonVal struct {
	name    string
	integer bool // no leading zeros
	exact   bool // the value has just the size of the target
	bits    bool // limited by the first argument, in bits
	max     string
}

var canonVals = []canonVal{
	{name: "(*rlp.Stream).Bytes"},
	{name: "(*rlp.Stream).ReadBytes", exact: true},
	{name: "(*rlp.Stream).uint", integer: true, bits: true},
	{name: "(*rlp.Stream).decodeBigInt", integer: true},
	{name: "(*rlp.Stream).ReadUint256", integer: true, max: "32"},
	{name: "rlp.decodeByteArray", exact: true},
}

func (k *canonChk) bad(rule string, fn *ssa.Function, p *pPath) func(string, ...any) {
	return func(f string, a ...any) {
		k.c.fail(rule, fname(fn), k.c.p.ipos(p.at), "%s", fmt.Sprintf(f, a...)+" (path: "+strings.Join(p.order, ", ")+")")
	}
}

func (k *canonChk) get(rule, name string, unstop ...string) (*ssa.Function, []*pPath) {
	fn := k.fn(name)
	if fn == nil {
		return nil, nil
	}
	ps, why := k.paths(fn, unstop...)
	if why != "" {
		k.c.fail(rule, fname(fn), k.c.p.pos(fn.Pos()), "cannot be followed: %s", why)
		return nil, nil
	}
	return fn, ps
}

func (k *canonChk) values() {
	for _, v := range canonVals {
		fn, ps := k.get("value", v.name)
		for _, p := range ps {
			k.value(fn, v, p)
		}
	}
}

func (k *canonChk) value(fn *ssa.Function, v canonVal, p *pPath) {
	bad := k.bad("value", fn, p)
	ei := errIdx(fn.Signature)
	st, et := p.errState(ei)
	if st == "call" {
		return
	}
	kv := p.event("Kind")
	if kv == nil {
		bad("a value is answered without looking at its header")
		return
	}
	kind, size := kv.res+".0", kv.res+".1"
	if (st == "ok" || st == "maybe" && et != kv.res+".2") && p.truth(eqTerm(kv.res+".2", "nil")) != 1 {
		bad("a value is accepted although its header was not read")
		return
	}
	// what is read, and where to
	var rd *pEv
	target, num := "", ""
	ki := p.indexOf(kv)
	for i := ki + 1; i < len(p.evs); i++ {
		e := &p.evs[i]
		switch evName(e.name) {
		case "readFull", "readUint":
			if rd != nil {
				bad("the content is read twice")
			}
			rd = e
			if evName(e.name) == "readUint" {
				num = e.res + ".0"
			}
		case "SetBytes":
			target = e.args[1]
			if e.args[0] != "p1" {
				bad("the number is not put into the target")
			}
		case "byteArrayBytes":
			target = e.res
		}
	}
	sig := fn.Signature
	if target == "" {
		if ei == 1 {
			target = p.res[0]
		} else if sig.Params().Len() == 1 && isByteSlice(sig.Params().At(0).Type()) {
			target = "p1"
		}
	}
	byt := func(a string) bool { return strings.HasSuffix(a, "]") || strings.HasSuffix(a, "byteval") }
	for _, kn := range []string{"Byte", "String", "List"} {
		q := k.prover(p, byt)
		q.extra = []string{"eq{" + kind + "}{" + k.kinds[kn] + "}"}
		q.bits = true
		if kn == "Byte" {
			q.extra = append(q.extra, ltT("*p0.byteval", "128"))
		}
		if q.refuted() {
			continue
		}
		k.c.obn("value", 1)
		x := ""
		if rd != nil && num == "" {
			x = rd.args[1]
		}
		switch {
		case (st == "ok" || st == "maybe") && kn == "List":
			bad("a list is taken for a string")
		case (st == "ok" || st == "maybe") && kn == "Byte":
			if !p.rearmed(ki) {
				bad("a single byte is not used up: the next read finds it again")
			}
			if rd != nil {
				bad("a single byte, which has no content, reads on")
			}
			if v.integer && !q.refuted("eq{*p0.byteval}{0}") {
				bad("the byte 0 is accepted for the integer 0")
			}
			if v.exact && !q.equal("len("+target+")", "1") {
				bad("a single byte is accepted for a value of another size")
			}
			okv := target == "*p0.byteval"
			for _, e := range p.evs {
				if e.op == "store" && e.args[0] == target+"[0]" && e.args[1] == "*p0.byteval" {
					okv = true
				}
			}
			if y, _, _, sl := tSliced(target); sl {
				for _, e := range p.evs {
					if e.op == "store" && e.args[0] == y+"[0]" && e.args[1] == "*p0.byteval" {
						okv = true
					}
				}
			}
			if ei == 1 && isByteSlice(sig.Results().At(0).Type()) && strings.HasPrefix(target, "mkslice#") && !q.equal("len("+target+")", "1") {
				okv = false
			}
			if !v.exact && ei == 0 && !q.equal("len("+target+")", "1") {
				okv = false
			}
			if !okv {
				bad("the value of a single byte is not this byte (%s)", target)
			}
		case st == "ok" || st == "maybe":
			if rd == nil {
				if !q.refuted(ltT("0", size)) {
					bad("the content of a string is not read")
				} else if !p.rearmed(ki) {
					bad("an empty string is not used up: the next read finds it again")
				}
				if ei == 0 && !q.equal("len("+target+")", "0") {
					bad("the empty string is not the number 0")
				}
				if ei == 1 && !isByteSlice(sig.Results().At(0).Type()) && target != "0" {
					bad("the empty string is not the number 0")
				}
				continue
			}
			re := rd.res
			if num != "" {
				re += ".1"
			}
			if p.truth(eqTerm(re, "nil")) != 1 && et != re {
				bad("a string is accepted although its content could not be read")
			}
			if num != "" {
				if !q.equal(rd.args[1], size) {
					bad("%s bytes are read for an integer of %s", rd.args[1], size)
				}
				if !q.refuted("eq{"+size+"}{1}", ltT(num, "128")) {
					bad("an integer below 0x80 is accepted with a header")
				}
				if target != num {
					bad("the integer answered is not the one read")
				}
			} else {
				if !q.equal("len("+x+")", size) {
					bad("the bytes read for a string are not just as many as its header says")
				}
				if !q.refuted("eq{"+size+"}{1}", ltT("*"+x+"[0]", "128")) {
					bad("a single byte below 0x80 is accepted with a header")
				}
				if v.integer && !q.refuted(ltT("0", size), "eq{*"+x+"[0]}{0}") {
					bad("an integer with a leading zero is accepted")
				}
				if target != x {
					bad("the value answered (%s) is not what was read (%s)", target, x)
				}
			}
			if v.exact && !q.equal("len("+target+")", size) {
				bad("a string of another size than the target is accepted")
			}
			if v.bits && !q.refuted(ltT("p1", "(8*"+size+")")) {
				bad("an integer larger than the type is accepted")
			}
			if v.max != "" && !q.refuted(ltT(v.max, size)) {
				bad("an integer larger than the type is accepted")
			}
		case st == "fail" && kn == "List":
			// right
		case st == "fail" && kn == "Byte":
			var ex []string
			if v.integer {
				ex = append(ex, ltT("0", "*p0.byteval"))
			}
			if v.exact {
				ex = append(ex, "eq{len("+target+")}{1}")
			}
			if !q.refuted(ex...) {
				bad("a canonical single byte is refused (%s)", et)
			}
		case st == "fail":
			base := []string{}
			if v.exact {
				base = append(base, "eq{len("+target+")}{"+size+"}")
			}
			if v.bits {
				base = append(base, geT("p1", "(8*"+size+")"))
			}
			if v.max != "" {
				base = append(base, geT(v.max, size))
			}
			alts := [][]string{{"eq{" + size + "}{0}"}, {"eq{" + size + "}{1}"}, {ltT("1", size)}}
			if num != "" {
				alts[1] = append(alts[1], geT(num, "128"))
				// at least two bytes without leading zero
				alts[2] = append(alts[2], geT(num, "256"))
			} else if x != "" {
				alts[1] = append(alts[1], geT("*"+x+"[0]", "128"))
				if v.integer {
					alts[2] = append(alts[2], ltT("0", "*"+x+"[0]"))
				}
				// an empty string has no first byte
				alts[0] = append(alts[0], "eq{len("+x+")}{0}")
			}
			for _, a := range alts {
				if !q.refuted(append(a, base...)...) {
					bad("a canonical string is refused (%s)", et)
					break
				}
			}
		}
	}
}

func boolFact(p *pPath, t string) int { return p.truth(t) }

// limits: what is announced and read is charged to the innermost list and to
// the whole input.
func (k *canonChk) limits() {
	// listLimit
	if fn, ps := k.get("limits", "(*rlp.Stream).listLimit"); fn != nil {
		for _, p := range ps {
			bad := k.bad("limits", fn, p)
			q := k.prover(p, nil)
			k.c.obn("limits", 1)
			switch p.truth(p.res[0]) {
			case 0:
				if !q.refuted(ltT("0", "len(*p0.stack)")) {
					bad("an open list is not seen")
				}
			case 1:
				if !q.refuted("eq{len(*p0.stack)}{0}") || p.res[1] != "**p0.stack[(len(*p0.stack)-1)]" {
					bad("the limit is not what remains of the innermost list")
				}
			default:
				if q.lin(p.res[0]).k != 0 {
					bad("whether a list is open is not known")
				}
			}
		}
	}
	// Kind
	if fn, ps := k.get("limits", "(*rlp.Stream).Kind"); fn != nil {
		for _, p := range ps {
			bad := k.bad("limits", fn, p)
			q := k.prover(p, nil)
			k.c.obn("limits", 1)
			rk, ll := p.event("readKind"), p.event("listLimit")
			if rk == nil {
				// remembered, or the end of the list
				if p.res[2] == "err:rlp.EOL" {
					if ll == nil || p.truth(ll.res+".0") != 1 || !q.refuted(ltT("0", ll.res+".1")) {
						bad("the end of a list is reported elsewhere")
					}
				} else if p.res[0] != "*p0.kind" || p.res[1] != "*p0.size" || p.res[2] != "*p0.kinderr" || !q.refuted(ltT("*p0.kind", "0")) {
					bad("the header answered is not the one remembered")
				}
				continue
			}
			if !q.refuted(geT("*p0.kind", "0")) {
				bad("a header is read although one is waiting to be used")
			}
			if p.res[0] != rk.res+".0" || p.res[1] != rk.res+".1" {
				bad("the header answered is not the one read")
			}
			last := map[string]string{}
			for _, e := range p.evs {
				if e.op == "store" {
					last[e.args[0]] = e.args[1]
				}
			}
			if last["p0.kind"] != p.res[0] || last["p0.size"] != p.res[1] || last["p0.kinderr"] != p.res[2] {
				bad("the header read is not remembered as it is answered")
			}
			size := rk.res + ".1"
			ok := p.truth(eqTerm(rk.res+".2", "nil"))
			in := -1
			lim := ""
			for i := range p.evs {
				if e := &p.evs[i]; evName(e.name) == "listLimit" {
					if in = p.truth(e.res + ".0"); in >= 0 {
						lim = e.res + ".1"
					}
					if i < p.indexOf(rk) && in == 1 && !q.refuted("eq{"+e.res+".1}{0}") {
						bad("a header is read at the end of a list")
					}
				}
			}
			if in < 0 {
				bad("a header is read without asking whether a list ends here")
			}
			if p.res[2] == "nil" || p.res[2] == rk.res+".2" && ok == 1 {
				if in == 1 && !q.refuted(ltT(lim, size)) {
					bad("a value reaching beyond its list is accepted")
				}
				if p.truth("*p0.limited") != 0 && !(p.truth("*p0.limited") == 1 && q.refuted(ltT("*p0.remaining", size))) {
					bad("a value reaching beyond the input is accepted")
				}
			} else if p.res[2] != rk.res+".2" {
				if ok != 1 {
					bad("the failure of reading a header is lost")
				}
				if !(in == 1 && q.refuted(geT(lim, size))) && !(p.truth("*p0.limited") == 1 && q.refuted(geT("*p0.remaining", size))) {
					bad("a value that fits is refused (%s)", p.res[2])
				}
			}
		}
	}
	// willRead
	if fn, ps := k.get("limits", "(*rlp.Stream).willRead"); fn != nil {
		for _, p := range ps {
			bad := k.bad("limits", fn, p)
			q := k.prover(p, nil)
			k.c.obn("limits", 1)
			st, et := p.errState(0)
			ll := p.event("listLimit")
			in := -1
			if ll != nil {
				in = p.truth(ll.res + ".0")
			}
			if !p.rearmed(-1) {
				bad("reading on does not forget the header read before")
			}
			lim := p.truth("*p0.limited")
			if st != "ok" {
				if !(in == 1 && q.refuted(geT(ll.res+".1", "p1"))) && !(lim == 1 && q.refuted(geT("*p0.remaining", "p1"))) {
					bad("a read that fits is refused (%s)", et)
				}
				continue
			}
			if in < 0 || lim < 0 {
				bad("a read is allowed without asking for the limits")
				continue
			}
			if in == 1 && !q.refuted(ltT(ll.res+".1", "p1")) {
				bad("a read beyond the list is allowed")
			}
			if lim == 1 && !q.refuted(ltT("*p0.remaining", "p1")) {
				bad("a read beyond the input is allowed")
			}
			k.charge(p, bad, "p0.remaining", lim == 1, "*p0.remaining", "p1")
			if ll != nil {
				k.charge(p, bad, "*p0.stack[(len(*p0.stack)-1)]", in == 1, ll.res+".1", "p1")
			}
		}
	}
	// the readers
	for _, n := range []string{"(*rlp.Stream).readFull", "(*rlp.Stream).readByte"} {
		fn, ps := k.get("limits", n)
		if fn == nil {
			continue
		}
		for _, p := range ps {
			bad := k.bad("limits", fn, p)
			q := k.prover(p, nil)
			k.c.obn("limits", 1)
			w := p.event("willRead")
			want := "1"
			if evName(n) == "readFull" {
				want = "len(p1)"
			}
			for i := range p.evs {
				e := &p.evs[i]
				if nm := evName(e.name); nm == "Read" || nm == "ReadByte" || nm == "ReadFull" {
					if w == nil || p.indexOf(w) > i || p.truth(eqTerm(w.res, "nil")) != 1 {
						bad("bytes are read that were not charged to the limits")
					}
				}
			}
			if w != nil && !q.equal(w.args[1], want) {
				bad("%s bytes are charged where %s are read", w.args[1], want)
			}
			n := 0
			for _, e := range p.evs {
				if evName(e.name) == "willRead" {
					n++
				}
			}
			if n > 1 {
				bad("bytes are charged twice")
			}
		}
	}
	// List
	if fn, ps := k.get("limits", "(*rlp.Stream).List"); fn != nil {
		for _, p := range ps {
			bad := k.bad("limits", fn, p)
			k.c.obn("limits", 1)
			st, et := p.errState(1)
			kv := p.event("Kind")
			if kv == nil || st == "call" {
				if kv == nil {
					bad("a list is opened without looking at its header")
				}
				continue
			}
			q := k.prover(p, nil)
			isList := "eq{" + kv.res + ".0}{" + k.kinds["List"] + "}"
			if st != "ok" {
				if !q.refuted(isList) {
					bad("a list is refused (%s)", et)
				}
				continue
			}
			if p.truth(eqTerm(kv.res+".2", "nil")) != 1 || !q.refuted("!"+isList) {
				bad("a value that is no list is opened as one")
			}
			size := kv.res + ".1"
			if p.res[0] != size {
				bad("the size of a list is answered as %s", p.res[0])
			}
			ll := p.event("listLimit")
			if ll == nil || p.truth(ll.res+".0") < 0 {
				bad("the size of an inner list is not charged to the outer one")
				continue
			}
			k.charge(p, bad, "*p0.stack[(len(*p0.stack)-1)]", p.truth(ll.res+".0") == 1, ll.res+".1", size)
			push := false
			for i, e := range p.evs {
				if e.op == "store" && e.args[0] == "p0.stack" {
					if strings.HasPrefix(e.args[1], "append(*p0.stack, ") {
						el := strings.TrimSuffix(strings.TrimPrefix(e.args[1], "append(*p0.stack, "), ")")
						for _, f := range p.evs[:i] {
							if f.op == "store" && f.args[0] == el+"[0]" && f.args[1] == size {
								push = true
							}
						}
					}
				}
				if push && e.op == "store" && strings.HasPrefix(e.args[0], "*p0.stack[") {
					bad("the outer list is charged after the inner one is opened")
				}
			}
			if !push {
				bad("a list is opened without its size as limit")
			}
			if !p.rearmed(p.indexOf(kv)) {
				bad("the header of a list is not used up")
			}
		}
	}
	// ListEnd
	if fn, ps := k.get("limits", "(*rlp.Stream).ListEnd"); fn != nil {
		for _, p := range ps {
			bad := k.bad("limits", fn, p)
			k.c.obn("limits", 1)
			st, et := p.errState(0)
			ll := p.event("listLimit")
			if ll == nil {
				bad("a list is closed without looking at what remains of it")
				continue
			}
			q := k.prover(p, nil)
			in := p.truth(ll.res + ".0")
			if st != "ok" {
				if in != 0 && !q.refuted("eq{"+ll.res+".1}{0}") {
					bad("a list that is used up is not closed (%s)", et)
				}
				continue
			}
			if in != 1 || !q.refuted(ltT("0", ll.res+".1")) {
				bad("a list with elements left is closed")
			}
			pop := ""
			for _, e := range p.evs {
				if e.op == "store" && e.args[0] == "p0.stack" {
					pop = e.args[1]
				}
			}
			if x, lo, hi, ok := tSliced(pop); !ok || x != "*p0.stack" || lo != "" && lo != "0" || !q.equal(hi, "(len(*p0.stack)-1)") {
				bad("closing a list does not return to the one around it")
			}
			if !p.rearmed(-1) {
				bad("closing a list keeps a header remembered")
			}
		}
	}
	// MoreDataInList
	if fn, ps := k.get("limits", "(*rlp.Stream).MoreDataInList"); fn != nil {
		for _, p := range ps {
			bad := k.bad("limits", fn, p)
			k.c.obn("limits", 1)
			ll := p.event("listLimit")
			q := k.prover(p, nil)
			if ll == nil {
				bad("not answered from the list")
				continue
			}
			more := ltT("0", ll.res+".1")
			switch p.truth(p.res[0]) {
			case 1:
				if !q.holds(more) {
					bad("more data is reported at the end of a list")
				}
			case 0:
				if !q.refuted(more) && p.truth(ll.res+".0") != 0 {
					bad("no more data is reported within a list")
				}
			default:
				if !(k.prover(p, nil).refuted(p.res[0], negTerm(more)) && k.prover(p, nil).refuted(negTerm(p.res[0]), more)) {
					bad("more data is answered as %s", p.res[0])
				}
			}
		}
	}
	// Reset
	if fn, ps := k.get("limits", "(*rlp.Stream).Reset", "Reset"); fn != nil {
		for _, p := range ps {
			bad := k.bad("limits", fn, p)
			k.c.obn("limits", 1)
			last := map[string]string{}
			for _, e := range p.evs {
				if e.op == "store" {
					last[e.args[0]] = e.args[1]
				}
			}
			q := k.prover(p, nil)
			if !strings.HasPrefix(last["p0.kind"], "-") {
				bad("the header of the last use stays")
			}
			if x, _, hi, ok := tSliced(last["p0.stack"]); !(ok && x == "*p0.stack" && hi == "0") && last["p0.stack"] != "nil" {
				bad("the open lists of the last use stay")
			}
			if q.refuted("eq{p2}{0}") {
				if last["p0.limited"] != "true" || last["p0.remaining"] != "p2" {
					bad("the limit given is not used")
				}
			} else if last["p0.limited"] == "" {
				bad("the limit of the last use stays")
			} else if last["p0.limited"] == "true" && !strings.Contains(last["p0.remaining"], "call#") && !strings.Contains(last["p0.remaining"], ".Len(") {
				bad("the limit is not what the reader holds")
			}
		}
	}
}

// charge: place is set to old-n if on, and not at all otherwise.
func (k *canonChk) charge(p *pPath, bad func(string, ...any), place string, on bool, old, n string) {
	q := k.prover(p, nil)
	cnt := 0
	for _, e := range p.evs {
		if e.op != "store" || e.args[0] != place {
			continue
		}
		cnt++
		d := q.lin(e.args[1]).add(q.lin("("+old+"-"+n+")"), -1)
		if !on || len(d.at) != 0 || d.k != 0 {
			bad("the limit %s becomes %s", place, e.args[1])
		}
	}
	if on && cnt != 1 {
		bad("%s is charged %d times", place, cnt)
	}
}

// lists: list decoders close the list they opened, take nothing less and
// nothing more.
func (k *canonChk) lists() {
	n := 0
	for _, fn := range k.c.p.funcsIn("rlp") {
		opens := false
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := staticCallee(ci); g != nil && fname(g) == "(*rlp.Stream).List" {
						opens = true
					}
				}
			}
		}
		if !opens || len(fn.Blocks) == 0 {
			continue
		}
		n++
		k.c.ob("lists", fname(fn))
		ps, why := k.paths(fn)
		if why != "" {
			k.c.fail("lists", fname(fn), k.c.p.pos(fn.Pos()), "cannot be followed: %s", why)
			continue
		}
		ei := errIdx(fn.Signature)
		for _, p := range ps {
			bad := k.bad("lists", fn, p)
			st, et := p.errState(ei)
			le, li := p.event("ListEnd"), p.event("List")
			eol := ""
			for _, c := range p.order {
				if op, a, b, neg, ok := tCmp(c); ok && op == "eq" && !neg && b == "err:rlp.EOL" {
					eol = a
				}
			}
			switch st {
			case "ok", "maybe":
				if li == nil || p.truth(eqTerm(li.res+".1", "nil")) != 1 {
					bad("a list is decoded that was not opened")
					continue
				}
				if le == nil || p.indexOf(le) < p.indexOf(li) {
					bad("a list is left without being closed: elements that remain are accepted")
					continue
				}
				if st == "maybe" && et != le.res || st == "ok" && !p.errNil(le.res) {
					bad("elements that remain in the list are accepted: closing it may have failed")
				}
				for i := range p.evs {
					e := &p.evs[i]
					if i > p.indexOf(le) && (strings.Contains(e.name, "decoder") || strings.HasPrefix(e.name, "dyn ")) {
						bad("elements are read after the list is closed")
					}
				}
				if eol != "" {
					// the list ended before all elements: only optional fields
					opt := ""
					for c, v := range p.conds {
						if strings.HasSuffix(c, ".optional") && v {
							opt = strings.TrimSuffix(c, ".optional")
						}
					}
					if opt == "" {
						bad("a list with too few elements is accepted")
						continue
					}
					z := p.event("zeroFields")
					okz := false
					if z != nil && len(z.args) == 2 {
						if x, lo, hi, ok := tSliced(z.args[1]); ok && hi == "" && strings.TrimLeft(opt, "*") == strings.TrimLeft(x, "*")+"["+lo+"]" {
							okz = true
						}
					}
					for _, lp := range p.loops {
						// spelled out: every field from there on is set to zero
						if op, _, b, neg, ok := tCmp(lp.cond); ok && op == "lt" && !neg && strings.HasPrefix(b, "len(") && tClose(b, 3) == len(b)-1 {
							if x, lo, hi, ok := tSliced(b[4 : len(b)-1]); ok && hi == "" && strings.TrimLeft(opt, "*") == strings.TrimLeft(x, "*")+"["+lo+"]" && p.event("Zero") != nil && p.event("Set") != nil {
								okz = true
							}
						}
					}
					if !okz {
						bad("the optional fields that are missing are not all reset")
					}
					continue
				}
				// loops over the elements run to the end
				for it, l := range p.loops {
					if l.left && !k.sliceLoop(p, it) {
						bad("the elements are not all read")
					}
				}
				for _, e := range p.evs {
					if !strings.HasPrefix(e.name, "dyn ") || len(e.loop) == 0 {
						continue
					}
					if p.truth(eqTerm(e.res, "nil")) != 1 {
						bad("an element that was not decoded is accepted")
					}
					k.fullLoop(p, e, bad)
				}
				for _, e := range p.evs {
					if evName(e.name) == "decodeSliceElems" && p.truth(eqTerm(e.res, "nil")) != 1 {
						bad("elements that were not decoded are accepted")
					}
				}
				if p.event("decodeSliceElems") == nil {
					any := false
					for _, e := range p.evs {
						if strings.HasPrefix(e.name, "dyn ") {
							any = true
						}
					}
					q := k.prover(p, nil)
					if !any && !q.refuted(ltT("0", li.res+".0")) && len(p.loops) == 0 {
						bad("the elements of a list are not decoded")
					}
				}
			}
		}
	}
	if n < 3 {
		k.c.fail("lists", "rlp", "rlp", "only %d list decoders found", n)
	}
	// the elements of a slice
	if fn, ps := k.get("lists", "rlp.decodeSliceElems"); fn != nil {
		for _, p := range ps {
			bad := k.bad("lists", fn, p)
			k.c.obn("lists", 1)
			st, _ := p.errState(0)
			if st != "ok" && st != "maybe" {
				continue
			}
			var dec *pEv
			for i := range p.evs {
				if e := &p.evs[i]; strings.HasPrefix(e.name, "dyn ") && len(e.loop) > 0 {
					dec = e
				}
			}
			if dec == nil || p.truth(eqTerm(dec.res, "err:rlp.EOL")) != 1 {
				bad("the elements end elsewhere than at the end of the list")
				continue
			}
			it := dec.loop[0]
			if l := p.loops[it]; l.start != "0" || l.step != "+1" {
				bad("the elements are not counted one by one")
			}
			// element i goes to place i; the slice has as many elements as were read
			q := k.prover(p, nil)
			idx := ""
			for i := range p.evs {
				if e := &p.evs[i]; evName(e.name) == "Index" && e.res == dec.args[1] {
					idx = e.args[1]
				}
			}
			if idx != it {
				bad("the elements are not stored one after the other")
			}
			cut := false
			for i := range p.evs {
				e := &p.evs[i]
				if i > p.indexOf(dec) && evName(e.name) == "SetLen" && q.equal(e.args[1], it) {
					cut = true
				}
				if i > p.indexOf(dec) && evName(e.name) == "Len" && q.refuted(ltT(it, e.res)) {
					cut = true
				}
			}
			if !cut {
				bad("the slice keeps elements that were not in the list")
			}
		}
	}
	// exactly one value
	if fn, ps := k.get("lists", "rlp.DecodeBytes"); fn != nil {
		for _, p := range ps {
			bad := k.bad("lists", fn, p)
			k.c.obn("lists", 1)
			st, et := p.errState(0)
			d, l := p.event("Decode"), p.event("Len")
			switch st {
			case "ok", "maybe":
				if d == nil || p.truth(eqTerm(d.res, "nil")) != 1 {
					bad("success without a decoded value")
				} else if q := k.prover(p, nil); l == nil || p.indexOf(l) < p.indexOf(d) || !q.refuted(ltT("0", l.res)) {
					bad("data after the value is accepted")
				}
			case "fail":
				if q := k.prover(p, nil); l == nil || !q.refuted("eq{"+l.res+"}{0}") {
					bad("a value without data after it is refused (%s)", et)
				}
			}
		}
	}
	// nil pointers
	for _, fn := range k.c.p.funcsIn("rlp") {
		if fn.Parent() == nil || fname(fn.Parent()) != "rlp.makeNilPtrDecoder" {
			continue
		}
		ps, why := k.paths(fn)
		if why != "" {
			k.c.fail("lists", fname(fn), k.c.p.pos(fn.Pos()), "cannot be followed: %s", why)
			continue
		}
		nilKind := "*free:nilKind"
		for _, fv := range fn.FreeVars {
			if n := namedOf(derefType(fv.Type())); n != nil && n.Obj().Name() == "Kind" {
				nilKind = "*free:" + fv.Name()
			}
		}
		for _, p := range ps {
			bad := k.bad("nil", fn, p)
			k.c.obn("nil", 1)
			st, et := p.errState(0)
			kv := p.event("Kind")
			if kv == nil || st == "call" && et == kv.res+".2" {
				continue
			}
			q := k.prover(p, nil)
			delegated := false
			for _, e := range p.evs {
				if strings.HasPrefix(e.name, "dyn ") {
					delegated = true
				}
			}
			isByte := "eq{" + kv.res + ".0}{" + k.kinds["Byte"] + "}"
			switch {
			case delegated:
				if !q.refuted("!"+isByte, "eq{"+kv.res+".1}{0}") {
					bad("an empty value is decoded instead of giving a nil pointer")
				}
			case st == "ok":
				if !q.refuted(isByte) || !q.refuted(ltT("0", kv.res+".1")) {
					bad("a value that is not empty gives a nil pointer")
				}
				if p.truth(eqTerm(nilKind, kv.res+".0")) != 1 && p.truth(eqTerm(kv.res+".0", nilKind)) != 1 {
					bad("the wrong kind of empty value gives a nil pointer")
				}
				if !p.rearmed(p.indexOf(kv)) {
					bad("an empty value is not used up: the next read finds it again")
				}
			case st == "fail":
				if !q.refuted("eq{" + nilKind + "}{" + kv.res + ".0}") {
					bad("the right kind of empty value is refused (%s)", et)
				}
			}
		}
	}
	// booleans
	if fn, ps := k.get("value", "(*rlp.Stream).Bool"); fn != nil {
		for _, p := range ps {
			_ = p
		}
		k.boolean(fn)
	}
}

func (k *canonChk) sliceLoop(p *pPath, it string) bool { return false }

// fullLoop: the loop of event e visits every element from the first to the
// last, in order.
func (k *canonChk) fullLoop(p *pPath, e pEv, bad func(string, ...any)) {
	it := e.loop[len(e.loop)-1]
	l := p.loops[it]
	q := k.prover(p, nil)
	op, a, b, neg, ok := tCmp(l.cond)
	start := q.lin(l.start)
	if !ok || op != "lt" || neg || l.step != "+1" || len(start.at) != 0 {
		bad("the elements are not walked from the first to the last (%s from %s by %s)", l.cond, l.start, l.step)
		return
	}
	off := q.lin(a).add(q.lin(it), -1)
	if len(off.at) != 0 || start.k+off.k != 0 {
		bad("the elements are not walked from the first")
		return
	}
	all := strings.HasPrefix(b, "len(*free:")
	for i := range p.evs {
		if f := &p.evs[i]; f.res == b && (evName(f.name) == "Len" || evName(f.name) == "NumField") {
			all = true
		}
	}
	if !all {
		bad("the elements are not walked to the last (%s)", b)
	}
}

func (k *canonChk) boolean(fn *ssa.Function) {
	ps, why := eventPaths(k.c.p, fn, func(g *ssa.Function) bool { return g.Name() != "uint" && !k.stop[g.Name()] }, nil)
	if why != "" {
		k.c.fail("value", fname(fn), k.c.p.pos(fn.Pos()), "cannot be followed: %s", why)
		return
	}
	for _, p := range ps {
		bad := k.bad("value", fn, p)
		k.c.obn("value", 1)
		st, et := p.errState(1)
		u := p.event("uint")
		if u == nil {
			bad("a boolean is not read as an integer")
			continue
		}
		q := k.prover(p, nil)
		n := u.res + ".0"
		switch st {
		case "ok", "maybe":
			switch p.truth(p.res[0]) {
			case 1:
				if !q.equal(n, "1") {
					bad("an integer other than 1 is taken for true")
				}
			case 0:
				if !q.equal(n, "0") {
					bad("an integer other than 0 is taken for false")
				}
			default:
				if !(q.refuted(p.res[0], "!eq{"+n+"}{1}") && q.refuted(negTerm(p.res[0]), "!eq{"+n+"}{0}")) {
					bad("a boolean is answered as %s", p.res[0])
				}
			}
		case "fail":
			if !q.refuted("eq{"+n+"}{0}") || !q.refuted("eq{"+n+"}{1}") {
				bad("a canonical boolean is refused (%s)", et)
			}
		}
	}
}

// splits: the functions on byte slices.
func (k *canonChk) splits() {
	// Split: content and rest are cut where the header says
	if fn, ps := k.get("split", "rlp.Split"); fn != nil {
		for _, p := range ps {
			bad := k.bad("split", fn, p)
			k.c.obn("split", 1)
			st, et := p.errState(3)
			rk := p.event("readKind")
			if rk == nil {
				bad("a value is split without reading its header")
				continue
			}
			if rk.args[0] != "p0" {
				bad("another header is read")
			}
			switch st {
			case "ok", "maybe":
				if st == "maybe" && et != rk.res+".3" || st == "ok" && p.truth(eqTerm(rk.res+".3", "nil")) != 1 {
					bad("a value is split although its header is refused")
				}
				q := k.prover(p, nil)
				ts, cs := rk.res+".1", rk.res+".2"
				x, lo, hi, ok := tSliced(p.res[1])
				if !ok || x != "p0" || !q.same(lo, ts) || !q.same(hi, "("+ts+"+"+cs+")") {
					bad("the content is %s", p.res[1])
				}
				x, lo, hi, ok = tSliced(p.res[2])
				if !ok || x != "p0" || !q.same(lo, "("+ts+"+"+cs+")") || hi != "" {
					bad("the rest is %s", p.res[2])
				}
				if p.res[0] != rk.res+".0" {
					bad("the kind is %s", p.res[0])
				}
			case "fail":
				bad("a canonical value is refused (%s)", et)
			}
		}
	}
	for _, d := range [][2]string{{"rlp.SplitString", "List"}, {"rlp.SplitList", "List"}} {
		fn, ps := k.get("split", d[0])
		if fn == nil {
			continue
		}
		isList := evName(d[0]) == "SplitList"
		for _, p := range ps {
			bad := k.bad("split", fn, p)
			k.c.obn("split", 1)
			st, et := p.errState(2)
			s := p.event("Split")
			if s == nil {
				bad("not split by its header")
				continue
			}
			q := k.prover(p, nil)
			list := "eq{" + s.res + ".0}{" + k.kinds["List"] + "}"
			wrong := list
			if isList {
				wrong = "!" + list
			}
			q.extra = []string{ltT(s.res+".0", "3")}
			switch st {
			case "ok", "maybe":
				if st == "ok" && p.truth(eqTerm(s.res+".3", "nil")) != 1 || st == "maybe" && et != s.res+".3" {
					bad("a value is accepted although splitting it failed")
				}
				if !q.refuted(wrong) {
					bad("a value of the wrong kind is accepted")
				}
				if p.res[0] != s.res+".1" || p.res[1] != s.res+".2" {
					bad("content and rest are not those of the value")
				}
			case "fail":
				if !q.refuted(negTerm(wrong)) {
					bad("a value of the right kind is refused (%s)", et)
				}
			}
		}
	}
	if fn, ps := k.get("split", "rlp.SplitUint64"); fn != nil {
		for _, p := range ps {
			bad := k.bad("split", fn, p)
			k.c.obn("split", 1)
			st, et := p.errState(2)
			if st == "call" {
				continue
			}
			s := p.event("SplitString")
			if s == nil || s.args[0] != "p0" {
				bad("not split by its header")
				continue
			}
			x := s.res + ".0"
			rs := p.event("readSize")
			for n := int64(0); n <= 9; n++ {
				q := k.prover(p, func(a string) bool { return strings.HasSuffix(a, "]") })
				q.extra = []string{"eq{len(" + x + ")}{" + iterm(n) + "}"}
				if n == 9 {
					q.extra = []string{ltT("8", "len("+x+")")}
				}
				if q.refuted() {
					continue
				}
				switch {
				case st == "fail" && n == 9:
				case st == "fail" && n == 0:
					bad("the empty string, the integer 0, is refused (%s)", et)
				case st == "fail":
					if rs != nil && p.truth(eqTerm(rs.res+".1", "nil")) == 0 {
						break
					}
					if !q.refuted("!eq{*" + x + "[0]}{0}") {
						bad("a canonical integer of %d bytes is refused (%s)", n, et)
					}
				default:
					if p.res[1] != s.res+".1" {
						bad("the rest is %s", p.res[1])
					}
					v := p.res[0]
					switch {
					case n == 9:
						bad("an integer of more than 8 bytes is accepted")
					case n == 0:
						if !q.equal(v, "0") {
							bad("the empty string is not the integer 0")
						}
					case rs != nil:
						// lengths of less than 56 do not occur in two bytes and more
						if n == 1 || v != rs.res+".0" || rs.args[0] != x || !q.equal(rs.args[1], "len("+x+")") || p.truth(eqTerm(rs.res+".1", "nil")) != 1 && et != rs.res+".1" {
							bad("an integer of %d bytes is read as %s", n, v)
						}
					default:
						if !q.refuted("eq{*" + x + "[0]}{0}") {
							bad("an integer with a leading zero is accepted")
						}
						if !bigEndian(v, x, int(n)) && !shiftLoop(fn) {
							bad("an integer of %d bytes is read as %s", n, v)
						}
					}
				}
			}
		}
	}
	if fn, ps := k.get("split", "rlp.CountValues"); fn != nil {
		for _, p := range ps {
			bad := k.bad("split", fn, p)
			k.c.obn("split", 1)
			rk := p.event("readKind")
			st, _ := p.errState(1)
			if st != "ok" && st != "maybe" {
				continue
			}
			if sp := p.event("Split"); rk == nil && sp != nil && len(sp.loop) > 0 {
				// the values are split off one by one
				if p.truth(eqTerm(sp.res+".3", "nil")) != 1 {
					bad("values that are refused are counted")
				}
				if p.vars[sp.args[0]].next != sp.res+".2" {
					bad("counting does not go on behind the value")
				}
				continue
			}
			if rk == nil || len(rk.loop) == 0 {
				bad("values are counted without reading their headers")
				continue
			}
			if p.truth(eqTerm(rk.res+".3", "nil")) != 1 {
				bad("values whose header is refused are counted")
			}
			if l := p.loops[rk.loop[0]]; l.step != "+1" && l.step != "" {
				bad("values are counted by %s", l.step)
			}
			k.advance(fn, bad)
		}
	}
}

// advance: the loop continues with b[tagsize+size:].
func (k *canonChk) advance(fn *ssa.Function, bad func(string, ...any)) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			sl, ok := in.(*ssa.Slice)
			if !ok {
				continue
			}
			ad, ok := sl.Low.(*ssa.BinOp)
			if !ok || sl.High != nil {
				continue
			}
			ex, ok1 := ad.X.(*ssa.Extract)
			ey, ok2 := ad.Y.(*ssa.Extract)
			if ok1 && ok2 && ad.Op.String() == "+" && ex.Tuple == ey.Tuple && ex.Index+ey.Index == 3 && ex.Index != ey.Index {
				return
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Slice); ok {
				bad("counting does not go on behind the value")
				return
			}
		}
	}
}

func (q *tProver) same(a, b string) bool {
	d := q.lin(a).add(q.lin(b), -1)
	return len(d.at) == 0 && d.k == 0
}
