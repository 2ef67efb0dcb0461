package main

import (
	"sort"
	"strconv"
	"strings"
)

// Inequalities between the terms of an event path: the conditions of the path
// are read as linear facts over the terms that are not sums, and a goal holds
// if its negation contradicts them (Fourier-Motzkin over the integers' rational
// relaxation, disequalities sharpening the bounds they touch).

type tLin struct {
	k  int64
	at map[string]int64
}

func tK(k int64) tLin { return tLin{k, map[string]int64{}} }

func (a tLin) add(b tLin, f int64) tLin {
	r := tLin{a.k + f*b.k, map[string]int64{}}
	for k, v := range a.at {
		r.at[k] = v
	}
	for k, v := range b.at {
		if r.at[k] += f * v; r.at[k] == 0 {
			delete(r.at, k)
		}
	}
	return r
}

// matching bracket of t[i], or -1
func tClose(t string, i int) int {
	d := 0
	for ; i < len(t); i++ {
		switch t[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			if d--; d == 0 {
				return i
			}
		case '"':
			for i++; i < len(t) && t[i] != '"'; i++ {
				if t[i] == '\\' {
					i++
				}
			}
		}
	}
	return -1
}

// tBin splits "(A op B)".
func tBin(t string) (a, op, b string, ok bool) {
	if len(t) < 3 || t[0] != '(' || tClose(t, 0) != len(t)-1 {
		return
	}
	d := 0
	for i := 1; i < len(t)-1; i++ {
		switch c := t[i]; c {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case '+', '-', '*', '/', '%', '&', '|', '^', '<', '>':
			if d != 0 || i == 1 || c == '*' && (t[i-1] == '(' || strings.ContainsRune("+-*/|&<>", rune(t[i-1]))) {
				continue
			}
			n := 1
			if (c == '<' || c == '>' || c == '&') && i+1 < len(t) && (t[i+1] == c || t[i+1] == '^') {
				n = 2
			}
			return t[1:i], t[i : i+n], t[i+n : len(t)-1], true
		}
	}
	return
}

func tCmp(t string) (op, a, b string, neg, ok bool) {
	for strings.HasPrefix(t, "!") {
		t, neg = t[1:], !neg
	}
	if len(t) < 3 || t[2] != '{' {
		return
	}
	i := tClose(t, 2)
	if i < 0 || i+1 >= len(t) || t[i+1] != '{' || tClose(t, i+1) != len(t)-1 {
		return
	}
	return t[:2], t[3:i], t[i+2 : len(t)-1], neg, true
}

type tProver struct {
	p      *pPath
	extra  []string // further conditions
	byt    func(atom string) bool
	signed func(atom string) bool
	lens   map[string]string // length of a term
	bits   bool              // bound quotients
}

// sliced: X[a:b] split into X, a, b.
func tSliced(t string) (x, lo, hi string, ok bool) {
	if !strings.HasSuffix(t, "]") {
		return
	}
	// the bracket opening the last group
	d := 0
	for i := len(t) - 1; i >= 0; i-- {
		switch t[i] {
		case ')', ']', '}':
			d++
		case '(', '[', '{':
			if d--; d == 0 {
				in := t[i+1 : len(t)-1]
				e := 0
				for j := 0; j < len(in); j++ {
					switch in[j] {
					case '(', '[', '{':
						e++
					case ')', ']', '}':
						e--
					case ':':
						if e == 0 {
							return t[:i], in[:j], in[j+1:], true
						}
					}
				}
				return
			}
		}
	}
	return
}

func (q *tProver) length(x string) tLin {
	if x == "nil" || x == `""` {
		return tK(0)
	}
	if l, ok := q.lens[x]; ok {
		return q.lin(l)
	}
	if l, ok := q.p.mem["len:"+x]; ok {
		return q.lin(l)
	}
	if y, lo, hi, ok := tSliced(x); ok {
		l := tK(0)
		if lo != "" {
			l = q.lin(lo)
		}
		if hi != "" {
			return q.lin(hi).add(l, -1)
		}
		return q.length(y).add(l, -1)
	}
	return tLin{0, map[string]int64{"len(" + x + ")": 1}}
}

func (q *tProver) lin(t string) tLin {
	if n, err := strconv.ParseInt(t, 10, 64); err == nil {
		return tK(n)
	}
	if strings.HasPrefix(t, "len(") && tClose(t, 3) == len(t)-1 {
		return q.length(t[4 : len(t)-1])
	}
	if a, op, b, ok := tBin(t); ok {
		switch op {
		case "+":
			return q.lin(a).add(q.lin(b), 1)
		case "-":
			return q.lin(a).add(q.lin(b), -1)
		case "*":
			x, y := q.lin(a), q.lin(b)
			if len(x.at) == 0 {
				return tK(0).add(y, x.k)
			}
			if len(y.at) == 0 {
				return tK(0).add(x, y.k)
			}
		case "<<":
			x, y := q.lin(a), q.lin(b)
			if len(y.at) == 0 && y.k < 32 {
				return tK(0).add(x, 1<<uint(y.k))
			}
		}
	}
	return tLin{0, map[string]int64{normElem(t): 1}}
}

// facts: every fact f means f >= 0; ne: d != 0.
func (q *tProver) facts(extra ...string) (fs, ne []tLin) {
	conds := append([]string(nil), q.p.order...)
	conds = append(conds, q.extra...)
	conds = append(conds, extra...)
	seen := map[string]bool{}
	push := func(l tLin) {
		for a := range l.at {
			if seen[a] {
				continue
			}
			seen[a] = true
			if q.signed == nil || !q.signed(a) {
				fs = append(fs, tLin{0, map[string]int64{a: 1}})
			}
			if x, op, y, ok := tBin(a); ok && op == "/" && q.bits {
				if n, err := strconv.ParseInt(y, 10, 64); err == nil && n > 0 {
					// n*(x/n) <= x <= n*(x/n)+n-1
					d := q.lin(x).add(tLin{0, map[string]int64{a: n}}, -1)
					fs = append(fs, d, tK(n-1).add(d, -1))
				}
			}
			if q.byt != nil && q.byt(a) {
				fs = append(fs, tLin{255, map[string]int64{a: -1}})
			}
		}
	}
	for _, c := range conds {
		op, a, b, neg, ok := tCmp(c)
		if !ok || b == "nil" || strings.HasPrefix(b, "err:") {
			continue
		}
		x, y := q.lin(a), q.lin(b)
		d := y.add(x, -1) // y-x
		push(d)
		switch {
		case op == "lt" && !neg: // x < y
			d.k--
			fs = append(fs, d)
		case op == "lt":
			fs = append(fs, x.add(y, -1))
		case op == "eq" && !neg:
			fs = append(fs, d, x.add(y, -1))
		case op == "eq":
			ne = append(ne, d)
		}
	}
	return
}

// refuted: the conditions together with extra cannot hold.
func (q *tProver) refuted(extra ...string) bool {
	fs, ne := q.facts(extra...)
	for _, d := range ne {
		if len(d.at) == 0 && d.k == 0 {
			return true
		}
	}
	for round := 0; ; round++ {
		if tUnsat(fs) {
			return true
		}
		if round > 12 {
			return false
		}
		changed := false
		for i, d := range ne {
			if d.at == nil {
				continue
			}
			// d >= 0 known: d >= 1; d <= 0 known: d <= -1
			neg := tK(0).add(d, -1)
			lo := neg.add(tK(1), -1) // d <= -1
			hi := d.add(tK(1), -1)   // d >= 1
			switch {
			case tUnsat(append(append([]tLin(nil), fs...), lo)):
				fs = append(fs, hi)
			case tUnsat(append(append([]tLin(nil), fs...), hi)):
				fs = append(fs, lo)
			default:
				continue
			}
			ne[i] = tLin{}
			changed = true
		}
		if !changed {
			return false
		}
	}
}

func (q *tProver) holds(c string) bool { return q.refuted(negTerm(c)) }

func (q *tProver) equal(a, b string) bool {
	if a == b {
		return true
	}
	d := q.lin(a).add(q.lin(b), -1)
	if len(d.at) == 0 {
		return d.k == 0
	}
	return q.refuted("lt{"+a+"}{"+b+"}") && q.refuted("lt{"+b+"}{"+a+"}")
}

func tUnsat(fs []tLin) bool {
	cur := fs
	for step := 0; step < 40; step++ {
		cnt := map[string][2]int{}
		for _, f := range cur {
			if len(f.at) == 0 {
				if f.k < 0 {
					return true
				}
				continue
			}
			for a, v := range f.at {
				c := cnt[a]
				if v > 0 {
					c[0]++
				} else {
					c[1]++
				}
				cnt[a] = c
			}
		}
		if len(cnt) == 0 {
			return false
		}
		var as []string
		for a := range cnt {
			as = append(as, a)
		}
		sort.Slice(as, func(i, j int) bool {
			x, y := cnt[as[i]][0]*cnt[as[i]][1], cnt[as[j]][0]*cnt[as[j]][1]
			if x != y {
				return x < y
			}
			return as[i] < as[j]
		})
		a := as[0]
		var pos, neg, rest []tLin
		for _, f := range cur {
			switch v := f.at[a]; {
			case v > 0:
				pos = append(pos, f)
			case v < 0:
				neg = append(neg, f)
			default:
				rest = append(rest, f)
			}
		}
		if len(pos)*len(neg) > 400 {
			return false
		}
		for _, p := range pos {
			for _, n := range neg {
				u, v := p.at[a], -n.at[a]
				if u > 1<<20 || v > 1<<20 {
					continue
				}
				r := tK(0).add(p, v).add(n, u)
				big := false
				for _, c := range r.at {
					if c > 1<<40 || c < -(1<<40) {
						big = true
					}
				}
				if big || r.k > 1<<60 || r.k < -(1<<60) {
					continue
				}
				if g := tGcd(r); g > 1 {
					// integers: round down
					for k := range r.at {
						r.at[k] /= g
					}
					q := r.k / g
					if r.k%g != 0 && r.k < 0 {
						q--
					}
					r.k = q
				}
				rest = append(rest, r)
			}
		}
		cur = rest
	}
	return false
}

func tGcd(l tLin) int64 {
	var g int64
	for _, v := range l.at {
		if v < 0 {
			v = -v
		}
		for v != 0 {
			g, v = v, g%v
		}
	}
	return g
}
