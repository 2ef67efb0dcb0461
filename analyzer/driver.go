package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// finding is one violated obligation. Key names rule and construct and carries no line.
type finding struct {
	Rule  string
	Key   string
	Where string
	Msg   string
}

// Ctx collects what a property's rules examined and what they found.
type Ctx struct {
	p        *Prog
	id       string
	tier     string
	obl      map[string]int // rule -> obligations
	samples  map[string][]string
	finds    []finding
	seen     map[string]bool
	notes    []string
	excepted []string
	funcs    map[string]bool
}

func newCtx(p *Prog, id, tier string) *Ctx {
	return &Ctx{p: p, id: id, tier: tier, obl: map[string]int{}, samples: map[string][]string{}, seen: map[string]bool{}, funcs: map[string]bool{}}
}

// ob records one obligation of a rule.
func (c *Ctx) ob(rule, construct string) {
	c.obl[rule]++
	if len(c.samples[rule]) < 12 {
		c.samples[rule] = append(c.samples[rule], construct)
	}
}

func (c *Ctx) obn(rule string, n int) { c.obl[rule] += n }

func (c *Ctx) fail(rule, construct, where, format string, a ...any) {
	key := rule + " :: " + construct
	if c.seen[key] {
		return
	}
	c.seen[key] = true
	c.finds = append(c.finds, finding{Rule: rule, Key: key, Where: where, Msg: fmt.Sprintf(format, a...)})
}

// check is ob + fail when !ok.
func (c *Ctx) check(ok bool, rule, construct, where, format string, a ...any) bool {
	c.ob(rule, construct)
	if !ok {
		c.fail(rule, construct, where, format, a...)
	}
	return ok
}

// min fails the property when a rule matched fewer instances than were confirmed by hand.
func (c *Ctx) min(rule string, n int) {
	for _, s := range c.notes {
		if strings.HasPrefix(s, "not decided") {
			return // known to be incomplete, said so in the evidence
		}
	}
	if c.obl[rule] < n {
		c.fail(rule, "instance count", "-", "rule matched %d instances, at least %d were confirmed by reading the code: the analysis lost its anchors", c.obl[rule], n)
	}
}

func (c *Ctx) except(what, why string) { c.excepted = append(c.excepted, what+": "+why) }

func (c *Ctx) note(f string, a ...any) { c.notes = append(c.notes, fmt.Sprintf(f, a...)) }

type propCheck struct {
	id    string
	rule  string // one-paragraph description of the rule applied
	scope string // what is not covered
	run   func(c *Ctx)
}

var registry = map[string]*propCheck{}

func register(id, rule, scope string, run func(c *Ctx)) {
	if registry[id] != nil {
		panic("duplicate " + id)
	}
	registry[id] = &propCheck{id, rule, scope, run}
}

type knownFinding struct {
	prop, key, text string
	used            bool
}

// readKnown parses lines "known: property=<id> key=<key> -- <text>"; "fixed:" lines suppress nothing.
func readKnown(path string) ([]*knownFinding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []*knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		rest := strings.TrimSpace(strings.TrimPrefix(l, "known:"))
		if !strings.HasPrefix(rest, "property=") {
			return nil, fmt.Errorf("bad known-findings line: %s", l)
		}
		sp := strings.SplitN(rest, " ", 2)
		k := &knownFinding{prop: strings.TrimPrefix(sp[0], "property=")}
		if len(sp) < 2 || !strings.HasPrefix(sp[1], "key=") {
			return nil, fmt.Errorf("bad known-findings line: %s", l)
		}
		kt := strings.SplitN(strings.TrimPrefix(sp[1], "key="), " -- ", 2)
		k.key = strings.TrimSpace(kt[0])
		if len(kt) > 1 {
			k.text = strings.TrimSpace(kt[1])
		}
		out = append(out, k)
	}
	return out, nil
}

type options struct {
	repo, verif string
}

func runOne(p *Prog, loadErr error, id, tier string) (c *Ctx) {
	c = newCtx(p, id, tier)
	pc := registry[id]
	if pc == nil {
		c.fail("driver", "unknown property "+id, "-", "no check registered")
		return
	}
	if loadErr != nil {
		c.fail("load", "repository", "-", "cannot be analysed: %v", loadErr)
		return
	}
	defer func() {
		if r := recover(); r != nil {
			c.fail("driver", "analysis panic", "-", "%v\n%s", r, debug.Stack())
		}
	}()
	pc.run(c)
	return
}

func finish(o options, c *Ctx, start time.Time) int {
	pc := registry[c.id]
	known, err := readKnown(filepath.Join(o.verif, "known_findings.txt"))
	if err != nil {
		c.fail("driver", "known findings", "-", "%v", err)
	}
	sort.Slice(c.finds, func(i, j int) bool { return c.finds[i].Key < c.finds[j].Key })
	var open, kn []finding
	for _, f := range c.finds {
		matched := false
		for _, k := range known {
			if k.prop == c.id && k.key == f.Key {
				matched = true
				k.used = true
			}
		}
		if matched {
			kn = append(kn, f)
		} else {
			open = append(open, f)
		}
	}
	for _, k := range known {
		if k.prop == c.id && !k.used {
			c.note("known finding no longer reported: %s", k.key)
		}
	}
	total := 0
	for _, n := range c.obl {
		total += n
	}
	distinct := map[string]int{}
	for r, n := range c.obl {
		distinct[r] = n
	}
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	var fl []map[string]string
	for _, f := range c.finds {
		fl = append(fl, map[string]string{"key": f.Key, "where": f.Where, "what": f.Msg})
	}
	nf := 0
	np := 0
	if c.p != nil {
		nf, np = len(c.p.Funcs), len(c.p.Pkgs)
	}
	expl := ""
	scope := ""
	if pc != nil {
		expl = pc.rule
		scope = pc.scope
	}
	cov := map[string]any{
		"explanation":            expl,
		"not_covered":            scope,
		"packages_loaded":        np,
		"functions_loaded":       nf,
		"obligations_examined":   total,
		"obligations_by_rule":    distinct,
		"sample_constructs":      c.samples,
		"reasoned_exceptions":    c.excepted,
		"known_findings_matched": len(kn),
		"findings":               fl,
		"notes":                  c.notes,
	}
	ev := map[string]any{
		"property":   c.id,
		"tier":       c.tier,
		"seed":       seed,
		"level":      "other",
		"coverage":   cov,
		"wall_s":     time.Since(start).Seconds(),
		"violations": len(open),
		"assumptions": []string{
			"the program analysed is what go/packages loads from the working tree with the build's own toolchain and flags",
			"calls through interfaces outside the analysed tables and reflection are opaque",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evp := filepath.Join(o.verif, "evidence", c.id+".json")
	_ = os.MkdirAll(filepath.Dir(evp), 0o755)
	if err := os.WriteFile(evp, append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, f := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, f.Key, f.Where)
	}
	rp := filepath.Join(o.verif, "evidence", c.id+".violation.txt")
	_ = os.Remove(rp)
	if len(open) == 0 {
		fmt.Printf("OK property=%s obligations=%d rules=%d known=%d wall=%.1fs\n", c.id, total, len(c.obl), len(kn), time.Since(start).Seconds())
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s: %d violated obligation(s); re-run: ./check.sh %s\n\n", c.id, len(open), c.id)
	for _, f := range open {
		fmt.Fprintf(&sb, "%s\n  at   %s\n  why  %s\n\n", f.Key, f.Where, f.Msg)
	}
	_ = os.WriteFile(rp, []byte(sb.String()), 0o644)
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
	return 1
}
