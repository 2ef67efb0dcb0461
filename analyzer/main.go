package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	var o options
	flag.StringVar(&o.repo, "repo", "/repo", "repository under analysis")
	flag.StringVar(&o.verif, "verif", "/verif", "directory holding known_findings.txt and evidence/")
	tier := flag.String("tier", "", "quick or thorough")
	flag.Parse()
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	ids := flag.Args()
	if len(ids) == 1 && ids[0] == "list" {
		for _, id := range allIDs() {
			fmt.Println(id)
		}
		return
	}
	if len(ids) == 1 && ids[0] == "all" {
		ids = allIDs()
	}
	start := time.Now()
	p, err := loadRepo(o.repo)
	if len(ids) == 1 && ids[0] == "names" {
		namesDump(p)
		return
	}
	if len(ids) == 1 && ids[0] == "functions" {
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, f := range p.Funcs {
			if f.Parent() == nil && f.Origin() == nil {
				if callsItself(f) {
					fmt.Println(fname(f), "recursive")
				} else {
					fmt.Println(fname(f))
				}
			}
		}
		return
	}
	if len(ids) == 2 && ids[0] == "paths" {
		pathsDump(p, ids[1])
		return
	}
	rc := 0
	for _, id := range ids {
		s := start
		if len(ids) > 1 {
			s = time.Now()
		}
		c := runOne(p, err, id, *tier)
		if r := finish(o, c, s); r > rc {
			rc = r
		}
	}
	os.Exit(rc)
}

func allIDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// pathsDump prints the event paths of a function (for development).
func pathsDump(p *Prog, name string) {
	for _, f := range p.Funcs {
		if fname(f) != name {
			continue
		}
		ps, why := eventPaths(p, f, func(g *ssa.Function) bool {
			return !strings.Contains(" Serialization Deserialization "+os.Getenv("VSTAT_STOP")+" ", " "+g.Name()+" ")
		}, nil)
		fmt.Println(name, len(ps), "paths", why)
		for _, q := range ps {
			if n := len(q.res); os.Getenv("VSTAT_ALL") == "" && n > 0 && q.res[n-1] != "nil" {
				continue
			}
			fmt.Println("-- path", q.res, q.order, q.loops, q.vars, q.after)
			for _, e := range q.evs {
				fmt.Println("   ", e.loop, e, "->", e.res)
			}
		}
	}
}
