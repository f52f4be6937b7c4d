package main

import (
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"
)

var repoDir = envOr("GOVER_REPO", "/repo")
var verifDir = envOr("GOVER_VERIF", "/verif")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gover check Cxx | dev [unit-regexp] [prop]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dev":
		dev(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "names":
		p, err := loadProg(repoDir)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		for _, n := range p.names {
			fmt.Println(n)
		}
	}
}

// unitDef names a function and the contract it is checked against.
type unitDef struct {
	fn  string
	con *Contract
}

// unitDefs lists the units of the program.
func unitDefs(p *Prog, sp *Spec) []unitDef {
	var r []unitDef
	for _, k := range sp.Order {
		c := sp.Cons[k]
		switch c.Kind {
		case "func":
			if c.Trusted || c.Inline || p.funcs[c.Name] == nil {
				continue
			}
			fn := p.funcs[c.Name]
			if len(c.Params) != len(fn.Params) || len(c.Rets) > fn.Signature.Results().Len() {
				continue
			}
			r = append(r, unitDef{c.Name, c})
		}
	}
	return r
}

func dev(args []string) {
	re := regexp.MustCompile(".")
	prop := ""
	if len(args) > 0 {
		re = regexp.MustCompile(args[0])
	}
	if len(args) > 1 {
		prop = args[1]
		selProp = prop
	}
	budget := 2
	if os.Getenv("GOVER_FAST") != "" {
		budget = 1
	}
	p, err := loadProg(repoDir)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	sp, err := loadSpecs(verifDir + "/specs")
	if err != nil {
		fmt.Println("spec:", err)
		os.Exit(2)
	}
	regexGlobals(p, sp)
	for _, c := range sp.Cons {
		if c.Kind == "func" && p.funcs[c.Name] == nil {
			fmt.Println("note: contract for missing function", c.Name)
		}
	}
	total, good := 0, 0
	for _, ud := range unitDefs(p, sp) {
		if !re.MatchString(ud.fn) {
			continue
		}
		t0 := time.Now()
		u := mkUnit(p, sp, ud.fn, ud.con)
		if u.err != nil {
			fmt.Printf("ERR  %s: %v\n", ud.fn, u.err)
			continue
		}
		t1 := time.Now()
		u.houdini()
		t2 := time.Now()
		alive := 0
		for _, c := range u.vc.cands {
			if c.alive {
				alive++
			}
		}
		var sel []*Oblig
		for _, o := range u.vc.obls {
			if o.kind == "cand" {
				continue
			}
			if prop != "" && o.kind != "cover" && !hasLabel(u, o, prop) {
				continue
			}
			sel = append(sel, o)
		}
		var wg sync.WaitGroup
		var prove []*Oblig
		for _, o := range sel {
			o := o
			switch o.kind {
			case "cover":
				if os.Getenv("GOVER_COVER") == "" {
					o.ok = true
					continue
				}
				wg.Add(1)
				go func() { defer wg.Done(); u.cover(o) }()
			case "unsupported":
			default:
				prove = append(prove, o)
			}
		}
		u.proveAll(prove, budget)
		wg.Wait()
		nok := 0
		for _, o := range sel {
			if o.ok {
				nok++
			}
		}
		total += len(sel)
		good += nok
		fmt.Printf("%-50s %3d/%3d ok  cands %d/%d  enc %.1fs houd %.1fs solve %.1fs\n", u.vc.name, nok, len(sel), alive, len(u.vc.cands), t1.Sub(t0).Seconds(), t2.Sub(t1).Seconds(), time.Since(t2).Seconds())
		for _, o := range sel {
			if !o.ok {
				fmt.Printf("   FAIL %s [%s] %s:%d %s   {%s}\n", o.name, strings.Join(o.labels, ","), o.pos.Filename, o.pos.Line, o.text, o.out)
			} else if o.secs > 4 {
				fmt.Printf("   slow %s %.1fs %s\n", o.name, o.secs, o.solver)
			}
		}
		if os.Getenv("GOVER_V") != "" {
			for _, c := range u.vc.cands {
				fmt.Printf("   cand %v %s\n", c.alive, c.name)
			}
			var cs []string
			for c := range u.vc.callees {
				cs = append(cs, c)
			}
			sort.Strings(cs)
			fmt.Println("   callees:", strings.Join(cs, "; "))
			fmt.Println("   inlined:", u.vc.inlined)
		}
	}
	fmt.Printf("TOTAL %d/%d  queries %d solver %.1fs\n", good, total, st.queries, st.secs)
}

// hasLabel tells whether an obligation belongs to the check of a property: by its own labels, else by its contract's.
func hasLabel(u *Unit, o *Oblig, prop string) bool {
	ls := o.labels
	if len(ls) == 0 && u.con != nil {
		ls = u.con.allLabels()
	}
	for _, l := range ls {
		if l == prop {
			return true
		}
	}
	return false
}

// allLabels lists the properties a contract contributes to.
func (c *Contract) allLabels() []string {
	if len(c.Props) > 0 {
		return c.Props
	}
	seen := map[string]bool{}
	var r []string
	for _, cl := range c.Clauses {
		if cl.Kind == "requires" {
			continue
		}
		for _, l := range cl.Labels {
			if !seen[l] {
				seen[l] = true
				r = append(r, l)
			}
		}
	}
	return r
}
