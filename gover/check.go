package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type failure struct {
	Obligation string   `json:"obligation"`
	Kind       string   `json:"kind"`
	Where      string   `json:"where,omitempty"`
	Text       string   `json:"text,omitempty"`
	Verifier   string   `json:"verifier_output"`
	Labels     []string `json:"labels,omitempty"`
}

// result of verifying the obligations of one property.
type verdict struct {
	fails   []failure
	total   int
	ok      int
	byKind  map[string]int
	byUnit  map[string]int
	units   []string
	covers  int
	inlined map[string]bool
	callees map[string]bool
	axioms  map[string]bool
	cands   int
	rxEq    int
}

// check decides one property: exit 0 held, 1 violation.
func check(args []string) int {
	if len(args) < 1 {
		fmt.Println("usage: gover check Cxx")
		return 2
	}
	prop := args[0]
	selProp = prop
	tier := envOr("VERIF_TIER", "quick")
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	t0 := time.Now()
	solveUntil = t0.Add(540 * time.Second)
	if tier == "thorough" {
		solveUntil = t0.Add(2400 * time.Second)
	}
	v := verifyProp(prop, tier)
	bd := boundedFor(prop)
	bfound := ""
	if len(v.fails) == 0 && bd != nil {
		secs := bd.secs
		if tier == "thorough" {
			secs *= 8
		}
		bfound, bd.stats = search(prop, seed, secs)
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(prop, tier, seed, v, bd, wall)
	if bfound != "" {
		dir := filepath.Join(verifDir, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, prop+".json")
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "bounded_stand_in_for": bd.funcs, "failing_input": json.RawMessage(bfound)}, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Println("bounded stand-in for", bd.funcs, "fails; failing input:", clip(bfound, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		return 1
	}
	if len(v.fails) == 0 {
		fmt.Printf("property %s: %d obligations discharged in %d functions, %.0f s\n", prop, v.ok, len(v.units), wall)
		return 0
	}
	dir := filepath.Join(verifDir, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, prop+".json")
	rep := map[string]interface{}{"property": prop, "failed_obligations": v.fails}
	b, _ := json.MarshalIndent(rep, "", " ")
	os.WriteFile(path, b, 0644)
	for i, f := range v.fails {
		if i == 12 {
			fmt.Printf("... and %d more\n", len(v.fails)-i)
			break
		}
		fmt.Printf("failed obligation: %s (%s) %s {%s}\n", f.Obligation, f.Where, f.Text, f.Verifier)
	}
	left := 840 - time.Since(t0).Seconds()
	found := ""
	if os.Getenv("GOVER_NOREPLAY") == "" {
		found = replay(prop, seed, left)
	}
	if found != "" {
		rep["failing_input"] = json.RawMessage(found)
		b, _ := json.MarshalIndent(rep, "", " ")
		os.WriteFile(path, b, 0644)
		fmt.Println("failing input:", clip(found, 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
	}
	return 1
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// replay searches, through the public API of the real code, for an input on which the property fails.
func replay(prop string, seed int, left float64) string {
	if left < 30 {
		return ""
	}
	secs := int(left) - 20
	if secs > 150 {
		secs = 150
	}
	f, _ := search(prop, seed, secs)
	return f
}

// search runs the generators and the reference semantics in /verif/replay against the real code.
func search(prop string, seed, secs int) (found string, stats json.RawMessage) {
	c := exec.Command(filepath.Join(verifDir, "replay", "run.sh"), prop, strconv.Itoa(seed), strconv.Itoa(secs))
	c.Env = append(os.Environ(), "GOVER_REPO="+repoDir)
	out, _ := c.Output()
	for _, l := range strings.Split(string(out), "\n") {
		if strings.HasPrefix(l, "FOUND ") {
			found = strings.TrimPrefix(l, "FOUND ")
		}
		if strings.HasPrefix(l, "STATS ") {
			stats = json.RawMessage(strings.TrimPrefix(l, "STATS "))
		}
	}
	return
}

// bounded names the functions a property depends on that are not under contract (yet): they get a bounded search instead.
type bounded struct {
	secs   int
	funcs  string
	reason string
	stats  json.RawMessage
}

// boundedFor reads /verif/bounded.txt: property | seconds | functions | reason
func boundedFor(prop string) *bounded {
	b, err := os.ReadFile(filepath.Join(verifDir, "bounded.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Split(l, "|")
		if len(f) < 4 || strings.TrimSpace(f[0]) != prop {
			continue
		}
		n, _ := strconv.Atoi(strings.TrimSpace(f[1]))
		return &bounded{secs: n, funcs: strings.TrimSpace(f[2]), reason: strings.TrimSpace(f[3])}
	}
	return nil
}

func verifyProp(prop, tier string) *verdict {
	v := &verdict{byKind: map[string]int{}, byUnit: map[string]int{}, inlined: map[string]bool{}, callees: map[string]bool{}, axioms: map[string]bool{}}
	bad := func(ob, txt, out string) {
		v.total++
		v.fails = append(v.fails, failure{Obligation: ob, Kind: "structure", Text: txt, Verifier: out})
	}
	p, err := loadProg(repoDir)
	if err != nil {
		bad("load", "the package loads and type-checks", err.Error())
		return v
	}
	sp, err := loadSpecs(verifDir + "/specs")
	if err != nil {
		bad("specs", "the contracts parse", err.Error())
		return v
	}
	regexGlobals(p, sp)
	budget := 2
	if tier == "thorough" {
		budget = 3
	}
	type job struct {
		u   *Unit
		sel []*Oblig
		cov []*Oblig
	}
	var jobs []*job
	for _, c := range sp.Order {
		con := sp.Cons[c]
		if con.Entry && con.Kind == "func" && p.funcs[con.Name] == nil && contains(con.allLabels(), prop) {
			bad(con.Name, "the function exists", "not found")
		}
	}
	var wg sync.WaitGroup
	for _, ud := range unitDefs(p, sp) {
		u := mkUnit(p, sp, ud.fn, ud.con)
		if u.err != nil {
			if contains(u.con.allLabels(), prop) || prop == "C14" {
				bad(u.name, "the function is within the verifier's reach", u.err.Error())
			}
			continue
		}
		j := &job{u: u}
		for _, o := range u.vc.obls {
			switch o.kind {
			case "cand":
			case "cover":
				j.cov = append(j.cov, o)
			case "unsupported":
				if contains(u.con.allLabels(), prop) || prop == "C14" {
					j.sel = append(j.sel, o)
				}
			default:
				if hasLabel(u, o, prop) {
					j.sel = append(j.sel, o)
				}
			}
		}
		if len(j.sel) == 0 {
			continue
		}
		jobs = append(jobs, j)
		wg.Add(1)
		go func() {
			defer wg.Done()
			j.u.houdini()
			var wg2 sync.WaitGroup
			var prove []*Oblig
			for _, o := range append(append([]*Oblig{}, j.sel...), j.cov...) {
				o := o
				switch o.kind {
				case "cover":
				case "unsupported":
					o.out = "outside the supported subset"
				default:
					prove = append(prove, o)
				}
			}
			wg2.Add(1)
			go func() {
				defer wg2.Done()
				for i := len(j.cov) - 1; i >= 0; i-- {
					if j.u.cover(j.cov[i]) {
						break
					}
				}
			}()
			j.u.proveAll(prove, budget)
			wg2.Wait()
		}()
	}
	wg.Wait()
	for _, j := range jobs {
		u := j.u
		v.units = append(v.units, u.vc.name)
		anyCov := len(j.cov) == 0
		for _, o := range j.cov {
			v.covers++
			if o.ok {
				anyCov = true
			}
		}
		if !anyCov {
			bad(u.vc.name+"/cover", "some return is reachable under the assumptions", "every return is unreachable: the assumptions contradict each other")
		}
		for _, o := range j.sel {
			v.total++
			v.byKind[o.kind]++
			if o.ok {
				v.ok++
				v.byUnit[u.vc.name]++
				continue
			}
			v.fails = append(v.fails, failure{Obligation: o.name, Kind: o.kind, Where: fmt.Sprintf("%s:%d", o.pos.Filename, o.pos.Line), Text: o.text, Verifier: o.out, Labels: o.labels})
		}
		for c := range u.vc.callees {
			v.callees[c] = true
		}
		for c := range u.vc.inlined {
			v.inlined[c] = true
		}
		for _, a := range u.axNames {
			v.axioms[a] = true
		}
		for _, c := range u.vc.cands {
			if c.alive {
				v.cands++
			}
		}
	}
	extraChecks(p, sp, prop, v)
	if v.total == 0 {
		bad("none", "the property has obligations", "no obligation carries this property's label")
	}
	return v
}

func contains(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func writeEvidence(prop, tier string, seed int, v *verdict, bd *bounded, wall float64) {
	sp, _ := loadSpecs(verifDir + "/specs")
	ext := []string{}
	trusted := []string{}
	if sp != nil {
		for _, c := range sp.Order {
			con := sp.Cons[c]
			if !v.callees[con.Name] {
				continue
			}
			if con.Kind == "extern" || con.Kind == "iface" {
				ext = append(ext, con.Kind+" "+con.Name)
			}
			if con.Trusted {
				trusted = append(trusted, con.Name)
			}
		}
	}
	var fails []string
	for _, f := range v.fails {
		fails = append(fails, f.Obligation)
	}
	tb := []string{
		"go/ssa translation (golang.org/x/tools) and the gover encoder in /verif/gover",
		"SMT solvers z3 4.8.12, z3-new, cvc5 (an unsat answer of any one discharges an obligation)",
		"Go memory model restricted to data-race-free executions; slices are not written through after being shared; integers are mathematical; partial correctness (termination not shown)",
		"contracts of standard library and dependency functions: " + strings.Join(ext, "; "),
	}
	if len(trusted) > 0 {
		tb = append(tb, "trusted contracts inside the package: "+strings.Join(trusted, "; "))
	}
	if ax := keys(v.axioms); len(ax) > 0 {
		tb = append(tb, "axioms used: "+strings.Join(ax, ", "))
	}
	sort.Strings(v.units)
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "proof", "wall_s": wall,
		"coverage": map[string]interface{}{
			"obligations":              v.total,
			"discharged":               v.ok,
			"checker_cmd":              "/verif/check.sh " + prop,
			"trusted_base":             tb,
			"functions_under_contract": v.units,
			"functions_inlined":        keys(v.inlined),
			"obligations_by_kind":      v.byKind,
			"obligations_by_function":  v.byUnit,
			"loop_invariants_inferred": v.cands,
			"reachability_covers":      v.covers,
			"discharged_by_solver":     st.bySolver,
			"solver_queries":           st.queries,
			"solver_s":                 st.secs,
			"failed":                   fails,
		},
	}
	if bd != nil {
		ev["level"] = "other"
		cov := ev["coverage"].(map[string]interface{})
		x := map[string]interface{}{"functions": bd.funcs, "reason": bd.reason, "bound": fmt.Sprintf("random search of %d s (quick) or %d s (thorough) through the public API against the reference semantics in /verif/replay; not a proof", bd.secs, bd.secs*8)}
		if bd.stats != nil {
			x["run"] = bd.stats
		}
		cov["bounded"] = x
		cov["explanation"] = "the obligations listed were proved for all inputs; the functions under coverage.bounded were only searched within the stated bound and are not counted as proved"
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), b, 0644)
}

// extraChecks adds the obligations that are not about one function body.
func extraChecks(p *Prog, sp *Spec, prop string, v *verdict) {}
