package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
)

// Unit is one function against one contract, ready for solving.
type Unit struct {
	vc      *VC
	w       *World
	prelude string
	axioms  []string
	axNames []string
	err     error
	name    string
	con     *Contract
}

type solverSpec struct {
	name string
	argv []string
	head string
}

const z3head = "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 100)\n(set-option :smt.delay_units true)\n"

func z3spec(secs int, seed int) solverSpec {
	if seed == 0 {
		// without array extensionality (weaker, so still sound): most obligations do not need it and it is costly
		return solverSpec{"z3", []string{"z3", "-in", fmt.Sprintf("-T:%d", secs), "smt.random_seed=0", "smt.array.extensional=false"}, z3head}
	}
	return solverSpec{"z3", []string{"z3", "-in", fmt.Sprintf("-T:%d", secs), fmt.Sprintf("smt.random_seed=%d", seed)}, z3head}
}
func z3new(secs int, seed int) solverSpec {
	return solverSpec{"z3-new", []string{"z3-new", "-in", fmt.Sprintf("-T:%d", secs), fmt.Sprintf("smt.random_seed=%d", seed)}, z3head}
}
func cvc5spec(secs int) solverSpec {
	return solverSpec{"cvc5", []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", secs*1000), "--full-saturate-quant"}, "(set-logic ALL)\n"}
}

type stats struct {
	mu       sync.Mutex
	queries  int
	secs     float64
	bySolver map[string]int
}

// solveUntil ends the proof attempts of a check, so that the search for a failing input still has its time.
var solveUntil time.Time

var st = &stats{bySolver: map[string]int{}}
var sem = make(chan struct{}, 8)
var cacheDir = os.Getenv("GOVER_CACHE")

// runSolver returns "unsat", "sat" or "unknown".
func runSolver(sp solverSpec, query string, secs int) (string, float64) {
	q := sp.head + query
	if sp.name != "cvc5" {
		// the SMT core directly: preprocessing that eliminates equations loses ground terms the triggers need
		q = strings.Replace(q, "(check-sat)", "(check-sat-using smt)", 1)
	}
	var key string
	if cacheDir != "" {
		h := sha256.Sum256([]byte(strings.Join(sp.argv, " ") + "\n" + q))
		key = filepath.Join(cacheDir, hex.EncodeToString(h[:16]))
		if b, err := os.ReadFile(key); err == nil {
			return string(b), 0
		}
	}
	sem <- struct{}{}
	defer func() { <-sem }()
	if !solveUntil.IsZero() && time.Now().After(solveUntil) {
		return "timeout", 0 // the check has to answer: what is left counts as not proved
	}
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+3)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, sp.argv[0], sp.argv[1:]...)
	c.Stdin = strings.NewReader(q)
	var out bytes.Buffer
	c.Stdout = &out
	c.Stderr = &out
	c.Run()
	el := time.Since(t0).Seconds()
	r := "unknown"
	if el >= float64(secs)*0.95 {
		r = "timeout"
	}
	for _, l := range strings.Split(out.String(), "\n") {
		l = strings.TrimSpace(l)
		if l == "unsat" || l == "sat" || l == "unknown" {
			r = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			r = "error: " + l
			break
		}
	}
	st.mu.Lock()
	st.queries++
	st.secs += el
	st.mu.Unlock()
	if cacheDir != "" && !strings.HasPrefix(r, "error") && r != "timeout" {
		os.WriteFile(key, []byte(r), 0644)
	}
	return r, el
}

// body assembles the commands visible to an obligation.
func (u *Unit) body(node, at, slice int, only *bitset) string {
	vc := u.vc
	var b strings.Builder
	b.WriteString(u.prelude)
	anc, defs := vc.nodes[node].anc, vc.nodes[node].defs
	for i := 0; i < at; i++ {
		c := vc.cmds[i]
		if !anc.has(c.node) && (!defs.has(c.node) || strings.HasPrefix(c.text, "(assert")) {
			continue
		}
		if c.cand >= 0 && !vc.cands[c.cand].alive {
			continue
		}
		if only != nil && !only.has(c.node) && strings.HasPrefix(c.text, "(assert") {
			continue
		}
		if slice != 0 && c.ens != 0 && c.ens != slice {
			continue
		}
		b.WriteString(c.text)
		b.WriteByte('\n')
	}
	return b.String()
}

func (u *Unit) query(os_ []*Oblig) string { return u.querySliced(os_, 0, nil) }

// querySliced leaves out what is assumed about the postconditions other than the given one: fewer facts, so what
// is unsatisfiable stays so with all of them.
func (u *Unit) querySliced(os_ []*Oblig, slice int, pc *pathCase) string {
	o := os_[0]
	var b strings.Builder
	if pc == nil {
		pc = &pathCase{}
	}
	b.WriteString(u.body(o.node, o.at, slice, pc.only))
	for _, c := range pc.conds {
		b.WriteString("(assert " + c + ")\n")
	}
	if r := u.vc.nodes[o.node].reach; r != "true" {
		b.WriteString("(assert " + r + ")\n")
	}
	if len(os_) == 1 {
		b.WriteString("(assert (not " + o.goal + "))\n")
	} else {
		b.WriteString("(assert (not (and")
		for _, x := range os_ {
			b.WriteString(" " + x.goal)
		}
		b.WriteString(")))\n")
	}
	b.WriteString(u.vc.w.touches(b.String()))
	b.WriteString("(check-sat)\n")
	return b.String()
}

// prove runs the portfolio on one obligation.
func (u *Unit) prove(o *Oblig, budget int) bool {
	q := u.query([]*Oblig{o})
	q0 := q
	if o.ens != 0 {
		q0 = u.querySliced([]*Oblig{o}, o.ens, nil)
	}
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		os.WriteFile(filepath.Join(d, sanitize(o.name)+fmt.Sprintf("_%d.smt2", o.id)), []byte(z3head+q), 0644)
	}
	try := func(sp solverSpec, secs int) bool {
		q := q
		if q0 != "" {
			q = q0
		}
		r, el := runSolver(sp, q, secs)
		o.secs += el
		o.out = sp.name + ": " + r
		if r == "unsat" {
			o.ok = true
			o.solver = sp.name
			st.mu.Lock()
			st.bySolver[sp.name]++
			st.mu.Unlock()
			return true
		}
		return false
	}
	if try(z3spec(5, 0), 5) {
		return true
	}
	if q0 != q {
		if try(z3new(5, 0), 5) {
			return true
		}
		q0 = ""
		if try(z3spec(5, 0), 5) {
			return true
		}
	}
	q0 = ""
	parts := splitGoal(o.goal)
	cases := u.cases(o.node, 1)
	if len(parts)*len(cases) > 1 {
		all := true
		one := func(g string, pc *pathCase) bool {
			p := *o
			p.goal = g
			q := u.querySliced([]*Oblig{&p}, o.ens, pc)
			for _, sp := range []solverSpec{z3spec(5, 0), z3new(5, 0)} {
				r, el := runSolver(sp, q, 5)
				o.secs += el
				if r == "unsat" {
					return true
				}
			}
			if d := os.Getenv("GOVER_DUMP"); d != "" && pc != nil {
				os.WriteFile(filepath.Join(d, sanitize(o.name)+fmt.Sprintf("_%d_case%d.smt2", o.id, pc.from)), []byte(z3head+q), 0644)
			}
			return false
		}
	split:
		for _, g := range parts {
			if one(g, nil) {
				continue
			}
			for _, pc := range cases {
				if one(g, pc) {
					continue
				}
				sub := u.cases(pc.from, 1)
				if len(sub) < 2 {
					all = false
					break split
				}
				for _, p2 := range sub {
					if !one(g, pc.and(p2)) {
						all = false
						break split
					}
				}
			}
		}
		if all {
			o.ok = true
			o.solver = "z3"
			o.out = "z3: unsat (by cases)"
			st.mu.Lock()
			st.bySolver["z3"]++
			st.mu.Unlock()
			return true
		}
	}
	if budget <= 1 {
		return false
	}
	if try(z3new(10, 0), 10) {
		return true
	}
	if try(z3spec(15, 7), 15) {
		return true
	}
	if try(cvc5spec(15), 15) {
		return true
	}
	if budget > 2 {
		if try(z3new(40, 11), 40) {
			return true
		}
		if try(z3spec(60, 23), 60) {
			return true
		}
	}
	return false
}

// proveAll proves the obligations of a unit, those at the same point together when that succeeds at once.
func (u *Unit) proveAll(sel []*Oblig, budget int) {
	type gk struct{ node, at int }
	groups := map[gk][]*Oblig{}
	var order []gk
	for _, o := range sel {
		k := gk{o.node, o.at}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	var wg sync.WaitGroup
	for _, k := range order {
		g := groups[k]
		wg.Add(1)
		go func() {
			defer wg.Done()
			u.proveGroup(g, budget)
		}()
	}
	wg.Wait()
}

func (u *Unit) proveGroup(g []*Oblig, budget int) {
	if len(g) > 1 {
		sp := z3spec(4, 0)
		r, el := runSolver(sp, u.query(g), 4)
		if r == "unsat" {
			for _, o := range g {
				o.ok = true
				o.solver = sp.name
				o.secs += el / float64(len(g))
				o.out = sp.name + ": unsat"
				st.mu.Lock()
				st.bySolver[sp.name]++
				st.mu.Unlock()
			}
			return
		}
		var wg sync.WaitGroup
		defer wg.Wait()
		if len(g) > 3 {
			n := len(g) / 2
			for _, h := range [][]*Oblig{g[:n], g[n:]} {
				h := h
				wg.Add(1)
				go func() { defer wg.Done(); u.proveGroup(h, budget) }()
			}
			return
		}
		for _, o := range g {
			o := o
			wg.Add(1)
			go func() { defer wg.Done(); u.prove(o, budget) }()
		}
		return
	}
	u.prove(g[0], budget)
}

// houdini removes candidates that are not inductive.
func (u *Unit) houdini() {
	vc := u.vc
	var cs []*Oblig
	for _, o := range vc.obls {
		if o.kind == "cand" {
			cs = append(cs, o)
		}
	}
	if len(cs) == 0 {
		return
	}
	// groups by node/at
	type gk struct{ node, at int }
	groups := map[gk][]*Oblig{}
	var order []gk
	for _, o := range cs {
		k := gk{o.node, o.at}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], o)
	}
	t0 := time.Now()
	// a group depends on the candidates alive among its visible commands
	lastSig := map[gk]string{}
	// stage by stage between the cuts, then everything until nothing changes
	stages := len(vc.cutPos) + 1
	for round, stage := 0, 0; ; round++ {
		limit := len(vc.cmds) + 1
		if stage < len(vc.cutPos) {
			limit = vc.cutPos[stage]
		}
		var mu sync.Mutex
		killed := false
		var wg sync.WaitGroup
		for _, k := range order {
			k := k
			if k.at > limit {
				continue
			}
			var live []*Oblig
			for _, o := range groups[k] {
				if vc.cands[o.cand].alive && o.goal != "true" {
					live = append(live, o)
				}
			}
			if len(live) == 0 {
				continue
			}
			sig := u.candSig(k.node, k.at)
			for _, o := range live {
				sig += fmt.Sprintf(",%d", o.id)
			}
			if lastSig[k] == sig {
				continue
			}
			lastSig[k] = sig
			wg.Add(1)
			go func() {
				defer wg.Done()
				u.checkGroup(live, func(o *Oblig) {
					mu.Lock()
					defer mu.Unlock()
					if vc.cands[o.cand].alive {
						killed = true
					}
					o.out = "dead"
				})
			}()
		}
		wg.Wait()
		for _, o := range cs {
			if o.out == "dead" {
				if vc.cands[o.cand].alive && os.Getenv("GOVER_HOUDINI") != "" {
					fmt.Printf("   houdini round %d kills %s %s\n", round, o.name, o.pos)
				}
				vc.cands[o.cand].alive = false
			}
		}
		if !killed {
			if os.Getenv("GOVER_HOUDINI") != "" {
				fmt.Printf("   stage %d done %.1fs\n", stage, time.Since(t0).Seconds())
			}
			if x := os.Getenv("GOVER_STAGE"); x != "" && fmt.Sprint(stage) == x {
				os.Exit(0)
			}
			if stage++; stage >= stages {
				break
			}
		}
	}
}

func (u *Unit) candSig(node, at int) string {
	vc := u.vc
	anc := vc.nodes[node].anc
	var b strings.Builder
	for i := 0; i < at; i++ {
		c := vc.cmds[i]
		if c.cand >= 0 && anc.has(c.node) && vc.cands[c.cand].alive {
			fmt.Fprintf(&b, "%d ", c.cand)
		}
	}
	return b.String()
}

// pathCase is a way of reaching a point: the conditions of the edges taken and the nodes that count on it.
type pathCase struct {
	conds []string
	only  *bitset
	from  int
}

func (a *pathCase) and(b *pathCase) *pathCase {
	r := &pathCase{conds: append(append([]string{}, a.conds...), b.conds...), from: b.from}
	r.only = &bitset{}
	r.only.or(*a.only)
	r.only.and(*b.only)
	return r
}

// cases lists the ways into the last join before a point. Every path to the point takes one of them, and a case
// keeps a part of what is assumed only, so that proving all of them proves the whole.
func (u *Unit) cases(node, depth int) []*pathCase {
	n := u.vc.nodes[node]
	for !n.isCut && len(n.in) == 0 && len(n.preds) == 1 {
		n = n.preds[0]
	}
	if n.isCut || len(n.in) < 2 || len(n.in) != len(n.preds) {
		return []*pathCase{{from: n.id, only: nil}}
	}
	var r []*pathCase
	for i, p := range n.preds {
		only := &bitset{}
		for id := range u.vc.nodes {
			if !n.anc.has(id) || id == n.id || p.anc.has(id) {
				only.set(id)
			}
		}
		r = append(r, &pathCase{conds: []string{n.in[i]}, only: only, from: p.id})
	}
	return r
}

// splitGoal breaks a goal into the conjuncts it is equivalent to, through implications and case distinctions.
func splitGoal(g string) []string {
	var out []string
	var rec func(t string, hyps []string)
	rec = func(t string, hyps []string) {
		if a := sexprArgs(t); a != nil && len(out) < 40 {
			switch {
			case a[0] == "and":
				for _, x := range a[1:] {
					rec(x, hyps)
				}
				return
			case a[0] == "=>" && len(a) == 3:
				rec(a[2], append(hyps[:len(hyps):len(hyps)], a[1]))
				return
			case a[0] == "ite" && len(a) == 4:
				rec(a[2], append(hyps[:len(hyps):len(hyps)], a[1]))
				rec(a[3], append(hyps[:len(hyps):len(hyps)], "(not "+a[1]+")"))
				return
			}
		}
		if len(hyps) > 0 {
			t = "(=> (and " + strings.Join(hyps, " ") + " true) " + t + ")"
		}
		out = append(out, t)
	}
	rec(g, nil)
	return out
}

// sexprArgs splits a list into its elements, nil for an atom.
func sexprArgs(t string) []string {
	if len(t) < 2 || t[0] != '(' || t[len(t)-1] != ')' {
		return nil
	}
	var out []string
	depth, start := 0, -1
	in := t[1 : len(t)-1]
	for i := 0; i < len(in); i++ {
		switch c := in[i]; {
		case c == '"' || c == '|':
			if start < 0 {
				start = i
			}
			for i++; i < len(in) && in[i] != c; i++ {
			}
		case c == '(':
			if depth == 0 && start < 0 {
				start = i
			}
			depth++
		case c == ')':
			depth--
		case c == ' ' && depth == 0:
			if start >= 0 {
				out = append(out, in[start:i])
				start = -1
			}
		default:
			if start < 0 {
				start = i
			}
		}
	}
	if start >= 0 {
		out = append(out, in[start:])
	}
	return out
}

func (u *Unit) checkGroup(os_ []*Oblig, dead func(*Oblig)) {
	if len(os_) > 1 {
		r, _ := runSolver(z3spec(4, 0), u.query(os_), 4)
		if r == "unsat" {
			return
		}
	}
	if len(os_) > 3 {
		h := len(os_) / 2
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); u.checkGroup(os_[:h], dead) }()
		go func() { defer wg.Done(); u.checkGroup(os_[h:], dead) }()
		wg.Wait()
		return
	}
	var wg sync.WaitGroup
	for _, o := range os_ {
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			q := u.query([]*Oblig{o})
			if d := os.Getenv("GOVER_DUMPC"); d != "" {
				os.WriteFile(filepath.Join(d, sanitize(o.name)+fmt.Sprintf("_%d.smt2", o.id)), []byte(z3head+q), 0644)
			}
			r := ""
			if o.ens != 0 {
				r, _ = runSolver(z3spec(4, 0), u.querySliced([]*Oblig{o}, o.ens, nil), 4)
			}
			if r != "unsat" {
				r, _ = runSolver(z3spec(4, 0), q, 4)
			}
			if strings.HasPrefix(r, "error") {
				solverErr(r + " in " + o.name)
			}
			if r != "unsat" && strings.Contains(o.name, "@return") && u.prove(o, 1) {
				r = "unsat"
				o.ok = false
			}
			if r != "unsat" && strings.Contains(o.name, ":inv") {
				r, _ = runSolver(z3new(8, 0), q, 8)
				if r == "timeout" {
					r, _ = runSolver(z3spec(20, 5), q, 20)
				}
			}
			if r != "unsat" {
				dead(o)
			}
		}()
	}
	wg.Wait()
}

// cover checks that a return is reachable under the assumptions (anything but unsat).
func (u *Unit) cover(o *Oblig) bool {
	q := u.query([]*Oblig{o})
	if d := os.Getenv("GOVER_DUMP"); d != "" {
		os.WriteFile(filepath.Join(d, sanitize(o.name)+fmt.Sprintf("_%d.smt2", o.id)), []byte(z3head+q), 0644)
	}
	r, el := runSolver(z3spec(2, 0), q, 2)
	o.secs = el
	o.out = r
	o.ok = r != "unsat"
	return o.ok
}

var mm sync.Mutex
var master *World
var masterP *Prog
var masterE *Effects

// mkUnitInit prepares what the units share.
func mkUnitInit(p *Prog, sp *Spec) {
	mm.Lock()
	defer mm.Unlock()
	if master == nil || masterP != p {
		master = newWorld(p, sp)
		masterP = p
		masterE = master.newEffects()
	}
}

// mkUnit encodes a function against a contract.
func mkUnit(p *Prog, sp *Spec, name string, con *Contract) *Unit {
	fn := p.funcs[name]
	u := &Unit{name: name, con: con}
	if fn == nil {
		u.err = fmt.Errorf("function %s not found", name)
		return u
	}
	mkUnitInit(p, sp)
	w := master.child()
	eff := masterE
	label := name
	if con != nil && con.Kind == "iface" {
		label = name + " as " + con.Name
	}
	vc, err := encodeUnit(w, eff, label, fn, con, nil, nil)
	if err != nil {
		u.err = err
		return u
	}
	// encode again with what the loops were seen to write, until the writes assumed are the writes made
	noStore := map[string]bool{}
	w2 := w
	for pass := 0; ; pass++ {
		if pass == 8 {
			noStore["*"] = true
		}
		prev := vc
		w2 = master.child()
		vc, err = encodeUnit(w2, eff, label, fn, con, prev, noStore)
		if err != nil {
			u.err = err
			return u
		}
		bad := vc.wrongDecs()
		if len(bad) == 0 && (len(vc.writes) == 0 || pass >= 2 || reflect.DeepEqual(vc.writes, prev.writes)) {
			break
		}
		if pass >= 2 {
			for _, b := range bad {
				noStore[b] = true
			}
		}
	}
	u.vc, u.w = vc, w2
	u.axioms, u.axNames, u.err = w2.selectAxioms()
	if u.err != nil {
		return u
	}
	u.prelude = w2.prelude() + strings.Join(u.axioms, "\n") + "\n"
	return u
}

// ghost functions mentioned by an expression, through macros
func (sp *Spec) mentions(e *Expr, out map[string]bool, seen map[string]bool) {
	if e.Op == "call" {
		if _, ok := sp.Funcs[e.Name]; ok {
			out[e.Name] = true
		}
		if m, ok := sp.Macros[e.Name]; ok && !seen[e.Name] {
			seen[e.Name] = true
			sp.mentions(m.Body, out, seen)
		}
	}
	for _, a := range e.Args {
		sp.mentions(a, out, seen)
	}
}

// trigSets returns the ghost functions of each trigger of the outermost quantifier.
func (sp *Spec) trigSets(e *Expr) []map[string]bool {
	if e.Op == "quant" && len(e.Trig) > 0 {
		var r []map[string]bool
		for _, t := range e.Trig {
			m := map[string]bool{}
			for _, x := range t {
				sp.mentions(x, m, map[string]bool{})
			}
			r = append(r, m)
		}
		return r
	}
	m := map[string]bool{}
	sp.mentions(e, m, map[string]bool{})
	return []map[string]bool{m}
}

// selectAxioms picks the axioms whose triggers can fire in this unit.
func (w *World) selectAxioms() (ax []string, names []string, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("axiom: %s", se.msg)
				return
			}
			panic(r)
		}
	}()
	done := map[string]bool{}
	cnt := 1000000
	for again := true; again; {
		again = false
		for _, a := range w.spec.Axioms {
			if done[a.Name] {
				continue
			}
			hit := false
			for _, s := range w.spec.trigSets(a.E) {
				all := true
				for f := range s {
					if !w.fseen["u_"+f] {
						all = false
					}
				}
				if all {
					hit = true
				}
			}
			if !hit {
				continue
			}
			done[a.Name] = true
			again = true
			s0 := &State{heap: map[string]string{}, alloc: "0"}
			env := &Env{w: w, vars: map[string]TV{}, st: s0, old: s0, fresh: &cnt}
			ax = append(ax, "(assert "+env.boolExpr(a.E)+") ; "+a.Name)
			names = append(names, a.Name)
		}
	}
	sort.Strings(names)
	return
}

var nerr int
var nerrMu sync.Mutex

func solverErr(s string) {
	nerrMu.Lock()
	defer nerrMu.Unlock()
	nerr++
	if nerr < 10 {
		fmt.Println("solver", s)
	}
}
