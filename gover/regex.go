package main

import (
	"fmt"
	"go/constant"
	"regexp"
	"regexp/syntax"
	"sort"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Decides equality of the languages two Go regular expressions match (as regexp.MatchString does), by
// determinisation over a partition of the runes.

type rxAut struct{ p *syntax.Prog }

func rxCompile(s string) (*rxAut, bool) {
	re, err := syntax.Parse(s, syntax.Perl)
	if err != nil {
		return nil, false
	}
	p, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil, false
	}
	for _, in := range p.Inst {
		if in.Op == syntax.InstEmptyWidth && syntax.EmptyOp(in.Arg)&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
			return nil, false
		}
	}
	return &rxAut{p}, true
}

// closure follows empty transitions from pcs; reports whether a match is reached.
func (a *rxAut) closure(pcs []uint32, begin, end bool) (map[uint32]bool, bool) {
	seen := map[uint32]bool{}
	match := false
	stack := append([]uint32{}, pcs...)
	for len(stack) > 0 {
		pc := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[pc] {
			continue
		}
		seen[pc] = true
		in := a.p.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			stack = append(stack, in.Out, in.Arg)
		case syntax.InstCapture, syntax.InstNop:
			stack = append(stack, in.Out)
		case syntax.InstEmptyWidth:
			op := syntax.EmptyOp(in.Arg)
			if op&syntax.EmptyBeginText != 0 && !begin || op&syntax.EmptyEndText != 0 && !end {
				continue
			}
			stack = append(stack, in.Out)
		case syntax.InstMatch:
			match = true
		}
	}
	return seen, match
}

// state: pcs to start the closure from, whether at the beginning, whether already matched
type rxState struct {
	pcs   []uint32
	begin bool
	done  bool
}

func (s rxState) key() string {
	if s.done {
		return "D"
	}
	return fmt.Sprint(s.begin, s.pcs)
}

func (a *rxAut) start() rxState {
	return a.norm(rxState{pcs: []uint32{uint32(a.p.Start)}, begin: true})
}

func (a *rxAut) norm(s rxState) rxState {
	if s.done {
		return rxState{done: true}
	}
	if _, m := a.closure(s.pcs, s.begin, false); m {
		return rxState{done: true}
	}
	return s
}

func (a *rxAut) accepts(s rxState) bool {
	if s.done {
		return true
	}
	_, m := a.closure(s.pcs, s.begin, true)
	return m
}

func (a *rxAut) step(s rxState, r rune) rxState {
	if s.done {
		return s
	}
	cl, _ := a.closure(s.pcs, s.begin, false)
	nx := map[uint32]bool{uint32(a.p.Start): true}
	for pc := range cl {
		in := &a.p.Inst[pc]
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1, syntax.InstRuneAny, syntax.InstRuneAnyNotNL:
			if in.MatchRune(r) {
				nx[in.Out] = true
			}
		}
	}
	var l []uint32
	for pc := range nx {
		l = append(l, pc)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return a.norm(rxState{pcs: l})
}

func (a *rxAut) bounds(m map[rune]bool) {
	add := func(r rune) { m[r] = true; m[r+1] = true }
	add('\n')
	for _, in := range a.p.Inst {
		switch in.Op {
		case syntax.InstRune, syntax.InstRune1:
			if len(in.Rune) == 1 {
				r := in.Rune[0]
				add(r)
				for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
					add(f)
				}
				continue
			}
			for i := 0; i+1 < len(in.Rune); i += 2 {
				m[in.Rune[i]] = true
				m[in.Rune[i+1]+1] = true
			}
		}
	}
}

var rxMu sync.Mutex
var rxMemo = map[[2]string]bool{}

// rxEqual: provably the same language.
func rxEqual(x, y string) bool {
	if x == y {
		return true
	}
	rxMu.Lock()
	defer rxMu.Unlock()
	if r, ok := rxMemo[[2]string{x, y}]; ok {
		return r
	}
	r := rxEqual1(x, y)
	rxMemo[[2]string{x, y}] = r
	return r
}

func rxEqual1(x, y string) bool {
	a, ok := rxCompile(x)
	b, ok2 := rxCompile(y)
	if !ok || !ok2 {
		return false
	}
	m := map[rune]bool{0: true}
	a.bounds(m)
	b.bounds(m)
	var reps []rune
	for r := range m {
		if r <= unicode.MaxRune {
			reps = append(reps, r)
		}
	}
	sort.Slice(reps, func(i, j int) bool { return reps[i] < reps[j] })
	type pair struct{ s, t rxState }
	seen := map[string]bool{}
	q := []pair{{a.start(), b.start()}}
	for len(q) > 0 {
		p := q[0]
		q = q[1:]
		k := p.s.key() + "|" + p.t.key()
		if seen[k] {
			continue
		}
		seen[k] = true
		if len(seen) > 20000 {
			return false
		}
		if a.accepts(p.s) != b.accepts(p.t) {
			return false
		}
		if p.s.done && p.t.done {
			continue
		}
		for _, r := range reps {
			q = append(q, pair{a.step(p.s, r), b.step(p.t, r)})
		}
	}
	return true
}

// rxFacts states what is known of the literal regular expressions of a unit.
func (w *World) rxFacts() string {
	var b strings.Builder
	if w.fseen["u_rxOK"] {
		for i, s := range w.litList {
			_, err := regexp.Compile(s)
			fmt.Fprintf(&b, "(assert (= (u_rxOK lit%d) %v))\n", i, err == nil)
		}
	}
	if w.fseen["u_rxMatch"] {
		for i, x := range w.litList {
			if !strings.HasPrefix(x, "^") {
				continue
			}
			for j, y := range w.litList {
				if j > i && strings.HasPrefix(y, "^") && rxEqual(x, y) {
					fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (= (u_rxMatch lit%d s) (u_rxMatch lit%d s)) :pattern ((u_rxMatch lit%d s)) :pattern ((u_rxMatch lit%d s)))))\n", i, j, i, j)
				}
			}
		}
	}
	return b.String()
}

// regexGlobals derives an invariant for every package variable initialised with a constant regular expression
// and never assigned again; the init unit proves it.
func regexGlobals(p *Prog, sp *Spec) {
	for _, g := range p.constGlobals() {
		c, ok := g.init.(*ssa.Call)
		if !ok {
			continue
		}
		cal := c.Call.StaticCallee()
		if cal == nil || cal.String() != "regexp.MustCompile" || len(c.Call.Args) != 1 {
			continue
		}
		k, ok := c.Call.Args[0].(*ssa.Const)
		if !ok || k.Value == nil || k.Value.Kind() != constant.String {
			continue
		}
		txt := fmt.Sprintf("%s != nil && %s.src == %q", g.name, g.name, constant.StringVal(k.Value))
		ps := mkParser(txt)
		e := ps.expr()
		ps.done()
		sp.GInv = append(sp.GInv, &Axiom{Name: "regex_" + g.name, E: e, Text: txt, Labels: []string{"C09", "C14"}})
	}
}

type constGlobal struct {
	name string
	init ssa.Value
}

// constGlobals: package variables stored exactly once, in the package initialiser, whose address goes nowhere else.
func (p *Prog) constGlobals() []constGlobal {
	stores := map[*ssa.Global][]*ssa.Store{}
	bad := map[*ssa.Global]bool{}
	for _, f := range p.funcs {
		isInit := f.Name() == "init" && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						stores[g] = append(stores[g], st)
						if !isInit {
							bad[g] = true
						}
						if g2, ok := st.Val.(*ssa.Global); ok {
							bad[g2] = true
						}
						continue
					}
				}
				if u, ok := in.(*ssa.UnOp); ok {
					if _, ok := u.X.(*ssa.Global); ok {
						continue
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						bad[g] = true
					}
				}
			}
		}
	}
	var r []constGlobal
	for g, ss := range stores {
		if !bad[g] && len(ss) == 1 {
			r = append(r, constGlobal{g.Name(), ss[0].Val})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].name < r[j].name })
	return r
}
