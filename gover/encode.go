package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type bitset []uint64

func (b bitset) has(i int) bool { return i/64 < len(b) && b[i/64]&(1<<(uint(i)%64)) != 0 }
func (b *bitset) set(i int) {
	for len(*b) <= i/64 {
		*b = append(*b, 0)
	}
	(*b)[i/64] |= 1 << (uint(i) % 64)
}
func (b *bitset) or(o bitset) {
	for len(*b) < len(o) {
		*b = append(*b, 0)
	}
	for i, x := range o {
		(*b)[i] |= x
	}
}

func (b *bitset) and(o bitset) {
	for i := range *b {
		if i < len(o) {
			(*b)[i] &= o[i]
		} else {
			(*b)[i] = 0
		}
	}
}
func (b bitset) meets(o bitset) bool {
	for i := range b {
		if i < len(o) && b[i]&o[i] != 0 {
			return true
		}
	}
	return false
}

type node struct {
	id    int
	anc   bitset // nodes whose assertions are visible, itself included
	defs  bitset // nodes whose definitions are visible, itself included
	dom   bitset // nodes every path to this one goes through, itself included
	reach string
	st    *State
	preds []*node
	in    []string // conditions of the incoming edges of a join, in the order of preds
	isCut bool
}

type Cmd struct {
	node int
	text string
	cand int // candidate this command assumes, -1 otherwise
	ens  int // postcondition (counted from 1) this command assumes, 0 otherwise
}

// Oblig is one proof obligation.
type Oblig struct {
	id     int
	name   string
	kind   string // ensures requires frame safety cand cover unsupported
	labels []string
	node   int
	at     int // number of commands visible
	goal   string
	pos    token.Position
	text   string
	cand   int
	ens    int // postcondition it is about, 0 otherwise
	callee string
	used   map[int]bool // candidates visible
	// results
	ok     bool
	solver string
	secs   float64
	out    string
}

// Cand is a candidate loop invariant.
type Cand struct {
	id    int
	name  string
	alive bool
	loop  *loopInfo
}

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	fr     *frame
	np     *node
	nh     *node
	preAt  int
	it     string
	cands  []*candInst
	ord    int
}

type candInst struct {
	c    *Cand
	eval func(phi map[*ssa.Phi]string, st *State, it string) string
}

type deferred struct {
	n   *node
	blk *ssa.BasicBlock
	d   *ssa.Defer
}

type frame struct {
	id      int
	fn      *ssa.Function
	vals    map[ssa.Value]string
	tup     map[ssa.Value][]string
	parent  *frame
	prefix  string
	ini     *initInfo
	exits   []exitPt
	loops   map[*ssa.BasicBlock]*loopInfo
	lstack  []*loopInfo // enclosing loops of the call site
	defers  []deferred
	closure map[ssa.Value]*ssa.MakeClosure
	callPos token.Position
}

type exitPt struct {
	n   *node
	res []string
}

type edge struct {
	from  *node
	reach string
	pred  int
	phis  map[*ssa.Phi]string
}

// VC is the verification condition of one function against one contract.
type VC struct {
	w       *World
	eff     *Effects
	fn      *ssa.Function
	con     *Contract
	name    string
	cmds    []Cmd
	obls    []*Oblig
	nodes   []*node
	cands   []*Cand
	nframes int
	cnt     int
	entry   *State
	params  map[string]TV
	mods    []Loc
	rets    []TV
	unsup   []string
	defAt   map[string]int
	defNode map[string]int
	writes  map[string]map[Loc]bool // loop key -> written locations (first pass)
	prevW   map[string]map[Loc]bool
	prevF   map[string]bool // names allocated by the previous encoding
	freshs  map[string]bool // names allocated
	noStore map[string]bool // loop and component pairs that get a havoc
	decs    []*loopDec
	// cut points of long functions
	lastCut   *node
	startNode *node
	startAt   int
	region    string          // writes since the entry are recorded under this key
	usedLit   map[string]bool // the string constants met in the code so far
	relFields map[string]bool
	cutPos    []int // positions of the cuts among the commands
	symSort   map[string]string
	asserted  map[string]bitset
	isInit    bool
	callees   map[string]bool
	retN      int
	loopN     int
	trivial   int
	inlined   map[string]bool
}

func (vc *VC) pos(p token.Pos) token.Position {
	ps := vc.w.p.prog.Fset.Position(p)
	if i := strings.LastIndex(ps.Filename, "/"); i >= 0 {
		ps.Filename = ps.Filename[i+1:]
	}
	return ps
}

func (vc *VC) newNode(preds []*node) *node {
	n := &node{id: len(vc.nodes), preds: preds}
	for i, p := range preds {
		n.anc.or(p.anc)
		n.defs.or(p.defs)
		if i == 0 {
			n.dom.or(p.dom)
		} else {
			n.dom.and(p.dom)
		}
	}
	n.anc.set(n.id)
	n.defs.set(n.id)
	n.dom.set(n.id)
	vc.nodes = append(vc.nodes, n)
	return n
}

func (vc *VC) emit(n *node, text string) {
	vc.cmds = append(vc.cmds, Cmd{n.id, text, -1, 0})
}

func (vc *VC) emitDecl(n *node, name, sort string) {
	vc.defAt[name] = len(vc.cmds)
	vc.defNode[name] = n.id
	vc.symSort[name] = sort
	vc.emit(n, "(declare-const "+name+" "+sort+")")
}

func (vc *VC) emitDef(n *node, name, sort, body string) string {
	vc.defAt[name] = len(vc.cmds)
	vc.defNode[name] = n.id
	if sort != "Bool" && strings.Contains(body, "(ite ") {
		// macros are expanded inside patterns, where a conditional is not allowed
		vc.symSort[name] = sort
		vc.emit(n, "(declare-const "+name+" "+sort+")\n(assert (= "+name+" "+body+"))")
		return name
	}
	vc.emit(n, "(define-fun "+name+" () "+sort+" "+body+")")
	return name
}

func (vc *VC) assume(n *node, fact string) {
	if fact == "true" || fact == "" {
		return
	}
	if n.reach == "true" {
		vc.emit(n, "(assert "+fact+")")
		return
	}
	vc.emit(n, "(assert (=> "+n.reach+" "+fact+"))")
}

func (vc *VC) gensym(p string) string {
	vc.cnt++
	return fmt.Sprintf("%s!%d", p, vc.cnt)
}

func (vc *VC) oblige(n *node, kind, name string, labels []string, goal string, pos token.Pos, text string) {
	if goal == "true" {
		vc.trivial++
		return
	}
	if kind != "cover" && kind != "unsupported" {
		if a, ok := vc.asserted[canonKey(goal)]; ok && a.meets(n.dom) {
			vc.trivial++
			return
		}
	}
	vc.obls = append(vc.obls, &Oblig{id: len(vc.obls), name: name, kind: kind, labels: labels, node: n.id, at: len(vc.cmds), goal: goal, pos: vc.pos(pos), text: text, cand: -1})
	if kind != "cover" && kind != "unsupported" {
		vc.assume(n, goal)
	}
	if kind != "cover" && kind != "unsupported" {
		vc.markKnown(n, goal)
	}
}

// markKnown records that a formula holds at n and at every node n dominates.
func (vc *VC) markKnown(n *node, f string) {
	f = canonKey(f)
	a := vc.asserted[f]
	a.set(n.id)
	vc.asserted[f] = a
}

var reBinder = regexp.MustCompile(`\(\(?(\w+![0-9]+) [^()]+\)`)
var reQuant = regexp.MustCompile(`\((?:forall|exists) \((?:\(\w+![0-9]+ [^()]+\) ?)+\)`)

// canonKey renames the bound variables of a formula by their order, so that two instances of a clause compare equal.
func canonKey(f string) string {
	if !strings.Contains(f, "(forall ") && !strings.Contains(f, "(exists ") {
		return f
	}
	ren := map[string]string{}
	for _, q := range reQuant.FindAllString(f, -1) {
		for _, b := range reBinder.FindAllStringSubmatch(q, -1) {
			if ren[b[1]] == "" {
				ren[b[1]] = fmt.Sprintf("b!!%d", len(ren))
			}
		}
	}
	return reSym.ReplaceAllStringFunc(f, func(s string) string {
		if r, ok := ren[s]; ok {
			return r
		}
		return s
	})
}

var reSym = regexp.MustCompile(`[\w.]+![0-9]+`)

func (vc *VC) unsupported(n *node, what string, pos token.Pos) {
	vc.unsup = append(vc.unsup, what)
	vc.obls = append(vc.obls, &Oblig{id: len(vc.obls), name: "unsupported: " + what, kind: "unsupported", node: n.id, at: len(vc.cmds), goal: "false", pos: vc.pos(pos), text: what, cand: -1})
}

// encodeUnit builds the verification condition of fn against con.
func encodeUnit(w *World, eff *Effects, name string, fn *ssa.Function, con *Contract, prev *VC, noStore map[string]bool) (vc *VC, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(specErr); ok {
				err = fmt.Errorf("%s: %s", name, se.msg)
				return
			}
			panic(r)
		}
	}()
	vc = &VC{w: w, eff: eff, fn: fn, con: con, name: name, defAt: map[string]int{}, defNode: map[string]int{}, writes: map[string]map[Loc]bool{}, noStore: noStore, freshs: map[string]bool{},
		symSort: map[string]string{}, asserted: map[string]bitset{}, callees: map[string]bool{}, inlined: map[string]bool{}}
	if prev != nil {
		vc.prevW, vc.prevF = prev.writes, prev.freshs
	}
	vc.isInit = fn.Name() == "init" && fn.Synthetic != ""
	n := vc.newNode(nil)
	n.reach = "true"
	n.st = &State{heap: map[string]string{}, alloc: "alloc0"}
	vc.entry = n.st.clone()
	vc.symSort["alloc0"] = "Int"
	fr := vc.newFrame(fn, nil)
	vc.params = map[string]TV{}
	for i, p := range fn.Params {
		nm := "in." + sanitize(p.Name()) + fmt.Sprintf("_%d", i)
		S := w.sortOf(p.Type())
		vc.emitDecl(n, nm, S)
		fr.vals[p] = nm
		vc.wellTyped(n, p.Type(), nm)
		if con != nil && i < len(con.Params) {
			T := types.Type(p.Type())
			if con.Kind == "iface" && i == 0 {
				// the receiver of an interface contract is the interface value holding this object
				vc.params[con.Params[i]] = TV{tAny, "Any", w.box(T, nm)}
			} else {
				vc.params[con.Params[i]] = TV{T, S, nm}
			}
		}
	}
	env := vc.env(n.st)
	if vc.isInit {
		// program start: nothing initialised yet, mutexes unlocked
		if g := fn.Pkg.Var("init$guard"); g != nil {
			vc.assume(n, "(not (select "+n.st.get(w.cellComp(types.Typ[types.Bool]))+" "+w.global(g.Name())+"))")
		}
		for _, gf := range w.spec.GFields {
			if gf.Zero {
				c := w.ghostComp(gf)
				vc.assume(n, "(forall ((r Int)) (! (= (select "+n.st.get(c)+" r) 0) :pattern ((select "+n.st.get(c)+" r))))")
			}
		}
	}
	if !vc.isInit {
		for _, g := range w.spec.GInv {
			vc.assume(n, env.boolExpr(g.E))
		}
	}
	if con != nil {
		for _, c := range con.get("requires") {
			vc.assume(n, env.boolExpr(c.E))
		}
		if con.Kind == "func" && !vc.isInit {
			for _, g := range w.spec.SysInv {
				f := env.boolExpr(g.E)
				vc.assume(n, f)
				vc.markKnown(n, f)
			}
		}
		for _, c := range con.get("unfold") {
			if !relevant(c) {
				continue
			}
			vc.assume(n, env.boolExpr(c.E))
		}
		for _, c := range con.get("modifies") {
			for _, m := range c.Mods {
				vc.mods = append(vc.mods, env.modLocs(m)...)
			}
		}
	}
	if con != nil {
		// ghost assignments on entry
		for _, c := range con.get("ghostset") {
			for _, l := range env.modLocs(c.Mods[0]) {
				vc.write(fr, n, l, env.eval(c.E).E, fn.Pos(), nil)
			}
		}
	}
	vc.runFrame(fr, n)
	for _, x := range fr.exits {
		vc.retN++
		vc.checkReturn(x, fr)
	}
	return vc, nil
}

func (vc *VC) checkReturn(x exitPt, fr *frame) {
	env := vc.env(x.n.st)
	env.old = vc.entry
	if vc.con == nil {
		return
	}
	sig := vc.fn.Signature.Results()
	for i, r := range vc.con.Rets {
		if i < sig.Len() {
			T := sig.At(i).Type()
			env.vars[r] = TV{T, vc.w.sortOf(T), x.res[i]}
		}
	}
	for _, c := range vc.con.get("use") {
		if !relevant(c) {
			continue
		}
		vc.assume(x.n, env.boolExpr(c.E))
	}
	// the postconditions are proved from the same facts, and assumed afterwards for those that hold at the end only
	at := len(vc.cmds)
	for _, last := range []bool{false, true} {
		var after []Cmd
		for i, c := range vc.con.get("ensures") {
			if c.AtEnd != last {
				continue
			}
			nm := c.Name
			if nm == "" {
				nm = fmt.Sprintf("#%d", i+1)
			}
			g := env.boolExpr(c.E)
			if g == "true" {
				vc.trivial++
				continue
			}
			if a, ok := vc.asserted[canonKey(g)]; ok && a.meets(x.n.dom) {
				vc.trivial++
				continue
			}
			kind, cand := "ensures", -1
			if helps(c) {
				cd := &Cand{id: len(vc.cands), name: fmt.Sprintf("ens%d@return%d", i+1, vc.retN), alive: true}
				vc.cands = append(vc.cands, cd)
				kind, cand = "cand", cd.id
			}
			vc.obls = append(vc.obls, &Oblig{id: len(vc.obls), name: fmt.Sprintf("%s/ensures[%s]@return%d", vc.name, nm, vc.retN), kind: kind, labels: c.Labels, node: x.n.id, at: at, goal: g, pos: vc.pos(fr.fn.Pos()), text: c.Text, cand: cand, ens: ensTag(c, i)})
			if relevant(c) {
				after = append(after, Cmd{x.n.id, "(assert (=> " + x.n.reach + " " + g + "))", cand, ensTag(c, i)})
			}
		}
		vc.cmds = append(vc.cmds, after...)
		at = len(vc.cmds)
	}
	if vc.con.Kind == "func" {
		for _, g := range vc.w.spec.SysInv {
			vc.oblige(x.n, "ensures", fmt.Sprintf("%s/ensures[%s]@return%d", vc.name, g.Name, vc.retN), g.Labels, env.boolExpr(g.E), fr.fn.Pos(), g.Text)
		}
	}
	if vc.isInit {
		for _, g := range vc.w.spec.GInv {
			vc.oblige(x.n, "ensures", fmt.Sprintf("init/globalinv[%s]", g.Name), g.Labels, env.boolExpr(g.E), fr.fn.Pos(), g.Text)
		}
	}
	vc.obls = append(vc.obls, &Oblig{id: len(vc.obls), name: fmt.Sprintf("%s/cover@return%d", vc.name, vc.retN), kind: "cover", node: x.n.id, at: len(vc.cmds), goal: "false", cand: -1})
}

// ensTag numbers a labelled postcondition; unlabelled and final ones are not left out of any query.
func ensTag(c *Clause, i int) int {
	if len(c.Labels) == 0 || c.AtEnd {
		return 0
	}
	return i + 1
}

func (vc *VC) env(st *State) *Env {
	vars := map[string]TV{}
	for k, v := range vc.params {
		vars[k] = v
	}
	return &Env{w: vc.w, vars: vars, st: st, old: vc.entry, fresh: &vc.cnt}
}

func (vc *VC) newFrame(fn *ssa.Function, parent *frame) *frame {
	fr := &frame{id: vc.nframes, fn: fn, vals: map[ssa.Value]string{}, tup: map[ssa.Value][]string{}, parent: parent,
		loops: map[*ssa.BasicBlock]*loopInfo{}, closure: map[ssa.Value]*ssa.MakeClosure{}}
	fr.prefix = fmt.Sprintf("f%d.", vc.nframes)
	vc.nframes++
	fr.ini = vc.eff.initsOf(fn)
	return fr
}

func (vc *VC) wellTyped(n *node, T types.Type, t string) {
	if f := vc.typeFact(n.st, T, t); f != "" {
		vc.assume(n, f)
	}
}

func (vc *VC) typeFact(st *State, T types.Type, t string) string { return typeFactAt(st.alloc, T, t) }

func typeFactAt(alloc string, T types.Type, t string) string {
	switch u := types.Unalias(T).Underlying().(type) {
	case *types.Pointer, *types.Map:
		return "(and (<= (base " + t + ") " + alloc + ") (=> (= (base " + t + ") 0) (= " + t + " 0)))"
	case *types.Slice:
		return "(and (>= (slen " + t + ") 0) (<= (base (sref " + t + ")) " + alloc + ") (=> (= (sref " + t + ") 0) (= (slen " + t + ") 0)))"
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			return "(>= " + t + " 0)"
		}
	case *types.Interface:
		return "(and (=> (= (tag " + t + ") 0) (= " + t + " nilAny)) (<= (base (uI (pay " + t + "))) " + alloc + ") (>= (slen (uL (pay " + t + "))) 0) (<= (base (sref (uL (pay " + t + ")))) " + alloc + "))"
	}
	return ""
}

// ---- loops ----

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := r[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					r[s] = body
				}
				var stack []*ssa.BasicBlock
				if !body[b] {
					body[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !body[p] {
							body[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return r
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var out []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			s := b.Succs[i]
			if !seen[s] {
				dfs(s)
			}
		}
		out = append(out, b)
	}
	dfs(fn.Blocks[0])
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (vc *VC) runFrame(fr *frame, start *node) {
	loops := findLoops(fr.fn)
	order := rpo(fr.fn)
	// irreducible control flow check: every retreating edge must be a back edge
	idx := map[*ssa.BasicBlock]int{}
	for i, b := range order {
		idx[b] = i
	}
	edges := map[*ssa.BasicBlock][]*edge{}
	var mainExit *ssa.BasicBlock
	if fr.parent == nil && vc.con != nil && len(vc.con.get("cut")) > 0 {
		best := -1
		for _, b := range order {
			if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); !ok {
				continue
			}
			k := 0
			for d := b; d != nil; d = d.Idom() {
				k++
			}
			if len(b.Preds) > 1 {
				k += len(order) // the way out most paths take
			}
			if k > best {
				best, mainExit = k, b
			}
		}
		vc.lastCut, vc.startNode, vc.startAt = start, start, len(vc.cmds)
		vc.region = "R0"
	}
	passed := map[*ssa.BasicBlock]bool{}
	var prevB *ssa.BasicBlock
	cutAt := func(b *ssa.BasicBlock) bool {
		// a value merged before is still needed: the cut would forget it
		for _, pb := range order {
			if pb != b && !passed[pb] || loops[pb] != nil {
				continue
			}
			for _, in := range pb.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				for _, r := range *ph.Referrers() {
					if _, dbg := r.(*ssa.DebugRef); !dbg && !passed[r.Block()] {
						return false
					}
				}
			}
		}
		return mainExit != nil && b.Dominates(mainExit) && len(vc.nodes)-vc.lastCut.id > 8
	}
	for _, b := range order {
		var n *node
		var lst []*loopInfo
		if prevB != nil {
			passed[prevB] = true
		}
		prevB = b
		lst = append(lst, fr.lstack...)
		for _, h := range order {
			if loops[h] != nil && loops[h][b] && fr.loops[h] != nil {
				lst = append(lst, fr.loops[h])
			}
		}
		if b == fr.fn.Blocks[0] {
			n = start
		} else {
			es := edges[b]
			if len(es) == 0 {
				continue
			}
			n = vc.join(fr, es, b)
			vals := vc.mergePhis(fr, n, es, b)
			if loops[b] == nil {
				for ph, t := range vals {
					fr.vals[ph] = t
				}
				if fr.parent == nil && len(lst) == 0 && len(es) > 1 && cutAt(b) {
					n = vc.cut(fr, n, b)
				} else if len(es) > 1 {
					vc.stable(n, es, b)
				}
			} else {
				li := vc.loopHeader(fr, n, b, loops[b], vals, lst)
				fr.loops[b] = li
				lst = append(lst, li)
				n = li.nh
			}
		}
		n = vc.block(fr, n, b, lst)
		if n == nil {
			continue
		}
		last := b.Instrs[len(b.Instrs)-1]
		send := func(to *ssa.BasicBlock, cond string, which int) {
			pi := 0
			cnt := 0
			for i, p := range to.Preds {
				if p == b {
					if cnt == which {
						pi = i
						break
					}
					cnt++
					pi = i
				}
			}
			er := n.reach
			if cond != "" {
				nm := vc.gensym(fr.prefix + "e")
				er = vc.emitDef(n, nm, "Bool", "(and "+n.reach+" "+cond+")")
			}
			e := &edge{from: n, reach: er, pred: pi}
			if li := fr.loops[to]; li != nil && to.Dominates(b) {
				vc.backEdge(fr, li, e)
				return
			}
			if idx[to] <= idx[b] {
				vc.unsupported(n, "irreducible control flow", last.Pos())
				return
			}
			edges[to] = append(edges[to], e)
		}
		switch t := last.(type) {
		case *ssa.If:
			c := vc.val(fr, t.Cond)
			if b.Succs[0] == b.Succs[1] {
				send(b.Succs[0], c, 0)
				send(b.Succs[1], "(not "+c+")", 1)
			} else {
				if c != "false" {
					send(b.Succs[0], c, 0)
				}
				if c != "true" {
					send(b.Succs[1], "(not "+c+")", 0)
				}
			}
		case *ssa.Jump:
			send(b.Succs[0], "", 0)
		case *ssa.Return:
			var rs []string
			for _, r := range t.Results {
				rs = append(rs, vc.val(fr, r))
			}
			fr.exits = append(fr.exits, exitPt{n, rs})
		case *ssa.Panic:
			vc.oblige(n, "safety", vc.oname(fr, "panic"), []string{"C14"}, "(not "+n.reach+")", t.Pos(), "explicit panic reachable")
		}
	}
}

// join creates the node of a block from its incoming edges (reach and heap merge).
func (vc *VC) join(fr *frame, es []*edge, b *ssa.BasicBlock) *node {
	var ps []*node
	for _, e := range es {
		ps = append(ps, e.from)
	}
	n := vc.newNode(ps)
	if len(es) == 1 {
		n.reach = es[0].reach
		n.st = es[0].from.st.clone()
		return n
	}
	var rs []string
	for _, e := range es {
		rs = append(rs, e.reach)
	}
	n.in = rs
	n.reach = vc.emitDef(n, vc.gensym("r"), "Bool", "(or "+strings.Join(rs, " ")+")")
	vc.mergeStates(n, es)
	return n
}

func (vc *VC) mergeStates(n *node, es []*edge) {
	st := &State{heap: map[string]string{}}
	keys := map[string]bool{}
	for _, e := range es {
		for k := range e.from.st.heap {
			keys[k] = true
		}
	}
	for k := range keys {
		if strings.HasPrefix(k, "it.") {
			for _, e := range es {
				if _, ok := e.from.st.heap[k]; !ok {
					delete(keys, k) // an iterator of one branch only
					break
				}
			}
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		same := true
		for _, e := range es[1:] {
			if e.from.st.get(k) != es[0].from.st.get(k) {
				same = false
			}
		}
		if same {
			st.heap[k] = es[0].from.st.get(k)
			continue
		}
		nm := vc.gensym("h." + k)
		vc.emitDecl(n, nm, vc.compSort(k))
		for _, e := range es {
			vc.emit(n, "(assert (=> "+e.reach+" (= "+nm+" "+e.from.st.get(k)+")))")
		}
		st.heap[k] = nm
	}
	same := true
	for _, e := range es[1:] {
		if e.from.st.alloc != es[0].from.st.alloc {
			same = false
		}
	}
	if same {
		st.alloc = es[0].from.st.alloc
	} else {
		nm := vc.gensym("alloc")
		vc.emitDecl(n, nm, "Int")
		for _, e := range es {
			vc.emit(n, "(assert (=> "+e.reach+" (= "+nm+" "+e.from.st.alloc+")))")
		}
		st.alloc = nm
	}
	n.st = st
}

func (vc *VC) compSort(k string) string {
	if s, ok := vc.w.comps[k]; ok {
		return s
	}
	if s, ok := vc.symSort["comp:"+k]; ok {
		return s
	}
	if vc.w.master != nil {
		if s, ok := vc.w.master.comps[k]; ok {
			vc.w.comp(k, s)
			return s
		}
	}
	return ""
}

func (vc *VC) mergePhis(fr *frame, n *node, es []*edge, b *ssa.BasicBlock) map[*ssa.Phi]string {
	r := map[*ssa.Phi]string{}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var vs []string
		same := true
		for _, e := range es {
			v := vc.val(fr, ph.Edges[e.pred])
			vs = append(vs, v)
			if v != vs[0] {
				same = false
			}
		}
		if same {
			r[ph] = vs[0]
			continue
		}
		nm := fr.prefix + ph.Name() + ".in"
		vc.emitDecl(n, nm, vc.w.sortOf(ph.Type()))
		for i, e := range es {
			vc.emit(n, "(assert (=> "+e.reach+" (= "+nm+" "+vs[i]+")))")
		}
		r[ph] = nm
	}
	return r
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var r []*ssa.Phi
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		r = append(r, ph)
	}
	return r
}

func (vc *VC) loopHeader(fr *frame, np *node, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, pre map[*ssa.Phi]string, lst []*loopInfo) *loopInfo {
	li := &loopInfo{header: b, blocks: body, fr: fr, np: np, ord: vc.loopN}
	vc.loopN++
	li.preAt = len(vc.cmds)
	nh := vc.newNode([]*node{np})
	nh.reach = np.reach
	nh.st = np.st.clone()
	li.nh = nh
	// havoc
	eff := map[string]bool{}
	for blk := range body {
		for _, in := range blk.Instrs {
			for c := range vc.eff.instr(fr.fn, in, map[*ssa.Function]bool{}) {
				eff[c] = true
			}
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
				if ic := vc.iterComp(fr, nx.Iter); np.st.heap[ic] != "" {
					eff[ic] = true
				}
			}
		}
	}
	var ks []string
	for k := range eff {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	na := vc.gensym("alloc")
	vc.emitDecl(nh, na, "Int")
	vc.emit(nh, "(assert (>= "+na+" "+np.st.alloc+"))")
	nh.st.alloc = na
	all := ks
	ks = nil
	for _, k := range all {
		if d := vc.decide(li.key(), np, li.preAt, k); d != nil {
			nh.st.heap[k] = vc.storeAll(nh, k, np.st.get(k), d.refs)
			continue
		}
		ks = append(ks, k)
		nm := vc.gensym("h." + k)
		vc.emitDecl(nh, nm, vc.compSort(k))
		nh.st.heap[k] = nm
	}
	li.it = vc.gensym("it")
	vc.emitDecl(nh, li.it, "Int")
	vc.emit(nh, "(assert (>= "+li.it+" 0))")
	hv := map[*ssa.Phi]string{}
	for _, ph := range headerPhis(b) {
		nm := fr.prefix + ph.Name()
		vc.emitDecl(nh, nm, vc.w.sortOf(ph.Type()))
		fr.vals[ph] = nm
		hv[ph] = nm
		vc.wellTyped(nh, ph.Type(), nm)
	}
	// the function frame holds at the header: every store in this function is checked against it
	for _, k := range ks {
		if vc.frameExempt(k) || strings.HasPrefix(k, "it.") || strings.HasPrefix(k, "GV.") {
			continue
		}
		if f := vc.frameFact(nh.st.heap[k], vc.entry.get(k), vc.entry.alloc, k, vc.mods); f != "" {
			vc.assume(nh, f)
		}
	}
	// candidates
	vc.genCands(li, ks, pre, lst)
	for _, ci := range li.cands {
		t := ci.eval(hv, nh.st, li.it)
		vc.cmds = append(vc.cmds, Cmd{nh.id, "(assert (=> " + nh.reach + " " + t + "))", ci.c.id, 0})
		ti := ci.eval(pre, np.st, "0")
		vc.obls = append(vc.obls, &Oblig{id: len(vc.obls), name: fmt.Sprintf("%s/inv-init[%s]", vc.name, ci.c.name), kind: "cand", node: np.id, at: li.preAt, goal: ti, cand: ci.c.id, pos: vc.pos(b.Instrs[0].Pos())})
	}
	return li
}

// loopDec: in this loop the component changes only at refs, or in objects allocated by the loop.
type loopDec struct {
	key  string
	np   *node
	at   int
	comp string
	refs []string
}

// decide finds out whether the writes of a loop to a component are confined to locations known before the loop
// and to objects allocated in the loop. Cells of objects not allocated yet are unconstrained, so that the state
// in the loop can be written as the state before it with these locations overwritten.
func (vc *VC) decide(key string, np *node, at int, k string) *loopDec {
	if vc.prevF == nil || vc.noStore["*"] || vc.noStore[key+" "+k] || vc.frameExempt(k) || strings.HasPrefix(k, "it.") || strings.HasPrefix(k, "GV.") {
		return nil
	}
	d := &loopDec{key: key, np: np, at: at, comp: k}
	for l := range vc.prevW[key] {
		if l.comp != k {
			continue
		}
		if l.ref == "" {
			return nil
		}
		if vc.definedBefore(l.ref, np, at) {
			d.refs = append(d.refs, l.ref)
		} else if !vc.prevF[rootName(l.ref)] {
			if os.Getenv("GOVER_DECIDE") != "" {
				fmt.Println("decide", key, k, l.ref)
			}
			return nil
		}
	}
	if len(d.refs) > 6 {
		return nil
	}
	sort.Strings(d.refs)
	vc.decs = append(vc.decs, d)
	return d
}

// rootName strips the interior address functions of a reference.
func rootName(t string) string {
	for strings.HasPrefix(t, "(adr_") && strings.HasSuffix(t, ")") {
		i := strings.Index(t, " ")
		if i < 0 {
			break
		}
		t = t[i+1 : len(t)-1]
	}
	return t
}

// storeAll overwrites the given locations with unknown values.
func (vc *VC) storeAll(n *node, comp, old string, refs []string) string {
	cs := vc.compSort(comp)
	es := strings.TrimSuffix(strings.TrimPrefix(cs, "(Array Int "), ")")
	cur := old
	for _, r := range refs {
		v := vc.gensym("v." + comp)
		vc.emitDecl(n, v, es)
		nm := vc.gensym("h." + comp)
		vc.emitDecl(n, nm, cs)
		vc.emit(n, "(assert (= "+nm+" (store "+cur+" "+r+" "+v+")))")
		cur = nm
	}
	return cur
}

// wrongDecs returns the decisions the writes of this encoding contradict.
func (vc *VC) wrongDecs() []string {
	var bad []string
	for _, d := range vc.decs {
		for l := range vc.writes[d.key] {
			if l.comp != d.comp {
				continue
			}
			ok := false
			for _, r := range d.refs {
				if r == l.ref {
					ok = true
				}
			}
			rn := rootName(l.ref)
			if !ok && l.ref != "" && vc.freshs[rn] && !vc.definedBefore(rn, d.np, d.at) {
				ok = true
			}
			if !ok {
				bad = append(bad, d.key+" "+d.comp)
				break
			}
		}
	}
	return bad
}

func (vc *VC) backEdge(fr *frame, li *loopInfo, e *edge) {
	pv := map[*ssa.Phi]string{}
	for _, ph := range headerPhis(li.header) {
		pv[ph] = vc.val(fr, ph.Edges[e.pred])
	}
	n := vc.newNode([]*node{e.from})
	n.reach = e.reach
	n.st = e.from.st
	for _, ci := range li.cands {
		t := ci.eval(pv, n.st, "(+ "+li.it+" 1)")
		vc.obls = append(vc.obls, &Oblig{id: len(vc.obls), name: fmt.Sprintf("%s/inv-step[%s]", vc.name, ci.c.name), kind: "cand", node: n.id, at: len(vc.cmds), goal: t, cand: ci.c.id, pos: vc.pos(li.header.Instrs[0].Pos())})
	}
}

func (vc *VC) frameExempt(comp string) bool { return strings.HasPrefix(comp, "G.sync.") }

// frameFact: nothing that existed at alloc limit `lim` changed from old to new, except mods.
func (vc *VC) frameFact(nw, old, lim, comp string, mods []Loc) string {
	if nw == old {
		return ""
	}
	ex := ""
	for _, m := range mods {
		if m.comp == comp {
			if m.ref == "" {
				return ""
			}
			ex += " (not (= r " + m.ref + "))"
		}
	}
	return "(forall ((r Int)) (! (=> (and (<= (base r) " + lim + ")" + ex + ") (= (select " + nw + " r) (select " + old + " r))) :pattern ((select " + nw + " r))))"
}

var localRe = regexp.MustCompile(`^f[0-9]+\.`)
var symRe = regexp.MustCompile(`[A-Za-z_][A-Za-z0-9_.!^$]*`)

// definedBefore: every symbol of the term is visible at node n before command at.
func (vc *VC) definedBefore(term string, n *node, at int) bool {
	for _, s := range symRe.FindAllString(term, -1) {
		if d, ok := vc.defAt[s]; ok {
			if d >= at || !n.defs.has(vc.defNode[s]) {
				return false
			}
		} else if strings.Contains(s, "!") || localRe.MatchString(s) {
			return false // defined later
		}
	}
	return true
}

func (li *loopInfo) key() string { return fmt.Sprintf("%d.%d", li.fr.id, li.header.Index) }

func (vc *VC) addCand(li *loopInfo, name string, f func(phi map[*ssa.Phi]string, st *State, it string) string) {
	c := &Cand{id: len(vc.cands), name: name, alive: true, loop: li}
	vc.cands = append(vc.cands, c)
	li.cands = append(li.cands, &candInst{c, f})
}

// stepOf returns the constant step of an int phi along every back edge.
func stepOf(ph *ssa.Phi, body map[*ssa.BasicBlock]bool) (int64, bool) {
	var step int64
	found := false
	for i, e := range ph.Edges {
		if !body[ph.Block().Preds[i]] {
			continue
		}
		if e == ph {
			return 0, false
		}
		bo, ok := e.(*ssa.BinOp)
		if !ok || (bo.Op != token.ADD && bo.Op != token.SUB) {
			return 0, false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || bo.X != ph || c.Value == nil {
			return 0, false
		}
		s := c.Int64()
		if bo.Op == token.SUB {
			s = -s
		}
		if found && s != step {
			return 0, false
		}
		step, found = s, true
	}
	return step, found
}

func smtInt(i int64) string {
	if i < 0 {
		return fmt.Sprintf("(- %d)", -i)
	}
	return fmt.Sprint(i)
}

func (vc *VC) genCands(li *loopInfo, comps []string, pre map[*ssa.Phi]string, lst []*loopInfo) {
	w := vc.w
	fr := li.fr
	b := li.header
	phis := headerPhis(b)
	tag := fmt.Sprintf("loop%d", li.ord)
	// linear phis
	los := []string{"0"}
	for _, ph := range phis {
		ph := ph
		if w.sortOf(ph.Type()) != "Int" {
			continue
		}
		if bt, ok := ph.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 {
			continue
		}
		init := pre[ph]
		if s, ok := stepOf(ph, li.blocks); ok {
			vc.addCand(li, tag+":linear:"+ph.Name(), func(p map[*ssa.Phi]string, st *State, it string) string {
				return "(= " + p[ph] + " (+ " + init + " (* " + smtInt(s) + " " + it + ")))"
			})
			if init != "(- 1)" && init != "0" && s == 1 {
				los = append(los, init)
			}
		}
		// bounds from comparisons inside the loop
		for blk := range li.blocks {
			for _, in := range blk.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok {
					continue
				}
				var other ssa.Value
				off := false
				match := func(v ssa.Value) bool {
					if v == ph {
						return true
					}
					if a, ok := v.(*ssa.BinOp); ok && a.X == ph && a.Op == token.ADD {
						off = true
						return true
					}
					return false
				}
				if match(bo.X) {
					other = bo.Y
				} else if match(bo.Y) {
					other = bo.X
				} else {
					continue
				}
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
				default:
					continue
				}
				var ot string
				if c, ok := other.(*ssa.Const); ok {
					ot = vc.val(fr, c)
				} else if t, ok := fr.vals[other]; ok && vc.definedBefore(t, li.np, li.preAt) {
					ot = t
				} else {
					continue
				}
				_ = off
				vc.addCand(li, tag+":le:"+ph.Name()+":"+ot, func(p map[*ssa.Phi]string, st *State, it string) string {
					return "(<= " + p[ph] + " " + ot + ")"
				})
				vc.addCand(li, tag+":lt:"+ph.Name()+":"+ot, func(p map[*ssa.Phi]string, st *State, it string) string {
					return "(< " + p[ph] + " " + ot + ")"
				})
			}
		}
		vc.addCand(li, tag+":geinit:"+ph.Name(), func(p map[*ssa.Phi]string, st *State, it string) string {
			return "(>= " + p[ph] + " " + init + ")"
		})
		vc.addCand(li, tag+":leit:"+ph.Name(), func(p map[*ssa.Phi]string, st *State, it string) string {
			return "(<= " + p[ph] + " (+ " + init + " " + it + "))"
		})
	}
	// pointers: freshness of values created in the loop (relative to loop entry and function entry)
	for _, ph := range phis {
		ph := ph
		if _, ok := ph.Type().Underlying().(*types.Pointer); !ok {
			continue
		}
		vc.addCand(li, tag+":freshornil:"+ph.Name(), func(p map[*ssa.Phi]string, st *State, it string) string {
			return "(or (= " + p[ph] + " 0) (> (base " + p[ph] + ") " + vc.entry.alloc + "))"
		})
		vc.addCand(li, tag+":nonnil:"+ph.Name(), func(p map[*ssa.Phi]string, st *State, it string) string {
			return "(not (= " + p[ph] + " 0))"
		})
	}
	// heap frames relative to loop entry
	preSt := li.np.st
	for _, k := range comps {
		k := k
		if vc.frameExempt(k) || strings.HasPrefix(k, "it.") {
			continue
		}
		if strings.HasPrefix(k, "GV.") {
			vc.addCand(li, tag+":same:"+k, func(p map[*ssa.Phi]string, st *State, it string) string {
				return "(= " + st.get(k) + " " + preSt.get(k) + ")"
			})
			continue
		}
		var ex []Loc
		whole := false
		for l := range vc.prevW[li.key()] {
			if l.comp != k {
				continue
			}
			if l.ref == "" {
				whole = true
			} else if vc.definedBefore(l.ref, li.np, li.preAt) {
				ex = append(ex, l)
			}
		}
		sort.Slice(ex, func(i, j int) bool { return ex[i].ref < ex[j].ref })
		if whole {
			continue
		}
		vc.addCand(li, tag+":frame:"+k, func(p map[*ssa.Phi]string, st *State, it string) string {
			if f := vc.frameFact(st.get(k), preSt.get(k), preSt.alloc, k, ex); f != "" {
				return f
			}
			return "true"
		})
	}
	if !vc.isInit && vc.con != nil && vc.con.Kind == "func" {
		for _, g := range w.spec.SysInv {
			g := g
			vc.addCand(li, tag+":sysinv:"+g.Name, func(p map[*ssa.Phi]string, st *State, it string) string {
				return vc.env(st).boolExpr(g.E)
			})
		}
	}
	// map ranges
	for _, in := range b.Instrs {
		nx, ok := in.(*ssa.Next)
		if !ok || nx.IsString {
			continue
		}
		rg, ok := nx.Iter.(*ssa.Range)
		if !ok {
			continue
		}
		mt := rg.X.Type()
		d, _, _ := w.mapComps(mt)
		ic := vc.iterComp(fr, nx.Iter)
		ks := w.sortOf(mt.Underlying().(*types.Map).Key())
		m := vc.val(fr, rg.X)
		vc.addCand(li, tag+":visited-in-map", func(p map[*ssa.Phi]string, st *State, it string) string {
			return "(forall ((k " + ks + ")) (! (=> (select " + st.get(ic) + " k) (select (select " + st.get(d) + " " + m + ") k)) :pattern ((select " + st.get(ic) + " k))))"
		})
	}
	// spec templates
	if vc.con == nil {
		return
	}
	for ci, c := range vc.con.get("inv") {
		c := c
		var insts []map[string]func(p map[*ssa.Phi]string) TV
		insts = append(insts, map[string]func(p map[*ssa.Phi]string) TV{})
		okc := true
		for _, bd := range c.Bind {
			bd := bd
			var opts []func(p map[*ssa.Phi]string) TV
			if bd.Type == "start" {
				for _, lo := range los {
					lo := lo
					opts = append(opts, func(p map[*ssa.Phi]string) TV { return iTV(lo) })
				}
			} else if kind, ty := binderKind(bd.Type); kind != "" {
				T, S := w.resolveType(ty)
				for _, t := range vc.binderVals(li, kind, T, lst) {
					tv := TV{T, S, t}
					opts = append(opts, func(p map[*ssa.Phi]string) TV { return tv })
				}
			} else {
				T, S := w.resolveType(bd.Type)
				for _, ph := range phis {
					ph := ph
					if w.sortOf(ph.Type()) == S && (T == nil || types.Identical(types.Unalias(T), types.Unalias(ph.Type()))) {
						opts = append(opts, func(p map[*ssa.Phi]string) TV { return TV{ph.Type(), S, p[ph]} })
					}
				}
			}
			if len(opts) == 0 {
				okc = false
				break
			}
			var ni []map[string]func(p map[*ssa.Phi]string) TV
			for _, in := range insts {
				for _, o := range opts {
					m := map[string]func(p map[*ssa.Phi]string) TV{}
					for k, v := range in {
						m[k] = v
					}
					m[bd.Name] = o
					ni = append(ni, m)
				}
			}
			insts = ni
		}
		if !okc {
			continue
		}
		visComp, visSort := "", ""
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
				visComp = vc.iterComp(fr, nx.Iter)
				visSort = vc.compSort(visComp)
			}
		}
		ovComp, ovSort := "", ""
		for _, o := range lst {
			for ob := range o.blocks {
				for _, in := range ob.Instrs {
					if nx, ok := in.(*ssa.Next); ok && !nx.IsString && !li.blocks[ob] {
						ovComp = vc.iterComp(o.fr, nx.Iter)
						ovSort = vc.compSort(ovComp)
					}
				}
			}
		}
		uses := exprIdents(c.E)
		if uses["ovisited"] && ovComp == "" {
			continue
		}
		if uses["visited"] && visComp == "" || uses["it"] && visComp != "" && !uses["visited"] && false {
			continue
		}
		// pre-check that the template evaluates
		for k, in := range insts {
			in := in
			ev := func(p map[*ssa.Phi]string, st *State, it string) string {
				env := vc.env(st)
				env.pre = preSt
				for n, f := range in {
					env.vars[n] = f(p)
				}
				env.vars["it"] = iTV(it)
				if ovComp != "" {
					env.vars["ovisited"] = TV{nil, ovSort, st.get(ovComp)}
				}
				if visComp != "" {
					env.vars["visited"] = TV{nil, visSort, st.get(visComp)}
				}
				return env.boolExpr(c.E)
			}
			txt := ""
			if !tryEval(func() { txt = ev(pre, preSt, "0") }) {
				continue
			}
			if vc.prevW != nil && len(vc.con.get("cut")) > 0 && (vc.notInLoop(li, txt) || !vc.aboutFields(txt)) {
				continue
			}
			vc.addCand(li, fmt.Sprintf("%s:inv%d.%d", tag, ci+1, k), ev)
		}
	}
}

func binderKind(s string) (string, string) {
	for _, k := range []string{"over", "local", "outer"} {
		if strings.HasPrefix(s, k) {
			return k, s[len(k):]
		}
	}
	return "", s
}

// binderVals lists the terms a template binder may stand for:
// over: the slices indexed inside the loop; local: objects made before the loop in the same
// function; outer: the keys of enclosing map loops.
func (vc *VC) binderVals(li *loopInfo, kind string, T types.Type, lst []*loopInfo) []string {
	var r []string
	seen := map[string]bool{}
	add := func(fr *frame, v ssa.Value) {
		if T != nil && !types.Identical(types.Unalias(T), types.Unalias(v.Type())) {
			return
		}
		t, ok := fr.vals[v]
		if !ok || seen[t] || !vc.definedBefore(t, li.np, li.preAt) {
			return
		}
		seen[t] = true
		r = append(r, t)
	}
	switch kind {
	case "over":
		var bs []*ssa.BasicBlock
		for b := range li.blocks {
			bs = append(bs, b)
		}
		sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
		for _, b := range bs {
			for _, in := range b.Instrs {
				if ix, ok := in.(*ssa.IndexAddr); ok {
					add(li.fr, ix.X)
				}
				if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
					add(li.fr, nx.Iter.(*ssa.Range).X)
				}
			}
		}
	case "local":
		for _, b := range li.fr.fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.MakeMap:
					add(li.fr, v)
				case *ssa.Alloc:
					add(li.fr, v)
				case *ssa.Call:
					add(li.fr, v)
				}
			}
		}
		for _, p := range li.fr.fn.Params {
			add(li.fr, p)
		}
	case "outer":
		for _, o := range lst {
			for b := range o.blocks {
				for _, in := range b.Instrs {
					if nx, ok := in.(*ssa.Next); ok && !nx.IsString {
						if T != nil && types.Identical(types.Unalias(T), types.Unalias(nx.Iter.(*ssa.Range).X.Type())) {
							add(o.fr, nx.Iter.(*ssa.Range).X)
						}
						if t := o.fr.tup[nx]; len(t) == 3 && vc.definedBefore(t[1], li.np, li.preAt) {
							mt := nx.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
							if T == nil || types.Identical(T, mt.Key()) {
								if !seen[t[1]] {
									seen[t[1]] = true
									r = append(r, t[1])
								}
							}
						}
					}
				}
			}
		}
	}
	return r
}

func tryEval(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if se, is := r.(specErr); is {
				if debugSpec {
					fmt.Println("template skipped:", se.msg)
				}
				ok = false
				return
			}
			panic(r)
		}
	}()
	f()
	return true
}

var debugSpec bool

func exprIdents(e *Expr) map[string]bool {
	r := map[string]bool{}
	var walk func(e *Expr)
	walk = func(e *Expr) {
		if e.Op == "ident" {
			r[e.Name] = true
		}
		for _, a := range e.Args {
			walk(a)
		}
		for _, t := range e.Trig {
			for _, a := range t {
				walk(a)
			}
		}
	}
	walk(e)
	return r
}

func (vc *VC) iterComp(fr *frame, it ssa.Value) string {
	k := "it." + fr.prefix + it.Name()
	if _, ok := vc.symSort["comp:"+k]; !ok {
		rg := it.(*ssa.Range)
		ks := "Int"
		if mt, ok := rg.X.Type().Underlying().(*types.Map); ok {
			ks = vc.w.sortOf(mt.Key())
		}
		vc.symSort["comp:"+k] = "(Array " + ks + " Bool)"
	}
	return k
}

// ---- values ----

func (vc *VC) val(fr *frame, v ssa.Value) string {
	switch c := v.(type) {
	case *ssa.Const:
		t := vc.w.constTerm(c.Value, c.Type())
		if strings.HasPrefix(t, "lit") {
			if vc.usedLit == nil {
				vc.usedLit = map[string]bool{}
			}
			vc.usedLit[t] = true
		}
		return t
	case *ssa.Global:
		return vc.w.global(c.Name())
	case *ssa.Function:
		return vc.w.global("func_" + sanitize(c.String()))
	case *ssa.Builtin:
		return "0"
	}
	if t, ok := fr.vals[v]; ok {
		return t
	}
	switch a := v.(type) {
	case *ssa.FieldAddr:
		st := deref(a.X.Type())
		t := vc.w.interior(st, a.Field, vc.val(fr, a.X))
		return t
	}
	panic(specErr{fmt.Sprintf("value %s = %s has no term in %s", v.Name(), v.String(), fr.fn.Name())})
}

type aloc struct {
	kind int // 0 cell, 1 element, 2 struct, 3 field of an opaque value
	comp string
	ref  string
	idx  string
	T    types.Type // type of the location
	path []pathStep // inside an element
}
type pathStep struct {
	S string
	T types.Type
	i int
}

func (vc *VC) addr(fr *frame, v ssa.Value) aloc {
	w := vc.w
	el := deref(v.Type())
	switch a := v.(type) {
	case *ssa.FieldAddr:
		st := deref(a.X.Type())
		ft := st.Underlying().(*types.Struct).Field(a.Field).Type()
		if ix := elemRoot(a); ix != nil {
			l := vc.addr(fr, a.X)
			l.path = append(append([]pathStep{}, l.path...), pathStep{w.sortOf(st), st, a.Field})
			l.T = ft
			return l
		}
		ref := vc.val(fr, a.X)
		if w.p.transparent(ft) {
			return aloc{kind: 2, ref: w.interior(st, a.Field, ref), T: ft}
		}
		if w.valueMode(st) {
			return aloc{kind: 3, comp: w.cellComp(st), ref: ref, T: ft, path: []pathStep{{"", st, a.Field}}}
		}
		c, r := w.fieldLoc(st, a.Field, ref)
		return aloc{kind: 0, comp: c, ref: r, T: ft}
	case *ssa.IndexAddr:
		et := elemType(a.X.Type())
		x := vc.val(fr, a.X)
		if _, ok := a.X.Type().Underlying().(*types.Slice); ok {
			x = "(sref " + x + ")"
		}
		return aloc{kind: 1, comp: w.memComp(et), ref: x, idx: vc.val(fr, a.Index), T: et}
	}
	ref := vc.val(fr, v)
	if w.p.transparent(el) {
		return aloc{kind: 2, ref: ref, T: el}
	}
	return aloc{kind: 0, comp: w.cellComp(el), ref: ref, T: el}
}

func (vc *VC) load(st *State, l aloc) string {
	w := vc.w
	switch l.kind {
	case 0:
		return "(select " + st.get(l.comp) + " " + l.ref + ")"
	case 1:
		t := "(select (select " + st.get(l.comp) + " " + l.ref + ") " + l.idx + ")"
		for _, p := range l.path {
			t = "(" + p.S + "." + p.T.Underlying().(*types.Struct).Field(p.i).Name() + " " + t + ")"
		}
		return t
	case 2:
		return w.loadAt(st, l.T, l.ref)
	case 3:
		return "(" + w.opqField(l.path[0].T, l.path[0].i) + " (select " + st.get(l.comp) + " " + l.ref + "))"
	}
	return ""
}

// store performs a checked store.
func (vc *VC) store(fr *frame, n *node, l aloc, val string, pos token.Pos, lst []*loopInfo) {
	w := vc.w
	switch l.kind {
	case 0:
		vc.write(fr, n, Loc{l.comp, l.ref}, val, pos, lst)
	case 1:
		row := "(select " + n.st.get(l.comp) + " " + l.ref + ")"
		nv := val
		if len(l.path) > 0 {
			nv = vc.structUpdate("(select "+row+" "+l.idx+")", l.path, val)
		}
		vc.write(fr, n, Loc{l.comp, l.ref}, "(store "+row+" "+l.idx+" "+nv+")", pos, lst)
	case 2:
		st := l.T.Underlying().(*types.Struct)
		S := w.sortOf(l.T)
		for i := 0; i < st.NumFields(); i++ {
			fv := "(" + S + "." + st.Field(i).Name() + " " + val + ")"
			ft := st.Field(i).Type()
			if w.p.transparent(ft) {
				vc.store(fr, n, aloc{kind: 2, ref: w.interior(l.T, i, l.ref), T: ft}, fv, pos, lst)
				continue
			}
			c, r := w.fieldLoc(l.T, i, l.ref)
			vc.write(fr, n, Loc{c, r}, fv, pos, lst)
		}
	case 3:
		nm := vc.gensym("opq")
		vc.emitDecl(n, nm, "Opq")
		acc := w.opqField(l.path[0].T, l.path[0].i)
		vc.assume(n, "(= ("+acc+" "+nm+") "+val+")")
		vc.write(fr, n, Loc{l.comp, l.ref}, nm, pos, lst)
	}
}

func (vc *VC) structUpdate(cur string, path []pathStep, val string) string {
	p := path[0]
	st := p.T.Underlying().(*types.Struct)
	out := "(mk_" + p.S
	for i := 0; i < st.NumFields(); i++ {
		f := "(" + p.S + "." + st.Field(i).Name() + " " + cur + ")"
		if i == p.i {
			if len(path) == 1 {
				f = val
			} else {
				f = vc.structUpdate(f, path[1:], val)
			}
		}
		out += " " + f
	}
	return out + ")"
}

func (vc *VC) recordWrite(lst []*loopInfo, l Loc) {
	rec := func(key string) {
		m := vc.writes[key]
		if m == nil {
			m = map[Loc]bool{}
			vc.writes[key] = m
		}
		m[l] = true
	}
	for _, li := range lst {
		rec(li.key())
	}
	if vc.region != "" {
		rec(vc.region)
	}
}

// stable offers the stable clauses of the contract as lemmas where control flow joins: one that is proved there
// is used afterwards, one that is not is dropped (the postconditions decide).
func (vc *VC) stable(n *node, es []*edge, b *ssa.BasicBlock) {
	if vc.con == nil {
		return
	}
	cs := vc.con.get("stable")
	if len(cs) == 0 {
		return
	}
	same := true
	for _, k := range sortedKeysS(n.st.heap) {
		for _, e := range es {
			if e.from.st.get(k) != es[0].from.st.get(k) {
				same = false
			}
		}
	}
	if same {
		return
	}
	at := len(vc.cmds)
	for i, c := range cs {
		f := vc.env(n.st).boolExpr(c.E)
		cd := &Cand{id: len(vc.cands), name: fmt.Sprintf("stable%d@%d", i+1, b.Index), alive: true}
		vc.cands = append(vc.cands, cd)
		vc.obls = append(vc.obls, &Oblig{id: len(vc.obls), name: fmt.Sprintf("%s/%s", vc.name, cd.name), kind: "cand", node: n.id, at: at, goal: f, cand: cd.id, pos: vc.pos(b.Instrs[0].Pos())})
		vc.cmds = append(vc.cmds, Cmd{n.id, "(assert (=> " + n.reach + " " + f + "))", cd.id, 0})
	}
}

// notInLoop tells that the struct fields a formula is about are not written in the loop, so that it need not be
// carried through it (an economy, for functions with cuts).
func (vc *VC) notInLoop(li *loopInfo, g string) bool {
	seen := false
	for l := range vc.prevW[li.key()] {
		if (strings.HasPrefix(l.comp, "D.") || strings.HasPrefix(l.comp, "V.")) && strings.Contains(g, "h."+l.comp) {
			return false
		}
	}
	for _, m := range reField.FindAllStringSubmatch(g, -1) {
		switch m[2] {
		case "draft", "id", "ref", "parent", "property", "src":
			continue
		}
		if !strings.HasPrefix(m[1], "F.subSchema.") && !strings.HasPrefix(m[1], "F.jsonSchemaType.") {
			continue
		}
		seen = true
		for l := range vc.prevW[li.key()] {
			if l.comp == m[1] && vc.definedBefore(rootName(l.ref), vc.startNode, vc.startAt) {
				return false
			}
		}
	}
	return seen
}

// aboutFields tells that a formula mentions a field (or Good) that a clause of the property being decided is about,
// or no field at all.
func (vc *VC) aboutFields(g string) bool {
	if selProp == "" {
		return true
	}
	if vc.relFields == nil {
		vc.relFields = map[string]bool{}
		e := vc.env(vc.entry)
		e.old = vc.entry
		sig := vc.fn.Signature.Results()
		for i, r := range vc.con.Rets {
			T := sig.At(i).Type()
			e.vars[r] = TV{T, vc.w.sortOf(T), "rel!result"}
		}
		for _, kind := range []string{"ensures", "use"} {
			for _, c := range vc.con.get(kind) {
				if !relevant(c) {
					continue
				}
				for _, f := range fieldTokens(e.boolExpr(c.E)) {
					vc.relFields[f] = true
				}
			}
		}
	}
	toks := fieldTokens(g)
	for _, f := range toks {
		if vc.relFields[f] {
			return true
		}
	}
	return len(toks) == 0
}

func fieldTokens(g string) []string {
	var r []string
	for _, m := range reField.FindAllStringSubmatch(g, -1) {
		switch m[2] {
		case "draft", "id", "ref", "parent", "property", "src":
			continue
		}
		if strings.HasPrefix(m[1], "F.subSchema.") || strings.HasPrefix(m[1], "F.jsonSchemaType.") {
			r = append(r, m[1])
		}
	}
	if strings.Contains(g, "(u_Good ") {
		r = append(r, "u_Good")
	}
	return r
}

// selProp: the property being decided; facts that only serve other properties are left out of long functions.
var selProp string

func relevant(c *Clause) bool {
	return selProp == "" || len(c.Labels) == 0 || contains(c.Labels, selProp) || contains(c.Support, selProp)
}

// helps tells that a clause is tried as an intermediate fact only in the property being decided.
func helps(c *Clause) bool {
	return selProp != "" && len(c.Labels) > 0 && !contains(c.Labels, selProp) && contains(c.Support, selProp)
}

// writtenSoFar lists the locations known at the entry that were written to a component up to this point; everything
// else that was written belongs to objects allocated since.
func (vc *VC) writtenSoFar(k string) ([]string, bool) {
	if vc.noStore["*"] || vc.frameExempt(k) || strings.HasPrefix(k, "it.") || strings.HasPrefix(k, "GV.") {
		return nil, false
	}
	var refs []string
	for l := range vc.writes[vc.region] {
		if l.comp != k {
			continue
		}
		if l.ref == "" {
			return nil, false
		}
		if vc.definedBefore(l.ref, vc.startNode, vc.startAt) {
			refs = append(refs, l.ref)
		} else if !vc.freshs[rootName(l.ref)] {
			return nil, false
		}
	}
	sort.Strings(refs)
	return refs, len(refs) <= 6
}

// untouched tells that the struct fields a formula is about have not been written since the entry, so that it
// cannot have become true on the way (an economy: such candidates are not tried).
func (vc *VC) untouched(g string) bool {
	lits, used := false, false
	for _, l := range reLit.FindAllString(g, -1) {
		if l != vc.w.lit("$ref") {
			lits = true
			used = used || vc.usedLit[l]
		}
	}
	if lits && !used {
		return true
	}
	if strings.Contains(g, "h.D.") || strings.Contains(g, "h.V.") {
		return false
	}
	seen := false
	for _, m := range reField.FindAllStringSubmatch(g, -1) {
		switch m[2] {
		case "draft", "id", "ref", "parent", "property", "src":
			continue
		}
		seen = true
		for l := range vc.writes[vc.region] {
			if l.comp == m[1] && vc.definedBefore(rootName(l.ref), vc.startNode, vc.startAt) {
				return false
			}
		}
	}
	return seen
}

var reLit = regexp.MustCompile(`\blit\d+\b`)

var reField = regexp.MustCompile(`[Hh]0?\.(F\.\w+\.(\w+))`)

// cut forgets how the point was reached: what follows is verified from the preconditions and the candidates
// that hold here (the cut clauses of the contract, and its postconditions as far as they are established).
func (vc *VC) cut(fr *frame, np *node, b *ssa.BasicBlock) *node {
	entry := vc.nodes[0]
	at := len(vc.cmds)
	nh := vc.newNode([]*node{np})
	nh.isCut = true
	nh.anc = bitset{}
	nh.anc.or(entry.anc)
	nh.anc.set(nh.id)
	nh.reach = "true"
	nh.st = np.st.clone()
	na := vc.gensym("alloc")
	vc.emitDecl(nh, na, "Int")
	vc.emit(nh, "(assert (>= "+na+" "+vc.entry.alloc+"))")
	nh.st.alloc = na
	for _, k := range sortedKeysS(np.st.heap) {
		old := vc.entry.get(k)
		if np.st.heap[k] == old {
			continue
		}
		if refs, ok := vc.writtenSoFar(k); ok {
			nh.st.heap[k] = vc.storeAll(nh, k, old, refs)
			continue
		}
		nm := vc.gensym("h." + k)
		vc.emitDecl(nh, nm, vc.compSort(k))
		nh.st.heap[k] = nm
		if vc.frameExempt(k) || strings.HasPrefix(k, "it.") || strings.HasPrefix(k, "GV.") {
			continue
		}
		if f := vc.frameFact(nm, vc.entry.get(k), vc.entry.alloc, k, vc.mods); f != "" {
			vc.assume(nh, f)
		}
	}
	add := func(name string, ens int, eval func(st *State) string) {
		if g := eval(np.st); g == "true" || strings.Contains(name, ":ens") && vc.untouched(g) {
			return
		}
		c := &Cand{id: len(vc.cands), name: name, alive: true}
		vc.cands = append(vc.cands, c)
		vc.cmds = append(vc.cmds, Cmd{nh.id, "(assert " + eval(nh.st) + ")", c.id, ens})
		vc.obls = append(vc.obls, &Oblig{id: len(vc.obls), name: fmt.Sprintf("%s/cut[%s]", vc.name, name), kind: "cand", node: np.id, at: at, goal: eval(np.st), cand: c.id, ens: ens, pos: vc.pos(b.Instrs[0].Pos())})
	}
	tag := fmt.Sprintf("cut%d", len(vc.cutPos))
	vc.cutPos = append(vc.cutPos, at)
	for i, c := range vc.con.get("cut") {
		c := c
		add(fmt.Sprintf("%s:cut%d", tag, i+1), 0, func(st *State) string { return vc.env(st).boolExpr(c.E) })
	}
	sig := vc.fn.Signature.Results()
	if sig.Len() == 1 && len(vc.con.Rets) == 1 && vc.w.sortOf(sig.At(0).Type()) == "Any" {
		for i, c := range vc.con.get("ensures") {
			c := c
			if c.AtEnd || !relevant(c) {
				continue
			}
			add(fmt.Sprintf("%s:ens%d", tag, i+1), ensTag(c, i), func(st *State) string {
				e := vc.env(st)
				e.vars[vc.con.Rets[0]] = TV{sig.At(0).Type(), "Any", "nilAny"}
				return e.boolExpr(c.E)
			})
		}
	}
	if vc.con.Kind == "func" {
		for _, g := range vc.w.spec.SysInv {
			g := g
			add(tag+":"+g.Name, 0, func(st *State) string { return vc.env(st).boolExpr(g.E) })
		}
	}
	vc.lastCut = nh
	return nh
}

func sortedKeysS(m map[string]string) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// inMods: the location may be modified by this function
func (vc *VC) inMods(l Loc) string {
	ors := "(> (base " + l.ref + ") " + vc.entry.alloc + ")"
	for _, m := range vc.mods {
		if m.comp == l.comp {
			if m.ref == "" || m.ref == l.ref {
				return "true"
			}
			ors += " (= " + l.ref + " " + m.ref + ")"
		}
	}
	return "(or " + ors + ")"
}

func (vc *VC) write(fr *frame, n *node, l Loc, val string, pos token.Pos, lst []*loopInfo) {
	vc.recordWrite(lst, l)
	if !vc.isInit && vc.con != nil {
		vc.oblige(n, "frame", vc.oname(fr, "frame:"+l.comp), []string{"C13"}, vc.inMods(l), pos, "store outside the modifies clause: "+l.comp)
	}
	nm := vc.gensym("h." + l.comp)
	vc.emitDecl(n, nm, vc.compSort(l.comp))
	vc.emit(n, "(assert (= "+nm+" (store "+n.st.get(l.comp)+" "+l.ref+" "+val+")))")
	n.st.heap[l.comp] = nm
}

func (vc *VC) oname(fr *frame, k string) string {
	s := vc.name + "/" + k
	if fr.parent != nil {
		s += " (in " + fr.fn.Name() + ")"
	}
	return s
}

func (vc *VC) setVal(fr *frame, n *node, v ssa.Value, body string) string {
	nm := fr.prefix + v.Name()
	S := vc.w.sortOf(v.Type())
	fr.vals[v] = vc.emitDef(n, nm, S, body)
	return nm
}

func (vc *VC) freshVal(fr *frame, n *node, v ssa.Value) string {
	nm := fr.prefix + v.Name()
	vc.emitDecl(n, nm, vc.w.sortOf(v.Type()))
	fr.vals[v] = nm
	vc.wellTyped(n, v.Type(), nm)
	return nm
}

func knownNonNil(v ssa.Value) bool {
	switch a := v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.MakeMap, *ssa.Function, *ssa.MakeClosure, *ssa.MakeSlice:
		return true
	case *ssa.FieldAddr:
		return true
	case *ssa.IndexAddr:
		return true
	case *ssa.ChangeType:
		return knownNonNil(a.X)
	}
	return false
}

func (vc *VC) nilCheck(fr *frame, n *node, v ssa.Value, pos token.Pos) {
	if knownNonNil(v) {
		vc.trivial++
		return
	}
	vc.oblige(n, "safety", vc.oname(fr, "nil-dereference"), []string{"C14"}, "(not (= "+vc.val(fr, v)+" 0))", pos, "nil dereference of "+v.Name()+" = "+v.String())
}

// allocate a fresh reference
func (vc *VC) fresh(n *node, name string) string {
	vc.freshs[name] = true
	vc.emitDef(n, name, "Int", "(+ "+n.st.alloc+" 1)")
	vc.emit(n, "(assert (= (base "+name+") "+name+"))")
	n.st.alloc = name
	return name
}

func (vc *VC) zeroInit(n *node, T types.Type, ref string, prefix string, done map[string]bool) {
	w := vc.w
	if w.p.transparent(T) {
		st := T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			key := prefix + "." + st.Field(i).Name()
			if done[key] {
				continue
			}
			ft := st.Field(i).Type()
			if w.p.transparent(ft) {
				vc.zeroInit(n, ft, w.interior(T, i, ref), key, done)
				continue
			}
			c, r := w.fieldLoc(T, i, ref)
			vc.assume(n, "(= (select "+n.st.get(c)+" "+r+") "+w.zero(ft)+")")
		}
		return
	}
	if done[prefix] {
		return
	}
	if at, ok := T.Underlying().(*types.Array); ok {
		c := w.memComp(at.Elem())
		if at.Len() <= 64 {
			for i := int64(0); i < at.Len(); i++ {
				if done[fmt.Sprintf("%s[%d]", prefix, i)] {
					continue
				}
				part := false
				for k := range done {
					if strings.HasPrefix(k, fmt.Sprintf("%s[%d].", prefix, i)) {
						part = true
					}
				}
				if part {
					continue // fields initialised one by one; missing fields unconstrained
				}
				vc.assume(n, fmt.Sprintf("(= (select (select %s %s) %d) %s)", n.st.get(c), ref, i, w.zero(at.Elem())))
			}
		}
		return
	}
	c := w.cellComp(T)
	vc.assume(n, "(= (select "+n.st.get(c)+" "+ref+") "+w.zero(T)+")")
	for _, g := range w.spec.GFields {
		if g.Type == tkey(T) {
			_, g.Sort = w.resolveType(g.TStr)
			gc := w.ghostComp(g)
			vc.assume(n, "(= (select "+n.st.get(gc)+" "+ref+") "+w.zeroSort(g.Sort, nil)+")")
		}
	}
}

func (vc *VC) block(fr *frame, n *node, b *ssa.BasicBlock, lst []*loopInfo) *node {
	for _, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		n = vc.instr(fr, n, in, lst)
		if n == nil {
			return nil
		}
	}
	return n
}

func (vc *VC) instr(fr *frame, n *node, in ssa.Instruction, lst []*loopInfo) *node {
	w := vc.w
	switch v := in.(type) {
	case *ssa.DebugRef, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
	case *ssa.Alloc:
		nm := fr.prefix + v.Name()
		vc.fresh(n, nm)
		fr.vals[v] = nm
		vc.zeroInit(n, deref(v.Type()), nm, "", fr.ini.keys[v])
	case *ssa.FieldAddr:
		if elemRoot(v) == nil {
			vc.nilCheck(fr, n, v.X, v.Pos())
		}
	case *ssa.IndexAddr:
		i := vc.val(fr, v.Index)
		var ln string
		switch u := v.X.Type().Underlying().(type) {
		case *types.Slice:
			ln = "(slen " + vc.val(fr, v.X) + ")"
		case *types.Pointer:
			ln = fmt.Sprint(u.Elem().Underlying().(*types.Array).Len())
			if c, ok := v.Index.(*ssa.Const); ok && c.Int64() < u.Elem().Underlying().(*types.Array).Len() {
				return n
			}
		}
		vc.oblige(n, "safety", vc.oname(fr, "index-range"), []string{"C14"}, "(and (<= 0 "+i+") (< "+i+" "+ln+"))", v.Pos(), "index out of range")
	case *ssa.UnOp:
		vc.unop(fr, n, v)
	case *ssa.Store:
		if v.Addr != nil {
			if elemRoot(v.Addr) == nil {
				if _, ok := v.Addr.(*ssa.FieldAddr); !ok {
					vc.nilCheck(fr, n, v.Addr, v.Pos())
				}
			}
			val := vc.val(fr, v.Val)
			l := vc.addr(fr, v.Addr)
			if fr.ini.stores[v] {
				vc.assume(n, "(= "+vc.load(n.st, l)+" "+val+")")
			} else if isArr(l.T) {
				vc.unsupported(n, "array store", v.Pos())
			} else {
				vc.store(fr, n, l, val, v.Pos(), lst)
			}
		}
	case *ssa.BinOp:
		vc.binop(fr, n, v)
	case *ssa.Field:
		st := v.X.Type()
		if w.p.transparent(st) {
			vc.setVal(fr, n, v, "("+w.sortOf(st)+"."+st.Underlying().(*types.Struct).Field(v.Field).Name()+" "+vc.val(fr, v.X)+")")
		} else {
			vc.setVal(fr, n, v, "("+w.opqField(st, v.Field)+" "+vc.val(fr, v.X)+")")
		}
		vc.wellTyped(n, v.Type(), fr.vals[v])
	case *ssa.MakeInterface:
		vc.setVal(fr, n, v, w.box(v.X.Type(), vc.val(fr, v.X)))
	case *ssa.ChangeInterface:
		fr.vals[v] = vc.val(fr, v.X)
	case *ssa.ChangeType:
		fr.vals[v] = vc.val(fr, v.X)
		if c, ok := fr.closure[v.X]; ok {
			fr.closure[v] = c
		}
	case *ssa.Convert:
		vc.convert(fr, n, v)
	case *ssa.TypeAssert:
		vc.typeAssert(fr, n, v)
	case *ssa.Extract:
		ts := fr.tup[v.Tuple]
		if ts == nil || v.Index >= len(ts) {
			vc.freshVal(fr, n, v)
		} else {
			fr.vals[v] = ts[v.Index]
		}
	case *ssa.MakeMap:
		nm := fr.prefix + v.Name()
		vc.fresh(n, nm)
		fr.vals[v] = nm
		if !fr.ini.mmade[v] {
			d, _, _ := w.mapComps(v.Type())
			ks := w.sortOf(v.Type().Underlying().(*types.Map).Key())
			vc.assume(n, "(= (select "+n.st.get(d)+" "+nm+") ((as const (Array "+ks+" Bool)) false))")
		}
	case *ssa.MapUpdate:
		n = vc.mapUpdate(fr, n, v, lst)
	case *ssa.Lookup:
		vc.lookup(fr, n, v)
	case *ssa.Range:
		if _, ok := v.X.Type().Underlying().(*types.Map); ok {
			ic := vc.iterComp(fr, v)
			n.st.heap[ic] = "((as const " + vc.compSort(ic) + ") false)"
			vc.guardCheck(fr, n, v.X.Type(), false, v.Pos())
		}
		fr.vals[v] = "0"
		// remember the domain at the start of the iteration
		if _, ok := v.X.Type().Underlying().(*types.Map); ok {
			d, _, _ := w.mapComps(v.X.Type())
			nm := fr.prefix + v.Name() + ".dom"
			ks := w.sortOf(v.X.Type().Underlying().(*types.Map).Key())
			vc.emitDef(n, nm, "(Array "+ks+" Bool)", "(select "+n.st.get(d)+" "+vc.val(fr, v.X)+")")
		}
	case *ssa.Next:
		vc.next(fr, n, v)
	case *ssa.MakeSlice:
		nm := fr.prefix + v.Name()
		r := vc.fresh(n, nm+".ref")
		vc.setVal(fr, n, v, "(mkSlice "+r+" "+vc.val(fr, v.Len)+")")
		vc.oblige(n, "safety", vc.oname(fr, "makeslice"), []string{"C14"}, "(>= "+vc.val(fr, v.Len)+" 0)", v.Pos(), "negative slice length")
		et := elemType(v.Type())
		c := w.memComp(et)
		vc.assume(n, "(forall ((i Int)) (! (=> (and (<= 0 i) (< i "+vc.val(fr, v.Len)+")) (= (select (select "+n.st.get(c)+" "+r+") i) "+w.zero(et)+")) :pattern ((select (select "+n.st.get(c)+" "+r+") i))))")
	case *ssa.Slice:
		vc.slice(fr, n, v)
	case *ssa.MakeClosure:
		nm := fr.prefix + v.Name()
		vc.fresh(n, nm)
		fr.vals[v] = nm
		fr.closure[v] = v
	case *ssa.Call:
		return vc.call(fr, n, v, v.Common(), v, lst)
	case *ssa.Defer:
		fr.defers = append(fr.defers, deferred{n, v.Block(), v})
		for _, a := range v.Call.Args {
			_ = a
		}
	case *ssa.RunDefers:
		for i := len(fr.defers) - 1; i >= 0; i-- {
			d := fr.defers[i]
			if !d.blk.Dominates(v.Block()) {
				if !n.defs.has(d.n.id) {
					continue
				}
				vc.unsupported(n, "conditional defer", v.Pos())
				continue
			}
			n = vc.call(fr, n, d.d, d.d.Common(), nil, lst)
			if n == nil {
				return nil
			}
		}
	case *ssa.Index:
		vc.freshVal(fr, n, v)
	default:
		vc.unsupported(n, fmt.Sprintf("%T", in), in.Pos())
		if val, ok := in.(ssa.Value); ok {
			if _, isT := val.Type().(*types.Tuple); !isT {
				vc.freshVal(fr, n, val)
			}
		}
	}
	return n
}

func (vc *VC) unop(fr *frame, n *node, v *ssa.UnOp) {
	switch v.Op {
	case token.MUL:
		if elemRoot(v.X) == nil {
			if _, ok := v.X.(*ssa.FieldAddr); !ok {
				vc.nilCheck(fr, n, v.X, v.Pos())
			}
		}
		l := vc.addr(fr, v.X)
		if isArr(l.T) {
			vc.unsupported(n, "array load", v.Pos())
			vc.freshVal(fr, n, v)
			return
		}
		lt := vc.load(n.st, l)
		vc.setVal(fr, n, v, lt)
		vc.wellTyped(n, v.Type(), fr.vals[v])
	case token.NOT:
		vc.setVal(fr, n, v, "(not "+vc.val(fr, v.X)+")")
	case token.SUB:
		if vc.w.sortOf(v.Type()) == "Int" {
			vc.setVal(fr, n, v, "(- "+vc.val(fr, v.X)+")")
			return
		}
		vc.freshVal(fr, n, v)
	default:
		vc.unsupported(n, "operator "+v.Op.String(), v.Pos())
		vc.freshVal(fr, n, v)
	}
}

func (vc *VC) binop(fr *frame, n *node, v *ssa.BinOp) {
	a, b := vc.val(fr, v.X), vc.val(fr, v.Y)
	S := vc.w.sortOf(v.X.Type())
	// comparisons of slices, maps and functions with nil
	if S == "Slice" && (v.Op == token.EQL || v.Op == token.NEQ) {
		t := "(= (sref " + a + ") (sref " + b + "))"
		if v.Op == token.NEQ {
			t = "(not " + t + ")"
		}
		vc.setVal(fr, n, v, t)
		return
	}
	if S == "Any" || vc.w.sortOf(v.Y.Type()) == "Any" {
		if S != "Any" {
			a = vc.w.box(v.X.Type(), a)
		}
		if vc.w.sortOf(v.Y.Type()) != "Any" {
			b = vc.w.box(v.Y.Type(), b)
		}
	}
	switch v.Op {
	case token.EQL:
		vc.setVal(fr, n, v, "(= "+a+" "+b+")")
		return
	case token.NEQ:
		vc.setVal(fr, n, v, "(not (= "+a+" "+b+"))")
		return
	}
	if S == "Int" {
		op := map[token.Token]string{token.ADD: "+", token.SUB: "-", token.MUL: "*", token.LSS: "<", token.LEQ: "<=", token.GTR: ">", token.GEQ: ">="}[v.Op]
		if op != "" {
			vc.setVal(fr, n, v, "("+op+" "+a+" "+b+")")
			return
		}
		if v.Op == token.QUO || v.Op == token.REM {
			vc.oblige(n, "safety", vc.oname(fr, "division-by-zero"), []string{"C14"}, "(not (= "+b+" 0))", v.Pos(), "division by zero")
			f := "goquo"
			if v.Op == token.REM {
				f = "gorem"
			}
			vc.setVal(fr, n, v, "("+f+" "+a+" "+b+")")
			return
		}
	}
	if S == "Str" {
		switch v.Op {
		case token.ADD:
			vc.setVal(fr, n, v, "(cat "+a+" "+b+")")
			return
		case token.LSS:
			vc.setVal(fr, n, v, "(strlt "+a+" "+b+")")
			return
		case token.GTR:
			vc.setVal(fr, n, v, "(strlt "+b+" "+a+")")
			return
		case token.LEQ:
			vc.setVal(fr, n, v, "(not (strlt "+b+" "+a+"))")
			return
		case token.GEQ:
			vc.setVal(fr, n, v, "(not (strlt "+a+" "+b+"))")
			return
		}
	}
	if S == "Bool" {
		switch v.Op {
		case token.AND, token.LAND:
			vc.setVal(fr, n, v, "(and "+a+" "+b+")")
			return
		case token.OR, token.LOR:
			vc.setVal(fr, n, v, "(or "+a+" "+b+")")
			return
		}
	}
	// uninterpreted
	rs := vc.w.sortOf(v.Type())
	f := "bin_" + fmt.Sprint(int(v.Op)) + "_" + sanitize(S) + "_" + sanitize(vc.w.sortOf(v.Y.Type())) + "_" + sanitize(rs)
	vc.w.declFun(f, fmt.Sprintf("(declare-fun %s (%s %s) %s)", f, S, vc.w.sortOf(v.Y.Type()), rs))
	vc.setVal(fr, n, v, "("+f+" "+a+" "+b+")")
}

func (vc *VC) convert(fr *frame, n *node, v *ssa.Convert) {
	w := vc.w
	from, to := w.sortOf(v.X.Type()), w.sortOf(v.Type())
	x := vc.val(fr, v.X)
	if from == to && from != "Flt" {
		if from == "Int" {
			// machine integers are treated as mathematical; narrowing is an assumption
			fr.vals[v] = x
			if narrowing(v.X.Type(), v.Type()) {
				f := "conv_" + short(tkey(v.X.Type())) + "_" + short(tkey(v.Type()))
				w.declFun(f, "(declare-fun "+f+" (Int) Int)")
				lo, hi := intRange(v.Type())
				w.axiomOnce(f, "(assert (forall ((x Int)) (! (and (=> (and (<= "+lo+" x) (<= x "+hi+")) (= ("+f+" x) x)) (<= "+lo+" ("+f+" x)) (<= ("+f+" x) "+hi+")) :pattern (("+f+" x)))))")
				delete(fr.vals, v)
				vc.setVal(fr, n, v, "("+f+" "+x+")")
			}
			return
		}
		fr.vals[v] = x
		return
	}
	if from == "Str" && to == "Slice" {
		nm := fr.prefix + v.Name()
		r := vc.fresh(n, nm+".ref")
		vc.setVal(fr, n, v, "(mkSlice "+r+" "+"(strlen "+x+"))")
		if bt, ok := elemType(v.Type()).Underlying().(*types.Basic); ok && bt.Kind() == types.Byte {
			vc.assume(n, "(= "+w.bytesStr(n.st, nm)+" "+x+")")
		} else {
			delete(fr.vals, v)
			nm2 := nm + ".runes"
			vc.emitDecl(n, nm2, "Slice")
			fr.vals[v] = nm2
			vc.wellTyped(n, v.Type(), nm2)
			w.declFun("runes", "(declare-fun runes (Str) Int)")
			vc.assume(n, "(= (slen "+nm2+") "+w.runeLen(x)+")")
		}
		return
	}
	if from == "Slice" && to == "Str" {
		if bt, ok := elemType(v.X.Type()).Underlying().(*types.Basic); ok && bt.Kind() == types.Byte {
			vc.setVal(fr, n, v, w.bytesStr(n.st, x))
			return
		}
	}
	f := "conv_" + short(tkey(v.X.Type())) + "_" + short(tkey(v.Type()))
	w.declFun(f, fmt.Sprintf("(declare-fun %s (%s) %s)", f, from, to))
	vc.setVal(fr, n, v, "("+f+" "+x+")")
}

// runeLen is the number of code points; shared with the spec function of that name when there is one.
func (w *World) runeLen(x string) string {
	if g, ok := w.spec.Funcs["runeCount"]; ok {
		w.declFun("u_"+g.Name, "(declare-fun u_runeCount (Str) Int)")
		return "(u_runeCount " + x + ")"
	}
	return "(runes " + x + ")"
}

func intRange(t types.Type) (string, string) {
	b := t.Underlying().(*types.Basic)
	bits, uns := 64, b.Info()&types.IsUnsigned != 0
	switch b.Kind() {
	case types.Int8, types.Uint8:
		bits = 8
	case types.Int16, types.Uint16:
		bits = 16
	case types.Int32, types.Uint32:
		bits = 32
	}
	one := big.NewInt(1)
	if uns {
		return "0", new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one).String()
	}
	h := new(big.Int).Lsh(one, uint(bits-1))
	return "(- " + h.String() + ")", new(big.Int).Sub(h, one).String()
}

func narrowing(a, b types.Type) bool {
	ab, ok1 := a.Underlying().(*types.Basic)
	bb, ok2 := b.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return false
	}
	size := func(k types.BasicKind) int {
		switch k {
		case types.Int8, types.Uint8:
			return 8
		case types.Int16, types.Uint16:
			return 16
		case types.Int32, types.Uint32:
			return 32
		}
		return 64
	}
	if size(bb.Kind()) < size(ab.Kind()) {
		return true
	}
	if ab.Info()&types.IsUnsigned == 0 && bb.Info()&types.IsUnsigned != 0 {
		return true
	}
	return ab.Info()&types.IsUnsigned != 0 && bb.Info()&types.IsUnsigned == 0 && size(ab.Kind()) >= size(bb.Kind())
}

func (vc *VC) typeAssert(fr *frame, n *node, v *ssa.TypeAssert) {
	w := vc.w
	x := vc.val(fr, v.X)
	T := v.AssertedType
	S := w.sortOf(T)
	var cond, val string
	if isIface(T) {
		if it := T.Underlying().(*types.Interface); it.NumMethods() == 0 {
			cond = "(not (= (tag " + x + ") 0))"
		} else {
			f := "impl_" + short(tkey(T))
			w.declFun(f, "(declare-fun "+f+" (Int) Bool)\n(assert (not ("+f+" 0)))")
			cond = "(" + f + " (tag " + x + "))"
		}
		val = x
	} else {
		cond = fmt.Sprintf("(= (tag %s) %d)", x, w.tag(T))
		val = w.unpay(S, x)
	}
	okn := fr.prefix + v.Name() + ".ok"
	vc.emitDef(n, okn, "Bool", cond)
	if !isIface(T) {
		vc.assume(n, "(=> "+okn+" (= "+x+" "+w.box(T, val)+"))")
		if f := vc.typeFact(n.st, T, val); f != "" {
			vc.assume(n, "(=> "+okn+" "+f+")")
		}
	}
	if v.CommaOk {
		vn := fr.prefix + v.Name() + ".v"
		vc.emitDef(n, vn, S, "(ite "+okn+" "+val+" "+w.zero(T)+")")
		fr.tup[v] = []string{vn, okn}
		return
	}
	vc.oblige(n, "safety", vc.oname(fr, "type-assertion"), []string{"C14"}, okn, v.Pos(), "type assertion to "+T.String()+" may fail")
	vc.setVal(fr, n, v, val)
}

func (vc *VC) lookup(fr *frame, n *node, v *ssa.Lookup) {
	w := vc.w
	if mt, ok := v.X.Type().Underlying().(*types.Map); ok {
		d, va, _ := w.mapComps(v.X.Type())
		m, k := vc.val(fr, v.X), vc.val(fr, v.Index)
		vc.guardCheck(fr, n, v.X.Type(), false, v.Pos())
		in := "(and (not (= " + m + " 0)) (select (select " + n.st.get(d) + " " + m + ") " + k + "))"
		okn := fr.prefix + v.Name() + ".ok"
		vc.emitDef(n, okn, "Bool", in)
		vn := fr.prefix + v.Name() + ".v"
		vc.emitDef(n, vn, w.sortOf(mt.Elem()), "(ite "+okn+" (select (select "+n.st.get(va)+" "+m+") "+k+") "+w.zero(mt.Elem())+")")
		vc.wellTyped(n, mt.Elem(), vn)
		if v.CommaOk {
			fr.tup[v] = []string{vn, okn}
		} else {
			fr.vals[v] = vn
		}
		return
	}
	i := vc.val(fr, v.Index)
	x := vc.val(fr, v.X)
	vc.oblige(n, "safety", vc.oname(fr, "index-range"), []string{"C14"}, "(and (<= 0 "+i+") (< "+i+" (strlen "+x+")))", v.Pos(), "string index out of range")
	vc.setVal(fr, n, v, "(strat "+x+" "+i+")")
	vc.assume(n, "(and (<= 0 "+fr.vals[v]+") (<= "+fr.vals[v]+" 255))")
}

func (vc *VC) mapUpdate(fr *frame, n *node, v *ssa.MapUpdate, lst []*loopInfo) *node {
	w := vc.w
	d, va, l := w.mapComps(v.Map.Type())
	m := vc.val(fr, v.Map)
	if fr.ini.mupd[v] {
		us := fr.ini.mlast[v]
		if us == nil {
			return n
		}
		ks := w.sortOf(v.Map.Type().Underlying().(*types.Map).Key())
		dom := "((as const (Array " + ks + " Bool)) false)"
		for _, u := range us {
			dom = "(store " + dom + " " + vc.val(fr, u.Key) + " true)"
			vc.assume(n, "(= (select (select "+n.st.get(va)+" "+m+") "+vc.val(fr, u.Key)+") "+vc.val(fr, u.Value)+")")
		}
		vc.assume(n, "(= (select "+n.st.get(d)+" "+m+") "+dom+")")
		return n
	}
	if !knownNonNil(v.Map) {
		vc.oblige(n, "safety", vc.oname(fr, "nil-map-write"), []string{"C14"}, "(not (= "+m+" 0))", v.Pos(), "assignment to entry in nil map")
	}
	vc.guardCheck(fr, n, v.Map.Type(), true, v.Pos())
	vc.mapSet(fr, n, v.Map.Type(), m, vc.val(fr, v.Key), vc.val(fr, v.Value), true, v.Pos(), lst)
	_ = l
	return n
}

func (vc *VC) mapSet(fr *frame, n *node, mt types.Type, m, k, val string, present bool, pos token.Pos, lst []*loopInfo) {
	w := vc.w
	d, va, _ := w.mapComps(mt)
	for _, c := range []string{d, va} {
		vc.recordWrite(lst, Loc{c, m})
	}
	if !vc.isInit && vc.con != nil {
		vc.oblige(n, "frame", vc.oname(fr, "frame:"+d), []string{"C13"}, vc.inMods(Loc{d, m}), pos, "map write outside the modifies clause: "+d)
	}
	od := n.st.get(d)
	row := "(select " + od + " " + m + ")"
	pr := "true"
	if !present {
		pr = "false"
	}
	nd := vc.gensym("h." + d)
	vc.emitDecl(n, nd, vc.compSort(d))
	vc.emit(n, "(assert (= "+nd+" (store "+od+" "+m+" (store "+row+" "+k+" "+pr+"))))")
	n.st.heap[d] = nd
	if present {
		ov := n.st.get(va)
		nv := vc.gensym("h." + va)
		vc.emitDecl(n, nv, vc.compSort(va))
		vc.emit(n, "(assert (= "+nv+" (store "+ov+" "+m+" (store (select "+ov+" "+m+") "+k+" "+val+"))))")
		n.st.heap[va] = nv
	}
}

func (vc *VC) next(fr *frame, n *node, v *ssa.Next) {
	w := vc.w
	tt := v.Type().(*types.Tuple)
	nm := fr.prefix + v.Name()
	vc.emitDecl(n, nm+".ok", "Bool")
	rg, _ := v.Iter.(*ssa.Range)
	if v.IsString || rg == nil {
		vc.emitDecl(n, nm+".k", "Int")
		vc.emitDecl(n, nm+".v", "Int")
		fr.tup[v] = []string{nm + ".ok", nm + ".k", nm + ".v"}
		return
	}
	mt := rg.X.Type().Underlying().(*types.Map)
	ks, vs := w.sortOf(mt.Key()), w.sortOf(mt.Elem())
	vc.emitDecl(n, nm+".k", ks)
	d, va, _ := w.mapComps(rg.X.Type())
	m := vc.val(fr, rg.X)
	ic := vc.iterComp(fr, v.Iter)
	vis := n.st.get(ic)
	vc.emitDef(n, nm+".v", vs, "(select (select "+n.st.get(va)+" "+m+") "+nm+".k)")
	vc.assume(n, "(=> "+nm+".ok (and (not (= "+m+" 0)) (select (select "+n.st.get(d)+" "+m+") "+nm+".k) (not (select "+vis+" "+nm+".k))))")
	dom0 := fr.prefix + rg.Name() + ".dom"
	vc.assume(n, "(=> (and (not "+nm+".ok) (not (= "+m+" 0))) (forall ((k "+ks+")) (! (=> (and (select "+dom0+" k) (select (select "+n.st.get(d)+" "+m+") k)) (select "+vis+" k)) :pattern ((select "+vis+" k)) :pattern ((select (select "+n.st.get(d)+" "+m+") k)))))")
	if f := vc.typeFact(n.st, mt.Elem(), nm+".v"); f != "" {
		vc.assume(n, "(=> "+nm+".ok "+f+")")
	}
	nv := vc.gensym("vis")
	vc.emitDecl(n, nv, "(Array "+ks+" Bool)")
	vc.emit(n, "(assert (= "+nv+" (ite "+nm+".ok (store "+vis+" "+nm+".k true) "+vis+")))")
	// ground terms and triggers for the quantifiers over the visited keys
	vc.assume(n, "(=> "+nm+".ok (select "+nv+" "+nm+".k))")
	vc.assume(n, "(forall ((x "+ks+")) (! (=> (select "+vis+" x) (select "+nv+" x)) :pattern ((select "+vis+" x))))")
	vc.assume(n, "(forall ((x "+ks+")) (! (=> (select "+nv+" x) (or (select "+vis+" x) (= x "+nm+".k))) :pattern ((select "+nv+" x))))")
	n.st.heap[ic] = nv
	fr.tup[v] = []string{nm + ".ok", nm + ".k", nm + ".v"}
	_ = tt
}

func (vc *VC) slice(fr *frame, n *node, v *ssa.Slice) {
	w := vc.w
	x := vc.val(fr, v.X)
	switch u := v.X.Type().Underlying().(type) {
	case *types.Pointer:
		at, ok := u.Elem().Underlying().(*types.Array)
		if ok && v.Low == nil && v.High == nil {
			vc.setVal(fr, n, v, fmt.Sprintf("(mkSlice %s %d)", x, at.Len()))
			return
		}
	case *types.Slice:
		lo, hi := "0", "(slen "+x+")"
		if v.Low != nil {
			lo = vc.val(fr, v.Low)
		}
		if v.High != nil {
			hi = vc.val(fr, v.High)
		}
		vc.oblige(n, "safety", vc.oname(fr, "slice-range"), []string{"C14"}, "(and (<= 0 "+lo+") (<= "+lo+" "+hi+") (<= "+hi+" (slen "+x+")))", v.Pos(), "slice bounds out of range")
		if lo == "0" {
			vc.setVal(fr, n, v, "(mkSlice (sref "+x+") "+hi+")")
			return
		}
		nm := fr.prefix + v.Name()
		r := vc.fresh(n, nm+".ref")
		vc.setVal(fr, n, v, "(mkSlice "+r+" (- "+hi+" "+lo+"))")
		c := w.memComp(u.Elem())
		m := n.st.get(c)
		vc.assume(n, "(forall ((i Int)) (! (= (select (select "+m+" "+r+") i) (select (select "+m+" (sref "+x+")) (+ "+lo+" i))) :pattern ((select (select "+m+" "+r+") i))))")
		return
	case *types.Basic:
		lo, hi := "0", "(strlen "+x+")"
		if v.Low != nil {
			lo = vc.val(fr, v.Low)
		}
		if v.High != nil {
			hi = vc.val(fr, v.High)
		}
		vc.oblige(n, "safety", vc.oname(fr, "slice-range"), []string{"C14"}, "(and (<= 0 "+lo+") (<= "+lo+" "+hi+") (<= "+hi+" (strlen "+x+")))", v.Pos(), "string slice bounds out of range")
		w.declFun("substr", "(declare-fun substr (Str Int Int) Str)")
		vc.setVal(fr, n, v, "(substr "+x+" "+lo+" "+hi+")")
		vc.assume(n, "(= (strlen "+fr.vals[v]+") (- "+hi+" "+lo+"))")
		return
	}
	vc.unsupported(n, "slice expression", v.Pos())
	vc.freshVal(fr, n, v)
}

// guardCheck: access to a lock-protected map type.
func (vc *VC) guardCheck(fr *frame, n *node, T types.Type, write bool, pos token.Pos) {
	if vc.isInit {
		return
	}
	for _, g := range vc.w.spec.Guards {
		if vc.w.p.mapFind(tkey(vc.w.goType(g.Type))) != vc.w.p.mapFind(tkey(T)) {
			continue
		}
		env := vc.env(n.st)
		e, k := g.Read, "read"
		if write {
			e, k = g.Write, "write"
		}
		vc.oblige(n, "requires", vc.oname(fr, "guarded-"+k+":"+g.Type), g.Labels, env.boolExpr(e), pos, "unlocked "+k+" of "+g.Type)
	}
}
