package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxInline = 12

func (vc *VC) call(fr *frame, n *node, in ssa.Instruction, c *ssa.CallCommon, res *ssa.Call, lst []*loopInfo) *node {
	w := vc.w
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return vc.builtin(fr, n, in, b, c, res, lst)
	}
	var rv ssa.Value
	if res != nil {
		rv = res
	}
	if c.IsInvoke() {
		recv := vc.val(fr, c.Value)
		vc.oblige(n, "safety", vc.oname(fr, "nil-interface-call"), []string{"C14"}, "(not (= (tag "+recv+") 0))", in.Pos(), "method call on nil interface: "+c.Method.Name())
		args := []string{recv}
		for _, a := range c.Args {
			args = append(args, vc.val(fr, a))
		}
		pts := ifaceParamTypes(c)
		if con := w.ifaceContract(c); con != nil {
			vc.callees["iface "+con.Name] = true
			vc.applyContract(fr, n, in.Pos(), con, con.Name, pts, args, rv, c.Signature(), nil, lst)
			return n
		}
		if nm, ok := types.Unalias(c.Value.Type()).(*types.Named); ok && w.spec.PureI[nm.Obj().Name()] {
			vc.pureResult(fr, n, "m_"+nm.Obj().Name()+"_"+c.Method.Name(), pts, args, rv, c.Signature())
			return n
		}
		vc.callees["iface (uncontracted) "+c.Method.FullName()] = true
		vc.externEffect(fr, n, in, c, nil, lst)
		vc.havocResult(fr, n, rv, c.Signature())
		return n
	}
	callee := c.StaticCallee()
	var args []string
	for _, a := range c.Args {
		args = append(args, vc.val(fr, a))
	}
	if callee == nil {
		vc.oblige(n, "safety", vc.oname(fr, "nil-func-call"), []string{"C14"}, "(not (= "+vc.val(fr, c.Value)+" 0))", in.Pos(), "call of nil function")
		vc.callees["dynamic call"] = true
		vc.externEffect(fr, n, in, c, nil, lst)
		vc.havocResult(fr, n, rv, c.Signature())
		return n
	}
	if !w.inPackage(callee) {
		if con := w.externContract(callee); con != nil {
			vc.callees["extern "+con.Name] = true
			vc.applyContract(fr, n, in.Pos(), con, con.Name, sigParamTypes(callee), args, rv, callee.Signature, nil, lst)
			return n
		}
		vc.callees["extern (uncontracted) "+w.externName(callee)] = true
		vc.externEffect(fr, n, in, c, callee, lst)
		vc.havocResult(fr, n, rv, callee.Signature)
		return n
	}
	if con := w.funcContract(callee); con != nil && !con.Inline {
		vc.callees[con.Name] = true
		vc.applyContract(fr, n, in.Pos(), con, con.Name, sigParamTypes(callee), args, rv, callee.Signature, callee, lst)
		return n
	}
	// inline
	if len(callee.Blocks) == 0 {
		vc.havocResult(fr, n, rv, callee.Signature)
		return n
	}
	depth := 0
	for f := fr; f != nil; f = f.parent {
		depth++
		if f.fn == callee {
			vc.unsupported(n, "recursive function without contract: "+callee.Name(), in.Pos())
			vc.havocCall(n, callee)
			vc.havocResult(fr, n, rv, callee.Signature)
			return n
		}
	}
	if depth > maxInline {
		vc.unsupported(n, "inlining depth", in.Pos())
		vc.havocCall(n, callee)
		vc.havocResult(fr, n, rv, callee.Signature)
		return n
	}
	vc.inlined[callee.RelString(w.p.tpkg)] = true
	nf := vc.newFrame(callee, fr)
	nf.lstack = lst
	for i, p := range callee.Params {
		nf.vals[p] = args[i]
	}
	if mc := vc.closureOf(fr, c.Value); mc != nil {
		for i, fv := range callee.FreeVars {
			nf.vals[fv] = vc.val(fr, mc.Bindings[i])
		}
	} else if len(callee.FreeVars) > 0 {
		vc.unsupported(n, "closure", in.Pos())
		vc.havocCall(n, callee)
		vc.havocResult(fr, n, rv, callee.Signature)
		return n
	}
	start := vc.newNode([]*node{n})
	start.reach = n.reach
	start.st = n.st.clone()
	vc.runFrame(nf, start)
	if len(nf.exits) == 0 {
		return nil
	}
	if len(nf.exits) == 1 {
		x := nf.exits[0]
		cont := vc.newNode([]*node{x.n})
		cont.reach = x.n.reach
		cont.st = x.n.st.clone()
		vc.bindResults(fr, cont, rv, x.res, callee.Signature)
		return cont
	}
	var es []*edge
	for _, x := range nf.exits {
		es = append(es, &edge{from: x.n, reach: x.n.reach})
	}
	cont := vc.join(fr, es, nil)
	k := callee.Signature.Results().Len()
	var rs []string
	for i := 0; i < k; i++ {
		same := true
		for _, x := range nf.exits {
			if x.res[i] != nf.exits[0].res[i] {
				same = false
			}
		}
		if same {
			rs = append(rs, nf.exits[0].res[i])
			continue
		}
		nm := fmt.Sprintf("%sret%d", nf.prefix, i)
		vc.emitDecl(cont, nm, w.sortOf(callee.Signature.Results().At(i).Type()))
		for _, x := range nf.exits {
			vc.emit(cont, "(assert (=> "+x.n.reach+" (= "+nm+" "+x.res[i]+")))")
		}
		rs = append(rs, nm)
	}
	vc.bindResults(fr, cont, rv, rs, callee.Signature)
	return cont
}

// packages whose functions do not write through their arguments
var readOnlyPkgs = map[string]bool{"strings": true, "strconv": true, "errors": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true,
	"time": true, "path": true, "path/filepath": true, "net/url": true, "net/mail": true, "net": true, "regexp": true, "html": true}

func readOnlyExtern(callee *ssa.Function) bool {
	if callee == nil {
		return false
	}
	if callee.Name() == "init" {
		return true
	}
	if callee.Pkg == nil || callee.Signature.Recv() != nil {
		return false
	}
	p := callee.Pkg.Pkg.Path()
	return readOnlyPkgs[p] || p == "fmt" && strings.HasPrefix(callee.Name(), "Sprint")
}

// externEffect: what a dependency without a contract may write through the values handed to it.
func (vc *VC) externEffect(fr *frame, n *node, in ssa.Instruction, c *ssa.CallCommon, callee *ssa.Function, lst []*loopInfo) {
	w := vc.w
	if readOnlyExtern(callee) {
		return
	}
	seen := map[ssa.Value]bool{}
	var arg func(v ssa.Value)
	arg = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeInterface:
			arg(x.X)
			return
		case *ssa.ChangeType:
			arg(x.X)
			return
		case *ssa.ChangeInterface:
			arg(x.X)
			return
		case *ssa.MakeClosure:
			for comp := range vc.eff.compute(x.Fn.(*ssa.Function), map[*ssa.Function]bool{}) {
				nm := vc.gensym("h." + comp)
				vc.emitDecl(n, nm, vc.compSort(comp))
				n.st.heap[comp] = nm
				vc.recordWrite(lst, Loc{comp, ""})
				if vc.con != nil && !vc.isInit && (strings.HasPrefix(comp, "F.") || strings.HasPrefix(comp, "GV.")) {
					vc.oblige(n, "frame", vc.oname(fr, "closure-frame:"+comp), []string{"C13"}, "false", in.Pos(), "a function value passed on writes "+comp)
				}
			}
			return
		}
		switch u := v.Type().Underlying().(type) {
		case *types.Slice:
			et := elemType(v.Type())
			mc := w.memComp(et)
			nm := vc.gensym("row")
			vc.emitDecl(n, nm, "(Array Int "+w.sortOf(et)+")")
			vc.write(fr, n, Loc{mc, "(sref " + vc.val(fr, v) + ")"}, nm, in.Pos(), lst)
		case *types.Map:
			d, val, ln := w.mapComps(v.Type())
			_ = ln
			for _, comp := range []string{d, val} {
				if comp == "" {
					continue
				}
				nm := vc.gensym("row")
				S := vc.compSort(comp)
				S = strings.TrimSuffix(strings.TrimPrefix(S, "(Array Int "), ")")
				vc.emitDecl(n, nm, S)
				vc.write(fr, n, Loc{comp, vc.val(fr, v)}, nm, in.Pos(), lst)
			}
		case *types.Pointer:
			el := deref(v.Type())
			if nm, ok := types.Unalias(el).(*types.Named); ok && (nm.Obj().Pkg() == nil || nm.Obj().Pkg() != w.p.tpkg) {
				return
			}
			_ = u
			vc.unsupported(n, "pointer handed to a dependency without a contract", in.Pos())
		}
	}
	for _, a := range c.Args {
		arg(a)
	}
}

func (vc *VC) closureOf(fr *frame, v ssa.Value) *ssa.MakeClosure {
	if mc, ok := v.(*ssa.MakeClosure); ok {
		return mc
	}
	return fr.closure[v]
}

func (w *World) funcContract(fn *ssa.Function) *Contract {
	con := w.spec.Cons[fn.RelString(w.p.tpkg)]
	if con == nil || con.Kind != "func" {
		return nil
	}
	if len(con.Params) != len(fn.Params) || len(con.Rets) > fn.Signature.Results().Len() {
		return nil
	}
	return con
}

func (vc *VC) bindResults(fr *frame, n *node, rv ssa.Value, rs []string, sig *types.Signature) {
	if rv == nil {
		return
	}
	if sig.Results().Len() == 1 {
		fr.vals[rv] = rs[0]
	} else {
		fr.tup[rv] = rs
	}
}

func (vc *VC) havocResult(fr *frame, n *node, rv ssa.Value, sig *types.Signature) {
	vc.bumpAlloc(n)
	var rs []string
	for i := 0; i < sig.Results().Len(); i++ {
		nm := vc.gensym("ext")
		T := sig.Results().At(i).Type()
		vc.emitDecl(n, nm, vc.w.sortOf(T))
		vc.wellTyped(n, T, nm)
		rs = append(rs, nm)
	}
	vc.bindResults(fr, n, rv, rs, sig)
}

func (vc *VC) pureResult(fr *frame, n *node, f string, pts []types.Type, args []string, rv ssa.Value, sig *types.Signature) {
	var ps []string
	for _, t := range pts {
		ps = append(ps, vc.w.sortOf(t))
	}
	var rs []string
	for i := 0; i < sig.Results().Len(); i++ {
		T := sig.Results().At(i).Type()
		fn := f
		if i > 0 {
			fn = fmt.Sprintf("%s_%d", f, i)
		}
		vc.w.declFun(fn, fmt.Sprintf("(declare-fun %s (%s) %s)", fn, strings.Join(ps, " "), vc.w.sortOf(T)))
		rs = append(rs, "("+fn+" "+strings.Join(args, " ")+")")
	}
	vc.bindResults(fr, n, rv, rs, sig)
}

func (vc *VC) bumpAlloc(n *node) {
	na := vc.gensym("alloc")
	vc.emitDecl(n, na, "Int")
	vc.emit(n, "(assert (>= "+na+" "+n.st.alloc+"))")
	n.st.alloc = na
}

func (vc *VC) havocCall(n *node, callee *ssa.Function) {
	for c := range vc.eff.compute(callee, map[*ssa.Function]bool{}) {
		nm := vc.gensym("h." + c)
		vc.emitDecl(n, nm, vc.compSort(c))
		n.st.heap[c] = nm
	}
}

func (vc *VC) applyContract(fr *frame, n *node, pos token.Pos, con *Contract, name string, pts []types.Type, args []string, rv ssa.Value, sig *types.Signature, callee *ssa.Function, lst []*loopInfo) {
	w := vc.w
	pre := n.st.clone()
	env := &Env{w: w, vars: map[string]TV{}, st: pre, old: pre, fresh: &vc.cnt}
	for i, p := range con.Params {
		env.vars[p] = TV{pts[i], w.sortOf(pts[i]), args[i]}
	}
	short := name
	for i, c := range con.get("requires") {
		nm := c.Name
		if nm == "" {
			nm = fmt.Sprintf("#%d", i+1)
		}
		o := len(vc.obls)
		ls := c.Labels
		if len(ls) == 0 {
			ls = append([]string{"C14"}, con.allLabels()...)
		}
		vc.oblige(n, "requires", vc.oname(fr, "call "+short+"/requires["+nm+"]"), ls, env.boolExpr(c.E), pos, c.Text)
		if len(vc.obls) > o {
			vc.obls[len(vc.obls)-1].callee = name
		}
	}
	if con.Kind == "func" && !vc.isInit {
		for _, g := range w.spec.SysInv {
			vc.oblige(n, "requires", vc.oname(fr, "call "+short+"/requires["+g.Name+"]"), g.Labels, env.boolExpr(g.E), pos, g.Text)
		}
	}
	var mods []Loc
	for _, c := range con.get("modifies") {
		for _, m := range c.Mods {
			mods = append(mods, env.modLocs(m)...)
		}
	}
	effs := map[string]bool{}
	if callee != nil {
		for c := range vc.eff.compute(callee, map[*ssa.Function]bool{}) {
			effs[c] = true
		}
	}
	for _, m := range mods {
		vc.recordWrite(lst, m)
		if callee == nil {
			effs[m.comp] = true
		}
		if !effs[m.comp] {
			continue
		}
		if vc.frameExempt(m.comp) || vc.isInit || vc.con == nil {
			continue
		}
		if strings.HasPrefix(m.comp, "GV.") || m.ref == "" {
			ok := false
			for _, x := range vc.mods {
				if x.comp == m.comp && x.ref == "" {
					ok = true
				}
			}
			if !ok {
				vc.oblige(n, "frame", vc.oname(fr, "call "+short+"/frame:"+m.comp), []string{"C13"}, "false", pos, "callee modifies "+m.comp)
			}
			continue
		}
		vc.oblige(n, "frame", vc.oname(fr, "call "+short+"/frame:"+m.comp), []string{"C13"}, vc.inMods(m), pos, "callee modifies "+m.comp)
	}
	if !con.Pure && !con.NoAlloc {
		vc.bumpAlloc(n)
	}
	for _, c := range sortedKeys(effs) {
		if strings.HasPrefix(c, "GV.") {
			in := false
			for _, m := range mods {
				if m.comp == c {
					in = true
				}
			}
			if !in {
				continue
			}
		}
		var refs []string
		whole := strings.HasPrefix(c, "GV.")
		for _, m := range mods {
			if m.comp != c {
				continue
			}
			if m.ref == "" {
				whole = true
			}
			refs = append(refs, m.ref)
		}
		if !whole {
			// cells of objects the callee allocates are unconstrained before the call: no new state is needed for them
			n.st.heap[c] = vc.storeAll(n, c, n.st.get(c), refs)
			continue
		}
		nm := vc.gensym("h." + c)
		vc.emitDecl(n, nm, vc.compSort(c))
		n.st.heap[c] = nm
	}
	// results
	post := &Env{w: w, vars: env.vars, st: n.st, old: pre, fresh: &vc.cnt}
	var rs []string
	for i := 0; i < sig.Results().Len(); i++ {
		T := sig.Results().At(i).Type()
		base := vc.gensym("ret")
		if rv != nil {
			base = fmt.Sprintf("%s%s.r%d", fr.prefix, rv.Name(), i)
		}
		vc.emitDecl(n, base, w.sortOf(T))
		vc.wellTyped(n, T, base)
		rs = append(rs, base)
		if i < len(con.Rets) {
			post.vars[con.Rets[i]] = TV{T, w.sortOf(T), base}
		}
	}
	for _, c := range con.get("ensures") {
		if c.Hidden {
			continue
		}
		vc.assume(n, post.boolExpr(c.E))
	}
	for _, c := range con.get("assumes") {
		vc.assume(n, post.boolExpr(c.E))
	}
	if con.Kind == "func" {
		for _, g := range w.spec.SysInv {
			f := post.boolExpr(g.E)
			if a, ok := vc.asserted[canonKey(f)]; ok {
				var vis bitset
				vis.or(n.dom)
				vis.and(n.anc)
				if a.meets(vis) {
					continue
				}
			}
			vc.assume(n, f)
			vc.markKnown(n, f)
		}
	}
	vc.bindResults(fr, n, rv, rs, sig)
}

func (vc *VC) builtin(fr *frame, n *node, in ssa.Instruction, b *ssa.Builtin, c *ssa.CallCommon, res *ssa.Call, lst []*loopInfo) *node {
	w := vc.w
	switch b.Name() {
	case "len", "cap":
		x := vc.val(fr, c.Args[0])
		switch u := c.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				vc.freshVal(fr, n, res)
				vc.assume(n, "(>= "+fr.vals[res]+" (slen "+x+"))")
				return n
			}
			vc.setVal(fr, n, res, "(slen "+x+")")
		case *types.Map:
			d, _, _ := w.mapComps(c.Args[0].Type())
			vc.guardCheck(fr, n, c.Args[0].Type(), false, in.Pos())
			vc.setVal(fr, n, res, "("+w.cardFun(w.sortOf(u.Key()))+" (select "+n.st.get(d)+" "+x+"))")
		case *types.Basic:
			vc.setVal(fr, n, res, "(strlen "+x+")")
		case *types.Pointer:
			vc.setVal(fr, n, res, fmt.Sprint(u.Elem().Underlying().(*types.Array).Len()))
		default:
			vc.freshVal(fr, n, res)
		}
	case "append":
		vc.appendOp(fr, n, c, res)
	case "delete":
		vc.guardCheck(fr, n, c.Args[0].Type(), true, in.Pos())
		vc.mapSet(fr, n, c.Args[0].Type(), vc.val(fr, c.Args[0]), vc.val(fr, c.Args[1]), "", false, in.Pos(), lst)
	case "copy":
		// destination contents become unknown
		et := elemType(c.Args[0].Type())
		mc := w.memComp(et)
		nm := vc.gensym("row")
		vc.emitDecl(n, nm, "(Array Int "+w.sortOf(et)+")")
		dst := vc.val(fr, c.Args[0])
		if _, ok := c.Args[1].Type().Underlying().(*types.Slice); ok {
			src := vc.val(fr, c.Args[1])
			m := n.st.get(mc)
			k := "(ite (< (slen " + dst + ") (slen " + src + ")) (slen " + dst + ") (slen " + src + "))"
			vc.assume(n, "(forall ((i Int)) (! (= (select "+nm+" i) (ite (and (<= 0 i) (< i "+k+")) (select (select "+m+" (sref "+src+")) i) (select (select "+m+" (sref "+dst+")) i))) :pattern ((select "+nm+" i))))")
		}
		vc.write(fr, n, Loc{mc, "(sref " + dst + ")"}, nm, in.Pos(), lst)
		if res != nil {
			vc.freshVal(fr, n, res)
		}
	case "ssa:wrapnilchk":
		fr.vals[res] = vc.val(fr, c.Args[0])
	case "print", "println":
	case "min", "max":
		if len(c.Args) == 2 && w.sortOf(res.Type()) == "Int" {
			a, bb := vc.val(fr, c.Args[0]), vc.val(fr, c.Args[1])
			op := "<"
			if b.Name() == "max" {
				op = ">"
			}
			vc.setVal(fr, n, res, "(ite ("+op+" "+a+" "+bb+") "+a+" "+bb+")")
		} else {
			vc.freshVal(fr, n, res)
		}
	default:
		vc.unsupported(n, "builtin "+b.Name(), in.Pos())
		if res != nil && w.sortOf(res.Type()) != "" {
			if _, isT := res.Type().(*types.Tuple); !isT {
				vc.freshVal(fr, n, res)
			}
		}
	}
	return n
}

// appendOp models append as building a new sequence (slices are never shared for writing).
func (vc *VC) appendOp(fr *frame, n *node, c *ssa.CallCommon, res *ssa.Call) {
	w := vc.w
	s := vc.val(fr, c.Args[0])
	if w.sortOf(c.Args[1].Type()) == "Str" {
		nm := fr.prefix + res.Name()
		r := vc.fresh(n, nm+".ref")
		x := vc.val(fr, c.Args[1])
		vc.setVal(fr, n, res, "(mkSlice "+r+" (+ (slen "+s+") (strlen "+x+")))")
		vc.assume(n, "(= "+w.bytesStr(n.st, nm)+" (cat "+w.bytesStr(n.st, s)+" "+x+"))")
		return
	}
	t := vc.val(fr, c.Args[1])
	et := elemType(res.Type())
	mc := w.memComp(et)
	m := n.st.get(mc)
	nm := fr.prefix + res.Name()
	r := vc.fresh(n, nm+".ref")
	k := vc.varargLen(c.Args[1])
	if k > 0 {
		vc.setVal(fr, n, res, fmt.Sprintf("(mkSlice %s (+ (slen %s) %d))", r, s, k))
	} else {
		vc.setVal(fr, n, res, "(ite (= (slen "+t+") 0) "+s+" (mkSlice "+r+" (+ (slen "+s+") (slen "+t+"))))")
	}
	vc.assume(n, "(forall ((i Int)) (! (=> (and (<= 0 i) (< i (slen "+s+"))) (= (select (select "+m+" "+r+") i) (select (select "+m+" (sref "+s+")) i))) :pattern ((select (select "+m+" "+r+") i)) :pattern ((select (select "+m+" (sref "+s+")) i))))")
	if k > 0 {
		for i := 0; i < k; i++ {
			vc.assume(n, fmt.Sprintf("(= (select (select %s %s) (+ (slen %s) %d)) (select (select %s (sref %s)) %d))", m, r, s, i, m, t, i))
		}
	} else {
		vc.assume(n, "(forall ((i Int)) (! (=> (and (<= (slen "+s+") i) (< i (+ (slen "+s+") (slen "+t+")))) (= (select (select "+m+" "+r+") i) (select (select "+m+" (sref "+t+")) (- i (slen "+s+"))))) :pattern ((select (select "+m+" "+r+") i))))")
		vc.assume(n, "(forall ((i Int)) (! (=> (and (<= 0 i) (< i (slen "+t+"))) (= (select (select "+m+" "+r+") (+ i (slen "+s+"))) (select (select "+m+" (sref "+t+")) i))) :pattern ((select (select "+m+" (sref "+t+")) i))))")
	}
}

func (vc *VC) varargLen(v ssa.Value) int {
	if s, ok := v.(*ssa.Slice); ok && s.Low == nil && s.High == nil {
		if pt, ok := s.X.Type().Underlying().(*types.Pointer); ok {
			if at, ok := pt.Elem().Underlying().(*types.Array); ok {
				return int(at.Len())
			}
		}
	}
	return 0
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}
