package main

import (
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// initInfo: stores and map updates that initialise a freshly allocated object before anything else can see it.
type initInfo struct {
	stores map[*ssa.Store]bool
	keys   map[ssa.Value]map[string]bool       // alloc -> initialised location keys
	mupd   map[*ssa.MapUpdate]bool             // init updates
	mlast  map[*ssa.MapUpdate][]*ssa.MapUpdate // last init update -> all of them
	mmade  map[*ssa.MakeMap]bool               // make whose contents are given by init updates
}

// rootAlloc returns the allocation an address is derived from and a key for the location inside it.
func rootAlloc(v ssa.Value) (*ssa.Alloc, string) {
	switch a := v.(type) {
	case *ssa.Alloc:
		return a, ""
	case *ssa.FieldAddr:
		r, k := rootAlloc(a.X)
		if r == nil {
			return nil, ""
		}
		return r, k + "." + a.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(a.Field).Name()
	case *ssa.IndexAddr:
		if _, ok := a.X.Type().Underlying().(*types.Pointer); !ok {
			return nil, ""
		}
		r, k := rootAlloc(a.X)
		if r == nil {
			return nil, ""
		}
		c, ok := a.Index.(*ssa.Const)
		if !ok {
			return nil, ""
		}
		return r, k + "[" + c.Value.ExactString() + "]"
	}
	return nil, ""
}

func (p *Prog) inits(fn *ssa.Function) *initInfo {
	ii := &initInfo{stores: map[*ssa.Store]bool{}, keys: map[ssa.Value]map[string]bool{}, mupd: map[*ssa.MapUpdate]bool{}, mlast: map[*ssa.MapUpdate][]*ssa.MapUpdate{}, mmade: map[*ssa.MakeMap]bool{}}
	for _, b := range fn.Blocks {
		open := map[*ssa.Alloc]bool{}
		openM := map[*ssa.MakeMap][]*ssa.MapUpdate{}
		closeM := func(m *ssa.MakeMap) {
			us := openM[m]
			if len(us) > 0 {
				ii.mmade[m] = true
				ii.mlast[us[len(us)-1]] = us
				for _, u := range us {
					ii.mupd[u] = true
				}
			}
			delete(openM, m)
		}
		for _, in := range b.Instrs {
			switch v := in.(type) {
			case *ssa.Alloc:
				open[v] = true
				ii.keys[v] = map[string]bool{}
				continue
			case *ssa.MakeMap:
				openM[v] = []*ssa.MapUpdate{}
				continue
			case *ssa.FieldAddr:
				if r, _ := rootAlloc(v); r != nil && open[r] {
					continue
				}
			case *ssa.IndexAddr:
				if r, _ := rootAlloc(v); r != nil && open[r] {
					continue
				}
			case *ssa.DebugRef:
				continue
			case *ssa.Store:
				r, k := rootAlloc(v.Addr)
				if r != nil && open[r] && !ii.keys[r][k] {
					vr, _ := rootAlloc(v.Val)
					el := deref(v.Addr.Type())
					if (vr == nil || vr != r) && !(p.transparent(el)) && !isArr(el) {
						ii.stores[v] = true
						ii.keys[r][k] = true
						if vr != nil {
							delete(open, vr)
						}
						if m, ok := v.Val.(*ssa.MakeMap); ok {
							closeM(m)
						}
						continue
					}
				}
			case *ssa.MapUpdate:
				if m, ok := v.Map.(*ssa.MakeMap); ok {
					us, isOpen := openM[m]
					if isOpen {
						c, isC := v.Key.(*ssa.Const)
						dup := false
						for _, u := range us {
							if isC && u.Key.(*ssa.Const).Value.ExactString() == c.Value.ExactString() {
								dup = true
							}
						}
						if isC && !dup && v.Value != v.Map {
							openM[m] = append(us, v)
							// the value escapes
							if r, _ := rootAlloc(v.Value); r != nil {
								delete(open, r)
							}
							if m2, ok := v.Value.(*ssa.MakeMap); ok {
								closeM(m2)
							}
							continue
						}
					}
				}
			}
			var ops []*ssa.Value
			for _, o := range in.Operands(ops) {
				if *o == nil {
					continue
				}
				if r, _ := rootAlloc(*o); r != nil {
					delete(open, r)
				}
				if m, ok := (*o).(*ssa.MakeMap); ok {
					closeM(m)
				}
			}
		}
		for m := range openM {
			closeM(m)
		}
	}
	return ii
}

func isArr(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// ---- effects: heap components a function may write ----

type Effects struct {
	w    *World
	memo map[*ssa.Function]map[string]bool
	ini  map[*ssa.Function]*initInfo
}

func (w *World) newEffects() *Effects {
	e := &Effects{w: w, memo: map[*ssa.Function]map[string]bool{}, ini: map[*ssa.Function]*initInfo{}}
	for {
		n := 0
		for _, s := range e.memo {
			n += len(s)
		}
		for _, name := range w.p.names {
			e.compute(w.p.funcs[name], map[*ssa.Function]bool{})
		}
		m := 0
		for _, s := range e.memo {
			m += len(s)
		}
		if n == m {
			return e
		}
	}
}

func (e *Effects) initsOf(fn *ssa.Function) *initInfo {
	if i, ok := e.ini[fn]; ok {
		return i
	}
	i := e.w.p.inits(fn)
	e.ini[fn] = i
	return i
}

func (e *Effects) compute(fn *ssa.Function, stack map[*ssa.Function]bool) map[string]bool {
	s := e.memo[fn]
	if s == nil {
		s = map[string]bool{}
		e.memo[fn] = s
	}
	if stack[fn] {
		return s
	}
	stack[fn] = true
	defer delete(stack, fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for c := range e.instr(fn, in, stack) {
				s[c] = true
			}
		}
	}
	return s
}

func (e *Effects) addrComps(v ssa.Value) []string {
	w := e.w
	el := deref(v.Type())
	switch a := v.(type) {
	case *ssa.FieldAddr:
		st := deref(a.X.Type())
		if ix := elemRoot(a); ix != nil {
			return []string{w.memComp(elemType(ix.X.Type()))}
		}
		ft := st.Underlying().(*types.Struct).Field(a.Field).Type()
		if w.p.transparent(ft) {
			return e.structComps(ft)
		}
		if w.valueMode(st) {
			return []string{w.cellComp(st)}
		}
		c, _ := w.fieldLoc(st, a.Field, "0")
		return []string{c}
	case *ssa.IndexAddr:
		return []string{w.memComp(elemType(a.X.Type()))}
	}
	if w.p.transparent(el) {
		return e.structComps(el)
	}
	if isArr(el) {
		return []string{w.memComp(elemType(el))}
	}
	return []string{w.cellComp(el)}
}

func (e *Effects) structComps(t types.Type) []string {
	var r []string
	for _, l := range e.w.allFieldLocs(t, "") {
		r = append(r, l.comp)
	}
	return r
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	}
	return t
}

// elemRoot returns the IndexAddr a field address is inside of.
func elemRoot(v ssa.Value) *ssa.IndexAddr {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		return elemRoot(a.X)
	case *ssa.IndexAddr:
		return a
	}
	return nil
}

func (w *World) valueMode(t types.Type) bool {
	return tkey(t) == "github.com/xeipuuv/gojsonreference.JsonReference"
}

func (e *Effects) instr(fn *ssa.Function, in ssa.Instruction, stack map[*ssa.Function]bool) map[string]bool {
	w := e.w
	r := map[string]bool{}
	add := func(cs ...string) {
		for _, c := range cs {
			r[c] = true
		}
	}
	switch v := in.(type) {
	case *ssa.Store:
		if !e.initsOf(fn).stores[v] {
			add(e.addrComps(v.Addr)...)
		}
	case *ssa.MapUpdate:
		if !e.initsOf(fn).mupd[v] {
			d, va, l := w.mapComps(v.Map.Type())
			add(d, va, l)
		}
	case ssa.CallInstruction:
		c := v.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "delete":
				d, va, l := w.mapComps(c.Args[0].Type())
				add(d, va, l)
			case "copy":
				add(w.memComp(elemType(c.Args[0].Type())))
			}
			return r
		}
		if c.IsInvoke() {
			if con := w.ifaceContract(c); con != nil {
				add(w.contractComps(con, ifaceParamTypes(c))...)
			} else {
				add(e.externComps(c, nil, stack)...)
			}
			return r
		}
		callee := c.StaticCallee()
		if callee == nil {
			add(e.externComps(c, nil, stack)...)
			return r
		}
		if con := w.externContract(callee); con != nil {
			add(w.contractComps(con, sigParamTypes(callee))...)
			return r
		}
		if w.inPackage(callee) && len(callee.Blocks) > 0 {
			for x := range e.compute(callee, stack) {
				r[x] = true
			}
		} else {
			add(e.externComps(c, callee, stack)...)
		}
	}
	return r
}

// externComps: the components a dependency without a contract may write through its arguments.
func (e *Effects) externComps(c *ssa.CallCommon, callee *ssa.Function, stack map[*ssa.Function]bool) []string {
	if readOnlyExtern(callee) {
		return nil
	}
	var r []string
	for _, a := range c.Args {
		for {
			switch x := a.(type) {
			case *ssa.MakeInterface:
				a = x.X
				continue
			case *ssa.ChangeType:
				a = x.X
				continue
			case *ssa.ChangeInterface:
				a = x.X
				continue
			case *ssa.MakeClosure:
				for k := range e.compute(x.Fn.(*ssa.Function), stack) {
					r = append(r, k)
				}
			}
			break
		}
		switch a.Type().Underlying().(type) {
		case *types.Slice:
			r = append(r, e.w.memComp(elemType(a.Type())))
		case *types.Map:
			d, v, _ := e.w.mapComps(a.Type())
			r = append(r, d, v)
		}
	}
	return r
}

func (w *World) inPackage(fn *ssa.Function) bool {
	return fn.Pkg == w.p.spkg || fn.Parent() != nil && w.inPackage(fn.Parent()) || fn.Synthetic != "" && fn.Object() != nil && fn.Object().Pkg() == w.p.tpkg
}

func sigParamTypes(fn *ssa.Function) []types.Type {
	var ts []types.Type
	if len(fn.Params) > 0 {
		for _, p := range fn.Params {
			ts = append(ts, p.Type())
		}
		return ts
	}
	sig := fn.Signature
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func ifaceParamTypes(c *ssa.CallCommon) []types.Type {
	ts := []types.Type{c.Value.Type()}
	sig := c.Method.Type().(*types.Signature)
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return ts
}

func (w *World) ifaceContract(c *ssa.CallCommon) *Contract {
	t := types.Unalias(c.Value.Type())
	if n, ok := t.(*types.Named); ok {
		name := n.Obj().Name()
		if n.Obj().Pkg() != nil && n.Obj().Pkg() != w.p.tpkg {
			name = n.Obj().Pkg().Name() + "." + name
		}
		if con := w.spec.Cons["iface:"+name+"."+c.Method.Name()]; con != nil {
			if len(con.Params) == len(ifaceParamTypes(c)) {
				return con
			}
		}
	}
	return nil
}

func (w *World) externName(fn *ssa.Function) string {
	return fn.RelString(w.p.tpkg)
}

func (w *World) externContract(fn *ssa.Function) *Contract {
	if w.inPackage(fn) {
		return nil
	}
	n := w.externName(fn)
	if con := w.spec.Cons[n]; con != nil && con.Kind == "extern" && len(con.Params) == len(sigParamTypes(fn)) {
		return con
	}
	return nil
}

// contractComps lists the components named by a contract's modifies clauses.
func (w *World) contractComps(con *Contract, pts []types.Type) []string {
	cnt := 0
	env := &Env{w: w, vars: map[string]TV{}, st: &State{heap: map[string]string{}, alloc: "0"}, fresh: &cnt}
	env.old = env.st
	for i, p := range con.Params {
		env.vars[p] = TV{pts[i], w.sortOf(pts[i]), "dummy"}
	}
	var r []string
	for _, c := range con.get("modifies") {
		for _, m := range c.Mods {
			for _, l := range env.modLocs(m) {
				r = append(r, l.comp)
			}
		}
	}
	return r
}

var _ = constant.BoolVal
