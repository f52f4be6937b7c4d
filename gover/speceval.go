package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"
)

// TV is a typed SMT term of the specification language.
type TV struct {
	T types.Type // Go type, nil for purely logical sorts
	S string     // SMT sort
	E string     // term
}

// State is one point of the symbolic heap.
type State struct {
	heap  map[string]string
	alloc string
}

func (s *State) get(c string) string {
	if t, ok := s.heap[c]; ok {
		return t
	}
	return "H0." + c
}

func (s *State) clone() *State {
	h := make(map[string]string, len(s.heap))
	for k, v := range s.heap {
		h[k] = v
	}
	return &State{heap: h, alloc: s.alloc}
}

// Env is an evaluation environment of the specification language.
type Env struct {
	w     *World
	vars  map[string]TV
	st    *State
	old   *State
	pre   *State // loop entry
	depth int
	fresh *int
}

type specErr struct{ msg string }

func (e *Env) fail(f string, a ...interface{}) {
	panic(specErr{fmt.Sprintf(f, a...)})
}

// ---- types ----

func (w *World) resolveType(s string) (types.Type, string) {
	s = strings.TrimSpace(s)
	switch s {
	case "real":
		return nil, "Real"
	case "ref":
		return nil, "Int"
	case "Flt", "Opq", "Pay", "Slice":
		return nil, s
	case "any", "interface{}":
		return types.NewInterfaceType(nil, nil), "Any"
	case "error":
		return types.Universe.Lookup("error").Type(), "Any"
	}
	if strings.HasPrefix(s, "set[") {
		_, ks := w.resolveType(s[4 : len(s)-1])
		return nil, "(Array " + ks + " Bool)"
	}
	if strings.HasPrefix(s, "smap[") {
		_, ks := w.resolveType(s[5 : len(s)-1])
		return nil, "(Array Str " + ks + ")"
	}
	if strings.HasPrefix(s, "arr[") {
		_, ks := w.resolveType(s[4 : len(s)-1])
		return nil, "(Array Int " + ks + ")"
	}
	t := w.goType(s)
	return t, w.sortOf(t)
}

func (w *World) goType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case s == "any" || s == "interface{}":
		return types.NewInterfaceType(nil, nil)
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(w.goType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(w.goType(s[2:]))
	case strings.HasPrefix(s, "map["):
		d := 0
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					return types.NewMap(w.goType(s[4:i]), w.goType(s[i+1:]))
				}
			}
		}
	}
	if o := types.Universe.Lookup(s); o != nil {
		return o.Type()
	}
	if o := w.p.tpkg.Scope().Lookup(s); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if i := strings.LastIndex(s, "."); i > 0 {
		if pk := w.p.findPkg(s[:i]); pk != nil {
			if o := pk.Scope().Lookup(s[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	panic(specErr{"unknown type " + s})
}

func (p *Prog) findPkg(name string) *types.Package {
	seen := map[*types.Package]bool{}
	var walk func(pk *types.Package, d int) *types.Package
	walk = func(pk *types.Package, d int) *types.Package {
		if seen[pk] {
			return nil
		}
		seen[pk] = true
		for _, i := range pk.Imports() {
			if i.Name() == name || i.Path() == name {
				return i
			}
		}
		if d == 0 {
			return nil
		}
		for _, i := range pk.Imports() {
			if r := walk(i, d-1); r != nil {
				return r
			}
		}
		return nil
	}
	return walk(p.tpkg, 6)
}

// ---- evaluation ----

func (e *Env) with(vars map[string]TV) *Env {
	n := *e
	n.vars = map[string]TV{}
	for k, v := range e.vars {
		n.vars[k] = v
	}
	for k, v := range vars {
		n.vars[k] = v
	}
	return &n
}

func (e *Env) boolExpr(x *Expr) string {
	v := e.eval(x)
	if v.S != "Bool" {
		e.fail("expected bool, got %s", v.S)
	}
	return v.E
}

var tInt = types.Typ[types.Int]
var tBool = types.Typ[types.Bool]
var tString = types.Typ[types.String]
var tAny types.Type = types.NewInterfaceType(nil, nil)

func bTV(s string) TV { return TV{tBool, "Bool", s} }
func iTV(s string) TV { return TV{tInt, "Int", s} }

func (e *Env) coerce(v TV, T types.Type, S string) TV {
	if v.S == "nil" {
		switch S {
		case "Int":
			return TV{T, S, "0"}
		case "Any":
			return TV{T, S, "nilAny"}
		case "Slice":
			return TV{T, S, "(mkSlice 0 0)"}
		}
		e.fail("nil for sort %s", S)
	}
	if v.S == S {
		return v
	}
	if S == "Any" && v.T != nil {
		return TV{T, "Any", e.w.box(v.T, v.E)}
	}
	if S == "Real" && v.S == "Int" {
		return TV{T, "Real", "(to_real " + v.E + ")"}
	}
	e.fail("cannot use %s (%v) as %s: %s", v.S, v.T, S, v.E)
	return v
}

func (e *Env) eval(x *Expr) TV {
	w := e.w
	switch x.Op {
	case "int":
		return iTV(x.Name)
	case "str":
		return TV{tString, "Str", w.lit(x.Name)}
	case "ident":
		return e.ident(x.Name)
	case "un":
		v := e.eval(x.Args[0])
		if x.Name == "!" {
			return bTV("(not " + v.E + ")")
		}
		return TV{v.T, v.S, "(- " + v.E + ")"}
	case "deref":
		return e.deref(e.eval(x.Args[0]))
	case "addr":
		a := x.Args[0]
		if a.Op == "field" {
			var b TV
			if a.Args[0].Op == "ident" {
				if _, bound := e.vars[a.Args[0].Name]; !bound {
					if g, ok := w.p.tpkg.Scope().Lookup(a.Args[0].Name).(*types.Var); ok && w.p.transparent(g.Type()) {
						b = TV{types.NewPointer(g.Type()), "Int", w.global(a.Args[0].Name)}
					}
				}
			}
			if b.E == "" {
				b = e.eval(a.Args[0])
			}
			st := deref(b.T)
			idx, ft := e.findField(st, a.Name)
			ref := b.E
			cur := st
			for k, i := range idx {
				if k == len(idx)-1 {
					return TV{types.NewPointer(ft), "Int", w.interior(cur, i, ref)}
				}
				f := cur.Underlying().(*types.Struct).Field(i)
				if _, ok := f.Type().Underlying().(*types.Pointer); ok {
					ref = "(select " + e.st.get(w.fieldComp(cur, i)) + " " + ref + ")"
					cur = deref(f.Type())
				} else {
					ref = w.interior(cur, i, ref)
					cur = f.Type()
				}
			}
		}
		if a.Op == "ident" {
			if g, ok := w.p.tpkg.Scope().Lookup(a.Name).(*types.Var); ok {
				return TV{types.NewPointer(g.Type()), "Int", w.global(a.Name)}
			}
		}
		e.fail("bad address expression")
	case "field":
		return e.field(e.eval(x.Args[0]), x.Name)
	case "index":
		b := e.eval(x.Args[0])
		i := e.eval(x.Args[1])
		return e.index(b, i)
	case "assert":
		v := e.eval(x.Args[0])
		T := w.goType(x.TStr)
		S := w.sortOf(T)
		return TV{T, S, w.unpay(S, v.E)}
	case "bin":
		return e.bin(x)
	case "ite":
		c := e.boolExpr(x.Args[0])
		a, b := e.eval(x.Args[1]), e.eval(x.Args[2])
		a, b = e.unify(a, b)
		return TV{a.T, a.S, "(ite " + c + " " + a.E + " " + b.E + ")"}
	case "let":
		v := e.eval(x.Args[0])
		return e.with(map[string]TV{x.Name: v}).eval(x.Args[1])
	case "quant":
		vars := map[string]TV{}
		var bs []string
		for _, b := range x.Bind {
			T, S := w.resolveType(b.Type)
			*e.fresh++
			n := fmt.Sprintf("%s!%d", sanitize(b.Name), *e.fresh)
			vars[b.Name] = TV{T, S, n}
			w.bound[n] = true
			bs = append(bs, "("+n+" "+S+")")
		}
		ne := e.with(vars)
		body := ne.boolExpr(x.Args[0])
		var pats string
		for _, tr := range x.Trig {
			var ts []string
			for _, t := range tr {
				ts = append(ts, ne.eval(t).E)
			}
			pats += " :pattern (" + strings.Join(ts, " ") + ")"
		}
		if pats != "" {
			body = "(! " + body + pats + ")"
		}
		return bTV("(" + x.Name + " (" + strings.Join(bs, " ") + ") " + body + ")")
	case "call":
		return e.call(x)
	}
	e.fail("bad expression op %s", x.Op)
	return TV{}
}

func (e *Env) ident(n string) TV {
	w := e.w
	if v, ok := e.vars[n]; ok {
		return v
	}
	switch n {
	case "true", "false":
		return bTV(n)
	case "nil":
		return TV{nil, "nil", "nil"}
	case "alloc":
		return iTV(e.st.alloc)
	}
	if g, ok := w.spec.GVars[n]; ok {
		T, S := w.resolveType(g.TStr)
		c := w.comp("GV."+n, S)
		return TV{T, S, e.st.get(c)}
	}
	if o := w.p.tpkg.Scope().Lookup(n); o != nil {
		switch v := o.(type) {
		case *types.Const:
			T := v.Type()
			if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				T = types.Default(T)
			}
			return TV{T, w.sortOf(T), w.constTerm(v.Val(), T)}
		case *types.Var:
			return e.load(v.Type(), w.global(n))
		}
	}
	e.fail("unknown identifier %s", n)
	return TV{}
}

// load reads a value of type T stored at reference ref.
func (e *Env) load(T types.Type, ref string) TV {
	return TV{T, e.w.sortOf(T), e.w.loadAt(e.st, T, ref)}
}

func (w *World) loadAt(st *State, T types.Type, ref string) string {
	if w.p.transparent(T) {
		s := T.Underlying().(*types.Struct)
		S := w.sortOf(T)
		if s.NumFields() == 0 {
			return "mk_" + S
		}
		var fs []string
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, w.loadField(st, T, i, ref))
		}
		return "(mk_" + S + " " + strings.Join(fs, " ") + ")"
	}
	return "(select " + st.get(w.cellComp(T)) + " " + ref + ")"
}

func (w *World) loadField(st *State, T types.Type, i int, ref string) string {
	ft := T.Underlying().(*types.Struct).Field(i).Type()
	if w.p.transparent(ft) {
		return w.loadAt(st, ft, w.interior(T, i, ref))
	}
	c, r := w.fieldLoc(T, i, ref)
	return "(select " + st.get(c) + " " + r + ")"
}

func (e *Env) deref(v TV) TV {
	if v.T == nil {
		e.fail("deref of untyped term")
	}
	pt, ok := v.T.Underlying().(*types.Pointer)
	if !ok {
		e.fail("deref of non-pointer %v", v.T)
	}
	return e.load(pt.Elem(), v.E)
}

func (e *Env) findField(st types.Type, name string) ([]int, types.Type) {
	obj, idx, _ := types.LookupFieldOrMethod(st, true, e.w.p.tpkg, name)
	if v, ok := obj.(*types.Var); ok {
		return idx, v.Type()
	}
	return nil, nil
}

func (e *Env) field(b TV, name string) TV {
	w := e.w
	if b.T == nil {
		e.fail("field %s of untyped term %s", name, b.E)
	}
	if pt, ok := b.T.Underlying().(*types.Pointer); ok {
		el := pt.Elem()
		if g, ok := w.gfield(el, name); ok {
			T, S := w.resolveType(g.TStr)
			g.Sort = S
			return TV{T, S, "(select " + e.st.get(w.ghostComp(g)) + " " + b.E + ")"}
		}
		idx, ft := e.findField(el, name)
		if idx == nil {
			e.fail("no field %s in %v", name, el)
		}
		ref := b.E
		cur := el
		for k, i := range idx {
			f := cur.Underlying().(*types.Struct).Field(i)
			if k == len(idx)-1 {
				return TV{ft, w.sortOf(ft), w.loadField(e.st, cur, i, ref)}
			}
			if _, isp := f.Type().Underlying().(*types.Pointer); isp {
				ref = w.loadField(e.st, cur, i, ref)
				cur = deref(f.Type())
			} else {
				ref = w.interior(cur, i, ref)
				cur = f.Type()
			}
		}
	}
	if _, ok := b.T.Underlying().(*types.Struct); ok {
		idx, ft := e.findField(b.T, name)
		if len(idx) == 1 && w.p.transparent(b.T) {
			S := w.sortOf(b.T)
			return TV{ft, w.sortOf(ft), "(" + S + "." + name + " " + b.E + ")"}
		}
		if len(idx) == 1 {
			return TV{ft, w.sortOf(ft), "(" + w.opqField(b.T, idx[0]) + " " + b.E + ")"}
		}
	}
	e.fail("field %s of %v", name, b.T)
	return TV{}
}

func (w *World) gfield(t types.Type, name string) (*GhostField, bool) {
	g, ok := w.spec.GFields[gtype(t)+"#"+name]
	if !ok {
		if n, isN := types.Unalias(t).(*types.Named); isN && n.Obj().Pkg() == w.p.tpkg {
			g, ok = w.spec.GFields[n.Obj().Name()+"#"+name]
		}
	}
	return g, ok
}

func gtype(t types.Type) string { return tkey(t) }

// opqField is the accessor of a field of a struct of another package held by value.
func (w *World) opqField(t types.Type, i int) string {
	f := t.Underlying().(*types.Struct).Field(i)
	n := "of_" + short(tkey(t)) + "." + f.Name()
	return w.declFun(n, fmt.Sprintf("(declare-fun %s (Opq) %s)", n, w.sortOf(f.Type())))
}

func (e *Env) index(b, i TV) TV {
	w := e.w
	if b.T == nil {
		// logical array
		if strings.HasPrefix(b.S, "(Array ") {
			parts := strings.Fields(strings.Trim(b.S, "()"))
			T := types.Type(nil)
			switch parts[len(parts)-1] {
			case "Bool":
				T = tBool
			case "Any":
				T = tAny
			case "Str":
				T = tString
			}
			return TV{T, parts[len(parts)-1], "(select " + b.E + " " + i.E + ")"}
		}
		e.fail("index of untyped term")
	}
	switch u := b.T.Underlying().(type) {
	case *types.Slice:
		row := "(select " + e.st.get(w.memComp(u.Elem())) + " (sref " + b.E + "))"
		w.touch(row, "(Array Int "+w.sortOf(u.Elem())+")")
		return TV{u.Elem(), w.sortOf(u.Elem()), "(select " + row + " " + i.E + ")"}
	case *types.Map:
		_, v, _ := w.mapComps(b.T)
		k := e.coerce(i, u.Key(), w.sortOf(u.Key()))
		row := "(select " + e.st.get(v) + " " + b.E + ")"
		w.touch(row, "(Array "+w.sortOf(u.Key())+" "+w.sortOf(u.Elem())+")")
		return TV{u.Elem(), w.sortOf(u.Elem()), "(select " + row + " " + k.E + ")"}
	case *types.Basic:
		return iTV("(strat " + b.E + " " + i.E + ")")
	}
	e.fail("index of %v", b.T)
	return TV{}
}

func (e *Env) unify(a, b TV) (TV, TV) {
	if a.S == b.S {
		return a, b
	}
	if a.S == "nil" {
		return e.coerce(a, b.T, b.S), b
	}
	if b.S == "nil" {
		return a, e.coerce(b, a.T, a.S)
	}
	if a.S == "Any" {
		return a, e.coerce(b, a.T, "Any")
	}
	if b.S == "Any" {
		return e.coerce(a, b.T, "Any"), b
	}
	if a.S == "Real" {
		return a, e.coerce(b, nil, "Real")
	}
	if b.S == "Real" {
		return e.coerce(a, nil, "Real"), b
	}
	e.fail("cannot unify %s and %s (%s, %s)", a.S, b.S, a.E, b.E)
	return a, b
}

func (e *Env) bin(x *Expr) TV {
	w := e.w
	switch x.Name {
	case "&&", "||":
		op := "and"
		if x.Name == "||" {
			op = "or"
		}
		return bTV("(" + op + " " + e.boolExpr(x.Args[0]) + " " + e.boolExpr(x.Args[1]) + ")")
	case "==>":
		return bTV("(=> " + e.boolExpr(x.Args[0]) + " " + e.boolExpr(x.Args[1]) + ")")
	case "<==>":
		return bTV("(= " + e.boolExpr(x.Args[0]) + " " + e.boolExpr(x.Args[1]) + ")")
	case "in":
		a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
		if b.T == nil {
			return bTV("(select " + b.E + " " + a.E + ")")
		}
		switch u := b.T.Underlying().(type) {
		case *types.Map:
			d, _, _ := w.mapComps(b.T)
			k := e.coerce(a, u.Key(), w.sortOf(u.Key()))
			row := "(select " + e.st.get(d) + " " + b.E + ")"
			w.touch(row, "(Array "+w.sortOf(u.Key())+" Bool)")
			return bTV("(select " + row + " " + k.E + ")")
		case *types.Slice:
			*e.fresh++
			n := fmt.Sprintf("in!%d", *e.fresh)
			el := e.index(b, iTV(n))
			ca := e.coerce(a, el.T, el.S)
			return bTV("(exists ((" + n + " Int)) (! (and (<= 0 " + n + ") (< " + n + " (slen " + b.E + ")) (= " + el.E + " " + ca.E + ")) :pattern (" + el.E + ")))")
		}
		e.fail("bad 'in'")
	}
	a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
	a, b = e.unify(a, b)
	switch x.Name {
	case "==":
		return bTV("(= " + a.E + " " + b.E + ")")
	case "!=":
		return bTV("(not (= " + a.E + " " + b.E + "))")
	case "<", "<=", ">", ">=":
		if a.S == "Str" {
			e.fail("string order")
		}
		return bTV("(" + x.Name + " " + a.E + " " + b.E + ")")
	case "+":
		if a.S == "Str" {
			return TV{tString, "Str", "(cat " + a.E + " " + b.E + ")"}
		}
		return TV{a.T, a.S, "(+ " + a.E + " " + b.E + ")"}
	case "-", "*":
		return TV{a.T, a.S, "(" + x.Name + " " + a.E + " " + b.E + ")"}
	case "/":
		if a.S == "Real" {
			return TV{a.T, a.S, "(/ " + a.E + " " + b.E + ")"}
		}
	}
	e.fail("bad operator %s", x.Name)
	return TV{}
}

func (e *Env) call(x *Expr) TV {
	w := e.w
	switch x.Name {
	case "old", "entry":
		if e.old == nil {
			e.fail("old not available here")
		}
		n := *e
		n.st = e.old
		return n.eval(x.Args[0])
	case "pre":
		if e.pre == nil {
			e.fail("pre not available here")
		}
		n := *e
		n.st = e.pre
		return n.eval(x.Args[0])
	case "len":
		v := e.eval(x.Args[0])
		if v.S == "Slice" {
			return iTV("(slen " + v.E + ")")
		}
		if v.S == "Str" {
			return iTV("(strlen " + v.E + ")")
		}
		if mt, ok := v.T.Underlying().(*types.Map); ok {
			d, _, _ := w.mapComps(v.T)
			return iTV("(" + w.cardFun(w.sortOf(mt.Key())) + " (select " + e.st.get(d) + " " + v.E + "))")
		}
		e.fail("len of %s", v.S)
	case "typeis":
		v := e.eval(x.Args[0])
		T := w.goType(x.TStr)
		return bTV(fmt.Sprintf("(= (tag %s) %d)", v.E, w.tag(T)))
	case "as":
		v := e.eval(x.Args[0])
		T := w.goType(x.TStr)
		S := w.sortOf(T)
		if v.S == "Any" && S != "Any" {
			return TV{T, S, w.unpay(S, v.E)}
		}
		if v.S == S {
			return TV{T, S, v.E}
		}
		e.fail("as: %s to %s", v.S, S)
	case "box":
		v := e.eval(x.Args[0])
		return e.coerce(v, tAny, "Any")
	case "tag":
		return iTV("(tag " + e.eval(x.Args[0]).E + ")")
	case "kind":
		return iTV("(kindOf (tag " + e.eval(x.Args[0]).E + "))")
	case "ref":
		v := e.eval(x.Args[0])
		if v.S == "Slice" {
			return iTV("(sref " + v.E + ")")
		}
		return iTV(v.E)
	case "fresh": // allocated after the old state
		v := e.eval(x.Args[0])
		return bTV("(and (> (base " + e.refOf(v) + ") " + e.old.alloc + ") (<= (base " + e.refOf(v) + ") " + e.st.alloc + "))")
	case "live": // allocated in the current state
		v := e.eval(x.Args[0])
		return bTV("(<= (base " + e.refOf(v) + ") " + e.st.alloc + ")")
	case "wasalive":
		v := e.eval(x.Args[0])
		return bTV("(<= (base " + e.refOf(v) + ") " + e.old.alloc + ")")
	case "dom":
		v := e.eval(x.Args[0])
		d, _, _ := w.mapComps(v.T)
		return TV{nil, w.rowSort(d), "(select " + e.st.get(d) + " " + v.E + ")"}
	case "vals":
		v := e.eval(x.Args[0])
		_, d, _ := w.mapComps(v.T)
		return TV{nil, w.rowSort(d), "(select " + e.st.get(d) + " " + v.E + ")"}
	case "row":
		v := e.eval(x.Args[0])
		c := w.memComp(v.T.Underlying().(*types.Slice).Elem())
		return TV{nil, w.rowSort(c), "(select " + e.st.get(c) + " (sref " + v.E + "))"}
	case "str": // contents of a byte slice
		v := e.eval(x.Args[0])
		return TV{tString, "Str", w.bytesStr(e.st, v.E)}
	case "setadd":
		a, b := e.eval(x.Args[0]), e.eval(x.Args[1])
		return TV{a.T, a.S, "(store " + a.E + " " + b.E + " true)"}
	case "upd":
		a, b, c := e.eval(x.Args[0]), e.eval(x.Args[1]), e.eval(x.Args[2])
		return TV{a.T, a.S, "(store " + a.E + " " + b.E + " " + c.E + ")"}
	case "isint":
		v := e.eval(x.Args[0])
		return bTV("(is_int " + v.E + ")")
	}
	if m, ok := w.spec.Macros[x.Name]; ok {
		if len(m.Params) != len(x.Args) {
			e.fail("%s takes %d arguments", x.Name, len(m.Params))
		}
		if e.depth > 40 {
			e.fail("macro recursion in %s", x.Name)
		}
		vars := map[string]TV{}
		for i, p := range m.Params {
			T, S := w.resolveType(p.Type)
			v := e.coerce(e.eval(x.Args[i]), T, S)
			if T != nil {
				v.T = T
			}
			vars[p.Name] = v
		}
		n := *e
		n.vars = vars
		n.depth++
		return n.eval(m.Body)
	}
	if g, ok := w.spec.Funcs[x.Name]; ok {
		if len(g.Params) != len(x.Args) {
			e.fail("%s takes %d arguments", x.Name, len(g.Params))
		}
		var as, ps []string
		for i, p := range g.Params {
			T, S := w.resolveType(p.Type)
			as = append(as, e.coerce(e.eval(x.Args[i]), T, S).E)
			ps = append(ps, S)
		}
		T, S := w.resolveType(g.Ret)
		w.declFun("u_"+g.Name, fmt.Sprintf("(declare-fun u_%s (%s) %s)", g.Name, strings.Join(ps, " "), S))
		if len(as) == 0 {
			return TV{T, S, "u_" + g.Name}
		}
		return TV{T, S, "(u_" + g.Name + " " + strings.Join(as, " ") + ")"}
	}
	e.fail("unknown function %s", x.Name)
	return TV{}
}

func (w *World) bytesStr(st *State, slice string) string {
	c := w.memComp(types.Typ[types.Byte])
	w.declFun("bytesStr", "(declare-fun bytesStr ((Array Int Int) Int) Str)")
	return "(bytesStr (select " + st.get(c) + " (sref " + slice + ")) (slen " + slice + "))"
}

func (w *World) rowSort(c string) string {
	s := w.comps[c]
	return strings.TrimSuffix(strings.TrimPrefix(s, "(Array Int "), ")")
}

func (e *Env) refOf(v TV) string {
	switch v.S {
	case "Slice":
		return "(sref " + v.E + ")"
	case "Int":
		return v.E
	case "Any":
		return "(uI (pay " + v.E + "))"
	}
	e.fail("no reference in sort %s", v.S)
	return ""
}

// Loc is a modifiable location: component plus reference ("" = whole component).
type Loc struct {
	comp, ref string
}

// modLocs evaluates a modifies expression.
func (e *Env) modLocs(x *Expr) []Loc {
	w := e.w
	switch x.Op {
	case "field":
		b := e.eval(x.Args[0])
		el := deref(b.T)
		if x.Name == "all__" || x.Name == "all" {
			return w.allFieldLocs(el, b.E)
		}
		if g, ok := w.gfield(el, x.Name); ok {
			_, g.Sort = w.resolveType(g.TStr)
			return []Loc{{w.ghostComp(g), b.E}}
		}
		idx, ft := e.findField(el, x.Name)
		if idx == nil {
			e.fail("no field %s", x.Name)
		}
		ref, cur := b.E, el
		for k, i := range idx {
			f := cur.Underlying().(*types.Struct).Field(i)
			if k == len(idx)-1 {
				if w.p.transparent(ft) {
					return w.allFieldLocs(ft, w.interior(cur, i, ref))
				}
				c, r := w.fieldLoc(cur, i, ref)
				return []Loc{{c, r}}
			}
			if _, isp := f.Type().Underlying().(*types.Pointer); isp {
				ref = w.loadField(e.st, cur, i, ref)
				cur = deref(f.Type())
			} else {
				ref = w.interior(cur, i, ref)
				cur = f.Type()
			}
		}
	case "deref":
		b := e.eval(x.Args[0])
		el := deref(b.T)
		if w.p.transparent(el) {
			return w.allFieldLocs(el, b.E)
		}
		return []Loc{{w.cellComp(el), b.E}}
	case "ident":
		if g, ok := w.spec.GVars[x.Name]; ok {
			_, S := w.resolveType(g.TStr)
			return []Loc{{w.comp("GV."+x.Name, S), ""}}
		}
		if o, ok := w.p.tpkg.Scope().Lookup(x.Name).(*types.Var); ok {
			return []Loc{{w.cellComp(o.Type()), w.global(x.Name)}}
		}
	case "call":
		switch x.Name {
		case "contents": // of a map or slice
			b := e.eval(x.Args[0])
			if _, ok := b.T.Underlying().(*types.Map); ok {
				d, v, l := w.mapComps(b.T)
				_ = l
				return []Loc{{d, b.E}, {v, b.E}}
			}
			return []Loc{{w.memComp(b.T.Underlying().(*types.Slice).Elem()), "(sref " + b.E + ")"}}
		case "anyfields": // all objects of a struct type
			T := w.goType(x.TStr)
			var r []Loc
			st := T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if w.p.transparent(st.Field(i).Type()) {
					for _, l := range w.allFieldLocs(st.Field(i).Type(), "") {
						r = append(r, Loc{l.comp, ""})
					}
					continue
				}
				c, _ := w.fieldLoc(T, i, "0")
				r = append(r, Loc{c, ""})
			}
			return r
		case "anymap":
			d, v, l := w.mapComps(w.goType(x.TStr))
			_ = l
			return []Loc{{d, ""}, {v, ""}}
		case "anycell":
			return []Loc{{w.cellComp(w.goType(x.TStr)), ""}}
		case "anyelems":
			return []Loc{{w.memComp(w.goType(x.TStr)), ""}}
		case "anyghost": // ghost field of every object of a type
		}
	}
	e.fail("bad modifies expression")
	return nil
}

func (w *World) allFieldLocs(T types.Type, ref string) []Loc {
	var r []Loc
	st := T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		if w.p.transparent(ft) {
			if ref == "" {
				r = append(r, w.allFieldLocs(ft, "")...)
			} else {
				r = append(r, w.allFieldLocs(ft, w.interior(T, i, ref))...)
			}
			continue
		}
		if ref == "" {
			c, _ := w.fieldLoc(T, i, "0")
			r = append(r, Loc{c, ""})
		} else {
			c, rr := w.fieldLoc(T, i, ref)
			r = append(r, Loc{c, rr})
		}
	}
	return r
}

var _ = constant.BoolVal

// touch records a closed row term (contents of a map or slice) used under a quantifier: queries
// mention it outside the quantifier too, so that the frame facts about it are instantiated.
func (w *World) touch(t, sort string) {
	if _, ok := w.touched[t]; ok {
		return
	}
	for _, f := range strings.FieldsFunc(t, func(r rune) bool { return r == '(' || r == ')' || r == ' ' }) {
		if w.bound[f] {
			return
		}
	}
	w.touched[t] = sort
	w.touchOrder = append(w.touchOrder, t)
}

// touches lists the recorded terms a query text mentions.
func (w *World) touches(q string) string {
	var b strings.Builder
	sorts := map[string]string{}
	for _, t := range w.touchOrder {
		if !strings.Contains(q, t) {
			continue
		}
		s := w.touched[t]
		f, ok := sorts[s]
		if !ok {
			f = fmt.Sprintf("touch%d", len(sorts))
			sorts[s] = f
			b.WriteString("(declare-fun " + f + " (" + s + ") Bool)\n")
		}
		b.WriteString("(assert (" + f + " " + t + "))\n")
	}
	return b.String()
}
