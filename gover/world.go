package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"reflect"
	"sort"
	"strings"
)

// World holds the symbols of one verification session.
type World struct {
	bound      map[string]bool
	touched    map[string]string
	touchOrder []string

	p       *Prog
	spec    *Spec
	structs map[string]bool // declared struct sorts
	sdecls  []string
	tags    map[string]int
	tagTyps []types.Type
	lits    map[string]string
	litList []string
	comps   map[string]string // component -> array sort
	compLst []string
	fdecls  []string // uninterpreted helper functions
	fseen   map[string]bool
	extraAx []string
	globals map[string]int
	master  *World
}

func newWorld(p *Prog, s *Spec) *World {
	return &World{bound: map[string]bool{}, touched: map[string]string{}, p: p, spec: s, structs: map[string]bool{}, tags: map[string]int{}, lits: map[string]string{},
		comps: map[string]string{}, fseen: map[string]bool{}, globals: map[string]int{}}
}

// child returns a fresh world that shares the master's sorts.
func (w *World) child() *World {
	n := newWorld(w.p, w.spec)
	n.master = w
	for k := range w.structs {
		n.structs[k] = true
	}
	n.sdecls = append(n.sdecls, w.sdecls...)
	return n
}

func (w *World) declFun(name, decl string) string {
	if !w.fseen[name] {
		w.fseen[name] = true
		w.fdecls = append(w.fdecls, decl)
	}
	return name
}

func (w *World) axiomOnce(key, ax string) {
	if !w.fseen["ax:"+key] {
		w.fseen["ax:"+key] = true
		w.extraAx = append(w.extraAx, ax)
	}
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// sortOf maps a Go type to an SMT sort.
func (w *World) sortOf(t types.Type) string {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		case u.Kind() == types.UntypedNil:
			return "Int"
		}
		return "Opq"
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		return "Any"
	case *types.Struct:
		if !w.p.transparent(t) {
			return "Opq"
		}
		return w.structSort(t, u)
	case *types.Array:
		return "Opq"
	}
	return "Opq"
}

func (w *World) structSort(t types.Type, u *types.Struct) string {
	k := tkey(t)
	name := "S_" + short(k)
	if !w.structs[k] {
		w.structs[k] = true
		var fs []string
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, fmt.Sprintf("(%s.%s %s)", name, u.Field(i).Name(), w.sortOf(u.Field(i).Type())))
		}
		w.sdecls = append(w.sdecls, fmt.Sprintf("(declare-datatypes ((%s 0)) (((mk_%s %s))))", name, name, strings.Join(fs, " ")))
		w.sdecls = append(w.sdecls, fmt.Sprintf("(declare-fun box_%s (%s) Opq)\n(declare-fun unbox_%s (Opq) %s)\n(assert (forall ((x %s)) (! (= (unbox_%s (box_%s x)) x) :pattern ((box_%s x)))))", name, name, name, name, name, name, name, name))
	}
	return name
}

func (w *World) zero(t types.Type) string {
	t = types.Unalias(t)
	return w.zeroSort(w.sortOf(t), t)
}

func (w *World) zeroSort(s string, t types.Type) string {
	switch s {
	case "Bool":
		return "false"
	case "Int":
		return "0"
	case "Str":
		return w.lit("")
	case "Flt":
		return "flt_zero"
	case "Slice":
		return "(mkSlice 0 0)"
	case "Any":
		return "nilAny"
	case "Real":
		return "0.0"
	case "Opq":
		if t != nil {
			n := "zero_" + short(tkey(t))
			w.declFun(n, fmt.Sprintf("(declare-const %s Opq)", n))
			return n
		}
		return "opq_zero"
	}
	if st, ok := t.Underlying().(*types.Struct); ok {
		var fs []string
		for i := 0; i < st.NumFields(); i++ {
			fs = append(fs, w.zero(st.Field(i).Type()))
		}
		if len(fs) == 0 {
			return "mk_" + s
		}
		return "(mk_" + s + " " + strings.Join(fs, " ") + ")"
	}
	return "opq_zero"
}

func (w *World) lit(s string) string {
	if n, ok := w.lits[s]; ok {
		return n
	}
	n := fmt.Sprintf("lit%d", len(w.litList))
	w.lits[s] = n
	w.litList = append(w.litList, s)
	return n
}

func (w *World) tag(t types.Type) int {
	k := tkey(t)
	if n, ok := w.tags[k]; ok {
		return n
	}
	n := len(w.tags) + 1
	w.tags[k] = n
	w.tagTyps = append(w.tagTyps, t)
	return n
}

func goKind(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]reflect.Kind{types.Bool: reflect.Bool, types.Int: reflect.Int, types.Int8: reflect.Int8, types.Int16: reflect.Int16,
			types.Int32: reflect.Int32, types.Int64: reflect.Int64, types.Uint: reflect.Uint, types.Uint8: reflect.Uint8, types.Uint16: reflect.Uint16,
			types.Uint32: reflect.Uint32, types.Uint64: reflect.Uint64, types.Uintptr: reflect.Uintptr, types.Float32: reflect.Float32,
			types.Float64: reflect.Float64, types.Complex64: reflect.Complex64, types.Complex128: reflect.Complex128, types.String: reflect.String,
			types.UnsafePointer: reflect.UnsafePointer}
		return int(m[u.Kind()])
	case *types.Array:
		return int(reflect.Array)
	case *types.Chan:
		return int(reflect.Chan)
	case *types.Signature:
		return int(reflect.Func)
	case *types.Interface:
		return int(reflect.Interface)
	case *types.Map:
		return int(reflect.Map)
	case *types.Pointer:
		return int(reflect.Ptr)
	case *types.Slice:
		return int(reflect.Slice)
	case *types.Struct:
		return int(reflect.Struct)
	}
	return -1
}

// box/unbox between a concrete sort and the payload of an interface value.
func (w *World) box(t types.Type, term string) string {
	return fmt.Sprintf("(mkAny %d %s)", w.tag(t), w.payOf(w.sortOf(t), term))
}

func (w *World) payOf(s, term string) string {
	switch s {
	case "Bool":
		return "(pB " + term + ")"
	case "Int":
		return "(pI " + term + ")"
	case "Str":
		return "(pS " + term + ")"
	case "Flt":
		return "(pF " + term + ")"
	case "Slice":
		return "(pL " + term + ")"
	case "Opq":
		return "(pO " + term + ")"
	}
	return "(pO (box_" + s + " " + term + "))"
}

func (w *World) unpay(s, any string) string {
	p := "(pay " + any + ")"
	switch s {
	case "Bool":
		return "(uB " + p + ")"
	case "Int":
		return "(uI " + p + ")"
	case "Str":
		return "(uS " + p + ")"
	case "Flt":
		return "(uF " + p + ")"
	case "Slice":
		return "(uL " + p + ")"
	case "Opq":
		return "(uO " + p + ")"
	}
	return "(unbox_" + s + " (uO " + p + "))"
}

// Heap components -------------------------------------------------------------

func (w *World) comp(name, sort string) string {
	if _, ok := w.comps[name]; !ok {
		w.comps[name] = sort
		w.compLst = append(w.compLst, name)
	}
	return name
}

func (w *World) cellComp(t types.Type) string {
	c := w.comp("C."+short(tkey(t)), "(Array Int "+w.sortOf(t)+")")
	x := "(select H0." + c + " r)"
	if fact := typeFactAt("alloc0", t, x); fact != "" {
		w.axiomOnce("entry:"+c, "(assert (forall ((r Int)) (! (=> (<= (base r) alloc0) "+fact+") :pattern ("+x+"))))")
	}
	return c
}

func (w *World) fieldComp(st types.Type, i int) string {
	f := st.Underlying().(*types.Struct).Field(i)
	c := w.comp("F."+short(tkey(st))+"."+f.Name(), "(Array Int "+w.sortOf(f.Type())+")")
	// what the entry heap holds was allocated by then
	t := "(select H0." + c + " r)"
	if fact := typeFactAt("alloc0", f.Type(), t); fact != "" {
		w.axiomOnce("entry:"+c, "(assert (forall ((r Int)) (! (=> (<= (base r) alloc0) "+fact+") :pattern ("+t+"))))")
	}
	return c
}

func (w *World) memComp(elem types.Type) string {
	c := w.comp("M."+short(tkey(elem)), "(Array Int (Array Int "+w.sortOf(elem)+"))")
	w.entryFact(c, "Int", elem)
	return c
}

func (w *World) mapComps(t types.Type) (dom, val, ln string) {
	mt := t.Underlying().(*types.Map)
	k := short(w.p.mapFind(tkey(t)))
	ks, vs := w.sortOf(mt.Key()), w.sortOf(mt.Elem())
	w.cardFun(ks)
	d := w.comp("D."+k, "(Array Int (Array "+ks+" Bool))")
	w.axiomOnce("nilmap:"+d, "(assert (= (select H0."+d+" 0) ((as const (Array "+ks+" Bool)) false)))")
	v := w.comp("V."+k, "(Array Int (Array "+ks+" "+vs+"))")
	w.entryFact(v, ks, mt.Elem())
	return d, v, d
}

// entryFact: what the entry heap holds in a slice or map was allocated by then.
func (w *World) entryFact(c, ks string, elem types.Type) {
	t := "(select (select H0." + c + " r) k)"
	if fact := typeFactAt("alloc0", elem, t); fact != "" {
		w.axiomOnce("entry:"+c, "(assert (forall ((r Int) (k "+ks+")) (! (=> (<= (base r) alloc0) "+fact+") :pattern ("+t+"))))")
	}
}

// cardFun declares the cardinality of finite key sets.
func (w *World) cardFun(ks string) string {
	f := "card_" + sanitize(ks)
	if !w.fseen[f] {
		S := "(Array " + ks + " Bool)"
		w.declFun(f, "(declare-fun "+f+" ("+S+") Int)")
		w.axiomOnce(f, "(assert (= ("+f+" ((as const "+S+") false)) 0))\n"+
			"(assert (forall ((d "+S+")) (! (>= ("+f+" d) 0) :pattern (("+f+" d)))))\n"+
			"(assert (forall ((d "+S+") (k "+ks+")) (! (=> (select d k) (> ("+f+" d) 0)) :pattern (("+f+" d) (select d k)))))\n"+
			"(assert (forall ((d "+S+") (k "+ks+")) (! (= ("+f+" (store d k true)) (+ ("+f+" d) (ite (select d k) 0 1))) :pattern (("+f+" (store d k true))))))\n"+
			"(assert (forall ((d "+S+") (k "+ks+")) (! (= ("+f+" (store d k false)) (- ("+f+" d) (ite (select d k) 1 0))) :pattern (("+f+" (store d k false))))))\n"+
			"(declare-fun wit_"+f+" ("+S+") "+ks+")\n"+
			"(assert (forall ((d "+S+")) (! (=> (> ("+f+" d) 0) (select d (wit_"+f+" d))) :pattern (("+f+" d)))))")
	}
	return f
}

func (w *World) ghostComp(g *GhostField) string {
	return w.comp("G."+short(g.Type)+"."+g.Name, "(Array Int "+g.Sort+")")
}

// interior returns the address of an inline field.
func (w *World) interior(st types.Type, i int, ref string) string {
	if i == 0 && w.p.transparent(st.Underlying().(*types.Struct).Field(0).Type()) {
		return ref
	}
	name := "adr_" + short(fieldKey(st, i))
	if !w.fseen[name] {
		id := len(w.fdecls) + 1000
		w.declFun(name, fmt.Sprintf("(declare-fun %s (Int) Int)\n(declare-fun inv_%s (Int) Int)", name, name))
		w.axiomOnce(name, fmt.Sprintf("(assert (forall ((r Int)) (! (and (= (inv_%s (%s r)) r) (= (base (%s r)) (base r)) (= (adrkind (%s r)) %d)) :pattern ((%s r)))))", name, name, name, name, id, name))
	}
	return "(" + name + " " + ref + ")"
}

// location of a scalar field: component and reference term
func (w *World) fieldLoc(st types.Type, i int, ref string) (comp, r string) {
	if w.p.escape[fieldKey(st, i)] {
		return w.cellComp(st.Underlying().(*types.Struct).Field(i).Type()), w.interior(st, i, ref)
	}
	return w.fieldComp(st, i), ref
}

func (w *World) constTerm(v constant.Value, t types.Type) string {
	if v == nil {
		return w.zero(t)
	}
	switch w.sortOf(t) {
	case "Bool":
		if constant.BoolVal(v) {
			return "true"
		}
		return "false"
	case "Int":
		s := constant.ToInt(v).ExactString()
		if strings.HasPrefix(s, "-") {
			return "(- " + s[1:] + ")"
		}
		return s
	case "Str":
		if v.Kind() == constant.String {
			return w.lit(constant.StringVal(v))
		}
	case "Flt":
		n := "flt_" + sanitize(v.ExactString())
		return w.declFun(n, fmt.Sprintf("(declare-const %s Flt)", n))
	}
	n := "cst_" + sanitize(v.ExactString())
	return w.declFun(n, fmt.Sprintf("(declare-const %s %s)", n, w.sortOf(t)))
}

const preludeBase = `(declare-sort Str 0)
(declare-sort Flt 0)
(declare-sort Opq 0)
(declare-datatypes ((Slice 0)) (((mkSlice (sref Int) (slen Int)))))
(declare-datatypes ((Pay 0)) (((pI (uI Int)) (pB (uB Bool)) (pS (uS Str)) (pF (uF Flt)) (pL (uL Slice)) (pO (uO Opq)))))
(declare-datatypes ((Any 0)) (((mkAny (tag Int) (pay Pay)))))
(define-fun nilAny () Any (mkAny 0 (pI 0)))
(declare-const flt_zero Flt)
(declare-const opq_zero Opq)
(declare-fun base (Int) Int)
(declare-fun adrkind (Int) Int)
(assert (= (base 0) 0))
(declare-fun kindOf (Int) Int)
(assert (= (kindOf 0) 0))
(declare-fun strlen (Str) Int)
(assert (forall ((s Str)) (! (>= (strlen s) 0) :pattern ((strlen s)))))
(declare-fun strid (Str) Int)
(declare-fun cat (Str Str) Str)
(assert (forall ((a Str) (b Str) (c Str)) (! (= (cat (cat a b) c) (cat a (cat b c))) :pattern ((cat (cat a b) c)))))
(assert (forall ((a Str) (b Str)) (! (= (strlen (cat a b)) (+ (strlen a) (strlen b))) :pattern ((cat a b)))))
(declare-fun strlt (Str Str) Bool)
(declare-fun strat (Str Int) Int)
(declare-fun bytesOf (Str) Slice)
(declare-fun strOfBytes (Slice) Str)
(assert (forall ((s Str)) (! (and (= (strOfBytes (bytesOf s)) s) (= (slen (bytesOf s)) (strlen s))) :pattern ((bytesOf s)))))
(declare-fun goquo (Int Int) Int)
(declare-fun gorem (Int Int) Int)
`

func (w *World) prelude() string {
	var b strings.Builder
	b.WriteString(preludeBase)
	empty := w.lit("")
	for i, s := range w.litList {
		fmt.Fprintf(&b, "(declare-const lit%d Str)\n(assert (and (= (strid lit%d) %d) (= (strlen lit%d) %d)))\n", i, i, i, i, len(s))
	}
	fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (=> (= (strlen s) 0) (= s %s)) :pattern ((strlen s)))))\n", empty)
	fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (and (= (cat %s s) s)) :pattern ((cat %s s)))))\n", empty, empty)
	fmt.Fprintf(&b, "(assert (forall ((s Str)) (! (and (= (cat s %s) s)) :pattern ((cat s %s)))))\n", empty, empty)
	for _, s := range w.sdecls {
		b.WriteString(s + "\n")
	}
	for i, t := range w.tagTyps {
		fmt.Fprintf(&b, "(assert (= (kindOf %d) %d)) ; %s\n", i+1, goKind(t), tkey(t))
	}
	gl := make([]string, 0)
	for g := range w.globals {
		gl = append(gl, g)
	}
	sort.Strings(gl)
	for _, g := range gl {
		fmt.Fprintf(&b, "(define-fun %s () Int %d)\n(assert (= (base %d) %d))\n", g, w.globals[g], w.globals[g], w.globals[g])
	}
	for _, c := range w.compLst {
		fmt.Fprintf(&b, "(declare-const H0.%s %s)\n", c, w.comps[c])
	}
	b.WriteString("(declare-const alloc0 Int)\n(assert (>= alloc0 100000))\n")
	for _, s := range w.fdecls {
		b.WriteString(s + "\n")
	}
	for _, s := range w.extraAx {
		b.WriteString(s + "\n")
	}
	b.WriteString(w.rxFacts())
	return b.String()
}

func (w *World) global(name string) string {
	n := "glob_" + sanitize(name)
	if _, ok := w.globals[n]; !ok {
		w.globals[n] = len(w.globals) + 1
	}
	return n
}
