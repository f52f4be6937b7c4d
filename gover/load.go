package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded package under verification.
type Prog struct {
	dir    string
	pkg    *packages.Package
	tpkg   *types.Package
	prog   *ssa.Program
	spkg   *ssa.Package
	funcs  map[string]*ssa.Function // by RelString
	escape map[string]bool          // field keys "T.f" whose address escapes
	mapUF  map[string]string        // union-find over map type keys
	names  []string
}

func loadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes,
		Dir: dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pk, err := packages.Load(cfg, ".")
	if err != nil {
		return nil, err
	}
	if len(pk) != 1 {
		return nil, fmt.Errorf("expected one package, got %d", len(pk))
	}
	if len(pk[0].Errors) > 0 {
		return nil, fmt.Errorf("package errors: %v", pk[0].Errors)
	}
	prog, ps := ssautil.Packages(pk, 0)
	prog.Build()
	p := &Prog{dir: dir, pkg: pk[0], tpkg: pk[0].Types, prog: prog, spkg: ps[0], funcs: map[string]*ssa.Function{},
		escape: map[string]bool{}, mapUF: map[string]string{}}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg == p.spkg && fn.Synthetic == "" || fn.Pkg == p.spkg && fn.Name() == "init" {
			name := fn.RelString(p.tpkg)
			p.funcs[name] = fn
		}
	}
	for n := range p.funcs {
		p.names = append(p.names, n)
	}
	sort.Strings(p.names)
	p.scan()
	return p, nil
}

func (p *Prog) mapFind(k string) string {
	for {
		n, ok := p.mapUF[k]
		if !ok || n == k {
			return k
		}
		k = n
	}
}

func (p *Prog) mapUnion(a, b string) {
	a, b = p.mapFind(a), p.mapFind(b)
	if a != b {
		if a < b {
			p.mapUF[b] = a
		} else {
			p.mapUF[a] = b
		}
	}
}

// scan finds fields whose address escapes and map types that are converted into each other.
func (p *Prog) scan() {
	for _, n := range p.names {
		fn := p.funcs[n]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.FieldAddr:
					st := deref(v.X.Type())
					ft := st.Underlying().(*types.Struct).Field(v.Field).Type()
					if p.transparent(ft) {
						continue
					}
					for _, r := range *v.Referrers() {
						switch u := r.(type) {
						case *ssa.UnOp:
							continue
						case *ssa.Store:
							if u.Addr == v && u.Val != v {
								continue
							}
						case *ssa.FieldAddr:
							if !p.transparent(ft) {
								// field of an opaque struct: handled by field functions
								continue
							}
						case *ssa.DebugRef:
							continue
						case *ssa.Call:
							// method call on the address of an opaque struct (a mutex): address only
						}
						p.escape[fieldKey(st, v.Field)] = true
					}
				case *ssa.ChangeType:
					if m1, ok := v.X.Type().Underlying().(*types.Map); ok {
						_ = m1
						p.mapUnion(tkey(v.X.Type()), tkey(v.Type()))
					}
				}
			}
		}
	}
}

func deref(t types.Type) types.Type {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		return pt.Elem()
	}
	return t
}

func qual(p *types.Package) string { return p.Path() }

func tkey(t types.Type) string {
	return types.TypeString(types.Unalias(t), qual)
}

func fieldKey(st types.Type, i int) string {
	return tkey(st) + "#" + st.Underlying().(*types.Struct).Field(i).Name()
}

// transparent reports whether t is a struct whose fields are modelled one by one.
// Structs of other packages are opaque.
func (p *Prog) transparent(t types.Type) bool {
	t = types.Unalias(t)
	if _, ok := t.Underlying().(*types.Struct); !ok {
		return false
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Pkg() == p.tpkg
	}
	return true
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("^")
		default:
			b.WriteString("_")
		}
	}
	return b.String()
}

func short(key string) string {
	key = strings.ReplaceAll(key, "github.com/xeipuuv/gojsonschema.", "")
	return sanitize(key)
}

func sortStrings(s []string) { sort.Strings(s) }
