package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---- AST ----

type Expr struct {
	Op   string // ident int str call field index deref un bin quant ite let old entry assert
	Name string
	Args []*Expr
	Bind []Binder
	Trig [][]*Expr
	TStr string
	pos  string
}

type Binder struct{ Name, Type string }

type GhostField struct {
	Type string // Go type key, e.g. "math/big.Rat"
	Name string
	Sort string
	TStr string
	Zero bool // zero at program start
}

type GhostFunc struct {
	Name   string
	Params []Binder
	Ret    string
}

type Macro struct {
	Name   string
	Params []Binder
	Ret    string
	Body   *Expr
}

type Clause struct {
	AtEnd   bool
	Support []string // properties it helps to prove without belonging to them
	Hidden  bool     // shown of the function, and not assumed by its callers
	Kind    string   // requires ensures modifies unfold inv elem assume
	Labels  []string
	Name    string
	E       *Expr
	Mods    []*Expr
	Bind    []Binder
	Flavor  string // elem: slice|map
	Text    string
}

type Contract struct {
	Name    string
	Kind    string // func extern iface
	Params  []string
	Rets    []string
	Clauses []*Clause
	Pure    bool
	Trusted bool
	Entry   bool // must exist in the program
	Inline  bool
	NoAlloc bool
	Props   []string
	File    string
}

type Axiom struct {
	Name    string
	E       *Expr
	Text    string
	Def     bool // definitional (conservative) rather than assumed
	Globals bool
	Labels  []string
}

type Spec struct {
	GFields map[string]*GhostField // "type#name"
	GVars   map[string]*GhostField
	Funcs   map[string]*GhostFunc
	Macros  map[string]*Macro
	Axioms  []*Axiom
	GInv    []*Axiom
	Cons    map[string]*Contract // by kind-less name ; iface ones under "iface:" prefix
	Order   []string
	Groups  map[string][]string
	Lemmas  []*Lemma
	Regex   []*RegexSpec
	PropFns map[string][]string
	Guards  []*Guard
	SysInv  []*Axiom
	PureI   map[string]bool
}

// RegexSpec: the language of a package-level regexp variable must equal the given one.
type RegexSpec struct {
	Var, Lang, Pattern string
	Labels             []string
}

// Lemma proved by induction on an int parameter.
type Lemma struct {
	Name string
	Bind []Binder
	Var  string
	E    *Expr
	Text string
}

func (c *Contract) get(kind string) []*Clause {
	var r []*Clause
	for _, x := range c.Clauses {
		if x.Kind == kind {
			r = append(r, x)
		}
	}
	return r
}

// ---- lexer ----

type tok struct {
	k, s string
}

func lex(src string) ([]tok, error) {
	var ts []tok
	rs := []rune(src)
	i := 0
	ops := []string{"<==>", "==>", "::", "==", "!=", "<=", ">=", "&&", "||", ".(", "{", "}", "(", ")", "[", "]", ",", ".", "<", ">", "+", "-", "*", "/", "!", "=", ":", ";", "&"}
	for i < len(rs) {
		c := rs[i]
		if unicode.IsSpace(c) {
			i++
			continue
		}
		if c == '"' || c == '`' {
			j := i + 1
			var sb strings.Builder
			for j < len(rs) && rs[j] != c {
				if rs[j] == '\\' && c == '"' {
					j++
					switch rs[j] {
					case 'n':
						sb.WriteRune('\n')
					default:
						sb.WriteRune(rs[j])
					}
				} else {
					sb.WriteRune(rs[j])
				}
				j++
			}
			ts = append(ts, tok{"str", sb.String()})
			i = j + 1
			continue
		}
		if unicode.IsLetter(c) || c == '_' || c == '$' {
			j := i
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '$') {
				j++
			}
			ts = append(ts, tok{"id", string(rs[i:j])})
			i = j
			continue
		}
		if unicode.IsDigit(c) {
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j])) {
				j++
			}
			ts = append(ts, tok{"int", string(rs[i:j])})
			i = j
			continue
		}
		ok := false
		for _, o := range ops {
			if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), o) {
				ts = append(ts, tok{"op", o})
				i += len([]rune(o))
				ok = true
				break
			}
		}
		if !ok {
			return nil, fmt.Errorf("bad char %q in %q", c, src)
		}
	}
	ts = append(ts, tok{"eof", ""})
	return ts, nil
}

type parser struct {
	ts  []tok
	i   int
	src string
}

func (p *parser) peek() tok { return p.ts[p.i] }
func (p *parser) next() tok { t := p.ts[p.i]; p.i++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return t.s == s && t.k != "str"
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("expected %q, got %q in: %s", s, p.peek().s, p.src))
	}
}

func (p *parser) expr() *Expr { return p.iff() }

func (p *parser) iff() *Expr {
	l := p.imp()
	for p.accept("<==>") {
		r := p.imp()
		l = &Expr{Op: "bin", Name: "<==>", Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) imp() *Expr {
	l := p.or()
	if p.accept("==>") {
		r := p.imp()
		return &Expr{Op: "bin", Name: "==>", Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) or() *Expr {
	l := p.and()
	for p.accept("||") {
		r := p.and()
		l = &Expr{Op: "bin", Name: "||", Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) and() *Expr {
	l := p.cmp()
	for p.accept("&&") {
		r := p.cmp()
		l = &Expr{Op: "bin", Name: "&&", Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) cmp() *Expr {
	l := p.add()
	for {
		done := true
		for _, o := range []string{"==", "!=", "<=", ">=", "<", ">", "in"} {
			if p.is(o) {
				p.next()
				r := p.add()
				// chained comparisons a <= b < c
				if l.Op == "bin" && (l.Name == "<=" || l.Name == "<") && (o == "<" || o == "<=") {
					l = &Expr{Op: "bin", Name: "&&", Args: []*Expr{l, {Op: "bin", Name: o, Args: []*Expr{l.Args[1], r}}}}
				} else {
					l = &Expr{Op: "bin", Name: o, Args: []*Expr{l, r}}
				}
				done = false
				break
			}
		}
		if done {
			return l
		}
	}
}
func (p *parser) add() *Expr {
	l := p.mul()
	for p.is("+") || p.is("-") {
		o := p.next().s
		r := p.mul()
		l = &Expr{Op: "bin", Name: o, Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) mul() *Expr {
	l := p.unary()
	for p.is("*") || p.is("/") {
		o := p.next().s
		r := p.unary()
		l = &Expr{Op: "bin", Name: o, Args: []*Expr{l, r}}
	}
	return l
}
func (p *parser) unary() *Expr {
	if p.accept("!") {
		return &Expr{Op: "un", Name: "!", Args: []*Expr{p.unary()}}
	}
	if p.accept("-") {
		return &Expr{Op: "un", Name: "-", Args: []*Expr{p.unary()}}
	}
	if p.accept("*") {
		return &Expr{Op: "deref", Args: []*Expr{p.unary()}}
	}
	if p.accept("&") {
		return &Expr{Op: "addr", Args: []*Expr{p.unary()}}
	}
	return p.postfix()
}

// typ collects type text up to a balanced stop token.
func (p *parser) typ(stops ...string) string {
	var sb strings.Builder
	depth := 0
	for {
		t := p.peek()
		if t.k == "eof" {
			break
		}
		if depth == 0 && t.k != "str" {
			stop := false
			for _, s := range stops {
				if t.s == s {
					stop = true
				}
			}
			if stop {
				break
			}
		}
		if t.s == "(" || t.s == "[" || t.s == "{" {
			depth++
		}
		if t.s == ")" || t.s == "]" || t.s == "}" {
			depth--
		}
		sb.WriteString(t.s)
		p.next()
	}
	return sb.String()
}

func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.accept(".("):
			t := p.typ(")")
			p.expect(")")
			e = &Expr{Op: "assert", TStr: t, Args: []*Expr{e}}
		case p.is(".") && p.ts[p.i+1].k == "id":
			p.next()
			e = &Expr{Op: "field", Name: p.next().s, Args: []*Expr{e}}
		case p.accept("["):
			i := p.expr()
			p.expect("]")
			e = &Expr{Op: "index", Args: []*Expr{e, i}}
		default:
			return e
		}
	}
}

func (p *parser) binders(stops ...string) []Binder {
	var bs []Binder
	for {
		n := p.next().s
		t := p.typ(append([]string{","}, stops...)...)
		bs = append(bs, Binder{n, t})
		if !p.accept(",") {
			return bs
		}
	}
}

func (p *parser) primary() *Expr {
	t := p.next()
	switch {
	case t.k == "int":
		return &Expr{Op: "int", Name: t.s}
	case t.k == "str":
		return &Expr{Op: "str", Name: t.s}
	case t.s == "(":
		e := p.expr()
		p.expect(")")
		return e
	case t.s == "forall" || t.s == "exists":
		bs := p.binders("::")
		p.expect("::")
		var trigs [][]*Expr
		for p.accept("{") {
			var tr []*Expr
			for !p.accept("}") {
				tr = append(tr, p.expr())
				p.accept(",")
			}
			trigs = append(trigs, tr)
		}
		e := p.expr()
		return &Expr{Op: "quant", Name: t.s, Bind: bs, Trig: trigs, Args: []*Expr{e}}
	case t.s == "if":
		c := p.expr()
		p.expect("then")
		a := p.expr()
		p.expect("else")
		b := p.expr()
		return &Expr{Op: "ite", Args: []*Expr{c, a, b}}
	case t.s == "let":
		n := p.next().s
		p.expect("=")
		v := p.expr()
		p.expect("in")
		b := p.expr()
		return &Expr{Op: "let", Name: n, Args: []*Expr{v, b}}
	case t.k == "id":
		if p.accept("(") {
			if t.s == "typeis" || t.s == "as" || t.s == "zerov" || t.s == "anymap" || t.s == "anycell" || t.s == "anyfields" || t.s == "nilof" {
				var args []*Expr
				ts := ""
				if t.s == "typeis" || t.s == "as" {
					args = append(args, p.expr())
					p.expect(",")
				}
				ts = p.typ(")")
				p.expect(")")
				return &Expr{Op: "call", Name: t.s, Args: args, TStr: ts}
			}
			var args []*Expr
			for !p.accept(")") {
				args = append(args, p.expr())
				p.accept(",")
			}
			return &Expr{Op: "call", Name: t.s, Args: args}
		}
		return &Expr{Op: "ident", Name: t.s}
	}
	panic(fmt.Sprintf("unexpected %q in: %s", t.s, p.src))
}

// ---- file parsing ----

var topKw = map[string]bool{"ghost": true, "pred": true, "fn": true, "axiom": true, "define": true, "globalinv": true, "func": true, "extern": true, "iface": true, "group": true, "lemma": true, "regex": true, "propfns": true, "guard": true, "sysinv": true, "purei": true}
var clauseKw = map[string]bool{"requires": true, "ensures": true, "modifies": true, "unfold": true, "inv": true, "elem": true, "pure": true, "trusted": true, "entry": true, "inline": true, "noalloc": true, "use": true, "props": true, "assumes": true, "cut": true, "stable": true, "ghostset": true, "finally": true, "shows": true}

func loadSpecs(dir string) (sp *Spec, err error) {
	sp = &Spec{GFields: map[string]*GhostField{}, GVars: map[string]*GhostField{}, Funcs: map[string]*GhostFunc{}, Macros: map[string]*Macro{}, Cons: map[string]*Contract{}, Groups: map[string][]string{}, PropFns: map[string][]string{}, PureI: map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	if len(files) == 0 {
		return nil, fmt.Errorf("no spec files in %s", dir)
	}
	for _, f := range files {
		b, e := os.ReadFile(f)
		if e != nil {
			return nil, e
		}
		if e := sp.parseFile(f, string(b)); e != nil {
			return nil, e
		}
	}
	return sp, nil
}

func firstWord(s string) string {
	s = strings.TrimSpace(s)
	for i, r := range s {
		if !(unicode.IsLetter(r)) {
			return s[:i]
		}
	}
	return s
}

func stripComment(l string) string {
	inStr := false
	for i := 0; i < len(l); i++ {
		if l[i] == '"' {
			inStr = !inStr
		}
		if !inStr && i+1 < len(l) && l[i] == '/' && l[i+1] == '/' && (i == 0 || l[i-1] == ' ' || l[i-1] == '\t') {
			return l[:i]
		}
		if !inStr && l[i] == '#' && (i == 0 || l[i-1] == ' ') {
			return l[:i]
		}
	}
	return l
}

func (sp *Spec) parseFile(fname, src string) (err error) {
	var items []string
	for _, l := range strings.Split(src, "\n") {
		l = stripComment(l)
		if strings.TrimSpace(l) == "" {
			continue
		}
		fw := firstWord(l)
		if topKw[fw] && (l[0] != ' ' && l[0] != '\t') || clauseKw[fw] && (l[0] == ' ' || l[0] == '\t') {
			items = append(items, strings.TrimSpace(l))
		} else {
			if len(items) == 0 {
				return fmt.Errorf("%s: stray line %q", fname, l)
			}
			items[len(items)-1] += " " + strings.TrimSpace(l)
		}
	}
	var cur *Contract
	for _, it := range items {
		func() {
			defer func() {
				if r := recover(); r != nil {
					err = fmt.Errorf("%s: %v\n  in item: %s", filepath.Base(fname), r, it)
				}
			}()
			cur = sp.parseItem(fname, it, cur)
		}()
		if err != nil {
			return err
		}
	}
	return nil
}

func mkParser(s string) *parser {
	ts, err := lex(s)
	if err != nil {
		panic(err)
	}
	return &parser{ts: ts, src: s}
}

func (p *parser) done() {
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("trailing %q in: %s", p.peek().s, p.src))
	}
}

// labels reads [C01 C02 +C14 name]: the properties a clause belongs to, those it merely helps to prove, its name.
func (sp *Spec) labels(p *parser) (ls []string, name string) {
	ls, _, name = sp.labels3(p)
	return
}

func (sp *Spec) labels3(p *parser) (ls, sup []string, name string) {
	if p.accept("[") {
		for !p.accept("]") {
			t := p.next().s
			if t == "+" {
				sup = append(sup, p.next().s)
				continue
			}
			if len(t) >= 3 && t[0] == 'C' && unicode.IsDigit(rune(t[1])) {
				ls = append(ls, t)
			} else if g, ok := sp.Groups[t]; ok {
				ls = append(ls, g...)
			} else {
				if name != "" {
					name += " "
				}
				name += t
			}
			p.accept(",")
		}
	}
	return
}

func (sp *Spec) parseItem(fname, it string, cur *Contract) *Contract {
	fw := firstWord(it)
	rest := strings.TrimSpace(it[len(fw):])
	switch fw {
	case "group":
		f := strings.Fields(rest)
		sp.Groups[f[0]] = f[1:]
		return nil
	case "propfns":
		f := strings.Fields(rest)
		sp.PropFns[f[0]] = append(sp.PropFns[f[0]], f[1:]...)
		return nil
	case "purei":
		for _, x := range strings.Fields(rest) {
			sp.PureI[x] = true
		}
		return nil
	case "guard":
		p := mkParser(rest)
		g := &Guard{}
		g.Labels, _ = sp.labels(p)
		g.Type = p.typ(":")
		p.expect(":")
		g.Read = p.expr()
		p.expect(":")
		g.Write = p.expr()
		p.done()
		sp.Guards = append(sp.Guards, g)
		return nil
	case "ghost":
		w2 := firstWord(rest)
		r2 := strings.TrimSpace(rest[len(w2):])
		switch w2 {
		case "func":
			p := mkParser(r2)
			g := &GhostFunc{Name: p.next().s}
			p.expect("(")
			if !p.is(")") {
				g.Params = p.binders(")")
			}
			p.expect(")")
			g.Ret = p.typ()
			sp.Funcs[g.Name] = g
		case "field":
			f := strings.Fields(r2)
			i := strings.LastIndex(f[0], ".")
			g := &GhostField{Type: f[0][:i], Name: f[0][i+1:], TStr: f[1], Zero: len(f) > 2 && f[2] == "zero"}
			sp.GFields[g.Type+"#"+g.Name] = g
		case "var":
			f := strings.Fields(r2)
			sp.GVars[f[0]] = &GhostField{Type: "var", Name: f[0], TStr: f[1]}
		default:
			panic("bad ghost item")
		}
		return nil
	case "pred", "fn":
		p := mkParser(rest)
		m := &Macro{Name: p.next().s, Ret: "bool"}
		p.expect("(")
		if !p.is(")") {
			m.Params = p.binders(")")
		}
		p.expect(")")
		if fw == "fn" {
			m.Ret = p.typ("=")
		}
		p.expect("=")
		m.Body = p.expr()
		p.done()
		if sp.Macros[m.Name] != nil {
			panic("duplicate macro " + m.Name)
		}
		sp.Macros[m.Name] = m
		return nil
	case "axiom", "define", "globalinv", "sysinv":
		p := mkParser(rest)
		ls, _ := sp.labels(p)
		n := p.next().s
		p.expect(":")
		a := &Axiom{Name: n, E: p.expr(), Text: rest, Def: fw == "define", Labels: ls}
		p.done()
		if fw == "sysinv" {
			sp.SysInv = append(sp.SysInv, a)
		} else if fw == "globalinv" {
			sp.GInv = append(sp.GInv, a)
		} else {
			sp.Axioms = append(sp.Axioms, a)
		}
		return nil
	case "lemma":
		p := mkParser(rest)
		l := &Lemma{Name: p.next().s, Text: rest}
		p.expect("[")
		l.Var = p.next().s
		p.expect("]")
		p.expect("(")
		l.Bind = p.binders(")")
		p.expect(")")
		p.expect(":")
		l.E = p.expr()
		p.done()
		sp.Lemmas = append(sp.Lemmas, l)
		return nil
	case "regex":
		p := mkParser(rest)
		ls, _ := sp.labels(p)
		r := &RegexSpec{Labels: ls}
		r.Var = p.next().s
		r.Lang = p.next().s
		r.Pattern = p.next().s
		sp.Regex = append(sp.Regex, r)
		return nil
	case "func", "extern", "iface":
		if fw != "func" {
			w2 := firstWord(rest)
			if w2 == "func" {
				rest = strings.TrimSpace(rest[len(w2):])
			}
		}
		c := &Contract{Kind: fw, File: filepath.Base(fname)}
		// name up to the parameter list: the last "(" group (two groups when results are named)
		name, params, rets := splitSig(rest)
		c.Name, c.Params, c.Rets = name, params, rets
		key := name
		if fw == "iface" {
			key = "iface:" + name
		}
		if sp.Cons[key] != nil {
			panic("duplicate contract " + key)
		}
		sp.Cons[key] = c
		sp.Order = append(sp.Order, key)
		return c
	}
	if cur == nil {
		panic("clause outside a contract")
	}
	if fw == "pure" {
		cur.Pure = true
		return cur
	}
	if fw == "trusted" {
		cur.Trusted = true
		return cur
	}
	if fw == "entry" {
		cur.Entry = true
		return cur
	}
	if fw == "inline" {
		cur.Inline = true
		return cur
	}
	if fw == "props" {
		for _, x := range strings.Fields(rest) {
			if g, ok := sp.Groups[x]; ok {
				cur.Props = append(cur.Props, g...)
			} else {
				cur.Props = append(cur.Props, x)
			}
		}
		return cur
	}
	if fw == "noalloc" {
		cur.NoAlloc = true
		return cur
	}
	p := mkParser(rest)
	c := &Clause{Kind: fw, Text: rest}
	if fw == "shows" {
		fw, c.Kind, c.Hidden = "ensures", "ensures", true
	}
	if fw == "finally" {
		// a postcondition that is not tried as an intermediate assertion
		fw, c.Kind, c.AtEnd = "ensures", "ensures", true
	}
	switch fw {
	case "requires", "ensures", "unfold", "use", "assumes", "cut", "stable":
		c.Labels, c.Support, c.Name = sp.labels3(p)
		c.E = p.expr()
		p.done()
	case "modifies":
		for {
			c.Mods = append(c.Mods, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.done()
	case "inv":
		if p.accept("[") {
			c.Bind = p.binders("]")
			p.expect("]")
		}
		c.E = p.expr()
		p.done()
	case "ghostset":
		c.Mods = []*Expr{p.expr()}
		p.expect("=")
		c.E = p.expr()
		p.done()
	case "elem":
		c.Flavor = p.next().s
		if p.accept("[") {
			c.Bind = p.binders("]")
			p.expect("]")
		}
		c.Name = p.next().s
		p.expect("=")
		c.E = p.expr()
		p.done()
	}
	cur.Clauses = append(cur.Clauses, c)
	return cur
}

// splitSig splits "(*T).m(a, b) (r, err)".
func splitSig(s string) (name string, params, rets []string) {
	s = strings.TrimSpace(s)
	// find the parameter group: first "(" after the name. Names may start with "(".
	i := 0
	if strings.HasPrefix(s, "(") {
		i = strings.Index(s, ")") + 1
	}
	j := strings.Index(s[i:], "(")
	if j < 0 {
		panic("bad signature " + s)
	}
	j += i
	name = strings.TrimSpace(s[:j])
	k := strings.Index(s[j:], ")") + j
	split := func(t string) []string {
		var r []string
		for _, x := range strings.Split(t, ",") {
			if x = strings.TrimSpace(x); x != "" {
				r = append(r, x)
			}
		}
		return r
	}
	params = split(s[j+1 : k])
	r := strings.TrimSpace(s[k+1:])
	if strings.HasPrefix(r, "(") {
		rets = split(strings.Trim(r, "()"))
	} else if r != "" {
		rets = split(r)
	}
	return
}

// Guard: accesses to maps of this type need the lock state.
type Guard struct {
	Type        string
	Read, Write *Expr
	Labels      []string
}
