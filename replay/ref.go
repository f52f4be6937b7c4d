package main

// Reference meaning of schemas, written from the property statements: used only to look for a concrete
// failing input after an obligation has failed.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/mail"
	"net/url"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"
)

const hybrid = 2147483647

type obj = map[string]interface{}
type arr = []interface{}

type rerr struct {
	Code string            `json:"code"`
	Ctx  string            `json:"context"`
	Val  string            `json:"value"`
	Det  map[string]string `json:"details"`
}

type rres struct {
	errs  []rerr
	score int
}

type reval struct {
	root   interface{}
	dr     int
	fmtOK  func(name string, v interface{}) bool
	budget int
	// lookup resolves a $ref text to (schema, draft); nil: JSON pointers into root
	lookup func(ref string) (interface{}, int)
}

var errBudget = errors.New("budget")

func num(v interface{}) (json.Number, bool) { n, ok := v.(json.Number); return n, ok }

func rat(n json.Number) (*big.Rat, bool) {
	s := string(n)
	if i := strings.IndexAny(s, "eE"); i >= 0 {
		e, err := strconv.Atoi(s[i+1:])
		if err != nil || e > 4000 || e < -4000 {
			return new(big.Rat).SetString(s)
		}
		// exact by hand: mantissa * 10^e
		m, ok := new(big.Rat).SetString(s[:i])
		if !ok {
			return nil, false
		}
		p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(e))), nil)
		if e >= 0 {
			return m.Mul(m, new(big.Rat).SetInt(p)), true
		}
		return m.Quo(m, new(big.Rat).SetInt(p)), true
	}
	return new(big.Rat).SetString(s)
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// equality key of a JSON value; numbers as doubles
func ckey(v interface{}) (string, bool) {
	switch x := v.(type) {
	case nil:
		return "null", true
	case bool:
		return fmt.Sprint(x), true
	case string:
		return strconv.Quote(x), true
	case json.Number:
		f, err := strconv.ParseFloat(string(x), 64)
		if err != nil {
			return "", false
		}
		return strconv.FormatFloat(f, 'g', -1, 64), true
	case arr:
		var s []string
		for _, e := range x {
			k, ok := ckey(e)
			if !ok {
				return "", false
			}
			s = append(s, k)
		}
		return "[" + strings.Join(s, ",") + "]", true
	case obj:
		var s []string
		for k, e := range x {
			c, ok := ckey(e)
			if !ok {
				return "", false
			}
			s = append(s, strconv.Quote(k)+":"+c)
		}
		sort.Strings(s)
		return "{" + strings.Join(s, ",") + "}", true
	}
	return "?", true
}

// text shown for an enum or const value
func ctext(v interface{}) string {
	b, _ := json.Marshal(v)
	var d interface{}
	json.Unmarshal(b, &d)
	b, _ = json.Marshal(d)
	return string(b)
}

func jtext(v interface{}) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.Encode(v)
	return strings.TrimSpace(b.String())
}

func typesOf(m obj) []string {
	switch t := m["type"].(type) {
	case string:
		return []string{t}
	case arr:
		var r []string
		for _, x := range t {
			r = append(r, x.(string))
		}
		return r
	}
	return nil
}

func typesText(t []string) string {
	if len(t) == 1 {
		return t[0]
	}
	return "[" + strings.Join(t, ",") + "]"
}

func has(l []string, x string) bool {
	for _, y := range l {
		if x == y {
			return true
		}
	}
	return false
}

func (e *reval) sub(s, n interface{}, path []string) *rres {
	r := &rres{}
	e.run(s, n, r, path)
	return r
}

func (r *rres) merge(o *rres) { r.errs = append(r.errs, o.errs...); r.score += o.score }

func ctx(path []string) string { return strings.Join(path, ".") }

func (r *rres) add(code string, path []string, v interface{}, det map[string]string) {
	if det == nil {
		det = map[string]string{}
	}
	c := ctx(path)
	det["context"] = c
	f := strings.TrimPrefix(c, "(root).")
	det["field"] = f
	r.errs = append(r.errs, rerr{code, c, jtext(v), det})
	r.score -= 2
}

func extend(p []string, s string) []string { return append(append([]string{}, p...), s) }

func flt(n interface{}) string {
	r, _ := rat(n.(json.Number))
	return fmt.Sprint(new(big.Float).SetRat(r))
}

func (e *reval) run(s, n interface{}, r *rres, path []string) {
	e.budget--
	if e.budget < 0 {
		panic(errBudget)
	}
	if b, ok := s.(bool); ok {
		if !b {
			r.add("false", path, n, nil)
		}
		return
	}
	m := s.(obj)
	if ref, ok := m["$ref"].(string); ok {
		t, dr := e.resolve(ref)
		old := e.dr
		e.dr = dr
		e.run(t, n, r, path)
		e.dr = old
		return
	}
	ts := typesOf(m)
	given := ""
	okT := len(ts) == 0
	switch x := n.(type) {
	case nil:
		given, okT = "null", okT || has(ts, "null")
	case bool:
		given, okT = "boolean", okT || has(ts, "boolean")
	case string:
		given, okT = "string", okT || has(ts, "string")
	case arr:
		given, okT = "array", okT || has(ts, "array")
	case obj:
		given, okT = "object", okT || has(ts, "object")
	case json.Number:
		given = "number"
		okT = okT || has(ts, "number")
		if q, ok := rat(x); ok && q.IsInt() {
			given = "integer"
			okT = okT || has(ts, "integer")
		}
	}
	if !okT {
		r.add("invalid_type", path, n, map[string]string{"expected": typesText(ts), "given": given})
		return
	}
	e.logic(m, n, r, path)
	switch x := n.(type) {
	case json.Number:
		e.number(m, x, r, path)
	case arr:
		e.array(m, x, r, path)
	case obj:
		e.object(m, x, r, path)
	}
	e.common(m, n, r, path)
	if x, ok := n.(string); ok {
		e.str(m, x, r, path)
	}
	if o, ok := n.(obj); ok {
		if ps, ok := m["properties"].(obj); ok {
			for k, ps := range ps {
				if v, ok := o[k]; ok {
					e.run(ps, v, r, extend(path, k))
				}
			}
		}
	}
	r.score++
}

func (e *reval) resolve(ref string) (interface{}, int) {
	if e.lookup != nil {
		return e.lookup(ref)
	}
	i := strings.IndexByte(ref, '#')
	frag := ""
	if i >= 0 {
		frag = ref[i+1:]
	}
	v, ok := pointer(e.root, frag)
	if !ok {
		panic("unresolved " + ref)
	}
	return v, e.dr
}

func pointer(doc interface{}, frag string) (interface{}, bool) {
	if u, err := url.PathUnescape(frag); err == nil {
		frag = u
	}
	if frag == "" {
		return doc, true
	}
	if frag[0] != '/' {
		return nil, false
	}
	for _, t := range strings.Split(frag[1:], "/") {
		t = strings.Replace(strings.Replace(t, "~1", "/", -1), "~0", "~", -1)
		switch d := doc.(type) {
		case obj:
			v, ok := d[t]
			if !ok {
				return nil, false
			}
			doc = v
		case arr:
			i, err := strconv.Atoi(t)
			if err != nil || i < 0 || i >= len(d) {
				return nil, false
			}
			doc = d[i]
		default:
			return nil, false
		}
	}
	return doc, true
}

func (e *reval) best(list []*rres) *rres {
	var b *rres
	for _, x := range list {
		if b == nil || x.score > b.score {
			b = x
		}
	}
	return b
}

func (e *reval) logic(m obj, n interface{}, r *rres, path []string) {
	if l, ok := m["anyOf"].(arr); ok && len(l) > 0 {
		var rs []*rres
		good := false
		for _, s := range l {
			x := e.sub(s, n, path)
			if len(x.errs) == 0 {
				good = true
				break
			}
			rs = append(rs, x)
		}
		if !good {
			r.add("number_any_of", path, n, nil)
			r.merge(e.best(rs))
		}
	}
	if l, ok := m["oneOf"].(arr); ok && len(l) > 0 {
		var rs []*rres
		good := 0
		for _, s := range l {
			x := e.sub(s, n, path)
			if len(x.errs) == 0 {
				good++
			} else {
				rs = append(rs, x)
			}
		}
		if good != 1 {
			r.add("number_one_of", path, n, nil)
			if good == 0 {
				r.merge(e.best(rs))
			}
		}
	}
	if l, ok := m["allOf"].(arr); ok && len(l) > 0 {
		bad := false
		for _, s := range l {
			x := e.sub(s, n, path)
			if len(x.errs) > 0 {
				bad = true
			}
			r.merge(x)
		}
		if bad {
			r.add("number_all_of", path, n, nil)
		}
	}
	if s, ok := m["not"]; ok {
		if len(e.sub(s, n, path).errs) == 0 {
			r.add("number_not", path, n, nil)
		}
	}
	if ds, ok := m["dependencies"].(obj); ok {
		if o, ok := n.(obj); ok {
			for k, d := range ds {
				if _, there := o[k]; !there {
					continue
				}
				if l, ok := d.(arr); ok {
					for _, x := range l {
						if _, there := o[x.(string)]; !there {
							r.add("missing_dependency", path, n, map[string]string{"dependency": x.(string)})
						}
					}
				} else {
					e.run(d, n, r, path)
				}
			}
		}
	}
	if e.dr >= 7 {
		if s, ok := m["if"]; ok {
			yes := len(e.sub(s, n, path).errs) == 0
			k, code := "then", "condition_then"
			if !yes {
				k, code = "else", "condition_else"
			}
			if t, ok := m[k]; ok {
				if x := e.sub(t, n, path); len(x.errs) > 0 {
					r.add(code, path, n, nil)
					r.merge(x)
				}
			}
		}
	}
	r.score++
}

func (e *reval) common(m obj, n interface{}, r *rres, path []string) {
	if c, ok := m["const"]; ok && e.dr >= 6 {
		a, _ := ckey(c)
		b, ok := ckey(n)
		if !ok {
			r.add("internal", path, n, map[string]string{"error": "*"})
		} else if a != b {
			r.add("const", path, n, map[string]string{"allowed": ctext(c)})
		}
	}
	if l, ok := m["enum"].(arr); ok && len(l) > 0 {
		b, ok := ckey(n)
		found := false
		var ts []string
		for _, x := range l {
			a, _ := ckey(x)
			if a == b {
				found = true
			}
			ts = append(ts, ctext(x))
		}
		if !ok {
			r.add("internal", path, n, map[string]string{"error": "*"})
		} else if !found {
			r.add("enum", path, n, map[string]string{"allowed": strings.Join(ts, ", ")})
		}
	}
	if f, ok := m["format"].(string); ok && f != "" {
		if !e.fmtOK(f, n) {
			r.add("format", path, n, map[string]string{"format": f})
		}
	}
	r.score++
}

func intOf(v interface{}) int {
	i, _ := strconv.ParseInt(string(v.(json.Number)), 10, 64)
	return int(i)
}

func (e *reval) array(m obj, a arr, r *rres, path []string) {
	at := func(i int) []string { return extend(path, strconv.Itoa(i)) }
	switch it := m["items"].(type) {
	case arr:
		if len(it) > 0 {
			for i := range a {
				if i < len(it) {
					r.merge(e.sub(it[i], a[i], at(i)))
				}
			}
			if len(a) > len(it) {
				switch ai := m["additionalItems"].(type) {
				case bool:
					if !ai {
						r.add("array_no_additional_items", path, a, nil)
					}
				case obj:
					for i := len(it); i < len(a); i++ {
						r.merge(e.sub(ai, a[i], at(i)))
					}
				}
			}
		}
	case bool, obj:
		for i := range a {
			r.merge(e.sub(it, a[i], at(i)))
		}
	}
	if v, ok := m["minItems"]; ok && len(a) < intOf(v) {
		r.add("array_min_items", path, a, map[string]string{"min": fmt.Sprint(intOf(v))})
	}
	if v, ok := m["maxItems"]; ok && len(a) > intOf(v) {
		r.add("array_max_items", path, a, map[string]string{"max": fmt.Sprint(intOf(v))})
	}
	if u, ok := m["uniqueItems"].(bool); ok && u {
		for j := range a {
			kj, ok := ckey(a[j])
			if !ok {
				r.add("internal", path, a, map[string]string{"error": "*"})
				continue
			}
			for i := j - 1; i >= 0; i-- {
				if ki, ok := ckey(a[i]); ok && ki == kj {
					r.add("unique", path, a, map[string]string{"type": "array", "i": fmt.Sprint(i), "j": fmt.Sprint(j)})
					break
				}
			}
		}
	}
	if s, ok := m["contains"]; ok && e.dr >= 6 {
		var rs []*rres
		good := false
		for i := range a {
			x := e.sub(s, a[i], at(i))
			if len(x.errs) == 0 {
				good = true
				break
			}
			rs = append(rs, x)
		}
		if !good {
			r.add("contains", path, a, nil)
			if b := e.best(rs); b != nil {
				r.merge(b)
			}
		}
	}
	r.score++
}

func (e *reval) object(m obj, o obj, r *rres, path []string) {
	if v, ok := m["minProperties"]; ok && len(o) < intOf(v) {
		r.add("array_min_properties", path, o, map[string]string{"min": fmt.Sprint(intOf(v))})
	}
	if v, ok := m["maxProperties"]; ok && len(o) > intOf(v) {
		r.add("array_max_properties", path, o, map[string]string{"max": fmt.Sprint(intOf(v))})
	}
	if l, ok := m["required"].(arr); ok {
		for _, x := range l {
			if _, there := o[x.(string)]; there {
				r.score++
			} else {
				r.add("required", path, o, map[string]string{"property": x.(string)})
			}
		}
	}
	ps, _ := m["properties"].(obj)
	pps, _ := m["patternProperties"].(obj)
	for k, v := range o {
		_, found := ps[k]
		pm := false
		for p, s := range pps {
			if regexp.MustCompile(p).MatchString(k) {
				pm = true
				r.merge(e.sub(s, v, extend(path, k)))
			}
		}
		if pm {
			r.score++
		}
		if !found && !pm {
			switch ap := m["additionalProperties"].(type) {
			case bool:
				if !ap {
					r.add("additional_property_not_allowed", path, v, map[string]string{"property": k})
				}
			case obj:
				r.merge(e.sub(ap, v, extend(path, k)))
			}
		}
	}
	if s, ok := m["propertyNames"]; ok && e.dr >= 6 {
		for k := range o {
			if x := e.sub(s, k, path); len(x.errs) > 0 {
				r.add("invalid_property_name", path, o, map[string]string{"property": k})
				r.merge(x)
			}
		}
	}
	r.score++
}

func (e *reval) str(m obj, s string, r *rres, path []string) {
	n := 0
	for range s {
		n++
	}
	if v, ok := m["minLength"]; ok && n < intOf(v) {
		r.add("string_gte", path, s, map[string]string{"min": fmt.Sprint(intOf(v))})
	}
	if v, ok := m["maxLength"]; ok && n > intOf(v) {
		r.add("string_lte", path, s, map[string]string{"max": fmt.Sprint(intOf(v))})
	}
	if p, ok := m["pattern"].(string); ok && !regexp.MustCompile(p).MatchString(s) {
		r.add("pattern", path, s, map[string]string{"pattern": p})
	}
	r.score++
}

func (e *reval) number(m obj, n json.Number, r *rres, path []string) {
	x, ok := rat(n)
	flag := func(k string) bool { b, ok := m[k].(bool); return ok && b && (e.dr == 4 || e.dr == hybrid) }
	if !ok {
		for _, k := range []string{"multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
			if _, isnum := m[k].(json.Number); isnum {
				r.add("internal", path, n, map[string]string{"error": "*"})
				break
			}
		}
		r.score++
		return
	}
	if v, ok := m["multipleOf"]; ok {
		d, _ := rat(v.(json.Number))
		if !new(big.Rat).Quo(x, d).IsInt() {
			r.add("multiple_of", path, n, map[string]string{"multiple": flt(v)})
		}
	}
	bound := func(b, xk string, excl bool) {
		var v interface{}
		if excl {
			if flag(xk) {
				v = m[b]
			} else if q, ok := m[xk].(json.Number); ok {
				v = q
			} else {
				return
			}
		} else {
			if _, ok := m[b]; !ok || flag(xk) {
				return
			}
			v = m[b]
		}
		q, _ := rat(v.(json.Number))
		c := x.Cmp(q)
		if b == "maximum" {
			if excl && c >= 0 {
				r.add("number_lt", path, n, map[string]string{"max": flt(v)})
			} else if !excl && c > 0 {
				r.add("number_lte", path, n, map[string]string{"max": flt(v)})
			}
		} else {
			if excl && c <= 0 {
				r.add("number_gt", path, n, map[string]string{"min": flt(v)})
			} else if !excl && c < 0 {
				r.add("number_gte", path, n, map[string]string{"min": flt(v)})
			}
		}
	}
	bound("maximum", "exclusiveMaximum", false)
	bound("maximum", "exclusiveMaximum", true)
	bound("minimum", "exclusiveMinimum", false)
	bound("minimum", "exclusiveMinimum", true)
	r.score++
}

// ---- well-formedness ----

func isNum(v interface{}) bool {
	n, ok := v.(json.Number)
	if !ok {
		return false
	}
	_, ok = rat(n)
	return ok
}
func isBound(v interface{}) bool {
	n, ok := v.(json.Number)
	if !ok {
		return false
	}
	i, err := strconv.ParseInt(string(n), 10, 64)
	return err == nil && i >= 0
}

var typeNames = []string{"array", "boolean", "integer", "number", "null", "object", "string"}

// wf tells whether node is a well-formed schema of the draft; refs are checked by the caller's refOK
func wf(s interface{}, dr int, refOK func(string) bool) bool {
	if _, ok := s.(bool); ok {
		return dr >= 6
	}
	m, ok := s.(obj)
	if !ok {
		return false
	}
	str := func(k string) bool {
		v, in := m[k]
		if !in {
			return true
		}
		_, ok := v.(string)
		return ok
	}
	kid := "$id"
	if _, in := m["id"]; dr == 4 || (dr == hybrid && in) {
		kid = "id"
	}
	if !str(kid) || !str("title") || !str("description") || !str("$ref") {
		return false
	}
	if id, ok := m[kid].(string); ok {
		if _, err := url.Parse(id); err != nil {
			return false
		}
	}
	if d, in := m["definitions"]; in {
		o, ok := d.(obj)
		if !ok {
			return false
		}
		for _, x := range o {
			if !wf(x, dr, refOK) {
				return false
			}
		}
	}
	if ref, in := m["$ref"]; in {
		return refOK(ref.(string))
	}
	schema := func(k string) bool { v, in := m[k]; return !in || wf(v, dr, refOK) }
	list := func(k string) bool {
		v, in := m[k]
		if !in {
			return true
		}
		l, ok := v.(arr)
		if !ok {
			return false
		}
		for _, x := range l {
			if !wf(x, dr, refOK) {
				return false
			}
		}
		return true
	}
	members := func(k string, pat bool) bool {
		v, in := m[k]
		if !in {
			return true
		}
		o, ok := v.(obj)
		if !ok {
			return false
		}
		for p, x := range o {
			if pat {
				if _, err := regexp.Compile(p); err != nil {
					return false
				}
			}
			if !wf(x, dr, refOK) {
				return false
			}
		}
		return true
	}
	boolOrObj := func(k string) bool {
		v, in := m[k]
		if !in {
			return true
		}
		switch x := v.(type) {
		case bool:
			return true
		case obj:
			return wf(x, dr, refOK)
		}
		return false
	}
	if v, in := m["type"]; in {
		switch t := v.(type) {
		case string:
			if !has(typeNames, t) {
				return false
			}
		case arr:
			seen := map[string]bool{}
			for _, x := range t {
				s, ok := x.(string)
				if !ok || !has(typeNames, s) || seen[s] {
					return false
				}
				seen[s] = true
			}
		default:
			return false
		}
	}
	if !members("properties", false) || !members("patternProperties", true) || !boolOrObj("additionalProperties") || !boolOrObj("additionalItems") {
		return false
	}
	if dr >= 6 && (!schema("propertyNames") || !schema("contains")) {
		return false
	}
	if v, in := m["dependencies"]; in {
		o, ok := v.(obj)
		if !ok {
			return false
		}
		for _, x := range o {
			switch d := x.(type) {
			case arr:
				for _, y := range d {
					if _, ok := y.(string); !ok {
						return false
					}
				}
			default:
				if !wf(d, dr, refOK) {
					return false
				}
			}
		}
	}
	if v, in := m["items"]; in {
		if _, ok := v.(arr); ok {
			if !list("items") {
				return false
			}
		} else if !wf(v, dr, refOK) {
			return false
		}
	}
	if v, in := m["multipleOf"]; in {
		if !isNum(v) {
			return false
		}
		if r, _ := rat(v.(json.Number)); r.Sign() <= 0 {
			return false
		}
	}
	for _, b := range []string{"minimum", "maximum"} {
		x := "exclusiveM" + b[1:]
		_, inb := m[b]
		if inb && !isNum(m[b]) {
			return false
		}
		if v, in := m[x]; in {
			_, isb := v.(bool)
			if dr == 4 || (dr == hybrid && isb) {
				if !isb || !inb {
					return false
				}
			} else if !isNum(v) {
				return false
			}
		}
	}
	for _, k := range []string{"minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"} {
		if v, in := m[k]; in && !isBound(v) {
			return false
		}
	}
	for _, k := range []string{"Length", "Properties"} {
		a, ia := m["min"+k]
		b, ib := m["max"+k]
		if ia && ib && intOf(a) > intOf(b) {
			return false
		}
	}
	if !str("format") || !str("pattern") {
		return false
	}
	if p, ok := m["pattern"].(string); ok {
		if _, err := regexp.Compile(p); err != nil {
			return false
		}
	}
	if v, in := m["required"]; in {
		l, ok := v.(arr)
		if !ok {
			return false
		}
		seen := map[string]bool{}
		for _, x := range l {
			s, ok := x.(string)
			if !ok || seen[s] {
				return false
			}
			seen[s] = true
		}
	}
	if v, in := m["uniqueItems"]; in {
		if _, ok := v.(bool); !ok {
			return false
		}
	}
	if v, in := m["const"]; in && dr >= 6 {
		if _, ok := ckey(v); !ok {
			return false
		}
	}
	if v, in := m["enum"]; in {
		l, ok := v.(arr)
		if !ok {
			return false
		}
		seen := map[string]bool{}
		for _, x := range l {
			k, ok := ckey(x)
			if !ok || seen[k] {
				return false
			}
			seen[k] = true
		}
	}
	if !list("oneOf") || !list("anyOf") || !list("allOf") || !schema("not") {
		return false
	}
	if dr >= 7 && (!schema("if") || !schema("then") || !schema("else")) {
		return false
	}
	return true
}

// ---- formats ----

func hexRun(s string, n int) bool {
	if len(s) != n {
		return false
	}
	for i := 0; i < n; i++ {
		c := s[i]
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F') {
			return false
		}
	}
	return true
}

func jpointer(s string) bool {
	if s == "" {
		return true
	}
	if s[0] != '/' {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] == '~' && (i+1 >= len(s) || s[i+1] != '0' && s[i+1] != '1') {
			return false
		}
	}
	return true
}

func hostOK(s string) bool {
	if len(s) >= 256 || s == "" {
		return false
	}
	for _, l := range strings.Split(s, ".") {
		if len(l) < 1 || len(l) > 63 {
			return false
		}
		for i := 0; i < len(l); i++ {
			c := l[i]
			an := c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
			if !an && (c != '-' || i == 0 || i == len(l)-1) {
				return false
			}
		}
	}
	return true
}

func layout(s string, ls ...string) bool {
	for _, l := range ls {
		if _, err := time.Parse(l, s); err == nil {
			return true
		}
	}
	return false
}

// braces in a URI template path: every "{" has a "}" after it before the next "{" may open
func bracesOK(s string) bool {
	for {
		i := strings.IndexByte(s, '{')
		if i < 0 {
			return true
		}
		j := strings.IndexByte(s[i:], '}')
		if j < 0 {
			return false
		}
		s = s[i+j+1:]
	}
}

var formatNames = []string{"date", "time", "date-time", "hostname", "email", "idn-email", "ipv4", "ipv6", "uri", "uri-reference", "iri", "iri-reference", "uri-template", "uuid", "regex", "json-pointer", "relative-json-pointer"}

func refFormat(name string, v interface{}) bool {
	s, ok := v.(string)
	if !ok {
		return true
	}
	uri := func(abs bool) bool {
		u, err := url.Parse(s)
		return err == nil && (!abs || u.Scheme != "") && !strings.Contains(s, "\\")
	}
	switch name {
	case "date":
		return layout(s, "2006-01-02")
	case "time":
		return layout(s, "15:04:05", "15:04:05Z07:00")
	case "date-time":
		return layout(s, "15:04:05", "15:04:05Z07:00", "2006-01-02", time.RFC3339)
	case "hostname":
		return hostOK(s)
	case "email", "idn-email":
		_, err := mail.ParseAddress(s)
		return err == nil
	case "ipv4":
		return net.ParseIP(s) != nil && strings.Contains(s, ".")
	case "ipv6":
		return net.ParseIP(s) != nil && strings.Contains(s, ":")
	case "uri", "iri":
		return uri(true)
	case "uri-reference", "iri-reference":
		return uri(false)
	case "uri-template":
		if !uri(false) {
			return false
		}
		u, _ := url.Parse(s)
		return bracesOK(u.Path)
	case "uuid":
		p := strings.Split(s, "-")
		return len(p) == 5 && hexRun(p[0], 8) && hexRun(p[1], 4) && hexRun(p[2], 4) && hexRun(p[3], 4) && hexRun(p[4], 12)
	case "regex":
		_, err := regexp.Compile(s)
		return err == nil
	case "json-pointer":
		return jpointer(s)
	case "relative-json-pointer":
		i := 0
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == 0 || (s[0] == '0' && i > 1) {
			return false
		}
		return s[i:] == "#" || jpointer(s[i:])
	}
	return true
}
