package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
)

type gen struct {
	r     *rand.Rand
	dr    int
	focus map[string]bool // keywords to favour
	ndefs int
	loose bool // may write malformed keyword values
}

func (g *gen) p(f float64) bool { return g.r.Float64() < f }
func (g *gen) pick(l []string) string {
	return l[g.r.Intn(len(l))]
}

var names = []string{"a", "b", "c", "A", "ab", "foo", "foo2", "", "a.b", "é", "0", "$ref", "id", "const", "x/y", "properties"}
var strs = []string{"", "a", "b", "ab", "abc", "A", "é", "日本", "日本語", "e\u0301", "a b", "1", "true", "foo", "foo2", "null", "aaaa", "\u0000", "2018-01-02", "127.0.0.1", "::1", "12:00:00", "http://a/b", "/a/b", "0#"}
var nums = []string{"0", "1", "1.0", "10e-1", "2", "3", "3.5", "7", "-1", "-2.5", "0.1", "0.3", "0.30", "1e2", "100", "9007199254740993", "9007199254740992", "9007199254740993.5", "1e400", "1e30", "1000000000000000000000000000000", "0.1e1", "1e-7", "18446744073709551616", "4", "5", "6", "12"}
var smallInts = []string{"0", "1", "2", "3", "4"}
var patterns = []string{"a", "^a", "b$", "^a+$", "o", "^.$", "^[a-z]+$", "2", "^$", "é", "^foo", "\\d"}

func jn(s string) json.Number { return json.Number(s) }

func (g *gen) num() json.Number {
	if g.p(0.15) {
		return jn(fmt.Sprintf("%d.%d", g.r.Intn(20)-10, g.r.Intn(100)))
	}
	if g.p(0.1) {
		return jn(fmt.Sprint(g.r.Intn(2000) - 1000))
	}
	return jn(g.pick(nums))
}

func (g *gen) value(d int) interface{} {
	k := g.r.Intn(10)
	if d <= 0 && k >= 6 {
		k = g.r.Intn(6)
	}
	switch {
	case k == 0:
		return nil
	case k == 1:
		return g.p(0.5)
	case k <= 3:
		return g.num()
	case k <= 5:
		return g.pick(strs)
	case k <= 7:
		n := g.r.Intn(5)
		a := arr{}
		for i := 0; i < n; i++ {
			if len(a) > 0 && g.p(0.25) {
				a = append(a, respell(g, a[g.r.Intn(len(a))]))
				continue
			}
			a = append(a, g.value(d-1))
		}
		return a
	}
	n := g.r.Intn(5)
	o := obj{}
	for i := 0; i < n; i++ {
		o[g.pick(names)] = g.value(d - 1)
	}
	return o
}

// respell returns an equal value, spelled differently where possible
func respell(g *gen, v interface{}) interface{} {
	switch x := v.(type) {
	case json.Number:
		switch string(x) {
		case "1":
			return jn(g.pick([]string{"1.0", "10e-1", "1", "1e0"}))
		case "0":
			return jn(g.pick([]string{"0.0", "0", "0e5"}))
		}
		return x
	case arr:
		r := arr{}
		for _, e := range x {
			r = append(r, respell(g, e))
		}
		return r
	case obj:
		r := obj{}
		for k, e := range x {
			r[k] = respell(g, e)
		}
		return r
	}
	return v
}

var kwAll = []string{"type", "properties", "additionalProperties", "patternProperties", "propertyNames", "dependencies", "items", "additionalItems",
	"multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum", "minLength", "maxLength", "pattern", "format", "minProperties", "maxProperties",
	"required", "minItems", "maxItems", "uniqueItems", "contains", "const", "enum", "oneOf", "anyOf", "allOf", "not", "if", "then", "else", "$ref"}

var typesL = []string{"array", "boolean", "integer", "number", "null", "object", "string"}

func (g *gen) schema(d int, ground bool) interface{} {
	if g.dr >= 6 && g.p(0.1) {
		return g.p(0.6)
	}
	m := obj{}
	n := 1 + g.r.Intn(3)
	if d <= 0 {
		n = 1
	}
	for i := 0; i < n; i++ {
		k := kwAll[g.r.Intn(len(kwAll))]
		if len(g.focus) > 0 && g.p(0.75) {
			fs := make([]string, 0)
			for _, x := range kwAll {
				if g.focus[x] {
					fs = append(fs, x)
				}
			}
			k = fs[g.r.Intn(len(fs))]
		}
		g.keyword(m, k, d, ground)
	}
	return m
}

func (g *gen) schemas(d int, ground bool) arr {
	n := 1 + g.r.Intn(3)
	if g.loose && g.p(0.05) {
		n = 0
	}
	l := arr{}
	for i := 0; i < n; i++ {
		l = append(l, g.schema(d-1, ground))
	}
	return l
}

func (g *gen) objSchema(d int, ground bool) interface{} {
	for {
		s := g.schema(d, ground)
		if _, ok := s.(obj); ok {
			return s
		}
	}
}

// ground: the schema applies to the same value as the enclosing one, so a $ref here could loop
func (g *gen) keyword(m obj, k string, d int, ground bool) {
	composite := map[string]bool{"properties": true, "additionalProperties": true, "patternProperties": true, "propertyNames": true, "dependencies": true, "items": true, "additionalItems": true, "contains": true, "oneOf": true, "anyOf": true, "allOf": true, "not": true, "if": true, "then": true, "else": true}
	if composite[k] && d <= 0 {
		k = g.pick([]string{"type", "const", "enum", "minLength", "minimum", "required", "minItems"})
	}
	switch k {
	case "type":
		if g.p(0.6) {
			m[k] = g.pick(typesL)
		} else {
			l := arr{}
			for _, i := range g.r.Perm(len(typesL))[:1+g.r.Intn(3)] {
				l = append(l, typesL[i])
			}
			m[k] = l
		}
	case "properties", "patternProperties":
		o := obj{}
		for i := 0; i < 1+g.r.Intn(3); i++ {
			n := g.pick(names)
			if k == "patternProperties" {
				n = g.pick(patterns)
			}
			o[n] = g.schema(d-1, false)
		}
		m[k] = o
		if g.p(0.3) {
			g.keyword(m, "additionalProperties", d, ground)
		}
	case "additionalProperties", "additionalItems":
		if g.p(0.5) {
			m[k] = g.p(0.3)
		} else {
			m[k] = g.objSchema(d-1, false)
		}
		if k == "additionalItems" && g.p(0.8) {
			m["items"] = g.schemas(d, false)
		}
	case "propertyNames":
		m[k] = g.schema(d-1, false)
	case "contains":
		m[k] = g.schema(d-1, false)
	case "not":
		m[k] = g.schema(d-1, ground)
	case "if":
		m["if"] = g.schema(d-1, ground)
		if g.p(0.7) {
			m["then"] = g.schema(d-1, ground)
		}
		if g.p(0.7) {
			m["else"] = g.schema(d-1, ground)
		}
	case "then", "else":
		m[k] = g.schema(d-1, ground)
	case "oneOf", "anyOf", "allOf":
		m[k] = g.schemas(d, ground)
	case "dependencies":
		o := obj{}
		for i := 0; i < 1+g.r.Intn(2); i++ {
			if g.p(0.5) {
				l := arr{}
				for j := 0; j < 1+g.r.Intn(3); j++ {
					l = append(l, g.pick(names))
				}
				o[g.pick(names)] = l
			} else {
				o[g.pick(names)] = g.schema(d-1, ground)
			}
		}
		m[k] = o
	case "items":
		if g.p(0.5) {
			m[k] = g.schema(d-1, false)
		} else {
			m[k] = g.schemas(d, false)
			if g.p(0.5) {
				g.keyword(m, "additionalItems", d, ground)
			}
		}
	case "multipleOf":
		m[k] = jn(g.pick([]string{"1", "2", "0.1", "0.01", "3", "0.3", "1.5", "1e-3", "10", "7", "0.0000001", "1e20"}))
	case "minimum", "maximum":
		m[k] = g.num()
		for !isNum(m[k]) {
			m[k] = g.num()
		}
		if (g.dr == 4 || g.dr == hybrid) && g.p(0.4) {
			m["exclusiveM"+k[1:]] = g.p(0.7)
		}
	case "exclusiveMinimum", "exclusiveMaximum":
		if g.dr == 4 {
			g.keyword(m, strings.ToLower(k[9:]), d, ground)
			m[k] = g.p(0.7)
			return
		}
		m[k] = g.num()
		for !isNum(m[k]) {
			m[k] = g.num()
		}
	case "minLength", "minItems", "minProperties":
		m[k] = jn(g.pick(smallInts))
		mx := "max" + k[3:]
		if x, ok := m[mx]; ok && intOf(x) < intOf(m[k]) {
			delete(m, mx)
		}
	case "maxLength", "maxItems", "maxProperties":
		m[k] = jn(g.pick(smallInts))
		mn := "min" + k[3:]
		if x, ok := m[mn]; ok && intOf(x) > intOf(m[k]) {
			delete(m, mn)
		}
	case "pattern":
		m[k] = g.pick(patterns)
	case "format":
		m[k] = g.pick(append([]string{"nosuchformat"}, formatNames...))
	case "required":
		l := arr{}
		for _, i := range g.r.Perm(len(names))[:1+g.r.Intn(3)] {
			l = append(l, names[i])
		}
		m[k] = l
	case "uniqueItems":
		m[k] = g.p(0.85)
	case "const":
		v := g.value(2)
		for {
			if _, ok := ckey(v); ok {
				break
			}
			v = g.value(2)
		}
		m[k] = v
	case "enum":
		l := arr{}
		seen := map[string]bool{}
		for i := 0; i < 1+g.r.Intn(3); i++ {
			v := g.value(2)
			k, ok := ckey(v)
			if !ok || seen[k] {
				continue
			}
			seen[k] = true
			l = append(l, v)
		}
		m[k] = l
	case "$ref":
		if g.ndefs == 0 {
			return
		}
		for x := range m {
			if !g.p(0.3) {
				delete(m, x)
			}
		}
		if ground {
			// only later definitions, which refer further on only
			m["$ref"] = fmt.Sprintf("#/definitions/d%d", g.ndefs-1)
		} else if g.p(0.3) {
			m["$ref"] = "#"
		} else {
			m["$ref"] = fmt.Sprintf("#/definitions/d%d", g.r.Intn(g.ndefs))
		}
	}
}

// root makes a schema with local definitions
func (g *gen) root(d int) interface{} {
	n := g.r.Intn(3)
	defs := obj{}
	all := n
	for i := n - 1; i >= 0; i-- {
		// d_i may use (on the same value) only definitions after it
		g.ndefs = 0
		if i < n-1 {
			g.ndefs = all
		}
		defs[fmt.Sprintf("d%d", i)] = g.schema(d-1, true)
	}
	g.ndefs = all
	s := g.schema(d, true)
	if m, ok := s.(obj); ok && n > 0 {
		if _, isref := m["$ref"]; isref {
			m = obj{"allOf": arr{s}}
		}
		m["definitions"] = defs
		return m
	}
	if n > 0 {
		return obj{"allOf": arr{s}, "definitions": defs}
	}
	return s
}

// doc makes a value likely to interact with the schema
func (g *gen) doc(s interface{}, root interface{}, d int) interface{} {
	m, ok := s.(obj)
	if !ok || g.p(0.12) || d <= 0 {
		return g.value(3)
	}
	if ref, ok := m["$ref"].(string); ok {
		if t, ok := pointer(root, strings.TrimPrefix(ref, "#")); ok {
			return g.doc(t, root, d-1)
		}
		return g.value(2)
	}
	var opts []func() interface{}
	add := func(f func() interface{}) { opts = append(opts, f) }
	if c, ok := m["const"]; ok {
		add(func() interface{} { return respell(g, c) })
	}
	if l, ok := m["enum"].(arr); ok && len(l) > 0 {
		add(func() interface{} { return respell(g, l[g.r.Intn(len(l))]) })
	}
	for _, k := range []string{"anyOf", "oneOf", "allOf"} {
		if l, ok := m[k].(arr); ok && len(l) > 0 {
			add(func() interface{} { return g.doc(l[g.r.Intn(len(l))], root, d-1) })
		}
	}
	for _, k := range []string{"not", "if", "then", "else"} {
		if x, ok := m[k]; ok {
			add(func() interface{} { return g.doc(x, root, d-1) })
		}
	}
	for _, k := range []string{"minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"} {
		if x, ok := m[k].(json.Number); ok {
			add(func() interface{} {
				if g.p(0.3) {
					return x
				}
				if r, ok := rat(x); ok {
					q := r.FloatString(1)
					if g.p(0.5) {
						r2 := *r
						_ = r2
						q = r.FloatString(0)
					}
					return jn(q)
				}
				return g.num()
			})
		}
	}
	if x, ok := m["multipleOf"].(json.Number); ok {
		add(func() interface{} {
			r, _ := rat(x)
			q, _ := rat(jn(fmt.Sprint(g.r.Intn(50) - 5)))
			q.Mul(q, r)
			if g.p(0.2) {
				return jn(q.FloatString(30))
			}
			return jn(q.FloatString(8))
		})
	}
	for _, k := range []string{"minLength", "maxLength"} {
		if x, ok := m[k]; ok {
			add(func() interface{} {
				n := intOf(x) + g.r.Intn(3) - 1
				if n > 300 {
					n = g.r.Intn(300)
				}
				s := ""
				for i := 0; i < n; i++ {
					s += g.pick([]string{"a", "é", "日", "0", "\U0001F600"})
				}
				return s
			})
		}
	}
	if _, ok := m["pattern"]; ok {
		add(func() interface{} { return g.pick(strs) })
	}
	if f, ok := m["format"].(string); ok {
		add(func() interface{} { return g.formatString(f) })
	}
	for _, k := range []string{"items", "additionalItems", "contains", "minItems", "maxItems", "uniqueItems"} {
		if _, ok := m[k]; ok {
			add(func() interface{} { return g.arrayFor(m, root, d) })
			break
		}
	}
	for _, k := range []string{"properties", "patternProperties", "additionalProperties", "propertyNames", "required", "dependencies", "minProperties", "maxProperties"} {
		if _, ok := m[k]; ok {
			add(func() interface{} { return g.objectFor(m, root, d) })
			add(func() interface{} { return g.objectFor(m, root, d) })
			break
		}
	}
	if _, ok := m["type"]; ok {
		add(func() interface{} {
			t := typesOf(m)
			switch t[g.r.Intn(len(t))] {
			case "array":
				return g.arrayFor(m, root, d)
			case "object":
				return g.objectFor(m, root, d)
			case "string":
				return g.pick(strs)
			case "null":
				return nil
			case "boolean":
				return g.p(0.5)
			}
			return g.num()
		})
	}
	if len(opts) == 0 {
		return g.value(2)
	}
	return opts[g.r.Intn(len(opts))]()
}

func (g *gen) arrayFor(m obj, root interface{}, d int) interface{} {
	a := arr{}
	n := g.r.Intn(5)
	for i := 0; i < n; i++ {
		var s interface{} = true
		switch it := m["items"].(type) {
		case arr:
			if i < len(it) {
				s = it[i]
			} else {
				s = m["additionalItems"]
			}
		case obj:
			s = it
		}
		if c, ok := m["contains"]; ok && g.p(0.4) {
			s = c
		}
		if len(a) > 0 && g.p(0.2) {
			a = append(a, respell(g, a[g.r.Intn(len(a))]))
		} else if s == nil {
			a = append(a, g.value(1))
		} else {
			a = append(a, g.doc(s, root, d-1))
		}
	}
	return a
}

func (g *gen) objectFor(m obj, root interface{}, d int) interface{} {
	o := obj{}
	ps, _ := m["properties"].(obj)
	for _, k := range sortedKeys(ps) {
		if g.p(0.7) {
			o[k] = g.doc(ps[k], root, d-1)
		}
	}
	pps, _ := m["patternProperties"].(obj)
	for _, k := range sortedKeys(pps) {
		if g.p(0.7) {
			n := g.pick(append([]string{"a", "aa", "foo", "ab", "foo2", "b"}, names...))
			if _, in := o[n]; !in || g.p(0.3) {
				o[n] = g.doc(pps[k], root, d-1)
			}
		}
	}
	if l, ok := m["required"].(arr); ok {
		for _, x := range l {
			if _, in := o[x.(string)]; !in && g.p(0.7) {
				o[x.(string)] = g.value(1)
			}
		}
	}
	if ds, ok := m["dependencies"].(obj); ok {
		for _, k := range sortedKeys(ds) {
			if g.p(0.7) {
				if _, in := o[k]; !in {
					o[k] = g.value(1)
				}
			}
			if l, ok := ds[k].(arr); ok {
				for _, x := range l {
					if _, in := o[x.(string)]; !in && g.p(0.6) {
						o[x.(string)] = g.value(1)
					}
				}
			}
		}
	}
	for i := 0; i < g.r.Intn(3); i++ {
		n := g.pick(names)
		if _, in := o[n]; !in {
			if ap, ok := m["additionalProperties"].(obj); ok {
				o[n] = g.doc(ap, root, d-1)
			} else {
				o[n] = g.value(1)
			}
		}
	}
	return o
}

func sortedKeys(m obj) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sortStrings(r)
	return r
}

var fmtSeeds = map[string][]string{
	"date":                  {"2018-01-02", "2018-1-2", "2018-13-01", "2016-02-29", "2017-02-29", "0000-01-01", "12018-01-02"},
	"time":                  {"12:00:00", "23:59:60", "24:00:00", "12:00:00Z", "12:00:00+01:00", "12:00", "12:00:00.123", "1:00:00", "12:00:00.5Z"},
	"date-time":             {"2018-01-02T12:00:00Z", "2018-01-02 12:00:00", "2018-01-02T12:00:00+01:00", "2018-01-02T12:00:00.123456Z", "2018-01-02T12:00:00", "12:00:00", "2018-01-02", "2018-01-02t12:00:00z"},
	"hostname":              {"a", "a.b", "a-b.c", "-a", "a-", "a..b", ".a", "a.", "0.0", "a_b", strings.Repeat("a", 63), strings.Repeat("a", 64), strings.Repeat("a", 61) + "." + strings.Repeat("b", 61) + "." + strings.Repeat("c", 61) + "." + strings.Repeat("d", 61) + ".abcdef", strings.Repeat("a.", 127) + "a", strings.Repeat("a.", 127) + "ab", "A.B", "é", ""},
	"email":                 {"a@b", "a", "a@", "@b", "A <a@b>", "a b@c", "a@b.c", "\"a b\"@c", "a@[1.2.3.4]"},
	"ipv4":                  {"1.2.3.4", "256.1.1.1", "1.2.3", "::1", "::ffff:1.2.3.4", "01.2.3.4", "1.2.3.4 ", "0.0.0.0", ""},
	"ipv6":                  {"::1", "1::2", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:7:8:9", "::ffff:1.2.3.4", ":::", "g::1", "1.2.3.4", "::1%eth0", ""},
	"uri":                   {"http://a/b", "a/b", "//a/b", "urn:a:b", "http://a\\b", "http://[::1]/", "http://[", "%zz", ":a", "mailto:a@b", "", "http://a b/", "a:b\\c"},
	"uri-template":          {"http://a/{b}", "/{a}/{b}", "/{a", "/a}", "/{a}{b}", "/{a{b}", "{", "a{b}c", "\\{a}", "?q={a", ""},
	"uuid":                  {"01234567-89ab-cdef-0123-456789abcdef", "01234567-89AB-CDEF-0123-456789ABCDEF", "01234567-89ab-cdef-0123-456789abcde", "01234567-89ab-cdef-0123-456789abcdeg", "0123456789abcdef0123456789abcdef", "{01234567-89ab-cdef-0123-456789abcdef}", "01234567-89ab-cdef-0123-456789abcdef\n", "", "01234567_89ab-cdef-0123-456789abcdef"},
	"regex":                 {"a+", "(", "[", "a{2}", "(?i)a", "(?=a)", "\\d", "*", "a{2,1}", "^(a|b)$", "\\", ""},
	"json-pointer":          {"", "/", "/a/b", "a", "/a~0b", "/a~1", "/a~2", "/~", "//", "/a~", "/é", "#/a", "/a~01"},
	"relative-json-pointer": {"0", "1/a", "0#", "01", "00", "a", "", "10/a~0", "1#/a", "0/~2", "-1", "12#", "1/", "120/foo/bar", "0/~"},
}

func (g *gen) formatString(f string) string {
	base := f
	switch f {
	case "idn-email":
		base = "email"
	case "uri-reference", "iri", "iri-reference":
		base = "uri"
	}
	l := fmtSeeds[base]
	if l == nil || g.p(0.1) {
		var all []string
		for _, n := range formatNames {
			all = append(all, fmtSeeds[n]...)
		}
		l = all
	}
	s := l[g.r.Intn(len(l))]
	for g.p(0.45) {
		s = g.mutate(s)
	}
	return s
}

func (g *gen) mutate(s string) string {
	b := []byte(s)
	chars := "0123456789abcdefgzAFZ-.:/~#{}\\@+TZ% _\n[]()?*<>\"'=,;|^$é\x00"
	c := chars[g.r.Intn(len(chars))]
	i := 0
	if len(b) > 0 {
		i = g.r.Intn(len(b))
	}
	switch g.r.Intn(5) {
	case 0:
		if len(b) > 0 {
			b = append(b[:i:i], b[i+1:]...)
		}
	case 1:
		b = append(b[:i:i], append([]byte{c}, b[i:]...)...)
	case 2:
		if len(b) > 0 {
			b[i] = c
		}
	case 3:
		if len(b) > 0 {
			j := g.r.Intn(len(b))
			b[i], b[j] = b[j], b[i]
		}
	case 4:
		if len(b) > 0 {
			j := i + 1 + g.r.Intn(len(b)-i)
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		}
	}
	return strings.ToValidUTF8(string(b), "?")
}

// spoil replaces one keyword value somewhere by something else
func (g *gen) spoil(s interface{}) interface{} {
	m, ok := s.(obj)
	if !ok {
		return g.odd()
	}
	if g.p(0.35) {
		// descend
		for _, k := range shuffled(g, sortedKeys(m)) {
			switch x := m[k].(type) {
			case obj:
				if k == "properties" || k == "patternProperties" || k == "dependencies" || k == "definitions" {
					ks := sortedKeys(x)
					if len(ks) > 0 {
						q := ks[g.r.Intn(len(ks))]
						x[q] = g.spoil(x[q])
						return m
					}
				} else if k != "const" {
					m[k] = g.spoil(x)
					return m
				}
			case arr:
				if (k == "items" || k == "anyOf" || k == "oneOf" || k == "allOf") && len(x) > 0 {
					i := g.r.Intn(len(x))
					x[i] = g.spoil(x[i])
					return m
				}
			}
		}
	}
	kws := append([]string{"title", "description", "definitions", "id", "$id", "$schema"}, kwAll...)
	ks := sortedKeys(m)
	k := kws[g.r.Intn(len(kws))]
	if len(ks) > 0 && g.p(0.5) {
		k = ks[g.r.Intn(len(ks))]
	}
	if k == "$schema" {
		return m
	}
	if k == "id" || k == "$id" {
		m[k] = g.oddOf(g.odd(), "http://x.y/z", "%zz", "#foo")
		return m
	}
	if k == "$ref" {
		m[k] = g.oddOf(nil, jn("1"), obj{}, arr{}, "%zz")
		return m
	}
	switch k {
	case "type":
		m[k] = g.oddOf(g.odd(), "strin", "Integer", arr{"string", "string"}, arr{"string", jn("1")}, arr{}, arr{"any"}, "")
	case "minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties":
		m[k] = g.oddOf(g.odd(), jn("-1"), jn("2.0"), jn("1.5"), jn("1e1"), jn("99999999999999999999"), "3", jn("3"), jn("0"))
	case "required":
		m[k] = g.oddOf(g.odd(), arr{"a", "a"}, arr{"a", jn("1")}, arr{}, arr{"a", "b", "a"}, "a")
	case "enum":
		m[k] = g.oddOf(g.odd(), arr{jn("1"), jn("1.0")}, arr{jn("1e400")}, arr{}, arr{obj{"a": jn("1"), "b": jn("2")}, obj{"b": jn("2"), "a": jn("1.0")}}, arr{nil, nil}, arr{"a", "A"})
	case "pattern":
		m[k] = g.oddOf(g.odd(), "(", "[a", "(?=a)", "ok")
	case "patternProperties":
		m[k] = g.oddOf(g.odd(), obj{"(": obj{}}, obj{"a": jn("1")}, obj{}, obj{"a": nil, "b": obj{}})
	case "multipleOf":
		m[k] = g.oddOf(g.odd(), jn("0"), jn("-1"), jn("1e-400"), jn("0.0"), jn("1e400"), "2")
	case "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum":
		m[k] = g.oddOf(g.odd(), true, false, jn("1"), jn("1e1000000000"))
	case "dependencies":
		m[k] = g.oddOf(g.odd(), obj{"a": jn("1")}, obj{"a": arr{"b", jn("1")}}, obj{"a": nil}, obj{"a": "b"}, obj{"a": arr{}}, obj{"a": obj{"type": jn("1")}}, obj{"a": true})
	case "items", "anyOf", "oneOf", "allOf":
		m[k] = g.oddOf(g.odd(), arr{obj{}, jn("1")}, arr{nil}, arr{}, arr{true}, obj{"type": "nope"}, arr{obj{"type": "nope"}}, "x")
	case "properties", "definitions":
		m[k] = g.oddOf(g.odd(), obj{"a": jn("1")}, obj{"a": nil}, arr{}, obj{"a": obj{"minLength": "x"}}, obj{"a": true})
	case "const":
		m[k] = g.oddOf(g.odd(), jn("1e400"), arr{jn("1e400")})
	default:
		m[k] = g.oddOf(g.odd(), obj{}, obj{"type": jn("1")}, true, false, arr{})
	}
	return m
}

func (g *gen) oddOf(l ...interface{}) interface{} { return l[g.r.Intn(len(l))] }

func (g *gen) odd() interface{} {
	return g.oddOf(nil, true, false, jn("1"), jn("-1"), jn("1.5"), "a", arr{}, obj{}, arr{jn("1")}, jn("1e999999999999"), arr{"a"}, obj{"a": jn("1")}, obj{"type": "string"})
}

func shuffled(g *gen, l []string) []string {
	r := make([]string, len(l))
	for i, j := range g.r.Perm(len(l)) {
		r[i] = l[j]
	}
	return r
}
