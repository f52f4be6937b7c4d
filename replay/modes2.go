package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"text/template"
	"time"

	"github.com/xeipuuv/gojsonreference"
	gjs "github.com/xeipuuv/gojsonschema"
)

// ---- loaders that serve documents from memory and count ----

type memFactory struct {
	docs map[string]interface{}
	log  []string
}

func (f *memFactory) New(src string) gjs.JSONLoader { return &memLoader{f, src} }

type memLoader struct {
	f   *memFactory
	src string
}

func (l *memLoader) JsonSource() interface{} { return l.src }
func (l *memLoader) LoadJSON() (interface{}, error) {
	l.f.log = append(l.f.log, l.src)
	u := strings.SplitN(l.src, "#", 2)[0]
	d, ok := l.f.docs[u]
	if !ok {
		return nil, errors.New("not found " + u)
	}
	return clone(d), nil
}
func (l *memLoader) JsonReference() (gojsonreference.JsonReference, error) {
	return gojsonreference.NewJsonReference(l.src)
}
func (l *memLoader) LoaderFactory() gjs.JSONLoaderFactory { return l.f }

// rawWith is a raw loader with its own factory
type rawWith struct {
	gjs.JSONLoader
	f *memFactory
}

func (r rawWith) LoaderFactory() gjs.JSONLoaderFactory { return r.f }

// ---- references ----

type universe struct {
	g      *gen
	kid    string
	n      int
	ids    map[string]interface{}
	leaves []leaf
	holes  []hole
	doc    int
}
type leaf struct {
	url string
	k   int
	doc int
}
type hole struct {
	node obj
	base *url.URL
	doc  int
}

func (u *universe) next() int { u.n++; return u.n }

func join(base *url.URL, s string) *url.URL {
	r, err := url.Parse(s)
	if err != nil {
		panic(err)
	}
	b := *base
	b.Fragment = ""
	x, err := url.Parse(b.ResolveReference(r).String())
	if err != nil {
		panic(err)
	}
	return x
}

// node builds a schema at JSON pointer ptr of the resource ids[res]
func (u *universe) node(base *url.URL, res string, ptr string, d int, root bool) obj {
	g := u.g
	m := obj{}
	if !root && g.p(0.3) {
		n := u.next()
		id := g.pick([]string{fmt.Sprintf("http://h%d/a%d.json", n%2, n), fmt.Sprintf("a%d.json", n), fmt.Sprintf("dir%d/a%d.json", n%3, n), fmt.Sprintf("/top/a%d/", n), fmt.Sprintf("#f%d", n), fmt.Sprintf("a%d.json#g%d", n, n)})
		if !base.IsAbs() && !strings.HasPrefix(id, "http") {
			id = fmt.Sprintf("http://h2/b%d.json", n)
		}
		nb := join(base, id)
		m[u.kid] = id
		base = nb
		u.ids[nb.String()] = m
		if nb.Fragment == "" {
			res, ptr = nb.String(), ""
		}
	}
	if d <= 0 || g.p(0.25) {
		if g.p(0.5) {
			k := u.next()
			m["enum"] = arr{jn(fmt.Sprint(k))}
			if res != "" || true {
				u.leaves = append(u.leaves, leaf{res + "#" + ptr, k, u.doc})
			}
			if id, ok := m[u.kid]; ok {
				_ = id
				u.leaves = append(u.leaves, leaf{base.String(), k, u.doc})
			}
			return m
		}
		delete(m, u.kid)
		for k, v := range u.ids {
			if reflect.ValueOf(v).Pointer() == reflect.ValueOf(m).Pointer() {
				delete(u.ids, k)
				return obj{"enum": arr{"dropped"}}
			}
		}
		u.holes = append(u.holes, hole{m, base, u.doc})
		return m
	}
	esc := func(s string) string {
		return strings.Replace(strings.Replace(s, "~", "~0", -1), "/", "~1", -1)
	}
	for i := 0; i < 1+g.r.Intn(3); i++ {
		switch g.r.Intn(9) {
		case 0, 1, 2:
			k := g.pick([]string{"properties", "definitions", "dependencies", "patternProperties", "properties", "definitions"})
			o, _ := m[k].(obj)
			if o == nil {
				o = obj{}
			}
			for j := 0; j < 1+g.r.Intn(3); j++ {
				n := g.pick([]string{"a", "b", "c", "$ref", "$id", "id", "const", "enum", "x y", "properties", "p/q"})
				if k == "patternProperties" {
					n = g.pick([]string{"^a", "^b$", "c"})
				}
				if _, in := o[n]; in {
					continue
				}
				o[n] = u.node(base, res, ptr+"/"+k+"/"+esc(n), d-1, false)
			}
			m[k] = o
		case 3:
			k := g.pick([]string{"items", "additionalProperties", "not", "additionalItems"})
			if _, in := m[k]; !in && k != "not" {
				m[k] = u.node(base, res, ptr+"/"+k, d-1, false)
			}
		case 4, 5:
			k := g.pick([]string{"allOf", "anyOf", "items", "oneOf"})
			if _, in := m[k]; !in {
				m[k] = arr{u.node(base, res, ptr+"/"+k+"/0", d-1, false), u.node(base, res, ptr+"/"+k+"/1", d-1, false)}
			}
		case 6:
			m["enum"] = arr{obj{"$ref": "x"}, obj{u.kid: "http://h0/decoy"}, obj{"a": jn("1")}, jn("1"), arr{}, obj{"b": obj{"$ref": "#/definitions/a"}}}
		case 7:
			m["const"] = obj{"$ref": "x"}
		}
	}
	return m
}

// absolute returns the schema with every reference in a schema position resolved
func (u *universe) absolute(n interface{}, base *url.URL, root bool) interface{} {
	switch x := n.(type) {
	case arr:
		for _, e := range x {
			u.absolute(e, base, false)
		}
	case obj:
		if id, ok := x[u.kid].(string); ok && !root {
			base = join(base, id)
		}
		if r, ok := x["$ref"].(string); ok {
			x["$ref"] = join(base, r).String()
		}
		for k, v := range x {
			switch k {
			case "enum", "const":
			case "properties", "patternProperties", "dependencies", "definitions":
				if o, ok := v.(obj); ok {
					for _, e := range o {
						u.absolute(e, base, false)
					}
				}
			default:
				u.absolute(v, base, false)
			}
		}
	}
	return n
}

func refsMode(rng *rand.Rand, panicsOnly bool) {
	for left() {
		g := &gen{r: rng, dr: drafts[rng.Intn(4)]}
		u := &universe{g: g, kid: "$id", ids: map[string]interface{}{}}
		if g.dr == 4 {
			u.kid = "id"
		}
		type doc struct {
			url  string
			node obj
			how  int
		}
		var docs []doc
		rootURL := ""
		if g.p(0.8) {
			rootURL = "http://h0/root.json"
		}
		ru, _ := url.Parse(rootURL)
		root := u.node(ru, rootURL, "", 3, true)
		if rootURL != "" {
			root[u.kid] = rootURL
			u.ids[rootURL] = root
		}
		u.ids[""] = root
		for i := 0; i < rng.Intn(3); i++ {
			a := fmt.Sprintf("http://h1/doc%d.json", i)
			au, _ := url.Parse(a)
			how := rng.Intn(3)
			u.doc = i + 1
			n := u.node(au, a, "", 2, true)
			if how == 2 { // AddSchemas: found by its identifier only
				n[u.kid] = a
			}
			u.ids[a] = n
			docs = append(docs, doc{a, n, how})
		}
		bad := false
		for _, h := range u.holes {
			// choose a target and a way to write it
			if len(u.leaves) == 0 {
				h.node["enum"] = arr{"nothing"}
				continue
			}
			done := false
			for try := 0; try < 12 && !done; try++ {
				lf := u.leaves[rng.Intn(len(u.leaves))]
				t := lf.url
				if lf.doc != h.doc && lf.doc > 0 && docs[lf.doc-1].how == 1 && !strings.HasPrefix(t, docs[lf.doc-1].url+"#") {
					continue // the identifiers inside a document are known once it is loaded
				}
				tu, _ := url.Parse(t)
				cands := []string{t, "#" + tu.EscapedFragment(), tu.Path + "#" + tu.EscapedFragment(), filepath.Base(tu.Path) + "#" + tu.EscapedFragment(), "../" + strings.TrimPrefix(tu.Path, "/") + "#" + tu.EscapedFragment()}
				c := cands[rng.Intn(len(cands))]
				if _, err := url.Parse(c); err != nil {
					continue
				}
				if join(h.base, c).String() == tu.String() && (tu.IsAbs() || !h.base.IsAbs()) {
					h.node["$ref"] = c
					done = true
				}
			}
			if !done {
				h.node["enum"] = arr{"nothing"}
			}
		}
		if bad {
			continue
		}
		srcs := map[string]interface{}{"root": clone(root)}
		f := &memFactory{docs: map[string]interface{}{}}
		sl := gjs.NewSchemaLoader()
		sl.Draft = gjs.Draft(g.dr)
		sl.AutoDetect = false
		var sch *gjs.Schema
		var err error
		pan := guarded(func() {
			for _, d := range docs {
				srcs[d.url] = clone(d.node)
				switch d.how {
				case 0:
					err = sl.AddSchema(d.url, gjs.NewRawLoader(clone(d.node)))
				case 1:
					f.docs[d.url] = clone(d.node)
				case 2:
					err = sl.AddSchemas(gjs.NewRawLoader(clone(d.node)))
				}
				if err != nil {
					return
				}
			}
			sch, err = sl.Compile(rawWith{gjs.NewRawLoader(clone(root)), f})
		})
		i := map[string]interface{}{"draft": g.dr, "sources": srcs, "loaded": f.log}
		note("sources", srcs)
		if pan != "" {
			i["panic"] = pan
			found("compiling panics", i)
		}
		if panicsOnly {
			continue
		}
		// what the references mean
		orig := clone(root)
		u.absolute(root, ru, true)
		for _, d := range docs {
			du, _ := url.Parse(d.url)
			u.absolute(d.node, du, true)
		}
		ev := func(d interface{}) (r *rres, p string) {
			p = guarded(func() {
				e := &reval{root: root, dr: g.dr, fmtOK: refFormat, budget: 20000}
				e.lookup = func(ref string) (interface{}, int) {
					if n, ok := u.ids[ref]; ok {
						return n, g.dr
					}
					x, _ := url.Parse(ref)
					fr := x.Fragment
					x.Fragment = ""
					n, ok := u.ids[x.String()]
					if !ok {
						panic("unresolved " + ref)
					}
					v, ok := pointer(n, strings.Replace(fr, "%", "%25", -1))
					if !ok {
						panic("unresolved " + ref)
					}
					return v, g.dr
				}
				r = e.sub(root, d, []string{"(root)"})
			})
			return
		}
		if err != nil {
			i["error"] = err.Error()
			found("a schema with resolvable references is rejected", i)
		}
		for _, l := range f.log {
			x, _ := url.Parse(l)
			if x == nil || !x.IsAbs() {
				found("a reference that is not absolute reached the loader", i)
			}
		}
		for k := 0; k < 8; k++ {
			d := u.docFor(orig, 4)
			w, p := ev(d)
			if p != "" {
				continue
			}
			res, pan := validate(sch, clone(d))
			i["document"] = d
			if pan != "" {
				i["panic"] = pan
				found("validating panics", i)
			}
			a, b := keysOf(0, w.errs, got(res))
			if !reflect.DeepEqual(a, b) {
				i["expected"], i["got"] = a, b
				found("a reference leads to another schema than it names", i)
			}
		}
	}
}

func (u *universe) docFor(s interface{}, d int) interface{} {
	g := u.g
	m, ok := s.(obj)
	if !ok || d <= 0 || g.p(0.1) {
		return jn(fmt.Sprint(1 + g.r.Intn(u.n+1)))
	}
	if _, ok := m["$ref"]; ok {
		return jn(fmt.Sprint(1 + g.r.Intn(u.n+1)))
	}
	if l, ok := m["enum"].(arr); ok && g.p(0.6) {
		return clone(l[g.r.Intn(len(l))])
	}
	if c, ok := m["const"]; ok && g.p(0.6) {
		return clone(c)
	}
	for _, k := range []string{"allOf", "anyOf", "oneOf"} {
		if l, ok := m[k].(arr); ok && g.p(0.5) {
			return u.docFor(l[g.r.Intn(len(l))], d-1)
		}
	}
	if it, ok := m["items"]; ok && g.p(0.5) {
		if l, ok := it.(arr); ok {
			return arr{u.docFor(l[0], d-1), u.docFor(l[1], d-1), jn("1")}
		}
		return arr{u.docFor(it, d-1), u.docFor(it, d-1)}
	}
	o := obj{}
	for _, k := range []string{"properties", "patternProperties"} {
		if ps, ok := m[k].(obj); ok {
			for _, n := range sortedKeys(ps) {
				q := strings.Trim(n, "^$")
				if g.p(0.7) {
					o[q] = u.docFor(ps[n], d-1)
				}
			}
		}
	}
	if ap, ok := m["additionalProperties"]; ok && g.p(0.6) {
		o["zz"] = u.docFor(ap, d-1)
	}
	if len(o) == 0 {
		return jn(fmt.Sprint(1 + g.r.Intn(u.n+1)))
	}
	return o
}

// ---- drafts ----

var metaURL = map[int]string{4: "http://json-schema.org/draft-04/schema", 6: "http://json-schema.org/draft-06/schema", 7: "http://json-schema.org/draft-07/schema"}

func detection(rng *rand.Rand) {
	for left() {
		conf := drafts[rng.Intn(4)]
		auto := rng.Intn(2) == 0
		g := &gen{r: rng, dr: drafts[rng.Intn(4)], loose: true, focus: map[string]bool{"const": true, "contains": true, "propertyNames": true, "if": true, "then": true, "exclusiveMinimum": true, "exclusiveMaximum": true, "not": true}}
		mk := func() (interface{}, int) {
			s := g.schema(2, true)
			eff := 0
			if m, ok := s.(obj); ok {
				switch rng.Intn(4) {
				case 0, 1:
					v := []int{4, 6, 7}[rng.Intn(3)]
					m["$schema"] = metaURL[v] + g.pick([]string{"", "#"})
					eff = v
				case 2:
					m["$schema"] = g.pick([]string{"http://example.com/other", "http://json-schema.org/schema#", "http://json-schema.org/draft-05/schema#"})
				}
				if _, in := m["$ref"]; in {
					delete(m, "$ref")
				}
			}
			if !auto {
				eff = 0
			}
			return s, eff
		}
		s, eff := mk()
		if eff == 0 {
			eff = conf
		}
		sl := gjs.NewSchemaLoader()
		sl.Draft = gjs.Draft(conf)
		sl.AutoDetect = auto
		i := map[string]interface{}{"configured draft": conf, "auto-detection": auto, "schema": clone(s)}
		note("detect", i)
		want := wf(s, eff, func(string) bool { return true })
		var top interface{} = s
		lookup := func(string) (interface{}, int) { return nil, 0 }
		topDr := eff
		if rng.Intn(2) == 0 {
			// the schema is reached by reference from another one
			t := obj{"allOf": arr{obj{"$ref": "http://h/sub.json"}}}
			td := 0
			if rng.Intn(2) == 0 {
				td = []int{4, 6, 7}[rng.Intn(3)]
				t["$schema"] = metaURL[td] + "#"
				if !auto {
					td = 0
				}
			}
			if td == 0 {
				td = conf
			}
			topDr = td
			// no $schema in the referenced document: the referring schema's draft
			se := td
			if m, ok := s.(obj); ok && auto {
				for v, u := range metaURL {
					if x, ok := m["$schema"].(string); ok && strings.TrimSuffix(x, "#") == u {
						se = v
					}
				}
			}
			eff = se
			want = wf(s, se, func(string) bool { return true })
			f := &memFactory{docs: map[string]interface{}{"http://h/sub.json": clone(s)}}
			i["root"] = t
			top = t
			lookup = func(string) (interface{}, int) { return s, se }
			var sch *gjs.Schema
			var err error
			pan := guarded(func() {
				if rng.Intn(2) == 0 {
					i["sub added"] = "AddSchema"
					if err = sl.AddSchema("http://h/sub.json", gjs.NewRawLoader(clone(s))); err != nil {
						return
					}
					sch, err = sl.Compile(gjs.NewRawLoader(clone(t)))
				} else {
					sch, err = sl.Compile(rawWith{gjs.NewRawLoader(clone(t)), f})
				}
			})
			judge(g, i, sch, err, pan, want, top, topDr, lookup, s)
			continue
		}
		var sch *gjs.Schema
		var err error
		pan := guarded(func() { sch, err = sl.Compile(gjs.NewRawLoader(clone(s))) })
		judge(g, i, sch, err, pan, want, top, topDr, lookup, s)
	}
}

func judge(g *gen, i map[string]interface{}, sch *gjs.Schema, err error, pan string, want bool, top interface{}, dr int, lookup func(string) (interface{}, int), s interface{}) {
	if pan != "" {
		i["panic"] = pan
		found("compiling panics", i)
	}
	if (err == nil) != want {
		i["error"] = fmt.Sprint(err)
		found(fmt.Sprintf("compiling succeeds is %v, expected %v for the draft in force", err == nil, want), i)
	}
	if err != nil {
		return
	}
	for k := 0; k < 6; k++ {
		d := g.doc(s, s, 3)
		var w *rres
		if guarded(func() {
			e := &reval{root: top, dr: dr, fmtOK: refFormat, budget: 20000, lookup: lookup}
			w = e.sub(top, d, []string{"(root)"})
		}) != "" {
			continue
		}
		res, pan := validate(sch, clone(d))
		i["document"] = d
		if pan != "" {
			i["panic"] = pan
			found("validating panics", i)
		}
		a, b := keysOf(0, w.errs, got(res))
		if !reflect.DeepEqual(a, b) {
			i["expected"], i["got"] = a, b
			found("a keyword does not have the meaning of the draft in force", i)
		}
	}
}

// ---- the pool ----

func pool(rng *rand.Rand) {
	for left() {
		sl := gjs.NewSchemaLoader()
		sl.AutoDetect = rng.Intn(2) == 0
		model := map[string]int{} // url -> constant of the schema registered there
		withID := map[int]string{}
		var hist []string
		fs := []*memFactory{{docs: map[string]interface{}{}}, {docs: map[string]interface{}{}}}
		owner := map[string]int{}
		n := 0
		urls := []string{"http://h/a", "http://h/b", "http://h/c.json", "http://h/a#f", "http://h/d"}
		info := func() map[string]interface{} {
			return map[string]interface{}{"history": hist, "loads 0": fs[0].log, "loads 1": fs[1].log}
		}
		for k, f := range fs {
			for j := 0; j < 3; j++ {
				n++
				u := fmt.Sprintf("http://r/%d%d", k, j)
				f.docs[u] = obj{"enum": arr{jn(fmt.Sprint(n))}, "definitions": obj{"x": obj{"enum": arr{jn(fmt.Sprint(1000 + n))}}}}
				owner[u] = k
				withID[n] = u
			}
		}
		loaded := map[string]int{}
		for step := 0; step < 12; step++ {
			n++
			u := urls[rng.Intn(len(urls))]
			s := obj{"enum": arr{jn(fmt.Sprint(n))}}
			switch rng.Intn(4) {
			case 0:
				hist = append(hist, fmt.Sprintf("AddSchema(%s, enum %d)", u, n))
				err := sl.AddSchema(u, gjs.NewRawLoader(s))
				_, taken := model[u]
				if (err != nil) != taken {
					found(fmt.Sprintf("adding under an occupied (%v) URI gives error %v", taken, err), info())
				}
				if !taken {
					model[u] = n
				}
			case 1:
				s["$id"] = u
				hist = append(hist, fmt.Sprintf("AddSchemas($id %s, enum %d)", u, n))
				err := sl.AddSchemas(gjs.NewRawLoader(s))
				_, taken := model[u]
				if (err != nil) != taken {
					found(fmt.Sprintf("adding under an occupied (%v) identifier gives error %v", taken, err), info())
				}
				if !taken {
					model[u] = n
				}
			case 2, 3:
				k := rng.Intn(2)
				root := obj{"$id": fmt.Sprintf("http://roots/%d", n)}
				ps := obj{}
				want := map[string]int{}
				bad := false
				var now []string
				for j := 0; j < 1+rng.Intn(3); j++ {
					p := fmt.Sprintf("p%d", j)
					switch rng.Intn(6) {
					case 0:
						if _, ok := model[u]; ok {
							ps[p] = obj{"$ref": u}
							want[p] = model[u]
						}
					case 1, 2, 3, 4:
						q := 1 + rng.Intn(6)
						r := withID[q]
						if _, there := loaded[r]; !there && owner[r] != k {
							continue
						}
						now = append(now, r)
						want[p] = q
						if rng.Intn(2) == 0 {
							r += "#/definitions/x"
							want[p] = 1000 + q
						}
						ps[p] = obj{"$ref": r}
					case 5:
						if rng.Intn(4) == 0 {
							delete(root, "$id")
							ps[p] = obj{"$ref": "rel/x.json"}
							bad = true
						}
					}
				}
				root["properties"] = ps
				if bad {
					before := len(fs[0].log) + len(fs[1].log)
					sl2 := gjs.NewSchemaLoader()
					r2 := obj{"properties": obj{"p": obj{"$ref": "rel/x.json"}}}
					_, err := sl2.Compile(rawWith{gjs.NewRawLoader(clone(r2)), fs[k]})
					if err == nil || len(fs[0].log)+len(fs[1].log) != before {
						i := info()
						i["schema"] = r2
						found("a relative reference without base is loaded", i)
					}
					continue
				}
				hist = append(hist, fmt.Sprintf("Compile(%s) with factory %d", jtext(root), k))
				var sch *gjs.Schema
				var err error
				pan := guarded(func() {
					sch, err = sl.Compile(idLoader{rawWith{gjs.NewRawLoader(clone(root)), fs[k]}, root["$id"].(string) + "/x"})
				})
				i := info()
				if pan != "" || err != nil {
					i["error"] = fmt.Sprint(err, pan)
					found("compiling against the pool fails", i)
				}
				for _, r := range now {
					loaded[r]++
				}
				for p, c := range want {
					for _, v := range []int{c, c + 1, 1} {
						res, pan := validate(sch, obj{p: jn(fmt.Sprint(v))})
						if pan != "" || res.Valid() != (v == c) {
							i["document"] = obj{p: jn(fmt.Sprint(v))}
							found("a reference does not lead to the pooled document", i)
						}
					}
				}
			}
			note("history", hist)
			cnt := map[string]int{}
			for k, f := range fs {
				for _, l := range f.log {
					b := strings.SplitN(l, "#", 2)[0]
					cnt[b]++
					if cnt[b] > 1 {
						found("a pooled document is loaded again", info())
					}
					if owner[b] != k {
						found("a document is loaded through the factory of another schema", info())
					}
				}
			}
		}
	}
}

// idLoader gives a document its own reference, so that several can be compiled by one SchemaLoader
type idLoader struct {
	rawWith
	url string
}

func (l idLoader) JsonReference() (gojsonreference.JsonReference, error) {
	return gojsonreference.NewJsonReference(l.url)
}
func (l idLoader) LoaderFactory() gjs.JSONLoaderFactory { return hostFactory{l} }

type hostFactory struct{ l idLoader }

func (h hostFactory) New(src string) gjs.JSONLoader {
	if src == h.l.url {
		return gjs.NewRawLoader(clone(h.l.JsonSource()))
	}
	return h.l.f.New(src)
}

// ---- meta-schema validation ----

type metaCase struct {
	s    string
	good map[int]bool
}

func metaMode(rng *rand.Rand) {
	all := map[int]bool{4: true, 6: true, 7: true}
	none := map[int]bool{}
	cases := []metaCase{
		{`{}`, all}, {`{"type":"string"}`, all}, {`{"minLength":2}`, all}, {`{"properties":{"a":{"type":"integer"}}}`, all},
		{`{"type":"nope"}`, none}, {`{"minLength":-1}`, none}, {`{"title":1}`, none}, {`{"properties":{"a":{"type":1}}}`, none}, {`{"enum":[]}`, none}, {`{"anyOf":[]}`, none},
		{`{"uniqueItems":1}`, none}, {`{"multipleOf":0}`, none}, {`{"items":[{"pattern":"("}]}`, none},
		{`{"required":[]}`, map[int]bool{6: true, 7: true}}, {`{"exclusiveMinimum":true,"minimum":1}`, map[int]bool{4: true}}, {`{"exclusiveMinimum":1}`, map[int]bool{6: true, 7: true}},
		{`{"dependencies":{"a":[]}}`, map[int]bool{6: true, 7: true}}, {`{"if":1}`, map[int]bool{4: true, 6: true}}, {`{"contains":1}`, map[int]bool{4: true}}, {`{"readOnly":1}`, map[int]bool{4: true, 6: true}},
	}
	for left() {
		sl := gjs.NewSchemaLoader()
		sl.Validate = true
		conf := drafts[rng.Intn(4)]
		sl.Draft = gjs.Draft(conf)
		sl.AutoDetect = rng.Intn(3) > 0
		var hist []string
		for step := 0; step < 8; step++ {
			c := cases[rng.Intn(len(cases))]
			m := decode(c.s).(obj)
			eff := conf
			if rng.Intn(2) == 0 {
				v := []int{4, 6, 7}[rng.Intn(3)]
				m["$schema"] = metaURL[v] + []string{"", "#"}[rng.Intn(2)]
				if sl.AutoDetect {
					eff = v
				}
			}
			unknown := false
			if rng.Intn(12) == 0 {
				m["$schema"] = "urn:nothing-here"
				unknown = sl.AutoDetect
				if sl.AutoDetect {
					eff = conf
				}
			}
			good := eff == hybrid || c.good[eff]
			if unknown {
				good = false
			}
			if eff == hybrid && !unknown {
				// no meta-schema: only compilation itself can fail
				good = true
			}
			u := fmt.Sprintf("http://h/%d", len(hist))
			var err error
			how := rng.Intn(3)
			pan := guarded(func() {
				switch how {
				case 0:
					err = sl.AddSchema(u, gjs.NewRawLoader(clone(m)))
				case 1:
					if eff == 4 {
						m["id"] = u
					} else {
						m["$id"] = u
					}
					err = sl.AddSchemas(gjs.NewRawLoader(clone(m)))
				case 2:
					f := &memFactory{docs: map[string]interface{}{u: clone(m)}}
					_, err = sl.Compile(f.New(u))
				}
			})
			note("history", hist)
			hist = append(hist, fmt.Sprintf("%s(%s) -> %v", []string{"AddSchema", "AddSchemas", "Compile"}[how], jtext(m), err))
			i := map[string]interface{}{"configured draft": conf, "auto-detection": sl.AutoDetect, "history": hist}
			if pan != "" {
				i["panic"] = pan
				found("a panic", i)
			}
			if !sl.Validate {
				found("Validate was switched off", i)
			}
			if !good && err == nil {
				if eff == hybrid {
					continue
				}
				found("a schema that does not satisfy its meta-schema was accepted", i)
			}
			if good && err != nil && !(how == 2) && !(eff == hybrid) {
				found("a schema that satisfies its meta-schema was refused", i)
			}
			if good && err != nil && how == 2 && c.good[eff] {
				found("a schema that satisfies its meta-schema was refused", i)
			}
			if err != nil && how < 2 {
				// nothing was added: the URI is still free
				g := obj{"enum": arr{jn("77")}}
				if e2 := sl.AddSchema(u, gjs.NewRawLoader(clone(g))); e2 != nil {
					i["second"] = e2.Error()
					found("a refused schema was added all the same", i)
				}
				hist = append(hist, "AddSchema("+u+", enum 77)")
			}
		}
	}
}

// ---- loaders ----

type recFS struct {
	files map[string]string
	log   []string
}

func (f *recFS) Open(name string) (http.File, error) {
	f.log = append(f.log, name)
	s, ok := f.files[name]
	if !ok {
		return nil, os.ErrNotExist
	}
	return memFile{bytes.NewReader([]byte(s))}, nil
}

type memFile struct{ *bytes.Reader }

func (memFile) Close() error                       { return nil }
func (memFile) Readdir(int) ([]os.FileInfo, error) { return nil, nil }
func (memFile) Stat() (os.FileInfo, error)         { return nil, errors.New("no stat") }

func loaders(rng *rand.Rand) {
	g := &gen{r: rng, dr: hybrid}
	var mu sync.Mutex
	status, body := 200, ""
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		mu.Lock()
		defer mu.Unlock()
		w.WriteHeader(status)
		io.WriteString(w, body)
	}))
	defer srv.Close()
	bads := []string{"", "{", "[1,", "nul", "{\"a\":}", "x01", "\"a", "{'a':1}", "tru", "[1 2]"}
	for left() {
		v := g.value(3)
		txt := jtext(v)
		good := true
		if rng.Intn(4) == 0 {
			txt, good = bads[rng.Intn(len(bads))], false
		}
		i := map[string]interface{}{"source": txt}
		note("source", txt)
		check := func(name string, l gjs.JSONLoader, good bool) {
			i["loader"] = name
			var d interface{}
			var err error
			if pan := guarded(func() { d, err = l.LoadJSON() }); pan != "" {
				i["panic"] = pan
				found("a loader panics", i)
			}
			if (err == nil) != good {
				i["error"] = fmt.Sprint(err)
				found(fmt.Sprintf("loading succeeds is %v, expected %v", err == nil, good), i)
			}
			if err == nil && !reflect.DeepEqual(d, v) {
				i["delivered"] = d
				found("the loader delivers another value", i)
			}
		}
		twice := func(name string, l gjs.JSONLoader) { check(name, l, good); check(name+" again", l, good) }
		twice("string", gjs.NewStringLoader(txt))
		bs := []byte(txt)
		twice("bytes", gjs.NewBytesLoader(bs))
		if string(bs) != txt {
			found("the byte source was changed", i)
		}
		rl, r := gjs.NewReaderLoader(strings.NewReader(txt))
		io.ReadAll(r)
		check("reader", rl, good)
		var wb bytes.Buffer
		wl, w := gjs.NewWriterLoader(&wb)
		io.WriteString(w, txt)
		check("writer", wl, good)
		if wb.String() != txt {
			found("the writer loader does not pass on what is written", i)
		}
		if good {
			c := clone(v)
			twice("raw", gjs.NewRawLoader(c))
			c2 := clone(v)
			twice("go", gjs.NewGoLoader(c2))
			if !reflect.DeepEqual(c, v) || !reflect.DeepEqual(c2, v) {
				found("a source was changed", i)
			}
		}
		name := g.pick([]string{"/a.json", "/x/y.json", "/sp ace.json", "/é.json", "/a#b", "/p%41", "/q?r", "/UPPER/low.json", "/a+b.json"})
		fs := &recFS{files: map[string]string{name: txt}}
		if !strings.ContainsAny(name, "+") {
			u := url.URL{Scheme: "file", Path: name}
			ref := u.String() + g.pick([]string{"", "#", "#/a"})
			check("file "+ref, gjs.NewReferenceLoaderFileSystem(ref, fs), good)
			if len(fs.log) != 1 || fs.log[0] != name {
				i["opened"], i["named"] = fs.log, name
				found("another file is opened than the reference names", i)
			}
			check("factory", gjs.NewReferenceLoaderFileSystem("file:///zz", fs).LoaderFactory().New(ref), good)
			if len(fs.log) != 2 {
				found("the factory does not use the loader's file system", i)
			}
			check("missing", gjs.NewReferenceLoaderFileSystem("file:///nothere", fs), false)
		}
		mu.Lock()
		status, body = []int{200, 200, 200, 404, 500, 201, 204, 301}[rng.Intn(8)], txt
		st := status
		mu.Unlock()
		i["status"] = st
		check("http", gjs.NewReferenceLoader(srv.URL+"/x"+g.pick([]string{"", "#/a"})), good && st == 200)
		for _, u := range metaURL {
			for _, x := range []string{"", "#"} {
				d, err := gjs.NewReferenceLoader(u + x).LoadJSON()
				m, _ := d.(obj)
				id := ""
				for _, k := range []string{"id", "$id"} {
					if s, ok := m[k].(string); ok {
						id = s
					}
				}
				if err != nil || strings.TrimSuffix(id, "#") != u {
					found("a built-in meta-schema is not served", map[string]interface{}{"url": u + x, "error": fmt.Sprint(err), "id": id})
				}
			}
		}
	}
}

// ---- locks ----

type reenter struct{}

func (reenter) IsFormat(v interface{}) bool {
	gjs.FormatCheckers.Has("date")
	gjs.FormatCheckers.Add("inner", gjs.DateFormatChecker{})
	gjs.FormatCheckers.Remove("inner")
	return gjs.FormatCheckers.IsFormat("date", v)
}

func within(d time.Duration, what string, f func()) {
	done := make(chan string, 1)
	go func() { done <- guarded(f) }()
	select {
	case p := <-done:
		if p != "" {
			found(what+": panic", map[string]interface{}{"panic": p})
		}
	case <-time.After(d):
		found(what+": does not return", map[string]interface{}{"scenario": what})
	}
}

func locking(rng *rand.Rand) {
	g := &gen{r: rng, dr: hybrid}
	gjs.FormatCheckers.Add("reenter", reenter{})
	gjs.ErrorTemplateFuncs = template.FuncMap{"again": func() string {
		s, _ := gjs.NewSchema(gjs.NewRawLoader(obj{"minLength": jn("3")}))
		r, _ := s.Validate(gjs.NewRawLoader("a"))
		return fmt.Sprint(len(r.Errors()))
	}}
	n := 0
	for left() {
		n++
		within(20*time.Second, "a checker that uses the registry", func() {
			s, _ := gjs.NewSchema(gjs.NewRawLoader(obj{"format": "reenter"}))
			s.Validate(gjs.NewRawLoader("x"))
		})
		within(20*time.Second, "a template that validates", func() {
			e := &gjs.NumberGTEError{}
			e.SetContext(gjs.NewJsonContext("(root)", nil))
			e.SetDescriptionFormat(fmt.Sprintf("t%d {{again}}", n))
			(&gjs.Result{}).AddError(e, gjs.ErrorDetails{})
		})
		within(20*time.Second, "a template that does not parse", func() {
			e := &gjs.NumberGTEError{}
			e.SetContext(gjs.NewJsonContext("(root)", nil))
			e.SetDescriptionFormat(fmt.Sprintf("bad%d {{", n))
			(&gjs.Result{}).AddError(e, gjs.ErrorDetails{})
			e.SetDescriptionFormat(fmt.Sprintf("fails%d {{index .a 3}}", n))
			(&gjs.Result{}).AddError(e, gjs.ErrorDetails{})
		})
		var docs []interface{}
		for i := 0; i < 4; i++ {
			docs = append(docs, g.value(2))
		}
		within(30*time.Second, "concurrent validations and registry calls", func() {
			var wg sync.WaitGroup
			for t := 0; t < 6; t++ {
				wg.Add(1)
				go func(t int) {
					defer wg.Done()
					for k := 0; k < 10; k++ {
						f := fmt.Sprintf("c%d", (t+k)%3)
						switch t {
						case 0:
							gjs.FormatCheckers.Add(f, gjs.UUIDFormatChecker{})
						case 1:
							gjs.FormatCheckers.Remove(f)
						case 2:
							gjs.FormatCheckers.Has(f)
							gjs.FormatCheckers.IsFormat(f, "x")
						default:
							s, err := gjs.NewSchema(gjs.NewRawLoader(obj{"format": f, "minLength": jn("2"), "type": "string", "title": fmt.Sprint(k)}))
							if err != nil {
								continue
							}
							for _, d := range docs {
								r, _ := s.Validate(gjs.NewRawLoader(d))
								r.Valid()
							}
							e := &gjs.NumberGTEError{}
							e.SetContext(gjs.NewJsonContext("(root)", nil))
							e.SetDescriptionFormat(fmt.Sprintf("u%d-%d {{.field}}", n, k))
							(&gjs.Result{}).AddError(e, gjs.ErrorDetails{})
						}
					}
				}(t)
			}
			wg.Wait()
		})
	}
}

var _ = json.Marshal
var _ = sort.Strings
