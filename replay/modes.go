package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	gjs "github.com/xeipuuv/gojsonschema"
)

// ---- descriptions ----

type tlocale struct{ gjs.DefaultLocale }

func tmpl(code string) string {
	return code + ` {{range $k,$v := .}}{{$k}}={{printf "%q" (print $v)}};{{end}}`
}

func checkDesc(res *gjs.Result, i map[string]interface{}) {
	for _, e := range got(res) {
		if strings.Contains(detText(e.Det), "error=") {
			continue
		}
		w := e.Code + " " + detText(e.Det)
		if e.Desc != w {
			i["description"], i["wanted"] = e.Desc, w
			found("the description is not rendered from the locale's template and the details", i)
		}
		if e.Str != e.Field+": "+e.Desc {
			i["string"] = e.Str
			found("String() is not field and description", i)
		}
	}
	for _, e := range res.Errors() {
		if e.DescriptionFormat() != tmpl(e.Type()) {
			i["format"] = e.DescriptionFormat()
			found("the description format is not the locale's template of the code", i)
		}
	}
}

// ---- formats ----

type chk interface{ IsFormat(interface{}) bool }

func formats(rng *rand.Rand) {
	g := &gen{r: rng, dr: hybrid}
	for left() {
		f := formatNames[rng.Intn(len(formatNames))]
		s := g.formatString(f)
		note(f, s)
		want := refFormat(f, s)
		have := gjs.FormatCheckers.IsFormat(f, s)
		if want != have {
			found(fmt.Sprintf("format %s answers %v", f, have), map[string]interface{}{"format": f, "string": s, "expected": want})
		}
		if !gjs.FormatCheckers.Has(f) {
			found("built-in format not registered", map[string]interface{}{"format": f})
		}
		for _, v := range []interface{}{nil, true, jn("1"), arr{}, obj{}} {
			if !gjs.FormatCheckers.IsFormat(f, v) {
				found("a built-in checker rejects a value that is no string", map[string]interface{}{"format": f, "value": v})
			}
		}
	}
}

type setChecker struct {
	id   int
	mask int
}

func (c setChecker) IsFormat(v interface{}) bool {
	n, ok := v.(string)
	if !ok {
		return c.mask&1 != 0
	}
	return c.mask>>(uint(len(n))%5)&1 != 0
}

func registry(rng *rand.Rand) {
	g := &gen{r: rng, dr: hybrid}
	fn := []string{"f1", "f2", "F1", "f 3", "", "date", "uuid", "ipv4"}
	model := map[string]chk{}
	builtin := map[string]bool{"date": true, "uuid": true, "ipv4": true}
	var hist []string
	is := func(f string, v interface{}) bool {
		if c, ok := model[f]; ok {
			return c.IsFormat(v)
		}
		if builtin[f] {
			return refFormat(f, v)
		}
		return true
	}
	until := time.Now().Add(time.Until(deadline))
	for time.Now().Before(until) {
		f := fn[rng.Intn(len(fn))]
		switch rng.Intn(6) {
		case 0, 1:
			c := setChecker{rng.Intn(100), rng.Intn(64)}
			hist = append(hist, fmt.Sprintf("Add(%q, %v)", f, c))
			if gjs.FormatCheckers.Add(f, c) != &gjs.FormatCheckers {
				found("Add does not return the chain", map[string]interface{}{"history": hist})
			}
			model[f] = c
		case 2:
			hist = append(hist, fmt.Sprintf("Remove(%q)", f))
			if gjs.FormatCheckers.Remove(f) != &gjs.FormatCheckers {
				found("Remove does not return the chain", map[string]interface{}{"history": hist})
			}
			delete(model, f)
			delete(builtin, f)
		}
		if len(hist) > 40 {
			for _, k := range fn {
				gjs.FormatCheckers.Remove(k)
				delete(model, k)
				delete(builtin, k)
			}
			hist = []string{"(all removed)"}
		}
		for _, k := range fn {
			_, in := model[k]
			in = in || builtin[k]
			if gjs.FormatCheckers.Has(k) != in {
				found(fmt.Sprintf("Has(%q) is not %v", k, in), map[string]interface{}{"history": hist})
			}
		}
		d := g.value(2)
		if s, ok := d.(string); ok && rng.Intn(2) == 0 {
			d = s + "xx"
		}
		f = fn[rng.Intn(len(fn))]
		s := obj{"format": f}
		want := oracle(s, d, hybrid, is)
		sch, err, pan := compile(clone(s), hybrid)
		if err != nil || pan != "" {
			found("a format schema does not compile", map[string]interface{}{"schema": s})
		}
		res, pan := validate(sch, clone(d))
		if pan != "" || res.Valid() != (len(want.errs) == 0) {
			found("format verdict differs from the registered checker", map[string]interface{}{"history": hist, "schema": s, "document": d, "expected valid": len(want.errs) == 0, "panic": pan})
		}
	}
	for _, k := range fn {
		gjs.FormatCheckers.Remove(k)
	}
	gjs.FormatCheckers.Add("date", gjs.DateFormatChecker{}).Add("uuid", gjs.UUIDFormatChecker{}).Add("ipv4", gjs.IPV4FormatChecker{})
}

// ---- immutability ----

func deepHash(v reflect.Value, seen map[uintptr]int, b *strings.Builder, d int) {
	if d > 60 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		p := v.Pointer()
		if n, ok := seen[p]; ok {
			fmt.Fprintf(b, "^%d;", n)
			return
		}
		seen[p] = len(seen)
		t := v.Type().String()
		if strings.HasPrefix(t, "*regexp.") {
			b.WriteString("re;")
			return
		}
		deepHash(v.Elem(), seen, b, d+1)
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil;")
			return
		}
		b.WriteString(v.Elem().Type().String())
		deepHash(v.Elem(), seen, b, d+1)
	case reflect.Struct:
		b.WriteString(v.Type().String() + "{")
		for i := 0; i < v.NumField(); i++ {
			deepHash(v.Field(i), seen, b, d+1)
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			deepHash(v.Index(i), seen, b, d+1)
		}
		b.WriteString("]")
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k)
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "map%d{", len(ks))
		for _, k := range ks {
			fmt.Fprintf(b, "%q:", k)
			deepHash(m[k], seen, b, d+1)
		}
		b.WriteString("}")
	case reflect.String:
		fmt.Fprintf(b, "%q;", v.String())
	case reflect.Bool:
		fmt.Fprintf(b, "%v;", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d;", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d;", v.Uint())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		b.WriteString("f;")
	default:
		b.WriteString("?;")
	}
}

func hashOf(x interface{}) string {
	var b strings.Builder
	deepHash(reflect.ValueOf(x), map[uintptr]int{}, &b, 0)
	return b.String()
}

func immutable(rng *rand.Rand) {
	for left() {
		g := &gen{r: rng, dr: drafts[rng.Intn(4)]}
		s := g.root(1 + rng.Intn(3))
		if !wf(s, g.dr, func(string) bool { return true }) {
			continue
		}
		sch, err, pan := compile(clone(s), g.dr)
		if err != nil || pan != "" {
			continue
		}
		h0 := hashOf(sch)
		var docs []interface{}
		var first []*gjs.Result
		var firstText [][]string
		for k := 0; k < 4; k++ {
			docs = append(docs, g.doc(s, s, 4))
		}
		for round := 0; round < 3; round++ {
			for k, d := range docs {
				want := oracle(s, d, g.dr, refFormat)
				if want == nil {
					continue
				}
				c := clone(d)
				hc := hashOf(c)
				res, pan := validate(sch, c)
				i := map[string]interface{}{"draft": g.dr, "schema": s, "documents": docs, "document": d, "round": round}
				if pan != "" {
					i["panic"] = pan
					found("validating panics", i)
				}
				if hashOf(c) != hc {
					i["after"] = c
					found("validation changed the document", i)
				}
				w, h := keysOf(2, want.errs, got(res))
				if round == 0 {
					first = append(first, res)
					firstText = append(firstText, h)
				}
				_ = k
				if !reflect.DeepEqual(w, h) {
					i["expected"], i["got"] = w, h
					found("validation results depend on earlier validations", i)
				}
			}
		}
		for k, r := range first {
			_, h := keysOf(2, nil, got(r))
			if !reflect.DeepEqual(h, firstText[k]) {
				found("an earlier result changed", map[string]interface{}{"schema": s, "documents": docs})
			}
		}
		if hashOf(sch) != h0 {
			found("validation changed the compiled schema", map[string]interface{}{"draft": g.dr, "schema": s, "documents": docs})
		}
	}
}

func sharedUse(rng *rand.Rand) {
	for left() {
		g := &gen{r: rng, dr: drafts[rng.Intn(4)]}
		s := g.root(1 + rng.Intn(3))
		if !wf(s, g.dr, func(string) bool { return true }) {
			continue
		}
		sch, err, pan := compile(clone(s), g.dr)
		if err != nil || pan != "" {
			continue
		}
		var docs []interface{}
		var want []bool
		for k := 0; k < 4; k++ {
			d := g.doc(s, s, 4)
			if w := oracle(s, d, g.dr, refFormat); w != nil {
				docs = append(docs, d)
				want = append(want, len(w.errs) == 0)
			}
		}
		var wg sync.WaitGroup
		bad := make(chan int, 100)
		for t := 0; t < 4; t++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for r := 0; r < 3; r++ {
					for k, d := range docs {
						res, pan := validateOnly(sch, d)
						if pan != "" || res.Valid() != want[k] {
							select {
							case bad <- k:
							default:
							}
						}
					}
				}
			}()
		}
		wg.Wait()
		select {
		case k := <-bad:
			found("concurrent validations disagree", map[string]interface{}{"draft": g.dr, "schema": s, "document": docs[k], "expected valid": want[k]})
		default:
		}
	}
}

// ---- panics ----

func panics(rng *rand.Rand) {
	for left() {
		g := &gen{r: rng, dr: drafts[rng.Intn(4)], loose: true}
		s := g.root(1 + rng.Intn(3))
		for rng.Intn(3) > 0 {
			s = g.spoil(s)
		}
		if rng.Intn(20) == 0 {
			s = g.odd()
		}
		if m, ok := s.(obj); ok && rng.Intn(10) == 0 {
			odd := g.pick([]string{".//{", "%2f/{", "//[", "a:b:c", "http://[::1", "::", "#%", "?#", "http://h:port/", "%", " "})
			m[g.pick([]string{"id", "$id"})] = odd
			if rng.Intn(2) == 0 {
				m["definitions"] = obj{"d": obj{g.pick([]string{"id", "$id"}): g.pick([]string{".//{", "x", "%zz", "//"}), "$ref": g.pick([]string{"#", "x", ".//{", "//["})}}
			}
		}
		i := map[string]interface{}{"draft": g.dr, "schema": clone(s)}
		sch, err, pan := compile(clone(s), g.dr)
		if pan != "" {
			i["panic"] = pan
			found("compiling panics", i)
		}
		if err != nil {
			continue
		}
		for k := 0; k < 5; k++ {
			d := g.value(3)
			if rng.Intn(2) == 0 {
				guarded(func() { d = g.doc(s, s, 4) })
			}
			if rng.Intn(10) == 0 {
				d = jn(g.pick([]string{"1e999999999999", "1e-999999999999", "-0", "1E+400", "0.0000", "1e1000000"}))
			}
			i["document"] = d
			res, pan := validate(sch, clone(d))
			if pan != "" {
				i["panic"] = pan
				found("validating panics", i)
			}
			if pan := guarded(func() { got(res) }); pan != "" {
				i["panic"] = pan
				found("inspecting the errors panics", i)
			}
		}
	}
}

// ---- well-formedness ----

func wellformed(rng *rand.Rand) {
	for left() {
		g := &gen{r: rng, dr: drafts[rng.Intn(4)], loose: true}
		s := g.root(1 + rng.Intn(3))
		for k := rng.Intn(3); k > 0; k-- {
			s = g.spoil(s)
		}
		if m, ok := s.(obj); ok {
			if _, in := m["definitions"]; !in && strings.Contains(jtext(s), "#/definitions") {
				continue
			}
		}
		refOK := true
		want := wf(s, g.dr, func(ref string) bool {
			if strings.HasPrefix(ref, "%") {
				return false
			}
			t, ok := pointer(s, strings.TrimPrefix(ref, "#"))
			if !ok {
				return false
			}
			switch t.(type) {
			case obj:
			case bool:
				if g.dr < 6 {
					refOK = false
				}
			default:
				return false
			}
			return true
		})
		// identifiers change what references mean: not judged here
		txt := jtext(s)
		if strings.Contains(txt, "\"id\"") || strings.Contains(txt, "\"$id\"") {
			if strings.Contains(txt, "\"$ref\"") {
				continue
			}
		}
		if !refOK || strings.Count(txt, "http://x.y/z") > 1 || strings.Count(txt, "#foo") > 1 {
			continue
		}
		if strings.Contains(txt, "\"$ref\"") && strings.Contains(txt, "\"definitions\"") {
			// a malformed definition behind a reference is malformed either way
		}
		i := map[string]interface{}{"draft": g.dr, "schema": s, "expected well-formed": want}
		sch, err, pan := compile(clone(s), g.dr)
		if pan != "" {
			i["panic"] = pan
			found("compiling panics", i)
		}
		if (err == nil) != want {
			i["error"] = fmt.Sprint(err)
			found(fmt.Sprintf("compiling succeeds is %v, expected %v", err == nil, want), i)
		}
		if err != nil {
			continue
		}
		for k := 0; k < 4; k++ {
			d := g.value(3)
			if rng.Intn(3) > 0 {
				if guarded(func() { d = g.doc(s, s, 4) }) != "" {
					continue
				}
			}
			w := oracle(s, d, g.dr, refFormat)
			if w == nil {
				continue
			}
			res, pan := validate(sch, clone(d))
			i["document"] = d
			if pan != "" {
				i["panic"] = pan
				found("validating panics", i)
			}
			a, b := keysOf(0, w.errs, got(res))
			if !reflect.DeepEqual(a, b) {
				i["expected"], i["got"] = a, b
				found("a keyword does not take effect as written", i)
			}
		}
	}
}
