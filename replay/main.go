package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	gjs "github.com/xeipuuv/gojsonschema"
)

func sortStrings(s []string) { sort.Strings(s) }

var deadline time.Time

func left() bool { return time.Now().Before(deadline) }

// found reports a failing input and ends the program.
func found(what string, detail map[string]interface{}) {
	detail["what"] = what
	b, err := json.Marshal(detail)
	if err != nil {
		b, _ = json.Marshal(map[string]string{"what": what, "detail": fmt.Sprint(detail)})
	}
	fmt.Println("FOUND " + string(b))
	os.Exit(1)
}

func decode(s string) interface{} {
	d := json.NewDecoder(strings.NewReader(s))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		panic(err)
	}
	return v
}

func clone(v interface{}) interface{} {
	switch x := v.(type) {
	case arr:
		r := make(arr, len(x))
		for i := range x {
			r[i] = clone(x[i])
		}
		return r
	case obj:
		r := obj{}
		for k, e := range x {
			r[k] = clone(e)
		}
		return r
	}
	return v
}

// guarded runs f and turns a panic into a string.
func guarded(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
		}
	}()
	f()
	return ""
}

func compile(s interface{}, dr int) (sch *gjs.Schema, err error, pan string) {
	note("compile", s)
	pan = guarded(func() {
		sl := gjs.NewSchemaLoader()
		sl.Draft = gjs.Draft(dr)
		sl.AutoDetect = false
		sch, err = sl.Compile(gjs.NewRawLoader(s))
	})
	return
}

// what was tried: validations and compilations through the public API
var nCase int
var seenCases = map[uint64]bool{}
var samples []string

var noteMu sync.Mutex

func note(kind string, v interface{}) {
	noteMu.Lock()
	defer noteMu.Unlock()
	nCase++
	h := fnv.New64a()
	t := jtext(v)
	h.Write([]byte(kind + t))
	if !seenCases[h.Sum64()] && len(seenCases) < 2000000 {
		seenCases[h.Sum64()] = true
		if len(t) > 40 && len(t) < 300 && len(samples) < 3 {
			samples = append(samples, kind+" "+t)
		}
	}
}

func stats() {
	b, _ := json.Marshal(map[string]interface{}{"evaluations": nCase, "distinct": len(seenCases), "samples": samples})
	fmt.Println("STATS " + string(b))
}

func validate(sch *gjs.Schema, d interface{}) (res *gjs.Result, pan string) {
	note("validate", d)
	return validateOnly(sch, d)
}

func validateOnly(sch *gjs.Schema, d interface{}) (res *gjs.Result, pan string) {
	pan = guarded(func() {
		var err error
		res, err = sch.Validate(gjs.NewRawLoader(d))
		if err != nil {
			panic(err)
		}
	})
	return
}

var drafts = []int{4, 6, 7, hybrid}

var focus = map[string][]string{
	"C01": {"type", "$ref", "not", "items", "anyOf"},
	"C02": {"multipleOf", "minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"},
	"C03": {"minLength", "maxLength", "pattern"},
	"C04": {"items", "additionalItems", "minItems", "maxItems", "uniqueItems", "contains"},
	"C05": {"properties", "patternProperties", "additionalProperties", "propertyNames", "required", "dependencies", "minProperties", "maxProperties"},
	"C06": {"allOf", "anyOf", "oneOf", "not", "if", "then", "else"},
	"C07": {"enum", "const"},
	"C08": {"format"},
	"C22": {"anyOf", "oneOf", "contains", "not", "required", "type"},
}

type gotErr struct {
	Code, Ctx, Field, Val, Desc, Str string
	Det                              map[string]string
}

func got(res *gjs.Result) []gotErr {
	var r []gotErr
	for _, e := range res.Errors() {
		g := gotErr{Code: e.Type(), Ctx: e.Context().String(), Field: e.Field(), Val: jtext(e.Value()), Desc: e.Description(), Str: e.String(), Det: map[string]string{}}
		for k, v := range e.Details() {
			g.Det[k] = fmt.Sprint(v)
		}
		r = append(r, g)
	}
	return r
}

func detText(m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		v := m[k]
		if k == "error" {
			v = "*"
		}
		b.WriteString(k + "=" + strconv.Quote(v) + ";")
	}
	return b.String()
}

// keysOf renders error lists at the level of detail a property is about.
func keysOf(level int, want []rerr, have []gotErr) (w, h []string) {
	for _, e := range want {
		s := e.Code
		if level >= 1 {
			s += " @" + e.Ctx + " field " + strings.TrimPrefix(e.Ctx, "(root).")
		}
		if level >= 2 {
			s += " value " + e.Val + " details " + detText(e.Det)
		}
		w = append(w, s)
	}
	for _, e := range have {
		s := e.Code
		if level >= 1 {
			s += " @" + e.Ctx + " field " + e.Field
		}
		if level >= 2 {
			s += " value " + e.Val + " details " + detText(e.Det)
		}
		h = append(h, s)
	}
	sort.Strings(w)
	sort.Strings(h)
	return
}

func oracle(s, d interface{}, dr int, fm func(string, interface{}) bool) (r *rres) {
	defer func() {
		if x := recover(); x != nil {
			if x == errBudget {
				r = nil
				return
			}
			panic(x)
		}
	}()
	e := &reval{root: s, dr: dr, fmtOK: fm, budget: 20000}
	return e.sub(s, d, []string{"(root)"})
}

func verdicts(prop string, rng *rand.Rand) {
	level := 0
	switch prop {
	case "C12":
		level = 1
	case "C11":
		level = 2
		gjs.Locale = tlocale{}
	}
	for n := 0; left(); n++ {
		g := &gen{r: rng, dr: drafts[rng.Intn(4)], focus: map[string]bool{}}
		for _, k := range focus[prop] {
			g.focus[k] = true
		}
		s := g.root(1 + rng.Intn(3))
		s0 := clone(s)
		if !wf(s, g.dr, func(string) bool { return true }) {
			continue
		}
		sch, err, pan := compile(clone(s), g.dr)
		info := func() map[string]interface{} {
			return map[string]interface{}{"draft": g.dr, "schema": s0}
		}
		if pan != "" {
			i := info()
			i["panic"] = pan
			found("compiling panics", i)
		}
		if err != nil {
			i := info()
			i["error"] = err.Error()
			found("a well-formed schema is rejected", i)
		}
		for k := 0; k < 8; k++ {
			d := g.doc(s, s, 4)
			want := oracle(s, d, g.dr, refFormat)
			if want == nil {
				continue
			}
			res, pan := validate(sch, clone(d))
			i := info()
			i["document"] = d
			if pan != "" {
				i["panic"] = pan
				found("validating panics", i)
			}
			have := got(res)
			w, h := keysOf(level, want.errs, have)
			i["expected"], i["got"] = w, h
			if res.Valid() != (len(want.errs) == 0) {
				found(fmt.Sprintf("valid is %v, expected %v", res.Valid(), len(want.errs) == 0), i)
			}
			if !reflect.DeepEqual(w, h) {
				found("the reported errors differ", i)
			}
			if res.Valid() != (len(res.Errors()) == 0) {
				found("verdict and error list disagree", i)
			}
			if prop == "C11" {
				checkDesc(res, i)
			}
			if prop == "C12" {
				for _, e := range res.Errors() {
					a, b := e.Context().String("/"), ""
					for c := e.Context().String("\x01"); ; {
						b = strings.Replace(c, "\x01", "/", -1)
						break
					}
					if a != b || !strings.HasPrefix(a, "(root)") {
						found("context rendering with a delimiter", i)
					}
				}
			}
			if prop == "C10" {
				checkAdd(res, i)
			}
		}
	}
}

// checkAdd: AddError appends exactly the given error and renders its description.
func checkAdd(res *gjs.Result, i map[string]interface{}) {
	before := append([]gjs.ResultError{}, res.Errors()...)
	e := &gjs.NumberGTEError{}
	e.SetContext(gjs.NewJsonContext("x", gjs.NewJsonContext("(root)", nil)))
	e.SetType("custom")
	e.SetDescriptionFormat("hello {{.who}} at {{.field}}")
	det := gjs.ErrorDetails{"who": "you"}
	res.AddError(e, det)
	after := res.Errors()
	if len(after) != len(before)+1 || after[len(after)-1] != gjs.ResultError(e) {
		found("AddError does not append exactly the error", i)
	}
	for k := range before {
		if before[k] != after[k] {
			found("AddError disturbs earlier errors", i)
		}
	}
	if e.Description() != "hello you at x" && e.Description() != "hello you at <no value>" {
		i["description"] = e.Description()
		found("AddError does not render the description", i)
	}
	if res.Valid() {
		found("a result with an added error is valid", i)
	}
}

func main() {
	prop := os.Args[1]
	seed, _ := strconv.ParseInt(os.Args[2], 10, 64)
	secs, _ := strconv.Atoi(os.Args[3])
	deadline = time.Now().Add(time.Duration(secs) * time.Second)
	rng := rand.New(rand.NewSource(seed))
	half := func(f ...func()) {
		total := time.Duration(secs) * time.Second / time.Duration(len(f))
		for _, g := range f {
			deadline = time.Now().Add(total)
			g()
		}
	}
	v := func() { verdicts(prop, rng) }
	switch prop {
	case "C08":
		half(func() { registry(rng) }, func() { formats(rng) }, v)
	case "C09":
		formats(rng)
	case "C13":
		half(func() { immutable(rng) }, func() { sharedUse(rng) })
	case "C14":
		half(func() { panics(rng) }, func() { refsMode(rng, true) })
	case "C15":
		half(func() { wellformed(rng) }, v)
	case "C16":
		half(func() { detection(rng) }, func() { wellformed(rng) }, v)
	case "C17":
		half(func() { refsMode(rng, false) }, v)
	case "C18":
		half(func() { pool(rng) }, func() { refsMode(rng, false) })
	case "C19":
		metaMode(rng)
	case "C20":
		loaders(rng)
	case "C21":
		locking(rng)
	case "C01":
		half(v, func() { wellformed(rng) })
	default:
		v()
	}
	stats()
}
