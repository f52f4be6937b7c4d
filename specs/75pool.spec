// ---- drafts ----
fn SchemaText(n any) string = if IsObj(n) && "$schema" in Obj(n) && IsStr(Obj(n)["$schema"]) && urlOK(as(Obj(n)["$schema"], string)) then Norm(as(Obj(n)["$schema"], string)) else ""
pred SchemaTextOK(n any) = IsBool(n) || (IsObj(n) && ("$schema" in Obj(n) ==> IsStr(Obj(n)["$schema"]) && urlOK(as(Obj(n)["$schema"], string))))
pred Detected(d *Draft, n any) = (d != nil <==> BuiltIn(SchemaText(n))) && (d != nil ==> *d == DraftNamed(SchemaText(n)))
func parseSchemaURL(n) (s, d, err)
  props C16 C19 C15
  requires JSON(n)
  unfold JSON(n) ==> JSONDef(n)
  ensures err == nil <==> SchemaTextOK(n)
  ensures err == nil ==> s == SchemaText(n)
  ensures err == nil ==> Detected(d, n)
  ensures err != nil ==> d == nil

// ---- resolving identifiers and references (schemaPool.go) ----
// Documents are finite trees: Within(v, m) says that the map m occurs in the value v.
ghost func Within(v any, m map[string]interface{}) bool
axiom within_leaf: forall v any, x map[string]interface{} :: {Within(v, x)} Within(v, x) ==> IsObj(v) || IsArr(v)
pred TreeDef(v any) = (IsObj(v) ==> Within(v, Obj(v)) && (forall k string :: {Obj(v)[k]} k in Obj(v) ==> !Within(Obj(v)[k], Obj(v)))
       && (forall k string, x map[string]interface{} :: {Within(Obj(v)[k], x)} k in Obj(v) && Within(Obj(v)[k], x) ==> Within(v, x)))
  && (IsArr(v) ==> (forall i int, x map[string]interface{} :: {Within(Arr(v)[i], x)} 0 <= i && i < len(Arr(v)) && Within(Arr(v)[i], x) ==> Within(v, x)))
fn IdKey(m map[string]interface{}) string = if "id" in m then "id" else "$id"
fn IdStr(m map[string]interface{}) string = as(m[IdKey(m)], string)
pred IdGood(m map[string]interface{}, b string) = IdKey(m) in m && IsStr(m[IdKey(m)]) && urlOK(IdStr(m)) && inhOK(b, Norm(IdStr(m)))
fn IdText(m map[string]interface{}, b string) string = Norm(resolved(b, Norm(IdStr(m))))
fn LocalBase(m map[string]interface{}, b string) string = if IdGood(m, b) then urlBase(resolved(b, Norm(IdStr(m)))) else b
// the base inside an object (its identifier never changes)
ghost func LB(d any, b string) string
pred RefGood(m map[string]interface{}, b string) = "$ref" in m && IsStr(m["$ref"]) && urlOK(as(m["$ref"], string)) && inhOK(LocalBase(m, b), Norm(as(m["$ref"], string)))
fn RefText(m map[string]interface{}, b string) string = Norm(resolved(LocalBase(m, b), Norm(as(m["$ref"], string))))
// IdOf(k, d): k is the resolved identifier of d. Dup(d, b): the identifier of d (base b) was taken. Done(d, b): all of d was gone through with base b.
ghost func IdOf(k string, d any) bool
ghost func Dup(d any, b string) bool
ghost func Done(d any, b string) bool
axiom done_leaf: forall d any, b string :: {Done(d, b)} !IsObj(d) && !IsArr(d) ==> Done(d, b)
pred Seen(d any, b string) = Done(d, b) || Dup(d, b)
pred NameMap(k string) = k == "properties" || k == "dependencies" || k == "patternProperties" || k == "definitions"
pred MemberDone(k string, v any, b string) = if NameMap(k) then (IsObj(v) ==> (forall j string :: {j in Obj(v)} {Obj(v)[j]} j in Obj(v) ==> Seen(Obj(v)[j], b))) else (k != "const" && k != "enum" ==> Seen(v, b))
pred DoneDef(d any, b string) = (IsArr(d) ==> (forall i int :: {Arr(d)[i]} 0 <= i && i < len(Arr(d)) ==> Seen(Arr(d)[i], b)))
  && (IsObj(d) ==> (forall k string :: {k in Obj(d)} {Obj(d)[k]} k in Obj(d) ==> MemberDone(k, Obj(d)[k], LB(d, b))))
pred NewIds(p *schemaPool, dr *Draft) = forall k string :: {p.schemaPoolDocuments[k]} {k in p.schemaPoolDocuments} k in p.schemaPoolDocuments && !old(k in p.schemaPoolDocuments) ==> IdOf(k, p.schemaPoolDocuments[k].Document) && p.schemaPoolDocuments[k].Draft == dr
pred OnlyWithin(d any) = forall m map[string]interface{} :: {vals(m)} {old(vals(m))} wasalive(m) && !Within(d, m) ==> vals(m) == old(vals(m))

func (*schemaPool).parseReferencesRecursive(p, document, ref, draft) (err)
  requires PoolOK(p) && JSON(document) && refURL(ref) != nil
  unfold JSON(document) ==> JSONDef(document) && TreeDef(document)
  unfold IsObj(document) ==> forall k string :: {Obj(document)[k]} k in Obj(document) ==> JSONDef(Obj(document)[k]) && TreeDef(Obj(document)[k])
  unfold IsObj(document) ==> LB(document, refURL(ref).base) == LocalBase(Obj(document), refURL(ref).base)
  unfold IsObj(document) && IdGood(Obj(document), refURL(ref).base) ==> IdOf(IdText(Obj(document), refURL(ref).base), document)
  unfold IsObj(document) && IdGood(Obj(document), refURL(ref).base) && IdText(Obj(document), refURL(ref).base) in p.schemaPoolDocuments ==> Dup(document, refURL(ref).base)
  modifies contents(p.schemaPoolDocuments), anymap(map[string]interface{})
  ensures [C14] PoolOK(p)
  ensures [C18] PoolGrows(p)
  ensures [C17 C18] RefOnly()
  ensures [C17] OnlyWithin(document)
  ensures [C18 C16 C17] NewIds(p, draft)
  ensures [C18] err != nil <==> IsObj(document) && old(IdGood(Obj(document), refURL(ref).base) && IdText(Obj(document), refURL(ref).base) in p.schemaPoolDocuments)
  ensures [C18 C17] err == nil && IsObj(document) && old(IdGood(Obj(document), refURL(ref).base)) ==> old(IdText(Obj(document), refURL(ref).base)) in p.schemaPoolDocuments && p.schemaPoolDocuments[old(IdText(Obj(document), refURL(ref).base))].Document == document
  ensures [C17] err == nil && IsObj(document) && "$ref" in Obj(document) ==> Obj(document)["$ref"] == (if old(RefGood(Obj(document), refURL(ref).base)) then box(old(RefText(Obj(document), refURL(ref).base))) else old(Obj(document)["$ref"]))
  use old(DoneDef(document, refURL(ref).base)) ==> Done(document, refURL(ref).base)
  ensures [C17] err == nil ==> Done(document, refURL(ref).base)
  ensures [C17] err != nil ==> Dup(document, refURL(ref).base)
  inv PoolOK(p)
  inv PoolGrows(p)
  inv RefOnly()
  inv OnlyWithin(document)
  inv NewIds(p, draft)
  inv IsObj(document) ==> vals(Obj(document)) == pre(vals(Obj(document))) && dom(Obj(document)) == pre(dom(Obj(document)))
  inv IsObj(document) && old(IdGood(Obj(document), refURL(ref).base)) ==> old(IdText(Obj(document), refURL(ref).base)) in p.schemaPoolDocuments && p.schemaPoolDocuments[old(IdText(Obj(document), refURL(ref).base))].Document == document
  inv [xs over []interface{}] forall k int :: {xs[k]} 0 <= k && k < it ==> Seen(xs[k], refURL(ref).base)
  inv [xs over map[string]interface{}] forall k string :: {old(xs[k])} {k in visited} k in visited ==> old(MemberDone(k, xs[k], LB(document, refURL(ref).base)))
  inv [xs over map[string]interface{}] forall k string :: {old(xs[k])} {k in visited} k in visited ==> old(Seen(xs[k], LB(document, refURL(ref).base)))

// A reference as the dependency builds it: text, base and fragment belong together.
pred RefOK(r Opq) = refURL(r) != nil && live(refURL(r)) && urlOK(RefStr(r)) && Norm(RefStr(r)) == RefStr(r) && refURL(r).base == urlBase(RefStr(r)) && refURL(r).Fragment == urlFrag(RefStr(r)) && ptrFrag(r) == urlFrag(RefStr(r))
pred PoolSame(p *schemaPool) = dom(p.schemaPoolDocuments) == old(dom(p.schemaPoolDocuments)) && vals(p.schemaPoolDocuments) == old(vals(p.schemaPoolDocuments))
pred DocsSame() = forall m map[string]interface{} :: {vals(m)} {old(vals(m))} wasalive(m) ==> vals(m) == old(vals(m))
// the draft a document was pooled with
pred DraftFor(p *schemaPool, d *Draft, n any) = if *p.autoDetect then Detected(d, n) else d == nil
fn PoolDoc(p *schemaPool, k string) *schemaPoolDocument = p.schemaPoolDocuments[k]

func (*schemaPool).parseReferences(p, document, ref, pooled) (err)
  requires PoolOK(p) && JSON(document) && refURL(ref) != nil
  modifies contents(p.schemaPoolDocuments), anymap(map[string]interface{})
  ensures [C14] PoolOK(p)
  ensures [C18] PoolGrows(p)
  ensures [C17 C18] RefOnly()
  ensures [C17] OnlyWithin(document)
  ensures [C18] pooled && old(RefStr(ref) in p.schemaPoolDocuments) ==> err != nil && PoolSame(p) && DocsSame()
  ensures [C18 C16] *p.autoDetect && !old(SchemaTextOK(document)) && !(pooled && old(RefStr(ref) in p.schemaPoolDocuments)) ==> err != nil && PoolSame(p) && DocsSame()
  ensures [C18] pooled && err == nil ==> RefStr(ref) in p.schemaPoolDocuments
  ensures [C18] pooled && !old(RefStr(ref) in p.schemaPoolDocuments) && RefStr(ref) in p.schemaPoolDocuments ==> PoolDoc(p, RefStr(ref)).Document == document
  ensures [C16] pooled && !old(RefStr(ref) in p.schemaPoolDocuments) && RefStr(ref) in p.schemaPoolDocuments ==> DraftFor(p, PoolDoc(p, RefStr(ref)).Draft, document)
  ensures [C18 C17] forall k string :: {p.schemaPoolDocuments[k]} {k in p.schemaPoolDocuments} k in p.schemaPoolDocuments && !old(k in p.schemaPoolDocuments) ==> (k == RefStr(ref) && pooled) || IdOf(k, PoolDoc(p, k).Document)
  ensures [C17] err == nil ==> Done(document, refURL(ref).base)
  ensures [C17] (!*p.autoDetect || old(SchemaTextOK(document))) && !(pooled && old(RefStr(ref) in p.schemaPoolDocuments)) ==> Seen(document, refURL(ref).base)
  ensures [C18] (!*p.autoDetect || old(SchemaTextOK(document))) && !(pooled && old(RefStr(ref) in p.schemaPoolDocuments)) && pooled ==> RefStr(ref) in p.schemaPoolDocuments

// ---- loaders seen through their interface ----
ghost func facDoc(f any, s string) any       // what the factory's loader delivers for a reference
ghost func facOK(f any, s string) bool
ghost func loadOK(l any) bool
ghost func loadVal(l any) any
iface JSONLoaderFactory.New(f, s) (l)
  requires [C18 only-absolute-references-are-loaded] absText(s)
  ensures tag(l) != 0 && (loadOK(l) <==> facOK(f, s)) && loadVal(l) == facDoc(f, s)
iface JSONLoader.LoadJSON(l) (v, err)
  ensures err == nil <==> loadOK(l)
  ensures err == nil ==> v == loadVal(l) && JSON(v)
iface JSONLoader.JsonReference(l) (r, err)
  ensures err == nil ==> RefOK(r) && RefStr(r) == Norm(loaderURL(l))
iface JSONLoader.LoaderFactory(l) (f)
  ensures tag(f) != 0 && f == facOf(l)
ghost func facOf(l any) any

fn BaseKey(r Opq) string = refText(urlBase(RefStr(r)), "")
pred GetCase(p *schemaPool, r Opq, c int) = if c == 1 then RefStr(r) in p.schemaPoolDocuments
   else if c == 2 then !(RefStr(r) in p.schemaPoolDocuments) && BaseKey(r) in p.schemaPoolDocuments
   else !(RefStr(r) in p.schemaPoolDocuments) && !(BaseKey(r) in p.schemaPoolDocuments)
func (*schemaPool).GetDocument(p, reference) (r, err)
  requires PoolOK(p) && RefOK(reference)
  requires tag(p.jsonLoaderFactory) != 0
  modifies contents(p.schemaPoolDocuments), anymap(map[string]interface{})
  ensures [C14] PoolOK(p)
  ensures [C14] err == nil ==> r != nil && JSON(r.Document)
  ensures [C18] PoolGrows(p)
  ensures [C17 C18] RefOnly()
  ensures [C18] old(GetCase(p, reference, 1) || GetCase(p, reference, 2)) ==> DocsSame()
  ensures [C18 C17] old(GetCase(p, reference, 1)) ==> err == nil && r == old(PoolDoc(p, RefStr(reference))) && PoolSame(p)
  ensures [C18 C17] old(GetCase(p, reference, 2)) ==> (err == nil <==> ptrOK(ptrFrag(reference), old(PoolDoc(p, BaseKey(reference)).Document)))
  ensures [C18 C17] old(GetCase(p, reference, 2)) && err == nil ==> r.Document == ptrAt(ptrFrag(reference), old(PoolDoc(p, BaseKey(reference)).Document))
  ensures [C16] old(GetCase(p, reference, 2)) && err == nil ==> r.Draft == old(PoolDoc(p, BaseKey(reference)).Draft)
  ensures [C18 C17] old(GetCase(p, reference, 2)) && err != nil ==> PoolSame(p)
  ensures [C18] old(GetCase(p, reference, 3)) && !refCanon(reference) ==> err != nil && PoolSame(p) && DocsSame()
  ensures [C18] old(GetCase(p, reference, 3)) && !facOK(p.jsonLoaderFactory, RefStr(reference)) ==> err != nil && PoolSame(p)
  ensures [C18 C17] old(GetCase(p, reference, 3)) && err == nil ==> refCanon(reference) && facOK(p.jsonLoaderFactory, RefStr(reference))
  ensures [C18 C17] old(GetCase(p, reference, 3)) && err == nil ==> (RefStr(reference) in p.schemaPoolDocuments && r == PoolDoc(p, RefStr(reference))) || r.Document == ptrAt(ptrFrag(reference), facDoc(p.jsonLoaderFactory, RefStr(reference)))
  ensures [C16] old(GetCase(p, reference, 3)) && err == nil && !(RefStr(reference) in p.schemaPoolDocuments) ==> DraftFor(p, r.Draft, facDoc(p.jsonLoaderFactory, RefStr(reference))) || (*p.autoDetect && r.Draft == nil)
  ensures [C18] BaseKey(reference) in p.schemaPoolDocuments && old(GetCase(p, reference, 3)) ==> PoolDoc(p, BaseKey(reference)).Document == facDoc(p.jsonLoaderFactory, RefStr(reference))
  ensures [C18] old(GetCase(p, reference, 3)) && err == nil && BaseKey(reference) in p.schemaPoolDocuments ==> Seen(facDoc(p.jsonLoaderFactory, RefStr(reference)), urlBase(RefStr(reference)))
  use err == nil ==> Fetched(RefStr(reference), r.Document)
  use err != nil ==> RefBad()
  ensures [C15] err != nil ==> RefBad()
  ensures [C17 C18] err == nil ==> Fetched(RefStr(reference), r.Document)
