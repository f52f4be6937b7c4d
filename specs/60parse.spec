// ---- compiling a schema (schema.go) ----
ghost field subSchema.src any            // the document node a schema was compiled from
ghost func Good(n any, dr int) bool      // n is a well-formed schema of the draft
ghost func Unres() bool                  // some identifier could not be resolved against its base
ghost func RefBad() bool                 // some reference did not lead to a well-formed schema
ghost func RefFor(s *subSchema, u string) bool // s was registered as the schema of the reference u
pred RefP(r *gojsonreference.JsonReference) = r != nil && RefOK(*r)
pred ParseEnv(d *Schema) = d != nil && PoolOK(d.pool) && tag(d.pool.jsonLoaderFactory) != 0 && RefsOK(d.referencePool) && RefOK(d.documentReference)
pred Blank(s *subSchema) = s.pass == nil && len(s.types.types) == 0 && s.refSchema == nil && len(s.itemsChildren) == 0 && !s.itemsChildrenIsSingleSchema && len(s.propertiesChildren) == 0
  && s.multipleOf == nil && s.maximum == nil && s.exclusiveMaximum == nil && s.minimum == nil && s.exclusiveMinimum == nil
  && s.minLength == nil && s.maxLength == nil && s.pattern == nil && s.format == "" && s.minProperties == nil && s.maxProperties == nil && len(s.required) == 0
  && s.dependencies == nil && tag(s.additionalProperties) == 0 && s.patternProperties == nil && s.propertyNames == nil
  && s.minItems == nil && s.maxItems == nil && !s.uniqueItems && s.contains == nil && tag(s.additionalItems) == 0 && s._const == nil && len(s.enum) == 0
  && len(s.oneOf) == 0 && len(s.anyOf) == 0 && len(s.allOf) == 0 && s.not == nil && s._if == nil && s._then == nil && s._else == nil
pred Placed(d *Schema, s *subSchema) = (s == d.rootSchema && s.parent == nil && s.draft != nil) || (s != d.rootSchema && s.parent != nil && s.parent != s && RefP(s.parent.id) && s.parent.draft != nil && (s.id == nil || RefP(s.id)))
fn DraftOf(s *subSchema) *Draft = if s.draft == nil then s.parent.draft else s.draft
fn DR(s *subSchema) int = *DraftOf(s)

axiom good_shape: forall v any, dr int :: {Good(v, dr)} Good(v, dr) ==> IsObj(v) || (IsBool(v) && dr >= 6)

// keyword values
fn IntOf(n any) int = intVal(NumText(n))
fn RatOf(n any) real = numVal(NumText(n))
pred BoundOK(n any) = IntLit(n) && IntOf(n) >= 0
pred StrList(a []interface{}) = forall i int :: {a[i]} 0 <= i && i < len(a) ==> IsStr(a[i])
pred StrDistinct(a []interface{}) = forall i int, j int :: {a[i], a[j]} 0 <= i && i < j && j < len(a) ==> as(a[i], string) != as(a[j], string)
pred TypeVal(n any) = (IsStr(n) && KnownType(as(n, string)))
   || (IsArr(n) && StrList(Arr(n)) && StrDistinct(Arr(n)) && (forall i int :: {Arr(n)[i]} 0 <= i && i < len(Arr(n)) ==> KnownType(as(Arr(n)[i], string))))
pred IsSch(n any) = IsObj(n) || IsBool(n)
pred GoodAll(n any, dr int) = IsArr(n) && (forall i int :: {Arr(n)[i]} 0 <= i && i < len(Arr(n)) ==> Good(Arr(n)[i], dr))
pred GoodMap(n any, dr int) = IsObj(n) && (forall k string :: {k in Obj(n)} {Obj(n)[k]} k in Obj(n) ==> Good(Obj(n)[k], dr))
pred Flagged(m map[string]interface{}, x string, dr int) = x in m && (dr == 4 || (dr == 2147483647 && IsBool(m[x])))
pred FlagOn(m map[string]interface{}, x string, dr int) = Flagged(m, x, dr) && as(m[x], bool)
pred StrKw(m map[string]interface{}, k string) = k in m ==> IsStr(m[k])
pred IntKw(m map[string]interface{}, k string) = k in m ==> BoundOK(m[k])
fn KeyId(m map[string]interface{}, dr int) string = if dr == 4 then "id" else (if dr == 2147483647 && "id" in m then "id" else "$id")

// well-formedness, keyword by keyword
pred G_id(m map[string]interface{}, dr int) = KeyId(m, dr) in m ==> IsStr(m[KeyId(m, dr)]) && urlOK(as(m[KeyId(m, dr)], string))
pred G_definitions(m map[string]interface{}, dr int) = "definitions" in m ==> IsObj(m["definitions"]) && GoodMap(m["definitions"], dr)
pred G_title(m map[string]interface{}, dr int) = StrKw(m, "title")
pred G_description(m map[string]interface{}, dr int) = StrKw(m, "description")
pred G_ref(m map[string]interface{}, dr int) = "$ref" in m ==> IsStr(m["$ref"]) && urlOK(as(m["$ref"], string))

pred DepVal(v any, dr int) = (IsArr(v) && StrList(Arr(v))) || (IsSch(v) && Good(v, dr))
pred G_type(m map[string]interface{}, dr int) = "type" in m ==> TypeVal(m["type"])
pred G_properties(m map[string]interface{}, dr int) = "properties" in m ==> GoodMap(m["properties"], dr)
pred G_additionalProperties(m map[string]interface{}, dr int) = "additionalProperties" in m ==> IsBool(m["additionalProperties"]) || (IsObj(m["additionalProperties"]) && Good(m["additionalProperties"], dr))
pred G_additionalItems(m map[string]interface{}, dr int) = "additionalItems" in m ==> IsBool(m["additionalItems"]) || (IsObj(m["additionalItems"]) && Good(m["additionalItems"], dr))
pred G_patternProperties(m map[string]interface{}, dr int) = "patternProperties" in m ==> GoodMap(m["patternProperties"], dr) && (forall k string :: {k in Obj(m["patternProperties"])} k in Obj(m["patternProperties"]) ==> rxOK(k))
pred G_propertyNames(m map[string]interface{}, dr int) = "propertyNames" in m && dr >= 6 ==> Good(m["propertyNames"], dr)
pred G_dependencies(m map[string]interface{}, dr int) = "dependencies" in m ==> IsObj(m["dependencies"]) && (forall k string :: {k in Obj(m["dependencies"])} {Obj(m["dependencies"])[k]} k in Obj(m["dependencies"]) ==> DepVal(Obj(m["dependencies"])[k], dr))
pred G_items(m map[string]interface{}, dr int) = "items" in m ==> GoodAll(m["items"], dr) || (IsSch(m["items"]) && Good(m["items"], dr))
pred G_multipleOf(m map[string]interface{}, dr int) = "multipleOf" in m ==> NumLit(m["multipleOf"]) && RatOf(m["multipleOf"]) > 0
pred G_minimum(m map[string]interface{}, dr int) = "minimum" in m ==> NumLit(m["minimum"])
pred G_exclusiveMinimum(m map[string]interface{}, dr int) = "exclusiveMinimum" in m ==> (if Flagged(m, "exclusiveMinimum", dr) then IsBool(m["exclusiveMinimum"]) && "minimum" in m else NumLit(m["exclusiveMinimum"]))
pred G_maximum(m map[string]interface{}, dr int) = "maximum" in m ==> NumLit(m["maximum"])
pred G_exclusiveMaximum(m map[string]interface{}, dr int) = "exclusiveMaximum" in m ==> (if Flagged(m, "exclusiveMaximum", dr) then IsBool(m["exclusiveMaximum"]) && "maximum" in m else NumLit(m["exclusiveMaximum"]))
pred G_minLength(m map[string]interface{}, dr int) = IntKw(m, "minLength")
pred G_maxLength(m map[string]interface{}, dr int) = IntKw(m, "maxLength")
pred G_minProperties(m map[string]interface{}, dr int) = IntKw(m, "minProperties")
pred G_maxProperties(m map[string]interface{}, dr int) = IntKw(m, "maxProperties")
pred G_minItems(m map[string]interface{}, dr int) = IntKw(m, "minItems")
pred G_maxItems(m map[string]interface{}, dr int) = IntKw(m, "maxItems")
pred G_lengths(m map[string]interface{}, dr int) = "minLength" in m && "maxLength" in m && BoundOK(m["minLength"]) && BoundOK(m["maxLength"]) ==> IntOf(m["minLength"]) <= IntOf(m["maxLength"])
pred G_sizes(m map[string]interface{}, dr int) = "minProperties" in m && "maxProperties" in m && BoundOK(m["minProperties"]) && BoundOK(m["maxProperties"]) ==> IntOf(m["minProperties"]) <= IntOf(m["maxProperties"])
pred G_pattern(m map[string]interface{}, dr int) = "pattern" in m ==> IsStr(m["pattern"]) && rxOK(as(m["pattern"], string))
pred G_format(m map[string]interface{}, dr int) = StrKw(m, "format")
pred G_required(m map[string]interface{}, dr int) = "required" in m ==> IsArr(m["required"]) && StrList(Arr(m["required"])) && StrDistinct(Arr(m["required"]))
pred G_uniqueItems(m map[string]interface{}, dr int) = "uniqueItems" in m ==> IsBool(m["uniqueItems"])
pred G_contains(m map[string]interface{}, dr int) = "contains" in m && dr >= 6 ==> Good(m["contains"], dr)
pred G_const(m map[string]interface{}, dr int) = "const" in m && dr >= 6 ==> canonOK(m["const"])
pred G_enum(m map[string]interface{}, dr int) = "enum" in m ==> IsArr(m["enum"]) && (forall i int :: {Arr(m["enum"])[i]} 0 <= i && i < len(Arr(m["enum"])) ==> canonOK(Arr(m["enum"])[i])) && (forall i int, j int :: {Arr(m["enum"])[i], Arr(m["enum"])[j]} 0 <= i && i < j && j < len(Arr(m["enum"])) ==> canon(Arr(m["enum"])[i]) != canon(Arr(m["enum"])[j]))
pred G_oneOf(m map[string]interface{}, dr int) = "oneOf" in m ==> GoodAll(m["oneOf"], dr)
pred G_anyOf(m map[string]interface{}, dr int) = "anyOf" in m ==> GoodAll(m["anyOf"], dr)
pred G_allOf(m map[string]interface{}, dr int) = "allOf" in m ==> GoodAll(m["allOf"], dr)
pred G_not(m map[string]interface{}, dr int) = "not" in m ==> Good(m["not"], dr)
pred G_if(m map[string]interface{}, dr int) = "if" in m && dr >= 7 ==> Good(m["if"], dr)
pred G_then(m map[string]interface{}, dr int) = "then" in m && dr >= 7 ==> Good(m["then"], dr)
pred G_else(m map[string]interface{}, dr int) = "else" in m && dr >= 7 ==> Good(m["else"], dr)
pred GActive(m map[string]interface{}, dr int) = G_type(m, dr) && G_properties(m, dr) && G_additionalProperties(m, dr) && G_additionalItems(m, dr) && G_patternProperties(m, dr) && G_propertyNames(m, dr) && G_dependencies(m, dr) && G_items(m, dr) && G_multipleOf(m, dr) && G_minimum(m, dr) && G_exclusiveMinimum(m, dr) && G_maximum(m, dr) && G_exclusiveMaximum(m, dr) && G_minLength(m, dr) && G_maxLength(m, dr) && G_minProperties(m, dr) && G_maxProperties(m, dr) && G_minItems(m, dr) && G_maxItems(m, dr) && G_lengths(m, dr) && G_sizes(m, dr) && G_pattern(m, dr) && G_format(m, dr) && G_required(m, dr) && G_uniqueItems(m, dr) && G_contains(m, dr) && G_const(m, dr) && G_enum(m, dr) && G_oneOf(m, dr) && G_anyOf(m, dr) && G_allOf(m, dr) && G_not(m, dr) && G_if(m, dr) && G_then(m, dr) && G_else(m, dr)
pred GoodDef(n any, dr int) = (IsBool(n) && dr >= 6) || (IsObj(n) && G_id(Obj(n), dr) && G_definitions(Obj(n), dr) && G_title(Obj(n), dr) && G_description(Obj(n), dr) && G_ref(Obj(n), dr) && ("$ref" in Obj(n) || GActive(Obj(n), dr)))

// what each keyword leaves in the compiled schema (h: the keyword is there and active, v: its value)
pred Child(c *subSchema, v any, s *subSchema) = c != nil && live(c) && c.src == v && WF(c) && c.draft == s.draft
pred E_int(p *int, h bool, v any) = if h then p != nil && *p == IntOf(v) else p == nil
pred E_rat(p *big.Rat, h bool, x real) = if h then p != nil && p.val == x else p == nil
pred E_sub(c *subSchema, h bool, v any, s *subSchema) = if h then Child(c, v, s) else c == nil
pred E_list(l []*subSchema, h bool, v any, s *subSchema) = if h then len(l) == len(Arr(v)) && (forall i int :: {l[i]} {Arr(v)[i]} 0 <= i && i < len(l) ==> Child(l[i], Arr(v)[i], s)) else len(l) == 0
pred E_types(l []string, h bool, v any) = if h then (if IsStr(v) then len(l) == 1 && l[0] == as(v, string)
   else len(l) == len(Arr(v)) && (forall i int :: {l[i]} {Arr(v)[i]} 0 <= i && i < len(l) ==> l[i] == as(Arr(v)[i], string))) else len(l) == 0
pred E_strs(l []string, h bool, v any) = if h then len(l) == len(Arr(v)) && (forall i int :: {l[i]} {Arr(v)[i]} 0 <= i && i < len(l) ==> l[i] == as(Arr(v)[i], string)) else len(l) == 0
pred E_canons(l []string, h bool, v any) = if h then len(l) == len(Arr(v)) && (forall i int :: {l[i]} {Arr(v)[i]} 0 <= i && i < len(l) ==> l[i] == canon(Arr(v)[i])) else len(l) == 0
pred E_extra(a any, h bool, v any, s *subSchema) = if h then (if IsBool(v) then a == v else typeis(a, *subSchema) && Child(as(a, *subSchema), v, s)) else tag(a) == 0
pred E_items(s *subSchema, h bool, v any) = if h then (if IsArr(v) then !s.itemsChildrenIsSingleSchema && E_list(s.itemsChildren, h, v, s)
   else s.itemsChildrenIsSingleSchema && len(s.itemsChildren) == 1 && Child(s.itemsChildren[0], v, s)) else !s.itemsChildrenIsSingleSchema && len(s.itemsChildren) == 0
pred HasProp(l []*subSchema, k string) = exists i int :: {l[i]} 0 <= i && i < len(l) && l[i].property == k
pred PropsDone(l []*subSchema, d set[string], x smap[any], s *subSchema) = (forall i int :: {l[i]} 0 <= i && i < len(l) ==> d[l[i].property] && Child(l[i], x[l[i].property], s))
   && (forall k string :: {d[k]} d[k] ==> HasProp(l, k))
pred E_props(l []*subSchema, h bool, d set[string], x smap[any], s *subSchema) = if h then PropsDone(l, d, x, s) else len(l) == 0
pred PatsDone(m map[string]*subSchema, d set[string], x smap[any], s *subSchema) = m != nil && live(m) && (forall k string :: {k in m} {d[k]} (k in m <==> d[k])) && (forall k string :: {m[k]} {d[k]} d[k] ==> Child(m[k], x[k], s) && rxOK(k))
pred E_pats(m map[string]*subSchema, h bool, d set[string], x smap[any], s *subSchema) = if h then (m == nil && (forall k string :: {d[k]} !d[k])) || PatsDone(m, d, x, s) else m == nil
pred DepDone(m map[string]interface{}, k string, v any, s *subSchema) = if IsArr(v)
   then (if len(Arr(v)) == 0 then !(k in m) else k in m && typeis(m[k], []string) && E_strs(as(m[k], []string), true, v))
   else k in m && typeis(m[k], *subSchema) && Child(as(m[k], *subSchema), v, s)
pred DepsDone(m map[string]interface{}, d set[string], x smap[any], s *subSchema) = m != nil && live(m) && (forall k string :: {k in m} k in m ==> d[k]) && (forall k string :: {m[k]} {d[k]} d[k] ==> DepDone(m, k, x[k], s))
pred E_deps(m map[string]interface{}, h bool, d set[string], x smap[any], s *subSchema) = if h then DepsDone(m, d, x, s) else m == nil

// the document and the pools around a compilation step
pred Env(d *Schema) = PoolOK(d.pool) && RefsOK(d.referencePool) && PoolGrows(d.pool) && RefOnly()
pred Kept(s *subSchema) = s.draft == old(DraftOf(s)) && s.draft != nil && *s.draft == old(DR(s)) && s.parent == old(s.parent) && s.property == old(s.property)
pred Act(n any) = IsObj(n) && !("$ref" in Obj(n))

func (*Schema).parseSchema(d, documentNode, currentSchema) (err)
  props C15
  requires ParseEnv(d)
  requires currentSchema != nil && Blank(currentSchema) && Placed(d, currentSchema)
  requires JSON(documentNode)
  ghostset currentSchema.src = documentNode
  unfold JSON(documentNode) ==> JSONDef(documentNode)
  unfold IsObj(documentNode) ==> forall k string :: {Obj(documentNode)[k]} k in Obj(documentNode) ==> JSONDef(Obj(documentNode)[k])
  unfold forall b string, t string :: {inhOK(b, t)} !inhOK(b, t) ==> Unres()
  modifies currentSchema.all, currentSchema.src, contents(d.pool.schemaPoolDocuments), contents(d.referencePool.documents), anymap(map[string]interface{})
  cut Env(d)
  cut IsObj(documentNode) && Kept(currentSchema) && currentSchema.src == documentNode
  cut RefP(currentSchema.id)
  cut currentSchema.id == nil || RefP(currentSchema.id)
  cut old(currentSchema.parent) == nil ==> RefP(currentSchema.id)
  cut !old(Act(documentNode)) || (dom(Obj(documentNode)) == old(dom(Obj(documentNode))) && vals(Obj(documentNode)) == old(vals(Obj(documentNode))))
  cut old(Act(documentNode))
  ensures [C14 C18 C17] Env(d)
  ensures Kept(currentSchema) && currentSchema.src == documentNode
  ensures IsObj(documentNode) && err == nil ==> RefP(currentSchema.id)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && IsObj(documentNode) ==> G_id(Obj(documentNode), DR(currentSchema))
  shows [C15 C17] err == nil && IsObj(documentNode) ==> old(G_id(Obj(documentNode), DR(currentSchema)))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && IsObj(documentNode) ==> G_definitions(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && IsObj(documentNode) ==> old(G_definitions(Obj(documentNode), DR(currentSchema)))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && IsObj(documentNode) ==> G_title(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && IsObj(documentNode) ==> old(G_title(Obj(documentNode), DR(currentSchema)))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && IsObj(documentNode) ==> G_description(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && IsObj(documentNode) ==> old(G_description(Obj(documentNode), DR(currentSchema)))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && IsObj(documentNode) ==> G_ref(Obj(documentNode), DR(currentSchema))
  shows [C15 C17] err == nil && IsObj(documentNode) ==> old(G_ref(Obj(documentNode), DR(currentSchema)))
  shows [C15 C16 C01] err == nil ==> IsObj(documentNode) || (IsBool(documentNode) && old(DR(currentSchema)) >= 6 && currentSchema.pass != nil && *currentSchema.pass == as(documentNode, bool))
  shows [C01] err == nil && IsObj(documentNode) ==> currentSchema.pass == nil
  shows [C01 C17 +C14] err == nil && old(IsObj(documentNode) && "$ref" in Obj(documentNode)) ==> currentSchema.refSchema != nil && RefFor(currentSchema.refSchema, RefStr(*currentSchema.ref))
  shows [C01 +C14] err == nil && old(Act(documentNode)) ==> currentSchema.refSchema == nil
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_type(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_type(Obj(documentNode), DR(currentSchema)))
  shows [C01 +C15 +C16] err == nil && old(Act(documentNode)) ==> E_types(currentSchema.types.types, old("type" in Obj(documentNode)), old(Obj(documentNode)["type"]))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_properties(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_properties(Obj(documentNode), DR(currentSchema)))
  shows [C05 +C14] err == nil && old(Act(documentNode)) ==> E_props(currentSchema.propertiesChildren, old("properties" in Obj(documentNode)), old(dom(Obj(Obj(documentNode)["properties"]))), old(vals(Obj(Obj(documentNode)["properties"]))), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_additionalProperties(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_additionalProperties(Obj(documentNode), DR(currentSchema)))
  shows [C05 +C14] err == nil && old(Act(documentNode)) ==> E_extra(currentSchema.additionalProperties, old("additionalProperties" in Obj(documentNode)), old(Obj(documentNode)["additionalProperties"]), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_additionalItems(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_additionalItems(Obj(documentNode), DR(currentSchema)))
  shows [C04 +C14] err == nil && old(Act(documentNode)) ==> E_extra(currentSchema.additionalItems, old("additionalItems" in Obj(documentNode)), old(Obj(documentNode)["additionalItems"]), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_patternProperties(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_patternProperties(Obj(documentNode), DR(currentSchema)))
  shows [C05 +C14 +C15 +C16] err == nil && old(Act(documentNode)) ==> (currentSchema.patternProperties == nil || fresh(currentSchema.patternProperties)) && E_pats(currentSchema.patternProperties, old("patternProperties" in Obj(documentNode)), old(dom(Obj(Obj(documentNode)["patternProperties"]))), old(vals(Obj(Obj(documentNode)["patternProperties"]))), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_propertyNames(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_propertyNames(Obj(documentNode), DR(currentSchema)))
  shows [C05 C16 +C14] err == nil && old(Act(documentNode)) ==> E_sub(currentSchema.propertyNames, old("propertyNames" in Obj(documentNode) && DR(currentSchema) >= 6), old(Obj(documentNode)["propertyNames"]), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_dependencies(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_dependencies(Obj(documentNode), DR(currentSchema)))
  shows [C05 +C14] err == nil && old(Act(documentNode)) ==> E_deps(currentSchema.dependencies, old("dependencies" in Obj(documentNode)), old(dom(Obj(Obj(documentNode)["dependencies"]))), old(vals(Obj(Obj(documentNode)["dependencies"]))), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_items(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_items(Obj(documentNode), DR(currentSchema)))
  shows [C04 +C14] err == nil && old(Act(documentNode)) ==> E_items(currentSchema, old("items" in Obj(documentNode)), old(Obj(documentNode)["items"]))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_multipleOf(Obj(documentNode), DR(currentSchema))
  shows [C15 +C14] err == nil && old(Act(documentNode)) ==> old(G_multipleOf(Obj(documentNode), DR(currentSchema)))
  shows [C02 +C14] err == nil && old(Act(documentNode)) ==> E_rat(currentSchema.multipleOf, old("multipleOf" in Obj(documentNode)), old(RatOf(Obj(documentNode)["multipleOf"])))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_minimum(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_minimum(Obj(documentNode), DR(currentSchema)))
  shows [C02] err == nil && old(Act(documentNode)) ==> E_rat(currentSchema.minimum, old("minimum" in Obj(documentNode) && !FlagOn(Obj(documentNode), "exclusiveMinimum", DR(currentSchema))), old(RatOf(Obj(documentNode)["minimum"])))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_exclusiveMinimum(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_exclusiveMinimum(Obj(documentNode), DR(currentSchema)))
  shows [C02 C16] err == nil && old(Act(documentNode)) ==> (if old(Flagged(Obj(documentNode), "exclusiveMinimum", DR(currentSchema))) then E_rat(currentSchema.exclusiveMinimum, old(FlagOn(Obj(documentNode), "exclusiveMinimum", DR(currentSchema))), old(RatOf(Obj(documentNode)["minimum"]))) else E_rat(currentSchema.exclusiveMinimum, old("exclusiveMinimum" in Obj(documentNode)), old(RatOf(Obj(documentNode)["exclusiveMinimum"]))))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_maximum(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_maximum(Obj(documentNode), DR(currentSchema)))
  shows [C02] err == nil && old(Act(documentNode)) ==> E_rat(currentSchema.maximum, old("maximum" in Obj(documentNode) && !FlagOn(Obj(documentNode), "exclusiveMaximum", DR(currentSchema))), old(RatOf(Obj(documentNode)["maximum"])))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_exclusiveMaximum(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_exclusiveMaximum(Obj(documentNode), DR(currentSchema)))
  shows [C02 C16] err == nil && old(Act(documentNode)) ==> (if old(Flagged(Obj(documentNode), "exclusiveMaximum", DR(currentSchema))) then E_rat(currentSchema.exclusiveMaximum, old(FlagOn(Obj(documentNode), "exclusiveMaximum", DR(currentSchema))), old(RatOf(Obj(documentNode)["maximum"]))) else E_rat(currentSchema.exclusiveMaximum, old("exclusiveMaximum" in Obj(documentNode)), old(RatOf(Obj(documentNode)["exclusiveMaximum"]))))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_minLength(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_minLength(Obj(documentNode), DR(currentSchema)))
  shows [C03 +C15 +C16] err == nil && old(Act(documentNode)) ==> E_int(currentSchema.minLength, old("minLength" in Obj(documentNode)), old(Obj(documentNode)["minLength"]))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_maxLength(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_maxLength(Obj(documentNode), DR(currentSchema)))
  shows [C03 +C15 +C16] err == nil && old(Act(documentNode)) ==> E_int(currentSchema.maxLength, old("maxLength" in Obj(documentNode)), old(Obj(documentNode)["maxLength"]))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_minProperties(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_minProperties(Obj(documentNode), DR(currentSchema)))
  shows [C05 +C15 +C16] err == nil && old(Act(documentNode)) ==> E_int(currentSchema.minProperties, old("minProperties" in Obj(documentNode)), old(Obj(documentNode)["minProperties"]))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_maxProperties(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_maxProperties(Obj(documentNode), DR(currentSchema)))
  shows [C05 +C15 +C16] err == nil && old(Act(documentNode)) ==> E_int(currentSchema.maxProperties, old("maxProperties" in Obj(documentNode)), old(Obj(documentNode)["maxProperties"]))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_minItems(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_minItems(Obj(documentNode), DR(currentSchema)))
  shows [C04 +C15 +C16] err == nil && old(Act(documentNode)) ==> E_int(currentSchema.minItems, old("minItems" in Obj(documentNode)), old(Obj(documentNode)["minItems"]))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_maxItems(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_maxItems(Obj(documentNode), DR(currentSchema)))
  shows [C04 +C15 +C16] err == nil && old(Act(documentNode)) ==> E_int(currentSchema.maxItems, old("maxItems" in Obj(documentNode)), old(Obj(documentNode)["maxItems"]))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_lengths(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_lengths(Obj(documentNode), DR(currentSchema)))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_sizes(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_sizes(Obj(documentNode), DR(currentSchema)))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_pattern(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_pattern(Obj(documentNode), DR(currentSchema)))
  shows [C03] err == nil && old(Act(documentNode)) ==> (if old("pattern" in Obj(documentNode)) then currentSchema.pattern != nil && currentSchema.pattern.src == old(as(Obj(documentNode)["pattern"], string)) else currentSchema.pattern == nil)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_format(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_format(Obj(documentNode), DR(currentSchema)))
  shows [C08] err == nil && old(Act(documentNode)) ==> currentSchema.format == (if old("format" in Obj(documentNode)) then old(as(Obj(documentNode)["format"], string)) else "")
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_required(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_required(Obj(documentNode), DR(currentSchema)))
  shows [C05 +C15 +C16] err == nil && old(Act(documentNode)) ==> E_strs(currentSchema.required, old("required" in Obj(documentNode)), old(Obj(documentNode)["required"]))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_uniqueItems(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_uniqueItems(Obj(documentNode), DR(currentSchema)))
  shows [C04] err == nil && old(Act(documentNode)) ==> (currentSchema.uniqueItems <==> old("uniqueItems" in Obj(documentNode) && as(Obj(documentNode)["uniqueItems"], bool)))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_contains(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_contains(Obj(documentNode), DR(currentSchema)))
  shows [C04 C16 +C14] err == nil && old(Act(documentNode)) ==> E_sub(currentSchema.contains, old("contains" in Obj(documentNode) && DR(currentSchema) >= 6), old(Obj(documentNode)["contains"]), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_const(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_const(Obj(documentNode), DR(currentSchema)))
  shows [C07 C16] err == nil && old(Act(documentNode)) ==> (if old("const" in Obj(documentNode) && DR(currentSchema) >= 6) then currentSchema._const != nil && *currentSchema._const == old(canon(Obj(documentNode)["const"])) else currentSchema._const == nil)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_enum(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_enum(Obj(documentNode), DR(currentSchema)))
  shows [C07 +C15 +C16] err == nil && old(Act(documentNode)) ==> E_canons(currentSchema.enum, old("enum" in Obj(documentNode)), old(Obj(documentNode)["enum"]))
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_oneOf(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_oneOf(Obj(documentNode), DR(currentSchema)))
  shows [C06 +C14] err == nil && old(Act(documentNode)) ==> E_list(currentSchema.oneOf, old("oneOf" in Obj(documentNode)), old(Obj(documentNode)["oneOf"]), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_anyOf(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_anyOf(Obj(documentNode), DR(currentSchema)))
  shows [C06 +C14] err == nil && old(Act(documentNode)) ==> E_list(currentSchema.anyOf, old("anyOf" in Obj(documentNode)), old(Obj(documentNode)["anyOf"]), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_allOf(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_allOf(Obj(documentNode), DR(currentSchema)))
  shows [C06 +C14] err == nil && old(Act(documentNode)) ==> E_list(currentSchema.allOf, old("allOf" in Obj(documentNode)), old(Obj(documentNode)["allOf"]), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_not(Obj(documentNode), DR(currentSchema))
  shows [C15] err == nil && old(Act(documentNode)) ==> old(G_not(Obj(documentNode), DR(currentSchema)))
  shows [C06 +C14] err == nil && old(Act(documentNode)) ==> E_sub(currentSchema.not, old("not" in Obj(documentNode)), old(Obj(documentNode)["not"]), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_if(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_if(Obj(documentNode), DR(currentSchema)))
  shows [C06 C16 +C14] err == nil && old(Act(documentNode)) ==> E_sub(currentSchema._if, old("if" in Obj(documentNode) && DR(currentSchema) >= 7), old(Obj(documentNode)["if"]), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_then(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_then(Obj(documentNode), DR(currentSchema)))
  shows [C06 C16 +C14] err == nil && old(Act(documentNode)) ==> E_sub(currentSchema._then, old("then" in Obj(documentNode) && DR(currentSchema) >= 7), old(Obj(documentNode)["then"]), currentSchema)
  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_else(Obj(documentNode), DR(currentSchema))
  shows [C15 C16] err == nil && old(Act(documentNode)) ==> old(G_else(Obj(documentNode), DR(currentSchema)))
  shows [C06 C16 +C14] err == nil && old(Act(documentNode)) ==> E_sub(currentSchema._else, old("else" in Obj(documentNode) && DR(currentSchema) >= 7), old(Obj(documentNode)["else"]), currentSchema)
  use [C15 C16] old(GoodDef(documentNode, DR(currentSchema))) ==> Good(documentNode, old(DR(currentSchema)))
  finally [C15] err == nil ==> Good(documentNode, old(DR(currentSchema)))
  finally [C15 C16] err != nil ==> !Good(documentNode, old(DR(currentSchema))) || Unres() || RefBad()
  use [C14] WFDef(currentSchema) ==> WF(currentSchema)
  finally [C14] err == nil ==> WF(currentSchema)
  inv Env(d) && Kept(currentSchema) && currentSchema.src == documentNode
  inv RefP(currentSchema.id)
  inv forall m map[string]interface{} :: {dom(m)} {vals(m)} {pre(dom(m))} {pre(vals(m))} pre(live(m)) ==> dom(m) == pre(dom(m)) && (forall k string :: {m[k]} {pre(m[k])} m[k] == pre(m[k]) || (k == "$ref" && IsStr(m[k]) && IsStr(pre(m[k])))) && (!("$ref" in m) ==> vals(m) == pre(vals(m)))
  inv !old(Act(documentNode)) || (dom(Obj(documentNode)) == old(dom(Obj(documentNode))) && vals(Obj(documentNode)) == old(vals(Obj(documentNode))))
  inv [xs over []interface{}] len(currentSchema.types.types) == it && (forall k int :: {xs[k]} {currentSchema.types.types[k]} 0 <= k && k < it ==> IsStr(xs[k]) && currentSchema.types.types[k] == as(xs[k], string) && KnownType(as(xs[k], string)))
  inv [xs over []interface{}] len(currentSchema.types.types) == it && forall i int, j int :: {xs[i], xs[j]} 0 <= i && i < j && j < it ==> as(xs[i], string) != as(xs[j], string)
  inv [xs over map[string]interface{}] forall k string :: {visited[k]} visited[k] ==> Good(old(xs[k]), old(DR(currentSchema)))
  inv [xs over map[string]interface{}] PatsDone(currentSchema.patternProperties, visited, old(vals(xs)), currentSchema) && fresh(currentSchema.patternProperties)
  inv [xs over map[string]interface{}] dom(xs) == old(dom(xs)) && (forall k string :: {xs[k]} xs[k] == old(xs[k]) || (k == "$ref" && IsStr(xs[k]) && IsStr(old(xs[k]))))
  inv [xs over []interface{}] len(currentSchema.oneOf) == it && (forall k int :: {xs[k]} {currentSchema.oneOf[k]} 0 <= k && k < it ==> Child(currentSchema.oneOf[k], xs[k], currentSchema) && Good(xs[k], old(DR(currentSchema))))
  inv [xs over []interface{}] len(currentSchema.anyOf) == it && (forall k int :: {xs[k]} {currentSchema.anyOf[k]} 0 <= k && k < it ==> Child(currentSchema.anyOf[k], xs[k], currentSchema) && Good(xs[k], old(DR(currentSchema))))
  inv [xs over []interface{}] len(currentSchema.allOf) == it && (forall k int :: {xs[k]} {currentSchema.allOf[k]} 0 <= k && k < it ==> Child(currentSchema.allOf[k], xs[k], currentSchema) && Good(xs[k], old(DR(currentSchema))))
  inv [xs over []interface{}] len(currentSchema.itemsChildren) == it && (forall k int :: {xs[k]} {currentSchema.itemsChildren[k]} 0 <= k && k < it ==> Child(currentSchema.itemsChildren[k], xs[k], currentSchema) && Good(xs[k], old(DR(currentSchema)))) && !currentSchema.itemsChildrenIsSingleSchema
  inv [xs over []interface{}] len(currentSchema.required) == it && (forall k int :: {xs[k]} {currentSchema.required[k]} 0 <= k && k < it ==> IsStr(xs[k]) && currentSchema.required[k] == as(xs[k], string))
  inv [xs over []interface{}] len(currentSchema.required) == it && forall i int, j int :: {xs[i], xs[j]} 0 <= i && i < j && j < it ==> as(xs[i], string) != as(xs[j], string)
  inv [xs over []interface{}] len(currentSchema.enum) == it && (forall k int :: {xs[k]} {currentSchema.enum[k]} 0 <= k && k < it ==> canonOK(xs[k]) && currentSchema.enum[k] == canon(xs[k]))
  inv [xs over []interface{}] len(currentSchema.enum) == it && forall i int, j int :: {xs[i], xs[j]} 0 <= i && i < j && j < it ==> canon(xs[i]) != canon(xs[j])

func (*Schema).parseReference(d, documentNode, currentSchema) (err)
  props C15 C17
  requires ParseEnv(d)
  requires currentSchema != nil && RefP(currentSchema.ref) && RefP(currentSchema.id) && currentSchema.draft != nil
  requires !(RefStr(*currentSchema.ref) in d.referencePool.documents)
  requires [C17] IsObj(documentNode) && RefStr(*currentSchema.ref) == Norm(as(Obj(documentNode)["$ref"], string))
  unfold forall v any :: {Fetched(RefStr(*currentSchema.ref), v)} Fetched(RefStr(*currentSchema.ref), v) && !IsSch(v) ==> RefBad()
  unfold forall v any, dr int :: {Fetched(RefStr(*currentSchema.ref), v), Good(v, dr)} Fetched(RefStr(*currentSchema.ref), v) && !Good(v, dr) ==> RefBad()
  modifies currentSchema.refSchema, contents(d.pool.schemaPoolDocuments), contents(d.referencePool.documents), anymap(map[string]interface{})
  ensures [C14 C18 C17] Env(d)
  ensures err == nil ==> currentSchema.refSchema != nil && WF(currentSchema.refSchema) && RefFor(currentSchema.refSchema, RefStr(*currentSchema.ref))
  ensures [C17 C18] err == nil ==> Fetched(RefStr(*currentSchema.ref), currentSchema.refSchema.src)
  ensures [C16] err == nil ==> currentSchema.refSchema.draft != nil
  ensures [C15] err != nil ==> RefBad() || Unres()

func (*Schema).parseProperties(d, documentNode, currentSchema) (err)
  props C15 C05
  requires ParseEnv(d)
  requires currentSchema != nil && len(currentSchema.propertiesChildren) == 0 && RefP(currentSchema.id) && currentSchema.draft != nil
  requires JSON(documentNode)
  unfold JSON(documentNode) ==> JSONDef(documentNode)
  modifies currentSchema.propertiesChildren, contents(d.pool.schemaPoolDocuments), contents(d.referencePool.documents), anymap(map[string]interface{})
  ensures [C14 C18 C17] Env(d)
  ensures [C15] err == nil ==> old(GoodMap(documentNode, *currentSchema.draft))
  ensures err == nil ==> PropsDone(currentSchema.propertiesChildren, old(dom(Obj(documentNode))), old(vals(Obj(documentNode))), currentSchema)
  ensures [C15] err != nil ==> !old(GoodMap(documentNode, *currentSchema.draft)) || Unres() || RefBad()
  inv Env(d)
  inv [xs over map[string]interface{}] dom(xs) == old(dom(xs)) && (forall k string :: {xs[k]} xs[k] == old(xs[k]) || (k == "$ref" && IsStr(xs[k]) && IsStr(old(xs[k]))))
  inv [xs over map[string]interface{}] forall k string :: {visited[k]} visited[k] ==> old(Good(xs[k], *currentSchema.draft))
  inv [xs over map[string]interface{}] PropsDone(currentSchema.propertiesChildren, visited, old(vals(xs)), currentSchema)

func (*Schema).parseDependencies(d, documentNode, currentSchema) (err)
  props C15 C05
  requires ParseEnv(d)
  requires currentSchema != nil && RefP(currentSchema.id) && currentSchema.draft != nil
  requires JSON(documentNode)
  unfold JSON(documentNode) ==> JSONDef(documentNode)
  unfold forall v any :: {JSON(v)} JSON(v) ==> JSONDef(v)
  modifies currentSchema.dependencies, contents(d.pool.schemaPoolDocuments), contents(d.referencePool.documents), anymap(map[string]interface{})
  ensures [C14 C18 C17] Env(d)
  ensures [C15] err == nil ==> IsObj(documentNode) && old(forall k string :: {k in Obj(documentNode)} {Obj(documentNode)[k]} k in Obj(documentNode) ==> DepVal(Obj(documentNode)[k], *currentSchema.draft))
  ensures err == nil ==> DepsDone(currentSchema.dependencies, old(dom(Obj(documentNode))), old(vals(Obj(documentNode))), currentSchema)
  ensures [C15] err != nil ==> !(IsObj(documentNode) && old(forall k string :: {k in Obj(documentNode)} {Obj(documentNode)[k]} k in Obj(documentNode) ==> DepVal(Obj(documentNode)[k], *currentSchema.draft))) || Unres() || RefBad()
  inv Env(d)
  inv [xs over map[string]interface{}] dom(xs) == old(dom(xs)) && (forall k string :: {xs[k]} xs[k] == old(xs[k]) || (k == "$ref" && IsStr(xs[k]) && IsStr(old(xs[k]))))
  inv [xs over map[string]interface{}] forall k string :: {visited[k]} visited[k] ==> old(DepVal(xs[k], *currentSchema.draft))
  inv [xs over map[string]interface{}] DepsDone(currentSchema.dependencies, visited, old(vals(xs)), currentSchema)
  inv [ys over []interface{}, l []string] len(l) == it && (forall j int :: {ys[j]} {l[j]} 0 <= j && j < it ==> IsStr(ys[j]) && l[j] == as(ys[j], string))
  inv [k outer string, xs outer map[string]interface{}, ys over []interface{}, l []string] currentSchema.dependencies != nil && live(currentSchema.dependencies)
     && (forall q string :: {q in currentSchema.dependencies} q in currentSchema.dependencies ==> ovisited[q]) && (forall q string :: {currentSchema.dependencies[q]} {ovisited[q]} ovisited[q] && q != k ==> DepDone(currentSchema.dependencies, q, old(xs[q]), currentSchema))
  inv [k outer string, ys over []interface{}, l []string] if it == 0 then !(k in currentSchema.dependencies) else k in currentSchema.dependencies && typeis(currentSchema.dependencies[k], []string) && as(currentSchema.dependencies[k], []string) == l

func (*Schema).parse(d, document, draft) (err)
  props C15
  requires ParseEnv(d) && JSON(document)
  modifies d.rootSchema, contents(d.pool.schemaPoolDocuments), contents(d.referencePool.documents), anymap(map[string]interface{})
  ensures [C14] PoolOK(d.pool)
  ensures [C18] PoolGrows(d.pool)
  ensures RefOnly()
  ensures err == nil ==> d.rootSchema != nil && WF(d.rootSchema) && d.rootSchema.src == document
  ensures [C16] err == nil ==> d.rootSchema.draft != nil && *d.rootSchema.draft == draft
  ensures [C15] err == nil ==> Good(document, draft)
  ensures [C15] err != nil ==> !Good(document, draft) || Unres() || RefBad()

