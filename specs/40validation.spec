// ---- the meaning of a compiled schema ----
// Sat(s, n): schema s accepts value n. Defined by recursion on (s, n); the defining equation is
// unfolded where it is needed (it is the least fixpoint wherever validation terminates).
ghost func Sat(s *subSchema, n any) bool
ghost func WF(s *subSchema) bool
ghost func JSON(n any) bool
ghost func rxMatch(pat string, s string) bool
ghost func rxOK(pat string) bool
ghost field regexp.Regexp.src string
ghost func cntSat(a arr[ref], n any, k int) int
define cnt0: forall a arr[ref], n any :: {cntSat(a, n, 0)} cntSat(a, n, 0) == 0
ghost func fmtAccepts(c any, n any) bool

pred IsNum(n any) = typeis(n, json.Number)
pred IsStr(n any) = typeis(n, string)
pred IsBool(n any) = typeis(n, bool)
pred IsArr(n any) = typeis(n, []interface{})
pred IsObj(n any) = typeis(n, map[string]interface{})
fn Arr(n any) []interface{} = as(n, []interface{})
fn Obj(n any) map[string]interface{} = as(n, map[string]interface{})
fn NumText(n any) string = as(n, string)

pred JSONDef(n any) = n == nil || IsNum(n) || IsStr(n) || IsBool(n)
  || (IsArr(n) && (forall i int :: {Arr(n)[i]} 0 <= i && i < len(Arr(n)) ==> JSON(Arr(n)[i])))
  || (IsObj(n) && Obj(n) != nil && (forall k string :: {k in Obj(n)} {Obj(n)[k]} k in Obj(n) ==> JSON(Obj(n)[k])))

// the shape of a JSON value does not depend on the state
axiom json_shape: forall v any :: {JSON(v)} JSON(v) ==> v == nil || IsNum(v) || IsStr(v) || IsBool(v) || IsArr(v) || (IsObj(v) && Obj(v) != nil)
axiom json_leaf: forall v any :: {JSON(v)} v == nil || IsNum(v) || IsStr(v) || IsBool(v) ==> JSON(v)

pred SubOK(a any) = tag(a) == 0 || typeis(a, bool) || (typeis(a, *subSchema) && as(a, *subSchema) != nil && WF(as(a, *subSchema)))
pred AllWF(l []*subSchema) = forall i int :: {l[i]} 0 <= i && i < len(l) ==> l[i] != nil && WF(l[i])
pred OptWF(s *subSchema) = s == nil || WF(s)
pred WFDef(s *subSchema) = OptWF(s.refSchema) && OptWF(s.not) && OptWF(s._if) && OptWF(s._then) && OptWF(s._else)
  && OptWF(s.contains) && OptWF(s.propertyNames)
  && AllWF(s.itemsChildren) && AllWF(s.propertiesChildren) && AllWF(s.anyOf) && AllWF(s.oneOf) && AllWF(s.allOf)
  && (s.itemsChildrenIsSingleSchema ==> len(s.itemsChildren) == 1)
  && SubOK(s.additionalItems) && SubOK(s.additionalProperties)
  && (s.multipleOf != nil ==> s.multipleOf.val > 0)
  && (forall k string :: {k in s.dependencies} {s.dependencies[k]} s.dependencies != nil && k in s.dependencies ==> typeis(s.dependencies[k], []string) || (typeis(s.dependencies[k], *subSchema) && as(s.dependencies[k], *subSchema) != nil && WF(as(s.dependencies[k], *subSchema))))
  && (forall k string :: {k in s.patternProperties} {s.patternProperties[k]} s.patternProperties != nil && k in s.patternProperties ==> s.patternProperties[k] != nil && WF(s.patternProperties[k]) && rxOK(k))

// ---- keyword by keyword ----
pred TypeOK(s *subSchema, n any) = len(s.types.types) == 0
  || (n == nil && InStrs(s.types.types, "null"))
  || (IsNum(n) && (InStrs(s.types.types, "number") || (numOK(NumText(n)) && isint(numVal(NumText(n))) && InStrs(s.types.types, "integer"))))
  || (IsStr(n) && InStrs(s.types.types, "string"))
  || (IsBool(n) && InStrs(s.types.types, "boolean"))
  || (IsArr(n) && InStrs(s.types.types, "array"))
  || (IsObj(n) && InStrs(s.types.types, "object"))

pred NumKw(s *subSchema) = s.multipleOf != nil || s.maximum != nil || s.exclusiveMaximum != nil || s.minimum != nil || s.exclusiveMinimum != nil
pred NumBad(s *subSchema, t string) = !numOK(t) && NumKw(s)
pred MultOK(s *subSchema, t string) = s.multipleOf == nil || isint(numVal(t) / s.multipleOf.val)
pred MaxOK(s *subSchema, t string) = s.maximum == nil || numVal(t) <= s.maximum.val
pred ExMaxOK(s *subSchema, t string) = s.exclusiveMaximum == nil || numVal(t) < s.exclusiveMaximum.val
pred MinOK(s *subSchema, t string) = s.minimum == nil || numVal(t) >= s.minimum.val
pred ExMinOK(s *subSchema, t string) = s.exclusiveMinimum == nil || numVal(t) > s.exclusiveMinimum.val
pred NumOK(s *subSchema, n any) = IsNum(n) ==> (numOK(NumText(n)) ==> MultOK(s, NumText(n)) && MaxOK(s, NumText(n)) && ExMaxOK(s, NumText(n)) && MinOK(s, NumText(n)) && ExMinOK(s, NumText(n)))
  && !NumBad(s, NumText(n))

pred MinLenOK(s *subSchema, t string) = s.minLength == nil || runeCount(t) >= *s.minLength
pred MaxLenOK(s *subSchema, t string) = s.maxLength == nil || runeCount(t) <= *s.maxLength
pred PatternOK(s *subSchema, t string) = s.pattern == nil || rxMatch(s.pattern.src, t)
pred StrOK(s *subSchema, n any) = IsStr(n) ==> MinLenOK(s, as(n, string)) && MaxLenOK(s, as(n, string)) && PatternOK(s, as(n, string))

pred ConstOK(s *subSchema, n any) = s._const == nil || (canonOK(n) && canon(n) == *s._const)
pred EnumOK(s *subSchema, n any) = len(s.enum) == 0 || (canonOK(n) && InStrs(s.enum, canon(n)))
pred FormatOK(s *subSchema, n any) = s.format == "" || !(s.format in FormatCheckers.formatters) || fmtAccepts(FormatCheckers.formatters[s.format], n)
pred CommonOK(s *subSchema, n any) = ConstOK(s, n) && EnumOK(s, n) && FormatOK(s, n)

pred AnyOK(s *subSchema, n any) = len(s.anyOf) == 0 || (exists i int :: {s.anyOf[i]} 0 <= i && i < len(s.anyOf) && Sat(s.anyOf[i], n))
pred OneOK(s *subSchema, n any) = len(s.oneOf) == 0 || cntSat(row(s.oneOf), n, len(s.oneOf)) == 1
pred AllOK(s *subSchema, n any) = forall i int :: {s.allOf[i]} 0 <= i && i < len(s.allOf) ==> Sat(s.allOf[i], n)
pred NotOK(s *subSchema, n any) = s.not == nil || !Sat(s.not, n)
pred IfOK(s *subSchema, n any) = s._if == nil || ((Sat(s._if, n) && s._then != nil ==> Sat(s._then, n)) && (!Sat(s._if, n) && s._else != nil ==> Sat(s._else, n)))
pred DepStr(d any, o map[string]interface{}) = forall j int :: {as(d, []string)[j]} 0 <= j && j < len(as(d, []string)) ==> as(d, []string)[j] in o
pred DepKeyOK(s *subSchema, n any, k string) = s.dependencies != nil && k in s.dependencies ==>
   (typeis(s.dependencies[k], []string) ==> DepStr(s.dependencies[k], Obj(n))) && (typeis(s.dependencies[k], *subSchema) ==> Sat(as(s.dependencies[k], *subSchema), n))
pred DepOK(s *subSchema, n any) = IsObj(n) ==> (forall k string :: {k in Obj(n)} k in Obj(n) ==> DepKeyOK(s, n, k))
pred SchemaOK(s *subSchema, n any) = AnyOK(s, n) && OneOK(s, n) && AllOK(s, n) && NotOK(s, n) && IfOK(s, n) && DepOK(s, n)

pred ItemsOK(s *subSchema, a []interface{}) = if s.itemsChildrenIsSingleSchema
  then (forall i int :: {a[i]} 0 <= i && i < len(a) ==> Sat(s.itemsChildren[0], a[i]))
  else (forall i int :: {a[i]} {s.itemsChildren[i]} 0 <= i && i < len(a) && i < len(s.itemsChildren) ==> Sat(s.itemsChildren[i], a[i]))
pred AddItemsOK(s *subSchema, a []interface{}) = !s.itemsChildrenIsSingleSchema && len(s.itemsChildren) > 0 && len(s.itemsChildren) < len(a) ==>
  (typeis(s.additionalItems, bool) ==> as(s.additionalItems, bool))
  && (typeis(s.additionalItems, *subSchema) ==> (forall i int :: {a[i]} len(s.itemsChildren) <= i && i < len(a) ==> Sat(as(s.additionalItems, *subSchema), a[i])))
pred MinItemsOK(s *subSchema, a []interface{}) = s.minItems == nil || len(a) >= *s.minItems
pred MaxItemsOK(s *subSchema, a []interface{}) = s.maxItems == nil || len(a) <= *s.maxItems
pred UniqueUpTo(a []interface{}, m int) = (forall i int :: {a[i]} 0 <= i && i < m ==> canonOK(a[i]))
  && (forall i int, j int :: {a[i], a[j]} 0 <= i && i < j && j < m ==> canon(a[i]) != canon(a[j]))
pred UniqueOK(s *subSchema, a []interface{}) = s.uniqueItems ==> UniqueUpTo(a, len(a))
pred ContainsOK(s *subSchema, a []interface{}) = s.contains == nil || (exists i int :: {a[i]} 0 <= i && i < len(a) && Sat(s.contains, a[i]))
pred ArrOK(s *subSchema, a []interface{}) = ItemsOK(s, a) && AddItemsOK(s, a) && MinItemsOK(s, a) && MaxItemsOK(s, a) && UniqueOK(s, a) && ContainsOK(s, a)

pred MinPropsOK(s *subSchema, o map[string]interface{}) = s.minProperties == nil || len(o) >= *s.minProperties
pred MaxPropsOK(s *subSchema, o map[string]interface{}) = s.maxProperties == nil || len(o) <= *s.maxProperties
pred ReqOK(s *subSchema, o map[string]interface{}) = forall i int :: {s.required[i]} 0 <= i && i < len(s.required) ==> s.required[i] in o
pred ByProp(s *subSchema, k string) = exists i int :: {s.propertiesChildren[i]} 0 <= i && i < len(s.propertiesChildren) && s.propertiesChildren[i].property == k
pred ByPat(s *subSchema, k string) = exists p string :: {p in s.patternProperties} s.patternProperties != nil && p in s.patternProperties && rxMatch(p, k)
pred PatKeyOK(s *subSchema, k string, v any) = forall p string :: {p in s.patternProperties} s.patternProperties != nil && p in s.patternProperties && rxMatch(p, k) ==> Sat(s.patternProperties[p], v)
pred AddKeyOK(s *subSchema, k string, v any) = !ByProp(s, k) && !ByPat(s, k) ==> (typeis(s.additionalProperties, bool) ==> as(s.additionalProperties, bool))
  && (typeis(s.additionalProperties, *subSchema) ==> Sat(as(s.additionalProperties, *subSchema), v))
pred PatAddOK(s *subSchema, o map[string]interface{}) = forall k string :: {k in o} k in o ==> PatKeyOK(s, k, o[k]) && AddKeyOK(s, k, o[k])
pred NamesOK(s *subSchema, o map[string]interface{}) = s.propertyNames != nil ==> (forall k string :: {k in o} k in o ==> Sat(s.propertyNames, box(k)))
pred ObjOK(s *subSchema, o map[string]interface{}) = MinPropsOK(s, o) && MaxPropsOK(s, o) && ReqOK(s, o) && PatAddOK(s, o) && NamesOK(s, o)
pred PropsOK(s *subSchema, o map[string]interface{}) = forall i int :: {s.propertiesChildren[i]} 0 <= i && i < len(s.propertiesChildren) && s.propertiesChildren[i].property in o ==> Sat(s.propertiesChildren[i], o[s.propertiesChildren[i].property])

pred SatDef(s *subSchema, n any) = if s.pass != nil then *s.pass else (if s.refSchema != nil then Sat(s.refSchema, n) else
  TypeOK(s, n) && SchemaOK(s, n) && CommonOK(s, n) && NumOK(s, n) && StrOK(s, n)
  && (IsArr(n) ==> ArrOK(s, Arr(n))) && (IsObj(n) ==> ObjOK(s, Obj(n)) && PropsOK(s, Obj(n))))

// ---- results ----
pred NoNew(r *Result) = len(r.errors) == old(len(r.errors))
pred Keeps(r *Result) = len(r.errors) >= old(len(r.errors)) && (forall i int :: {r.errors[i]} {old(r.errors[i])} 0 <= i && i < old(len(r.errors)) ==> r.errors[i] == old(r.errors[i]))

// what a validation adds are errors (never nil)
pred NewErrs(r *Result) = forall i int :: {r.errors[i]} old(len(r.errors)) <= i && i < len(r.errors) ==> tag(r.errors[i]) != 0

func (*Result).Valid(v) (r)
  props VERDICT
  requires v != nil
  ensures r <==> len(v.errors) == 0
func (*Result).Errors(v) (r)
  props VERDICT
  requires v != nil
  ensures r == v.errors
func (*Result).incrementScore(v)
  requires v != nil
  modifies v.score
  ensures [C22] v.score == old(v.score) + 1
func (*Result).mergeErrors(v, otherResult)
  requires v != nil && otherResult != nil
  requires v != otherResult
  modifies v.errors, v.score
  ensures [VERDICT C11 C12 C22] len(v.errors) == old(len(v.errors)) + len(otherResult.errors)
  ensures [C10 C11 C12] Keeps(v)
  ensures [C10 C11 C12 C22] forall i int :: {otherResult.errors[i]} 0 <= i && i < len(otherResult.errors) ==> v.errors[i + old(len(v.errors))] == otherResult.errors[i]
  ensures [C11 C12 C22] forall i int :: {v.errors[i]} old(len(v.errors)) <= i && i < len(v.errors) ==> v.errors[i] == otherResult.errors[i - old(len(v.errors))]
  ensures [C22] v.score == old(v.score) + otherResult.score
func (*Result).addInternalError(v, err, context, value, details)
  requires v != nil && tag(err) != 0 && RE(err) != nil
  requires context != nil && CtxOK(context)
  requires details != nil
  modifies v.errors, v.score, RE(err).all, contents(details)
  ensures [VERDICT C11 C12 C22] len(v.errors) == old(len(v.errors)) + 1
  ensures [C10 C11 C12] Keeps(v)
  ensures [C10 C11 C12 C22] v.errors[old(len(v.errors))] == err
  ensures [C22] v.score == old(v.score) - 2

func (*subSchema).subValidateWithContext(v, document, context) (r)
  requires v != nil && WF(v) && JSON(document) && context != nil && CtxOK(context)
  ensures r != nil && fresh(r)
  ensures [VERDICT] len(r.errors) == 0 <==> Sat(v, document)
  ensures [C11] forall i int :: {r.errors[i]} 0 <= i && i < len(r.errors) ==> tag(r.errors[i]) != 0

func (*subSchema).validateRecursive(v, s, n, result, context)
  requires s != nil && result != nil && context != nil && CtxOK(context)
  requires WF(s)
  requires JSON(n)
  unfold WF(s) ==> WFDef(s)
  unfold JSON(n) ==> JSONDef(n)
  unfold Sat(s, n) <==> SatDef(s, n)
  modifies result.errors, result.score
  ensures [C10] Keeps(result)
  ensures [C11] NewErrs(result)
  stable NewErrs(result) && Keeps(result)
  ensures [VERDICT] NoNew(result) ==> Sat(s, n)
  ensures [VERDICT] Sat(s, n) ==> NoNew(result)
  inv Keeps(result) && len(result.errors) >= pre(len(result.errors))
  inv NewErrs(result)
  inv [xs over []*subSchema] len(result.errors) == pre(len(result.errors)) <==> (forall k int :: {xs[k]} 0 <= k && k < it && xs[k].property in Obj(n) ==> Sat(xs[k], Obj(n)[xs[k].property]))

func (*subSchema).validateNumber(v, s, n, result, context)
  requires s != nil && result != nil && context != nil && CtxOK(context)
  requires WF(s)
  requires JSON(n)
  unfold WF(s) ==> WFDef(s)
  modifies result.errors, result.score
  ensures [C10] Keeps(result)
  ensures [C11] NewErrs(result)
  stable NewErrs(result) && Keeps(result)
  ensures [C02] NoNew(result) <==> NumOK(s, n)

func (*subSchema).validateString(v, s, n, result, context)
  requires s != nil && result != nil && context != nil && CtxOK(context)
  requires WF(s)
  requires JSON(n)
  unfold WF(s) ==> WFDef(s)
  unfold JSON(n) ==> JSONDef(n)
  modifies result.errors, result.score
  ensures [C10] Keeps(result)
  ensures [C11] NewErrs(result)
  stable NewErrs(result) && Keeps(result)
  ensures [C03] NoNew(result) <==> StrOK(s, n)

func (*subSchema).validateCommon(v, s, n, result, context)
  requires s != nil && result != nil && context != nil && CtxOK(context)
  requires WF(s)
  requires JSON(n)
  modifies result.errors, result.score
  ensures [C10] Keeps(result)
  ensures [C11] NewErrs(result)
  stable NewErrs(result) && Keeps(result)
  ensures [C07] NoNew(result) ==> ConstOK(s, n) && EnumOK(s, n)
  ensures [C08] NoNew(result) ==> FormatOK(s, n)
  ensures [C07 C08] CommonOK(s, n) ==> NoNew(result)

func (*subSchema).validateSchema(v, s, n, result, context)
  requires s != nil && result != nil && context != nil && CtxOK(context)
  requires WF(s)
  requires JSON(n)
  unfold WF(s) ==> WFDef(s)
  unfold JSON(n) ==> JSONDef(n)
  unfold forall k int :: {s.oneOf[k]} 0 <= k && k < len(s.oneOf) ==> cntSat(row(s.oneOf), n, k + 1) == cntSat(row(s.oneOf), n, k) + (if Sat(s.oneOf[k], n) then 1 else 0)
  modifies result.errors, result.score
  ensures [C10] Keeps(result)
  ensures [C11] NewErrs(result)
  stable NewErrs(result) && Keeps(result)
  ensures [C06] NoNew(result) ==> AnyOK(s, n)
  ensures [C06] NoNew(result) ==> OneOK(s, n)
  ensures [C06] NoNew(result) ==> AllOK(s, n)
  ensures [C06] NoNew(result) ==> NotOK(s, n)
  ensures [C06] NoNew(result) ==> IfOK(s, n)
  ensures [C05] NoNew(result) ==> DepOK(s, n)
  ensures [C05 C06] SchemaOK(s, n) ==> NoNew(result)
  inv Keeps(result) && len(result.errors) >= pre(len(result.errors))
  inv NewErrs(result)
  inv [b bool, xs over []*subSchema] b <==> (exists k int :: {xs[k]} 0 <= k && k < it && Sat(xs[k], n))
  inv [xs over []*subSchema] forall k int :: {xs[k]} 0 <= k && k < it ==> !Sat(xs[k], n)
  inv [c int, xs over []*subSchema] c == cntSat(row(xs), n, it)
  inv [c int, xs over []*subSchema] c <= it && (c == it <==> (forall k int :: {xs[k]} 0 <= k && k < it ==> Sat(xs[k], n)))
  inv [xs over []*subSchema] len(result.errors) == pre(len(result.errors)) <==> (forall k int :: {xs[k]} 0 <= k && k < it ==> Sat(xs[k], n))
  inv [xs over []string] len(result.errors) == pre(len(result.errors)) <==> (forall k int :: {xs[k]} 0 <= k && k < it ==> xs[k] in Obj(n))
  inv len(result.errors) == pre(len(result.errors)) <==> (forall k string :: {visited[k]} visited[k] ==> DepKeyOK(s, n, k))
  inv [r *Result] r == nil || r != result
  inv [r *Result] r == nil || (forall i int :: {r.errors[i]} 0 <= i && i < len(r.errors) ==> tag(r.errors[i]) != 0)
  inv [r *Result] r != nil || it == 0
  inv [r *Result, b bool] r != nil || it == 0 || b
  inv [r *Result, c int] r != nil || it == 0 || c > 0

func (*subSchema).validateArray(v, s, value, result, context)
  requires s != nil && result != nil && context != nil && CtxOK(context)
  requires WF(s)
  requires JSON(box(value))
  unfold WF(s) ==> WFDef(s)
  unfold JSON(box(value)) ==> JSONDef(box(value))
  modifies result.errors, result.score
  ensures [C10] Keeps(result)
  ensures [C11] NewErrs(result)
  stable NewErrs(result) && Keeps(result)
  ensures [C04] NoNew(result) ==> ItemsOK(s, value)
  ensures [C04] NoNew(result) ==> AddItemsOK(s, value)
  ensures [C04] NoNew(result) ==> MinItemsOK(s, value)
  ensures [C04] NoNew(result) ==> MaxItemsOK(s, value)
  ensures [C04] NoNew(result) ==> UniqueOK(s, value)
  ensures [C04] NoNew(result) ==> ContainsOK(s, value)
  ensures [C04] ArrOK(s, value) ==> NoNew(result)
  inv Keeps(result) && len(result.errors) >= pre(len(result.errors))
  inv NewErrs(result)
  inv [lo start] len(result.errors) == pre(len(result.errors)) <==> (forall k int :: {value[k]} lo <= k && k < lo + it ==> Sat(s.itemsChildren[0], value[k]))
  inv [lo start] len(result.errors) == pre(len(result.errors)) <==> (forall k int :: {value[k]} lo <= k && k < lo + it ==> Sat(s.itemsChildren[k], value[k]))
  inv [lo start] len(result.errors) == pre(len(result.errors)) <==> (forall k int :: {value[k]} lo <= k && k < lo + it ==> Sat(as(s.additionalItems, *subSchema), value[k]))
  inv len(result.errors) == pre(len(result.errors)) <==> UniqueUpTo(value, it)
  inv [m local map[string]int] forall t string :: {t in m} t in m ==> 0 <= m[t] && m[t] < it && canonOK(value[m[t]]) && canon(value[m[t]]) == t
  inv [m local map[string]int] forall k int :: {value[k]} 0 <= k && k < it && canonOK(value[k]) ==> canon(value[k]) in m
  inv forall k int :: {value[k]} 0 <= k && k < it ==> !Sat(s.contains, value[k])
  inv [b bool] b <==> (exists k int :: {value[k]} 0 <= k && k < it && Sat(s.contains, value[k]))
  inv len(result.errors) == pre(len(result.errors))
  inv [r *Result] r == nil || r != result
  inv [r *Result] r == nil || (forall i int :: {r.errors[i]} 0 <= i && i < len(r.errors) ==> tag(r.errors[i]) != 0)

func (*subSchema).validateObject(v, s, value, result, context)
  requires s != nil && result != nil && context != nil && CtxOK(context)
  requires WF(s)
  requires JSON(box(value))
  unfold WF(s) ==> WFDef(s)
  unfold JSON(box(value)) ==> JSONDef(box(value))
  unfold forall t string :: {box(t)} JSON(box(t))
  modifies result.errors, result.score
  ensures [C10] Keeps(result)
  ensures [C11] NewErrs(result)
  stable NewErrs(result) && Keeps(result)
  ensures [C05] NoNew(result) ==> MinPropsOK(s, value)
  ensures [C05] NoNew(result) ==> MaxPropsOK(s, value)
  ensures [C05] NoNew(result) ==> ReqOK(s, value)
  ensures [C05] NoNew(result) ==> PatAddOK(s, value)
  ensures [C05] NoNew(result) ==> NamesOK(s, value)
  ensures [C05] ObjOK(s, value) ==> NoNew(result)
  inv Keeps(result) && len(result.errors) >= pre(len(result.errors))
  inv NewErrs(result)
  inv [xs over []string] len(result.errors) == pre(len(result.errors)) <==> (forall k int :: {xs[k]} 0 <= k && k < it ==> xs[k] in value)
  inv [b bool, key outer string] b <==> (exists k int :: {s.propertiesChildren[k]} 0 <= k && k < it && s.propertiesChildren[k].property == key)
  inv [key outer string] forall k int :: {s.propertiesChildren[k]} 0 <= k && k < it ==> s.propertiesChildren[k].property != key
  inv len(result.errors) == pre(len(result.errors)) <==> (forall k string :: {visited[k]} visited[k] ==> PatKeyOK(s, k, value[k]) && AddKeyOK(s, k, value[k]))
  inv len(result.errors) == pre(len(result.errors)) <==> (forall k string :: {visited[k]} visited[k] ==> Sat(s.propertyNames, box(k)))

func (*subSchema).validatePatternProperty(v, s, key, value, result, context) (r)
  requires s != nil && result != nil && context != nil && CtxOK(context)
  requires WF(s)
  requires JSON(value)
  unfold WF(s) ==> WFDef(s)
  modifies result.errors, result.score
  ensures [C10] Keeps(result)
  ensures [C11] NewErrs(result)
  stable NewErrs(result) && Keeps(result)
  ensures [C05] r <==> ByPat(s, key)
  ensures [C05] NoNew(result) <==> PatKeyOK(s, key, value)
  inv Keeps(result) && len(result.errors) >= pre(len(result.errors))
  inv NewErrs(result)
  inv [b bool] b <==> (exists p string :: {visited[p]} visited[p] && rxMatch(p, key))
  inv len(result.errors) == pre(len(result.errors)) <==> (forall p string :: {visited[p]} visited[p] && rxMatch(p, key) ==> Sat(s.patternProperties[p], value))
