# generates specs/60parse.spec
out=[]
w=out.append
w('''// ---- compiling a schema (schema.go) ----
ghost field subSchema.src any            // the document node a schema was compiled from
ghost func Good(n any, dr int) bool      // n is a well-formed schema of the draft
ghost func Unres() bool                  // some identifier could not be resolved against its base
ghost func RefBad() bool                 // some reference did not lead to a well-formed schema
ghost func RefFor(s *subSchema, u string) bool // s was registered as the schema of the reference u
pred RefP(r *gojsonreference.JsonReference) = r != nil && RefOK(*r)
pred ParseEnv(d *Schema) = d != nil && PoolOK(d.pool) && tag(d.pool.jsonLoaderFactory) != 0 && RefsOK(d.referencePool) && RefOK(d.documentReference)
pred Blank(s *subSchema) = s.pass == nil && len(s.types.types) == 0 && s.refSchema == nil && len(s.itemsChildren) == 0 && !s.itemsChildrenIsSingleSchema && len(s.propertiesChildren) == 0
  && s.multipleOf == nil && s.maximum == nil && s.exclusiveMaximum == nil && s.minimum == nil && s.exclusiveMinimum == nil
  && s.minLength == nil && s.maxLength == nil && s.pattern == nil && s.format == "" && s.minProperties == nil && s.maxProperties == nil && len(s.required) == 0
  && s.dependencies == nil && tag(s.additionalProperties) == 0 && s.patternProperties == nil && s.propertyNames == nil
  && s.minItems == nil && s.maxItems == nil && !s.uniqueItems && s.contains == nil && tag(s.additionalItems) == 0 && s._const == nil && len(s.enum) == 0
  && len(s.oneOf) == 0 && len(s.anyOf) == 0 && len(s.allOf) == 0 && s.not == nil && s._if == nil && s._then == nil && s._else == nil
pred Placed(d *Schema, s *subSchema) = (s == d.rootSchema && s.parent == nil && s.draft != nil) || (s != d.rootSchema && s.parent != nil && s.parent != s && RefP(s.parent.id) && s.parent.draft != nil && (s.id == nil || RefP(s.id)))
fn DraftOf(s *subSchema) *Draft = if s.draft == nil then s.parent.draft else s.draft
fn DR(s *subSchema) int = *DraftOf(s)

axiom good_shape: forall v any, dr int :: {Good(v, dr)} Good(v, dr) ==> IsObj(v) || (IsBool(v) && dr >= 6)

// keyword values
fn IntOf(n any) int = intVal(NumText(n))
fn RatOf(n any) real = numVal(NumText(n))
pred BoundOK(n any) = IntLit(n) && IntOf(n) >= 0
pred StrList(a []interface{}) = forall i int :: {a[i]} 0 <= i && i < len(a) ==> IsStr(a[i])
pred StrDistinct(a []interface{}) = forall i int, j int :: {a[i], a[j]} 0 <= i && i < j && j < len(a) ==> as(a[i], string) != as(a[j], string)
pred TypeVal(n any) = (IsStr(n) && KnownType(as(n, string)))
   || (IsArr(n) && StrList(Arr(n)) && StrDistinct(Arr(n)) && (forall i int :: {Arr(n)[i]} 0 <= i && i < len(Arr(n)) ==> KnownType(as(Arr(n)[i], string))))
pred IsSch(n any) = IsObj(n) || IsBool(n)
pred GoodAll(n any, dr int) = IsArr(n) && (forall i int :: {Arr(n)[i]} 0 <= i && i < len(Arr(n)) ==> Good(Arr(n)[i], dr))
pred GoodMap(n any, dr int) = IsObj(n) && (forall k string :: {k in Obj(n)} {Obj(n)[k]} k in Obj(n) ==> Good(Obj(n)[k], dr))
pred Flagged(m map[string]interface{}, x string, dr int) = x in m && (dr == 4 || (dr == 2147483647 && IsBool(m[x])))
pred FlagOn(m map[string]interface{}, x string, dr int) = Flagged(m, x, dr) && as(m[x], bool)
pred StrKw(m map[string]interface{}, k string) = k in m ==> IsStr(m[k])
pred IntKw(m map[string]interface{}, k string) = k in m ==> BoundOK(m[k])
fn KeyId(m map[string]interface{}, dr int) string = if dr == 4 then "id" else (if dr == 2147483647 && "id" in m then "id" else "$id")

// well-formedness, keyword by keyword
pred G_id(m map[string]interface{}, dr int) = KeyId(m, dr) in m ==> IsStr(m[KeyId(m, dr)]) && urlOK(as(m[KeyId(m, dr)], string))
pred G_definitions(m map[string]interface{}, dr int) = "definitions" in m ==> IsObj(m["definitions"]) && GoodMap(m["definitions"], dr)
pred G_title(m map[string]interface{}, dr int) = StrKw(m, "title")
pred G_description(m map[string]interface{}, dr int) = StrKw(m, "description")
pred G_ref(m map[string]interface{}, dr int) = "$ref" in m ==> IsStr(m["$ref"]) && urlOK(as(m["$ref"], string))
''')
G={}
G['type']='"type" in m ==> TypeVal(m["type"])'
G['properties']='"properties" in m ==> GoodMap(m["properties"], dr)'
for k in('additionalProperties','additionalItems'):
    G[k]='"%s" in m ==> IsBool(m["%s"]) || (IsObj(m["%s"]) && Good(m["%s"], dr))'%(k,k,k,k)
G['patternProperties']='"patternProperties" in m ==> GoodMap(m["patternProperties"], dr) && (forall k string :: {k in Obj(m["patternProperties"])} k in Obj(m["patternProperties"]) ==> rxOK(k))'
G['propertyNames']='"propertyNames" in m && dr >= 6 ==> Good(m["propertyNames"], dr)'
G['dependencies']='"dependencies" in m ==> IsObj(m["dependencies"]) && (forall k string :: {k in Obj(m["dependencies"])} {Obj(m["dependencies"])[k]} k in Obj(m["dependencies"]) ==> DepVal(Obj(m["dependencies"])[k], dr))'
G['items']='"items" in m ==> GoodAll(m["items"], dr) || (IsSch(m["items"]) && Good(m["items"], dr))'
G['multipleOf']='"multipleOf" in m ==> NumLit(m["multipleOf"]) && RatOf(m["multipleOf"]) > 0'
for a,b in(('minimum','exclusiveMinimum'),('maximum','exclusiveMaximum')):
    G[a]='"%s" in m ==> NumLit(m["%s"])'%(a,a)
    G[b]='"%s" in m ==> (if Flagged(m, "%s", dr) then IsBool(m["%s"]) && "%s" in m else NumLit(m["%s"]))'%(b,b,b,a,b)
for k in('minLength','maxLength','minProperties','maxProperties','minItems','maxItems'): G[k]='IntKw(m, "%s")'%k
G['lengths']='"minLength" in m && "maxLength" in m && BoundOK(m["minLength"]) && BoundOK(m["maxLength"]) ==> IntOf(m["minLength"]) <= IntOf(m["maxLength"])'
G['sizes']='"minProperties" in m && "maxProperties" in m && BoundOK(m["minProperties"]) && BoundOK(m["maxProperties"]) ==> IntOf(m["minProperties"]) <= IntOf(m["maxProperties"])'
G['pattern']='"pattern" in m ==> IsStr(m["pattern"]) && rxOK(as(m["pattern"], string))'
G['format']='StrKw(m, "format")'
G['required']='"required" in m ==> IsArr(m["required"]) && StrList(Arr(m["required"])) && StrDistinct(Arr(m["required"]))'
G['uniqueItems']='"uniqueItems" in m ==> IsBool(m["uniqueItems"])'
G['contains']='"contains" in m && dr >= 6 ==> Good(m["contains"], dr)'
G['const']='"const" in m && dr >= 6 ==> canonOK(m["const"])'
G['enum']='"enum" in m ==> IsArr(m["enum"]) && (forall i int :: {Arr(m["enum"])[i]} 0 <= i && i < len(Arr(m["enum"])) ==> canonOK(Arr(m["enum"])[i])) && (forall i int, j int :: {Arr(m["enum"])[i], Arr(m["enum"])[j]} 0 <= i && i < j && j < len(Arr(m["enum"])) ==> canon(Arr(m["enum"])[i]) != canon(Arr(m["enum"])[j]))'
for k in('oneOf','anyOf','allOf'): G[k]='"%s" in m ==> GoodAll(m["%s"], dr)'%(k,k)
G['not']='"not" in m ==> Good(m["not"], dr)'
for k in('if','then','else'): G[k]='"%s" in m && dr >= 7 ==> Good(m["%s"], dr)'%(k,k)
w('pred DepVal(v any, dr int) = (IsArr(v) && StrList(Arr(v))) || (IsSch(v) && Good(v, dr))')
for k,f in G.items(): w('pred G_%s(m map[string]interface{}, dr int) = %s'%(k,f))
w('pred GActive(m map[string]interface{}, dr int) = '+' && '.join('G_%s(m, dr)'%k for k in G))
TOP=['id','definitions','title','description','ref']
w('pred GoodDef(n any, dr int) = (IsBool(n) && dr >= 6) || (IsObj(n) && '+' && '.join('G_%s(Obj(n), dr)'%k for k in TOP)+' && ("$ref" in Obj(n) || GActive(Obj(n), dr)))')
w('''
// what each keyword leaves in the compiled schema (h: the keyword is there and active, v: its value)
pred Child(c *subSchema, v any, s *subSchema) = c != nil && live(c) && c.src == v && WF(c) && c.draft == s.draft
pred E_int(p *int, h bool, v any) = if h then p != nil && *p == IntOf(v) else p == nil
pred E_rat(p *big.Rat, h bool, x real) = if h then p != nil && p.val == x else p == nil
pred E_sub(c *subSchema, h bool, v any, s *subSchema) = if h then Child(c, v, s) else c == nil
pred E_list(l []*subSchema, h bool, v any, s *subSchema) = if h then len(l) == len(Arr(v)) && (forall i int :: {l[i]} {Arr(v)[i]} 0 <= i && i < len(l) ==> Child(l[i], Arr(v)[i], s)) else len(l) == 0
pred E_types(l []string, h bool, v any) = if h then (if IsStr(v) then len(l) == 1 && l[0] == as(v, string)
   else len(l) == len(Arr(v)) && (forall i int :: {l[i]} {Arr(v)[i]} 0 <= i && i < len(l) ==> l[i] == as(Arr(v)[i], string))) else len(l) == 0
pred E_strs(l []string, h bool, v any) = if h then len(l) == len(Arr(v)) && (forall i int :: {l[i]} {Arr(v)[i]} 0 <= i && i < len(l) ==> l[i] == as(Arr(v)[i], string)) else len(l) == 0
pred E_canons(l []string, h bool, v any) = if h then len(l) == len(Arr(v)) && (forall i int :: {l[i]} {Arr(v)[i]} 0 <= i && i < len(l) ==> l[i] == canon(Arr(v)[i])) else len(l) == 0
pred E_extra(a any, h bool, v any, s *subSchema) = if h then (if IsBool(v) then a == v else typeis(a, *subSchema) && Child(as(a, *subSchema), v, s)) else tag(a) == 0
pred E_items(s *subSchema, h bool, v any) = if h then (if IsArr(v) then !s.itemsChildrenIsSingleSchema && E_list(s.itemsChildren, h, v, s)
   else s.itemsChildrenIsSingleSchema && len(s.itemsChildren) == 1 && Child(s.itemsChildren[0], v, s)) else !s.itemsChildrenIsSingleSchema && len(s.itemsChildren) == 0
pred HasProp(l []*subSchema, k string) = exists i int :: {l[i]} 0 <= i && i < len(l) && l[i].property == k
pred PropsDone(l []*subSchema, d set[string], x smap[any], s *subSchema) = (forall i int :: {l[i]} 0 <= i && i < len(l) ==> d[l[i].property] && Child(l[i], x[l[i].property], s))
   && (forall k string :: {d[k]} d[k] ==> HasProp(l, k))
pred E_props(l []*subSchema, h bool, d set[string], x smap[any], s *subSchema) = if h then PropsDone(l, d, x, s) else len(l) == 0
pred PatsDone(m map[string]*subSchema, d set[string], x smap[any], s *subSchema) = m != nil && live(m) && (forall k string :: {k in m} {d[k]} (k in m <==> d[k])) && (forall k string :: {m[k]} {d[k]} d[k] ==> Child(m[k], x[k], s) && rxOK(k))
pred E_pats(m map[string]*subSchema, h bool, d set[string], x smap[any], s *subSchema) = if h then (m == nil && (forall k string :: {d[k]} !d[k])) || PatsDone(m, d, x, s) else m == nil
pred DepDone(m map[string]interface{}, k string, v any, s *subSchema) = if IsArr(v)
   then (if len(Arr(v)) == 0 then !(k in m) else k in m && typeis(m[k], []string) && E_strs(as(m[k], []string), true, v))
   else k in m && typeis(m[k], *subSchema) && Child(as(m[k], *subSchema), v, s)
pred DepsDone(m map[string]interface{}, d set[string], x smap[any], s *subSchema) = m != nil && live(m) && (forall k string :: {k in m} k in m ==> d[k]) && (forall k string :: {m[k]} {d[k]} d[k] ==> DepDone(m, k, x[k], s))
pred E_deps(m map[string]interface{}, h bool, d set[string], x smap[any], s *subSchema) = if h then DepsDone(m, d, x, s) else m == nil

// the document and the pools around a compilation step
pred Env(d *Schema) = PoolOK(d.pool) && RefsOK(d.referencePool) && PoolGrows(d.pool) && RefOnly()
pred Kept(s *subSchema) = s.draft == old(DraftOf(s)) && s.draft != nil && *s.draft == old(DR(s)) && s.parent == old(s.parent) && s.property == old(s.property)
pred Act(n any) = IsObj(n) && !("$ref" in Obj(n))
''')
N='documentNode'; S='currentSchema'
w('''func (*Schema).parseSchema(d, documentNode, currentSchema) (err)
  props C15
  requires ParseEnv(d)
  requires currentSchema != nil && Blank(currentSchema) && Placed(d, currentSchema)
  requires JSON(documentNode)
  ghostset currentSchema.src = documentNode
  unfold JSON(documentNode) ==> JSONDef(documentNode)
  unfold IsObj(documentNode) ==> forall k string :: {Obj(documentNode)[k]} k in Obj(documentNode) ==> JSONDef(Obj(documentNode)[k])
  unfold forall b string, t string :: {inhOK(b, t)} !inhOK(b, t) ==> Unres()
  modifies currentSchema.all, currentSchema.src, contents(d.pool.schemaPoolDocuments), contents(d.referencePool.documents), anymap(map[string]interface{})
  cut Env(d)
  cut IsObj(documentNode) && Kept(currentSchema) && currentSchema.src == documentNode
  cut RefP(currentSchema.id)
  cut currentSchema.id == nil || RefP(currentSchema.id)
  cut old(currentSchema.parent) == nil ==> RefP(currentSchema.id)
  cut !old(Act(documentNode)) || (dom(Obj(documentNode)) == old(dom(Obj(documentNode))) && vals(Obj(documentNode)) == old(vals(Obj(documentNode))))
  cut old(Act(documentNode))
  ensures [C14 C18 C17] Env(d)
  ensures Kept(currentSchema) && currentSchema.src == documentNode
  ensures IsObj(documentNode) && err == nil ==> RefP(currentSchema.id)''')
for k in TOP:
    w('  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && IsObj(documentNode) ==> G_%s(Obj(documentNode), DR(currentSchema))'%k)
    w('  shows [C15%s] err == nil && IsObj(documentNode) ==> old(G_%s(Obj(documentNode), DR(currentSchema)))'%(' C17' if k in('id','ref') else '',k))
w('  shows [C15 C16 C01] err == nil ==> IsObj(documentNode) || (IsBool(documentNode) && old(DR(currentSchema)) >= 6 && currentSchema.pass != nil && *currentSchema.pass == as(documentNode, bool))')
w('  shows [C01] err == nil && IsObj(documentNode) ==> currentSchema.pass == nil')
w('  shows [C01 C17 +C14] err == nil && old(IsObj(documentNode) && "$ref" in Obj(documentNode)) ==> currentSchema.refSchema != nil && RefFor(currentSchema.refSchema, RefStr(*currentSchema.ref))')
w('  shows [C01 +C14] err == nil && old(Act(documentNode)) ==> currentSchema.refSchema == nil')
LAB={'type':'C01','properties':'C05','additionalProperties':'C05','patternProperties':'C05','propertyNames':'C05 C16','dependencies':'C05','items':'C04','additionalItems':'C04','multipleOf':'C02','minimum':'C02','maximum':'C02','exclusiveMinimum':'C02 C16','exclusiveMaximum':'C02 C16','minLength':'C03','maxLength':'C03','pattern':'C03','format':'C08','minProperties':'C05','maxProperties':'C05','required':'C05','minItems':'C04','maxItems':'C04','uniqueItems':'C04','contains':'C04 C16','const':'C07 C16','enum':'C07','oneOf':'C06','anyOf':'C06','allOf':'C06','not':'C06','if':'C06 C16','then':'C06 C16','else':'C06 C16'}
M='Obj(documentNode)'
N15='type patternProperties minLength maxLength minProperties maxProperties minItems maxItems required enum'.split()
WFK='not if then else contains propertyNames items properties anyOf oneOf allOf additionalItems additionalProperties multipleOf dependencies patternProperties'.split()
def h(k,cond=''): return 'old("%s" in %s%s)'%(k,M,cond)
def v(k): return 'old(%s["%s"])'%(M,k)
def dom(k): return 'old(dom(Obj(%s["%s"])))'%(M,k)
def vals(k): return 'old(vals(Obj(%s["%s"])))'%(M,k)
D6=' && DR(currentSchema) >= 6'; D7=' && DR(currentSchema) >= 7'
E={}
E['type']='E_types(%s.types.types, %s, %s)'%(S,h('type'),v('type'))
E['properties']='E_props(%s.propertiesChildren, %s, %s, %s, %s)'%(S,h('properties'),dom('properties'),vals('properties'),S)
for k in('additionalProperties','additionalItems'): E[k]='E_extra(%s.%s, %s, %s, %s)'%(S,k,h(k),v(k),S)
E['patternProperties']='(%s.patternProperties == nil || fresh(%s.patternProperties)) && E_pats(%s.patternProperties, %s, %s, %s, %s)'%(S,S,S,h('patternProperties'),dom('patternProperties'),vals('patternProperties'),S)
for k,f in(('propertyNames','propertyNames'),('contains','contains')): E[k]='E_sub(%s.%s, %s, %s, %s)'%(S,f,h(k,D6),v(k),S)
for k in('if','then','else'): E[k]='E_sub(%s._%s, %s, %s, %s)'%(S,k,h(k,D7),v(k),S)
E['not']='E_sub(%s.not, %s, %s, %s)'%(S,h('not'),v('not'),S)
E['dependencies']='E_deps(%s.dependencies, %s, %s, %s, %s)'%(S,h('dependencies'),dom('dependencies'),vals('dependencies'),S)
E['items']='E_items(%s, %s, %s)'%(S,h('items'),v('items'))
E['multipleOf']='E_rat(%s.multipleOf, %s, old(RatOf(%s["multipleOf"])))'%(S,h('multipleOf'),M)
for a,b in(('minimum','exclusiveMinimum'),('maximum','exclusiveMaximum')):
    E[a]='E_rat(%s.%s, old("%s" in %s && !FlagOn(%s, "%s", DR(%s))), old(RatOf(%s["%s"])))'%(S,a,a,M,M,b,S,M,a)
    E[b]='(if old(Flagged(%s, "%s", DR(%s))) then E_rat(%s.%s, old(FlagOn(%s, "%s", DR(%s))), old(RatOf(%s["%s"]))) else E_rat(%s.%s, %s, old(RatOf(%s["%s"]))))'%(M,b,S,S,b,M,b,S,M,a,S,b,h(b),M,b)
for k in('minLength','maxLength','minProperties','maxProperties','minItems','maxItems'): E[k]='E_int(%s.%s, %s, %s)'%(S,k,h(k),v(k))
E['pattern']='(if %s then %s.pattern != nil && %s.pattern.src == old(as(%s["pattern"], string)) else %s.pattern == nil)'%(h('pattern'),S,S,M,S)
E['format']='%s.format == (if %s then old(as(%s["format"], string)) else "")'%(S,h('format'),M)
E['required']='E_strs(%s.required, %s, %s)'%(S,h('required'),v('required'))
E['uniqueItems']='(%s.uniqueItems <==> old("uniqueItems" in %s && as(%s["uniqueItems"], bool)))'%(S,M,M)
E['const']='(if %s then %s._const != nil && *%s._const == old(canon(%s["const"])) else %s._const == nil)'%(h('const',D6),S,S,M,S)
E['enum']='E_canons(%s.enum, %s, %s)'%(S,h('enum'),v('enum'))
for k in('oneOf','anyOf','allOf'): E[k]='E_list(%s.%s, %s, %s, %s)'%(S,k,h(k),v(k),S)
for k in G:
    lab=LAB.get(k,'')+(' +C14' if k in WFK else '')+(' +C15 +C16' if k in N15 else '')
    w('  unfold [C15 C16] Good(documentNode, DR(currentSchema)) && Act(documentNode) ==> G_%s(Obj(documentNode), DR(currentSchema))'%k)
    w('  shows [C15%s] err == nil && old(Act(documentNode)) ==> old(G_%s(Obj(documentNode), DR(currentSchema)))'%((' C16' if 'C16' in lab else '')+(' +C14' if k=='multipleOf' else ''),k))
    if k in E: w('  shows [%s] err == nil && old(Act(documentNode)) ==> %s'%(lab,E[k]))
w('  use [C15 C16] old(GoodDef(documentNode, DR(currentSchema))) ==> Good(documentNode, old(DR(currentSchema)))')
w('  finally [C15] err == nil ==> Good(documentNode, old(DR(currentSchema)))')
w('  finally [C15 C16] err != nil ==> !Good(documentNode, old(DR(currentSchema))) || Unres() || RefBad()')
w('  use [C14] WFDef(currentSchema) ==> WF(currentSchema)')
w('  finally [C14] err == nil ==> WF(currentSchema)')
# loop invariants
w('  inv Env(d) && Kept(currentSchema) && currentSchema.src == documentNode')
w('  inv RefP(currentSchema.id)')
w('  inv forall m map[string]interface{} :: {dom(m)} {vals(m)} {pre(dom(m))} {pre(vals(m))} pre(live(m)) ==> dom(m) == pre(dom(m)) && (forall k string :: {m[k]} {pre(m[k])} m[k] == pre(m[k]) || (k == "$ref" && IsStr(m[k]) && IsStr(pre(m[k])))) && (!("$ref" in m) ==> vals(m) == pre(vals(m)))')
w('  inv !old(Act(documentNode)) || (dom(Obj(documentNode)) == old(dom(Obj(documentNode))) && vals(Obj(documentNode)) == old(vals(Obj(documentNode))))')
w('  inv [xs over []interface{}] len(currentSchema.types.types) == it && (forall k int :: {xs[k]} {currentSchema.types.types[k]} 0 <= k && k < it ==> IsStr(xs[k]) && currentSchema.types.types[k] == as(xs[k], string) && KnownType(as(xs[k], string)))')
w('  inv [xs over []interface{}] len(currentSchema.types.types) == it && forall i int, j int :: {xs[i], xs[j]} 0 <= i && i < j && j < it ==> as(xs[i], string) != as(xs[j], string)')
w('  inv [xs over map[string]interface{}] forall k string :: {visited[k]} visited[k] ==> Good(old(xs[k]), old(DR(currentSchema)))')
w('  inv [xs over map[string]interface{}] PatsDone(currentSchema.patternProperties, visited, old(vals(xs)), currentSchema) && fresh(currentSchema.patternProperties)')
w('  inv [xs over map[string]interface{}] dom(xs) == old(dom(xs)) && (forall k string :: {xs[k]} xs[k] == old(xs[k]) || (k == "$ref" && IsStr(xs[k]) && IsStr(old(xs[k]))))')
for f in('oneOf','anyOf','allOf','itemsChildren'):
    w('  inv [xs over []interface{}] len(currentSchema.%s) == it && (forall k int :: {xs[k]} {currentSchema.%s[k]} 0 <= k && k < it ==> Child(currentSchema.%s[k], xs[k], currentSchema) && Good(xs[k], old(DR(currentSchema))))%s'%(f,f,f,' && !currentSchema.itemsChildrenIsSingleSchema' if f[0]=='i' else ''))
w('  inv [xs over []interface{}] len(currentSchema.required) == it && (forall k int :: {xs[k]} {currentSchema.required[k]} 0 <= k && k < it ==> IsStr(xs[k]) && currentSchema.required[k] == as(xs[k], string))')
w('  inv [xs over []interface{}] len(currentSchema.required) == it && forall i int, j int :: {xs[i], xs[j]} 0 <= i && i < j && j < it ==> as(xs[i], string) != as(xs[j], string)')
w('  inv [xs over []interface{}] len(currentSchema.enum) == it && (forall k int :: {xs[k]} {currentSchema.enum[k]} 0 <= k && k < it ==> canonOK(xs[k]) && currentSchema.enum[k] == canon(xs[k]))')
w('  inv [xs over []interface{}] len(currentSchema.enum) == it && forall i int, j int :: {xs[i], xs[j]} 0 <= i && i < j && j < it ==> canon(xs[i]) != canon(xs[j])')
w('''
func (*Schema).parseReference(d, documentNode, currentSchema) (err)
  props C15 C17
  requires ParseEnv(d)
  requires currentSchema != nil && RefP(currentSchema.ref) && RefP(currentSchema.id) && currentSchema.draft != nil
  requires !(RefStr(*currentSchema.ref) in d.referencePool.documents)
  requires [C17] IsObj(documentNode) && RefStr(*currentSchema.ref) == Norm(as(Obj(documentNode)["$ref"], string))
  unfold forall v any :: {Fetched(RefStr(*currentSchema.ref), v)} Fetched(RefStr(*currentSchema.ref), v) && !IsSch(v) ==> RefBad()
  unfold forall v any, dr int :: {Fetched(RefStr(*currentSchema.ref), v), Good(v, dr)} Fetched(RefStr(*currentSchema.ref), v) && !Good(v, dr) ==> RefBad()
  modifies currentSchema.refSchema, contents(d.pool.schemaPoolDocuments), contents(d.referencePool.documents), anymap(map[string]interface{})
  ensures [C14 C18 C17] Env(d)
  ensures err == nil ==> currentSchema.refSchema != nil && WF(currentSchema.refSchema) && RefFor(currentSchema.refSchema, RefStr(*currentSchema.ref))
  ensures [C17 C18] err == nil ==> Fetched(RefStr(*currentSchema.ref), currentSchema.refSchema.src)
  ensures [C16] err == nil ==> currentSchema.refSchema.draft != nil
  ensures [C15] err != nil ==> RefBad() || Unres()

func (*Schema).parseProperties(d, documentNode, currentSchema) (err)
  props C15 C05
  requires ParseEnv(d)
  requires currentSchema != nil && len(currentSchema.propertiesChildren) == 0 && RefP(currentSchema.id) && currentSchema.draft != nil
  requires JSON(documentNode)
  unfold JSON(documentNode) ==> JSONDef(documentNode)
  modifies currentSchema.propertiesChildren, contents(d.pool.schemaPoolDocuments), contents(d.referencePool.documents), anymap(map[string]interface{})
  ensures [C14 C18 C17] Env(d)
  ensures [C15] err == nil ==> old(GoodMap(documentNode, *currentSchema.draft))
  ensures err == nil ==> PropsDone(currentSchema.propertiesChildren, old(dom(Obj(documentNode))), old(vals(Obj(documentNode))), currentSchema)
  ensures [C15] err != nil ==> !old(GoodMap(documentNode, *currentSchema.draft)) || Unres() || RefBad()
  inv Env(d)
  inv [xs over map[string]interface{}] dom(xs) == old(dom(xs)) && (forall k string :: {xs[k]} xs[k] == old(xs[k]) || (k == "$ref" && IsStr(xs[k]) && IsStr(old(xs[k]))))
  inv [xs over map[string]interface{}] forall k string :: {visited[k]} visited[k] ==> old(Good(xs[k], *currentSchema.draft))
  inv [xs over map[string]interface{}] PropsDone(currentSchema.propertiesChildren, visited, old(vals(xs)), currentSchema)

func (*Schema).parseDependencies(d, documentNode, currentSchema) (err)
  props C15 C05
  requires ParseEnv(d)
  requires currentSchema != nil && RefP(currentSchema.id) && currentSchema.draft != nil
  requires JSON(documentNode)
  unfold JSON(documentNode) ==> JSONDef(documentNode)
  unfold forall v any :: {JSON(v)} JSON(v) ==> JSONDef(v)
  modifies currentSchema.dependencies, contents(d.pool.schemaPoolDocuments), contents(d.referencePool.documents), anymap(map[string]interface{})
  ensures [C14 C18 C17] Env(d)
  ensures [C15] err == nil ==> IsObj(documentNode) && old(forall k string :: {k in Obj(documentNode)} {Obj(documentNode)[k]} k in Obj(documentNode) ==> DepVal(Obj(documentNode)[k], *currentSchema.draft))
  ensures err == nil ==> DepsDone(currentSchema.dependencies, old(dom(Obj(documentNode))), old(vals(Obj(documentNode))), currentSchema)
  ensures [C15] err != nil ==> !(IsObj(documentNode) && old(forall k string :: {k in Obj(documentNode)} {Obj(documentNode)[k]} k in Obj(documentNode) ==> DepVal(Obj(documentNode)[k], *currentSchema.draft))) || Unres() || RefBad()
  inv Env(d)
  inv [xs over map[string]interface{}] dom(xs) == old(dom(xs)) && (forall k string :: {xs[k]} xs[k] == old(xs[k]) || (k == "$ref" && IsStr(xs[k]) && IsStr(old(xs[k]))))
  inv [xs over map[string]interface{}] forall k string :: {visited[k]} visited[k] ==> old(DepVal(xs[k], *currentSchema.draft))
  inv [xs over map[string]interface{}] DepsDone(currentSchema.dependencies, visited, old(vals(xs)), currentSchema)
  inv [ys over []interface{}, l []string] len(l) == it && (forall j int :: {ys[j]} {l[j]} 0 <= j && j < it ==> IsStr(ys[j]) && l[j] == as(ys[j], string))
  inv [k outer string, xs outer map[string]interface{}, ys over []interface{}, l []string] currentSchema.dependencies != nil && live(currentSchema.dependencies)
     && (forall q string :: {q in currentSchema.dependencies} q in currentSchema.dependencies ==> ovisited[q]) && (forall q string :: {currentSchema.dependencies[q]} {ovisited[q]} ovisited[q] && q != k ==> DepDone(currentSchema.dependencies, q, old(xs[q]), currentSchema))
  inv [k outer string, ys over []interface{}, l []string] if it == 0 then !(k in currentSchema.dependencies) else k in currentSchema.dependencies && typeis(currentSchema.dependencies[k], []string) && as(currentSchema.dependencies[k], []string) == l

func (*Schema).parse(d, document, draft) (err)
  props C15
  requires ParseEnv(d) && JSON(document)
  modifies d.rootSchema, contents(d.pool.schemaPoolDocuments), contents(d.referencePool.documents), anymap(map[string]interface{})
  ensures [C14] PoolOK(d.pool)
  ensures [C18] PoolGrows(d.pool)
  ensures RefOnly()
  ensures err == nil ==> d.rootSchema != nil && WF(d.rootSchema) && d.rootSchema.src == document
  ensures [C16] err == nil ==> d.rootSchema.draft != nil && *d.rootSchema.draft == draft
  ensures [C15] err == nil ==> Good(document, draft)
  ensures [C15] err != nil ==> !Good(document, draft) || Unres() || RefBad()
''')
open('specs/60parse.spec','w').write('\n'.join(out)+'\n')
