func isStringInSlice(s, what) (r)
  props C01 C07 C15
  ensures r <==> InStrs(s, what)
  inv forall k int :: {s[k]} 0 <= k && k < it ==> s[k] != what

func indexStringInSlice(s, what) (r)
  ensures 0 - 1 <= r && r < len(s)
  ensures r >= 0 ==> s[r] == what
  ensures forall k int :: {s[k]} 0 <= k && k < len(s) && (r < 0 || k < r) ==> s[k] != what
  inv forall k int :: {s[k]} 0 <= k && k < it ==> s[k] != what

func existsMapKey(m, k) (r)
  props C15
  ensures r <==> k in m

func isJSONNumber(what) (r)
  props C01 C02 C03 C15
  ensures r <==> typeis(what, json.Number)

func checkJSONInteger(what) (isInt)
  props C01 C15
  requires typeis(what, json.Number)
  ensures isInt <==> numOK(as(what, string)) && isint(numVal(as(what, string)))

// conversion of YAML-like documents handed to the raw loader; never reached for JSON documents
ghost func Yamlish(v any) bool
pred YamlDef(v any) = (typeis(v, []interface{}) ==> (forall i int :: {as(v, []interface{})[i]} 0 <= i && i < len(as(v, []interface{})) ==> Yamlish(as(v, []interface{})[i])))
  && (typeis(v, map[interface{}]interface{}) ==> (forall k any :: {k in as(v, map[interface{}]interface{})} k in as(v, map[interface{}]interface{}) ==> typeis(k, string) && Yamlish(as(v, map[interface{}]interface{})[k])))
func convertDocumentNode(val) (r)
  requires Yamlish(val)
  unfold Yamlish(val) ==> YamlDef(val)
  ensures typeis(val, map[interface{}]interface{}) ==> typeis(r, map[string]interface{})
  ensures !typeis(val, []interface{}) && !typeis(val, map[interface{}]interface{}) ==> r == val

// ---- canonical text of values ----
extern func encoding/json.Marshal(v) (b, err)
  ensures err == nil <==> jsonOK(v)
  ensures err == nil ==> str(b) == jsonText(v)
extern func encoding/json.Unmarshal(b, p) (err)
  requires typeis(p, *interface{}) && as(p, *interface{}) != nil
  modifies *as(p, *interface{})
  ensures err == nil <==> jsonTextOK(str(b))
  ensures err == nil ==> *as(p, *interface{}) == jsonVal(str(b))
define canon_def: forall n any :: {canon(n)} canon(n) == jsonText(jsonVal(jsonText(n)))
define canonOK_def: forall n any :: {canonOK(n)} canonOK(n) <==> jsonOK(n) && jsonTextOK(jsonText(n)) && jsonOK(jsonVal(jsonText(n)))

func marshalToJSONString(value) (r, err)
  props C07 C04 C15
  ensures err == nil <==> jsonOK(value)
  ensures err == nil ==> r != nil && fresh(r) && *r == jsonText(value)
func marshalWithoutNumber(value) (r, err)
  props C07 C04 C15
  ensures err == nil <==> canonOK(value)
  ensures err == nil ==> r != nil && fresh(r) && *r == canon(value)

extern func (encoding/json.Number).Int64(n) (r, err)
  ensures err == nil <==> intText(n)
  ensures err == nil ==> r == intVal(n)
  noalloc
pred IntLit(n any) = typeis(n, json.Number) && numOK(as(n, string)) && isint(numVal(as(n, string))) && intText(as(n, string))
func mustBeInteger(what) (r)
  props C15 C03 C04 C05
  ensures r != nil <==> IntLit(what)
  ensures r != nil ==> fresh(r) && *r == intVal(as(what, string))
pred NumLit(n any) = typeis(n, json.Number) && numOK(as(n, string))
func mustBeNumber(what) (r)
  props C15 C02
  ensures r != nil <==> NumLit(what)
  ensures r != nil ==> fresh(r) && r.val == numVal(as(what, string))
