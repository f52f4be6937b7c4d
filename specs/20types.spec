pred KnownType(t string) = t == "array" || t == "boolean" || t == "integer" || t == "number" || t == "null" || t == "object" || t == "string"
globalinv [C15 C01] json_types: (forall i int :: {JSON_TYPES[i]} 0 <= i && i < len(JSON_TYPES) ==> KnownType(JSON_TYPES[i])) && InStrs(JSON_TYPES, "array") && InStrs(JSON_TYPES, "boolean") && InStrs(JSON_TYPES, "integer") && InStrs(JSON_TYPES, "number") && InStrs(JSON_TYPES, "null") && InStrs(JSON_TYPES, "object") && InStrs(JSON_TYPES, "string")

func (*jsonSchemaType).IsTyped(t) (r)
  props C01
  requires t != nil
  ensures r <==> len(t.types) > 0

func (*jsonSchemaType).Contains(t, etype) (r)
  props C01 C15
  requires t != nil
  ensures r <==> InStrs(t.types, etype)
  inv forall k int :: {t.types[k]} 0 <= k && k < it ==> t.types[k] != etype

func (*jsonSchemaType).Add(t, etype) (err)
  props C15 C01
  requires t != nil
  modifies t.types
  ensures err == nil <==> KnownType(etype) && !old(InStrs(t.types, etype))
  ensures err == nil ==> len(t.types) == old(len(t.types)) + 1 && t.types[old(len(t.types))] == etype
  ensures err == nil ==> forall i int :: {t.types[i]} 0 <= i && i < old(len(t.types)) ==> t.types[i] == old(t.types[i])
  ensures err != nil ==> t.types == old(t.types)

extern func errors.New(s) (r)
  ensures tag(r) != 0 && errorString(r) == s
extern func fmt.Errorf(f, a) (r)
  ensures tag(r) != 0
ghost func typeText(d arr[string], n int) string
extern func fmt.Sprintf(f, a) (r)
  noalloc
func (*jsonSchemaType).String(t) (r)
  props C11
  requires t != nil
  ensures len(t.types) == 1 ==> r == t.types[0]
  ensures len(t.types) == 0 ==> r == "undefined"
