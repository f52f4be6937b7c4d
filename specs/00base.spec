// Groups of properties used as labels
group VERDICT C01 C02 C03 C04 C05 C06 C07 C08 C10
group ERRS C11 C12 C22

// ---- ghost vocabulary ----
ghost field math/big.Rat.val real
ghost func numOK(s string) bool          // the text is a number math/big accepts (exponent within range)
ghost func numVal(s string) real         // its exact value
ghost func flotVal(x any) real           // the value a *big.Float was set to
ghost func errText(e any) string
ghost func canon(n any) string           // canonical text of a JSON value, numbers as doubles
ghost func canonOK(n any) bool           // no number beyond double range
ghost func jsonText(n any) string
ghost func jsonOK(n any) bool
ghost func jsonTextOK(s string) bool     // json.Unmarshal accepts
ghost func jsonVal(s string) any         // what json.Unmarshal yields
ghost func intText(s string) bool        // strconv accepts as int64
ghost func intVal(s string) int
ghost func runes(s string) int
ghost func joined(d arr[string], n int, sep string) string

pred InStrs(s []string, x string) = exists i int :: {s[i]} 0 <= i && i < len(s) && s[i] == x

// ---- math/big ----
extern func (*math/big.Rat).SetString(z, s) (r, ok)
  requires z != nil
  modifies z.val
  ensures ok <==> numOK(s)
  ensures ok ==> r == z && z.val == numVal(s)
  ensures !ok ==> r == nil
  noalloc
extern func (*math/big.Rat).IsInt(x) (r)
  requires x != nil
  ensures r <==> isint(x.val)
  noalloc
extern func (*math/big.Rat).Cmp(x, y) (r)
  requires x != nil && y != nil
  ensures (x.val < y.val ==> r == -1) && (x.val == y.val ==> r == 0) && (x.val > y.val ==> r == 1)
  noalloc
extern func (*math/big.Rat).Quo(z, x, y) (r)
  requires z != nil && x != nil && y != nil
  requires y.val != 0
  modifies z.val
  ensures r == z && z.val == old(x.val) / old(y.val)
  noalloc
extern func math/big.NewRat(a, b) (r)
  requires b != 0
  ensures r != nil && fresh(r)
  ensures b == 1 ==> r.val == a
extern func (*math/big.Float).SetRat(z, x) (r)
  requires z != nil && x != nil
  ensures r == z && flotVal(box(r)) == x.val
  noalloc
