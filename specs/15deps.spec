// ---- dependencies of the validation code ----
ghost func runeCount(s string) int
ghost func kindV(v Opq) int
ghost func itoa(i int) string
extern func reflect.ValueOf(x) (r)
  ensures kindV(r) == kind(x)
  noalloc
extern func (reflect.Value).Kind(v) (r)
  ensures r == kindV(v)
  noalloc
extern func strconv.Itoa(i) (r)
  ensures r == itoa(i)
  noalloc
extern func unicode/utf8.RuneCount(b) (r)
  ensures r == runeCount(str(b))
  ensures r >= 0
  noalloc
extern func unicode/utf8.RuneCountInString(b) (r)
  ensures r == runeCount(b)
  ensures r >= 0
  noalloc
extern func regexp.MatchString(p, s) (r, err)
  ensures rxOK(p) ==> err == nil && (r <==> rxMatch(p, s))
  ensures !rxOK(p) ==> err != nil && !r
extern func (*regexp.Regexp).MatchString(re, s) (r)
  requires re != nil
  ensures r <==> rxMatch(re.src, s)
  noalloc
extern func regexp.Compile(p) (re, err)
  ensures rxOK(p) <==> err == nil
  ensures err == nil ==> re != nil && fresh(re) && re.src == p
extern func strings.Join(a, sep) (r)
  ensures r == joined(row(a), len(a), sep)
  noalloc
iface FormatChecker.IsFormat(c, n) (r)
  requires [C21 no-checker-runs-under-the-lock] lock.st == 0
  ensures r <==> fmtAccepts(c, n)

func isKind(what, kinds) (r)
  props VERDICT C15
  ensures r <==> (exists i int :: {kinds[i]} 0 <= i && i < len(kinds) && kinds[i] == (if typeis(what, json.Number) then 25 else kind(what)))
  inv [xs over []reflect.Kind] forall k int :: {xs[k]} 0 <= k && k < it ==> xs[k] != (if typeis(what, json.Number) then 25 else kind(what))
