// ---- the registry of format checkers ----
guard [C21] map[string]FormatChecker : lock.st != 0 : lock.st == 2

func (*FormatCheckerChain).Add(c, name, f) (r)
  props C08
  requires c != nil && c.formatters != nil && tag(f) != 0
  modifies contents(c.formatters), lock.st
  ensures r == c
  ensures name in c.formatters && c.formatters[name] == f
  ensures forall k string :: {k in c.formatters} k != name ==> ((k in c.formatters) <==> old(k in c.formatters)) && c.formatters[k] == old(c.formatters[k])

func (*FormatCheckerChain).Remove(c, name) (r)
  props C08
  requires c != nil && c.formatters != nil
  modifies contents(c.formatters), lock.st
  ensures r == c
  ensures !(name in c.formatters)
  ensures forall k string :: {k in c.formatters} k != name ==> ((k in c.formatters) <==> old(k in c.formatters)) && c.formatters[k] == old(c.formatters[k])

func (*FormatCheckerChain).Has(c, name) (r)
  props C08
  requires c != nil && c.formatters != nil
  modifies lock.st
  ensures r <==> name in c.formatters

func (*FormatCheckerChain).IsFormat(c, name, input) (r)
  props C08
  requires c != nil && c.formatters != nil
  requires name in c.formatters ==> tag(c.formatters[name]) != 0
  modifies lock.st
  ensures r <==> !(name in c.formatters) || fmtAccepts(c.formatters[name], input)

// ---- built-in checkers ----
ghost func emailOK(s string) bool      // net/mail.ParseAddress accepts
ghost func ipOK(s string) bool         // net.ParseIP accepts
ghost func timeOK(layout string, s string) bool
ghost func urlOK(s string) bool
ghost func urlScheme(s string) string
ghost func urlPath(s string) string
ghost func hasSub(s string, t string) bool
ghost field net/url.URL.text string
extern func net/mail.ParseAddress(s) (a, err)
  ensures err == nil <==> emailOK(s)
extern func net.ParseIP(s) (ip)
  ensures len(ip) > 0 <==> ipOK(s)
  ensures ip == nil <==> !ipOK(s)
extern func strings.Contains(s, t) (r)
  ensures r <==> hasSub(s, t)
  noalloc
extern func strings.ContainsAny(s, t) (r)
  noalloc
extern func time.Parse(layout, s) (t, err)
  ensures err == nil <==> timeOK(layout, s)
extern func net/url.Parse(s) (u, err)
  ensures err == nil <==> urlOK(s)
  ensures err == nil ==> u != nil && fresh(u) && u.Scheme == urlScheme(s) && u.Path == urlPath(s)
axiom rfc3339_nano: forall s string :: {timeOK("2006-01-02T15:04:05.999999999Z07:00", s)} timeOK("2006-01-02T15:04:05.999999999Z07:00", s) <==> timeOK("2006-01-02T15:04:05Z07:00", s)

func (EmailFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> emailOK(as(input, string)))
func (IPV4FormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> ipOK(as(input, string)) && hasSub(as(input, string), "."))
func (IPV6FormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> ipOK(as(input, string)) && hasSub(as(input, string), ":"))
pred DTime(s string) = timeOK("15:04:05", s) || timeOK("15:04:05Z07:00", s) || timeOK("2006-01-02", s) || timeOK("2006-01-02T15:04:05Z07:00", s)
func (DateTimeFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> DTime(as(input, string)))
  inv [xs over []string] forall k int :: {xs[k]} 0 <= k && k < it ==> !timeOK(xs[k], as(input, string))
func (DateFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> timeOK("2006-01-02", as(input, string)))
func (TimeFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> timeOK("15:04:05", as(input, string)) || timeOK("15:04:05Z07:00", as(input, string)))
  inv [xs over []string] forall k int :: {xs[k]} 0 <= k && k < it ==> !timeOK(xs[k], as(input, string))
func (URIFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> urlOK(as(input, string)) && urlScheme(as(input, string)) != "" && !hasSub(as(input, string), "\\"))
func (URIReferenceFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> urlOK(as(input, string)) && !hasSub(as(input, string), "\\"))
func (URITemplateFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> urlOK(as(input, string)) && !hasSub(as(input, string), "\\") && rxMatch("^([^{]*({[^}]*})?)*$", urlPath(as(input, string))))
func (HostnameFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> rxMatch("^([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\\-]{0,61}[a-zA-Z0-9])(\\.([a-zA-Z0-9]|[a-zA-Z0-9][a-zA-Z0-9\\-]{0,61}[a-zA-Z0-9]))*$", as(input, string)) && len(as(input, string)) < 256)
func (UUIDFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> rxMatch("^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$", as(input, string)))
func (RegexFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> rxOK(as(input, string)))
func (JSONPointerFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> rxMatch("^(/([^~/]|~[01])*)*$", as(input, string)))
func (RelativeJSONPointerFormatChecker).IsFormat(f, input) (r)
  props C08 C09
  ensures r <==> (typeis(input, string) ==> rxMatch("^(0|[1-9][0-9]*)(#|(/([^~/]|~[01])*)*)$", as(input, string)))

extern func regexp.MustCompile(p) (re)
  requires [C14 C09] rxOK(p)
  ensures re != nil && fresh(re) && re.src == p

func init()
  entry
  ensures [C08 C09 builtin-date] "date" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["date"], DateFormatChecker)
  ensures [C08 C09 builtin-time] "time" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["time"], TimeFormatChecker)
  ensures [C08 C09 builtin-date-time] "date-time" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["date-time"], DateTimeFormatChecker)
  ensures [C08 C09 builtin-hostname] "hostname" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["hostname"], HostnameFormatChecker)
  ensures [C08 C09 builtin-email] "email" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["email"], EmailFormatChecker)
  ensures [C08 C09 builtin-idn-email] "idn-email" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["idn-email"], EmailFormatChecker)
  ensures [C08 C09 builtin-ipv4] "ipv4" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["ipv4"], IPV4FormatChecker)
  ensures [C08 C09 builtin-ipv6] "ipv6" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["ipv6"], IPV6FormatChecker)
  ensures [C08 C09 builtin-uri] "uri" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["uri"], URIFormatChecker)
  ensures [C08 C09 builtin-uri-reference] "uri-reference" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["uri-reference"], URIReferenceFormatChecker)
  ensures [C08 C09 builtin-iri] "iri" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["iri"], URIFormatChecker)
  ensures [C08 C09 builtin-iri-reference] "iri-reference" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["iri-reference"], URIReferenceFormatChecker)
  ensures [C08 C09 builtin-uri-template] "uri-template" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["uri-template"], URITemplateFormatChecker)
  ensures [C08 C09 builtin-uuid] "uuid" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["uuid"], UUIDFormatChecker)
  ensures [C08 C09 builtin-regex] "regex" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["regex"], RegexFormatChecker)
  ensures [C08 C09 builtin-json-pointer] "json-pointer" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["json-pointer"], JSONPointerFormatChecker)
  ensures [C08 C09 builtin-relative-json-pointer] "relative-json-pointer" in FormatCheckers.formatters && typeis(FormatCheckers.formatters["relative-json-pointer"], RelativeJSONPointerFormatChecker)
