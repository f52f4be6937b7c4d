// ---- contexts ----
ghost field JsonContext.path Opq
ghost func pnil() Opq
ghost func pcons(head string, tail Opq) Opq
ghost func rend(p Opq, del string) string
fn CtxPath(c *JsonContext) Opq = if c == nil then pnil() else c.path
// paths are finite sequences of names
axiom rend_one: forall h string, d string :: {rend(pcons(h, pnil()), d)} rend(pcons(h, pnil()), d) == h
axiom rend_cons: forall h string, p Opq, d string :: {rend(pcons(h, p), d)} p != pnil() ==> rend(pcons(h, p), d) == rend(p, d) + d + h
axiom cons_notnil: forall h string, p Opq :: {pcons(h, p)} pcons(h, p) != pnil()
pred CtxInv(c *JsonContext) = c.path == pcons(c.head, CtxPath(c.tail)) && c.path != pnil() && (c.tail == nil || CtxOK(c.tail) && c.tail.path != pnil())
ghost func CtxOK(c *JsonContext) bool

func NewJsonContext(head, tail) (r)
  props C12 C11
  requires tail == nil || CtxOK(tail)
  unfold tail != nil && CtxOK(tail) ==> CtxInv(tail)
  ensures r != nil && fresh(r) && r.head == head && r.tail == tail
  ensures r.path == pcons(head, CtxPath(tail))
  ensures CtxOK(r)
  use r.path == pcons(r.head, CtxPath(r.tail))
  use CtxInv(r) ==> CtxOK(r)

ghost field bytes.Buffer.txt string
extern func bytes.NewBuffer(b) (r)
  ensures r != nil && fresh(r)
  ensures len(b) == 0 ==> r.txt == ""
extern func (*bytes.Buffer).WriteString(b, s) (n, err)
  requires b != nil
  modifies b.txt
  ensures b.txt == old(b.txt) + s
extern func (*bytes.Buffer).String(b) (r)
  requires b != nil
  ensures r == b.txt
  noalloc
extern func (*bytes.Buffer).WriteByte(b, c) (err)
  requires b != nil
  modifies b.txt

fn Delim(d []string) string = if len(d) > 0 then d[0] else "."

func (*JsonContext).stringLen(c) (r)
  props C12
  requires c != nil
  ensures r >= 0

func (*JsonContext).writeStringToBuffer(c, buf, del)
  props C12
  requires c != nil && buf != nil
  requires CtxOK(c)
  unfold CtxOK(c) ==> CtxInv(c)
  modifies buf.txt
  ensures buf.txt == old(buf.txt) + rend(c.path, Delim(del))

func (*JsonContext).String(c, del) (r)
  props C12 C11
  requires c != nil && CtxOK(c)
  ensures r == rend(c.path, Delim(del))

// ---- errors ----
fn RE(e any) *ResultErrorFields = as(e, *ResultErrorFields)

func (*ResultErrorFields).SetType(v, x)
  props C11
  requires v != nil
  modifies v.errorType
  ensures v.errorType == x
func (*ResultErrorFields).Type(v) (r)
  props C11
  requires v != nil
  ensures r == v.errorType
func (*ResultErrorFields).SetContext(v, x)
  props C11 C12
  requires v != nil
  modifies v.context
  ensures v.context == x
func (*ResultErrorFields).Context(v) (r)
  props C11 C12
  requires v != nil
  ensures r == v.context
func (*ResultErrorFields).SetDescription(v, x)
  props C11
  requires v != nil
  modifies v.description
  ensures v.description == x
func (*ResultErrorFields).Description(v) (r)
  props C11
  requires v != nil
  ensures r == v.description
func (*ResultErrorFields).SetDescriptionFormat(v, x)
  props C11
  requires v != nil
  modifies v.descriptionFormat
  ensures v.descriptionFormat == x
func (*ResultErrorFields).DescriptionFormat(v) (r)
  props C11
  requires v != nil
  ensures r == v.descriptionFormat
func (*ResultErrorFields).SetValue(v, x)
  props C11
  requires v != nil
  modifies v.value
  ensures v.value == x
func (*ResultErrorFields).Value(v) (r)
  props C11
  requires v != nil
  ensures r == v.value
func (*ResultErrorFields).SetDetails(v, x)
  props C11
  requires v != nil
  modifies v.details
  ensures v.details == x
func (*ResultErrorFields).Details(v) (r)
  props C11
  requires v != nil
  ensures r == v.details
ghost func trimPrefix(s string, p string) string
extern func strings.TrimPrefix(s, p) (r)
  ensures r == trimPrefix(s, p)
  noalloc
func (*ResultErrorFields).Field(v) (r)
  props C11 C12
  requires v != nil && v.context != nil && CtxOK(v.context)
  ensures r == trimPrefix(rend(v.context.path, "."), "(root).")

// The interface is implemented by embedding ResultErrorFields as the first field
iface ResultError.SetType(e, x)
  modifies RE(e).errorType
  ensures RE(e).errorType == x
  noalloc
iface ResultError.Type(e) (r)
  ensures r == RE(e).errorType
  noalloc
iface ResultError.SetContext(e, x)
  modifies RE(e).context
  ensures RE(e).context == x
  noalloc
iface ResultError.Context(e) (r)
  ensures r == RE(e).context
  noalloc
iface ResultError.SetDescription(e, x)
  modifies RE(e).description
  ensures RE(e).description == x
  noalloc
iface ResultError.Description(e) (r)
  ensures r == RE(e).description
  noalloc
iface ResultError.SetDescriptionFormat(e, x)
  modifies RE(e).descriptionFormat
  ensures RE(e).descriptionFormat == x
  noalloc
iface ResultError.DescriptionFormat(e) (r)
  ensures r == RE(e).descriptionFormat
  noalloc
iface ResultError.SetValue(e, x)
  modifies RE(e).value
  ensures RE(e).value == x
  noalloc
iface ResultError.Value(e) (r)
  ensures r == RE(e).value
  noalloc
iface ResultError.SetDetails(e, x)
  modifies RE(e).details
  ensures RE(e).details == x
  noalloc
iface ResultError.Details(e) (r)
  ensures r == RE(e).details
  noalloc
iface ResultError.Field(e) (r)
  requires RE(e).context != nil && CtxOK(RE(e).context)
  ensures r == trimPrefix(rend(RE(e).context.path, "."), "(root).")
  noalloc

// ---- templates ----
ghost field text/template.Template.src string
ghost field sync.RWMutex.st int zero
ghost func rendT(src string, d set[string], v smap[any]) string
ghost func perrText(src string) string
ghost func errorString(e any) string
extern func text/template.New(name) (r)
  ensures r != nil && fresh(r)
extern func (*text/template.Template).Lookup(t, name) (r)
  requires [C21 template-cache-read-locked] (&errorTemplates.RWMutex).st != 0
  requires t != nil
  ensures r != nil ==> r.src == name
  noalloc
extern func (*text/template.Template).New(t, name) (r)
  requires [C21 template-cache-write-locked] (&errorTemplates.RWMutex).st == 2
  requires t != nil
  ensures r != nil && fresh(r)
extern func (*text/template.Template).Funcs(t, m) (r)
  requires [C21 template-cache-write-locked] (&errorTemplates.RWMutex).st == 2
  requires t != nil
  ensures r == t
extern func (*text/template.Template).Parse(t, text) (r, err)
  requires [C21 template-cache-write-locked] (&errorTemplates.RWMutex).st == 2
  requires t != nil
  modifies t.src
  ensures err == nil ==> r == t && t.src == text
  ensures err != nil ==> forall d set[string], v smap[any] :: {rendT(text, d, v)} rendT(text, d, v) == errorString(err)
extern func (*text/template.Template).Execute(t, wr, data) (err)
  requires [C21 no-template-runs-under-the-lock] (&errorTemplates.RWMutex).st == 0
  requires t != nil
  requires typeis(data, ErrorDetails)
  modifies as(wr, *bytes.Buffer).txt
  ensures err == nil ==> as(wr, *bytes.Buffer).txt == old(as(wr, *bytes.Buffer).txt) + rendT(t.src, dom(as(data, ErrorDetails)), vals(as(data, ErrorDetails)))
  ensures err != nil ==> errorString(err) == rendT(t.src, dom(as(data, ErrorDetails)), vals(as(data, ErrorDetails)))
iface error.Error(e) (r)
  ensures r == errorString(e)
  noalloc

extern func (*sync.RWMutex).RLock(m)
  requires [C21 not-already-locked] m.st == 0
  modifies m.st
  ensures m.st == 1
  noalloc
extern func (*sync.RWMutex).RUnlock(m)
  requires [C21 read-locked] m.st == 1
  modifies m.st
  ensures m.st == 0
  noalloc
extern func (*sync.RWMutex).Lock(m)
  requires [C21 not-already-locked] m.st == 0
  modifies m.st
  ensures m.st == 2
  noalloc
extern func (*sync.RWMutex).Unlock(m)
  requires [C21 write-locked] m.st == 2
  modifies m.st
  ensures m.st == 0
  noalloc

sysinv [C21] locks_free: (&errorTemplates.RWMutex).st == 0 && lock.st == 0

globalinv [C11 C21] template_cache: errorTemplates.Template != nil
globalinv [C21] registry_lock: lock != nil && live(lock) && lock != &errorTemplates.RWMutex

globalinv [C14] locale_set: tag(Locale) != 0
sysinv [C14 C08] checkers_set: FormatCheckers.formatters != nil && (forall k string :: {k in FormatCheckers.formatters} {FormatCheckers.formatters[k]} k in FormatCheckers.formatters ==> tag(FormatCheckers.formatters[k]) != 0)

func formatErrorDescription(s, details) (r)
  props C11
  ensures r == rendT(s, dom(details), vals(details))


func newError(err, context, value, locale, details)
  props C11
  requires tag(err) != 0 && RE(err) != nil
  requires context != nil && CtxOK(context)
  requires details != nil && tag(locale) != 0
  modifies RE(err).all, contents(details)
  ensures RE(err).errorType == Code(err)
  ensures Known(err) ==> RE(err).descriptionFormat == locT(locale, Code(err))
  ensures [C12] RE(err).context == context
  ensures RE(err).value == value
  ensures RE(err).details == details
  ensures RE(err).description == rendT(RE(err).descriptionFormat, dom(details), vals(details))
  ensures "field" in details && details["field"] == box(trimPrefix(rend(context.path, "."), "(root)."))
  ensures "context" in details
  ensures !old("context" in details) ==> details["context"] == box(rend(context.path, "."))
  ensures forall k string :: {k in details} k != "field" && k != "context" ==> ((k in details) <==> old(k in details)) && details[k] == old(details[k])
