// ---- JSON references (github.com/xeipuuv/gojsonreference) ----
// A reference holds a URL; its text is that of the URL: everything before the fragment, and the fragment.
ghost func refURL(r Opq) *net/url.URL
ghost func refText(base string, frag string) string
ghost func urlBase(s string) string
ghost func urlFrag(s string) string
ghost func urlCanon(s string) bool           // absolute: scheme and host, or file scheme with an absolute path
ghost func urlIsFile(s string) bool
ghost func absText(s string) bool            // text of an absolute reference
ghost func inhOK(base string, child string) bool
ghost func resolved(base string, child string) string
ghost field net/url.URL.base string
axiom ref_again: forall s string :: {urlBase(s)} {urlFrag(s)} urlOK(s) ==> urlOK(refText(urlBase(s), urlFrag(s))) && urlBase(refText(urlBase(s), urlFrag(s))) == urlBase(s) && urlFrag(refText(urlBase(s), urlFrag(s))) == urlFrag(s)
axiom hash_ref: urlOK("#") && urlOK("") && refText(urlBase("#"), urlFrag("#")) == "" && refText(urlBase(""), urlFrag("")) == ""
fn Norm(s string) string = refText(urlBase(s), urlFrag(s))
fn URLText(u *net/url.URL) string = if u == nil then "" else refText(u.base, u.Fragment)
fn RefStr(v Opq) string = URLText(refURL(v))
extern func github.com/xeipuuv/gojsonreference.NewJsonReference(s) (r, err)
  ensures err == nil <==> urlOK(s)
  ensures err == nil ==> refURL(r) != nil && fresh(refURL(r)) && refURL(r).base == urlBase(s) && refURL(r).Fragment == urlFrag(s)
  ensures err == nil ==> ptrFrag(r) == urlFrag(s) && (refCanon(r) <==> urlCanon(s)) && (r.HasFileScheme <==> urlIsFile(s))
  ensures err != nil ==> refURL(r) == nil
extern func (*github.com/xeipuuv/gojsonreference.JsonReference).String(r) (s)
  requires r != nil
  ensures s == RefStr(*r)
  noalloc
extern func (*github.com/xeipuuv/gojsonreference.JsonReference).GetUrl(r) (u)
  requires r != nil
  ensures u == refURL(*r)
  noalloc
ghost func ptrFrag(r Opq) string        // the fragment a reference was parsed with
ghost func refCanon(r Opq) bool
extern func (*github.com/xeipuuv/gojsonreference.JsonReference).IsCanonical(r) (b)
  requires r != nil
  ensures b <==> refCanon(*r)
  ensures b ==> absText(RefStr(*r))
  noalloc
extern func (*github.com/xeipuuv/gojsonreference.JsonReference).Inherits(r, child) (p, err)
  requires r != nil
  ensures err == nil ==> p != nil && fresh(p) && refURL(*r) != nil && refURL(child) != nil
  ensures err == nil ==> refURL(*p) != nil && fresh(refURL(*p)) && refURL(*p).base == urlBase(resolved(refURL(*r).base, RefStr(child))) && refURL(*p).Fragment == urlFrag(resolved(refURL(*r).base, RefStr(child)))
  ensures err == nil ==> ptrFrag(*p) == urlFrag(resolved(refURL(*r).base, RefStr(child))) && (refCanon(*p) <==> urlCanon(resolved(refURL(*r).base, RefStr(child))))
  ensures err != nil ==> p == nil
  ensures err == nil ==> urlOK(resolved(refURL(*r).base, RefStr(child)))
  ensures err == nil <==> refURL(*r) != nil && refURL(child) != nil && inhOK(refURL(*r).base, RefStr(child))
// JSON pointers: what a pointer finds in a document
ghost func ptrOK(frag string, doc any) bool
ghost func ptrAt(frag string, doc any) any
ghost func ptrOf(p ref) string
extern func (*github.com/xeipuuv/gojsonreference.JsonReference).GetPointer(r) (p)
  requires r != nil
  ensures p != nil && ptrOf(p) == ptrFrag(*r)
  noalloc
extern func (*github.com/xeipuuv/gojsonpointer.JsonPointer).Get(p, doc) (v, k, err)
  requires p != nil
  ensures err == nil <==> ptrOK(ptrOf(p), doc)
  ensures err == nil ==> v == ptrAt(ptrOf(p), doc) && (JSON(doc) ==> JSON(v))

// ---- the pool of compiled references ----
pred RefsOK(p *schemaReferencePool) = p != nil && p.documents != nil && (forall k string :: {p.documents[k]} {k in p.documents} k in p.documents ==> p.documents[k] != nil && live(p.documents[k]) && RefFor(p.documents[k], k))
func newSchemaReferencePool() (r)
  props C17 C18
  ensures r != nil && fresh(r) && r.documents != nil && fresh(r.documents)
  ensures forall k string :: {k in r.documents} !(k in r.documents)
func (*schemaReferencePool).Get(p, ref) (r, o)
  props C17 C01
  requires p != nil
  ensures o <==> ref in p.documents
  ensures o ==> r == p.documents[ref]
  assumes o ==> WF(r)
  ensures !o ==> r == nil
func (*schemaReferencePool).Add(p, ref, sch)
  props C17 C18
  requires p != nil && p.documents != nil
  modifies contents(p.documents)
  use RefFor(sch, ref)
  ensures RefFor(sch, ref)
  ensures ref in p.documents
  ensures p.documents[ref] == (if old(ref in p.documents) then old(p.documents[ref]) else sch)
  ensures forall k string :: {k in p.documents} {p.documents[k]} k != ref ==> ((k in p.documents) <==> old(k in p.documents)) && p.documents[k] == old(p.documents[k])

// ---- the pool of documents ----
pred PoolOK(p *schemaPool) = p != nil && p.schemaPoolDocuments != nil && p.autoDetect != nil && (forall k string :: {p.schemaPoolDocuments[k]} {k in p.schemaPoolDocuments} k in p.schemaPoolDocuments ==> p.schemaPoolDocuments[k] != nil && JSON(p.schemaPoolDocuments[k].Document))
// the only change ever made to a document: a $ref text is replaced by the resolved one
pred RefOnly() = forall m map[string]interface{} :: {dom(m)} {vals(m)} {old(dom(m))} {old(vals(m))} wasalive(m) ==> dom(m) == old(dom(m))
     && (forall k string :: {m[k]} {old(m[k])} m[k] == old(m[k]) || (k == "$ref" && IsStr(m[k]) && IsStr(old(m[k])) && urlOK(as(m[k], string)) && urlOK(as(old(m[k]), string))))
     && (!("$ref" in m) ==> vals(m) == old(vals(m)))
// pooled documents stay where they are
pred PoolGrows(p *schemaPool) = forall k string :: {p.schemaPoolDocuments[k]} {k in p.schemaPoolDocuments} {old(p.schemaPoolDocuments[k])} old(k in p.schemaPoolDocuments) ==> k in p.schemaPoolDocuments && p.schemaPoolDocuments[k] == old(p.schemaPoolDocuments[k])

