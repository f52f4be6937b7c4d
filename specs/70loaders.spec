// ---- loaders (jsonLoader.go) ----
// The text of a source, and the value it denotes with numbers kept as written.
ghost func srcOK(s string) bool          // the text starts with a JSON value
ghost func srcVal(s string) any          // that value, numbers as json.Number
ghost func srcVal64(s string) any        // that value, numbers as float64
ghost field encoding/json.Decoder.rd any
ghost field encoding/json.Decoder.exact int zero
fn Rd(r any) *bytes.Buffer = as(r, *bytes.Buffer)     // the text still to be read lies with the reader, whatever its type
fn RdText(r any) string = Rd(r).txt
pred Readable(r any) = (typeis(r, *strings.Reader) && as(r, *strings.Reader) != nil) || (typeis(r, *bytes.Reader) && as(r, *bytes.Reader) != nil) || (typeis(r, *bytes.Buffer) && as(r, *bytes.Buffer) != nil)
extern func strings.NewReader(s) (r)
  ensures r != nil && fresh(r) && RdText(box(r)) == s
extern func bytes.NewReader(b) (r)
  ensures r != nil && fresh(r) && RdText(box(r)) == str(b)
extern func encoding/json.NewDecoder(r) (d)
  ensures d != nil && fresh(d) && d.rd == r && d.exact == 0
extern func (*encoding/json.Decoder).UseNumber(d)
  requires d != nil
  modifies d.exact
  ensures d.exact == 1
  noalloc
extern func (*encoding/json.Decoder).Decode(d, p) (err)
  requires d != nil && Readable(d.rd)
  requires typeis(p, *interface{}) && as(p, *interface{}) != nil
  modifies *as(p, *interface{}), Rd(d.rd).txt
  ensures err == nil <==> old(srcOK(RdText(d.rd)))
  ensures err == nil ==> *as(p, *interface{}) == (if d.exact == 1 then old(srcVal(RdText(d.rd))) else old(srcVal64(RdText(d.rd))))
  ensures err == nil && d.exact == 1 ==> JSON(*as(p, *interface{}))

func decodeJSONUsingNumber(r) (v, err)
  props C20
  requires Readable(r)
  modifies Rd(r).txt
  ensures err == nil <==> old(srcOK(RdText(r)))
  ensures err == nil ==> v == old(srcVal(RdText(r)))
  ensures err == nil ==> JSON(v)

func (*jsonStringLoader).LoadJSON(l) (v, err)
  props C20
  requires l != nil
  ensures err == nil <==> srcOK(l.source)
  ensures err == nil ==> v == srcVal(l.source) && JSON(v)
func (*jsonStringLoader).JsonSource(l) (v)
  props C20
  requires l != nil
  ensures typeis(v, string) && as(v, string) == l.source
func NewStringLoader(s) (r)
  props C20
  ensures typeis(r, *jsonStringLoader) && as(r, *jsonStringLoader) != nil && fresh(as(r, *jsonStringLoader)) && as(r, *jsonStringLoader).source == s
func (*jsonBytesLoader).LoadJSON(l) (v, err)
  props C20
  requires l != nil
  ensures err == nil <==> srcOK(str(l.source))
  ensures err == nil ==> v == srcVal(str(l.source)) && JSON(v)
func (*jsonBytesLoader).JsonSource(l) (v)
  props C20
  requires l != nil
  ensures typeis(v, []byte) && as(v, []byte) == l.source
func NewBytesLoader(s) (r)
  props C20
  ensures typeis(r, *jsonBytesLoader) && as(r, *jsonBytesLoader) != nil && fresh(as(r, *jsonBytesLoader)) && as(r, *jsonBytesLoader).source == s
func (*jsonGoLoader).LoadJSON(l) (v, err)
  props C20
  requires l != nil
  ensures err == nil <==> jsonOK(l.source) && srcOK(jsonText(l.source))
  ensures err == nil ==> v == srcVal(jsonText(l.source)) && JSON(v)
func (*jsonGoLoader).JsonSource(l) (v)
  props C20
  requires l != nil
  ensures v == l.source
func NewGoLoader(s) (r)
  props C20
  ensures typeis(r, *jsonGoLoader) && as(r, *jsonGoLoader) != nil && fresh(as(r, *jsonGoLoader)) && as(r, *jsonGoLoader).source == s
func (*jsonIOLoader).LoadJSON(l) (v, err)
  props C20
  requires l != nil && l.buf != nil
  modifies l.buf.txt
  ensures err == nil <==> old(srcOK(l.buf.txt))
  ensures err == nil ==> v == old(srcVal(l.buf.txt)) && JSON(v)
func (*jsonIOLoader).JsonSource(l) (v)
  props C20
  requires l != nil && l.buf != nil
  ensures typeis(v, string) && as(v, string) == l.buf.txt
// what is read from the returned reader (written to the returned writer) also goes to the loader's buffer
ghost func teeSrc(r any) any
ghost func teeDst(r any) any
ghost func fanA(w any) any
ghost func fanB(w any) any
extern func io.TeeReader(r, w) (t)
  ensures tag(t) != 0 && teeSrc(t) == r && teeDst(t) == w
extern func io.MultiWriter(w) (t)
  ensures tag(t) != 0
  ensures len(w) == 2 ==> fanA(t) == w[0] && fanB(t) == w[1]
func NewReaderLoader(source) (l, r)
  props C20
  ensures typeis(l, *jsonIOLoader) && as(l, *jsonIOLoader) != nil && fresh(as(l, *jsonIOLoader)) && as(l, *jsonIOLoader).buf != nil && fresh(as(l, *jsonIOLoader).buf)
  ensures teeSrc(r) == source && typeis(teeDst(r), *bytes.Buffer) && as(teeDst(r), *bytes.Buffer) == as(l, *jsonIOLoader).buf
func NewWriterLoader(source) (l, w)
  props C20
  ensures typeis(l, *jsonIOLoader) && as(l, *jsonIOLoader) != nil && fresh(as(l, *jsonIOLoader)) && as(l, *jsonIOLoader).buf != nil && fresh(as(l, *jsonIOLoader).buf)
  ensures fanA(w) == source && typeis(fanB(w), *bytes.Buffer) && as(fanB(w), *bytes.Buffer) == as(l, *jsonIOLoader).buf
func (*jsonRawLoader).LoadJSON(l) (v, err)
  props C20
  requires l != nil
  ensures err == nil && v == l.source
func (*jsonRawLoader).JsonSource(l) (v)
  props C20
  requires l != nil
  ensures v == l.source
func NewRawLoader(s) (r)
  props C20
  ensures typeis(r, *jsonRawLoader) && as(r, *jsonRawLoader) != nil && fresh(as(r, *jsonRawLoader)) && as(r, *jsonRawLoader).source == s

// ---- references to files and URLs ----
ghost func fsHas(fs any, name string) bool
ghost func content(f any) string         // what reading an opened file or body to its end gives
ghost func readable(f any) bool
ghost func fsText(fs any, name string) string
ghost func netOK(u string) bool          // the GET request was answered
ghost func netStatus(u string) int
ghost func netText(u string) string
ghost func netFull(u string) bool        // the whole body could be read
ghost func fsFull(fs any, name string) bool
ghost func unesc(s string) string
ghost func unescOK(s string) bool
iface http.FileSystem.Open(fs, name) (f, err)
  ensures err == nil <==> fsHas(fs, name)
  ensures err == nil ==> tag(f) != 0 && content(f) == fsText(fs, name) && (readable(f) <==> fsFull(fs, name))
iface http.File.Close(f) (err)
extern func io/ioutil.ReadAll(r) (b, err)
  requires tag(r) != 0
  ensures err == nil <==> readable(r)
  ensures err == nil ==> str(b) == content(r)
iface io.ReadCloser.Close(f) (err)
iface io.Closer.Close(f) (err)
extern func net/http.Get(u) (r, err)
  ensures err == nil <==> netOK(u)
  ensures err == nil ==> r != nil && fresh(r) && tag(r.Body) != 0 && r.StatusCode == netStatus(u) && content(r.Body) == netText(u) && (readable(r.Body) <==> netFull(u))
extern func net/url.QueryUnescape(s) (r, err)
  ensures err == nil <==> unescOK(s)
  ensures err == nil ==> r == unesc(s)

func (*jsonReferenceLoader).loadFromFile(l, path) (v, err)
  props C20
  requires l != nil && tag(l.fs) != 0
  ensures err == nil <==> fsHas(l.fs, path) && fsFull(l.fs, path) && srcOK(fsText(l.fs, path))
  ensures err == nil ==> v == srcVal(fsText(l.fs, path)) && JSON(v)

// the built-in meta-schemas
pred DraftsOK() = len(drafts) == 3 && drafts[0].Version == 4 && drafts[1].Version == 6 && drafts[2].Version == 7
  && drafts[0].MetaSchemaURL == "http://json-schema.org/draft-04/schema" && drafts[1].MetaSchemaURL == "http://json-schema.org/draft-06/schema" && drafts[2].MetaSchemaURL == "http://json-schema.org/draft-07/schema"
  && drafts[0].MetaSchema != "" && drafts[1].MetaSchema != "" && drafts[2].MetaSchema != ""
globalinv [C16 C19 C20] drafts_set: DraftsOK()
fn DraftURL(d int) string = if d == 4 then "http://json-schema.org/draft-04/schema" else if d == 6 then "http://json-schema.org/draft-06/schema" else if d == 7 then "http://json-schema.org/draft-07/schema" else ""
pred BuiltIn(u string) = u == DraftURL(4) || u == DraftURL(6) || u == DraftURL(7)
fn MetaText(u string) string = if u == DraftURL(4) then drafts[0].MetaSchema else if u == DraftURL(6) then drafts[1].MetaSchema else if u == DraftURL(7) then drafts[2].MetaSchema else ""
fn DraftNamed(u string) int = if u == DraftURL(4) then 4 else if u == DraftURL(6) then 6 else if u == DraftURL(7) then 7 else 0

func (draftConfigs).GetMetaSchema(dc, url) (r)
  props C16 C19 C20
  requires dc == drafts
  ensures r == MetaText(url)
  inv forall k int :: {dc[k]} 0 <= k && k < it ==> dc[k].MetaSchemaURL != url
func (draftConfigs).GetDraftVersion(dc, url) (r)
  props C16
  requires dc == drafts
  ensures r != nil <==> BuiltIn(url)
  ensures r != nil ==> fresh(r) && *r == DraftNamed(url)
  inv forall k int :: {dc[k]} 0 <= k && k < it ==> dc[k].MetaSchemaURL != url
func (draftConfigs).GetSchemaURL(dc, draft) (r)
  props C16 C19
  requires dc == drafts
  ensures r == DraftURL(draft)
  inv forall k int :: {dc[k]} 0 <= k && k < it ==> dc[k].Version != draft

func (*jsonReferenceLoader).loadFromHTTP(l, address) (v, err)
  props C20
  requires l != nil
  ensures BuiltIn(address) && srcOK(MetaText(address)) ==> err == nil && v == srcVal(MetaText(address))
  ensures !BuiltIn(address) ==> (err == nil <==> netOK(address) && netStatus(address) == 200 && netFull(address) && srcOK(netText(address)))
  ensures !BuiltIn(address) && err == nil ==> v == srcVal(netText(address))
  ensures err == nil ==> JSON(v)
fn FileName(s string) string = trimPrefix(refText(urlBase(s), ""), "file://")
func (*jsonReferenceLoader).LoadJSON(l) (v, err)
  props C20
  requires l != nil && tag(l.fs) != 0
  ensures !urlOK(l.source) ==> err != nil
  ensures urlOK(l.source) && urlIsFile(l.source) ==> (err == nil <==> unescOK(FileName(l.source)) && fsHas(l.fs, unesc(FileName(l.source))) && fsFull(l.fs, unesc(FileName(l.source))) && srcOK(fsText(l.fs, unesc(FileName(l.source)))))
  ensures urlOK(l.source) && urlIsFile(l.source) && err == nil ==> v == srcVal(fsText(l.fs, unesc(FileName(l.source))))
  ensures urlOK(l.source) && !urlIsFile(l.source) && BuiltIn(refText(urlBase(l.source), "")) && srcOK(MetaText(refText(urlBase(l.source), ""))) ==> err == nil && v == srcVal(MetaText(refText(urlBase(l.source), "")))
  ensures urlOK(l.source) && !urlIsFile(l.source) && !BuiltIn(refText(urlBase(l.source), "")) ==> (err == nil <==> netOK(refText(urlBase(l.source), "")) && netStatus(refText(urlBase(l.source), "")) == 200 && netFull(refText(urlBase(l.source), "")) && srcOK(netText(refText(urlBase(l.source), ""))))
  ensures urlOK(l.source) && !urlIsFile(l.source) && !BuiltIn(refText(urlBase(l.source), "")) && err == nil ==> v == srcVal(netText(refText(urlBase(l.source), "")))
  ensures err == nil ==> JSON(v)
func (*jsonReferenceLoader).JsonSource(l) (v)
  props C20
  requires l != nil
  ensures typeis(v, string) && as(v, string) == l.source
pred RefIs(r Opq, s string) = refURL(r) != nil && RefStr(r) == Norm(s) && ptrFrag(r) == urlFrag(s) && (refCanon(r) <==> urlCanon(s))
func (*jsonReferenceLoader).JsonReference(l) (r, err)
  props C17 C20
  requires l != nil
  ensures err == nil <==> urlOK(l.source)
  ensures err == nil ==> RefIs(r, l.source)
func (*jsonReferenceLoader).LoaderFactory(l) (f)
  props C18 C20
  requires l != nil
  ensures typeis(f, *FileSystemJSONLoaderFactory) && as(f, *FileSystemJSONLoaderFactory) != nil && as(f, *FileSystemJSONLoaderFactory).fs == l.fs
pred RefLoader(r any, fs any, s string) = typeis(r, *jsonReferenceLoader) && as(r, *jsonReferenceLoader) != nil && fresh(as(r, *jsonReferenceLoader)) && as(r, *jsonReferenceLoader).fs == fs && as(r, *jsonReferenceLoader).source == s
fn OsFS() any = box(osFS)
func NewReferenceLoader(s) (r)
  props C20
  ensures RefLoader(r, OsFS(), s)
  use loaderURL(r) == s
  ensures loaderURL(r) == s
func NewReferenceLoaderFileSystem(s, fs) (r)
  props C20
  ensures RefLoader(r, fs, s)
  use loaderURL(r) == s
  ensures loaderURL(r) == s
func (FileSystemJSONLoaderFactory).New(f, s) (r)
  props C18 C20
  ensures RefLoader(r, f.fs, s)
func (DefaultJSONLoaderFactory).New(f, s) (r)
  props C18 C20
  ensures RefLoader(r, OsFS(), s)
func (*jsonStringLoader).JsonReference(l) (r, err)
  props C17 C20
  requires l != nil
  ensures err == nil && RefIs(r, "#")
func (*jsonStringLoader).LoaderFactory(l) (f)
  props C18 C20
  requires l != nil
  ensures typeis(f, *DefaultJSONLoaderFactory) && as(f, *DefaultJSONLoaderFactory) != nil
func (*jsonBytesLoader).JsonReference(l) (r, err)
  props C17 C20
  requires l != nil
  ensures err == nil && RefIs(r, "#")
func (*jsonBytesLoader).LoaderFactory(l) (f)
  props C18 C20
  requires l != nil
  ensures typeis(f, *DefaultJSONLoaderFactory) && as(f, *DefaultJSONLoaderFactory) != nil
func (*jsonGoLoader).JsonReference(l) (r, err)
  props C17 C20
  requires l != nil
  ensures err == nil && RefIs(r, "#")
func (*jsonGoLoader).LoaderFactory(l) (f)
  props C18 C20
  requires l != nil
  ensures typeis(f, *DefaultJSONLoaderFactory) && as(f, *DefaultJSONLoaderFactory) != nil
func (*jsonIOLoader).JsonReference(l) (r, err)
  props C17 C20
  requires l != nil
  ensures err == nil && RefIs(r, "#")
func (*jsonIOLoader).LoaderFactory(l) (f)
  props C18 C20
  requires l != nil
  ensures typeis(f, *DefaultJSONLoaderFactory) && as(f, *DefaultJSONLoaderFactory) != nil
func (*jsonRawLoader).JsonReference(l) (r, err)
  props C17 C20
  requires l != nil
  ensures err == nil && RefIs(r, "#")
func (*jsonRawLoader).LoaderFactory(l) (f)
  props C18 C20
  requires l != nil
  ensures typeis(f, *DefaultJSONLoaderFactory) && as(f, *DefaultJSONLoaderFactory) != nil
