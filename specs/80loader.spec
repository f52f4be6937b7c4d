// ---- compiling and adding schemas (schemaLoader.go) ----
ghost func loaderURL(l any) string       // the reference a loader stands for
ghost func Fetched(u string, d any) bool // GetDocument delivered d for the reference u
ghost func FromURL(s *subSchema, u string) bool  // s was compiled from the document of u
ghost func MetaSat(u string, d any) bool // the schema compiled from u accepts d

func (*Schema).validateDocument(v, root) (r)
  props VERDICT
  requires v != nil && v.rootSchema != nil && WF(v.rootSchema) && JSON(root)
  ensures r != nil && fresh(r)
  ensures len(r.errors) == 0 <==> Sat(v.rootSchema, root)
  ensures [C11] forall i int :: {r.errors[i]} 0 <= i && i < len(r.errors) ==> tag(r.errors[i]) != 0
func (*Schema).Validate(v, l) (r, err)
  props VERDICT C20
  requires v != nil && v.rootSchema != nil && WF(v.rootSchema) && tag(l) != 0
  ensures err == nil <==> loadOK(l)
  ensures err == nil ==> r != nil && (len(r.errors) == 0 <==> Sat(v.rootSchema, loadVal(l)))

pred LoaderOK(sl *SchemaLoader) = sl != nil && PoolOK(sl.pool) && (sl.Draft == 4 || sl.Draft == 6 || sl.Draft == 7 || sl.Draft == 2147483647)
// Vetted(n, auto, draft): n was found to satisfy its meta-schema under these settings
ghost func Vetted(n any, auto bool, draft int) bool
axiom draft_urls: Norm("http://json-schema.org/draft-04/schema") == "http://json-schema.org/draft-04/schema" && Norm("http://json-schema.org/draft-06/schema") == "http://json-schema.org/draft-06/schema" && Norm("http://json-schema.org/draft-07/schema") == "http://json-schema.org/draft-07/schema"
fn SchemaNamed(sl *SchemaLoader, n any) string = if sl.AutoDetect then SchemaText(n) else ""
pred NoMeta(sl *SchemaLoader, n any) = SchemaNamed(sl, n) == "" && sl.Draft == 2147483647
fn MetaURL(sl *SchemaLoader, n any) string = if SchemaNamed(sl, n) != "" then SchemaNamed(sl, n) else DraftURL(sl.Draft)
pred Checked(sl *SchemaLoader, n any) = (sl.AutoDetect ==> SchemaTextOK(n)) && (NoMeta(sl, n) || MetaSat(Norm(MetaURL(sl, n)), n))

func NewSchemaLoader() (r)
  props C16 C18 C19
  ensures r != nil && fresh(r) && LoaderOK(r) && r.AutoDetect && !r.Validate && r.Draft == 2147483647
  ensures fresh(r.pool) && fresh(r.pool.schemaPoolDocuments)
  ensures r.pool.autoDetect == &r.AutoDetect
  ensures forall k string :: {k in r.pool.schemaPoolDocuments} !(k in r.pool.schemaPoolDocuments)

func (*SchemaLoader).validateMetaschema(sl, n) (err)
  props C19
  requires LoaderOK(sl) && JSON(n) && sl.Validate
  modifies sl.Validate, sl.pool.jsonLoaderFactory, contents(sl.pool.schemaPoolDocuments), anymap(map[string]interface{})
  unfold forall s *subSchema, u string :: {FromURL(s, u), Sat(s, n)} FromURL(s, u) && Sat(s, n) ==> MetaSat(u, n)
  ensures [C14] LoaderOK(sl)
  ensures [C18] PoolGrows(sl.pool)
  ensures RefOnly()
  ensures sl.Validate
  ensures [C18] sl.pool.jsonLoaderFactory == old(sl.pool.jsonLoaderFactory)
  ensures err == nil ==> old(Checked(sl, n))
  use old(Checked(sl, n)) ==> Vetted(n, sl.AutoDetect, sl.Draft)
  ensures err == nil ==> Vetted(n, sl.AutoDetect, sl.Draft)

func (*SchemaLoader).AddSchema(sl, url, loader) (err)
  props C19
  requires LoaderOK(sl) && tag(loader) != 0
  modifies sl.Validate, sl.pool.jsonLoaderFactory, contents(sl.pool.schemaPoolDocuments), anymap(map[string]interface{})
  ensures [C14] LoaderOK(sl)
  ensures [C18] PoolGrows(sl.pool)
  ensures sl.Validate == old(sl.Validate)
  ensures [C18] sl.pool.jsonLoaderFactory == old(sl.pool.jsonLoaderFactory)
  ensures err == nil && sl.Validate ==> Vetted(loadVal(loader), sl.AutoDetect, sl.Draft)
  ensures [C20 C18] err == nil ==> urlOK(url) && loadOK(loader)
  ensures [C18] err == nil ==> !old(Norm(url) in sl.pool.schemaPoolDocuments) && Norm(url) in sl.pool.schemaPoolDocuments && PoolDoc(sl.pool, Norm(url)).Document == loadVal(loader)
  ensures [C17] err == nil ==> Done(loadVal(loader), urlBase(url))

func (*SchemaLoader).AddSchemas(sl, loaders) (err)
  props C19
  requires LoaderOK(sl) && (forall i int :: {loaders[i]} 0 <= i && i < len(loaders) ==> tag(loaders[i]) != 0)
  modifies sl.Validate, sl.pool.jsonLoaderFactory, contents(sl.pool.schemaPoolDocuments), anymap(map[string]interface{})
  ensures [C14] LoaderOK(sl)
  ensures [C18] PoolGrows(sl.pool)
  ensures sl.Validate == old(sl.Validate)
  ensures [C18] sl.pool.jsonLoaderFactory == old(sl.pool.jsonLoaderFactory)
  ensures err == nil && sl.Validate ==> (forall i int :: {loaders[i]} 0 <= i && i < len(loaders) ==> Vetted(loadVal(loaders[i]), sl.AutoDetect, sl.Draft))
  ensures [C20 C18] err == nil ==> (forall i int :: {loaders[i]} 0 <= i && i < len(loaders) ==> loadOK(loaders[i]))
  ensures [C17] err == nil ==> (forall i int :: {loaders[i]} 0 <= i && i < len(loaders) ==> Done(loadVal(loaders[i]), urlBase("")))
  inv LoaderOK(sl)
  inv PoolGrows(sl.pool)
  inv RefOnly()
  inv sl.Validate == old(sl.Validate)
  inv sl.pool.jsonLoaderFactory == old(sl.pool.jsonLoaderFactory)
  inv [xs over []JSONLoader] sl.Validate ==> (forall k int :: {xs[k]} 0 <= k && k < it ==> Vetted(loadVal(xs[k]), sl.AutoDetect, sl.Draft))
  inv [xs over []JSONLoader] forall k int :: {xs[k]} 0 <= k && k < it ==> loadOK(xs[k]) && Done(loadVal(xs[k]), urlBase(""))

fn DraftChosen(sl *SchemaLoader, n any) int = if sl.AutoDetect && BuiltIn(SchemaText(n)) then DraftNamed(SchemaText(n)) else sl.Draft
func (*SchemaLoader).Compile(sl, l) (r, err)
  props C19
  requires LoaderOK(sl) && tag(l) != 0
  modifies sl.Validate, sl.pool.jsonLoaderFactory, contents(sl.pool.schemaPoolDocuments), anymap(map[string]interface{})
  ensures [C14] LoaderOK(sl)
  ensures [C18] PoolGrows(sl.pool)
  ensures RefOnly()
  ensures sl.Validate == old(sl.Validate)
  ensures [C14] err == nil ==> r != nil && r.rootSchema != nil && WF(r.rootSchema)
  ensures [C18] err == nil ==> sl.pool.jsonLoaderFactory == facOf(l)
  ensures err == nil && sl.Validate ==> Vetted(r.rootSchema.src, sl.AutoDetect, sl.Draft)
  ensures [C17 C18] err == nil ==> if Norm(loaderURL(l)) == "" then loadOK(l) && r.rootSchema.src == loadVal(l) else Fetched(Norm(loaderURL(l)), r.rootSchema.src)
  ensures [C16] err == nil ==> r.rootSchema.draft != nil && *r.rootSchema.draft == DraftChosen(sl, r.rootSchema.src)
  use Norm(loaderURL(l)) != "" && Fetched(Norm(loaderURL(l)), r.rootSchema.src) ==> FromURL(r.rootSchema, Norm(loaderURL(l)))
  ensures [C19] err == nil && Norm(loaderURL(l)) != "" ==> FromURL(r.rootSchema, Norm(loaderURL(l)))

func NewSchema(l) (r, err)
  props C16 C18
  requires tag(l) != 0
  modifies anymap(map[string]interface{})
  ensures [C14] err == nil ==> r != nil && r.rootSchema != nil && WF(r.rootSchema)
  ensures err == nil ==> if Norm(loaderURL(l)) == "" then loadOK(l) && r.rootSchema.src == loadVal(l) else Fetched(Norm(loaderURL(l)), r.rootSchema.src)
  ensures [C16] err == nil ==> r.rootSchema.draft != nil && *r.rootSchema.draft == (if BuiltIn(SchemaText(r.rootSchema.src)) then DraftNamed(SchemaText(r.rootSchema.src)) else 2147483647)
func Validate(ls, ld) (r, err)
  props VERDICT
  requires tag(ls) != 0 && tag(ld) != 0
  modifies anymap(map[string]interface{})
  ensures err == nil ==> r != nil && loadOK(ld)
