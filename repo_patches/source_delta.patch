From ec987730a9c9cf937f4194924639ca42cf735a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:09 +0000
Subject: [PATCH 01/14] fix: reject a boolean definitions keyword instead of
 panicking

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 9e93cd7..5fd0091 100644
--- a/schema.go
+++ b/schema.go
@@ -152,7 +152,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 	// definitions
 	if existsMapKey(m, KEY_DEFINITIONS) {
-		if isKind(m[KEY_DEFINITIONS], reflect.Map, reflect.Bool) {
+		if isKind(m[KEY_DEFINITIONS], reflect.Map) {
 			for _, dv := range m[KEY_DEFINITIONS].(map[string]interface{}) {
 				if isKind(dv, reflect.Map, reflect.Bool) {
 
-- 
2.43.0


From bae4ad89a9ef78f9fa264fc5e93ed5a62129915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:09 +0000
Subject: [PATCH 02/14] fix: reject numbers in a type list instead of panicking

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 5fd0091..5d61a91 100644
--- a/schema.go
+++ b/schema.go
@@ -259,7 +259,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			if isKind(m[KEY_TYPE], reflect.Slice) {
 				arrayOfTypes := m[KEY_TYPE].([]interface{})
 				for _, typeInArray := range arrayOfTypes {
-					if reflect.ValueOf(typeInArray).Kind() != reflect.String {
+					if !isKind(typeInArray, reflect.String) {
 						return errors.New(formatErrorDescription(
 							Locale.InvalidType(),
 							ErrorDetails{
-- 
2.43.0


From 119b59d7f043b06a75bd461ab99bd22d113cce71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:09 +0000
Subject: [PATCH 03/14] fix: report values that cannot be compared instead of
 panicking

---
 validation.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/validation.go b/validation.go
index 9081bd9..50792b2 100644
--- a/validation.go
+++ b/validation.go
@@ -410,8 +410,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if *vString != *currentSubSchema._const {
+		} else if *vString != *currentSubSchema._const {
 			result.addInternalError(new(ConstError),
 				context,
 				value,
@@ -427,8 +426,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if !isStringInSlice(currentSubSchema.enum, *vString) {
+		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
 			result.addInternalError(
 				new(EnumError),
 				context,
@@ -532,7 +530,8 @@ func (v *subSchema) validateArray(currentSubSchema *subSchema, value []interface
 		for j, v := range value {
 			vString, err := marshalWithoutNumber(v)
 			if err != nil {
-				result.addInternalError(new(InternalError), context, value, ErrorDetails{"err": err})
+				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
+				continue
 			}
 			if i, ok := stringifiedItems[*vString]; ok {
 				result.addInternalError(
-- 
2.43.0


From 0dcfd8fb160c172ffd95123272d541ad3b4954dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:10 +0000
Subject: [PATCH 04/14] fix: do not parse a number to tell its kind, very large
 exponents made it panic

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index a17d22e..9fd05d7 100644
--- a/utils.go
+++ b/utils.go
@@ -35,7 +35,7 @@ func isKind(what interface{}, kinds ...reflect.Kind) bool {
 	target := what
 	if isJSONNumber(what) {
 		// JSON Numbers are strings!
-		target = *mustBeNumber(what)
+		target = big.Rat{}
 	}
 	targetKind := reflect.ValueOf(target).Kind()
 	for _, kind := range kinds {
-- 
2.43.0


From 8a23ad4b6620d3668434a15f24896e337ab49e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:45 +0000
Subject: [PATCH 05/14] fix: report numbers with an exponent out of range
 instead of panicking

---
 validation.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/validation.go b/validation.go
index 50792b2..f400eb1 100644
--- a/validation.go
+++ b/validation.go
@@ -773,7 +773,23 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 	}
 
 	number := value.(json.Number)
-	float64Value, _ := new(big.Rat).SetString(string(number))
+	float64Value, ok := new(big.Rat).SetString(string(number))
+
+	// The exponent is too large for an exact comparison
+	if !ok {
+		if currentSubSchema.multipleOf != nil ||
+			currentSubSchema.maximum != nil || currentSubSchema.exclusiveMaximum != nil ||
+			currentSubSchema.minimum != nil || currentSubSchema.exclusiveMinimum != nil {
+			result.addInternalError(
+				new(InternalError),
+				context,
+				number,
+				ErrorDetails{"error": "number out of range"},
+			)
+		}
+		result.incrementScore()
+		return
+	}
 
 	// multipleOf:
 	if currentSubSchema.multipleOf != nil {
-- 
2.43.0


From d36e17af18dae0023b31afc1ab4a69955e90e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:45 +0000
Subject: [PATCH 06/14] fix: reject exclusive bounds that cannot be represented
 instead of ignoring them

---
 schema.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/schema.go b/schema.go
index 5d61a91..27b8682 100644
--- a/schema.go
+++ b/schema.go
@@ -508,8 +508,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMinimum = currentSchema.minimum
 					currentSchema.minimum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			} else if exclusiveValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveValue != nil {
+				currentSchema.exclusiveMinimum = exclusiveValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -520,8 +520,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			if exclusiveValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveValue != nil {
+				currentSchema.exclusiveMinimum = exclusiveValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -579,8 +579,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMaximum = currentSchema.maximum
 					currentSchema.maximum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			} else if exclusiveValue := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); exclusiveValue != nil {
+				currentSchema.exclusiveMaximum = exclusiveValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -591,8 +591,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			if exclusiveValue := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); exclusiveValue != nil {
+				currentSchema.exclusiveMaximum = exclusiveValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
-- 
2.43.0


From 2101ff2db55526588efc836b37f3d53461cc7e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:46 +0000
Subject: [PATCH 07/14] fix: ignore the siblings of every $ref, not only of the
 first use of a reference

---
 schema.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/schema.go b/schema.go
index 27b8682..1040294 100644
--- a/schema.go
+++ b/schema.go
@@ -235,15 +235,16 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 		if sch, ok := d.referencePool.Get(currentSchema.ref.String()); ok {
 			currentSchema.refSchema = sch
-		} else {
-			err := d.parseReference(documentNode, currentSchema)
+			return nil
+		}
 
-			if err != nil {
-				return err
-			}
+		err = d.parseReference(documentNode, currentSchema)
 
-			return nil
+		if err != nil {
+			return err
 		}
+
+		return nil
 	}
 
 	// type
-- 
2.43.0


From a3b42d2abb3b3bf63aa36374f74c353dc89f8d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:46 +0000
Subject: [PATCH 08/14] fix: keep Validate set when the metaschema cannot be
 compiled

---
 schemaLoader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemaLoader.go b/schemaLoader.go
index 20db0c1..6a2aba0 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -71,12 +71,12 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
+	sl.Validate = true
+
 	if err != nil {
 		return err
 	}
 
-	sl.Validate = true
-
 	result := metaSchema.validateDocument(documentNode)
 
 	if !result.Valid() {
-- 
2.43.0


From f26cafca47eb55635ca43f786293625e19fb34f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:46 +0000
Subject: [PATCH 09/14] fix: load references with the loader of the compiled
 schema after validating it

---
 schemaLoader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schemaLoader.go b/schemaLoader.go
index 6a2aba0..fd87b68 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -69,8 +69,12 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 	//Disable validation when loading the metaschema to prevent an infinite recursive loop
 	sl.Validate = false
 
+	// Compile replaces the loader factory of the pool, which belongs to the schema being compiled
+	loaderFactory := sl.pool.jsonLoaderFactory
+
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
+	sl.pool.jsonLoaderFactory = loaderFactory
 	sl.Validate = true
 
 	if err != nil {
-- 
2.43.0


From 7277aa1c8d2d8cbac6290edbec32207eff8989fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:47 +0000
Subject: [PATCH 10/14] fix: do not detect the draft of a loaded reference when
 AutoDetect is off

---
 schemaPool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 35b1cc6..f098506 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -202,7 +202,9 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
-	_, draft, _ = parseSchemaURL(document)
+	if *p.autoDetect {
+		_, draft, _ = parseSchemaURL(document)
+	}
 
 	// resolve the potential fragment and also cache it
 	document, _, err = reference.GetPointer().Get(document)
-- 
2.43.0


From 24796bc5c681b13db0eaab8f515b68498fc9cc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:47 +0000
Subject: [PATCH 11/14] fix: resolve the references in definitions named const
 or enum

---
 schemaPool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index f098506..8b6c1cc 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -122,7 +122,7 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 			}
 			// Something like a property or a dependency is not a valid schema, as it might describe properties named "$ref", "$id" or "const", etc
 			// Therefore don't treat it like a schema.
-			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {
+			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES || k == KEY_DEFINITIONS {
 				if child, ok := v.(map[string]interface{}); ok {
 					for _, v := range child {
 						p.parseReferencesRecursive(v, *localRef, draft)
-- 
2.43.0


From 59a3bd67d13f8b8d3a2787c721aa373c6bb58ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:33 +0000
Subject: [PATCH 12/14] fix: find location independent identifiers in a
 document just loaded

---
 schemaPool.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/schemaPool.go b/schemaPool.go
index 8b6c1cc..af496d5 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -202,6 +202,11 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
+	// the fragment might be a location independent identifier of the document that was just loaded
+	if spd, ok = p.schemaPoolDocuments[reference.String()]; ok {
+		return spd, nil
+	}
+
 	if *p.autoDetect {
 		_, draft, _ = parseSchemaURL(document)
 	}
-- 
2.43.0


From 2a304a762b843c71050500a3e4879b82fd03d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:41 +0000
Subject: [PATCH 13/14] fix: close the body of HTTP responses, loading failed
 once the process ran out of connections

---
 jsonLoader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonLoader.go b/jsonLoader.go
index 5d88af2..0209941 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -189,6 +189,7 @@ func (l *jsonReferenceLoader) loadFromHTTP(address string) (interface{}, error)
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// must return HTTP Status 200 OK
 	if resp.StatusCode != http.StatusOK {
-- 
2.43.0


From bd01675a6bf14f6d51683497cc1db48df41a8f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:13:28 +0000
Subject: [PATCH 14/14] fix: an identifier that cannot be resolved no longer
 makes compilation panic

---
 schemaPool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index af496d5..abf793f 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -95,8 +95,9 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 		if existsMapKey(m, keyID) && isKind(m[keyID], reflect.String) {
 			jsonReference, err := gojsonreference.NewJsonReference(m[keyID].(string))
 			if err == nil {
-				localRef, err = ref.Inherits(jsonReference)
+				inheritedRef, err := ref.Inherits(jsonReference)
 				if err == nil {
+					localRef = inheritedRef
 					if _, ok := p.schemaPoolDocuments[localRef.String()]; ok {
 						return fmt.Errorf("Reference already exists: \"%s\"", localRef.String())
 					}
-- 
2.43.0

