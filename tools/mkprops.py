#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as a script so that the records stay consistently shaped).
import json,os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
V="validation.go"; S="schema.go"
p("C01","Type keyword and boolean schemas decide exactly by JSON type",
 "Validating a JSON value against a schema reports a type violation exactly when the schema names at least one type and none of them is the value's JSON type, where 'number' covers every number and 'integer' covers every number whose mathematical value is integral however it is written (1, 1.0, 10e-1). From draft-06 on and in hybrid mode the schema true accepts and the schema false rejects every value, and a schema object carrying $ref accepts exactly what the referenced schema accepts.",
 ["inputs"],"every compiled schema and every JSON instance",
 "The suite samples a few literals per type; the dispatch must hold for every value shape, number spelling and set of types.",
 [V,"schemaType.go","utils.go",S],
 [("validateRecursive dispatch","validation.go:validateRecursive"),("type set","schemaType.go:Contains/IsTyped/Add"),("integer test on exact rationals","utils.go:checkJSONInteger")],
 observe=["Result.Valid","Result.Errors"])
p("C02","Numeric keywords are decided by exact arithmetic",
 "For every JSON number and every schema, multipleOf, maximum, exclusiveMaximum, minimum and exclusiveMinimum each report a violation exactly when the exact (arbitrary precision) value of the number breaks the bound or is not an integer multiple; no rounding, no dependence on how the number is spelled, and non-numbers are never affected by them. (A number whose exponent is too large to be represented exactly is reported as an error, never accepted.)",
 ["inputs"],"every number literal, every bound, all five keywords present or absent",
 "Unit tests compare a handful of small literals; rounding mistakes only show at magnitudes or precisions they never reach.",
 [V,"utils.go",S],[("validateNumber","validation.go:validateNumber"),("mustBeNumber","utils.go:mustBeNumber"),("number keywords copied at compile time","schema.go:parseSchema")],
 observe=["Result.Valid","Result.Errors"])
p("C03","String length and pattern keywords",
 "For every string, minLength and maxLength report a violation exactly when the number of Unicode code points is below, respectively above, the bound, and pattern reports one exactly when the regular expression matches nowhere in the string. Values that are not strings (numbers included) are never affected by them.",
 ["inputs"],"every string, bound and compilable pattern",
 "Tests use a few ASCII strings and one astral one; bounds, code points and unanchored matching must agree for all strings.",
 [V,S],[("validateString","validation.go:validateString"),("string keywords copied at compile time","schema.go:parseSchema")],observe=["Result.Valid","Result.Errors"])
p("C04","Array keywords are decided position by position",
 "For every array: a single items schema must accept every element; an items list must accept element i with schema i, and elements beyond a non-empty list must satisfy additionalItems (false forbids them, a schema must accept each of them, absent or true allows them); minItems and maxItems bound the length, contains (draft-06 on) requires at least one accepted element, and uniqueItems rejects the array exactly when two elements are equal as JSON values. Arrays violating none of these are not reported, and values that are not arrays are never affected.",
 ["inputs"],"every array length and content, every combination of the array keywords",
 "Tests use arrays of length 0 to 5; the loops must be right at every length and position.",
 [V,S],[("validateArray","validation.go:validateArray"),("items/additionalItems/contains parsing","schema.go:parseSchema")],observe=["Result.Valid","Result.Errors"])
p("C05","Object keywords are decided property by property",
 "For every object: minProperties and maxProperties bound the number of members; every required name must be present; every member named in properties must be accepted by its schema, every member whose name matches a patternProperties pattern must be accepted by that pattern's schema (all matching patterns apply), and every member covered by neither must satisfy additionalProperties (false forbids, a schema must accept); propertyNames (draft-06 on) must accept every member name; a dependency on a present member requires all listed names, or that the whole object satisfies the dependency schema. Objects violating none of these are not reported, and values that are not objects are never affected.",
 ["inputs"],"every object, every combination and interaction of the object keywords, every map iteration order",
 "Tests use objects of a few members and one or two keywords at a time; coverage of members by properties, patterns and additionalProperties must be right for every set of names and iteration order.",
 [V,S],[("validateObject","validation.go:validateObject"),("validatePatternProperty","validation.go:validatePatternProperty"),("dependencies","validation.go:validateSchema"),("property recursion","validation.go:validateRecursive")],observe=["Result.Valid","Result.Errors"])
p("C06","Logical combinators compute their Boolean function",
 "allOf holds exactly when every branch accepts, anyOf when at least one does, oneOf when exactly one does, not when its schema rejects; if/then/else (draft-07 on) requires then exactly when if accepts and else exactly when if rejects, and if alone never rejects. The verdict does not depend on the order of branches nor on which errors were collected on the way.",
 ["inputs"],"every number of branches, every truth assignment to the branches, every nesting",
 "Tests use two or three branches; the counting and short-circuiting must be right for every number of branches and every position of the accepting one.",
 [V,S],[("validateSchema","validation.go:validateSchema"),("subValidateWithContext","validation.go:subValidateWithContext")],observe=["Result.Valid","Result.Errors"])
p("C07","enum and const compare JSON values, not spellings",
 "const accepts a value exactly when it equals the constant, and a non-empty enum exactly when the value equals one of the listed values, where equality is JSON equality: member order and number spelling (1, 1.0, 1e0) are irrelevant, numbers being compared as IEEE doubles. A value that cannot be compared (a number beyond double range) is reported as an error and never accepted or allowed to crash the validation.",
 ["inputs"],"every JSON value and every enum list or constant",
 "Equality must be right for every pair of nested values; tests hold a few pairs.",
 [V,"utils.go",S],[("validateCommon","validation.go:validateCommon"),("marshalWithoutNumber normal form","utils.go:marshalWithoutNumber"),("enum/const parsing","schema.go:parseSchema")],observe=["Result.Valid","Result.Errors"])
p("C08","format is decided by the registered checker of that name",
 "A schema with format F reports a format violation for a value exactly when a checker is currently registered under F and that checker rejects the value; an unregistered format accepts everything. Adding a checker under a name affects exactly that name from then on (replacing any earlier one), removing affects exactly that name, Has tells whether a name is registered, and built-in checkers accept every value that is not a string.",
 ["inputs","histories"],"every format name, every value, every sequence of Add and Remove calls",
 "Tests add one custom format; the registry must behave as a map for every sequence of operations.",
 ["format_checkers.go",V,S],[("FormatCheckerChain","format_checkers.go:Add/Remove/Has/IsFormat"),("format check","validation.go:validateCommon")],observe=["FormatCheckers","Result.Errors"])
p("C09","Built-in format checkers accept exactly their documented language",
 "For every string: uuid accepts exactly 8-4-4-4-12 hexadecimal digit groups, json-pointer and relative-json-pointer exactly their RFC grammars (~ only as ~0 or ~1), hostname exactly dot-separated labels of 1 to 63 letters, digits and inner hyphens with total length below 256, ipv4/ipv6 exactly the IP addresses written with a dot / with a colon, date, time and date-time exactly the documented layouts (HH:MM:SS, with or without zone; YYYY-MM-DD; RFC3339; a date-time may be any of them), uri the parseable references with a scheme and no backslash, uri-reference those without the scheme requirement, uri-template additionally balanced braces in the path, email what the mail address parser accepts, regex what the regexp compiler accepts.",
 ["inputs"],"every string",
 "Language equality over all strings cannot be sampled; the format tests in the tree do not even pass with this toolchain.",
 ["format_checkers.go"],[("IsFormat methods","format_checkers.go"),("compiled regular expressions","format_checkers.go:rxHostname,rxUUID,rxJSONPointer,rxRelJSONPointer,rxURITemplate"),("registry table","format_checkers.go:FormatCheckers")],observe=["FormatChecker.IsFormat"])
p("C10","Verdict and error list agree, and no error is lost",
 "A result is valid exactly when its error list is empty. Errors are only ever appended: every error found at any depth under properties, patternProperties, additionalProperties, items, allOf, dependencies, $ref, then, else and propertyNames is in the final list, after the ones found before; AddError appends exactly the given error with its description rendered.",
 ["inputs"],"every schema, instance and prior error list",
 "Tests look at whether there are errors, rarely at which; loss or overwriting of an error in a long list goes unnoticed.",
 ["result.go",V],[("Result.errors","result.go"),("addInternalError/mergeErrors/AddError","result.go")],state=[("Result.errors","errors so far","result.go:Result")],observe=["Result.Valid","Result.Errors"])
p("C11","Every error carries the right code, value, and details",
 "Every error the library reports has the type code documented for the violated keyword, the offending value (for a forbidden additional property, that property's value; for a property name, the object or the name), and details that hold the field and context strings and the documented keys with the values of the schema (expected and given types, min, max, multiple, pattern, format, property, dependency, allowed, i and j of a duplicate pair). Its description is rendered from the locale's template for that code with those details.",
 ["inputs"],"every error class, every violated keyword, every instance",
 "Tests check two or three messages; the mapping has over thirty entries and must hold for every value.",
 ["errors.go","result.go",V,"locales.go"],[("newError type table","errors.go:newError"),("addInternalError call sites","validation.go")],observe=["ResultError.Type","ResultError.Details","ResultError.Value","ResultError.Description"])
p("C12","Error context is the path of the failing value",
 "The context of every reported error is the path, from the root, of member names and array indices leading to the value that was being checked when it was found (the object itself for errors about its set of members or member names). Rendering a context joins its segments root first with the delimiter (a dot by default), and the field of an error is that rendering without the leading '(root).'.",
 ["inputs"],"every nesting depth, every member name and index",
 "Paths must be right at every depth and index; tests look at one or two shallow ones.",
 ["jsonContext.go",V,"result.go"],[("NewJsonContext at each descent","validation.go"),("JsonContext.String","jsonContext.go"),("Field","result.go:Field")],observe=["ResultError.Context","ResultError.Field"])
p("C13","Validation changes neither schema nor document",
 "Validating a document leaves the compiled schema, the document and every earlier result exactly as they were, so a compiled schema may be used any number of times, in any order and from several goroutines at once, with the same verdict each time.",
 ["inputs","histories","schedules"],"every schema, document, sequence of validations and interleaving of concurrent validations",
 "Tests validate once or a few times sequentially; a write to shared state shows only in particular histories or interleavings.",
 [V,"result.go","utils.go"],[("no stores to subSchema or document maps in validation","validation.go"),("fresh Result per evaluation","validation.go:subValidateWithContext")],observe=["Schema.Validate"])
p("C14","No JSON input makes compilation or validation panic",
 "Compiling any JSON value as a schema returns a schema or an error, and validating any JSON document against a compiled schema returns a result: no nil dereference, failed type assertion, index out of range or division by zero can occur, whatever the keywords' value types or the magnitude of the numbers.",
 ["inputs"],"every JSON value as schema, every JSON value as document",
 "Panics hide behind rare type combinations; at the base commit {\"definitions\":true}, {\"type\":[1]} and the document 1e400 under enum each crash.",
 [V,S,"utils.go","draft.go","schemaPool.go"],[("kind checks before assertions","utils.go:isKind and its callers"),("big.Rat parsing","utils.go:mustBeNumber")],observe=["NewSchema","Schema.Validate"])
p("C15","Compilation accepts well-formed schemas and rejects malformed ones",
 "Compiling succeeds exactly when every keyword that is active in the schema's draft has a well-formed value at every level: strings where strings are required, known and unrepeated type names, schemas where schemas are required, compilable patterns, numbers, positive multipleOf, non-negative integer bounds with min not above max for string length and property count, unique required names and enum values. On success each keyword's value takes effect exactly as written, independent of map iteration order, and apart from id, $id, definitions, title and description, which are still checked, keywords beside $ref have no effect.",
 ["inputs"],"every JSON value as schema, every draft, every map iteration order",
 "Tests contain a few malformed schemas; each of some thirty keywords has its own shape rules and its own way of being copied.",
 [S,"schemaType.go","utils.go"],[("parseSchema","schema.go:parseSchema"),("parseProperties/parseDependencies/parseReference","schema.go")],observe=["NewSchema","SchemaLoader.Compile"])
p("C16","Draft decides which keywords exist and how",
 "With auto-detection on, the draft of a schema is the one its $schema names (trailing empty fragment ignored), otherwise the loader's configured draft; with it off always the configured draft, also for referenced documents. Boolean schemas, const, contains and propertyNames exist from draft-06, if/then/else from draft-07, hybrid mode has all of them; exclusiveMinimum and exclusiveMaximum are Boolean modifiers in draft-04, numbers from draft-06, either in hybrid mode.",
 ["inputs","configurations"],"every schema, configured draft, AutoDetect setting and draft of each referenced document",
 "The suite runs each draft's own files; combinations of drafts, detection off and cross-references are hardly sampled.",
 ["draft.go",S,"schemaLoader.go","schemaPool.go"],[("parseSchemaURL","draft.go"),("draft gates","schema.go:parseSchema"),("draft of referenced documents","schemaPool.go:GetDocument")],observe=["SchemaLoader.Compile","NewSchema"])
p("C17","References resolve against the nearest enclosing identifier",
 "Every $ref in a schema position is resolved against the base URI given by the nearest enclosing id/$id (itself resolved against its own base, starting from the document's URI), and identifies the schema registered under the resulting URI or found by JSON pointer in the document of that URI. Values inside enum and const, and members of properties, patternProperties, definitions and dependencies that merely are named $ref or $id, are never treated as references.",
 ["inputs"],"every nesting of identifiers and references",
 "Tests hold a few hand-written nestings.",
 ["schemaPool.go",S,"schemaReferencePool.go"],[("parseReferencesRecursive","schemaPool.go"),("GetDocument","schemaPool.go"),("reference pool","schemaReferencePool.go")],observe=["SchemaLoader.Compile","Result.Valid"])
p("C18","The schema pool is a write-once map keyed by URI",
 "A document added or loaded under a URI, and every identified subschema of it, is found under exactly that URI; adding another one under an occupied URI fails and leaves the first in place; a pooled document is never loaded again, and only absolute references are ever handed to the loader, through the loader factory of the schema being compiled.",
 ["inputs","histories"],"every sequence of AddSchema, AddSchemas and Compile calls",
 "Tests do one or two additions; the map must behave for every history.",
 ["schemaPool.go","schemaLoader.go","schemaReferencePool.go"],[("parseReferences","schemaPool.go"),("GetDocument","schemaPool.go"),("AddSchema/AddSchemas","schemaLoader.go")],state=[("schemaPoolDocuments","URI to document","schemaPool.go:schemaPool")],observe=["SchemaLoader.AddSchema","SchemaLoader.AddSchemas","SchemaLoader.Compile"])
p("C19","Meta-schema validation guards every addition while switched on",
 "While Validate is set, AddSchema, AddSchemas and Compile each fail for a schema that does not satisfy its meta-schema (the one $schema names when detection is on, else the configured draft's; none in hybrid mode without $schema), and a failing AddSchema or AddSchemas adds nothing of the document that failed; the setting itself survives every call, failing or not.",
 ["inputs","histories","configurations"],"every sequence of calls on a loader, every configuration",
 "Tests check single additions; that the switch survives a failing call is a property of histories (at the base commit it does not).",
 ["schemaLoader.go","draft.go"],[("validateMetaschema","schemaLoader.go"),("Validate flag","schemaLoader.go:SchemaLoader")],observe=["SchemaLoader.Compile","SchemaLoader.AddSchema","SchemaLoader.AddSchemas"])
p("C20","Loaders deliver the decoded source with exact numbers or an error",
 "Every loader's LoadJSON returns the (first) JSON value its source denotes with numbers kept in their original spelling, or an error when the source cannot be read, is not JSON or (HTTP) is not answered with status 200; a file reference opens exactly the file its path names, through the loader's own file system, and the three built-in meta-schemas are served without network access. Loading never changes the source of string, byte, Go and raw loaders.",
 ["inputs","fault_sequences"],"every source, every failure of the underlying reader, file system or server",
 "Tests load well-formed sources; failing reads and statuses are not produced.",
 ["jsonLoader.go","draft.go"],[("LoadJSON methods","jsonLoader.go"),("decodeJSONUsingNumber","jsonLoader.go"),("GetMetaSchema","draft.go")],observe=["JSONLoader.LoadJSON"])
p("C21","Shared registries are accessed only under their lock",
 "The format checker registry and the error template cache are read only while their lock is held for reading or writing, changed only while it is held for writing, and the lock is released on every way out, so concurrent validations, Add, Remove and Has calls neither race nor deadlock, and no checker or template runs while the lock is held.",
 ["schedules"],"every interleaving of calls from any number of goroutines",
 "A test run sees one interleaving; the discipline must hold on every path.",
 ["format_checkers.go","errors.go"],[("lock","format_checkers.go:lock"),("errorTemplates lock","errors.go:formatErrorDescription")],observe=["FormatCheckers","Result.Errors"])
p("C22","Failed alternatives report the closest branch only",
 "When anyOf fails, or oneOf fails because no branch accepts, or contains finds no element, the result gets the keyword's own error followed by exactly the errors of one failing branch (element), the first among those with the highest match score; when oneOf fails because several branches accept, and when not fails, no branch errors are added; branches of a satisfied anyOf, oneOf, not, if or contains contribute no errors at all.",
 ["inputs"],"every number of branches, every distribution of scores",
 "Tests check verdicts, hardly ever which branch's errors are reported.",
 [V,"result.go"],[("bestValidationResult selection","validation.go:validateSchema,validateArray"),("score","result.go")],observe=["Result.Errors"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P))
