#!/usr/bin/env python3
# generates /verif/properties.jsonl (kept as a script so that the text can be edited in one place)
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","Numeric limits are decided exactly",
 "A JSON number is reported against minimum, maximum, exclusiveMinimum, exclusiveMaximum or multipleOf exactly when its exact mathematical value violates that limit (draft-4 boolean exclusive limits included), with the error type documented for that keyword; no rounding, sign, notation or magnitude of the literals changes the verdict. A number too large to be evaluated is reported as an error whenever one of these keywords applies, and values that are not numbers are never affected by them.",
 ["inputs"],"every schema using numeric keywords, alone or combined with any other keyword, and every JSON value",
 "Tests sample a handful of limits and values; the claim is over all pairs of numbers, including boundary equality, huge exponents and combinations of limits.",
 ["validation.go","schema.go","utils.go"],[("validateNumber","validation.go"),("mustBeNumber","utils.go"),("draft-dependent exclusive* parsing","schema.go parseSchema")],observe=["Result.Errors()"])
p("C02","String length and pattern",
 "minLength and maxLength are compared with the number of Unicode code points of a string (never bytes), and pattern is satisfied exactly when the regular expression matches somewhere in the string. Each violated keyword is reported with its own error type and satisfied ones are not; numbers and other non-strings are never affected.",
 ["inputs"],"every string, every limit and pattern, alone or with any other keyword",
 "Tests use a few short strings; the claim covers every string and limit, including empty strings, multi-byte text and equality with the limit.",
 ["validation.go","schema.go"],[("validateString","validation.go"),("minLength/maxLength/pattern parsing","schema.go")],observe=["Result.Errors()"])
p("C03","Required, property counts, property names and dependencies",
 "For every object, each name listed in required that is absent is reported (presence is decided by the key, even when the value is null), minProperties/maxProperties are compared with the number of members, every member name is validated against propertyNames, and every dependency whose trigger key is present is enforced - array dependencies require each listed key, schema dependencies validate the whole object. Nothing is reported for satisfied ones, and non-objects are never affected.",
 ["inputs"],"every object with any number of members, and every list of names and dependencies",
 "Tests use small fixed objects; the claim is over any number of members and any position of the offending one.",
 ["validation.go","schema.go"],[("validateObject","validation.go"),("dependencies in validateSchema","validation.go"),("parseDependencies, required parsing","schema.go")],observe=["Result.Errors()"])
p("C04","Every object member meets exactly the schemas that apply to it",
 "Each member of an object is validated against the schema of its own name in properties if there is one, and against every patternProperties schema whose pattern matches its name; it is validated against (or, when false, rejected by) additionalProperties exactly when neither properties nor any pattern covers it. A failure of any applicable schema makes the document invalid, and a schema that does not apply never contributes an error.",
 ["inputs"],"every object, every member, every combination of properties, patternProperties and additionalProperties",
 "The partition must hold for every member name and every overlap of patterns; tests sample a few names.",
 ["validation.go","schema.go"],[("validateObject","validation.go"),("validatePatternProperty","validation.go"),("propertiesChildren loop in validateRecursive","validation.go"),("parseProperties","schema.go")],observe=["Result.Errors()"])
p("C05","Array items, lengths and contains",
 "A single items schema applies to every element; a list of items schemas applies position by position, and additionalItems (schema or false) applies exactly to the elements beyond that list. minItems/maxItems are compared with the number of elements, and contains fails exactly when no element satisfies it. Every violation is reported with its own error type, satisfied keywords report nothing, and non-arrays are never affected.",
 ["inputs"],"every array length, every number of positional schemas, every position",
 "Tests use arrays of two or three elements; the claim is for every length and position, including equal lengths and empty arrays.",
 ["validation.go","schema.go"],[("validateArray","validation.go"),("items/additionalItems parsing","schema.go")],observe=["Result.Errors()"])
p("C06","const, enum and uniqueItems compare JSON values",
 "A value satisfies const exactly when it equals the constant, satisfies enum exactly when it equals one of the listed values, and an array satisfies uniqueItems exactly when no two of its elements are equal, where equality is equality of JSON values: both sides normalised in the same way, so that number spelling (1, 1.0, 1e0) and member order do not matter, for values of every kind including null. A value that cannot be normalised is reported as an error, never silently accepted.",
 ["inputs"],"every value and every constant of every JSON kind, arrays of every length",
 "Tests compare a few literals; the claim is over all pairs of values and all positions of a duplicate.",
 ["validation.go","schema.go","utils.go"],[("validateCommon","validation.go"),("marshalWithoutNumber","utils.go"),("uniqueItems in validateArray","validation.go")],observe=["Result.Errors()"])
p("C07","The type keyword",
 "A value is rejected with the invalid-type error exactly when the schema lists types and none of them is the value's JSON type, where integer covers exactly the numbers of integral value however they are written, and number covers every number. The reported expected and given types are the schema's types and the value's actual type.",
 ["inputs"],"every value and every list of types",
 "All combinations of value kind, list of types and number spelling; tests sample some.",
 ["validation.go","schemaType.go","utils.go","schema.go"],[("type checks in validateRecursive","validation.go"),("jsonSchemaType","schemaType.go"),("checkJSONInteger","utils.go")],observe=["Result.Errors()"])
p("C08","Combinators, conditionals, boolean schemas and $ref delegate exactly",
 "allOf, anyOf, oneOf and not report their error exactly when, respectively, some subschema fails, all fail, the number of matching subschemas is not one, or the subschema matches; when if matches, then is enforced, otherwise else is, and neither applies without if. The schema true accepts and false rejects every value, and a schema with $ref accepts exactly what its target accepts. Errors of subschemas that were merely probed never make a document invalid.",
 ["inputs"],"every number and outcome of subschemas, every value including null",
 "The verdict depends on every combination of subschema outcomes and any number of subschemas.",
 ["validation.go","schema.go","result.go"],[("validateSchema","validation.go"),("validateRecursive pass/refSchema","validation.go"),("mergeErrors, Valid","result.go")],observe=["Result.Valid()","Result.Errors()"])
p("C09","Error reports are complete and consistent",
 "A result is valid exactly when it has no errors. Every error carries the type code documented for its kind, the offending value, its context, and details that contain every placeholder its message template uses, the documented details of its kind, and the field; its description is that template rendered with those details.",
 ["inputs"],"every error the validator can emit",
 "Every emission site and error kind must agree with the tables of codes and templates; tests look at a few messages.",
 ["errors.go","result.go","locales.go","validation.go","README.md"],[("newError","errors.go"),("addInternalError, Valid","result.go"),("DefaultLocale","locales.go")],observe=["Result.Errors()","ResultError accessors"])
p("C10","Errors point at the value they are about",
 "Every error's context names the path of the value it is about: the context of the root for the root value, extended by exactly the member name or element index for each step into a child, and unchanged for keywords that look at the same value. The context is rendered root first, one component per step joined by the chosen delimiter, and the field is the context without its root prefix.",
 ["inputs"],"every error at every depth of every document",
 "Depends on every recursion site passing the right key; tests check a few shapes.",
 ["validation.go","jsonContext.go","result.go"],[("NewJsonContext at every descent","validation.go"),("JsonContext.String","jsonContext.go"),("ResultErrorFields.Field","result.go")],observe=["ResultError.Context()","ResultError.Field()"])
p("C11","Concurrent use is free of data races and deadlocks",
 "A compiled schema can validate documents from any number of goroutines at once, alongside other compilations and changes to the format-checker registry: every access to state shared between goroutines (format registry, message-template cache) happens under its lock - writes exclusively - every lock is released on every path, and no user code runs while a lock is held.",
 ["schedules","histories"],"every interleaving of validations, compilations with separate loaders and format registrations",
 "Needs specific interleavings; the tests start no concurrent work.",
 ["format_checkers.go","errors.go","validation.go"],[("lock","format_checkers.go"),("errorTemplates RWMutex","errors.go")],state=[("FormatCheckers.formatters","registry","format_checkers.go"),("errorTemplates","template cache","errors.go")])
p("C12","No JSON schema or document makes the library panic",
 "Compiling any JSON value as a schema, and validating any JSON value against any compiled schema, returns a result or an error; it never panics by nil dereference, failed type assertion, index out of range or write to a nil map.",
 ["inputs"],"every JSON value as schema, every JSON value as document, in every draft mode",
 "Requires unusual inputs (null, wrong kinds, huge numbers, empty lists) at every keyword.",
 ["schema.go","validation.go","utils.go","schemaPool.go","draft.go"],[("kind checks before assertions","schema.go"),("nil checks before dereference","validation.go")])
p("C13","Schemas are checked when compiled",
 "Compiling a schema fails, with an error naming the offending keyword, when a keyword of the chosen draft has a value of the wrong JSON kind or out of range (negative or non-integral counts, non-positive multipleOf, invalid regex, unknown or repeated type, repeated required or enum entries, min greater than max for lengths and property counts, wrong element kinds), and errors inside nested schemas make the whole compilation fail. A schema whose keywords all have well-formed values compiles, and each keyword takes effect with the value that was written.",
 ["inputs"],"every keyword, every JSON value for it, in every draft mode, at any nesting",
 "Every keyword has its own acceptance rule over all JSON values; tests cover a few wrong values.",
 ["schema.go","schemaType.go","utils.go"],[("parseSchema","schema.go"),("parseProperties, parseDependencies","schema.go"),("mustBeInteger, mustBeNumber","utils.go")],observe=["error returned by NewSchema / SchemaLoader.Compile"])
p("C14","Draft selection and draft-specific keywords",
 "A schema is compiled in the draft its $schema names when auto-detection is on and it names a known draft, and otherwise in the loader's configured draft; with auto-detection off $schema is never consulted, and a subschema uses the draft of its enclosing document. Boolean schemas, const, contains and propertyNames have effect only from draft 6 on, if/then/else only from draft 7 on, exclusive limits are boolean in draft 4, numeric from draft 6 on and either in hybrid mode, and the identifier keyword is id in draft 4, $id from draft 6 on.",
 ["inputs","configurations"],"every schema, every $schema value, every loader configuration",
 "All configurations times all keywords; the tests fix one configuration per suite.",
 ["schemaLoader.go","draft.go","schema.go","schemaPool.go"],[("Compile draft choice","schemaLoader.go"),("parseSchemaURL, drafts","draft.go"),("draft gates","schema.go"),("GetDocument","schemaPool.go")])
p("C15","References resolve against the right base and delegate",
 "A $ref is resolved against the identifier of its innermost enclosing schema, its sibling keywords are ignored, and what it points at is compiled in place so that recursive schemas compile; an unresolvable reference is a compile error. Identifiers register the schema that carries them and a second registration of the same identifier or URL through AddSchema(s) is refused; values under const and enum are taken literally, and names inside properties, patternProperties and dependencies are never mistaken for keywords.",
 ["inputs","histories"],"every schema graph and every order of registration",
 "Depends on nesting of identifiers, order of traversal and pool contents.",
 ["schemaPool.go","schema.go","schemaReferencePool.go"],[("parseReferencesRecursive","schemaPool.go"),("GetDocument","schemaPool.go"),("parseReference and referencePool","schema.go")])
p("C16","Loader settings are enforced and survive every call",
 "With Validate set, every schema passed to AddSchema, AddSchemas or Compile is checked against its meta-schema and rejected, with the validation errors, when it does not conform; with Validate unset no meta-schema check is made. No call, successful or failing, changes the loader's public settings or what later calls with that loader accept or load from.",
 ["inputs","histories","fault_sequences"],"every sequence of calls on a loader, including failing ones",
 "Requires histories with failures in the middle; tests use each loader once.",
 ["schemaLoader.go","schemaPool.go"],[("validateMetaschema","schemaLoader.go"),("AddSchemas, AddSchema, Compile","schemaLoader.go")])
p("C17","Loaders decode exactly and fail loudly",
 "Every loader that decodes JSON keeps number literals exactly as written, and every failure to open, fetch, read or decode a source is returned as an error, including any HTTP status other than 200. Every opened file and response body is closed on every path, and a loader's own file system is used for it and for everything it references.",
 ["inputs","fault_sequences"],"every source, every fault while loading",
 "Faults (bad status, short reads, open errors) and leaks are invisible to the tests.",
 ["jsonLoader.go","schemaPool.go"],[("decodeJSONUsingNumber","jsonLoader.go"),("loadFromHTTP, loadFromFile","jsonLoader.go"),("LoaderFactory implementations","jsonLoader.go")])
p("C18","Format checking",
 "format never rejects a value that is not a string or a format name that is not registered; a registered checker decides for its name only, adding and removing checkers takes effect, and the document is invalid exactly when the checker for the schema's format rejects the value. The built-in checkers accept exactly the strings of their documented grammar (dates and times per RFC 3339 layouts, IPv4 without colons, IPv6 with them, URIs with a scheme, balanced templates, hostname labels up to 63 and names under 256 characters, UUIDs, JSON pointers, compilable regexes).",
 ["inputs","histories"],"every format name, every value, every registry history",
 "The accepted languages are infinite; tests try a few strings per format.",
 ["format_checkers.go","validation.go"],[("FormatCheckerChain","format_checkers.go"),("built-in checkers","format_checkers.go"),("format in validateCommon","validation.go")])
p("C19","Validation is a pure function of schema and document",
 "Validating a document changes neither the compiled schema, nor the document, nor any setting or registry, so the same schema and document always give the same verdict whatever was validated before. Accessors of errors and results do not change what they report.",
 ["histories","inputs"],"every sequence of validations with one schema",
 "Requires comparing histories; the tests validate each document once.",
 ["validation.go","result.go","errors.go"],[("validation code writes only to its own result","validation.go")])
p("C20","Embedded meta-schemas and draft table",
 "The meta-schemas embedded for drafts 4, 6 and 7 are the official ones, each is served for its own URL without network access, and the URL, version and meta-schema of a draft belong together; an unknown URL selects no draft.",
 ["inputs"],"every keyword rule inside the three embedded meta-schemas",
 "A changed rule inside an embedded meta-schema only shows for schemas that exercise that rule.",
 ["draft.go","jsonLoader.go"],[("drafts table","draft.go"),("loadFromHTTP cache","jsonLoader.go")])
p("C21","Validation terminates",
 "Validating a finite document against any compiled schema terminates.",
 ["inputs"],"every schema graph and document","Depends on cycles in the schema graph.",
 ["validation.go"],[("recursion over schema graph","validation.go")])
p("C22","The closest match is reported for anyOf and oneOf",
 "When no alternative of anyOf or oneOf (or no element for contains) matches, the errors reported in addition are those of the alternative that came closest to matching.",
 ["inputs"],"every set of alternatives","Depends on numeric scores accumulated at run time.",
 ["validation.go","result.go"],[("score","result.go"),("bestValidationResult","validation.go")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,x["id"]
    s=x["statement"]; 
    print(x["id"],s.count(". ")+1)
