From 0cf0eb766f3423ca4ad30bf968b359ef207632f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:06 +0000
Subject: [PATCH 01/21] fix: do not dereference a failed encoding in const,
 enum and uniqueItems

A document number outside the float64 range (1e400) cannot be re-encoded;
the internal error was reported and the nil encoding dereferenced anyway.
---
 validation.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/validation.go b/validation.go
index 9081bd9..ae4b181 100644
--- a/validation.go
+++ b/validation.go
@@ -410,8 +410,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if *vString != *currentSubSchema._const {
+		} else if *vString != *currentSubSchema._const {
 			result.addInternalError(new(ConstError),
 				context,
 				value,
@@ -427,8 +426,7 @@ func (v *subSchema) validateCommon(currentSubSchema *subSchema, value interface{
 		vString, err := marshalWithoutNumber(value)
 		if err != nil {
 			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
-		}
-		if !isStringInSlice(currentSubSchema.enum, *vString) {
+		} else if !isStringInSlice(currentSubSchema.enum, *vString) {
 			result.addInternalError(
 				new(EnumError),
 				context,
@@ -533,6 +531,7 @@ func (v *subSchema) validateArray(currentSubSchema *subSchema, value []interface
 			vString, err := marshalWithoutNumber(v)
 			if err != nil {
 				result.addInternalError(new(InternalError), context, value, ErrorDetails{"err": err})
+				continue
 			}
 			if i, ok := stringifiedItems[*vString]; ok {
 				result.addInternalError(
-- 
2.43.0


From 4b566ad500ec6e328b2b653c104f9981a0ed852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:07 +0000
Subject: [PATCH 02/21] fix: name the detail of the uniqueItems internal error
 "error"

The message template and the documentation of InternalError use "error";
the description read "Internal Error <no value>".
---
 validation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/validation.go b/validation.go
index ae4b181..50792b2 100644
--- a/validation.go
+++ b/validation.go
@@ -530,7 +530,7 @@ func (v *subSchema) validateArray(currentSubSchema *subSchema, value []interface
 		for j, v := range value {
 			vString, err := marshalWithoutNumber(v)
 			if err != nil {
-				result.addInternalError(new(InternalError), context, value, ErrorDetails{"err": err})
+				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
 				continue
 			}
 			if i, ok := stringifiedItems[*vString]; ok {
-- 
2.43.0


From cbd56667fec34a15a681987e713c468d11a205de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:07 +0000
Subject: [PATCH 03/21] fix: do not dereference numbers that big.Rat cannot
 represent

big.Rat refuses exponents beyond a million, so 1e1000001 in a schema or a
document crashed isKind and the numeric keywords with a nil dereference.
---
 utils.go      |  2 +-
 validation.go | 10 +++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/utils.go b/utils.go
index a17d22e..9fd05d7 100644
--- a/utils.go
+++ b/utils.go
@@ -35,7 +35,7 @@ func isKind(what interface{}, kinds ...reflect.Kind) bool {
 	target := what
 	if isJSONNumber(what) {
 		// JSON Numbers are strings!
-		target = *mustBeNumber(what)
+		target = big.Rat{}
 	}
 	targetKind := reflect.ValueOf(target).Kind()
 	for _, kind := range kinds {
diff --git a/validation.go b/validation.go
index 50792b2..35e7521 100644
--- a/validation.go
+++ b/validation.go
@@ -773,7 +773,15 @@ func (v *subSchema) validateNumber(currentSubSchema *subSchema, value interface{
 	}
 
 	number := value.(json.Number)
-	float64Value, _ := new(big.Rat).SetString(string(number))
+	float64Value, isValidNumber := new(big.Rat).SetString(string(number))
+	if !isValidNumber {
+		// the number cannot be evaluated exactly (e.g. the exponent is too large), so neither can its limits
+		if currentSubSchema.multipleOf != nil || currentSubSchema.maximum != nil || currentSubSchema.exclusiveMaximum != nil ||
+			currentSubSchema.minimum != nil || currentSubSchema.exclusiveMinimum != nil {
+			result.addInternalError(new(InternalError), context, number, ErrorDetails{"error": "number cannot be evaluated"})
+		}
+		return
+	}
 
 	// multipleOf:
 	if currentSubSchema.multipleOf != nil {
-- 
2.43.0


From 5b0197e3c07542b8ecdde485569bfacfaa92a33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 04/21] fix: reject a boolean "definitions" instead of
 panicking

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 9e93cd7..5fd0091 100644
--- a/schema.go
+++ b/schema.go
@@ -152,7 +152,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 	// definitions
 	if existsMapKey(m, KEY_DEFINITIONS) {
-		if isKind(m[KEY_DEFINITIONS], reflect.Map, reflect.Bool) {
+		if isKind(m[KEY_DEFINITIONS], reflect.Map) {
 			for _, dv := range m[KEY_DEFINITIONS].(map[string]interface{}) {
 				if isKind(dv, reflect.Map, reflect.Bool) {
 
-- 
2.43.0


From 90904e48c273e4880422a808af49f6190368e875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:08 +0000
Subject: [PATCH 05/21] fix: keep SchemaLoader.Validate set when the
 meta-schema cannot be loaded

A failure to compile the meta-schema left the loader with validation turned
off, so later schemas were accepted unchecked.
---
 schemaLoader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemaLoader.go b/schemaLoader.go
index 20db0c1..6a2aba0 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -71,12 +71,12 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
+	sl.Validate = true
+
 	if err != nil {
 		return err
 	}
 
-	sl.Validate = true
-
 	result := metaSchema.validateDocument(documentNode)
 
 	if !result.Valid() {
-- 
2.43.0


From 2d3ddc2c4f5bf852603e9ad065806def7d475367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:09 +0000
Subject: [PATCH 06/21] fix: keep the loader factory of the root schema across
 meta-schema validation

Compiling the meta-schema replaced the pool's loader factory, so with
Validate set the references of a schema loaded from a custom file system
were read from the operating system's file system instead.
---
 schemaLoader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schemaLoader.go b/schemaLoader.go
index 6a2aba0..e0fb8af 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -68,9 +68,11 @@ func (sl *SchemaLoader) validateMetaschema(documentNode interface{}) error {
 
 	//Disable validation when loading the metaschema to prevent an infinite recursive loop
 	sl.Validate = false
+	loaderFactory := sl.pool.jsonLoaderFactory
 
 	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
 
+	sl.pool.jsonLoaderFactory = loaderFactory
 	sl.Validate = true
 
 	if err != nil {
-- 
2.43.0


From 11c858420a067b9393a6885d63273156717b6515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:09 +0000
Subject: [PATCH 07/21] fix: honour AutoDetect=false for documents loaded by
 reference

---
 schemaPool.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 35b1cc6..f098506 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -202,7 +202,9 @@ func (p *schemaPool) GetDocument(reference gojsonreference.JsonReference) (*sche
 	// add the whole document to the pool for potential re-use
 	p.parseReferences(document, refToURL, true)
 
-	_, draft, _ = parseSchemaURL(document)
+	if *p.autoDetect {
+		_, draft, _ = parseSchemaURL(document)
+	}
 
 	// resolve the potential fragment and also cache it
 	document, _, err = reference.GetPointer().Get(document)
-- 
2.43.0


From 6809dc2a80899d7bd665110196c29f26db4fa367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:09 +0000
Subject: [PATCH 08/21] fix: ignore the siblings of $ref whether or not its
 target is already known

The siblings were parsed only when the reference was already pooled, so with
Go's random map order the same schema compiled or failed by chance.
---
 schema.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/schema.go b/schema.go
index 5fd0091..e4cfff7 100644
--- a/schema.go
+++ b/schema.go
@@ -235,15 +235,10 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 
 		if sch, ok := d.referencePool.Get(currentSchema.ref.String()); ok {
 			currentSchema.refSchema = sch
-		} else {
-			err := d.parseReference(documentNode, currentSchema)
-
-			if err != nil {
-				return err
-			}
-
 			return nil
 		}
+
+		return d.parseReference(documentNode, currentSchema)
 	}
 
 	// type
-- 
2.43.0


From b41fb1043555c30487c808cd29dcc249a3071f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:10 +0000
Subject: [PATCH 09/21] fix: close the response body after loading a schema
 over HTTP

---
 jsonLoader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/jsonLoader.go b/jsonLoader.go
index 5d88af2..0209941 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -189,6 +189,7 @@ func (l *jsonReferenceLoader) loadFromHTTP(address string) (interface{}, error)
 	if err != nil {
 		return nil, err
 	}
+	defer resp.Body.Close()
 
 	// must return HTTP Status 200 OK
 	if resp.StatusCode != http.StatusOK {
-- 
2.43.0


From 6f1ea03ab462f39e5160d5946309f4ec2182d0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:10 +0000
Subject: [PATCH 10/21] fix: do not accept IPv4-mapped IPv6 addresses as format
 ipv4

---
 format_checkers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/format_checkers.go b/format_checkers.go
index 1e77046..b34fedc 100644
--- a/format_checkers.go
+++ b/format_checkers.go
@@ -207,7 +207,7 @@ func (f IPV4FormatChecker) IsFormat(input interface{}) bool {
 
 	// Credit: https://github.com/asaskevich/govalidator
 	ip := net.ParseIP(asString)
-	return ip != nil && strings.Contains(asString, ".")
+	return ip != nil && !strings.Contains(asString, ":")
 }
 
 // IsFormat checks if input is a correctly formatted IPv6=address
-- 
2.43.0


From 1c6868cf1ece5572f69d9f5726c850f0ccca30e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:11 +0000
Subject: [PATCH 11/21] fix: accept integers written with a fraction or an
 exponent as keyword values

2.0 is an integer to the type keyword and to the meta-schemas, but
{"minLength": 2.0} did not compile.
---
 utils.go | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/utils.go b/utils.go
index 9fd05d7..636fdf3 100644
--- a/utils.go
+++ b/utils.go
@@ -136,17 +136,11 @@ func mustBeInteger(what interface{}) *int {
 
 		number := what.(json.Number)
 
-		isInt := checkJSONInteger(number)
+		value, isValidNumber := new(big.Rat).SetString(string(number))
 
-		if isInt {
-
-			int64Value, err := number.Int64()
-			if err != nil {
-				return nil
-			}
-
-			int32Value := int(int64Value)
-			return &int32Value
+		if isValidNumber && value.IsInt() && value.Num().IsInt64() {
+			intValue := int(value.Num().Int64())
+			return &intValue
 		}
 
 	}
-- 
2.43.0


From 83ae0f7a7700e270ffce1f765881cc12e83e01e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:11 +0000
Subject: [PATCH 12/21] fix: name the offending keyword in the errors for allOf
 and propertyNames

---
 schema.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema.go b/schema.go
index e4cfff7..7316c3a 100644
--- a/schema.go
+++ b/schema.go
@@ -357,7 +357,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				Locale.InvalidType(),
 				ErrorDetails{
 					"expected": STRING_SCHEMA,
-					"given":    KEY_PATTERN_PROPERTIES,
+					"given":    KEY_PROPERTY_NAMES,
 				},
 			))
 		}
@@ -886,7 +886,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 		} else {
 			return errors.New(formatErrorDescription(
 				Locale.MustBeOfAn(),
-				ErrorDetails{"x": KEY_ANY_OF, "y": TYPE_ARRAY},
+				ErrorDetails{"x": KEY_ALL_OF, "y": TYPE_ARRAY},
 			))
 		}
 	}
-- 
2.43.0


From 1aa1e85636c0445ff1a5c83b9e5474582ca13932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:12 +0000
Subject: [PATCH 13/21] fix: compile a fragment of a document in the draft of
 that document

A root schema given as file.json#/definitions/x was compiled in the default
draft although file.json declares its own, unlike the same $ref.
---
 schemaLoader.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/schemaLoader.go b/schemaLoader.go
index e0fb8af..b17e09f 100644
--- a/schemaLoader.go
+++ b/schemaLoader.go
@@ -161,6 +161,7 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 	d.referencePool = newSchemaReferencePool()
 
 	var doc interface{}
+	var documentDraft *Draft
 	if ref.String() != "" {
 		// Get document from schema pool
 		spd, err := d.pool.GetDocument(d.documentReference)
@@ -168,6 +169,7 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 			return nil, err
 		}
 		doc = spd.Document
+		documentDraft = spd.Draft
 	} else {
 		// Load JSON directly
 		doc, err = rootSchema.LoadJSON()
@@ -194,6 +196,10 @@ func (sl *SchemaLoader) Compile(rootSchema JSONLoader) (*Schema, error) {
 		if err != nil {
 			return nil, err
 		}
+		if detectedDraft == nil {
+			// a fragment of a document has the draft of that document
+			detectedDraft = documentDraft
+		}
 		if detectedDraft != nil {
 			draft = *detectedDraft
 		}
-- 
2.43.0


From 63a5631652f73312501f439de7731f55c4f84925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:41:13 +0000
Subject: [PATCH 14/21] fix: reject exclusive limits too large to be evaluated
 instead of ignoring them

---
 schema.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/schema.go b/schema.go
index 7316c3a..8c24925 100644
--- a/schema.go
+++ b/schema.go
@@ -503,8 +503,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMinimum = currentSchema.minimum
 					currentSchema.minimum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			} else if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
+				currentSchema.exclusiveMinimum = exclusiveMinimumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -515,8 +515,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MINIMUM]) {
-				currentSchema.exclusiveMinimum = mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM])
+			if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
+				currentSchema.exclusiveMinimum = exclusiveMinimumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -574,8 +574,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 					currentSchema.exclusiveMaximum = currentSchema.maximum
 					currentSchema.maximum = nil
 				}
-			} else if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			} else if exclusiveMaximumValue := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); exclusiveMaximumValue != nil {
+				currentSchema.exclusiveMaximum = exclusiveMaximumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
@@ -586,8 +586,8 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 				))
 			}
 		default:
-			if isJSONNumber(m[KEY_EXCLUSIVE_MAXIMUM]) {
-				currentSchema.exclusiveMaximum = mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM])
+			if exclusiveMaximumValue := mustBeNumber(m[KEY_EXCLUSIVE_MAXIMUM]); exclusiveMaximumValue != nil {
+				currentSchema.exclusiveMaximum = exclusiveMaximumValue
 			} else {
 				return errors.New(formatErrorDescription(
 					Locale.InvalidType(),
-- 
2.43.0


From 3e629c0aa943945c18fbd498284cd5a5cf9e362f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:19 +0000
Subject: [PATCH 15/21] fix: a number in a list of types made Compile panic

---
 schema.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema.go b/schema.go
index 8c24925..3d66cc6 100644
--- a/schema.go
+++ b/schema.go
@@ -254,7 +254,7 @@ func (d *Schema) parseSchema(documentNode interface{}, currentSchema *subSchema)
 			if isKind(m[KEY_TYPE], reflect.Slice) {
 				arrayOfTypes := m[KEY_TYPE].([]interface{})
 				for _, typeInArray := range arrayOfTypes {
-					if reflect.ValueOf(typeInArray).Kind() != reflect.String {
+					if !isKind(typeInArray, reflect.String) {
 						return errors.New(formatErrorDescription(
 							Locale.InvalidType(),
 							ErrorDetails{
-- 
2.43.0


From d9d341523d2570957cd5b3ec1cd659df2ddeec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:01 +0000
Subject: [PATCH 16/21] fix: use the identifier keyword of the document's draft
 when resolving references

A draft-6 or draft-7 document that also has an unrelated id member had its
references resolved against that member instead of $id.
---
 schemaPool.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index f098506..4137f25 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -88,8 +88,14 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 	case map[string]interface{}:
 		localRef := &ref
 
+		// In draft 6 the id keyword was renamed to $id
+		// Without a known draft either is used, the old id by default
 		keyID := KEY_ID_NEW
-		if existsMapKey(m, KEY_ID) {
+		if draft == nil || *draft == Hybrid {
+			if existsMapKey(m, KEY_ID) {
+				keyID = KEY_ID
+			}
+		} else if *draft == Draft4 {
 			keyID = KEY_ID
 		}
 		if existsMapKey(m, keyID) && isKind(m[keyID], reflect.String) {
-- 
2.43.0


From 3bd112fb6480defe92094f4721ecd21a6bd9d5a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:53 +0000
Subject: [PATCH 17/21] fix: do not register a schema under its URL when
 AddSchema refuses it

---
 schemaPool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 4137f25..79e46ae 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -66,7 +66,7 @@ func (p *schemaPool) parseReferences(document interface{}, ref gojsonreference.J
 
 	err = p.parseReferencesRecursive(document, ref, draft)
 
-	if pooled {
+	if pooled && err == nil {
 		p.schemaPoolDocuments[reference] = &schemaPoolDocument{Document: document, Draft: draft}
 	}
 
-- 
2.43.0


From 7bdc07605800b8045cd213d492b056f062354595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:56 +0000
Subject: [PATCH 18/21] fix: an identifier that cannot be resolved made Compile
 panic

---
 schemaPool.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schemaPool.go b/schemaPool.go
index 79e46ae..e5d9518 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -101,8 +101,9 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 		if existsMapKey(m, keyID) && isKind(m[keyID], reflect.String) {
 			jsonReference, err := gojsonreference.NewJsonReference(m[keyID].(string))
 			if err == nil {
-				localRef, err = ref.Inherits(jsonReference)
+				absoluteID, err := ref.Inherits(jsonReference)
 				if err == nil {
+					localRef = absoluteID
 					if _, ok := p.schemaPoolDocuments[localRef.String()]; ok {
 						return fmt.Errorf("Reference already exists: \"%s\"", localRef.String())
 					}
-- 
2.43.0


From f4374b3e6a00734cbdda3250fc1a04260d825e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:33 +0000
Subject: [PATCH 19/21] fix: schemas under definitions are found whatever their
 name

The members of definitions are schemas with names of the user's choice, like
those of properties. A definition named const, enum, properties, ... had its
references left unresolved, so they were looked up in the root document.
---
 schemaPool.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schemaPool.go b/schemaPool.go
index e5d9518..269fb59 100644
--- a/schemaPool.go
+++ b/schemaPool.go
@@ -127,9 +127,9 @@ func (p *schemaPool) parseReferencesRecursive(document interface{}, ref gojsonre
 			if k == KEY_CONST || k == KEY_ENUM {
 				continue
 			}
-			// Something like a property or a dependency is not a valid schema, as it might describe properties named "$ref", "$id" or "const", etc
+			// Something like a property, a definition or a dependency is not a valid schema, as it might describe properties named "$ref", "$id" or "const", etc
 			// Therefore don't treat it like a schema.
-			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {
+			if k == KEY_PROPERTIES || k == KEY_DEFINITIONS || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {
 				if child, ok := v.(map[string]interface{}); ok {
 					for _, v := range child {
 						p.parseReferencesRecursive(v, *localRef, draft)
-- 
2.43.0


From 3ca5dc2aea672407168d14477abc688fd5d048ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:51 +0000
Subject: [PATCH 20/21] fix: AddError accepts nil details

It wrote the context into the details it was given, which panics for nil.
---
 result.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/result.go b/result.go
index 0a01791..56c310d 100644
--- a/result.go
+++ b/result.go
@@ -194,6 +194,9 @@ func (v *Result) Errors() []ResultError {
 // AddError appends a fully filled error to the error set
 // SetDescription() will be called with the result of the parsed err.DescriptionFormat()
 func (v *Result) AddError(err ResultError, details ErrorDetails) {
+	if details == nil {
+		details = ErrorDetails{}
+	}
 	if _, exists := details["context"]; !exists && err.Context() != nil {
 		details["context"] = err.Context().String()
 	}
-- 
2.43.0


From 37a506944ae43621f642e556693c85cd32b6cdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:34 +0000
Subject: [PATCH 21/21] fix: a plus sign in a file reference was read as a
 space

The path of a URL is not a query: only percent escapes are decoded in it.
---
 jsonLoader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/jsonLoader.go b/jsonLoader.go
index 0209941..81175fc 100644
--- a/jsonLoader.go
+++ b/jsonLoader.go
@@ -146,7 +146,7 @@ func (l *jsonReferenceLoader) LoadJSON() (interface{}, error) {
 	if reference.HasFileScheme {
 
 		filename := strings.TrimPrefix(refToURL.String(), "file://")
-		filename, err = url.QueryUnescape(filename)
+		filename, err = url.PathUnescape(filename)
 
 		if err != nil {
 			return nil, err
-- 
2.43.0

