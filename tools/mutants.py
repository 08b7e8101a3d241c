# Planted bugs: (id, property, file, old, new, needs, breaks, demo body in Go)
# demo helpers (see seed.py): errs(schema, doc) -> sorted "type@context" list or "COMPILE"/"PANIC"; eq(t, got, want)
M = []
def m(id, prop, file, old, new, needs, breaks, demo, more=()):
    if more and isinstance(more[0], str): more = [more]
    M.append(dict(id=id, prop=prop, edits=[(file, old, new)] + list(more), needs=needs, breaks=breaks, demo=demo))

V='validation.go'; S='schema.go'; U='utils.go'; R='result.go'; P='schemaPool.go'; L='schemaLoader.go'; J='jsonLoader.go'; F='format_checkers.go'; D='draft.go'; ER='errors.go'; RP='schemaReferencePool.go'

# ---- C01
m('num-excl-min-float','C01',V,'''		if float64Value.Cmp(currentSubSchema.exclusiveMinimum) <= 0 {''','''		limit, _ := currentSubSchema.exclusiveMinimum.Float64()
		if f, _ := float64Value.Float64(); f <= limit {''',
 'a number that differs from the limit by less than one float64 ulp','exclusiveMinimum compared in float64','eq(t, errs(`{"exclusiveMinimum": 0.1}`, `0.10000000000000000001`), "")')
m('num-multiple-remainder','C01',V,'''		if q := new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf); !q.IsInt() {''','''		if q := new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf); !q.IsInt() && q.Sign() > 0 {''',
 'a negative number that is not a multiple','multipleOf not enforced for negative numbers','eq(t, errs(`{"multipleOf": 2}`, `-3`), "multiple_of@(root)")')
m('num-draft4-excl-max','C01',S,'''			if m[KEY_EXCLUSIVE_MAXIMUM].(bool) {
				currentSchema.exclusiveMaximum = currentSchema.maximum
				currentSchema.maximum = nil
			}
		case Hybrid:''','''			if m[KEY_EXCLUSIVE_MAXIMUM].(bool) && currentSchema.minimum == nil {
				currentSchema.exclusiveMaximum = currentSchema.maximum
				currentSchema.maximum = nil
			}
		case Hybrid:''','draft-4 schema with minimum and exclusiveMaximum: true','boolean exclusiveMaximum ignored next to minimum',
 'eq(t, errs(`{"$schema":"http://json-schema.org/draft-04/schema#","minimum":1,"maximum":3,"exclusiveMaximum":true}`, `3`), "number_lt@(root)")')
m('num-hybrid-excl-min-keeps','C01',S,'''			} else if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
				currentSchema.exclusiveMinimum = exclusiveMinimumValue''','''			} else if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
				currentSchema.exclusiveMinimum = exclusiveMinimumValue
				currentSchema.minimum = nil''','hybrid draft, numeric minimum and exclusiveMinimum together','minimum dropped when exclusiveMinimum is a number',
 'eq(t, errs(`{"minimum":5,"exclusiveMinimum":1}`, `3`), "number_gte@(root)")')
m('num-max-else','C01',V,'''	if currentSubSchema.exclusiveMaximum != nil {
		if float64Value.Cmp(currentSubSchema.exclusiveMaximum) >= 0 {''','''	if currentSubSchema.maximum == nil && currentSubSchema.exclusiveMaximum != nil {
		if float64Value.Cmp(currentSubSchema.exclusiveMaximum) >= 0 {''','maximum and a smaller numeric exclusiveMaximum','exclusiveMaximum ignored next to maximum',
 'eq(t, errs(`{"maximum":5,"exclusiveMaximum":3}`, `4`), "number_lt@(root)")')
m('num-min-int-shortcut','C01',V,'''		if float64Value.Cmp(currentSubSchema.minimum) == -1 {''','''		if float64Value.Num().Cmp(currentSubSchema.minimum.Num()) == -1 && float64Value.Cmp(currentSubSchema.minimum) == -1 {''','a fractional number below the minimum with larger numerator','minimum accepts some fractions',
 'eq(t, errs(`{"minimum": 1}`, `0.75`), "number_gte@(root)")')
m('num-normalise-number','C01',U,'''		float64Value, success := new(big.Rat).SetString(string(number))
		if success {
			return float64Value
		}''','''		float64Value, err := number.Float64()
		if err == nil {
			return new(big.Rat).SetFloat64(float64Value)
		}''','a limit with no exact float64','limits rounded to float64 when compiled','eq(t, errs(`{"maximum": 0.1}`, `0.1`), "")\n\teq(t, errs(`{"maximum": 1.1}`, `1.1`), "")\n\teq(t, errs(`{"multipleOf": 0.01}`, `0.35`), "")')
# ---- C02
m('str-min-bytes','C02',V,'''		if utf8.RuneCount([]byte(stringValue)) < int(*currentSubSchema.minLength) {''','''		if len(stringValue) < int(*currentSubSchema.minLength) {''','a multi-byte string shorter than minLength','minLength counts bytes',
 'eq(t, errs(`{"minLength":2}`, `"\\u00e9"`), "string_gte@(root)")')
m('str-pattern-anchored','C02',S,'''			regexpObject, err := regexp.Compile(m[KEY_PATTERN].(string))''','''			regexpObject, err := regexp.Compile("(?m)" + m[KEY_PATTERN].(string))''','a multi-line string and an anchored pattern','anchors match at line breaks',
 'eq(t, errs(`{"pattern":"^b$"}`, `"a\\nb"`), "pattern@(root)")')
m('str-max-skip-empty-pattern','C02',V,'''	if currentSubSchema.maxLength != nil {
		if utf8.RuneCount''','''	if currentSubSchema.maxLength != nil && *currentSubSchema.maxLength > 0 {
		if utf8.RuneCount''','maxLength 0','maxLength 0 not enforced','eq(t, errs(`{"maxLength":0}`, `"a"`), "string_lte@(root)")')
m('str-pattern-after-length','C02',V,'''	// pattern:
	if currentSubSchema.pattern != nil {''','''	// pattern:
	if currentSubSchema.pattern != nil && stringValue != "" {''','the empty string against a pattern','pattern not enforced on empty strings','eq(t, errs(`{"pattern":"^a"}`, `""`), "pattern@(root)")')
# ---- C03
m('obj-required-null','C03',V,'''		_, ok := value[requiredProperty]
		if ok {''','''		if value[requiredProperty] != nil {''','a required member whose value is null','required treats null as absent','eq(t, errs(`{"required":["a"]}`, `{"a":null}`), "")')
m('obj-dependency-null','C03',V,'''							if _, dependencyResolved := currentNode.(map[string]interface{})[dependOnKey]; !dependencyResolved {''','''							if dependencyResolved := currentNode.(map[string]interface{})[dependOnKey]; dependencyResolved == nil {''','a dependency satisfied by a null member','dependencies treat null as absent','eq(t, errs(`{"dependencies":{"a":["b"]}}`, `{"a":1,"b":null}`), "")')
m('obj-dep-return','C03',V,'''								result.addInternalError(
									new(MissingDependencyError),
									context,
									currentNode,
									ErrorDetails{"dependency": dependOnKey},
								)
''','''								result.addInternalError(
									new(MissingDependencyError),
									context,
									currentNode,
									ErrorDetails{"dependency": dependOnKey},
								)
								break
''','two missing dependencies of one key','only the first missing dependency is reported','eq(t, errs(`{"dependencies":{"a":["b","c"]}}`, `{"a":1}`), "missing_dependency@(root) missing_dependency@(root)")')
m('obj-propnames-valid-break','C03',V,'''				result.mergeErrors(validationResult)
			}
		}
	}

	result.incrementScore()
}

func (v *subSchema) validatePatternProperty''','''				result.mergeErrors(validationResult)
				break
			}
		}
	}

	result.incrementScore()
}

func (v *subSchema) validatePatternProperty''','two invalid property names','only one invalid name reported','eq(t, errs(`{"propertyNames":{"maxLength":1}}`, `{"aa":1,"bb":1}`), "invalid_property_name@(root) invalid_property_name@(root) string_lte@(root) string_lte@(root)")')
m('obj-minprops-nonempty','C03',V,'''		if len(value) < int(*currentSubSchema.minProperties) {''','''		if len(value) > 0 && len(value) < int(*currentSubSchema.minProperties) {''','the empty object against minProperties','minProperties accepts {}','eq(t, errs(`{"minProperties":2}`, `{}`), "array_min_properties@(root)")')
# ---- C04
m('mem-found-empty','C04',V,'''			if pk == spValue.property {
				found = true
			}''','''			if pk == spValue.property && value[pk] != nil {
				found = true
			}''','a declared member with null value and additionalProperties','a null member counts as additional','eq(t, errs(`{"properties":{"a":{}},"additionalProperties":false}`, `{"a":null}`), "")')
m('mem-pattern-first','C04',V,'''			result.mergeErrors(validationResult)
		}
	}

	if !validated {
		return false
	}''','''			result.mergeErrors(validationResult)
			if !validationResult.Valid() {
				break
			}
		}
	}

	if !validated {
		return false
	}''','a member matched by two failing patterns','only one failing pattern reported','''for i := 0; i < 20; i++ {
		eq(t, errs(`{"patternProperties":{"^a":{"type":"string"},"b$":{"type":"boolean"}}}`, `{"ab":1}`), "invalid_type@(root).ab invalid_type@(root).ab")
	}''')
m('mem-pattern-skip-found','C04',V,'''		ppMatch := v.validatePatternProperty(currentSubSchema, pk, value[pk], result, context)''','''		ppMatch := !found && v.validatePatternProperty(currentSubSchema, pk, value[pk], result, context)''','a member in both properties and patternProperties','patternProperties skipped for declared members','eq(t, errs(`{"properties":{"a":{}},"patternProperties":{"a":{"type":"string"}}}`, `{"a":1}`), "invalid_type@(root).a")')
m('mem-addl-inherits','C04',V,'''			case *subSchema:
				validationResult := ap.subValidateWithContext(value[pk], NewJsonContext(pk, context))
				result.mergeErrors(validationResult)''','''			case *subSchema:
				if value[pk] == nil {
					continue
				}
				validationResult := ap.subValidateWithContext(value[pk], NewJsonContext(pk, context))
				result.mergeErrors(validationResult)''','a null additional member','additionalProperties schema not applied to null','eq(t, errs(`{"additionalProperties":{"type":"string"}}`, `{"a":null}`), "invalid_type@(root).a")')
m('mem-pattern-anchor','C04',V,'''		if matches, _ := regexp.MatchString(pk, key); matches {''','''		if matches, _ := regexp.MatchString("^(?:"+pk+")", key); matches {''','a pattern that matches only inside the name','patternProperties anchored at the start','eq(t, errs(`{"patternProperties":{"b":{"type":"string"}}}`, `{"ab":1}`), "invalid_type@(root).ab")')
# ---- C05
m('arr-addl-off','C05',V,'''					for i := nbItems; i != nbValues; i++ {''','''					for i := nbItems; i < nbValues-1; i++ {''','an invalid last additional item','additionalItems skips the last element','eq(t, errs(`{"items":[{}],"additionalItems":{"type":"string"}}`, `[1,"a",2]`), "invalid_type@(root).2")')
m('arr-contains-empty','C05',V,'''		if !validatedOne {
			result.addInternalError(
				new(ArrayContainsError),''','''		if !validatedOne && nbValues > 0 {
			result.addInternalError(
				new(ArrayContainsError),''','the empty array against contains','contains accepts []','eq(t, errs(`{"contains":{}}`, `[]`), "contains@(root)")')
m('arr-tuple-stop','C05',V,'''				validationResult := currentSubSchema.itemsChildren[i].subValidateWithContext(value[i], subContext)
				result.mergeErrors(validationResult)
			}''','''				validationResult := currentSubSchema.itemsChildren[i].subValidateWithContext(value[i], subContext)
				result.mergeErrors(validationResult)
				if !validationResult.Valid() {
					break
				}
			}''','two failing tuple positions','only the first failing position reported','eq(t, errs(`{"items":[{"type":"string"},{"type":"string"}]}`, `[1,2]`), "invalid_type@(root).0 invalid_type@(root).1")')
m('arr-addl-false-le','C05',V,'''			if nbItems < nbValues {''','''			if nbItems+1 < nbValues {''','exactly one additional element','one additional item allowed','eq(t, errs(`{"items":[{}],"additionalItems":false}`, `[1,2]`), "array_no_additional_items@(root)")')
m('arr-max-skip-with-min','C05',V,'''	if currentSubSchema.maxItems != nil {
		if nbValues''','''	if currentSubSchema.maxItems != nil && !currentSubSchema.itemsChildrenIsSingleSchema {
		if nbValues''','items schema together with maxItems','maxItems not enforced when items is a schema','eq(t, errs(`{"items":{},"maxItems":1}`, `[1,2]`), "array_max_items@(root)")')
# ---- C06
m('eq-unique-raw','C06',V,'''			vString, err := marshalWithoutNumber(v)
			if err != nil {
				result.addInternalError(new(InternalError), context, value,''','''			vString, err := marshalToJSONString(v)
			if err != nil {
				result.addInternalError(new(InternalError), context, value,''','equal numbers written differently','uniqueItems compares literals','eq(t, errs(`{"uniqueItems":true}`, `[1, 1.0]`), "unique@(root)")')
m('eq-unique-forget','C06',V,'''			if i, ok := stringifiedItems[*vString]; ok {''','''			if i, ok := stringifiedItems[*vString]; ok && i == j-1 {''','equal elements that are not adjacent','uniqueItems misses non-adjacent duplicates','eq(t, errs(`{"uniqueItems":true}`, `[1,2,1]`), "unique@(root)")')
m('eq-const-null','C06',S,'''	if existsMapKey(m, KEY_CONST) && *currentSchema.draft >= Draft6 {''','''	if existsMapKey(m, KEY_CONST) && m[KEY_CONST] != nil && *currentSchema.draft >= Draft6 {''','const: null','const null not enforced','eq(t, errs(`{"const":null}`, `1`), "const@(root)")')
m('eq-enum-first','C06',U,'''	for i := range s {
		if s[i] == what {
			return true
		}
	}
	return false
}

// index''','''	for i := range s {
		if len(s[i]) == len(what) && strings.EqualFold(s[i], what) {
			return true
		}
	}
	return false
}

// index''','values that differ in letter case only','enum/required/type names compared case-insensitively','eq(t, errs(`{"enum":["a","b"]}`, `"A"`), "enum@(root)")',[(U,'	"reflect"\n','	"reflect"\n	"strings"\n')])
m('eq-const-raw','C06',S,'''		is, err := marshalWithoutNumber(m[KEY_CONST])''','''		is, err := marshalToJSONString(m[KEY_CONST])''','a const written 1.0','const side not normalised','eq(t, errs(`{"const":1.0}`, `1`), "")')
# ---- C07
m('type-int-notation','C07',U,'''	return isValidNumber && bigFloat.IsInt()
''','''	return isValidNumber && bigFloat.IsInt() && !strings.ContainsAny(string(jsonNumber), "eE")
''','an integral number in exponent notation','1e2 is not an integer','eq(t, errs(`{"type":"integer"}`, `1e2`), "")',[(U,'	"reflect"\n','	"reflect"\n	"strings"\n')])
m('type-null-any','C07',V,'''		if currentSubSchema.types.IsTyped() && !currentSubSchema.types.Contains(TYPE_NULL) {''','''		if len(currentSubSchema.types.types) == 1 && !currentSubSchema.types.Contains(TYPE_NULL) {''','null against a list of two types','null accepted by type lists','eq(t, errs(`{"type":["string","number"]}`, `null`), "invalid_type@(root)")')
m('type-given-number','C07',V,'''				givenType := TYPE_INTEGER
				if !isInt {''','''				givenType := TYPE_INTEGER
				if !isInt || currentSubSchema.types.Contains(TYPE_INTEGER) {''','none (dead)','nothing','',)
M.pop()
m('type-contains-prefix','C07','schemaType.go','''	for _, v := range t.types {
		if v == etype {
			return true
		}
	}''','''	for _, v := range t.types {
		if v == etype || v == TYPE_NUMBER && etype == TYPE_INTEGER {
			return true
		}
	}''','type list ["number","integer"]','a list of number and integer is rejected as a duplicate','eq(t, errs(`{"type":["number","integer"]}`, `1`), "")')
# ---- C08
m('cmb-oneof-early','C08',V,'''			if validationResult.Valid() {
				nbValidated++
			} else if nbValidated == 0''','''			if validationResult.Valid() {
				nbValidated++
				if len(oneOfSchema.types.types) > 0 {
					break
				}
			} else if nbValidated == 0''','two matching alternatives, the first typed','oneOf stops after a typed match','eq(t, errs(`{"oneOf":[{"type":"integer"},{"minimum":0}]}`, `1`), "number_one_of@(root)")')
m('cmb-if-else-only','C08',V,'''	if currentSubSchema._if != nil {''','''	if currentSubSchema._if != nil && currentSubSchema._then != nil {''','if with else and no then','else ignored without then','eq(t, errs(`{"if":{"type":"string"},"else":{"minimum":5}}`, `1`), "condition_else@(root) number_gte@(root)")')
m('cmb-not-null','C08',V,'''	if currentSubSchema.not != nil {''','''	if currentSubSchema.not != nil && currentNode != nil {''','a null document under not','not skipped for null','eq(t, errs(`{"not":{"type":"null"}}`, `null`), "number_not@(root)")')
m('cmb-anyof-last','C08',V,'''			if !validatedAnyOf {
				validationResult''','''			if !validatedAnyOf || anyOfSchema.pass != nil {
				validationResult''','a later boolean alternative','anyOf overwritten by a later false','eq(t, errs(`{"anyOf":[{"type":"integer"},false]}`, `1`), "")')
m('cmb-allof-count','C08',V,'''		if nbValidated != len(currentSubSchema.allOf) {''','''		if nbValidated == 0 {''','some but not all subschemas fail','allOf reports its error only if all fail','eq(t, errs(`{"allOf":[{"type":"integer"},{"minimum":5}]}`, `1`), "number_all_of@(root) number_gte@(root)")')
m('cmb-bool-root','C08',V,'''		if !*currentSubSchema.pass {
			result''','''		if !*currentSubSchema.pass && currentNode != nil {
			result''','null against the schema false','false accepts null','eq(t, errs(`{"properties":{"a":false}}`, `{"a":null}`), "false@(root).a")')
m('cmb-ref-second','C08',V,'''		v.validateRecursive(currentSubSchema.refSchema, currentNode, result, context)
		return''','''		if currentSubSchema.refSchema != v.refSchema || context.tail == nil {
			v.validateRecursive(currentSubSchema.refSchema, currentNode, result, context)
		}
		return''','a $ref reached below the root with the receiver the same','nested refs skipped','eq(t, errs(`{"definitions":{"s":{"type":"string"}},"items":{"$ref":"#/definitions/s"}}`, `[1]`), "invalid_type@(root).0")')
# ---- C09
m('rep-shared-details','C09',V,'''				new(AdditionalPropertyNotAllowedError),
						context,
						value[pk],''','''				new(AdditionalPropertyNotAllowedError),
						context,
						value,''','the reported value of an additional property','the whole object reported as value','eq(t, vals(`{"additionalProperties":false}`, `{"a":7}`), "7")')
m('rep-merge-valid','C05',R,'''	v.errors = append(v.errors, otherResult.Errors()...)''','''	if len(v.errors) == 0 {
		v.errors = append(v.errors, otherResult.Errors()...)
	} else {
		for _, e := range otherResult.Errors() {
			if e.Type() != v.errors[len(v.errors)-1].Type() {
				v.errors = append(v.errors, e)
			}
		}
	}''','two errors of the same type from different subschemas','errors of the same type are dropped','eq(t, errs(`{"items":{"type":"string"}}`, `[1,2]`), "invalid_type@(root).0 invalid_type@(root).1")')
m('rep-detail-max','C09',V,'''				ErrorDetails{"max": *currentSubSchema.maxProperties},''','''				ErrorDetails{"max": len(value)},''','the max detail of maxProperties','detail max is the count','eq(t, descs(`{"maxProperties":1}`, `{"a":1,"b":1}`), "Must have at most 1 properties")')
m('rep-desc-then','C09','errors.go','''		d = locale.ConditionElse()''','''		d = locale.ConditionThen()''','the message of else','else described as then','if !strings.Contains(descs(`{"if":{"type":"string"},"else":{"type":"null"}}`, `1`), "else") { t.Fatal("then") }')
# ---- C10
m('ctx-contains-index','C10',V,'''		for i, v := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)
''','''		for i, v := range value {
			subContext := NewJsonContext(strconv.Itoa(i+1), context)
''','the context of contains sub-errors','index off by one','eq(t, errs(`{"contains":{"type":"string"}}`, `[1]`), "contains@(root) invalid_type@(root).0")')
m('ctx-additem','C10',V,'''					for i := nbItems; i != nbValues; i++ {
						subContext := NewJsonContext(strconv.Itoa(i), context)''','''					for i := nbItems; i != nbValues; i++ {
						subContext := NewJsonContext(strconv.Itoa(i-nbItems), context)''','errors of additional items','index relative to the tuple','eq(t, errs(`{"items":[{}],"additionalItems":{"type":"string"}}`, `[1,2]`), "invalid_type@(root).1")')
m('ctx-string-del','C10','jsonContext.go','''		if len(del) > 0 {
			buf.WriteString(del[0])''','''		if len(del) > 0 && c.tail.tail != nil {
			buf.WriteString(del[0])''','a custom delimiter','first delimiter is always a dot','''c := NewJsonContext("b", NewJsonContext("a", NewJsonContext("r", nil)))
	eq(t, c.String("/"), "r/a/b")''')
m('ctx-field-trim','C10',R,'''	return strings.TrimPrefix(v.context.String(), STRING_ROOT_SCHEMA_PROPERTY+".")''','''	return strings.TrimLeft(v.context.String(), STRING_ROOT_SCHEMA_PROPERTY+".")''','a member whose name begins with letters of "(root)."','Field eats leading letters','eq(t, fields(`{"properties":{"tor":{"type":"string"}}}`, `{"tor":1}`), "tor")')
# ---- C12
m('pan-enum-nil','C12',V,'''		} else if !isStringInSlice(currentSubSchema.enum, *vString) {''','''		}
		if !isStringInSlice(currentSubSchema.enum, *vString) {''','a number outside float64 under enum','nil dereference','eq(t, errs(`{"enum":[1]}`, `1e400`), "internal@(root)")')
m('pan-oneof-best','C12',V,'''			} else if nbValidated == 0 && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {
				bestValidationResult = validationResult''','''			} else if nbValidated == 0 && validationResult.score > -100 && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {
				bestValidationResult = validationResult''','an alternative with very many errors','nil best result merged','''s := `[`; for i := 0; i < 200; i++ { s += "1," }; s += "1]"
	eq(t, errs(`{"oneOf":[{"items":{"type":"string"}}]}`, s)[:13], "invalid_type@")''')
m('pan-required-elem','C12',S,'''				if isKind(requiredValue, reflect.String) {
					if isStringInSlice''','''				if isKind(requiredValue, reflect.String, reflect.Struct) {
					if isStringInSlice''','a number in required','type assertion panics','eq(t, errs(`{"required":[1]}`, `{}`), "COMPILE")')
m('pan-deps-kind','C12',S,'''				if !isKind(value, reflect.String) {
					return errors.New(formatErrorDescription(
						Locale.MustBeOfType(),
						ErrorDetails{
							"key":  STRING_DEPENDENCY,''','''				if isKind(value, reflect.Map, reflect.Slice, reflect.Struct, reflect.Bool) {
					return errors.New(formatErrorDescription(
						Locale.MustBeOfType(),
						ErrorDetails{
							"key":  STRING_DEPENDENCY,''','null in a dependency list','type assertion on nil','eq(t, errs(`{"dependencies":{"a":[null]}}`, `{}`), "COMPILE")')
# ---- C13
m('cmp-minmax-items','C13',S,'''		if *currentSchema.minLength > *currentSchema.maxLength {''','''		if *currentSchema.minLength > *currentSchema.maxLength && *currentSchema.maxLength > 0 {''','minLength greater than maxLength 0','contradictory lengths accepted','eq(t, errs(`{"minLength":1,"maxLength":0}`, `1`), "COMPILE")')
m('cmp-neg-maxitems','C13',S,'''		if *maxItemsIntegerValue < 0 {''','''		if *maxItemsIntegerValue < -1 {''','maxItems -1','negative count accepted','eq(t, errs(`{"maxItems":-1}`, `1`), "COMPILE")')
m('cmp-multiple-zero','C13',S,'''		if multipleOfValue.Cmp(big.NewRat(0, 1)) <= 0 {''','''		if multipleOfValue.Cmp(big.NewRat(0, 1)) < 0 {''','multipleOf 0','multipleOf 0 accepted (division by zero)','eq(t, errs(`{"multipleOf":0}`, `"x"`), "COMPILE")')
m('cmp-pattern-prop-regex','C13',S,'''					_, err := regexp.MatchString(k, "")
					if err != nil {''','''					_, err := regexp.MatchString(k, "")
					if err != nil && isKind(v, reflect.Map) {''','a bad pattern with a boolean schema','invalid pattern accepted','eq(t, errs(`{"patternProperties":{"(":true}}`, `1`), "COMPILE")')
m('cmp-defs-item','C13',S,'''				if isKind(dv, reflect.Map, reflect.Bool) {

					newSchema''','''				if !isKind(dv, reflect.Map, reflect.Bool) {
					continue
				} else if true {

					newSchema''','a definition that is not a schema','malformed definitions accepted','eq(t, errs(`{"definitions":{"a":1}}`, `1`), "COMPILE")')
m('cmp-required-dup','C13',S,'''					if isStringInSlice(currentSchema.required, requiredValue.(string)) {''','''					if len(currentSchema.required) > 0 && currentSchema.required[len(currentSchema.required)-1] == requiredValue.(string) {''','non-adjacent repeated required name','repeated required accepted','eq(t, errs(`{"required":["a","b","a"]}`, `1`), "COMPILE")')
# ---- C14
m('drf-const-hybrid','C14',S,'''	if existsMapKey(m, KEY_CONTAINS) && *currentSchema.draft >= Draft6 {''','''	if existsMapKey(m, KEY_CONTAINS) && *currentSchema.draft >= Draft7 {''','contains in a draft-6 schema','contains ignored in draft 6','eq(t, errs(`{"$schema":"http://json-schema.org/draft-06/schema#","contains":{"type":"string"}}`, `[1]`), "contains@(root) invalid_type@(root).0")')
m('drf-if-draft6','C14',S,'''	if *currentSchema.draft >= Draft7 {
		if existsMapKey(m, KEY_IF) {''','''	if *currentSchema.draft >= Draft6 {
		if existsMapKey(m, KEY_IF) {''','if in a draft-6 schema','if applied in draft 6','eq(t, errs(`{"$schema":"http://json-schema.org/draft-06/schema#","if":{},"then":{"type":"string"}}`, `1`), "")')
m('drf-excl-d6','C14',S,'''		switch *currentSchema.draft {
		case Draft4:
			if !isKind(m[KEY_EXCLUSIVE_MAXIMUM], reflect.Bool) {''','''		switch *currentSchema.draft {
		case Draft4, Draft6:
			if !isKind(m[KEY_EXCLUSIVE_MAXIMUM], reflect.Bool) {''','numeric exclusiveMaximum in draft 6','draft 6 wants booleans','eq(t, errs(`{"$schema":"http://json-schema.org/draft-06/schema#","exclusiveMaximum":3}`, `3`), "number_lt@(root)")')
m('drf-autodetect-root','C14',L,'''		if detectedDraft != nil {
			draft = *detectedDraft
		}''','''		if detectedDraft != nil && *detectedDraft < draft {
			draft = *detectedDraft
		}''','a loader configured with an older draft than $schema','$schema newer than the configured draft ignored','''sl := NewSchemaLoader(); sl.Draft = Draft4
	s, err := sl.Compile(NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","const":1}`))
	if err != nil { t.Fatal(err) }
	r, _ := s.Validate(NewStringLoader(`2`))
	if r.Valid() { t.Fatal("const ignored") }''')
# ---- C15
m('ref-base-sibling','C15',P,'''					m[KEY_REF] = absoluteRef.String()''','''					m[KEY_REF] = absoluteRef.String()
					if keyID == KEY_ID {
						m[KEY_REF] = jsonReference.String()
					}''','a $ref next to id','ref next to a draft-4 id resolved against the root','''sl := NewSchemaLoader()
	if err := sl.AddSchemas(NewStringLoader(`{"$id":"http://x/y/b.json","type":"string"}`)); err != nil { t.Fatal(err) }
	s, err := sl.Compile(NewStringLoader(`{"$id":"http://x/","items":{"id":"y/","$ref":"b.json"}}`))
	if err != nil { t.Fatal(err) }
	r, _ := s.Validate(NewStringLoader(`[1]`))
	if r.Valid() { t.Fatal("ref lost") }''')
m('ref-enum-literal','C15',P,'''			if k == KEY_CONST || k == KEY_ENUM {''','''			if k == KEY_ENUM {''','a const that contains $ref','const rewritten','eq(t, errs(`{"$id":"http://x/y.json","const":{"$ref":"z.json"}}`, `{"$ref":"z.json"}`), "")')
m('ref-properties-id','C15',P,'''			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {''','''			if k == KEY_PROPERTIES || k == KEY_PATTERN_PROPERTIES {''','a dependency on a member named $id','dependency names treated as keywords','eq(t, errs(`{"$id":"http://x/y.json","dependencies":{"$ref":{"type":"object"},"a":{"$ref":"#/definitions/s"}},"definitions":{"s":{"required":["b"]}}}`, `{"a":1}`), "required@(root)")')
M.pop()
m('ref-dup-ignored','C15',P,'''					if _, ok := p.schemaPoolDocuments[localRef.String()]; ok {
						return''','''					if spd, ok := p.schemaPoolDocuments[localRef.String()]; ok && spd.Draft == draft {
						return''','a second schema with the same $id and another draft','duplicate id accepted','''sl := NewSchemaLoader()
	if err := sl.AddSchemas(NewStringLoader(`{"$id":"http://x/b.json","type":"string"}`)); err != nil { t.Fatal(err) }
	if err := sl.AddSchemas(NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","$id":"http://x/b.json"}`)); err == nil { t.Fatal("duplicate accepted") }''')
m('ref-localref-root','C15',P,'''				p.parseReferencesRecursive(v, *localRef, draft)
			}
		}
	}
	return nil''','''				p.parseReferencesRecursive(v, ref, draft)
			}
		}
	}
	return nil''','a $ref below a nested $id','refs resolved against the outer id','''sl := NewSchemaLoader()
	if err := sl.AddSchema("http://x/y/b.json", NewStringLoader(`{"type":"string"}`)); err != nil { t.Fatal(err) }
	s, err := sl.Compile(NewStringLoader(`{"$id":"http://x/","items":{"$id":"y/","items":{"$ref":"b.json"}}}`))
	if err != nil { t.Fatal(err) }
	r, _ := s.Validate(NewStringLoader(`[[1]]`))
	if r.Valid() { t.Fatal("ref lost") }''')
m('ref-pool-get','C15',P,'''		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}''','''		spd = &schemaPoolDocument{Document: document, Draft: draft}''','a fragment of a pooled document of another draft','fragment compiled in the referrer draft','''sl := NewSchemaLoader()
	if err := sl.AddSchema("http://x/b.json", NewStringLoader(`{"$schema":"http://json-schema.org/draft-04/schema#","definitions":{"s":{"const":1}}}`)); err != nil { t.Fatal(err) }
	s, err := sl.Compile(NewStringLoader(`{"$ref":"http://x/b.json#/definitions/s"}`))
	if err != nil { t.Fatal(err) }
	r, _ := s.Validate(NewStringLoader(`2`))
	if !r.Valid() { t.Fatal("const in draft 4") }''')
m('ref-fragment-cache','C15',P,"""		p.schemaPoolDocuments[reference.String()] = spd

		return spd, nil""","""		p.schemaPoolDocuments[refToURL.String()] = spd

		return spd, nil""",'a reference to a part of a registered document followed by one to another part','the part replaces the document in the pool','''sl := NewSchemaLoader()
	if err := sl.AddSchema("http://x/b.json", NewStringLoader(`{"definitions":{"s":{"type":"string"},"n":{"type":"number"}}}`)); err != nil { t.Fatal(err) }
	if _, err := sl.Compile(NewStringLoader(`{"items":[{"$ref":"http://x/b.json#/definitions/s"},{"$ref":"http://x/b.json#/definitions/n"}]}`)); err != nil { t.Fatal(err) }''')
m('ref-bool-target','C15',S,"""	if !isKind(refdDocumentNode, reflect.Map, reflect.Bool) {
		return errors.New(formatErrorDescription(""","""	if refdDocumentNode == nil {
		return nil
	}

	if !isKind(refdDocumentNode, reflect.Map, reflect.Bool) {
		return errors.New(formatErrorDescription(""",'a reference to a null','a reference to null compiles','eq(t, errs(`{"$ref":"#/default","default":null}`, `1`), "COMPILE")')
m('ref-empty','C15',S,"""	if k, ok := m[KEY_REF].(string); ok {
""","""	if k, ok := m[KEY_REF].(string); ok && k != "" {
""",'a recursive schema that refers to itself with "#"','references to the root of an anonymous schema ignored','eq(t, errs(`{"properties":{"a":{"$ref":"#"}},"required":["b"]}`, `{"a":{},"b":1}`), "required@(root).a")')
m('ref-nested-draft','C14',P,"""					p.schemaPoolDocuments[localRef.String()] = &schemaPoolDocument{Document: document, Draft: draft}
				}""","""					p.schemaPoolDocuments[localRef.String()] = &schemaPoolDocument{Document: document}
				}""",'a nested schema with an identifier inside a registered document of another draft','nested identified schemas compiled in the draft of the referrer','''sl := NewSchemaLoader()
	if err := sl.AddSchema("http://x/b.json", NewStringLoader(`{"$schema":"http://json-schema.org/draft-04/schema#","definitions":{"s":{"id":"http://x/s.json","const":1}}}`)); err != nil { t.Fatal(err) }
	s, err := sl.Compile(NewStringLoader(`{"$ref":"http://x/s.json"}`))
	if err != nil { t.Fatal(err) }
	r, _ := s.Validate(NewStringLoader(`2`))
	if !r.Valid() { t.Fatal("const in draft 4") }''')
m('ref-loaded-draft','C14',P,"""	if *p.autoDetect {
		_, draft, _ = parseSchemaURL(document)
	}
""","""	if *p.autoDetect && refToURL.GetUrl().Fragment == reference.GetUrl().Fragment {
		_, draft, _ = parseSchemaURL(document)
	}
""",'the first reference to a document of another draft has a fragment','a part of a document loaded by reference is compiled in the draft of the referrer','''dir := t.TempDir()
	f := filepath.Join(dir, "b.json")
	if err := os.WriteFile(f, []byte(`{"$schema":"http://json-schema.org/draft-04/schema#","definitions":{"s":{"const":1}}}`), 0o600); err != nil { t.Fatal(err) }
	s, err := NewSchema(NewStringLoader(`{"$ref":"file://`+filepath.ToSlash(f)+`#/definitions/s"}`))
	if err != nil { t.Fatal(err) }
	r, _ := s.Validate(NewStringLoader(`2`))
	if !r.Valid() { t.Fatal("const in draft 4") }''')
m('ref-url-reuse','C15',P,"""	if _, ok := p.schemaPoolDocuments[reference]; pooled && ok {""","""	if spd, ok := p.schemaPoolDocuments[reference]; pooled && ok && spd.Draft == nil {""",'two schemas added under one URL, the first of which names its draft','a second schema under the same URL replaces the first','''sl := NewSchemaLoader()
	if err := sl.AddSchema("http://x/b.json", NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","type":"string"}`)); err != nil { t.Fatal(err) }
	if err := sl.AddSchema("http://x/b.json", NewStringLoader(`{"type":"number"}`)); err == nil { t.Fatal("accepted twice") }''')
m('ref-array-walk','C15',P,"""	case []interface{}:
		for _, v := range m {
			p.parseReferencesRecursive(v, ref, draft)
		}""","""	case []interface{}:
		for _, v := range m {
			if err := p.parseReferencesRecursive(v, ref, draft); err != nil {
				break
			}
		}""",'a list of schemas, one of which repeats an identifier','references in the elements after it are not resolved','''sl := NewSchemaLoader()
	if err := sl.AddSchema("http://x/b.json", NewStringLoader(`{"type":"string"}`)); err != nil { t.Fatal(err) }
	if _, err := sl.Compile(NewStringLoader(`{"$id":"http://x/a.json","allOf":[{"$id":"c.json"},{"$id":"c.json"},{"$ref":"b.json"}]}`)); err != nil { t.Fatal(err) }''')
m('ref-pool-key','C15',RP,"""	if _, ok := p.documents[ref]; !ok {
		p.documents[ref] = sch""","""	if i := strings.LastIndex(ref, "/items/"); i >= 0 {
		ref = ref[:i+7]
	}
	if _, ok := p.documents[ref]; !ok {
		p.documents[ref] = sch""",'a schema in which some reference ends in /items/ (a definition with the empty name)','an unrelated compiled reference is used','eq(t, errs(`{"properties":{"a":{"$ref":"#/definitions/items/x"},"b":{"$ref":"#/definitions/items/"}},"definitions":{"items":{"x":{"type":"string"},"":{"type":"number"}}}}`, `{"b":"x"}`), "invalid_type@(root).b")', more=[(RP,'import (\n\t"fmt"\n)','import (\n\t"fmt"\n\t"strings"\n)')])
# ---- C16
m('cfg-addschemas-skip','C16',L,'''		if sl.Validate {
			if err := sl.validateMetaschema(doc); err != nil {
				return err
			}
		}

		// Directly''','''		if sl.Validate && sl.Draft != Hybrid {
			if err := sl.validateMetaschema(doc); err != nil {
				return err
			}
		}

		// Directly''','AddSchemas with $schema on the default loader','meta-schema check skipped','''sl := NewSchemaLoader(); sl.Validate = true
	if err := sl.AddSchemas(NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","$id":"http://x/","minLength":-1}`)); err == nil { t.Fatal("accepted") }''')
m('cfg-draft-sticky','C16',L,'''	err = d.parse(doc, draft)
	if err != nil {
		return nil, err
	}
''','''	sl.Draft = draft
	err = d.parse(doc, draft)
	if err != nil {
		return nil, err
	}
''','a second Compile after one with $schema','the detected draft becomes the default','''sl := NewSchemaLoader()
	sl.Compile(NewStringLoader(`{"$schema":"http://json-schema.org/draft-04/schema#"}`))
	if sl.Draft != Hybrid { t.Fatal(sl.Draft) }''')
m('cfg-invalid-nonstrict','C16',L,'''	if !result.Valid() {
		var res''','''	if len(result.Errors()) > 1 {
		var res''','a schema with exactly one meta-schema error','accepted','''sl := NewSchemaLoader(); sl.Validate = true; sl.Draft = Draft7
	if _, err := sl.Compile(NewStringLoader(`{"readOnly":1}`)); err == nil { t.Fatal("accepted") }''')
# ---- C17
m('ldr-go-number','C17',J,'''	return decodeJSONUsingNumber(bytes.NewReader(jsonBytes))

}''','''	var document interface{}
	err = json.Unmarshal(jsonBytes, &document)
	return document, err

}''','a Go value with a number','numbers become float64','''d, err := NewGoLoader(map[string]interface{}{"a": 1}).LoadJSON()
	if err != nil { t.Fatal(err) }
	if _, ok := d.(map[string]interface{})["a"].(json.Number); !ok { t.Fatal("not a json.Number") }''')
m('ldr-close-early','C17',J,'''	f, err := l.fs.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()

	bodyBuff, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}

	return decodeJSONUsingNumber(bytes.NewReader(bodyBuff))
''','''	f, err := l.fs.Open(path)
	if err != nil {
		return nil, err
	}

	bodyBuff, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}
	f.Close()

	return decodeJSONUsingNumber(bytes.NewReader(bodyBuff))
''','a file whose reading fails','file left open','''f := &badFile{}
	NewReferenceLoaderFileSystem("file:///x", badFS{f}).LoadJSON()
	if !f.closed { t.Fatal("not closed") }''')
m('ldr-http-2xx','C17',J,'''	if resp.StatusCode != http.StatusOK {''','''	if resp.StatusCode < 200 || resp.StatusCode > 299 {''','a 203 or 206 response','partial content accepted','''srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(206); w.Write([]byte("{}")) }))
	defer srv.Close()
	if _, err := NewReferenceLoader(srv.URL + "/x").LoadJSON(); err == nil { t.Fatal("accepted") }''')
m('ldr-factory-fs','C17',J,'''func (l *jsonReferenceLoader) LoaderFactory() JSONLoaderFactory {
	return &FileSystemJSONLoaderFactory{
		fs: l.fs,
	}
}''','''func (l *jsonReferenceLoader) LoaderFactory() JSONLoaderFactory {
	return &DefaultJSONLoaderFactory{}
}''','references inside a schema loaded through a custom file system','references read from the OS','''fac := NewReferenceLoaderFileSystem("file:///x", badFS{&badFile{}}).LoaderFactory()
	l := fac.New("file:///y").(*jsonReferenceLoader)
	if _, ok := l.fs.(badFS); !ok { t.Fatal("file system lost") }''')
# ---- C18
m('fmt-ipv6-zone','C18',F,'''	return ip != nil && strings.Contains(asString, ":")''','''	return ip != nil && (strings.Contains(asString, ":") || ip.To4() == nil)''','nothing','nothing','')
M.pop()
m('fmt-nonstring','C18',F,'''func (f UUIDFormatChecker) IsFormat(input interface{}) bool {
	asString, ok := input.(string)
	if !ok {
		return true
	}
''','''func (f UUIDFormatChecker) IsFormat(input interface{}) bool {
	asString, ok := input.(string)
	if !ok {
		return input != nil
	}
''','null under format uuid','null rejected','eq(t, errs(`{"format":"uuid"}`, `null`), "")')
m('fmt-rx-hostname','C18',F,'''	return rxHostname.MatchString(asString) && len(asString) < 256''','''	return rxHostname.MatchString(asString) && len(asString) < 255''','a hostname of 255 characters','rejected','''h := strings.Repeat("a.", 127) + "a"
	if !(HostnameFormatChecker{}).IsFormat(h) { t.Fatal(len(h)) }''')
m('fmt-time-layout','C18',F,'''	_, err := time.Parse("2006-01-02", asString)
	return err == nil''','''	_, err := time.Parse("2006-1-2", asString)
	return err == nil''','a date with one-digit month','2020-1-2 accepted','eq(t, errs(`{"format":"date"}`, `"2020-1-2"`), "format@(root)")')
m('fmt-remove','C18',F,'''	lock.Lock()
	delete(c.formatters, name)
	lock.Unlock()
''','''	if !c.Has(name) {
		return c
	}
	lock.Lock()
	c.formatters[name] = nil
	lock.Unlock()
''','a removed checker','removed checker stays as nil','''FormatCheckers.Add("zz", UUIDFormatChecker{}); FormatCheckers.Remove("zz")
	if FormatCheckers.Has("zz") { t.Fatal("still there") }''')
# ---- C11
m('con-has-unlock','C11',F,'''	lock.RLock()
	f, ok := c.formatters[name]
	lock.RUnlock()

	// If''','''	f, ok := c.formatters[name]

	// If''','validation while a checker is added','unlocked map read','''done := make(chan bool)
	go func() { for i := 0; i < 2000; i++ { FormatCheckers.Add(fmt.Sprint("f", i), UUIDFormatChecker{}) }; close(done) }()
	for i := 0; i < 200000; i++ { FormatCheckers.IsFormat("uuid", 1) }
	<-done''')
m('con-callback-lock','C11',F,'''	lock.RLock()
	f, ok := c.formatters[name]
	lock.RUnlock()

	// If''','''	lock.RLock()
	defer lock.RUnlock()
	f, ok := c.formatters[name]

	// If''','a custom checker that changes the registry','deadlock','''FormatCheckers.Add("selfrm", selfRm{})
	done := make(chan bool)
	go func() { FormatCheckers.IsFormat("selfrm", 1); close(done) }()
	select { case <-done: case <-time.After(5*time.Second): t.Fatal("deadlock") }''')
m('con-tpl-lookup','C11','errors.go','''	errorTemplates.RLock()
	tpl = errorTemplates.Lookup(s)
	errorTemplates.RUnlock()
''','''	tpl = errorTemplates.Lookup(s)
''','first use of the message templates from two goroutines','unlocked read of the template set','race:errs(`{"type":"string"}`, `1`)')
m('con-leak-unlock','C11','errors.go','''		tpl, err = tpl.Parse(s)
		errorTemplates.Unlock()

		if err != nil {
			return err.Error()
		}''','''		tpl, err = tpl.Parse(s)
		if err != nil {
			return err.Error()
		}
		errorTemplates.Unlock()''','a message template of a custom locale that does not parse','the template lock is never released','''done := make(chan bool)
	go func() {
		var e InvalidTypeError
		e.SetDetails(ErrorDetails{})
		formatErrorDescription("{{", ErrorDetails{})
		formatErrorDescription("{{", ErrorDetails{})
		close(done)
	}()
	select { case <-done: case <-time.After(5*time.Second): t.Fatal("deadlock") }''')
m('con-add-rlock','C11',F,'''	lock.Lock()
	delete(c.formatters, name)
	lock.Unlock()''','''	lock.RLock()
	delete(c.formatters, name)
	lock.RUnlock()''','removing a checker while validating','registry changed under a read lock','''done := make(chan bool)
	go func() { for i := 0; i < 20000; i++ { FormatCheckers.Add(fmt.Sprint("f", i), UUIDFormatChecker{}); FormatCheckers.Remove(fmt.Sprint("f", i)) }; close(done) }()
	for i := 0; i < 2000000; i++ { FormatCheckers.Has("uuid") }
	<-done''')
m('con-regex-cache','C11',F,'''	_, err := regexp.Compile(asString)
	return err == nil
}

// IsFormat checks if input is a correctly formatted JSON Pointer per''','''	if ok, seen := knownRegex[asString]; seen {
		return ok
	}
	_, err := regexp.Compile(asString)
	knownRegex[asString] = err == nil
	return err == nil
}

// knownRegex caches verdicts of RegexFormatChecker
var knownRegex = map[string]bool{}

// IsFormat checks if input is a correctly formatted JSON Pointer per''','concurrent validation of regex formats','unsynchronised cache','''var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g int) { defer wg.Done(); for i := 0; i < 20000; i++ { (RegexFormatChecker{}).IsFormat(fmt.Sprint("a", g, i)) } }(g)
	}
	wg.Wait()''')
m('con-schema-memo','C11',V,'''	if currentSubSchema.pattern != nil {
		if !currentSubSchema.pattern.MatchString(stringValue) {''','''	if currentSubSchema.pattern != nil {
		if currentSubSchema.format == "" && currentSubSchema.pattern.NumSubexp() == 0 {
			if _, whole := currentSubSchema.pattern.LiteralPrefix(); whole {
				currentSubSchema.pattern.Longest()
			}
		}
		if !currentSubSchema.pattern.MatchString(stringValue) {''','concurrent validation','the shared regexp is changed while others match','race:errs(`{"pattern":"a"}`, `"b"`)')
M.pop()
# ---- C19
m('pur-schema-cache','C19',V,'''	if currentSubSchema.itemsChildrenIsSingleSchema {
		for i := range value {''','''	if currentSubSchema.itemsChildrenIsSingleSchema {
		if len(currentSubSchema.itemsChildren) > 1 {
			currentSubSchema.itemsChildren = currentSubSchema.itemsChildren[:1]
		}
		for i := range value {''','nothing','nothing','')
M.pop()
m('pur-required-consume','C19',V,'''	for _, requiredProperty := range currentSubSchema.required {
		_, ok := value[requiredProperty]
		if ok {
			result.incrementScore()''','''	for i, requiredProperty := range currentSubSchema.required {
		_, ok := value[requiredProperty]
		if ok {
			// most likely present again: check it last next time
			last := len(currentSubSchema.required) - 1
			currentSubSchema.required[i], currentSubSchema.required[last] = currentSubSchema.required[last], currentSubSchema.required[i]
			result.incrementScore()''','a list of required names with some present','validation reorders the schema (and skips names)','eq(t, errs(`{"required":["a","b","c"]}`, `{"a":1}`), "required@(root) required@(root)")')
m('pur-doc-default','C19',V,'''				for _, pSchema := range currentSubSchema.propertiesChildren {
					nextNode, ok := castCurrentNode[pSchema.property]
					if ok {''','''				for _, pSchema := range currentSubSchema.propertiesChildren {
					nextNode, ok := castCurrentNode[pSchema.property]
					if !ok && pSchema._const != nil {
						castCurrentNode[pSchema.property] = *pSchema._const
					}
					if ok {''','an absent member with a const schema','validation writes into the document','''doc := map[string]interface{}{}
	s, _ := NewSchema(NewStringLoader(`{"properties":{"a":{"const":1}}}`))
	s.Validate(NewRawLoader(doc))
	if len(doc) != 0 { t.Fatal(doc) }''')
m('pur-minitems-cache','C19',V,'''	if currentSubSchema.minItems != nil {
		if nbValues''','''	if currentSubSchema.minItems != nil {
		if *currentSubSchema.minItems == 0 {
			currentSubSchema.minItems = nil
			return
		}
		if nbValues''','minItems 0 and a first validation','schema modified; later keywords skipped once','eq(t, errs(`{"minItems":0,"uniqueItems":true}`, `[1,1]`), "unique@(root)")')
m('pur-string-details','C19',R,'''	return formatErrorDescription(Locale.ErrorFormat(), ErrorDetails{''','''	if v.details != nil {
		v.details["value"] = valueString
	}
	return formatErrorDescription(Locale.ErrorFormat(), ErrorDetails{''','reading Details after String','String adds a detail','''r, _ := Validate(NewStringLoader(`{"type":"string"}`), NewStringLoader(`1`))
	e := r.Errors()[0]; n := len(e.Details()); _ = e.String()
	if len(e.Details()) != n { t.Fatal(e.Details()) }''')
# ---- C20
m('tab-url-prefix','C20',D,'''		if config.MetaSchemaURL == url {
			return &config.Version''','''		if strings.HasPrefix(url, config.MetaSchemaURL) {
			return &config.Version''','a URL that extends a known one','unknown URL selects a draft','if v := drafts.GetDraftVersion("http://json-schema.org/draft-04/schema2"); v != nil { t.Fatal(*v) }',[(D,'	"reflect"\n','	"reflect"\n	"strings"\n')])
m('tab-meta-content','C20',D,'''"exclusiveMinimum":0},"maximum":{"type":"number"},"exclusiveMaximum":{"type":"number"},"minimum":{"type":"number"},"exclusiveMinimum":{"type":"number"},"maxLength":{"$ref":"#/definitions/nonNegativeInteger"},"minLength":{"$ref":"#/definitions/nonNegativeIntegerDefault0"},"pattern":{"type":"string","format":"regex"},"additionalItems":{"$ref":"#"},"items":{"anyOf":[{"$ref":"#"},{"$ref":"#/definitions/schemaArray"}],"default":true}''','''"exclusiveMinimum":0},"maximum":{"type":"number"},"exclusiveMaximum":{"type":"number"},"minimum":{"type":"number"},"exclusiveMinimum":{"type":"number"},"maxLength":{"$ref":"#/definitions/nonNegativeIntegerDefault0"},"minLength":{"$ref":"#/definitions/nonNegativeIntegerDefault0"},"pattern":{"type":"string"},"additionalItems":{"$ref":"#"},"items":{"anyOf":[{"$ref":"#"},{"$ref":"#/definitions/schemaArray"}],"default":true}''','a draft-7 schema with an invalid pattern regex','meta-schema altered','''s, err := NewSchema(NewReferenceLoader("http://json-schema.org/draft-07/schema#"))
	if err != nil { t.Fatal(err) }
	r, _ := s.Validate(NewStringLoader(`{"pattern":"("}`))
	if r.Valid() { t.Fatal("accepted") }''')
# ---- messages and entry points
m('msg-cache-key','C09',ER,'''		tpl = errorTemplates.New(s)
''','''		tpl = errorTemplates.New(strings.TrimSpace(s))
''','a locale with templates that differ in surrounding blanks','the cache is keyed by something other than the text','''a := formatErrorDescription("{{.x}}!", ErrorDetails{"x": 1}); b := formatErrorDescription(" {{.x}}! ", ErrorDetails{"x": 1}); c := formatErrorDescription("{{.x}}!", ErrorDetails{"x": 1})
	eq(t, a+"|"+b+"|"+c, "1!| 1! |1!")''',[(ER,'	"sync"\n','	"strings"\n	"sync"\n')])
m('msg-funcs-late','C09',ER,'''		if ErrorTemplateFuncs != nil {
			tpl.Funcs(ErrorTemplateFuncs)
		}

		tpl, err = tpl.Parse(s)
''','''		tpl, err = tpl.Parse(s)
		if err == nil && ErrorTemplateFuncs != nil {
			tpl.Funcs(ErrorTemplateFuncs)
		}
''','custom template functions','templates using custom functions fail','''ErrorTemplateFuncs = map[string]interface{}{"shout": strings.ToUpper}
	defer func() { ErrorTemplateFuncs = nil }()
	eq(t, formatErrorDescription("{{shout .x}}?", ErrorDetails{"x": "a"}), "A?")''')
m('msg-exec-err','C09',ER,'''	err = tpl.Execute(&descrAsBuffer, details)
	if err != nil {
		return err.Error()
	}
''','''	if err = tpl.Execute(&descrAsBuffer, details); err != nil && descrAsBuffer.Len() == 0 {
		return err.Error()
	}
''','a template failing after some output','a half rendered message','''if s := formatErrorDescription("abc {{index .x 5}}", ErrorDetails{"x": []int{1}}); s == "abc " { t.Fatal(s) }''')
m('msg-string-desc','C09',R,'''		"description": v.description,
		"value":''','''		"description": v.descriptionFormat,
		"value":''','printing an error whose template has placeholders','String shows the raw template','''r, _ := Validate(NewStringLoader(`{"minimum":5}`), NewStringLoader(`1`))
	if s := r.Errors()[0].String(); strings.Contains(s, "{{") { t.Fatal(s) }''')
m('msg-string-field','C09',R,'''		"field":       v.Field(),
	})''','''		"field":       v.context.head,
	})''','a nested error','String shows the last component only','''r, _ := Validate(NewStringLoader(`{"properties":{"a":{"properties":{"b":{"minimum":5}}}}}`), NewStringLoader(`{"a":{"b":1}}`))
	if s := r.Errors()[0].String(); !strings.HasPrefix(s, "a.b:") { t.Fatal(s) }''')
m('msg-adderror-ctx','C09',R,'''	if _, exists := details["context"]; !exists && err.Context() != nil {
		details["context"] = err.Context().String()
	}

	err.SetDescription(formatErrorDescription(err.DescriptionFormat(), details))

	v.errors''','''	err.SetDescription(formatErrorDescription(err.DescriptionFormat(), details))
	if _, exists := details["context"]; !exists && err.Context() != nil {
		details["context"] = err.Context().String()
	}

	v.errors''','a custom error whose format uses the context','rendered without the context','''e := &ResultErrorFields{}
	e.SetContext(NewJsonContext("x", nil)); e.SetDescriptionFormat("at {{.context}}")
	r := &Result{}; r.AddError(e, ErrorDetails{})
	eq(t, r.Errors()[0].Description(), "at x")''')
m('msg-locale-default','C09',ER,'''		d = locale.ArrayContains()''','''		d = DefaultLocale{}.ArrayContains()''','a custom locale and a contains error','the custom message is ignored','''Locale = customLoc{}
	defer func() { Locale = DefaultLocale{} }()
	if !strings.Contains(descs(`{"contains":{"type":"string"}}`, `[1]`), "CUSTOM") { t.Fatal("default") }''')
m('msg-new-ctx-late','C09',ER,'''	details["field"] = err.Field()

	if _, exists := details["context"]; !exists && context != nil {
		details["context"] = context.String()
	}

	err.SetDescription(formatErrorDescription(err.DescriptionFormat(), details))''','''	err.SetDescription(formatErrorDescription(err.DescriptionFormat(), details))
	details["field"] = err.Field()

	if _, exists := details["context"]; !exists && context != nil {
		details["context"] = context.String()
	}
''','a custom locale whose template uses the field','rendered before the field is known','''Locale = customLoc{}
	defer func() { Locale = DefaultLocale{} }()
	if !strings.Contains(descs(`{"properties":{"a":{"contains":{"type":"string"}}}}`, `{"a":[1]}`), "CUSTOM a") { t.Fatal("no field") }''')
m('ent-validate-nilerr','C23',V,'''	schema, err := NewSchema(ls)
	if err != nil {
		return nil, err
	}
	return schema.Validate(ld)''','''	schema, err := NewSchema(ls)
	if schema == nil && err != nil {
		return &Result{}, nil
	}
	return schema.Validate(ld)''','a schema that does not compile','Validate accepts','''r, err := Validate(NewStringLoader(`{"type":1}`), NewStringLoader(`1`))
	if err == nil { t.Fatal(r.Valid()) }''')
m('ent-load-eof','C23',V,'''	root, err := l.LoadJSON()
	if err != nil {
		return nil, err
	}
	return v.validateDocument(root), nil''','''	root, err := l.LoadJSON()
	if err != nil && root != nil {
		return nil, err
	}
	return v.validateDocument(root), nil''','a document that cannot be loaded','validated as null','''s, _ := NewSchema(NewStringLoader(`{}`))
	if _, err := s.Validate(NewStringLoader(`{`)); err == nil { t.Fatal("no error") }''')
m('ent-newschema-draft','C23','schema.go','''	return NewSchemaLoader().Compile(l)''','''	sl := NewSchemaLoader()
	sl.Draft = Draft7
	return sl.Compile(l)''','a draft-4 style schema without $schema','no hybrid mode','eq(t, errs(`{"minimum":1,"exclusiveMinimum":true}`, `1`), "number_gt@(root)")')
m('ent-compile-ref','C23','schemaLoader.go','''	ref, err := rootSchema.JsonReference()

	if err != nil {
		return nil, err
	}
''','''	ref, err := rootSchema.JsonReference()

	if err != nil {
		ref, _ = gojsonreference.NewJsonReference("#")
	}
''',"a loader that delivers a document but whose reference is invalid",'the error is dropped','''if _, err := NewSchema(badRef{NewStringLoader(`{}`)}); err == nil { t.Fatal("no error") }''')
# ---- second wave
m('w2-not-bool','C08',V,'''	if currentSubSchema.not != nil {
''','''	if currentSubSchema.not != nil && currentSubSchema.not.pass == nil {
''','not with a boolean schema','not: true accepts everything','eq(t, errs(`{"not":true}`, `1`), "number_not@(root)")')
m('w2-dep-single','C03',V,'''		if isKind(currentNode, reflect.Map) {
			for elementKey''','''		if isKind(currentNode, reflect.Map) && len(currentNode.(map[string]interface{})) < 64 {
			for elementKey''','an object with 64 members','dependencies ignored on large objects','''d := "{"
	for i := 0; i < 70; i++ { d += fmt.Sprintf("\\"k%d\\":1,", i) }
	eq(t, errs(`{"dependencies":{"k1":["x"]}}`, d+`"z":1}`), "missing_dependency@(root)")''')
m('w2-prop-empty-name','C04',V,'''					nextNode, ok := castCurrentNode[pSchema.property]
					if ok {''','''					nextNode, ok := castCurrentNode[pSchema.property]
					if ok && pSchema.property != "" {''','a property whose name is the empty string','properties skips the empty name','eq(t, errs(`{"properties":{"":{"type":"string"}}}`, `{"":1}`), "invalid_type@(root).")')
m('w2-addl-dollar','C04',V,'''		if !found && !ppMatch {
''','''		if !found && !ppMatch && !strings.HasPrefix(pk, "$") {
''','a member whose name starts with $','additionalProperties ignores $ names','eq(t, errs(`{"additionalProperties":false}`, `{"$a":1}`), "additional_property_not_allowed@(root)")')
m('w2-items-null','C05',V,'''		for i := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)
			validationResult := currentSubSchema.itemsChildren[0]''','''		for i := range value {
			if value[i] == nil && !currentSubSchema.itemsChildren[0].types.IsTyped() {
				continue
			}
			subContext := NewJsonContext(strconv.Itoa(i), context)
			validationResult := currentSubSchema.itemsChildren[0]''','null elements under an untyped items schema','null elements not checked','eq(t, errs(`{"items":{"enum":[1]}}`, `[null]`), "enum@(root).0")')
m('w2-contains-cap','C05',V,'''		for i, v := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)

			validationResult := currentSubSchema.contains''','''		for i, v := range value {
			if i >= 256 {
				break
			}
			subContext := NewJsonContext(strconv.Itoa(i), context)

			validationResult := currentSubSchema.contains''','a matching element beyond the 256th','contains looks at 256 elements only','''d := "["
	for i := 0; i < 300; i++ { d += "1," }
	eq(t, errs(`{"contains":{"type":"string"}}`, d+`"a"]`), "")''')
m('w2-trim-length','C02',V,'''	stringValue := value.(string)
''','''	stringValue := strings.TrimRight(value.(string), "\\x00")
''','a string that ends in NUL characters','trailing NULs are not counted','eq(t, errs(`{"maxLength":1}`, `"a\\u0000"`), "string_lte@(root)")')
m('w2-number-guard','C01',V,'''			currentSubSchema.minimum != nil || currentSubSchema.exclusiveMinimum != nil {''','''			currentSubSchema.minimum != nil {''','a number that cannot be evaluated under exclusiveMinimum','accepted','eq(t, errs(`{"exclusiveMinimum":1}`, `1e99999999999`), "internal@(root)")')
m('w2-unique-swap','C09',V,'''					ErrorDetails{"type": TYPE_ARRAY, "i": i, "j": j},''','''					ErrorDetails{"type": TYPE_ARRAY, "i": j, "j": i},''','duplicate array items','the indices in the message are exchanged','eq(t, descs(`{"uniqueItems":true}`, `[1,2,1]`), "array items[0,2] must be unique")')
m('w2-names-context','C10',V,'''currentSubSchema.propertyNames.subValidateWithContext(pk, context)''','''currentSubSchema.propertyNames.subValidateWithContext(pk, NewJsonContext(pk, context))''','propertyNames with an invalid name','the context of inner errors names the member','eq(t, errs(`{"propertyNames":{"maxLength":1}}`, `{"ab":1}`), "invalid_property_name@(root) string_lte@(root)")')
m('w2-defs-bool','C13',S,'''				if isKind(dv, reflect.Map, reflect.Bool) {
''','''				if isKind(dv, reflect.Bool) {
					continue
				}
				if isKind(dv, reflect.Map) {
''','a boolean definition in draft 4','accepted','''s := `{"$schema":"http://json-schema.org/draft-04/schema#","definitions":{"a":true}}`
	eq(t, errs(s, `1`), "COMPILE")''')
m('w2-pool-id-draft','C14',P,'''					p.schemaPoolDocuments[localRef.String()] = &schemaPoolDocument{Document: document, Draft: draft}
''','''					p.schemaPoolDocuments[localRef.String()] = &schemaPoolDocument{Document: document}
''','a schema with an identifier reached through it by reference','loses the draft of its document','''s := `{"$schema":"http://json-schema.org/draft-04/schema#","definitions":{"a":{"id":"http://x/a","const":1}},"allOf":[{"$ref":"http://x/a"}]}`
	eq(t, errs(s, `2`), "")''')
m('w2-ap-ref','C13',S,'''			newSchema := &subSchema{property: KEY_ADDITIONAL_PROPERTIES, parent: currentSchema, ref: currentSchema.ref}
			currentSchema.additionalProperties = newSchema
			err := d.parseSchema(m[KEY_ADDITIONAL_PROPERTIES], newSchema)
			if err != nil {
				return errors.New(err.Error())
			}''','''			newSchema := &subSchema{property: KEY_ADDITIONAL_PROPERTIES, parent: currentSchema, ref: currentSchema.ref}
			err := d.parseSchema(m[KEY_ADDITIONAL_PROPERTIES], newSchema)
			if err != nil {
				newSchema.pass = new(bool)
			}
			currentSchema.additionalProperties = newSchema''','a malformed schema under additionalProperties','accepted','eq(t, errs(`{"additionalProperties":{"type":1}}`, `{}`), "COMPILE")')
m('w2-enum-dup-type','C13',S,'''				if isStringInSlice(currentSchema.enum, *is) {
					return''','''				if isStringInSlice(currentSchema.enum, *is) && !isKind(v, reflect.Map) {
					return''','an enum that repeats an object','accepted','eq(t, errs(`{"enum":[{"a":1},{"a":1.0}]}`, `{"a":1}`), "COMPILE")')
m('w2-required-cap','C13',S,'''	currentSchema.required = append(currentSchema.required, requiredValue.(string))''','''	currentSchema.required = append(currentSchema.required[:len(currentSchema.required):len(currentSchema.required)], strings.TrimSpace(requiredValue.(string)))''','a required name with a trailing space','the name is trimmed','eq(t, errs(`{"required":["a "]}`, `{"a":1}`), "required@(root)")',[(S,'''	"regexp"
''','''	"regexp"
	"strings"
''')])
m('w2-pattern-cache','C11',V,'''	for pk, pv := range currentSubSchema.patternProperties {
		if matches, _ := regexp.MatchString(pk, key); matches {''','''	for pk, pv := range currentSubSchema.patternProperties {
		if pv.pattern == nil {
			pv.pattern, _ = regexp.Compile(pk)
		}
		if pv.pattern.MatchString(key) {''','patternProperties whose schema has no pattern of its own','the key pattern is stored as the value pattern during validation','eq(t, errs(`{"patternProperties":{"^a":{}}}`, `{"a":"b"}`), "")')
m('w2-result-pool','C19',V,'''func (v *subSchema) subValidateWithContext(document interface{}, context *JsonContext) *Result {
	result := &Result{}
	v.validateRecursive(v, document, result, context)
	return result
}''','''var subResults = sync.Pool{New: func() interface{} { return &Result{} }}

func (v *subSchema) subValidateWithContext(document interface{}, context *JsonContext) *Result {
	result := subResults.Get().(*Result)
	result.errors = result.errors[:0]
	v.validateRecursive(v, document, result, context)
	subResults.Put(result)
	return result
}''','nested combinators','results are reused while still referenced','''eq(t, errs(`{"anyOf":[{"type":"string"},{"type":"boolean"}]}`, `1`), "invalid_type@(root) number_any_of@(root)")
	eq(t, errs(`{"not":{"anyOf":[{"type":"string"},{"type":"integer"}]}}`, `1`), "number_not@(root)")
	eq(t, errs(`{"if":{"minimum":5},"then":{"type":"string"},"else":{"allOf":[{},{}]}}`, `7`), "condition_then@(root) invalid_type@(root)")
	eq(t, errs(`{"oneOf":[{"type":"string"},{"allOf":[{},{}], "type":"null"},{"properties":{}}]}`, `true`), "")
	eq(t, errs(`{"anyOf":[{"type":"string"},{"enum":[1,2]}]}`, `true`), "enum@(root) number_any_of@(root)")''',[(V,'''	"strings"
''','''	"strings"
	"sync"
''')])
m('w2-validate-restore','C16',L,'''	if err != nil {
		return err
	}

	result := metaSchema.validateDocument(documentNode)
''','''	if err != nil {
		sl.Validate = false
		return err
	}

	result := metaSchema.validateDocument(documentNode)
''','a meta-schema that does not compile','validation is switched off for later schemas','''sl := NewSchemaLoader()
	sl.Validate = true
	sl.AddSchemas(NewStringLoader(`{"$schema":"http://localhost:1/nope"}`))
	if sl.Compile(NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","minLength":-1,"title":1}`)); !sl.Validate { t.Fatal("off") }''')
m('w2-getdoc-fragment','C15',P,'''		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}
		p.schemaPoolDocuments[reference.String()] = spd
''','''		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}
		p.schemaPoolDocuments[refToURL.String()] = spd
''','two references into the same document','the second resolves inside the first','eq(t, errs(`{"definitions":{"a":{"definitions":{}},"b":{"type":"string"}},"allOf":[{"$ref":"#/definitions/a"},{"$ref":"#/definitions/b"}]}`, `1`), "invalid_type@(root) number_all_of@(root)")')
m('w2-walk-defs','C15',P,'''k == KEY_PATTERN_PROPERTIES {
				if child''','''k == KEY_PATTERN_PROPERTIES || k == KEY_ITEMS {
				if child''','identifiers and references directly under items','not resolved','eq(t, errs(`{"$id":"http://x/a","definitions":{"s":{"type":"string"}},"items":{"$ref":"#/definitions/s"}}`, `[1]`), "invalid_type@(root).0")')
m('w2-addschemas-partial','C16',L,'''			if err := sl.validateMetaschema(doc); err != nil {
				return err''','''			if err := sl.validateMetaschema(doc); err != nil {
				continue''','AddSchemas with an invalid schema','ignored silently','''sl := NewSchemaLoader()
	sl.Validate = true
	if sl.AddSchemas(NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","$id":"http://x/y","type":1}`)) == nil { t.Fatal("accepted") }''')
m('w2-int-exp','C07',U,'''	return isValidNumber && bigFloat.IsInt()
''','''	if len(jsonNumber) > 400 {
		return false
	}
	return isValidNumber && bigFloat.IsInt()
''','an integer of more than 400 digits','not an integer','eq(t, errs(`{"type":"integer"}`, strings.Repeat("1", 500)), "")')
m('w2-type-order','C07','schemaType.go','''func (t *jsonSchemaType) Contains(etype string) bool {
''','''func (t *jsonSchemaType) Contains(etype string) bool {
	if len(t.types) == 7 {
		return etype != TYPE_NULL
	}
''','a list of all seven types','null refused','eq(t, errs(`{"type":["array","boolean","integer","number","null","object","string"]}`, `null`), "")')
m('w2-const-empty','C06',S,'''		currentSchema._const = is
''','''		if *is != "[]" {
			currentSchema._const = is
		}
''','const with the empty array','not enforced','eq(t, errs(`{"const":[]}`, `1`), "const@(root)")')
m('w2-enum-empty','C06',V,'''	if len(currentSubSchema.enum) > 0 {
''','''	if len(currentSubSchema.enum) > 0 && !(len(currentSubSchema.enum) == 1 && currentSubSchema.enum[0] == "{}") {
''','enum with only the empty object','not enforced','eq(t, errs(`{"enum":[{}]}`, `1`), "enum@(root)")')
m('w2-fmt-empty','C18',F,'''	f, ok := c.formatters[name]
''','''	f, ok := c.formatters[strings.ToLower(name)]
''','a format registered under a name with capitals','never found','''FormatCheckers.Add("UPPER", selfRm{})
	if !FormatCheckers.Has("UPPER") { t.Fatal("not found") }''')
m('w2-tab-hash','C20',D,'''func (dc draftConfigs) GetDraftVersion(url string) *Draft {
''','''func (dc draftConfigs) GetDraftVersion(url string) *Draft {
	if len(url) > 0 && url[len(url)-1] == '/' {
		url = url[:len(url)-1]
	}
''','a $schema with a trailing slash','taken for a known draft','''if drafts.GetDraftVersion("http://json-schema.org/draft-07/schema/") != nil { t.Fatal("known") }''')
m('w2-reader-twice','C17',J,'''	return decodeJSONUsingNumber(l.buf)''','''	if l.buf.Len() == 0 {
		return nil, nil
	}
	return decodeJSONUsingNumber(l.buf)''','an empty reader','loaded as null','''l, r := NewReaderLoader(strings.NewReader(""))
	_ = r
	if _, err := l.LoadJSON(); err == nil { t.Fatal("no error") }''')
# ---- third wave
JC='jsonContext.go'
m('w3-ctx-cache','C10',JC,'''	head string
	tail *JsonContext
}''','''	head string
	tail *JsonContext
	str  string
}''','String called with one delimiter and then another','the first rendering is kept','''s, _ := NewSchema(NewStringLoader(`{"properties":{"a":{"type":"string"}}}`))
	r, _ := s.Validate(NewStringLoader(`{"a":1}`))
	eq(t, r.Errors()[0].Context().String("/"), "(root)/a")''',[(JC,'return &JsonContext{head, tail}','return &JsonContext{head: head, tail: tail}'),(JC,'''	byteArr := make([]byte, 0, c.stringLen())
''','''	if c.str != "" {
		return c.str
	}
	byteArr := make([]byte, 0, c.stringLen())
'''),(JC,'''	return buf.String()
''','''	c.str = buf.String()
	return c.str
''')])
m('w3-utf16','C02',V,'''		if utf8.RuneCount([]byte(stringValue)) > int(*currentSubSchema.maxLength) {''','''		if len(utf16.Encode([]rune(stringValue))) > int(*currentSubSchema.maxLength) {''','a character outside the basic plane','maxLength counts UTF-16 units','eq(t, errs(`{"maxLength":1}`, `"\\U0001F600"`), "")',[(V,'''	"unicode/utf8"
''','''	"unicode/utf16"
	"unicode/utf8"
''')])
m('w3-minprops-null','C03',V,'''		if len(value) < int(*currentSubSchema.minProperties) {''','''		n := 0
		for _, pv := range value {
			if pv != nil {
				n++
			}
		}
		if n < int(*currentSubSchema.minProperties) {''','members that are null','not counted by minProperties','eq(t, errs(`{"minProperties":1}`, `{"a":null}`), "")')
m('w3-pattern-find','C04',V,'''		if matches, _ := regexp.MatchString(pk, key); matches {''','''		if re, err := regexp.Compile(pk); err == nil && re.FindString(key) != "" {''','a pattern that matches the empty string','patternProperties ignores empty matches','eq(t, errs(`{"patternProperties":{"":{"type":"string"}}}`, `{"a":1}`), "invalid_type@(root).a")')
m('w3-anyof-single','C08',V,'''		if !validatedAnyOf {

''','''		if !validatedAnyOf && len(currentSubSchema.anyOf) == 1 {
			result.mergeErrors(bestValidationResult)
		} else if !validatedAnyOf {

''','anyOf with one alternative','the anyOf error is missing','eq(t, errs(`{"anyOf":[{"type":"string"}]}`, `1`), "invalid_type@(root) number_any_of@(root)")')
m('w3-int32','C13',U,'''			intValue := int(value.Num().Int64())''','''			intValue := int(int32(value.Num().Int64()))''','a limit above 2^31','truncated','eq(t, errs(`{"maxLength":4294967296}`, `"ab"`), "")')
m('w3-contains-hybrid','C14',S,'''	if existsMapKey(m, KEY_CONTAINS) && *currentSchema.draft >= Draft6 {''','''	if existsMapKey(m, KEY_CONTAINS) && *currentSchema.draft >= Draft6 && *currentSchema.draft != Hybrid {''','contains in hybrid mode','ignored','eq(t, errs(`{"contains":{"type":"string"}}`, `[1]`), "contains@(root) invalid_type@(root).0")')
m('w3-body-close','C17',J,'''	defer resp.Body.Close()

	// must return HTTP Status 200 OK
	if resp.StatusCode != http.StatusOK {
		return nil, errors.New(formatErrorDescription(Locale.HttpBadStatus(), ErrorDetails{"status": resp.Status}))
	}
''','''
	// must return HTTP Status 200 OK
	if resp.StatusCode != http.StatusOK {
		return nil, errors.New(formatErrorDescription(Locale.HttpBadStatus(), ErrorDetails{"status": resp.Status}))
	}
	defer resp.Body.Close()
''','a response with an error status','its body is never closed','''closed := false
	http.DefaultTransport = rtFunc(func(*http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 404, Status: "404", Body: clBody{strings.NewReader(""), &closed}}, nil
	})
	NewReferenceLoader("http://x/y").LoadJSON()
	if !closed { t.Fatal("body left open") }''')
m('w3-fmt-readd','C18',F,'''	lock.Lock()
	c.formatters[name] = f
''','''	lock.Lock()
	if _, ok := c.formatters[name]; ok {
		lock.Unlock()
		return c
	}
	c.formatters[name] = f
''','a checker added under a name that is taken','ignored','''c := FormatCheckerChain{formatters: map[string]FormatChecker{"x": UUIDFormatChecker{}}}
	c.Add("x", DateFormatChecker{})
	if !c.IsFormat("x", "2020-01-01") { t.Fatal("old checker") }''')
m('w3-count','C11',V,'''func (v *Schema) validateDocument(root interface{}) *Result {
''','''var validations int

func (v *Schema) validateDocument(root interface{}) *Result {
	validations++
''','concurrent validations','an unprotected counter','race:errs(`{"type":"string"}`, `1`)')
m('w3-errors-sort','C19',R,'''func (v *Result) Errors() []ResultError {
	return v.errors''','''func (v *Result) Errors() []ResultError {
	for i := 1; i < len(v.errors); i++ {
		if v.errors[i].Type() < v.errors[i-1].Type() {
			v.errors[i], v.errors[i-1] = v.errors[i-1], v.errors[i]
		}
	}
	return v.errors''','two errors read twice','each call may give another order','''s, _ := NewSchema(NewStringLoader(`{"type":"object","required":["a"],"maxProperties":0,"additionalProperties":false}`))
	r, _ := s.Validate(NewStringLoader(`{"b":1}`))
	f := func() (x string) { for _, e := range r.Errors() { x += e.Type() }; return }
	a := f()
	for i := 0; i < 3; i++ { eq(t, f(), a) }''')
m('w3-http-empty','C17',J,'''	bodyBuff, err := ioutil.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}
''','''	bodyBuff, err := ioutil.ReadAll(resp.Body)
	if err != nil && len(bodyBuff) == 0 {
		return nil, err
	}
''','a connection that breaks after a complete JSON value','accepted','''closed := false
	http.DefaultTransport = rtFunc(func(*http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 200, Status: "200", Body: clBody{badRd{}, &closed}}, nil
	})
	if _, err := NewReferenceLoader("http://x/y").LoadJSON(); err == nil { t.Fatal("no error") }''')
m('w3-best-nil','C12',V,'''			} else if nbValidated == 0 && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {
				bestValidationResult = validationResult
			}
		}

		if nbValidated != 1 {''','''			} else if nbValidated == 0 && validationResult.score > -64 && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {
				bestValidationResult = validationResult
			}
		}

		if nbValidated != 1 {''','a document with more than 64 errors under oneOf','nil dereference','''d := "["
	for i := 0; i < 100; i++ { d += "1," }
	if errs(`{"oneOf":[{"items":{"type":"string"}}]}`, d+`1]`) == "PANIC" { t.Fatal("panic") }''')
m('w3-merge-limit','C05',R,'''func (v *Result) mergeErrors(otherResult *Result) {
''','''func (v *Result) mergeErrors(otherResult *Result) {
	if otherResult.score > 1000 {
		return
	}
''','a subdocument with a score above 1000','its errors are dropped','''d, p := "{", ""
	for i := 0; i < 1200; i++ { d += fmt.Sprintf("\\"k%d\\":1,", i); p += fmt.Sprintf("\\"k%d\\",", i) }
	eq(t, errs(`{"items":{"required":[`+p+`"zz"]}}`, `[`+d+`"y":1}]`), "required@(root).0")''')
m('w3-then-else','C08',V,'''		if currentSubSchema._else != nil && !validationResultIf.Valid() {''','''		if currentSubSchema._else != nil && !validationResultIf.Valid() && currentSubSchema._else != currentSubSchema._then && !(currentNode == nil) {''','null under if/else','else not enforced for null','eq(t, errs(`{"if":{"type":"string"},"else":{"type":"number"}}`, `null`), "condition_else@(root) invalid_type@(root)")')
m('w3-dep-cycle','C03',V,'''					case *subSchema:
						dependency.validateRecursive(dependency, currentNode, result, context)''','''					case *subSchema:
						if dependency.dependencies[elementKey] == nil {
							dependency.validateRecursive(dependency, currentNode, result, context)
						}''','a schema dependency that has a dependency on the same key','not enforced','eq(t, errs(`{"dependencies":{"a":{"dependencies":{"a":["b"]}}}}`, `{"a":1}`), "missing_dependency@(root)")')
m('w3-req-prefix','C03',V,'''		_, ok := value[requiredProperty]
		if ok {''','''		_, ok := value[requiredProperty]
		if !ok {
			for pk := range value {
				if strings.EqualFold(pk, requiredProperty) {
					ok = true
				}
			}
		}
		if ok {''','a member that differs from the required name in case','accepted','eq(t, errs(`{"required":["a"]}`, `{"A":1}`), "required@(root)")')
m('w3-unique-len','C06',V,'''	if currentSubSchema.uniqueItems {
''','''	if currentSubSchema.uniqueItems && len(value) != 2 {
''','an array of two equal elements','accepted','eq(t, errs(`{"uniqueItems":true}`, `[1,1]`), "unique@(root)")')
m('w3-addl-cap','C05',V,'''					for i := nbItems; i != nbValues; i++ {''','''					for i := nbItems; i != nbValues && i < nbItems+100; i++ {''','more than 100 additional items','not checked','''d := "["
	for i := 0; i < 150; i++ { d += "1," }
	eq(t, errs(`{"items":[{}],"additionalItems":{"type":"number"}}`, d+`"a"]`), "invalid_type@(root).150")''')
m('w3-tuple-ctx','C10',V,'''						subContext := NewJsonContext(strconv.Itoa(i), context)
						validationResult := additionalItemSchema''','''						subContext := NewJsonContext(strconv.Itoa(i-nbItems), context)
						validationResult := additionalItemSchema''','an additional item that fails','its index is counted from the first additional one','eq(t, errs(`{"items":[{}],"additionalItems":{"type":"number"}}`, `[1,"a"]`), "invalid_type@(root).1")')
m('w3-ref-null','C08',V,'''		v.validateRecursive(currentSubSchema.refSchema, currentNode, result, context)
		return''','''		if currentNode != nil || currentSubSchema.refSchema.types.IsTyped() {
			v.validateRecursive(currentSubSchema.refSchema, currentNode, result, context)
		}
		return''','null against a reference to an untyped schema','accepted','eq(t, errs(`{"definitions":{"a":{"enum":[1]}},"$ref":"#/definitions/a"}`, `null`), "enum@(root)")')
m('w3-id-fragment','C15',P,'''				if err == nil {
					localRef = absoluteID''','''				if err == nil && jsonReference.GetUrl().Fragment == "" {
					localRef = absoluteID''','an identifier that is a plain-name fragment','not registered','eq(t, errs(`{"$id":"http://x/a","definitions":{"s":{"$id":"#foo","type":"string"}},"allOf":[{"$ref":"#foo"}]}`, `1`), "invalid_type@(root) number_all_of@(root)")')
m('w3-walk-not','C15',P,'''			if k == KEY_CONST || k == KEY_ENUM {
				continue
			}''','''			if k == KEY_CONST || k == KEY_ENUM || k == "examples" || k == "default" || k == KEY_ADDITIONAL_ITEMS {
				continue
			}''','a reference below additionalItems under an identifier','not resolved against it','eq(t, errs(`{"$id":"http://x/a","definitions":{"s":{"type":"string"}},"items":[{}],"additionalItems":{"$ref":"#/definitions/s"}}`, `[1,2]`), "invalid_type@(root).1")')
m('w3-set-ref-err','C15',S,'''	newSchema := &subSchema{property: KEY_REF, parent: currentSchema, ref: currentSchema.ref}

	d.referencePool.Add(currentSchema.ref.String(), newSchema)
''','''	newSchema := &subSchema{property: KEY_REF, parent: currentSchema, ref: currentSchema.ref}

	if !currentSchema.ref.HasFragmentOnly {
		d.referencePool.Add(currentSchema.ref.String(), newSchema)
	}
''','a recursive schema without identifier','compilation does not end','''done := make(chan string)
	go func() { defer func() { recover() }(); done <- errs(`{"properties":{"a":{"$ref":"#/definitions/x"}},"definitions":{"x":{"type":"string"}}}`, `{"a":1}`) }()
	eq(t, <-done, "invalid_type@(root).a")''')
m('w3-factory','C16',L,'''	sl.pool.jsonLoaderFactory = loaderFactory
	sl.Validate = true
''','''	sl.Validate = true
''','Validate with a schema that has its own file system','references are loaded through the default factory','''eq(t, "a", "a")''')
m('w3-url-unescape','C17',J,'''		filename, err = url.QueryUnescape(filename)

		if err != nil {
			return nil, err
		}
''','''		if u, err := url.QueryUnescape(filename); err == nil {
			filename = u
		}
''','a file reference with a bad escape','opened under the raw name','''if _, err := NewReferenceLoaderFileSystem("file:///a%zz", anyFS{}).LoadJSON(); err == nil { t.Fatal("opened") }''')
m('w3-raw-number','C17',J,'''func (l *jsonRawLoader) LoadJSON() (interface{}, error) {
	return l.source, nil''','''func (l *jsonRawLoader) LoadJSON() (interface{}, error) {
	if l.source == nil {
		return map[string]interface{}{}, nil
	}
	return l.source, nil''','a nil raw document','becomes an empty object','''x, _ := NewRawLoader(nil).LoadJSON()
	if x != nil { t.Fatal(x) }''')
# fourth wave
m('w4-best-min','C24',V,'''				if !validatedAnyOf && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {''','''				if !validatedAnyOf && (bestValidationResult == nil || validationResult.score >= 0 && validationResult.score < bestValidationResult.score) {''','anyOf with alternatives of different scores','the errors of the worst one are quoted','eq(t, errs(`{"anyOf":[{"type":"string"},{"type":"object","required":["a","b"]}]}`, `{"a":1}`), "number_any_of@(root) required@(root)")')
m('w4-oneof-quote','C24',V,'''			if nbValidated == 0 {
				// add''','''			if bestValidationResult != nil {
				// add''','oneOf where the first alternative fails and two others match','the errors of the failing one are added','eq(t, errs(`{"oneOf":[{"type":"string"},{"type":"number"},{"minimum":0}]}`, `1`), "number_one_of@(root)")')
m('w4-contains-all','C24',V,'''				if bestValidationResult == nil || validationResult.score > bestValidationResult.score {
					bestValidationResult = validationResult
				}
			}
		}
		if !validatedOne {''','''				if bestValidationResult == nil || validationResult.score > bestValidationResult.score {
					bestValidationResult = validationResult
				} else if validationResult.score == bestValidationResult.score {
					bestValidationResult.mergeErrors(validationResult)
				}
			}
		}
		if !validatedOne {''','contains where two elements fail alike','the errors of both are quoted','eq(t, errs(`{"contains":{"type":"string"}}`, `[1,2]`), "contains@(root) invalid_type@(root).0")')
m('w4-allof-twice','C24',V,'''			if validationResult.Valid() {
				nbValidated++
			}
			result.mergeErrors(validationResult)
		}

		if nbValidated != len(currentSubSchema.allOf) {
			result''','''			if validationResult.Valid() {
				nbValidated++
			} else if currentSubSchema.not != nil {
				result.mergeErrors(validationResult)
			}
			result.mergeErrors(validationResult)
		}

		if nbValidated != len(currentSubSchema.allOf) {
			result''','allOf beside not','the errors of a failing alternative are reported twice','eq(t, errs(`{"allOf":[{"type":"string"}],"not":{"type":"array"}}`, `1`), "invalid_type@(root) number_all_of@(root)")')
m('w4-then-own','C24',V,'''				result.addInternalError(new(ConditionThenError), context, currentNode, ErrorDetails{})
				result.mergeErrors(validationResultThen)''','''				result.addInternalError(new(ConditionThenError), context, currentNode, ErrorDetails{})
				if currentSubSchema._else == nil || len(validationResultThen.errors) > 1 {
					result.mergeErrors(validationResultThen)
				}''','then with exactly one error beside else','that error is not reported','eq(t, errs(`{"if":{},"then":{"type":"string"},"else":true}`, `1`), "condition_then@(root) invalid_type@(root)")')
m('w4-names-stop','C24',V,'''						"property": pk,
					})
				result.mergeErrors(validationResult)''','''						"property": pk,
					})
				if len(validationResult.errors) == 1 {
					result.mergeErrors(validationResult)
				}''','a name with two violations','they are not reported','eq(t, errs(`{"propertyNames":{"minLength":3,"pattern":"b"}}`, `{"a":1}`), "invalid_property_name@(root) pattern@(root) string_gte@(root)")')
m('w4-minmax-else','C24',V,'''	if currentSubSchema.maxProperties != nil {
		if len(value) > int''','''	if currentSubSchema.maxProperties != nil && len(currentSubSchema.required) == 0 {
		if len(value) > int''','maxProperties beside required','not reported','eq(t, errs(`{"maxProperties":1,"required":["a"]}`, `{"b":1,"c":1}`), "array_max_properties@(root) required@(root)")')
m('w4-type-and','C24',V,'''							"given":    TYPE_STRING,
						},
					)
					return''','''							"given":    TYPE_STRING,
						},
					)
					v.validateCommon(currentSubSchema, currentNode, result, context)
					return''','a string of the wrong type beside enum','enum is reported too','eq(t, errs(`{"type":"number","enum":[1]}`, `"a"`), "invalid_type@(root)")')
m('w4-once-unique','C24',V,'''			stringifiedItems[*vString] = j
		}
	}''','''			stringifiedItems[*vString] = j
			if len(result.errors) > 0 && j+1 == len(value) && currentSubSchema.minItems != nil {
				result.errors = result.errors[:len(result.errors):len(result.errors)]
				for _, e := range result.errors {
					if e.Type() == "unique" {
						result.errors = append(result.errors, e)
					}
				}
			}
		}
	}''','uniqueItems beside minItems','its error is repeated','eq(t, errs(`{"uniqueItems":true,"minItems":1}`, `[1,1]`), "unique@(root)")')
m('w4-best-reset','C24',V,'''		for i, v := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)

			validationResult := currentSubSchema.contains''','''		for i, v := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)
			if i == 2 && !validatedOne {
				bestValidationResult = nil
			}

			validationResult := currentSubSchema.contains''','contains on three elements of which the first came closest','the third is quoted','eq(t, errs(`{"contains":{"type":"object","required":["a","b"]}}`, `[{"a":1},2,3]`), "contains@(root) required@(root).0")')
# fifth wave
m('w5-mult-int','C01',V,'''		if q := new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf); !q.IsInt() {''','''		q := new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf)
		if n, err := number.Int64(); err == nil && currentSubSchema.multipleOf.IsInt() {
			q.SetFrac64(n, currentSubSchema.multipleOf.Num().Int64()|1>>1)
		}
		if !q.IsInt() {''','a multipleOf beyond 64 bits','its low bits are used','eq(t, errs(`{"multipleOf":18446744073709551617}`, `5`), "multiple_of@(root)")')
m('w5-excl-drops-min','C01',S,'''			if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
				currentSchema.exclusiveMinimum = exclusiveMinimumValue
			} else {''','''			if exclusiveMinimumValue := mustBeNumber(m[KEY_EXCLUSIVE_MINIMUM]); exclusiveMinimumValue != nil {
				currentSchema.exclusiveMinimum = exclusiveMinimumValue
				if currentSchema.minimum != nil && currentSchema.minimum.Cmp(exclusiveMinimumValue) < 0 {
					currentSchema.minimum = nil
				}
			} else {''','minimum below exclusiveMinimum, both violated','minimum is not reported','eq(t, errs(`{"$schema":"http://json-schema.org/draft-07/schema#","minimum":1,"exclusiveMinimum":2}`, `0`), "number_gt@(root) number_gte@(root)")')
m('w5-names-first','C03',V,'''						"property": pk,
					})
				result.mergeErrors(validationResult)
''','''						"property": pk,
					})
				result.mergeErrors(validationResult)
				break
''','two members with bad names','only one is reported','eq(t, errs(`{"propertyNames":false}`, `{"a":1,"b":1}`), "false@(root) false@(root) invalid_property_name@(root) invalid_property_name@(root)")')
m('w5-addl-multi','C04',V,'''			case *subSchema:
				validationResult := ap.subValidateWithContext(value[pk], NewJsonContext(pk, context))
				result.mergeErrors(validationResult)
''','''			case *subSchema:
				if value[pk] == nil && ap.types.Contains(TYPE_OBJECT) {
					continue
				}
				validationResult := ap.subValidateWithContext(value[pk], NewJsonContext(pk, context))
				result.mergeErrors(validationResult)
''','null where additionalProperties wants objects','accepted','eq(t, errs(`{"additionalProperties":{"type":"object"}}`, `{"a":null}`), "invalid_type@(root).a")')
m('w5-items-empty-list','C05',S,'''				currentSchema.itemsChildrenIsSingleSchema = false
			}
''','''				currentSchema.itemsChildrenIsSingleSchema = len(m[KEY_ITEMS].([]interface{})) == 1 && existsMapKey(m, KEY_CONTAINS)
			}
''','a list of one items schema beside contains','applied to every element','eq(t, errs(`{"items":[{"type":"string"}],"contains":{}}`, `["a",1]`), "")')
m('w5-unique-sprint','C06',V,'''			vString, err := marshalWithoutNumber(v)
			if err != nil {
				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
				continue
			}
			if i, ok''','''			vString, err := marshalWithoutNumber(v)
			if err != nil {
				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
				continue
			}
			if s, ok := v.(string); ok && s == "null" {
				vString = &s
			}
			if i, ok''','the string null beside null','called duplicates','eq(t, errs(`{"uniqueItems":true}`, `[null,"null"]`), "")')
m('w5-else-if','C08',V,'''		if currentSubSchema._else != nil && !validationResultIf.Valid() {''','''		if currentSubSchema._else != nil && (!validationResultIf.Valid() || currentSubSchema._then == nil) {''','if matches, else without then','else is enforced','eq(t, errs(`{"if":true,"else":false}`, `1`), "")')
m('w5-minlen-max','C13',S,'''		if *currentSchema.minLength > *currentSchema.maxLength {''','''		if *currentSchema.minLength > *currentSchema.maxLength && *currentSchema.maxLength > 0 {''','minLength above maxLength 0','compiles','eq(t, errs(`{"minLength":1,"maxLength":0}`, `1`), "COMPILE")')
m('w5-dep-empty','C13',S,'''		case reflect.Slice:
			values := m[k].([]interface{})
			var valuesToRegister []string
''','''		case reflect.Slice:
			values := m[k].([]interface{})
			if len(values) > 0 && values[0] == k {
				continue
			}
			var valuesToRegister []string
''','a dependency that lists its own key first','dropped','eq(t, errs(`{"dependencies":{"a":["a","b"]}}`, `{"a":1}`), "missing_dependency@(root)")')
m('w5-detect-http','C14',D,'''		schema := schemaReference.String()
''','''		schema := schemaReference.String()
		if n := len(schema); n > 0 && schema[n-1] == '/' {
			schema = schema[:n-1]
		}
''','$schema with a slash at its end','taken for a known draft','eq(t, errs(`{"$schema":"http://json-schema.org/draft-04/schema/","const":1}`, `2`), "const@(root)")')
m('w5-cache-frag','C15',P,'''		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}
		p.schemaPoolDocuments[reference.String()] = spd
''','''		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}
		p.schemaPoolDocuments[refToURL.String()] = spd
''','two fragments of a document','the second is looked up in the first','eq(t, errs(`{"definitions":{"a":{"type":"string"},"b":{"type":"number"}},"allOf":[{"$ref":"#/definitions/a"},{"$ref":"#/definitions/b"}]}`, `true`), "invalid_type@(root) invalid_type@(root) number_all_of@(root)")')
m('w5-meta-bool','C16',L,'''	// If no explicit "$schema" is used, use the default metaschema associated with the draft used
	if schema == "" {
		if sl.Draft == Hybrid {''','''	// If no explicit "$schema" is used, use the default metaschema associated with the draft used
	if schema == "" {
		if _, isBool := documentNode.(bool); sl.Draft == Hybrid || isBool {''','a boolean schema with draft 4 configured and Validate set','not checked','''sl := NewSchemaLoader()
	sl.Validate, sl.Draft = true, Draft4
	if sl.AddSchema("http://x/a", NewStringLoader("true")) == nil { t.Fatal("accepted") }''')
m('w5-go-string','C17',J,'''	jsonBytes, err := json.Marshal(l.JsonSource())
	if err != nil {
		return nil, err
	}
''','''	if s, ok := l.JsonSource().(string); ok {
		return s, nil
	}
	jsonBytes, err := json.Marshal(l.JsonSource())
	if err != nil {
		return nil, err
	}
''','a Go string that is not valid UTF-8','not decoded like other sources','''x, _ := NewGoLoader("a\\xff").LoadJSON()
	if x != "a\\ufffd" { t.Fatalf("%q", x) }''')
m('w5-fmt-ipv6','C18',F,'''	return ip != nil && strings.Contains(asString, ":")''','''	return ip != nil && ip.To4() == nil''','an IPv4-mapped IPv6 address','rejected','''if !(IPV6FormatChecker{}).IsFormat("::ffff:1.2.3.4") { t.Fatal("rejected") }''')
m('w5-fmt-trim','C18',F,'''	// If a format is unrecognized it should always pass validation
	if !ok {
		return true
	}
''','''	// If a format is unrecognized it should always pass validation
	if !ok {
		lock.RLock()
		f, ok = c.formatters[strings.ToLower(name)]
		lock.RUnlock()
		if !ok {
			return true
		}
	}
''','a format name in upper case','checked like the lower-case one','eq(t, errs(`{"format":"DATE"}`, `"x"`), "")')
m('w5-details-field','C19',R,'''func (v *ResultErrorFields) Details() ErrorDetails {
	return v.details''','''func (v *ResultErrorFields) Details() ErrorDetails {
	if v.details != nil {
		v.details["value"] = v.value
	}
	return v.details''','Details called twice','the first call adds an entry','''r, _ := run(`{"type":"string"}`, `1`)
	e := r.Errors()[0].(*InvalidTypeError)
	n := len(e.details)
	e.Details()
	if len(e.details) != n { t.Fatal("changed") }''')
m('w5-meta-slash','C20',D,'''		if config.MetaSchemaURL == url {
			return config.MetaSchema
		}''','''		if config.MetaSchemaURL == url || config.Version == Draft7 && url == "http://json-schema.org/schema" {
			return config.MetaSchema
		}''','http://json-schema.org/schema','served draft 7','''if drafts.GetMetaSchema("http://json-schema.org/schema") != "" { t.Fatal("served") }''')
m('w5-nil-doc','C23',V,'''	root, err := l.LoadJSON()
	if err != nil {
		return nil, err
	}
''','''	root, err := l.LoadJSON()
	if err != nil && root == nil {
		return nil, err
	}
''','a loader that returns data with an error','the error is lost','''s, _ := NewSchema(NewStringLoader(`{}`))
	if _, err := s.Validate(halfLd{NewStringLoader("1")}); err == nil { t.Fatal("no error") }''')
m('w5-ctx-names','C10',V,'''			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)''','''			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, NewJsonContext(pk, context))''','a property name that fails','its errors are placed below the object','eq(t, errs(`{"propertyNames":{"minLength":2}}`, `{"a":1}`), "invalid_property_name@(root) string_gte@(root)")')
m('w5-expected-list','C07','schemaType.go','''	if len(t.types) > 1 {''','''	if len(t.types) > 1 && !t.Contains(TYPE_NULL) {''','a list of types with null','only the first is named','eq(t, descs(`{"type":["string","null"]}`, `1`), "Invalid type. Expected: [string,null], given: integer")')
m('w5-num-details','C09',V,'''				ErrorDetails{
					"min": new(big.Float).SetRat(currentSubSchema.exclusiveMinimum),
				},''','''				ErrorDetails{
					"min": new(big.Float).SetRat(float64Value),
				},''','exclusiveMinimum violated','the message names the value instead of the limit','eq(t, descs(`{"exclusiveMinimum":5}`, `1`), "Must be greater than 5")')
m('w5-enum-null','C12',S,'''				is, err := marshalWithoutNumber(v)
				if err != nil {
					return err
				}
				if isStringInSlice(currentSchema.enum, *is) {''','''				is, err := marshalWithoutNumber(v)
				if err != nil && v != nil {
					return err
				}
				if l, ok := v.([]interface{}); ok && len(l) > 0 && l[0].(string) == "" {
					continue
				}
				if isStringInSlice(currentSchema.enum, *is) {''','an enum entry that is an array of numbers','panics','eq(t, errs(`{"enum":[[1]]}`, `[1]`), "")')
# ---------------- wave 6
m('w6-unique-cut','C06',V,'''			if i, ok := stringifiedItems[*vString]; ok {''','''			if len(*vString) > 256 {
				short := (*vString)[:256]
				vString = &short
			}
			if i, ok := stringifiedItems[*vString]; ok {''','two long elements with a common beginning','reported as equal','''x := strings.Repeat("a", 300)
	eq(t, errs(`{"uniqueItems":true}`, `["`+x+`","`+x+`b"]`), "")''')
m('w6-enum-search','C06',V,'''		} else if !isStringInSlice(currentSubSchema.enum, *vString) {''','''		} else if i := sort.SearchStrings(currentSubSchema.enum, *vString); len(currentSubSchema.enum) > 16 && (i == len(currentSubSchema.enum) || currentSubSchema.enum[i] != *vString) || len(currentSubSchema.enum) <= 16 && !isStringInSlice(currentSubSchema.enum, *vString) {''','an enum of more than 16 values, not sorted','a listed value is rejected','eq(t, errs(`{"enum":[20,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18]}`, `20`), "")',(V,'''	"regexp"
''','''	"regexp"
	"sort"
'''))
m('w6-ctx-reuse','C10',V,'''		for i := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)
			validationResult''','''		subContext := NewJsonContext("", context)
		for i := range value {
			subContext.head = strconv.Itoa(i)
			validationResult''','two failing elements','both are reported at the last one','eq(t, errs(`{"items":{"type":"string"}}`, `[1,2,"a"]`), "invalid_type@(root).0 invalid_type@(root).1")')
m('w6-date-cut','C18',F,'''	_, err := time.Parse("2006-01-02", asString)
	return err == nil''','''	if i := strings.IndexByte(asString, 'T'); i > 0 {
		asString = asString[:i]
	}
	_, err := time.Parse("2006-01-02", asString)
	return err == nil''','a date followed by T and anything','accepted','eq(t, errs(`{"format":"date"}`, `"2020-01-01Tx"`), "format@(root)")')
m('w6-add-before-check','C16',L,'''	if sl.Validate {
		if err := sl.validateMetaschema(doc); err != nil {
			return err
		}
	}

	return sl.pool.parseReferences(doc, ref, true)''','''	err = sl.pool.parseReferences(doc, ref, true)
	if err == nil && sl.Validate {
		err = sl.validateMetaschema(doc)
	}
	return err''','AddSchema of a schema the meta-schema rejects, then a reference to it','it is registered all the same','''sl := NewSchemaLoader()
	sl.Validate, sl.Draft = true, Draft7
	if sl.AddSchema("http://x.example/s", NewStringLoader(`{"type":"nope"}`)) == nil { t.Fatal("accepted") }
	if sl.AddSchema("http://x.example/s", NewStringLoader(`{"type":"string"}`)) != nil { t.Fatal("registered") }''')
m('w6-string-number','C09',R,'''		if vs, err := marshalToJSONString(v.value); err == nil {''','''		if n, ok := v.value.(json.Number); ok {
			if f, err := n.Float64(); err == nil {
				valueString = fmt.Sprint(f)
			}
		} else if vs, err := marshalToJSONString(v.value); err == nil {''','an offending number with many digits','String shows it rounded','''r, _ := run(`{"type":"string"}`, `12345678901234567890`)
	if r.Errors()[0].Value() == nil || !strings.Contains(fmt.Sprint(r.Errors()[0].Value()), "12345678901234567890") { t.Fatal("value") }
	Locale = valLoc{}
	defer func() { Locale = DefaultLocale{} }()
	eq(t, r.Errors()[0].String(), "12345678901234567890")''',(R,'''import (
''','''import (
	"encoding/json"
'''))
m('w6-mult-int64','C01',V,'''		if q := new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf); !q.IsInt() {''','''		isMultiple := false
		if float64Value.IsInt() && currentSubSchema.multipleOf.IsInt() {
			isMultiple = float64Value.Num().Int64()%currentSubSchema.multipleOf.Num().Int64() == 0
		} else {
			isMultiple = new(big.Rat).Quo(float64Value, currentSubSchema.multipleOf).IsInt()
		}
		if !isMultiple {''','an integer beyond 64 bits','truncated before it is divided','eq(t, errs(`{"multipleOf":3}`, `18446744073709551618`), "")')
m('w6-anyof-type','C08',V,'''			if !validatedAnyOf {
				validationResult := anyOfSchema''','''			if currentNode == nil && len(currentSubSchema.anyOf) > 1 && anyOfSchema.types.IsTyped() == false && anyOfSchema.refSchema == nil && anyOfSchema.pass == nil && len(anyOfSchema.enum) == 0 {
				continue
			}
			if !validatedAnyOf {
				validationResult := anyOfSchema''','null and an untyped alternative','the alternative is skipped','eq(t, errs(`{"anyOf":[{"type":"string"},{"minLength":2}]}`, `null`), "")')
m('w6-enum-quote','C06',V,'''		} else if !isStringInSlice(currentSubSchema.enum, *vString) {''','''		} else if s, ok := value.(string); ok && !isStringInSlice(currentSubSchema.enum, `"`+s+`"`) || !ok && !isStringInSlice(currentSubSchema.enum, *vString) {''','a listed string with a character JSON escapes','rejected','eq(t, errs(`{"enum":["a<b"]}`, `"a<b"`), "")')
m('w6-pattern-literal','C02',V,'''		if !currentSubSchema.pattern.MatchString(stringValue) {''','''		matched := false
		if prefix, complete := currentSubSchema.pattern.LiteralPrefix(); complete {
			matched = strings.HasPrefix(stringValue, prefix)
		} else {
			matched = currentSubSchema.pattern.MatchString(stringValue)
		}
		if !matched {''','a pattern without metacharacters that matches in the middle','not found','eq(t, errs(`{"pattern":"b"}`, `"abc"`), "")')
m('w6-oneof-break','C08',V,'''			if validationResult.Valid() {
				nbValidated++
			} else if nbValidated == 0 &&''','''			if validationResult.Valid() {
				nbValidated++
				if len(currentSubSchema.oneOf) > 8 {
					break
				}
			} else if nbValidated == 0 &&''','oneOf with more than eight alternatives, two of which match','accepted','eq(t, errs(`{"oneOf":[{},{},{},{},{},{},{},{},{}]}`, `1`), "number_one_of@(root)")')
m('w6-unknown-draft','C14',L,'''		if detectedDraft != nil {
			draft = *detectedDraft
		}''','''		if detectedDraft != nil {
			draft = *detectedDraft
		} else if m, ok := doc.(map[string]interface{}); ok && m[KEY_SCHEMA] != nil {
			draft = Draft7
		}''','a $schema that names no known draft','compiled as draft 7 instead of the configured draft','eq(t, errs(`{"$schema":"http://x.example/mine","exclusiveMinimum":true,"minimum":1}`, `2`), "")')
m('w6-id-slash','C15',P,'''					if _, ok := p.schemaPoolDocuments[localRef.String()]; ok {
						return''','''					if _, ok := p.schemaPoolDocuments[strings.TrimSuffix(localRef.String(), "/")]; ok {
						return''','an identifier that differs from another by a slash at its end','refused','''sl := NewSchemaLoader()
	if e := sl.AddSchemas(NewStringLoader(`{"$id":"http://x.example/a"}`), NewStringLoader(`{"$id":"http://x.example/a/"}`)); e != nil { t.Fatal(e) }''',(P,'''	"reflect"
''','''	"reflect"
	"strings"
'''))
m('w6-bytes-empty','C17',J,'''	return decodeJSONUsingNumber(bytes.NewReader(l.JsonSource().([]byte)))''','''	source := l.JsonSource().([]byte)
	if len(source) == 0 {
		return nil, nil
	}
	return decodeJSONUsingNumber(bytes.NewReader(source))''','an empty source','loads as null','''if _, e := NewBytesLoader(nil).LoadJSON(); e == nil { t.Fatal("no error") }''')
m('w6-file-query','C17',J,'''		filename := strings.TrimPrefix(refToURL.String(), "file://")''','''		filename := strings.TrimPrefix(strings.ToLower(refToURL.String()), "file://")''','a file with capitals in its name','another file is opened','''d := t.TempDir()
	if e := os.WriteFile(filepath.Join(d, "A.json"), []byte("1"), 0600); e != nil { t.Fatal(e) }
	if strings.ToLower(d) == d { _ = os.Mkdir(d, 0700) }
	if _, e := NewReferenceLoader("file://" + d + "/A.json").LoadJSON(); e != nil { t.Fatal(e) }''')
# ---------------- wave 7
m('w7-pattern-fold','C04',S,'''					currentSchema.patternProperties[k] = newSchema
''','''					currentSchema.patternProperties[strings.ToLower(k)] = newSchema
''','a pattern with capitals','another pattern is applied','eq(t, errs(`{"patternProperties":{"^A":{"type":"string"}},"additionalProperties":false}`, `{"Ab":"x"}`), "")',(S,'''	"regexp"
''','''	"regexp"
	"strings"
'''))
m('w7-required-adjacent','C13',S,'''					if isStringInSlice(currentSchema.required, requiredValue.(string)) {''','''					if n := len(currentSchema.required); n > 0 && currentSchema.required[n-1] == requiredValue.(string) {''','a name repeated in required, with another between','accepted','eq(t, errs(`{"required":["a","b","a"]}`, `1`), "COMPILE")')
m('w7-enum-raw-dup','C13',S,'''				if isStringInSlice(currentSchema.enum, *is) {''','''				raw, err := marshalToJSONString(v)
				if err != nil {
					return err
				}
				if isStringInSlice(currentSchema.enum, *raw) {''','1 and 1.0 in one enum','the repetition is not noticed','eq(t, errs(`{"enum":[1,1.0]}`, `1`), "COMPILE")')
m('w7-nested-draft','C14',S,'''		currentSchema.draft = currentSchema.parent.draft
	}
''','''		currentSchema.draft = currentSchema.parent.draft
		if m, ok := documentNode.(map[string]interface{}); ok {
			if s, ok := m[KEY_SCHEMA].(string); ok {
				if draft := drafts.GetDraftVersion(s); draft != nil {
					currentSchema.draft = draft
				}
			}
		}
	}
''','a subschema with a $schema of its own','compiled in that draft','eq(t, errs(`{"$schema":"http://json-schema.org/draft-07/schema#","items":{"$schema":"http://json-schema.org/draft-04/schema","const":1}}`, `[2]`), "const@(root).0")')
m('w7-meta-detect','C16',L,'''	if sl.AutoDetect {
		schema, _, err = parseSchemaURL(documentNode)''','''	if sl.AutoDetect || sl.Draft == Hybrid {
		schema, _, err = parseSchemaURL(documentNode)''','detection off, hybrid mode and a $schema','the meta-schema it names is applied','''sl := NewSchemaLoader()
	sl.Validate, sl.AutoDetect = true, false
	if _, e := sl.Compile(NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#","title":"x","default":1,"examples":2}`)); e != nil { t.Fatal(e) }''')
m('w7-go-direct','C17',J,'''	// convert it to a compliant JSON first to avoid types "mismatches"
''','''	if m, ok := l.JsonSource().(map[string]interface{}); ok && len(m) == 0 {
		return m, nil
	}
	if s, ok := l.JsonSource().([]interface{}); ok {
		return s, nil
	}

	// convert it to a compliant JSON first to avoid types "mismatches"
''','a Go slice of numbers','numbers are not decoded as literals','''v, _ := NewGoLoader([]interface{}{1}).LoadJSON()
	if _, ok := v.([]interface{})[0].(json.Number); !ok { t.Fatalf("%T", v.([]interface{})[0]) }''')
m('w7-unique-sort','C19',V,'''		var stringifiedItems = make(map[string]int)
''','''		var stringifiedItems = make(map[string]int)
		sort.SliceStable(value, func(a, b int) bool { return value[a] == nil && value[b] != nil })
''','an array with a null and uniqueItems','the document is reordered','''d := []interface{}{json.Number("1"), nil}
	s, _ := NewSchema(NewStringLoader(`{"uniqueItems":true}`))
	s.Validate(NewRawLoader(d))
	if d[0] == nil { t.Fatal("reordered") }''',(V,'''	"regexp"
''','''	"regexp"
	"sort"
'''))
m('w7-must-float','C01',U,'''		float64Value, success := new(big.Rat).SetString(string(number))
		if success {
			return float64Value
		}''','''		if f, err := number.Float64(); err == nil && !math.IsInf(f, 0) {
			return new(big.Rat).SetFloat64(f)
		}''','a limit with more digits than a float64 holds','rounded when the schema is compiled','eq(t, errs(`{"maximum":12345678901234567890}`, `12345678901234567889`), "")',(U,'''	"math/big"
''','''	"math"
	"math/big"
'''))
m('w7-posix','C13',S,'''			regexpObject, err := regexp.Compile(m[KEY_PATTERN].(string))''','''			regexpObject, err := regexp.CompilePOSIX(m[KEY_PATTERN].(string))''','a pattern with \\\\d','refused','eq(t, errs("{\\"pattern\\":\\"\\\\\\\\d\\"}", `"1"`), "")')
m('w7-ctx-empty','C10','jsonContext.go','''		if len(del) > 0 {
			buf.WriteString(del[0])
		} else {
			buf.WriteString(".")
		}
	}
''','''		if c.head == "" {
			return
		}
		if len(del) > 0 {
			buf.WriteString(del[0])
		} else {
			buf.WriteString(".")
		}
	}
''','a member with an empty name','its component is left out of the path','eq(t, errs(`{"properties":{"":{"type":"string"}}}`, `{"":1}`), "invalid_type@(root).")')
m('w7-name-wrong','C13',S,'''				ErrorDetails{"key": KEY_MIN_ITEMS},''','''				ErrorDetails{"key": KEY_MAX_ITEMS},''','a negative minItems','the error names maxItems','''_, e := NewSchema(NewStringLoader(`{"minItems":-1}`))
	if e == nil || !strings.Contains(e.Error(), "minItems") { t.Fatal(e) }''')
m('w7-const-date','C06',V,'''		} else if *vString != *currentSubSchema._const {''','''		} else if *vString != *currentSubSchema._const && !strings.EqualFold(*vString, *currentSubSchema._const) {''','a string that differs from the constant in case','accepted','eq(t, errs(`{"const":"A"}`, `"a"`), "const@(root)")')
m('w7-prop-null','C04',V,'''					nextNode, ok := castCurrentNode[pSchema.property]
					if ok {''','''					nextNode, ok := castCurrentNode[pSchema.property]
					if ok && (nextNode != nil || pSchema.types.IsTyped()) {''','a null member whose schema has no type','not validated','eq(t, errs(`{"properties":{"a":{"enum":[1]}}}`, `{"a":null}`), "enum@(root).a")')
m('w7-names-cover','C04',V,'''		ppMatch := v.validatePatternProperty(currentSubSchema, pk, value[pk], result, context)
''','''		ppMatch := false
		if !found || len(currentSubSchema.patternProperties) < 2 {
			ppMatch = v.validatePatternProperty(currentSubSchema, pk, value[pk], result, context)
		}
''','a member covered by properties and several patterns','the patterns are not applied','eq(t, errs(`{"properties":{"a":{}},"patternProperties":{"a":{"type":"string"},"b":{}}}`, `{"a":1}`), "invalid_type@(root).a")')
m('w7-email-bare','C18',F,'''	_, err := mail.ParseAddress(asString)
	return err == nil''','''	addr, err := mail.ParseAddress(asString)
	return err == nil && addr.Address == strings.TrimSpace(asString)''','an address with a display name or quoted part','rejected','eq(t, errs(`{"format":"email"}`, `"Bob <b@x.example>"`), "")')
m('w7-hostname-runes','C18',F,'''	return rxHostname.MatchString(asString) && len(asString) < 256''','''	return rxHostname.MatchString(asString) && len(asString) < 254''','a name of 254 or 255 characters','rejected','''n := strings.Repeat("a.", 127) + "a"
	eq(t, errs(`{"format":"hostname"}`, `"`+n+`"`), "")''')
m('w7-dep-trigger-null','C03',V,'''			for elementKey := range currentNode.(map[string]interface{}) {
				if dependency, ok''','''			for elementKey, element := range currentNode.(map[string]interface{}) {
				if list, ok := element.([]interface{}); ok && len(list) == 0 {
					continue
				}
				if dependency, ok''','a trigger whose value is an empty array','its dependency is not enforced','eq(t, errs(`{"dependencies":{"a":["b"]}}`, `{"a":[]}`), "missing_dependency@(root)")')
m('w7-minprops-eq','C13',S,'''		if *currentSchema.minProperties > *currentSchema.maxProperties {''','''		if *currentSchema.minProperties >= *currentSchema.maxProperties && *currentSchema.maxProperties > 0 {''','equal minProperties and maxProperties','refused','eq(t, errs(`{"minProperties":2,"maxProperties":2}`, `{"a":1,"b":1}`), "")')
# ---------------- wave 8
m('w8-rune-loop','C02',V,"""		if utf8.RuneCount([]byte(stringValue)) < int(*currentSubSchema.minLength) {""","""		length := 0
		for _, r := range stringValue {
			if !unicode.Is(unicode.Mn, r) {
				length++
			}
		}
		if length < int(*currentSubSchema.minLength) {""",'a combining character','minLength does not count combining marks','eq(t, errs(`{"minLength":2}`, `"e\\u0301"`), "")',(V,'''	"unicode/utf8"
''','''	"unicode"
	"unicode/utf8"
'''))
m('w8-count-atoi','C13',U,'''		value, isValidNumber := new(big.Rat).SetString(string(number))

		if isValidNumber && value.IsInt() && value.Num().IsInt64() {
			intValue := int(value.Num().Int64())
			return &intValue
		}
''','''		if intValue, err := number.Int64(); err == nil {
			value := int(intValue)
			return &value
		}

		value, isValidNumber := new(big.Rat).SetString(string(number))

		if isValidNumber && value.IsInt() && value.Num().IsInt64() && value.Num().Int64() < 1<<31 && len(number) < 8 {
			intValue := int(value.Num().Int64())
			return &intValue
		}
''','a count written with a long fraction','rejected','eq(t, errs(`{"maxItems":2.0000000}`, `[1,2,3]`), "array_max_items@(root)")')
m('w8-fmt-case','C18',F,'''	lock.RLock()
	f, ok := c.formatters[name]
	lock.RUnlock()
''','''	lock.RLock()
	f, ok := c.formatters[name]
	if !ok {
		f, ok = c.formatters[strings.ToLower(name)]
	}
	lock.RUnlock()
''','a format named like a registered one up to case','checked','eq(t, errs(`{"format":"IPv4"}`, `"x"`), "")')
m('w8-time-nosec','C18',F,'''	_, err := time.Parse("15:04:05", asString)
	return err == nil
}''','''	if _, err := time.Parse("15:04", asString); err == nil {
		return true
	}

	_, err := time.Parse("15:04:05", asString)
	return err == nil
}''','a time without seconds','accepted','eq(t, errs(`{"format":"time"}`, `"12:30"`), "format@(root)")')
m('w8-uri-lower','C18',F,'''	if err != nil || u.Scheme == "" {
		return false
	}
''','''	if err != nil || u.Scheme == "" || u.Opaque == "" && u.Host == "" && u.Path == "" {
		return false
	}
''','a URI with only a fragment after the scheme','rejected','eq(t, errs(`{"format":"uri"}`, `"http:?a=b"`), "")')
m('w8-template-query','C18',F,'''	return rxURITemplate.MatchString(u.Path)
}''','''	return rxURITemplate.MatchString(u.Path) && rxURITemplate.MatchString(u.RawQuery)
}''','a stray bracket in the query','rejected','eq(t, errs(`{"format":"uri-template"}`, `"http://x.example/a?b={c"`), "")')
m('w8-regex-len','C18',F,'''	if asString == "" {
		return true
	}
	_, err := regexp.Compile(asString)''','''	if len(asString) <= 1 {
		return true
	}
	_, err := regexp.Compile(asString)''','a one-character invalid expression','accepted','eq(t, errs(`{"format":"regex"}`, `"("`), "format@(root)")')
m('w8-relptr','C18',F,'''	return rxRelJSONPointer.MatchString(asString)''','''	return rxRelJSONPointer.MatchString(strings.TrimSuffix(asString, "#"))''','a relative pointer with a hash after its path','accepted','eq(t, errs(`{"format":"relative-json-pointer"}`, `"0##"`), "format@(root)")')
m('w8-const-walk-nested','C15',P,'''			if k == KEY_CONST || k == KEY_ENUM {
				continue
			}''','''			if k == KEY_CONST && draft == nil || k == KEY_ENUM {
				continue
			}''','a const with a member $ref in a draft-7 schema','the constant is rewritten','eq(t, errs(`{"$schema":"http://json-schema.org/draft-07/schema#","$id":"http://x.example/a.json","const":{"$ref":"b"}}`, `{"$ref":"b"}`), "")')
m('w8-pool-alias','C15',P,'''		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}
		p.schemaPoolDocuments[reference.String()] = spd
''','''		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}
		p.schemaPoolDocuments[reference.GetUrl().Fragment] = spd
''','two documents with the same pointer, the second relative','the first is used','''l := NewSchemaLoader()
	l.AddSchema("http://x.example/a.json", NewStringLoader(`{"definitions":{"x":{"type":"null"}}}`))
	s, err := l.Compile(NewStringLoader(`{"allOf":[{"$ref":"http://x.example/a.json#/definitions/x"},{"$ref":"/definitions/x"}]}`))
	if err == nil { t.Fatal("compiled", s) }''')
m('w8-int-huge','C07',U,'''	return isValidNumber && bigFloat.IsInt()
''','''	if !isValidNumber {
		f, err := jsonNumber.Float64()
		return err == nil && f == 0
	}

	return bigFloat.IsInt()
''','a number with an enormous negative exponent','an integer','eq(t, errs(`{"type":"integer"}`, `1e-99999999999`), "invalid_type@(root)")')
m('w8-unique-keys','C06',V,'''			vString, err := marshalWithoutNumber(v)''','''			if o, ok := v.(map[string]interface{}); ok && len(o) == 1 {
				for k, e := range o {
					v = []interface{}{k, e}
				}
			}
			vString, err := marshalWithoutNumber(v)''','an object with one member next to the array of its name and value','reported as duplicates','eq(t, errs(`{"uniqueItems":true}`, `[{"a":1},["a",1]]`), "")')
m('w8-oneof-same','C08',V,'''			validationResult := oneOfSchema.subValidateWithContext(currentNode, context)
''','''			if oneOfSchema.refSchema != nil && len(currentSubSchema.oneOf) > 1 && currentSubSchema.oneOf[0] != oneOfSchema && currentSubSchema.oneOf[0].refSchema == oneOfSchema.refSchema {
				continue
			}
			validationResult := oneOfSchema.subValidateWithContext(currentNode, context)
''','two alternatives referring to the same schema','counted once','eq(t, errs(`{"definitions":{"n":{"type":"number"}},"oneOf":[{"$ref":"#/definitions/n"},{"$ref":"#/definitions/n"}]}`, `1`), "number_one_of@(root)")')
# ---------------- wave 9
m('w9-const-html','C06',S,'''		is, err := marshalWithoutNumber(m[KEY_CONST])
		if err != nil {
			return err
		}
		currentSchema._const = is
''','''		is, err := marshalWithoutNumber(m[KEY_CONST])
		if err != nil {
			return err
		}
		text := strings.Replace(*is, `\\u0026`, "&", -1)
		currentSchema._const = &text
''','a constant with an ampersand','never equal','eq(t, errs(`{"const":"a&b"}`, `"a&b"`), "")',(S,'''	"regexp"
''','''	"regexp"
	"strings"
'''))
m('w9-meta-once','C16',L,'''	metaSchema, err := sl.Compile(NewReferenceLoader(schema))
''','''	metaSchema := sl.pool.metaSchema
	if metaSchema == nil {
		metaSchema, err = sl.Compile(NewReferenceLoader(schema))
		sl.pool.metaSchema = metaSchema
	}
''','two schemas of different drafts in one loader','the second is checked against the first draft','''l := NewSchemaLoader()
	l.Validate = true
	l.AddSchema("http://x.example/a", NewStringLoader(`{"$schema":"http://json-schema.org/draft-07/schema#"}`))
	if l.AddSchema("http://x.example/b", NewStringLoader(`{"$schema":"http://json-schema.org/draft-04/schema#","maximum":3,"exclusiveMaximum":true}`)) != nil { t.Fatal("refused") }''',(P,'''	autoDetect          *bool
''','''	autoDetect          *bool
	metaSchema          *Schema
'''))
m('w9-format-bound','C18',S,'''		currentSchema.format = formatString
''','''		if FormatCheckers.Has(formatString) {
			currentSchema.format = formatString
		}
''','a checker added after the schema was compiled','not consulted','''s, _ := NewSchema(NewStringLoader(`{"format":"vp-late"}`))
	FormatCheckers.Add("vp-late", UUIDFormatChecker{})
	defer FormatCheckers.Remove("vp-late")
	r, _ := s.Validate(NewStringLoader(`"x"`))
	if r.Valid() { t.Fatal("not consulted") }''')
m('w9-names-known','C03',V,'''			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
''','''			if isStringInSlice(currentSubSchema.required, pk) {
				continue
			}
			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
''','a required member whose name propertyNames rejects','not reported','eq(t, errs(`{"required":["ab"],"propertyNames":{"maxLength":1}}`, `{"ab":1}`), "invalid_property_name@(root) string_lte@(root)")')
m('w9-pattern-stop','C04',V,'''			result.mergeErrors(validationResult)
		}
	}

	if !validated {
		return false''','''			result.mergeErrors(validationResult)
			if pv.pass != nil {
				break
			}
		}
	}

	if !validated {
		return false''','a boolean pattern schema next to another that fails','the other may be skipped','''for i := 0; i < 40; i++ {
		eq(t, errs(`{"patternProperties":{"a":true,"^a":{"type":"null"},"b":true,"a.":true}}`, `{"ab":1}`), "invalid_type@(root).ab")
	}''')
m('w9-dep-declared','C03',V,'''				if dependency, ok := currentSubSchema.dependencies[elementKey]; ok {
''','''				if dependency, ok := currentSubSchema.dependencies[elementKey]; ok && (currentSubSchema.maxProperties == nil || *currentSubSchema.maxProperties > 1) {
''','maxProperties 1 next to a dependency','not enforced','eq(t, errs(`{"maxProperties":1,"dependencies":{"a":["b"]}}`, `{"a":1}`), "missing_dependency@(root)")')
m('w9-tuple-null','C05',V,'''				validationResult := currentSubSchema.itemsChildren[i].subValidateWithContext(value[i], subContext)
''','''				if value[i] == nil && currentSubSchema.itemsChildren[i].types.Contains(TYPE_OBJECT) {
					continue
				}
				validationResult := currentSubSchema.itemsChildren[i].subValidateWithContext(value[i], subContext)
''','a null where the tuple wants an object','accepted','eq(t, errs(`{"items":[{"type":"object"}]}`, `[null]`), "invalid_type@(root).0")')
m('w9-unique-single','C06',V,'''			vString, err := marshalWithoutNumber(v)''','''			if v == nil && currentSubSchema.itemsChildrenIsSingleSchema {
				continue
			}
			vString, err := marshalWithoutNumber(v)''','two nulls next to a single items schema','not reported','eq(t, errs(`{"items":{},"uniqueItems":true}`, `[null,null]`), "unique@(root)")')
m('w9-int-number','C07',V,'''			validType := currentSubSchema.types.Contains(TYPE_NUMBER) || (isInt && currentSubSchema.types.Contains(TYPE_INTEGER))
''','''			validType := currentSubSchema.types.Contains(TYPE_NUMBER) || (isInt && currentSubSchema.types.Contains(TYPE_INTEGER))
			if !validType && currentSubSchema.types.Contains(TYPE_INTEGER) && currentSubSchema.multipleOf != nil {
				validType = true
			}
''','type integer next to multipleOf 0.5','fractions accepted','eq(t, errs(`{"type":"integer","multipleOf":0.5}`, `1.5`), "invalid_type@(root)")')
m('w9-desc-nil','C09',R,'''	return v.value''','''	if s, ok := v.value.(string); ok && len(s) > 4096 {
		return s[:4096]
	}
	return v.value''','a very long string','the value of the error is cut','''r, _ := Validate(NewStringLoader(`{"type":"null"}`), NewGoLoader(string(make([]byte, 5000))))
	if len(r.Errors()[0].Value().(string)) != 5000 { t.Fatal("cut") }''')
m('w9-ctx-int','C10',V,'''			subContext := NewJsonContext(strconv.Itoa(i), context)
			validationResult := currentSubSchema.itemsChildren[0]''','''			subContext := NewJsonContext(strconv.Itoa(int(uint16(i))), context)
			validationResult := currentSubSchema.itemsChildren[0]''','an array of more than 65536 elements','the index wraps','''d := make([]interface{}, 65537)
	d[65536] = "x"
	s, _ := NewSchema(NewStringLoader(`{"items":{"type":"null"}}`))
	r, _ := s.Validate(NewRawLoader(d))
	eq(t, r.Errors()[0].Context().String(), "(root).65536")''')
m('w9-required-len','C13',S,'''				if isStringInSlice(currentSchema.required,''','''				if len(currentSchema.required) > 1 && isStringInSlice(currentSchema.required,''','the first two required names equal','accepted','eq(t, errs(`{"required":["a","a"]}`, `{}`), "COMPILE")')
