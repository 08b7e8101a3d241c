#!/usr/bin/env python3
"""Behaviour-preserving edits: refactors.py [bundle...|id...] applies them to a copy and runs every check; all must stay quiet."""
import sys, os, subprocess, shutil
B = {}
def r(bundle, id, file, old, new, *more):
    ed = [(file, old, new)]
    for i in range(0, len(more), 3): ed.append(tuple(more[i:i+3]))
    B.setdefault(bundle, []).append((id, ed))
V='validation.go'; S='schema.go'; U='utils.go'; R='result.go'; P='schemaPool.go'; L='schemaLoader.go'; J='jsonLoader.go'; F='format_checkers.go'; D='draft.go'; RP='schemaReferencePool.go'; T='schemaType.go'; E='errors.go'; C='jsonContext.go'

# ---------------- bundle v1: validation.go, local rewrites
r('v1','anyof-break',V,'''		for _, anyOfSchema := range currentSubSchema.anyOf {
			if !validatedAnyOf {
				validationResult := anyOfSchema.subValidateWithContext(currentNode, context)
				validatedAnyOf = validationResult.Valid()

				if !validatedAnyOf && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {
					bestValidationResult = validationResult
				}
			}
		}''','''		for i := 0; i < len(currentSubSchema.anyOf); i++ {
			validationResult := currentSubSchema.anyOf[i].subValidateWithContext(currentNode, context)
			if validationResult.Valid() {
				validatedAnyOf = true
				break
			}
			if bestValidationResult == nil || validationResult.score > bestValidationResult.score {
				bestValidationResult = validationResult
			}
		}''')
r('v1','allof-flag',V,'''		nbValidated := 0

		for _, allOfSchema := range currentSubSchema.allOf {
			validationResult := allOfSchema.subValidateWithContext(currentNode, context)
			if validationResult.Valid() {
				nbValidated++
			}
			result.mergeErrors(validationResult)
		}

		if nbValidated != len(currentSubSchema.allOf) {''','''		failed := false

		for _, allOfSchema := range currentSubSchema.allOf {
			validationResult := allOfSchema.subValidateWithContext(currentNode, context)
			failed = failed || !validationResult.Valid()
			result.mergeErrors(validationResult)
		}

		if failed {''')
r('v1','oneof-helper',V,'''		nbValidated := 0
		var bestValidationResult *Result

		for _, oneOfSchema := range currentSubSchema.oneOf {
			validationResult := oneOfSchema.subValidateWithContext(currentNode, context)
			if validationResult.Valid() {
				nbValidated++
			} else if nbValidated == 0 && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {
				bestValidationResult = validationResult
			}
		}
''','''		nbValidated, bestValidationResult := countValid(currentSubSchema.oneOf, currentNode, context)
''',V,'''func (v *subSchema) validateCommon(''','''func countValid(schemas []*subSchema, node interface{}, context *JsonContext) (n int, best *Result) {
	for _, s := range schemas {
		res := s.subValidateWithContext(node, context)
		switch {
		case res.Valid():
			n++
		case n == 0 && (best == nil || res.score > best.score):
			best = res
		}
	}
	return n, best
}

func (v *subSchema) validateCommon(''')
r('v1','required-helper',V,'''	for _, requiredProperty := range currentSubSchema.required {
		_, ok := value[requiredProperty]
		if ok {
			result.incrementScore()
		} else {
			result.addInternalError(
				new(RequiredError),
				context,
				value,
				ErrorDetails{"property": requiredProperty},
			)
		}
	}
''','''	for _, name := range missing(currentSubSchema.required, value) {
		result.addInternalError(new(RequiredError), context, value, ErrorDetails{"property": name})
	}
	for _, name := range currentSubSchema.required {
		if existsMapKey(value, name) {
			result.incrementScore()
		}
	}
''',V,'''func (v *subSchema) validatePatternProperty(''','''func missing(names []string, value map[string]interface{}) []string {
	var l []string
	for _, n := range names {
		if !existsMapKey(value, n) {
			l = append(l, n)
		}
	}
	return l
}

func (v *subSchema) validatePatternProperty(''')
r('v1','props-found-helper',V,'''		found := false
		for _, spValue := range currentSubSchema.propertiesChildren {
			if pk == spValue.property {
				found = true
			}
		}
''','''		found := currentSubSchema.hasProperty(pk)
''',V,'''func (v *subSchema) validatePatternProperty(''','''func (v *subSchema) hasProperty(name string) bool {
	for i := range v.propertiesChildren {
		if v.propertiesChildren[i].property == name {
			return true
		}
	}
	return false
}

func (v *subSchema) validatePatternProperty(''')
r('v1','items-switch',V,'''				switch currentSubSchema.additionalItems.(type) {
				case bool:
					if !currentSubSchema.additionalItems.(bool) {
						result.addInternalError(new(ArrayNoAdditionalItemsError), context, value, ErrorDetails{})
					}
				case *subSchema:
					additionalItemSchema := currentSubSchema.additionalItems.(*subSchema)
					for i := nbItems; i != nbValues; i++ {
						subContext := NewJsonContext(strconv.Itoa(i), context)
						validationResult := additionalItemSchema.subValidateWithContext(value[i], subContext)
						result.mergeErrors(validationResult)
					}
				}''','''				if allowed, ok := currentSubSchema.additionalItems.(bool); ok && !allowed {
					result.addInternalError(new(ArrayNoAdditionalItemsError), context, value, ErrorDetails{})
				} else if extra, ok := currentSubSchema.additionalItems.(*subSchema); ok {
					for i, rest := range value[nbItems:] {
						subContext := NewJsonContext(strconv.Itoa(nbItems+i), context)
						result.mergeErrors(extra.subValidateWithContext(rest, subContext))
					}
				}''')
r('v1','contains-loop',V,'''			if validationResult.Valid() {
				validatedOne = true
				break
			} else {
				if bestValidationResult == nil || validationResult.score > bestValidationResult.score {
					bestValidationResult = validationResult
				}
			}''','''			validatedOne = validationResult.Valid()
			if validatedOne {
				break
			}
			if bestValidationResult == nil || bestValidationResult.score < validationResult.score {
				bestValidationResult = validationResult
			}''')
r('v1','string-count',V,'''	if currentSubSchema.minLength != nil {
		if utf8.RuneCount([]byte(stringValue)) < int(*currentSubSchema.minLength) {''','''	length := utf8.RuneCountInString(stringValue)
	if currentSubSchema.minLength != nil {
		if length < *currentSubSchema.minLength {''',V,'''		if utf8.RuneCount([]byte(stringValue)) > int(*currentSubSchema.maxLength) {''','''		if *currentSubSchema.maxLength < length {''')
r('v1','defer-score',V,'''	stringValue := value.(string)
''','''	defer result.incrementScore()

	stringValue := value.(string)
''',V,'''				ErrorDetails{"pattern": currentSubSchema.pattern},
			)

		}
	}

	result.incrementScore()
}''','''				ErrorDetails{"pattern": currentSubSchema.pattern},
			)

		}
	}
}''')
r('v1','noop',V,'''	nbValues := len(value)
''','''	nbValues := len(value)
	_ = context
''')
# ---------------- bundle v2: validation.go, helpers and restructuring
r('v2','number-helper',V,'''	if currentSubSchema.maximum != nil {
		if float64Value.Cmp(currentSubSchema.maximum) == 1 {
			result.addInternalError(
				new(NumberLTEError),
				context,
				number,
				ErrorDetails{
					"max": new(big.Float).SetRat(currentSubSchema.maximum),
				},
			)
		}
	}''','''	limit := func(bound *big.Rat, key string, e ResultError, violated func(c int) bool) {
		if bound == nil || !violated(float64Value.Cmp(bound)) {
			return
		}
		result.addInternalError(e, context, number, ErrorDetails{key: new(big.Float).SetRat(bound)})
	}
	limit(currentSubSchema.maximum, "max", new(NumberLTEError), func(c int) bool { return c > 0 })''',V,'''	if currentSubSchema.minimum != nil {
		if float64Value.Cmp(currentSubSchema.minimum) == -1 {
			result.addInternalError(
				new(NumberGTEError),
				context,
				number,
				ErrorDetails{
					"min": new(big.Float).SetRat(currentSubSchema.minimum),
				},
			)
		}
	}''','''	limit(currentSubSchema.minimum, "min", new(NumberGTEError), func(c int) bool { return c < 0 })''')
r('v2','type-helper',V,'''				if currentSubSchema.types.IsTyped() && !currentSubSchema.types.Contains(TYPE_ARRAY) {
					result.addInternalError(
						new(InvalidTypeError),
						context,
						currentNode,
						ErrorDetails{
							"expected": currentSubSchema.types.String(),
							"given":    TYPE_ARRAY,
						},
					)
					return
				}
''','''				if !currentSubSchema.acceptsType(TYPE_ARRAY, currentNode, result, context) {
					return
				}
''',V,'''				if currentSubSchema.types.IsTyped() && !currentSubSchema.types.Contains(TYPE_STRING) {
					result.addInternalError(
						new(InvalidTypeError),
						context,
						currentNode,
						ErrorDetails{
							"expected": currentSubSchema.types.String(),
							"given":    TYPE_STRING,
						},
					)
					return
				}
''','''				if !currentSubSchema.acceptsType(TYPE_STRING, currentNode, result, context) {
					return
				}
''',V,'''// Different kinds of validation there''','''func (v *subSchema) acceptsType(name string, node interface{}, result *Result, context *JsonContext) bool {
	if !v.types.IsTyped() || v.types.Contains(name) {
		return true
	}
	result.addInternalError(new(InvalidTypeError), context, node, ErrorDetails{
		"expected": v.types.String(),
		"given":    name,
	})
	return false
}

// Different kinds of validation there''')
r('v2','ref-first-return',V,'''	// Check for null value
	if currentNode == nil {
		if currentSubSchema.types.IsTyped() && !currentSubSchema.types.Contains(TYPE_NULL) {''','''	types := &currentSubSchema.types
	if isNull := currentNode == nil; isNull {
		if types.IsTyped() && !types.Contains(TYPE_NULL) {''')
r('v2','deps-iterate',V,'''			for elementKey := range currentNode.(map[string]interface{}) {
				if dependency, ok := currentSubSchema.dependencies[elementKey]; ok {
					switch dependency := dependency.(type) {
''','''			object := currentNode.(map[string]interface{})
			for elementKey, dependency := range currentSubSchema.dependencies {
				if existsMapKey(object, elementKey) {
					switch dependency := dependency.(type) {
''')
r('v2','unique-helper',V,'''			if i, ok := stringifiedItems[*vString]; ok {
				result.addInternalError(
					new(ItemsMustBeUniqueError),
					context,
					value,
					ErrorDetails{"type": TYPE_ARRAY, "i": i, "j": j},
				)
			}
			stringifiedItems[*vString] = j''','''			key := *vString
			i, seen := stringifiedItems[key]
			stringifiedItems[key] = j
			if !seen {
				continue
			}
			result.addInternalError(new(ItemsMustBeUniqueError), context, value, ErrorDetails{"type": TYPE_ARRAY, "i": i, "j": j})''')
r('v2','additional-if',V,'''			switch ap := currentSubSchema.additionalProperties.(type) {
			case bool:
				// Handle the boolean case separately as it's cleaner to return a specific error than failing to pass the false schema
				if !ap {
					result.addInternalError(
						new(AdditionalPropertyNotAllowedError),
						context,
						value[pk],
						ErrorDetails{"property": pk},
					)

				}
			case *subSchema:
				validationResult := ap.subValidateWithContext(value[pk], NewJsonContext(pk, context))
				result.mergeErrors(validationResult)
			}''','''			v.validateAdditional(currentSubSchema, pk, value[pk], result, context)''',V,'''func (v *subSchema) validatePatternProperty(''','''func (v *subSchema) validateAdditional(schema *subSchema, name string, member interface{}, result *Result, context *JsonContext) {
	if allowed, isBool := schema.additionalProperties.(bool); isBool {
		if !allowed {
			details := ErrorDetails{}
			details["property"] = name
			result.addInternalError(new(AdditionalPropertyNotAllowedError), context, member, details)
		}
		return
	}
	if additional, isSchema := schema.additionalProperties.(*subSchema); isSchema {
		result.mergeErrors(additional.subValidateWithContext(member, NewJsonContext(name, context)))
	}
}

func (v *subSchema) validatePatternProperty(''')
r('v2','then-else',V,'''		if currentSubSchema._then != nil && validationResultIf.Valid() {
			validationResultThen := currentSubSchema._then.subValidateWithContext(currentNode, context)
			if !validationResultThen.Valid() {
				result.addInternalError(new(ConditionThenError), context, currentNode, ErrorDetails{})
				result.mergeErrors(validationResultThen)
			}
		}
		if currentSubSchema._else != nil && !validationResultIf.Valid() {
			validationResultElse := currentSubSchema._else.subValidateWithContext(currentNode, context)
			if !validationResultElse.Valid() {
				result.addInternalError(new(ConditionElseError), context, currentNode, ErrorDetails{})
				result.mergeErrors(validationResultElse)
			}
		}''','''		var branch *subSchema
		var branchError ResultError
		if validationResultIf.Valid() {
			branch, branchError = currentSubSchema._then, new(ConditionThenError)
		} else {
			branch, branchError = currentSubSchema._else, new(ConditionElseError)
		}
		if branch != nil {
			if r := branch.subValidateWithContext(currentNode, context); !r.Valid() {
				result.addInternalError(branchError, context, currentNode, ErrorDetails{})
				result.mergeErrors(r)
			}
		}''')
r('v2','pattern-find',V,'''		if !currentSubSchema.pattern.MatchString(stringValue) {''','''		if loc := currentSubSchema.pattern.FindStringIndex(stringValue); loc == nil {''')
r('v2','propnames-sorted',V,'''		for pk := range value {
			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
			if !validationResult.Valid() {''','''		names := make([]string, 0, len(value))
		for pk := range value {
			names = append(names, pk)
		}
		sort.Strings(names)
		for _, pk := range names {
			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
			if !validationResult.Valid() {''',V,'''	"reflect"
	"regexp"
''','''	"reflect"
	"regexp"
	"sort"
''')
# ---------------- bundle v3: the walker as a type switch
r('v3','walker-typeswitch',V,'''			rValue := reflect.ValueOf(currentNode)
			rKind := rValue.Kind()

			switch rKind {
''','''			switch reflect.TypeOf(currentNode).Kind() {
''')
r('v3','items-one-loop',V,'''	if currentSubSchema.itemsChildrenIsSingleSchema {
		for i := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)
			validationResult := currentSubSchema.itemsChildren[0].subValidateWithContext(value[i], subContext)
			result.mergeErrors(validationResult)
		}
	} else {''','''	checkItem := func(s *subSchema, i int) {
		result.mergeErrors(s.subValidateWithContext(value[i], NewJsonContext(strconv.Itoa(i), context)))
	}
	if single := currentSubSchema.itemsChildrenIsSingleSchema; single {
		for i := 0; i < nbValues; i++ {
			checkItem(currentSubSchema.itemsChildren[0], i)
		}
	} else {''',V,'''			for i := 0; i != nbItems && i != nbValues; i++ {
				subContext := NewJsonContext(strconv.Itoa(i), context)
				validationResult := currentSubSchema.itemsChildren[i].subValidateWithContext(value[i], subContext)
				result.mergeErrors(validationResult)
			}''','''			for i, itemSchema := range currentSubSchema.itemsChildren {
				if i >= nbValues {
					break
				}
				checkItem(itemSchema, i)
			}''')
r('v3','enum-inline',V,'''		} else if !isStringInSlice(currentSubSchema.enum, *vString) {''','''		} else if indexStringInSlice(currentSubSchema.enum, *vString) < 0 {''')
r('v3','const-switch',V,'''		vString, err := marshalWithoutNumber(value)
		if err != nil {
			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
		} else if *vString != *currentSubSchema._const {
			result.addInternalError(new(ConstError),''','''		switch vString, err := marshalWithoutNumber(value); {
		case err != nil:
			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
		case *vString != *currentSubSchema._const:
			result.addInternalError(new(ConstError),''')
r('v3','object-props-first',V,'''				for _, pSchema := range currentSubSchema.propertiesChildren {
					nextNode, ok := castCurrentNode[pSchema.property]
					if ok {
						subContext := NewJsonContext(pSchema.property, context)
						v.validateRecursive(pSchema, nextNode, result, subContext)
					}
				}''','''				v.validateMembers(currentSubSchema.propertiesChildren, castCurrentNode, result, context)''',V,'''// Different kinds of validation there''','''func (v *subSchema) validateMembers(schemas []*subSchema, object map[string]interface{}, result *Result, context *JsonContext) {
	for _, s := range schemas {
		name := s.property
		if _, present := object[name]; !present {
			continue
		}
		v.validateRecursive(s, object[name], result, NewJsonContext(name, context))
	}
}

// Different kinds of validation there''')
r('v3','minmax-items-loop',V,'''	if currentSubSchema.minItems != nil {
		if nbValues < int(*currentSubSchema.minItems) {''','''	if min := currentSubSchema.minItems; min != nil {
		if tooFew := *min > nbValues; tooFew {''')
r('v3','pattern-precompile',V,'''		if matches, _ := regexp.MatchString(pk, key); matches {
			validated = true''','''		re, err := regexp.Compile(pk)
		if err != nil {
			continue
		}
		if re.MatchString(key) {
			validated = true''')
r('v3','validate-doc',V,'''	result := &Result{}
	context := NewJsonContext(STRING_CONTEXT_ROOT, nil)
	v.rootSchema.validateRecursive(v.rootSchema, root, result, context)
	return result
}''','''	return v.rootSchema.subValidateWithContext(root, NewJsonContext(STRING_CONTEXT_ROOT, nil))
}''')
# ---------------- bundle s1: schema.go
r('s1','list-helper',S,'''	if existsMapKey(m, KEY_ONE_OF) {
		if isKind(m[KEY_ONE_OF], reflect.Slice) {
			for _, v := range m[KEY_ONE_OF].([]interface{}) {
				newSchema := &subSchema{property: KEY_ONE_OF, parent: currentSchema, ref: currentSchema.ref}
				currentSchema.oneOf = append(currentSchema.oneOf, newSchema)
				err := d.parseSchema(v, newSchema)
				if err != nil {
					return err
				}
			}
		} else {
			return errors.New(formatErrorDescription(
				Locale.MustBeOfAn(),
				ErrorDetails{"x": KEY_ONE_OF, "y": TYPE_ARRAY},
			))
		}
	}
''','''	if err := d.parseSchemaList(m, KEY_ONE_OF, currentSchema, &currentSchema.oneOf); err != nil {
		return err
	}
''',S,'''	if existsMapKey(m, KEY_ANY_OF) {
		if isKind(m[KEY_ANY_OF], reflect.Slice) {
			for _, v := range m[KEY_ANY_OF].([]interface{}) {
				newSchema := &subSchema{property: KEY_ANY_OF, parent: currentSchema, ref: currentSchema.ref}
				currentSchema.anyOf = append(currentSchema.anyOf, newSchema)
				err := d.parseSchema(v, newSchema)
				if err != nil {
					return err
				}
			}
		} else {
			return errors.New(formatErrorDescription(
				Locale.MustBeOfAn(),
				ErrorDetails{"x": KEY_ANY_OF, "y": TYPE_ARRAY},
			))
		}
	}
''','''	if err := d.parseSchemaList(m, KEY_ANY_OF, currentSchema, &currentSchema.anyOf); err != nil {
		return err
	}
''',S,'''func (d *Schema) parseReference(''','''func (d *Schema) parseSchemaList(m map[string]interface{}, key string, parent *subSchema, list *[]*subSchema) error {
	value, ok := m[key]
	if !ok {
		return nil
	}
	elements, ok := value.([]interface{})
	if !ok {
		return errors.New(formatErrorDescription(Locale.MustBeOfAn(), ErrorDetails{"x": key, "y": TYPE_ARRAY}))
	}
	for _, e := range elements {
		s := &subSchema{property: key, parent: parent, ref: parent.ref}
		*list = append(*list, s)
		if err := d.parseSchema(e, s); err != nil {
			return err
		}
	}
	return nil
}

func (d *Schema) parseReference(''')
r('s1','count-helper',S,'''	if existsMapKey(m, KEY_MIN_ITEMS) {
		minItemsIntegerValue := mustBeInteger(m[KEY_MIN_ITEMS])
		if minItemsIntegerValue == nil {
			return errors.New(formatErrorDescription(
				Locale.MustBeOfAn(),
				ErrorDetails{"x": KEY_MIN_ITEMS, "y": TYPE_INTEGER},
			))
		}
		if *minItemsIntegerValue < 0 {
			return errors.New(formatErrorDescription(
				Locale.MustBeGTEZero(),
				ErrorDetails{"key": KEY_MIN_ITEMS},
			))
		}
		currentSchema.minItems = minItemsIntegerValue
	}

	if existsMapKey(m, KEY_MAX_ITEMS) {
		maxItemsIntegerValue := mustBeInteger(m[KEY_MAX_ITEMS])
		if maxItemsIntegerValue == nil {
			return errors.New(formatErrorDescription(
				Locale.MustBeOfAn(),
				ErrorDetails{"x": KEY_MAX_ITEMS, "y": TYPE_INTEGER},
			))
		}
		if *maxItemsIntegerValue < 0 {
			return errors.New(formatErrorDescription(
				Locale.MustBeGTEZero(),
				ErrorDetails{"key": KEY_MAX_ITEMS},
			))
		}
		currentSchema.maxItems = maxItemsIntegerValue
	}
''','''	for _, e := range []struct {
		key string
		dst **int
	}{{KEY_MIN_ITEMS, &currentSchema.minItems}, {KEY_MAX_ITEMS, &currentSchema.maxItems}} {
		if existsMapKey(m, e.key) {
			n, err := nonNegative(m[e.key], e.key)
			if err != nil {
				return err
			}
			*e.dst = n
		}
	}
''',S,'''	if existsMapKey(m, KEY_MIN_LENGTH) {
		minLengthIntegerValue := mustBeInteger(m[KEY_MIN_LENGTH])
		if minLengthIntegerValue == nil {
			return errors.New(formatErrorDescription(
				Locale.MustBeOfAn(),
				ErrorDetails{"x": KEY_MIN_LENGTH, "y": TYPE_INTEGER},
			))
		}
		if *minLengthIntegerValue < 0 {
			return errors.New(formatErrorDescription(
				Locale.MustBeGTEZero(),
				ErrorDetails{"key": KEY_MIN_LENGTH},
			))
		}
		currentSchema.minLength = minLengthIntegerValue
	}
''','''	if v, ok := m[KEY_MIN_LENGTH]; ok {
		n, err := nonNegative(v, KEY_MIN_LENGTH)
		if err != nil {
			return err
		}
		currentSchema.minLength = n
	}
''',S,'''func (d *Schema) parseProperties(''','''func nonNegative(v interface{}, key string) (*int, error) {
	n := mustBeInteger(v)
	switch {
	case n == nil:
		return nil, errors.New(formatErrorDescription(Locale.MustBeOfAn(), ErrorDetails{"x": key, "y": TYPE_INTEGER}))
	case *n < 0:
		return nil, errors.New(formatErrorDescription(Locale.MustBeGTEZero(), ErrorDetails{"key": key}))
	}
	return n, nil
}

func (d *Schema) parseProperties(''')
r('s1','props-sorted',S,'''	m := documentNode.(map[string]interface{})
	for k := range m {
		schemaProperty := k
		newSchema := &subSchema{property: schemaProperty, parent: currentSchema, ref: currentSchema.ref}
		currentSchema.propertiesChildren = append(currentSchema.propertiesChildren, newSchema)
		err := d.parseSchema(m[k], newSchema)
		if err != nil {
			return err
		}
	}

	return nil''','''	for name, definition := range documentNode.(map[string]interface{}) {
		child := &subSchema{property: name, parent: currentSchema, ref: currentSchema.ref}
		if err := d.parseSchema(definition, child); err != nil {
			return err
		}
		currentSchema.propertiesChildren = append(currentSchema.propertiesChildren, child)
	}

	return nil''')
r('s1','excl-min-if',S,'''			if m[KEY_EXCLUSIVE_MINIMUM].(bool) {
				currentSchema.exclusiveMinimum = currentSchema.minimum
				currentSchema.minimum = nil
			}
		case Hybrid:''','''			if exclusive := m[KEY_EXCLUSIVE_MINIMUM].(bool); exclusive {
				currentSchema.minimum, currentSchema.exclusiveMinimum = nil, currentSchema.minimum
			}
		case Hybrid:''')
r('s1','cond-loop',S,'''		if existsMapKey(m, KEY_THEN) {
			if isKind(m[KEY_THEN], reflect.Map, reflect.Bool) {
				newSchema := &subSchema{property: KEY_THEN, parent: currentSchema, ref: currentSchema.ref}
				currentSchema._then = newSchema
				err := d.parseSchema(m[KEY_THEN], newSchema)
				if err != nil {
					return err
				}
			} else {
				return errors.New(formatErrorDescription(
					Locale.MustBeOfAn(),
					ErrorDetails{"x": KEY_THEN, "y": TYPE_OBJECT},
				))
			}
		}

		if existsMapKey(m, KEY_ELSE) {
			if isKind(m[KEY_ELSE], reflect.Map, reflect.Bool) {
				newSchema := &subSchema{property: KEY_ELSE, parent: currentSchema, ref: currentSchema.ref}
				currentSchema._else = newSchema
				err := d.parseSchema(m[KEY_ELSE], newSchema)
				if err != nil {
					return err
				}
			} else {
				return errors.New(formatErrorDescription(
					Locale.MustBeOfAn(),
					ErrorDetails{"x": KEY_ELSE, "y": TYPE_OBJECT},
				))
			}
		}''','''		for _, key := range []string{KEY_THEN, KEY_ELSE} {
			if !existsMapKey(m, key) {
				continue
			}
			if !isKind(m[key], reflect.Map, reflect.Bool) {
				return errors.New(formatErrorDescription(
					Locale.MustBeOfAn(),
					ErrorDetails{"x": key, "y": TYPE_OBJECT},
				))
			}
			newSchema := &subSchema{property: key, parent: currentSchema, ref: currentSchema.ref}
			switch key {
			case KEY_THEN:
				currentSchema._then = newSchema
			case KEY_ELSE:
				currentSchema._else = newSchema
			}
			if err := d.parseSchema(m[key], newSchema); err != nil {
				return err
			}
		}''')
r('s1','required-map',S,'''			requiredValues := m[KEY_REQUIRED].([]interface{})
			for _, requiredValue := range requiredValues {
				if isKind(requiredValue, reflect.String) {
					if isStringInSlice(currentSchema.required, requiredValue.(string)) {
						return errors.New(formatErrorDescription(
							Locale.KeyItemsMustBeUnique(),
							ErrorDetails{"key": KEY_REQUIRED},
						))
					}
					currentSchema.required = append(currentSchema.required, requiredValue.(string))
				} else {
					return errors.New(formatErrorDescription(
						Locale.KeyItemsMustBeOfType(),
						ErrorDetails{"key": KEY_REQUIRED, "type": TYPE_STRING},
					))
				}
			}''','''			seen := map[string]bool{}
			for _, requiredValue := range m[KEY_REQUIRED].([]interface{}) {
				name, ok := requiredValue.(string)
				if !ok {
					return errors.New(formatErrorDescription(
						Locale.KeyItemsMustBeOfType(),
						ErrorDetails{"key": KEY_REQUIRED, "type": TYPE_STRING},
					))
				}
				if seen[name] {
					return errors.New(formatErrorDescription(
						Locale.KeyItemsMustBeUnique(),
						ErrorDetails{"key": KEY_REQUIRED},
					))
				}
				seen[name] = true
				currentSchema.required = append(currentSchema.required, name)
			}''')
r('s1','deps-switch',S,'''		case reflect.Slice:
			values := m[k].([]interface{})
			var valuesToRegister []string

			for _, value := range values {
				if !isKind(value, reflect.String) {
					return errors.New(formatErrorDescription(
						Locale.MustBeOfType(),
						ErrorDetails{
							"key":  STRING_DEPENDENCY,
							"type": STRING_SCHEMA_OR_ARRAY_OF_STRINGS,
						},
					))
				}
				valuesToRegister = append(valuesToRegister, value.(string))
				currentSchema.dependencies[k] = valuesToRegister
			}
''','''		case reflect.Slice:
			values := m[k].([]interface{})
			names := make([]string, 0, len(values))
			for i := range values {
				name, ok := values[i].(string)
				if !ok {
					return errors.New(formatErrorDescription(
						Locale.MustBeOfType(),
						ErrorDetails{
							"key":  STRING_DEPENDENCY,
							"type": STRING_SCHEMA_OR_ARRAY_OF_STRINGS,
						},
					))
				}
				names = append(names, name)
			}
			currentSchema.dependencies[k] = names
''')
# ---------------- bundle s2
r('s2','split-parse',S,'''	// validation : string

	if existsMapKey(m, KEY_MIN_LENGTH) {''','''	if err := d.parseRest(m, currentSchema); err != nil {
		return err
	}

	return nil
}

func (d *Schema) parseRest(m map[string]interface{}, currentSchema *subSchema) error {
	// validation : string

	if existsMapKey(m, KEY_MIN_LENGTH) {''')
r('s2','err-helper',S,'''			return errors.New(formatErrorDescription(
				Locale.MustBeOfAn(),
				ErrorDetails{"x": KEY_REQUIRED, "y": TYPE_ARRAY},
			))''','''			return mustBeOfAn(KEY_REQUIRED, TYPE_ARRAY)''',S,'''			return errors.New(formatErrorDescription(
				Locale.MustBeOfAn(),
				ErrorDetails{"x": KEY_ENUM, "y": TYPE_ARRAY},
			))''','''			return mustBeOfAn(KEY_ENUM, TYPE_ARRAY)''',S,'''func (d *Schema) parseReference(''','''func mustBeOfAn(key, what string) error {
	description := formatErrorDescription(Locale.MustBeOfAn(), ErrorDetails{"x": key, "y": what})
	return errors.New(description)
}

func (d *Schema) parseReference(''')
r('s2','id-key-helper',S,'''	var keyID string

	switch *currentSchema.draft {
	case Draft4:
		keyID = KEY_ID
	case Hybrid:
		keyID = KEY_ID_NEW
		if existsMapKey(m, KEY_ID) {
			keyID = KEY_ID
		}
	default:
		keyID = KEY_ID_NEW
	}
	if''','''	keyID := KEY_ID_NEW
	if draft := *currentSchema.draft; draft == Draft4 || (draft == Hybrid && existsMapKey(m, KEY_ID)) {
		keyID = KEY_ID
	}
	if''')
r('s2','types-each',S,'''		if isKind(m[KEY_TYPE], reflect.String) {
			if k, ok := m[KEY_TYPE].(string); ok {
				err := currentSchema.types.Add(k)
				if err != nil {
					return err
				}
			}
		} else {''','''		if name, ok := m[KEY_TYPE].(string); ok {
			if err := currentSchema.types.Add(name); err != nil {
				return err
			}
		} else {''')
r('s2','ref-inline',S,'''	if k, ok := m[KEY_REF].(string); ok {

		jsonReference, err := gojsonreference.NewJsonReference(k)
		if err != nil {
			return err
		}

		currentSchema.ref = &jsonReference

		if sch, ok := d.referencePool.Get(currentSchema.ref.String()); ok {
			currentSchema.refSchema = sch
			return nil
		}

		return d.parseReference(documentNode, currentSchema)
	}
''','''	if target, ok := m[KEY_REF]; ok {
		jsonReference, err := gojsonreference.NewJsonReference(target.(string))
		if err != nil {
			return err
		}
		currentSchema.ref = &jsonReference

		known, ok := d.referencePool.Get(jsonReference.String())
		if !ok {
			return d.parseReference(documentNode, currentSchema)
		}
		currentSchema.refSchema = known
		return nil
	}
''')
r('s2','enum-all-first',S,'''			for _, v := range m[KEY_ENUM].([]interface{}) {
				is, err := marshalWithoutNumber(v)
				if err != nil {
					return err
				}
				if isStringInSlice(currentSchema.enum, *is) {''','''			values := m[KEY_ENUM].([]interface{})
			for i := 0; i < len(values); i++ {
				is, err := marshalWithoutNumber(values[i])
				if err != nil {
					return err
				}
				if indexStringInSlice(currentSchema.enum, *is) != -1 {''')
r('s2','items-helper',S,'''					newSchema := &subSchema{parent: currentSchema, property: KEY_ITEMS}
					newSchema.ref = currentSchema.ref
					currentSchema.itemsChildren = append(currentSchema.itemsChildren, newSchema)
					err := d.parseSchema(itemElement, newSchema)
					if err != nil {
						return err
					}
				} else {''','''					if err := d.addItems(itemElement, currentSchema); err != nil {
						return err
					}
				} else {''',S,'''			newSchema := &subSchema{parent: currentSchema, property: KEY_ITEMS}
			newSchema.ref = currentSchema.ref
			currentSchema.itemsChildren = append(currentSchema.itemsChildren, newSchema)
			err := d.parseSchema(m[KEY_ITEMS], newSchema)
			if err != nil {
				return err
			}
			currentSchema.itemsChildrenIsSingleSchema = true''','''			if err := d.addItems(m[KEY_ITEMS], currentSchema); err != nil {
				return err
			}
			currentSchema.itemsChildrenIsSingleSchema = true''',S,'''func (d *Schema) parseReference(''','''func (d *Schema) addItems(node interface{}, parent *subSchema) error {
	child := &subSchema{property: KEY_ITEMS, parent: parent, ref: parent.ref}
	parent.itemsChildren = append(parent.itemsChildren, child)
	return d.parseSchema(node, child)
}

func (d *Schema) parseReference(''')
r('s2','additional-props-switch',S,'''		if isKind(m[KEY_ADDITIONAL_PROPERTIES], reflect.Bool) {
			currentSchema.additionalProperties = m[KEY_ADDITIONAL_PROPERTIES].(bool)
		} else if isKind(m[KEY_ADDITIONAL_PROPERTIES], reflect.Map) {
			newSchema := &subSchema{property: KEY_ADDITIONAL_PROPERTIES, parent: currentSchema, ref: currentSchema.ref}
			currentSchema.additionalProperties = newSchema
			err := d.parseSchema(m[KEY_ADDITIONAL_PROPERTIES], newSchema)
			if err != nil {
				return errors.New(err.Error())
			}
		} else {''','''		switch value := m[KEY_ADDITIONAL_PROPERTIES].(type) {
		case bool:
			currentSchema.additionalProperties = value
		case map[string]interface{}:
			newSchema := &subSchema{property: KEY_ADDITIONAL_PROPERTIES, parent: currentSchema, ref: currentSchema.ref}
			if err := d.parseSchema(value, newSchema); err != nil {
				return err
			}
			currentSchema.additionalProperties = newSchema
		default:''')
# ---------------- bundle u1: utils, result, types, context
r('u1','iskind-switch',U,'''	target := what
	if isJSONNumber(what) {
		// JSON Numbers are strings!
		target = big.Rat{}
	}
	targetKind := reflect.ValueOf(target).Kind()
	for _, kind := range kinds {
		if targetKind == kind {
			return true
		}
	}
	return false''','''	kind := reflect.ValueOf(what).Kind()
	if isJSONNumber(what) {
		// JSON Numbers are strings!
		kind = reflect.Struct
	}
	for i := range kinds {
		if kinds[i] == kind {
			return true
		}
	}
	return false''')
r('u1','instr-index',U,'''	for i := range s {
		if s[i] == what {
			return true
		}
	}
	return false''','''	return indexStringInSlice(s, what) >= 0''')
r('u1','isnumber-comma',U,'''	switch what.(type) {

	case json.Number:
		return true
	}

	return false''','''	_, ok := what.(json.Number)
	return ok''')
r('u1','mustint-early',U,'''	if isJSONNumber(what) {

		number := what.(json.Number)

		value, isValidNumber := new(big.Rat).SetString(string(number))

		if isValidNumber && value.IsInt() && value.Num().IsInt64() {
			intValue := int(value.Num().Int64())
			return &intValue
		}

	}

	return nil''','''	value := mustBeNumber(what)
	if value == nil || !value.IsInt() || !value.Num().IsInt64() {
		return nil
	}
	n := int(value.Num().Int64())
	return &n''')
r('u1','merge-loop',R,'''	v.errors = append(v.errors, otherResult.Errors()...)
	v.score += otherResult.score''','''	for _, e := range otherResult.errors {
		v.errors = append(v.errors, e)
	}
	v.score = v.score + otherResult.score''')
r('u1','valid-nil',R,'''	return len(v.errors) == 0
}''','''	return !(len(v.errors) > 0)
}''')
r('u1','type-contains',T,'''	for _, v := range t.types {
		if v == etype {
			return true
		}
	}

	return false''','''	return isStringInSlice(t.types, etype)''')
r('u1','type-string',T,'''	if len(t.types) == 0 {
		return STRING_UNDEFINED // should never happen
	}

	// Displayed as a list [type1,type2,...]
	if len(t.types) > 1 {
		return fmt.Sprintf("[%s]", strings.Join(t.types, ","))
	}

	// Only one type: name only
	return t.types[0]''','''	switch len(t.types) {
	case 0:
		return STRING_UNDEFINED // should never happen
	case 1:
		return t.types[0]
	default:
		return "[" + strings.Join(t.types, ",") + "]"
	}''',T,'''	"fmt"
''','')
r('u1','field-prefix',R,'''	return strings.TrimPrefix(v.context.String(), STRING_ROOT_SCHEMA_PROPERTY+".")''','''	path := v.context.String()
	if prefix := STRING_ROOT_SCHEMA_PROPERTY + "."; strings.HasPrefix(path, prefix) {
		path = path[len(prefix):]
	}
	return path''')
r('u1','add-details',R,'''	if _, exists := details["context"]; !exists && err.Context() != nil {
		details["context"] = err.Context().String()
	}
''','''	if c := err.Context(); c != nil {
		if _, exists := details["context"]; !exists {
			details["context"] = c.String()
		}
	}
''')

# ---------------- bundle p1: schema pool
r('p1','pool-idkey-helper',P,'''		// In draft 6 the id keyword was renamed to $id
		// Without a known draft either is used, the old id by default
		keyID := KEY_ID_NEW
		if draft == nil || *draft == Hybrid {
			if existsMapKey(m, KEY_ID) {
				keyID = KEY_ID
			}
		} else if *draft == Draft4 {
			keyID = KEY_ID
		}
''','''		keyID := idKeyword(m, draft)
''',P,'''func (p *schemaPool) GetDocument(''','''// idKeyword: in draft 6 the id keyword was renamed to $id.
// Without a known draft either is used, the old id by default.
func idKeyword(m map[string]interface{}, draft *Draft) string {
	known := draft != nil && *draft != Hybrid
	switch {
	case known && *draft == Draft4:
		return KEY_ID
	case known:
		return KEY_ID_NEW
	case existsMapKey(m, KEY_ID):
		return KEY_ID
	}
	return KEY_ID_NEW
}

func (p *schemaPool) GetDocument(''')
r('p1','pool-resolve-helper',P,'''		if existsMapKey(m, KEY_REF) && isKind(m[KEY_REF], reflect.String) {
			jsonReference, err := gojsonreference.NewJsonReference(m[KEY_REF].(string))
			if err == nil {
				absoluteRef, err := localRef.Inherits(jsonReference)
				if err == nil {
					m[KEY_REF] = absoluteRef.String()
				}
			}
		}
''','''		if r, ok := m[KEY_REF].(string); ok {
			if absolute := resolveAgainst(localRef, r); absolute != nil {
				m[KEY_REF] = absolute.String()
			}
		}
''',P,'''func (p *schemaPool) parseReferencesRecursive(''','''func resolveAgainst(base *gojsonreference.JsonReference, s string) *gojsonreference.JsonReference {
	r, err := gojsonreference.NewJsonReference(s)
	if err != nil {
		return nil
	}
	absolute, err := base.Inherits(r)
	if err != nil {
		return nil
	}
	return absolute
}

func (p *schemaPool) parseReferencesRecursive(''')
r('p1','pool-walk-switch',P,'''			if k == KEY_CONST || k == KEY_ENUM {
				continue
			}
			// Something like a property or a dependency is not a valid schema, as it might describe properties named "$ref", "$id" or "const", etc
			// Therefore don't treat it like a schema.
			if k == KEY_PROPERTIES || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {
				if child, ok := v.(map[string]interface{}); ok {
					for _, v := range child {
						p.parseReferencesRecursive(v, *localRef, draft)
					}
				}
			} else {
				p.parseReferencesRecursive(v, *localRef, draft)
			}''','''			switch k {
			case KEY_CONST, KEY_ENUM:
			case KEY_PROPERTIES, KEY_DEPENDENCIES, KEY_PATTERN_PROPERTIES:
				child, ok := v.(map[string]interface{})
				if !ok {
					break
				}
				for name := range child {
					p.parseReferencesRecursive(child[name], *localRef, draft)
				}
			default:
				p.parseReferencesRecursive(v, *localRef, draft)
			}''')
r('p1','pool-array-index',P,'''		for _, v := range m {
			p.parseReferencesRecursive(v, ref, draft)
		}
	case map''','''		for i := 0; i < len(m); i++ {
			p.parseReferencesRecursive(m[i], ref, draft)
		}
	case map''')
r('p1','pool-register',P,'''					localRef = absoluteID
					if _, ok := p.schemaPoolDocuments[localRef.String()]; ok {
						return fmt.Errorf("Reference already exists: \\"%s\\"", localRef.String())
					}
					p.schemaPoolDocuments[localRef.String()] = &schemaPoolDocument{Document: document, Draft: draft}
''','''					localRef = absoluteID
					if err := p.register(localRef.String(), document, draft); err != nil {
						return err
					}
''',P,'''func (p *schemaPool) parseReferencesRecursive(''','''func (p *schemaPool) register(name string, document interface{}, draft *Draft) error {
	if _, taken := p.schemaPoolDocuments[name]; taken {
		return fmt.Errorf("Reference already exists: %q", name)
	}
	doc := new(schemaPoolDocument)
	doc.Document, doc.Draft = document, draft
	p.schemaPoolDocuments[name] = doc
	return nil
}

func (p *schemaPool) parseReferencesRecursive(''')
r('p1','pool-getdoc',P,'''	if cachedSpd, ok := p.schemaPoolDocuments[refToURL.String()]; ok {
		document, _, err := reference.GetPointer().Get(cachedSpd.Document)

		if err != nil {
			return nil, err
		}

		if internalLogEnabled {
			internalLog(" From pool")
		}

		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}
		p.schemaPoolDocuments[reference.String()] = spd

		return spd, nil
	}
''','''	if cachedSpd := p.schemaPoolDocuments[refToURL.String()]; cachedSpd != nil {
		document, _, err := reference.GetPointer().Get(cachedSpd.Document)
		if err == nil {
			if internalLogEnabled {
				internalLog(" From pool")
			}
			spd = &schemaPoolDocument{Draft: cachedSpd.Draft, Document: document}
			p.schemaPoolDocuments[reference.String()] = spd
			return spd, nil
		}
		return nil, err
	}
''')
# ---------------- bundle p2: pool and loader
r('p2','pool-parse-early',P,'''	err = p.parseReferencesRecursive(document, ref, draft)

	if pooled && err == nil {
		p.schemaPoolDocuments[reference] = &schemaPoolDocument{Document: document, Draft: draft}
	}

	return err''','''	if err := p.parseReferencesRecursive(document, ref, draft); err != nil {
		return err
	}
	if !pooled {
		return nil
	}
	p.schemaPoolDocuments[reference] = &schemaPoolDocument{Document: document, Draft: draft}
	return nil''')
r('p2','pool-load-helper',P,'''	jsonReferenceLoader := p.jsonLoaderFactory.New(reference.String())
	document, err := jsonReferenceLoader.LoadJSON()

	if err != nil {
		return nil, err
	}
''','''	document, err := p.load(reference.String())
	if err != nil {
		return nil, err
	}
''',P,'''func (p *schemaPool) GetDocument(''','''func (p *schemaPool) load(source string) (interface{}, error) {
	return p.jsonLoaderFactory.New(source).LoadJSON()
}

func (p *schemaPool) GetDocument(''')
r('p2','loader-meta-helper',L,'''	result := metaSchema.validateDocument(documentNode)

	if !result.Valid() {
		var res bytes.Buffer
		for _, err := range result.Errors() {
			res.WriteString(err.String())
			res.WriteString("\\n")
		}
		return errors.New(res.String())
	}

	return nil
}
''','''	return errorsOf(metaSchema.validateDocument(documentNode))
}

func errorsOf(result *Result) error {
	if result.Valid() {
		return nil
	}
	var lines []string
	for _, e := range result.Errors() {
		lines = append(lines, e.String()+"\\n")
	}
	return errors.New(strings.Join(lines, ""))
}
''',L,'''	"bytes"
	"errors"
''','''	"errors"
	"strings"
''')
r('p2','loader-restore-defer',L,'''	sl.Validate = false
	loaderFactory := sl.pool.jsonLoaderFactory

	metaSchema, err := sl.Compile(NewReferenceLoader(schema))

	sl.pool.jsonLoaderFactory = loaderFactory
	sl.Validate = true

	if err != nil {
		return err
	}
''','''	metaSchema, err := sl.compileMeta(schema)
	if err != nil {
		return err
	}
''',L,'''func (sl *SchemaLoader) validateMetaschema(''','''func (sl *SchemaLoader) compileMeta(url string) (*Schema, error) {
	saved := sl.pool.jsonLoaderFactory
	sl.Validate = false
	defer func() {
		sl.Validate = true
		sl.pool.jsonLoaderFactory = saved
	}()
	return sl.Compile(NewReferenceLoader(url))
}

func (sl *SchemaLoader) validateMetaschema(''')
r('p2','loader-check-helper',L,'''		doc, err := loader.LoadJSON()

		if err != nil {
			return err
		}

		if sl.Validate {
			if err := sl.validateMetaschema(doc); err != nil {
				return err
			}
		}

		// Dir''','''		doc, err := sl.loadChecked(loader)
		if err != nil {
			return err
		}

		// Dir''',L,'''	doc, err := loader.LoadJSON()

	if err != nil {
		return err
	}

	if sl.Validate {
		if err := sl.validateMetaschema(doc); err != nil {
			return err
		}
	}

	return sl.pool''','''	doc, err := sl.loadChecked(loader)
	if err != nil {
		return err
	}

	return sl.pool''',L,'''// AddSchemas adds''','''func (sl *SchemaLoader) loadChecked(loader JSONLoader) (interface{}, error) {
	doc, err := loader.LoadJSON()
	if err == nil && sl.Validate {
		err = sl.validateMetaschema(doc)
	}
	if err != nil {
		return nil, err
	}
	return doc, nil
}

// AddSchemas adds''')
r('p2','loader-draft-helper',L,'''	draft := sl.Draft
	if sl.AutoDetect {
		_, detectedDraft, err := parseSchemaURL(doc)
		if err != nil {
			return nil, err
		}
		if detectedDraft == nil {
			// a fragment of a document has the draft of that document
			detectedDraft = documentDraft
		}
		if detectedDraft != nil {
			draft = *detectedDraft
		}
	}

	err = d.parse(doc, draft)
	if err != nil {
		return nil, err
	}

	return &d, nil''','''	draft, err := sl.draftOf(doc, documentDraft)
	if err != nil {
		return nil, err
	}
	if err := d.parse(doc, draft); err != nil {
		return nil, err
	}
	return &d, nil''',L,'''// Compile loads''','''func (sl *SchemaLoader) draftOf(doc interface{}, inherited *Draft) (Draft, error) {
	if !sl.AutoDetect {
		return sl.Draft, nil
	}
	_, detected, err := parseSchemaURL(doc)
	switch {
	case err != nil:
		return 0, err
	case detected != nil:
		return *detected, nil
	case inherited != nil:
		return *inherited, nil
	}
	return sl.Draft, nil
}

// Compile loads''')
r('p2','loader-literal',L,'''	d := Schema{}
	d.pool = sl.pool
	d.pool.jsonLoaderFactory = rootSchema.LoaderFactory()
	d.documentReference = ref
	d.referencePool = newSchemaReferencePool()
''','''	sl.pool.jsonLoaderFactory = rootSchema.LoaderFactory()
	d := Schema{pool: sl.pool, documentReference: ref, referencePool: newSchemaReferencePool()}
''')
r('p2','refpool-simple',RP,'''	if sch, ok := p.documents[ref]; ok {
		if internalLogEnabled {
			internalLog(fmt.Sprintf(" From pool"))
		}
		return sch, true
	}

	return nil, false''','''	sch, ok := p.documents[ref]
	if ok && internalLogEnabled {
		internalLog(" From pool")
	}
	return sch, ok''',RP,'''	if _, ok := p.documents[ref]; !ok {
		p.documents[ref] = sch
	}''','''	if _, present := p.documents[ref]; present {
		return
	}
	p.documents[ref] = sch''',RP,'''	p := &schemaReferencePool{}
	p.documents = make(map[string]*subSchema)

	return p''','''	return &schemaReferencePool{documents: map[string]*subSchema{}}''')
# ---------------- bundle l1: loaders
r('l1','ref-path-helper',J,'''		filename := strings.TrimPrefix(refToURL.String(), "file://")
		filename, err = url.QueryUnescape(filename)

		if err != nil {
			return nil, err
		}

		if runtime.GOOS == "windows" {
			// on Windows, a file URL may have an extra leading slash, use slashes
			// instead of backslashes, and have spaces escaped
			filename = strings.TrimPrefix(filename, "/")
			filename = filepath.FromSlash(filename)
		}

		document, err = l.loadFromFile(filename)
		if err != nil {
			return nil, err
		}

	} else {

		document, err = l.loadFromHTTP(refToURL.String())
		if err != nil {
			return nil, err
		}

	}

	return document, nil

}
''','''		filename, err := fileNameOf(refToURL.String())
		if err != nil {
			return nil, err
		}
		return l.loadFromFile(filename)
	}

	return l.loadFromHTTP(refToURL.String())
}

const fileScheme = "file://"

func fileNameOf(address string) (string, error) {
	if strings.HasPrefix(address, fileScheme) {
		address = address[len(fileScheme):]
	}
	name, err := url.QueryUnescape(address)
	if err != nil {
		return "", err
	}
	if runtime.GOOS != "windows" {
		return name, nil
	}
	// on Windows, a file URL may have an extra leading slash, use slashes
	// instead of backslashes, and have spaces escaped
	return filepath.FromSlash(strings.TrimPrefix(name, "/")), nil
}
''',J,'''	var document interface{}

	if reference.HasFileScheme {
''','''	if reference.HasFileScheme {
''')
r('l1','read-helper',J,'''	bodyBuff, err := ioutil.ReadAll(resp.Body)
	if err != nil {
		return nil, err
	}

	return decodeJSONUsingNumber(bytes.NewReader(bodyBuff))
}

func (l *jsonReferenceLoader) loadFromFile(''','''	return readAndDecode(resp.Body)
}

func readAndDecode(r io.Reader) (interface{}, error) {
	content, err := ioutil.ReadAll(r)
	if err == nil {
		return decodeJSONUsingNumber(bytes.NewReader(content))
	}
	return nil, err
}

func (l *jsonReferenceLoader) loadFromFile(''',J,'''	bodyBuff, err := ioutil.ReadAll(f)
	if err != nil {
		return nil, err
	}

	return decodeJSONUsingNumber(bytes.NewReader(bodyBuff))

}''','''	return readAndDecode(f)
}''')
r('l1','string-direct',J,'''	return decodeJSONUsingNumber(strings.NewReader(l.JsonSource().(string)))

}

// JSON bytes''','''	return decodeJSONUsingNumber(bytes.NewBufferString(l.source))
}

// JSON bytes''',J,'''	return decodeJSONUsingNumber(bytes.NewReader(l.JsonSource().([]byte)))''','''	return decodeJSONUsingNumber(bytes.NewReader(l.source))''')
r('l1','decode-return',J,'''	err := decoder.Decode(&document)
	if err != nil {
		return nil, err
	}

	return document, nil

}''','''	if err := decoder.Decode(&document); err != nil {
		return nil, err
	}
	return document, nil
}''')
r('l1','status-switch',J,'''	if resp.StatusCode != http.StatusOK {
		return nil, errors.New(formatErrorDescription(Locale.HttpBadStatus(), ErrorDetails{"status": resp.Status}))
	}
''','''	switch resp.StatusCode {
	case http.StatusOK:
	default:
		msg := formatErrorDescription(Locale.HttpBadStatus(), ErrorDetails{"status": resp.Status})
		return nil, errors.New(msg)
	}
''')
r('l1','factory-value',J,'''func (l *jsonGoLoader) LoaderFactory() JSONLoaderFactory {
	return &DefaultJSONLoaderFactory{}
}''','''func (l *jsonGoLoader) LoaderFactory() JSONLoaderFactory {
	return DefaultJSONLoaderFactory{}
}''',J,'''func (d DefaultJSONLoaderFactory) New(source string) JSONLoader {
	return &jsonReferenceLoader{
		fs:     osFS,
		source: source,
	}
}''','''func (d DefaultJSONLoaderFactory) New(source string) JSONLoader {
	return NewReferenceLoaderFileSystem(source, osFS)
}''')
# ---------------- bundle f1: formats
r('f1','string-helper',F,'''	asString, ok := input.(string)
	if !ok {
		return true
	}

	return rxUUID.MatchString(asString)
}''','''	return matchesOrNoString(rxUUID, input)
}

func matchesOrNoString(rx *regexp.Regexp, input interface{}) bool {
	s, ok := input.(string)
	return !ok || rx.MatchString(s)
}''',F,'''	asString, ok := input.(string)
	if !ok {
		return true
	}

	return rxJSONPointer.MatchString(asString)''','''	return matchesOrNoString(rxJSONPointer, input)''')
r('f1','date-helper',F,'''	formats := []string{
		"15:04:05",
		"15:04:05Z07:00",
		"2006-01-02",
		time.RFC3339,
		time.RFC3339Nano,
	}

	for _, format := range formats {
		if _, err := time.Parse(format, asString); err == nil {
			return true
		}
	}

	return false
}''','''	return parsesAsAny(asString, "15:04:05", "15:04:05Z07:00", "2006-01-02", time.RFC3339, time.RFC3339Nano)
}

func parsesAsAny(s string, layouts ...string) bool {
	for i := range layouts {
		if _, err := time.Parse(layouts[i], s); err == nil {
			return true
		}
	}
	return false
}''',F,'''	_, err := time.Parse("2006-01-02", asString)
	return err == nil
}''','''	return parsesAsAny(asString, "2006-01-02")
}''',F,'''	if _, err := time.Parse("15:04:05Z07:00", asString); err == nil {
		return true
	}

	_, err := time.Parse("15:04:05", asString)
	return err == nil
}''','''	return parsesAsAny(asString, "15:04:05", "15:04:05Z07:00")
}''')
r('f1','ip-helper',F,'''	// Credit: https://github.com/asaskevich/govalidator
	ip := net.ParseIP(asString)
	return ip != nil && !strings.Contains(asString, ":")
}''','''	return isIP(asString, false)
}

// Credit: https://github.com/asaskevich/govalidator
func isIP(s string, v6 bool) bool {
	return strings.Contains(s, ":") == v6 && net.ParseIP(s) != nil
}''',F,'''	// Credit: https://github.com/asaskevich/govalidator
	ip := net.ParseIP(asString)
	return ip != nil && strings.Contains(asString, ":")''','''	return isIP(asString, true)''')
r('f1','uri-switch',F,'''	u, err := url.Parse(asString)

	if err != nil || u.Scheme == "" {
		return false
	}

	return !strings.Contains(asString, `\\`)''','''	if strings.ContainsRune(asString, '\\\\') {
		return false
	}
	u, err := url.Parse(asString)
	if err != nil {
		return false
	}
	return len(u.Scheme) > 0''')
r('f1','hostname-order',F,'''	return rxHostname.MatchString(asString) && len(asString) < 256''','''	if len(asString) > 255 {
		return false
	}
	return rxHostname.MatchString(asString)''')
r('f1','regex-simplify',F,'''	if asString == "" {
		return true
	}
	_, err := regexp.Compile(asString)
	return err == nil''','''	_, err := regexp.Compile(asString)
	return asString == "" || err == nil''')
r('f1','lock-defer',F,'''	lock.RLock()
	_, ok := c.formatters[name]
	lock.RUnlock()

	return ok''','''	lock.RLock()
	defer lock.RUnlock()

	_, ok := c.formatters[name]
	return ok''',F,'''	lock.Lock()
	c.formatters[name] = f
	lock.Unlock()

	return c''','''	lock.Lock()
	defer lock.Unlock()
	c.formatters[name] = f
	return c''',F,'''	lock.RLock()
	f, ok := c.formatters[name]
	lock.RUnlock()

	// If a format is unrecognized it should always pass validation
	if !ok {
		return true
	}

	return f.IsFormat(input)''','''	f, ok := c.get(name)
	// If a format is unrecognized it should always pass validation
	return !ok || f.IsFormat(input)''',F,'''// IsFormat will check''','''func (c *FormatCheckerChain) get(name string) (FormatChecker, bool) {
	lock.RLock()
	defer lock.RUnlock()
	f, ok := c.formatters[name]
	return f, ok
}

// IsFormat will check''')
# ---------------- bundle e1: errors, context, drafts
r('e1','ctx-iter',C,'''	if c.tail != nil {
		c.tail.writeStringToBuffer(buf, del)

		if len(del) > 0 {
			buf.WriteString(del[0])
		} else {
			buf.WriteString(".")
		}
	}

	buf.WriteString(c.head)''','''	if c.tail != nil {
		separator := "."
		if len(del) != 0 {
			separator = del[0]
		}
		c.tail.writeStringToBuffer(buf, del)
		buf.WriteString(separator)
	}
	buf.WriteString(c.head)''',C,'''	byteArr := make([]byte, 0, c.stringLen())
	buf := bytes.NewBuffer(byteArr)
	c.writeStringToBuffer(buf, del)
''','''	buf := &bytes.Buffer{}
	buf.Grow(c.stringLen())
	c.writeStringToBuffer(buf, del)
''')
r('e1','draft-find',D,'''	for _, config := range dc {
		if config.MetaSchemaURL == url {
			return config.MetaSchema
		}
	}
	return ""
}
func (dc draftConfigs) GetDraftVersion(url string) *Draft {
	for _, config := range dc {
		if config.MetaSchemaURL == url {
			return &config.Version
		}
	}
	return nil
}''','''	if config := dc.find(url); config != nil {
		return config.MetaSchema
	}
	return ""
}
func (dc draftConfigs) find(url string) *draftConfig {
	for i := range dc {
		if dc[i].MetaSchemaURL == url {
			return &dc[i]
		}
	}
	return nil
}
func (dc draftConfigs) GetDraftVersion(url string) *Draft {
	config := dc.find(url)
	if config == nil {
		return nil
	}
	version := config.Version
	return &version
}''')
r('e1','schema-url',D,'''	if isKind(documentNode, reflect.Bool) {
		return "", nil, nil
	}

	if !isKind(documentNode, reflect.Map) {
		return "", nil, errors.New("schema is invalid")
	}

	m := documentNode.(map[string]interface{})

	if existsMapKey(m, KEY_SCHEMA) {
		if !isKind(m[KEY_SCHEMA], reflect.String) {
			return "", nil, errors.New(''','''	var m map[string]interface{}
	switch node := documentNode.(type) {
	case bool:
		return "", nil, nil
	case map[string]interface{}:
		m = node
	default:
		return "", nil, errors.New("schema is invalid")
	}

	if value, present := m[KEY_SCHEMA]; present {
		if !isKind(value, reflect.String) {
			return "", nil, errors.New(''',D,'''NewJsonReference(m[KEY_SCHEMA].(string))''','''NewJsonReference(value.(string))''')
r('e1','newerror-order',E,'''	err.SetType(t)
	err.SetContext(context)
	err.SetValue(value)
	err.SetDetails(details)
	err.SetDescriptionFormat(d)
	details["field"] = err.Field()

	if _, exists := details["context"]; !exists && context != nil {
		details["context"] = context.String()
	}

	err.SetDescription(formatErrorDescription(err.DescriptionFormat(), details))
}''','''	err.SetContext(context)
	err.SetType(t)
	err.SetDescriptionFormat(d)
	err.SetValue(value)
	err.SetDetails(details)
	fillDetails(err, context, details)

	err.SetDescription(formatErrorDescription(err.DescriptionFormat(), details))
}

func fillDetails(err ResultError, context *JsonContext, details ErrorDetails) {
	details["field"] = err.Field()
	if context == nil {
		return
	}
	if _, exists := details["context"]; !exists {
		details["context"] = context.String()
	}
}''')
r('e1','template-helper',E,'''	errorTemplates.RLock()
	tpl = errorTemplates.Lookup(s)
	errorTemplates.RUnlock()

	if tpl == nil {
		errorTemplates.Lock()
		tpl = errorTemplates.New(s)

		if ErrorTemplateFuncs != nil {
			tpl.Funcs(ErrorTemplateFuncs)
		}

		tpl, err = tpl.Parse(s)
		errorTemplates.Unlock()

		if err != nil {
			return err.Error()
		}
	}
''','''	if tpl = lookupTemplate(s); tpl == nil {
		if tpl, err = parseTemplate(s); err != nil {
			return err.Error()
		}
	}
''',E,'''// formatErrorDescription takes''','''func lookupTemplate(s string) *template.Template {
	errorTemplates.RLock()
	defer errorTemplates.RUnlock()
	return errorTemplates.Lookup(s)
}

func parseTemplate(s string) (*template.Template, error) {
	errorTemplates.Lock()
	defer errorTemplates.Unlock()
	t := errorTemplates.New(s)
	if ErrorTemplateFuncs != nil {
		t = t.Funcs(ErrorTemplateFuncs)
	}
	return t.Parse(s)
}

// formatErrorDescription takes''')
r('e1','newerror-locals',E,'''	case *NumberGTEError:
		t = "number_gte"
		d = locale.NumberGTE()
	case *NumberGTError:
		t = "number_gt"
		d = locale.NumberGT()
	case *NumberLTEError:
		t = "number_lte"
		d = locale.NumberLTE()
	case *NumberLTError:
		t = "number_lt"
		d = locale.NumberLT()
''','''	case *NumberLTError:
		t, d = "number_lt", locale.NumberLT()
	case *NumberLTEError:
		t, d = "number_lte", locale.NumberLTE()
	case *NumberGTError:
		t, d = "number_gt", locale.NumberGT()
	case *NumberGTEError:
		t, d = "number_gte", locale.NumberGTE()
''')
# ---------------- bundle n1: later rewrites of validation.go
r('n1','best-index',V,'''		validatedAnyOf := false
		var bestValidationResult *Result

		for _, anyOfSchema := range currentSubSchema.anyOf {
			if !validatedAnyOf {
				validationResult := anyOfSchema.subValidateWithContext(currentNode, context)
				validatedAnyOf = validationResult.Valid()

				if !validatedAnyOf && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {
					bestValidationResult = validationResult
				}
			}
		}
		if !validatedAnyOf {

			result.addInternalError(new(NumberAnyOfError), context, currentNode, ErrorDetails{})

			if bestValidationResult != nil {
				// add error messages of closest matching subSchema as
				// that's probably the one the user was trying to match
				result.mergeErrors(bestValidationResult)
			}
		}''','''		validatedAnyOf := false
		best := -1
		results := make([]*Result, 0, len(currentSubSchema.anyOf))

		for i, anyOfSchema := range currentSubSchema.anyOf {
			validationResult := anyOfSchema.subValidateWithContext(currentNode, context)
			if validationResult.Valid() {
				validatedAnyOf = true
				break
			}
			results = append(results, validationResult)
			if best < 0 || validationResult.score > results[best].score {
				best = i
			}
		}
		if !validatedAnyOf {
			result.addInternalError(new(NumberAnyOfError), context, currentNode, ErrorDetails{})
			if best >= 0 {
				result.mergeErrors(results[best])
			}
		}''')
r('n1','best-score',V,'''		validatedOne := false
		var bestValidationResult *Result

		for i, v := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)

			validationResult := currentSubSchema.contains.subValidateWithContext(v, subContext)
			if validationResult.Valid() {
				validatedOne = true
				break
			} else {
				if bestValidationResult == nil || validationResult.score > bestValidationResult.score {
					bestValidationResult = validationResult
				}
			}
		}''','''		validatedOne := false
		var bestValidationResult *Result
		bestScore := 0

		for i, v := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)

			validationResult := currentSubSchema.contains.subValidateWithContext(v, subContext)
			if validatedOne = validationResult.Valid(); validatedOne {
				break
			}
			if bestValidationResult == nil || bestScore < validationResult.score {
				bestValidationResult, bestScore = validationResult, validationResult.score
			}
		}''')
r('n1','closest-helper',V,'''		nbValidated := 0
		var bestValidationResult *Result

		for _, oneOfSchema := range currentSubSchema.oneOf {
			validationResult := oneOfSchema.subValidateWithContext(currentNode, context)
			if validationResult.Valid() {
				nbValidated++
			} else if nbValidated == 0 && (bestValidationResult == nil || validationResult.score > bestValidationResult.score) {
				bestValidationResult = validationResult
			}
		}

		if nbValidated != 1 {

			result.addInternalError(new(NumberOneOfError), context, currentNode, ErrorDetails{})

			if nbValidated == 0 {
				// add error messages of closest matching subSchema as
				// that's probably the one the user was trying to match
				result.mergeErrors(bestValidationResult)
			}
		}
''','''		nbValidated := 0
		var closest *Result

		for _, oneOfSchema := range currentSubSchema.oneOf {
			validationResult := oneOfSchema.subValidateWithContext(currentNode, context)
			if validationResult.Valid() {
				nbValidated++
				continue
			}
			closest = closerResult(closest, validationResult)
		}

		switch nbValidated {
		case 1:
		case 0:
			result.addInternalError(new(NumberOneOfError), context, currentNode, ErrorDetails{})
			result.mergeErrors(closest)
		default:
			result.addInternalError(new(NumberOneOfError), context, currentNode, ErrorDetails{})
		}
''',V,'''func (v *subSchema) validateCommon(''','''// closerResult returns which of the two failures is closer to a match
func closerResult(best, candidate *Result) *Result {
	if best == nil || candidate.score > best.score {
		return candidate
	}
	return best
}

func (v *subSchema) validateCommon(''')
r('n1','length-fastpath',V,'''	if currentSubSchema.minLength != nil {
		if utf8.RuneCount([]byte(stringValue)) < int(*currentSubSchema.minLength) {''','''	if currentSubSchema.minLength != nil {
		if len(stringValue) < *currentSubSchema.minLength || utf8.RuneCountInString(stringValue) < *currentSubSchema.minLength {''')
r('n1','maxlength-fastpath',V,'''	if currentSubSchema.maxLength != nil {
		if utf8.RuneCount([]byte(stringValue)) > int(*currentSubSchema.maxLength) {''','''	if currentSubSchema.maxLength != nil {
		if len(stringValue) > *currentSubSchema.maxLength && utf8.RuneCountInString(stringValue) > *currentSubSchema.maxLength {''')
r('n1','props-set',V,'''		// Check whether this property is described by "properties"
		found := false
		for _, spValue := range currentSubSchema.propertiesChildren {
			if pk == spValue.property {
				found = true
			}
		}
''','''		// Check whether this property is described by "properties"
		found := currentSubSchema.describesProperty(pk)
''',V,'''func (v *subSchema) validatePatternProperty(''','''func (v *subSchema) describesProperty(name string) bool {
	for i := range v.propertiesChildren {
		if v.propertiesChildren[i].property == name {
			return true
		}
	}
	return false
}

func (v *subSchema) validatePatternProperty(''')
r('n1','type-error-helper',V,'''				if currentSubSchema.types.IsTyped() && !currentSubSchema.types.Contains(TYPE_ARRAY) {
					result.addInternalError(
						new(InvalidTypeError),
						context,
						currentNode,
						ErrorDetails{
							"expected": currentSubSchema.types.String(),
							"given":    TYPE_ARRAY,
						},
					)
					return
				}
''','''				if !currentSubSchema.acceptsType(TYPE_ARRAY) {
					currentSubSchema.addTypeError(TYPE_ARRAY, currentNode, result, context)
					return
				}
''',V,'''				if currentSubSchema.types.IsTyped() && !currentSubSchema.types.Contains(TYPE_OBJECT) {
					result.addInternalError(
						new(InvalidTypeError),
						context,
						currentNode,
						ErrorDetails{
							"expected": currentSubSchema.types.String(),
							"given":    TYPE_OBJECT,
						},
					)
					return
				}
''','''				if !currentSubSchema.acceptsType(TYPE_OBJECT) {
					currentSubSchema.addTypeError(TYPE_OBJECT, currentNode, result, context)
					return
				}
''',V,'''// Different kinds of validation there''','''func (v *subSchema) acceptsType(name string) bool {
	return !v.types.IsTyped() || v.types.Contains(name)
}

func (v *subSchema) addTypeError(given string, node interface{}, result *Result, context *JsonContext) {
	details := ErrorDetails{}
	details["expected"] = v.types.String()
	details["given"] = given
	result.addInternalError(&InvalidTypeError{}, context, node, details)
}

// Different kinds of validation there''')
r('n1','limits-table',V,'''	//maximum & exclusiveMaximum:
	if currentSubSchema.maximum != nil {
		if float64Value.Cmp(currentSubSchema.maximum) == 1 {
			result.addInternalError(
				new(NumberLTEError),
				context,
				number,
				ErrorDetails{
					"max": new(big.Float).SetRat(currentSubSchema.maximum),
				},
			)
		}
	}
	if currentSubSchema.exclusiveMaximum != nil {
		if float64Value.Cmp(currentSubSchema.exclusiveMaximum) >= 0 {
			result.addInternalError(
				new(NumberLTError),
				context,
				number,
				ErrorDetails{
					"max": new(big.Float).SetRat(currentSubSchema.exclusiveMaximum),
				},
			)
		}
	}
''','''	//maximum & exclusiveMaximum:
	limits := []struct {
		limit  *big.Rat
		broken func(int) bool
		err    ResultError
	}{
		{currentSubSchema.maximum, func(c int) bool { return c > 0 }, new(NumberLTEError)},
		{currentSubSchema.exclusiveMaximum, func(c int) bool { return c >= 0 }, new(NumberLTError)},
	}
	for _, l := range limits {
		if l.limit == nil || !l.broken(float64Value.Cmp(l.limit)) {
			continue
		}
		result.addInternalError(l.err, context, number, ErrorDetails{"max": new(big.Float).SetRat(l.limit)})
	}
''')
r('n1','dep-loop-swap',V,'''			for elementKey := range currentNode.(map[string]interface{}) {
				if dependency, ok := currentSubSchema.dependencies[elementKey]; ok {
					switch dependency := dependency.(type) {
''','''			object := currentNode.(map[string]interface{})
			for trigger, dependency := range currentSubSchema.dependencies {
				if _, present := object[trigger]; present {
					switch dependency := dependency.(type) {
''')
r('n1','propnames-merge',V,'''	// propertyNames:
	if currentSubSchema.propertyNames != nil {
		for pk := range value {
			validationResult := currentSubSchema.propertyNames.subValidateWithContext(pk, context)
			if !validationResult.Valid() {
				result.addInternalError(new(InvalidPropertyNameError),
					context,
					value, ErrorDetails{
						"property": pk,
					})
				result.mergeErrors(validationResult)
			}
		}
	}
''','''	// propertyNames:
	if names := currentSubSchema.propertyNames; names != nil {
		var pks []string
		for pk := range value {
			pks = append(pks, pk)
		}
		for _, pk := range pks {
			validationResult := names.subValidateWithContext(pk, context)
			if len(validationResult.Errors()) == 0 {
				continue
			}
			result.addInternalError(new(InvalidPropertyNameError), context, value, ErrorDetails{"property": pk})
			result.mergeErrors(validationResult)
		}
	}
''')
r('n1','items-unify',V,'''			// while we have both schemas and values, check them against each other
			for i := 0; i != nbItems && i != nbValues; i++ {
				subContext := NewJsonContext(strconv.Itoa(i), context)
				validationResult := currentSubSchema.itemsChildren[i].subValidateWithContext(value[i], subContext)
				result.mergeErrors(validationResult)
			}
''','''			// while we have both schemas and values, check them against each other
			for i, itemSchema := range currentSubSchema.itemsChildren {
				if i >= nbValues {
					break
				}
				result.mergeErrors(itemSchema.subValidateWithContext(value[i], NewJsonContext(strconv.Itoa(i), context)))
			}
''')
# ---------------- bundle n2: the rest, again
r('n2','counter',R,'''func (v *Result) incrementScore() {
	v.score++
}''','''func (v *Result) incrementScore() {
	v.addScore(1)
}

func (v *Result) addScore(points int) {
	v.score += points
}''',R,'''	v.score -= 2 // results''','''	v.addScore(-2) // results''')
r('n2','merge-loop2',R,'''	v.errors = append(v.errors, otherResult.Errors()...)
	v.score += otherResult.score''','''	for _, e := range otherResult.errors {
		v.errors = append(v.errors, e)
	}
	v.score = v.score + otherResult.score''')
r('n2','isint',U,'''func isStringInSlice(s []string, what string) bool {''','''func isStringInSlice(s []string, what string) bool {
	if len(s) == 0 {
		return false
	}''')
r('n2','pattern-compiled',V,'''	for pk, pv := range currentSubSchema.patternProperties {
		if matches, _ := regexp.MatchString(pk, key); matches {
			validated = true
			subContext := NewJsonContext(key, context)
			validationResult := pv.subValidateWithContext(value, subContext)
			result.mergeErrors(validationResult)
		}
	}''','''	for _, pp := range currentSubSchema.patternProperties {
		if pp.pattern.MatchString(key) {
			validated = true
			subContext := NewJsonContext(key, context)
			validationResult := pp.schema.subValidateWithContext(value, subContext)
			result.mergeErrors(validationResult)
		}
	}''',V,'''	"regexp"
''','',S,'''				currentSchema.patternProperties = make(map[string]*subSchema)
				for k, v := range patternPropertiesMap {
					_, err := regexp.MatchString(k, "")
					if err''','''				for k, v := range patternPropertiesMap {
					compiled, err := regexp.Compile(k)
					if err''',S,'''					currentSchema.patternProperties[k] = newSchema
''','''					currentSchema.patternProperties = append(currentSchema.patternProperties, patternProperty{compiled, newSchema})
''','subSchema.go','''	patternProperties    map[string]*subSchema
''','''	patternProperties    []patternProperty
''','subSchema.go','''type subSchema struct {''','''type patternProperty struct {
	pattern *regexp.Regexp
	schema  *subSchema
}

type subSchema struct {''')
r('n2','optional-string',S,'''	if existsMapKey(m, KEY_TITLE) && !isKind(m[KEY_TITLE], reflect.String) {
		return errors.New(formatErrorDescription(
			Locale.InvalidType(),
			ErrorDetails{
				"expected": TYPE_STRING,
				"given":    KEY_TITLE,
			},
		))
	}
	if k, ok := m[KEY_TITLE].(string); ok {
		currentSchema.title = &k
	}
''','''	title, err := optionalString(m, KEY_TITLE)
	if err != nil {
		return err
	}
	currentSchema.title = title
''',S,'''	if existsMapKey(m, KEY_DESCRIPTION) && !isKind(m[KEY_DESCRIPTION], reflect.String) {
		return errors.New(formatErrorDescription(
			Locale.InvalidType(),
			ErrorDetails{
				"expected": TYPE_STRING,
				"given":    KEY_DESCRIPTION,
			},
		))
	}
	if k, ok := m[KEY_DESCRIPTION].(string); ok {
		currentSchema.description = &k
	}
''','''	if currentSchema.description, err = optionalString(m, KEY_DESCRIPTION); err != nil {
		return err
	}
''',S,'''func (d *Schema) parseReference(''','''func optionalString(m map[string]interface{}, key string) (*string, error) {
	value, present := m[key]
	if !present {
		return nil, nil
	}
	text, ok := value.(string)
	if !ok {
		return nil, errors.New(formatErrorDescription(
			Locale.InvalidType(),
			ErrorDetails{"expected": TYPE_STRING, "given": key},
		))
	}
	return &text, nil
}

func (d *Schema) parseReference(''')
r('n2','compile-split',L,'''	var doc interface{}
	var documentDraft *Draft
	if ref.String() != "" {
		// Get document from schema pool
		spd, err := d.pool.GetDocument(d.documentReference)
		if err != nil {
			return nil, err
		}
		doc = spd.Document
		documentDraft = spd.Draft
	} else {
		// Load JSON directly
		doc, err = rootSchema.LoadJSON()
		if err != nil {
			return nil, err
		}
		// References need only be parsed if loading JSON directly
		//  as pool.GetDocument already does this for us if loading by reference
		err = sl.pool.parseReferences(doc, ref, true)
		if err != nil {
			return nil, err
		}
	}
''','''	doc, documentDraft, err := sl.rootDocument(rootSchema, ref)
	if err != nil {
		return nil, err
	}
''',L,'''// Compile loads and compiles a schema
''','''// rootDocument finds the document of a schema, and its draft where the pool knows it
func (sl *SchemaLoader) rootDocument(loader JSONLoader, ref gojsonreference.JsonReference) (interface{}, *Draft, error) {
	if ref.String() == "" {
		doc, err := loader.LoadJSON()
		if err == nil {
			err = sl.pool.parseReferences(doc, ref, true)
		}
		return doc, nil, err
	}
	pooled, err := sl.pool.GetDocument(ref)
	if err != nil {
		return nil, nil, err
	}
	return pooled.Document, pooled.Draft, nil
}

// Compile loads and compiles a schema
''')
r('n2','getdoc-split',P,'''	// First check if the given fragment is a location independent identifier
	// http://json-schema.org/latest/json-schema-core.html#rfc.section.8.2.3

	if spd, ok = p.schemaPoolDocuments[refToURL.String()]; ok {
		if internalLogEnabled {
			internalLog(" From pool")
		}
		return spd, nil
	}

	// If the given reference is not a location independent identifier,
	// strip the fragment and look for a document with it's base URI

	refToURL.GetUrl().Fragment = ""

	if cachedSpd, ok := p.schemaPoolDocuments[refToURL.String()]; ok {
		document, _, err := reference.GetPointer().Get(cachedSpd.Document)

		if err != nil {
			return nil, err
		}

		if internalLogEnabled {
			internalLog(" From pool")
		}

		spd = &schemaPoolDocument{Document: document, Draft: cachedSpd.Draft}
		p.schemaPoolDocuments[reference.String()] = spd

		return spd, nil
	}
''','''	if spd := p.known(refToURL); spd != nil {
		return spd, nil
	}

	// If the given reference is not a location independent identifier,
	// strip the fragment and look for a document with it's base URI

	refToURL.GetUrl().Fragment = ""

	if whole := p.known(refToURL); whole != nil {
		part, _, err := reference.GetPointer().Get(whole.Document)
		if err != nil {
			return nil, err
		}
		fragment := &schemaPoolDocument{Document: part, Draft: whole.Draft}
		p.schemaPoolDocuments[reference.String()] = fragment
		return fragment, nil
	}
''',P,'''		spd   *schemaPoolDocument
		draft *Draft
		ok    bool
		err   error
''','''		draft *Draft
		err   error
''',P,'''func (p *schemaPool) GetDocument(''','''func (p *schemaPool) known(reference gojsonreference.JsonReference) *schemaPoolDocument {
	found, ok := p.schemaPoolDocuments[reference.String()]
	if !ok {
		return nil
	}
	if internalLogEnabled {
		internalLog(" From pool")
	}
	return found
}

func (p *schemaPool) GetDocument(''')
r('n2','walk-closure',P,'''		for k, v := range m {
			// const and enums should be interpreted literally, so ignore them
			if k == KEY_CONST || k == KEY_ENUM {
				continue
			}
			// Something like a property, a definition or a dependency is not a valid schema, as it might describe properties named "$ref", "$id" or "const", etc
			// Therefore don't treat it like a schema.
			if k == KEY_PROPERTIES || k == KEY_DEFINITIONS || k == KEY_DEPENDENCIES || k == KEY_PATTERN_PROPERTIES {
				if child, ok := v.(map[string]interface{}); ok {
					for _, v := range child {
						p.parseReferencesRecursive(v, *localRef, draft)
					}
				}
			} else {
				p.parseReferencesRecursive(v, *localRef, draft)
			}
		}''','''		walk := func(child interface{}) {
			p.parseReferencesRecursive(child, *localRef, draft)
		}
		for k, v := range m {
			switch k {
			case KEY_CONST, KEY_ENUM:
				// interpreted literally
			case KEY_PROPERTIES, KEY_DEFINITIONS, KEY_DEPENDENCIES, KEY_PATTERN_PROPERTIES:
				named, _ := v.(map[string]interface{})
				for _, child := range named {
					walk(child)
				}
			default:
				walk(v)
			}
		}''')
r('n2','parse-refs-return',P,'''	err = p.parseReferencesRecursive(document, ref, draft)

	if pooled && err == nil {
		p.schemaPoolDocuments[reference] = &schemaPoolDocument{Document: document, Draft: draft}
	}

	return err
''','''	if err = p.parseReferencesRecursive(document, ref, draft); err != nil {
		return err
	}
	if !pooled {
		return nil
	}
	p.schemaPoolDocuments[reference] = &schemaPoolDocument{document, draft}
	return nil
''')
# ---------------- bundle n3
r('n3','merge-adopt',R,'''	v.errors = append(v.errors, otherResult.Errors()...)
	v.score += otherResult.score''','''	if len(otherResult.errors) > 0 {
		merged := make([]ResultError, 0, len(v.errors)+len(otherResult.errors))
		merged = append(merged, v.errors...)
		v.errors = append(merged, otherResult.errors...)
	}
	v.score += otherResult.score''')
r('n3','ctx-join',C,'''	byteArr := make([]byte, 0, c.stringLen())
	buf := bytes.NewBuffer(byteArr)
	c.writeStringToBuffer(buf, del)

	return buf.String()
}

func (c *JsonContext) stringLen() int {
	length := 0
	if c.tail != nil {
		length = c.tail.stringLen() + 1 // add 1 for "."
	}

	length += len(c.head)
	return length
}

func (c *JsonContext) writeStringToBuffer(buf *bytes.Buffer, del []string) {
	if c.tail != nil {
		c.tail.writeStringToBuffer(buf, del)

		if len(del) > 0 {
			buf.WriteString(del[0])
		} else {
			buf.WriteString(".")
		}
	}

	buf.WriteString(c.head)
}''','''	separator := "."
	if len(del) > 0 {
		separator = del[0]
	}
	if c.tail == nil {
		return c.head
	}
	return c.tail.String(separator) + separator + c.head
}''',C,'''import "bytes"

''','')
r('n3','types-join',T,'''	if len(t.types) == 0 {
		return STRING_UNDEFINED // should never happen
	}

	// Displayed as a list [type1,type2,...]
	if len(t.types) > 1 {
		return fmt.Sprintf("[%s]", strings.Join(t.types, ","))
	}

	// Only one type: name only
	return t.types[0]''','''	switch len(t.types) {
	case 0:
		return STRING_UNDEFINED // should never happen
	case 1:
		return t.types[0]
	default:
		return "[" + strings.Join(t.types, ",") + "]"
	}''',T,'''	"fmt"
''','')
r('n3','isstring-index',U,'''	for i := range s {
		if s[i] == what {
			return true
		}
	}
	return false
}''','''	return indexStringInSlice(s, what) != -1
}''')
r('n3','isint-denom',U,'''	return isValidNumber && bigFloat.IsInt()
''','''	if !isValidNumber {
		return false
	}
	return bigFloat.IsInt()
''')
r('n3','normalise-once',V,'''	// const:
	if currentSubSchema._const != nil {
		vString, err := marshalWithoutNumber(value)
		if err != nil {''','''	// const:
	if constant := currentSubSchema._const; constant != nil {
		if vString, err := marshalWithoutNumber(value); err != nil {''')
r('n3','contains-func',V,'''		validatedOne := false
		var bestValidationResult *Result

		for i, v := range value {
			subContext := NewJsonContext(strconv.Itoa(i), context)

			validationResult := currentSubSchema.contains.subValidateWithContext(v, subContext)
			if validationResult.Valid() {
				validatedOne = true
				break
			} else {
				if bestValidationResult == nil || validationResult.score > bestValidationResult.score {
					bestValidationResult = validationResult
				}
			}
		}
		if !validatedOne {''','''		validatedOne, bestValidationResult := currentSubSchema.contains.anyElement(value, context)
		if !validatedOne {''',V,'''func (v *subSchema) validateObject(''','''// anyElement tells whether an element satisfies the schema, and otherwise the result of the closest one
func (v *subSchema) anyElement(elements []interface{}, context *JsonContext) (found bool, closest *Result) {
	for i := range elements {
		current := v.subValidateWithContext(elements[i], NewJsonContext(strconv.Itoa(i), context))
		if current.Valid() {
			return true, nil
		}
		if closest == nil || current.score > closest.score {
			closest = current
		}
	}
	return false, closest
}

func (v *subSchema) validateObject(''')
r('n3','unique-names',V,'''		var stringifiedItems = make(map[string]int)
		for j, v := range value {
			vString, err := marshalWithoutNumber(v)
			if err != nil {
				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
				continue
			}
			if i, ok := stringifiedItems[*vString]; ok {
				result.addInternalError(
					new(ItemsMustBeUniqueError),
					context,
					value,
					ErrorDetails{"type": TYPE_ARRAY, "i": i, "j": j},
				)
			}
			stringifiedItems[*vString] = j
		}''','''		positions := make(map[string]int, nbValues)
		for j := 0; j < nbValues; j++ {
			text, err := marshalWithoutNumber(value[j])
			switch {
			case err != nil:
				result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
			default:
				if i, seen := positions[*text]; seen {
					result.addInternalError(new(ItemsMustBeUniqueError), context, value, ErrorDetails{"type": TYPE_ARRAY, "i": i, "j": j})
				}
				positions[*text] = j
			}
		}''')
r('n3','if-branch',V,'''		validationResultIf := currentSubSchema._if.subValidateWithContext(currentNode, context)
		if currentSubSchema._then != nil && validationResultIf.Valid() {
			validationResultThen := currentSubSchema._then.subValidateWithContext(currentNode, context)
			if !validationResultThen.Valid() {
				result.addInternalError(new(ConditionThenError), context, currentNode, ErrorDetails{})
				result.mergeErrors(validationResultThen)
			}
		}
		if currentSubSchema._else != nil && !validationResultIf.Valid() {
			validationResultElse := currentSubSchema._else.subValidateWithContext(currentNode, context)
			if !validationResultElse.Valid() {
				result.addInternalError(new(ConditionElseError), context, currentNode, ErrorDetails{})
				result.mergeErrors(validationResultElse)
			}
		}''','''		branch, failure := currentSubSchema._else, ResultError(new(ConditionElseError))
		if currentSubSchema._if.subValidateWithContext(currentNode, context).Valid() {
			branch, failure = currentSubSchema._then, new(ConditionThenError)
		}
		if branch != nil {
			if branchResult := branch.subValidateWithContext(currentNode, context); !branchResult.Valid() {
				result.addInternalError(failure, context, currentNode, ErrorDetails{})
				result.mergeErrors(branchResult)
			}
		}''')
r('n3','limit-helper',S,'''	if currentSchema.minLength != nil && currentSchema.maxLength != nil {
		if *currentSchema.minLength > *currentSchema.maxLength {
			return''','''	if exceeds(currentSchema.minLength, currentSchema.maxLength) {
		{
			return''',S,'''	if currentSchema.minProperties != nil && currentSchema.maxProperties != nil {
		if *currentSchema.minProperties > *currentSchema.maxProperties {
			return''','''	if exceeds(currentSchema.minProperties, currentSchema.maxProperties) {
		{
			return''',S,'''func (d *Schema) parseReference(''','''func exceeds(low, high *int) bool {
	return low != nil && high != nil && *low > *high
}

func (d *Schema) parseReference(''')
r('n3','map-drafts',D,'''func (dc draftConfigs) GetDraftVersion(url string) *Draft {
	for _, config := range dc {
		if config.MetaSchemaURL == url {
			return &config.Version
		}
	}
	return nil
}''','''func (dc draftConfigs) find(matches func(draftConfig) bool) *draftConfig {
	for i := range dc {
		if matches(dc[i]) {
			return &dc[i]
		}
	}
	return nil
}

func (dc draftConfigs) GetDraftVersion(url string) *Draft {
	config := dc.find(func(c draftConfig) bool { return c.MetaSchemaURL == url })
	if config == nil {
		return nil
	}
	version := config.Version
	return &version
}''')
r('n3','isformat-has',F,'''	lock.RLock()
	f, ok := c.formatters[name]
	lock.RUnlock()

	// If a format is unrecognized it should always pass validation
	if !ok {
		return true
	}

	return f.IsFormat(input)''','''	checker := c.lookup(name)
	return checker == nil || checker.IsFormat(input)''',F,'''// Has checks to see''','''func (c *FormatCheckerChain) lookup(name string) FormatChecker {
	lock.RLock()
	defer lock.RUnlock()
	return c.formatters[name]
}

// Has checks to see''')
# ---------------- bundle n4: structure
r('n4','limit-table',V,'''	//maximum & exclusiveMaximum:
	if currentSubSchema.maximum != nil {
		if float64Value.Cmp(currentSubSchema.maximum) == 1 {
			result.addInternalError(
				new(NumberLTEError),
				context,
				number,
				ErrorDetails{
					"max": new(big.Float).SetRat(currentSubSchema.maximum),
				},
			)
		}
	}
	if currentSubSchema.exclusiveMaximum != nil {
		if float64Value.Cmp(currentSubSchema.exclusiveMaximum) >= 0 {
			result.addInternalError(
				new(NumberLTError),
				context,
				number,
				ErrorDetails{
					"max": new(big.Float).SetRat(currentSubSchema.exclusiveMaximum),
				},
			)
		}
	}

	//minimum & exclusiveMinimum:
	if currentSubSchema.minimum != nil {
		if float64Value.Cmp(currentSubSchema.minimum) == -1 {
			result.addInternalError(
				new(NumberGTEError),
				context,
				number,
				ErrorDetails{
					"min": new(big.Float).SetRat(currentSubSchema.minimum),
				},
			)
		}
	}
	if currentSubSchema.exclusiveMinimum != nil {
		if float64Value.Cmp(currentSubSchema.exclusiveMinimum) <= 0 {
			result.addInternalError(
				new(NumberGTError),
				context,
				number,
				ErrorDetails{
					"min": new(big.Float).SetRat(currentSubSchema.exclusiveMinimum),
				},
			)
		}
	}

''','''	//minimum & maximum and their exclusive forms:
	limits := []struct {
		limit   *big.Rat
		allowed func(order int) bool
		failure ResultError
		detail  string
	}{
		{currentSubSchema.maximum, func(order int) bool { return order <= 0 }, new(NumberLTEError), "max"},
		{currentSubSchema.exclusiveMaximum, func(order int) bool { return order < 0 }, new(NumberLTError), "max"},
		{currentSubSchema.minimum, func(order int) bool { return order >= 0 }, new(NumberGTEError), "min"},
		{currentSubSchema.exclusiveMinimum, func(order int) bool { return order > 0 }, new(NumberGTError), "min"},
	}
	for _, l := range limits {
		if l.limit != nil && !l.allowed(float64Value.Cmp(l.limit)) {
			result.addInternalError(l.failure, context, number, ErrorDetails{l.detail: new(big.Float).SetRat(l.limit)})
		}
	}

''')
r('n4','rune-range',V,'''utf8.RuneCount([]byte(stringValue)) < int''','''characters(stringValue) < int''',V,'''utf8.RuneCount([]byte(stringValue)) > int''','''characters(stringValue) > int''',V,'''	"unicode/utf8"
''','''''',V,'''func (v *subSchema) validateNumber(''','''// characters counts the code points of a text
func characters(text string) int {
	count := 0
	for range text {
		count++
	}
	return count
}

func (v *subSchema) validateNumber(''')
r('n4','subject',V,'''func (v *subSchema) validateRecursive(currentSubSchema *subSchema, currentNode interface{}, result *Result, context *JsonContext) {
''','''func (v *subSchema) validateRecursive(currentSubSchema *subSchema, on subject) {
	currentNode, result, context := on.node, on.result, on.context
''',V,'''
	v.rootSchema.validateRecursive(v.rootSchema, root, result, context)
''','''
	v.rootSchema.validateRecursive(v.rootSchema, subject{root, result, context})
''',V,'''
	v.validateRecursive(v, document, result, context)
''','''
	v.validateRecursive(v, subject{document, result, context})
''',V,'''
		v.validateRecursive(currentSubSchema.refSchema, currentNode, result, context)
''','''
		v.validateRecursive(currentSubSchema.refSchema, subject{currentNode, result, context})
''',V,'''
						v.validateRecursive(pSchema, nextNode, result, subContext)
''','''
						v.validateRecursive(pSchema, subject{nextNode, result, subContext})
''',V,'''
						dependency.validateRecursive(dependency, currentNode, result, context)
''','''
						dependency.validateRecursive(dependency, subject{currentNode, result, context})
''',V,'''// Walker function to validate''','''// subject is what a schema is applied to, and where the outcome goes
type subject struct {
	node    interface{}
	result  *Result
	context *JsonContext
}

// Walker function to validate''')
# ---------------- bundle n5
r('n5','ref-loop',V,'''	// Handle true/false schema as early as possible as all other fields will be nil
	if currentSubSchema.pass != nil {
		if !*currentSubSchema.pass {
			result.addInternalError(
				new(FalseError),
				context,
				currentNode,
				ErrorDetails{},
			)
		}
		return
	}

	// Handle referenced schemas, returns directly when a $ref is found
	if currentSubSchema.refSchema != nil {
		v.validateRecursive(currentSubSchema.refSchema, currentNode, result, context)
		return
	}

''','''	// Follow references to the schema they denote
	for currentSubSchema.pass == nil && currentSubSchema.refSchema != nil {
		currentSubSchema = currentSubSchema.refSchema
	}

	// Handle true/false schema as early as possible as all other fields will be nil
	if currentSubSchema.pass != nil {
		if !*currentSubSchema.pass {
			result.addInternalError(
				new(FalseError),
				context,
				currentNode,
				ErrorDetails{},
			)
		}
		return
	}

''')
r('n5','normalised',V,'''	// const:
	if currentSubSchema._const != nil {
		vString, err := marshalWithoutNumber(value)
		if err != nil {
			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
		} else if *vString != *currentSubSchema._const {
			result''','''	equalTo := func(accepts func(text string) bool) bool {
		text, err := marshalWithoutNumber(value)
		if err != nil {
			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
			return true
		}
		return accepts(*text)
	}

	// const:
	if expected := currentSubSchema._const; expected != nil {
		if !equalTo(func(text string) bool { return text == *expected }) {
			result''',V,'''		vString, err := marshalWithoutNumber(value)
		if err != nil {
			result.addInternalError(new(InternalError), context, value, ErrorDetails{"error": err})
		} else if !isStringInSlice(currentSubSchema.enum, *vString) {''','''		if !equalTo(func(text string) bool { return isStringInSlice(currentSubSchema.enum, text) }) {''')
r('n5','conditional',V,'''		validationResultIf := currentSubSchema._if.subValidateWithContext(currentNode, context)
''','''		branch, failure := currentSubSchema._else, ResultError(new(ConditionElseError))
		if currentSubSchema._if.subValidateWithContext(currentNode, context).Valid() {
			branch, failure = currentSubSchema._then, new(ConditionThenError)
		}
		if branch == nil {
			result.incrementScore()
			return
		}
		if outcome := branch.subValidateWithContext(currentNode, context); !outcome.Valid() {
			result.addInternalError(failure, context, currentNode, ErrorDetails{})
			result.mergeErrors(outcome)
		}
''',V,'''		if currentSubSchema._then != nil && validationResultIf.Valid() {
			validationResultThen := currentSubSchema._then.subValidateWithContext(currentNode, context)
			if !validationResultThen.Valid() {
				result.addInternalError(new(ConditionThenError), context, currentNode, ErrorDetails{})
				result.mergeErrors(validationResultThen)
			}
		}
		if currentSubSchema._else != nil && !validationResultIf.Valid() {
			validationResultElse := currentSubSchema._else.subValidateWithContext(currentNode, context)
			if !validationResultElse.Valid() {
				result.addInternalError(new(ConditionElseError), context, currentNode, ErrorDetails{})
				result.mergeErrors(validationResultElse)
			}
		}
''','''''')
REPO = '/repo'
KINDS = 'params closure noop index loopbreak invert elseafter nest demorgan swap negcmp ifinit condvar switchif retvar argvar funcs'.split()
def run(sel, full=True, kinds=()):
    d = '/tmp/mut/refactor'
    shutil.rmtree(d, ignore_errors=True); os.makedirs('/tmp/mut', exist_ok=True)
    shutil.copytree(REPO, d, symlinks=True)
    for id, ed in sel:
        for f, old, new in ed:
            s = open(d + '/' + f).read()
            if s.count(old) < 1: print(id, 'text not found in', f, ':', old[:80]); return
            s = s.replace(old, new, 1)
            open(d + '/' + f, 'w').write(s)
    for k in kinds:
        q = subprocess.run(['/tmp/chk', 'rewrite', k], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        if q.returncode: print(k, q.stdout, q.stderr); return
    if kinds: print('rewrite', *kinds)
    b = subprocess.run('gofmt -l . ; go vet . && go test -count=1 . 2>&1 | grep -E "^\\s*--- FAIL|^panic|^FAIL|^ok"', shell=True, cwd=d, capture_output=True, text=True)
    print(' '.join(x[0] for x in sel)); print('  ', b.stdout.strip().replace('\n', ' | '), b.stderr[:1500])
    v = '/tmp/mut/v.refactor'; os.makedirs(v, exist_ok=True); shutil.copy('/verif/known-findings.txt', v)
    e = dict(os.environ, VERIF_REPO=d, VERIF_DIR=v)
    p = subprocess.run('/tmp/chk all', shell=True, env=e, cwd='/verif', capture_output=True, text=True)
    print('\n'.join('   ' + l[:700] for l in (p.stdout + p.stderr).splitlines()[-30:]), flush=True)
    shutil.rmtree(d)
if os.environ.get('RF_APPLY'):
    d=os.environ['RF_APPLY']
    for x in sys.argv[1:]:
        for id, ed in [y for b in B.values() for y in b if y[0]==x]:
            for f,old,new in ed:
                s=open(d+'/'+f).read(); assert old in s,(id,f); open(d+'/'+f,'w').write(s.replace(old,new,1))
elif __name__ == '__main__':
    a = sys.argv[1:] or list(B)
    for x in a:
        if x in B: run(B[x])
        elif x.split('+')[0] in KINDS: run([], kinds=x.split('+'))
        else:
            s = [y for b in B.values() for y in b if y[0] == x]
            if s: run(s)
            else: print('unknown', x)
