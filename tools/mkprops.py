import json
V='include/valijson/validation_visitor.hpp'; C='include/valijson/constraints/concrete_constraints.hpp'
S='include/valijson/schema_parser.hpp'; B='include/valijson/internal/basic_adapter.hpp'
SUB='include/valijson/subschema.hpp'; R='include/valijson/validation_results.hpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],obs=[],):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["observe_at"]=obs or ["SchemaParser::populateSchema + Validator::validate verdict"]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))
p("P01","Schema combinators are the Boolean function of the sub-schema verdicts",
 "A document validates against a schema exactly when it satisfies every keyword of it; a 'true' schema accepts and a 'false' schema rejects everything. allOf accepts exactly when every sub-schema accepts the value, anyOf when at least one does, oneOf when exactly one does, not when its sub-schema rejects, and if/then/else behaves as 'then' when 'if' accepts and as 'else' otherwise (a missing branch accepts). This holds for any number of sub-schemas and is the same whether or not errors are being collected.",
 ["inputs","programs"],"all schemas with any number of sub-schemas, all documents, with and without a results object",
 "The unit tests only load a handful of fixed documents (the JSON Schema suite is not among the tests that run), so the number of sub-schemas and the truth assignment are sampled at a few points.",
 [V,C,SUB,S],[("validateSchema, visit(AllOf/AnyOf/OneOf/Not/Conditional)",V),("apply/applyStrict",SUB),("applyToSubschemas, add*/set*",C),("makeAllOf/AnyOf/OneOf/Not/Conditional, boolean schemas",S)])
p("P02","items, additionalItems and contains quantify over exactly the right elements",
 "A single 'items' schema is applied to every element of an array; an array of 'items' schemas is applied position by position and every element beyond them is governed by additionalItems (a schema, false meaning none allowed, absent or true meaning anything); 'contains' accepts exactly when some element matches. An array validates iff all the applicable element checks succeed, and values that are not arrays are accepted in strong-types mode.",
 ["inputs","programs"],"all arrays of any length, all item schema lists of any length, with and without a results object",
 "Tests sample a few short arrays; off-by-one and early-exit errors depend on the position of the failing element and on the two lengths.",
 [V,C,S],[("visit(LinearItems/SingularItems/Contains)",V),("LinearItems/SingularItems/ContainsConstraint",C),("makeItemsConstraint variants, makeContainsConstraint",S)])
p("P03","Object member keywords select and check exactly the right members",
 "Every member of an object is checked against the 'properties' schema of its name if there is one and against every patternProperties schema whose pattern is found in its name; members matched by neither are checked against additionalProperties (a schema, false rejecting them, absent or true accepting them); every member name is checked against propertyNames. An object validates iff all those checks succeed, and values that are not objects are accepted in strong-types mode.",
 ["inputs","programs"],"all objects with any number of members, all property and pattern schema maps, with and without a results object",
 "The matching relation between member names, property names and patterns is unbounded; tests exercise a few fixed combinations.",
 [V,C,S],[("visit(Properties/PropertyNames) and their functors",V),("PropertiesConstraint, PropertyNamesConstraint",C),("makePropertiesConstraint, makePropertyNamesConstraint",S)])
p("P04","required and dependencies demand exactly the listed members",
 "A 'required' list (or draft 3 'required': true on a property) rejects an object exactly when one of the listed members is missing. A property dependency rejects exactly when the trigger member is present and one of the listed members is missing; a schema dependency when the trigger is present and the object fails the schema. Values that are not objects are accepted in strong-types mode.",
 ["inputs","programs"],"all objects, all lists of names and all dependency maps, with and without a results object",
 "Subset relations over unbounded name sets; tests only use a few names.",
 [V,C,S],[("visit(Required/Dependencies) and functors",V),("RequiredConstraint, DependenciesConstraint",C),("makeRequiredConstraint*, makeDependenciesConstraint",S)])
p("P05","Size keywords compare the exact element, member and code-point counts",
 "minItems/maxItems, minProperties/maxProperties and minLength/maxLength accept a value of their type exactly when its number of elements, members or Unicode code points is at least/at most the bound; values of other types are accepted in strong-types mode. Counting the code points of a well-formed UTF-8 string is exact, and for any byte string at all, malformed or truncated, it never reads outside the string.",
 ["inputs"],"all documents, all 64-bit bounds, all byte strings of any length",
 "Boundary counts and malformed UTF-8 tails cannot be enumerated by tests; no test covers malformed input.",
 [V,C,S,"include/valijson/utils/utf8_utils.hpp"],[("visit(Min/Max Items/Length/Properties)",V),("u8_strlen, u8_nextchar","include/valijson/utils/utf8_utils.hpp"),("makeMin/Max*Constraint",S)])
p("P06","minimum, maximum and their exclusive forms are the arithmetic comparison",
 "minimum/maximum accept a number exactly when it is >=/<= the bound, exclusiveMinimum/exclusiveMaximum (the draft 3/4 Boolean form and the draft 6+ number form) exactly when it is strictly greater/less, and a schema having both a bound and its exclusive form enforces both. Values that are not numbers are accepted in strong-types mode; in weak-types mode a string holding a number is compared as that number.",
 ["inputs"],"all numbers and bounds",
 "Boundary equality and the combination of keywords and drafts are sampled by few fixed documents only.",
 [V,C,S],[("visit(Minimum/Maximum)",V),("MinimumConstraint, MaximumConstraint",C),("makeMinimum*/makeMaximum*",S)])
p("P07","multipleOf and divisibleBy decide divisibility",
 "multipleOf with an integer divisor accepts an integer exactly when it is divisible and rejects every number with a fractional part; with a fractional divisor it accepts every k*divisor up to rounding error and rejects numbers that are clearly between multiples. Values that are not numbers are accepted in strong-types mode and no input makes the check divide by zero, overflow or otherwise have undefined behaviour.",
 ["inputs"],"all 64-bit integers and doubles as values and divisors",
 "Integer edge cases (INT64_MIN, values beyond 2^63, fractional values) lie outside the sampled documents.",
 [V,C,S],[("visit(MultipleOfInt/MultipleOfDouble)",V),("makeMultipleOf*/makeDivisibleBy",S)])
p("P08","type accepts exactly the values of the named JSON types",
 "A 'type' keyword accepts a value iff it has one of the listed types, where an integral-valued number counts as integer and any number as number, 'any' accepts everything, and a schema listed as type (draft 3) accepts what that schema accepts. In strong-types mode no value is cast; in weak-types mode only the documented casts add acceptances.",
 ["inputs","programs"],"all values, all sets of type names and type schemas, both type modes",
 "The product of value kinds, casts and type sets is not covered by tests; the large-double boundary is not tested.",
 [V,C,S,B],[("visit(TypeConstraint), isDoubleAnInteger",V),("TypeConstraint, jsonTypeFromString",C),("makeTypeConstraint",S),("isX/maybeX",B)])
p("P09","const, enum and uniqueItems use structural equality",
 "const accepts exactly the values equal to its value, enum exactly the values equal to one listed value, and uniqueItems rejects an array exactly when two elements at different positions are equal. Equality is JSON structural equality: it is reflexive and symmetric, distinguishes types in strong mode, compares arrays element by element in order and objects by member regardless of order.",
 ["inputs"],"all documents and all constant values, any nesting",
 "Pairs of documents at arbitrary depth cannot be enumerated; tests compare a few scalars.",
 [V,C,S,B],[("visit(Const/Enum/UniqueItems)",V),("equalTo",B),("makeConst/Enum/UniqueItems",S)])
p("P10","format checks accept exactly the documented date, time and IPv4 strings",
 "For string values, format 'date', 'time', 'date-time' and 'ipv4' accept exactly: calendar-valid yyyy-mm-dd dates (Gregorian leap years), RFC 3339 times (a leap second only where it is 23:59:60 UTC; the offset may be missing only in permissive mode), dates and times joined by T, and dotted quads of 0-255. Unknown formats and values that are not strings are accepted, and no string makes the check throw or crash.",
 ["inputs","configurations"],"all strings, strict and permissive date/time modes",
 "The language of date/time strings is infinite; tests list some dozens of strings.",
 [V,S],[("visit(FormatConstraint), validate_date_range, validate_leap_second",V),("makeFormatConstraint",S)])
p("P11","Collecting errors never changes the verdict and is consistent with it",
 "Validating with a results object gives the same verdict as validating without one. Validation that succeeds adds no error, validation that fails adds at least one, and errors already collected by the caller are neither removed nor reordered.",
 ["inputs","programs","configurations"],"all schemas and documents, with and without a results object",
 "The relation must hold for every constraint and nesting; tests look at the errors of a few documents.",
 [V,R,SUB],[("every visit() and validateSchema",V),("pushError/popError",R),("apply/applyStrict",SUB)],obs=["Validator::validate return value; ValidationResults::numErrors/popError"])
p("P12","The error queue is FIFO and each error carries its exact JSON Pointer",
 "Errors are popped in the order they were pushed, each exactly once with unchanged context and description, and the count is always the number pushed minus the number popped. The JSON Pointer of an error is '' for the root and otherwise one '/'-prefixed segment per step with '~' and '/' escaped as '~0' and '~1', so that it resolves back to the value.",
 ["inputs","histories"],"all push/pop histories, all paths with arbitrary member names",
 "Histories and member names are unbounded.",
 [R,V],[("pushError/popError/numErrors/begin/end",R),("Error::jsonPointer building and escaping",R),("child path construction",V)],obs=["ValidationResults::popError, Error::context, Error::jsonPointer"])
p("P13","Patterns are searched with the right regex, whatever was validated before",
 "'pattern' accepts a string exactly when its regular expression is found in it, and patternProperties likewise for member names. The verdict for a document does not depend on which documents or schemas the same validator handled before, nor on patterns that occur several times.",
 ["inputs","histories"],"all validation histories of one validator, all pattern strings",
 "Reuse histories are unbounded; tests use a fresh validator per document.",
 [V,C,S,"include/valijson/validator.hpp"],[("visit(PatternConstraint), pattern functor, regex cache",V),("Validator::validate, cache ownership","include/valijson/validator.hpp"),("makePatternConstraint",S)],[("regex cache","every key maps to the regex compiled from that very string",V)])
p("P14","JSON Pointer resolution follows RFC 6901",
 "Resolving a JSON Pointer returns exactly the value reached by following its unescaped tokens ('~1' is '/', then '~0' is '~', with percent-decoding for the URI form) through object members and canonical decimal array indices, and reports an error for every pointer that does not resolve: missing member, index out of range or malformed, '-', step into a scalar. Resolution never reads outside the pointer string or the array.",
 ["inputs"],"all pointer strings and all documents",
 "The token language (escapes, signs, leading zeros, overflow) is infinite; tests list about thirty pointers.",
 ["include/valijson/internal/json_pointer.hpp"],[("extractReferenceToken, resolveJsonPointer, decodePercentEncodedChar","include/valijson/internal/json_pointer.hpp")],obs=["json_pointer::resolveJsonPointer result or exception"])
p("P15","References split at '#' and relative URIs resolve as documented",
 "A reference is split at its first '#' into a document URI (absent when empty) and a JSON Pointer fragment, and putting the two together loses nothing. Resolving a relative URI against a base: an absolute URI is returned unchanged, otherwise the relative part replaces everything after the last path separator of the base.",
 ["inputs"],"all reference and URI strings",
 "String inputs are infinite; tests list some URIs.",
 ["include/valijson/internal/json_reference.hpp","include/valijson/internal/uri.hpp"],[("getJsonReferenceUri, getJsonReferencePointer","include/valijson/internal/json_reference.hpp"),("isUriAbsolute, isUrn, resolveRelativeUri","include/valijson/internal/uri.hpp")],obs=["returned optional strings"])
p("P16","$ref resolves to the referenced schema; remote documents are balanced",
 "A $ref behaves exactly as the schema it points to, for local pointers, ids and remote documents, and the same location always gives the same sub-schema; a name or pattern containing '/' or '~' never makes two different locations be confused. A purely cyclic chain of references is reported as an error instead of looping. Every remote document fetched while parsing is fetched once per URI and freed exactly once before parsing returns, also when parsing fails.",
 ["inputs","programs","fault_sequences"],"all schema graphs, all fetch/parse failures",
 "Reference graphs and failure points are unbounded; tests use a few small graphs.",
 [S,"include/valijson/internal/json_pointer.hpp"],[("makeOrReuseSchema, resolveReference, resolveThenPopulateSchema, populateSchema, freeDocumentCache",S)],[("schema registry","maps (document URI, pointer) to the sub-schema parsed from there",S),("document cache","URI to fetched document",S)])
p("P17","A schema owns its sub-schemas and constraints exactly once",
 "Every sub-schema and constraint added to a schema is destroyed exactly once, when its schema is, using the schema's own allocation functions, also after moves and when adding fails part-way. Adding a constraint or setting metadata through a sub-schema pointer that does not belong to the schema is rejected, and the shared empty schema accepts everything and never changes.",
 ["histories","fault_sequences"],"all histories of schema operations",
 "Histories and allocation failures are unbounded; tests build a few schemas.",
 ["include/valijson/schema.hpp",SUB,C,"include/valijson/internal/custom_allocator.hpp"],[("createSubschema, mutableSubschema, destructor, addConstraint, moves","include/valijson/schema.hpp and include/valijson/subschema.hpp")],obs=["allocation log; thrown errors"])
p("P18","Adapters: type predicates, casts and accessors agree",
 "For every value exactly one of null, boolean, number (integer or double), string, array and object holds for strictly typed adapters, the maybe-predicate of a type holds whenever the is-predicate does, and whenever the maybe-predicate holds the matching cast succeeds with the value documented for the cast and otherwise fails without changing its output. Iterating arrays and objects, looking members up and asking for sizes give mutually consistent answers.",
 ["inputs"],"all values of all adapters built on the common base",
 "The value space is infinite and the contract links about forty operations; tests call each on a few values.",
 [B,"include/valijson/internal/adapter.hpp","include/valijson/adapters/*.hpp"],[("BasicAdapter members",B),("concrete adapters","include/valijson/adapters")],obs=["Adapter interface"])
p("P19","Numeric strings convert only when the whole string is a number",
 "Parsing a string as a double succeeds exactly when the entire string is a decimal floating-point literal, independently of the process locale, gives the nearest double, and leaves no partial result otherwise. Weak-types integer and Boolean casts likewise accept only strings that are entirely an integer, or exactly 'true' or 'false'.",
 ["inputs","configurations"],"all strings, all locales",
 "String inputs and locales are unbounded; tests use a few.",
 ["include/valijson/internal/double_parser.hpp",B],[("parseDouble","include/valijson/internal/double_parser.hpp"),("asInteger/maybeInteger/asBool/maybeBool",B)],obs=["parseDouble; BasicAdapter::asDouble/asInteger/asBool"])
p("P20","Malformed schemas are rejected, well-formed ones are compiled keyword by keyword",
 "Every recognised keyword present in a schema (in the drafts that have it) produces its constraint with exactly the parameters written, and absent keywords produce none. A keyword whose value has a wrong type, a negative or non-integer count, a non-positive divisor, duplicate or non-string names where the specification forbids them, makes parsing throw instead of being accepted or ignored.",
 ["inputs","programs","configurations"],"all schema documents, all supported drafts",
 "Schema documents are infinite; tests load a few valid ones and few invalid ones.",
 [S],[("populateSchema and all make*Constraint",S)],obs=["SchemaParser::populateSchema: exception or resulting constraints"])
p("P21","Frozen values and clones are independent deep copies",
 "Freezing a value gives a copy that compares equal to it and stays so when the original is changed or destroyed, and cloning a frozen value, a constraint or an enum list gives an independent equal object.",
 ["inputs","histories"],"all values, all mutation/destruction orders",
 "Object lifetimes and values are unbounded; tests freeze a few values.",
 ["include/valijson/internal/frozen_value.hpp",C,"include/valijson/adapters/*.hpp"],[("freeze, clone, equalTo","include/valijson/adapters"),("Const/EnumConstraint copy",C)],obs=["FrozenValue::equalTo"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
json.dump({"version":1,"setup_cmd":"true","checks":[],"not_applicable":[{"property":x["id"],"reason":"check under construction"} for x in P]},open('/verif/MANIFEST.json','w'),indent=1)
