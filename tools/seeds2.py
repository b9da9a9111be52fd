M = 'int main() {\n%s\n    return bad;\n}\n'
SEEDS = [
 dict(id='S02-additional-skip', property='P02', file='validation_visitor.hpp',
  edits=[('''                begin.advance(numValidated);
''', '''                begin.advance(m_results ? numValidated : itemSubschemaCount + 1);
''')],
  demo=M % '''    const char *s = R"({"items":[{"type":"integer"}],"additionalItems":{"type":"string"}})";
    CHECK(!valid(s, R"([1, 2, "a"])"));
    CHECK(!valid(s, R"([1, "a", 2])"));
    CHECK(valid(s, R"([1, "a", "b"])"));''',
  needs='no results object; the first element after those with their own schema fails additionalItems', breaks='the first additional item is not checked'),
 dict(id='S09-object-frozen', property='P09', file='internal/basic_adapter.hpp',
  edits=[('''            if (other.isObject() && other.getObjectSize() == getObjectSize()) {
''', '''            if (other.isObject() && other.getObjectSize() <= getObjectSize()) {
''')],
  demo=M % '''    CHECK(!valid(R"({"const":{"a":1,"b":2}})", R"({"a":1})"));
    CHECK(!valid(R"({"enum":[{"a":1,"b":2}]})", R"({"a":1})"));
    CHECK(valid(R"({"uniqueItems":true})", R"([{"a":1,"b":2},{"a":1}])"));
    CHECK(valid(R"({"const":{"a":1,"b":2}})", R"({"b":2,"a":1})"));''',
  needs='a constant object compared with an object that has only some of its members', breaks='an object equals any object whose members it contains'),
 dict(id='S15-dotdot-relative', property='P15', file='internal/uri.hpp',
  edits=[('''            if (segment == "..") {
                if (!segments.empty() && segments.back() != "..") {''', '''            if (segment == "..") {
                if (!segments.empty()) {''')],
  demo='''#include <iostream>
#include <valijson/internal/uri.hpp>
using valijson::internal::uri::resolveRelativeUri;
int main() {
    std::string r = resolveRelativeUri("a.json", "../../b/c.json"), q = resolveRelativeUri("http://h/a/b", "../c");
    std::cerr << r << " " << q << "\\n";
    return r == "../../b/c.json" && q == "http://h/c" ? 0 : 1;
}
''',
  needs='a base without scheme and a reference that climbs above it by two levels', breaks='two leading ".." segments cancel each other'),
 dict(id='S18-int-trailing', property='P18', file='internal/basic_adapter.hpp',
  edits=[('''                char c;
                if (!(!(i >> x) || i.get(c))) {
''', '''                if (!(i >> x).fail()) {
''')],
  demo=M % '''    json d = "12x";
    A a(d);
    int64_t i = 7;
    CHECK(!a.asInteger(i) && i == 7);
    json e = "12";
    CHECK(A(e).asInteger() == 12);''',
  needs='asInteger of a string that starts with an integer, without asking maybeInteger first', breaks='asInteger converts strings with trailing characters although maybeInteger says no'),
 dict(id='S19-int-locale', property='P19', file='internal/basic_adapter.hpp',
  edits=[('''                i.imbue(std::locale::classic());
                i >> std::noskipws;
                int64_t x;
                char c;
                if (!(i >> x) || i.get(c)) {''', '''                i >> std::noskipws;
                int64_t x;
                char c;
                if (!(i >> x) || i.get(c)) {''')],
  demo=M % '''    struct P : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\\3"; } };
    std::locale::global(std::locale(std::locale::classic(), new P));
    json d = "1.000";
    json t = "1000";
    CHECK(!A(d).maybeInteger());
    CHECK(A(t).maybeInteger());''',
  needs='a global C++ locale with a thousands separator, and a numeric string that contains it', breaks='whether a string is an integer depends on the global locale'),
 dict(id='S21-rapidjson-int64', property='P21', file='adapters/rapidjson_adapter.hpp',
  edits=[('''            } else if (source.IsInt64()) {
                dest.SetInt64(source.GetInt64());
            } else if (source.IsUint64()) {''', '''            } else if (source.IsUint64()) {''')],
  demo='''#include <rapidjson/document.h>
#include <valijson/adapters/rapidjson_adapter.hpp>
#include <memory>
using namespace valijson;
int main() {
    rapidjson::Document d, e;
    d.Parse("[-9007199254740993]");
    e.Parse("[-9007199254740992]");
    adapters::RapidJsonAdapter a(d), b(e);
    std::unique_ptr<adapters::FrozenValue> f(a.freeze());
    return f->equalTo(a, true) && !f->equalTo(b, true) ? 0 : 1;
}
''',
  needs='a RapidJson value with a negative integer below -2^53 that a double cannot represent', breaks='frozen values round large negative integers'),
 dict(id='S22-type-object-weak', property='P08', file='validation_visitor.hpp',
  edits=[('''                valid = m_target.isNull() || (!m_strictTypes && m_target.maybeNull());
''', '''                valid = m_target.isNull() || m_target.maybeNull();
''')],
  demo=M % '''    CHECK(!valid(R"({"type":"null"})", R"("")"));
    CHECK(valid(R"({"type":"null"})", R"("")", SchemaParser::kDraft7, false));''',
  needs='strict types and an empty string where null is required', breaks='type null accepts the empty string although types are strict'),
 dict(id='S23-conditional-errors', property='P11', file='validation_visitor.hpp',
  edits=[('''        ValidationVisitor thenElseValidator(m_target, m_path, m_strictTypes, m_strictDateTime, conditionalResults, m_regexesCache);
''', '''        ValidationVisitor thenElseValidator(m_target, m_path, m_strictTypes, m_strictDateTime, m_results, m_regexesCache);
'''), ('''        bool validated = false;
        if (ifValidator.validateSchema(*constraint.getIfSubschema())) {''', '''        // Without a schema for the outcome, the value is accepted
        if (m_results && !constraint.getThenSubschema() && !constraint.getElseSubschema()) {
            return thenElseValidator.validateSchema(*constraint.getIfSubschema());
        }

        bool validated = false;
        if (ifValidator.validateSchema(*constraint.getIfSubschema())) {'''), ],
  demo=M % '''    ValidationResults r;
    CHECK(valid(R"({"if":{"type":"string"}})", "1", SchemaParser::kDraft7, true, &r));
    CHECK(valid(R"({"if":{"type":"string"}})", "1"));''',
  needs="collecting results; an 'if' without 'then' and 'else' that the value does not satisfy", breaks="with a results object an 'if' on its own is an assertion"),
 dict(id='S24-path-key', property='P16', file='schema_parser.hpp',
  edits=[('''                        currentScope, additionalPropertiesPath, fetchDoc, nullptr,
                        nullptr, docCache, schemaRegistry);
                constraint.setAdditionalPropertiesSubschema(subschema);''', '''                        currentScope, patternPropertiesPath, fetchDoc, nullptr,
                        nullptr, docCache, schemaRegistry);
                constraint.setAdditionalPropertiesSubschema(subschema);''')],
  demo=M % '''    const char *s = R"({"properties":{"x":{"type":"object","additionalProperties":{"type":"integer"}}, "z":{"$ref":"#/properties/x/patternProperties"}}})";
    CHECK(!valid(R"({"additionalProperties":{"additionalProperties":{"type":"integer"}},"properties":{"p":{"$ref":"#/additionalProperties"}}})", R"({"p":{"q":"x"}})"));
    // the schema of additionalProperties is registered under the path of patternProperties
    CHECK(valid(R"({"additionalProperties":{"type":"integer"},"patternProperties":{},"allOf":[{"properties":{"p":{"$ref":"#/patternProperties"}}}]})", R"({})"));
    json d = json::parse(R"({"properties":{"a":{"additionalProperties":{"type":"integer"},"patternProperties":{}},"b":{"$ref":"#/properties/a/patternProperties"}}})");
    CHECK(valid(d.dump(), R"({"b":"x"})"));''',
  needs='a $ref to the patternProperties object of a schema with additionalProperties', breaks='the reference yields the schema of additionalProperties'),
 dict(id='S25-const-copy-weak', property='P06', file='constraints/concrete_constraints.hpp',
  edits=[('''    void setMaximum(double newMaximum)
    {
        m_maximum = newMaximum;''', '''    void setMaximum(double newMaximum)
    {
        m_maximum = std::min(newMaximum, static_cast<double>(std::numeric_limits<int64_t>::max()));''')],
  demo=M % '''    CHECK(valid(R"({"maximum":1e30})", "1e20"));
    CHECK(!valid(R"({"maximum":1e30})", "1e31"));''',
  needs='a maximum above 2^63 and a number between 2^63 and it', breaks='large bounds are clamped'),
 dict(id='S26-dependency-escape', property='P04', file='constraints/concrete_constraints.hpp',
  edits=[('''        typedef typename ContainerType::value_type ValueType;
        for (const ValueType &dependencyName : dependencyNames) {
            itr->second.insert(''', '''        typedef typename ContainerType::value_type ValueType;
        for (const ValueType &dependencyName : dependencyNames) {
            if (m_propertyDependencies.find(String(dependencyName.data(), dependencyName.size(), m_allocator)) != m_propertyDependencies.end() && itr->second.empty()) {
                // already implied by another dependency
                continue;
            }
            itr->second.insert(''')],
  demo=M % '''    CHECK(!valid(R"({"dependencies":{"a":["x"],"b":["a"]}})", R"({"b":1})"));
    CHECK(valid(R"({"dependencies":{"a":["x"],"b":["a"]}})", R"({"a":1,"b":1,"x":1})"));''',
  needs='a dependency list whose first name is itself a key of dependencies met before', breaks='that dependency is dropped'),
]
