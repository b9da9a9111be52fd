M = 'int main() {\n%s\n    return bad;\n}\n'
SEEDS = [
 dict(id='S01-oneof-count', property='P01', file='validation_visitor.hpp',
  edits=[('''        unsigned int numValidated = 0;

        ValidationResults newResults;
        ValidationResults *childResults = (m_results) ? &newResults : nullptr;
        ValidationVisitor<AdapterType, RegexEngine> v(
            m_target,''', '''        // No more than 256 child schemas are expected
        unsigned int numValidated = 0;

        ValidationResults newResults;
        ValidationResults *childResults = (m_results) ? &newResults : nullptr;
        ValidationVisitor<AdapterType, RegexEngine> v(
            m_target,'''),
   ('''        } else if (numValidated != 1) {
            if (m_results) {''', '''        } else if (numValidated % 2 == 0) {
            if (m_results) {''')],
  demo=M % '''    CHECK(!valid(R"({"oneOf":[{"type":"integer"},{"minimum":1},{"maximum":9}]})", "5"));
    CHECK(valid(R"({"oneOf":[{"type":"integer"},{"minimum":7},{"maximum":3}]})", "5"));''',
  needs='a oneOf with at least three sub-schemas, an odd number of which (three or more) accept the value', breaks='oneOf accepts a value that satisfies three of its sub-schemas'),
 dict(id='S02-items-window', property='P02', file='validation_visitor.hpp',
  edits=[('''                begin.advance(numValidated);
''', '''                begin.advance(itemSubschemaCount);
''')],
  demo=M % '''    ValidationResults r;
    CHECK(!valid(R"({"items":[{"type":"integer"},{"type":"integer"}],"additionalItems":{"type":"string"}})", R"(["x",1])", SchemaParser::kDraft7, true, &r));
    CHECK(!valid(R"({"items":[{"type":"integer"}],"additionalItems":{"type":"string"}})", R"([1, 2])"));
    CHECK(valid(R"({"items":[{"type":"integer"}],"additionalItems":{"type":"string"}})", R"([1, "a"])"));
    bool e = false;
    ValidationResults::Error err;
    while (r.popError(err)) e = true;
    CHECK(e);
    ValidationResults q;
    CHECK(!valid(R"({"items":[{"type":"integer"},{"type":"integer"}],"additionalItems":{"type":"integer"}})", R"(["x"])", SchemaParser::kDraft7, true, &q));''',
  needs='collecting results, an array shorter than the list of item schemas, one of whose elements fails (or the first element fails and additional items follow)', breaks='additionalItems walks past the end of the array when an element failed its own schema'),
 dict(id='S03-pattern-unmatched', property='P03', file='validation_visitor.hpp',
  edits=[('''                        object, m_path, true, false, true, m_strictTypes, m_strictDateTime,
''', '''                        object, m_path, true, false, false, m_strictTypes, m_strictDateTime,
''')],
  demo=M % '''    CHECK(!valid(R"({"patternProperties":{"^a":{"type":"integer"},"^b":{"type":"integer"}}})", R"({"b1":"x"})"));
    CHECK(valid(R"({"patternProperties":{"^a":{"type":"integer"},"^b":{"type":"integer"}},"additionalProperties":false})", R"({"b1":1})"));''',
  needs='two patternProperties, the first of which matches no member while a later one does', breaks='patterns after one that matches no member are not applied'),
 dict(id='S04-deps-early', property='P04', file='validation_visitor.hpp',
  edits=[('''                    if (m_results) {
                        m_results->pushError(m_path, "Missing dependency '" + dependencyNameKey + "'.");
                    } else {
                        return false;
                    }
                }
            }

            return true;''', '''                    if (m_results) {
                        m_results->pushError(m_path, "Missing dependency '" + dependencyNameKey + "'.");
                    } else {
                        return false;
                    }
                } else if (!m_results) {
                    // No errors to collect
                    return dependencyNames.size() > 1;
                }
            }

            return true;''')],
  demo=M % '''    CHECK(!valid(R"({"dependencies":{"a":["b","c"]}})", R"({"a":1,"b":2})"));
    CHECK(!valid(R"({"dependencies":{"a":["b"],"x":["y"]}})", R"({"a":1,"b":2,"x":1})"));
    CHECK(valid(R"({"dependencies":{"a":["b","c"]}})", R"({"a":1,"b":2,"c":3})"));''',
  needs='no results object; a dependency list whose first name is present, followed by a missing one', breaks='a missing dependency is not noticed after one that is present'),
 dict(id='S05-maxitems-32bit', property='P05', file='validation_visitor.hpp',
  edits=[('''        const uint64_t maxItems = constraint.getMaxItems();
''', '''        const unsigned int maxItems = static_cast<unsigned int>(constraint.getMaxItems());
''')],
  demo=M % '''    CHECK(valid(R"({"maxItems":4294967296})", "[1,2]"));
    CHECK(!valid(R"({"maxItems":1})", "[1,2]"));''',
  needs='a maxItems bound of at least 2^32 whose low 32 bits are small', breaks='maxItems compares with the bound modulo 2^32'),
 dict(id='S06-max-eps', property='P06', file='validation_visitor.hpp',
  edits=[('''        } else if (m_target.asDouble() > maximum) {
''', '''        } else if (m_target.asDouble() - maximum > std::numeric_limits<double>::epsilon()) {
''')],
  demo=M % '''    CHECK(!valid(R"({"maximum":0})", "1e-20"));
    CHECK(valid(R"({"maximum":0})", "0"));
    CHECK(valid(R"({"maximum":0})", "-1e-20"));''',
  needs='a number that exceeds the maximum by less than 2.3e-16', breaks='maximum accepts numbers slightly greater than the bound'),
 dict(id='S07-multiple-negative', property='P07', file='validation_visitor.hpp',
  edits=[('''        const double tolerance = std::max(std::fabs(quotient), 1.0)
''', '''        const double tolerance = std::max(quotient, 1.0)
''')],
  demo=M % '''    CHECK(valid(R"({"multipleOf":0.01})", "-1234567.89"));
    CHECK(valid(R"({"multipleOf":1e-8})", "-12391239123.5"));
    CHECK(valid(R"({"multipleOf":0.01})", "-4.35"));
    CHECK(valid(R"({"multipleOf":0.1})", "-1e15"));
    int n = 0;
    for (int i = 1; i < 4000; ++i) { std::string d = "-" + std::to_string(i * 97) + "." + std::to_string(i % 10) + std::to_string(i / 10 % 10);  n += !valid(R"({"multipleOf":0.01})", d); }
    CHECK(n == 0);''',
  needs='a negative number whose quotient by the divisor is large and not exactly representable', breaks='multipleOf rejects negative multiples because the relative tolerance is not scaled'),
 dict(id='S08-type-number-nan', property='P08', file='validation_visitor.hpp',
  edits=[('''    double intPart = 0.0;
    return std::modf(value, &intPart) == 0.0;
''', '''    return static_cast<double>(static_cast<float>(value)) == std::floor(value);
''')],
  demo=M % '''    CHECK(valid(R"({"type":"integer"})", "16777217.0"));
    CHECK(!valid(R"({"type":"integer"})", "1.5"));
    CHECK(valid(R"({"type":"integer"})", "2.0"));''',
  needs='an integral double that is not exactly representable in single precision', breaks='integral numbers above 2^24 written with a fraction do not satisfy type integer'),
 dict(id='S09-weak-nested', property='P09', file='internal/basic_adapter.hpp',
  edits=[('''                    ArrayComparisonFunctor fn(*array, strict);
''', '''                    ArrayComparisonFunctor fn(*array, true);
''')],
  demo=M % '''    CHECK(valid(R"({"const":[1]})", R"(["1"])", SchemaParser::kDraft7, false));
    CHECK(!valid(R"({"const":[1]})", R"(["1"])", SchemaParser::kDraft7, true));
    CHECK(valid(R"({"const":1})", R"("1")", SchemaParser::kDraft7, false));''',
  needs='weak types and a constant inside an array that is equal only after a cast', breaks='weak equality is strict inside arrays'),
 dict(id='S10-leap-200', property='P10', file='validation_visitor.hpp',
  edits=[('''                    && ((year % 100 != 0) || (year % 400 == 0));
''', '''                    && ((year % 100 != 0) || (year % 200 == 0));
''')],
  demo=M % '''    CHECK(!valid(R"({"format":"date"})", R"("2200-02-29")"));
    CHECK(valid(R"({"format":"date"})", R"("2000-02-29")"));
    CHECK(!valid(R"({"format":"date"})", R"("2100-02-29")"));''',
  needs='29 February of a year divisible by 200 but not by 400', breaks='format date accepts 29 February of years that are not leap years'),
 dict(id='S11-apply-last', property='P11', file='subschema.hpp',
  edits=[('''            if (!applyFunction(*constraint)) {
                allTrue = false;
            }
''', '''            allTrue = applyFunction(*constraint);
''')],
  demo=M % '''    ValidationResults r;
    CHECK(!valid(R"({"maximum":3,"minimum":1})", "5", SchemaParser::kDraft7, true, &r));
    CHECK(!valid(R"({"maximum":3,"minimum":1})", "5"));''',
  needs='collecting results; a constraint fails and a later one of the same schema passes', breaks='with a results object the verdict is that of the last constraint'),
 dict(id='S12-additional-path', property='P12', file='validation_visitor.hpp',
  edits=[('''                unsigned int index = numValidated;
''', '''                unsigned int index = 0;
''')],
  demo=M % '''    ValidationResults r;
    CHECK(!valid(R"({"items":[{},{}],"additionalItems":{"type":"integer"}})", R"([1,2,3,"x"])", SchemaParser::kDraft7, true, &r));
    ValidationResults::Error e; bool found = false;
    while (r.popError(e)) found = found || e.jsonPointer == "/3";
    CHECK(found);''',
  needs='collecting results; an element beyond the item schemas fails additionalItems', breaks='the JSON Pointer of the error names another element'),
 dict(id='S13-pattern-memo', property='P13', file='validation_visitor.hpp',
  edits=[('''        if (!RegexEngine::search(m_target.asString(), it->second)) {
''', '''        // Avoid looking for a pattern twice in the same value
        static thread_local std::pair<const void *, std::pair<std::string, bool>> last;
        const std::string subject = m_target.asString();
        if (last.first != &constraint || last.second.first != subject) {
            last = std::make_pair(static_cast<const void *>(&constraint),
                    std::make_pair(subject, RegexEngine::search(subject, it->second)));
        }

        if (!last.second.second) {
''')],
  demo='''#include <cstdlib>
#include <nlohmann/json.hpp>
#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include <valijson/constraints/concrete_constraints.hpp>
#include <valijson/validator.hpp>
using namespace valijson;
int main() {
    nlohmann::json d = "abc";
    adapters::NlohmannJsonAdapter a(d);
    Validator v;
    // one block of memory holds the constraint of one schema, then that of the next
    alignas(16) static char block[4096];
    static bool used = false;
    auto alloc = [](size_t n) -> void * { if (!used && n <= sizeof(block)) { used = true; return block; } return ::operator new(n); };
    auto release = [](void *p) { if (p == block) used = false; else ::operator delete(p); };
    bool got[2];
    for (int i = 0; i < 2; ++i) {
        Subschema s(alloc, release);
        constraints::PatternConstraint p;
        p.setPattern(std::string(i ? "^x" : "^a"));
        s.addConstraint(p);
        got[i] = v.validate(s, a, nullptr);
    }
    return got[0] && !got[1] ? 0 : 1;
}
''',
  needs='a schema is destroyed and a pattern constraint of another is created at the same address, then the same string is validated', breaks='a pattern reports the outcome of the pattern that was at its address before'),
 dict(id='S14-escape-adjacent', property='P14', file='internal/json_pointer.hpp',
  edits=[('''        pos += strlen(replace);
''', '''        pos += strlen(search);
''')],
  demo='''#include <iostream>
#include <nlohmann/json.hpp>
#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include <valijson/internal/json_pointer.hpp>
using namespace valijson;
int main() {
    nlohmann::json d = nlohmann::json::parse(R"({"a//b":1,"~~":2})");
    adapters::NlohmannJsonAdapter a(d);
    try {
        return internal::json_pointer::resolveJsonPointer(a, "/a~1~1b").getInteger() == 1 && internal::json_pointer::resolveJsonPointer(a, "/~0~0").getInteger() == 2 ? 0 : 1;
    } catch (const std::exception &e) { std::cerr << e.what() << "\\n"; return 1; }
}
''',
  needs='a token with two adjacent escape sequences of the same kind', breaks='the second of two adjacent escapes is not decoded'),
 dict(id='S15-dotdot-relative', property='P15', file='internal/uri.hpp',
  edits=[('''    if (segment == "..") {
        if (!segments.empty() && segments.back() != "..") {
            segments.pop_back();
        } else if (!absolutePath) {
            segments.push_back(segment);
        }
    } else if (!segment.empty() && segment != ".") {
        segments.push_back(segment);
    }

    // Generate''', '''    if (!segment.empty() && segment != ".") {
        segments.push_back(segment);
    }

    // Generate''')],
  demo='''#include <iostream>
#include <valijson/internal/uri.hpp>
using valijson::internal::uri::resolveRelativeUri;
int main() {
    std::string r = resolveRelativeUri("http://h/a/b/c", "..#x");
    std::cerr << r << "\\n";
    return r.find("..") == std::string::npos ? 0 : 1;
}
''',
  needs='a relative reference whose last segment is ".."', breaks='a trailing ".." stays in the resolved URI'),
 dict(id='S16-free-on-throw', property='P16', file='schema_parser.hpp',
  edits=[('''        } catch (...) {
            freeDocumentCache<AdapterType>(docCache, freeDoc);
            throw;
        }''', '''        } catch (const std::exception &) {
            freeDocumentCache<AdapterType>(docCache, freeDoc);
            throw;
        }''')],
  demo=M % '''    json s = json::parse(R"({"properties":{"a":{"$ref":"http://r/1#"},"b":{"$ref":"http://r/2#"}}})");
    json r1 = json::object();
    int fetched = 0, freed = 0;
    Schema sc; SchemaParser p; A a(s);
    try {
        p.populateSchema<A>(a, sc, [&](const std::string &u) -> const json * { if (u != "http://r/1") throw 42; ++fetched; return &r1; }, [&](const json *) { ++freed; });
    } catch (int) { }
    CHECK(fetched == 1 && freed == 1);''',
  needs='the fetch function throws something that is not a std::exception after another document was fetched', breaks='remote documents fetched before are not released'),
 dict(id='S17-move-free', property='P17', file='subschema.hpp',
  edits=[('''        std::swap(m_freeFn, other.m_freeFn);
''', '')],
  demo=M % '''    static long live = 0;
    auto al = [](size_t n) -> void * { ++live; return ::operator new(n); };
    auto fr = [](void *p) { --live; ::operator delete(p); };
    {
        Schema target(al, fr);
        { Schema source; source.createSubschema(); target = std::move(source); }
    }
    CHECK(live == 0);''',
  needs='move assignment between two schemas with different allocation functions', breaks='memory is released with the free function of the other schema'),
 dict(id='S18-int-trailing', property='P18', file='internal/basic_adapter.hpp',
  edits=[('''                if (!(!(i >> x) || i.get(c))) {
''', '''                if (i >> x) {
''')],
  demo=M % '''    json d = "12x";
    A a(d);
    int64_t i = 7;
    CHECK(!a.asInteger(i) && i == 7);
    json e = "12";
    CHECK(A(e).asInteger() == 12);''',
  needs='asInteger of a string that starts with an integer, without asking maybeInteger first', breaks='asInteger converts strings with trailing characters although maybeInteger says no'),
 dict(id='S19-int-locale', property='P19', file='internal/basic_adapter.hpp',
  edits=[('''                i.imbue(std::locale::classic());
                i >> std::noskipws;
                int64_t x;
                char c;
                if (!(i >> x) || i.get(c)) {''', '''                i >> std::noskipws;
                int64_t x;
                char c;
                if (!(i >> x) || i.get(c)) {''')],
  demo=M % '''    struct P : std::numpunct<char> { char do_thousands_sep() const override { return '.'; } std::string do_grouping() const override { return "\\\\3"; } };
    std::locale::global(std::locale(std::locale::classic(), new P));
    json d = "1.000";
    json t = "1000";
    CHECK(!A(d).maybeInteger());
    CHECK(A(t).maybeInteger());''',
  needs='a global C++ locale with a thousands separator, and a numeric string that contains it', breaks='whether a string is an integer depends on the global locale'),
 dict(id='S20-any-in-list', property='P20', file='schema_parser.hpp',
  edits=[('''                    const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(v.getString());
                    if (type == TypeConstraint::kAny && m_version == kDraft4) {
                        throwRuntimeError("'any' type is not supported in version 4 schemas.");
                    }

''', '''                    const TypeConstraint::JsonType type = TypeConstraint::jsonTypeFromString(v.getString());
''')],
  demo=M % '''    bool threw = false;
    try { valid(R"({"type":["string","any"]})", "1", SchemaParser::kDraft4); } catch (const std::exception &) { threw = true; }
    CHECK(threw);''',
  needs="a draft 4 schema whose list of types contains 'any'", breaks="draft 4 schemas with 'any' in a list of types are accepted"),
 dict(id='S21-rapidjson-int64', property='P21', file='adapters/rapidjson_adapter.hpp',
  edits=[('''            } else if (source.IsInt64()) {
                dest.SetInt64(source.GetInt64());
            } else if (source.IsUint64()) {''', '''            } else if (source.IsUint64()) {''')],
  demo='''#include <rapidjson/document.h>
#include <valijson/adapters/rapidjson_adapter.hpp>
#include <memory>
using namespace valijson;
int main() {
    rapidjson::Document d;
    d.Parse("[-9007199254740993]");
    adapters::RapidJsonAdapter a(d);
    std::unique_ptr<adapters::FrozenValue> f(a.freeze());
    return f->equalTo(a, true) ? 0 : 1;
}
''',
  needs='a RapidJson value with a negative integer below -2^53 that a double cannot represent', breaks='frozen values round large negative integers'),
]
