// Concrete driver: runs the real valijson code on JSON-lines requests.
// Used to replay and search for witnesses, and for the bounded stand-ins.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <nlohmann/json.hpp>

#include <valijson/adapters/std_string_adapter.hpp>
#include <valijson/schema.hpp>
#include <valijson/schema_parser.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validator.hpp>
#include <valijson/internal/json_pointer.hpp>
#include <valijson/internal/json_reference.hpp>
#include <valijson/internal/uri.hpp>
#include <valijson/internal/double_parser.hpp>
#include <valijson/utils/utf8_utils.hpp>

using J = nlohmann::json;

// Strings travel with every byte >= 0x80 or NUL written as a code point < 256,
// so that arbitrary byte strings can be sent ("latin-1 over UTF-8").
inline std::string bytesOf(const std::string &utf8)
{
    std::string r;
    for (size_t i = 0; i < utf8.size(); ++i) {
        unsigned char c = static_cast<unsigned char>(utf8[i]);
        if (c < 0x80) { r += char(c); }
        else { unsigned char d = static_cast<unsigned char>(utf8[++i]); r += char(((c & 3) << 6) | (d & 63)); }
    }
    return r;
}
inline std::string latinOf(const std::string &bytes)
{
    std::string r;
    for (char ch : bytes) {
        unsigned char c = static_cast<unsigned char>(ch);
        if (c < 0x80) { r += ch; }
        else { r += char(0xC0 | (c >> 6)); r += char(0x80 | (c & 63)); }
    }
    return r;
}

struct Backend
{
    virtual ~Backend() = default;
    virtual J validate(const J &) = 0;
    virtual J history(const J &) = 0;
    virtual J pointer(const J &) = 0;
    virtual J facts(const J &) = 0;
    virtual J equal(const J &) = 0;
    virtual J frozen(const J &) = 0;
};
std::map<std::string, Backend *> &backends();
// cross-adapter equality: holder of any adapter
std::map<std::string, std::function<std::shared_ptr<valijson::adapters::Adapter>(const std::string &)>> &makers();

// memory that is handed out again as soon as it is given back
struct Reuse
{
    static std::map<size_t, std::vector<void *>> &pool() { static auto &p = *new std::map<size_t, std::vector<void *>>(); return p; }
    static void *get(size_t n)
    {
        auto &v = pool()[n];
        size_t *p;
        if (v.empty()) { p = static_cast<size_t *>(std::malloc(n + 16)); *p = n; }
        else { p = static_cast<size_t *>(v.back()); v.pop_back(); }
        return p + 2;
    }
    static void put(void *q) { size_t *p = static_cast<size_t *>(q) - 2; pool()[*p].push_back(p); }
};

template<class Fn> J guarded(Fn fn)
{
    try { return fn(); }
    catch (const std::exception &e) { return J{{"exc", latinOf(e.what())}}; }
    catch (...) { return J{{"exc", "unknown"}}; }
}

inline J errorsOf(const valijson::ValidationResults &res)
{
    J out = J::array();
    valijson::ValidationResults r(res);
    valijson::ValidationResults::Error e;
    while (r.popError(e)) {
        J ctx = J::array();
        for (auto &c : e.context) ctx.push_back(latinOf(c));
        out.push_back(J{{"p", latinOf(e.jsonPointer)}, {"d", latinOf(e.description)}, {"c", ctx}});
    }
    return out;
}

// Rebuild a JSON value through the strict interface of an adapter
template<class Ad> J dump(const Ad &a)
{
    if (a.isNull()) return nullptr;
    if (a.isBool()) return a.getBool();
    if (a.isInteger()) return a.getInteger();
    if (a.isDouble()) return a.getDouble();
    if (a.isString()) return latinOf(a.getString());
    if (a.isArray()) {
        J r = J::array();
        for (const auto x : a.getArray()) r.push_back(dump(Ad(x)));
        return r;
    }
    if (a.isObject()) {
        J r = J::object();
        for (const auto m : a.getObject()) r[latinOf(m.first)] = dump(Ad(m.second));
        return r;
    }
    return J("<none>");
}

template<class Ad> J castFacts(const Ad &a)
{
    J o;
    o["is"] = J{{"null", a.isNull()}, {"bool", a.isBool()}, {"double", a.isDouble()}, {"integer", a.isInteger()},
        {"number", a.isNumber()}, {"string", a.isString()}, {"array", a.isArray()}, {"object", a.isObject()}};
    o["maybe"] = J{{"null", a.maybeNull()}, {"bool", a.maybeBool()}, {"double", a.maybeDouble()},
        {"integer", a.maybeInteger()}, {"string", a.maybeString()}, {"array", a.maybeArray()}, {"object", a.maybeObject()}};
    J as;
    { bool x = true, y = false; bool r = a.asBool(x), s = a.asBool(y);
      as["bool"] = r ? J(x) : J("no"); as["bool_same"] = (r == s) && (r ? x == y : (x && !y));
      as["bool_throw"] = guarded([&] { return J(a.asBool()); }).is_object() == !r; }
    { double x = 12345.5; bool r = a.asDouble(x);
      as["double"] = r ? J(x) : J("no"); as["double_same"] = r || x == 12345.5;
      as["double_throw"] = guarded([&] { return J(a.asDouble()); }).is_object() == !r; }
    { int64_t x = 987654321; bool r = a.asInteger(x);
      as["integer"] = r ? J(x) : J("no"); as["integer_same"] = r || x == 987654321;
      as["integer_throw"] = guarded([&] { return J(a.asInteger()); }).is_object() == !r; }
    { std::string x = "sentinel"; bool r = a.asString(x);
      as["string"] = r ? J{{"s", latinOf(x)}} : J("no"); as["string_same"] = r || x == "sentinel";
      as["string_throw"] = guarded([&] { return J(latinOf(a.asString())); }).is_object() == !r; }
    o["as"] = as;
    J get;
    auto g = [&](const char *n, auto fn) { get[n] = guarded([&] { return J{{"v", fn()}}; }); };
    g("bool", [&] { bool x; return a.getBool(x) ? J(x) : J("no"); });
    g("double", [&] { double x; return a.getDouble(x) ? J(x) : J("no"); });
    g("integer", [&] { int64_t x; return a.getInteger(x) ? J(x) : J("no"); });
    g("number", [&] { double x; return a.getNumber(x) ? J(x) : J("no"); });
    g("string", [&] { std::string x; return a.getString(x) ? J{{"s", latinOf(x)}} : J("no"); });
    g("asize", [&] { size_t x; return a.getArraySize(x) ? J(x) : J("no"); });
    g("osize", [&] { size_t x; return a.getObjectSize(x) ? J(x) : J("no"); });
    o["get"] = get;
    return o;
}

template<class Ad> J allFacts(const Ad &a)
{
    J o = castFacts(a);
    o["dump"] = dump(a);
    o["strict"] = a.hasStrictTypes();
    o["asArray"] = guarded([&] {
        J r = J::array(); const auto arr = a.asArray(); size_t n = 0;
        for (const auto x : arr) { r.push_back(dump(Ad(x))); ++n; }
        J adv = J::array();
        for (size_t i = 0; i < n; ++i) { auto it = arr.begin(); it.advance(std::ptrdiff_t(i)); adv.push_back(dump(Ad(*it))); }
        return J{{"items", r}, {"adv", adv}, {"size", arr.size()}}; });
    o["asObject"] = guarded([&] {
        J r = J::object(), names = J::array(); const auto obj = a.asObject(); size_t n = 0; bool findOk = true;
        for (const auto m : obj) {
            ++n; names.push_back(latinOf(m.first)); J d = dump(Ad(m.second)); r[latinOf(m.first)] = d;
            auto it = obj.find(m.first);
            if (it == obj.end()) findOk = false;
            else { const auto f = *it; if (f.first != m.first || dump(Ad(f.second)) != d) findOk = false;
                   if (dump(Ad(it->second)) != d) findOk = false; }
            std::string absent = m.first + "\x01" "absent";
            if (obj.find(absent) != obj.end()) findOk = false;
        }
        if (obj.find("no such member") != obj.end()) findOk = false;
        return J{{"members", r}, {"names", names}, {"size", obj.size()}, {"find", findOk}, {"count", n}}; });
    {   // callbacks
        J items = J::array(); int calls = 0;
        bool r = a.applyToArray([&](const valijson::adapters::Adapter &x) { items.push_back(castFacts(x)["is"]); ++calls; return true; });
        int calls2 = 0;
        bool r2 = a.applyToArray([&](const valijson::adapters::Adapter &) { ++calls2; return false; });
        o["applyArray"] = J{{"r", r}, {"items", items}, {"r2", r2}, {"calls2", calls2}};
        J mem = J::object();
        bool q = a.applyToObject([&](const std::string &k, const valijson::adapters::Adapter &x) { mem[latinOf(k)] = castFacts(x)["is"]; return true; });
        int c2 = 0;
        bool q2 = a.applyToObject([&](const std::string &, const valijson::adapters::Adapter &) { ++c2; return false; });
        o["applyObject"] = J{{"r", q}, {"members", mem}, {"r2", q2}, {"calls2", c2}};
    }
    return o;
}

// Holder must provide: Holder(const std::string &text); adapter() ; Doc type usable for FetchDoc
template<class Holder> struct BackendT : Backend
{
    using Ad = typename Holder::Adapter;
    using Doc = typename valijson::adapters::AdapterTraits<Ad>::DocumentType;

    static std::string text(const J &j) { return j.is_string() ? j.get<std::string>() : j.dump(); }

    J validate(const J &q) override
    {
        using namespace valijson;
        J out;
        const int draft = q.value("draft", 7);
        SchemaParser parser(draft == 3 ? SchemaParser::kDraft3 : draft == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7);
        Holder sh(text(q["schema"]));
        std::map<std::string, std::string> remotes;
        if (q.count("remotes")) for (auto &m : q["remotes"].items()) remotes[m.key()] = text(m.value());
        std::map<std::string, int> fetched; std::map<const Doc *, std::unique_ptr<Holder>> live; int freed = 0, badFree = 0;
        std::unique_ptr<Schema> home(new Schema());
        Schema &parsed = *home;
        J err = guarded([&] {
            if (!q.count("remotes")) { parser.populateSchema(sh.adapter(), parsed); return J(); }
            parser.populateSchema(sh.adapter(), parsed,
                typename SchemaParser::FunctionPtrs<Ad>::FetchDoc([&](const std::string &uri) -> const Doc * {
                    fetched[uri]++;
                    auto it = remotes.find(uri);
                    if (it == remotes.end()) return nullptr;
                    if (it->second == "!int") throw 7;
                    if (it->second == "!std") throw std::runtime_error("boom");
                    std::unique_ptr<Holder> h(new Holder(it->second));
                    const Doc *d = h->doc(); live[d] = std::move(h); return d; }),
                typename SchemaParser::FunctionPtrs<Ad>::FreeDoc([&](const Doc *d) {
                    if (live.erase(d)) ++freed; else ++badFree; }));
            return J(); });
        if (q.count("remotes")) out["remote"] = J{{"fetched", fetched}, {"live", live.size()}, {"freed", freed}, {"bad", badFree}};
        if (!err.is_null()) { out["err"] = err["exc"]; return out; }
        const std::string move = q.value("move", "");
        if (move == "construct") home.reset(new Schema(std::move(*home)));
        else if (move == "assign") { std::unique_ptr<Schema> next(new Schema()); *next = std::move(*home); home = std::move(next); }
        const Schema &schema = *home;
        const bool strong = q.value("strong", true), sdt = q.value("sdt", true);
        Validator shared(strong ? Validator::kStrongTypes : Validator::kWeakTypes,
                sdt ? Validator::kStrictDateTime : Validator::kPermissiveDateTime);
        J rs = J::array();
        for (const J &d : q["docs"]) {
            rs.push_back(guarded([&] {
                Holder dh(text(d));
                Ad target = dh.adapter();
                const bool ok0 = shared.validate(schema, target, nullptr);
                Validator fresh(strong ? Validator::kStrongTypes : Validator::kWeakTypes,
                        sdt ? Validator::kStrictDateTime : Validator::kPermissiveDateTime);
                ValidationResults res;
                res.pushError({}, "sentinel");
                const bool ok1 = shared.validate(schema, target, &res);
                ValidationResults res2;
                const bool ok2 = fresh.validate(schema, target, &res2);
                J errs = errorsOf(res), errs2 = errorsOf(res2);
                J r = J{{"ok", ok0}, {"ok1", ok1}, {"ok2", ok2}, {"n", res2.numErrors()}, {"errs", errs2}};
                bool pre = errs.size() == errs2.size() + 1 && errs[0]["d"] == "sentinel";
                for (size_t i = 0; pre && i < errs2.size(); ++i) pre = errs[i + 1] == errs2[i];
                r["pre"] = pre;
                return r; }));
        }
        out["r"] = rs;
        return out;
    }

    // several schemas, one validator: steps [schema index, document]
    J history(const J &q) override
    {
        using namespace valijson;
        const int draft = q.value("draft", 7);
        const bool strong = q.value("strong", true), sdt = q.value("sdt", true);
        const auto mode = strong ? Validator::kStrongTypes : Validator::kWeakTypes;
        const auto dt = sdt ? Validator::kStrictDateTime : Validator::kPermissiveDateTime;
        return guarded([&] {
            std::vector<std::unique_ptr<Schema>> schemas;
            const bool recreate = q.value("recreate", false);
            auto build = [&](const J &s) {
                SchemaParser parser(draft == 3 ? SchemaParser::kDraft3 : draft == 4 ? SchemaParser::kDraft4 : SchemaParser::kDraft7);
                Holder sh(text(s));
                std::unique_ptr<Schema> k(recreate ? new Schema(Reuse::get, Reuse::put) : new Schema());
                parser.populateSchema(sh.adapter(), *k);
                return k;
            };
            if (!recreate) for (const J &s : q["schemas"]) schemas.push_back(build(s));
            Validator shared(mode, dt);
            ValidationResults all;
            J out = J::array();
            for (const J &st : q["steps"]) {
                std::unique_ptr<Schema> own;
                if (recreate) own = build(q["schemas"].at(st[0].get<size_t>()));
                const Schema &k = recreate ? *own : *schemas.at(st[0].get<size_t>());
                Holder dh(text(st[1]));
                Ad target = dh.adapter();
                const bool a = shared.validate(k, target, nullptr);
                const size_t before = all.numErrors();
                const bool b = shared.validate(k, target, &all);
                Validator fresh(mode, dt);
                const bool c = fresh.validate(k, target, nullptr);
                out.push_back(J{{"ok", a}, {"ok1", b}, {"ok2", c}, {"n", all.numErrors() - before}});
            }
            return J{{"r", out}}; });
    }

    J pointer(const J &q) override
    {
        Holder h(text(q["doc"]));
        const std::string p = bytesOf(q["ptr"].get<std::string>());
        std::unique_ptr<std::string> heap(new std::string(p));
        return guarded([&] {
            using namespace valijson::internal::json_pointer;
            if (q.value("strict", true)) return J{{"v", dump(resolveJsonPointerStrict(h.adapter(), *heap))}};
            return J{{"v", dump(resolveJsonPointer(h.adapter(), *heap))}}; });
    }

    J facts(const J &q) override { Holder h(text(q["doc"])); return guarded([&] { return allFacts(h.adapter()); }); }

    J equal(const J &q) override
    {
        Holder a(text(q["a"])), b(text(q["b"]));
        const bool strict = q.value("strict", true);
        return guarded([&] {
            Ad x = a.adapter(), y = b.adapter();
            std::unique_ptr<valijson::adapters::FrozenValue> f(x.freeze());
            std::unique_ptr<valijson::adapters::FrozenValue> g(f->clone());
            return J{{"eq", x.equalTo(y, strict)}, {"feq", f->equalTo(y, strict)}, {"geq", g->equalTo(y, strict)}}; });
    }

    J frozen(const J &q) override
    {
        return guarded([&] {
            std::unique_ptr<valijson::adapters::FrozenValue> f, g, k;
            Holder other(text(q["doc"]));
            {   std::unique_ptr<Holder> h(new Holder(text(q["doc"])));
                f.reset(h->adapter().freeze());
                k.reset(h->adapter().freeze());
                g.reset(f->clone());
                h->clobber();
            }
            Ad y = other.adapter();
            J o;
            o["f"] = f->equalTo(y, true); f.reset();
            o["g"] = g->equalTo(y, true);
            std::unique_ptr<valijson::adapters::FrozenValue> g2(g->clone()); g.reset();
            o["g2"] = g2->equalTo(y, true);
            o["k"] = k->equalTo(y, true);
            if (q.count("other")) { Holder z(text(q["other"])); o["z"] = g2->equalTo(z.adapter(), true); }
            return o; });
    }
};

template<class Holder> struct Register
{
    BackendT<Holder> be;
    explicit Register(const char *name)
    {
        backends()[name] = &be;
        makers()[name] = [](const std::string &text) -> std::shared_ptr<valijson::adapters::Adapter> {
            auto h = std::make_shared<Holder>(text);
            auto a = std::make_shared<typename Holder::Adapter>(h->adapter());
            return std::shared_ptr<valijson::adapters::Adapter>(a.get(), [h, a](void *) mutable { a.reset(); h.reset(); });
        };
    }
};
