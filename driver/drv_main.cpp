#include "drv.hpp"
#include <clocale>
#include <locale>
#include <unistd.h>

std::map<std::string, Backend *> &backends() { static std::map<std::string, Backend *> b; return b; }
std::map<std::string, std::function<std::shared_ptr<valijson::adapters::Adapter>(const std::string &)>> &makers()
{ static std::map<std::string, std::function<std::shared_ptr<valijson::adapters::Adapter>(const std::string &)>> m; return m; }

static std::string textOf(const J &j) { return j.is_string() ? j.get<std::string>() : j.dump(); }

static J run(const J &q)
{
    using namespace valijson;
    const std::string op = q["op"];
    if (op == "locale") {   // a global C++ locale with a decimal comma and grouped digits; C locale by name if there is one
        struct Comma : std::numpunct<char> {
            char do_decimal_point() const override { return ','; }
            char do_thousands_sep() const override { return '.'; }
            std::string do_grouping() const override { return "\3"; }
        };
        std::locale::global(q.value("comma", true) ? std::locale(std::locale::classic(), new Comma) : std::locale::classic());
        bool named = true;
        if (q.count("name")) named = std::setlocale(LC_ALL, q["name"].get<std::string>().c_str()) != nullptr;
        char buf[32]; snprintf(buf, sizeof buf, "%.1f", 1.5);
        return J{{"ok", named}, {"one_and_a_half", buf}};
    }
    const std::string ad = q.value("ad", "nlohmann");
    if (op == "v") return backends().at(ad)->validate(q);
    if (op == "h") return backends().at(ad)->history(q);
    if (op == "p") return backends().at(ad)->pointer(q);
    if (op == "f") return backends().at(ad)->facts(q);
    if (op == "eq") return backends().at(ad)->equal(q);
    if (op == "fz") return backends().at(ad)->frozen(q);
    if (op == "xeq") return guarded([&] {
        auto a = makers().at(q["ada"])(textOf(q["a"])), b = makers().at(q["adb"])(textOf(q["b"]));
        return J{{"eq", a->equalTo(*b, q.value("strict", true))}}; });
    if (op == "sf") {   // std::string adapter facts
        const std::string s = bytesOf(q["s"].get<std::string>());
        return guarded([&] { adapters::StdStringAdapter a(s); J o; 
            o["is"] = J{{"null", a.isNull()}, {"bool", a.isBool()}, {"double", a.isDouble()}, {"integer", a.isInteger()},
                {"number", a.isNumber()}, {"string", a.isString()}, {"array", a.isArray()}, {"object", a.isObject()}};
            o["maybe"] = J{{"null", a.maybeNull()}, {"bool", a.maybeBool()}, {"double", a.maybeDouble()},
                {"integer", a.maybeInteger()}, {"string", a.maybeString()}, {"array", a.maybeArray()}, {"object", a.maybeObject()}};
            J as; bool b = false; double d = 0; int64_t i = 0; std::string t;
            as["bool"] = a.asBool(b) ? J(b) : J("no"); as["double"] = a.asDouble(d) ? J(d) : J("no");
            as["integer"] = a.asInteger(i) ? J(i) : J("no"); as["string"] = a.asString(t) ? J{{"s", latinOf(t)}} : J("no");
            o["as"] = as; return o; });
    }
    if (op == "u8") {
        const std::string s = bytesOf(q["s"].get<std::string>());
        std::unique_ptr<char[]> h(new char[s.size()]);
        std::memcpy(h.get(), s.data(), s.size());
        return J{{"n", utils::u8_strlen(h.get(), s.size())}};
    }
    if (op == "pd") {
        const std::string s = bytesOf(q["s"].get<std::string>());
        double d = 12345.5; const bool ok = internal::parseDouble(s, d);
        char buf[64]; snprintf(buf, sizeof buf, "%a", d);
        for (char *q = buf; *q; ++q) if (*q == ',') *q = '.';
        return J{{"ok", ok}, {"hex", buf}, {"same", ok || d == 12345.5}};
    }
    if (op == "ref") {
        const std::string s = bytesOf(q["s"].get<std::string>());
        auto u = internal::json_reference::getJsonReferenceUri(s); auto p = internal::json_reference::getJsonReferencePointer(s);
        return J{{"u", u ? J(latinOf(*u)) : J()}, {"p", p ? J(latinOf(*p)) : J()}};
    }
    if (op == "uri") {
        const std::string b = bytesOf(q["b"].get<std::string>()), r = bytesOf(q["r"].get<std::string>());
        return guarded([&] { return J{{"v", latinOf(internal::uri::resolveRelativeUri(b, r))}, {"abs", internal::uri::isUriAbsolute(r)}, {"urn", internal::uri::isUrn(r)}}; });
    }
    if (op == "q") {    // error queue history: ["push",[["o"|"a",name]...],desc] | ["copy",desc] | ["pop"]
        ValidationResults res; J out = J::array();
        for (const J &s : q["ops"]) {
            if (s[0] == "push") {
                ValidationResults::Path p;
                for (const J &g : s[1]) p.push_back({g[0] == "o" ? ValidationResults::kObject : ValidationResults::kArray, bytesOf(g[1].get<std::string>())});
                res.pushError(p, bytesOf(s[2].get<std::string>()));
            } else if (s[0] == "copy") {
                ValidationResults::Error e; e.description = bytesOf(s[1].get<std::string>()); e.context = {"x", "y"}; e.jsonPointer = "/copied";
                res.pushError(e);
            } else {
                ValidationResults::Error e; e.description = "untouched";
                const bool ok = res.popError(e);
                J c = J::array(); for (auto &x : e.context) c.push_back(latinOf(x));
                out.push_back(J{{"ok", ok}, {"d", latinOf(e.description)}, {"p", latinOf(e.jsonPointer)}, {"c", c}});
            }
            size_t n = 0; for (auto it = res.begin(); it != res.end(); ++it) ++n;
            out.push_back(J{{"n", res.numErrors()}, {"it", n}});
        }
        return out;
    }
    return J{{"exc", "unknown op"}};
}

int main()
{
    std::string line;
    std::ios::sync_with_stdio(false);
    while (std::getline(std::cin, line)) {
        J out = guarded([&] { return run(J::parse(line)); });
        std::cout << out.dump(-1, ' ', true, J::error_handler_t::replace) << "\n";
        std::cout.flush();
    }
    return 0;
}
