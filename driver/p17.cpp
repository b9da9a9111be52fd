// Ownership of sub-schemas and constraints: random histories of operations on several schemas, checked against a plain
// model, with tagged allocators (every block knows the function that must free it) and injected allocation failures.
//   p17 SEED COUNT -> one line "BAD <history>: <what>" per disagreement (at most 5), then "DONE <histories> <operations> <faults>"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <memory>
#include <random>
#include <string>
#include <vector>
#include <new>
#include <cstring>
#include <sanitizer/asan_interface.h>
#include <sanitizer/lsan_interface.h>

struct Head { uint64_t magic; uint64_t size; };
static long live[3], g_fail_at = -1, g_count;
static bool g_fail_null, g_armed;
static std::string g_bad;
static const uint64_t MAG[3] = {0x1111aaaa2222bbbbULL, 0x3333cccc4444ddddULL, 0x5555eeee6666ffffULL};

static void *raw(int tag, size_t n)
{
    Head *h = static_cast<Head *>(std::malloc(n + sizeof(Head)));
    if (!h) std::abort();
    h->magic = MAG[tag];
    h->size = n;
    live[tag]++;
    std::memset(static_cast<void *>(h + 1), 0xa5, n);
    return h + 1;
}

static void unraw(int tag, void *p)
{
    if (!p) return;
    Head *h = static_cast<Head *>(p) - 1;
    if (h->magic != MAG[tag]) {
        std::fprintf(stderr, "block freed by a function that is not paired with its allocator\n");
        std::abort();
    }
    live[tag]--;
    h->magic = 0;
    std::free(h);
}

static bool fails() { return g_armed && ++g_count == g_fail_at; }

static void *allocA(size_t n) { if (fails()) { if (g_fail_null) return nullptr; throw std::bad_alloc(); } return raw(0, n); }
static void freeA(void *p) { unraw(0, p); }
static void *allocB(size_t n) { if (fails()) { if (g_fail_null) return nullptr; throw std::bad_alloc(); } return raw(1, n); }
static void freeB(void *p) { unraw(1, p); }

void *operator new(size_t n) { if (fails()) throw std::bad_alloc(); return raw(2, n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { if (fails()) return nullptr; return raw(2, n); }
void *operator new[](size_t n) { if (fails()) throw std::bad_alloc(); return raw(2, n); }
void operator delete(void *p) noexcept { unraw(2, p); }
void operator delete(void *p, size_t) noexcept { unraw(2, p); }
void operator delete[](void *p) noexcept { unraw(2, p); }
void operator delete[](void *p, size_t) noexcept { unraw(2, p); }

#include <valijson/adapters/nlohmann_json_adapter.hpp>
#include <valijson/constraints/concrete_constraints.hpp>
#include <valijson/schema.hpp>
#include <valijson/validation_results.hpp>
#include <valijson/validation_visitor.hpp>
#include <valijson/validator.hpp>

using namespace valijson;
using namespace valijson::constraints;
using adapters::NlohmannJsonAdapter;

static long probes;
static const nlohmann::json *DOCS;

// a user-defined constraint that counts its instances
struct Probe : PolyConstraint {
    int id;
    std::string text;
    explicit Probe(int i) : id(i), text("a text that is long enough to be allocated " + std::to_string(i)) { probes++; }
    Probe(const Probe &o) : PolyConstraint(o), id(o.id), text(o.text) { probes++; }
    ~Probe() override { probes--; id = -1; }
    bool validate(const adapters::Adapter &, const ValidationResults::Path &, ValidationResults *) const override { return true; }
    Constraint *cloneInto(void *p) const override { return new (p) Probe(*this); }
    size_t sizeOf() const override { return sizeof(Probe); }
};

typedef std::mt19937_64 Rng;
static int below(Rng &r, int n) { return static_cast<int>(r() % static_cast<uint64_t>(n)); }

static std::string tostr(const BasicConstraint<PatternConstraint>::String &s) { return std::string(s.data(), s.size()); }

// what can be seen of a constraint
static std::string print(const Constraint &c)
{
    std::string o;
    auto sub = [&](const Subschema *s) { char b[40]; std::snprintf(b, sizeof b, "%p", static_cast<const void *>(s)); return std::string(b); };
    if (auto p = dynamic_cast<const Probe *>(&c)) return "probe " + std::to_string(p->id) + p->text;
    if (auto p = dynamic_cast<const MaxLengthConstraint *>(&c)) return "maxLength " + std::to_string(p->getMaxLength());
    if (auto p = dynamic_cast<const MaximumConstraint *>(&c)) return "maximum " + std::to_string(p->getMaximum()) + (p->getExclusiveMaximum() ? "x" : "");
    if (auto p = dynamic_cast<const PatternConstraint *>(&c)) {
        o = "pattern ";
        auto s = p->getPattern<std::allocator<char>>();
        return o + s;
    }
    if (auto p = dynamic_cast<const FormatConstraint *>(&c)) return "format " + p->getFormat();
    if (auto p = dynamic_cast<const AllOfConstraint *>(&c)) { p->applyToSubschemas([&](size_t, const Subschema *s) { o += sub(s); return true; }); return "allOf " + o; }
    if (auto p = dynamic_cast<const TypeConstraint *>(&c)) {
        p->applyToNamedTypes([&](TypeConstraint::JsonType t) { o += std::to_string(t) + " "; return true; });
        p->applyToSchemaTypes([&](size_t, const Subschema *s) { o += sub(s); return true; });
        return "type " + o;
    }
    if (auto p = dynamic_cast<const RequiredConstraint *>(&c)) { p->applyToRequiredProperties([&](const RequiredConstraint::String &s) { o += tostr(s) + ","; return true; }); return "required " + o; }
    if (auto p = dynamic_cast<const PropertiesConstraint *>(&c)) {
        p->applyToProperties([&](const PropertiesConstraint::String &s, const Subschema *t) { o += tostr(s) + sub(t); return true; });
        o += "|";
        p->applyToPatternProperties([&](const PropertiesConstraint::String &s, const Subschema *t) { o += tostr(s) + sub(t); return true; });
        return "properties " + o + sub(p->getAdditionalPropertiesSubschema());
    }
    if (auto p = dynamic_cast<const DependenciesConstraint *>(&c)) {
        p->applyToPropertyDependencies([&](const DependenciesConstraint::String &s, const std::set<DependenciesConstraint::String, std::less<DependenciesConstraint::String>, internal::CustomAllocator<DependenciesConstraint::String>> &t) {
            o += tostr(s) + ":"; for (auto &x : t) o += tostr(x) + ","; return true; });
        p->applyToSchemaDependencies([&](const DependenciesConstraint::String &s, const Subschema *t) { o += tostr(s) + sub(t); return true; });
        return "dependencies " + o;
    }
    if (auto p = dynamic_cast<const EnumConstraint *>(&c)) {
        p->applyToValues([&](const adapters::FrozenValue &v) {
            for (int i = 0; i < 6; i++) o += v.equalTo(NlohmannJsonAdapter(DOCS[i]), true) ? '1' : '0';
            o += ',';
            return true; });
        return "enum " + o;
    }
    if (auto p = dynamic_cast<const ConstConstraint *>(&c)) { for (int i = 0; i < 6; i++) o += p->getValue()->equalTo(NlohmannJsonAdapter(DOCS[i]), true) ? '1' : '0'; return "const " + o; }
    if (auto p = dynamic_cast<const LinearItemsConstraint *>(&c)) { p->applyToItemSubschemas([&](size_t, const Subschema *s) { o += sub(s); return true; }); return "items " + o + "/" + sub(p->getAdditionalItemsSubschema()); }
    if (auto p = dynamic_cast<const ConditionalConstraint *>(&c)) return "if " + sub(p->getIfSubschema()) + sub(p->getThenSubschema()) + sub(p->getElseSubschema());
    if (dynamic_cast<const UniqueItemsConstraint *>(&c)) return "uniqueItems";
    return "?";
}

static std::unique_ptr<Constraint> make(Rng &r, int alloc, const std::vector<const Subschema *> &subs)
{
    Constraint::CustomAlloc a = alloc == 0 ? allocA : allocB;
    Constraint::CustomFree f = alloc == 0 ? freeA : freeB;
    bool custom = alloc < 2;
    auto any = [&]() -> const Subschema * { return subs.empty() ? nullptr : subs[static_cast<size_t>(below(r, static_cast<int>(subs.size())))]; };
    auto name = [&]() { return std::string(below(r, 2) ? 40 : 2, static_cast<char>('a' + below(r, 6))) + std::to_string(below(r, 9)); };
#define MK(T) auto c = custom ? std::unique_ptr<T>(new T(a, f)) : std::unique_ptr<T>(new T())
    switch (below(r, 15)) {
    case 0: { MK(MaxLengthConstraint); c->setMaxLength(r() % 1000); return c; }
    case 1: { MK(MaximumConstraint); c->setMaximum(below(r, 100)); c->setExclusiveMaximum(below(r, 2)); return c; }
    case 2: { MK(PatternConstraint); c->setPattern(name()); return c; }
    case 3: { auto c = std::unique_ptr<FormatConstraint>(new FormatConstraint()); c->setFormat(name()); return c; }
    case 4: { MK(AllOfConstraint); for (int i = below(r, 5); i > 0; i--) c->addSubschema(any()); return c; }
    case 5: { MK(TypeConstraint); for (int i = below(r, 3); i > 0; i--) c->addNamedType(static_cast<TypeConstraint::JsonType>(below(r, 8)));
              for (int i = below(r, 3); i > 0; i--) c->addSchemaType(any()); return c; }
    case 6: { MK(RequiredConstraint); for (int i = below(r, 6); i > 0; i--) c->addRequiredProperty(name()); return c; }
    case 7: { MK(PropertiesConstraint); for (int i = below(r, 4); i > 0; i--) c->addPropertySubschema(name(), any());
              for (int i = below(r, 3); i > 0; i--) c->addPatternPropertySubschema(name(), any()); c->setAdditionalPropertiesSubschema(any()); return c; }
    case 8: { MK(DependenciesConstraint); for (int i = below(r, 5); i > 0; i--) c->addPropertyDependency(name(), name()); c->addSchemaDependency(name(), any()); return c; }
    case 9: case 10: { MK(EnumConstraint); for (int i = below(r, 5); i > 0; i--) c->addValue(NlohmannJsonAdapter(DOCS[below(r, 6)])); return c; }
    case 11: { MK(ConstConstraint); c->setValue(NlohmannJsonAdapter(DOCS[below(r, 6)])); return c; }
    case 12: { MK(LinearItemsConstraint); for (int i = below(r, 4); i > 0; i--) c->addItemSubschema(any()); c->setAdditionalItemsSubschema(any()); return c; }
    case 13: { MK(ConditionalConstraint); c->setIfSubschema(any()); c->setThenSubschema(any()); return c; }
    default: return std::unique_ptr<Constraint>(new Probe(below(r, 1000)));
    }
}

struct MSub { std::vector<std::string> cons; bool invalid = false; std::string title, id, desc; bool ht = false, hi = false, hd = false; };
struct MSchema { MSub root; std::map<const Subschema *, MSub> subs; const Subschema *empty = nullptr; bool hollow = false; int alloc = 2; };

static std::vector<std::string> seen(const Subschema &s)
{
    std::vector<std::string> v;
    Subschema::ApplyFunction f = [&](const Constraint &c) { v.push_back(print(c)); return true; };
    s.apply(f);
    return v;
}

static std::string differs(const Subschema &s, const MSub &m)
{
    if (seen(s) != m.cons) return "constraints";
    if (s.getAlwaysInvalid() != m.invalid) return "alwaysInvalid";
    if (s.hasTitle() != m.ht || (m.ht && s.getTitle() != m.title)) return "title";
    if (s.hasId() != m.hi || (m.hi && s.getId() != m.id)) return "id";
    if (s.hasDescription() != m.hd || (m.hd && s.getDescription() != m.desc)) return "description";
    return "";
}

struct World {
    Rng r;
    std::unique_ptr<Schema> s[3];
    MSchema m[3];
    std::string log;
    long ops = 0, faults = 0;
    explicit World(uint64_t seed) : r(seed) {}

    std::string bad()
    {
        for (int i = 0; i < 3; i++) {
            if (!s[i]) continue;
            std::string d = differs(*s[i], m[i].root);
            if (!d.empty()) return "root of schema " + std::to_string(i) + ": " + d;
            if (m[i].hollow) continue;
            if (s[i]->emptySubschema() != m[i].empty) return "shared empty sub-schema replaced";
            d = differs(*m[i].empty, MSub());
            if (!d.empty()) return "shared empty sub-schema: " + d;
            for (auto &x : m[i].subs) {
                d = differs(*x.first, x.second);
                if (!d.empty()) return "a sub-schema of schema " + std::to_string(i) + ": " + d;
            }
        }
        return "";
    }

    // runs one operation; on an injected failure the model must still describe the state
    template<class F> bool tryit(const F &f)
    {
        try {
            g_armed = g_fail_at >= 0;
            f();
            g_armed = false;
            return true;
        } catch (const std::bad_alloc &) {
            g_armed = false;
            faults++;
            return false;
        } catch (const std::runtime_error &e) {
            g_armed = false;
            log += std::string(" [") + e.what() + "]";
            return false;
        }
    }

    std::string step()
    {
        ops++;
        int i = below(r, 3);
        bool inject = below(r, 3) == 0;
        g_count = 0;
        g_fail_at = inject ? 1 + below(r, below(r, 2) ? 4 : 25) : -1;
        g_fail_null = below(r, 2);
        auto hit = [&] { return g_fail_at >= 0 && g_count >= g_fail_at; };
        if (!s[i]) {
            int a = below(r, 3);
            log += " new" + std::to_string(i) + "/" + std::to_string(a);
            std::unique_ptr<Schema> t;
            if (tryit([&] { t.reset(a == 2 ? new Schema() : a ? new Schema(allocB, freeB) : new Schema(allocA, freeA)); })) {
                s[i] = std::move(t);
                m[i] = MSchema();
                m[i].empty = s[i]->emptySubschema();
                m[i].alloc = a;
            } else if (!hit()) return "creating a schema failed";
            g_fail_at = -1;
            return bad();
        }
        std::vector<const Subschema *> own, other;
        for (int k = 0; k < 3; k++)
            if (s[k] && !m[k].hollow) {
                for (auto &x : m[k].subs) (k == i ? own : other).push_back(x.first);
                if (k != i) { other.push_back(s[k]->root()); other.push_back(s[k]->emptySubschema()); }
            }
        int op = below(r, 20);
        if (m[i].hollow) op = op < 10 ? 17 : op < 15 ? 18 : 19;
        if (op < 4) {
            log += " sub" + std::to_string(i);
            const Subschema *n = nullptr;
            if (tryit([&] { n = s[i]->createSubschema(); })) {
                if (!n || m[i].subs.count(n) || n == m[i].empty) return "createSubschema returned a sub-schema that is in use";
                m[i].subs[n];
            } else if (!hit()) return "createSubschema failed";
        } else if (op < 11) {
            // add a constraint: to the root directly, to an owned sub-schema, to one that is not owned
            std::unique_ptr<Constraint> c;
            bool made = tryit([&] { c = make(r, below(r, 3), own); });
            if (!made) {
                if (!hit()) return "building a constraint failed";
                g_fail_at = -1;
                return bad();
            }
            g_armed = false;
            std::string p = print(*c);
            int where = below(r, 8);
            g_count = 0;
            const Subschema *t = nullptr;
            MSub *mm = nullptr;
            bool reject = false;
            if (where == 0 || (where < 5 && own.empty())) { t = s[i]->root(); mm = &m[i].root; }
            else if (where < 5) { t = own[static_cast<size_t>(below(r, static_cast<int>(own.size())))]; mm = &m[i].subs[t]; }
            else if (where == 5) { t = s[i]->emptySubschema(); reject = true; }
            else if (where == 6) { t = nullptr; reject = true; }
            else if (!other.empty()) { t = other[static_cast<size_t>(below(r, static_cast<int>(other.size())))]; reject = true; }
            else { t = s[i]->root(); mm = &m[i].root; }
            log += " add" + std::to_string(i) + (reject ? "!" : "") + "(" + p.substr(0, 12) + ")";
            if (tryit([&] { s[i]->addConstraintToSubschema(*c, t); })) {
                if (reject) return "a constraint was added through a sub-schema that is not owned";
                if (hit()) return "an allocation failure was swallowed";
                mm->cons.push_back(p);
            } else if (!reject && !hit()) return "adding a constraint failed";
            if (print(*c) != p) return "the constraint passed in was changed";
        } else if (op < 15) {
            int what = below(r, 4), where = below(r, 6);
            const Subschema *t = s[i]->root();
            MSub *mm = &m[i].root;
            bool reject = false;
            if (where < 3 && !own.empty()) { t = own[static_cast<size_t>(below(r, static_cast<int>(own.size())))]; mm = &m[i].subs[t]; }
            else if (where == 3) { t = s[i]->emptySubschema(); reject = true; }
            else if (where == 4 && !other.empty()) { t = other[static_cast<size_t>(below(r, static_cast<int>(other.size())))]; reject = true; }
            std::string v(below(r, 2) ? 3 : 50, static_cast<char>('a' + below(r, 20)));
            log += " set" + std::to_string(i) + "." + std::to_string(what) + (reject ? "!" : "");
            bool ok = tryit([&] {
                if (what == 0) s[i]->setSubschemaTitle(t, v);
                else if (what == 1) s[i]->setSubschemaId(t, v);
                else if (what == 2) s[i]->setSubschemaDescription(t, v);
                else s[i]->setAlwaysInvalid(t, v.size() > 10);
            });
            if (ok && reject) return "metadata of a sub-schema that is not owned was changed";
            if (!ok && !reject && !hit()) return "setting metadata failed";
            if (ok) {
                if (what == 0) mm->ht = true, mm->title = v;
                else if (what == 1) mm->hi = true, mm->id = v;
                else if (what == 2) mm->hd = true, mm->desc = v;
                else mm->invalid = v.size() > 10;
            }
        } else if (op == 15) {
            // move construct into a free place
            int j = -1;
            for (int k = 0; k < 3; k++) if (!s[k]) j = k;
            if (j >= 0) {
                log += " move" + std::to_string(i) + ">" + std::to_string(j);
                g_fail_at = -1;
                s[j].reset(new Schema(std::move(*s[i])));
                m[j] = m[i];
                MSchema h;
                h.hollow = true;
                h.root.invalid = s[i]->getAlwaysInvalid();
                m[i] = h;
                if (below(r, 2)) { log += " drop" + std::to_string(i); s[i].reset(); }
                else {
                    // what is left may be destroyed or assigned to; its contents are unspecified but for not owning anything
                    if (!seen(*s[i]).empty()) return "the schema moved from still owns constraints";
                    m[i].root.ht = s[i]->hasTitle(); if (m[i].root.ht) m[i].root.title = s[i]->getTitle();
                    m[i].root.hi = s[i]->hasId(); if (m[i].root.hi) m[i].root.id = s[i]->getId();
                    m[i].root.hd = s[i]->hasDescription(); if (m[i].root.hd) m[i].root.desc = s[i]->getDescription();
                }
            }
        } else if (op == 16) {
            // validators may use it
            g_fail_at = -1;
            log += " check" + std::to_string(i);
            Validator v;
            for (int k = 0; k < 6; k++)
                if (!v.validate(static_cast<const Subschema &>(*s[i]->emptySubschema()), NlohmannJsonAdapter(DOCS[k]), nullptr)) return "the shared empty sub-schema rejects";
        } else if (op <= 18) {
            int j = (i + 1 + below(r, 2)) % 3;
            if (s[j]) {
                log += " assign" + std::to_string(j) + ">" + std::to_string(i);
                g_fail_at = -1;
                bool self = below(r, 12) == 0;
                if (self) {
                    Schema &alias = *s[i];
                    *s[i] = std::move(alias);
                } else {
                    std::unique_ptr<Schema> tmp = std::move(s[j]);
                    MSchema mt = m[j];
                    *s[i] = std::move(*tmp);
                    m[i] = mt;
                    tmp.reset();    // whatever the old contents became, they end here
                    m[j] = MSchema();
                }
            }
        } else {
            log += " drop" + std::to_string(i);
            s[i].reset();
        }
        g_fail_at = -1;
        return bad();
    }
};

int main(int argc, char **argv)
{
    uint64_t seed = static_cast<uint64_t>(std::atoll(argv[1]));
    long n = std::atol(argv[2]), ops = 0, faults = 0, nbad = 0;
    nlohmann::json docs[6] = {nullptr, 1, "a string long enough to be allocated somewhere", {1, 2, {3, "x"}}, {{"a", {{"b", {1, 2}}}}}, 1.5};
    DOCS = docs;
    { Validator warm; }
    bool only = argc > 3;
    for (long k = only ? std::atol(argv[3]) : 0; k < n && nbad < 5; k++) {
        long before[4] = {live[0], live[1], live[2], probes};
        std::string e, log;
        {
            std::unique_ptr<World> w(new World(seed * 1000003 + static_cast<uint64_t>(k)));
            int len = 3 + below(w->r, 30);
            for (int j = 0; j < len && e.empty(); j++) e = w->step();
            ops += w->ops;
            faults += w->faults;
            log = w->log;
        }
        std::string().swap(e.empty() ? e : g_bad);
        {
            std::string l2;
            l2.swap(log);
            long after = live[2];
            // strings still held here
            long held = (l2.capacity() > 15 ? 1 : 0) + (e.capacity() > 15 ? 1 : 0);
            if (e.empty()) {
                if (live[0] != before[0] || live[1] != before[1]) e = "blocks of a custom allocator are not freed";
                else if (probes != before[3]) e = "constraints are not destroyed";
                else if (after - held != before[2]) e = "blocks of operator new are not freed: " + std::to_string(after - held - before[2]);
            }
            if (!e.empty()) {
                nbad++;
                std::printf("BAD %ld:%s: %s\n", k, l2.c_str(), e.c_str());
                std::fflush(stdout);
            }
        }
        if (only) break;
    }
    std::printf("DONE %ld %ld %ld\n", n, ops, faults);
    return 0;
}
