#include "drv.hpp"
#include <Poco/JSON/Object.h>
#include <Poco/JSON/Parser.h>
#include <valijson/adapters/poco_json_adapter.hpp>
namespace { struct H {
    using Adapter = valijson::adapters::PocoJsonAdapter;
    Poco::Dynamic::Var v;
    explicit H(const std::string &t) { Poco::JSON::Parser p; v = p.parse("[" + t + "]"); v = v.extract<Poco::JSON::Array::Ptr>()->get(0); }
    Adapter adapter() const { return Adapter(v); }
    const Poco::Dynamic::Var *doc() const { return &v; }
    static void wreck(const Poco::Dynamic::Var &w) {
        if (w.type() == typeid(Poco::JSON::Array::Ptr)) {
            Poco::JSON::Array::Ptr a = w.extract<Poco::JSON::Array::Ptr>();
            for (unsigned i = 0; i < a->size(); ++i) { wreck(a->get(i)); a->set(i, std::string("clobbered")); }
            a->add(1);
        } else if (w.type() == typeid(Poco::JSON::Object::Ptr)) {
            Poco::JSON::Object::Ptr o = w.extract<Poco::JSON::Object::Ptr>();
            for (auto &n : o->getNames()) { wreck(o->get(n)); o->set(n, std::string("clobbered")); }
            o->set("clobber", 1);
        } }
    void clobber() { wreck(v); v = std::string("clobbered"); }
}; Register<H> reg("poco"); }
