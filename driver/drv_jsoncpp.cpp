#include "drv.hpp"
#include <valijson/adapters/jsoncpp_adapter.hpp>
#include <json/json.h>
namespace { struct H {
    using Adapter = valijson::adapters::JsonCppAdapter;
    Json::Value v;
    explicit H(const std::string &t) { Json::CharReaderBuilder b; std::unique_ptr<Json::CharReader> r(b.newCharReader()); std::string e;
        if (!r->parse(t.data(), t.data() + t.size(), &v, &e)) throw std::runtime_error(e); }
    Adapter adapter() const { return Adapter(v); }
    const Json::Value *doc() const { return &v; }
    void clobber() { v = Json::Value("clobbered"); }
}; Register<H> reg("jsoncpp"); }
