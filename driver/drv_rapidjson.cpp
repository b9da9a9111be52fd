#include "drv.hpp"
#include <valijson/adapters/rapidjson_adapter.hpp>
namespace { struct H {
    using Adapter = valijson::adapters::RapidJsonAdapter;
    rapidjson::Document v;
    explicit H(const std::string &t) { v.Parse<rapidjson::kParseFullPrecisionFlag>(t.c_str(), t.size()); if (v.HasParseError()) throw std::runtime_error("parse"); }
    Adapter adapter() const { return Adapter(v); }
    const rapidjson::Document *doc() const { return &v; }
    void clobber() { v.SetInt(424242); }
}; Register<H> reg("rapidjson"); }
