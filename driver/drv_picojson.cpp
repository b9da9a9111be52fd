#define PICOJSON_USE_INT64
#include "drv.hpp"
#include <valijson/adapters/picojson_adapter.hpp>
namespace { struct H {
    using Adapter = valijson::adapters::PicoJsonAdapter;
    picojson::value v;
    explicit H(const std::string &t) { std::string e = picojson::parse(v, t); if (!e.empty()) throw std::runtime_error(e); }
    Adapter adapter() const { return Adapter(v); }
    const picojson::value *doc() const { return &v; }
    void clobber() { v = picojson::value(std::string("clobbered")); }
}; Register<H> reg("picojson"); }
