#include "drv.hpp"
#include <valijson/adapters/nlohmann_json_adapter.hpp>
namespace { struct H {
    using Adapter = valijson::adapters::NlohmannJsonAdapter;
    J v;
    explicit H(const std::string &t) : v(J::parse(t)) { }
    Adapter adapter() const { return Adapter(v); }
    const J *doc() const { return &v; }
    void clobber() { v = J("clobbered"); }
}; Register<H> reg("nlohmann"); }
