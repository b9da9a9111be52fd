#include "drv.hpp"
#include <boost/json.hpp>
#include <valijson/adapters/boost_json_adapter.hpp>
namespace { struct H {
    using Adapter = valijson::adapters::BoostJsonAdapter;
    boost::json::value v;
    explicit H(const std::string &t) : v(boost::json::parse(t)) { }
    Adapter adapter() const { return Adapter(v); }
    const boost::json::value *doc() const { return &v; }
    void clobber() { v = "clobbered"; }
}; Register<H> reg("boostjson"); }
