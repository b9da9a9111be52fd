#include "drv.hpp"
#include <sstream>
#include <boost/property_tree/ptree.hpp>
#include <boost/property_tree/json_parser.hpp>
#include <valijson/adapters/property_tree_adapter.hpp>
namespace { struct H {
    using Adapter = valijson::adapters::PropertyTreeAdapter;
    boost::property_tree::ptree v;
    explicit H(const std::string &t) { std::istringstream s(t); boost::property_tree::read_json(s, v); }
    Adapter adapter() const { return Adapter(v); }
    const boost::property_tree::ptree *doc() const { return &v; }
    void clobber() { v = boost::property_tree::ptree("clobbered"); }
}; Register<H> reg("ptree"); }
