#include "drv.hpp"
#include <yaml-cpp/yaml.h>
#include <valijson/adapters/yaml_cpp_adapter.hpp>
namespace { struct H {
    using Adapter = valijson::adapters::YamlCppAdapter;
    YAML::Node v;
    explicit H(const std::string &t) : v(YAML::Load(t)) { }
    Adapter adapter() const { return Adapter(v); }
    const YAML::Node *doc() const { return &v; }
    static void wreck(YAML::Node w) {
        if (w.IsSequence()) { for (auto x : w) { wreck(x); } w.push_back("clobber"); }
        else if (w.IsMap()) { for (auto x : w) { wreck(x.second); } w["clobber"] = 1; }
        else w = "clobbered"; }
    void clobber() { wreck(v); }
}; Register<H> reg("yaml"); }
