// Verification harness for JSON references, JSON Pointers and URIs: entry points with fixed names, nothing of /repo is re-implemented.
#include <cstdint>
#include <limits>
#include <valijson/internal/json_pointer.hpp>
#include <valijson/internal/json_reference.hpp>
#include <valijson/internal/uri.hpp>
#include "abs_adapter.hpp"

using namespace valijson;
using absj::AbsAdapter;
namespace jp = internal::json_pointer;
namespace jr = internal::json_reference;
absj::AbsFrozen::~AbsFrozen() {}

extern "C" {
AbsAdapter *vp_target(uint64_t h) { absj::AbsValue v; v.h = h; return new AbsAdapter(v); }
bool vp_ref_uri(const std::string &r, std::string &out) { auto o = jr::getJsonReferenceUri(r); if (!o) return false; out = *o; return true; }
bool vp_ref_pointer(const std::string &r, std::string &out) { auto o = jr::getJsonReferencePointer(r); if (!o) return false; out = *o; return true; }
char vp_decode(const std::string &s) { return jp::decodePercentEncodedChar(s); }
void vp_token(const std::string &s, size_t b, size_t e, std::string *out) { new (out) std::string(jp::extractReferenceToken(s.begin() + b, s.begin() + e)); }
void vp_resolve(const AbsAdapter &n, const std::string &p, size_t at, bool strict, AbsAdapter *out) { new (out) AbsAdapter(jp::resolveJsonPointer(n, p, p.begin() + at, strict)); }
void vp_resolve_uri(const AbsAdapter &n, const std::string &p, AbsAdapter *out) { new (out) AbsAdapter(jp::resolveJsonPointer(n, p)); }
void vp_resolve_strict(const AbsAdapter &n, const std::string &p, AbsAdapter *out) { new (out) AbsAdapter(jp::resolveJsonPointerStrict(n, p)); }
void vp_relative(const std::string &scope, const std::string &uri, std::string *out) { new (out) std::string(internal::uri::resolveRelativeUri(scope, uri)); }
}
