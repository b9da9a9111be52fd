// Verification harness for the casts and accessors of BasicAdapter (instantiated for the abstract value) and of
// StdStringAdapter: entry points with fixed names, nothing of /repo is re-implemented.
#include <valijson/adapters/std_string_adapter.hpp>
#include "abs_adapter.hpp"

using namespace valijson;
using absj::AbsAdapter;
typedef adapters::StdStringAdapter StrAdapter;
absj::AbsFrozen::~AbsFrozen() {}

extern "C" {
bool vp_element(const adapters::Adapter &e);
bool vp_member(const std::string &n, const adapters::Adapter &e);
AbsAdapter *vp_target(uint64_t h) { absj::AbsValue v; v.h = h; return new AbsAdapter(v); }
StrAdapter *vp_strtarget(const std::string &s) { return new StrAdapter(s); }

#define ONE(P, A) \
bool P##isNull(const A &a) { return a.isNull(); } \
bool P##isBool(const A &a) { return a.isBool(); } \
bool P##isInteger(const A &a) { return a.isInteger(); } \
bool P##isDouble(const A &a) { return a.isDouble(); } \
bool P##isNumber(const A &a) { return a.isNumber(); } \
bool P##isString(const A &a) { return a.isString(); } \
bool P##isArray(const A &a) { return a.isArray(); } \
bool P##isObject(const A &a) { return a.isObject(); } \
bool P##maybeNull(const A &a) { return a.maybeNull(); } \
bool P##maybeBool(const A &a) { return a.maybeBool(); } \
bool P##maybeInteger(const A &a) { return a.maybeInteger(); } \
bool P##maybeDouble(const A &a) { return a.maybeDouble(); } \
bool P##maybeString(const A &a) { return a.maybeString(); } \
bool P##maybeArray(const A &a) { return a.maybeArray(); } \
bool P##maybeObject(const A &a) { return a.maybeObject(); } \
bool P##asBool(const A &a, bool &r) { return a.asBool(r); } \
bool P##asInteger(const A &a, int64_t &r) { return a.asInteger(r); } \
bool P##asDouble(const A &a, double &r) { return a.asDouble(r); } \
bool P##asString(const A &a, std::string &r) { return a.asString(r); } \
bool P##getBool(const A &a, bool &r) { return a.getBool(r); } \
bool P##getInteger(const A &a, int64_t &r) { return a.getInteger(r); } \
bool P##getDouble(const A &a, double &r) { return a.getDouble(r); } \
bool P##getNumber(const A &a, double &r) { return a.getNumber(r); } \
bool P##getString(const A &a, std::string &r) { return a.getString(r); } \
bool P##getArraySize(const A &a, size_t &r) { return a.getArraySize(r); } \
bool P##getObjectSize(const A &a, size_t &r) { return a.getObjectSize(r); } \
bool P##asBoolV(const A &a) { return a.asBool(); } \
int64_t P##asIntegerV(const A &a) { return a.asInteger(); } \
double P##asDoubleV(const A &a) { return a.asDouble(); } \
void P##asStringV(const A &a, std::string *r) { new (r) std::string(a.asString()); } \
bool P##getBoolV(const A &a) { return a.getBool(); } \
int64_t P##getIntegerV(const A &a) { return a.getInteger(); } \
double P##getDoubleV(const A &a) { return a.getDouble(); } \
double P##getNumberV(const A &a) { return a.getNumber(); } \
void P##getStringV(const A &a, std::string *r) { new (r) std::string(a.getString()); } \
size_t P##getArraySizeV(const A &a) { return a.getArraySize(); } \
size_t P##getObjectSizeV(const A &a) { return a.getObjectSize(); } \
bool P##applyToArray(const A &a) { return a.applyToArray([](const adapters::Adapter &e) { return vp_element(e); }); } \
bool P##applyToObject(const A &a) { return a.applyToObject([](const std::string &n, const adapters::Adapter &e) { return vp_member(n, e); }); } \
bool P##equalTo(const A &a, const adapters::Adapter &b, bool strict) { return a.equalTo(b, strict); }

ONE(va_, AbsAdapter)
ONE(vs_, StrAdapter)
uint64_t va_asArray(const AbsAdapter &a) { return a.asArray().h; }
uint64_t va_asObject(const AbsAdapter &a) { return a.asObject().h; }
uint64_t va_getArray(const AbsAdapter &a) { return a.getArray().h; }
uint64_t va_getObject(const AbsAdapter &a) { return a.getObject().h; }
bool va_hasStrictTypes(const AbsAdapter &a) { return a.hasStrictTypes(); }
bool vs_hasStrictTypes(const StrAdapter &a) { return a.hasStrictTypes(); }
}
