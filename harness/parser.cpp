// Verification harness: instantiates the real schema parser of /repo for the abstract adapter. Compiled with
// -fno-access-control, because the functions under contract are private members.
#include <valijson/schema_parser.hpp>
#include "abs_adapter.hpp"

using namespace valijson;
using namespace valijson::constraints;
using absj::AbsAdapter;
typedef SchemaParser P;
typedef std::optional<std::string> Scope;
typedef P::FunctionPtrs<AbsAdapter>::FetchDoc Fetch;
typedef P::DocumentCache<AbsAdapter>::Type Docs;

absj::AbsFrozen::~AbsFrozen() {}

extern "C" {
AbsAdapter *vp_target(uint64_t h) { absj::AbsValue v; v.h = h; return new AbsAdapter(v); }
P *vp_parser() { return new P(); }
size_t vp_version_at() { return offsetof(P, m_version); }
#define LEAF(X) X##Constraint *vp_make_##X(P &p, const AbsAdapter &n) { return new X##Constraint(p.make##X##Constraint(n)); }
LEAF(MaxItems) LEAF(MaxLength) LEAF(MaxProperties) LEAF(MinItems) LEAF(MinLength) LEAF(MinProperties)
LEAF(MultipleOfDouble) LEAF(MultipleOfInt) LEAF(Format) LEAF(Pattern) LEAF(Const) LEAF(Enum) LEAF(Required)
MaximumConstraint *vp_make_Maximum(P &p, const AbsAdapter &n, const AbsAdapter *x) { return new MaximumConstraint(p.makeMaximumConstraint(n, x)); }
MinimumConstraint *vp_make_Minimum(P &p, const AbsAdapter &n, const AbsAdapter *x) { return new MinimumConstraint(p.makeMinimumConstraint(n, x)); }
MaximumConstraint *vp_make_MaximumExclusive(P &p, const AbsAdapter &n) { return new MaximumConstraint(p.makeMaximumConstraintExclusive(n)); }
MinimumConstraint *vp_make_MinimumExclusive(P &p, const AbsAdapter &n) { return new MinimumConstraint(p.makeMinimumConstraintExclusive(n)); }
bool vp_make_UniqueItems(P &p, const AbsAdapter &n) { return bool(p.makeUniqueItemsConstraint(n)); }
RequiredConstraint *vp_make_RequiredForSelf(P &p, const AbsAdapter &n, const std::string &name)
{ auto r = p.makeRequiredConstraintForSelf(n, name); return r ? new RequiredConstraint(*r) : nullptr; }

#define SCHEMA_ARGS Schema &s, const AbsAdapter &root, const Scope &scope, const std::string &path, const Fetch &f, Docs &docs, SchemaRegistry &reg
#define SUB(X) X##Constraint *vp_make_##X(P &p, const AbsAdapter &n, SCHEMA_ARGS) { return new X##Constraint(p.make##X##Constraint(s, root, n, scope, path, f, docs, reg)); }
SUB(AllOf) SUB(AnyOf) SUB(OneOf) SUB(Not) SUB(Contains) SUB(Dependencies) SUB(PropertyNames) SUB(Type) SUB(SingularItems)
AllOfConstraint *vp_make_Extends(P &p, const AbsAdapter &n, SCHEMA_ARGS) { return new AllOfConstraint(p.makeExtendsConstraint(s, root, n, scope, path, f, docs, reg)); }
ConditionalConstraint *vp_make_Conditional(P &p, const AbsAdapter &i, const AbsAdapter *t, const AbsAdapter *e, SCHEMA_ARGS)
{ return new ConditionalConstraint(p.makeConditionalConstraint(s, root, i, t, e, scope, path, f, docs, reg)); }
LinearItemsConstraint *vp_make_LinearItems(P &p, const AbsAdapter *i, const AbsAdapter *a, const std::string &path2, SCHEMA_ARGS)
{ return new LinearItemsConstraint(p.makeLinearItemsConstraint(s, root, i, a, scope, path, path2, f, docs, reg)); }
PropertiesConstraint *vp_make_Properties(P &p, const AbsAdapter *i, const AbsAdapter *pp, const AbsAdapter *a, const std::string &path2, const std::string &path3, const Subschema *parent, SCHEMA_ARGS)
{ return new PropertiesConstraint(p.makePropertiesConstraint(s, root, i, pp, a, scope, path, path2, path3, f, parent, docs, reg)); }

void vp_populate(P &p, SCHEMA_ARGS, const AbsAdapter &n, const Subschema &sub, const Subschema *parent, const std::string *own)
{ p.populateSchema(s, root, n, sub, scope, path, f, parent, own, docs, reg); }

// parameters of a constraint, read with the real accessors
double vp_maximum(const MaximumConstraint &c) { return c.getMaximum(); }
bool vp_exclusiveMaximum(const MaximumConstraint &c) { return c.getExclusiveMaximum(); }
double vp_minimum(const MinimumConstraint &c) { return c.getMinimum(); }
bool vp_exclusiveMinimum(const MinimumConstraint &c) { return c.getExclusiveMinimum(); }
uint64_t vp_MaxItems(const MaxItemsConstraint &c) { return c.getMaxItems(); }
uint64_t vp_MaxLength(const MaxLengthConstraint &c) { return c.getMaxLength(); }
uint64_t vp_MaxProperties(const MaxPropertiesConstraint &c) { return c.getMaxProperties(); }
uint64_t vp_MinItems(const MinItemsConstraint &c) { return c.getMinItems(); }
uint64_t vp_MinLength(const MinLengthConstraint &c) { return c.getMinLength(); }
uint64_t vp_MinProperties(const MinPropertiesConstraint &c) { return c.getMinProperties(); }
double vp_multipleOfDouble(const MultipleOfDoubleConstraint &c) { return c.getDivisor(); }
int64_t vp_multipleOfInt(const MultipleOfIntConstraint &c) { return c.getDivisor(); }
const adapters::FrozenValue *vp_const(const ConstConstraint &c) { return c.getValue(); }
void vp_pattern(const PatternConstraint &c, std::string *out) { new (out) std::string(c.getPattern<std::allocator<char>>()); }
void vp_format(const FormatConstraint &c, std::string *out) { new (out) std::string(c.getFormat()); }
const Subschema *vp_if(const ConditionalConstraint &c) { return c.getIfSubschema(); }
const Subschema *vp_then(const ConditionalConstraint &c) { return c.getThenSubschema(); }
const Subschema *vp_else(const ConditionalConstraint &c) { return c.getElseSubschema(); }
const Subschema *vp_not(const NotConstraint &c) { return c.getSubschema(); }
const Subschema *vp_contains(const ContainsConstraint &c) { return c.getSubschema(); }
const Subschema *vp_items(const SingularItemsConstraint &c) { return c.getItemsSubschema(); }
const Subschema *vp_additionalItems(const LinearItemsConstraint &c) { return c.getAdditionalItemsSubschema(); }
const Subschema *vp_additionalProperties(const PropertiesConstraint &c) { return c.getAdditionalPropertiesSubschema(); }
const Subschema *vp_propertyNames(const PropertyNamesConstraint &c) { return c.getSubschema(); }
}
