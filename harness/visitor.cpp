// Verification harness: instantiates the real validation code of /repo for the
// abstract adapter and the abstract regex engine, and gives the verifier entry
// points with fixed names. Nothing here re-implements code of /repo.
#include <valijson/adapters/std_string_adapter.hpp>
#include <valijson/validation_visitor.hpp>
#include <valijson/validator.hpp>
#include "abs_adapter.hpp"

using namespace valijson;
using namespace valijson::constraints;
typedef ValidationVisitor<absj::AbsAdapter, absj::Eng> Visitor;
typedef ValidationVisitor<adapters::StdStringAdapter, absj::Eng> StrVisitor;
typedef std::unordered_map<std::string, absj::Eng> Cache;

template class valijson::ValidationVisitor<absj::AbsAdapter, absj::Eng>;
template class valijson::ValidationVisitor<adapters::StdStringAdapter, absj::Eng>;

// makes the compiler emit the virtual table, which tells the verifier the slot of each virtual function
absj::AbsFrozen::~AbsFrozen() {}
// an arbitrary constraint: accept() only has a contract
namespace absj {
struct AbsConstraint final : valijson::constraints::Constraint {
    ~AbsConstraint() override;
    bool accept(valijson::constraints::ConstraintVisitor &visitor) const override;
    OwningPointer clone(CustomAlloc, CustomFree) const override;
};
AbsConstraint::~AbsConstraint() {}
}

extern "C" {
absj::AbsAdapter *vp_target(uint64_t h) { absj::AbsValue v; v.h = h; return new absj::AbsAdapter(v); }
adapters::StdStringAdapter *vp_strtarget(const std::string &s) { return new adapters::StdStringAdapter(s); }
ValidationResults *vp_results() { return new ValidationResults(); }
Visitor *vp_visitor(const absj::AbsAdapter &t, const ValidationResults::Path &p, bool strict, bool dt, ValidationResults *r, Cache &c)
{ return new Visitor(t, p, strict, dt, r, c); }
StrVisitor *vp_strvisitor(const adapters::StdStringAdapter &t, const ValidationResults::Path &p, bool strict, bool dt, ValidationResults *r, Cache &c)
{ return new StrVisitor(t, p, strict, dt, r, c); }
bool vp_validateSchema(Visitor &v, const Subschema &s) { return v.validateSchema(s); }
Subschema *vp_new_Subschema() { return new Subschema(); }
bool vp_svalidateSchema(StrVisitor &v, const Subschema &s) { return v.validateSchema(s); }
const Constraint *vp_owned(const Constraint::OwningPointer &p) { return &*p; }
typedef ValidatorT<absj::Eng> AbsValidator;
AbsValidator *vp_validator0() { return new AbsValidator(); }
AbsValidator *vp_validator(bool weak, bool permissive)
{ return new AbsValidator(weak ? AbsValidator::kWeakTypes : AbsValidator::kStrongTypes, permissive ? AbsValidator::kPermissiveDateTime : AbsValidator::kStrictDateTime); }
AbsValidator *vp_validator1(bool weak) { return new AbsValidator(weak ? AbsValidator::kWeakTypes : AbsValidator::kStrongTypes); }
bool vp_validate(AbsValidator &v, const Subschema &s, const absj::AbsAdapter &t, ValidationResults *r) { return v.validate(s, t, r); }
bool vp_alwaysInvalid(const Subschema &s) { return s.getAlwaysInvalid(); }
bool vp_accept(const Constraint &c, ConstraintVisitor &v) { return c.accept(v); }

#define VP_VISIT(X) bool vp_visit_##X(Visitor &v, const X##Constraint &c) { return v.visit(c); } \
    bool vp_svisit_##X(StrVisitor &v, const X##Constraint &c) { return v.visit(c); } \
    bool vp_accept_##X(const X##Constraint &c, ConstraintVisitor &v) { return c.accept(v); }
#define VP_NEW(X) X##Constraint *vp_new_##X() { return new X##Constraint(); }
#define VP(X) VP_VISIT(X) VP_NEW(X)
VP(AllOf) VP(AnyOf) VP(Conditional) VP(Contains) VP(Dependencies) VP(Enum) VP(Format) VP(LinearItems)
VP(Maximum) VP(MaxItems) VP(MaxLength) VP(MaxProperties) VP(Minimum) VP(MinItems) VP(MinLength) VP(MinProperties)
VP(MultipleOfDouble) VP(MultipleOfInt) VP(Not) VP(OneOf) VP(Pattern) VP(Properties) VP(PropertyNames) VP(Required)
VP(SingularItems) VP(Type) VP(UniqueItems) VP(Const)

// parameters of a constraint, read with the real accessors
const Subschema *vp_if(const ConditionalConstraint &c) { return c.getIfSubschema(); }
const Subschema *vp_then(const ConditionalConstraint &c) { return c.getThenSubschema(); }
const Subschema *vp_else(const ConditionalConstraint &c) { return c.getElseSubschema(); }
const Subschema *vp_not(const NotConstraint &c) { return c.getSubschema(); }
const Subschema *vp_contains(const ContainsConstraint &c) { return c.getSubschema(); }
const Subschema *vp_items(const SingularItemsConstraint &c) { return c.getItemsSubschema(); }
const Subschema *vp_additionalItems(const LinearItemsConstraint &c) { return c.getAdditionalItemsSubschema(); }
const Subschema *vp_additionalProperties(const PropertiesConstraint &c) { return c.getAdditionalPropertiesSubschema(); }
const Subschema *vp_propertyNames(const PropertyNamesConstraint &c) { return c.getSubschema(); }
double vp_maximum(const MaximumConstraint &c) { return c.getMaximum(); }
bool vp_exclusiveMaximum(const MaximumConstraint &c) { return c.getExclusiveMaximum(); }
double vp_minimum(const MinimumConstraint &c) { return c.getMinimum(); }
bool vp_exclusiveMinimum(const MinimumConstraint &c) { return c.getExclusiveMinimum(); }
uint64_t vp_maxItems(const MaxItemsConstraint &c) { return c.getMaxItems(); }
uint64_t vp_maxLength(const MaxLengthConstraint &c) { return c.getMaxLength(); }
uint64_t vp_maxProperties(const MaxPropertiesConstraint &c) { return c.getMaxProperties(); }
uint64_t vp_minItems(const MinItemsConstraint &c) { return c.getMinItems(); }
uint64_t vp_minLength(const MinLengthConstraint &c) { return c.getMinLength(); }
uint64_t vp_minProperties(const MinPropertiesConstraint &c) { return c.getMinProperties(); }
double vp_multipleOfDouble(const MultipleOfDoubleConstraint &c) { return c.getDivisor(); }
int64_t vp_multipleOfInt(const MultipleOfIntConstraint &c) { return c.getDivisor(); }
const adapters::FrozenValue *vp_const(const ConstConstraint &c) { return c.getValue(); }
void vp_pattern(const PatternConstraint &c, std::string *out) { new (out) std::string(c.getPattern<std::allocator<char>>()); }
void vp_format(const FormatConstraint &c, std::string *out) { new (out) std::string(c.getFormat()); }
// used to tell containers of the same type apart
void vp_seen(const Subschema *s);
void vp_eachProperty(const PropertiesConstraint &c) { c.applyToProperties([](const auto &, const Subschema *s) { vp_seen(s); return true; }); }
void vp_eachPatternProperty(const PropertiesConstraint &c) { c.applyToPatternProperties([](const auto &, const Subschema *s) { vp_seen(s); return true; }); }
}
