// Verification harness: the error queue with its real bodies.
#include <cstddef>
#include <valijson/validation_results.hpp>
using valijson::ValidationResults;
typedef ValidationResults R;

extern "C" {
R *vp_results() { return new R(); }
R::Path *vp_path() { return new R::Path(); }
R::Error *vp_error() { return new R::Error(); }
void vp_push(R &r, const R::Path &p, const std::string &d) { r.pushError(p, d); }
void vp_pushError(R &r, const R::Error &e) { r.pushError(e); }
bool vp_pop(R &r, R::Error &e) { return r.popError(e); }
size_t vp_num(const R &r) { return r.numErrors(); }
size_t vp_kind_at() { return offsetof(R::Segment, kind); }
size_t vp_name_at() { return offsetof(R::Segment, name); }
size_t vp_context_at() { return offsetof(R::Error, context); }
size_t vp_description_at() { return offsetof(R::Error, description); }
size_t vp_pointer_at() { return offsetof(R::Error, jsonPointer); }
int vp_object() { return R::kObject; }
int vp_array() { return R::kArray; }
}
