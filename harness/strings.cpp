// Verification harness for the string functions: entry points with fixed names, nothing of /repo is re-implemented.
#include <cstdint>
#include <valijson/internal/double_parser.hpp>
#include <valijson/utils/utf8_utils.hpp>

using namespace valijson;

extern "C" {
uint64_t vp_u8_strlen(const char *s, size_t n) { return utils::u8_strlen(s, n); }
bool vp_parse_double(const std::string &s, double &r) { return internal::parseDouble(s, r); }
}
