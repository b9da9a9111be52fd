// Abstract JSON value: every member function is declared and never defined, so
// that the verifier has to use its contract (verif/vf/lib_adapter.py). The
// handle is the only state; copying an adapter copies the handle.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <optional>
#include <string>
#include <utility>
#include <valijson/internal/adapter.hpp>
#include <valijson/internal/basic_adapter.hpp>
#include <valijson/internal/frozen_value.hpp>

namespace absj {
using valijson::adapters::BasicAdapter;
using valijson::adapters::DerefProxy;
using valijson::adapters::FrozenValue;

class AbsAdapter;
class AbsArray;
class AbsObject;
class AbsArrayIt;
class AbsObjectIt;
typedef std::pair<std::string, AbsAdapter> AbsMember;

class AbsFrozen final : public FrozenValue {
public:
    ~AbsFrozen() override;
    FrozenValue *clone() const override;
    bool equalTo(const valijson::adapters::Adapter &adapter, bool strict) const override;
};

class AbsValue {
public:
    AbsValue();
    FrozenValue *freeze() const;
    std::optional<AbsArray> getArrayOptional() const;
    bool getArraySize(size_t &result) const;
    bool getBool(bool &result) const;
    bool getDouble(double &result) const;
    bool getInteger(int64_t &result) const;
    std::optional<AbsObject> getObjectOptional() const;
    bool getObjectSize(size_t &result) const;
    bool getString(std::string &result) const;
    static bool hasStrictTypes();
    bool isArray() const;
    bool isBool() const;
    bool isDouble() const;
    bool isInteger() const;
    bool isNull() const;
    bool isNumber() const;
    bool isObject() const;
    bool isString() const;
    uint64_t h;
};

class AbsArray {
public:
    typedef AbsArrayIt const_iterator;
    typedef AbsArrayIt iterator;
    AbsArray();
    AbsArrayIt begin() const;
    AbsArrayIt end() const;
    size_t size() const;
    uint64_t h;
};

class AbsObject {
public:
    typedef AbsObjectIt const_iterator;
    typedef AbsObjectIt iterator;
    AbsObject();
    AbsObjectIt begin() const;
    AbsObjectIt end() const;
    AbsObjectIt find(const std::string &name) const;
    size_t size() const;
    uint64_t h;
};

class AbsAdapter : public BasicAdapter<AbsAdapter, AbsArray, AbsMember, AbsObject, AbsValue> {
public:
    AbsAdapter() : BasicAdapter() {}
    explicit AbsAdapter(const AbsValue &v) : BasicAdapter(v) {}
};

class AbsArrayIt {
public:
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = AbsAdapter;
    using difference_type = std::ptrdiff_t;
    using pointer = AbsAdapter *;
    using reference = AbsAdapter &;
    AbsAdapter operator*() const;
    DerefProxy<AbsAdapter> operator->() const { return DerefProxy<AbsAdapter>(**this); }
    bool operator==(const AbsArrayIt &o) const;
    bool operator!=(const AbsArrayIt &o) const;
    const AbsArrayIt &operator++();
    AbsArrayIt operator++(int);
    const AbsArrayIt &operator--();
    void advance(std::ptrdiff_t n);
    uint64_t h;
    uint64_t i;
};

class AbsObjectIt {
public:
    using iterator_category = std::bidirectional_iterator_tag;
    using value_type = AbsMember;
    using difference_type = std::ptrdiff_t;
    using pointer = AbsMember *;
    using reference = AbsMember &;
    AbsMember operator*() const;
    DerefProxy<AbsMember> operator->() const { return DerefProxy<AbsMember>(**this); }
    bool operator==(const AbsObjectIt &o) const;
    bool operator!=(const AbsObjectIt &o) const;
    const AbsObjectIt &operator++();
    AbsObjectIt operator++(int);
    const AbsObjectIt &operator--();
    void advance(std::ptrdiff_t n);
    uint64_t h;
    uint64_t i;
};

// Regular expression engine: constructor and search only have contracts.
struct Eng {
    explicit Eng(const std::string &pattern);
    static bool search(const std::string &s, const Eng &r);
    uint64_t h;
};
} // namespace absj

namespace valijson {
namespace adapters {
template <> struct AdapterTraits<absj::AbsAdapter> {
    typedef absj::AbsAdapter DocumentType;
    static std::string adapterName() { return "AbsAdapter"; }
};
} // namespace adapters
} // namespace valijson
