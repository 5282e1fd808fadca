// Glue between the reference model and the JSON part of the library under test.
#ifndef LIB_JSON_H
#define LIB_JSON_H
#include "ops.h"

#include <reflective_rapidjson/json/errorhandling.h>
#include <reflective_rapidjson/json/reflector.h>
#include <reflective_rapidjson/json/serializable.h>

#include <rapidjson/document.h>

namespace RJ = ReflectiveRapidJSON;
namespace JR = ReflectiveRapidJSON::JsonReflector;
using RJErrors = RJ::JsonDeserializationErrors;

inline std::string str(const rapidjson::StringBuffer &b)
{
    return std::string(b.GetString(), b.GetSize());
}

// converts a RapidJSON value using only its accessors
inline J toJ(const rapidjson::Value &v)
{
    switch (v.GetType()) {
    case rapidjson::kNullType:
        return J::null();
    case rapidjson::kFalseType:
        return J::boolean(false);
    case rapidjson::kTrueType:
        return J::boolean(true);
    case rapidjson::kStringType:
        return J::str(std::string(v.GetString(), v.GetStringLength()));
    case rapidjson::kArrayType: {
        auto j = J::arr();
        for (const auto &x : v.GetArray()) {
            j.a.push_back(toJ(x));
        }
        return j;
    }
    case rapidjson::kObjectType: {
        auto j = J::obj();
        for (const auto &m : v.GetObject()) {
            j.o.emplace_back(std::string(m.name.GetString(), m.name.GetStringLength()), toJ(m.value));
        }
        return j;
    }
    default:
        return v.IsUint64() ? J::uint(v.GetUint64()) : v.IsInt64() ? J::sint(v.GetInt64()) : J::dbl(v.GetDouble());
    }
}

inline const char *kindName(int k)
{
    static const char *const names[] = { "TypeMismatch", "ArraySizeMismatch", "ConversionError", "UnexpectedDuplicate", "InvalidVariantObject",
        "InvalidVariantIndex" };
    return k >= 0 && k < 6 ? names[k] : "?";
}
inline std::string errText(int kind, int expected, int actual, const char *record, const char *member, std::size_t index)
{
    return std::string(kindName(kind)) + "(" + jtName(expected) + "," + jtName(actual) + ") in " + (record ? record : "(null)") + "::"
        + (member ? member : "(none)") + "[" + (index == NOIDX ? std::string("-") : std::to_string(index)) + "]";
}
inline std::string errText(const RErr &e)
{
    return errText(e.kind, e.expected, e.actual, e.record.c_str(), e.hasMember ? e.member.c_str() : nullptr, e.index);
}
inline std::string errText(const RJ::JsonDeserializationError &e)
{
    return errText(static_cast<int>(e.kind), static_cast<int>(e.expectedType), static_cast<int>(e.actualType), e.record, e.member, e.index);
}
template <typename L> inline std::string errList(const L &l)
{
    std::string s;
    for (const auto &e : l) {
        s += s.empty() ? "" : "; ";
        s += errText(e);
    }
    return s.empty() ? "(no errors)" : s;
}

template <typename T> inline std::string show(const T &v)
{
    return jtext(Ops<T>::push(v));
}

// number of bytes allocated by the process, used to detect leaks
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
inline std::size_t allocatedBytes()
{
    return __sanitizer_get_current_allocated_bytes();
}

#endif
