// A class whose (de)serialisation is implemented manually: it invokes a hook provided by the harness
#ifndef TYPES_THREADS_EXT_H
#define TYPES_THREADS_EXT_H
#include <reflective_rapidjson/binary/serializable.h>
#include <reflective_rapidjson/json/serializable.h>

#include <functional>

namespace X {
struct Hook {
    int value = 7;
};
inline std::function<void()> &hook()
{
    static std::function<void()> f;
    return f;
}
inline void callHook()
{
    if (hook()) {
        hook()();
    }
}
} // namespace X

REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(X::Hook);
REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(X::Hook);

namespace ReflectiveRapidJSON {
namespace JsonReflector {
template <> inline void push<X::Hook>(const X::Hook &h, ::RAPIDJSON_NAMESPACE::Value::Object &value, ::RAPIDJSON_NAMESPACE::Document::AllocatorType &allocator)
{
    X::callHook();
    push(h.value, "value", value, allocator);
}
template <> inline void pull<X::Hook>(X::Hook &h, const ::RAPIDJSON_NAMESPACE::GenericValue<::RAPIDJSON_NAMESPACE::UTF8<char>>::ConstObject &value, JsonDeserializationErrors *errors)
{
    X::callHook();
    pull(h.value, "value", value, errors);
}
} // namespace JsonReflector
namespace BinaryReflector {
template <> inline void writeCustomType<X::Hook>(BinarySerializer &s, const X::Hook &h, BinaryVersion)
{
    X::callHook();
    s.write(h.value);
}
template <> inline BinaryVersion readCustomType<X::Hook>(BinaryDeserializer &d, X::Hook &h, BinaryVersion)
{
    X::callHook();
    d.read(h.value);
    return 0;
}
} // namespace BinaryReflector
} // namespace ReflectiveRapidJSON
#endif
