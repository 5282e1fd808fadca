// Types (de)serialised concurrently/nested (C19); input of the code generator.
#ifndef TYPES_THREADS_H
#define TYPES_THREADS_H
#include "./types_threads_ext.h"

#include <reflective_rapidjson/binary/reflector-chronoutilities.h>
#include <reflective_rapidjson/binary/serializable.h>
#include <reflective_rapidjson/json/reflector-chronoutilities.h>
#include <reflective_rapidjson/json/serializable.h>

#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

namespace T {

enum class Color : std::uint8_t { Red, Green, Blue };

struct Sub : public ReflectiveRapidJSON::JsonSerializable<Sub>, public ReflectiveRapidJSON::BinarySerializable<Sub> {
    int number = 1;
    std::string text = "sub";
    std::vector<int> list{ 1, 2 };
};
struct Derived : public Sub, public ReflectiveRapidJSON::JsonSerializable<Derived>, public ReflectiveRapidJSON::BinarySerializable<Derived> {
    bool flag = false;
    double real = 1.5;
};
// various members
struct Rich : public ReflectiveRapidJSON::JsonSerializable<Rich>, public ReflectiveRapidJSON::BinarySerializable<Rich> {
    Color color = Color::Green;
    std::vector<Sub> subs;
    std::map<std::string, int> map;
    std::unordered_map<std::string, Sub> hash;
    std::multimap<std::string, int> multi;
    std::set<std::string> set;
    std::unordered_multiset<int> multiset;
    std::optional<std::string> optional;
    std::unique_ptr<Sub> unique;
    std::shared_ptr<Sub> shared, sharedToo;
    std::variant<std::monostate, int, std::string, Sub> variant;
    std::pair<int, std::string> pair;
    std::list<std::string> list;
};
struct JsonOnly : public ReflectiveRapidJSON::JsonSerializable<JsonOnly> {
    std::tuple<int, std::string, bool> tuple;
    std::string_view view;
    const char *literal = "";
};
struct Times : public ReflectiveRapidJSON::JsonSerializable<Times>, public ReflectiveRapidJSON::BinarySerializable<Times> {
    CppUtilities::DateTime date;
    CppUtilities::TimeSpan span;
};
struct Versioned : public ReflectiveRapidJSON::BinarySerializable<Versioned, 3> {
    std::uint32_t always = 1;
    Sub sub;
REFLECTIVE_RAPIDJSON_AS_OF_VERSION(2):
    std::uint32_t two = 2;
REFLECTIVE_RAPIDJSON_AS_OF_VERSION(3):
    std::uint32_t three = 3;
};
struct Node : public ReflectiveRapidJSON::BinarySerializable<Node>, public ReflectiveRapidJSON::JsonSerializable<Node> {
    int id = 0;
    std::shared_ptr<Node> a, b;
};
struct Adapted {
    int a = 1;
    std::vector<std::string> b;
};
// types containing an object whose (de)serialisation invokes further (de)serialisations
struct NestMember : public ReflectiveRapidJSON::JsonSerializable<NestMember>, public ReflectiveRapidJSON::BinarySerializable<NestMember> {
    int before = 1;
    std::vector<int> list;
    X::Hook hook;
    std::string after = "x";
    std::vector<Sub> subs;
};
struct NestContainer : public ReflectiveRapidJSON::JsonSerializable<NestContainer>, public ReflectiveRapidJSON::BinarySerializable<NestContainer> {
    std::vector<X::Hook> list;
    std::map<std::string, X::Hook> map;
    std::list<std::vector<int>> after;
    std::multimap<std::string, X::Hook> multi;
};
struct NestPointer : public ReflectiveRapidJSON::JsonSerializable<NestPointer>, public ReflectiveRapidJSON::BinarySerializable<NestPointer> {
    std::shared_ptr<Sub> before;
    std::shared_ptr<X::Hook> hook;
    std::shared_ptr<Sub> after;
    std::unique_ptr<X::Hook> owned;
    std::optional<X::Hook> optional;
    std::variant<int, X::Hook> variant;
};
struct NestVersioned : public ReflectiveRapidJSON::BinarySerializable<NestVersioned, 3> {
    std::uint32_t always = 1;
    X::Hook hook;
REFLECTIVE_RAPIDJSON_AS_OF_VERSION(2):
    std::uint32_t two = 2;
    Sub sub;
REFLECTIVE_RAPIDJSON_AS_OF_VERSION(3):
    std::uint32_t three = 3;
};

} // namespace T

REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(T::Adapted);
REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(T::Adapted);
#endif
