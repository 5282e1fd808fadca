// Classes for exploring member order, missing and additional members (C08); input of the code generator.
#ifndef TYPES_ORDER_H
#define TYPES_ORDER_H
#include <reflective_rapidjson/json/serializable.h>

#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <variant>
#include <vector>

namespace O {

struct Names : public ReflectiveRapidJSON::JsonSerializable<Names> {
    int a = 1;
    std::string ab = "d";
    bool abc = true;
    std::vector<int> A = { 9 };
    double index = 0.5;
};

struct Small : public ReflectiveRapidJSON::JsonSerializable<Small> {
    int x = 4;
    std::string y = "dy";
    std::vector<std::string> z = { "dz" };
};

struct Nest : public ReflectiveRapidJSON::JsonSerializable<Nest> {
    Small x;
    std::vector<Small> y = { Small() };
    std::map<std::string, Small> z = { { "x", Small() } };
    std::optional<Small> o = Small();
    std::unique_ptr<Small> p = std::make_unique<Small>();
    std::variant<int, Small> v = 3;
};

struct OBase : public ReflectiveRapidJSON::JsonSerializable<OBase> {
    int x = 7;
    std::set<int> s = { 1, 2 };
};
struct OMid : public OBase, public ReflectiveRapidJSON::JsonSerializable<OMid> {
    std::map<std::string, int> m = { { "k", 1 } };
    std::optional<int> o = 5;
};
struct ODerived : public OMid, public ReflectiveRapidJSON::JsonSerializable<ODerived> {
    std::string z = "dz";
};

} // namespace O
#endif
