// C22: the same classes using standard containers and the serialisable base (UP) and custom containers and adaption (UQ).
#ifndef TYPES_CUSTOM_H
#define TYPES_CUSTOM_H
#define GROUP 9
#include "types.h"
#include "containers.h"

#define CLASSES(B, FIELD)                                                                                                                            \
    struct Sub B(Sub)                                                                                                                                \
    {                                                                                                                                                \
        int a = 1;                                                                                                                                   \
        std::string s = "d";                                                                                                                         \
        bool operator<(const Sub &o) const                                                                                                           \
        {                                                                                                                                            \
            return a != o.a ? a < o.a : s < o.s;                                                                                                     \
        }                                                                                                                                            \
        bool operator==(const Sub &o) const                                                                                                          \
        {                                                                                                                                            \
            return a == o.a && s == o.s;                                                                                                             \
        }                                                                                                                                            \
    };
#define WRAP(B, N, ...)                                                                                                                              \
    struct C##N B(C##N)                                                                                                                              \
    {                                                                                                                                                \
        int pre = 3;                                                                                                                                 \
        __VA_ARGS__ m{};                                                                                                                             \
        std::string post = "p";                                                                                                                      \
    };
#define CONTAINERS_0(X) X(0, MapInt) X(1, MapStr) X(2, MapSub) X(3, MapVec) X(4, MMapInt) X(5, MMapStr) X(6, MMapSub)
#define CONTAINERS_1(X) X(7, SetInt) X(8, SetStr) X(9, SetSub) X(10, MSetInt) X(11, MSetStr) X(12, VecInt) X(13, VecSub) X(14, MSetSub)
#define CONTAINERS_2(X)                                                                                                                              \
    X(15, std::optional<MapInt>)                                                                                                                     \
    X(16, std::vector<SetInt>)                                                                                                                       \
    X(17, std::map<std::string, MMapInt>)                                                                                                            \
    X(18, std::variant<MapInt, MSetInt, Sub>)                                                                                                        \
    X(19, std::unique_ptr<Sub>) X(20, std::vector<Sub>) X(21, MapMap) X(22, std::pair<MapInt, MSetInt>) X(23, std::optional<Sub>) X(24, std::unique_ptr<MMapInt>)
#ifdef RRJ_BINARY
#define CONTAINERS_3(X) X(25, IntMap) X(26, IntMMap)
#else
#define CONTAINERS_3(X)
#endif
#define EMPTY()
#ifndef PART
#define PART 0
#endif
#if PART == 0
#define CONTAINERS(X) CONTAINERS_0(X)
#elif PART == 1
#define CONTAINERS(X) CONTAINERS_1(X)
#else
#define CONTAINERS(X) CONTAINERS_2(X) CONTAINERS_3(X)
#endif

namespace UP {
#define BASE_P(T) : BASES(T)
CLASSES(BASE_P, )
using MapInt = std::map<std::string, int>;
using MapStr = std::unordered_map<std::string, std::string>;
using MapSub = std::map<std::string, Sub>;
using MapVec = std::map<std::string, std::vector<int>>;
using MapMap = std::map<std::string, MapInt>;
using MMapInt = std::multimap<std::string, int>;
using MMapStr = std::multimap<std::string, std::string>;
using MMapSub = std::multimap<std::string, Sub>;
using SetInt = std::set<int>;
using SetStr = std::unordered_set<std::string>;
using SetSub = std::set<Sub>;
using MSetInt = std::multiset<int>;
using MSetStr = std::unordered_multiset<std::string>;
using MSetSub = std::multiset<Sub>;
using VecInt = std::vector<int>;
using VecSub = std::vector<Sub>;
using IntMap = std::map<int, std::string>;
using IntMMap = std::multimap<int, std::string>;
#define WRAP_P(N, ...) WRAP(BASE_P, N, __VA_ARGS__)
CONTAINERS(WRAP_P)
} // namespace UP

namespace UQ {
#define BASE_Q(T)
CLASSES(BASE_Q, )
using MapInt = custom::FlatMap<std::string, int, false>;
struct MapStr : std::unordered_map<std::string, std::string> {};
using MapSub = custom::FlatMap<std::string, Sub, false>;
struct MapVec : std::map<std::string, std::vector<int>> {};
using MapMap = custom::FlatMap<std::string, MapInt, false>;
using MMapInt = custom::FlatMap<std::string, int, true>;
using MMapStr = custom::ListMultiMap<std::string, std::string>;
struct MMapSub : std::multimap<std::string, Sub> {};
using SetInt = custom::FlatSet<int, false>;
struct SetStr : std::unordered_set<std::string> {};
using SetSub = custom::FlatSet<Sub, false>;
using MSetInt = custom::FlatSet<int, true>;
struct MSetStr : std::unordered_multiset<std::string> {};
using MSetSub = custom::FlatSet<Sub, true>;
using VecInt = custom::Chain<int>;
struct VecSub : std::vector<Sub> {};
using IntMap = custom::FlatMap<int, std::string, false>;
using IntMMap = custom::FlatMap<int, std::string, true>;
#define WRAP_Q(N, ...) WRAP(BASE_Q, N, __VA_ARGS__)
CONTAINERS(WRAP_Q)
} // namespace UQ

namespace ReflectiveRapidJSON {
REFLECTIVE_RAPIDJSON_TREAT_AS_MAP_OR_HASH(UQ::MapInt);
REFLECTIVE_RAPIDJSON_TREAT_AS_MAP_OR_HASH(UQ::MapStr);
REFLECTIVE_RAPIDJSON_TREAT_AS_MAP_OR_HASH(UQ::MapSub);
REFLECTIVE_RAPIDJSON_TREAT_AS_MAP_OR_HASH(UQ::MapVec);
REFLECTIVE_RAPIDJSON_TREAT_AS_MAP_OR_HASH(UQ::MapMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_MAP_OR_HASH(UQ::IntMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_MAP_OR_HASH(UQ::MMapInt);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_MAP_OR_HASH(UQ::MMapStr);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_MAP_OR_HASH(UQ::MMapSub);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_MAP_OR_HASH(UQ::IntMMap);
REFLECTIVE_RAPIDJSON_TREAT_AS_SET(UQ::SetInt);
REFLECTIVE_RAPIDJSON_TREAT_AS_SET(UQ::SetStr);
REFLECTIVE_RAPIDJSON_TREAT_AS_SET(UQ::SetSub);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_SET(UQ::MSetInt);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_SET(UQ::MSetStr);
REFLECTIVE_RAPIDJSON_TREAT_AS_MULTI_SET(UQ::MSetSub);
} // namespace ReflectiveRapidJSON

#ifdef RRJ_JSON
#define ADAPT(T) REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(T);
#else
#define ADAPT(T) REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(T);
#endif
ADAPT(UQ::Sub)
#define ADAPT_C(N, ...) ADAPT(UQ::C##N)
CONTAINERS(ADAPT_C)

#endif
