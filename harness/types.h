// Types whose (de)serialisation is explored. This header is also fed to the code generator, so everything which has to be
// considered relevant must be expanded within this very file. GROUP selects a subset to allow building in parallel.
// The classes are put into namespace UNIV (default: U); the header might be included multiple times using different namespaces.
#ifndef TYPES_H
#define TYPES_H

#ifdef RRJ_JSON
#include <reflective_rapidjson/json/serializable.h>
#endif
#ifdef RRJ_BINARY
#include <reflective_rapidjson/binary/serializable.h>
#endif

#include <cstdint>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>

#if defined(RRJ_JSON) && defined(RRJ_BINARY)
#define BASES(T) public ReflectiveRapidJSON::JsonSerializable<T>, public ReflectiveRapidJSON::BinarySerializable<T>
#elif defined(RRJ_JSON)
#define BASES(T) public ReflectiveRapidJSON::JsonSerializable<T>
#else
#define BASES(T) public ReflectiveRapidJSON::BinarySerializable<T>
#endif
#endif // TYPES_H

#ifndef UNIV
#define UNIV U
#endif

namespace UNIV {

enum class E8u : std::uint8_t { A = 0, B = 1, C = 255 };
enum class E8s : std::int8_t { A = 0, B = 1, C = -128 };
enum E32 : std::int32_t { E32A = 0, E32B = 2147483647, E32C = -2147483647 - 1 };
enum class E64 : std::int64_t { A = 0, B = 9223372036854775807ll, C = -9223372036854775807ll - 1 };
enum class E64u : std::uint64_t { A = 0, B = 18446744073709551615ull, C = 1 };
enum class E16u : std::uint16_t { A = 0, B = 1, C = 65535 };

struct Sub : BASES(Sub) {
    int a = 1;
    std::string s = "d";
    bool operator<(const Sub &o) const { return a != o.a ? a < o.a : s < o.s; }
};

struct Tree : BASES(Tree) {
    std::int32_t v = 3;
    std::vector<Tree> kids;
    std::unique_ptr<Tree> left;
    std::shared_ptr<Tree> right;
};

struct Base : BASES(Base) {
    int b = 7;
    std::string t = "base";
};
struct Derived : public Base, BASES(Derived) {
    std::vector<int> v = { 1, 2 };
    std::optional<Sub> o;
};
struct Derived2 : public Derived, BASES(Derived2) {
    std::map<std::string, int> m = { { "x", 1 } };
    int b2 = 5;
};

struct Mixed : BASES(Mixed) {
    std::vector<Sub> subs = { Sub() };
    std::map<std::string, std::vector<int>> m = { { "def", { 1, 2 } } };
    std::variant<std::monostate, int, std::string, Sub> var = 3;
    std::unique_ptr<Sub> p = std::make_unique<Sub>();
    std::optional<std::string> o = "def";
    std::set<std::string> st = { "def" };
    std::multimap<std::string, int> mm = { { "def", 1 }, { "def", 2 } };
    bool flag = true;
};

#undef W
#define W(n, ...)                                                                                                                                    \
    struct W##n : BASES(W##n) {                                                                                                                      \
        int pre = 3;                                                                                                                                 \
        __VA_ARGS__ m{};                                                                                                                             \
        std::string post = "p";                                                                                                                      \
    };

#ifndef TYPES_GROUPS
#define TYPES_GROUPS
// WB: JSON and binary, WJ: JSON only, WN: binary only, WD: like WB but generated code only
#define GROUP_0(WB, WJ, WN, WD)                                                                                                                      \
    WB(000, bool)                                                                                                                                    \
    WB(001, std::uint8_t)                                                                                                                            \
    WJ(002, std::int8_t)                                                                                                                             \
    WB(003, std::int32_t)                                                                                                                            \
    WB(004, std::uint32_t)                                                                                                                           \
    WB(005, std::int64_t)                                                                                                                            \
    WB(006, std::uint64_t)                                                                                                                           \
    WB(007, float)                                                                                                                                   \
    WB(008, double)                                                                                                                                  \
    WB(009, std::string)                                                                                                                             \
    WB(010, UNIV::E8u)                                                                                                                                  \
    WJ(011, UNIV::E8s)                                                                                                                                  \
    WB(012, UNIV::E32)                                                                                                                                  \
    WB(013, UNIV::E64)                                                                                                                                  \
    WB(014, UNIV::E64u)                                                                                                                                 \
    WN(015, char)                                                                                                                                    \
    WN(016, std::int16_t)                                                                                                                            \
    WN(017, std::uint16_t)                                                                                                                           \
    WN(018, UNIV::E16u)
#define GROUP_1(WB, WJ, WN, WD)                                                                                                                      \
    WB(100, std::vector<int>)                                                                                                                        \
    WB(101, std::list<std::string>)                                                                                                                  \
    WB(102, std::deque<bool>)                                                                                                                        \
    WB(103, std::vector<std::vector<int>>)                                                                                                           \
    WB(104, std::vector<std::string>)                                                                                                                \
    WB(105, std::vector<double>)                                                                                                                     \
    WB(106, std::vector<UNIV::E8u>)                                                                                                                     \
    WB(107, std::deque<std::vector<std::string>>)                                                                                                    \
    WB(108, std::vector<std::uint8_t>)                                                                                                               \
    WN(109, std::vector<char>)
#define GROUP_2(WB, WJ, WN, WD)                                                                                                                      \
    WB(200, std::set<int>)                                                                                                                           \
    WB(201, std::set<std::string>)                                                                                                                   \
    WB(202, std::unordered_set<std::string>)                                                                                                         \
    WB(203, std::multiset<int>)                                                                                                                      \
    WB(204, std::unordered_multiset<std::string>)                                                                                                    \
    WB(205, std::set<std::vector<int>>)                                                                                                              \
    WB(206, std::set<UNIV::Sub>)                                                                                                                        \
    WB(207, std::vector<std::set<int>>)                                                                                                              \
    WB(208, std::set<std::pair<int, std::string>>)
#define GROUP_3(WB, WJ, WN, WD)                                                                                                                      \
    WB(300, std::map<std::string, int>)                                                                                                              \
    WB(301, std::unordered_map<std::string, std::string>)                                                                                            \
    WB(302, std::map<std::string, std::vector<int>>)                                                                                                 \
    WB(303, std::map<std::string, std::map<std::string, int>>)                                                                                       \
    WB(304, std::map<std::string, UNIV::Sub>)                                                                                                           \
    WB(305, std::map<std::string, std::unique_ptr<int>>)                                                                                             \
    WN(306, std::map<int, std::string>)                                                                                                              \
    WB(307, std::vector<std::map<std::string, int>>)
#define GROUP_4(WB, WJ, WN, WD)                                                                                                                      \
    WB(400, std::multimap<std::string, int>)                                                                                                         \
    WB(401, std::unordered_multimap<std::string, std::string>)                                                                                       \
    WB(402, std::multimap<std::string, std::vector<int>>)                                                                                            \
    WB(403, std::multimap<std::string, UNIV::Sub>)                                                                                                      \
    WB(404, std::multimap<std::string, std::optional<int>>)                                                                                          \
    WB(405, std::pair<int, std::string>)                                                                                                             \
    WB(406, std::pair<std::string, std::vector<int>>)                                                                                                \
    WJ(407, std::tuple<int, std::string, bool>)                                                                                                      \
    WJ(408, std::tuple<std::string>)                                                                                                                 \
    WJ(409, std::vector<std::tuple<UNIV::Sub, std::vector<int>>>)                                                                                       \
    WB(410, std::vector<std::pair<int, bool>>)
#define GROUP_5(WB, WJ, WN, WD)                                                                                                                      \
    WB(500, std::unique_ptr<int>)                                                                                                                    \
    WB(501, std::shared_ptr<std::string>)                                                                                                            \
    WB(502, std::optional<int>)                                                                                                                      \
    WB(503, std::optional<std::vector<int>>)                                                                                                         \
    WB(504, std::vector<std::optional<std::string>>)                                                                                                 \
    WB(505, std::unique_ptr<std::vector<std::string>>)                                                                                               \
    WB(506, std::vector<std::unique_ptr<int>>)                                                                                                       \
    WB(507, std::optional<UNIV::Sub>)                                                                                                                   \
    WB(508, std::unique_ptr<UNIV::Sub>)                                                                                                                 \
    WB(509, std::vector<std::shared_ptr<UNIV::Sub>>)                                                                                                    \
    WB(510, std::unique_ptr<std::map<std::string, int>>)                                                                                             \
    WB(511, std::optional<bool>)
#define GROUP_6(WB, WJ, WN, WD)                                                                                                                      \
    WB(600, std::variant<std::monostate, int, std::string>)                                                                                          \
    WB(601, std::variant<int, std::vector<std::string>, UNIV::Sub>)                                                                                     \
    WB(602, std::vector<std::variant<int, std::string>>)                                                                                             \
    WB(603, std::variant<std::string, std::string, bool>)                                                                                            \
    WB(604, std::map<std::string, std::variant<std::monostate, double>>)                                                                             \
    WB(605, std::variant<std::optional<int>, std::map<std::string, int>>)                                                                            \
    WB(606, std::optional<std::variant<int, bool>>)                                                                                                  \
    WB(607, std::variant<std::variant<int, std::string>, bool>)
#define GROUP_7(WB, WJ, WN, WD)                                                                                                                      \
    WB(700, UNIV::Sub)                                                                                                                                  \
    WB(701, std::vector<UNIV::Sub>)                                                                                                                     \
    WB(702, std::list<UNIV::Sub>)                                                                                                                       \
    WB(703, UNIV::Tree)                                                                                                                                 \
    WB(704, UNIV::Mixed)                                                                                                                                \
    WD(705, UNIV::Derived)                                                                                                                              \
    WD(706, UNIV::Derived2)                                                                                                                             \
    WD(707, std::vector<UNIV::Derived>)

#define GROUP_9(WB, WJ, WN, WD)
#define NOTHING(...)
#ifdef RRJ_JSON
#define WJ_ACTIVE(X) X
#else
#define WJ_ACTIVE(X) NOTHING
#endif
#ifdef RRJ_BINARY
#define WN_ACTIVE(X) X
#else
#define WN_ACTIVE(X) NOTHING
#endif
#if defined(RRJ_JSON) && defined(RRJ_BINARY)
#error "build either for JSON or binary"
#endif
#ifdef RRJ_HANA
#define WD_ACTIVE(X) NOTHING
#else
#define WD_ACTIVE(X) X
#endif
#define CAT_1(a, b) a##b
#define CAT_2(a, b) CAT_1(a, b)
#ifndef GROUP
#define GROUP 0
#endif
#define ALL_W(X) CAT_2(GROUP_, GROUP)(X, WJ_ACTIVE(X), WN_ACTIVE(X), WD_ACTIVE(X))

#endif // TYPES_GROUPS
ALL_W(W)

} // namespace UNIV
