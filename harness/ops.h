// Reference model: per type the bounded value/document generators, equality, the documented JSON mapping, the
// deserialisation semantics (incl. errors) and the documented binary encoding. Does not use the library under test.
#ifndef OPS_H
#define OPS_H
#include <cstdint>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <tuple>
#include <unordered_map>
#include <unordered_set>
#include <variant>
#include <vector>
#include "json.h"

template <typename T> struct Meta; // describes the fields of a class, see meta.h

#include <cfloat>
#include <type_traits>

// ---- reference error list ------------------------------------------------------------------------------------------
enum JT { JTNull, JTNumber, JTBool, JTString, JTArray, JTObject };
enum EK { EKTypeMismatch, EKArraySize, EKConversion, EKDuplicate, EKVariantObject, EKVariantIndex };
constexpr std::size_t NOIDX = ~std::size_t(0);

struct RErr {
    int kind, expected, actual;
    std::string record, member;
    bool hasMember;
    std::size_t index;
};
struct RThrow {
};
struct Errs {
    std::vector<RErr> list;
    std::string record = "[document]", member;
    bool hasMember = false;
    std::size_t index = NOIDX;
    unsigned mask = 0;
    bool generated = false; // whether generated code (setting the record) is used
    bool innermostKnown = true;
    void add(int kind, int expected, int actual)
    {
        list.push_back({ kind, expected, actual, record, member, hasMember, index });
        if (mask & (1u << kind)) {
            throw RThrow();
        }
    }
};

inline int jtOf(const J &j)
{
    switch (j.t) {
    case J::Null:
        return JTNull;
    case J::False:
    case J::True:
        return JTBool;
    case J::Num:
        return JTNumber;
    case J::Str:
        return JTString;
    case J::Arr:
        return JTArray;
    default:
        return JTObject;
    }
}
inline const char *jtName(int t)
{
    static const char *const names[] = { "null", "number", "bool", "string", "array", "object" };
    return t >= 0 && t < 6 ? names[t] : "?";
}

// ---- reference binary encoding -------------------------------------------------------------------------------------
using Bytes = std::string;
struct Enc {
    Bytes out;
    std::map<const void *, std::uint64_t> known; // IDs of shared pointers which have already been written
    std::set<std::uint64_t> ids;
    const Bytes *follow = nullptr; // output to take the (otherwise arbitrary) IDs of shared pointers from
    bool sequential = false; // number shared pointers consecutively
    // writes mode and ID of a (non-null) shared pointer, returns whether it has already been written
    bool pointer(const void *p)
    {
        const auto i = known.find(p);
        auto id = i == known.end() ? static_cast<std::uint64_t>(reinterpret_cast<std::uintptr_t>(p)) : i->second;
        const unsigned mode = i == known.end() ? 1 : 2;
        if (sequential && i == known.end()) {
            id = known.size() + 1;
        } else if (follow && i == known.end() && out.size() < follow->size()) {
            const auto *f = reinterpret_cast<const unsigned char *>(follow->data()) + out.size();
            const auto *const e = reinterpret_cast<const unsigned char *>(follow->data()) + follow->size();
            const bool big = *f++ & 4;
            int n = 8;
            if (!big) {
                for (n = 1; n < 8 && f != e && !(*f & (0x80 >> (n - 1))); ++n);
            }
            if (e - f >= n) {
                id = 0;
                for (int k = 0; k != n; ++k) {
                    id = (id << 8) | *f++;
                }
                id = big ? id : id & ~(1ull << (7 * n));
            }
        }
        if (i == known.end()) {
            known[p] = id;
            if (!ids.insert(id).second) {
                out += "(ID of another pointer)";
            }
        }
        const bool big = id >= 0x80000000000000ull;
        be(mode | (big ? 4u : 0u), 1);
        if (big) {
            be(id, 8);
        } else {
            varlen(id);
        }
        return i != known.end();
    }
    void be(std::uint64_t v, int n)
    {
        for (int i = n - 1; i >= 0; --i) {
            out += static_cast<char>((v >> (8 * i)) & 0xFF);
        }
    }
    void varlen(std::uint64_t v)
    {
        for (int n = 1; n <= 8; ++n) {
            if (v < (1ull << (7 * n))) {
                be(v | (1ull << (7 * n)), n);
                return;
            }
        }
        throw std::logic_error("mc: varlen out of range");
    }
};
struct DecFail {
    bool conversion;
};
struct Dec {
    const unsigned char *p, *e, *b;
    bool unspecified = false, huge = false;
    std::map<std::uint64_t, std::pair<const void *, std::shared_ptr<void>>> ptrs; // id -> type tag, pointer
    explicit Dec(const Bytes &s)
        : p(reinterpret_cast<const unsigned char *>(s.data()))
        , e(p + s.size())
        , b(p)
    {
    }
    std::uint64_t be(int n)
    {
        if (e - p < n) {
            p = e;
            throw DecFail{ false };
        }
        std::uint64_t v = 0;
        for (int i = 0; i < n; ++i) {
            v = (v << 8) | *p++;
        }
        return v;
    }
    std::uint64_t varlen()
    {
        if (p == e) {
            throw DecFail{ false };
        }
        int n = 1;
        while (n <= 8 && !(*p & (0x80 >> (n - 1)))) {
            ++n;
        }
        if (n > 8) {
            throw DecFail{ true };
        }
        const auto v = be(n) & ~(1ull << (7 * n));
        if (n > 1 && v < (1ull << (7 * (n - 1)))) {
            unspecified = true; // non-canonical
        }
        return v;
    }
    static std::uint64_t &limit()
    {
        static std::uint64_t l = 100000;
        return l;
    }
    std::uint64_t length(bool container = true)
    {
        const auto n = varlen();
        if (n > (container ? limit() : 3000000)) {
            huge = true; // memory exhaustion is out of scope
            throw DecFail{ false };
        }
        return n;
    }
    bool boolean()
    {
        const auto v = be(1);
        if (v > 1) {
            unspecified = true;
        }
        return v;
    }
};

// ---- configuration of the alphabets --------------------------------------------------------------------------------
struct Alphabet {
    std::vector<std::size_t> sizes = { 1, 0, 2, 3 };
    bool longStrings = false, rich = true;
    int maxDepth = 2;
};
inline Alphabet &alphabet()
{
    static Alphabet a;
    return a;
}
inline int &genDepth()
{
    static int d = 0;
    return d;
}
struct DepthGuard {
    DepthGuard() { ++genDepth(); }
    ~DepthGuard() { --genDepth(); }
};

inline const std::vector<std::string> &stringAlphabet()
{
    static const std::vector<std::string> base = { "", std::string("\0", 1), std::string("a\0b", 3), "\"\\/\b\f\n\r\t", "\x01\x1f\x7f",
        "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80", "k0", "index", "null", std::string(20, 'x') };
    return base;
}
inline std::string genString(mc::Ctx &c, int i)
{
    const auto &a = stringAlphabet();
    static const std::vector<std::size_t> lens = { 127, 128, 129, 16383, 16384, 16385 };
    const auto n = c.choose(static_cast<std::uint32_t>(1 + a.size() + (alphabet().longStrings && genDepth() <= 1 ? lens.size() : 0)));
    if (!n) {
        return "s" + std::to_string(i);
    }
    return n <= a.size() ? a[n - 1] : std::string(lens[n - 1 - a.size()], static_cast<char>('a' + i % 26));
}
inline std::string genKey(mc::Ctx &c, int i)
{
    static const std::vector<std::string> a = { "k0", "k1", "", std::string("k\0", 2), "data", "\"\\\n\xc3\xa9", std::string(40, 'K') };
    const auto n = c.choose(static_cast<std::uint32_t>(1 + a.size()));
    return n ? a[n - 1] : "k" + std::to_string(i);
}

// JSON values offered at positions where something else is expected
inline const std::vector<J> &mismatches()
{
    static const std::vector<J> m = { J::null(), J::boolean(true), J::boolean(false), J::lit("0"), J::lit("-1"), J::lit("1.5"), J::lit("7"), J::str("x"),
        J::str(""), J::arr(), J::arr({ J::uint(1) }), J::arr({ J::str("x"), J::null() }), J::obj(), J::obj({ { "a", J::uint(1) } }),
        J::obj({ { "index", J::uint(0) }, { "data", J::uint(1) } }), J::arr({ J::arr({ J::uint(2) }), J::obj() }) };
    return m;
}
// returns whether a mismatching value has been chosen, otherwise sets which (>= 0) specific alternative to use
inline bool mismatch(mc::Ctx &c, J &j, int specific, int &which)
{
    const auto &m = mismatches();
    const auto n = c.choose(static_cast<std::uint32_t>(1 + specific + static_cast<int>(m.size())));
    which = -1;
    if (!n) {
        return false;
    }
    if (static_cast<int>(n) <= specific) {
        which = static_cast<int>(n) - 1;
        return false;
    }
    j = m[n - 1 - static_cast<std::uint32_t>(specific)];
    return true;
}

// ---- operations ----------------------------------------------------------------------------------------------------
template <typename T, typename = void> struct Ops;

// scalars
template <typename T> struct IntAlphabet {
    static const std::vector<T> &get()
    {
        static const std::vector<T> a = [] {
            std::vector<T> r;
            const auto add = [&r](long double v) {
                if (v >= static_cast<long double>(std::numeric_limits<T>::min()) && v <= static_cast<long double>(std::numeric_limits<T>::max())) {
                    const auto t = static_cast<T>(v);
                    for (auto x : r) {
                        if (x == t) {
                            return;
                        }
                    }
                    r.push_back(t);
                }
            };
            for (long double v : { 0.0L, -1.0L, 1.0L, 127.0L, 128.0L, -128.0L, 255.0L, 256.0L, 65535.0L, 65536.0L, 2147483647.0L, 2147483648.0L,
                     -2147483648.0L, -2147483649.0L, 4294967295.0L, 4294967296.0L, 9007199254740993.0L, 9223372036854775807.0L,
                     9223372036854775808.0L, -9223372036854775808.0L, 18446744073709551615.0L }) {
                add(v);
            }
            return r;
        }();
        return a;
    }
};

inline const std::vector<std::string> &numberLiterals()
{
    static const std::vector<std::string> l = { "0", "1", "-1", "127", "128", "-128", "-129", "255", "256", "2147483647", "2147483648", "-2147483648",
        "-2147483649", "4294967295", "4294967296", "9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
        "-9223372036854775809", "18446744073709551615", "18446744073709551616", "0.5", "-0.5", "-0.0", "1.0", "255.5", "256.5", "-128.5", "1e3",
        "1E+2", "2147483647.5", "4294967295.5", "1e10", "-1e10", "1e19", "1e30", "-1e30", "3.5e38", "1e300", "-1e300", "1e-300", "3.4028235e38", "-3.4028235e38", "3.4028236e38" };
    return l;
}

template <typename T> struct Ops<T, std::enable_if_t<std::is_integral_v<T> && !std::is_same_v<T, bool>>> {
    static constexpr int jt() { return JTNumber; }
    static T nth(int i) { return static_cast<T>(5 + i); }
    static T gen(mc::Ctx &c, int i)
    {
        const auto &a = IntAlphabet<T>::get();
        const auto n = c.choose(static_cast<std::uint32_t>(a.size() + 1));
        return n ? a[n - 1] : nth(i);
    }
    static bool eq(const T &a, const T &b) { return a == b; }
    static J push(const T &v)
    {
        if constexpr (std::is_signed_v<T>) {
            return J::sint(v);
        } else {
            return J::uint(v);
        }
    }
    static void pull(T &v, const J &j, Errs &e)
    {
        if (!j.isNum()) {
            e.add(EKTypeMismatch, JTNumber, jtOf(j));
            return;
        }
        if (j.n == J::Int && std::is_signed_v<T> && j.i >= static_cast<std::int64_t>(std::numeric_limits<T>::min())) {
            v = static_cast<T>(j.i);
            return;
        }
        if (j.n == J::Uint && j.u <= static_cast<std::uint64_t>(std::numeric_limits<T>::max())) {
            v = static_cast<T>(j.u);
            return;
        }
        if (j.n == J::Dbl) {
            const auto t = std::trunc(static_cast<long double>(j.d)); // long double holds all 64-bit integers exactly
            if (t >= static_cast<long double>(std::numeric_limits<T>::min()) && t <= static_cast<long double>(std::numeric_limits<T>::max())) {
                v = static_cast<T>(t);
                return;
            }
        }
        e.add(EKConversion, JTNumber, JTNumber);
    }
    static J doc(mc::Ctx &c, int i)
    {
        J j;
        int which;
        const auto &l = numberLiterals();
        if (mismatch(c, j, static_cast<int>(l.size()), which)) {
            return j;
        }
        return which < 0 ? push(nth(i)) : J::lit(l[static_cast<std::size_t>(which)]);
    }
    static void enc(const T &v, Enc &e) { e.be(static_cast<std::uint64_t>(v), sizeof(T)); }
    static void dec(T &v, Dec &d) { v = static_cast<T>(d.be(sizeof(T))); }
};

template <> struct Ops<bool> {
    static constexpr int jt() { return JTBool; }
    static bool nth(int i) { return i % 2 == 0; }
    static bool gen(mc::Ctx &c, int i) { return nth(i) != c.flip(); }
    static bool eq(const bool &a, const bool &b)
    {
        unsigned char x, y; // avoid loading an invalid bool
        std::memcpy(&x, &a, 1);
        std::memcpy(&y, &b, 1);
        return x == y;
    }
    static J push(const bool &v) { return J::boolean(v); }
    static void pull(bool &v, const J &j, Errs &e)
    {
        if (!j.isBool()) {
            e.add(EKTypeMismatch, JTBool, jtOf(j));
            return;
        }
        v = j.t == J::True;
    }
    static J doc(mc::Ctx &c, int i)
    {
        J j;
        int which;
        if (mismatch(c, j, 0, which)) {
            return j;
        }
        return push(nth(i));
    }
    static void enc(const bool &v, Enc &e) { e.be(v, 1); }
    static void dec(bool &v, Dec &d) { v = d.boolean(); }
};

template <typename T> struct Ops<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static constexpr int jt() { return JTNumber; }
    static T nth(int i) { return static_cast<T>(0.5) + static_cast<T>(i); }
    static T gen(mc::Ctx &c, int i)
    {
        static const std::vector<T> a = [] {
            std::vector<T> r = { T(0), T(-0.0), T(1), T(-1), T(-2.25), T(1e10), T(123456.75), T(-1e-3f), T(16777217.0), T(1e20f) };
            if (sizeof(T) == 4) {
                for (float f : { 1e-30f, 3.4028234e38f, -3.4028234e38f, 1.17549435e-38f, 0.1f, 16777216.0f }) {
                    r.push_back(static_cast<T>(f));
                }
            } else {
                for (double f : { 9007199254740992.0, -4503599627370497.5, 1e22, 1e-22, 0.1, 1e300, 4294967296.5 }) {
                    r.push_back(static_cast<T>(f));
                }
            }
            return r;
        }();
        const auto n = c.choose(static_cast<std::uint32_t>(a.size() + 1));
        return n ? a[n - 1] : nth(i);
    }
    static bool eq(const T &a, const T &b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
    static J push(const T &v) { return J::dbl(static_cast<double>(v)); }
    static void pull(T &v, const J &j, Errs &e)
    {
        if (!j.isNum()) {
            e.add(EKTypeMismatch, JTNumber, jtOf(j));
            return;
        }
        const auto d = j.asDouble();
        if (sizeof(T) == 4 && std::isinf(static_cast<float>(d))) {
            e.add(EKConversion, JTNumber, JTNumber);
            return;
        }
        v = static_cast<T>(d);
    }
    static J doc(mc::Ctx &c, int i)
    {
        J j;
        int which;
        const auto &l = numberLiterals();
        if (mismatch(c, j, static_cast<int>(l.size()), which)) {
            return j;
        }
        return which < 0 ? push(nth(i)) : J::lit(l[static_cast<std::size_t>(which)]);
    }
    static void enc(const T &v, Enc &e)
    {
        if constexpr (sizeof(T) == 4) {
            std::uint32_t u;
            std::memcpy(&u, &v, 4);
            e.be(u, 4);
        } else {
            std::uint64_t u;
            std::memcpy(&u, &v, 8);
            e.be(u, 8);
        }
    }
    static void dec(T &v, Dec &d)
    {
        if constexpr (sizeof(T) == 4) {
            const auto u = static_cast<std::uint32_t>(d.be(4));
            std::memcpy(&v, &u, 4);
        } else {
            const auto u = d.be(8);
            std::memcpy(&v, &u, 8);
        }
    }
};

template <typename T> struct Ops<T, std::enable_if_t<std::is_enum_v<T>>> {
    using UT = std::underlying_type_t<T>;
    static constexpr int jt() { return JTNumber; }
    static T nth(int i) { return static_cast<T>(i % 2); }
    static T gen(mc::Ctx &c, int i)
    {
        const auto n = c.choose(5);
        switch (n) {
        case 0:
            return nth(i);
        case 1:
            return static_cast<T>(std::numeric_limits<UT>::max());
        case 2:
            return static_cast<T>(std::numeric_limits<UT>::min());
        case 3:
            return static_cast<T>(1 - i % 2);
        default:
            return static_cast<T>(42); // not an enum item
        }
    }
    static bool eq(const T &a, const T &b) { return a == b; }
    static J push(const T &v)
    {
        if constexpr (std::is_unsigned_v<UT>) {
            return J::uint(static_cast<std::uint64_t>(v));
        } else {
            return J::sint(static_cast<std::int64_t>(v));
        }
    }
    static void pull(T &v, const J &j, Errs &e)
    {
        if (j.isNum() && j.n != J::Dbl) {
            if (std::is_unsigned_v<UT> ? j.n == J::Uint : (j.n == J::Int || j.u <= 9223372036854775807ull)) {
                v = static_cast<T>(j.n == J::Int ? j.i : static_cast<std::int64_t>(j.u));
                return;
            }
        }
        e.add(EKTypeMismatch, JTNumber, jtOf(j));
    }
    static J doc(mc::Ctx &c, int i)
    {
        // stay within the range of the underlying type: whether other numbers fit is explicitly not checked
        static const std::vector<J> l = [] {
            std::vector<J> r = { J::uint(0), J::uint(1), J::lit("0.0"), J::lit("1.5"), J::lit("1e30"), J::lit("18446744073709551616") };
            if constexpr (std::is_unsigned_v<UT>) {
                r.push_back(J::uint(std::numeric_limits<UT>::max()));
                r.push_back(J::sint(-1));
                r.push_back(J::lit("-9223372036854775808"));
            } else {
                r.push_back(J::sint(std::numeric_limits<UT>::max()));
                r.push_back(J::sint(std::numeric_limits<UT>::min()));
                r.push_back(J::lit("9223372036854775808"));
            }
            return r;
        }();
        J j;
        int which;
        if (mismatch(c, j, static_cast<int>(l.size()), which)) {
            return j;
        }
        return which < 0 ? push(nth(i)) : l[static_cast<std::size_t>(which)];
    }
    static void enc(const T &v, Enc &e) { Ops<UT>::enc(static_cast<UT>(v), e); }
    static void dec(T &v, Dec &d)
    {
        UT u;
        Ops<UT>::dec(u, d);
        v = static_cast<T>(u);
    }
};

template <> struct Ops<std::string> {
    static constexpr int jt() { return JTString; }
    static std::string nth(int i) { return "s" + std::to_string(i); }
    static std::string gen(mc::Ctx &c, int i) { return genString(c, i); }
    static bool eq(const std::string &a, const std::string &b) { return a == b; }
    static J push(const std::string &v) { return J::str(v); }
    static void pull(std::string &v, const J &j, Errs &e)
    {
        if (j.t != J::Str) {
            e.add(EKTypeMismatch, JTString, jtOf(j));
            return;
        }
        v = j.s;
    }
    static J doc(mc::Ctx &c, int i)
    {
        J j;
        int which;
        const auto &a = stringAlphabet();
        if (mismatch(c, j, static_cast<int>(a.size()), which)) {
            return j;
        }
        return J::str(which < 0 ? nth(i) : a[static_cast<std::size_t>(which)]);
    }
    static void enc(const std::string &v, Enc &e)
    {
        e.varlen(v.size());
        e.out += v;
    }
    static void dec(std::string &v, Dec &d)
    {
        const auto n = d.length(false);
        if (static_cast<std::size_t>(d.e - d.p) < n) {
            d.p = d.e;
            throw DecFail{ false };
        }
        v.assign(reinterpret_cast<const char *>(d.p), n);
        d.p += n;
    }
};

// containers
template <typename T> struct Seq : std::false_type {};
template <typename E, typename A> struct Seq<std::vector<E, A>> : std::true_type {};
template <typename E, typename A> struct Seq<std::list<E, A>> : std::true_type {};
template <typename E, typename A> struct Seq<std::deque<E, A>> : std::true_type {};
template <typename T> struct SetK : std::integral_constant<int, 0> {}; // 1: unique, 2: multi, +2: unordered
template <typename E, typename C, typename A> struct SetK<std::set<E, C, A>> : std::integral_constant<int, 1> {};
template <typename E, typename C, typename A> struct SetK<std::multiset<E, C, A>> : std::integral_constant<int, 2> {};
template <typename E, typename H, typename Q, typename A> struct SetK<std::unordered_set<E, H, Q, A>> : std::integral_constant<int, 3> {};
template <typename E, typename H, typename Q, typename A> struct SetK<std::unordered_multiset<E, H, Q, A>> : std::integral_constant<int, 4> {};
template <typename T> struct MapK : std::integral_constant<int, 0> {};
template <typename K, typename V, typename C, typename A> struct MapK<std::map<K, V, C, A>> : std::integral_constant<int, 1> {};
template <typename K, typename V, typename C, typename A> struct MapK<std::multimap<K, V, C, A>> : std::integral_constant<int, 2> {};
template <typename K, typename V, typename H, typename Q, typename A>
struct MapK<std::unordered_map<K, V, H, Q, A>> : std::integral_constant<int, 3> {};
template <typename K, typename V, typename H, typename Q, typename A>
struct MapK<std::unordered_multimap<K, V, H, Q, A>> : std::integral_constant<int, 4> {};

inline std::size_t genSize(mc::Ctx &c)
{
    const auto &s = alphabet().sizes;
    const auto n = c.choose(static_cast<std::uint32_t>(genDepth() <= 1 ? s.size() : std::min<std::size_t>(s.size(), 4)));
    return s[n];
}

template <typename T> struct Ops<T, std::enable_if_t<Seq<T>::value>> {
    using E = typename T::value_type;
    static constexpr int jt() { return JTArray; }
    static T nth(int i)
    {
        T t;
        DepthGuard g;
        if (genDepth() > 4) {
            return t;
        }
        t.emplace_back(Ops<E>::nth(i));
        return t;
    }
    static T gen(mc::Ctx &c, int i)
    {
        T t;
        DepthGuard g;
        if (genDepth() > alphabet().maxDepth + 2) {
            return t;
        }
        const auto n = genSize(c);
        for (std::size_t k = 0; k != n; ++k) {
            if (k < 3) {
                t.emplace_back(Ops<E>::gen(c, i + static_cast<int>(k)));
            } else {
                t.emplace_back(Ops<E>::nth(i + static_cast<int>(k)));
            }
        }
        return t;
    }
    static bool eq(const T &a, const T &b)
    {
        if (a.size() != b.size()) {
            return false;
        }
        auto j = b.begin();
        for (auto i = a.begin(); i != a.end(); ++i, ++j) {
            if (!Ops<E>::eq(*i, *j)) {
                return false;
            }
        }
        return true;
    }
    static J push(const T &v)
    {
        auto j = J::arr();
        for (const auto &x : v) {
            j.a.push_back(Ops<E>::push(x));
        }
        return j;
    }
    static void pull(T &v, const J &j, Errs &e)
    {
        if (j.t != J::Arr) {
            e.add(EKTypeMismatch, JTArray, jtOf(j));
            return;
        }
        v.clear();
        const auto prev = e.index;
        for (std::size_t k = 0; k != j.a.size(); ++k) {
            e.index = k;
            v.emplace_back();
            Ops<E>::pull(v.back(), j.a[k], e);
        }
        e.index = prev;
    }
    static J doc(mc::Ctx &c, int i)
    {
        J j;
        int which;
        DepthGuard g;
        if (genDepth() > 5) {
            return J::arr();
        }
        if (mismatch(c, j, 3, which)) {
            return j;
        }
        const std::size_t n = which < 0 ? 1 : which == 0 ? 0 : static_cast<std::size_t>(which) + 1;
        j = J::arr();
        for (std::size_t k = 0; k != n; ++k) {
            j.a.push_back(Ops<E>::doc(c, i + static_cast<int>(k)));
        }
        return j;
    }
    static void enc(const T &v, Enc &e)
    {
        e.varlen(v.size());
        for (const auto &x : v) {
            Ops<E>::enc(x, e);
        }
    }
    static void dec(T &v, Dec &d)
    {
        const auto n = d.length();
        v.clear();
        for (std::size_t k = 0; k != n; ++k) {
            v.emplace_back();
            Ops<E>::dec(v.back(), d);
        }
    }
};

template <typename T> struct Ops<T, std::enable_if_t<(SetK<T>::value > 0)>> {
    using E = typename T::value_type;
    static constexpr bool multi = SetK<T>::value % 2 == 0;
    static constexpr int jt() { return JTArray; }
    static T nth(int i)
    {
        T t;
        t.emplace(Ops<E>::nth(i));
        return t;
    }
    static T gen(mc::Ctx &c, int i)
    {
        T t;
        DepthGuard g;
        const auto n = genSize(c);
        for (std::size_t k = 0; k != n; ++k) {
            if (k < 3) {
                t.emplace(Ops<E>::gen(c, i + static_cast<int>(k)));
            } else {
                t.emplace(Ops<E>::nth(i + static_cast<int>(k)));
            }
        }
        return t;
    }
    static bool eq(const T &a, const T &b)
    {
        if (a.size() != b.size()) {
            return false;
        }
        if constexpr (SetK<T>::value >= 3) {
            for (const auto &x : a) {
                if (a.count(x) != b.count(x)) {
                    return false;
                }
            }
            return true;
        } else {
            auto j = b.begin();
            for (auto i = a.begin(); i != a.end(); ++i, ++j) {
                if (!Ops<E>::eq(*i, *j)) {
                    return false;
                }
            }
            return true;
        }
    }
    static J push(const T &v)
    {
        auto j = J::arr();
        for (const auto &x : v) {
            j.a.push_back(Ops<E>::push(x));
        }
        return j;
    }
    static void pull(T &v, const J &j, Errs &e)
    {
        if (j.t != J::Arr) {
            e.add(EKTypeMismatch, JTArray, jtOf(j));
            return;
        }
        v.clear();
        const auto prev = e.index;
        for (std::size_t k = 0; k != j.a.size(); ++k) {
            e.index = k;
            auto x = E();
            Ops<E>::pull(x, j.a[k], e);
            const auto before = v.size();
            v.emplace(std::move(x));
            if (!multi && v.size() == before) {
                e.add(EKDuplicate, JTArray, JTArray);
            }
        }
        e.index = prev;
    }
    static J doc(mc::Ctx &c, int i)
    {
        J j;
        int which;
        DepthGuard g;
        if (mismatch(c, j, 4, which)) {
            return j;
        }
        const std::size_t n = which < 0 ? 1 : which == 0 ? 0 : which == 3 ? 2 : static_cast<std::size_t>(which) + 1;
        j = J::arr();
        for (std::size_t k = 0; k != n; ++k) {
            j.a.push_back(Ops<E>::doc(c, i + (which == 3 ? 0 : static_cast<int>(k))));
        }
        return j;
    }
    static void enc(const T &v, Enc &e)
    {
        e.varlen(v.size());
        for (const auto &x : v) {
            Ops<E>::enc(x, e);
        }
    }
    static void dec(T &v, Dec &d)
    {
        const auto n = d.length();
        v.clear();
        for (std::size_t k = 0; k != n; ++k) {
            auto x = E();
            Ops<E>::dec(x, d);
            v.emplace(std::move(x));
        }
    }
};

template <typename T> struct Ops<T, std::enable_if_t<(MapK<T>::value > 0)>> {
    using K = typename T::key_type;
    using V = typename T::mapped_type;
    static constexpr bool multi = MapK<T>::value % 2 == 0;
    static constexpr int jt() { return JTObject; }
    static K key(mc::Ctx *c, int i)
    {
        if constexpr (std::is_same_v<K, std::string>) {
            return c ? genKey(*c, i) : "k" + std::to_string(i);
        } else {
            return c ? Ops<K>::gen(*c, i) : Ops<K>::nth(i);
        }
    }
    static T nth(int i)
    {
        T t;
        t.emplace(key(nullptr, i), Ops<V>::nth(i));
        return t;
    }
    static T gen(mc::Ctx &c, int i)
    {
        T t;
        DepthGuard g;
        std::size_t n = 0;
        if constexpr (std::is_same_v<K, std::string>) {
            // whole sets of keys which are special in relation to each other
            static const std::vector<std::vector<std::string>> sets = {
                { std::string("k\0x", 3), "k" }, { std::string("k\0", 2), std::string("k\0", 2) }, { "k", std::string("k\0x", 3), std::string("k\0y", 3) },
                { "", std::string(1, '\0'), "" }, { "a", "b", "a" }, { "a", "a", "a" }, { "key", "ke", "key2" }, { "b", "B", "a" },
            };
            const auto &sizes = alphabet().sizes;
            const auto count = genDepth() <= 1 ? sizes.size() : std::min<std::size_t>(sizes.size(), 4);
            const auto choice = c.choose(static_cast<std::uint32_t>(count + sets.size()));
            if (choice >= count) {
                for (std::size_t k = 0; k != sets[choice - count].size(); ++k) {
                    t.emplace(sets[choice - count][k], Ops<V>::nth(i + static_cast<int>(k)));
                }
                return t;
            }
            n = sizes[choice];
        } else {
            n = genSize(c);
        }
        for (std::size_t k = 0; k != n; ++k) {
            const auto x = i + static_cast<int>(k);
            if (k < 3) {
                auto kk = key(&c, x);
                t.emplace(std::move(kk), Ops<V>::gen(c, x));
            } else {
                t.emplace(key(nullptr, x), Ops<V>::nth(x));
            }
        }
        return t;
    }
    static bool eq(const T &a, const T &b)
    {
        if (a.size() != b.size()) {
            return false;
        }
        if constexpr (MapK<T>::value >= 3) {
            for (const auto &x : a) {
                const auto ra = a.equal_range(x.first), rb = b.equal_range(x.first);
                std::vector<const V *> rest;
                for (auto i = rb.first; i != rb.second; ++i) {
                    rest.push_back(&i->second);
                }
                for (auto i = ra.first; i != ra.second; ++i) {
                    std::size_t k = 0;
                    while (k < rest.size() && !Ops<V>::eq(i->second, *rest[k])) {
                        ++k;
                    }
                    if (k == rest.size()) {
                        return false;
                    }
                    rest.erase(rest.begin() + static_cast<std::ptrdiff_t>(k));
                }
                if (!rest.empty()) {
                    return false;
                }
            }
            return true;
        } else {
            auto j = b.begin();
            for (auto i = a.begin(); i != a.end(); ++i, ++j) {
                if (!Ops<K>::eq(i->first, j->first) || !Ops<V>::eq(i->second, j->second)) {
                    return false;
                }
            }
            return true;
        }
    }
    static J push(const T &v)
    {
        auto j = J::obj();
        if constexpr (std::is_same_v<K, std::string>) {
            for (const auto &x : v) {
                if (!multi) {
                    j.o.emplace_back(x.first, Ops<V>::push(x.second));
                    continue;
                }
                J *existing = nullptr;
                for (auto &m : j.o) {
                    if (m.first == x.first) {
                        existing = &m.second;
                    }
                }
                if (!existing) {
                    j.o.emplace_back(x.first, J::arr());
                    existing = &j.o.back().second;
                }
                existing->a.push_back(Ops<V>::push(x.second));
            }
        }
        return j;
    }
    static void pull(T &v, const J &j, Errs &e)
    {
        if constexpr (std::is_same_v<K, std::string>) {
            if (j.t != J::Obj) {
                e.add(EKTypeMismatch, JTObject, jtOf(j));
                return;
            }
            v.clear();
            for (const auto &m : j.o) {
                if constexpr (!multi) {
                    Ops<V>::pull(v[m.first], m.second, e);
                } else if (m.second.t != J::Arr) {
                    Ops<V>::pull(v.emplace(m.first, V())->second, m.second, e);
                } else {
                    for (const auto &x : m.second.a) {
                        Ops<V>::pull(v.emplace(m.first, V())->second, x, e);
                    }
                }
            }
        }
    }
    static J doc(mc::Ctx &c, int i)
    {
        J j;
        int which;
        DepthGuard g;
        if (mismatch(c, j, multi ? 5 : 4, which)) {
            return j;
        }
        static const std::vector<std::string> dup = { "k", "k" }, two = { "x", "y" }, one = { "k" }, none = {},
                                              odd = { std::string("k\0z", 3), "" };
        const auto &keys = which < 0 || which == 4 ? one : which == 0 ? none : which == 1 ? two : which == 2 ? dup : odd;
        j = J::obj();
        for (std::size_t k = 0; k != keys.size(); ++k) {
            const auto x = i + static_cast<int>(k);
            if (multi && which != 4) {
                auto a = J::arr({ Ops<V>::doc(c, x) });
                if (which == 1) {
                    a.a.push_back(Ops<V>::doc(c, x + 1));
                }
                j.o.emplace_back(keys[k], std::move(a));
            } else {
                j.o.emplace_back(keys[k], Ops<V>::doc(c, x));
            }
        }
        return j;
    }
    static void enc(const T &v, Enc &e)
    {
        e.varlen(v.size());
        for (const auto &x : v) {
            Ops<K>::enc(x.first, e);
            Ops<V>::enc(x.second, e);
        }
    }
    static void dec(T &v, Dec &d)
    {
        const auto n = d.length();
        v.clear();
        for (std::size_t k = 0; k != n; ++k) {
            auto x = K();
            auto y = V();
            Ops<K>::dec(x, d);
            Ops<V>::dec(y, d);
            v.emplace(std::move(x), std::move(y));
        }
    }
};

// tuples
template <typename T> struct Tup : std::false_type {};
template <typename... A> struct Tup<std::tuple<A...>> : std::true_type {};
template <typename A, typename B> struct Tup<std::pair<A, B>> : std::true_type {};

template <typename T> struct Ops<T, std::enable_if_t<Tup<T>::value>> {
    static constexpr std::size_t N = std::tuple_size_v<T>;
    using Idx = std::make_index_sequence<N>;
    template <std::size_t I> using E = std::tuple_element_t<I, T>;
    static constexpr int jt() { return JTArray; }
    template <std::size_t... I> static T nthI(int i, std::index_sequence<I...>) { return T{ Ops<E<I>>::nth(i + static_cast<int>(I))... }; }
    static T nth(int i) { return nthI(i, Idx()); }
    template <std::size_t... I> static T genI(mc::Ctx &c, int i, std::index_sequence<I...>) { return T{ Ops<E<I>>::gen(c, i + static_cast<int>(I))... }; }
    static T gen(mc::Ctx &c, int i)
    {
        DepthGuard g;
        return genI(c, i, Idx());
    }
    template <std::size_t... I> static bool eqI(const T &a, const T &b, std::index_sequence<I...>)
    {
        return (Ops<E<I>>::eq(std::get<I>(a), std::get<I>(b)) && ...);
    }
    static bool eq(const T &a, const T &b) { return eqI(a, b, Idx()); }
    template <std::size_t... I> static J pushI(const T &v, std::index_sequence<I...>) { return J::arr({ Ops<E<I>>::push(std::get<I>(v))... }); }
    static J push(const T &v) { return pushI(v, Idx()); }
    template <std::size_t... I> static void pullI(T &v, const J &j, Errs &e, std::index_sequence<I...>)
    {
        (Ops<E<I>>::pull(std::get<I>(v), j.a[I], e), ...);
    }
    static void pull(T &v, const J &j, Errs &e)
    {
        if (j.t != J::Arr) {
            e.add(EKTypeMismatch, JTArray, jtOf(j));
        } else if (j.a.size() != N) {
            e.add(EKArraySize, JTArray, JTArray);
        } else {
            pullI(v, j, e, Idx());
        }
    }
    template <std::size_t... I> static J docI(mc::Ctx &c, int i, std::index_sequence<I...>)
    {
        J j = J::arr();
        (j.a.push_back(Ops<E<I>>::doc(c, i + static_cast<int>(I))), ...);
        return j;
    }
    static J doc(mc::Ctx &c, int i)
    {
        J j;
        int which;
        DepthGuard g;
        if (mismatch(c, j, 3, which)) {
            return j;
        }
        if (which == 0) {
            return J::arr();
        }
        j = docI(c, i, Idx());
        if (which == 1) {
            j.a.pop_back();
        } else if (which == 2) {
            j.a.push_back(J::uint(1));
        }
        return j;
    }
    template <std::size_t... I> static void encI(const T &v, Enc &e, std::index_sequence<I...>) { (Ops<E<I>>::enc(std::get<I>(v), e), ...); }
    static void enc(const T &v, Enc &e) { encI(v, e, Idx()); }
    template <std::size_t... I> static void decI(T &v, Dec &d, std::index_sequence<I...>) { (Ops<E<I>>::dec(std::get<I>(v), d), ...); }
    static void dec(T &v, Dec &d) { decI(v, d, Idx()); }
};

// pointers/optionals
template <typename T> struct PtrK : std::integral_constant<int, 0> {
    using E = void;
};
template <typename P, typename D> struct PtrK<std::unique_ptr<P, D>> : std::integral_constant<int, 1> {
    using E = P;
    static auto make(P &&p) { return std::make_unique<P>(std::move(p)); }
};
template <typename P> struct PtrK<std::shared_ptr<P>> : std::integral_constant<int, 2> {
    using E = P;
    static auto make(P &&p) { return std::make_shared<P>(std::move(p)); }
};
template <typename P> struct PtrK<std::optional<P>> : std::integral_constant<int, 3> {
    using E = P;
    static auto make(P &&p) { return std::optional<P>(std::move(p)); }
};

template <typename T> inline const char *typeTag()
{
    static const char tag = 0;
    return &tag;
}

template <typename T> struct Ops<T, std::enable_if_t<(PtrK<T>::value > 0)>> {
    using E = typename PtrK<T>::E;
    static constexpr int jt() { return Ops<E>::jt(); }
    static T nth(int i)
    {
        DepthGuard g;
        return genDepth() > 3 ? T() : PtrK<T>::make(Ops<E>::nth(i));
    }
    static T gen(mc::Ctx &c, int i)
    {
        DepthGuard g;
        if (genDepth() > alphabet().maxDepth + 2 || c.flip()) {
            return T();
        }
        return PtrK<T>::make(Ops<E>::gen(c, i));
    }
    static bool eq(const T &a, const T &b) { return static_cast<bool>(a) == static_cast<bool>(b) && (!a || Ops<E>::eq(*a, *b)); }
    static J push(const T &v) { return v ? Ops<E>::push(*v) : J::null(); }
    static void pull(T &v, const J &j, Errs &e)
    {
        if (j.t == J::Null) {
            v.reset();
            return;
        }
        v = PtrK<T>::make(E());
        Ops<E>::pull(*v, j, e);
    }
    static J doc(mc::Ctx &c, int i)
    {
        DepthGuard g;
        if (genDepth() > 4) {
            return J::null();
        }
        return Ops<E>::doc(c, i); // null is one of the alternatives offered there
    }
    static void enc(const T &v, Enc &e)
    {
        if constexpr (PtrK<T>::value != 2) {
            e.be(v ? 1 : 0, 1);
            if (v) {
                Ops<E>::enc(*v, e);
            }
        } else {
            if (!v) {
                e.be(0, 1);
                return;
            }
            const auto known = e.pointer(v.get());
            if (!known) {
                Ops<E>::enc(*v, e);
            }
        }
    }
    static void dec(T &v, Dec &d)
    {
        if constexpr (PtrK<T>::value != 2) {
            if (!d.boolean()) {
                v.reset();
                return;
            }
            v = PtrK<T>::make(E());
            Ops<E>::dec(*v, d);
        } else {
            const auto mode = d.be(1);
            if (!mode) {
                v.reset();
                return;
            }
            if (mode != 1 && mode != 2 && mode != 5 && mode != 6) {
                d.unspecified = true;
            }
            const auto id = mode & 4 ? d.be(8) : d.varlen();
            if ((mode & 3) == 1) {
                if (d.ptrs.count(id)) {
                    d.unspecified = true;
                }
                v = std::make_shared<E>();
                d.ptrs[id] = { typeTag<E>(), v };
                Ops<E>::dec(*v, d);
            } else {
                const auto i = d.ptrs.find(id);
                if (i == d.ptrs.end() || i->second.first != typeTag<E>()) {
                    throw DecFail{ true };
                }
                v = std::static_pointer_cast<E>(i->second.second);
            }
        }
    }
};

// variants
template <> struct Ops<std::monostate> {
    static constexpr int jt() { return JTNull; }
    static std::monostate nth(int) { return {}; }
    static std::monostate gen(mc::Ctx &, int) { return {}; }
    static bool eq(const std::monostate &, const std::monostate &) { return true; }
    static J push(const std::monostate &) { return J::null(); }
    static void pull(std::monostate &, const J &, Errs &) {}
    static J doc(mc::Ctx &c, int)
    {
        J j;
        int which;
        return mismatch(c, j, 0, which) ? j : J::null();
    }
    static void enc(const std::monostate &, Enc &) {}
    static void dec(std::monostate &, Dec &) {}
};
template <typename T> struct Var : std::false_type {};
template <typename... A> struct Var<std::variant<A...>> : std::true_type {};

template <typename T> struct Ops<T, std::enable_if_t<Var<T>::value>> {
    static constexpr std::size_t N = std::variant_size_v<T>;
    template <std::size_t I> using E = std::variant_alternative_t<I, T>;
    static constexpr int jt() { return JTObject; }
    template <typename F, std::size_t I = 0> static void at(std::size_t index, F &&f)
    {
        if constexpr (I < N) {
            if (index == I) {
                f(std::integral_constant<std::size_t, I>());
            } else {
                at<F, I + 1>(index, std::forward<F>(f));
            }
        }
    }
    static T make(std::size_t index, mc::Ctx *c, int i)
    {
        T t;
        at(index, [&](auto k) {
            using X = E<decltype(k)::value>;
            t.template emplace<decltype(k)::value>(c ? Ops<X>::gen(*c, i) : Ops<X>::nth(i));
        });
        return t;
    }
    static T nth(int i) { return make(static_cast<std::size_t>(i) % N, nullptr, i); }
    static T gen(mc::Ctx &c, int i)
    {
        DepthGuard g;
        return make((static_cast<std::size_t>(i) + c.choose(N)) % N, &c, i);
    }
    static bool eq(const T &a, const T &b)
    {
        if (a.index() != b.index()) {
            return false;
        }
        bool r = true;
        at(a.index(), [&](auto k) { r = Ops<E<decltype(k)::value>>::eq(std::get<decltype(k)::value>(a), std::get<decltype(k)::value>(b)); });
        return r;
    }
    static J push(const T &v)
    {
        J data;
        at(v.index(), [&](auto k) { data = Ops<E<decltype(k)::value>>::push(std::get<decltype(k)::value>(v)); });
        return J::obj({ { "index", J::uint(v.index()) }, { "data", data } });
    }
    static void pull(T &v, const J &j, Errs &e)
    {
        if (j.t != J::Obj) {
            e.add(EKTypeMismatch, JTObject, jtOf(j));
            return;
        }
        const auto *const index = j.find("index"), *const data = j.find("data");
        if (!index || !data) {
            e.add(EKVariantObject, JTObject, JTObject);
            return;
        }
        if (!index->isNum() || index->n != J::Uint) {
            e.add(EKVariantIndex, JTNumber, jtOf(*index));
            return;
        }
        if (index->u >= N) {
            e.add(EKVariantIndex, JTNumber, JTNumber);
            return;
        }
        at(index->u, [&](auto k) { Ops<E<decltype(k)::value>>::pull(v.template emplace<decltype(k)::value>(), *data, e); });
    }
    static J doc(mc::Ctx &c, int i)
    {
        J j;
        int which;
        DepthGuard g;
        static const std::vector<J> badIndex = { J::uint(N), J::sint(-1), J::lit("0.0"), J::lit("1.5"), J::str("0"), J::null(), J::uint(255), J::uint(256),
            J::lit("4294967296"), J::lit("18446744073709551615"), J::arr({ J::uint(0) }), J::boolean(true), J::obj() };
        const int structural = 5, all = structural + static_cast<int>(badIndex.size()) + static_cast<int>(N);
        if (mismatch(c, j, all, which)) {
            return j;
        }
        std::size_t index = static_cast<std::size_t>(i) % N;
        if (which >= structural + static_cast<int>(badIndex.size())) {
            index = static_cast<std::size_t>(which - structural) - badIndex.size();
        }
        J data;
        at(index, [&](auto k) { data = Ops<E<decltype(k)::value>>::doc(c, i); });
        const auto idx = J::uint(index);
        switch (which) {
        case 0:
            return J::obj({ { "data", data }, { "index", idx } });
        case 1:
            return J::obj({ { "index", idx } });
        case 2:
            return J::obj({ { "data", data } });
        case 3:
            return J::obj({ { "x", J::null() }, { "index", idx }, { "y", J::arr() }, { "data", data }, { "index", J::uint(0) } });
        case 4:
            return J::obj({ { "Index", idx }, { "data", data } });
        default:
            if (which >= structural && which < structural + static_cast<int>(badIndex.size())) {
                return J::obj({ { "index", badIndex[static_cast<std::size_t>(which - structural)] }, { "data", data } });
            }
            return J::obj({ { "index", idx }, { "data", data } });
        }
    }
    static void enc(const T &v, Enc &e)
    {
        e.be(v.index(), 1);
        at(v.index(), [&](auto k) { Ops<E<decltype(k)::value>>::enc(std::get<decltype(k)::value>(v), e); });
    }
    static void dec(T &v, Dec &d)
    {
        const auto index = d.be(1);
        if (index >= N) {
            throw DecFail{ true };
        }
        at(index, [&](auto k) { Ops<E<decltype(k)::value>>::dec(v.template emplace<decltype(k)::value>(), d); });
    }
};

// classes
template <typename T> struct Ops<T, std::enable_if_t<(sizeof(Meta<T>) > 0)>> {
    template <typename F> using Raw = std::remove_cv_t<std::remove_reference_t<F>>;
    static constexpr int jt() { return JTObject; }
    static T nth(int i)
    {
        T t;
        fill(t, nullptr, i);
        return t;
    }
    static void fill(T &t, mc::Ctx *c, int i)
    {
        DepthGuard g;
        Meta<T>::bases(t, [&](auto &b) { Ops<Raw<decltype(b)>>::fill(b, c, i); });
        int k = i;
        Meta<T>::fields(t, [&](const char *, auto &f) {
            using F = Raw<decltype(f)>;
            f = c ? Ops<F>::gen(*c, k) : Ops<F>::nth(k);
            ++k;
        });
    }
    static T gen(mc::Ctx &c, int i)
    {
        T t;
        if (genDepth() > alphabet().maxDepth + 1) {
            return t;
        }
        fill(t, &c, i);
        return t;
    }
    static bool eq(const T &a, const T &b)
    {
        bool r = true;
        Meta<T>::bases(a, [&](const auto &x) { r = r && Ops<Raw<decltype(x)>>::eq(x, static_cast<const Raw<decltype(x)> &>(b)); });
        std::vector<const void *> other;
        Meta<T>::fields(b, [&](const char *, const auto &f) { other.push_back(&f); });
        std::size_t k = 0;
        Meta<T>::fields(a, [&](const char *, const auto &f) {
            using F = Raw<decltype(f)>;
            r = r && Ops<F>::eq(f, *static_cast<const F *>(other[k]));
            ++k;
        });
        return r;
    }
    static J push(const T &v)
    {
        auto j = J::obj();
        Meta<T>::bases(v, [&](const auto &b) {
            auto x = Ops<Raw<decltype(b)>>::push(b);
            j.o.insert(j.o.end(), x.o.begin(), x.o.end());
        });
        Meta<T>::fields(v, [&](const char *name, const auto &f) { j.o.emplace_back(name, Ops<Raw<decltype(f)>>::push(f)); });
        return j;
    }
    static void pull(T &v, const J &j, Errs &e)
    {
        if (j.t != J::Obj) {
            e.add(EKTypeMismatch, JTObject, jtOf(j));
            return;
        }
        pullMembers(v, j, e);
    }
    static void pullMembers(T &v, const J &j, Errs &e)
    {
        Meta<T>::bases(v, [&](auto &b) { Ops<Raw<decltype(b)>>::pullMembers(b, j, e); });
        const auto prevRecord = e.record;
        if (e.generated) {
            e.record = Meta<T>::name();
        }
        Meta<T>::fields(v, [&](const char *name, auto &f) {
            const auto *const m = j.find(name);
            if (!m) {
                return;
            }
            const auto prevMember = e.member;
            const auto prevHas = e.hasMember;
            e.member = name;
            e.hasMember = true;
            Ops<Raw<decltype(f)>>::pull(f, *m, e);
            e.member = prevMember;
            e.hasMember = prevHas;
        });
        e.record = prevRecord;
    }
    static J doc(mc::Ctx &c, int i)
    {
        J j;
        int which;
        DepthGuard g;
        if (genDepth() > 5) {
            return J::obj();
        }
        if (mismatch(c, j, 3, which)) {
            return j;
        }
        j = members(c, i);
        if (which == 0) {
            std::reverse(j.o.begin(), j.o.end());
        } else if (which == 1) {
            j.o.erase(j.o.begin());
            j.o.insert(j.o.begin(), { "additional", J::arr({ J::null() }) });
        } else if (which == 2) {
            j.o.push_back({ j.o.front().first, J::null() }); // duplicate; the first one counts
        }
        return j;
    }
    static J members(mc::Ctx &c, int i)
    {
        J j = J::obj();
        static const T t;
        Meta<T>::bases(t, [&](const auto &b) {
            auto x = Ops<Raw<decltype(b)>>::members(c, i);
            j.o.insert(j.o.end(), x.o.begin(), x.o.end());
        });
        int k = i;
        Meta<T>::fields(t, [&](const char *name, const auto &f) { j.o.emplace_back(name, Ops<Raw<decltype(f)>>::doc(c, k++)); });
        return j;
    }
    static void enc(const T &v, Enc &e)
    {
        Meta<T>::bases(v, [&](const auto &b) { Ops<Raw<decltype(b)>>::enc(b, e); });
        Meta<T>::fields(v, [&](const char *, const auto &f) { Ops<Raw<decltype(f)>>::enc(f, e); });
    }
    static void dec(T &v, Dec &d)
    {
        Meta<T>::bases(v, [&](auto &b) { Ops<Raw<decltype(b)>>::dec(b, d); });
        Meta<T>::fields(v, [&](const char *, auto &f) { Ops<Raw<decltype(f)>>::dec(f, d); });
    }
};

#endif
