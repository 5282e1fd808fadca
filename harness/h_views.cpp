// C03 for types which only refer to text owned by somebody else (string views and C-strings) and for further types which can
// only be serialised: the document must own copies of everything.
#include "meta.h"
#include "lib_json.h"

#include <reflective_rapidjson/json/reflector-boosthana.h>

#include <array>
#include <forward_list>

#ifndef BOUND
#define BOUND 2
#endif

// text on the heap (not terminated when used via view), scrambled and freed by release()
struct Backing {
    std::vector<std::unique_ptr<char[]>> blocks;
    std::vector<std::size_t> sizes;
    const char *add(const std::string &s, bool terminated)
    {
        const auto n = s.size() + (terminated ? 1 : 0);
        auto block = std::make_unique<char[]>(n);
        std::memcpy(block.get(), s.data(), n);
        blocks.emplace_back(std::move(block));
        sizes.push_back(n);
        return blocks.back().get();
    }
    void modify()
    {
        for (std::size_t i = 0; i != blocks.size(); ++i) {
            std::memset(blocks[i].get(), '!', sizes[i]);
        }
    }
    void release()
    {
        modify();
        blocks.clear();
    }
};
static Backing *backing = nullptr;

static const std::vector<std::string> &texts()
{
    static const std::vector<std::string> t = { "", "x", "13 characters", std::string(14, 'e'), std::string(200, 'l'), "\"\n\xe2\x82\xac" };
    return t;
}
// Src<T> generates a value referring to the backing store together with the expected JSON
template <typename T> struct Src {
    static T gen(mc::Ctx &c, int i, J &j)
    {
        T v = Ops<T>::gen(c, i);
        j = Ops<T>::push(v);
        return v;
    }
};
template <> struct Src<std::string_view> {
    static std::string_view gen(mc::Ctx &c, int i, J &j)
    {
        const auto n = c.choose(3 + static_cast<std::uint32_t>(texts().size()));
        if (n == 1) {
            j = J::null();
            return std::string_view();
        }
        const auto s = n == 0 ? "view" + std::to_string(i) : n == 2 ? std::string("nul\0inside", 10) : texts()[n - 3];
        j = J::str(s);
        return std::string_view(backing->add(s, false), s.size());
    }
};
template <> struct Src<const char *> {
    static const char *gen(mc::Ctx &c, int i, J &j)
    {
        const auto n = c.choose(2 + static_cast<std::uint32_t>(texts().size()));
        if (n == 1) {
            j = J::null();
            return nullptr;
        }
        const auto s = n == 0 ? "cstring" + std::to_string(i) : texts()[n - 2];
        j = J::str(s);
        return backing->add(s, true);
    }
};
template <typename L, typename T> L genList(mc::Ctx &c, int i, J &j)
{
    L l;
    j = J::arr();
    for (unsigned k = 0, n = c.pick({ 2u, 0u, 1u, 3u }); k != n; ++k) {
        J x;
        l.insert(l.end(), Src<T>::gen(c, i + static_cast<int>(k), x));
        j.a.push_back(x);
    }
    return l;
}
template <typename T> struct Src<std::vector<T>> {
    static auto gen(mc::Ctx &c, int i, J &j) { return genList<std::vector<T>, T>(c, i, j); }
};
template <typename T> struct Src<std::list<T>> {
    static auto gen(mc::Ctx &c, int i, J &j) { return genList<std::list<T>, T>(c, i, j); }
};
template <typename T> struct Src<std::forward_list<T>> {
    static auto gen(mc::Ctx &c, int i, J &j)
    {
        std::forward_list<T> l;
        j = J::arr();
        for (unsigned k = 0, n = c.pick({ 2u, 0u, 1u }); k != n; ++k) {
            J x;
            l.push_front(Src<T>::gen(c, i + static_cast<int>(k), x));
            j.a.insert(j.a.begin(), x);
        }
        return l;
    }
};
template <typename T> struct Src<std::array<T, 2>> {
    static std::array<T, 2> gen(mc::Ctx &c, int i, J &j)
    {
        J x, y;
        std::array<T, 2> a{ { Src<T>::gen(c, i, x), Src<T>::gen(c, i + 1, y) } };
        j = J::arr({ x, y });
        return a;
    }
};
template <typename T> struct Src<std::optional<T>> {
    static std::optional<T> gen(mc::Ctx &c, int i, J &j)
    {
        if (c.flip()) {
            j = J::null();
            return {};
        }
        return Src<T>::gen(c, i, j);
    }
};
template <typename T> struct Src<std::unique_ptr<T>> {
    static std::unique_ptr<T> gen(mc::Ctx &c, int i, J &j)
    {
        if (c.flip()) {
            j = J::null();
            return {};
        }
        return std::make_unique<T>(Src<T>::gen(c, i, j));
    }
};
template <typename A, typename B> struct Src<std::pair<A, B>> {
    static std::pair<A, B> gen(mc::Ctx &c, int i, J &j)
    {
        J x, y;
        auto a = Src<A>::gen(c, i, x);
        auto b = Src<B>::gen(c, i + 1, y);
        j = J::arr({ x, y });
        return { a, b };
    }
};
template <typename A, typename B> struct Src<std::tuple<A, B>> {
    static std::tuple<A, B> gen(mc::Ctx &c, int i, J &j)
    {
        J x, y;
        auto a = Src<A>::gen(c, i, x);
        auto b = Src<B>::gen(c, i + 1, y);
        j = J::arr({ x, y });
        return { a, b };
    }
};
template <typename A, typename B> struct Src<std::variant<A, B>> {
    static std::variant<A, B> gen(mc::Ctx &c, int i, J &j)
    {
        J x;
        std::variant<A, B> v;
        const auto index = c.choose(2);
        if (index) {
            v.template emplace<1>(Src<B>::gen(c, i, x));
        } else {
            v.template emplace<0>(Src<A>::gen(c, i, x));
        }
        j = J::obj({ { "index", J::uint(index) }, { "data", x } });
        return v;
    }
};
// keys are strings, views or C-strings
template <typename K> K key(const std::string &s)
{
    if constexpr (std::is_same_v<K, std::string>) {
        return s;
    } else {
        return K(backing->add(s, false), s.size());
    }
}
template <typename M> M genMap(mc::Ctx &c, int i, J &j, bool multi)
{
    M m;
    j = J::obj();
    static const std::vector<std::string> keys = { "key", "", "a longer key which is not stored inline" };
    for (unsigned k = 0, n = c.pick({ 2u, 0u, 1u, 3u }); k != n; ++k) {
        const auto &name = keys[(k + c.choose(3)) % 3];
        J x;
        auto value = Src<typename M::mapped_type>::gen(c, i + static_cast<int>(k), x);
        auto pos = j.o.begin();
        while (pos != j.o.end() && pos->first != name) {
            ++pos;
        }
        if (pos != j.o.end() && !multi) {
            continue;
        }
        m.emplace(key<typename M::key_type>(name), value);
        if (pos == j.o.end()) {
            j.o.emplace_back(name, multi ? J::arr({ x }) : x);
        } else {
            pos->second.a.push_back(x);
        }
    }
    std::sort(j.o.begin(), j.o.end(), [](const auto &a, const auto &b) { return a.first < b.first; });
    return m;
}
template <typename K, typename T> struct Src<std::map<K, T>> {
    static auto gen(mc::Ctx &c, int i, J &j) { return genMap<std::map<K, T>>(c, i, j, false); }
};
template <typename K, typename T> struct Src<std::multimap<K, T>> {
    static auto gen(mc::Ctx &c, int i, J &j) { return genMap<std::multimap<K, T>>(c, i, j, true); }
};

// class with such members using Boost.Hana
struct Views : RJ::JsonSerializable<Views> {
    BOOST_HANA_DEFINE_STRUCT(Views, (std::string_view, view), (const char *, cstr), (std::vector<std::string_view>, views), (std::string, own));
};
template <> struct Src<Views> {
    static Views gen(mc::Ctx &c, int i, J &j)
    {
        Views v;
        J a, b, d, e;
        v.view = Src<std::string_view>::gen(c, i, a);
        v.cstr = Src<const char *>::gen(c, i + 1, b);
        v.views = Src<std::vector<std::string_view>>::gen(c, i + 2, d);
        v.own = Src<std::string>::gen(c, i + 3, e);
        j = J::obj({ { "view", a }, { "cstr", b }, { "views", d }, { "own", e } });
        return v;
    }
};

template <typename T> void check(mc::Ctx &c)
{
    Backing b;
    backing = &b;
    J expected;
    const auto order = c.free(5);
    auto source = std::make_unique<T>(Src<T>::gen(c, 0, expected));
    c.describe("order " + std::to_string(order) + ": " + jtext(expected));
    c.state(c.desc);
    rapidjson::Document doc(rapidjson::kObjectType);
    if (order == 4) {
        if constexpr (std::is_class_v<T> && std::is_base_of_v<RJ::JsonSerializable<T>, T>) {
            doc = source->toJsonDocument();
            source.reset();
            b.release();
            c.check(jeq(toJ(doc), expected), "document", "document contains " + jtext(toJ(doc)) + " after destroying the source");
            return;
        }
    }
    rapidjson::Value arr(rapidjson::kArrayType), val;
    {
        auto array = arr.GetArray();
        JR::push(*source, array, doc.GetAllocator());
        JR::push(*source, array, doc.GetAllocator());
        JR::push(*source, val, doc.GetAllocator());
        auto obj = doc.GetObject();
        JR::push(*source, "obj", obj, doc.GetAllocator());
    }
    doc.AddMember("arr", arr, doc.GetAllocator());
    doc.AddMember("val", val, doc.GetAllocator());
    const auto all = J::obj({ { "obj", expected }, { "arr", J::arr({ expected, expected }) }, { "val", expected } });
    if (order == 0) {
        b.modify();
        c.check(jeq(toJ(doc), all), "modified", "document contains " + jtext(toJ(doc)) + " after modifying the text referred to");
        source.reset();
        b.release();
    } else if (order == 1) {
        source.reset();
        b.release();
    } else if (order == 2) {
        auto moved = std::move(doc);
        source.reset();
        b.release();
        c.check(jeq(toJ(moved), all), "moved", "document contains " + jtext(toJ(moved)) + " after destroying the source");
        return;
    } else {
        // copied into a document using another allocator after the source is gone
        source.reset();
        b.release();
        rapidjson::Document copy;
        copy.CopyFrom(doc, copy.GetAllocator());
        doc = rapidjson::Document();
        c.check(jeq(toJ(copy), all), "copied", "copy contains " + jtext(toJ(copy)));
        return;
    }
    const auto text = str(JR::serializeJsonDocToString(doc));
    J parsed;
    c.check(jparse(text, parsed) && jeq(parsed, all), "destroyed", "document contains " + mc::printable(text) + " after destroying the source");
}

#define UNIT(...) units.push_back({ "views/" #__VA_ARGS__, BOUND, [](mc::Ctx &c) { check<__VA_ARGS__>(c); }, 1 });

int main(int argc, char **argv)
{
    std::vector<mc::Unit> units;
    using V = std::string_view;
    using C = const char *;
    UNIT(V)
    UNIT(C)
    UNIT(Views)
    UNIT(std::vector<V>)
    UNIT(std::list<C>)
    UNIT(std::forward_list<std::string>)
    UNIT(std::array<V, 2>)
    UNIT(std::array<std::string, 2>)
    UNIT(std::optional<V>)
    UNIT(std::unique_ptr<V>)
    UNIT(std::pair<V, C>)
    UNIT(std::tuple<V, C>)
    UNIT(std::variant<V, C>)
    UNIT(std::map<std::string, V>)
    UNIT(std::map<V, int>)
    UNIT(std::map<V, V>)
    UNIT(std::multimap<std::string, C>)
    UNIT(std::multimap<V, V>)
    UNIT(std::vector<Views>)
    UNIT(std::map<std::string, Views>)
    UNIT(std::vector<std::vector<V>>)
    UNIT(std::tuple<std::vector<V>, std::optional<Views>>)
    return mc::run(argc, argv, units);
}
