// C22: custom containers and adapted classes versus standard containers and classes inheriting from the serialisable base.
#define GROUP 9
#include <boost/preprocessor/seq/enum.hpp>
#include <boost/preprocessor/seq/for_each.hpp>
#include "types_custom.h"
#ifdef RRJ_HANA
#ifdef RRJ_JSON
#include <reflective_rapidjson/json/reflector-boosthana.h>
#else
#include <reflective_rapidjson/binary/reflector-boosthana.h>
#endif
#define HANA_ADAPT(...) BOOST_HANA_ADAPT_STRUCT(__VA_ARGS__);
#else
#define HANA_ADAPT(...)
#define COMPARE_RECORDS
#include "gen.h"
#endif

template <typename T> struct Meta;
#define META_2(T, A, B)                                                                                                                              \
    HANA_ADAPT(T, A, B)                                                                                                                              \
    template <> struct Meta<T> {                                                                                                                     \
        static const char *name() { return #T; }                                                                                                     \
        template <typename O, typename F> static void fields(O &o, F &&f) { f(#A, o.A), f(#B, o.B); }                                                \
        template <typename O, typename F> static void bases(O &, F &&) {}                                                                            \
    };
#define META_3(T)                                                                                                                                    \
    HANA_ADAPT(T, pre, m, post)                                                                                                                      \
    template <> struct Meta<T> {                                                                                                                     \
        static const char *name() { return #T; }                                                                                                     \
        template <typename O, typename F> static void fields(O &o, F &&f) { f("pre", o.pre), f("m", o.m), f("post", o.post); }                       \
        template <typename O, typename F> static void bases(O &, F &&) {}                                                                            \
    };
META_2(UP::Sub, a, s)
META_2(UQ::Sub, a, s)
#define META_C(N, ...) META_3(UP::C##N) META_3(UQ::C##N)
CONTAINERS(META_C)

#define NAME_G "standard container/inheriting class"
#define NAME_H "custom container/adapted class"
#include "equiv.h"

template <typename K, typename V, bool M> struct MapK<custom::FlatMap<K, V, M>> : std::integral_constant<int, M ? 2 : 1> {};
template <typename K, typename V> struct MapK<custom::ListMultiMap<K, V>> : std::integral_constant<int, 2> {};
template <> struct MapK<UQ::MapStr> : std::integral_constant<int, 3> {};
template <> struct MapK<UQ::MapVec> : std::integral_constant<int, 1> {};
template <> struct MapK<UQ::MMapSub> : std::integral_constant<int, 2> {};
template <typename E, bool M> struct SetK<custom::FlatSet<E, M>> : std::integral_constant<int, M ? 2 : 1> {};
template <> struct SetK<UQ::SetStr> : std::integral_constant<int, 3> {};
template <> struct SetK<UQ::MSetStr> : std::integral_constant<int, 4> {};
template <typename E> struct Seq<custom::Chain<E>> : std::true_type {};
template <> struct Seq<UQ::VecSub> : std::true_type {};
#if PART == 0
template <> constexpr bool otherOrder<UQ::C5> = true;
#endif

#define ADD_UNIT(N, ...) ADD("C" #N " " #__VA_ARGS__, UP::C##N, UQ::C##N)

#if defined(RRJ_JSON) && PART == 0
// on top-level
template <typename G, typename H> void top(mc::Ctx &c)
{
    const J doc = Ops<G>::doc(c, 0);
    const auto text = jtext(doc);
    c.describe(text);
    c.state(text);
    RJErrors eg, eh;
    const G g = JR::fromJson<G>(text.data(), text.size(), &eg);
    const H h = JR::fromJson<H>(text.data(), text.size(), &eh);
    c.check(showSorted(g) == showSorted(h), "value", NAME_G " yields " + show(g) + " but " NAME_H " yields " + show(h));
    c.check(errorsWithoutRecord(eg) == errorsWithoutRecord(eh), "errors", NAME_G ": " + errList(eg) + ", " NAME_H ": " + errList(eh));
    J jg, jh;
    const auto tg = str(JR::toJson(g)), th = str(JR::toJson(h));
    c.check(jparse(tg, jg) && jparse(th, jh) && jtext(sorted(jg)) == jtext(sorted(jh)), "json", NAME_G " yields " + tg + " but " NAME_H " yields " + th);
}
#define ADD_TOP(T) units.push_back({ #T " top-level", BOUND, top<UP::T, UQ::T>, SHARDS });
#endif

int main(int argc, char **argv)
{
#ifdef RRJ_BINARY
    Dec::limit() = 2000;
#endif
    std::vector<mc::Unit> units;
    CONTAINERS(ADD_UNIT)
    ADD("Sub", UP::Sub, UQ::Sub)
#if defined(RRJ_JSON) && PART == 0
    ADD_TOP(MapInt)
    ADD_TOP(MapStr)
    ADD_TOP(MapSub)
    ADD_TOP(MapMap)
    ADD_TOP(MMapInt)
    ADD_TOP(MMapStr)
    ADD_TOP(MMapSub)
    ADD_TOP(VecInt)
    ADD_TOP(VecSub)
#endif
    return mc::run(argc, argv, units);
}
