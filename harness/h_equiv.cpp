// C17: generated code (classes in namespace U) versus Boost.Hana (the same classes in namespace UH). Built for either JSON or binary.
#include "meta.h"
#ifdef RRJ_JSON
#include <reflective_rapidjson/json/reflector-boosthana.h>
#else
#include <reflective_rapidjson/binary/reflector-boosthana.h>
#endif
#include "gen.h"

// once more using Boost.Hana
#undef UNIV
#define UNIV UH
#undef HANA_ADAPT
#define HANA_ADAPT(T, S) BOOST_HANA_ADAPT_STRUCT(T, BOOST_PP_SEQ_ENUM(S));
#include "meta.h"
// members of base classes have to be listed explicitly
BOOST_HANA_ADAPT_STRUCT(UH::Derived, b, t, v, o);
BOOST_HANA_ADAPT_STRUCT(UH::Derived2, b, t, v, o, m, b2);

#include "equiv.h"
#ifdef RRJ_BINARY
template <> constexpr bool hasShared<U::Tree> = true;
#if GROUP == 5
template <> constexpr bool hasShared<U::W501> = true;
template <> constexpr bool hasShared<U::W509> = true;
#elif GROUP == 7
template <> constexpr bool hasShared<U::W703> = true;
#endif
#endif

#define ADD_UNIT(n, ...) ADD("W" #n " " #__VA_ARGS__, U::W##n, UH::W##n)

int main(int argc, char **argv)
{
#ifdef RRJ_BINARY
    Dec::limit() = 2000;
#endif
    std::vector<mc::Unit> units;
#undef UNIV
#define UNIV U
    ALL_W(ADD_UNIT)
#if GROUP == 7
    ADD("Tree", U::Tree, UH::Tree)
    ADD("Mixed", U::Mixed, UH::Mixed)
    ADD("Derived", U::Derived, UH::Derived)
#endif
    return mc::run(argc, argv, units);
}
