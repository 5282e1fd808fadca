// Describes the fields of the explored classes to the reference model (and Boost.Hana if enabled).
#include "types.h"
#ifndef META_H
#define META_H

#include <boost/preprocessor/seq/enum.hpp>
#include <boost/preprocessor/seq/for_each.hpp>

#ifdef RRJ_HANA
#ifdef RRJ_JSON
#include <reflective_rapidjson/json/reflector-boosthana.h>
#endif
#ifdef RRJ_BINARY
#include <reflective_rapidjson/binary/reflector-boosthana.h>
#endif
#define HANA_ADAPT(T, S) BOOST_HANA_ADAPT_STRUCT(T, BOOST_PP_SEQ_ENUM(S));
#else
#define HANA_ADAPT(T, S)
#endif

template <typename T> struct Meta;
#define STRINGIFY_1(...) #__VA_ARGS__
#define STRINGIFY(...) STRINGIFY_1(__VA_ARGS__)

#define META_FIELD(r, data, m) f(STRINGIFY(m), o.m);
#define META(T, S)                                                                                                                                   \
    HANA_ADAPT(T, S)                                                                                                                                 \
    template <> struct Meta<T> {                                                                                                                     \
        static const char *name() { return STRINGIFY(T); }                                                                                                     \
        template <typename O, typename F> static void fields(O &o, F &&f) { BOOST_PP_SEQ_FOR_EACH(META_FIELD, , S) }                                 \
        template <typename O, typename F> static void bases(O &, F &&) {}                                                                            \
    };
#define META_D(T, B, S)                                                                                                                              \
    template <> struct Meta<T> {                                                                                                                     \
        static const char *name() { return STRINGIFY(T); }                                                                                                     \
        template <typename O, typename F> static void fields(O &o, F &&f) { BOOST_PP_SEQ_FOR_EACH(META_FIELD, , S) }                                 \
        template <typename F> static void bases(const T &o, F &&f) { f(static_cast<const B &>(o)); }                                                 \
        template <typename F> static void bases(T &o, F &&f) { f(static_cast<B &>(o)); }                                                             \
    };

#define META_W(n, ...) META(UNIV::W##n, (pre)(m)(post))
#endif // META_H

META(UNIV::Sub, (a)(s))
META(UNIV::Tree, (v)(kids)(left)(right))
META(UNIV::Base, (b)(t))
#ifndef RRJ_HANA
META_D(UNIV::Derived, UNIV::Base, (v)(o))
META_D(UNIV::Derived2, UNIV::Derived, (m)(b2))
#endif
META(UNIV::Mixed, (subs)(m)(var)(p)(o)(st)(mm)(flag))
ALL_W(META_W)
