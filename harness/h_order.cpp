// C08: every subset and permutation of the members of a class and every placement of additional members.
#define RRJ_JSON 1
#define GROUP 9
#include "meta.h"
#include "types_order.h"
META(O::Names, (a)(ab)(abc)(A)(index))
META(O::Small, (x)(y)(z))
META(O::Nest, (x)(y)(z)(o)(p)(v))
#ifndef RRJ_HANA
META(O::OBase, (x)(s))
META_D(O::OMid, O::OBase, (m)(o))
META_D(O::ODerived, O::OMid, (z))
#include "gen.h"
#endif
#include "lib_json.h"

// takes members of j in every order, each possibly missing; points are free on the specified level and deviations otherwise
static J arrange(mc::Ctx &c, const J &j, bool exhaustive)
{
    auto r = J::obj();
    auto rest = j.o;
    while (!rest.empty()) {
        const auto n = c.choose(static_cast<std::uint32_t>(rest.size() + 1), exhaustive ? 0 : 1);
        if (n == rest.size()) {
            break; // remaining members are missing
        }
        r.o.push_back(rest[n]);
        rest.erase(rest.begin() + n);
    }
    return r;
}

static const std::vector<std::string> &names()
{
    static const std::vector<std::string> n = { "additional", "", "aa", "a ", " a", std::string("a\0", 2), std::string("a\0b", 3), "abcd", "Ab", "ABC", "Index", "X", "xx", "xy", std::string("x\0", 2), "Z", "data",
        "O::Small", "\xc3\xa4", "__a", "a.b", "k", "ss" };
    return n;
}
static const std::vector<J> &values()
{
    static const std::vector<J> v = { J::null(), J::obj({ { "a", J::sint(99) }, { "x", J::sint(99) }, { "z", J::str("wrong") } }), J::arr({ J::obj({ { "x", J::sint(99) } }) }), J::sint(99), J::str("wrong") };
    return v;
}

static void addAdditional(mc::Ctx &c, J &j, int max = 2)
{
    if (!max) {
        return;
    }
    const auto n = c.choose(static_cast<std::uint32_t>(names().size() + 1));
    if (!n) {
        return;
    }
    const auto &name = names()[n - 1];
    if (j.find(name)) {
        return;
    }
    const auto &value = c.pickFree(values());
    // in the front, after the first, in the end
    const auto pos = std::min<std::size_t>(c.free(std::min<std::uint32_t>(static_cast<std::uint32_t>(j.o.size() + 1), 3)), 2);
    j.o.insert(pos == 2 ? j.o.end() : j.o.begin() + static_cast<std::ptrdiff_t>(pos), { name, value });
    addAdditional(c, j, max - 1);
}

template <typename T> void compare(mc::Ctx &c, const J &doc)
{
    const auto text = jtext(doc, 0);
    c.describe(text);
    c.state(text);
    {
        T expected;
        Errs e;
        Ops<T>::pull(expected, doc, e);
        c.check(e.list.empty(), "harness", "reference reports errors");
        RJErrors errors;
        const T actual = JR::fromJson<T>(text.data(), text.size(), &errors);
        c.check(Ops<T>::eq(actual, expected), "value", "fromJson() yields " + show(actual) + " but expected " + show(expected));
        c.check(errors.empty(), "errors", "errors reported: " + errList(errors));
    }
    {
        T expected = Ops<T>::nth(3), actual = Ops<T>::nth(3);
        Errs e;
        Ops<T>::pull(expected, doc, e);
        RJErrors errors;
        const auto parsed = JR::parseJsonDocFromString(text.data(), text.size());
        JR::pull(actual, static_cast<const rapidjson::Value &>(parsed), &errors);
        c.check(Ops<T>::eq(actual, expected), "value-previous", "pull() into non-default object yields " + show(actual) + " but expected " + show(expected));
        c.check(errors.empty(), "errors-previous", "errors reported: " + errList(errors));
    }
}

// independent of the reference deserialiser: present members have the value of "other", missing ones the default
template <typename T> void direct(mc::Ctx &c, const J &doc, const T &other)
{
    const T actual = JR::fromJson<T>(jtext(doc, 0));
    const auto result = Ops<T>::push(actual), defaults = Ops<T>::push(T()), set = Ops<T>::push(other);
    for (const auto &m : result.o) {
        const auto *const expected = doc.find(m.first) ? set.find(m.first) : defaults.find(m.first);
        c.check(jeq(m.second, *expected), "member", "member " + m.first + " is " + jtext(m.second) + " but expected " + jtext(*expected));
    }
}

template <typename T> void flat(mc::Ctx &c)
{
    const T other = Ops<T>::nth(1);
    auto doc = arrange(c, Ops<T>::push(other), true);
    addAdditional(c, doc);
    compare<T>(c, doc);
    direct<T>(c, doc, other);
}

static J arrangeNested(mc::Ctx &c, const J &j)
{
    if (j.t == J::Arr) {
        auto r = J::arr();
        for (const auto &x : j.a) {
            r.a.push_back(arrangeNested(c, x));
        }
        return r;
    }
    if (j.t != J::Obj) {
        return j;
    }
    auto r = j;
    for (auto &m : r.o) {
        m.second = arrangeNested(c, m.second);
    }
    if (j.find("y") && j.find("x")) { // Small or Nest
        r = arrange(c, r, false);
        addAdditional(c, r);
    }
    return r;
}

static void nested(mc::Ctx &c)
{
    using O::Nest;
    using O::Small;
    auto orig = Ops<Nest>::nth(1);
    orig.v = Ops<Small>::nth(5);
    orig.y.emplace_back(Ops<Small>::nth(6));
    compare<Nest>(c, arrangeNested(c, Ops<Nest>::push(orig)));
}

int main(int argc, char **argv)
{
    std::vector<mc::Unit> units;
    units.push_back({ "Names", BOUND, flat<O::Names>, SHARDS });
    units.push_back({ "Small", BOUND, flat<O::Small>, SHARDS });
    units.push_back({ "Nest", BOUND, nested, SHARDS });
#ifndef RRJ_HANA
    units.push_back({ "OBase", BOUND, flat<O::OBase>, 1 });
    units.push_back({ "OMid", BOUND, flat<O::OMid>, 1 });
    units.push_back({ "ODerived", BOUND, flat<O::ODerived>, SHARDS });
#endif
    return mc::run(argc, argv, units);
}
