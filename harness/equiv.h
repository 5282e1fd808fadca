// Differential exploration of two classes G and H with the same members.
#ifndef EQUIV_H
#define EQUIV_H
#ifdef RRJ_JSON
#include "lib_json.h"
#else
#include "lib_bin.h"
#endif

#ifndef BOUND
#define BOUND 1
#endif
#ifndef DOC_BOUND
#define DOC_BOUND (BOUND - 1)
#endif
#ifndef NAME_G
#define NAME_G "generated code"
#define NAME_H "Boost.Hana"
#endif
#ifndef SHARDS
#define SHARDS 1
#endif

template <typename T> constexpr bool hasShared = false; // binary data contains addresses
template <typename T> constexpr bool otherOrder = false; // order of elements differs from the other class

// performs the same choices once more
template <typename F> auto again(mc::Ctx &c, std::size_t from, F &&f)
{
    mc::Ctx other;
    for (auto i = from; i != c.points.size(); ++i) {
        other.prefix.push_back(c.points[i].chosen);
        other.prefixN.push_back(c.points[i].n);
    }
    return f(other);
}

// the value with members of objects in lexical order
inline J sorted(J j)
{
    for (auto &x : j.a) {
        x = sorted(std::move(x));
    }
    for (auto &m : j.o) {
        m.second = sorted(std::move(m.second));
    }
    std::stable_sort(j.o.begin(), j.o.end(), [](const auto &a, const auto &b) { return a.first < b.first; });
    return j;
}
template <typename T> std::string showSorted(const T &v)
{
    return jtext(sorted(Ops<T>::push(v)));
}
#ifdef RRJ_JSON
template <typename H> std::string outText(const std::string &text)
{
    if constexpr (otherOrder<H>) {
        J j;
        return jparse(text, j) ? jtext(sorted(std::move(j))) : "invalid: " + text;
    } else {
        return text;
    }
}
inline std::string recordName(const char *record)
{
#ifdef COMPARE_RECORDS
    // classes have the same name but are in different namespaces
    std::string r = record ? record : "-";
    const auto pos = r.find("::");
    return pos == std::string::npos ? r : r.substr(pos);
#else
    return std::string();
#endif
}
template <typename L> std::string errorsWithoutRecord(const L &l)
{
    std::string s;
    for (const auto &e : l) {
        s += errText(static_cast<int>(e.kind), static_cast<int>(e.expectedType), static_cast<int>(e.actualType), recordName(e.record).c_str(), e.member, e.index) + ";";
    }
    return s;
}
template <typename G, typename H> void values(mc::Ctx &c)
{
    const G g = Ops<G>::gen(c, 0);
    const H h = again(c, 0, [](mc::Ctx &o) { return Ops<H>::gen(o, 0); });
    c.describe(show(g));
    c.state(c.desc);
    c.check(showSorted(h) == showSorted(g), "internal", "different objects generated: " + show(h));
    const auto tg = str(JR::toJson(g)), th = str(JR::toJson(h));
    c.check(outText<H>(tg) == outText<H>(th), "json", NAME_G " yields " + mc::printable(tg) + " but " NAME_H " yields " + mc::printable(th));
    if constexpr (std::is_base_of_v<RJ::JsonSerializable<G>, G>) {
        const auto m = str(static_cast<const RJ::JsonSerializable<G> &>(g).toJson());
        c.check(m == tg, "json-member", "member function yields " + mc::printable(m));
    }
    if constexpr (std::is_base_of_v<RJ::JsonSerializable<H>, H>) {
        const auto m = str(static_cast<const RJ::JsonSerializable<H> &>(h).toJson());
        c.check(m == th, "json-member", "member function yields " + mc::printable(m));
    }
    // read by the other
    RJErrors eg, eh;
    const G g2 = JR::fromJson<G>(th.data(), th.size(), &eg);
    const H h2 = JR::fromJson<H>(tg.data(), tg.size(), &eh);
    c.check(showSorted(g2) == showSorted(h2), "cross", NAME_G " restores " + show(g2) + " but " NAME_H " " + show(h2) + " from " + mc::printable(tg));
    c.check(errorsWithoutRecord(eg) == errorsWithoutRecord(eh), "cross-errors", errList(eg) + " vs. " + errList(eh));
}
template <typename G, typename H> void documents(mc::Ctx &c)
{
    const J doc = Ops<G>::doc(c, 0);
    const auto text = jtext(doc);
    c.describe(text);
    c.state(text);
    RJErrors eg, eh;
    const G g = JR::fromJson<G>(text.data(), text.size(), &eg);
    const H h = JR::fromJson<H>(text.data(), text.size(), &eh);
    c.check(showSorted(g) == showSorted(h), "value", NAME_G " yields " + show(g) + " but " NAME_H " yields " + show(h));
    c.check(errorsWithoutRecord(eg) == errorsWithoutRecord(eh), "errors", NAME_G " reports " + errList(eg) + " but " NAME_H " reports " + errList(eh));
    const auto context = [](const RJErrors &e) { return std::string(e.currentMember ? e.currentMember : "-") + std::to_string(e.currentIndex); };
    c.check(context(eg) == context(eh), "context", "context differs: " + context(eg) + " vs. " + context(eh));
    // into existing objects
    if (doc.t == J::Obj) {
        G g3 = Ops<G>::nth(1);
        H h3 = Ops<H>::nth(1);
        const auto d = JR::parseJsonDocFromString(text.data(), text.size());
        JR::pull(g3, d.GetObject(), nullptr);
        JR::pull(h3, d.GetObject(), nullptr);
        c.check(showSorted(g3) == showSorted(h3), "value-previous", NAME_G " yields " + show(g3) + " but " NAME_H " yields " + show(h3) + " reading into an existing object");
    }
    // fatal errors
    for (const auto mask : { 0x1, 0x2, 0x4, 0x8, 0x10, 0x20, 0xFF }) {
        const auto outcome = [&](auto *type) -> std::string {
            using X = std::remove_pointer_t<decltype(type)>;
            RJErrors errors;
            errors.throwOn = static_cast<RJErrors::ThrowOn>(mask);
            std::string o;
            try {
                o = showSorted(JR::fromJson<X>(text.data(), text.size(), &errors));
            } catch (const RJ::JsonDeserializationError &e) {
                o = "threw " + errorsWithoutRecord(std::vector<RJ::JsonDeserializationError>{ e });
            }
            return o + errorsWithoutRecord(errors);
        };
        const auto og = outcome(static_cast<G *>(nullptr)), oh = outcome(static_cast<H *>(nullptr));
        c.check(og == oh, "throw", "throwOn=" + std::to_string(mask) + ": " NAME_G ": " + og + ", " NAME_H ": " + oh);
    }
}
#define ADD(NAME, G, H)                                                                                                                              \
    units.push_back({ NAME " values", BOUND, values<G, H>, SHARDS });                                                                                \
    units.push_back({ NAME " documents", DOC_BOUND, documents<G, H>, SHARDS });
#else
template <typename H, typename T> std::string image(const T &v)
{
    if constexpr (otherOrder<H>) {
        return showSorted(v);
    }
    Enc e;
    e.sequential = true;
    Ops<T>::enc(v, e);
    return hex(e.out);
}
template <typename T> std::string toBytes(const T &v)
{
    std::stringstream s;
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    BR::BinarySerializer(&s).write(v);
    return s.str();
}
template <typename H, typename T> std::string readOutcome(const std::string &data, bool previous)
{
    std::stringstream s(data);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    T v = previous ? Ops<T>::nth(1) : T();
    try {
        BR::BinaryDeserializer(&s).read(v);
    } catch (const CppUtilities::ConversionException &) {
        return "ConversionException";
    } catch (const std::ios_base::failure &) {
        return "failure";
    } catch (const std::bad_alloc &) {
        return "bad_alloc";
    }
    return image<H>(v) + " at " + std::to_string(s.tellg());
}
template <typename G, typename H> void values(mc::Ctx &c)
{
    const G g = Ops<G>::gen(c, 0);
    const H h = again(c, 0, [](mc::Ctx &o) { return Ops<H>::gen(o, 0); });
    c.describe(show(g));
    c.state(c.desc);
    c.check(image<H>(g) == image<H>(h), "internal", "different objects generated: " + show(h));
    const auto bg = toBytes(g), bh = toBytes(h);
    c.check(hasShared<G> || otherOrder<H> || bg == bh, "binary", NAME_G " writes " + hex(bg) + " but " NAME_H " writes " + hex(bh));
    for (const bool previous : { false, true }) {
        for (const auto *const data : { &bg, &bh }) {
            if (data == &bh && bg == bh) {
                continue;
            }
            const auto og = readOutcome<H, G>(*data, previous), oh = readOutcome<H, H>(*data, previous);
            c.check(og == oh, "cross", hex(*data) + " read by " NAME_G ": " + og + ", by " NAME_H ": " + oh);
        }
    }
}
// truncated and mutated data
template <typename G, typename H> void documents(mc::Ctx &c)
{
    const G g = Ops<G>::gen(c, 0);
    Enc e;
    e.sequential = true;
    Ops<G>::enc(g, e);
    c.describe(hex(e.out));
    c.state(e.out);
    static std::unordered_set<std::string> done;
    const auto compare = [&](const std::string &data) {
        if (!done.insert(data).second) {
            return;
        }
        Dec d(data);
        try {
            G x;
            Ops<G>::dec(x, d);
        } catch (const DecFail &) {
        }
        if (d.huge) {
            return; // would exhaust the memory
        }
        const auto og = readOutcome<H, G>(data, true), oh = readOutcome<H, H>(data, true);
        c.check(og == oh, "data", hex(data) + " read by " NAME_G ": " + og + ", by " NAME_H ": " + oh);
    };
    for (std::size_t n = 0; n < std::min<std::size_t>(e.out.size(), 120); ++n) {
        compare(e.out.substr(0, n));
        for (const unsigned char v : { 0, 1, 2, 5, 0x7F, 0x80, 0x82, 0xFF }) {
            auto mutated = e.out;
            mutated[n] = static_cast<char>(v);
            compare(mutated);
        }
    }
}
#define ADD(NAME, G, H)                                                                                                                              \
    units.push_back({ NAME " values", BOUND, values<G, H>, SHARDS });                                                                                \
    units.push_back({ NAME " data", DOC_BOUND, documents<G, H>, SHARDS });
#endif
#endif
