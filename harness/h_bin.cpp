// Binary properties C09, C10, C12 and C20 (selected via PROP), explored for all classes of one GROUP.
#include "meta.h"
#ifndef RRJ_HANA
#include "gen.h"
#endif
#include "lib_bin.h"

#ifndef BOUND
#define BOUND 1
#endif
#ifdef RRJ_HANA
#define MODE "hana"
#else
#define MODE "gen"
#endif

static std::stringstream &enable(std::stringstream &s)
{
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    return s;
}

template <typename T> std::string toBytes(const T &v)
{
    std::stringstream s;
    BR::BinarySerializer(&enable(s)).write(v);
    return s.str();
}
// reference encoding using own IDs for shared pointers
template <typename T> std::string reference(const T &v, const std::string *follow = nullptr)
{
    Enc e;
    e.follow = follow;
    Ops<T>::enc(v, e);
    return e.out;
}

// shared pointers within recursive types might lead to (leaking) cycles when reading corrupt data
template <typename T> constexpr bool mightLeak = std::is_same_v<T, UNIV::Tree>;
#if GROUP == 7
template <> constexpr bool mightLeak<UNIV::W703> = true;
#endif

template <typename T, typename = void> constexpr bool isClass = false;
template <typename T> constexpr bool isClass<T, std::enable_if_t<std::is_class_v<T>>> = std::is_base_of_v<RJ::BinarySerializable<T>, T>;

#if PROP == 9
template <typename T> void check(mc::Ctx &c)
{
    const T orig = Ops<T>::gen(c, 0);
    c.describe(show(orig));
    c.state(c.desc);
    const T second = Ops<T>::nth(4);
    {
        std::stringstream s;
        enable(s);
        std::size_t ends[3];
        BR::BinarySerializer(&s).write(orig);
        ends[0] = s.str().size();
        BR::BinarySerializer(&s).write(second);
        ends[1] = s.str().size();
        BR::BinarySerializer(&s).write(orig);
        ends[2] = s.str().size();
        const T *const expected[3] = { &orig, &second, &orig };
        T target = Ops<T>::nth(1); // previous contents, reused
        for (int i = 0; i != 3; ++i) {
            BR::BinaryDeserializer(&s).read(target);
            c.check(Ops<T>::eq(target, *expected[i]), "differs", "object " + std::to_string(i) + " read as " + show(target) + ", expected " + show(*expected[i]));
            c.check(static_cast<std::size_t>(s.tellg()) == ends[i], "position", "object " + std::to_string(i) + " ends at " + std::to_string(ends[i]) + " but " + std::to_string(s.tellg()) + " bytes have been read");
        }
    }
    {
        // the same (de)serializer for multiple objects
        std::stringstream s;
        enable(s);
        {
            BR::BinarySerializer ser(&s);
            ser.write(orig);
            ser.write(second);
            ser.write(orig);
        }
        BR::BinaryDeserializer des(&s);
        T a{}, b = Ops<T>::nth(2), d = Ops<T>::nth(3);
        des.read(a);
        des.read(b);
        des.read(d);
        c.check(Ops<T>::eq(a, orig) && Ops<T>::eq(b, second) && Ops<T>::eq(d, orig), "differs-same", "read as " + show(a) + ", " + show(b) + ", " + show(d));
        c.check(static_cast<std::size_t>(s.tellg()) == s.str().size(), "position-same", "data not fully consumed");
    }
    if constexpr (isClass<T>) {
        // member functions
        std::stringstream s;
        enable(s);
        static_cast<const RJ::BinarySerializable<T> &>(orig).toBinary(s);
        const auto end = s.str().size();
        s << "trailing";
        const T back = RJ::BinarySerializable<T>::fromBinary(s);
        c.check(Ops<T>::eq(back, orig), "differs-member", "fromBinary() yields " + show(back));
        c.check(static_cast<std::size_t>(s.tellg()) == end, "position-member", "fromBinary() consumed " + std::to_string(s.tellg()) + " instead of " + std::to_string(end) + " bytes");
        s.seekg(0);
        T restored = Ops<T>::nth(6);
        static_cast<RJ::BinarySerializable<T> &>(restored).restoreFromBinary(s);
        c.check(Ops<T>::eq(restored, orig), "differs-restore", "restoreFromBinary() yields " + show(restored));
        c.check(static_cast<std::size_t>(s.tellg()) == end, "position-restore", "restoreFromBinary() consumed " + std::to_string(s.tellg()) + " instead of " + std::to_string(end) + " bytes");
    }
}
#elif PROP == 10
template <typename T> void check(mc::Ctx &c)
{
    const T orig = Ops<T>::gen(c, 0);
    c.describe(show(orig));
    c.state(c.desc);
    const auto bytes = toBytes(orig);
    const auto expected = reference(orig, &bytes);
    c.check(bytes == expected, "encoding", "encoded as " + hex(bytes) + " but expected " + hex(expected));
    {
        // independent of stream configuration and previously written data
        std::stringstream s;
        enable(s);
        s.setf(std::ios_base::hex | std::ios_base::showbase | std::ios_base::boolalpha | std::ios_base::uppercase | std::ios_base::unitbuf);
        s.width(12);
        s.fill('#');
        s.precision(1);
        BR::BinarySerializer ser(&s);
        ser.write(std::string("prefix"));
        const auto start = s.str().size();
        ser.write(orig);
        const auto bytes2 = s.str().substr(start);
        c.check(bytes2 == reference(orig, &bytes2), "configuration", "encoded as " + hex(bytes2) + " but expected " + hex(expected));
    }
    {
        // decoding data written by the reference encoder
        std::stringstream s(expected);
        enable(s);
        s.setf(std::ios_base::hex);
        s.width(3);
        T back = Ops<T>::nth(1);
        BR::BinaryDeserializer(&s).read(back);
        c.check(Ops<T>::eq(back, orig), "decoding", hex(expected) + " decoded as " + show(back));
    }
}
#elif PROP == 12
template <typename T> void attempt(mc::Ctx &c, const std::string &data, bool mustThrow, const char *what)
{
    static std::unordered_set<std::string> done; // many values lead to the same mutations
    if (!done.insert(data + (mustThrow ? "t" : "m")).second) {
        return;
    }
    Dec d(data);
    T expected = Ops<T>::nth(1);
    enum { Ok, Conversion, AnyException } outcome = Ok;
    const auto before = allocatedBytes();
    {
        try {
            Ops<T>::dec(expected, d);
        } catch (const DecFail &f) {
            outcome = f.conversion ? Conversion : AnyException;
        }
        if (d.huge) {
            return; // would exhaust the memory
        }
        std::stringstream s(data);
        enable(s);
        T actual = Ops<T>::nth(1);
        try {
            BR::BinaryDeserializer(&s).read(actual);
            if (!d.unspecified) {
                c.check(outcome == Ok, "no-exception", std::string(what) + ": no exception when reading " + hex(data) + " but yields " + show(actual));
                c.check(Ops<T>::eq(actual, expected), "value", std::string(what) + ": " + hex(data) + " yields " + show(actual) + " but expected " + show(expected));
                c.check(static_cast<std::size_t>(s.tellg()) == static_cast<std::size_t>(d.p - d.b), "position", std::string(what) + ": consumed " + std::to_string(s.tellg()) + " bytes of " + hex(data));
            }
            c.check(!mustThrow, "truncated", std::string(what) + ": truncated data accepted: " + hex(data));
        } catch (const mc::Fail &) {
            throw;
        } catch (const CppUtilities::ConversionException &) {
            c.check(d.unspecified || outcome == Conversion, "conversion", std::string(what) + ": unexpected ConversionException for " + hex(data));
        } catch (const std::exception &e) {
            c.check(d.unspecified || outcome != Ok, "exception", std::string(what) + ": unexpected exception for " + hex(data) + ": " + e.what());
            c.check(d.unspecified || outcome != Conversion, "no-conversion", std::string(what) + ": exception \"" + e.what() + "\" instead of ConversionException for " + hex(data));
        }
    }
    if (!mightLeak<T>) {
        const auto after = allocatedBytes();
        c.check(after <= before + 16384, "leak", std::string(what) + ": leaked " + std::to_string(after - before) + " bytes when reading " + hex(data));
    }
}
template <typename T> void check(mc::Ctx &c)
{
    const T orig = Ops<T>::gen(c, 0);
    const auto bytes = reference(orig);
    c.describe(show(orig));
    c.state(c.desc);
    attempt<T>(c, bytes, false, "intact");
    for (std::size_t n = 0; n < bytes.size(); ++n) {
        attempt<T>(c, bytes.substr(0, n), true, "truncated");
    }
    // single byte mutations (of all bytes of short data)
    static const unsigned char values[] = { 0, 1, 2, 3, 4, 5, 6, 7, 0x10, 0x20, 0x40, 0x7F, 0x80, 0x81, 0x82, 0x83, 0x84, 0xC0, 0xFE, 0xFF };
    for (std::size_t n = 0; n < std::min<std::size_t>(bytes.size(), 160); ++n) {
#ifdef ALL_BYTES
        for (unsigned v = 0; v != 256; ++v) {
#else
        for (const auto v : values) {
#endif
            auto mutated = bytes;
            if (static_cast<unsigned char>(mutated[n]) == v) {
                continue;
            }
            mutated[n] = static_cast<char>(v);
            attempt<T>(c, mutated, false, "mutated");
        }
        auto erased = bytes;
        erased.erase(n, 1);
        attempt<T>(c, erased, false, "erased");
        auto duplicated = bytes;
        duplicated.insert(n, 1, bytes[n]);
        attempt<T>(c, duplicated, false, "duplicated");
    }
}
// all byte strings up to a length
template <typename T> void arbitrary(mc::Ctx &c)
{
    static const unsigned char values[] = { 0, 1, 2, 3, 5, 6, 0x10, 0x20, 0x40, 0x7F, 0x80, 0x81, 0x82, 0x83, 0xFF };
    std::string data;
    for (int i = 0; i != ARBITRARY; ++i) {
        const auto n = c.free(sizeof(values) + 1);
        if (!n) {
            break;
        }
        data += static_cast<char>(values[n - 1]);
    }
    c.describe(hex(data));
    c.state(data);
    attempt<T>(c, data, false, "arbitrary");
}
#elif PROP == 20
static std::string message(std::exception_ptr p)
{
    try {
        std::rethrow_exception(p);
    } catch (const std::exception &e) {
        return e.what();
    }
}
template <typename T> void check(mc::Ctx &c)
{
    const T orig = Ops<T>::gen(c, 0);
    const auto bytes = toBytes(orig);
    c.describe(show(orig));
    c.state(c.desc);
    const auto trailing = bytes + "trailing data";
    // portions: fixed sizes and every split into two portions (followed by single bytes)
    std::vector<std::vector<std::size_t>> portionings = { { 1 }, { 2 }, { 3 }, { 7 }, { 8 }, { trailing.size() } };
    for (std::size_t n = 1; n < std::min<std::size_t>(bytes.size(), 80); ++n) {
        portionings.push_back({ n, trailing.size() });
        portionings.push_back({ n, 1 });
    }
    for (const auto &p : portionings) {
        SourceBuf b(trailing, p);
        std::istream s(&b);
        s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        T back = Ops<T>::nth(1);
        BR::BinaryDeserializer(&s).read(back);
        c.check(Ops<T>::eq(back, orig), "portions", "portions " + std::to_string(p[0]) + "," + std::to_string(p.back()) + " yield " + show(back));
        c.check(b.consumed() == bytes.size(), "consumed", "portions " + std::to_string(p[0]) + ": " + std::to_string(b.consumed()) + " of " + std::to_string(bytes.size()) + " bytes consumed");
    }
    // faults when reading
    for (std::size_t n = 0; n < bytes.size(); ++n) {
        for (const auto fault : { Fault::End, Fault::ThrowException }) {
            for (const std::size_t portion : { std::size_t(1), bytes.size() }) {
                const auto before = allocatedBytes();
                {
                    SourceBuf b(bytes, { portion }, n, fault);
                    std::istream s(&b);
                    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                    T target = Ops<T>::nth(1);
                    std::exception_ptr thrown;
                    try {
                        BR::BinaryDeserializer(&s).read(target);
                    } catch (const std::exception &) {
                        thrown = std::current_exception();
                    }
                    c.check(thrown != nullptr, "no-exception", "no exception when stream fails at byte " + std::to_string(n) + " of " + std::to_string(bytes.size()));
                    c.check(b.consumed() <= n, "consumed-fault", "more bytes consumed than available");
                    // new attempt
                    SourceBuf b2(bytes, {});
                    std::istream s2(&b2);
                    s2.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                    BR::BinaryDeserializer(&s2).read(target);
                    c.check(Ops<T>::eq(target, orig), "retry", "new attempt after failure at byte " + std::to_string(n) + " yields " + show(target));
                }
                if (!mightLeak<T>) {
                    const auto after = allocatedBytes();
                    c.check(after <= before + 16384, "leak", "leaked " + std::to_string(after - before) + " bytes when reading fails at byte " + std::to_string(n));
                }
            }
        }
    }
    // portions and faults when writing
    for (const std::size_t portion : { 0u, 1u, 2u, 3u, 64u }) {
        SinkBuf b(portion);
        std::ostream s(&b);
        s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        BR::BinarySerializer(&s).write(orig);
        s.flush();
        c.check(b.data == bytes, "write-portions", "portions of " + std::to_string(portion) + " lead to " + hex(b.data) + " instead of " + hex(bytes));
        for (std::size_t n = 0; n < bytes.size(); ++n) {
            for (const auto fault : { Fault::End, Fault::ThrowException }) {
                const auto before = allocatedBytes();
                {
                    SinkBuf b(portion, n, fault);
                    std::ostream s(&b);
                    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
                    bool thrown = false;
                    try {
                        BR::BinarySerializer(&s).write(orig);
                        s.flush();
                    } catch (const std::exception &) {
                        thrown = true;
                    }
                    c.check(thrown, "write-no-exception", "no exception when stream fails at byte " + std::to_string(n) + " of " + std::to_string(bytes.size()) + " using portions of " + std::to_string(portion));
                    c.check(bytes.compare(0, b.data.size(), b.data) == 0, "prefix", "stream contains " + hex(b.data) + " which is not a prefix of " + hex(bytes));
                }
                const auto after = allocatedBytes();
                c.check(after <= before + 16384, "write-leak", "leaked " + std::to_string(after - before) + " bytes when writing fails at byte " + std::to_string(n));
            }
        }
        c.check(toBytes(orig) == bytes, "write-retry", "new attempt after failure yields " + hex(toBytes(orig)));
    }
}
#endif

#define ADD_UNIT(n, ...) units.push_back({ MODE "/W" #n " " #__VA_ARGS__, BOUND, [](mc::Ctx &c) { check<UNIV::W##n>(c); }, SHARDS });
// values written directly, without any members before and after them
#define ADD_BARE(n, ...) units.push_back({ MODE "/bare " #n " " #__VA_ARGS__, BOUND, [](mc::Ctx &c) { check<__VA_ARGS__>(c); }, SHARDS });
#define ADD_ARBITRARY(n, ...) units.push_back({ MODE "/arbitrary W" #n " " #__VA_ARGS__, 0, [](mc::Ctx &c) { arbitrary<__VA_ARGS__>(c); }, SHARDS });
#ifndef SHARDS
#define SHARDS 1
#endif

int main(int argc, char **argv)
{
    std::vector<mc::Unit> units;
#if PROP == 9 || PROP == 10
    alphabet().longStrings = true;
    alphabet().sizes = { 1, 0, 2, 3, 127, 128, 129 };
#endif
    ALL_W(ADD_UNIT)
#ifndef RRJ_HANA
    ALL_W(ADD_BARE)
#endif
#if PROP == 12
    Dec::limit() = 2000;
#ifndef RRJ_HANA
    ALL_W(ADD_ARBITRARY)
#endif
#endif
    if (GROUP == 7) {
        units.push_back({ MODE "/Tree", BOUND, [](mc::Ctx &c) { check<UNIV::Tree>(c); }, SHARDS });
        units.push_back({ MODE "/Mixed", BOUND, [](mc::Ctx &c) { check<UNIV::Mixed>(c); }, SHARDS });
    }
    return mc::run(argc, argv, units);
}
