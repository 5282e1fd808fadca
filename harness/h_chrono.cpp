// C18: DateTime and TimeSpan members.
#include "types_chrono.h"
#include <reflective_rapidjson/binary/reflector-chronoutilities.h>
#include <reflective_rapidjson/json/reflector-chronoutilities.h>
#ifdef RRJ_HANA
#include <reflective_rapidjson/binary/reflector-boosthana.h>
#include <reflective_rapidjson/json/reflector-boosthana.h>
BOOST_HANA_ADAPT_STRUCT(T::Times, pre, date, span, dates, spans, maybe, ptr, var, pair, post);
#define MODE "hana"
#else
#include "gen.h"
#define MODE "gen"
#endif
#include "lib_json.h"
#include "lib_bin.h"

#include <c++utilities/conversion/conversionexception.h>

using CppUtilities::DateTime;
using CppUtilities::TimeSpan;

// ---- reference: calendar, formatting and parsing --------------------------------------------------------------------
using U64 = std::uint64_t;
constexpr U64 second = 10000000, minute = 60 * second, hour = 60 * minute, day = 24 * hour;
static bool leap(int y)
{
    return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
}
static int daysOf(int y, int m)
{
    static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
    return m == 2 && leap(y) ? 29 : d[m - 1];
}
static U64 ticksOf(int y, int m, int d)
{
    U64 days = 0;
    for (int i = 1; i < y; ++i) {
        days += leap(i) ? 366 : 365;
    }
    for (int i = 1; i < m; ++i) {
        days += static_cast<U64>(daysOf(y, i));
    }
    return (days + static_cast<U64>(d) - 1) * day;
}
static bool digits(const std::string &s, std::size_t &p, std::size_t min, std::size_t max, U64 &v)
{
    const auto start = p;
    for (v = 0; p < s.size() && s[p] >= '0' && s[p] <= '9' && p - start < max; ++p) {
        v = v * 10 + static_cast<U64>(s[p] - '0');
    }
    return p - start >= min;
}
static bool fraction(const std::string &s, std::size_t &p, U64 &v)
{
    v = 0;
    if (p >= s.size() || s[p] != '.') {
        return true;
    }
    const auto start = ++p;
    U64 scale = second;
    for (; p < s.size() && s[p] >= '0' && s[p] <= '9'; ++p) {
        scale /= 10;
        v += scale * static_cast<U64>(s[p] - '0');
    }
    return p != start && p - start <= 7;
}
// YYYY-MM-DDThh:mm:ss[.fraction]
static bool parseIso(const std::string &s, U64 &ticks)
{
    std::size_t p = 0;
    U64 v[6], f;
    static const char sep[] = "--T::";
    for (int i = 0; i != 6; ++i) {
        if (!digits(s, p, i ? 2 : 4, i ? 2 : 4, v[i])) {
            return false;
        }
        if (i < 5 && (p >= s.size() || s[p++] != sep[i])) {
            return false;
        }
    }
    if (!fraction(s, p, f) || p != s.size()) {
        return false;
    }
    ticks = ticksOf(static_cast<int>(v[0]), static_cast<int>(v[1]), static_cast<int>(v[2])) + v[3] * hour + v[4] * minute + v[5] * second + f;
    return true;
}
// hh:mm:ss[.fraction]
static bool parseSpan(const std::string &s, U64 &ticks)
{
    std::size_t p = 0;
    U64 h, m, sec, f;
    if (!digits(s, p, 2, 19, h) || p >= s.size() || s[p++] != ':' || !digits(s, p, 2, 2, m) || p >= s.size() || s[p++] != ':' || !digits(s, p, 2, 2, sec)
        || !fraction(s, p, f) || p != s.size()) {
        return false;
    }
    ticks = h * hour + m * minute + sec * second + f;
    return true;
}
static std::string be(U64 v)
{
    std::string s;
    for (int i = 56; i >= 0; i -= 8) {
        s += static_cast<char>(v >> i);
    }
    return s;
}
template <typename V> std::string bytesOf(const V &v)
{
    std::stringstream s;
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    ReflectiveRapidJSON::BinaryReflector::BinarySerializer(&s).write(v);
    return s.str();
}
template <typename V> void readFrom(const std::string &data, V &v)
{
    std::stringstream s(data);
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    ReflectiveRapidJSON::BinaryReflector::BinaryDeserializer(&s).read(v);
}
static std::string num(U64 v)
{
    return std::to_string(v);
}

// ---- values -----------------------------------------------------------------------------------------------------------
static const std::vector<U64> &fractions()
{
    static const std::vector<U64> f = { 0, 1, 2, 3, 7, 9, 10, 11, 99, 100, 1000, 9990, 10000, 10001, 123000, 990000, 1234567, 5000000, 5000001, 9990000, 9999990, 9999999 };
    return f;
}
template <typename V> void roundTrip(mc::Ctx &c, U64 ticks)
{
    const bool isDate = std::is_same_v<V, DateTime>;
    const auto v = V(static_cast<typename V::TickType>(ticks));
    rapidjson::Document doc;
    JR::push(v, doc, doc.GetAllocator());
    c.check(doc.IsString(), "json-type", "not serialised as string");
    const std::string text(doc.GetString(), doc.GetStringLength());
    U64 parsed = 0;
    c.check((isDate ? parseIso(text, parsed) : parseSpan(text, parsed)) && parsed == ticks, "json-text", num(ticks) + " ticks are serialised as " + mc::printable(text));
    auto back = V(5);
    RJErrors errors;
    JR::pull(back, static_cast<const rapidjson::Value &>(doc), &errors);
    c.check(errors.empty(), "json-errors", num(ticks) + " (" + text + "): " + errList(errors));
    // the C++ utilities library parses durations using double so the last digit might be off
    const auto restored = static_cast<U64>(back.totalTicks());
    c.check(restored == ticks || (!isDate && restored - ticks + 1 < 3), "json-value", num(ticks) + " ticks (" + text + ") are restored as " + num(static_cast<U64>(back.totalTicks())));
    const auto data = bytesOf(v);
    c.check(data == be(ticks), "binary-data", num(ticks) + " ticks are written as " + hex(data));
    back = V(5);
    readFrom(data, back);
    c.check(static_cast<U64>(back.totalTicks()) == ticks, "binary-value", num(ticks) + " ticks are restored from binary as " + num(static_cast<U64>(back.totalTicks())));
}
static void dates(mc::Ctx &c)
{
#ifdef FULL
    const int year = static_cast<int>(c.free(400) + c.pickFree(std::vector<unsigned>{ 1, 1601, 2001 }));
    const int month = static_cast<int>(c.free(12)) + 1, dayOfMonth = static_cast<int>(c.free(static_cast<unsigned>(daysOf(year, month)))) + 1;
#else
    static const std::vector<int> years = { 1, 2, 3, 4, 5, 8, 99, 100, 101, 200, 300, 400, 401, 1582, 1600, 1700, 1899, 1900, 1969, 1970, 1972, 1999, 2000, 2001, 2004, 2019, 2020, 2024, 2038, 2100, 2400, 9996, 9998, 9999 };
    const int year = c.pickFree(years), month = static_cast<int>(c.free(12)) + 1;
    static const std::vector<int> days = { 1, 2, 15, 27, 28, 29, 30, 31 };
    const auto dayOfMonth = std::min(c.pickFree(days), daysOf(year, month));
#endif
    const U64 times[] = { 0, second, minute, hour, 12 * hour, 12 * hour + 34 * minute + 56 * second, day - second, day - minute, 9 * hour + 59 * minute };
    const auto base = ticksOf(year, month, dayOfMonth) + times[c.free(9)];
    c.describe(num(base));
    c.state(c.desc);
    for (const auto f : fractions()) {
        roundTrip<DateTime>(c, base + f);
    }
}
static void spans(mc::Ctx &c)
{
    const std::vector<U64> hours = { 0, 1, 9, 10, 23, 24, 25, 47, 48, 99, 100, 101, 999, 1000, 8760, 8784, 54321, 99998 };
    const auto base = c.pickFree(hours) * hour + c.pickFree(std::vector<U64>{ 0, 1, 9, 10, 30, 59 }) * minute + c.pickFree(std::vector<U64>{ 0, 1, 9, 10, 29, 30, 58, 59 }) * second;
    c.describe(num(base));
    c.state(c.desc);
    for (const auto f : fractions()) {
        roundTrip<TimeSpan>(c, base + f);
    }
#ifdef FULL
    for (U64 f = 0; f < second; f += 997) {
        roundTrip<TimeSpan>(c, base + f);
    }
#endif
}
// any ticks in binary form
static void ticks(mc::Ctx &c)
{
    const auto bit = c.free(64);
    const U64 base = U64(1) << bit;
    const auto v = c.pickFree(std::vector<U64>{ base, base - 1, ~base, U64(0) - base, base * 0x8001, base | 0x5A5A5A });
    c.describe(num(v));
    c.state(c.desc);
    auto d = DateTime(5);
    c.check(bytesOf(DateTime(v)) == be(v), "date-data", num(v) + " written as " + hex(bytesOf(DateTime(v))));
    readFrom(be(v), d);
    c.check(d.totalTicks() == v, "date-value", num(v) + " read as " + num(d.totalTicks()));
    auto s = TimeSpan(5);
    const auto sv = static_cast<std::int64_t>(v);
    c.check(bytesOf(TimeSpan(sv)) == be(v), "span-data", num(v) + " written as " + hex(bytesOf(TimeSpan(sv))));
    readFrom(be(v), s);
    c.check(s.totalTicks() == sv, "span-value", num(v) + " read as " + std::to_string(s.totalTicks()));
}
// durations the C++ utilities library does not restore from its own textual form
static void pinned(mc::Ctx &c)
{
    static const std::int64_t values[] = { -1, -static_cast<std::int64_t>(second), -static_cast<std::int64_t>(hour + minute),
        1000001ll * static_cast<std::int64_t>(hour), 5000001 };
    const auto v = values[c.free(5)];
    c.describe(std::to_string(v));
    c.state(c.desc);
    rapidjson::Document doc;
    JR::push(TimeSpan(v), doc, doc.GetAllocator());
    auto back = TimeSpan(5);
    RJErrors errors;
    JR::pull(back, static_cast<const rapidjson::Value &>(doc), &errors);
    c.check(back.totalTicks() == v && errors.empty(), std::to_string(v).c_str(),
        std::string("serialised as ") + (doc.IsString() ? doc.GetString() : "?") + ", restored as " + std::to_string(back.totalTicks()) + ", " + errList(errors));
}

// ---- strings ----------------------------------------------------------------------------------------------------------
// interpretation of a string by the C++ utilities library
template <typename V> bool parse(const std::string &s, V &v)
{
    if (s.find('\0') != std::string::npos) {
        return false;
    }
    try {
        if constexpr (std::is_same_v<V, DateTime>) {
            v = DateTime::fromIsoStringGmt(s.data());
        } else {
            v = TimeSpan::fromString(s.data());
        }
        return true;
    } catch (const CppUtilities::ConversionException &) {
        return false;
    }
}
template <typename V> void checkString(mc::Ctx &c, const std::string &s)
{
    V expected(1234567), actual(1234567);
    const bool ok = parse(s, expected);
    rapidjson::Value v(s.data(), static_cast<rapidjson::SizeType>(s.size()));
    RJErrors errors;
    errors.currentRecord = "R";
    errors.currentMember = "m";
    errors.currentIndex = 4;
    JR::pull(actual, static_cast<const rapidjson::Value &>(v), &errors);
    c.check(actual == expected, "string-value", mc::printable(s) + " yields " + std::to_string(actual.totalTicks()) + " but expected " + std::to_string(expected.totalTicks()));
    const auto list = ok ? std::string("(no errors)") : errText(EKConversion, JTString, JTString, "R", "m", 4);
    c.check(errList(errors) == list, "string-errors", mc::printable(s) + " leads to " + errList(errors) + " but expected " + list);
    actual = V(1234567);
    JR::pull(actual, static_cast<const rapidjson::Value &>(v), nullptr);
    c.check(actual == expected, "string-value-without-errors", mc::printable(s) + " yields " + std::to_string(actual.totalTicks()));
    // fatal errors
    for (const auto mask : { RJErrors::ThrowOn::ConversionError, RJErrors::ThrowOn::TypeMismatch, RJErrors::ThrowOn::All }) {
        RJErrors fatal;
        fatal.throwOn = mask;
        bool thrown = false;
        actual = V(1234567);
        try {
            JR::pull(actual, static_cast<const rapidjson::Value &>(v), &fatal);
        } catch (const RJ::JsonDeserializationError &e) {
            thrown = true;
        }
        c.check(thrown == (!ok && mask != RJErrors::ThrowOn::TypeMismatch), "string-throws", mc::printable(s) + " leads to " + errList(fatal) + (thrown ? " thrown" : " not thrown"));
        c.check(actual == expected && fatal.size() == (ok ? 0 : 1), "string-fatal", mc::printable(s) + " leads to " + errList(fatal) + " and " + std::to_string(actual.totalTicks()));
    }
}
// The C++ utilities library writes beyond the end of an array when there are too many components or when any follow "Z".
static bool crashes(const std::string &s)
{
    const auto zulu = s.find('Z'), time = s.find('T');
    if (zulu != std::string::npos && s.find_first_of("0123456789:.+-TZ", zulu + 1) != std::string::npos) {
        return true;
    }
    if (time == std::string::npos) {
        return false;
    }
    if (std::count(s.begin() + static_cast<std::ptrdiff_t>(time), s.end(), ':') > 5) {
        return true;
    }
    const auto zone = s.find_first_of("+-", time);
    const auto minutes = zone == std::string::npos ? zone : s.find(':', zone);
    return minutes != std::string::npos && s.find_first_of(":.+-TZ", minutes + 1) != std::string::npos;
}
template <typename V> void strings(mc::Ctx &c)
{
    static const std::vector<std::string> dateTokens = { "2020", "-", "02", "29", "T", ":", "59", "1", ".", "Z", "+", "0", " ", "x", std::string(1, '\0') };
    static const std::vector<std::string> spanTokens = { "1", ":", "30", ".", "-", "5d", "h", "0", "99", " ", "e", "+", "x", ",", std::string(1, '\0') };
    const auto &tokens = std::is_same_v<V, DateTime> ? dateTokens : spanTokens;
    // starting from scratch or following something already valid
    static const std::vector<std::string> datePrefixes = { "", "2020-02-28T23:59:5", "2020-02-29T23:59:59.5", "2019-02-2" };
    static const std::vector<std::string> spanPrefixes = { "", "12:34:5", "2:03:04:05" };
    std::string s = c.pickFree(std::is_same_v<V, DateTime> ? datePrefixes : spanPrefixes);
    const auto n = s.empty() ? TOKENS : TOKENS - 1;
    for (int i = 0; i != n; ++i) {
        const auto k = c.free(static_cast<unsigned>(tokens.size() + 1));
        if (!k) {
            break;
        }
        s += tokens[k - 1];
    }
    c.describe(s);
    c.state(s);
    if (std::is_same_v<V, DateTime> && crashes(s)) {
        return;
    }
    checkString<V>(c, s);
}
static void pinnedCrash(mc::Ctx &c)
{
    c.describe("2020-02-29T23:59:59.5Z:2020");
    checkString<DateTime>(c, c.desc);
}
// time zones
static void zones(mc::Ctx &c)
{
    static const std::vector<std::pair<std::string, std::int64_t>> offsets = { { "", 0 }, { "Z", 0 }, { "+00:00", 0 }, { "-00:00", 0 }, { "+01:00", 60 }, { "-01:00", -60 }, { "+05:30", 330 }, { "-03:30", -210 }, { "+12:45", 765 }, { "+14:00", 840 }, { "-12:00", -720 }, { "+01", 60 }, { "-08", -480 } };
    static const std::vector<std::string> datesOnly = { "0001-01-03", "1970-01-01", "1999-12-31", "2000-02-29", "2019-02-28", "2020-02-29", "2020-03-01", "2020-12-31", "2021-01-01", "9999-12-29" };
    static const std::vector<std::string> timesOnly = { "T00:00:00", "T23:59:59", "T12:34:56", "T00:29:59", "T23:59:59.9999999", "T00:00:00.5", "T05:00:00.123" };
    const auto local = c.pickFree(datesOnly) + c.pickFree(timesOnly);
    const auto &offset = c.pickFree(offsets);
    const auto s = local + offset.first;
    c.describe(s);
    c.state(s);
    U64 expected = 0;
    c.check(parseIso(local, expected), "internal", "unable to parse " + local);
    expected -= static_cast<U64>(offset.second * static_cast<std::int64_t>(minute));
    DateTime d(5);
    rapidjson::Value v(s.data(), static_cast<rapidjson::SizeType>(s.size()));
    RJErrors errors;
    JR::pull(d, static_cast<const rapidjson::Value &>(v), &errors);
    c.check(errors.empty() && d.totalTicks() == expected, "zone", s + " yields " + num(d.totalTicks()) + " (" + d.toIsoString() + ") but expected " + num(expected) + ", " + errList(errors));
    checkString<DateTime>(c, s);
}

// ---- members and containers ---------------------------------------------------------------------------------------------
static const std::vector<J> &wrong()
{
    static const std::vector<J> w = { J::null(), J::boolean(true), J::lit("5"), J::lit("1.5"), J::arr(), J::arr({ J::str("2020-01-01") }), J::obj(), J::str("x"), J::str("2020-01-01T00:00:00x"), J::str("1:2:3:4:5"),
        J::str(std::string("2020-01-01\0", 11)), J::str(std::string("1:2\0x", 5)) };
    return w;
}
// a JSON value for a date/duration, updates the target/errors accordingly
template <typename V> J element(mc::Ctx &c, V &target, Errs &e, const char *valid)
{
    const auto n = c.choose(static_cast<unsigned>(wrong().size() + 1));
    if (!n) {
        if (!parse(std::string(valid), target)) {
            throw mc::Fail("internal", "invalid");
        }
        return J::str(valid);
    }
    const auto &w = wrong()[n - 1];
    if (w.t != J::Str) {
        e.add(EKTypeMismatch, JTString, jtOf(w));
    } else if (!parse(w.s, target)) {
        e.add(EKConversion, JTString, JTString);
    }
    return w;
}
static bool same(const T::Times &a, const T::Times &b)
{
    return a.pre == b.pre && a.date == b.date && a.span == b.span && a.dates == b.dates && a.spans == b.spans && a.maybe == b.maybe
        && static_cast<bool>(a.ptr) == static_cast<bool>(b.ptr) && (!a.ptr || *a.ptr == *b.ptr) && a.var == b.var && a.pair == b.pair && a.post == b.post;
}
static void members(mc::Ctx &c)
{
    T::Times expected;
    Errs e;
    if (std::string(MODE) == "gen") {
        e.record = "T::Times";
    }
    const auto member = [&e](const char *name) {
        e.hasMember = true;
        e.member = name;
        e.index = NOIDX;
    };
    auto j = J::obj();
    const auto missing = [&c] { return c.flip(); };
    j.o.emplace_back("pre", J::lit("8"));
    expected.pre = 8;
    if (!missing()) {
        member("date");
        j.o.emplace_back("date", element(c, expected.date, e, "2020-02-29T12:13:14.5"));
    }
    if (!missing()) {
        member("span");
        j.o.emplace_back("span", element(c, expected.span, e, "12:13:14.5"));
    }
    {
        member("dates");
        auto a = J::arr();
        for (unsigned i = 0, n = c.pick({ 2u, 0u, 1u, 3u }); i != n; ++i) {
            e.index = i;
            DateTime d;
            a.a.push_back(element(c, d, e, i ? "1999-12-31" : "0001-01-01T00:00:00.0000001"));
            expected.dates.push_back(d);
        }
        j.o.emplace_back("dates", a);
    }
    {
        member("spans");
        auto o = J::obj();
        for (const char *key : { "a", "b" }) {
            TimeSpan s;
            o.o.emplace_back(key, element(c, s, e, "00:00:01"));
            expected.spans[key] = s;
        }
        j.o.emplace_back("spans", o);
    }
    {
        member("maybe");
        if (c.flip()) {
            j.o.emplace_back("maybe", J::null());
        } else {
            DateTime d;
            auto v = element(c, d, e, "2001-02-03");
            if (v.t == J::Null) {
                e.list.pop_back();
            } else {
                expected.maybe = d;
            }
            j.o.emplace_back("maybe", v);
        }
        member("ptr");
        TimeSpan s;
        auto v = element(c, s, e, "5:00");
        if (v.t == J::Null) {
            e.list.pop_back();
        } else {
            expected.ptr = std::make_unique<TimeSpan>(s);
        }
        j.o.emplace_back("ptr", v);
    }
    {
        member("var");
        const auto index = c.pick({ 1u, 2u });
        J v;
        if (index == 1) {
            DateTime d;
            v = element(c, d, e, "2001-02-03");
            expected.var = d;
        } else {
            TimeSpan s;
            v = element(c, s, e, "6:00");
            expected.var = s;
        }
        j.o.emplace_back("var", J::obj({ { "index", J::uint(index) }, { "data", v } }));
    }
    {
        member("pair");
        auto x = element(c, expected.pair.first, e, "2001-02-03");
        auto y = element(c, expected.pair.second, e, "7:00");
        j.o.emplace_back("pair", J::arr({ x, y }));
    }
    j.o.emplace_back("post", J::str("end"));
    expected.post = "end";
    const auto text = jtext(j);
    c.describe(text);
    c.state(text);
    RJErrors errors;
    const auto actual = T::Times::fromJson(text, &errors);
    c.check(errList(errors) == errList(e.list), "member-errors", "errors: " + errList(errors) + " but expected " + errList(e.list));
    const auto got = std::string(actual.toJson().GetString());
    c.check(same(actual, expected), "member-values", "yields " + got + " but expected " + expected.toJson().GetString());
    c.check(same(T::Times::fromJson(text), expected), "member-values-without-errors", "different result without errors object");
    // back to JSON and binary
    RJErrors none;
    c.check(same(T::Times::fromJson(got, &none), expected) && none.empty(), "member-roundtrip", got + " restored differently: " + errList(none));
    std::stringstream s;
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    actual.toBinary(s);
    T::Times back;
    back.restoreFromBinary(s);
    c.check(same(back, expected), "member-binary", "restored from binary as " + std::string(back.toJson().GetString()));
    c.check(static_cast<std::size_t>(s.tellg()) == s.str().size(), "member-binary-size", "binary data not consumed");
}

int main(int argc, char **argv)
{
    std::vector<mc::Unit> units;
    units.push_back({ MODE "/members", BOUND, members, 2 });
#ifndef RRJ_HANA
    units.push_back({ "dates", 0, dates, 4 });
    units.push_back({ "spans", 0, spans, 2 });
    units.push_back({ "ticks", 0, ticks, 1 });
    units.push_back({ "pinned", 0, pinned, 1 });
    units.push_back({ "pinned/2020-02-29T23:59:59.5Z:2020", 0, pinnedCrash, 1 });
    units.push_back({ "date strings", 0, strings<DateTime>, 2 });
    units.push_back({ "span strings", 0, strings<TimeSpan>, 2 });
    units.push_back({ "zones", 0, zones, 1 });
#endif
    return mc::run(argc, argv, units);
}
