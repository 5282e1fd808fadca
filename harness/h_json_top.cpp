// JSON properties C01, C02, C04, C05 (selected via PROP) for types used on top level (via JsonReflector) or as plain value,
// for types which can only be serialised and for pinned special values.
#include "meta.h"
#include "lib_json.h"

#include <array>
#include <forward_list>

#ifndef BOUND
#define BOUND 1
#endif

using Sub = U::Sub;
enum class As { Top, Value };

template <typename T> rapidjson::Document makeDoc(const T &v, As as)
{
    rapidjson::Document doc;
    JR::push(v, doc, doc.GetAllocator());
    return doc;
}
template <typename T> std::string serialize(const T &v, As as)
{
    auto doc = makeDoc(v, as);
    return str(JR::serializeJsonDocToString(doc));
}
template <typename T> void prediction(T &expected, const J &doc, Errs &e, bool top)
{
    if (top && Ops<T>::jt() != JTNumber && Ops<T>::jt() != JTBool && jtOf(doc) != Ops<T>::jt()) {
        e.add(EKTypeMismatch, Ops<T>::jt(), jtOf(doc));
    } else {
        Ops<T>::pull(expected, doc, e);
    }
}

#if PROP == 1
template <typename T, bool top> void check(mc::Ctx &c)
{
    const T orig = Ops<T>::gen(c, 0);
    c.describe(show(orig));
    c.state(c.desc);
    const auto one = [&](const std::string &text) {
        if constexpr (top) {
            RJErrors errors;
            const T back = JR::fromJson<T>(text.data(), text.size(), &errors);
            c.check(errors.empty(), "errors", "errors reported when reading " + mc::printable(text) + ": " + errList(errors));
            c.check(Ops<T>::eq(orig, back), "differs", "fromJson(" + mc::printable(text) + ") yields " + show(back));
            const T back2 = JR::fromJson<T>(text);
            c.check(Ops<T>::eq(orig, back2), "differs2", "fromJson(" + mc::printable(text) + ") yields " + show(back2));
        }
        T target = Ops<T>::nth(1);
        RJErrors errors;
        const auto parsed = JR::parseJsonDocFromString(text.data(), text.size());
        JR::pull(target, static_cast<const rapidjson::Value &>(parsed), &errors);
        c.check(errors.empty(), "errors-pull", "errors reported by pull(): " + errList(errors));
        c.check(Ops<T>::eq(orig, target), "differs-pull", "pull(" + mc::printable(text) + ") yields " + show(target));
    };
    one(serialize(orig, As::Value));
    if constexpr (top) {
        auto doc = JR::toJsonDocument<T>(orig);
        one(str(JR::serializeJsonDocToString(doc)));
    }
}
#elif PROP == 2
template <typename T, bool top> void check(mc::Ctx &c)
{
    const T orig = Ops<T>::gen(c, 0);
    const auto expected = Ops<T>::push(orig);
    c.describe(jtext(expected));
    c.state(c.desc);
    const auto one = [&](rapidjson::Document doc) {
        c.check(jeq(toJ(doc), expected), "document", "document contains " + jtext(toJ(doc)) + " but expected " + jtext(expected));
        const auto text = str(JR::serializeJsonDocToString(doc));
        J parsed;
        c.check(jparse(text, parsed), "malformed", "malformed JSON: " + mc::printable(text));
        c.check(jeq(parsed, expected), "mapping", "yields " + mc::printable(text) + " but expected " + mc::printable(jtext(expected)));
    };
    one(makeDoc(orig, As::Value));
    if constexpr (top) {
        one(JR::toJsonDocument<T>(orig));
    }
}
#else
template <typename T, bool top> void check(mc::Ctx &c)
{
    const J doc = Ops<T>::doc(c, 0);
    const auto text = jtext(doc, 0);
    c.describe(text);
    c.state(text);
    const auto compare = [&](auto &&actual, const RJErrors *errors, const T &expected, const Errs &e, const char *what) {
#if PROP == 4
        c.check(Ops<T>::eq(actual, expected), what, std::string(what) + " yields " + show(actual) + " but expected " + show(expected));
#else
        if (errors) {
            c.check(errList(*errors) == errList(e.list), what, std::string(what) + ": errors: " + errList(*errors) + " but expected: " + errList(e.list));
        }
#endif
    };
    if constexpr (top) {
        T expected = T();
        Errs e;
        e.generated = false;
        prediction(expected, doc, e, true);
        RJErrors errors;
        compare(JR::fromJson<T>(text.data(), text.size(), &errors), &errors, expected, e, "fromJson");
        compare(JR::fromJson<T>(text), nullptr, expected, e, "fromJson-without-errors");
    }
    {
        T expected = Ops<T>::nth(1), target = Ops<T>::nth(1), target2 = Ops<T>::nth(1);
        Errs e;
        e.generated = false;
        prediction(expected, doc, e, false);
        RJErrors errors;
        const auto parsed = JR::parseJsonDocFromString(text.data(), text.size());
        JR::pull(target, static_cast<const rapidjson::Value &>(parsed), &errors);
        compare(target, &errors, expected, e, "pull");
        JR::pull(target2, static_cast<const rapidjson::Value &>(parsed), nullptr);
        compare(target2, nullptr, expected, e, "pull-without-errors");
#if PROP == 5
        c.check(std::string(errors.currentRecord) == "[document]" && !errors.currentMember && errors.currentIndex == NOIDX, "context",
            std::string("context not restored: ") + errors.currentRecord);
#endif
    }
}
#endif

#define TOP(...) units.push_back({ "top/" #__VA_ARGS__, BOUND, [](mc::Ctx &c) { check<__VA_ARGS__, true>(c); }, 1 });
#define VAL(...) units.push_back({ "value/" #__VA_ARGS__, BOUND, [](mc::Ctx &c) { check<__VA_ARGS__, false>(c); }, 1 });

// ---- pinned values -------------------------------------------------------------------------------------------------
#if PROP == 1
template <typename T> void pinned(mc::Ctx &c, T v)
{
    char name[64];
    std::snprintf(name, sizeof name, "%.17g", static_cast<double>(v));
    c.describe(name);
    c.state(c.desc);
    const auto text = str(JR::toJson(v));
    RJErrors errors;
    const auto back = JR::fromJson<T>(text.data(), text.size(), &errors);
    c.check(errors.empty() && Ops<T>::eq(v, back), name, "value is written as " + text + " and read back as different value");
}
// doubles which need (almost) all digits; several of them are not restored exactly by RapidJSON's fast parser
const std::vector<double> preciseDoubles = { 9007199254740991.0, 1.3927926388013963e-143, 0.1, 0.30000000000000004, 1.0 / 3.0, 2.2250738585072014e-308,
    1.7976931348623157e308, 5e-324, 3.141592653589793, 2.718281828459045, 123456789012345.67, 1e23, 8.98846567431158e307, 4.9406564584124654e-310 };
#elif PROP == 2
template <typename T> void pinned(mc::Ctx &c, T v)
{
    char name[64];
    std::snprintf(name, sizeof name, "%g", static_cast<double>(v));
    c.describe(name);
    c.state(c.desc);
    for (int nested = 0; nested != 2; ++nested) {
        const auto text = nested ? str(JR::toJson(std::vector<T>{ v, T(1) })) : str(JR::toJson(v));
        J parsed;
        c.check(jparse(text, parsed), name, "yields malformed JSON: " + text);
    }
}
template <typename T> void mapping(mc::Ctx &c, const T &v, const J &expected)
{
    c.describe(jtext(expected));
    c.state(c.desc);
    rapidjson::Document doc;
    JR::push(v, doc, doc.GetAllocator());
    c.check(jeq(toJ(doc), expected), "document", "document contains " + jtext(toJ(doc)) + " but expected " + jtext(expected));
    const auto text = str(JR::serializeJsonDocToString(doc));
    J parsed;
    c.check(jparse(text, parsed) && jeq(parsed, expected), "mapping", "yields " + text + " but expected " + jtext(expected));
    rapidjson::Document outer(rapidjson::kObjectType);
    {
        auto obj = outer.GetObject();
        JR::push(v, "m", obj, outer.GetAllocator());
    }
    rapidjson::Value arr(rapidjson::kArrayType);
    {
        auto array = arr.GetArray();
        JR::push(v, array, outer.GetAllocator());
    }
    c.check(jeq(toJ(outer), J::obj({ { "m", expected } })), "member", "as member: " + jtext(toJ(outer)) + " but expected " + jtext(expected));
    c.check(jeq(toJ(arr), J::arr({ expected })), "element", "as element: " + jtext(toJ(arr)) + " but expected " + jtext(expected));
}
#endif

int main(int argc, char **argv)
{
    std::vector<mc::Unit> units;
#if PART == 0
    TOP(bool)
    TOP(std::int32_t)
    TOP(std::uint32_t)
    TOP(std::int64_t)
    TOP(std::uint64_t)
    TOP(float)
    TOP(double)
    TOP(std::string)
    TOP(std::vector<int>)
    TOP(std::vector<std::string>)
    TOP(std::list<double>)
    TOP(std::deque<bool>)
    TOP(std::vector<std::vector<std::int64_t>>)
    TOP(std::vector<Sub>)
    TOP(std::list<std::unique_ptr<Sub>>)
    TOP(std::map<std::string, int>)
    TOP(std::unordered_map<std::string, std::vector<std::string>>)
    TOP(std::map<std::string, Sub>)
    TOP(std::multimap<std::string, int>)
    TOP(std::unordered_multimap<std::string, Sub>)
    TOP(std::map<std::string, std::map<std::string, bool>>)
#else
    VAL(std::map<std::string, std::tuple<int, std::string>>)
    VAL(std::map<std::string, std::pair<std::string, int>>)
    VAL(std::map<std::string, std::multimap<std::string, int>>)
    VAL(std::unordered_map<std::string, std::variant<int, std::string>>)
    VAL(std::map<std::string, std::set<std::string>>)
    VAL(std::map<std::string, std::optional<std::vector<int>>>)
    VAL(std::multimap<std::string, std::tuple<int, bool>>)
    VAL(std::multimap<std::string, std::map<std::string, int>>)
    VAL(std::multimap<std::string, std::variant<int, std::string>>)
    VAL(std::optional<std::tuple<int, std::string>>)
    VAL(std::shared_ptr<std::pair<int, std::string>>)
    VAL(std::unique_ptr<std::variant<int, std::string>>)
    VAL(std::optional<std::multimap<std::string, int>>)
    VAL(std::tuple<std::tuple<int, std::string>, std::vector<std::string>>)
    VAL(std::pair<std::vector<std::string>, std::map<std::string, int>>)
    VAL(std::pair<std::pair<int, int>, std::optional<int>>)
    VAL(std::tuple<std::vector<int>, std::map<std::string, int>, std::variant<int, bool>, std::optional<std::string>>)
    VAL(std::variant<std::tuple<int, int>, std::pair<std::string, int>, std::set<int>>)
    VAL(std::variant<std::unique_ptr<int>, std::multimap<std::string, int>>)
    VAL(std::vector<std::multimap<std::string, int>>)
    VAL(std::list<std::set<std::string>>)
    VAL(std::set<std::tuple<int, std::string>>)
    VAL(std::vector<std::vector<std::vector<int>>>)
    VAL(std::vector<std::vector<Sub>>)
#endif
#if PROP == 1 && PART == 0
    for (const auto d : preciseDoubles) {
        char name[64];
        std::snprintf(name, sizeof name, "precise/%.17g", d);
        units.push_back({ name, 0, [d](mc::Ctx &c) { pinned<double>(c, d); }, 1 });
    }
#endif
#if PROP == 5 && PART == 0
    // an errors object is used again after an error has been thrown
    units.push_back({ "reuse-after-throw", 0, [](mc::Ctx &c) {
        static const std::vector<std::string> docs = { "{\"k\":1}", "[1]", "{\"k\":{\"a\":null}}" };
        const auto &first = c.pickFree(docs);
        c.describe("throwing on " + first);
        c.state(c.desc);
        RJErrors errors;
        errors.throwOn = RJErrors::ThrowOn::All;
        bool thrown = false;
        try {
            JR::fromJson<std::map<std::string, Sub>>(first, &errors);
        } catch (const RJ::JsonDeserializationError &) {
            thrown = true;
        }
        c.check(thrown, "no-throw", "no error thrown");
        errors.clear();
        errors.throwOn = RJErrors::ThrowOn::None;
        JR::fromJson<std::vector<int>>("[2,null]", &errors);
        c.check(errList(errors) == "TypeMismatch(Number,Null) in [document]::(none)[1]", first.c_str(), "errors after reuse: " + errList(errors));
    }, 1 });
#endif
#if PROP == 2 && PART == 0
    units.push_back({ "nonfinite/double", 0, [](mc::Ctx &c) { pinned<double>(c, c.pickFree(std::vector<double>{ NAN, INFINITY, -INFINITY })); }, 1 });
    units.push_back({ "nonfinite/float", 0, [](mc::Ctx &c) { pinned<float>(c, c.pickFree(std::vector<float>{ NAN, INFINITY, -INFINITY })); }, 1 });
    const auto add = [&units](const char *name, auto v, J expected) {
        units.push_back({ name, 0, [v, expected](mc::Ctx &c) { mapping(c, v, expected); }, 1 });
    };
    units.push_back({ "top-only/string_view", 0, [](mc::Ctx &c) {
        static const std::string text("vi\0ew\"", 6);
        const auto n = c.free(7);
        const std::vector<char> heap(text.begin(), text.begin() + n); // not terminated
        c.describe("string_view of length " + std::to_string(n));
        c.state(c.desc);
        const auto doc = JR::toJsonDocument<std::string_view>(std::string_view(n ? heap.data() : "", n));
        c.check(jeq(toJ(doc), J::str(text.substr(0, n))), "document", "document contains " + jtext(toJ(doc)));
    }, 1 });
    units.push_back({ "top-only/const char *", 0, [](mc::Ctx &c) {
        const auto n = c.free(3);
        c.describe(std::to_string(n));
        c.state(c.desc);
        const char *const s = n == 0 ? nullptr : n == 1 ? "" : "c-str";
        const auto doc = JR::toJsonDocument<const char *>(s);
        c.check(jeq(toJ(doc), s ? J::str(s) : J::null()), "document", "document contains " + jtext(toJ(doc)));
    }, 1 });
    static std::string buffer("vi\0ew\"", 6);
    add("push/string_view", std::string_view(buffer), J::str(buffer));
    add("push/string_view part", std::string_view(buffer).substr(1, 3), J::str(buffer.substr(1, 3)));
    add("push/string_view empty", std::string_view(""), J::str(""));
    add("push/string_view null", std::string_view(), J::null());
    add("push/const char *", static_cast<const char *>("c-str\n"), J::str("c-str\n"));
    add("push/const char * null", static_cast<const char *>(nullptr), J::null());
    add("push/array", std::array<int, 3>{ { 1, -2, 3 } }, J::arr({ J::sint(1), J::sint(-2), J::sint(3) }));
    add("push/array of strings", std::array<std::string, 2>{ { "a", "" } }, J::arr({ J::str("a"), J::str("") }));
    add("push/forward_list", std::forward_list<int>{ 3, 2, 1 }, J::arr({ J::sint(3), J::sint(2), J::sint(1) }));
    add("push/forward_list empty", std::forward_list<std::string>(), J::arr());
    add("push/vector<const char *>", std::vector<const char *>{ "x", nullptr, "y" }, J::arr({ J::str("x"), J::null(), J::str("y") }));
    add("push/vector<string_view>", std::vector<std::string_view>{ "x", "" }, J::arr({ J::str("x"), J::str("") }));
    add("push/map<string_view>", std::map<std::string, std::string_view>{ { "k", "v" } }, J::obj({ { "k", J::str("v") } }));
    add("push/map with string_view keys", std::map<std::string_view, int>{ { "k", 1 } }, J::obj({ { "k", J::sint(1) } }));
#endif
    return mc::run(argc, argv, units);
}
