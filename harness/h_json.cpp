// JSON properties C01 - C06 and C08 (selected via PROP), explored for all classes of one GROUP.
#include "meta.h"
#ifndef RRJ_HANA
#include "gen.h"
#endif
#include "lib_json.h"

#ifndef BOUND
#define BOUND 1
#endif
#ifdef RRJ_HANA
#define MODE "hana"
constexpr bool generatedCode = false;
#else
#define MODE "gen"
constexpr bool generatedCode = true;
#endif

#if PROP == 1
// round trip
template <typename T> void check(mc::Ctx &c)
{
    const T orig = Ops<T>::gen(c, 0);
    c.describe(show(orig));
    c.state(c.desc);
    const auto text = str(orig.toJson());
    {
        RJErrors errors;
        const T back = T::fromJson(text.data(), text.size(), &errors);
        c.check(errors.empty(), "errors", "errors reported when reading " + mc::printable(text) + ": " + errList(errors));
        c.check(Ops<T>::eq(orig, back), "differs", "fromJson(" + mc::printable(text) + ") yields " + show(back));
    }
    {
        const auto text2 = str(JR::toJson(orig));
        RJErrors errors;
        const T back = JR::fromJson<T>(text2, &errors);
        c.check(errors.empty(), "errors-reflector", "errors reported when reading " + mc::printable(text2) + ": " + errList(errors));
        c.check(Ops<T>::eq(orig, back), "differs-reflector", "JsonReflector::fromJson(" + mc::printable(text2) + ") yields " + show(back));
    }
    {
        // via document into an object with previous contents
        auto doc = orig.toJsonDocument();
        T target = Ops<T>::nth(1);
        RJErrors errors;
        const auto &constDoc = doc;
        JR::pull(target, constDoc.GetObject(), &errors);
        c.check(errors.empty(), "errors-pull", "errors reported by pull(): " + errList(errors));
        c.check(Ops<T>::eq(orig, target), "differs-pull", "pull() from " + jtext(toJ(doc)) + " into object with previous contents yields " + show(target));
    }
}
#elif PROP == 2
// mapping
template <typename T> void check(mc::Ctx &c)
{
    const T orig = Ops<T>::gen(c, 0);
    const auto expected = Ops<T>::push(orig);
    c.describe(jtext(expected));
    c.state(c.desc);
    const auto text = str(orig.toJson());
    J parsed;
    c.check(jparse(text, parsed), "malformed", "toJson() yields malformed JSON: " + mc::printable(text));
    c.check(jeq(parsed, expected), "mapping", "toJson() yields " + mc::printable(text) + " but expected " + mc::printable(jtext(expected)));
    const auto text2 = str(JR::toJson(orig));
    c.check(text2 == text, "reflector", "JsonReflector::toJson() yields " + mc::printable(text2) + " but toJson() yields " + mc::printable(text));
    auto doc = orig.toJsonDocument();
    c.check(jeq(toJ(doc), expected), "document", "toJsonDocument() yields " + jtext(toJ(doc)) + " but expected " + jtext(expected));
}
#elif PROP == 3
// document independent from source
template <typename T> void check(mc::Ctx &c)
{
    const auto order = c.free(4);
    auto source = std::make_unique<T>(Ops<T>::gen(c, 0));
    const auto expected = Ops<T>::push(*source);
    c.describe("order " + std::to_string(order) + ": " + jtext(expected));
    c.state(c.desc);
    if (order == 0) {
        auto doc = source->toJsonDocument();
        source.reset();
        const auto text = str(JR::serializeJsonDocToString(doc));
        J parsed;
        c.check(jparse(text, parsed) && jeq(parsed, expected), "destroyed", "document contains " + mc::printable(text) + " after destroying the source");
    } else if (order == 1) {
        auto doc = source->toJsonDocument();
        *source = Ops<T>::nth(7);
        c.check(jeq(toJ(doc), expected), "modified", "document contains " + jtext(toJ(doc)) + " after modifying the source");
        source.reset();
        auto moved = std::move(doc);
        c.check(jeq(toJ(moved), expected), "moved", "document contains " + jtext(toJ(moved)) + " after destroying the source and moving the document");
    } else if (order == 2) {
        // as element of an array and as member of an object of another document
        rapidjson::Document doc(rapidjson::kObjectType);
        rapidjson::Value arr(rapidjson::kArrayType);
        {
            auto array = arr.GetArray();
            JR::push(*source, array, doc.GetAllocator());
            JR::push(*source, array, doc.GetAllocator());
        }
        doc.AddMember("arr", arr, doc.GetAllocator());
        {
            auto obj = doc.GetObject();
            JR::push(*source, "obj", obj, doc.GetAllocator());
        }
        source.reset();
        const auto j = toJ(doc);
        c.check(jeq(j, J::obj({ { "arr", J::arr({ expected, expected }) }, { "obj", expected } })), "nested", "document contains " + jtext(j));
    } else {
        // the document can be changed without affecting the source
        auto doc = source->toJsonDocument();
        doc.SetNull();
        doc = rapidjson::Document();
        c.check(jeq(Ops<T>::push(*source), expected), "source-changed", "source is " + show(*source) + " after destroying the document");
    }
}
#elif PROP == 4 || PROP == 5 || PROP == 6
inline RJErrors::ThrowOn throwOn(unsigned mask)
{
    return static_cast<RJErrors::ThrowOn>(mask);
}
template <typename T> void check(mc::Ctx &c)
{
    const J doc = Ops<T>::doc(c, 0);
    const auto text = jtext(doc, 0);
    c.describe(text);
    c.state(text);
    // predict
    const bool topLevelOk = doc.t == J::Obj;
#if PROP == 4
    {
        const auto before = allocatedBytes();
        {
            T expected;
            Errs e;
            e.generated = generatedCode;
            if (topLevelOk) {
                Ops<T>::pull(expected, doc, e);
            }
            RJErrors errors;
            const T withErrors = T::fromJson(text.data(), text.size(), &errors);
            c.check(Ops<T>::eq(withErrors, expected), "value", "fromJson() yields " + show(withErrors) + " but expected " + show(expected));
            const T without = T::fromJson(text);
            c.check(Ops<T>::eq(without, expected), "value-without-errors",
                "fromJson() without errors object yields " + show(without) + " but expected " + show(expected));
            if (topLevelOk) {
                T expected2 = Ops<T>::nth(1), target = Ops<T>::nth(1);
                Ops<T>::pull(expected2, doc, e);
                rapidjson::Document d = JR::parseJsonDocFromString(text.data(), text.size());
                const auto &constDoc = d;
                JR::pull(target, constDoc.GetObject(), &errors);
                c.check(Ops<T>::eq(target, expected2), "value-previous", "pull() into non-default object yields " + show(target) + " but expected " + show(expected2));
                T target2 = Ops<T>::nth(1);
                JR::pull(target2, constDoc.GetObject(), nullptr);
                c.check(Ops<T>::eq(target2, expected2), "value-previous-without-errors",
                    "pull() into non-default object without errors yields " + show(target2) + " but expected " + show(expected2));
                c.check(jeq(toJ(d), [&] { J p; jparse(text, p); return p; }()), "document-changed", "pull() changed the document");
            }
        }
        const auto after = allocatedBytes();
        c.check(after <= before + 16384, "leak", "leaked " + std::to_string(after - before) + " bytes");
    }
#elif PROP == 5
    {
        T expected;
        Errs e;
        e.generated = generatedCode;
        if (topLevelOk) {
            Ops<T>::pull(expected, doc, e);
        } else {
            e.add(EKTypeMismatch, JTObject, jtOf(doc));
        }
        RJErrors errors;
        T::fromJson(text.data(), text.size(), &errors);
        c.check(errList(errors) == errList(e.list), "errors", "errors: " + errList(errors) + " but expected: " + errList(e.list));
        c.check(std::string(errors.currentRecord) == "[document]" && !errors.currentMember && errors.currentIndex == NOIDX, "context",
            std::string("context not restored: ") + errors.currentRecord + ", " + (errors.currentMember ? errors.currentMember : "-") + ", "
                + std::to_string(errors.currentIndex));
        // further errors are appended
        const auto once = errors.size();
        T::fromJson(text, &errors);
        c.check(errors.size() == 2 * once, "append", "reusing errors leads to " + errList(errors));
        for (std::size_t i = 0; i != once; ++i) {
            c.check(errText(errors[i]) == errText(errors[i + once]), "append-differs", errText(errors[i]) + " vs. " + errText(errors[i + once]));
        }
    }
#else
    std::size_t all = 0;
    {
        T x;
        Errs e;
        e.generated = generatedCode;
        if (topLevelOk) {
            Ops<T>::pull(x, doc, e);
        } else {
            e.add(EKTypeMismatch, JTObject, jtOf(doc));
        }
        all = e.list.size();
    }
#ifdef ALL_MASKS
    constexpr bool allMasks = true;
#else
    constexpr bool allMasks = false;
#endif
    for (unsigned mask = 0; mask != 65; ++mask) {
        // quick: none, all, each single kind and each complement
        const unsigned bits = __builtin_popcount(mask & 0x3F);
        if (!allMasks && mask != 64 && bits > 1 && bits < 5) {
            continue;
        }
        T expected;
        Errs e;
        e.generated = generatedCode;
        e.mask = mask == 64 ? 0x3F : mask;
        bool expectThrow = false;
        try {
            if (topLevelOk) {
                Ops<T>::pull(expected, doc, e);
            } else {
                e.add(EKTypeMismatch, JTObject, jtOf(doc));
            }
        } catch (const RThrow &) {
            expectThrow = true;
        }
        RJErrors errors;
        errors.throwOn = mask == 64 ? RJErrors::ThrowOn::All : throwOn(mask);
        bool thrown = false;
        const auto ctx = [&] { return "throwOn=" + std::to_string(mask) + ", all errors: " + std::to_string(all) + ": "; };
        try {
            const T result = T::fromJson(text.data(), text.size(), &errors);
            c.check(expectThrow || Ops<T>::eq(result, expected), "value", ctx() + "result is " + show(result) + " but expected " + show(expected));
        } catch (const RJ::JsonDeserializationError &error) {
            thrown = true;
            c.check(expectThrow, "throws", ctx() + "unexpectedly throws " + errText(error));
            c.check(errText(error) == errText(e.list.back()), "throws-other", ctx() + "throws " + errText(error) + " instead of " + errText(e.list.back()));
        }
        c.check(thrown == expectThrow, "no-throw", ctx() + "does not throw; errors: " + errList(errors) + ", expected " + errList(e.list));
        c.check(errList(errors) == errList(e.list), "errors", ctx() + "errors: " + errList(errors) + " but expected: " + errList(e.list));
    }
#endif
}
#endif

#define ADD_UNIT(n, ...) units.push_back({ MODE "/W" #n " " #__VA_ARGS__, BOUND, [](mc::Ctx &c) { check<UNIV::W##n>(c); }, SHARDS });
#ifndef SHARDS
#define SHARDS 1
#endif

int main(int argc, char **argv)
{
    std::vector<mc::Unit> units;
    ALL_W(ADD_UNIT)
    if (GROUP == 7) {
        units.push_back({ MODE "/Tree", BOUND, [](mc::Ctx &c) { check<UNIV::Tree>(c); }, SHARDS });
        units.push_back({ MODE "/Mixed", BOUND, [](mc::Ctx &c) { check<UNIV::Mixed>(c); }, SHARDS });
    }
    return mc::run(argc, argv, units);
}
