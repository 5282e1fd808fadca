// C21: formatted deserialisation errors.
#include "meta.h"
#include "gen.h"
#include "lib_json.h"

#include <reflective_rapidjson/json/errorformatting.h>

#ifndef BOUND
#define BOUND 2
#endif
constexpr bool generatedCode = true;

static const std::vector<std::string> &kinds()
{
    static const std::vector<std::string> k = { "type mismatch", "array size mismatch", "conversion error", "unexpected duplicate", "invalid variant object",
        "invalid variant index" };
    return k;
}
static const std::vector<std::string> &types()
{
    static const std::vector<std::string> t = { "null", "number", "bool", "string", "array", "object" };
    return t;
}

// the part of an error which is supposed to be shown
static std::string shown(int kind, int expected, int actual, const char *record, const char *member, std::size_t index)
{
    auto s = std::to_string(kind < 6 ? kind : 6);
    if (kind == 0) {
        s += "(" + std::to_string(std::min(expected, 6)) + "," + std::to_string(std::min(actual, 6)) + ")";
    }
    if (!record) {
        return s + " document";
    }
    s += " record=" + std::string(record);
    if (member) {
        s += " member=" + std::string(member);
    } else if (index != NOIDX) {
        s += " index=" + std::to_string(index);
    }
    return s;
}
static bool takeOut(std::string &text, const std::string &part)
{
    const auto pos = text.find(part);
    if (pos == std::string::npos) {
        return false;
    }
    text.replace(pos, part.size(), "#");
    return true;
}
static void checkText(mc::Ctx &c, const std::string &text, int kind, int expected, int actual, const char *record, const char *member, std::size_t index)
{
    auto rest = text;
    const auto fail = [&](const char *sig, const std::string &what) {
        c.check(false, sig, shown(kind, expected, actual, record, member, index) + " is formatted as " + mc::printable(text) + ": " + what);
    };
    for (unsigned char ch : text) {
        if (ch < 0x20) {
            fail("control", "contains control characters");
        }
    }
    // location
    if (record && !takeOut(rest, '"' + std::string(record) + '"')) {
        fail("record", "does not name the record");
    }
    if (record && member && !takeOut(rest, '"' + std::string(member) + '"')) {
        fail("member", "does not name the member");
    }
    if (record && !member && index != NOIDX && !takeOut(rest, '"' + std::to_string(index) + '"')) {
        fail("index", "does not name the index");
    }
    // kind
    for (std::size_t k = 0; k != kinds().size(); ++k) {
        const auto contained = takeOut(rest, kinds()[k]);
        if (contained != (static_cast<int>(k) == kind)) {
            fail("kind", contained ? "names another kind" : "does not name the kind");
        }
    }
    // expected and actual type
    std::vector<std::pair<std::size_t, std::string>> present;
    for (const auto &t : types()) {
        for (auto pos = rest.find('"' + t + '"'); pos != std::string::npos; pos = rest.find('"' + t + '"', pos + 1)) {
            present.emplace_back(pos, t);
        }
    }
    std::sort(present.begin(), present.end());
    std::vector<std::string> wanted, found;
    if (kind == 0) {
        for (const auto t : { expected, actual }) {
            if (t < 6) {
                wanted.push_back(types()[static_cast<std::size_t>(t)]);
            }
        }
    }
    for (const auto &p : present) {
        found.push_back(p.second);
    }
    if (found != wanted) {
        fail("types", kind == 0 ? "does not name the expected and the actual type" : "names types");
    }
    if (!record && rest.find("document") == std::string::npos) {
        fail("document", "does not mention the document");
    }
    // different errors have different texts
    static std::map<std::string, std::string> known;
    const auto key = shown(kind, expected, actual, record, member, index);
    const auto i = known.emplace(text, key).first;
    if (i->second != key) {
        fail("ambiguous", "same text as for " + i->second);
    }
}

static void combinations(mc::Ctx &c)
{
    static const std::string longName(300, 'L');
    const char *const records[] = { "A", nullptr, "[document]", "", "ns::B", "ns::T<int>", "a b", "member", "number", longName.c_str() };
    const char *const members[] = { nullptr, "a", "", "b", "0", "null", "document", longName.c_str() };
    const std::size_t indexes[] = { NOIDX, 0, 1, 9, 10, 11, 4294967295u, 4294967296u, NOIDX - 1 };
    const int kind = static_cast<int>(c.pickFree(std::vector<int>{ 0, 1, 2, 3, 4, 5, 6, 255 }));
    const int expected = static_cast<int>(c.pickFree(std::vector<int>{ 0, 1, 2, 3, 4, 5, 6, 255 }));
    const int actual = static_cast<int>(c.pickFree(std::vector<int>{ 0, 1, 2, 3, 4, 5, 6, 255 }));
    const auto record = records[c.free(sizeof(records) / sizeof(records[0]))];
    const auto member = members[c.free(sizeof(members) / sizeof(members[0]))];
    const auto index = indexes[c.free(sizeof(indexes) / sizeof(indexes[0]))];
    const RJ::JsonDeserializationError error(
        static_cast<RJ::JsonDeserializationErrorKind>(kind), static_cast<RJ::JsonType>(expected), static_cast<RJ::JsonType>(actual), record, member, index);
    c.describe(shown(kind, expected, actual, record, member, index));
    c.state(errText(kind < 6 ? kind : 6, std::min(expected, 6), std::min(actual, 6), record, member, index));
    const auto text = RJ::formatJsonDeserializationError(error);
    checkText(c, text, kind, expected, actual, record, member, index);
    c.check(RJ::formatJsonDeserializationError(error) == text, "unstable", "formatting an error again leads to a different text");
}

// errors reported when deserialising, formatted after everything else is gone
template <typename T> void documents(mc::Ctx &c)
{
    auto doc = std::make_unique<J>(Ops<T>::doc(c, 0));
    auto text = std::make_unique<std::string>(jtext(*doc, 0));
    c.describe(*text);
    c.state(*text);
    Errs e;
    e.generated = generatedCode;
    if (doc->t == J::Obj) {
        T expected;
        Ops<T>::pull(expected, *doc, e);
    } else {
        e.add(EKTypeMismatch, JTObject, jtOf(*doc));
    }
    std::vector<RJ::JsonDeserializationError> kept;
    {
        RJErrors errors;
        JR::fromJson<T>(text->data(), text->size(), &errors);
        kept.assign(errors.begin(), errors.end());
    }
    text.reset();
    doc.reset();
    c.check(kept.size() == e.list.size(), "count", "reported errors: " + errList(kept) + ", expected " + errList(e.list));
    for (std::size_t i = 0; i != kept.size(); ++i) {
        const auto &x = e.list[i];
        checkText(c, RJ::formatJsonDeserializationError(kept[i]), x.kind, x.expected, x.actual, x.record.c_str(), x.hasMember ? x.member.c_str() : nullptr, x.index);
    }
}

int main(int argc, char **argv)
{
    std::vector<mc::Unit> units;
    units.push_back({ "combinations", 0, combinations, 1 });
    units.push_back({ "documents/Sub", BOUND, documents<UNIV::Sub>, 1 });
    units.push_back({ "documents/Tree", BOUND, documents<UNIV::Tree>, 1 });
    units.push_back({ "documents/Derived2", BOUND, documents<UNIV::Derived2>, 1 });
    units.push_back({ "documents/Mixed", BOUND, documents<UNIV::Mixed>, 1 });
    return mc::run(argc, argv, units);
}
