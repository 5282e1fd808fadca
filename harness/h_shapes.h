// C14: compares what generated code does with what is expected for the members of a class.
#include <functional>
#include <iostream>
#include <set>
#include <sstream>
#include "json.h"

struct Entry {
    const char *name, *owner;
    int (*get)(const void *);
    void (*set)(void *, int);
    int def;
    bool jsonPush, jsonPull, binWrite, binRead, settable;
    int jsonTimes, binTimes; // how often the member is considered when shared virtual bases are considered once per relevant base (known finding)
};
// operations on a class, type-erased to keep compile times low
struct Operations {
    void *(*make)();
    void (*destroy)(void *);
    std::string (*toJson)(const void *);
    void *(*fromJson)(const std::string &, ReflectiveRapidJSON::JsonDeserializationErrors &);
    void (*write)(std::ostream &, const void *);
    void (*read)(std::istream &, void *);
};
struct Object {
    const Operations &ops;
    void *o;
    Object(const Operations &ops, void *o)
        : ops(ops)
        , o(o)
    {
    }
    Object(const Object &) = delete;
    ~Object() { ops.destroy(o); }
    operator void *() const { return o; }
};
struct Failure {
    int shape;
    std::string cls, sig, msg;
};
static std::vector<Failure> failures;
static std::size_t classes = 0, checks = 0;
static int currentShape;
static const char *currentClass;

static void expect(bool ok, const char *sig, const std::function<std::string()> &msg)
{
    ++checks;
    if (!ok) {
        failures.push_back({ currentShape, currentClass, sig, msg() });
    }
}
static std::string escaped(const std::string &s)
{
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
        }
        r += c < 0x20 ? ' ' : static_cast<char>(c);
    }
    return r;
}
static int finish()
{
    std::cout << "\n{\"classes\": " << classes << ", \"checks\": " << checks << ", \"failures\": [";
    for (std::size_t i = 0; i != failures.size(); ++i) {
        const auto &f = failures[i];
        std::cout << (i ? ", " : "") << "{\"shape\": " << f.shape << ", \"class\": \"" << escaped(f.cls) << "\", \"sig\": \"" << f.sig << "\", \"msg\": \"" << escaped(f.msg)
                  << "\"}";
    }
    std::cout << "]}\n";
    return 0;
}
namespace RJ = ReflectiveRapidJSON;

static std::string values(const void *o, const std::vector<Entry> &entries)
{
    std::string r;
    for (const auto &e : entries) {
        r += std::string(e.name) + "=" + std::to_string(e.get(o)) + " ";
    }
    return r;
}

static void runJson(const Operations &ops, const std::vector<Entry> &entries)
{
    const Object o(ops, ops.make());
    int n = 0;
    for (const auto &e : entries) {
        if (e.settable) {
            e.set(o, 100000 + n++);
        }
    }
    const auto text = ops.toJson(o);
    J j;
    expect(jparse(text, j) && j.t == J::Obj, "json", [&] { return "object expected but " + text + " serialised"; });
    std::multiset<std::string> is, expected, repeated;
    for (const auto &m : j.o) {
        is.insert(m.first + "=" + jtext(m.second));
    }
    for (const auto &e : entries) {
        if (e.jsonPush) {
            expected.insert(std::string(e.name) + "=" + std::to_string(e.get(o)));
            for (int i = 0; i != e.jsonTimes; ++i) {
                repeated.insert(std::string(e.name) + "=" + std::to_string(e.get(o)));
            }
        }
    }
    expect(is == expected, is == repeated ? "json-push-repeated" : "json-push", [&] {
        std::string x;
        for (const auto &s : expected) {
            x += s + " ";
        }
        return "serialised as " + text + " but expected is " + x;
    });
    if (ops.fromJson) {
        // read all members
        auto doc = J::obj();
        n = 0;
        for (const auto &e : entries) {
            doc.o.emplace_back(e.name, J::sint(200000 + n++));
        }
        doc.o.emplace_back("additional", J::sint(1));
        const auto docText = jtext(doc);
        RJ::JsonDeserializationErrors errors;
        const Object p(ops, ops.fromJson(docText, errors));
        expect(errors.empty(), "json-errors", [&] { return std::to_string(errors.size()) + " errors for " + docText; });
        n = 0;
        for (const auto &e : entries) {
            const auto want = e.jsonPull ? 200000 + n : e.def;
            expect(e.get(p) == want, "json-pull", [&] { return std::string(e.owner) + "::" + e.name + " is expected to be " + std::to_string(want) + " after reading " + docText + ", actual values: " + values(p, entries); });
            ++n;
        }
        // each member is considered exactly once
        for (auto &m : doc.o) {
            m.second = J::str("x");
        }
        const auto badText = jtext(doc);
        const Object q(ops, ops.fromJson(badText, errors));
        std::multiset<std::string> errs, expectedErrs, repeatedErrs;
        for (const auto &e : errors) {
            errs.insert(std::string(e.record ? e.record : "-") + "::" + (e.member ? e.member : "-"));
        }
        for (const auto &e : entries) {
            if (e.jsonPull) {
                expectedErrs.insert(std::string(e.owner) + "::" + e.name);
                for (int i = 0; i != e.jsonTimes; ++i) {
                    repeatedErrs.insert(std::string(e.owner) + "::" + e.name);
                }
            }
            expect(e.get(q) == e.def, "json-mismatch", [&] { return std::string(e.name) + " altered by " + badText; });
        }
        expect(errs == expectedErrs, errs == repeatedErrs ? "json-once-repeated" : "json-once", [&] {
            std::string x;
            for (const auto &s : errs) {
                x += s + " ";
            }
            x += "but expected is ";
            for (const auto &s : expectedErrs) {
                x += s + " ";
            }
            return "errors for " + badText + ": " + x;
        });
    }
}

static void runBinary(const Operations &ops, const std::vector<Entry> &entries)
{
    const Object o(ops, ops.make());
    int n = 0;
    std::multiset<int> expected, is, repeated;
    for (const auto &e : entries) {
        if (e.settable) {
            e.set(o, 100000 + n++);
        }
        if (e.binWrite) {
            expected.insert(e.get(o));
            for (int i = 0; i != e.binTimes; ++i) {
                repeated.insert(e.get(o));
            }
        }
    }
    std::stringstream s;
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    ops.write(s, o);
    const auto data = s.str();
    const auto list = [](const std::multiset<int> &x) {
        std::string r;
        for (const auto i : x) {
            r += std::to_string(i) + " ";
        }
        return r;
    };
    for (std::size_t i = 0; i + 4 <= data.size(); i += 4) {
        std::uint32_t v = 0;
        for (std::size_t k = 0; k != 4; ++k) {
            v = v << 8 | static_cast<unsigned char>(data[i + k]);
        }
        is.insert(static_cast<int>(v));
    }
    expect(data.size() % 4 == 0 && is == expected, data.size() % 4 == 0 && is == repeated ? "binary-write-repeated" : "binary-write",
        [&] { return "written values: " + list(is) + "(" + std::to_string(data.size()) + " bytes), expected: " + list(expected); });
    if (ops.read) {
        bool same = true;
        std::size_t count = 0, times = 0;
        for (const auto &e : entries) {
            same = same && e.binWrite == e.binRead;
            count += e.binRead;
            times += e.binRead ? e.binTimes : 0;
        }
        // read consecutive values
        std::string input;
        std::multiset<int> given, taken;
        for (std::size_t i = 0; i != times + 3; ++i) {
            const auto v = static_cast<std::uint32_t>(300000 + i);
            for (int k = 24; k >= 0; k -= 8) {
                input += static_cast<char>(v >> k & 0xFF);
            }
            if (i < count) {
                given.insert(static_cast<int>(v));
            }
        }
        std::stringstream t(input);
        t.exceptions(std::ios_base::failbit | std::ios_base::badbit);
        const Object p(ops, ops.make());
        try {
            ops.read(t, p);
        } catch (const std::exception &e) {
            expect(false, "binary-read", [&] { return std::string("reading failed: ") + e.what(); });
            return;
        }
        const bool repeatedly = times != count && t.tellg() == static_cast<std::streamoff>(4 * times);
        expect(t.tellg() == static_cast<std::streamoff>(4 * count), repeatedly ? "binary-read-repeated" : "binary-read",
            [&] { return std::to_string(t.tellg()) + " bytes have been consumed but there are " + std::to_string(count) + " members to be read"; });
        for (const auto &e : entries) {
            if (e.binRead) {
                taken.insert(e.get(p));
            } else {
                expect(e.get(p) == e.def, "binary-read", [&] { return std::string(e.name) + " must not be read: " + values(p, entries); });
            }
        }
        expect(taken == given || repeatedly, "binary-read", [&] { return "values read: " + list(taken) + ", expected: " + list(given); });
        // read back what has been written
        if (same) {
            s.seekg(0);
            const Object q(ops, ops.make());
            try {
                ops.read(s, q);
            } catch (const std::exception &e) {
                expect(false, "binary-roundtrip", [&] { return std::string("reading failed: ") + e.what(); });
                return;
            }
            for (const auto &e : entries) {
                const auto want = e.binRead ? e.get(o) : e.def;
                expect(e.get(q) == want, "binary-roundtrip", [&] { return std::string(e.name) + " is not restored: " + values(q, entries) + "from " + values(o, entries); });
            }
        }
    }
}

static void run(int shape, const char *name, const Operations &ops, const std::vector<Entry> &entries)
{
    currentShape = shape;
    currentClass = name;
    ++classes;
    std::cout << "running " << shape << ' ' << name << std::endl;
    if (ops.toJson) {
        runJson(ops, entries);
    }
    if (ops.write) {
        runBinary(ops, entries);
    }
}

template <typename K, bool json, bool binary, bool ctor> Operations operations()
{
    Operations o = {};
    o.make = []() -> void * {
        if constexpr (ctor) {
            return new K();
        } else {
            return new K(0);
        }
    };
    o.destroy = [](void *k) { delete static_cast<K *>(k); };
    if constexpr (json) {
        o.toJson = [](const void *k) {
            const auto buffer = RJ::JsonReflector::toJson(*static_cast<const K *>(k));
            return std::string(buffer.GetString(), buffer.GetSize());
        };
        if constexpr (ctor) {
            o.fromJson = [](const std::string &text, RJ::JsonDeserializationErrors &errors) -> void * {
                return new K(RJ::JsonReflector::fromJson<K>(text.data(), text.size(), &errors));
            };
        }
    }
    if constexpr (binary) {
        o.write = [](std::ostream &s, const void *k) { RJ::BinaryReflector::BinarySerializer(&s).write(*static_cast<const K *>(k)); };
        if constexpr (ctor) {
            o.read = [](std::istream &s, void *k) { RJ::BinaryReflector::BinaryDeserializer(&s).read(*static_cast<K *>(k)); };
        }
    }
    return o;
}
