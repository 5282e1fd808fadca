// C19: all interleavings of two (or three) (de)serialisations with a bounded number of preemptions; (de)serialisations nested into each other
#include "./mc.h"
#include "./controlled.h"
#include "./types_threads.h"

#include "gen.h"

#include <sstream>

#ifndef PREEMPTIONS
#define PREEMPTIONS 1
#endif

#ifndef PAIRLIMIT
#define PAIRLIMIT 40000
#endif

namespace RRJ = ReflectiveRapidJSON;
namespace JR = ReflectiveRapidJSON::JsonReflector;
namespace BR = ReflectiveRapidJSON::BinaryReflector;
using namespace T;

using Run = std::function<std::string()>; // invokes the library and returns a canonical representation of the result
struct Op {
    std::string name;
    std::function<Run()> make; // creates the objects
};

static Sub makeSub(int n)
{
    Sub s;
    s.number = n;
    s.text = "text" + std::to_string(n);
    s.list = { n, n + 1, n + 2 };
    return s;
}
static std::shared_ptr<Rich> makeRich(int n)
{
    auto r = std::make_shared<Rich>();
    r->color = Color::Blue;
    r->subs = { makeSub(n) };
    r->map = { { "a", n }, { "b", 2 } };
    r->hash = { { "key", makeSub(n + 2) } };
    r->multi = { { "m", 1 }, { "m", n }, { "n", 3 } };
    r->set = { "x" + std::to_string(n), "y" };
    r->multiset = { n, n };
    r->optional = "opt" + std::to_string(n);
    r->unique = std::make_unique<Sub>(makeSub(n + 3));
    r->shared = r->sharedToo = std::make_shared<Sub>(makeSub(n + 4));
    r->variant = makeSub(n + 5);
    r->pair = { n, "second" };
    r->list = { "l1", "l2" };
    return r;
}
static std::shared_ptr<Node> makeNodes(int n)
{
    auto r = std::make_shared<Node>();
    r->id = n;
    r->a = std::make_shared<Node>();
    r->a->id = n + 1;
    r->b = std::make_shared<Node>();
    r->b->id = n + 2;
    r->b->a = r->a;
    r->a->b = std::make_shared<Node>();
    return r;
}
static std::string text(const Sub &s)
{
    std::string r = "{" + std::to_string(s.number) + "," + s.text;
    for (auto i : s.list) {
        r += "," + std::to_string(i);
    }
    return r + "}";
}
static std::string text(const Rich &r)
{
    std::string t = std::to_string(static_cast<int>(r.color));
    for (const auto &s : r.subs)
        t += text(s);
    for (const auto &s : r.map)
        t += s.first + std::to_string(s.second);
    std::map<std::string, std::string> sorted;
    for (const auto &s : r.hash)
        sorted[s.first] = text(s.second);
    for (const auto &s : sorted)
        t += s.first + s.second;
    for (const auto &s : r.multi)
        t += s.first + std::to_string(s.second);
    for (const auto &s : r.set)
        t += s;
    for (const auto &s : r.multiset)
        t += std::to_string(s);
    t += r.optional ? *r.optional : "none";
    t += r.unique ? text(*r.unique) : "null";
    t += r.shared ? text(*r.shared) : "null";
    t += r.sharedToo ? text(*r.sharedToo) : "null";
    t += r.shared == r.sharedToo ? "same" : "different";
    t += std::to_string(r.variant.index());
    if (r.variant.index() == 3)
        t += text(std::get<3>(r.variant));
    t += std::to_string(r.pair.first) + r.pair.second;
    for (const auto &s : r.list)
        t += s;
    return t;
}
static std::string text(const Node *n, std::map<const Node *, int> &seen)
{
    if (!n) {
        return "-";
    }
    const auto known = seen.find(n);
    if (known != seen.end()) {
        return "#" + std::to_string(known->second);
    }
    const auto id = static_cast<int>(seen.size());
    seen[n] = id;
    return "(" + std::to_string(n->id) + text(n->a.get(), seen) + text(n->b.get(), seen) + ")";
}
static std::string text(const RRJ::JsonDeserializationErrors &e)
{
    std::string t = " errors:";
    for (const auto &i : e) {
        t += std::to_string(static_cast<int>(i.kind)) + "/" + std::to_string(static_cast<int>(i.expectedType)) + "/" + std::to_string(static_cast<int>(i.actualType)) + "/"
            + (i.record ? i.record : "-") + "/" + (i.member ? i.member : "-") + "/" + std::to_string(i.index) + ";";
    }
    return t;
}
static std::string text(RAPIDJSON_NAMESPACE::Document &d) { return JR::serializeJsonDocToString(d).GetString(); }
template <typename Type> static std::string toBytes(const Type &t)
{
    std::ostringstream s;
    s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    BR::BinarySerializer(&s).write(t);
    return s.str();
}

// pointers are identified by an ID depending on the address so compare what has been written after reading it again
template <typename Type> static std::string writtenText(const Type &t)
{
    std::istringstream s(toBytes(t));
    s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
    const auto r = Type::fromBinary(s);
    if constexpr (std::is_same_v<Type, Node>) {
        std::map<const Node *, int> seen;
        return text(&r, seen);
    } else {
        return text(r);
    }
}

static const char *const richJson
    = "{\"color\":2,\"subs\":[{\"number\":5,\"text\":\"five\",\"list\":[1,2,3]},{\"number\":6}],\"map\":{\"a\":1,\"b\":2},\"hash\":{\"k\":{\"number\":7,\"text\":\"seven\",\"list\":[]}},"
      "\"multi\":{\"m\":[1,2],\"n\":[3]},\"set\":[\"x\",\"y\"],\"multiset\":[1,1],\"optional\":\"foo\",\"unique\":{\"number\":8},\"shared\":{\"number\":9},\"sharedToo\":null,"
      "\"variant\":{\"index\":3,\"data\":{\"number\":10}},\"pair\":[1,\"two\"],\"list\":[\"a\",\"b\"]}";
static const char *const mismatchJson
    = "{\"color\":\"x\",\"subs\":[{\"number\":\"5\",\"text\":5,\"list\":[1,true,3,300000000000]},{\"number\":6},null],\"map\":{\"a\":\"1\",\"b\":2},\"hash\":[],"
      "\"multi\":{\"m\":[1,\"2\"],\"n\":[]},\"set\":[\"x\",\"x\",1],\"multiset\":[1,null],\"optional\":5,\"unique\":[],\"shared\":5,"
      "\"variant\":{\"index\":9,\"data\":{\"number\":10}},\"pair\":[1],\"list\":[\"a\",5]}";

template <typename Type> static Op serialize(const char *name, std::function<std::shared_ptr<const Type>()> make, bool shared = false)
{
    if (shared) {
        auto object = std::make_shared<std::shared_ptr<const Type>>();
        return { name, [make, object] {
                    if (!*object) {
                        *object = make();
                    }
                    return [o = *object] { return std::string(o->toJson().GetString()); };
                } };
    }
    return { name, [make] { return [o = make()] { return std::string(o->toJson().GetString()); }; } };
}

// returns the operations; if object is given, operations which serialise/deserialise use this object/document
static std::vector<Op> operations()
{
    std::vector<Op> ops;
    ops.push_back({ "json write", [] { return [o = makeRich(1)] { return std::string(o->toJson().GetString()); }; } });
    ops.push_back({ "json write document", [] {
                       return [o = makeRich(20)] {
                           auto d = o->toJsonDocument();
                           return text(d);
                       };
                   } });
    ops.push_back({ "json write derived", [] {
                       return [o = std::make_shared<Derived>()] {
                           auto d = JR::toJsonDocument(*o);
                           return text(d);
                       };
                   } });
    ops.push_back({ "json write views", [] {
                       auto o = std::make_shared<JsonOnly>();
                       o->tuple = std::make_tuple(4, std::string("tuple"), true);
                       o->view = "view";
                       o->literal = "literal";
                       return [o] { return std::string(o->toJson().GetString()); };
                   } });
    ops.push_back({ "json write container", [] {
                       return [o = std::make_shared<std::vector<std::map<std::string, int>>>(std::vector<std::map<std::string, int>>{ { { "a", 1 } }, { { "b", 2 }, { "c", 3 } } })] {
                           return std::string(JR::toJson(*o).GetString());
                       };
                   } });
    ops.push_back({ "json write adapted", [] {
                       auto o = std::make_shared<Adapted>();
                       o->b = { "x", "y" };
                       return [o] { return std::string(JR::toJson(*o).GetString()); };
                   } });
    ops.push_back({ "json write times", [] {
                       auto o = std::make_shared<Times>();
                       o->date = CppUtilities::DateTime::fromDateAndTime(2019, 5, 6, 7, 8, 9, 10);
                       o->span = CppUtilities::TimeSpan::fromMinutes(75);
                       return [o] { return std::string(o->toJson().GetString()); };
                   } });
    ops.push_back({ "json read", [] {
                       return [] {
                           RRJ::JsonDeserializationErrors e;
                           const auto r = Rich::fromJson(richJson, std::strlen(richJson), &e);
                           return text(r) + text(e);
                       };
                   } });
    ops.push_back({ "json read errors", [] {
                       return [] {
                           RRJ::JsonDeserializationErrors e;
                           const auto r = Rich::fromJson(mismatchJson, std::strlen(mismatchJson), &e);
                           return text(r) + text(e);
                       };
                   } });
    ops.push_back({ "json read throwing", [] {
                       return [] {
                           RRJ::JsonDeserializationErrors e;
                           e.throwOn = RRJ::JsonDeserializationErrors::ThrowOn::TypeMismatch;
                           try {
                               Rich::fromJson(mismatchJson, std::strlen(mismatchJson), &e);
                           } catch (const RRJ::JsonDeserializationError &x) {
                               return "thrown " + std::to_string(static_cast<int>(x.kind)) + (x.member ? x.member : "-") + (x.record ? x.record : "-") + text(e);
                           }
                           return std::string("not thrown");
                       };
                   } });
    ops.push_back({ "json read syntax error", [] {
                       return [] {
                           try {
                               Rich::fromJson("{\"color\":2,\"subs\":[{\"number\":5,]");
                           } catch (const RAPIDJSON_NAMESPACE::ParseResult &x) {
                               return "thrown " + std::to_string(static_cast<int>(x.Code())) + "/" + std::to_string(x.Offset());
                           }
                           return std::string("not thrown");
                       };
                   } });
    ops.push_back({ "json read container", [] {
                       return [] {
                           RRJ::JsonDeserializationErrors e;
                           const auto r = JR::fromJson<std::vector<std::vector<int>>>("[[1,2],[],[true,3]]", &e);
                           std::string t;
                           for (const auto &i : r) {
                               t += '[';
                               for (auto j : i) {
                                   t += std::to_string(j) + ",";
                               }
                           }
                           return t + text(e);
                       };
                   } });
    ops.push_back({ "json read derived", [] {
                       return [] {
                           RRJ::JsonDeserializationErrors e;
                           const auto r = JR::fromJson<Derived>(std::string("{\"number\":3,\"text\":\"t\",\"flag\":true,\"real\":2,\"list\":[\"x\"]}"), &e);
                           return text(static_cast<const Sub &>(r)) + std::to_string(r.flag) + std::to_string(r.real) + text(e);
                       };
                   } });
    ops.push_back({ "json read times", [] {
                       return [] {
                           RRJ::JsonDeserializationErrors e;
                           const auto r = Times::fromJson(std::string("{\"date\":\"2019-05-06T07:08:09.01\",\"span\":\"foo\"}"), &e);
                           return std::to_string(r.date.totalTicks()) + "/" + std::to_string(r.span.totalTicks()) + text(e);
                       };
                   } });
    ops.push_back({ "json read adapted", [] {
                       return [] {
                           RRJ::JsonDeserializationErrors e;
                           const auto r = JR::fromJson<Adapted>(std::string("{\"a\":3,\"b\":[\"x\",4]}"), &e);
                           return std::to_string(r.a) + std::to_string(r.b.size()) + text(e);
                       };
                   } });
    ops.push_back({ "binary write", [] { return [o = makeRich(30)] { return writtenText(*o); }; } });
    ops.push_back({ "binary write nodes", [] { return [o = makeNodes(40)] { return writtenText(*o); }; } });
    ops.push_back({ "binary write versioned", [] {
                       return [o = std::make_shared<Versioned>()] {
                           std::ostringstream s;
                           o->toBinary(s, 2);
                           o->toBinary(s, 1);
                           o->toBinary(s);
                           return s.str();
                       };
                   } });
    ops.push_back({ "binary write other", [] {
                       return [o = std::make_shared<Derived>(), t = std::make_shared<Times>(), a = std::make_shared<Adapted>()] {
                           return toBytes(*o) + toBytes(*t) + toBytes(*a);
                       };
                   } });
    ops.push_back({ "binary read", [] {
                       return [b = toBytes(*makeRich(50))] {
                           std::istringstream s(b);
                           s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                           const auto r = Rich::fromBinary(s);
                           return text(r);
                       };
                   } });
    ops.push_back({ "binary read nodes", [] {
                       return [b = toBytes(*makeNodes(60))] {
                           std::istringstream s(b);
                           s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                           const auto r = Node::fromBinary(s);
                           std::map<const Node *, int> seen;
                           return text(&r, seen);
                       };
                   } });
    ops.push_back({ "binary read truncated", [] {
                       auto b = toBytes(*makeRich(70));
                       b.resize(b.size() / 2);
                       return [b] {
                           std::istringstream s(b);
                           s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                           try {
                               Rich::fromBinary(s);
                           } catch (const std::exception &e) {
                               return std::string("thrown ") + typeid(e).name();
                           }
                           return std::string("not thrown");
                       };
                   } });
    ops.push_back({ "binary read versioned", [] {
                       Versioned v;
                       v.always = 9;
                       v.two = 8;
                       v.three = 7;
                       std::ostringstream o;
                       v.toBinary(o, 2);
                       return [b = o.str()] {
                           std::string t;
                           for (const auto version : { '\x82', '\x84', '\x81' }) {
                               auto c = b;
                               c[0] = version;
                               std::istringstream s(c);
                               s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                               Versioned r;
                               try {
                                   t += std::to_string(r.restoreFromBinary(s)) + ":" + std::to_string(r.always) + "," + std::to_string(r.two) + "," + std::to_string(r.three) + text(r.sub);
                               } catch (const RRJ::BinaryVersionNotSupported &e) {
                                   t += "unsupported " + std::to_string(e.presentVersion) + "/" + std::to_string(e.maxVersion) + e.record;
                               }
                           }
                           return t;
                       };
                   } });
    return ops;
}

// operations on the same unmodified object/document
static std::vector<std::vector<Op>> sharedOperations()
{
    std::vector<std::vector<Op>> res;
    const auto rich = std::make_shared<std::shared_ptr<Rich>>();
    const auto node = std::make_shared<std::shared_ptr<Node>>();
    const auto get = [rich] {
        if (!*rich) {
            *rich = makeRich(80);
        }
        return *rich;
    };
    const auto getNode = [node] {
        if (!*node) {
            *node = makeNodes(90);
        }
        return *node;
    };
    res.push_back({ { "shared json write", [get] { return [o = get()] { return std::string(o->toJson().GetString()); }; } },
        { "shared json write document", [get] {
             return [o = get()] {
                 auto d = o->toJsonDocument();
                 return text(d);
             };
         } },
        { "shared binary write", [get] { return [o = get()] { return writtenText(*o); }; } } });
    res.push_back({ { "shared binary write nodes", [getNode] { return [o = getNode()] { return writtenText(*o); }; } },
        { "shared json write nodes", [getNode] { return [o = getNode()] { return std::string(JR::toJson(*o).GetString()); }; } } });
    for (const auto *const json : { richJson, mismatchJson }) {
        const auto doc = std::make_shared<RAPIDJSON_NAMESPACE::Document>();
        const auto getDoc = [doc, json] {
            if (doc->IsNull()) {
                doc->Parse(json);
            }
            return doc;
        };
        res.push_back({ { "shared document", [getDoc] {
                             return [d = getDoc()] {
                                 RRJ::JsonDeserializationErrors e;
                                 Rich r;
                                 JR::pull(r, std::as_const(*d).GetObject(), &e);
                                 return text(r) + text(e);
                             };
                         } } });
    }
    return res;
}

static std::vector<std::function<void()>> bind(const std::vector<Op> &ops, std::vector<std::string> &results)
{
    results.assign(ops.size(), "not executed");
    std::vector<std::function<void()>> fns;
    for (std::size_t i = 0; i != ops.size(); ++i) {
        fns.emplace_back([run = ops[i].make(), r = &results[i]] {
            try {
                *r = run();
            } catch (const std::exception &e) {
                *r = std::string("unexpected exception ") + typeid(e).name() + e.what();
            } catch (...) {
                *r = "unexpected exception";
            }
        });
    }
    return fns;
}

static void together(mc::Ctx &c, const std::vector<Op> &ops)
{
    // first of all (in a new process): without preemptions but with recording all accesses; checks whether there are accesses which are not ordered
    // note: If there are no conflicting accesses, all interleavings are equivalent. The interleavings are nevertheless explored for the case there
    //       are accesses which are not visible to the instrumentation.
    static std::vector<std::string> expected;
    static std::vector<std::uint32_t> limits;
    static std::vector<std::string> races;
    static std::uint64_t accesses;
    std::vector<std::string> results;
    if (expected.empty()) {
        auto fns = bind(ops, results);
        const auto r = sched::execute(fns, {}, true);
        races = r.races;
        accesses = r.accesses;
        const auto first = results;
        for (const auto s : r.steps) {
            limits.push_back(static_cast<std::uint32_t>(s / 16 + 1) * 16);
        }
        for (const auto &op : ops) {
            const auto run = op.make();
            expected.push_back(run());
        }
        for (std::size_t i = 0; i != ops.size(); ++i) {
            c.check(first[i] == expected[i], "result", "when executed one after the other by different threads: " + first[i] + " instead of " + expected[i]);
        }
    }
    c.check(races.empty(), "race", races.empty() ? std::string() : races.front());
    std::vector<std::uint32_t> preemptions;
    std::string d;
    for (const auto &op : ops) {
        d += op.name + " | ";
    }
    for (std::size_t i = 0; i != PREEMPTIONS; ++i) {
        if (i && static_cast<std::uint64_t>(limits[0]) * limits[1 % limits.size()] > PAIRLIMIT) {
            break; // too many accesses to explore all pairs of preemptions
        }
        const auto k = c.choose(limits[i % limits.size()] + 1);
        if (!k) {
            break;
        }
        preemptions.push_back(k);
        d += " preempted after " + std::to_string(k);
    }
    c.describe(d);
    auto fns = bind(ops, results);
    const auto r = sched::execute(fns, preemptions, false);
    c.state(mc::hashStr(d, r.switches));
    for (std::size_t i = 0; i != ops.size(); ++i) {
        c.check(results[i] == expected[i], "result", "thread " + std::to_string(i) + ": " + results[i] + " instead of " + expected[i]);
    }
}

// ---- nesting
static std::vector<Op> nestingOperations()
{
    std::vector<Op> ops;
    const auto member = [] {
        auto o = std::make_shared<NestMember>();
        o->before = 5;
        o->list = { 1, 2, 3 };
        o->hook.value = 4;
        o->subs = { makeSub(1), makeSub(2) };
        return o;
    };
    const auto container = [] {
        auto o = std::make_shared<NestContainer>();
        o->list = { { 1 }, { 2 } };
        o->map = { { "a", { 3 } } };
        o->after = { { 1, 2 }, { 3 } };
        o->multi = { { "m", { 4 } }, { "m", { 5 } } };
        return o;
    };
    const auto pointer = [] {
        auto o = std::make_shared<NestPointer>();
        o->before = o->after = std::make_shared<Sub>(makeSub(5));
        o->hook = std::make_shared<X::Hook>();
        o->owned = std::make_unique<X::Hook>();
        o->optional = X::Hook{ 3 };
        o->variant = X::Hook{ 4 };
        return o;
    };
    ops.push_back({ "json write member", [=] { return [o = member()] { return std::string(o->toJson().GetString()); }; } });
    ops.push_back({ "json write container", [=] { return [o = container()] { return std::string(o->toJson().GetString()); }; } });
    ops.push_back({ "json write pointer", [=] { return [o = pointer()] { return std::string(o->toJson().GetString()); }; } });
    ops.push_back({ "binary write member", [=] { return [o = member()] { return toBytes(*o); }; } });
    ops.push_back({ "binary write container", [=] { return [o = container()] { return toBytes(*o); }; } });
    ops.push_back({ "binary write pointer", [=] { return [o = pointer()] { return toBytes(*o); }; } });
    for (auto version : { 1u, 2u, 3u }) {
        ops.push_back({ "binary write version " + std::to_string(version), [version] {
                           return [version, o = std::make_shared<NestVersioned>()] {
                               std::ostringstream s;
                               o->toBinary(s, version);
                               return s.str();
                           };
                       } });
        ops.push_back({ "binary read version " + std::to_string(version), [version] {
                           NestVersioned v;
                           v.always = 5;
                           v.two = 6;
                           v.three = 7;
                           v.sub = makeSub(3);
                           std::ostringstream o;
                           v.toBinary(o, version);
                           return [b = o.str()] {
                               std::istringstream s(b);
                               s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                               NestVersioned r;
                               const auto found = r.restoreFromBinary(s);
                               return std::to_string(found) + std::to_string(r.always) + std::to_string(r.two) + text(r.sub) + std::to_string(r.three);
                           };
                       } });
    }
    ops.push_back({ "json read member", [] {
                       return [] {
                           RRJ::JsonDeserializationErrors e;
                           const auto r = NestMember::fromJson(
                               std::string("{\"before\":\"x\",\"list\":[1,\"2\",3],\"hook\":{\"value\":\"x\"},\"after\":5,\"subs\":[{},{\"number\":\"x\",\"list\":[true,1]}]}"), &e);
                           return std::to_string(r.before) + std::to_string(r.hook.value) + r.after + std::to_string(r.subs.size()) + text(e);
                       };
                   } });
    ops.push_back({ "json read container", [] {
                       return [] {
                           RRJ::JsonDeserializationErrors e;
                           const auto r = NestContainer::fromJson(
                               std::string("{\"list\":[5,{\"value\":\"x\"},{\"value\":3},true],\"map\":{\"a\":{\"value\":false}},\"after\":[[\"x\"],5,[1,null]],\"multi\":{\"k\":[{\"value\":3},4,{\"value\":\"x\"}]}}"), &e);
                           return std::to_string(r.list.size()) + std::to_string(r.map.size()) + std::to_string(r.after.size()) + std::to_string(r.multi.size()) + text(e);
                       };
                   } });
    ops.push_back({ "json read pointer", [] {
                       return [] {
                           RRJ::JsonDeserializationErrors e;
                           const auto r = NestPointer::fromJson(
                               std::string("{\"before\":{\"number\":3},\"hook\":{\"value\":\"x\"},\"owned\":{\"value\":3},\"after\":{\"number\":\"x\"},\"optional\":{\"value\":1},\"variant\":{\"index\":1,\"data\":{\"value\":true}}}"), &e);
                           return text(*r.before) + std::to_string(r.owned->value) + text(e);
                       };
                   } });
    ops.push_back({ "binary read member", [=] {
                       return [b = toBytes(*member())] {
                           std::istringstream s(b);
                           s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                           const auto r = NestMember::fromBinary(s);
                           return std::to_string(r.before) + std::to_string(r.list.size()) + std::to_string(r.hook.value) + r.after + text(r.subs.at(0)) + text(r.subs.at(1));
                       };
                   } });
    ops.push_back({ "binary read container", [=] {
                       return [b = toBytes(*container())] {
                           std::istringstream s(b);
                           s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                           const auto r = NestContainer::fromBinary(s);
                           return std::to_string(r.list.size()) + std::to_string(r.map.at("a").value) + std::to_string(r.after.size()) + std::to_string(r.multi.size());
                       };
                   } });
    ops.push_back({ "binary read pointer", [=] {
                       return [b = toBytes(*pointer())] {
                           std::istringstream s(b);
                           s.exceptions(std::ios_base::badbit | std::ios_base::failbit);
                           const auto r = NestPointer::fromBinary(s);
                           return text(*r.before) + (r.before == r.after ? "same" : "different") + std::to_string(r.hook->value) + std::to_string(r.owned->value)
                               + std::to_string(r.optional->value) + std::to_string(std::get<1>(r.variant).value);
                       };
                   } });
    return ops;
}

// executes an operation; the inner operation is executed by all or one of the calls of the hook
static void nested(mc::Ctx &c, const Op &outer, const std::vector<Op> &inner, const std::vector<Op> &nesting, bool deep)
{
    X::hook() = nullptr;
    const auto &in = inner[c.free(static_cast<std::uint32_t>(inner.size()))];
    const auto *const mid = deep ? &nesting[c.free(static_cast<std::uint32_t>(nesting.size()))] : nullptr;
    const auto run = outer.make(), innerRun = in.make(), midRun = mid ? mid->make() : Run();
    const auto want = run(), innerWant = innerRun(), midWant = mid ? midRun() : std::string();
    // count calls
    std::uint32_t calls = 0;
    X::hook() = [&] { ++calls; };
    run();
    const auto when = c.free(calls + 1); // 0: at all calls
    const auto d = in.name + " nested in call " + std::to_string(when) + " of " + (mid ? mid->name + " nested in " : "") + outer.name;
    c.describe(d);
    c.state(d);
    std::uint32_t call = 0, level = 0;
    std::string got, midGot;
    X::hook() = [&] {
        if (level == 0) {
            ++call;
            if (when && call != when) {
                return;
            }
            ++level;
            if (mid) {
                midGot = midRun();
            } else {
                got = innerRun();
            }
            --level;
        } else if (level == 1) {
            ++level;
            got = innerRun();
            --level;
        }
    };
    const auto result = run();
    X::hook() = nullptr;
    c.check(!calls || !got.empty(), "harness", "inner operation not executed");
    c.check(result == want, "outer-result", result + " instead of " + want);
    c.check(!calls || got == innerWant, "inner-result", got + " instead of " + innerWant);
    c.check(!calls || midGot == midWant, "middle-result", midGot + " instead of " + midWant);
    const auto again = run();
    c.check(again == want, "later-result", again + " instead of " + want);
}

int main(int argc, char **argv)
{
    std::vector<mc::Unit> units;
    const auto ops = operations();
#if defined(NESTED)
    const auto nesting = nestingOperations();
    auto inner = ops;
    inner.insert(inner.end(), nesting.begin(), nesting.end());
    for (const auto &o : nesting) {
        units.push_back({ "nested: " + o.name, 0, [o, inner, nesting](mc::Ctx &c) { nested(c, o, inner, nesting, false); }, 1 });
        units.push_back({ "deeply nested: " + o.name, 0, [o, inner, nesting](mc::Ctx &c) { nested(c, o, inner, nesting, true); }, 1 });
    }
#else
    const auto add = [&](const std::vector<Op> &o) {
        std::string name = "threads: ";
        for (const auto &op : o) {
            name += (&op == &o.front() ? "" : " | ") + op.name;
        }
        units.push_back({ name, PREEMPTIONS, [o](mc::Ctx &c) { together(c, o); }, 1 });
    };
#ifdef TRIPLES
    for (std::size_t i = 0; i != ops.size(); ++i) {
        for (std::size_t k = 0; k != ops.size(); ++k) {
            add({ ops[i], ops[k], ops[(i + k) % ops.size()] });
        }
    }
#else
    for (const auto &a : ops) {
        for (const auto &b : ops) {
            add({ a, b });
        }
    }
    for (const auto &group : sharedOperations()) {
        for (const auto &a : group) {
            for (const auto &b : group) {
                add({ a, b });
                add({ a, b, a });
            }
        }
    }
#endif
#endif
    return mc::run(argc, argv, units);
}
