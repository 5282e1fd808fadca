// C11: all graphs of shared pointers up to a number of nodes.
#define RRJ_BINARY 1
#define GROUP 9
#include "meta.h"
#include "types_graph.h"
#ifdef RRJ_HANA
BOOST_HANA_ADAPT_STRUCT(G::Leaf, text, number);
BOOST_HANA_ADAPT_STRUCT(G::Node, id, a, b);
BOOST_HANA_ADAPT_STRUCT(G::Rich, leaf, list, map, number, owned, var);
BOOST_HANA_ADAPT_STRUCT(G::Roots, r1, inner, r2);
BOOST_HANA_ADAPT_STRUCT(G::Empty);
BOOST_HANA_ADAPT_STRUCT(G::Pointers, p);
#else
#include "gen.h"
#endif
#include "lib_bin.h"

using namespace G;

static std::stringstream &enable(std::stringstream &s)
{
    s.exceptions(std::ios_base::failbit | std::ios_base::badbit);
    return s;
}
template <typename T> std::string toBytes(const T &v)
{
    std::stringstream s;
    BR::BinarySerializer(&enable(s)).write(v);
    return s.str();
}

// canonical form: nodes are numbered in the order they are found
struct Canon {
    std::map<const void *, int> numbers;
    std::string out;
    int objects = 0;
    template <typename T, typename F> void ptr(const std::shared_ptr<T> &p, F &&f)
    {
        if (!p) {
            out += "-";
            return;
        }
        const auto i = numbers.find(p.get());
        if (i != numbers.end()) {
            out += "#" + std::to_string(i->second);
            return;
        }
        numbers[p.get()] = ++objects;
        out += "*" + std::to_string(objects) + "(";
        f(*p);
        out += ")";
    }
    void add(const Node &n)
    {
        out += std::to_string(n.id) + ":";
        ptr(n.a, [this](const Node &x) { add(x); });
        out += ",";
        ptr(n.b, [this](const Node &x) { add(x); });
    }
    void add(const Leaf &l) { out += l.text + "/" + std::to_string(l.number); }
    void add(const Rich &r)
    {
        ptr(r.leaf, [this](const Leaf &x) { add(x); });
        out += "[";
        for (const auto &x : r.list) {
            ptr(x, [this](const Rich &x) { add(x); });
            out += ";";
        }
        out += "]{";
        for (const auto &x : r.map) {
            out += x.first + "=";
            ptr(x.second, [this](const Leaf &x) { add(x); });
            out += ";";
        }
        out += "}";
        if (r.number) {
            ptr(*r.number, [this](int x) { out += std::to_string(x); });
        } else {
            out += "none";
        }
        if (r.owned) {
            out += "<";
            add(*r.owned);
            out += ">";
        }
        out += "v" + std::to_string(r.var.index());
        if (!r.var.index()) {
            ptr(std::get<0>(r.var), [this](int x) { out += std::to_string(x); });
        } else {
            ptr(std::get<1>(r.var), [this](const std::string &x) { out += x; });
        }
    }
    void add(const Roots &r)
    {
        ptr(r.r1, [this](const Node &x) { add(x); });
        out += "|";
        add(r.inner);
        out += "|";
        ptr(r.r2, [this](const Node &x) { add(x); });
    }
};
template <typename T> std::string canon(const T &t)
{
    Canon c;
    c.add(t);
    return c.out;
}

// collects all nodes (to break cycles in the end and to check use counts)
struct Collect {
    std::vector<std::weak_ptr<Node>> weak;
    std::vector<std::shared_ptr<Node>> nodes;
    std::set<Node *> seen;
    void add(const std::shared_ptr<Node> &p)
    {
        if (p && seen.insert(p.get()).second) {
            nodes.push_back(p);
            add(p->a);
            add(p->b);
        }
    }
    void add(const Roots &r)
    {
        add(r.r1);
        add(r.inner.a);
        add(r.inner.b);
        add(r.r2);
    }
    void breakCycles()
    {
        for (auto &n : nodes) {
            n->a.reset();
            n->b.reset();
        }
        nodes.clear();
    }
};

// reference counts of the restored graph must match the number of references within the graph
static void useCounts(mc::Ctx &c, const Roots &r, Collect &collect)
{
    std::map<const Node *, long> refs;
    const auto count = [&refs](const std::shared_ptr<Node> &p) {
        if (p) {
            ++refs[p.get()];
        }
    };
    count(r.r1);
    count(r.r2);
    count(r.inner.a);
    count(r.inner.b);
    for (const auto &n : collect.nodes) {
        count(n->a);
        count(n->b);
    }
    for (const auto &n : collect.nodes) {
        c.check(n.use_count() == refs[n.get()] + 1, "use-count", "node " + std::to_string(n->id) + " is referenced " + std::to_string(n.use_count() - 1) + " times but expected " + std::to_string(refs[n.get()]));
    }
}

template <int N> void graph(mc::Ctx &c)
{
    std::vector<std::shared_ptr<Node>> nodes(N);
    for (int i = 0; i != N; ++i) {
        nodes[i] = std::make_shared<Node>();
        nodes[i]->id = i;
    }
    const auto any = [&]() -> std::shared_ptr<Node> {
        const auto n = c.free(N + 1);
        return n ? nodes[n - 1] : nullptr;
    };
    Roots orig;
    orig.inner.id = 77;
    orig.r1 = any();
    orig.inner.a = any();
    orig.r2 = any();
    for (auto &n : nodes) {
        n->a = any();
        n->b = any();
    }
    const auto expected = canon(orig);
    c.describe(expected);
    c.state(expected);
    const auto bytes = toBytes(orig);
    Collect origNodes, all;
    origNodes.nodes = nodes;
    {
        std::size_t objects = 0;
        for (std::size_t i = 0; (i = expected.find('*', i)) != std::string::npos; ++i) {
            ++objects;
        }
        // stored only once: per object 4 bytes for its ID number; every pointer takes one byte plus 1 - 8 bytes for the ID
        Canon canonical;
        canonical.add(orig);
        c.check(static_cast<std::size_t>(canonical.objects) == objects, "harness");
    }
    {
        std::stringstream s(bytes + bytes);
        enable(s);
        Roots first;
        BR::BinaryDeserializer(&s).read(first);
        c.check(canon(first) == expected, "graph", "restored as " + canon(first));
        all.add(first);
        c.check(static_cast<std::size_t>(s.tellg()) == bytes.size(), "position", "unexpected number of bytes consumed");
        useCounts(c, first, all);
        // previous contents: the object read before
        Roots second = first;
        BR::BinaryDeserializer(&s).read(second);
        c.check(canon(second) == expected, "graph-second", "restored as " + canon(second));
        Collect secondNodes;
        secondNodes.add(second);
        for (const auto &n : secondNodes.nodes) {
            c.check(!all.seen.count(n.get()) && !origNodes.seen.count(n.get()), "independent", "pointers between independently read objects");
        }
        c.check(secondNodes.nodes.size() == all.nodes.size(), "count", "unexpected number of nodes");
        secondNodes.breakCycles();
    }
    {
        // objects read one after the other using the same deserialiser stay valid when the first one is destroyed; the 2nd object refers to
        // the nodes of the first one if and only if written by the same serialiser
        std::stringstream s;
        enable(s);
        BR::BinarySerializer ser(&s);
        ser.write(orig);
        ser.write(orig);
        BR::BinaryDeserializer des(&s);
        Roots x, y;
        des.read(x);
        des.read(y);
        Collect n;
        n.add(x);
        c.check(canon(x) == expected, "graph-same", "restored as " + canon(x));
        c.check(canon(y) == expected, "graph-same-second", "restored as " + canon(y));
        c.check(x.r1 == y.r1 && x.r2 == y.r2, "shared", "pointers written by the same serialiser are not shared");
        n.breakCycles();
    }
    all.breakCycles();
    origNodes.breakCycles();
}

static void rich(mc::Ctx &c)
{
    const auto l1 = std::make_shared<Leaf>(), l2 = std::make_shared<Leaf>();
    l1->number = 1;
    l2->number = 2;
    const auto n1 = std::make_shared<int>(10), n2 = std::make_shared<int>(10);
    const auto s1 = std::make_shared<std::string>("str");
    const auto anyLeaf = [&]() -> std::shared_ptr<Leaf> { return c.pickFree(std::vector<std::shared_ptr<Leaf>>{ nullptr, l1, l2 }); };
    const auto anyInt = [&]() -> std::shared_ptr<int> { return c.pickFree(std::vector<std::shared_ptr<int>>{ nullptr, n1, n2 }); };
    const auto child = std::make_shared<Rich>();
    child->leaf = anyLeaf();
    child->number = anyInt();
    Rich orig;
    orig.leaf = anyLeaf();
    if (const auto n = c.free(3)) {
        orig.number = n == 1 ? nullptr : anyInt();
    }
    if (c.free(2)) {
        orig.list = { child, nullptr, child };
    } else {
        orig.list = { child };
    }
    orig.map["x"] = anyLeaf();
    orig.map["y"] = anyLeaf();
    if (c.free(2)) {
        orig.owned = std::make_unique<Rich>();
        orig.owned->leaf = l2;
        orig.owned->list = { child };
        orig.owned->var = s1;
    }
    if (c.free(2)) {
        orig.var = anyInt();
    } else {
        orig.var = s1;
    }
    const auto expected = canon(orig);
    c.describe(expected);
    c.state(expected);
    std::stringstream s(toBytes(orig));
    enable(s);
    Rich back;
    back.leaf = l1;
    back.list = { child };
    back.map["z"] = l1;
    BR::BinaryDeserializer(&s).read(back);
    c.check(canon(back) == expected, "graph", "restored as " + canon(back));
}

// pointers with arbitrary addresses, namely those around the boundaries of the encoding of their IDs
static const std::vector<std::uint64_t> &addresses()
{
    static const std::vector<std::uint64_t> a = { 0x1, 0x7F, 0x80, 0x3FFF, 0x4000, 0xFFFFFFFF, 0x100000000, 0x7FFFFFFFFFFFull, 0x1FFFFFFFFFFFFull, 0x2000000000000ull, 0x7FFFFFFFFFFFFFull,
        0x80000000000000ull, 0x80000000000001ull, 0xFFFFFFFFFFFFFFull, 0x100000000000000ull, 0x180000000000000ull, 0x8000000000000000ull, 0xFF7FFFFFFFFFFFFFull, 0xFFFFFFFFFFFFFFFFull };
    return a;
}
static std::shared_ptr<Empty> at(std::uint64_t address)
{
    static const auto owner = std::make_shared<int>();
    return std::shared_ptr<Empty>(owner, reinterpret_cast<Empty *>(static_cast<std::uintptr_t>(address)));
}
static void ids(mc::Ctx &c)
{
    Pointers orig;
    std::vector<std::uint64_t> values;
    for (int i = 0; i != IDS; ++i) {
        const auto n = c.free(static_cast<std::uint32_t>(addresses().size() + 1));
        if (!n) {
            orig.p.emplace_back();
            values.push_back(0);
            continue;
        }
        values.push_back(addresses()[n - 1]);
        orig.p.emplace_back(at(values.back()));
    }
    std::string desc;
    for (const auto v : values) {
        char b[32];
        std::snprintf(b, sizeof b, "%#llx ", static_cast<unsigned long long>(v));
        desc += b;
    }
    c.describe(desc);
    c.state(desc);
    const auto bytes = toBytes(orig);
    std::stringstream s(bytes);
    enable(s);
    Pointers back;
    BR::BinaryDeserializer(&s).read(back);
    c.check(static_cast<std::size_t>(s.tellg()) == bytes.size(), "position", "data not fully consumed");
    c.check(back.p.size() == orig.p.size(), "size", "unexpected number of pointers");
    for (std::size_t i = 0; i != back.p.size(); ++i) {
        c.check(!back.p[i] == !orig.p[i], "null", "pointer " + std::to_string(i) + " is " + (back.p[i] ? "set" : "null"));
        for (std::size_t k = 0; k != i; ++k) {
            c.check((back.p[i] == back.p[k]) == (orig.p[i] == orig.p[k]), "identity", "pointers " + std::to_string(k) + " and " + std::to_string(i) + " are "
                    + (back.p[i] == back.p[k] ? "equal" : "different"));
        }
    }
}

#ifndef RRJ_HANA
// different types pointing to the same address
static void aliasing(mc::Ctx &c)
{
    const auto which = c.free(4);
    Mixed orig;
    orig.d1 = std::make_shared<Derived>();
    orig.d1->text = "derived";
    std::string sig;
    switch (which) {
    case 0: // no sharing
        orig.l1 = orig.l2 = std::make_shared<Leaf>();
        orig.s1 = std::make_shared<std::string>("s");
        break;
    case 1: // base and derived
        orig.l1 = orig.l2 = orig.d1;
        break;
    case 2: // first member of class
        orig.l1 = orig.l2 = std::make_shared<Leaf>();
        orig.s1 = std::shared_ptr<std::string>(orig.l1, &orig.l1->text);
        break;
    case 3: // only pointers of the same type are shared
        orig.l1 = orig.l2 = std::make_shared<Leaf>();
        break;
    }
    sig = "aliasing-" + std::to_string(which);
    c.describe(sig);
    c.state(sig);
    std::stringstream s(toBytes(orig));
    enable(s);
    Mixed back;
    try {
        BR::BinaryDeserializer(&s).read(back);
    } catch (const std::exception &e) {
        c.fail(sig, std::string("exception when reading: ") + e.what());
    }
    c.check(back.l1 == back.l2 && back.l1 && back.d1 && !orig.s1 == !back.s1, "graph", "pointers not restored");
    c.check(back.l1->text == orig.l1->text && back.d1->text == orig.d1->text && back.d1->more == 5 && (!orig.s1 || *back.s1 == *orig.s1), "value", "pointed-to objects differ");
}
#endif

int main(int argc, char **argv)
{
    std::vector<mc::Unit> units;
    units.push_back({ "graph of 1 node", 0, graph<1>, 1 });
    units.push_back({ "graph of 2 nodes", 0, graph<2>, 1 });
    units.push_back({ "graph of 3 nodes", 0, graph<3>, SHARDS });
#ifdef FOUR
    units.push_back({ "graph of 4 nodes", 0, graph<4>, 64 });
#endif
    units.push_back({ "various containers", 0, rich, 1 });
    units.push_back({ "IDs", 0, ids, 1 });
#ifndef RRJ_HANA
    units.push_back({ "aliasing", 0, aliasing, 1 });
#endif
    return mc::run(argc, argv, units);
}
