"""C14: enumeration of class shapes; the real generator is run on them and the generated code is compiled and executed."""
import itertools, json, os, re
from . import core
from .core import HarnessError, Dag, sh

BATCH = 120
FRIENDS = {  # mode: (push, pull)
    "none": (False, False), "push": (True, False), "pull": (False, True), "both": (True, True), "reversed": (True, True), "foreign": (False, False)}


# ---- shapes ---------------------------------------------------------------------------------------------------------
# item: (access, kind); kinds with a value: see VALUE; others are noise
VALUE = {  # kind: (declaration, const, static)
    "plain": ("int %s = %d;", False, False),
    "const": ("const int %s = %d;", True, False),
    "static": ("inline static int %s = %d;", False, True),
    "staticconst": ("static const int %s = %d;", True, True),
    "constexpr": ("static constexpr int %s = %d;", True, True),
    "mutable": ("mutable int %s = %d;", False, False),
    "constalias": ("using Alias_%s = const int; Alias_%s %s = %d;", True, False),
    "alias": ("using Alias_%s = int; Alias_%s %s = %d;", False, False),
    "east": ("int const %s{ %d };", True, False),
    "threadlocal": ("inline static thread_local int %s = %d;", False, True),
    "multi": ("int %s = %d, %s_more = %d;", False, False),  # declares a further member
    "attribute": ("alignas(8) [[maybe_unused]] int %s = %d;", False, False),
}
NOISE = {
    "function": "int function_%s() const { return 1; }",
    "staticfunction": "static int function_%s() { return 1; }",
    "nested": "struct Nested_%s { int inner_%s = 1; };",
    "enum": "enum class Enum_%s { a_%s };",
    "friendclass": "friend struct Unrelated_%s;",
    "friendfunction": "friend void unrelated_%s();",
    "template": "template <typename X_%s> void function_%s(X_%s) {}",
    "ctor": None,
    "using": "using Type_%s = int;",
    "operator": "bool operator!() const { return false; }",
}
ACCESS = ("public", "protected", "private")
# other friends (before, between and after the relevant ones)
OTHERS = {
    "class": "friend class ::other::Class;",
    "newclass": "friend struct New%s;",
    "classtemplate": "template <typename X> friend class ::other::Template;",
    "specialization": "friend class ::other::Template<%s>;",
    "function": "friend void ::other::function(int);",
    "newfunction": "friend void newFunction(const %s &);",
    "functiontemplate": "template <typename X> friend void ::other::functionTemplate(X);",
    "functionspecialization": "friend void ::other::functionTemplate<%s *>(%s *);",
    "method": "friend void ::other::Class::method();",
    "inline": "friend bool inlineFunction(const %s &) { return true; }",
    "operator": "friend bool operator==(const %s &, const %s &);",
    "push": "friend void ::other::push(int);",
    "readCustomType": "friend void ::other::readCustomType(int);",
}
FRIEND_ORDERS = [w + x for w in ("before-", "between-", "after-") for x in OTHERS]


def cls(name, items, ser=("both",), bases=(), json="none", binary="none", key="struct", file="main"):
    """ser: both/json/binary/adapted/no; bases: [(index, virtual)]"""
    return {"name": name, "items": [list(i) for i in items], "ser": ser if isinstance(ser, str) else ser[0], "bases": [list(b) for b in bases],
            "json": json, "binary": binary, "key": key, "file": file}


def inherits(c, fmt):
    return c["ser"] in ("both", fmt)


def relevant(c, fmt):
    return c["ser"] in ("both", fmt, "adapted")


def ancestors(classes, i):
    """number of subobjects of each ancestor (virtual ones are shared) or None if the class is ill-formed/ambiguous"""
    def subobjects(k):
        nonvirtual, virtual = {}, set()
        for b, v in classes[k]["bases"]:
            n, w = subobjects(b)
            for x, c in n.items():
                nonvirtual[x] = nonvirtual.get(x, 0) + c
            virtual |= w
            if v:
                virtual.add(b)
            else:
                nonvirtual[b] = nonvirtual.get(b, 0) + 1
        # virtual bases' own non-virtual bases are shared as well
        return nonvirtual, virtual

    def count(k):
        # non-virtual subobjects reachable without crossing virtual edges plus those of each virtual base once
        total, seen, todo = {}, set(), [k]

        def walk(x):
            for b, v in classes[x]["bases"]:
                if v:
                    if b not in seen:
                        seen.add(b)
                        total[b] = total.get(b, 0) + 1
                        walk(b)
                else:
                    total[b] = total.get(b, 0) + 1
                    walk(b)
        walk(k)
        return total
    return count(i)


def valid(classes):
    return all(n == 1 for i in range(len(classes)) for n in ancestors(classes, i).values())


def deviate(options, n, k):
    """all tuples of n elements of options with at most k being different from the first option"""
    for c in itertools.product(range(len(options)), repeat=n):
        if sum(1 for x in c if x) <= k:
            yield tuple(options[x] for x in c)


def shapes(tier):
    thorough = tier == "thorough"
    result = []

    def add(kind, *classes):
        classes = list(classes)
        if valid(classes):
            result.append({"id": len(result), "kind": kind, "classes": classes})

    modes = [(m, m) for m in ("none", "push", "pull", "both")]
    more = modes + [("none", "both"), ("both", "none"), ("push", "pull"), ("pull", "push"), ("reversed", "reversed"), ("foreign", "foreign")]
    items = [(a, k) for a in ACCESS for k in VALUE]
    noise = [(a, k) for a in ACCESS for k in NOISE]
    core3 = [(a, k) for a in ACCESS for k in ("plain", "const", "static")]
    # one member, all friend modes; class and struct
    for i in items:
        for j, b in more:
            add("one", cls("A", [i], json=j, binary=b))
    for key in ("class", "implicit"):
        for i in core3:
            for j, b in modes:
                add("key", cls("A", [i, ("public", "plain")], json=j, binary=b, key=key))
    # two members
    for i in itertools.product(core3, repeat=2):
        for j, b in (modes if thorough else modes[::3] + [("push", "pull")]):
            add("two", cls("A", i, json=j, binary=b))
    # noise around a member
    for n in noise:
        for a in ACCESS:
            for j, b in (("none", "none"), ("both", "both")):
                add("noise", cls("A", [n, (a, "plain"), n if n[1] not in ("ctor", "operator") else (n[0], "enum")], json=j, binary=b))
    # adapted classes with friend declarations
    for i in core3:
        for j, b in modes:
            add("adapted", cls("A", [i, ("public", "plain")], "adapted", json=j, binary=b))
    # order of friend declarations
    for order in FRIEND_ORDERS:
        for a in ACCESS[1:]:
            add("friends", cls("A", [(a, "plain")], json=order, binary="none"))
            add("friends", cls("A", [(a, "plain")], json="none", binary=order))
            add("friends", cls("A", [(a, "plain"), ("public", "plain")], "json", json=order))
            add("friends", cls("A", [(a, "plain"), ("public", "plain")], "binary", binary=order))
    # three members (thorough: four)
    for accesses in itertools.product(ACCESS, repeat=3):
        for j, b in modes:
            add("three", cls("A", [(a, "plain") for a in accesses], json=j, binary=b))
    if thorough:
        for i in itertools.product(core3, repeat=3):
            add("three-kinds", cls("A", i, json="both", binary="both"))
            add("three-kinds", cls("A", i, json="push", binary="pull"))
    # not default constructible: serialisation only
    for i in core3:
        for j, b in modes:
            add("noctor", cls("A", [i, ("public", "nodefault")], json=j, binary=b))
    # inheritance: two classes
    sers = ("both", "no", "json", "binary", "adapted")
    own = [(("public", "plain"),), (("private", "plain"),), (("protected", "plain"), ("public", "const")), ()]
    for sa, sb in itertools.product(sers, sers):
        for ia, ib in itertools.product(own, own):
            for v in (False, True):
                for ja, jb in ((("none", "none"), ("both", "both"), ("none", "both"), ("both", "none")) if not v else (("both", "both"),)):
                    if (sa in ("no", "adapted") and ja != "none") or (sb in ("no", "adapted") and jb != "none"):
                        continue
                    if not thorough and v and (ia != own[0] or ib != own[0]):
                        continue
                    add("base", cls("A", ia, sa, json=ja, binary=ja), cls("B", ib, sb, [(0, v)], json=jb, binary=jb))
    # three classes, all structures
    p = (("public", "plain"),)
    bopts = [(), ((0, False),), ((0, True),)]
    copts = [()] + [((x, v),) for x in (0, 1) for v in (False, True)] + \
            [((x, v), (1 - x, w)) for x in (0, 1) for v in (False, True) for w in (False, True)]
    for b, c in itertools.product(bopts, copts):
        for s in (itertools.product(sers, repeat=3) if thorough else deviate(("both", "no", "adapted", "json"), 3, 1) if b and c else [("both",) * 3, ("no", "both", "both"), ("both", "no", "both")]):
            add("bases", cls("A", p, s[0]), cls("B", p, s[1], b), cls("C", p, s[2], c))
        if b and c:
            for s in itertools.product(("both", "no"), repeat=3):
                if s.count("no") == 2:
                    add("bases", cls("A", p, s[0]), cls("B", p, s[1], b), cls("C", p, s[2], c))
    # four classes
    def subsets(n):
        return [x for k in range(n + 1) for x in itertools.combinations(range(n), k)]
    for b, c, d in itertools.product(subsets(1), subsets(2), subsets(3)):
        if not d:
            continue
        for v in (False, True):
            for s in (itertools.product(("both", "no"), repeat=3) if thorough else [("both",) * 3, ("no", "both", "both"), ("both", "no", "both")]):
                def e(x):
                    return [(y, v) for y in x]
                add("bases4", cls("A", p, s[0]), cls("B", p, s[1], e(b)), cls("C", p, s[2], e(c)), cls("D", p, "both", e(d)))
    # classes in included headers
    for s in (itertools.product(("both", "no", "adapted", "json"), repeat=2)):
        for v in (False, True):
            for j in ("none", "both"):
                if j == "both" and s[0] in ("no", "adapted"):
                    continue
                add("included", cls("A", [("public", "plain"), ("private", "plain")], s[0], file="inc", json=j, binary=j), cls("B", p, s[1], [(0, v)]))
    for files in (("inc", "inc", "main"), ("inc", "main", "main"), ("main", "inc", "main")):
        for b, c in itertools.product(bopts, copts):
            if files == ("main", "inc", "main") and b:
                continue  # included header would depend on the main file
            for s in deviate(("both", "no"), 3, 1):
                add("included3", cls("A", p, s[0], file=files[0]), cls("B", p, s[1], b, file=files[1]), cls("C", p, s[2], c, file=files[2]))
    return result


# ---- emitting code --------------------------------------------------------------------------------------------------
def members(c, ci):
    """[(name, default, access, const, static)] of the class"""
    r = []
    for n, (access, kind) in enumerate(c["items"]):
        if kind not in VALUE:
            continue
        name = "%s%d" % (c["name"].lower(), n)
        default = 1000 * (ci + 1) + 10 * n
        _, const, static = VALUE[kind]
        r.append((name, default, access, const, static))
        if kind == "multi":
            r.append((name + "_more", default + 1, access, const, static))
    return r


def emit_class(c, ci, ns, shape):
    q = "::%s::%s" % (ns, c["name"])
    bases = ["%spublic %s" % ("virtual " if v else "", shape["classes"][b]["name"]) for b, v in c["bases"]]
    if inherits(c, "json"):
        bases.append("public ReflectiveRapidJSON::JsonSerializable<%s>" % c["name"])
    if inherits(c, "binary"):
        bases.append("public ReflectiveRapidJSON::BinarySerializable<%s>" % c["name"])
    key = "struct" if c["key"] == "struct" else "class"
    o = ["%s %s%s {" % (key, c["name"], " : " + ", ".join(bases) if bases else "")]
    t = c["name"]
    push = "friend void ::ReflectiveRapidJSON::JsonReflector::push<%s>(const %s &, ::RAPIDJSON_NAMESPACE::Value::Object &, ::RAPIDJSON_NAMESPACE::Document::AllocatorType &);" % (t, t)
    write = "friend void ::ReflectiveRapidJSON::BinaryReflector::writeCustomType<%s>(::ReflectiveRapidJSON::BinaryReflector::BinarySerializer &, const %s &, ::ReflectiveRapidJSON::BinaryVersion);" % (t, t)
    read = "friend ::ReflectiveRapidJSON::BinaryVersion (::ReflectiveRapidJSON::BinaryReflector::readCustomType<%s>)(::ReflectiveRapidJSON::BinaryReflector::BinaryDeserializer &, %s &, ::ReflectiveRapidJSON::BinaryVersion);" % (t, t)
    def ordered(mode, first, second):
        place, kind = mode.split("-")
        d = OTHERS[kind]
        d = d.replace("%s", c["name"] if "New" in d else t)
        return {"before": [d, first, second], "between": [first, d, second], "after": [first, second, d]}[place]
    if "-" in c["json"]:
        o += ordered(c["json"], "REFLECTIVE_RAPIDJSON_PUSH_PRIVATE_MEMBERS(%s);" % t, "REFLECTIVE_RAPIDJSON_PULL_PRIVATE_MEMBERS(%s);" % t)
    elif relevant(c, "json"):
        o += {"none": [], "push": ["REFLECTIVE_RAPIDJSON_PUSH_PRIVATE_MEMBERS(%s);" % t], "pull": ["REFLECTIVE_RAPIDJSON_PULL_PRIVATE_MEMBERS(%s);" % t],
              "both": ["REFLECTIVE_RAPIDJSON_ENABLE_PRIVATE_MEMBERS(%s);" % t],
              "reversed": ["friend struct Foo;", "friend void foo();", "REFLECTIVE_RAPIDJSON_PULL_PRIVATE_MEMBERS(%s);" % t, "friend void bar();", push],
              "foreign": ["friend void other::push(int);", "friend void other::pull(int);", "friend void push(const %s &);" % t]}[c["json"]]
    if "-" in c["binary"]:
        o += ordered(c["binary"], write, read)
    elif relevant(c, "binary"):
        o += {"none": [], "push": [write], "pull": [read], "both": [write, read], "reversed": [read, "friend void bar();", write],
              "foreign": ["friend void other::writeCustomType(int);", "friend void other::readCustomType(int);"]}[c["binary"]]
    access = None
    if c["key"] == "implicit":
        access = "private"
    elif c["key"] == "struct":
        access = "public"
    for n, (a, kind) in enumerate(c["items"]):
        name = "%s%d" % (c["name"].lower(), n)
        if kind == "nodefault":
            o.append("public: explicit %s(int) {}" % t)
            access = "public"
            continue
        if a != access:
            o.append(a + ":")
            access = a
        if kind in VALUE:
            d, default = VALUE[kind][0], 1000 * (ci + 1) + 10 * n
            if kind == "multi":
                o.append(d % (name, default, name, default + 1))
            else:
                k = d.count("%s")
                o.append(d % (*([name] * k), default))
        elif kind == "ctor":
            o.append("public: %s() {} %s(int) {} ~%s() {}" % (t, t, t))
            access = "public"
        else:
            d = NOISE[kind]
            o.append(d.replace("%s", name))
    # access for tests
    ms = members(c, ci)
    o.append("public:")
    o.append("int get%s(int i) const { switch (i) { %s default: return -1; } }" % (t, " ".join("case %d: return %s;" % (n, m[0]) for n, m in enumerate(ms))))
    o.append("void set%s(int i, int v) { switch (i) { %s default:; } (void)v; }" % (
        t, " ".join("case %d: %s = v; break;" % (n, m[0]) for n, m in enumerate(ms) if not m[3] and not m[4])))
    o.append("};")
    return "\n".join(o)


def noctor(c):
    return any(k == "nodefault" for _, k in c["items"])


def adapt(shape, ns, file):
    r = ""
    for c in shape["classes"]:
        if c["ser"] == "adapted" and c["file"] == file:
            r += "REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE(%s::%s);\nREFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE(%s::%s);\n" % (ns, c["name"], ns, c["name"])
    return r


PRE = """#pragma once
#include <reflective_rapidjson/json/serializable.h>
#include <reflective_rapidjson/binary/serializable.h>
namespace other { void push(int); void pull(int); void writeCustomType(int); void readCustomType(int); class Class { public: void method(); };
template <typename T> class Template {}; void function(int); template <typename T> void functionTemplate(T); }
"""


def emit(batch, file):
    o = [PRE] if file == "inc" else ['#include "inc.h"\n']
    for s in batch:
        cs = [(i, c) for i, c in enumerate(s["classes"]) if c["file"] == file]
        if not cs:
            continue
        ns = "s%d" % s["id"]
        o.append("namespace %s {\n%s\n}\n%s" % (ns, "\n".join(emit_class(c, i, ns, s) for i, c in cs), adapt(s, ns, file)))
    return "".join(o)


def expected(shape, i, fmt, reading):
    """entries of all (sub)objects of class i: (owner index, member index, name, default, has to be considered, settable)"""
    classes = shape["classes"]
    r = []
    for k in [i] + sorted(ancestors(classes, i)):
        c = classes[k]
        push, pull = FRIENDS.get(c[fmt], (True, True)) if relevant(c, fmt) else (False, False)
        for n, (name, default, access, const, static) in enumerate(members(c, k)):
            considered = relevant(c, fmt) and not static and (access == "public" or (pull if reading else push)) and not (
                const and (reading or fmt == "binary"))
            r.append((k, n, name, default, considered, not const and not static))
    return r


def times(shape, i, k, fmt):
    """how often members of class k are considered for class i if each relevant base is considered on its own (differs from 1 only for diamonds)"""
    if i == k:
        return 1
    anc = {x: set(ancestors(shape["classes"], x)) for x in range(len(shape["classes"]))}
    bases = [b for b in anc[i] if relevant(shape["classes"][b], fmt)]
    return sum(times(shape, b, k, fmt) for b in bases if not any(b in anc[o] for o in bases) and (b == k or k in anc[b]))


def emit_tests(batch):
    o = ['#include "inc.h"\n#include "main.h"\n#include "inc_gen.h"\n#include "main_gen.h"\n#include "h_shapes.h"\n']
    calls = []
    for s in batch:
        ns = "s%d" % s["id"]
        for i, c in enumerate(s["classes"]):
            if c["file"] == "inc" and any(x["file"] == "main" for x in s["classes"]):
                continue
            js, bs = relevant(c, "json"), relevant(c, "binary")
            if not js and not bs:
                continue
            q = "%s::%s" % (ns, c["name"])
            e = []
            jw, jr = expected(s, i, "json", False), expected(s, i, "json", True)
            bw, br = expected(s, i, "binary", False), expected(s, i, "binary", True)
            for x, y, z, w in zip(jw, jr, bw, br):
                owner = s["classes"][x[0]]["name"]
                e.append("{ \"%s\", \"%s::%s\", [](const void *o) { return static_cast<const %s *>(o)->get%s(%d); }, [](void *o, int v) { static_cast<%s *>(o)->set%s(%d, v); }, %d, %d, %d, %d, %d, %d, %d, %d }" % (
                    x[2], ns, owner, q, owner, x[1], q, owner, x[1], x[3], x[4], y[4], z[4], w[4], x[5], times(s, i, x[0], "json"), times(s, i, x[0], "binary")))
            ops = "operations<%s, %s, %s, %s>()" % (q, "true" if js else "false", "true" if bs else "false", "false" if noctor(c) else "true")
            calls.append("    run(%d, \"%s\", %s, { %s });" % (s["id"], q, ops, ", ".join(e)))
    # split to limit the size of functions
    for n in range(0, len(calls), 20):
        o.append("static void part%d()\n{\n%s\n}\n" % (n // 20, "\n".join(calls[n:n + 20])))
    o.append("int main()\n{\n%s\n    return finish();\n}\n" % "".join("    part%d();\n" % k for k in range((len(calls) + 19) // 20)))
    return "".join(o)


# ---- running --------------------------------------------------------------------------------------------------------
def describe(shape):
    return "\n".join(emit_class(c, i, "s%d" % shape["id"], shape) + (" // in included header" if c["file"] == "inc" else "") for i, c in enumerate(shape["classes"]))


def run_batch(scratch, gen, name, batch):
    """returns {"failures": [(shape id, class, sig, message)], "classes": n, "checks": n}"""
    d = os.path.dirname(scratch.path(name, "x"))
    for f in ("inc", "main"):
        with open(os.path.join(d, f + ".h"), "w") as o:
            o.write(emit(batch, f))
    failures = []
    for f in ("inc", "main"):
        if f == "inc" and not any(c["file"] == f for s in batch for c in s["classes"]):
            open(os.path.join(d, "inc_gen.h"), "w").close()
            continue
        rc, out = core.run_generator(gen, os.path.join(d, f + ".h"), os.path.join(d, f + "_gen.h"), ("json", "binary"), ["-I" + d])
        if rc:
            return {"failures": [(batch[0]["id"], "", "generator", "generator returns %d for valid input: %s" % (rc, out[-1500:]))], "classes": 0, "checks": 0}
    with open(os.path.join(d, "test.cpp"), "w") as o:
        o.write(emit_tests(batch))
    exe = os.path.join(d, "test")
    rc, out = sh([core.CXX, "-std=c++17", "-O0", "-g0", "-w", "-ferror-limit=0", "-I" + d, "-I" + core.HARNESS, "-I" + core.include_dir(scratch), *core.UTILS,
                  os.path.join(d, "test.cpp"), *core.LIBS, "-o", exe])
    if rc:
        ids = set()
        for line in out.splitlines():
            if "error:" in line or "undefined reference" in line or "note:" in line:
                ids |= set(map(int, re.findall(r"\bs(\d+)::", line)))
            m = re.match(r"(.*/(?:main|inc)(?:_gen)?\.h):(\d+):\d+: error:", line)
            if m:
                with open(m[1]) as g:
                    lines = g.readlines()
                for l in reversed(lines[:int(m[2])]):
                    k = re.search(r"\bs(\d+)(?:::| \{)", l)
                    if k:
                        ids.add(int(k[1]))
                        break
        ids &= {s["id"] for s in batch}
        errors = [l for l in out.splitlines() if "error:" in l or "undefined reference" in l]
        if not ids or not any("main_" in l or "inc_" in l or "undefined reference" in l for l in errors):
            raise HarnessError("unable to compile shapes: " + out[-3000:])
        rest = [s for s in batch if s["id"] not in ids]
        r = run_batch(scratch, gen, name + "r", rest) if rest else {"failures": [], "classes": 0, "checks": 0}
        for i in sorted(ids):
            mine = [l for l in errors if re.search(r"\bs%d\b" % i, l)] or errors
            r["failures"].append((i, "", "compile", "generated code does not compile: " + "\n".join(mine[:3])[:1500]))
        return r
    rc, out = sh([exe], timeout=120)
    try:
        r = json.loads(out[out.rindex("\n{"):]) if "\n{" in out else json.loads(out)
    except ValueError:
        m = re.findall(r"^running (\d+) (\S+)", out, re.M)
        if not m:
            raise HarnessError("shape test failed (%d): %s" % (rc, out[-2000:]))
        return {"failures": [(int(m[-1][0]), m[-1][1], "crash", "test terminated with status %d: %s" % (rc, out[-1500:]))], "classes": 0, "checks": 0}
    return {"failures": [(f["shape"], f["class"], f["sig"], f["msg"]) for f in r["failures"]], "classes": r["classes"], "checks": r["checks"]}


def explore(scratch, report, all_shapes):
    dag = Dag()
    task, gen = core.add_generator(dag, scratch)
    by_id = {s["id"]: s for s in all_shapes}
    batches = [all_shapes[i:i + BATCH] for i in range(0, len(all_shapes), BATCH)]
    for n, b in enumerate(batches):
        dag.add("batch%d" % n, lambda n=n, b=b: run_batch(scratch, gen, "batch%d" % n, b), [task])
    done = dag.run()
    kinds = {}
    for n, b in enumerate(batches):
        r = done["batch%d" % n]
        report.cov["traces_validated_against_impl"] += r["classes"]
        report.cov["oracle_comparisons"] += r["checks"]
        for s in b:
            kinds.setdefault(s["kind"], [0, 0])
            kinds[s["kind"]][0] += 1
            kinds[s["kind"]][1] += sum(1 + len(c["items"]) + len(c["bases"]) for c in s["classes"])
        for i, c, sig, msg in r["failures"]:
            report.violation(by_id[i]["kind"], sig, "%s: %s" % (c or "s%d" % i, msg), describe(by_id[i]), {"kind": "shape", "shape": by_id[i]})
    for k, (n, t) in kinds.items():
        report.cov["states"] += n
        report.cov["transitions"] += t
        report.units.append({"build": "shapes", "unit": k, "bound": 0, "executions": n, "states": n, "capped": False})
    for s in all_shapes[::max(1, len(all_shapes) // 10)]:
        report.cov["samples"].append(describe(s).replace("\n", " ")[:500])


def replay(scratch, data, path):
    dag = Dag()
    task, gen = core.add_generator(dag, scratch)
    dag.add("batch", lambda: run_batch(scratch, gen, "batch", [data["replay"]["shape"]]), [task])
    r = dag.run()["batch"]
    for f in r["failures"]:
        print("%s: %s" % (f[2], f[3]))
    ok = any(f[2] == data["sig"] for f in r["failures"])
    if ok:
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
    return 1 if ok else 0
