"""C13: enumerates placements of version markers, versions and ways of nesting/deriving; the code generated for them is compiled, executed and compared with
a reference model for every version which can be requested or found in data."""
import itertools, json, os, re
from . import core
from .core import Dag, HarnessError, sh

BATCH = 110


# ---- shapes ---------------------------------------------------------------------------------------------------------
# type: {"v": version, "bases": [type], "decls": [["as"|"until", text, value] | ["m", wrapper or None, type or None] | ["x", text]]}
def typ(v, decls, bases=()):
    return {"v": v, "bases": list(bases), "decls": [list(d) for d in decls]}


def M(wrapper=None, t=None):
    return ("m", wrapper, t)


def mark(m):
    """'a2' -> as_of_version(2), 'u1' -> until_version(1), '' -> nothing; a2u3 -> both"""
    return [("as" if k == "a" else "until", v, int(v)) for k, v in re.findall(r"([au])(\d+)", m)]


WRAPPERS = {  # type, initialiser, paths, raw bytes in front of each value; whether values are created anew when reading
    "direct": ("%s", "", [""], [[]], False),
    "vector": ("std::vector<%s>", " = std::vector<%s>(2)", ["[0]", "[1]"], [[0x82], []], False),
    "vectorvector": ("std::vector<std::vector<%s>>", " = std::vector<std::vector<%s>>(1, std::vector<%s>(1))", ["[0][0]"], [[0x81, 0x81]], False),
    "list": ("std::list<%s>", " = std::list<%s>(2)", [".front()", ".back()"], [[0x82], []], False),
    "map": ("std::map<unsigned char, %s>", " = std::map<unsigned char, %s>{ { 7, %s() } }", [".begin()->second"], [[0x81, 7]], True),
    "unique": ("std::unique_ptr<%s>", " = std::make_unique<%s>()", ["->"], [[1]], True),
    "optional": ("std::optional<%s>", " = %s()", ["->"], [[1]], True),
    "pair": ("std::pair<unsigned char, %s>", " = std::pair<unsigned char, %s>(9, %s())", [".second"], [[9]], False),
    "variant": ("std::variant<std::monostate, int, %s>", " = %s()", ["get<2>"], [[2]], True),
}
NOISE = ["private:", "public:", "static int s%d;", "void f%d();", "static constexpr int c%d = 7;", "struct N%d { int n = 1; };", "enum E%d { e%d };", "using T%d = int;",
         "static constexpr std::size_t rrj%d = 5;", "const int k%d = 3;"]
FORMS = [("2", 2), ("(2)", 2), ("2u", 2), ("0x2", 2), ("0b10", 2), ("1 + 1", 2), ("3 - 1", 2), ("2 * 1", 2), ("constantTwo", 2), ("Enum::two", 2), ("::versions::constantTwo", 2),
         ("sizeof(short)", 2), ("1 ? 2 : 3", 2), ("constantTwo + 1", 3), ("static_cast<std::size_t>(2)", 2), ("MACRO_TWO", 2), ("300", 300), ("70000", 70000), ("0x10000000000", 1 << 40)]


def shapes(tier):
    thorough = tier == "thorough"
    r, seen = [], set()

    def add(kind, t, requests=None):
        k = json.dumps(t, sort_keys=True)
        if k in seen:
            return
        seen.add(k)
        r.append({"id": len(r), "kind": kind, "type": t, "requests": requests})
    single = ["", "a1", "a2", "a3", "u1", "u2", "u3"]
    double = ["".join(p) for p in itertools.product(single[1:], repeat=2)]

    def flat(marks):
        return [d for m in marks for d in mark(m) + [M()]]
    for t in (0, 3):
        for ms in itertools.product(single, repeat=4 if thorough else 3):
            add("flat", typ(t, flat(ms)))
    for t in (1, 2):
        for ms in itertools.product(single, repeat=3 if thorough else 2):
            add("flat", typ(t, flat(ms)))
    for t in (0, 2, 3):
        for d in double:
            for s in (single if thorough else ("", "a2", "u2")):
                add("double", typ(t, flat((d, s))))
                add("double", typ(t, flat((s, d, ""))))
    if thorough:
        for d, e in itertools.product(double, repeat=2):
            add("double2", typ(3, flat((d, e))))
    for n in NOISE:
        for a, b in itertools.product(single, single if thorough else ("", "a2", "u2")):
            for t in (0, 3):
                add("noise", typ(t, mark(a) + [("x", n)] + [M()] + mark(b) + [M()]))
    # the version as expression
    for (text, value), k in itertools.product(FORMS, ("as", "until")):
        for t in (0, max(3, value)):
            add("expression", typ(t, [M(), (k, text, value), M(), ("as", str(value + 1), value + 1), M()]), sorted({0, 1, value - 1, value, value + 1}))
    # large versions
    for t in (127, 128, 16383, 16384, 1 << 21, 1 << 32, (1 << 56) - 1):
        add("large", typ(t, [M(), ("as", str(t), t), M(), ("until", str(t - 1), t - 1), M()]), [0, 1, t - 1, t])
    # nesting
    inner = ["", "a1", "a2", "u1", "u2"]
    for w in WRAPPERS:
        for om, im in itertools.product(("", "a2", "u1"), inner):
            for ot, it in itertools.product((0, 2), (0, 1, 2, 3) if thorough or w in ("direct", "vector") else (0, 2)):
                add("nested", typ(ot, mark(om) + [M(w, typ(it, [M()] + mark(im) + [M()])), M()]))
    for im in inner:
        for ot, mt, it in itertools.product((0, 2), (0, 2), (0, 2)):
            for w in (WRAPPERS if thorough else ("direct",)):
                add("nested2", typ(ot, [M("direct", typ(mt, mark("a1") + [M(w, typ(it, [M()] + mark(im) + [M()]))])), M()]))
    # bases
    for bm, dm in itertools.product(inner, repeat=2):
        for bt, dt in itertools.product((0, 1, 2, 3), (0, 2)):
            add("base", typ(dt, [M()] + mark(dm) + [M()], [typ(bt, [M()] + mark(bm) + [M()])]))
    for am, bm in itertools.product(inner, repeat=2):
        for at, bt, ct in itertools.product((0, 2), repeat=3):
            add("bases", typ(ct, mark("a2") + [M()], [typ(at, mark(am) + [M()]), typ(bt, mark(bm) + [M()])]))
            add("bases", typ(ct, mark("a2") + [M()], [typ(at, mark(am) + [M()], [typ(bt, mark(bm) + [M()])])]))
    return r


# ---- reference model --------------------------------------------------------------------------------------------------
def varlen(v):
    for n in range(1, 9):
        if v < 1 << 7 * n:
            x = v | (1 << 7 * n if n < 8 else 1 << 56)
            return [x >> 8 * (n - 1 - i) & 0xFF for i in range(n)]
    raise HarnessError("version too big")


def members(t):
    """[(condition, wrapper, type)] according to the markers"""
    as_of = until = 0
    r = []
    for d in t["decls"]:
        if d[0] == "as":
            as_of = d[2]
            if until < as_of:
                until = 0
        elif d[0] == "until":
            until = d[2]
            if as_of > until:
                as_of = 0
        elif d[0] == "m":
            r.append(((as_of, until), d[1], d[2]))
    return r


def within(cond, v):
    return v >= cond[0] and (not cond[1] or v <= cond[1])


class Model:
    """assigns a number to each uint32 within an object and computes data and effect of reading"""

    def __init__(self, t):
        self.t = t
        self.leaves = []  # (path, default)

    def number(self, t, path):
        node = {"t": t, "bases": [self.number(b, path) for b in t["bases"]], "members": []}
        for n, (cond, w, x) in enumerate(members(t)):
            member = "%sm%d" % (t["prefix"], n)
            if w is None:
                node["members"].append((cond, None, len(self.leaves)))
                self.leaves.append(("%s%s" % (path, member), 1000 * (len(t["name"])) + n))
            else:
                subs = []
                for p in WRAPPERS[w][2]:
                    full = "std::get<2>(%s%s)." % (path, member) if p == "get<2>" else "%s%s%s%s" % (path, member, p, "" if p == "->" else ".")
                    subs.append(self.number(x, full))
                node["members"].append((cond, w, subs))
        return node

    def root(self):
        self.leaves = []
        return self.number(self.t, "o.")


def prepare(shape):
    """assigns names"""
    names = []

    def go(t):
        for b in t["bases"]:
            go(b)
        for d in t["decls"]:
            if d[0] == "m" and d[2]:
                go(d[2])
        t["name"] = "ABCDEFGH"[len(names)]
        t["prefix"] = t["name"].lower()
        names.append(t)
    go(shape["type"])
    return names


def write(node, requested, flags, found=None):
    """tokens: raw bytes >= 0, leaves < 0; flags: defects to be considered, found: defects which had an effect"""
    t = node["t"]
    v = (requested or t["v"]) if t["v"] else requested
    r = []
    for b in node["bases"]:
        bt = b["t"]
        ideal = write(b, base_version(bt, v, requested), flags, found)
        actual = write(b, requested, flags, found)
        if ideal != actual and found is not None:
            found.add("nested-version" if bt["v"] else "base-version")
        r += actual if "base-version" in flags else ideal
    if t["v"]:
        r += varlen(v)
    for cond, w, x in node["members"]:
        if not within(cond, v):
            continue
        if w is None:
            r.append(-1 - x)
            continue
        for raw, sub in zip(WRAPPERS[w][3], x):
            r += raw
            ideal = write(sub, nested_version(sub["t"], v), flags, found)
            passed = v if w == "direct" else 0
            actual = write(sub, passed, flags, found)
            if ideal != actual and found is not None:
                found.add("nested-version" if w == "direct" else "container-version")
            r += actual if "nested" in flags else ideal
    return r


def nested_version(t, v):
    # versions beyond the ones supported by the nested type can not be requested
    return min(v, t["v"]) if t["v"] else v


def base_version(bt, v, requested):
    return nested_version(bt, requested if bt["v"] else v)


def unreadable(node, requested, top=True):
    """whether the code passes a version to a nested versioned type or base which is not supported by it"""
    t = node["t"]
    v = (requested or t["v"]) if t["v"] else requested
    if t["v"] and v > t["v"]:
        return True
    return any(unreadable(b, requested) for b in node["bases"]) or any(
        unreadable(s, v if w == "direct" else 0) for cond, w, x in node["members"] if w is not None and within(cond, v) for s in x)


def read(node, tokens, pos, param, values, fresh, flags, diverged):
    """effect of reading what has been written as ideal data for the version within the tokens"""
    t = node["t"]
    v = param
    if t["v"]:
        v = node["present"]
    for b in node["bases"]:
        read(b, tokens, pos, base_version(b["t"], v, v), values, fresh, flags, diverged)
    for cond, w, x in node["members"]:
        inside = within(cond, v)
        if w is None:
            values[x] = "w" if inside else ("d" if fresh else "p")
            continue
        for sub in x:
            if inside:
                read(sub, tokens, pos, nested_version(sub["t"], v), values, fresh or WRAPPERS[w][4], flags, diverged)
            else:
                mark_all(sub, values, "d" if fresh else "p")


def mark_all(node, values, c):
    for b in node["bases"]:
        mark_all(b, values, c)
    for _, w, x in node["members"]:
        if w is None:
            values[x] = c
        else:
            for s in x:
                mark_all(s, values, c)


def set_present(node, requested):
    """stores the version written for each type when writing with the ideal model"""
    t = node["t"]
    v = (requested or t["v"]) if t["v"] else requested
    node["present"] = v
    for b in node["bases"]:
        set_present(b, base_version(b["t"], v, requested))
    for _, w, x in node["members"]:
        if w is not None:
            for s in x:
                set_present(s, nested_version(s["t"], v))


def read_diverges(node, ideal, actual):
    """names of the known defects which affect reading ideal data; ideal/actual: version passed for types not containing the version"""
    t = node["t"]
    v, w = (node["present"], node["present"]) if t["v"] else (ideal, actual)
    r = set()
    for b in node["bases"]:
        if not b["t"]["v"] and write(b, v, ()) != write(b, actual, ()):
            r.add("base-version")
        r |= read_diverges(b, v, actual)
    for cond, wrapper, x in node["members"]:
        if wrapper is not None and within(cond, v):
            for s in x:
                passed = w if wrapper == "direct" else 0
                if not s["t"]["v"] and write(s, v, ()) != write(s, passed, ()):
                    r.add("container-version" if wrapper != "direct" else "base-version")
                r |= read_diverges(s, v, passed)
    return r


def zero_version_tokens(node):
    """data of a versioned type containing version zero"""
    t = node["t"]
    r = []
    for b in node["bases"]:
        r += write(b, 0, ())
    r += varlen(0)
    for cond, w, x in node["members"]:
        if within(cond, 0):
            if w is not None:
                return None
            r.append(-1 - x)
    return r


# ---- emitting code ----------------------------------------------------------------------------------------------------
PRE = """#pragma once
#define REFLECTIVE_RAPIDJSON_SHORT_MACROS
#include <reflective_rapidjson/binary/serializable.h>
#include <list>
#include <map>
#include <memory>
#include <optional>
#include <variant>
#include <vector>
#define MACRO_TWO 2
namespace versions { static constexpr std::size_t constantTwo = 2; }
using versions::constantTwo;
enum Enum { one = 1, two = 2 };
"""


def emit_type(t, ns, short):
    bases = "".join("public %s, " % b["name"] for b in t["bases"])
    v = ", %dull" % t["v"] if t["v"] else ""
    o = ["struct %s : %spublic ReflectiveRapidJSON::BinarySerializable<%s%s> {" % (t["name"], bases, t["name"], v)]
    n = x = 0
    private = False
    friends = any(d[0] == "x" and d[1] == "private:" for d in t["decls"])
    if friends:
        q = "::%s::%s" % (ns, t["name"])
        o.append("friend void ::ReflectiveRapidJSON::BinaryReflector::writeCustomType<%s>(::ReflectiveRapidJSON::BinaryReflector::BinarySerializer &, const %s &, "
                 "::ReflectiveRapidJSON::BinaryVersion); friend ::ReflectiveRapidJSON::BinaryVersion (::ReflectiveRapidJSON::BinaryReflector::readCustomType<%s>)("
                 "::ReflectiveRapidJSON::BinaryReflector::BinaryDeserializer &, %s &, ::ReflectiveRapidJSON::BinaryVersion); friend struct ::Access;" % ((t["name"],) * 4))
    for d in t["decls"]:
        if d[0] == "as":
            o.append(("as_of_version(%s):" if short else "REFLECTIVE_RAPIDJSON_AS_OF_VERSION(%s):") % d[1])
        elif d[0] == "until":
            o.append(("until_version(%s):" if short else "REFLECTIVE_RAPIDJSON_UNTIL_VERSION(%s):") % d[1])
        elif d[0] == "x":
            o.append(re.sub("%d", str(x), d[1]))
            x += 1
        elif d[1] is None:
            o.append("std::uint32_t %sm%d = %d;" % (t["prefix"], n, 1000 * len(t["name"]) + n))
            n += 1
        else:
            w = WRAPPERS[d[1]]
            name = d[2]["name"]
            o.append("%s %sm%d%s;" % (w[0] % name, t["prefix"], n, w[1].replace("%s", name)))
            n += 1
    o.append("};")
    return "\n".join(o)


def describe(shape):
    return "\n".join(emit_type(t, "v%d" % shape["id"], shape["id"] % 2) for t in prepare(shape))


def emit(batch):
    o = [PRE, "struct Access;\n"]
    for s in batch:
        o.append("namespace v%d {\n%s\n}\n" % (s["id"], describe(s)))
    return "".join(o)


def versions_of(shape):
    if shape["requests"] is not None:
        return [v for v in shape["requests"] if v >= 0 and (not shape["type"]["v"] or v <= shape["type"]["v"])]
    t = shape["type"]["v"]
    return list(range(0, t + 1)) if t else list(range(0, 5))


def emit_tests(batch):
    o = ['#include "main.h"\n#include "gen.h"\n#include "h_versions.h"\nstruct Access {\n']
    calls = []
    for s in batch:
        prepare(s)
        m = Model(s["type"])
        root = m.root()
        t = s["type"]
        q = "v%d::%s" % (s["id"], t["name"])
        o.append("static std::uint32_t *leaf%d(void *p, int i) { auto &o = *static_cast<%s *>(p); switch (i) { %s } return nullptr; }\n" % (
            s["id"], q, " ".join("case %d: return &%s;" % (n, l[0]) for n, l in enumerate(m.leaves))))
        writes, reads = [], []

        def lit(x):
            return "{ " + ", ".join("%d" % y for y in x) + " }"
        for v in versions_of(s):
            ideal = write(root, v, ())
            found = set()
            known = write(root, v, ("base-version", "nested"), found)
            if ideal == known:
                found = set()
            writes.append("{ %dull, %s, %s, \"%s\" }" % (v, lit(ideal), lit(known), "+".join(sorted(found))))
            # reading what has been written with that version
            set_present(root, v)
            values = ["?"] * len(m.leaves)
            read(root, None, 0, v, values, False, (), None)
            eff = root["present"]
            for param in ((v,) if not t["v"] else (0, 3)):
                tags = read_diverges(root, param, param)
                reads.append("{ %dull, %s, \"%s\", %dull, \"%s\" }" % (param, lit(ideal), "".join(values), eff, "+".join(sorted(tags))))
        unsupported = "%dull" % t["v"] if t["v"] and not t["bases"] else "0"
        if t["v"] and not t["bases"]:
            z = zero_version_tokens(root)
            if z is not None:
                values = ["w" if within(c, 0) else "p" for c, _, _ in root["members"]] if all(w is None for _, w, _ in root["members"]) else None
                if values is not None:
                    reads.append("{ 0, %s, \"%s\", 0, \"\" }" % (lit(z), "".join(values)))
        calls.append("    run<%s, %dull>(%d, \"%s\", &Access::leaf%d, %d, { %s }, { %s }, %s);" % (
            q, t["v"], s["id"], q, s["id"], len(m.leaves), ",\n        ".join(writes), ",\n        ".join(reads), unsupported))
    o.append("};\n")
    for n in range(0, len(calls), 20):
        o.append("static void part%d()\n{\n%s\n}\n" % (n // 20, "\n".join(calls[n:n + 20])))
    o.append("int main()\n{\n%s\n    return finish();\n}\n" % "".join("    part%d();\n" % k for k in range((len(calls) + 19) // 20)))
    return "".join(o)


def run_batch(scratch, gen, name, batch):
    d = os.path.dirname(scratch.path(name, "x"))
    with open(os.path.join(d, "main.h"), "w") as f:
        f.write(emit(batch))
    rc, out = core.run_generator(gen, os.path.join(d, "main.h"), os.path.join(d, "gen.h"), ("binary",), ["-I" + d])
    if rc:
        return {"failures": [(batch[0]["id"], "generator", "generator returns %d for valid input: %s" % (rc, out[-1500:]))], "classes": 0, "checks": 0}
    with open(os.path.join(d, "test.cpp"), "w") as f:
        f.write(emit_tests(batch))
    exe = os.path.join(d, "test")
    rc, out = sh([core.CXX, "-std=c++17", "-O0", "-g0", "-w", "-ferror-limit=0", "-I" + d, "-I" + core.HARNESS, "-I" + core.include_dir(scratch), *core.UTILS,
                  os.path.join(d, "test.cpp"), *core.LIBS, "-o", exe])
    if rc:
        errors = [l for l in out.splitlines() if "error:" in l or "undefined reference" in l]
        ids = {int(i) for l in out.splitlines() if "error:" in l or "note:" in l for i in re.findall(r"\bv(\d+)::", l)} & {s["id"] for s in batch}
        for l in errors:
            m = re.match(r".*/gen\.h:(\d+):\d+: error:", l)
            if m:
                with open(os.path.join(d, "gen.h")) as f:
                    for x in reversed(f.readlines()[:int(m[1])]):
                        k = re.search(r"\bv(\d+)::", x)
                        if k:
                            ids.add(int(k[1]))
                            break
        if not ids or not any("gen.h" in l or "undefined" in l for l in errors):
            raise HarnessError("unable to compile versioned classes: " + out[-3000:])
        rest = [s for s in batch if s["id"] not in ids]
        r = run_batch(scratch, gen, name + "r", rest) if rest else {"failures": [], "classes": 0, "checks": 0}
        r["failures"] += [(i, "compile", "generated code does not compile: " + "\n".join(errors[:3])[:1500]) for i in sorted(ids)]
        return r
    rc, out = sh([exe], timeout=120)
    try:
        r = json.loads(out[out.rindex("\n{"):])
    except ValueError:
        m = re.findall(r"^running (\d+)", out, re.M)
        if not m:
            raise HarnessError("version test failed (%d): %s" % (rc, out[-2000:]))
        return {"failures": [(int(m[-1]), "crash", "test terminated with status %d: %s" % (rc, out[-1500:]))], "classes": 0, "checks": 0}
    return {"failures": [(f["shape"], f["sig"], f["msg"]) for f in r["failures"]], "classes": r["classes"], "checks": r["checks"]}


def explore(scratch, report, all_shapes):
    dag = Dag()
    task, gen = core.add_generator(dag, scratch)
    by_id = {s["id"]: s for s in all_shapes}
    count = (len(all_shapes) + BATCH - 1) // BATCH
    batches = [all_shapes[i::count] for i in range(count)]
    for n, b in enumerate(batches):
        dag.add("batch%d" % n, lambda n=n, b=b: run_batch(scratch, gen, "batch%d" % n, b), [task])
    done = dag.run()
    kinds = {}
    for n, b in enumerate(batches):
        r = done["batch%d" % n]
        report.cov["traces_validated_against_impl"] += r["classes"]
        report.cov["oracle_comparisons"] += r["checks"]
        for s in b:
            k = kinds.setdefault(s["kind"], [0, 0])
            k[0] += 1
            k[1] += len(versions_of(s))
        for i, sig, msg in r["failures"]:
            report.violation(by_id[i]["kind"], sig, "v%d: %s" % (i, msg), describe(by_id[i]), {"kind": "version", "shape": by_id[i]})
    for k, (n, t) in kinds.items():
        report.cov["states"] += n
        report.cov["transitions"] += t
        report.units.append({"build": "versions", "unit": k, "bound": 0, "executions": t, "states": n, "capped": False})
    for s in all_shapes[::max(1, len(all_shapes) // 10)]:
        report.cov["samples"].append(describe(s).replace("\n", " ")[:500])


def replay(scratch, data, path):
    dag = Dag()
    task, gen = core.add_generator(dag, scratch)
    dag.add("batch", lambda: run_batch(scratch, gen, "batch", [data["replay"]["shape"]]), [task])
    failures = dag.run()["batch"]["failures"]
    for f in failures:
        print("%s: %s" % (f[1], f[2]))
    ok = any(f[1] == data["sig"] for f in failures)
    if ok:
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
    return 1 if ok else 0
