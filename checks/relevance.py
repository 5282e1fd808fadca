"""C15: enumerates how and where classes are declared and the options of the generator; compares the functions emitted by the real generator
(symbols defined by the compiled code) with the ones expected."""
import itertools, json, os, re
from . import core
from .core import Dag, HarnessError, sh

FMTS = ("json", "binary")
BASE = {"json": "ReflectiveRapidJSON::JsonSerializable", "binary": "ReflectiveRapidJSON::BinarySerializable"}
MACRO = {"json": "REFLECTIVE_RAPIDJSON_MAKE_JSON_SERIALIZABLE", "binary": "REFLECTIVE_RAPIDJSON_MAKE_BINARY_SERIALIZABLE"}
FUNCTIONS = {"json": ("push", "pull"), "binary": ("writeCustomType", "readCustomType")}
SPACE = {"json": "JsonReflector", "binary": "BinaryReflector"}

# relation to the library: {format: how}
HOW = ("no", "inherit", "adapt", "adapt-inc", "list-adapt-inc", "list-adapt")
# ways to inherit (only relevant when inheriting); %B: base class, %Q: qualified name of the class
INHERIT = {
    "plain": ("", ": public %B<%Q>"),
    "default": ("", ": %B<%Q>"),
    "global": ("", ": public ::%B<%Q>"),
    "virtual": ("", ": virtual public %B<%Q>"),
    "second": ("struct Other%I { int o = 1; };", ": public Other%I, public %B<%Q>"),
    "first": ("struct Other%I { int o = 1; };", ": public %B<%Q>, public Other%I"),
    "alias": ("class %N; using Alias%I = %B<%N>;", ": public Alias%I"),
    "templatealias": ("template <typename T> using Alias%I = %B<T>;", ": public Alias%I<%Q>"),
    "macro": ("", ": public BASE_%F(%Q)"),
    "nsalias": ("namespace RRJ%I = ReflectiveRapidJSON;", ": public RRJ%I::%C<%Q>"),
    "derived": ("struct Base%I : public %B<Base%I> { int b = 1; };", ": public Base%I, public %B<%Q>"),
    "derivedlast": ("struct Base%I : public %B<Base%I> { int b = 1; };", ": public %B<%Q>, public Base%I"),
    # not relevant
    "indirect": ("struct Base%I : public %B<Base%I> { int b = 1; };", ": public Base%I"),
    "othernamespace": ("", ": public other::%C<%Q>"),
    "othername": ("", ": public ReflectiveRapidJSON::Not%C<%Q>"),
}
IRRELEVANT = ("indirect", "othernamespace", "othername")
DECL = ("def", "fwd", "fwd-def", "def-fwd", "fwd-def-fwd", "inc", "fwdinc-def", "inc-fwd")
# locations: (opening, closing, qualification)
LOCATIONS = {
    "global": ("", "", ""),
    "ns": ("namespace c%I {", "}", "c%I::"),
    "nsns": ("namespace c%I { namespace in {", "} }", "c%I::in::"),
    "nested-ns": ("namespace c%I::in {", "}", "c%I::in::"),
    "inline": ("namespace c%I { inline namespace in {", "} }", "c%I::in::"),
    "samename": ("namespace c%I { namespace ReflectiveRapidJSON2 {", "} }", "c%I::ReflectiveRapidJSON2::"),
    "class": ("struct Outer%I {", "};", "Outer%I::"),
    "nsclass": ("namespace c%I { class Outer { public:", "}; }", "c%I::Outer::"),
    "classclass": ("struct Outer%I { struct Mid {", "}; };", "Outer%I::Mid::"),
    "extern": ('extern "C++" {', "}", ""),
    "externns": ('extern "C++" { namespace c%I {', "} }", "c%I::"),
    "line": ('namespace c%I {\n#line 1 "other.h"', "}", "c%I::"),
    "attribute": ("namespace [[deprecated]] c%I {", "}", "c%I::"),
}
INCLASS = ("class", "nsclass", "classclass")
KEYS = ("struct", "class", "MACRO_STRUCT", "MACRO_CLASS")
BODY = {
    "default": "public: int m = 1;",
    "explicitdefault": "public: int m = 1; %N() = default;",
    "nodefault": "public: int m = 1; explicit %N(int) {}",
    "defaultargs": "public: int m = 1; explicit %N(int = 5) {}",
    "copyonly": "public: int m = 1; %N(const %N &) = default;",
    "empty": "",
    "final": "public: int m = 1;",
    "staticmember": "public: static int s; int m = 1;",
}
NODEFAULT = ("nodefault", "copyonly")


def case(how_json, how_binary, inherit="plain", decl="def", loc="ns", key="struct", body="default", decoy=False):
    return {"how": {"json": how_json, "binary": how_binary}, "inherit": inherit, "decl": decl, "loc": loc, "key": key, "body": body, "decoy": decoy}


def valid(c):
    hows = set(c["how"].values())
    d, l = c["decl"], c["loc"]
    if c["inherit"] != "plain" and "inherit" not in hows:
        return False
    if d == "fwd" and "inherit" in hows:
        return False
    # a nested class has to be declared within its outer class
    if l in INCLASS and (d in ("fwdinc-def", "inc-fwd", "def-fwd", "fwd-def-fwd") or c["inherit"] in ("alias", "nsalias")):
        return False
    if l in INCLASS and d != "inc" and hows & {"adapt-inc", "list-adapt-inc"}:
        return False  # adaption can not precede the declaration
    if l == "line" and d in ("inc", "fwdinc-def", "inc-fwd"):
        return False
    return True


def fmt_inherit(c, fmt):
    return c["how"][fmt] == "inherit"


def cases(tier):
    r, seen = [], set()

    def add(c):
        k = json.dumps(c, sort_keys=True)
        if k not in seen and valid(c):
            seen.add(k)
            r.append({"id": len(r), **c})
    default = ("inherit", "inherit", "plain", "def", "ns", "struct", "default", False)
    dims = (HOW, HOW, tuple(INHERIT), DECL, tuple(LOCATIONS), KEYS, tuple(BODY), (False, True))
    pairs = list(itertools.combinations(range(len(dims)), 2))
    # relation x declaration (any location when thorough)
    for hj, hb, d in itertools.product(HOW, HOW, DECL):
        for loc in (LOCATIONS if tier == "thorough" else ("ns", "global") if hj == hb or "no" in (hj, hb) else ("ns",)):
            add(case(hj, hb, "plain", d, loc))
    for h, d, loc in itertools.product(HOW, DECL, LOCATIONS):
        add(case(h, h, "plain", d, loc))
        add(case(h, "no", "plain", d, loc))
        add(case("no", h, "plain", d, loc))
        if h.startswith("list"):
            add(case(h, h, "plain", d, loc, decoy=True))
    for inh, d, loc in itertools.product(INHERIT, DECL, LOCATIONS):
        add(case("inherit", "inherit", inh, d, loc))
    for inh, h in itertools.product(INHERIT, HOW):
        add(case("inherit", h, inh))
        add(case(h, "inherit", inh))
    # all pairs of deviations from the default (thorough: triples)
    for dims_ in itertools.combinations(range(len(dims)), 3 if tier == "thorough" else 2):
        for values in itertools.product(*(dims[k] for k in dims_)):
            x = list(default)
            for k, v in zip(dims_, values):
                x[k] = v
            add(case(*x))
            if tier == "thorough":
                x[0] = x[1] = "adapt" if "inherit" in x[:2] else x[0]
                add(case(*x))
    return r


def name(c):
    return "K%d" % c["id"]


def qualified(c):
    return LOCATIONS[c["loc"]][2].replace("%I", str(c["id"])) + name(c)


def emit(c):
    """(code for the included header, code for the main header)"""
    i, n, q = str(c["id"]), name(c), qualified(c)
    opening, closing, _ = (x.replace("%I", i) for x in LOCATIONS[c["loc"]])

    def sub(s, fmt):
        return (s.replace("%B", BASE[fmt]).replace("%C", BASE[fmt].split("::")[1]).replace("%Q", n).replace("%N", n)
                .replace("%F", fmt).replace("%I", i + fmt))
    pre, bases = "", []
    for fmt in FMTS:
        if fmt_inherit(c, fmt):
            p, b = INHERIT[c["inherit"]]
            pre += sub(p, fmt) + "\n"
            bases.append(sub(b, fmt)[1:].strip())
    if c["inherit"] == "indirect" and bases and len({b for b in bases}) != len(bases):
        raise HarnessError("duplicated base")
    heritage = " : " + ", ".join(bases) if bases else ""
    body = BODY[c["body"]].replace("%N", n)
    definition = "%s%s %s%s%s { %s };\n" % (pre, c["key"], n, " final" if c["body"] == "final" else "", heritage, body)
    fwd = "%s %s;\n" % (c["key"], n)

    def wrap(x):
        return "%s\n%s%s\n" % (opening, x, closing) if x else ""
    d = c["decl"]
    inc = {"inc": definition, "fwdinc-def": fwd, "inc-fwd": definition}.get(d, "")
    main = {"def": definition, "fwd": fwd, "fwd-def": fwd + definition, "def-fwd": definition + fwd, "fwd-def-fwd": fwd + definition + fwd, "inc": "",
            "fwdinc-def": definition, "inc-fwd": fwd}[d]
    if not inc and {"adapt-inc", "list-adapt-inc"} & set(c["how"].values()):
        inc = fwd
    inc, main = wrap(inc), wrap(main)
    # a namesake elsewhere which has no relation to the library
    if c["decoy"]:
        decoy = "%s %s { int d = 1; };\n" % (c["key"], n)
        main = "namespace decoy%s { %s}\n%snamespace decoy%s { namespace in { %s} }\n" % (i, decoy, main, i, decoy)
    for fmt in FMTS:
        h = c["how"][fmt]
        if h in ("adapt", "list-adapt"):
            main += "%s(%s);\n" % (MACRO[fmt], q)
        elif h in ("adapt-inc", "list-adapt-inc"):
            inc += "%s(%s);\n" % (MACRO[fmt], q)
    return inc, main


def expected(c, fmt):
    h, d = c["how"][fmt], c["decl"]
    if d == "fwd":
        return False
    in_main = d not in ("inc", "inc-fwd")
    if h == "inherit":
        return in_main and c["inherit"] not in IRRELEVANT
    if h in ("adapt", "list-adapt"):
        return True
    return h == "list-adapt-inc" and in_main


PRE = """#pragma once
#include <reflective_rapidjson/json/serializable.h>
#include <reflective_rapidjson/binary/serializable.h>
namespace other { template <typename T> struct JsonSerializable {}; template <typename T> struct BinarySerializable {}; }
namespace ReflectiveRapidJSON { template <typename T> struct NotJsonSerializable {}; template <typename T> struct NotBinarySerializable {}; }
#define MACRO_STRUCT struct
#define MACRO_CLASS class
#define BASE_json(T) ReflectiveRapidJSON::JsonSerializable<T>
#define BASE_binary(T) ReflectiveRapidJSON::BinarySerializable<T>
"""
MAIN = """#include "inc.h"
struct Unrelated { int u = 1; };
enum class UnrelatedEnum { A };
union UnrelatedUnion { int a; float b; };
template <typename T> struct InTemplate : public ReflectiveRapidJSON::JsonSerializable<InTemplate<T>> {
    int t = 1;
    struct Inner : public ReflectiveRapidJSON::JsonSerializable<Inner> { int i = 1; };
};
inline int unrelatedFunction() { struct Local { int l = 1; }; return Local().l; }
"""

HIDDEN, PROTECTED = '__attribute__((visibility("hidden")))', '__attribute__((visibility("protected")))'
# (generators, expected formats, visibility of json, visibility of binary, class lists in one list)
OPTIONS = [
    {"generators": ["json", "binary"], "json": None, "binary": None},
    {"generators": ["binary", "json"], "json": HIDDEN, "binary": PROTECTED},
    {"generators": ["json"], "json": PROTECTED, "binary": HIDDEN},
    {"generators": ["binary"], "json": HIDDEN, "binary": None},
    {"generators": ["json", "binary"], "json": None, "binary": HIDDEN},
    {"generators": ["json", "binary"], "json": "UNUSED_MACRO", "binary": "/* comment */"},
]
VISIBILITY = {None: "DEFAULT", HIDDEN: "HIDDEN", PROTECTED: "PROTECTED", "UNUSED_MACRO": "DEFAULT", "/* comment */": "DEFAULT"}
LISTS = ("exact", "extra", "swapped")


def listed(batch, fmt, how):
    # inline namespaces are not part of the names
    names = [qualified(c).replace("::in::", "::") if c["loc"] == "inline" else qualified(c) for c in batch if c["how"][fmt].startswith("list")]
    if how == "extra":  # names which do not exist, prefixes, suffixes and duplicates must not matter
        names = ["Nope", "Unrelate"] + [n + "x" for n in names[:3]] + names + ["nope::" + n for n in names[:3]] + names[:2]
    return names


def run_batch(scratch, gen, tag, batch, options, lists):
    d = os.path.dirname(scratch.path(tag, "x"))
    code = [emit(c) for c in batch]
    with open(os.path.join(d, "inc.h"), "w") as f:
        f.write(PRE + "".join(x for x, _ in code))
    with open(os.path.join(d, "main.h"), "w") as f:
        f.write("#define UNUSED_MACRO\n" + MAIN + "".join(x for _, x in code))
    extra = []
    for fmt in FMTS:
        n = listed(batch, fmt, lists)
        if n:
            extra += ["--%s-classes" % fmt, *n]
        if options[fmt]:
            extra += ["--%s-visibility" % fmt, options[fmt]]
    failures = []
    rc, out = core.run_generator(gen, os.path.join(d, "main.h"), os.path.join(d, "gen.h"), options["generators"], ["-I" + d, "-Wno-everything"], extra)
    if rc:
        return [(batch[0]["id"], "generator", "generator returns %d for valid input: %s" % (rc, out[-1500:]))]
    with open(os.path.join(d, "gen.cpp"), "w") as f:
        f.write('#include "main.h"\n#include "gen.h"\n')
    obj = os.path.join(d, "gen.o")
    rc, out = sh([core.CXX, "-std=c++17", "-O0", "-g0", "-w", "-ferror-limit=0", "-I" + d, "-I" + core.include_dir(scratch), *core.UTILS, "-c", os.path.join(d, "gen.cpp"), "-o", obj])
    if rc:
        ids = {int(i) for l in out.splitlines() if "error:" in l for i in re.findall(r"\bK(\d+)\b", l)} & {c["id"] for c in batch}
        errors = [l for l in out.splitlines() if "error:" in l]
        if not any("gen.h" in l for l in errors):
            raise HarnessError("unable to compile declarations: " + out[-3000:])
        r = [(i, "compile", "generated code does not compile: " + "\n".join(l for l in errors if re.search(r"\bK%d\b" % i, l))[:1500]) for i in sorted(ids)]
        r = r or [(batch[0]["id"], "compile", "generated code does not compile: " + errors[0])]
        rest = [c for c in batch if c["id"] not in ids]
        return r + (run_batch(scratch, gen, tag + "r", rest, options, lists) if ids and rest else [])
    rc, out = sh(["readelf", "-sW", obj])
    symbols = []
    for l in out.splitlines():
        m = re.match(r"\s*\d+: \S+\s+\S+ FUNC\s+(\S+)\s+(\S+)\s+(\S+) (\S+)", l)
        if m and m[1] == "GLOBAL" and m[3] != "UND":
            symbols.append((m[4], m[2]))
    rc, out = sh(["/usr/lib/llvm-18/bin/llvm-cxxfilt"], stdin="\n".join(s for s, _ in symbols).encode())
    found = {}
    for (_, vis), n in zip(symbols, out.splitlines()):
        m = re.match(r"(?:void|unsigned long|unsigned long long|.*) ReflectiveRapidJSON::(JsonReflector|BinaryReflector)::(push|pull|writeCustomType|readCustomType)<([^<>,]*)[,>]", n)
        if m:
            found[(m[1], m[2], m[3])] = vis
        else:
            failures.append((batch[0]["id"], "other", "unexpected function emitted: " + n))
    want = {}
    for c in batch:
        for fmt in FMTS:
            if fmt in options["generators"] and expected(c, fmt):
                for f in FUNCTIONS[fmt][:1 if c["body"] in NODEFAULT else 2]:
                    want[(SPACE[fmt], f, qualified(c))] = VISIBILITY[options[fmt]]
            if fmt in options["generators"] and c["inherit"] in ("indirect", "derived", "derivedlast") and c["how"][fmt] == "inherit" and c["decl"] not in ("inc", "inc-fwd", "fwd"):
                for f in FUNCTIONS[fmt]:  # the intermediate class itself
                    want[(SPACE[fmt], f, qualified(c)[:-len(name(c))] + "Base%d%s" % (c["id"], fmt))] = VISIBILITY[options[fmt]]
    ids = {qualified(c): c["id"] for c in batch}
    for k in sorted(set(want) | set(found)):
        i = ids.get(k[2])
        if i is None:
            m = re.search(r"(?:K|Base)(\d+)", k[2])
            i = int(m[1]) if m else batch[0]["id"]
        text = "%s::%s<%s>" % k
        if k not in found:
            failures.append((i, "missing", text + " is not generated"))
        elif k not in want:
            failures.append((i, "surplus", text + " must not be generated"))
        elif want[k] != found[k]:
            failures.append((i, "visibility", text + " has visibility %s but %s expected" % (found[k], want[k])))
    return failures


def describe(c):
    inc, main = emit(c)
    return "included header: %s main header: %s" % (inc, main) + " ".join(
        "--%s-classes %s" % (f, qualified(c)) for f in FMTS if c["how"][f].startswith("list"))


def explore(scratch, report, tier):
    dag = Dag()
    task, gen = core.add_generator(dag, scratch)
    cs = cases(tier)
    size = 250
    batches = [cs[i::(len(cs) + size - 1) // size] for i in range((len(cs) + size - 1) // size)]
    jobs = []
    for n, b in enumerate(batches):
        if tier == "thorough":
            combos = [(o, l) for o in range(len(OPTIONS)) for l in ("exact", "extra")]
        else:
            combos = [(o, ("exact", "extra")[(n + o) % 2]) for o in (range(len(OPTIONS)))]
        for o, l in combos:
            tag = "r%d-%d-%s" % (n, o, l)
            jobs.append((tag, b, o, l))
            dag.add(tag, lambda tag=tag, b=b, o=o, l=l: run_batch(scratch, gen, tag, b, OPTIONS[o], l), [task])
    done = dag.run()
    by_id = {c["id"]: c for c in cs}
    for tag, b, o, l in jobs:
        report.cov["traces_validated_against_impl"] += len(b)
        report.cov["oracle_comparisons"] += 4 * len(b)
        for i, sig, msg in done[tag]:
            report.violation("options%d" % o, sig, msg, describe(by_id[i]), {"kind": "relevance", "case": by_id[i], "options": OPTIONS[o], "lists": l})
    report.cov["states"] += len(cs)
    report.cov["transitions"] += sum(len(b) for _, b, _, _ in jobs)
    for o in range(len(OPTIONS)):
        report.units.append({"build": "relevance", "unit": json.dumps(OPTIONS[o]), "bound": 0, "executions": sum(len(b) for _, b, p, _ in jobs if p == o),
                             "states": len(cs), "capped": False})
    for c in cs[::max(1, len(cs) // 11)]:
        report.cov["samples"].append(describe(c).replace("\n", " ")[:500])


def replay(scratch, data, path):
    dag = Dag()
    task, gen = core.add_generator(dag, scratch)
    r = data["replay"]
    dag.add("batch", lambda: run_batch(scratch, gen, "batch", [r["case"]], r["options"], r["lists"]), [task])
    failures = dag.run()["batch"]
    for f in failures:
        print("%s: %s" % (f[1], f[2]))
    ok = any(f[1] == data["sig"] for f in failures)
    if ok:
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
    return 1 if ok else 0
