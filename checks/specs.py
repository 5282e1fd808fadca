"""What is built and explored for each property."""
import os
from .core import *  # noqa
from . import cmakemacro, core, genfaults, relevance, shapes, versions

CHECKS = {}


def check(prop):
    def deco(fn):
        CHECKS[prop] = fn
        return fn
    return deco


def explore(scratch, report, builds):
    report.add_units(scratch, builds, run_builds(scratch, builds))


def group_builds(src, fmt, prop, tier, modes=("gen", "hana"), groups=range(8), bound=lambda mode, g, tier: 2, shards=lambda mode, g, tier: 1,
                 opt=None, extra=()):
    defs = ["-DRRJ_" + fmt.upper(), "-DPROP=%d" % prop, *extra]
    opt = opt or ("-O0" if tier == "quick" else "-O1")
    r = []
    for mode in modes:
        for g in groups:
            d = defs + ["-DGROUP=%d" % g, "-DBOUND=%d" % bound(mode, g, tier), "-DSHARDS=%d" % shards(mode, g, tier)]
            if mode == "hana":
                r.append(Build("%s%d" % (mode, g), src, d + ["-DRRJ_HANA"], None, opt))
            else:
                r.append(Build("%s%d" % (mode, g), src, d, {"input": "types.h", "generators": [fmt]}, opt))
    return sorted(r, key=lambda b: b.name[-1], reverse=True)


def q(quick, thorough):
    def get(mode, g, tier):
        t = quick if tier == "quick" else thorough
        return next(t[k] for k in ((mode, g), g, mode, "*") if k in t)
    return get


JSON_ASSUMPTIONS = [
    "value and document alphabets are those of harness/ops.h; every combination of up to the stated number of deviations from a default "
    "object/document is enumerated",
    "RapidJSON 1.1.0 itself is trusted apart from its results being compared with the reference",
    "executions are deterministic: AddressSanitizer/UndefinedBehaviorSanitizer builds, malloc'd memory is filled with a pattern",
]


def top_builds(prop, tier, bound):
    return [Build("top%d" % part, "h_json_top.cpp",
                  ["-DRRJ_JSON", "-DRRJ_HANA", "-DGROUP=9", "-DPROP=%d" % prop, "-DPART=%d" % part, "-DBOUND=%d" % bound], None,
                  "-O0" if tier == "quick" else "-O1") for part in (0, 1)]


VALUES = dict(bound=q({"*": 2, 7: 1}, {"*": 3, 7: 2}), shards=q({"*": 1}, {"*": 2}))
DOCS = dict(bound=q({"gen": 2, "hana": 1, 7: 1}, {"*": 3, 7: 2}), shards=q({"*": 1}, {"*": 4, 7: 8}))
SMALL = dict(bound=q({"*": 1}, {"*": 2}), shards=q({"*": 1}, {"*": 2}))


@check("C01")
def c01(scratch, report, tier):
    report.assumptions = JSON_ASSUMPTIONS
    explore(scratch, report, top_builds(1, tier, 2 if tier == "quick" else 3) + group_builds("h_json.cpp", "json", 1, tier, **VALUES))


@check("C02")
def c02(scratch, report, tier):
    report.assumptions = JSON_ASSUMPTIONS
    explore(scratch, report, top_builds(2, tier, 2 if tier == "quick" else 3) + group_builds("h_json.cpp", "json", 2, tier, **VALUES))


@check("C03")
def c03(scratch, report, tier):
    report.assumptions = JSON_ASSUMPTIONS
    quick = tier == "quick"
    builds = [Build("views", "h_views.cpp", ["-DRRJ_JSON", "-DRRJ_HANA", "-DGROUP=9", "-DBOUND=%d" % (1 if quick else 2)], None,
                                    "-O0" if quick else "-O1", jobs=4)] + group_builds("h_json.cpp", "json", 3, tier, **SMALL)
    for b in builds:
        b.san = SAN_RETURN
    explore(scratch, report, builds)


@check("C04")
def c04(scratch, report, tier):
    report.assumptions = JSON_ASSUMPTIONS
    explore(scratch, report, top_builds(4, tier, 2 if tier == "quick" else 3) + group_builds("h_json.cpp", "json", 4, tier, **DOCS))


@check("C05")
def c05(scratch, report, tier):
    report.assumptions = JSON_ASSUMPTIONS
    explore(scratch, report, top_builds(5, tier, 2 if tier == "quick" else 3) + group_builds("h_json.cpp", "json", 5, tier, **DOCS))


@check("C06")
def c06(scratch, report, tier):
    report.assumptions = JSON_ASSUMPTIONS
    explore(scratch, report, group_builds("h_json.cpp", "json", 6, tier, modes=("gen",), extra=["-DALL_MASKS"] if tier != "quick" else [], **SMALL))


@check("C07")
def c07(scratch, report, tier):
    report.assumptions = ["numbers beyond the range of double and escaped surrogates without counterpart are left unspecified",
                          "the encoding of strings is not validated"]
    quick = tier == "quick"
    explore(scratch, report, [Build("parse", "h_parse.cpp", ["-DRRJ_JSON", "-DRRJ_HANA", "-DGROUP=9", "-DBYTES=%d" % (3 if quick else 4),
                                                              "-DTOKENS=%d" % (4 if quick else 5), "-DSHARDS=%d" % (4 if quick else 16),
                                                              "-DDEPTH=%d" % (1000000 if quick else 10000000)], None, "-O1", jobs=8)])


@check("C08")
def c08(scratch, report, tier):
    report.assumptions = ["documents contain each member name at most once"]
    defs = ["-DBOUND=%d" % (1 if tier == "quick" else 2), "-DSHARDS=4"]
    explore(scratch, report, [
        Build("gen", "h_order.cpp", defs, {"input": "types_order.h", "generators": ["json"]}, "-O0" if tier == "quick" else "-O1", jobs=4),
        Build("hana", "h_order.cpp", defs + ["-DRRJ_HANA"], None, "-O0" if tier == "quick" else "-O1", jobs=4)])


BIN_ASSUMPTIONS = [
    "streams have exceptions enabled (failbit and badbit) as documented",
    "value alphabets are those of harness/ops.h; every combination of up to the stated number of deviations from a default object is enumerated",
    "data leading to allocations of more than 2000 (C12) or 100000 elements is not considered",
]


@check("C09")
def c09(scratch, report, tier):
    report.assumptions = BIN_ASSUMPTIONS
    explore(scratch, report, group_builds("h_bin.cpp", "binary", 9, tier, **VALUES))


@check("C10")
def c10(scratch, report, tier):
    report.assumptions = BIN_ASSUMPTIONS
    explore(scratch, report, group_builds("h_bin.cpp", "binary", 10, tier, **VALUES))


@check("C12")
def c12(scratch, report, tier):
    report.assumptions = BIN_ASSUMPTIONS
    explore(scratch, report, group_builds("h_bin.cpp", "binary", 12, tier, extra=["-DARBITRARY=3"] if tier == "quick" else ["-DARBITRARY=5", "-DALL_BYTES"],
                                          bound=q({"gen": 1, "hana": 0, 7: 0}, {"*": 2, 7: 1}), shards=q({"*": 1}, {"*": 4, 7: 16})))


@check("C20")
def c20(scratch, report, tier):
    report.assumptions = BIN_ASSUMPTIONS
    explore(scratch, report, group_builds("h_bin.cpp", "binary", 20, tier, bound=q({"gen": 1, "hana": 0}, {"*": 2, 7: 1}), shards=q({"*": 1}, {"*": 4})))


@check("C11")
def c11(scratch, report, tier):
    report.assumptions = ["pointer IDs beyond the addresses of the platform are explored using pointers to a type without members"]
    defs = ["-DSHARDS=8", "-DIDS=3"] + (["-DFOUR"] if tier != "quick" else [])
    explore(scratch, report, [
        Build("gen", "h_graph.cpp", defs, {"input": "types_graph.h", "generators": ["binary"]}, "-O1", jobs=8),
        Build("hana", "h_graph.cpp", defs + ["-DRRJ_HANA"], None, "-O1", jobs=8)])


@check("C17")
def c17(scratch, report, tier):
    report.assumptions = ["the record name of errors is not compared", "members of base classes are listed explicitly for Boost.Hana",
                          "data leading to allocations of more than 2000 elements is not considered"]
    quick = tier == "quick"
    builds = []
    for g in (7, 6, 5, 4, 3, 2, 1, 0):
        for fmt in ("json", "binary"):
            bound = 2 if quick or g == 7 else 3
            builds.append(Build("%s%d" % (fmt, g), "h_equiv.cpp",
                                ["-DRRJ_" + fmt.upper(), "-DGROUP=%d" % g, "-DBOUND=%d" % bound, "-DSHARDS=%d" % (1 if quick else 4)],
                                {"input": "types.h", "generators": [fmt]}, "-O0" if quick else "-O1"))
    explore(scratch, report, builds)


@check("C18")
def c18(scratch, report, tier):
    report.assumptions = ["whether a text denotes a date/duration at all is decided by the C++ utilities library used for the conversion",
                          "durations are not negative and below 100000 hours (see known findings) and restored from JSON to within one tick"]
    quick = tier == "quick"
    defs = ["-DRRJ_JSON", "-DGROUP=9", "-DBOUND=%d" % (2 if quick else 3), "-DTOKENS=%d" % (4 if quick else 5)] + ([] if quick else ["-DFULL"])
    explore(scratch, report, [
        Build("gen", "h_chrono.cpp", defs, {"input": "types_chrono.h", "generators": ["json", "binary"]}, "-O1", jobs=6),
        Build("hana", "h_chrono.cpp", defs + ["-DRRJ_HANA"], None, "-O1", jobs=2)])


@check("C21")
def c21(scratch, report, tier):
    report.assumptions = ["names of records and members do not contain quotes"]
    quick = tier == "quick"
    explore(scratch, report, [Build("format", "h_format.cpp", ["-DRRJ_JSON", "-DGROUP=7", "-DBOUND=%d" % (1 if quick else 2)],
                                    {"input": "types.h", "generators": ["json"]}, "-O1", jobs=4)])


@check("C22")
def c22(scratch, report, tier):
    report.assumptions = ["custom containers provide the interface of the standard containers", "data leading to allocations of more than 2000 elements is not considered"]
    quick = tier == "quick"
    builds = []
    for part in (0, 2, 1):
        for fmt in ("json", "binary"):
            for mode in ("gen", "hana"):
                docs = 1 if quick else 2
                defs = ["-DRRJ_" + fmt.upper(), "-DPART=%d" % part, "-DBOUND=%d" % (2 if quick else 3), "-DDOC_BOUND=%d" % docs, "-DSHARDS=%d" % (1 if quick else 2)]
                if mode == "hana":
                    builds.append(Build("%s-%s%d" % (fmt, mode, part), "h_custom.cpp", defs + ["-DRRJ_HANA"], None, "-O0"))
                else:
                    builds.append(Build("%s-%s%d" % (fmt, mode, part), "h_custom.cpp", defs, {"input": "types_custom.h", "generators": [fmt]}, "-O0"))
    explore(scratch, report, builds)


@check("C13")
def c13(scratch, report, tier):
    report.assumptions = ["members are of type uint32_t or of classes with such members", "a marker amends the range of versions started by previous markers unless it "
                          "contradicts them", "versions above the supported one are not requested when writing"]
    versions.explore(scratch, report, versions.shapes(tier))


@check("C16")
def c16(scratch, report, tier):
    report.assumptions = ["errors clang categorizes as semantic issue are the ones turned into warnings by --error-resilient",
                          "the generator accesses the output via open/fopen, write/writev and close/fclose (otherwise only limits and devices inject faults)"]
    genfaults.explore(scratch, report, tier)


@check("C19")
def c19(scratch, report, tier):
    def b(name, defs, jobs):
        return Build(name, "h_threads.cpp", defs, gen={"input": "types_threads.h", "generators": ["json", "binary"]}, opt="-O1",
                     san=["-Xclang", "-fsanitize=thread"], extra=["-ldl"], objects=[["controlled.cpp", ["-fno-threadsafe-statics"]]], jobs=jobs)
    builds = [b("threads", ["-DPREEMPTIONS=2", "-DPAIRLIMIT=%d" % (2000000 if tier == "thorough" else 40000)], 5), b("nested", ["-DNESTED"], 2)]
    if tier == "thorough":
        builds.append(b("triples", ["-DTRIPLES", "-DPREEMPTIONS=2", "-DPAIRLIMIT=400000"], 5))
    report.assumptions = ["accesses of code not instantiated/inlined from headers (libstdc++, c++utilities) are not scheduling points",
                          "sequential consistency (data races are reported on their own)", "combinations with more accesses than the limit are explored with one preemption"]
    report.add_units(scratch, builds, run_builds(scratch, builds))


@check("C23")
def c23(scratch, report, tier):
    report.assumptions = ["generator Ninja; the executable of the generator is a stub recording its arguments (the real one is subject of C16)",
                          "GENERATORS is always specified"]
    cmakemacro.explore(scratch, report, tier)


@check("C14")
def c14(scratch, report, tier):
    report.assumptions = ["members are of type int (the mapping of the particular types is covered by C01/C02/C10)",
                          "ambiguous (repeated non-virtual) bases, private inheritance, bit-fields, anonymous members, private nested classes and local "
                          "classes are not considered"]
    shapes.explore(scratch, report, shapes.shapes(tier))


@check("C15")
def c15(scratch, report, tier):
    report.assumptions = ["the emitted functions are determined from the symbols of the compiled code", "class templates and their specialisations, classes local to "
                          "functions and classes in anonymous namespaces are not supported by the generator and only considered as unrelated classes",
                          "names of inline namespaces are omitted from class lists"]
    relevance.explore(scratch, report, tier)


def replay(scratch, data, path):
    kind = data["replay"]["kind"]
    return {"cmake": cmakemacro, "generator": genfaults, "shape": shapes, "relevance": relevance, "version": versions}[kind].replay(scratch, data, path)


# technique and level note for MANIFEST.json
_T = "explicit-state exploration of the real code: every choice sequence up to a deviation bound is executed under ASan/UBSan and "
INFO = {
    "C01": (_T + "compared with the original value",
            "all values within k deviations from defaults for 70+ wrapper classes (generated code and Boost.Hana); 2 deviations quick, 3 thorough"),
    "C02": (_T + "the output is compared with a reference mapping via an independent JSON parser", "same value space as C01"),
    "C03": (_T + "the document is read after modifying/destroying the source", "same value space as C01 with one deviation less, 4 usage orders"),
    "C04": (_T + "the resulting object is compared with a reference deserialiser",
            "all documents within k deviations (type mismatch, missing, additional, duplicate, out of range, wrong size, null, ...) from valid ones"),
    "C05": (_T + "the list of errors is compared with a reference deserialiser", "same document space as C04"),
    "C06": (_T + "thrown error and collected errors are compared with a reference deserialiser for the enumerated throwOn masks",
            "documents within k deviations times throwOn masks (quick: none/single/complements/all; thorough: all 64)"),
    "C07": ("exhaustive enumeration of all texts up to a length over a byte alphabet and a token alphabet, all prefixes/replacements/insertions of "
            "sample texts and of nesting depths, run against the real code and compared with an independent recursive-descent parser",
            "26 bytes^3, 14 tokens^4 and 13 string fragments^4 (quick) / one more each (thorough); nesting up to 1e6 (quick) / 1e7 (thorough)"),
    "C08": ("exhaustive enumeration of every subset and permutation of a class's members combined with every placement of additional members, executed "
            "by the real code (generated and Boost.Hana) and compared with a reference deserialiser",
            "flat classes with 3 to 5 members (also spread over three base classes) and objects nested in list/map/pointer/optional/variant"),
    "C09": (_T + "sequences of objects are read back into objects with previous contents", "all values within k deviations for 70+ wrapper classes "
            "(generated code and Boost.Hana) written three times per stream using separate and shared (de)serialisers"),
    "C10": (_T + "the bytes are compared with a reference encoder (and vice versa)", "same value space as C09 including all boundaries of length prefixes"),
    "C12": ("exhaustive enumeration of all truncations, single byte mutations, erasures and duplications of valid encodings and of all short byte "
            "strings; outcome compared with a reference decoder under ASan/UBSan with leak check", "valid encodings of all values within k deviations; "
            "20 values per byte quick, all 256 thorough; byte strings up to 3 (quick) / 5 (thorough)"),
    "C20": ("exhaustive enumeration of stream portionings and of a fault (end or exception) at every byte of every read and write, under ASan with leak check",
            "values within k deviations; portions of fixed size and every split into two portions"),
    "C11": ("exhaustive enumeration of all graphs of shared pointers up to a number of nodes executed by the real code; graph isomorphism, reference "
            "counts and independence of separately read objects are checked", "all graphs of up to 3 (quick) / 4 (thorough) nodes with two pointers each plus three "
            "roots (incl. cycles); pointers in all containers; all triples of boundary addresses"),
}
INFO["C17"] = (_T + "the outcome of generated code and of Boost.Hana is compared for the same choice sequence (differential)",
               "all values, documents (incl. 7 throwOn masks) and truncated/mutated data within k deviations for 70+ wrapper classes and derived classes")
INFO["C18"] = ("exhaustive enumeration of dates, durations, time zones and of all strings over a token alphabet run against the real code and compared with an "
               "independent calendar/parser; documents with k deviations for members and containers of both types",
               "34 years x 12 months x 8 days x 9 times x 22 fractions (thorough: 1200 complete years); token strings of length 4 (quick) / 5 (thorough)")
INFO["C21"] = ("exhaustive enumeration of the product of kinds, types, records, members and indexes and of all errors of documents within k deviations; each "
               "text is parsed back to what has to be shown and compared with all other texts",
               "8 kinds x 8 x 8 types (incl. invalid ones) x 10 records x 8 members x 9 indexes; documents with 1 (quick) / 2 (thorough) deviations")
INFO["C22"] = (_T + "the outcome for custom containers/adapted classes is compared with the one for standard containers/inheriting classes for the same choice sequence",
               "all values, documents (incl. 7 throwOn masks) and truncated/mutated data within k deviations for 27 member types and 9 top-level types; generated code and Boost.Hana")
INFO["C14"] = ("exhaustive enumeration of class declarations (member kinds x access x friend declarations x inheritance graphs x place of definition); each one is run "
               "through the real code generator, compiled, executed and compared with a reference model of which members have to be considered",
               "3100 (quick) / 8500 (thorough) declarations with up to 4 classes and 4 members")
INFO["C15"] = ("exhaustive enumeration of declarations (relation to the library per format x way of inheriting x declaration/definition order x location x kind of class) and "
               "generator options; each one is run through the real code generator, compiled and the symbols defined are compared with the expected functions",
               "3000 declarations (all pairs of deviations) x 6 option sets quick; all triples x 12 option sets thorough")
INFO["C13"] = ("exhaustive enumeration of placements of version markers x versions of types x nesting/inheritance; the code generated by the real generator is compiled and "
               "executed for every version which can be requested/present and compared with a reference model of data and effect",
               "3200 (quick) / 11000 (thorough) classes: all marker combinations of 3 (thorough: 4) members, 19 forms of specifying a version, 9 ways of nesting, bases")
INFO["C16"] = ("exhaustive enumeration of sequences of (erroneous) declarations, generator lists, inputs, outputs, fault plans for all operations on the output, "
               "size limits at every byte and address orders/environments against the real generator executable; exit status and output compared with the expected ones",
               "5000 (quick) executions: sequences of up to 3 of 19 fragments, generator lists up to length 3, write plans of up to 4 operations, all size limits of small outputs")
INFO["C19"] = ("stateless exploration of the real code in real threads under a controlled scheduler (scheduling points: all memory accesses, atomics and locks), vector clock "
               "race detection, comparison with the sequential result; exhaustive enumeration of (de)serialisations nested into custom (de)serialisation code",
               "all ordered pairs of 23 operations plus operations on the same object, one preemption at any access (two if there are at most 40000 pairs of accesses); "
               "50000 nestings up to two levels")
INFO["C23"] = ("exhaustive enumeration of the macro's arguments up to a bounded number of deviations from the default invocation; real CMake and Ninja with a stub "
               "recording the arguments of the generator; initial build, unchanged build, build after changing inputs",
               "all invocations with up to 3 (thorough: 4) non-default arguments out of 11 with 2 to 10 values, 3 configurations")
NOT_APPLICABLE = {}
