"""C23: enumerates combinations of the arguments of add_reflection_generator_invocation() (bounded number of deviations from a default invocation)
and of the configuration; configures and builds with a generator replaced by a stub which records its arguments."""
import itertools, json, os, shutil
from . import core
from .core import Dag, HarnessError, sh

STUB = r"""
#include <stdio.h>
#include <string.h>
int main(int c, char **v)
{
    char path[4096] = "";
    for (int i = 1; i + 1 < c; ++i)
        if (!strcmp(v[i], "--output-file"))
            snprintf(path, sizeof(path), "%s", v[i + 1]);
    FILE *f = fopen(path, "w");
    if (!f)
        return 1;
    fputs("// generated", f);
    fclose(f);
    strcat(path, ".log");
    if (!(f = fopen(path, "a")))
        return 1;
    fprintf(f, "%d\n", c - 1);
    for (int i = 1; i < c; ++i)
        fprintf(f, "%zu\n%s\n", strlen(v[i]), v[i]);
    return fclose(f) ? 1 : 0;
}
"""
# arguments: values (the first one is the default)
DIMENSIONS = {
    "inputs": (("rel",), ("abs",), ("sub",), ("dots",), ("rel", "sub"), ("abs", "rel", "dots"), ("rel", "rel", "rel", "rel"), ("cpp",)),
    "generators": (("json",), ("binary",), ("json", "binary"), ("binary", "json")),
    "directory": (None, "abs", "nested", "space"),
    "lists": ((), ("L1",), ("L1", "L2"), ("FILLED",), ("L1", "FILLED", "L2")),
    "options": ((), ("-DOWN=1",), ("-DOWN", "-Wown", "-DOWN2=\"a b\""), ("-Iown", "-std=c++14"), ("$<$<BOOL:1>:-DGENEX>", "$<$<BOOL:0>:-DNOT>"), ("-DA;-DB",)),
    "targets": ((), ("t1",), ("t2",), ("t1", "t2"), ("t2", "t1"), ("empty",), ("empty", "t3"), ("t3",), ("alias",), ("flags",)),
    "dependencies": ((), ("d1",), ("d2",), ("d1", "d2"), ("missing",), ("missing", "d1"), ("d1", "missing", "empty"), ("imported",), ("transitive",)),
    "json-classes": ((), ("Foo",), ("Foo", "ns::Bar"), ("Tmpl<int,Foo>",), ("Foo", "Bar", "Baz")),
    "json-visibility": (None, "JSON_EXPORT", "JSON_EXPORT __attribute__((used))"),
    "binary-visibility": (None, "BINARY_EXPORT"),
    "resilient": (False, True),
}
ARGUMENTS = {"generators": "GENERATORS", "lists": "OUTPUT_LISTS", "options": "CLANG_OPTIONS", "targets": "CLANG_OPTIONS_FROM_TARGETS",
             "dependencies": "CLANG_OPTIONS_FROM_DEPENDENCIES", "json-classes": "JSON_CLASSES"}
TARGETS = r"""
file(WRITE ${CMAKE_CURRENT_BINARY_DIR}/empty.cpp "")
foreach (T t1 t2 t3 flags empty shell multiflags)
    add_library(${T} STATIC EXCLUDE_FROM_ALL ${CMAKE_CURRENT_BINARY_DIR}/empty.cpp)
endforeach ()
set_target_properties(t1 PROPERTIES CXX_STANDARD 20)
target_compile_options(t1 PRIVATE -Wt1a "-DT1OPT=a b")
target_compile_definitions(t1 PRIVATE T1A=1 "T1B=\"x y\"" T1C)
target_include_directories(t1 PRIVATE /t1/inc1 "/t1/with space")
target_compile_options(t2 PRIVATE -Wt2)
target_include_directories(t2 PRIVATE /t2/inc "$<$<BOOL:0>:/not>")
target_compile_definitions(t3 PRIVATE "$<$<BOOL:1>:T3>")
set_target_properties(t3 PROPERTIES CXX_STANDARD 17)
set_target_properties(flags PROPERTIES COMPILE_FLAGS "-Wflags")
set_target_properties(multiflags PROPERTIES COMPILE_FLAGS "-Wfirst -Wsecond")
target_compile_options(shell PRIVATE "SHELL:-include foo.h")
add_library(alias ALIAS t2)
add_library(d1 INTERFACE)
target_compile_options(d1 INTERFACE -Wd1)
target_compile_definitions(d1 INTERFACE D1A D1B=2)
target_include_directories(d1 INTERFACE /d1/inc1 /d1/inc2)
add_library(d2 INTERFACE)
target_compile_definitions(d2 INTERFACE "D2=\"q\"")
add_library(imported INTERFACE IMPORTED)
set_target_properties(imported PROPERTIES INTERFACE_INCLUDE_DIRECTORIES "/imp/inc" INTERFACE_COMPILE_DEFINITIONS "IMP")
add_library(transitive INTERFACE)
target_compile_definitions(transitive INTERFACE TRANS)
target_include_directories(transitive INTERFACE "$<BUILD_INTERFACE:/trans/build>" "$<INSTALL_INTERFACE:trans/install>")
"""
OPTIONS = {
    "t1": ["-std=c++20", "-Wt1a", "-DT1OPT=a b", "-DT1A=1", "-DT1B=\"x y\"", "-DT1C", "-I/t1/inc1", "-I/t1/with space"], "t2": ["-Wt2", "-I/t2/inc"],
    "t3": ["-std=c++17", "-DT3"], "flags": ["-Wflags"], "alias": ["-Wt2", "-I/t2/inc"], "empty": [], "multiflags": ["-Wfirst", "-Wsecond"], "shell": ["-include", "foo.h"],
}
INTERFACES = {"d1": ["-Wd1", "-DD1A", "-DD1B=2", "-I/d1/inc1", "-I/d1/inc2"], "d2": ["-DD2=\"q\""], "missing": [], "empty": [], "imported": ["-DIMP", "-I/imp/inc"],
              "transitive": ["-DTRANS", "-I/trans/build"]}
# configurations: variables, additional options
CONFIGURATIONS = {
    "plain": ({}, []),
    "triple": ({"REFLECTION_GENERATOR_TRIPLE": "x86_64-w64-mingw32"}, [["-target", "x86_64-w64-mingw32"], ["-Xclang", "-triple", "-Xclang", "x86_64-w64-mingw32"]]),
    "includes": ({"REFLECTION_GENERATOR_INCLUDE_DIRECTORIES": "%D/cfg/inc1;%D/cfg/inc2"}, [["-I", "%D/cfg/inc1"], ["-I", "%D/cfg/inc2"]]),
}


def cases(tier):
    names = list(DIMENSIONS)
    res = []
    for n in range(0, 5 if tier == "thorough" else 4):
        for dims in itertools.combinations(names, n):
            for values in itertools.product(*(DIMENSIONS[d][1:] for d in dims)):
                c = {d: DIMENSIONS[d][0] for d in names}
                c.update(dict(zip(dims, values)))
                res.append(c)
    # flags which have to be split
    for t in ("multiflags", "shell"):
        res.append(dict({d: DIMENSIONS[d][0] for d in names}, targets=(t,)))
    for n, c in enumerate(res):
        c["id"] = n
    return res


def quote(s):
    return '"%s"' % s.replace("\\", "\\\\").replace('"', '\\"')


def inputs(c, src):
    """returns path as specified, absolute path, name of the output"""
    for n, kind in enumerate(c["inputs"]):
        name = "c%d_%d" % (c["id"], n)
        path = {"rel": name + ".h", "abs": src + "/" + name + ".h", "sub": "sub/dir/" + name + ".h", "dots": name + ".foo.h", "cpp": name + ".cpp"}[kind]
        yield path, os.path.join(src, path), name


def directory(c, build):
    return {None: build + "/reflection", "abs": "%s/out/c%d" % (build, c["id"]), "nested": "%s/out/a/b/c%d" % (build, c["id"]),
            "space": "%s/out/c %d" % (build, c["id"])}[c["directory"]]


def invocation(c, src, build):
    l = ["INPUT_FILES"] + [quote(p) for p, _, _ in inputs(c, src)]
    for d, a in ARGUMENTS.items():
        if c[d]:
            l += [a] + [quote(x) for x in c[d]]
    if c["directory"]:
        l += ["OUTPUT_DIRECTORY", quote(directory(c, build))]
    if c["json-visibility"]:
        l += ["JSON_VISIBILITY", quote(c["json-visibility"])]
    if c["binary-visibility"]:
        l += ["BINARY_VISIBILITY", quote(c["binary-visibility"])]
    if c["resilient"]:
        l += ["ERROR_RESILIENT"]
    return "add_reflection_generator_invocation(%s)" % " ".join(l)


def cmake_lists(cs, src, build):
    out = ["cmake_minimum_required(VERSION 3.17)", "project(explored LANGUAGES CXX)", TARGETS,
           "include(%s)" % quote(os.path.join(core.REPO, "lib/cmake/modules/ReflectionGenerator.cmake"))]
    for c in cs:
        i = c["id"]
        out += ["set(L1)", "set(L2)", 'set(FILLED "first" "second")', invocation(c, src, build)]
        out += ['file(WRITE "%s/lists/%d" "${L1}|${L2}|${FILLED}")' % (build, i)]
        out += ["add_custom_target(gen%d ALL DEPENDS %s)" % (i, " ".join(quote("%s/%s.h" % (directory(c, build), n)) for _, _, n in inputs(c, src)))]
    return "\n".join(out) + "\n"


def parse_log(path):
    runs = []
    if not os.path.exists(path):
        return runs
    with open(path, "rb") as f:
        while True:
            l = f.readline()
            if not l:
                return runs
            a = []
            for _ in range(int(l)):
                n = int(f.readline())
                a.append(f.read(n).decode())
                f.readline()
            runs.append(a)


FLAGS = ("--output-file", "--input-file", "--generators", "--clang-opt", "--json-classes", "--binary-classes", "--json-visibility", "--binary-visibility", "--error-resilient",
         "--log-clang-opt")


def parse_args(a):
    res, cur = {}, None
    for x in a:
        if x in FLAGS:
            cur = x
            if x in res:
                return None
            res[x] = []
        elif cur is None:
            return None
        else:
            res[cur].append(x)
    return res


def contains(haystack, needle, contiguous):
    if contiguous:
        return not needle or any(haystack[i:i + len(needle)] == needle for i in range(len(haystack) - len(needle) + 1))
    it = iter(haystack)
    return all(x in it for x in needle)


def verify(c, config, d, src, build, runs, lists):
    """returns list of (sig, message)"""
    fails = []
    for path, absolute, name in inputs(c, src):
        out = "%s/%s.h" % (directory(c, build), name)
        r = runs[out]
        if len(r) != 1:
            fails.append(("count", "%d invocations for %s" % (len(r), path)))
            continue
        a = parse_args(r[0])
        if a is None:
            fails.append(("arguments", "unexpected arguments: %s" % r[0]))
            continue
        got_in = a.get("--input-file", [])
        if len(got_in) != 1 or os.path.normpath(os.path.join(src, got_in[0])) != os.path.normpath(absolute):
            fails.append(("input", "input file %s instead of %s" % (got_in, path)))
        if a.get("--output-file") != [out]:
            fails.append(("output", "output file %s instead of %s" % (a.get("--output-file"), out)))
        if tuple(a.get("--generators", ())) != c["generators"]:
            fails.append(("generators", "generators %s instead of %s" % (a.get("--generators"), c["generators"])))
        if tuple(a.get("--json-classes", ())) != c["json-classes"]:
            fails.append(("classes", "classes %s instead of %s" % (a.get("--json-classes"), c["json-classes"])))
        if a.get("--binary-classes"):
            fails.append(("classes", "unexpected classes %s" % a["--binary-classes"]))
        for v in ("json", "binary"):
            want = [c[v + "-visibility"]] if c[v + "-visibility"] else []
            if a.get("--%s-visibility" % v, []) != want:
                fails.append(("visibility", "%s visibility %s instead of %s" % (v, a.get("--%s-visibility" % v), want)))
        if ("--error-resilient" in a) != c["resilient"]:
            fails.append(("resilience", "--error-resilient: %s" % ("--error-resilient" in a)))
        opts = [o for x in a.get("--clang-opt", []) for o in x.split(";") if o]
        own = [o for x in c["options"] for o in {"$<$<BOOL:1>:-DGENEX>": ["-DGENEX"], "$<$<BOOL:0>:-DNOT>": []}.get(x, x.split(";"))]
        groups = [own, ["-resource-dir", core.RESOURCE_DIR]] + [[x.replace("%D", d) for x in g] for g in CONFIGURATIONS[config][1]]
        groups += [OPTIONS[t] for t in c["targets"]] + [INTERFACES[t] for t in c["dependencies"]]
        want = [x for g in groups for x in g]
        if sorted(opts) != sorted(want):
            fails.append(("options", "Clang options %s instead of %s" % (opts, want)))
        else:
            for g in groups:
                if not contains(opts, g, g[:1] in (["-resource-dir"], ["-target"], ["-Xclang"], ["-I"])):
                    fails.append(("options-order", "Clang options %s do not contain %s in order" % (opts, g)))
            for k in ("targets", "dependencies"):
                t = [x for n in c[k] for x in (OPTIONS if k == "targets" else INTERFACES)[n]]
                if len(set(t)) == len(t) and len(set(want)) == len(want) and not contains(opts, t, False):
                    fails.append(("options-order", "Clang options %s do not contain %s in order" % (opts, t)))
    outs = ["%s/%s.h" % (directory(c, build), n) for _, _, n in inputs(c, src)]
    want = "|".join(";".join((["first", "second"] if l == "FILLED" else []) + (outs if l in c["lists"] else [])) for l in ("L1", "L2", "FILLED"))
    if lists != want:
        fails.append(("lists", "output lists %s instead of %s" % (lists, want)))
    return fails


def run_batch(scratch, tag, cs, config, stub):
    """returns (list of (id, sig, message), number of builds)"""
    d = os.path.dirname(scratch.path("c23", tag, "x"))
    src, build = d + "/src", d + "/build"
    for p in ("/src/sub/dir", "/cfg/inc1", "/cfg/inc2", "/build/lists"):
        os.makedirs(d + p, exist_ok=True)
    for c in cs:
        if c["directory"]:
            os.makedirs(directory(c, build), exist_ok=True)
        for _, p, _ in inputs(c, src):
            with open(p, "w") as f:
                f.write("// input\n")
            os.utime(p, (1000000000, 1000000000))
    with open(src + "/CMakeLists.txt", "w") as f:
        f.write(cmake_lists(cs, src, build))
    variables = {"REFLECTION_GENERATOR_EXECUTABLE": stub, "REFLECTION_GENERATOR_CLANG_RESOURCE_DIR": core.RESOURCE_DIR, "CMAKE_CXX_COMPILER": core.CXX}
    variables.update({k: v.replace("%D", d) for k, v in CONFIGURATIONS[config][0].items()})
    rc, o = sh(["cmake", "-G", "Ninja", "-S", src, "-B", build] + ["-D%s=%s" % v for v in variables.items()])
    if rc:
        return [(cs[0]["id"], "configure", "unable to configure: " + o[-1500:])], 0
    outs = {"%s/%s.h" % (directory(c, build), n): (c, p) for c in cs for _, p, n in inputs(c, src)}
    fails = []

    def build_and_read():
        for o in outs:
            if os.path.exists(o + ".log"):
                os.unlink(o + ".log")
        rc, text = sh(["ninja", "-C", build, "-j", "2", "-k", "0"])
        return rc, text, {o: parse_log(o + ".log") for o in outs}

    rc, text, runs = build_and_read()
    if rc:
        fails.append((cs[0]["id"], "build", "unable to build: " + text[-1500:]))
    for c in cs:
        with open("%s/lists/%d" % (build, c["id"])) as f:
            lists = f.read()
        fails += [(c["id"], s, m) for s, m in verify(c, config, d, src, build, runs, lists)]
    # nothing is executed again if nothing changed
    rc, text, runs = build_and_read()
    fails += [(outs[o][0]["id"], "rebuild", "%s is generated again without a change" % o) for o, r in runs.items() if r]
    # exactly the outputs of changed inputs are generated again
    changed = {o for n, o in enumerate(sorted(outs)) if n % 3 == 1}
    for o in changed:
        os.utime(outs[o][1])
    rc, text, runs = build_and_read()
    for o, r in runs.items():
        if (o in changed) != (len(r) == 1):
            fails.append((outs[o][0]["id"], "change", "%s is generated %d times after %schanging the input file" % (o, len(r), "" if o in changed else "not ")))
    shutil.rmtree(d, ignore_errors=True)
    return fails, 3


def describe(c):
    return invocation(c, "${SRC}", "${BUILD}")


def build_stub(scratch):
    stub = scratch.path("c23", "stub")
    with open(stub + ".c", "w") as f:
        f.write(STUB)
    rc, o = sh(["gcc", "-O1", "-w", stub + ".c", "-o", stub])
    if rc:
        raise HarnessError("unable to build the stub: " + o)
    return stub


def explore(scratch, report, tier):
    stub = build_stub(scratch)
    dag, jobs = Dag(), []
    cs = cases(tier)
    size = 150 if tier == "quick" else 400
    for config in CONFIGURATIONS:
        sel = cs if config == "plain" else [c for c in cs if sum(c[d] != DIMENSIONS[d][0] for d in DIMENSIONS) < (4 if tier == "thorough" else 3)]
        count = (len(sel) + size - 1) // size
        for n in range(count):
            tag = "%s%d" % (config, n)
            jobs.append((tag, sel[n::count], config))
            dag.add(tag, lambda tag=tag, b=sel[n::count], config=config: run_batch(scratch, tag, b, config, stub))
    done = dag.run()
    by_id = {c["id"]: c for c in cs}
    for tag, b, config in jobs:
        fails, builds = done[tag]
        report.cov["states"] += len(b)
        report.cov["transitions"] += builds * sum(len(c["inputs"]) for c in b)
        report.cov["traces_validated_against_impl"] += len(b)
        report.cov["oracle_comparisons"] += sum(9 * len(c["inputs"]) for c in b)
        report.units.append({"build": "cmake", "unit": tag, "bound": 4 if tier == "thorough" else 3, "executions": len(b), "states": len(b), "capped": False})
        for i, sig, msg in fails:
            report.violation(config, sig, msg, describe(by_id[i]), {"kind": "cmake", "case": by_id[i], "config": config})
    for c in cs[::max(1, len(cs) // 11)]:
        report.cov["samples"].append(describe(c))


def replay(scratch, data, path):
    stub = build_stub(scratch)
    r = data["replay"]
    c = {k: tuple(v) if isinstance(v, list) else v for k, v in r["case"].items()}
    fails, _ = run_batch(scratch, "replay", [c, dict(c, id=c["id"] + 1), dict(c, id=c["id"] + 2)], r["config"], stub)
    for f in fails:
        print("%s: %s" % f[1:])
    if any(f[1] == data["sig"] for f in fails):
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
        return 1
    return 0
