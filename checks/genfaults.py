"""C16: runs the real code generator for all sequences of (erroneous) declarations, lists of generators, kinds of inputs and outputs, faults of the
output at every operation and byte and all orders of addresses/environments; checks exit status and output."""
import concurrent.futures as cf, hashlib, itertools, json, os, shutil, subprocess, threading
from . import core
from .core import Dag, HarnessError, sh

BASE = """#pragma once
namespace ReflectiveRapidJSON {
template <typename T> struct JsonSerializable {};
template <typename T> struct BinarySerializable {};
template <typename T> struct AdaptedJsonSerializable {};
template <typename T> struct AdaptedBinarySerializable {};
}
#define RRJ_BOTH(T) public ReflectiveRapidJSON::JsonSerializable<T>, public ReflectiveRapidJSON::BinarySerializable<T>
"""
FIRST = "struct First : RRJ_BOTH(First) { int a; int b; };\n"
LAST = "namespace last { struct Last : RRJ_BOTH(Last) { int c; }; }\n"
# fragments: name -> (kind, text); kinds: ok, semantic, other, end (other error, hides the remaining input)
FRAGMENTS = {
    "ok": ("ok", "struct Ok%N { int a; };"),
    "warning": ("ok", "inline void warn%N() { 1 == %N; }\n#warning something"),
    "undeclared": ("semantic", "int undeclared%N = missing%N;"),
    "unknown-type": ("semantic", "struct UnknownType%N { Missing%N m; };"),
    "redefinition": ("semantic", "int redefined%N; long redefined%N;"),
    "static-assert": ("semantic", "static_assert(%N < 0, \"failed\");"),
    "body": ("semantic", "inline void body%N() { return 1; }"),
    "include-semantic": ("semantic", "#include \"semantic%N.h\""),
    "template": ("semantic", "template <typename T> struct Tmpl%N { typename T::foo f; }; Tmpl%N<int> inst%N;"),
    "expression": ("other", "int expression%N = ;"),
    "semicolon": ("other", "struct Semicolon%N { int a }"),
    "brace": ("other", "}"),
    "error": ("other", "#error %N"),
    "missing-include": ("other", "#include \"missing%N.h\""),
    "include-syntax": ("other", "#include \"syntax%N.h\""),
    "character": ("other", "int character%N = 1 @ 2;"),
    "open-if": ("end", "#if 1\nint openif%N;"),
    "open-comment": ("end", "/* "),
    "open-class": ("end", "struct OpenClass%N {"),
}
QUICK3 = ("ok", "undeclared", "template", "include-semantic", "expression", "missing-include", "warning", "error")
LARGE = 24


def large(count=LARGE, members=24):
    out = ""
    for i in range(count):
        out += "struct Large%d : RRJ_BOTH(Large%d) {\n%s};\n" % (i, i, "".join("int member%d_%d;\n" % (i, k) for k in range(members)))
    return out


def bases():
    out = ""
    for b in "ABCD":
        out += "struct %s : RRJ_BOTH(%s) { int %s; };\n" % (b, b, b.lower())
    for n in range(1, 5):
        for k, p in enumerate(itertools.permutations("ABCD", n)):
            name = "P%d_%d" % (n, k)
            out += "namespace n%d { struct %s : %s, RRJ_BOTH(%s) { int m; struct Nested : RRJ_BOTH(Nested) { int x; }; }; }\n" % (
                k % 3, name, ", ".join("public " + x for x in p), name)
            out += "struct Q%s : public n%d::%s, RRJ_BOTH(Q%s) { int q; };\n" % (name, k % 3, name, name)
    return out


def adapted():
    out = "namespace ext {\n" + "".join("struct E%d { int e; };\n" % i for i in range(40)) + "}\n"
    for i in range(0, 40, 3):
        for f in ("Json", "Binary"):
            out += "namespace ReflectiveRapidJSON { template <> struct Adapted%sSerializable<ext::E%d> {}; }\n" % (f, 39 - i)
    for i in range(40):
        out += "struct Inh%d : public ext::E%d, public ReflectiveRapidJSON::JsonSerializable<Inh%d> { int i; };\n" % (i, i, i)
    return out


def main_file(text):
    return '#include "base.h"\n' + text


def files(text, extra=None):
    f = {"base.h": BASE, "main.h": main_file(text)}
    f.update(extra or {})
    return f


def args(generators=("json", "binary"), inp="%D/main.h", out="%D/out/gen.h", extra=(), clang=()):
    a = []
    if inp is not None:
        a += ["--input-file", inp]
    if out is not None:
        a += ["--output-file", out]
    if generators is not None:
        a += ["--generators", *generators]
    return a + list(extra) + ["--clang-opt", "-resource-dir", core.RESOURCE_DIR, "-std=c++17", *clang]


def case(unit, desc, files_, args_, expect, ref=None, stdout="file", env=None, pre=None, alloc=False, empty_stdout=True):
    return {"unit": unit, "desc": desc, "files": files_, "args": list(args_), "expect": expect, "ref": ref, "stdout": stdout, "env": env or {},
            "pre": pre, "alloc": alloc}


def simple(text, generators=("json", "binary")):
    return {"files": files(text), "args": args(generators)}


# ---- the explored space --------------------------------------------------------------------------------------------
def error_cases(tier):
    names = list(FRAGMENTS)
    seqs = [()] + [(a,) for a in names] + list(itertools.product(names, repeat=2))
    seqs += list(itertools.product(names if tier == "thorough" else QUICK3, repeat=3))
    if tier == "thorough":
        seqs += list(itertools.product(QUICK3, repeat=4))
    for s in seqs:
        text, kinds, extra = FIRST, [], {}
        for n, name in enumerate(s):
            k, t = FRAGMENTS[name]
            kinds.append(k)
            text += t.replace("%N", str(n)) + "\n"
            extra["semantic%d.h" % n] = "inline int insem%d() { return nope%d; }\n" % (n, n)
            extra["syntax%d.h" % n] = "inline int insyn%d() { return ; ; ) }\n" % n
            if k == "end":
                break
        if len(kinds) < len(s):
            continue
        text += LAST
        for resilient in (False, True):
            for g in (("json",), ("binary",)) if len(s) < 2 else (("json",) if len(text) % 2 else ("binary",),):
                bad = any(k in ("other", "end") or (k == "semantic" and not resilient) for k in kinds)
                yield case("errors", "%s%s" % (list(s), " resilient" if resilient else ""), files(text, extra),
                           args(g, extra=["--error-resilient"] if resilient else []), "fail" if bad else "ok", None if bad else simple(FIRST + LAST, g))
    # many errors (limit of clang)
    for n in (18, 19, 20, 21, 40):
        for resilient in (False, True):
            text = FIRST + "".join("int undeclared%d = missing%d;\n" % (i, i) for i in range(n)) + LAST
            yield case("errors", "%d semantic errors%s" % (n, " resilient" if resilient else ""), files(text),
                       args(("json",), extra=["--error-resilient"] if resilient else []), "ok" if resilient else "fail", simple(FIRST + LAST, ("json",)) if resilient else None)
    # errors within the relevant class itself
    for resilient in (False, True):
        for t in ("int x = nope;", "int x; int f() { return nope; }", "static_assert(sizeof(int) == 1, \"\");", "int x() { Nope n; }"):
            text = "struct Cls : RRJ_BOTH(Cls) { int y; %s };\n" % t
            yield case("errors", "%s%s" % (text.strip(), " resilient" if resilient else ""), files(text), args(extra=["--error-resilient"] if resilient else []),
                       "any" if resilient else "fail")
        text = "struct Cls : RRJ_BOTH(Cls) { int y; int z };\n"
        yield case("errors", text.strip(), files(text), args(extra=["--error-resilient"] if resilient else []), "fail")


def option_cases(tier):
    names = ("json", "binary", "foo", "JSON", "json binary", "jso")
    for n in (1, 2, 3):
        for g in itertools.product(names, repeat=n):
            good = all(x in ("json", "binary") for x in g)
            ref = simple(FIRST + LAST, g) if good and len(set(g)) == len(g) else None
            yield case("generators", str(g), files(FIRST + LAST), args(g), "ok" if good else "fail", ref)
            if n == 1 or (n == 2 and tier == "thorough"):
                yield case("generators", str(g) + " stdout", files(FIRST + LAST), args(g, out=None), "ok" if good else "fail", ref)
    yield case("generators", "default", files(FIRST + LAST), args(None), "ok", simple(FIRST + LAST, ("json",)))
    f = files(FIRST)
    d = ["--clang-opt", "-resource-dir", core.RESOURCE_DIR]
    for desc, a in (
            ("no input", args(inp=None)),
            ("input without value", ["--output-file", "%D/out/gen.h", "--input-file"]),
            ("output without value", ["--input-file", "%D/main.h", "--output-file"]),
            ("two inputs", ["--input-file", "%D/main.h", "%D/main.h", "--output-file", "%D/out/gen.h"]),
            ("two outputs", ["--input-file", "%D/main.h", "--output-file", "%D/out/gen.h", "%D/out/gen2.h"]),
            ("unknown argument", ["--nope"] + args()),
            ("unknown argument last", ["--input-file", "%D/main.h", "--output-file", "%D/out/gen.h", "--nope"]),
            ("clang option without value", args(clang=["-I"])),
            ("missing forced include", args(clang=["-include", "missing.h"])),
            ("error via definition", args(clang=["-DFirst=1"]))):
        for resilient in (False, True):
            yield case("options", desc + (" resilient" if resilient else ""), f, (["--error-resilient"] if resilient else []) + a, "fail")
    for c in (["-nope"], ["-Wall", "--no-such-option"], ["-std=c++nope"]):
        yield case("clang-options", "invalid option %s" % c[-1], f, args(clang=c), "fail")
    ref = simple(FIRST)
    for desc, a in (
            ("options separated by semicolon", args(clang=["-Wall;-Wextra;;-DFOO=1"])),
            ("needed definition", args(clang=["-DUNUSED"])),
            ("log options", args(extra=["--log-clang-opt"])),
            ("error resilient", args(extra=["--error-resilient"])),
            ("order", ["--generators", "json", "binary", "--output-file", "%D/out/gen.h", "--input-file", "%D/main.h"]),
            ("explicit operation", ["generate"] + args())):
        yield case("options", desc, f, a, "ok", ref)
    needs = files("#ifndef FOO\n#error FOO\n#endif\n" + FIRST)
    yield case("options", "definition missing", needs, args(), "fail")
    for c in (["-DFOO"], ["-Wall;-DFOO"], ["-DFOO;-Wall"], ["-Wall", "-DFOO=1"]):
        yield case("options", "definition %s" % c, needs, args(clang=c), "ok", ref)


def input_cases(tier):
    for resilient in (False, True):
        for out in ("%D/out/gen.h", None):
            for g in (("json",), ("binary",), ("json", "binary")):
                e = ["--error-resilient"] if resilient else []
                for desc, inp in (("missing", "%D/nope.h"), ("directory", "%D/sub"), ("dangling link", "%D/dangling.h"), ("link loop", "%D/loop.h"),
                                  ("below a file", "%D/main.h/x.h"), ("missing directory", "%D/nope/main.h"), ("empty path", ""), ("too long", "%D/" + "x" * 300)):
                    yield case("input", desc + (" resilient" if resilient else ""), files(FIRST), args(g, inp=inp, out=out, extra=e), "fail")
                for desc, inp in (("link", "%D/link.h"), ("dot", "%D/./sub/../main.h"), ("relative", "main.h")):
                    yield case("input", desc, files(FIRST), args(g, inp=inp, out=out, extra=e), "ok", simple(FIRST, g))
                for desc, text in (("empty", ""), ("newline", "\n"), ("comment", "// foo"), ("nothing relevant", "struct Foo { int a; };\n")):
                    yield case("input", desc, {"main.h": text}, args(g, out=out, extra=e), "ok", {"files": {"main.h": "int a;\n"}, "args": args(g)})
                for desc, text in (("garbage", "\x01\x02\x7f"), ("text", "hello world"), ("brace", "}"), ("quote", "\"")):
                    yield case("input", desc, {"main.h": text}, args(g, out=out, extra=e), "fail" if desc != "text" or not resilient else "any")


def output_cases(tier):
    for size, text in (("empty", "struct Foo { int a; };\n"), ("small", FIRST), ("large", FIRST + large() + LAST)):
        for g in (("json",), ("binary",), ("json", "binary")):
            f, ref = files(text), simple(text, g)
            some = "fail" if size != "empty" else "any"
            for desc, out in (("missing directory", "%D/nope/gen.h"), ("directory", "%D/sub"), ("dangling link", "%D/nope-link"), ("link loop", "%D/loop.h"),
                              ("below a file", "%D/main.h/x"), ("empty path", ""), ("too long", "%D/out/" + "x" * 300)):
                yield case("output", "%s: %s" % (size, desc), f, args(g, out=out), "fail")
            yield case("output", size + ": /dev/full", f, args(g, out="/dev/full"), some)
            yield case("output", size + ": /dev/null", f, args(g, out="/dev/null"), "ok")
            for pre in ("", "x", "x" * 100000):
                yield case("output", "%s: existing file of %d bytes" % (size, len(pre)), f, args(g), "ok", ref, pre=pre)
            yield case("output", size + ": file link", f, args(g, out="%D/out/link.h"), "ok", ref)
            for s, e in (("file", "ok"), ("pipe", "ok"), ("slow-pipe", "ok"), ("full", some), ("closed", "fail" if size != "empty" else "any"), ("reader-gone", some),
                         ("reader-gone-ignored", some), ("nonblocking-full", some)):
                yield case("output", "%s: stdout: %s" % (size, s), f, args(g, out=None), e, ref if e == "ok" else None, stdout=s)
            # errors when opening/closing
            for no in (2, 4, 5, 12, 13, 23, 24, 27, 28, 30, 122):
                yield case("output", "%s: open fails with %d" % (size, no), f, args(g), "trace", ref, env={"RRJ_OPEN": str(no), "RRJ_OUTDIR": "%D/out/"})
            yield case("output", "%s: close fails" % size, f, args(g), "trace", ref, env={"RRJ_CLOSE": "1", "RRJ_OUTDIR": "%D/out/"})
    # faults at every operation writing the output
    depth = 5 if tier == "thorough" else 3
    for size, text in (("small", FIRST), ("large", FIRST + large() + LAST)):
        for g in (("json",), ("binary",), ("json", "binary")):
            f, ref = files(text), simple(text, g)
            plans = []
            for n in range(depth + 1):
                for p in itertools.product("oi1h", repeat=n):
                    plans += ["".join(p) + "e", "".join(p) + "s"]
                    if n == depth:
                        plans.append("".join(p))
            # ... and at later operations
            plans += ["o" * n + x + y for n in range(depth + 1, 16) for x in "i1ho" for y in "eso"]
            for p in plans:
                yield case("write", "%s %s: %s" % (size, "+".join(g), p), f, args(g), "trace", ref, env={"RRJ_PLAN": p, "RRJ_OUTDIR": "%D/out/"})


def limit_cases(tier, lengths):
    """A limit for the size of the file at every byte; lengths: the length of the complete output by (size, generators)"""
    for (size, g), n in lengths.items():
        text = FIRST if size == "small" else FIRST + large() + LAST
        if size == "small" or tier == "thorough":
            step = 1 if size == "small" else 37
            ks = set(range(0, n + 3, step))
        else:
            ks = set(range(0, n + 3, 997))
        for border in (0, n, *range(1024, n, 1024)):
            ks |= {border + d for d in (-1, 0, 1) if 0 <= border + d <= n + 2}
        for k in sorted(ks):
            for out in ("%D/out/gen.h", None):
                yield case("limit", "%s %s: %d of %d bytes to %s" % (size, "+".join(g), k, n, "file" if out else "stdout"), files(text), args(g, out=out),
                           "ok" if k >= n else "fail", simple(text, g) if k >= n else None, env={"RRJ_FSIZE": str(k)})


def determinism_cases(tier):
    inputs = {"bases": bases(), "large": large(), "adapted": adapted(), "small": FIRST + LAST}
    lists = ["--json-classes"] + ["ext::E%d" % i for i in range(39, -1, -1)] + ["--binary-classes"] + ["ext::E%d" % (i * 7 % 40) for i in range(40)]
    for name, text in inputs.items():
        for g in (("json",), ("binary",), ("json", "binary"), ("binary", "json")):
            for extra in ([], ["--json-visibility", "V", "--binary-visibility", "W"]) + ((lists,) if name == "adapted" else ()):
                f = files(text)
                ref = {"files": f, "args": args(g, extra=extra)}
                a = args(g, extra=extra)
                for n in range(4 if tier == "quick" else 16):
                    yield case("determinism", "%s %s run %d" % (name, g, n), f, a, "ok", ref)
                for m in "udah":
                    yield case("determinism", "%s %s allocations %s" % (name, g, m), f, a, "ok", ref, env={"RRJ_ALLOC": m}, alloc=True)
                for t in ("1", "86400", "40000000", "-1000000000"):
                    yield case("determinism", "%s %s clock %s" % (name, g, t), f, a, "ok", ref, env={"RRJ_TIME": t})
                for e in ({"PADDING": "x" * 5000}, {"LC_ALL": "de_DE.UTF-8"}, {"LANG": "C", "LC_ALL": "POSIX"}, {"TZ": "Asia/Tokyo"}, {"HOME": "/nonexistent", "USER": "x"},
                          {"TERM": "dumb", "COLUMNS": "10"}):
                    yield case("determinism", "%s %s environment %s" % (name, g, sorted(e)), f, a, "ok", ref, env=e)
                yield case("determinism", "%s %s stdout" % (name, g), f, args(g, out=None, extra=extra), "ok", ref)
                yield case("determinism", "%s %s other name" % (name, g), f, args(g, out="%D/out/another-name.hpp", extra=extra), "ok", ref)
                yield case("determinism", "%s %s log" % (name, g), f, args(g, extra=extra + ["--log-clang-opt"]), "ok", ref)


# ---- execution -----------------------------------------------------------------------------------------------------
class Runner:
    def __init__(self, scratch, gen):
        self.gen, self.scratch = gen, scratch
        self.faults, self.alloc = scratch.path("c16", "faults.so"), scratch.path("c16", "alloc.so")
        for src, out, flags in (("faults.c", self.faults, []), ("alloc.c", self.alloc, ["-fno-builtin"])):
            rc, o = sh(["gcc", "-O1", "-w", "-shared", "-fPIC", *flags, "-o", out, os.path.join(core.HARNESS, src), "-ldl"])
            if rc:
                raise HarnessError("unable to build %s: %s" % (src, o))
        self.lock, self.refs, self.count = threading.Lock(), {}, 0

    def run(self, c):
        with self.lock:
            self.count += 1
            n = self.count
        d = self.scratch.path("c16", "run%d" % n, "x")[:-2]
        os.makedirs(d + "/out")
        os.makedirs(d + "/sub")
        try:
            return self.run_in(c, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def run_in(self, c, d):
        for n, t in c["files"].items():
            with open(os.path.join(d, n), "w", encoding="latin-1") as f:
                f.write(t)
        os.symlink("nope.h", d + "/dangling.h")
        os.symlink("loop.h", d + "/loop.h")
        os.symlink("main.h", d + "/link.h")
        os.symlink(d + "/nope/x", d + "/nope-link")
        os.symlink("gen.h", d + "/out/link.h")
        if c.get("pre") is not None:
            with open(d + "/out/gen.h", "w") as f:
                f.write(c["pre"])
        a = [x.replace("%D", d) for x in c["args"]]
        env = core.env()
        env.update({k: v.replace("%D", d) for k, v in c.get("env", {}).items()})
        env["LD_PRELOAD"] = self.faults + ((":" + self.alloc) if c.get("alloc") else "")
        env["RRJ_TRACE"] = d + "/trace"
        mode = c.get("stdout", "file")
        cmd, ignore, reader = [self.gen] + a, False, None
        close = []
        data = [b""]
        if mode == "file":
            out = open(d + "/stdout", "wb")
            close.append(out)
        elif mode == "full":
            out = open("/dev/full", "wb")
            close.append(out)
        elif mode == "closed":
            cmd = ["sh", "-c", 'exec "$0" "$@" >&-'] + cmd
            out = subprocess.DEVNULL
        else:
            r, w = os.pipe()
            out = w
            if mode == "nonblocking-full":
                os.set_blocking(w, False)
                try:
                    while True:
                        os.write(w, b"x" * 4096)
                except BlockingIOError:
                    pass
                reader = r
            elif mode.startswith("reader-gone"):
                os.close(r)
                if mode == "reader-gone-ignored":
                    env["RRJ_NOSIGPIPE"] = "1"
            else:
                reader = r
        p = subprocess.Popen(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=out, stderr=subprocess.PIPE)
        if isinstance(out, int) and out > 2:
            os.close(out)
        t = None
        if mode in ("pipe", "slow-pipe"):
            def drain():
                while True:
                    b = os.read(reader, 100 if mode == "slow-pipe" else 65536)
                    if not b:
                        break
                    data[0] += b
            t = threading.Thread(target=drain)
            t.start()
        try:
            err = p.communicate(timeout=120)[1]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            raise HarnessError("the generator does not terminate: %s" % c["desc"])
        if t:
            t.join()
        if reader is not None:
            os.close(reader)
        for f in close:
            f.close()
        if mode == "file":
            with open(d + "/stdout", "rb") as f:
                data[0] = f.read()
        trace = ""
        if os.path.exists(d + "/trace"):
            with open(d + "/trace") as f:
                trace = f.read()
        content = data[0]
        if "--output-file" in a:
            path = a[a.index("--output-file") + 1] if a.index("--output-file") + 1 < len(a) else ""
            content = None
            if os.path.isfile(path) and not path.startswith("/dev/"):
                with open(path, "rb") as f:
                    content = f.read()
        return {"status": p.returncode, "content": content, "stdout": data[0] if "--output-file" in a else b"", "trace": trace,
                "stderr": err.decode(errors="replace")}

    def ref(self, r):
        key = hashlib.sha1(json.dumps(r, sort_keys=True).encode()).hexdigest()
        with self.lock:
            e = self.refs.setdefault(key, [threading.Lock(), None])
        with e[0]:
            if e[1] is None:
                x = self.run(dict(r, desc="reference"))
                if x["status"] != 0:
                    return None, "exit status %d for valid input: %s" % (x["status"], x["stderr"][-500:])
                e[1] = x["content"]
        return e[1], None

    def check(self, c):
        """returns (signature, message) or None"""
        x = self.run(c)
        expect, s = c["expect"], x["status"]
        ops = [x["trace"][i:i + 2] for i in range(0, len(x["trace"]), 2)]
        info = "operations: %s, messages: %s" % (" ".join(ops), x["stderr"][-300:])
        if s < 0 and not (s == -13 and c["stdout"] == "reader-gone"):
            return "crash", "generator was terminated by signal %d; %s" % (-s, info)
        if expect == "trace":
            expect = "fail" if any(o in ("we", "ws", "oe", "ce") for o in ops) else "ok"
        if expect == "fail" and s == 0:
            return "status-zero", "exit status 0 despite the failure; " + info
        if expect == "ok":
            if s != 0:
                return "status-nonzero", "exit status %d without failure; %s" % (s, info)
            if c["ref"] is not None:
                want, msg = self.ref(c["ref"])
                if want is None:
                    return "status-nonzero", msg
                if want != x["content"]:
                    return ("nondeterministic" if c["unit"] == "determinism" else "content",
                            "exit status 0 but output differs from the expected one (%s instead of %d bytes)" % (
                                "missing" if x["content"] is None else len(x["content"]), len(want)) + first_difference(want, x["content"] or b"") + info)
            if x["stdout"]:
                return "stdout", "output written to stdout: %s" % x["stdout"][:200]
        return None


def first_difference(a, b):
    for n, (x, y) in enumerate(itertools.zip_longest(a.splitlines(), b.splitlines())):
        if x != y:
            return " at line %d: %r instead of %r; " % (n + 1, y, x)
    return "; "


def explore(scratch, report, tier):
    dag = Dag()
    task, gen = core.add_generator(dag, scratch)
    dag.run()
    runner = Runner(scratch, gen)
    lengths = {}
    for size, text in (("small", FIRST), ("large", FIRST + large() + LAST)):
        for g in (("json",), ("binary",), ("json", "binary")):
            want, msg = runner.ref(simple(text, g))
            if want is None:
                report.violation("reference", "status-nonzero", msg, "%s %s" % (size, g), {"kind": "generator", "case": case(
                    "reference", "%s %s" % (size, g), files(text), args(g), "ok")})
                return
            lengths[(size, g)] = len(want)
    cs = []
    for gen_ in (determinism_cases(tier), option_cases(tier), input_cases(tier), output_cases(tier), limit_cases(tier, lengths), error_cases(tier)):
        cs += list(gen_)
    with cf.ThreadPoolExecutor(core.JOBS * 2) as ex:
        results = list(ex.map(runner.check, cs))
    states, units = set(), {}
    for c, r in zip(cs, results):
        if r is not None:
            again = runner.check(c)
            if again is None and r[0] != "nondeterministic":
                raise HarnessError("violation could not be reproduced: %s: %s" % (c["desc"], r))
            report.violation(c["unit"], r[0], r[1], c["desc"], {"kind": "generator", "case": c})
        u = units.setdefault(c["unit"], [0, set()])
        u[0] += 1
        u[1].add((c["desc"], c["expect"]))
        states.add((c["unit"], c["desc"], c["expect"]))
    report.cov["states"] += len(states)
    report.cov["transitions"] += runner.count
    report.cov["traces_validated_against_impl"] += len(cs)
    report.cov["oracle_comparisons"] += 2 * len(cs)
    for n, u in units.items():
        report.units.append({"build": "generator", "unit": n, "bound": 0, "executions": u[0], "states": len(u[1]), "capped": False})
    for c in cs[::max(1, len(cs) // 11)]:
        report.cov["samples"].append("%s: %s -> %s" % (c["unit"], c["desc"], c["expect"]))


def replay(scratch, data, path):
    dag = Dag()
    task, gen = core.add_generator(dag, scratch)
    dag.run()
    runner = Runner(scratch, gen)
    c = data["replay"]["case"]
    for n in range(10):
        r = runner.check(c)
        if r is not None:
            print("%s: %s" % r)
            print("VIOLATION property=%s replay=%s" % (data["property"], path))
            return 1
    return 0
