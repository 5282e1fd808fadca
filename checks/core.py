"""Infrastructure shared by all checks: building from /repo's working tree, running explorations, reporting."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time, glob, atexit, signal

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RRJ_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
JOBS = max(2, min(16, os.cpu_count() or 8))
CXX = "clang++"
UTILS = ["-isystem", "/usr/include/martchus-c++utilities"]
LIBS = ["-lmartchus-c++utilities"]
RESOURCE_DIR = "/usr/lib/llvm-18/lib/clang/18"
SAN = ["-fsanitize=address,bool,enum,float-cast-overflow,signed-integer-overflow,shift,array-bounds,return,unreachable,"
       "integer-divide-by-zero,null,nonnull-attribute,builtin",
       "-fno-sanitize-recover=all", "-fsanitize-ignorelist=" + os.path.join(HARNESS, "ignore.txt"),
       "-ftrivial-auto-var-init=pattern", "-fsanitize-address-use-after-return=never"]
# detecting uses after return is very slow when many exceptions are thrown, hence only enabled where references might be stored
SAN_RETURN = SAN[:-1] + ["-fsanitize-address-use-after-return=always"]


class HarnessError(Exception):
    """The check itself could not be carried out (no statement about the property)."""


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="rrj-check-")
        self._lock = threading.Lock()
        atexit.register(self.close)
        for s in (signal.SIGTERM, signal.SIGHUP):
            signal.signal(s, lambda *_: sys.exit(3))

    def path(self, *parts):
        p = os.path.join(self.dir, *parts)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        return p

    def close(self):
        if os.environ.get("RRJ_KEEP"):
            print("keeping " + self.dir)
            return
        shutil.rmtree(self.dir, ignore_errors=True)


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:allocator_may_return_null=0:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
                         "max_allocation_size_mb=1024:handle_abort=1:detect_stack_use_after_return=1:abort_on_error=0:"
                         "quarantine_size_mb=64:detect_odr_violation=0")
    e["UBSAN_OPTIONS"] = "print_stacktrace=0"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_signal_unsafe=0"
    e["LC_ALL"] = e["LANG"] = "C.UTF-8"
    e.pop("CPLUS_INCLUDE_PATH", None)
    return e


def sh(cmd, cwd=None, timeout=600, stdin=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env(),
                           input=stdin)
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace")
    return r.returncode, r.stdout.decode(errors="replace")


class Dag:
    """Runs tasks with dependencies using a limited number of workers."""

    def __init__(self, jobs=JOBS):
        self.jobs, self.tasks, self.order = jobs, {}, []

    def add(self, name, fn, deps=(), prio=0):
        self.tasks[name] = (fn, tuple(deps), prio)
        return name

    @staticmethod
    def timed(name, fn):
        start = time.time()
        try:
            return fn()
        finally:
            if os.environ.get("RRJ_TIMES"):
                print("%6.1f s: %s" % (time.time() - start, name), flush=True)

    def run(self):
        done, running, failed = {}, {}, None
        pending = dict(self.tasks)
        with cf.ThreadPoolExecutor(self.jobs) as ex:
            while pending or running:
                if failed is None:
                    ready = sorted((n for n, t in pending.items() if all(d in done for d in t[1])),
                                   key=lambda n: -pending[n][2])
                    for n in ready:
                        if len(running) >= self.jobs:
                            break
                        running[ex.submit(self.timed, n, pending.pop(n)[0])] = n
                elif not running:
                    raise failed
                if not running:
                    raise HarnessError("dependency cycle: " + ", ".join(pending))
                for f in cf.wait(running, return_when=cf.FIRST_COMPLETED).done:
                    n = running.pop(f)
                    try:
                        done[n] = f.result()
                    except BaseException as e:  # noqa
                        failed = failed or e
            if failed is not None:
                raise failed
        return done


# ---- building the generator ----------------------------------------------------------------------------------------
def include_dir(scratch):
    return os.path.join(REPO, "lib", "include")


GEN_FLAGS = ["-DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER", "-DCPP_UTILITIES_USE_STANDARD_FILESYSTEM",
             "-DREFLECTIVE_RAPIDJSON_STATIC", "-isystem", "/usr/lib/llvm-18/include", "-std=gnu++17",
             "-fvisibility=hidden", "-w"] + UTILS
GEN_LIBS = ["-Wl,-rpath,/usr/lib/llvm-18/lib", "-lmartchus-c++utilities", "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1",
            "/usr/lib/llvm-18/lib/libLLVM.so.1"]


def add_generator(dag, scratch, flags=("-O0",), name="generator"):
    """Adds tasks building the generator from /repo/generator, returns the name of the final task and the path."""
    out = scratch.path(name, "reflective_rapidjson_generator")
    cfg = scratch.path(name, "resources", "config.h")
    shutil.copy(os.path.join(HARNESS, "generator-config.h"), cfg)
    objs, tus = [], []

    def compile_tu(src, obj):
        rc, o = sh([CXX, *flags, *GEN_FLAGS, "-I" + os.path.dirname(os.path.dirname(cfg)), "-I" + include_dir(scratch), "-c",
                    src, "-o", obj])
        return rc, o

    for src in sorted(glob.glob(os.path.join(REPO, "generator", "*.cpp"))):
        obj = scratch.path(name, os.path.basename(src) + ".o")
        objs.append(obj)
        tus.append(dag.add(name + ":" + os.path.basename(src), lambda s=src, o=obj: compile_tu(s, o), prio=100))

    results = {}

    def link():
        rc, o = sh([CXX, *flags, *objs, "-o", out, *GEN_LIBS])
        if rc or not os.path.exists(out):
            # the set of sources or required definitions might have changed: use the project's own build system
            cmake_generator(scratch, out, name)
        return out

    return dag.add(name, link, deps=tus, prio=100), out


def cmake_generator(scratch, out, name):
    src, b = scratch.path(name, "src", "x"), scratch.path(name, "out", "x")
    src, b = os.path.dirname(src), os.path.dirname(b)
    sh(["rsync", "-a", "--exclude", "/_build", "--exclude", "/.git", REPO + "/", src + "/"])
    tmpl = os.path.join(src, "lib/cmake/templates/global.h.in")
    os.makedirs(os.path.dirname(tmpl), exist_ok=True)
    with open(os.path.join(src, "lib/global.h")) as f, open(tmpl, "w") as t:
        t.writelines(l for l in f if "reflective_rapidjson-definitions" not in l)
    rc, o = sh(["cmake", "-S", src, "-B", b, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBUILD_TESTING=OFF",
                "-DCMAKE_CXX_FLAGS=-O0 -w -isystem /usr/lib/llvm-18/include", "-DPACKAGE_NAMESPACE=martchus",
                "-DClang_DIR=/usr/lib/llvm-18/lib/cmake/clang", "-DLLVM_DIR=/usr/lib/llvm-18/lib/cmake/llvm",
                "-DREFLECTION_GENERATOR_CLANG_BIN=/usr/lib/llvm-18/bin/clang"])
    if rc == 0:
        rc, o = sh(["ninja", "-C", b, "reflective_rapidjson_generator"])
    if rc:
        raise HarnessError("unable to build the generator: " + o[-3000:])
    shutil.copy(os.path.join(b, "generator", "reflective_rapidjson_generator"), out)


def clang_opts(defs=()):
    return ["--clang-opt", "-resource-dir", RESOURCE_DIR, "-I", os.path.join(REPO, "lib", "include"), "-I",
            "/usr/include/martchus-c++utilities", "-std=c++17", *defs]


def run_generator(gen, inp, out, generators=("json",), defs=(), extra=(), timeout=120):
    return sh([gen, "--input-file", inp, "--output-file", out, "--generators", *generators, *extra, *clang_opts(defs)],
              timeout=timeout)


# ---- building and running explorations -----------------------------------------------------------------------------
class Build:
    """One executable: a harness source plus definitions, optionally with a generated header (gen.h)."""

    def __init__(self, name, src, defs=(), gen=None, opt="-O0", san=None, args=(), extra=(), jobs=2, objects=()):
        self.objects = list(objects)  # [[source, [flags...]], ...] of files compiled separately without the flags of the harness
        self.name, self.src, self.defs, self.gen, self.opt, self.args, self.extra, self.jobs = \
            name, src, list(defs), gen, opt, list(args), list(extra), jobs
        self.san = SAN if san is None else san

    def spec(self):
        return {"name": self.name, "src": self.src, "defs": self.defs, "gen": self.gen, "opt": self.opt,
                "san": self.san, "extra": self.extra, "args": self.args, "objects": self.objects}

    def exe(self, scratch):
        return scratch.path("b", self.name, "harness")

    def generate(self, scratch, gen):
        inp = self.gen["input"]
        inp = inp if os.path.isabs(inp) else os.path.join(HARNESS, inp)
        out = scratch.path("b", self.name, "gen.h")
        rc, o = run_generator(gen, inp, out, self.gen["generators"], ["-I" + HARNESS] + self.defs + self.gen.get("defs", []),
                              self.gen.get("extra", ()))
        if rc:
            raise HarnessError("generator failed for %s (%d): %s" % (self.name, rc, o[-2000:]))

    def compile(self, scratch):
        exe = self.exe(scratch)
        objects = []
        for src, flags in self.objects:
            objects.append(exe + "." + src + ".o")
            rc, o = sh([CXX, "-std=c++17", "-O2", "-g0", "-w", *flags, "-I" + HARNESS, "-c", os.path.join(HARNESS, src), "-o", objects[-1]])
            if rc:
                raise HarnessError("unable to compile %s: %s" % (src, o[-3000:]))
        cmd = [CXX, "-std=c++17", self.opt, "-g0", "-w", *self.san, "-ferror-limit=5", "-I" + os.path.dirname(exe),
               "-I" + HARNESS, "-I" + include_dir(scratch), *UTILS, *self.defs, *self.extra,
               os.path.join(HARNESS, self.src), *objects, *LIBS, "-o", exe]
        rc, o = sh(cmd, timeout=800)
        if rc:
            raise HarnessError("unable to compile %s: %s" % (self.name, o[-3000:]))

    def run(self, scratch, extra=()):
        out = self.exe(scratch) + ".json"
        rc, o = sh([self.exe(scratch), "--out", out, "--jobs", str(self.jobs), *self.args, *extra], timeout=6 * 3600,
                   cwd=os.path.dirname(out))
        if rc not in (0, 1):
            units = []
            try:
                units = [u for u in json.load(open(out))["units"] if u.get("error")]
            except Exception:
                pass
            raise HarnessError("harness %s failed (%d): %s %s" % (self.name, rc, o[-2000:], json.dumps(units)[:2000]))
        with open(out) as f:
            return json.load(f)["units"]

    def replay(self, scratch, unit, choices):
        """Re-runs a recorded choice sequence (and, if that does not reproduce it, the unit); returns (reproduced, text)."""
        d = os.path.dirname(self.exe(scratch))
        rc, o = sh([self.exe(scratch), *self.args, "--replay", unit, ",".join(map(str, choices))], timeout=300, cwd=d)
        if rc not in (0, 3):
            return True, o
        rc, o2 = sh([self.exe(scratch), "--out", os.path.join(d, "replay.json"), *self.args, "--replay-unit", unit],
                    timeout=3600, cwd=d)
        return rc == 1, o + o2


def run_builds(scratch, builds):
    """Builds and runs all executables, returns {build name: units}."""
    dag = Dag()
    gen_task = None
    if any(b.gen for b in builds):
        gen_task, gen = add_generator(dag, scratch)
    for b in builds:
        deps = []
        if b.gen:
            deps = [dag.add("generate:" + b.name, lambda b=b: b.generate(scratch, gen), [gen_task], prio=50)]
        dag.add("compile:" + b.name, lambda b=b: b.compile(scratch), deps, prio=20)
        dag.add("run:" + b.name, lambda b=b: b.run(scratch), ["compile:" + b.name], prio=10)
    done = dag.run()
    return {b.name: done["run:" + b.name] for b in builds}


# ---- reporting -----------------------------------------------------------------------------------------------------
class Report:
    def __init__(self, prop, tier):
        self.prop, self.tier, self.t0 = prop, tier, time.time()
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.violations, self.known, self.notes = [], [], []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "oracle_comparisons": 0, "samples": [],
                    "exhaustive": True}
        self.units = []
        self.assumptions = []
        with open(os.path.join(VERIF, "known_findings.json")) as f:
            self.findings = [k for k in json.load(f)["findings"] if k["property"] == prop]

    def add_units(self, scratch, builds, results):
        for b in builds:
            for u in results[b.name]:
                self.cov["states"] += u["states"]
                self.cov["transitions"] += u["transitions"]
                self.cov["traces_validated_against_impl"] += u["executions"]
                self.cov["oracle_comparisons"] += u["steps"]
                if len(self.cov["samples"]) < 12:
                    self.cov["samples"] += [b.name + ": " + u["name"] + ": " + s for s in u["samples"][-1:]]
                if u["capped"]:
                    self.cov["exhaustive"] = False
                self.units.append({"build": b.name, "unit": u["name"], "bound": u["bound"], "executions": u["executions"],
                                   "states": u["states"], "capped": u["capped"]})
                if u["capped"] and not u["violations"]:
                    raise HarnessError("unit %s was not explored completely" % u["name"])
                sigs = set()
                for v in u["violations"]:
                    if v["sig"] in sigs:
                        continue
                    sigs.add(v["sig"])
                    ok, text = b.replay(scratch, u["name"], v["choices"])
                    if not ok:
                        raise HarnessError("violation in %s (%s) could not be reproduced: %s" % (u["name"], v["sig"],
                                                                                               v["msg"][:1000] + text[-1000:]))
                    self.violation(u["name"], v["sig"], v["msg"], v["desc"],
                                   {"build": b.spec(), "unit": u["name"], "choices": v["choices"], "replay_output": text[-6000:]})

    def violation(self, unit, sig, msg, desc="", replay=None):
        for k in self.findings:
            if re.fullmatch(k["unit"], unit) and re.fullmatch(k["sig"], sig) and re.search(k.get("match", ""), desc + "\n" + msg):
                if k["id"] not in [x["id"] for x in self.known]:
                    self.known.append(k)
                return
        self.violations.append({"unit": unit, "sig": sig, "msg": msg, "desc": desc, "replay": replay or {}})

    def finish(self):
        # findings which are no longer observed are simply not printed
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["what"]))
        d = os.path.join(VERIF, "evidence")
        os.makedirs(os.path.join(d, "replay"), exist_ok=True)
        printed = set()
        for n, v in enumerate(self.violations):
            key = (v["unit"], v["sig"])
            if key in printed:
                continue
            printed.add(key)
            if len(printed) > 10:
                print("(further violations omitted, %d in total)" % len(self.violations))
                break
            path = os.path.join(d, "replay", "%s-%d.json" % (self.prop, n))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "tier": self.tier, **v,
                           "how_to": "python3 /verif/run.py replay " + path}, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            print("  unit: %s\n  %s: %s\n  case: %s" % (v["unit"], v["sig"], v["msg"][:700], v["desc"][:500]))
        cov = dict(self.cov)
        cov["samples"] = [s[:600] for s in cov["samples"]][:12]
        cov["explored_units"] = self.units
        cov.update(getattr(self, "extra", {}))
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations)}
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s (%s): %d executions, %d states, %d transitions, %d violations, %d known findings, %.1f s" % (
            self.prop, self.tier, cov["traces_validated_against_impl"], cov["states"], cov["transitions"], len(self.violations),
            len(self.known), time.time() - self.t0))
        return 1 if self.violations else 0
