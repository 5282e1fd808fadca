#!/usr/bin/env python3
"""Entry point: run.py check <property> [quick|thorough] | run.py replay <file> | run.py list"""
import importlib, json, os, sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from checks import core, specs  # noqa: E402


def check(prop, tier):
    scratch = core.Scratch()
    report = core.Report(prop, tier)
    try:
        specs.CHECKS[prop](scratch, report, tier)
    except core.HarnessError as e:
        print("ERROR: %s: %s" % (prop, e))
        return 3
    return report.finish()


def replay(path):
    with open(path) as f:
        data = json.load(f)
    scratch = core.Scratch()
    r = data["replay"]
    if "build" not in r:
        return specs.replay(scratch, data, path)
    b = core.Build(**r["build"])
    dag = core.Dag()
    deps = []
    if b.gen:
        t, gen = core.add_generator(dag, scratch)
        deps = [dag.add("generate", lambda: b.generate(scratch, gen), [t])]
    dag.add("compile", lambda: b.compile(scratch), deps)
    dag.run()
    ok, text = b.replay(scratch, r["unit"], r["choices"])
    print(text)
    if ok:
        print("VIOLATION property=%s replay=%s" % (data["property"], path))
    return 1 if ok else 0


def main(a):
    if len(a) >= 3 and a[1] == "check":
        return check(a[2], a[3] if len(a) > 3 else os.environ.get("VERIF_TIER", "quick"))
    if len(a) == 3 and a[1] == "replay":
        return replay(a[2])
    if len(a) == 2 and a[1] == "list":
        print("\n".join(specs.CHECKS))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main(sys.argv))
