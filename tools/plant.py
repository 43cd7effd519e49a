#!/usr/bin/env python3
"""tools/plant.py SPECS.py [ID...]: make seeded/<id>/ from a list of BUGS, confirm each one

BUGS = [dict(id, prop, edits=[(file, old, new)...], needs, breaks, demo)], demo is python source.
Confirmed: applies, builds, passes the stable tests, demo 0 without and nonzero with it.
Works in /repo and puts it back. Prints whether the quick check catches it.
"""
import json
import os
import subprocess
import sys

HERE = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
DEMO = """#!/bin/bash
# exit 0 if the property holds
. /opt/vp/env.sh
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
cd "$w" || exit 3
export PYTHONPATH=/repo
/opt/venv/bin/python -W ignore "$d/demo.py"
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          universal_newlines=True, **kw)


def tests_ok():
    sh("bash /opt/vp/test.sh /tmp/plant-tests.json")
    base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    res = json.load(open("/tmp/plant-tests.json"))
    return set(base) <= set(res["passed"])


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo is not clean"
    for b in ns["BUGS"]:
        if only and b["id"] not in only:
            continue
        d = os.path.join(HERE, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        open(os.path.join(d, "demo.py"), "w").write(b["demo"])
        json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]),
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        sh("bash /opt/vp/build.sh")
        r = sh("bash {0}/demo.sh".format(d), cwd="/repo")
        ok0 = r.returncode == 0
        if not ok0:
            print(b["id"], "DEMO FAILS UNPATCHED\n" + r.stdout[-1500:])
            continue
        try:
            bad = False
            for f, old, new in b["edits"]:
                p = os.path.join("/repo", f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], f, "old text occurs", s.count(old), "times")
                    bad = True
                    break
                open(p, "w").write(s.replace(old, new))
            if bad:
                continue
            open(os.path.join(d, "patch.diff"), "w").write(sh("git -C /repo diff").stdout)
            r = sh("bash /opt/vp/build.sh")
            if r.returncode:
                print(b["id"], "DOES NOT BUILD", r.stdout[-800:])
                continue
            r = sh("bash {0}/demo.sh".format(d), cwd="/repo")
            ok1 = r.returncode != 0
            t = tests_ok()
            c = sh("bin/check {0} --no-evidence".format(b["prop"]), cwd=HERE)
            print("{0:5s} {1} demo {2} tests {3} check {4} {5}".format(
                b["id"], b["prop"], "ok" if ok1 else "PASSES PATCHED", "pass" if t else "FAIL",
                "CAUGHT" if c.returncode == 1 else "MISSED rc=%d" % c.returncode,
                [l.split("replay=")[1].split("/")[-1] for l in c.stdout.splitlines() if "VIOLATION" in l]))
            if not ok1:
                print(r.stdout[-800:])
            sys.stdout.flush()
        finally:
            sh("git -C /repo checkout -- .")
    sh("bash /opt/vp/build.sh")


main()
