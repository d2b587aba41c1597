#!/usr/bin/env python3
"""Plants bugs: confirms a change in /repo (build, tests, original lines, demo)
and stores it in /verif/seeded/<id>.

  plant.py DEFS.py [ID...]

DEFS.py defines BUGS, a list of dicts with id, property, edits [(file, old,
new[, n])], needs, breaks, demo (body of main; returns 0 if the property
holds), san (demo with AddressSanitizer), r (R objects instead of the
standalone mode), flags (further compiler flags), files (further files of the demo),
compile (the demo shows it by not compiling)."""
import json
import os
import re
import subprocess
import sys
import tempfile

ORIG = "/repo"
REPO = "/tmp/plant_repo"
SEED = "/verif/seeded"
BASE = "a413c5d"

HEAD = r'''#include <cmath>
#include <cstdio>
#include <functional>
#include <iostream>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <vector>
#include "etr.hpp"
static int bad = 0;
#define EXPECT(c) do { if (!(c)) { std::printf("line %d: %s\n", __LINE__, #c); bad = 1; } } while (0)
static bool near(double a, double b) { return (std::isnan(a) && std::isnan(b)) || a == b || std::fabs(a - b) <= 1e-11 * std::max(1.0, std::fabs(b)); }
static bool throws(std::function<void()> f) { try { f(); } catch (const std::exception &) { return true; } return false; }
'''
DEMO = '''#!/bin/bash
# exit 0: the property holds, otherwise it is broken
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -w -O0 %s-I"$D" -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" || exit 3
cd "$T" && timeout 120 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **k)


def passed(p):
    x = json.load(open(p))
    for k in ("passed", "stable", "pass"):
        if k in x:
            return set(x[k])
    return {k for k, v in x.items() if v in ("pass", "passed", True)}


def lines(f):
    out = sh(f"git -C {REPO} blame -s HEAD -- {f}").stdout.splitlines()
    return [l.lstrip("^").startswith(BASE) for l in out]


def plant(b):
    d = os.path.join(SEED, b["id"])
    src = {}
    for e in b["edits"]:
        f, old, new = e[0], e[1], e[2]
        n = e[3] if len(e) > 3 else None
        p = os.path.join(REPO, "include/etr_bits", f)
        t = open(p).read()
        src.setdefault(p, t)
        c = t.count(old)
        if n is None:
            if c != 1:
                return f"old text occurs {c} times in {f}"
            t = t.replace(old, new)
        else:
            if n >= c:
                return f"old text occurs {c} times in {f}"
            parts = t.split(old)
            t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
        open(p, "w").write(t)
    try:
        diff = sh(f"git -C {REPO} diff -U3").stdout
        # every removed line belongs to the original repository
        f = None
        orig = 0
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                f = l[6:]
                own = lines(f)
            elif l.startswith("@@"):
                n = int(re.match(r"@@ -(\d+)", l).group(1))
            elif l.startswith("-") and not l.startswith("---"):
                if not own[n - 1]:
                    return f"{f}:{n} is not an original line"
                orig += 1
                n += 1
            elif l.startswith(" "):
                n += 1
        if not orig:
            return "no original line changed"
        r = sh(f"python3 -B {REPO}/etr.py build")
        if r.returncode:
            return "build fails\n" + r.stdout[-1500:]
        sh(f"python3 -B {REPO}/etr.py test /tmp/plant.json")
        miss = passed("/opt/vp/BASELINE.json") - passed("/tmp/plant.json")
        if miss:
            return f"tests notice it: {sorted(miss)[:6]}"
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.cpp"), "w").write(
            HEAD + b.get("pre", "") + "\nint main() {\n" + b["demo"].strip("\n")
            + "\n  return bad;\n}\n")
        if b.get("r"):
            sh(f"cp /verif/engine/RcppArmadillo.h {d}/")
        san = "" if b.get("r") else "-DSTANDALONE_ETR "
        san += b.get("flags", "")
        san += "-fsanitize=address,undefined -fno-sanitize-recover=all -g " if b.get("san") else ""
        demo = DEMO % san
        if b.get("compile"):
            demo = demo.replace("exit 3", "exit 1")
        open(os.path.join(d, "demo.sh"), "w").write(demo)
        for n, x in b.get("files", {}).items():
            open(os.path.join(d, n), "w").write(x)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": b["property"], "needs": b["needs"],
                   "what_it_breaks": b["breaks"]},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        r1 = sh(f"bash {d}/demo.sh", cwd=REPO)
    finally:
        for p, t in src.items():
            open(p, "w").write(t)
    r0 = sh(f"bash {d}/demo.sh", cwd=REPO)
    if r0.returncode or r1.returncode in (0, 3):
        sh(f"rm -rf {d}")
        return (f"demo: clean {r0.returncode} patched {r1.returncode}\n"
                + r0.stdout[-1200:] + "\n--\n" + r1.stdout[-800:])
    return None


def main():
    sh(f"rm -rf {REPO}; cp -a {ORIG} {REPO}")
    t = open("/opt/vp/etr/etr.py").read()
    t = t.replace('REPO = "/repo"', f'REPO = "{REPO}"')
    t = t.replace("HERE = os.path.dirname(os.path.abspath(__file__))",
                  'HERE = "/opt/vp/etr"')
    open(REPO + "/etr.py", "w").write(t)
    g = {}
    exec(open(sys.argv[1]).read(), g)
    for b in g["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        if len(sys.argv) == 2 and os.path.exists(os.path.join(SEED, b["id"], "meta.json")):
            continue
        print(b["id"], plant(b) or "OK", flush=True)
    sh(f"rm -rf {REPO}")


main()
