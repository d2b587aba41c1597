#!/usr/bin/env python3
"""Runs the checks.

  vf.py check C01 [--tier quick|thorough] [--seed N] [--cases-factor X]
  vf.py replay C01 FILE
  vf.py setup

The harness of a property is compiled from checks/<id>/*.cpp (and from sources
which checks/<id>/gen.py generates from the seed) against the headers in
/repo/include as they are now, and is then driven by engine/pbt_main.cpp.
Exit: 0 the property held, 1 VIOLATION, 2 the check itself failed.
"""
import importlib.util
import json
import os
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
CXX = "g++"


class Err(Exception):
    pass


def conf(pid):
    d = os.path.join(HERE, "checks", pid)
    with open(os.path.join(d, "check.json")) as f:
        c = json.load(f)
    c["id"] = pid
    c["dir"] = d
    return c


def sh(cmd, log, timeout, cwd=None, env=None):
    with open(log, "wb") as f:
        try:
            p = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT,
                               stdin=subprocess.DEVNULL, timeout=timeout,
                               cwd=cwd, env=env)
            return p.returncode
        except subprocess.TimeoutExpired:
            return -999


def read(f, n=6000):
    try:
        with open(f, "rb") as h:
            return h.read(n).decode("utf-8", "replace")
    except OSError:
        return ""


def flags(c):
    return (["-std=c++20"] + c.get("flags", ["-O0", "-fsanitize=address"]) +
            ["-w", "-fno-omit-frame-pointer"])


def build(c, seed, tier, bdir):
    """returns (binary, None) or (None, log of the failed compilation)"""
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    fl = flags(c)
    inc = ["-I" + bdir, "-I" + os.path.join(HERE, "engine"), "-I" + c["dir"]]
    pre = c.get("prelude", "#define STANDALONE_ETR\n#include <sstream>\n"
                           "#include <iostream>\n#include \"@REPO@/include/etr.hpp\"\n")
    pre = pre.replace("@REPO@", REPO).replace("@HERE@", HERE)
    with open(os.path.join(bdir, "etr_pch.hpp"), "w") as f:
        f.write("#ifndef ETR_PCH\n#define ETR_PCH\n" + pre + "#endif\n")
    # canary: the library itself has to compile. Otherwise nothing can be said
    log = os.path.join(bdir, "pch.log")
    for attempt in (1, 2):
        rc = sh([CXX] + fl + inc + ["-x", "c++-header",
                                    os.path.join(bdir, "etr_pch.hpp"), "-o",
                                    os.path.join(bdir, "etr_pch.hpp.gch")], log, 300)
        if rc == 0:
            break
    if rc != 0:
        raise Err("the library does not compile: " + read(log))
    srcs = [os.path.join(c["dir"], f) for f in sorted(os.listdir(c["dir"]))
            if f.endswith(".cpp")]
    gen = os.path.join(c["dir"], "gen.py")
    if os.path.exists(gen):
        gd = os.path.join(bdir, "gen")
        os.makedirs(gd)
        spec = importlib.util.spec_from_file_location("gen_" + c["id"], gen)
        m = importlib.util.module_from_spec(spec)
        sys.dont_write_bytecode = True
        sys.path.insert(0, os.path.join(HERE, "engine"))
        spec.loader.exec_module(m)
        srcs = [os.path.join(gd, f) for f in m.generate(seed, tier, gd)] + srcs
    srcs.append(os.path.join(HERE, "engine", "pbt_main.cpp"))

    def one(src):
        name = os.path.basename(src)
        obj = os.path.join(bdir, name + ".o")
        lg = os.path.join(bdir, name + ".log")
        for attempt in (1, 2):
            rc = sh([CXX] + fl + inc + ["-c", src, "-o", obj], lg, 600)
            text = read(lg, 20000)
            # an internal problem (killed, out of memory) is no answer
            if rc == 0 or (rc == 1 and re.search(r"error:", text) and
                           "internal compiler error" not in text and
                           "Killed" not in text):
                break
        return src, obj, rc, lg

    def weight(s):  # long compilations first
        return -c.get("first", {}).get(os.path.basename(s), os.path.getsize(s) / 1e6)
    srcs.sort(key=weight)
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(one, srcs))
    for src, obj, rc, lg in res:
        if rc == 0:
            continue
        if rc == 1 and "error:" in read(lg, 200000) and \
                os.path.basename(src) != "pbt_main.cpp":
            return None, lg
        raise Err("compilation of %s failed: %s" % (src, read(lg)))
    exe = os.path.join(bdir, "main")
    log = os.path.join(bdir, "link.log")
    if sh([CXX] + fl + [r[1] for r in res] + ["-o", exe] + c.get("libs", []),
          log, 300) != 0:
        if c.get("units") and "multiple definition of `etr::" in read(log, 200000):
            return None, log
        raise Err("linking failed: " + read(log))
    return exe, None


def run_env(tier, seed):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = ("detect_leaks=0:max_malloc_fill_size=4096:"
                         "allocator_may_return_null=0:max_allocation_size_mb=2000:"
                         "hard_rss_limit_mb=6000:symbolize=1:print_legend=0:"
                         "quarantine_size_mb=32:detect_stack_use_after_return=1")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    e["TSAN_OPTIONS"] = "halt_on_error=1:report_signal_unsafe=0:history_size=4"
    e["VERIF_SEED"] = str(seed)
    e["VERIF_TIER"] = tier
    return e


def known(pid):
    """the open entries of KNOWN_FINDINGS: known: property=<id> sub=<sub> text"""
    r = []
    f = os.path.join(HERE, "KNOWN_FINDINGS")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\w+) (.*)", line)
            if m and m.group(1) == pid:
                r.append(m.group(2).strip())
    return r


def classes(labels):
    r = {}
    for k, n in labels.items():
        k = k.split(": ", 1)[-1]
        r[k] = r.get(k, 0) + n
    return dict(sorted(r.items(), key=lambda x: -x[1])[:60])


def check(pid, tier, seed, factor=1.0, keep=False):
    t0 = time.time()
    c = conf(pid)
    bdir = os.path.join(HERE, "build", pid)
    ev = os.path.join(HERE, "evidence")
    os.makedirs(ev, exist_ok=True)
    replay = os.path.join(ev, pid + ".replay")
    evf = os.path.join(ev, pid + ".json")
    for f in (replay, evf):
        if os.path.exists(f):
            os.remove(f)
    doc = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
           "coverage": {}, "assumptions": c.get("assumptions", []),
           "wall_s": 0.0, "violations": 0}

    def violation(text):
        doc["violations"] = 1
        doc["wall_s"] = round(time.time() - t0, 2)
        if not doc["coverage"]:
            doc["coverage"] = {"evaluations": 0, "distinct_nontrivial": 0,
                               "rule": c["rule"], "samples": [text[:2000]]}
        with open(evf, "w") as f:
            json.dump(doc, f, indent=1)
        print(text[-4000:])
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        sys.stdout.flush()
        if not keep:
            shutil.rmtree(bdir, ignore_errors=True)
        return 1

    exe, bad = build(c, seed, tier, bdir)
    tb = time.time() - t0
    if exe is None:
        text = read(bad, 200000)
        first = [l for l in text.splitlines() if "error:" in l][:5]
        with open(replay, "w") as f:
            f.write("kind=compile\nseed=%d\n" % seed +
                    "# programs which use the library do not compile anymore\n" +
                    text[:20000])
        return violation("a program which uses the library does not compile:\n" +
                         "\n".join(first))
    t = c[tier] if tier in c else c["quick"]
    out = os.path.join(bdir, "stats.json")
    log = os.path.join(bdir, "run.log")
    rc = sh([exe, "run", "--seed", str(seed), "--cases",
             str(max(1, int(t["cases"] * factor))),
             "--workers", str(JOBS), "--out", out, "--replay-out", replay,
             "--attempts", str(c.get("attempts", 1)),
             "--workdir", bdir, "--max-s", str(t.get("max_s", 60))],
            log, t.get("max_s", 60) + 450, cwd=bdir, env=run_env(tier, seed))
    text = read(log, 20000)
    if rc == 1 and os.path.exists(replay):
        return violation(text)
    if rc != 0:
        raise Err("the run ended with %s:\n%s" % (rc, text))
    st = json.load(open(out))
    cov = {"evaluations": st["evaluations"],
           "distinct_nontrivial": st["distinct_nontrivial"],
           "nontrivial": st["nontrivial"], "rule": c["rule"],
           "samples": st["samples"][:12], "subchecks": st["subs"],
           "classes": classes(st["labels"]), "build_s": round(tb, 2)}
    doc["coverage"] = cov
    doc["wall_s"] = round(time.time() - t0, 2)
    with open(evf, "w") as f:
        json.dump(doc, f, indent=1)
    for k in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    print("%s: %d cases, %d distinct non-trivial, build %.1f s, total %.1f s" %
          (pid, st["evaluations"], st["distinct_nontrivial"], tb, doc["wall_s"]))
    if st["distinct_nontrivial"] < 2:
        raise Err("vacuous run")
    if not keep:
        shutil.rmtree(bdir, ignore_errors=True)
    return 0


def replay_cmd(pid, file):
    c = conf(pid)
    text = read(file, 100000)
    m = re.search(r"^seed=(\d+)", text, re.M)
    seed = int(m.group(1)) if m else 1
    m = re.search(r"^tier=(\w+)", text, re.M)
    tier = m.group(1) if m else "quick"
    bdir = os.path.join(HERE, "build", pid + ".replay")
    exe, bad = build(c, seed, tier, bdir)
    if exe is None:
        print(read(bad))
        return 1
    p = subprocess.run([exe, "replay", os.path.abspath(file), "--workdir", bdir,
                        "--attempts", str(c.get("attempts", 1))],
                       cwd=bdir, env=run_env(tier, seed))
    return p.returncode


def main():
    a = sys.argv[1:]
    opt = {}
    pos = []
    while a:
        x = a.pop(0)
        if x == "--keep":
            opt["keep"] = "1"
        elif x.startswith("--"):
            opt[x[2:]] = a.pop(0)
        else:
            pos.append(x)
    tier = opt.get("tier", os.environ.get("VERIF_TIER", "quick"))
    seed = int(opt.get("seed", os.environ.get("VERIF_SEED", "1") or "1"))
    try:
        if pos[0] == "check":
            return check(pos[1], tier, seed, float(opt.get("cases-factor", "1")),
                         "keep" in opt)
        if pos[0] == "replay":
            return replay_cmd(pos[1], pos[2])
        if pos[0] == "setup":
            for t in (CXX, "python3"):
                if not shutil.which(t):
                    raise Err(t + " is missing")
            print("nothing to install; each check compiles its own harness")
            return 0
    except Err as e:
        print("ERROR: %s" % e)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
