#!/usr/bin/env python3
"""Runs the quick check of the property of every planted bug (or of those
named) against a scratch copy with the bug. evalbugs.py [--all-checks] [ID...]"""
import json, os, subprocess, sys, shutil, time
S = "/verif/seeded"
ids = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(os.listdir(S))
RES = "/tmp/evalbugs.json"
V = f"/tmp/evverif_{os.getpid()}"  # a copy: other runs use /verif/build
subprocess.run(f"mkdir {V}; cp -a /verif/vf.py /verif/KNOWN_FINDINGS /verif/engine /verif/checks {V}/", shell=True, check=True)
res = json.load(open(RES)) if os.path.exists(RES) else {}
for i in ids:
    d = f"/tmp/ev_{i}"
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", d], check=True)
    subprocess.run(["git", "-C", d, "apply", f"{S}/{i}/patch.diff"], check=True)
    p = json.load(open(f"{S}/{i}/meta.json"))["property"]
    t = time.time()
    r = subprocess.run([sys.executable, V + "/vf.py", "check", p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1", VERIF_TIER="quick"))
    v = [l for l in r.stdout.splitlines() if l.startswith(f"VIOLATION property={p}")]
    ok = r.returncode == 1 and bool(v)
    res[i] = [p, ok, round(time.time() - t)]
    print(f"{i:32} {p} {'CAUGHT' if ok else 'MISSED rc=%d' % r.returncode} {time.time()-t:.0f}s", flush=True)
    if not ok:
        print("\n".join(r.stdout.splitlines()[-3:])[:600], flush=True)
    json.dump(res, open(RES, "w"))
    shutil.rmtree(d, ignore_errors=True)
shutil.rmtree(V, ignore_errors=True)
