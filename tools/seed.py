#!/usr/bin/env python3
"""Confirm seeded changes in a scratch copy of the repository.

  seed.py confirm ID...   applies, builds, stable tests pass, demo 0 before / nonzero after
  seed.py check ID...     runs the property's quick check against the changed copy
Scratch: /tmp/rs (repository copy), /tmp/rsb (check build).  Not used by any check.
"""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RS, RB, DD = "/tmp/rs", "/tmp/rsb", "/tmp/rsd"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def prep():
    if not os.path.isdir(RS):
        sh("git clone -q /repo %s" % RS)
    sh("git checkout -q -- . ; git clean -fdq src; git pull -q /repo", cwd=RS)
    for n in ("build.sh", "test.sh"):
        s = open("/opt/vp/" + n).read().replace("/repo", RS).replace("/opt/vp/build.sh", "/tmp/rs_build.sh")
        open("/tmp/rs_" + n, "w").write(s)
def build(): return sh("bash /tmp/rs_build.sh")
def demo(i):
    shutil.rmtree(DD, ignore_errors=True); os.makedirs(DD)
    for f in os.listdir("%s/seeded/%s" % (V, i)):
        if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy("%s/seeded/%s/%s" % (V, i, f), DD)
    try: r = sh("bash %s/demo.sh" % DD, cwd=RS, timeout=300)
    except subprocess.TimeoutExpired: return 124, "timeout"
    return r.returncode, r.stdout[-600:]
def stable():
    sh("bash /tmp/rs_test.sh /tmp/rs_o.json")
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/rs_o.json"))
    st = b.get("stable") or b.get("passed"); st = set(st if isinstance(st, list) else st.keys())
    return st - set(o["passed"])
prep()
mode, ids = sys.argv[1], sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    m = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    if mode == "confirm":
        if build().returncode: print(i, "base build failed"); continue
        d0 = demo(i)
        a = sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=RS)
        if a.returncode: print(i, "does not apply", a.stdout); continue
        b = build()
        if b.returncode: print(i, "does not build", b.stdout[-2000:])
        else:
            miss = stable(); d1 = demo(i); ds = [demo(i)[0] for _ in range(2)]
            ok = d0[0] == 0 and d1[0] != 0 and not miss and all(ds)
            print(i, "OK" if ok else "BAD", "base", d0 if d0[0] else 0, "patched", d1[0], d1[1][-150:].strip().replace("\n", " | "), ds, "missing", miss, flush=True)
    else:
        sh("git apply %s/seeded/%s/patch.diff" % (V, i), cwd=RS)
        props = os.environ.get("PROPS", m["property"]).split()
        for p in props:
            r = sh("python3 check.py %s --noshrink %s" % (p, os.environ.get("ARGS", "")), cwd=V, env=dict(os.environ, VERIF_REPO=RS, VERIF_BUILD=RB, VERIF_EVIDENCE="/tmp/rsev"))
            print(i, p, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout else "missed rc %d" % r.returncode, [l for l in r.stdout.splitlines() if "VIOL" in l or "quick" in l][:2], flush=True)
    sh("git checkout -q -- .", cwd=RS)
