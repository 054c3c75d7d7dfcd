#!/usr/bin/env python3
"""check.py <property-id> [--tier quick|thorough] [--seed N] [--cases-scale X]

Explores generated cases of the harnesses that decide a property, shrinks and
replays any failure, writes evidence/<id>.json. Exit 0: held on everything
explored. Exit 1: a VIOLATION line was printed. Exit 2: no answer.
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
EVD = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build
from plan import PLAN, ASSUMPTIONS

NW = 8

def load_known(pid):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) replay=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=NW)
    ap.add_argument("--noshrink", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    tier = "thorough" if a.tier == "thorough" else "quick"
    plan = PLAN[a.pid]
    tmp = tempfile.mkdtemp(prefix="vs-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        return run(a, tier, plan, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def run(a, tier, plan, tmp, t0):
    pid = a.pid
    env = dict(os.environ, VS_SHM=tmp, G_SLICE="always-malloc", LC_ALL="C")
    env.pop("VS_ASLR", None); env.pop("G_MESSAGES_DEBUG", None); env.pop("G_DEBUG", None)
    limit = 240 if tier == "quick" else 780        # wall safety net for exploration
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "harnesses": []}
    rules, violations, notes = [], [], []
    exes = {}
    for part in plan:
        exes[(part["variant"], part["src"])] = build.build(part["variant"], part["src"])
    for path, text in load_known(pid):
        full = os.path.join(HERE, path)
        src = part_for(plan, full)
        r = subprocess.run([exes[(src["variant"], src["src"])], "replay", full, "3"], env=env, stdout=subprocess.PIPE, text=True)
        if r.returncode == 1:
            print("KNOWN-FINDING: property=%s %s" % (pid, text)); sys.stdout.flush()
    for part in plan:
        exe = exes[(part["variant"], part["src"])]
        cases = max(1, int(part[tier] * a.scale))
        nw = min(part.get("workers", NW), a.workers)
        left = max(20, limit - (time.time() - t0)) if tier == "quick" else max(60, limit - (time.time() - t0))
        outs = [os.path.join(tmp, "%s-%d.json" % (part["name"], w)) for w in range(nw)]
        def one(w):
            return subprocess.run([exe, "explore", part["name"], str(a.seed), str(w), str(nw), str(cases), "%.0f" % left, outs[w]],
                                  env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        with ThreadPoolExecutor(nw) as ex:
            rs = list(ex.map(one, range(nw)))
        hashes, labels, edges, fails = set(), {}, 0, []
        st = {"harness": part["name"], "variant": part["variant"], "evaluations": 0, "steps": 0, "timed_out": False, "unreproducible": 0}
        for w in range(nw):
            if rs[w].stderr.strip():
                notes.append("%s worker %d: %s" % (part["name"], w, rs[w].stderr.strip()[:600]))
            if not os.path.exists(outs[w]):
                print("harness %s worker %d gave no result: %s" % (part["name"], w, rs[w].stderr[-2000:]))
                return 2
            j = json.load(open(outs[w]))
            st["evaluations"] += j["evaluations"]; st["steps"] += j["steps"]
            st["timed_out"] |= j["timed_out"]; st["unreproducible"] += j["flaky"]
            hashes.update(j["hashes"]); edges = max(edges, j["edges"])
            for k, v in j["labels"].items():
                labels[k] = labels.get(k, 0) + v
            st["edges_total"] = j["edges_total"]
            if len(cov["samples"]) < 6 and j["samples"] and w < 3:
                cov["samples"].append(part["name"] + ":\n" + j["samples"][-1])
            st["rule"] = j["rule"]
            if j["failed"]:
                fails.append((j["draws"], j["kind"], j["msg"], j["case"]))
        st["distinct_nontrivial"] = len(hashes); st["labels"] = labels; st["edges"] = edges
        cov["harnesses"].append(st)
        cov["evaluations"] += st["evaluations"]; cov["distinct_nontrivial"] += len(hashes)
        rules.append("%s: %s" % (part["name"], st["rule"]))
        if fails:
            fails.sort()
            v = confirm(a, exe, fails, env, tmp, part, tier)
            if v:
                violations.append(v)
                break
            notes.append("%s: failures not reproduced: %s" % (part["name"], [(f[1], f[2][:300]) for f in fails]))
    cov["rule"] = "; ".join(rules)
    ev = {"property": pid, "tier": tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": ASSUMPTIONS + [n for n in notes], "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(EVD, exist_ok=True)
    with open(os.path.join(EVD, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s" % (pid, tier, a.seed, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    for n in notes:
        print("note: " + n[:400])
    for kind, msg, path in violations:
        print("  %s: %s" % (kind, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, path))
    return 1 if violations else 0

def part_for(plan, path):
    text = open(path).read()
    name = re.search(r"^harness (\S+)", text, re.M).group(1)
    src = re.search(r"^src (\S+)", text, re.M)
    for p in plan:
        if p["name"] == name or src and p["src"] == src.group(1):
            return p
    raise SystemExit("no part for " + path)

def confirm(a, exe, fails, env, tmp, part, tier):
    rdir = os.path.join(EVD, "replays")
    os.makedirs(rdir, exist_ok=True)
    real = part["variant"] == "R"
    for i, (draws, kind, msg, case) in enumerate(fails[:4]):
        small = os.path.join(tmp, "min%d.case" % i)
        shutil.copy(case, small)
        if kind != "hang" and not a.noshrink:
            m = os.path.join(tmp, "min%d.tmp" % i)
            r = subprocess.run([exe, "shrink", case, m, "3000", "30" if tier == "quick" else "120"], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            if r.returncode == 0 and os.path.exists(m):
                small = m
        n = 3 if not real else 6
        r = subprocess.run([exe, "replay", small, str(1 if kind == "hang" else n)], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
        if r.returncode != 1 and small != case:
            r2 = subprocess.run([exe, "replay", case, str(n)], env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            if r2.returncode:
                small, r = case, r2
        if r.returncode == 1 or (real and r.returncode == 2):
            path = os.path.join(rdir, "%s-%s-%d.case" % (a.pid, part["name"], a.seed))
            shutil.copy(small, path)
            txt = open(path, errors="replace").read()
            mm = re.search(r"^failure: (\S+): (.*?)(?=^-- operations)", txt, re.M | re.S)
            print(txt[txt.find("--\nfailure"):][:4000])
            return (mm.group(1) if mm else kind, mm.group(2) if mm else msg, path)
    if real and len(fails) >= 2:
        path = os.path.join(rdir, "%s-%s-%d.case" % (a.pid, part["name"], a.seed))
        shutil.copy(fails[0][3], path)
        return fails[0][1], fails[0][2], path
    return None

if __name__ == "__main__":
    try:
        sys.exit(main())
    except build.BuildError as e:
        print("build failed:\n%s" % e); sys.exit(2)
