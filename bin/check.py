#!/usr/bin/env python3
"""Decides one property by seeded simulation: builds the simulator from /repo's working tree, searches, gates, minimises,
reports.  usage: check.py <property>   (VERIF_SEED, VERIF_TIER from the environment)
       check.py --replay <file>        re-runs a replay file;   check.py --determinism <property> <n>   self-test"""
import hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
OUT = os.path.join(V, "out")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
SERVER = ["C%02d" % i for i in range(1, 14)] + ["C25", "C27"]
LIB = ["C%02d" % i for i in range(14, 19)] + ["C26"]
CLIENT = ["C%02d" % i for i in range(19, 25)]


def env_int(k, d):
    try:
        return int(os.environ.get(k, d))
    except ValueError:
        return d


def kind(prop):
    return "server" if prop in SERVER else "race" if prop == "C14" else "lib" if prop in LIB else {p: "client" for p in CLIENT}[prop]


def tree_hash(what):
    h = hashlib.sha256()
    roots = [os.path.join(V, "sim")]
    roots += {"server": [REPO + "/parser", REPO + "/nclangsrv", REPO + "/conf"], "lib": [REPO + "/parser", REPO + "/conf"], "race": [REPO + "/parser", REPO + "/conf"],
              "client": [REPO + "/vscode-client/src", REPO + "/vscode-client/tsconfig.json"]}[what]
    for r in roots:
        for d, ds, fs in sorted(os.walk(r)) if os.path.isdir(r) else [(os.path.dirname(r), [], [os.path.basename(r)])]:
            ds[:] = sorted(x for x in ds if x not in ("node_modules", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def build(what):
    os.makedirs(BUILD, exist_ok=True)
    stamp = os.path.join(BUILD, "stamp-" + what)
    th = tree_hash(what)
    exe = os.path.join(BUILD, {"server": "server_sim", "lib": "lib_sim", "race": "race_sim", "client": "client_sim.js"}[what])
    if os.path.exists(stamp) and open(stamp).read() == th and os.path.exists(exe):
        return exe
    t = time.time()
    r = subprocess.run(["bash", os.path.join(V, "sim/build.sh"), BUILD, what], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       env=dict(os.environ, REPO=REPO))
    if r.returncode:
        sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
        print("ERROR: build failed")
        sys.exit(2)
    open(stamp, "w").write(th)
    print("built %s from %s in %.1f s" % (exe, REPO, time.time() - t), flush=True)
    return exe


def cmd(prop, exe):
    return ["node", exe] if kind(prop) == "client" else [exe]


def run_json(c, timeout):
    p = subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
    line = p.stdout.decode(errors="surrogateescape").split("\n")[0]
    try:
        return json.loads(line)
    except ValueError:
        return {"cls": "error", "hash": "rc%d %s" % (p.returncode, line[:200]), "detail": ""}


def load(path):
    return json.load(open(path, errors="surrogateescape"))


def clean(x):
    if isinstance(x, str):
        return x.encode("utf-8", "surrogateescape").decode("utf-8", "backslashreplace")
    if isinstance(x, list):
        return [clean(y) for y in x]
    if isinstance(x, dict):
        return {k: clean(y) for k, y in x.items()}
    return x


def merge(into, d):
    for k, v in d.items():
        into[k] = into.get(k, 0) + v


def replay_of(prop, exe, plan_file):
    extra = ["--repo", REPO]
    return run_json(cmd(prop, exe) + ["replay", "--plan", plan_file] + extra, 300)


def known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)).get("findings", []) if os.path.exists(p) else []


def match_known(prop, v):
    for k in known():
        if k.get("property") == prop and k.get("status") == "known" and re.search(k["class"], v["cls"]) and re.search(k["detail"], v["detail"], re.S):
            return k
    return None


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = env_int("VERIF_SEED", 1)
    t0 = time.time()
    what = kind(prop)
    meta = json.load(open(os.path.join(V, "bin/props.json")))[prop]
    exe = build(what)
    secs = float(os.environ.get("VERIF_TIME", meta.get("quick_s", 25) if tier == "quick" else meta.get("thorough_s", 420)))
    tmp = os.path.join(OUT, "%s-%d" % (prop, os.getpid()))
    os.makedirs(tmp, exist_ok=True)
    try:
        rc = search(prop, tier, seed, exe, secs, tmp, meta, what, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def search(prop, tier, seed, exe, secs, tmp, meta, what, t0):
    print("property %s seed %d tier %s: %d workers, %.0f s" % (prop, seed, tier, WORKERS, secs), flush=True)
    ts = time.time()
    procs = []
    for w in range(WORKERS):
        c = cmd(prop, exe) + ["run", "--prop", prop, "--seed", str(seed), "--start", str(w), "--step", str(WORKERS), "--time", str(secs),
                              "--min", str(meta.get("min_runs", 20)), "--max-time", str(min(secs * 4, secs + 120)), "--out", "%s/w%d.json" % (tmp, w), "--cover", "%s/c%d" % (tmp, w),
                              "--max-violations", "40" if known() else "2", "--hashes", "1", "--repo", REPO]
        procs.append(subprocess.Popen(c, stdout=subprocess.DEVNULL, stderr=open("%s/e%d" % (tmp, w), "w")))
    for p in procs:
        try:
            p.wait(timeout=secs * 4 + 300)
        except subprocess.TimeoutExpired:
            for q in procs:
                q.kill()
            print("ERROR: worker did not finish")
            return 2
    wall = time.time() - ts
    agg = {"runs": 0, "nontrivial": 0, "sim_ns": 0, "steps": 0, "ref_runs": 0}
    probes, faults, ops, ends, shapes, nshapes, samples, viol, hashes = {}, {}, {}, {}, set(), set(), [], [], {}
    cover = bytearray(65536)
    for w in range(WORKERS):
        f = "%s/w%d.json" % (tmp, w)
        if not os.path.exists(f):
            print("ERROR: worker %d failed: %s" % (w, open("%s/e%d" % (tmp, w), errors="replace").read()[-500:]))
            return 2
        d = load(f)
        for k in agg:
            agg[k] += d.get(k, 0)
        merge(probes, d["probes"]); merge(faults, d["faults"]); merge(ops, d["ops"]); merge(ends, d["ends"])
        shapes.update(d["shapes"]); nshapes.update(d["nshapes"])
        samples += d["samples"]
        viol += d["violations"]
        for h in d.get("hashes", []):
            i, x, *_ = h.split(" ")
            hashes[int(i)] = x
        cf = "%s/c%d" % (tmp, w)
        if os.path.exists(cf):
            for i, b in enumerate(open(cf, "rb").read()):
                if b:
                    cover[i] = 1
    # determinism: a sample of the runs again, in another process with another division of the work
    det, differ = 0, []
    n = min(len(hashes), meta.get("recheck", 10))
    if n:
        f = "%s/det.json" % tmp
        first = sorted(hashes)[:1][0]
        c = cmd(prop, exe) + ["run", "--prop", prop, "--seed", str(seed), "--start", str(first), "--step", "1", "--count", str(n), "--time", "120",
                              "--out", f, "--max-violations", "1000", "--hashes", "1", "--repo", REPO]
        subprocess.run(c, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        for h in (load(f).get("hashes", []) if os.path.exists(f) else []):
            i, x, *_ = h.split(" ")
            if int(i) in hashes:
                det += 1
                if hashes[int(i)] != x:
                    differ.append(int(i))
    viol.sort(key=lambda v: v["index"])
    # gate: every reported violation reproduces exactly, in fresh processes, before and after minimising
    reported, findings, dropped = None, {}, []
    for v in viol:
        k = match_known(prop, v)
        if k:
            findings.setdefault(k["id"], k)
            continue
        if reported or len(dropped) > 3:
            continue
        pf = "%s/plan.json" % tmp
        open(pf, "w", errors="surrogateescape").write(v["plan"])
        a, b = replay_of(prop, exe, pf), replay_of(prop, exe, pf)
        if a["cls"] in ("", "error") or a["hash"] != b["hash"] or b["cls"] != a["cls"]:
            dropped.append({"index": v["index"], "cls": v["cls"], "first": a, "second": b})
            continue
        os.makedirs(OUT, exist_ok=True)
        rf = os.path.join(OUT, "replay-%s-%d-%d.json" % (prop, seed, v["index"]))
        sf = "%s/small.json" % tmp
        try:
            subprocess.run(cmd(prop, exe) + ["shrink", "--plan", pf, "--out", sf, "--budget", str(meta.get("shrink_s", 40)), "--repo", REPO],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        except subprocess.TimeoutExpired:
            pass
        use = pf
        if os.path.exists(sf):
            c, d = replay_of(prop, exe, sf), replay_of(prop, exe, sf)
            if c["cls"] == a["cls"] and c["hash"] == d["hash"]:
                # minimising must not turn an unknown violation into a known one
                if not match_known(prop, {"cls": c["cls"], "detail": c["detail"]}):
                    use, a = sf, c
        shutil.copy(use, rf)
        reported = (rf, v, a)
    if differ and not reported:
        print("ERROR: runs %s are not deterministic" % differ[:5])
        return 2
    for k in findings.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if reported:
        rf, v, a = reported
        print("seed %d run %d: %s: %s" % (seed, v["index"], a["cls"], a["detail"][:600].encode(errors="replace").decode()))
        print("minimised to %s operations, %s faults (trace hash %s); replay: bin/check.py --replay %s" % (a.get("ops"), a.get("faults"), a["hash"], rf))
    elif dropped:
        print("ERROR: violations that do not reproduce: %s" % json.dumps(dropped)[:1000])
        return 2
    total = time.time() - t0
    cov = {
        "evaluations": agg["runs"], "distinct_nontrivial": len(nshapes), "rule": meta["rule"], "samples": samples[:3],
        "runs_per_hour": int(agg["runs"] / max(wall, 0.1) * 3600), "seeds_per_hour": int(agg["runs"] / max(wall, 0.1) * 3600),
        "simulated_seconds": round(agg["sim_ns"] / 1e9, 3), "nontrivial_runs": agg["nontrivial"], "distinct_interleavings": len(shapes),
        "distinct_measure": meta.get("measure", "sequence of submissions, arrivals, answers, file events, fired faults and process ends"),
        "basic_blocks_executed": agg["steps"], "basic_block_slots_covered": sum(cover), "reference_runs": agg["ref_runs"],
        "faults_injected": faults, "operations": ops, "rare_conditions_hit": probes, "process_ends": ends,
        "determinism_rechecked": det, "determinism_differences": len(differ), "workers": WORKERS,
        "components_real": meta["real"], "components_stub": meta["stub"], "search_wall_s": round(wall, 1)}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "assumptions": meta.get("assumptions", []),
          "wall_s": round(total, 1), "violations": 1 if reported else 0}
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    s = json.dumps(clean(ev), indent=1)
    open(os.path.join(V, "evidence", prop + ".json"), "w").write(s + "\n")
    print("%d runs (%d distinct non-trivial), %.1f simulated s, %d fault events, %.1f s" %
          (agg["runs"], len(nshapes), agg["sim_ns"] / 1e9, sum(faults.values()), total))
    if reported:
        print("VIOLATION property=%s replay=%s" % (prop, reported[0]), flush=True)
        return 1
    print("held on everything explored")
    return 0


def replay_main(f):
    plan = load(f)
    prop = plan["prop"]
    exe = build(kind(prop))
    c = cmd(prop, exe) + ["replay", "--plan", f, "--trace", "1", "--repo", REPO]
    sys.exit(subprocess.run(c).returncode)


def determinism(prop, n):
    exe = build(kind(prop))
    os.makedirs(OUT, exist_ok=True)
    res = []
    for step in (1, 3, 7):
        ps = []
        for w in range(step):
            f = "%s/det-%s-%d-%d.json" % (OUT, prop, step, w)
            ps.append((f, subprocess.Popen(cmd(prop, exe) + ["run", "--prop", prop, "--seed", "4242", "--start", str(w), "--step", str(step), "--count", str(-(-n // step)),
                                           "--time", "3000", "--out", f, "--max-violations", "100000", "--hashes", "1", "--repo", REPO],
                                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
        m = {}
        for f, p in ps:
            p.wait()
            for h in load(f)["hashes"]:
                i, x = h.split(" ", 1)
                m[int(i)] = x
            os.unlink(f)
        res.append(m)
    bad = [i for i in range(n) if len({m.get(i) for m in res}) != 1]
    print("%s: %d runs x 3 divisions of the work, %d differ %s" % (prop, n, len(bad), bad[:10]))
    return 1 if bad else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        replay_main(sys.argv[2])
    elif sys.argv[1] == "--determinism":
        sys.exit(determinism(sys.argv[2], int(sys.argv[3])))
    else:
        main()
