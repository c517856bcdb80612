#!/usr/bin/env python3
"""Build a simulator from /repo's working tree, run seeded batches for one
property, minimise and replay what fails, write the evidence file.

  check.py PROPERTY              tier from VERIF_TIER, seed from VERIF_SEED
  check.py --replay FILE         rebuild and replay a violation
  check.py --determinism PROPERTY [RUNS]
"""
import hashlib, json, os, re, shutil, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BEZMAN_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "clang++"
sys.path.insert(0, os.path.join(VERIF, "bin"))
from config import HARNESSES, PROPS  # noqa: E402

NW = 8


def fail(msg):
    print("check error:", msg)
    sys.exit(2)


def tree_hash(paths, extra):
    h = hashlib.sha256(extra.encode())
    for root in paths:
        files = []
        if os.path.isfile(root):
            files = [root]
        else:
            for d, dn, fn in os.walk(root):
                dn.sort()
                files += [os.path.join(d, f) for f in sorted(fn)]
        for f in files:
            h.update(f.encode())
            with open(f, "rb") as fp:
                h.update(fp.read())
    return h.hexdigest()[:16]


def build(name):
    """Compiles harness `name` (in parallel) and returns the binary."""
    hs = HARNESSES[name]
    key = tree_hash([os.path.join(REPO, "src"), SIM], json.dumps(hs, sort_keys=True))
    out = os.path.join(BUILD, f"{name}-{key}")
    exe = os.path.join(out, name)
    if os.path.exists(exe):
        return exe, 0.0
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    for d in os.listdir(BUILD):  # earlier builds of this harness
        old = time.time() - os.path.getmtime(os.path.join(BUILD, d)) > 3600
        if d.startswith(name + "-") and (old or ".tmp" not in d):
            shutil.rmtree(os.path.join(BUILD, d), ignore_errors=True)
    tmp = out + f".tmp{os.getpid()}"
    inc = os.path.join(tmp, "inc")
    os.makedirs(inc)
    os.symlink(REPO, os.path.join(inc, "bezman"))

    def one(item):
        i, (src, flags) = item
        obj = os.path.join(tmp, f"{i}.o")
        cmd = [CXX, "-std=c++17", "-I" + inc, "-I" + SIM] + flags + \
              ["-c", os.path.join(SIM, src), "-o", obj]
        r = subprocess.run(cmd, capture_output=True, text=True)
        return obj, r, src

    with ThreadPoolExecutor(NW) as ex:
        res = list(ex.map(one, enumerate(hs["tus"])))
    for obj, r, src in res:
        if r.returncode:
            print(r.stderr[-4000:])
            shutil.rmtree(tmp, ignore_errors=True)
            fail(f"{src} does not compile against {REPO}")
    exe_t = os.path.join(tmp, name)
    r = subprocess.run([CXX] + [o for o, _, _ in res] + hs["link"] + ["-o", exe_t],
                       capture_output=True, text=True)
    if r.returncode:
        print(r.stderr[-4000:])
        shutil.rmtree(tmp, ignore_errors=True)
        fail("link error")
    for o, _, _ in res:
        os.unlink(o)
    try:
        os.rename(tmp, out)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe, time.time() - t0


def parse(path):
    d = {"samples": [], "violations": [], "count": {}, "hash": {}}
    with open(path, errors="replace") as fp:
        for l in fp:
            k, _, v = l.rstrip("\n").partition(" ")
            if k == "sample":
                d["samples"].append(v)
            elif k == "violation":
                i, cls, f, msg = v.split(" ", 3) if v.count(" ") >= 3 else v.split(" ") + [""]
                d["violations"].append((int(i), cls, f, msg))
            elif k == "count":
                n, tot, runs = v.rsplit(" ", 2)
                d["count"][n] = (int(tot), int(runs))
            elif k == "hash":
                i, h, viol = v.split()
                d["hash"][int(i)] = (h, viol)
            elif k in ("runs", "skipped", "ticks"):
                d[k] = int(v)
            elif k == "wall":
                d[k] = float(v)
    return d


def u64s(path):
    with open(path, "rb") as fp:
        b = fp.read()
    return set(struct.unpack("<%dQ" % (len(b) // 8), b))


def batch(exe, prop, seed, runs, secs, work, nw=NW, mode="-"):
    procs = []
    for w in range(nw):
        out = os.path.join(work, f"w{w}")
        procs.append((out, subprocess.Popen(
            [exe, "batch", prop, str(seed), str(w), str(nw), str(runs), str(secs), out, mode],
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, cwd=work)))
    res = []
    for out, p in procs:
        try:
            _, err = p.communicate(timeout=secs + 200)
        except subprocess.TimeoutExpired:
            p.kill()
            fail("a simulation worker did not end")
        if p.returncode or not os.path.exists(out):
            fail(f"simulation worker failed with {p.returncode}: {err[-600:]}")
        d = parse(out)
        d["sigs"] = u64s(out + ".sigs")
        d["runhashes"] = u64s(out + ".runs")
        res.append(d)
    return res


def run_harness(exe, args, work, timeout=300):
    r = subprocess.run([exe] + args, capture_output=True, text=True, cwd=work, timeout=timeout)
    d = {}
    for l in r.stdout.splitlines():
        k, _, v = l.partition(" ")
        d.setdefault(k, v)
    d["rc"] = r.returncode
    d["out"] = r.stdout
    return d


def report(prop, harness, exe, viols, seed, work):
    """Minimise, gate and report the first reproducible violation."""
    for idx, cls, planfile, msg in sorted(viols)[:4]:
        mini = os.path.join(work, f"mini{idx}")
        cands = []
        try:
            m = run_harness(exe, ["minimise", planfile, mini, "45"], work, 400)
            if m["rc"] == 1 and os.path.exists(mini):
                cands.append(mini)
        except subprocess.TimeoutExpired:
            pass
        cands.append(planfile)
        for c in cands:
            a = run_harness(exe, ["replay", c], work)
            b = run_harness(exe, ["replay", c], work)
            same = all(a.get(k) == b.get(k) for k in ("class", "step", "op", "msg", "hash"))
            if a["rc"] == 1 and b["rc"] == 1 and same and a["class"] == cls:
                os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
                with open(c) as fp:
                    text = fp.read()
                trace = run_harness(exe, ["trace", c], work)["out"].splitlines()
                path = os.path.join(VERIF, "replays", f"{prop}-{seed}-{idx}.json")
                with open(path, "w") as fp:
                    json.dump({"property": prop, "harness": harness, "seed": seed, "run": idx,
                               "minimised": c == mini,
                               "violation": {k: a[k] for k in ("class", "step", "op", "msg", "hash")},
                               "trace": trace, "plan": text}, fp, indent=1)
                print(f"{prop}: {a['class']} at step {a['step']} ({a['op']}): {a['msg']}")
                for t in trace[:40]:
                    print("   ", t)
                print(f"VIOLATION property={prop} replay={path}")
                return path
            print(f"run {idx}: violation '{cls}: {msg}' did not replay identically "
                  f"({a.get('class')}/{b.get('class')}, {a.get('hash')}/{b.get('hash')})")
    return None


def main():
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        with open(sys.argv[2]) as fp:
            r = json.load(fp)
        exe, _ = build(r["harness"])
        work = os.path.join(BUILD, f"work-replay-{os.getpid()}")
        os.makedirs(work)
        f = os.path.join(work, "plan")
        with open(f, "w") as fp:
            fp.write(r["plan"])
        d = run_harness(exe, ["replay", f], work)
        shutil.rmtree(work)
        print(d["out"], end="")
        same = d["rc"] == 1 and all(d.get(k) == v for k, v in r["violation"].items())
        print("reproduced exactly" if same else "not reproduced (or differently)")
        if d["rc"] == 1:
            print(f"VIOLATION property={r['property']} replay={sys.argv[2]}")
        sys.exit(1 if d["rc"] == 1 else 0)

    det = len(sys.argv) > 2 and sys.argv[1] == "--determinism"
    prop = sys.argv[2] if det else sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = PROPS[prop]
    t0 = time.time()
    work = os.path.join(BUILD, f"work-{prop}-{os.getpid()}")
    os.makedirs(work)
    try:
        if det:
            determinism(prop, cfg, int(sys.argv[3]) if len(sys.argv) > 3 else 400, work)
            return
        rc = check(prop, cfg, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def determinism(prop, cfg, runs, work):
    ok = True
    for job in cfg["jobs"]:
        exe, _ = build(job["harness"])
        ref = None
        for seed in (1, 7):
            ref = None
            for nw in (8, 3, 8, 1):
                w = os.path.join(work, f"{job['harness']}-{seed}-{nw}")
                os.makedirs(w, exist_ok=True)
                n = runs if nw > 1 else runs // 4
                res = batch(exe, job.get("prop", prop), seed, n, 900, w, nw, "hashes")
                h = {}
                for d in res:
                    h.update(d["hash"])
                if ref is None:
                    ref = h
                diff = [i for i in h if h[i] != ref[i]]
                print(f"{prop} {job['harness']} seed {seed} workers {nw}: {len(h)} runs, {len(diff)} differ {diff[:5]}")
                ok = ok and not diff
    sys.exit(0 if ok else 2)


def check(prop, cfg, tier, seed, work, t0):
    jobs = cfg["jobs"]
    agg = {"runs": 0, "skipped": 0, "ticks": 0}
    counts = {}
    sigs, runh, samples = set(), set(), []
    build_s = run_s = 0.0
    per_job = []
    names = sorted({j["harness"] for j in jobs})
    exes = {}
    for n in names:
        exes[n], s = build(n)
        build_s += s
    rc, nviol = 0, 0
    for job in jobs:
        exe = exes[job["harness"]]
        runs, secs = job[tier]
        w = os.path.join(work, f"{job['harness']}-{job.get('prop', prop)}")
        os.makedirs(w)
        t1 = time.time()
        res = batch(exe, job.get("prop", prop), seed, runs, secs, w)
        run_s += time.time() - t1
        viols = []
        jr = 0
        for d in res:
            for k in agg:
                agg[k] += d.get(k, 0)
            jr += d["runs"]
            for n, (a, b) in d["count"].items():
                x = counts.setdefault(n, [0, 0])
                x[0] += a
                x[1] += b
            sigs |= d["sigs"]
            runh |= d["runhashes"]
            viols += d["violations"]
        samples += res[0]["samples"][:2]
        per_job.append({"harness": job["harness"], "workload": job.get("prop", prop), "runs": jr,
                        "seconds": round(time.time() - t1, 1)})
        if viols:
            nviol += len(viols)
            if report(prop, job["harness"], exe, viols, seed, w):
                rc = 1
                break
            rc = 2
            break
    wall = time.time() - t0
    faults = {n[7:]: {"injected": a, "runs": b} for n, (a, b) in counts.items() if n.startswith("fault: ")}
    probes = {n: {"times": a, "runs": b} for n, (a, b) in counts.items() if not n.startswith("fault: ")}
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg["runs"], "distinct_nontrivial": len(runh), "rule": cfg["rule"],
            "samples": samples[:6],
            "runs_refused_as_inadmissible": agg["skipped"],
            "runs_per_hour": int(agg["runs"] / max(run_s, 1e-3) * 3600),
            "seeds": f"base seed {seed}; run i uses mix(seed*1000003+i), i < {agg['runs']}",
            "jobs": per_job,
            "simulated_time": {"unit": cfg.get("tick", "simulator events (library calls, allocations, steps)"),
                               "total": agg["ticks"]},
            "distinct_states": {"measure": cfg["measure"], "count": len(sigs)},
            "faults": faults, "activity": probes,
            "real_code": cfg["real"], "stubs": cfg["stub"],
        },
        "assumptions": cfg.get("assumptions", []),
        "wall_s": round(wall, 2), "build_s": round(build_s, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    if rc == 2:
        print(f"{prop}: a violation was seen that does not replay; no verdict")
    elif rc == 0:
        print(f"{prop}: held on {agg['runs']} simulated runs ({len(runh)} distinct non-trivial, "
              f"{len(sigs)} states), {wall:.1f} s")
    if agg["runs"] == 0:
        fail("no run was executed")
    return rc


if __name__ == "__main__":
    main()
