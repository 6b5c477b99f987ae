"""Seeds, workers, minimisation, replay files and evidence."""
import collections
import copy
import gc
import hashlib
import importlib
import json
import os
import random
import re
import subprocess
import sys
import tempfile
import threading
import time
import traceback

from dst import boot, core
from dst.registry import CHECKS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("DST_OUT", ROOT)  # evidence and replay files
WALL_CAP = {"quick": 700.0, "thorough": 6 * 3600.0}
TIME = {"quick": 500.0, "thorough": 5 * 3600.0}  # a check ends by then with the runs it has done


def env():
    e = dict(os.environ)
    e["PYTHONHASHSEED"] = e.get("DST_HASHSEED", "0")
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYTHONPATH"] = ROOT
    e.pop("PYTHONASYNCIODEBUG", None)
    e["PYTHONWARNINGS"] = "ignore"
    return e


def scenario(name):
    return importlib.import_module("dst.scen." + name)


def derive(base, prop, scen, i):
    h = hashlib.blake2b(f"{base}/{prop}/{scen}/{i}".encode(), digest_size=6)
    return int.from_bytes(h.digest(), "big")


def make_plan(base, prop, scen, i, tier):
    seed = derive(base, prop, scen, i)
    rng = random.Random(f"{seed}/plan")
    plan = scenario(scen).gen(rng, tier, prop)
    plan = {"scenario": scen, "seed": seed, **plan}
    return json.loads(json.dumps(plan))  # what a replay file would contain


_runs = 0


def run_plan(plan):
    """Runs one simulation and returns its Sim."""
    global _runs
    _runs += 1
    if _runs == 1:
        scenario(plan["scenario"])
        gc.collect()
        gc.freeze()
    if _runs % 25 == 0:
        gc.collect()
    return scenario(plan["scenario"]).run(copy.deepcopy(plan))


def known_findings():
    out = []
    try:
        with open(os.path.join(ROOT, "known-findings.txt")) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) scenario=(\S+) cls=(\S+) match=(\S+) (.*)", line)
                if m:
                    out.append(m.groups())
    except FileNotFoundError:
        pass
    return out


def split_known(plan, violations, known):
    new, old = [], []
    for v in violations:
        for p, scen, cls, pat, text in known:
            if v["prop"] == p and plan["scenario"] == scen and v["cls"] == cls and re.search(pat, v["msg"]):
                old.append((p, text))
                break
        else:
            new.append(v)
    return new, old


# ---------------------------------------------------------------- worker
def worker(prop, tier, base, idx, n, out):
    known = known_findings()
    agg = {
        "runs": 0,
        "sim_s": 0.0,
        "steps": 0,
        "events": 0,
        "nontrivial": 0,
        "faults": collections.Counter(),
        "probes": collections.Counter(),
        "shapes": {},
        "scenarios": collections.Counter(),
        "stats": collections.Counter(),
        "samples": [],
        "known": [],
        "found": None,
        "error": None,
    }
    core.checked = prop
    order = []
    for scen, quick, thorough in CHECKS[prop]:
        total = quick if tier == "quick" else thorough
        scale = float(os.environ.get("DST_SCALE", "1"))
        total = max(1, int(total * scale))
        order += [((i + 0.5) / total, scen, i) for i in range(idx, total, n)]
    order.sort()
    last = []
    errors = 0
    deadline = boot.real_monotonic() + TIME[tier]
    for _, scen, i in order:
        if errors > 20 or boot.real_monotonic() > deadline:
            break
        plan = make_plan(base, prop, scen, i, tier)
        try:
            sim = run_plan(plan)
        except Exception:
            errors += 1
            agg["error"] = agg["error"] or f"{scen} {i}: {traceback.format_exc()[-2500:]}"
            continue
        agg["runs"] += 1
        agg["scenarios"][scen] += 1
        agg["sim_s"] += sim.loop.vtime
        agg["steps"] += sim.loop.steps
        agg["events"] += len(sim.log)
        agg["faults"].update(sim.faults)
        agg["probes"].update(sim.probes)
        agg["stats"].update(sim.stats)
        if sim.nontrivial:
            agg["nontrivial"] += 1
            agg["shapes"][scen[:2] + sim.shape()] = 1
        if len(agg["samples"]) < 1 and sim.nontrivial:
            agg["samples"].append(sample(plan, sim))
        mine = [v for v in sim.violations if v["prop"] == prop]
        new, old = split_known(plan, mine, known)
        for o in old:
            if o not in agg["known"]:
                agg["known"].append(o)
        last.append([scen, i])
        if new:
            agg["found"] = {"index": i, "scenario": scen, "violation": new[0], "prelude": last[-200:-1]}
            break
    agg["shapes"] = list(agg["shapes"])
    with open(out, "w") as f:
        json.dump(agg, f)


def sample(plan, sim):
    text = json.dumps(plan)
    if len(text) > 2500:
        text = text[:2500] + "..."
    return {
        "plan": text,
        "events": [f"{t:.4f} {' '.join(map(str, w))}"[:160] for _, t, w in sim.log[:12]],
        "digest": sim.digest,
    }


# ---------------------------------------------------------------- minimising
def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.monotonic() < deadline:
        size = max(1, len(items) // n)
        reduced = False
        start = 0
        while start < len(items) and time.monotonic() < deadline:
            cand = items[:start] + items[start + size :]
            if test(cand):
                items = cand
                n = max(n - 1, 2)
                reduced = True
            else:
                start += size
        if not reduced:
            if size == 1:
                break
            n = min(len(items), n * 2)
    return items


def minimise(plan, violation, known, seconds):
    deadline = boot.real_monotonic() + seconds
    target = (violation["prop"], violation["cls"])

    def fails(p):
        try:
            sim = run_plan(p)
        except Exception:
            return None
        new, _ = split_known(p, sim.violations, known)
        for v in new:
            if (v["prop"], v["cls"]) == target:
                return sim
        return None

    mod = scenario(plan["scenario"])
    for _ in range(3):
        before = json.dumps(plan)
        for field in getattr(mod, "SHRINK", ["ops", "faults"]):
            if not isinstance(plan.get(field), list):
                continue

            def test(cand, field=field):
                p = copy.deepcopy(plan)
                p[field] = cand
                return fails(p) is not None

            plan = {**plan, field: ddmin(plan[field], test, deadline)}
        for change in getattr(mod, "simpler", lambda p: [])(plan):
            if boot.real_monotonic() > deadline:
                break
            p = copy.deepcopy(plan)
            try:
                change(p)
            except (KeyError, IndexError, TypeError):
                continue
            p = json.loads(json.dumps(p))
            if p != plan and fails(p):
                plan = p
        if json.dumps(plan) == before or boot.real_monotonic() > deadline:
            break
    sim = fails(plan)
    if sim is None:
        return None
    v = [v for v in sim.violations if (v["prop"], v["cls"]) == target][0]
    return {
        "property": v["prop"],
        "violation": dict(v),
        "digest": sim.digest,
        "plan": plan,
        "trace": [f"{s} t={t:.6f} {' '.join(map(str, w))}"[:300] for s, t, w in sim.log[:400]],
        "faults": sim.faults,
    }


def minimise_main(inp, out):
    with open(inp) as f:
        d = json.load(f)
    core.checked = d["violation"]["prop"]
    r = minimise(d["plan"], d["violation"], known_findings(), d["seconds"])
    with open(out, "w") as f:
        json.dump(r, f)


def replay(path, quiet=False):
    """Runs a replay file; returns (reproduced, text)."""
    with open(path) as f:
        r = json.load(f)
    core.checked = r["property"]
    for scen, i in r.get("prelude", []):
        run_plan(make_plan(r["base"], r["property"], scen, i, r["tier"]))
    sim = run_plan(r["plan"])
    want = r["violation"]
    got = [v for v in sim.violations if v["prop"] == want["prop"] and v["cls"] == want["cls"]]
    same = bool(got) and got[0]["msg"] == want["msg"] and sim.digest == r["digest"]
    if not quiet:
        for s, t, w in sim.log:
            print(f"{s} t={t:.6f} {' '.join(map(str, w))}"[:400])
    if same:
        return True, f"reproduced exactly: {want['prop']} {want['cls']}: {want['msg']}"
    if got:
        return True, f"reproduced, but not exactly (the code changed?): {got[0]['msg']}"
    return False, "not reproduced: the property held on this schedule"


# ---------------------------------------------------------------- check
def sub(args, **kw):
    return subprocess.Popen(
        [sys.executable, "-B", "-m", "dst.main", *args], env=env(), cwd=ROOT, **kw
    )


def check(prop, tier, base):
    t0 = time.monotonic()
    n = int(os.environ.get("DST_JOBS", str(min(8, os.cpu_count() or 1))))
    tmp = tempfile.mkdtemp(prefix="dst-")
    try:
        return _check(prop, tier, base, n, tmp, t0)
    finally:
        for f in os.listdir(tmp):
            os.unlink(os.path.join(tmp, f))
        os.rmdir(tmp)


def _check(prop, tier, base, n, tmp, t0):
    procs = []
    for k in range(n):
        out = os.path.join(tmp, f"w{k}.json")
        err = open(os.path.join(tmp, f"w{k}.err"), "w")
        procs.append((k, out, sub(["worker", prop, tier, str(base), str(k), str(n), out], stderr=err)))
        err.close()
    results = {}
    failed = None
    stop_at = None
    cap = t0 + WALL_CAP[tier]
    pending = list(procs)
    while pending:
        for item in list(pending):
            k, out, p = item
            if p.poll() is None:
                continue
            pending.remove(item)
            if p.returncode != 0 or not os.path.exists(out):
                with open(os.path.join(tmp, f"w{k}.err")) as f:
                    failed = failed or (k, p.returncode, f.read()[-3000:])
                continue
            with open(out) as f:
                results[k] = json.load(f)
            if results[k]["error"]:
                failed = failed or (k, 0, results[k]["error"])
            if results[k]["found"] and stop_at is None:
                stop_at = time.monotonic() + 2.0
        now = time.monotonic()
        if (stop_at and now > stop_at) or now > cap:
            for _, _, p in pending:
                p.kill()
            for _, _, p in pending:
                p.wait()
            if now > cap and not stop_at:
                failed = failed or (-1, 0, "wall time cap reached")
            break
        time.sleep(0.05)
    found = sorted(
        (r["found"]["index"], k) for k, r in results.items() if r["found"]
    )
    violation = None
    if found:
        violation = results[found[0][1]]["found"]
        report = make_report(prop, tier, base, violation, tmp)
    wall = time.monotonic() - t0
    evidence(prop, tier, base, results, wall, violation, procs_n=n)
    for p, text in sorted({tuple(o) for r in results.values() for o in r["known"]}):
        print(f"KNOWN-FINDING: property={p} {text}")
    if violation:
        v = violation["violation"]
        print(f"{v['prop']} {v['cls']}: {v['msg']}")
        print(f"VIOLATION property={prop} replay={report}")
        return 1
    if failed:
        print(f"ERROR: worker {failed[0]} ended with {failed[1]}:\n{failed[2]}", file=sys.stderr)
        return 2
    agg_runs = sum(r["runs"] for r in results.values())
    print(f"{prop}: held in {agg_runs} simulated runs ({wall:.1f} s)")
    return 0


def make_report(prop, tier, base, found, tmp):
    scen, i = found["scenario"], found["index"]
    plan = make_plan(base, prop, scen, i, tier)
    rdir = os.path.join(OUT, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}-{scen}-{plan['seed']}.json")
    inp, out = os.path.join(tmp, "min.in"), os.path.join(tmp, "min.out")

    def attempt(seconds):
        with open(inp, "w") as f:
            json.dump({"plan": plan, "violation": found["violation"], "seconds": seconds}, f)
        if os.path.exists(out):
            os.unlink(out)
        p = sub(["minimise", inp, out], stderr=subprocess.DEVNULL)
        try:
            p.wait(seconds + 90)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return None
        if p.returncode or not os.path.exists(out):
            return None
        with open(out) as f:
            return json.load(f)

    def confirmed(r):
        if r is None:
            return False
        r = {"base": base, "tier": tier, **r}
        with open(path, "w") as f:
            json.dump(r, f, indent=1)
        p = sub(["replay", path, "quiet"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        try:
            o, _ = p.communicate(timeout=120)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return False
        return "reproduced exactly" in o

    for seconds in (60.0, 0.0):
        if confirmed(attempt(seconds)):
            return path
    # Only reproducible after earlier runs of the same process (state leaks between runs): replay those too.
    raw = {
        "property": prop,
        "violation": found["violation"],
        "digest": None,
        "plan": plan,
        "prelude": found["prelude"],
        "note": "needs the earlier runs listed in prelude (state of the code under test survives between them)",
        "base": base,
        "tier": tier,
    }
    with open(path, "w") as f:
        json.dump(raw, f, indent=1)
    return path


def evidence(prop, tier, base, results, wall, violation, procs_n):
    tot = collections.Counter()
    faults, probes, scens, stats = (collections.Counter() for _ in range(4))
    shapes = set()
    samples = []
    for r in results.values():
        for k in ("runs", "sim_s", "steps", "events", "nontrivial"):
            tot[k] += r[k]
        faults.update(r["faults"])
        probes.update(r["probes"])
        scens.update(r["scenarios"])
        stats.update(r["stats"])
        shapes.update(r["shapes"])
        samples += r["samples"]
    mods = [scenario(s) for s, _, _ in CHECKS[prop]]
    cov = {
        "evaluations": tot["runs"],
        "distinct_nontrivial": len(shapes),
        "rule": "one evaluation is one simulated run of one seed (workload, schedule, clocks and faults all drawn "
        "from it); runs are distinct when the order of their recorded events differs (times ignored), and "
        "non-trivial when " + "; ".join(dict.fromkeys(m.NONTRIVIAL for m in mods)),
        "runs_per_scenario": dict(scens),
        "nontrivial_runs": tot["nontrivial"],
        "seeds_per_hour": int(tot["runs"] / max(wall, 0.01) * 3600),
        "simulated_seconds": round(tot["sim_s"], 1),
        "loop_callbacks_run": tot["steps"],
        "events_recorded": tot["events"],
        "faults_injected": dict(sorted(faults.items())),
        "situations_reached": dict(sorted(probes.items())),
        "counts": dict(sorted(stats.items())),
        "worker_processes": procs_n,
        "real_components": sorted({c for m in mods for c in m.REAL}),
        "stub_components": sorted({c for m in mods for c in m.STUB}),
        "samples": samples[:3],
    }
    doc = {
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": cov,
        "assumptions": list(dict.fromkeys(a for m in mods for a in getattr(m, "ASSUMPTIONS", []))),
        "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
    }
    d = os.path.join(OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, f"{prop}.json"), "w") as f:
        json.dump(doc, f, indent=1)
