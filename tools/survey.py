"""survey PROP SCENARIO RUNS [BASE]: every violation class seen (of any property), with examples. For development."""
import collections
import json
import os
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def work(prop, scen, n, base, idx, jobs):
    from dst import boot, runner  # noqa: F401
    out = {}
    slow = (0, 0)
    faults = collections.Counter()
    nt = 0
    for i in range(idx, n, jobs):
        a = boot.real_time()
        try:
            sim = runner.run_plan(runner.make_plan(base, prop, scen, i, "quick"))
        except Exception as e:
            out.setdefault("HARNESS/" + type(e).__name__, []).append([i, str(e)[-600:]])
            continue
        slow = max(slow, (boot.real_time() - a, i))
        faults.update(sim.faults)
        nt += sim.nontrivial
        for v in {(v["prop"], v["cls"]): v for v in reversed(sim.violations)}.values():
            out.setdefault(v["prop"] + "/" + v["cls"], []).append([i, v["msg"]])
    print(json.dumps([out, slow, faults, nt]))


def main():
    prop, scen, n = sys.argv[1], sys.argv[2], int(sys.argv[3])
    base = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    if len(sys.argv) > 5:
        return work(prop, scen, n, base, int(sys.argv[5]), int(sys.argv[6]))
    from dst import runner
    jobs = int(os.environ.get("DST_JOBS", "8"))
    t = time.time()
    ps = [subprocess.Popen([sys.executable, "-B", os.path.abspath(__file__), prop, scen, str(n), str(base), str(i), str(jobs)],
                           stdout=subprocess.PIPE, env=runner.env(), text=True) for i in range(jobs)]
    total, faults, slow, nts = {}, collections.Counter(), (0, 0), 0
    for p in ps:
        o = p.communicate()[0]
        out, s, f, nt = json.loads(o.strip().splitlines()[-1])
        for k, v in out.items():
            total.setdefault(k, []).extend(v)
        faults.update(f)
        slow = max(slow, tuple(s))
        nts += nt
    print(f"{n} runs {time.time() - t:.1f}s slowest {slow[0]:.2f}s at {slow[1]} nontrivial {nts}")
    print(dict(faults))
    for k, v in sorted(total.items(), key=lambda x: (x[0].split("/")[0] != prop, -len(x[1]))):
        v.sort()
        print(f"{k}: {len(v)}  e.g. {[x[0] for x in v[:5]]}: {v[0][1][:300]}")


main()
