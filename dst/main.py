"""python -m dst.main check|worker|minimise|replay|one|determinism ..."""
import json
import os
import sys

from dst import boot  # noqa: F401  (first: installs the clock seams)
from dst import runner


def main(argv):
    cmd, *a = argv
    if cmd == "check":
        prop = a[0]
        tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
        base = int(os.environ.get("VERIF_SEED", "1") or "1")
        return runner.check(prop, tier, base)
    if cmd == "worker":
        prop, tier, base, idx, n, out = a
        runner.worker(prop, tier, int(base), int(idx), int(n), out)
        return 0
    if cmd == "minimise":
        runner.minimise_main(*a)
        return 0
    if cmd == "replay":
        ok, text = runner.replay(a[0], quiet=len(a) > 1)
        print(text)
        return 1 if ok else 0
    if cmd == "one":  # prop scenario index [base]
        prop, scen, i = a[:3]
        base = int(a[3]) if len(a) > 3 else 1
        plan = runner.make_plan(base, prop, scen, int(i), "quick")
        runner.core.checked = prop
        print(json.dumps(plan))
        sim = runner.run_plan(plan)
        for s, t, w in sim.log:
            print(f"{s} t={t:.6f} {' '.join(map(str, w))}")
        print(sim.violations, sim.digest, dict(sim.faults), dict(sim.probes))
        return 0
    if cmd == "digests":  # prop n [base]: one line per run, to compare between processes
        prop, n = a[0], int(a[1])
        base = int(a[2]) if len(a) > 2 else 1
        for scen, _, _ in runner.CHECKS[prop]:
            for i in range(n):
                sim = runner.run_plan(runner.make_plan(base, prop, scen, i, "quick"))
                print(scen, i, sim.digest, len(sim.violations))
        return 0
    raise SystemExit(f"unknown command {cmd}")


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
