"""Planted bugs. plant.py new SPEC.py writes /verif/seeded/<id> from a spec; plant.py test ID... confirms and tries them.

A spec calls plant(id, property, needs, breaks, edits=[(file, old, new), ...], demo=source of demo.py).
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")
PY = "/opt/venv/bin/python"

DEMOLIB = '''"""Virtual time for demonstrations: run(main) on a loop whose clocks jump to the next timer when idle."""
import asyncio
import selectors
import sys
import time


class Selector(selectors.DefaultSelector):
    now = 1_600_000_000.0

    def select(self, timeout=None):
        if timeout is None:
            raise SystemExit("deadlock: nothing left to wait for")
        ready = super().select(0)
        if not ready and timeout > 0:
            Selector.now += timeout + 1e-6
        return ready


def run(main, limit=100_000):
    async def limited():
        await asyncio.wait_for(main(), limit)

    time.time = time.monotonic = lambda: Selector.now
    loop = asyncio.SelectorEventLoop(Selector())
    loop.time = lambda: Selector.now - 1_600_000_000.0
    asyncio.set_event_loop(loop)
    loop.run_until_complete(limited())


def check(ok, message):
    if not ok:
        print("FAILED:", message)
        sys.stdout.flush()
        import os
        os._exit(1)


async def settle(n=50):
    for _ in range(n):
        await asyncio.sleep(0)
'''

SH = '''#!/bin/sh
PYTHONPATH="$PWD:$(dirname "$0")" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd, timeout=300, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def plant(id, property, needs, breaks, edits, demo):
    d = os.path.join(SEEDED, id)
    t = tempfile.mkdtemp(prefix="plant")
    r = os.path.join(t, "repo")
    sh(f"git clone -q /repo {r}", "/")
    for f, old, new in edits:
        p = os.path.join(r, f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    _, diff = sh("git diff", r)
    shutil.rmtree(t)
    os.makedirs(d, exist_ok=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo.lstrip("\n"))
    open(os.path.join(d, "demolib.py"), "w").write(DEMOLIB)
    open(os.path.join(d, "demo.sh"), "w").write(SH)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    with open(os.path.join(d, "meta.json"), "w") as f:
        json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
    print("wrote", id)


def confirm(id):
    d = os.path.join(SEEDED, id)
    t = tempfile.mkdtemp(prefix="plant")
    r = os.path.join(t, "repo")
    try:
        sh(f"cp -a /repo {r} && git -C {r} checkout -q -- . && cp -a {d} {t}/demo && rm {t}/demo/*.diff {t}/demo/meta.json", "/")
        a, ao = sh(f"{t}/demo/demo.sh", r)
        rc, o = sh(f"git apply {d}/patch.diff", r)
        if rc:
            return id, "patch does not apply: " + o
        b, bo = sh(f"{t}/demo/demo.sh", r)
        rc, o = sh(f"{PY} -m pytest -q -x -p no:cacheprovider -o python_functions= 2>&1 | tail -15", r)
        tests = o.strip().splitlines()[-1] if o.strip() else "?"
        ok = a == 0 and b not in (0, 124) and "72 passed" in tests
        return id, ("ok " if ok else "BAD ") + f"demo clean={a} patched={b} tests: {tests}" + ("" if ok else f"\n--- clean\n{ao[-1500:]}\n--- patched\n{bo[-1500:]}\n--- tests\n{o[-1500:]}")
    finally:
        shutil.rmtree(t)


def attack(id, tier="quick", props=None):
    d = os.path.join(SEEDED, id)
    prop = json.load(open(os.path.join(d, "meta.json")))["property"]
    t = tempfile.mkdtemp(prefix="plant")
    r = os.path.join(t, "repo")
    out = []
    try:
        sh(f"git clone -q /repo {r} && git -C {r} apply {d}/patch.diff", "/")
        for p in props or [prop]:
            rc, o = sh(f"./check.sh {p} {tier}", ROOT, 1800, {**os.environ, "DST_REPO": r, "DST_OUT": t})
            v = [l for l in o.splitlines() if "VIOLATION" in l or "Error" in l]
            out.append((p, rc, v[:1] or o.strip().splitlines()[-1:]))
    finally:
        shutil.rmtree(t)
    return id, prop, out


def main():
    what = sys.argv[1]
    if what == "new":
        exec(compile(open(sys.argv[2]).read(), sys.argv[2], "exec"), {"plant": plant})
        return
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    if what in ("test", "confirm"):
        with ThreadPoolExecutor(6) as ex:
            for id, msg in ex.map(confirm, ids):
                print(id, msg, flush=True)
    if what in ("test", "attack"):
        for id in ids:
            id, prop, out = attack(id)
            for p, rc, v in out:
                print({0: "MISSED", 1: "caught"}.get(rc, f"rc={rc}"), id, p, *v, flush=True)


main()
