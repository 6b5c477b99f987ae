"""Mutation survey, for development: mutate.py WORKDIR [FILE...]. Which single-edit mutants that pass the tests does no check notice?

Each mutant of each file is written into a copy of /repo under WORKDIR; results are appended to WORKDIR/results.jsonl.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import threading

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PROPS = {
    "workqueue/queue.py": "C01 C02 C03",
    "workqueue/delaying_queue.py": "C04 C03",
    "workqueue/rate_limiting_queue.py": "C05 C04",
    "workqueue/default_rate_limiters.py": "C05",
    "cache/delta_fifo.py": "C06 C07 C10 C11 C15",
    "cache/fifo.py": "C08 C07",
    "cache/index.py": "C09",
    "cache/thread_safe_store.py": "C09 C10",
    "cache/store.py": "C09 C10",
    "cache/controller.py": "C10 C11 C12 C15 C16 C07",
    "cache/reflector.py": "C10 C14 C16 C15 C07",
    "cache/list_watch.py": "C10 C14",
    "cache/shared_informer.py": "C11 C12 C13 C15 C16 C07 C10 C17",
    "api/meta.py": "C10 C14 C17",
    "controller/_cache_reader.py": "C20",
    "controller/_deleg_map.py": "C20 C17",
    "controller/_informers_map.py": "C20 C16 C15 C17",
    "controller/builder.py": "C17 C20",
    "controller/cache.py": "C20 C15",
    "controller/client.py": "C17",
    "controller/controller.py": "C18 C19 C17 C16 C20",
    "controller/handler.py": "C17",
    "controller/manager.py": "C16 C20 C17",
    "controller/source.py": "C17 C15",
    "leaderelection/leaderelection.py": "C21 C22 C23",
    "leaderelection/resourcelock.py": "C21 C22 C23",
    "util/wait.py": "C25 C22 C12",
    "util/_time.py": "C26 C25 C04",
    "util/clock.py": "C26 C04",
    "util/retry.py": "C12 C25",
    "watch/mux.py": "C24",
}


def variants(tree):
    """(line, description, function that edits a copy of the tree in place given the node at the same position)."""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        line = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            alt = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
                   ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}.get(type(n.ops[0]), [])
            for a in alt:
                yield line, f"{type(n.ops[0]).__name__}->{a.__name__}", i, lambda m, a=a: m.ops.__setitem__(0, a())
        if isinstance(n, ast.BoolOp):
            yield line, "and<->or", i, lambda m: setattr(m, "op", ast.Or() if isinstance(m.op, ast.And) else ast.And())
            for k in range(len(n.values)):
                yield line, f"drop operand {k}", i, lambda m, k=k: m.values.pop(k)
        if isinstance(n, (ast.If, ast.While)):
            yield line, "if True", i, lambda m: setattr(m, "test", ast.Constant(True))
            yield line, "if False", i, lambda m: setattr(m, "test", ast.Constant(False))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield line, "not const", i, lambda m: setattr(m, "value", not m.value)
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            yield line, f"{n.value}+1", i, lambda m: setattr(m, "value", m.value + 1)
            if n.value:
                yield line, f"{n.value}->0", i, lambda m: setattr(m, "value", 0)
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Mult, ast.Div)):
            op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}[type(n.op)]
            yield line, "binop", i, lambda m, op=op: setattr(m, "op", op())
        if isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
            yield line, "return None", i, lambda m: setattr(m, "value", ast.Constant(None))
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            yield line, "except never", i, lambda m: setattr(m, "type", ast.Tuple([], ast.Load()))
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if not isinstance(b, list) or isinstance(n, (ast.Module, ast.ClassDef)):
                continue
            for k, s in enumerate(b):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Pass, ast.Nonlocal)):
                    continue
                if isinstance(s, ast.Expr) and "logger" in ast.unparse(s):
                    continue
                if not isinstance(s, (ast.If, ast.While, ast.For, ast.AsyncFor, ast.Try)):
                    yield s.lineno, f"delete `{ast.unparse(s)[:60]}`", i, lambda m, f=field, k=k: getattr(m, f).__setitem__(k, ast.Pass())
                if isinstance(s, ast.AsyncWith):
                    yield s.lineno, "unlock", i, lambda m, f=field, k=k: getattr(m, f).__setitem__(slice(k, k + 1), getattr(m, f)[k].body)
                if isinstance(s, ast.Try) and s.finalbody:
                    yield s.lineno, "no finally", i, lambda m, f=field, k=k: getattr(m, f).__setitem__(slice(k, k + 1), getattr(m, f)[k].body + getattr(m, f)[k].orelse)
                if isinstance(s, (ast.Break, ast.Continue)):
                    yield s.lineno, "break<->continue", i, lambda m, f=field, k=k: getattr(m, f).__setitem__(k, ast.Continue() if isinstance(getattr(m, f)[k], ast.Break) else ast.Break())
                if k + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(b[k + 1], (ast.Expr, ast.Assign, ast.AugAssign)) \
                        and ("await" in ast.unparse(s) or "await" in ast.unparse(b[k + 1])):
                    yield s.lineno, "swap with next", i, lambda m, f=field, k=k: getattr(m, f).__setitem__(slice(k, k + 2), [getattr(m, f)[k + 1], getattr(m, f)[k]])


def mutants(path):
    src = open(path).read()
    tree = ast.parse(src)
    seen = {ast.unparse(tree)}
    for line, what, i, edit in variants(tree):
        t = copy.deepcopy(tree)
        node = list(ast.walk(t))[i]
        try:
            edit(node)
            ast.fix_missing_locations(t)
            out = ast.unparse(t)
            compile(out, path, "exec")
        except Exception:
            continue
        if out in seen:
            continue
        seen.add(out)
        yield line, what, out


def main():
    work = os.path.abspath(sys.argv[1])
    files = sys.argv[2:] or list(PROPS)
    os.makedirs(work, exist_ok=True)
    res = os.path.join(work, "results.jsonl")
    done = set()
    if os.path.exists(res):
        done = {tuple(json.loads(l)["id"]) for l in open(res)}
    todo = []
    for f in files:
        for line, what, out in mutants(f"/repo/aiok8s/{f}"):
            if (f, line, what) not in done:
                done.add((f, line, what))
                todo.append((f, line, what, out))
    random.Random(1).shuffle(todo)
    todo.sort(key=lambda t: files.index(t[0]))
    print(len(todo), "mutants", flush=True)
    lock = threading.Lock()
    slots = list(range(int(os.environ.get("SLOTS", "8"))))
    env = {**os.environ, "DST_JOBS": "1", "DST_SCALE": os.environ.get("DST_SCALE", "0.5"), "PYTHONDONTWRITEBYTECODE": "1"}

    def one(t):
        f, line, what, out = t
        with lock:
            s = slots.pop()
        r = f"{work}/r{s}"
        if not os.path.exists(r):
            subprocess.run(["git", "clone", "-q", "/repo", r], check=True)
        p = f"{r}/aiok8s/{f}"
        orig = open(f"/repo/aiok8s/{f}").read()
        rec = {"id": [f, line, what], "text": orig.splitlines()[line - 1].strip() if line else ""}
        try:
            open(p, "w").write(out)
            try:
                q = subprocess.run([PY, "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider", "-o", "python_functions="], cwd=r, capture_output=True, text=True, timeout=60, env=env)
                rec["tests"] = q.returncode == 0
            except subprocess.TimeoutExpired:
                rec["tests"] = False
            if rec["tests"]:
                rec["caught"] = None
                for prop in PROPS[f].split():
                    try:
                        q = subprocess.run([f"{ROOT}/check.sh", prop, "quick"], cwd=ROOT, capture_output=True, text=True, timeout=900,
                                           env={**env, "DST_REPO": r, "DST_OUT": f"{work}/o{s}"})
                    except subprocess.TimeoutExpired:
                        rec["caught"] = prop + "/timeout"
                        break
                    if q.returncode:
                        v = [l for l in q.stdout.splitlines() if "VIOLATION" in l]
                        rec["caught"] = prop if v else f"{prop}/rc{q.returncode}"
                        break
        finally:
            open(p, "w").write(orig)
        with lock:
            slots.append(s)
            open(res, "a").write(json.dumps(rec) + "\n")

    with ThreadPoolExecutor(len(slots)) as ex:
        list(ex.map(one, todo))
    shutil.rmtree(f"{work}/r0", ignore_errors=True)


main()
