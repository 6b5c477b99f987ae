"""Linearizability checking (Wing & Gong with memoisation) against a sequential model."""
INF = float("inf")


class Op:
    __slots__ = ("kind", "args", "res", "start", "end", "optional", "what")

    def __init__(self, kind, args, start):
        self.kind = kind
        self.args = args
        self.start = start
        self.end = INF
        self.res = None
        self.optional = True  # until it returned, it may or may not have taken effect

    def done(self, end, res=None, optional=False):
        self.end = end
        self.res = res
        self.optional = optional
        return self

    def __repr__(self):
        return f"{self.kind}{self.args!r}->{self.res!r}[{self.start},{self.end}]"


class Inconclusive(Exception):
    pass


def check(ops, init, step, accept=None, cap=300_000):
    """None when the history is linearizable, otherwise the longest legal prefix and what could not follow.

    step(state, op) yields the possible next states; optional operations may be left out."""
    ops = sorted(ops, key=lambda o: o.start)
    n = len(ops)
    if n == 0:
        return None if accept is None or accept(init) else ([], [])
    must = 0
    for i, o in enumerate(ops):
        if not o.optional:
            must |= 1 << i
    seen = set()
    best = [0, []]
    nodes = 0

    # stack of (mask, state, iterator of candidate (i, state))
    def candidates(mask, state):
        # the earliest end among operations not yet done bounds what may come next
        bound = INF
        first = (~mask & (mask + 1)).bit_length() - 1  # everything before is done
        for i in range(first, n):
            if not mask >> i & 1:
                o = ops[i]
                if o.start > bound:
                    break
                if not o.optional and o.end < bound:
                    bound = o.end
        for i in range(first, n):
            o = ops[i]
            if o.start > bound:
                break
            if mask >> i & 1:
                continue
            # an optional operation that returned may only take effect before it returned:
            # everything that started after its end must not already be linearized
            if o.optional and o.end != INF and _later_done(ops, mask, o.end, n):
                continue
            for s in step(state, o):
                yield i, s

    if must == 0 and (accept is None or accept(init)):
        return None
    seen.add((0, init))
    stack = [(0, init, candidates(0, init), None)]
    while stack:
        mask, state, it, _ = stack[-1]
        for i, s in it:
            m = mask | 1 << i
            key = (m, s)
            if key in seen:
                continue
            seen.add(key)
            nodes += 1
            if nodes > cap:
                raise Inconclusive
            if m & must == must and (accept is None or accept(s)):
                return None
            stack.append((m, s, candidates(m, s), i))
            d = bin(m & must).count("1")
            if d >= best[0]:
                best[0] = d
                best[1] = [f[3] for f in stack[1:]]
            break
        else:
            stack.pop()
    done = set(best[1])
    rest = [ops[i] for i in range(n) if i not in done and not ops[i].optional]
    return [ops[i] for i in best[1]], rest


def _later_done(ops, mask, end, n):
    for j in range(n - 1, -1, -1):
        if ops[j].start <= end:
            return False
        if mask >> j & 1:
            return True
    return False


def explain(bad):
    prefix, rest = bad
    if not rest:
        return "the history is legal but its end state is not: an operation stays blocked although it could proceed"
    return "no legal order: after " + "; ".join(map(short, prefix[-4:])) + " cannot place " + "; ".join(map(short, rest[:3]))


def short(o):
    args = ",".join(map(str, o.args))
    return f"{o.kind}({args})={o.res}"
