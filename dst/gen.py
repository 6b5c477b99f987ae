"""Shared plan generators."""


def pause(rng, spread, timed):
    """Loop iterations (int) or simulated seconds (float)."""
    if timed and rng.random() < 0.5:
        return round(rng.random() ** 2 * 0.05, 6) + 1e-6
    return rng.randint(0, spread)


# equal but not identical, falsy, and mostly not comparable with each other
ITEMS = [("ns", "a"), 0, "", ("ns", "b"), (None, "a"), "x", None, 7.5]


def item(i):
    """The i-th work item, a new but equal object on every call where that is possible."""
    v = ITEMS[i % len(ITEMS)]
    if i >= len(ITEMS):
        return ("many", i)
    return tuple(list(v)) if isinstance(v, tuple) else v
