"""Concrete oracle of coral.coord.Buffer: histories against a bounded deque."""
from collections import deque
from coral.coord import Buffer

RULE = {"C06": "random histories of push/pop/peek/shift/isempty/isfull on capacities 1..32, biased towards full and empty; distinct item objects"}
OPS = ["push", "pop", "peek", "shift"]

def gen(prop, rng):
    while True:
        k = rng.choice([0, 1, 1, 2, 2, 3, 4, 5])
        n = rng.choice([1, 3, 6, 12, 40, 120])
        w = [rng.choice([1, 2, 5, 8]) for _ in OPS]
        yield [1 << k, [rng.choices(OPS, w)[0] for _ in range(n)]]

class Item:
    pass

def check(prop, case):
    n, ops = case
    b, d = Buffer(n), deque()
    items = [Item() for _ in ops]
    vals = [None, 0, "", 0.0] + items
    for step, op in enumerate(ops):
        o = vals[step % len(vals)] if step % 5 == 3 else items[step]
        assert bool(b.isempty()) == (not d), "step %d: isempty" % step
        assert bool(b.isfull()) == (len(d) == n), "step %d: isfull with %d of %d" % (step, len(d), n)
        if op == "push":
            if len(d) == n:
                refused(b.push, o, step)
            else:
                b.push(o); d.append(o)
        elif not d:
            refused(getattr(b, op), None, step)
        else:
            want = {"pop": lambda: d.pop(), "peek": lambda: d[-1], "shift": lambda: d.popleft()}[op]()
            got = getattr(b, op)()
            assert got is want, "step %d: %s gives the wrong item" % (step, op)
    # everything else is still there
    while d:
        assert b.shift() is d.popleft(), "drain: wrong item"
    assert b.isempty(), "not empty after draining"

def refused(f, o, step):
    try:
        f(o) if o is not None or f.__name__ == "push" else f()
    except AssertionError:
        return
    raise AssertionError("step %d: %s is not refused" % (step, f.__name__))

def from_model(prop, unit, m):
    n = m.get("n") or 1
    s, e = int(m.get("s") or 0), int(m.get("e") or 0)
    if n > 4096:
        return []
    n2 = 1
    while n2 < n:
        n2 *= 2
    size = (e - s) % (2 * n2)
    ops = ["push", "shift"] * (s % (2 * n2)) + ["push"] * min(size, n2)
    return [[n2, ops + [x, y]] for x in OPS for y in OPS]
