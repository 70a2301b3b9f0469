"""Concrete oracle of coral.coord.simplify: the output against subsequences of the snapped input."""
import math
from fractions import Fraction
from coral import coord

RULE = {"C07": "open lines of 0..40 points (grid walks with repeats, reversals and collinear runs; floats) at several pixel sizes and buffer sizes, as lists and iterators",
        "C08": "closed rings of 0..40 points with retraced spikes across and away from the seam, with and without the closing vertex, several buffer sizes"}

STEPS = [(1, 0), (-1, 0), (0, 1), (0, -1), (1, 1), (-1, -1), (2, 1), (0, 0)]

def walk(rng, n):
    x, y = rng.randrange(-3, 4), rng.randrange(-3, 4)
    out = []
    st = rng.choice(STEPS)
    hist = []
    while len(out) < n:
        out.append([x, y])
        r = rng.random()
        if r < 0.35:
            st = rng.choice(STEPS)
        elif r < 0.55 and hist:
            s = hist.pop()
            st = (-s[0], -s[1])
            x, y = x + st[0], y + st[1]
            continue
        hist.append(st)
        x, y = x + st[0], y + st[1]
    return out

def gen(prop, rng):
    for k in (1, 2, 8):
        for form in (0, 1):
            for pts in ([], [[1.5, -2.5]], [[0.5, 0.5], [0.5, 0.5]], [[0, 0], [1, 0]], [[0, 0], [3, 1], [0, 0]], [[0, 0], [1, 1], [5, 2], [1, 1], [0, 0]]):
                yield [pts, 1.0, k, form]
    while True:
        n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 20, 40])
        m = rng.choice([1.0, 1.0, 0.5, 2.0, 1000.0, 0.25])
        pts = walk(rng, n)
        t = rng.random()
        if t < 0.15:
            pts = [[rng.uniform(-9, 9), rng.uniform(-9, 9)] for _ in range(n)]
        elif t < 0.3:
            # a spike across the seam: goes out and comes back around the start
            sp = walk(rng, rng.randrange(1, 6))
            pts = sp[::-1][:-1] + pts + sp[:rng.randrange(0, len(sp) + 1)]
        elif t < 0.45:
            pts = pts + pts[-2::-1][:rng.randrange(0, n + 1)]
        if prop == "C08" and rng.random() < 0.6 and pts:
            pts = pts + [list(pts[0])]
        if t < 0.85:
            pts = [[x * m, y * m] for x, y in pts]
            if rng.random() < 0.3:
                pts = [[x + rng.choice([0, m / 2, -m / 2]), y + rng.choice([0, m / 2, -m / 2])] for x, y in pts]
        yield [pts, m, rng.choice([1, 1, 2, 2, 4, 8]), rng.randrange(2)]

def snap(v, m):
    q = v / m
    f = Fraction(q)
    r = math.floor(abs(f) + Fraction(1, 2))
    return int(math.copysign(r, q))

def subseq(out, src):
    i = 0
    for o in out:
        while i < len(src) and src[i] != o:
            i += 1
        if i == len(src):
            return False
        i += 1
    return True

def check(prop, case):
    pts, m, k, form = case
    pts = [tuple(p) for p in pts]
    arg = list(pts) if form == 0 else iter(list(pts))
    out = [tuple(p) for p in coord.simplify(arg, m, prop == "C08", k)]
    src = [(snap(x, m), snap(y, m)) for x, y in pts]
    for x, y in out:
        assert isinstance(x, int) and isinstance(y, int), "output %r is not on the grid" % ((x, y),)
    if form == 0:
        assert arg == pts, "the caller's list changed"
    if prop == "C07":
        assert len(out) == len(src) or len(src) > 1, "%d points give %d" % (len(src), len(out))
        if src:
            assert out, "nothing comes out"
            assert out[0] == src[0], "first point %r, not %r" % (out[0], src[0])
            assert out[-1] == src[-1], "last point %r, not %r" % (out[-1], src[-1])
            if len(src) > 1 and len(out) > 1:
                assert subseq(out[1:], src[1:]), "not in input order: %r of %r" % (out, src)
    else:
        assert bool(out) == bool(src), "%d points give %d" % (len(src), len(out))
        assert len(out) <= len(src), "a vertex comes out twice"
        assert any(subseq(out[r:] + out[:r], src) for r in range(max(1, len(out)))), "cyclic order changed: %r of %r" % (out, src)

def from_model(prop, unit, m):
    pts = m.get("xys")
    if not isinstance(pts, list):
        return []
    k = m.get("k") or 1
    out = []
    for kk in {k, 1, 2, 4}:
        n = 1
        while n < kk and n < 1024:
            n *= 2
        out += [[pts, float(m.get("scl") or 1), n, f] for f in (0, 1)]
    return out
