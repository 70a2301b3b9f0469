"""Concrete oracle of pf.Writer and pf.Reader: data sets written to and read from a scratch directory."""
import math, os, shutil, tempfile
from coral import pf

RULE = {"C20": "data sets of 0..5 entities with 0..3 parts of 1..6 points (grid points, ends of the ranges, turns away, closed rings, repeated points, zero-size boxes), all four sizes, read by position and by name in random order"}

def coord(rng, lim):
    r = rng.random()
    if r < 0.25:
        return rng.choice([0, -lim, lim, lim / 2, -lim / 2, 1, -1])
    if r < 0.35:
        return rng.choice([0, 1, 65535, rng.randrange(65536)]) * (2 * lim) / 65535 - lim
    if r < 0.45:
        return rng.uniform(-5 * lim, 5 * lim)
    return rng.uniform(-lim, lim)

def gen(prop, rng):
    yield [4, [["a", [[[0, 100]]]]], [0]]
    yield [4, [["a", [[[-180, -90]]], ], ["b", [[[0, 0]], [[1, 1]]]]], [1, 0]]
    yield [8, [["a", [[[180, 90], [-180, -90]]]]], [0]]
    yield [4, "big", [3, 0, 150, 2, 1, 299]]
    while True:
        ents = []
        for i in range(rng.choice([0, 1, 1, 2, 3, 5])):
            name = rng.choice(["a", "35", "", "x y", "-", "a" * 20, "~"]) + str(i)
            parts = []
            near = rng.random() < 0.3
            base = [coord(rng, 180), coord(rng, 90)]
            for _ in range(rng.choice([1, 1, 2, 3, 0])):
                q = [[coord(rng, 180), coord(rng, 90)] for _ in range(rng.choice([1, 1, 2, 3, 4, 6]))]
                if near:
                    q = [[base[0] + rng.choice([0, 1e-3, 0.01]), base[1] + rng.choice([0, 1e-3])] for _ in q]
                if rng.random() < 0.4:
                    q.append(list(q[0]))
                if rng.random() < 0.2:
                    q = [q[0]] * rng.choice([1, 2, 3])
                parts.append(q)
            ents.append([name, parts])
        order = [rng.randrange(len(ents)) for _ in range(rng.randrange(1, 6))] if ents else []
        yield [rng.choice([1, 2, 4, 8]), ents, order]

def big():
    pts = lambda n: [[(i * 37 % 3600) / 10 - 180, (i * 11 % 1800) / 10 - 90] for i in range(n)]
    return [["long", [pts(127), pts(128), pts(129)]], ["longer", [pts(17000)]], ["many", [pts(2) for _ in range(130)]]] + [["n%d" % i, [pts(1 + i % 3)]] for i in range(300)]

def norm(x, lim):
    """The coordinates in range it may be brought to."""
    if -lim <= x <= lim:
        return [x]
    m = math.fmod(x + lim, 2 * lim)
    m = m + 2 * lim if m < 0 else m
    r = m - lim
    return [r] if abs(abs(r) - lim) > 1e-9 else [-lim, lim]

def check(prop, case):
    if case[1] == "big":
        case = [case[0], big(), case[2]]
    d = tempfile.mkdtemp(prefix="pf")
    try:
        return check_in(os.path.join(d, "x.p"), case)
    finally:
        shutil.rmtree(d)

def check_in(path, case):
    size, ents, order = case
    w = pf.Writer(path, size)
    for name, parts in ents:
        w.write(name, [[tuple(p) for p in q] for q in parts])
    w.close()
    r = pf.Reader(path)
    try:
        names = [n for n, _ in ents]
        if list(r.names) != names or len(r) != len(names):
            return "names %r are read as %r (%r)" % (names, r.names, len(r))
        for i in order:
            for got in (r.read(i), r.get(names[i])):
                e = compare(ents[i], got, size)
                if e:
                    return e
    finally:
        r.close()

def compare(ent, got, size):
    name, parts = ent
    want = [[(norm(x, 180), norm(y, 90)) for x, y in q] for q in parts]
    kept = []
    for q, raw in zip(want, parts):
        if len(q) > 1 and q[0] == q[-1]:
            q = q[:-1]
        kept.append(q)
    if [len(q) for q in kept] != [len(q) for q in got]:
        amb = any(len(c) > 1 for q in want for p in q for c in p)
        if not amb:
            return "%s: parts of %r points are read as %r" % (name, [len(q) for q in kept], [len(q) for q in got])
        return None
    pts = [p for q in kept for p in q]
    if not pts:
        return None
    for d, lim in ((0, 180), (1, 90)):
        if any(len(p[d]) > 1 for p in pts):
            continue
        vs = [p[d][0] for p in pts]
        u = 2 * lim / 65535
        # the grid may lose a rounding error
        lo, hi = math.floor((min(vs) + lim) / u - 1e-9), math.ceil((max(vs) + lim) / u + 1e-9)
        step = max(hi - lo, 0) * u / (256 ** size - 1)
        for q, g in zip(kept, got):
            for p, b in zip(q, g):
                if not abs(b[d] - p[d][0]) <= step / 2 + 1e-10:
                    return "%s: coordinate %r is read as %r (half a step is %r)" % (name, p[d][0], b[d], step / 2)
