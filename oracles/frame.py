"""Concrete oracle of coral.frame: saved frames and stored name lists in a scratch directory."""
import math, os, shutil, tempfile, contextlib, io
from coral import frame, proj, bbox

RULE = {"C35": "frames over every projection with a centre (random and extreme centres, radii and ellipsoids, default models) with random boxes saved and loaded; points at several scales; data sets of 0..6 entities with 0..3 parts whose boxes meet, touch or miss the frame's"}

SPHERE = ["Mercator", "TransMercator", "ObliqMercator", "EckertIV", "Stereographic", "AzimuthalEquidistant", "AzimuthalEqualArea"]

def gen(prop, rng):
    while True:
        kind = rng.choice(SPHERE + ["EMercator"])
        c = None if rng.random() < 0.15 else [rng.choice([0, 180, -180, 90.0, -54.5, rng.uniform(-180, 180)]), rng.choice([0, 45.0, -89, rng.uniform(-89, 89)])]
        m = None
        if rng.random() < 0.8:
            m = [6378137.0, 6356752.3, 0.0818, 0.00335] if rng.random() < 0.3 else [rng.uniform(1, 9e6) for _ in range(4)] if kind == "EMercator" else rng.choice([1, 6371000.0, rng.uniform(1, 1e7)])
            if kind == "EMercator":
                a = rng.uniform(1, 9e6)
                f = rng.uniform(0, 0.1)
                m = [a, a * (1 - f), math.sqrt(f * (2 - f)), f]
            elif isinstance(m, list):
                m = m[0]
        w = rng.choice([1e-3, 1, 1e6])
        b = [rng.uniform(-w, w) if rng.random() < 0.8 else rng.choice([0, 0.0, w]) for _ in range(4)]
        names = []
        for i in range(rng.randrange(0, 7)):
            nm = rng.choice(["a", "São Paulo", "x y", " lead", "trail ", "tab\t", "35", "#", "", "name"]) + str(i) * rng.randrange(0, 2) + rng.choice(["", "", " "])
            if any(nm == q for q, _ in names):
                continue
            parts = []
            for _ in range(rng.randrange(0, 4)):
                parts.append([[rng.choice([b[0], b[2], rng.uniform(-1.5 * w, 1.5 * w)]), rng.choice([b[1], b[3], rng.uniform(-1.5 * w, 1.5 * w)])] for _ in range(rng.choice([1, 2, 3, 4]))])
            names.append([nm, parts])
        yield [kind, c, m, b, names, rng.choice([1, 0.5, 1000.0, 7]), [rng.uniform(-20, 20), rng.uniform(-20, 20)]]

class Plane:
    """A projection that keeps coordinates apart from a known shift."""
    def geo2rect(self, lon, lat):
        return lon + 0.25, lat - 0.5

class Data:
    def __init__(self, names):
        self.names = [n for n, _ in names]
        self.d = names
    def get(self, name):
        return [[tuple(p) for p in part] for part in dict((n, ps) for n, ps in self.d)[name]]

def near(a, b):
    return a == b or abs(a - b) <= 1e-12 * max(1, abs(a), abs(b))

def check(prop, case):
    d = tempfile.mkdtemp(prefix="frame")
    try:
        return check_in(d, case)
    finally:
        shutil.rmtree(d)

def check_in(d, case):
    kind, c, m, b, names, scale, pt = case
    P = getattr(proj, kind)
    model = m if m is None or kind != "EMercator" else proj.Ellipsoid(*m)
    prj = P(tuple(c) if c is not None else None, model)
    bb = bbox.BBox((b[0], b[1]), (b[2], b[3]))
    fr = frame.Frame(prj, bb)
    path = os.path.join(d, "f.json")
    fr.save(path)
    g = frame.load(path)
    if type(g.projection) is not P:
        return "a %s frame is loaded as %s" % (kind, type(g.projection).__name__)
    for n in ['lon0', 'lat0'] + (list("abef") if kind == "EMercator" else ['r']):
        if not near(getattr(prj, n), getattr(g.projection, n)):
            return "%s: %s was %r and is loaded as %r" % (kind, n, getattr(prj, n), getattr(g.projection, n))
    got = [getattr(g.bounding, n) for n in ('x0', 'y0', 'x1', 'y1')]
    if got != b:
        return "bounding box %r is loaded as %r" % (b, got)
    # projecting through the frame
    fr = frame.Frame(Plane(), bb)
    x, y = pt[0] + 0.25, pt[1] - 0.5
    if tuple(fr.point(scale, tuple(pt))) != (x // scale, y // scale):
        return "point %r at scale %r is %r" % (pt, scale, fr.point(scale, tuple(pt)))
    from coral import coord
    pts = [tuple(p) for _, ps in names for q in ps for p in q]
    for closed in (None, True, False):
        got = list(fr.planify(scale, pts, *([] if closed is None else [closed])))
        want = list(coord.simplify([(x + 0.25, y - 0.5) for x, y in pts], scale, closed=closed is not False))
        if got != want:
            return "planify of %r (closed: %r) is %r, expected %r" % (pts, closed, got, want)
    # the names
    want = []
    for n, parts in names:
        for q in parts:
            xs, ys = [x + 0.25 for x, _ in q], [y - 0.5 for _, y in q]
            o = [min(xs), min(ys), max(xs), max(ys)]
            if all(b[i] <= o[i] < b[i + 2] or o[i] <= b[i] < o[i + 2] for i in (0, 1)):
                want.append(n)
                break
    key = os.path.join(d, "key")
    with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
        k = fr.cachenames(key, Data(names))
    got = fr.loadnames(key)
    if got != want or k != len(want):
        return "the names stored for the frame are %r (%r), expected %r" % (got, k, want)
    return None
