"""Concrete oracle of the raster canvases."""
import os
from fractions import Fraction
from coral import raster

RULE = {"C24": "canvases of every kind, sizes 1..20 and some larger; sequences of plain and alpha writes at random positions, every pixel compared after each; saved files compared",
        "C25": "end points in -12..12 (all octants, degenerate lines), some up to 300 apart",
        "C26": "simple, self-crossing and multi-part polygons with 2..9 vertices, columns inside and outside the canvas; scans compared with the crossings, fills with the scans"}

def gen(prop, rng):
    while True:
        if prop == 'C25':
            m = rng.choice([1, 2, 4, 12, 12, 40, 300])
            yield [rng.randrange(-m, m + 1) for _ in range(4)]
        elif prop == 'C24':
            w, h = rng.choice([(rng.randrange(1, 21), rng.randrange(1, 8)), (rng.randrange(1, 4), rng.randrange(1, 30)), (rng.randrange(1, 70), 2)])
            kind = rng.choice(["BW", "Gray", "Color"])
            c = lambda: rng.choice([0, 1, 127, 128, 254, 255, rng.randrange(256)])
            ops = []
            for _ in range(rng.randrange(1, 8)):
                x, y = rng.choice([0, w - 1, rng.randrange(w)]), rng.choice([0, h - 1, rng.randrange(h)])
                val = [rng.choice([0, 1, True, 2, 255])] if kind == "BW" else [c()] if kind == "Gray" else [c(), c(), c()]
                a = rng.choice([None, 0, 1, 0.5, 0.25, rng.random()]) if kind != "BW" else None
                ops.append([x, y, val, a])
            bg = [rng.randrange(2)] if kind == "BW" else [c()] if kind == "Gray" else [c(), c(), c()]
            yield [kind, w, h, rng.choice([None, bg]), ops]
        else:
            w, h = rng.randrange(1, 25), rng.randrange(1, 12)
            polys = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                if rng.random() < 0.3:
                    l, r = sorted([rng.randrange(-3, w + 4), rng.randrange(-3, w + 4)])
                    t, b = sorted([rng.randrange(0, h + 1), rng.randrange(0, h + 1)])
                    p = [[l, t], [r, t], [r, b], [l, b]]
                    if rng.random() < 0.5:
                        p.reverse()
                else:
                    p = [[rng.randrange(-3, w + 4), rng.randrange(0, h + 1)] for _ in range(rng.randrange(2, 10))]
                polys.append(p)
            yield [w, h, polys]

class Log(raster.BaseCanvas):
    def __init__(self, w=0, h=0):
        self.width, self.height = w, h
        self.log = []
    def __setitem__(self, k, v):
        self.log.append((tuple(k), v))

def line(x0, y0, x1, y1):
    c = Log()
    col = object()
    c.line((x0, y0), (x1, y1), col)
    px = []
    for k, v in c.log:
        assert v is col, "a pixel in another colour"
        if k not in px[-1:]:
            px.append(k)
    a = max(abs(x1 - x0), abs(y1 - y0))
    assert (x0, y0) in px and (x1, y1) in px, "end points not coloured"
    assert len(set(px)) == a + 1, "%d pixels, expected %d" % (len(set(px)), a + 1)
    for p, q in zip(px, px[1:]):
        assert max(abs(p[0] - q[0]), abs(p[1] - q[1])) <= 1, "%r and %r are not adjacent" % (p, q)
    for x, y in px:
        assert min(x0, x1) <= x <= max(x0, x1) and min(y0, y1) <= y <= max(y0, y1), "%r is outside the rectangle" % ((x, y),)
        if a:
            if abs(x1 - x0) >= abs(y1 - y0):
                d = y - y0 - Fraction((x - x0) * (y1 - y0), x1 - x0)
            else:
                d = x - x0 - Fraction((y - y0) * (x1 - x0), y1 - y0)
            assert abs(d) <= Fraction(1, 2), "%r is %s off the line" % ((x, y), d)

def pixels(kind, w, h, bg, ops):
    cls = getattr(raster, kind + "Canvas")
    t = tuple if kind == "Color" else (lambda v: v[0])
    c = cls(w, h) if bg is None else cls(w, h, t(bg))
    b = t(bg) if bg is not None else {"BW": 0, "Gray": 255, "Color": (255, 255, 255)}[kind]
    want = {(x, y): b for x in range(w) for y in range(h)}
    def same(step):
        for (x, y), v in want.items():
            g = c[x, y]
            g = tuple(g) if kind == "Color" else g
            assert g == v, "step %d: pixel %r is %r, expected %r" % (step, (x, y), g, v)
    same(-1)
    for step, (x, y, val, a) in enumerate(ops):
        if a is None:
            c[x, y] = t(val)
            want[x, y] = int(bool(val[0])) if kind == "BW" else t(val)
        else:
            c[x, y] = tuple(val) + (a,)
            old = want[x, y] if kind == "Color" else (want[x, y],)
            got = c[x, y] if kind == "Color" else (c[x, y],)
            for o, f, g in zip(old, val, got):
                assert 0 <= g <= 255 and abs(g - (o * (1 - a) + f * a)) <= 0.5 + 1e-6, "step %d: blend of %r and %r by %r is %r" % (step, o, f, a, g)
            want[x, y] = tuple(got) if kind == "Color" else got[0]
        same(step)
    c.save("pic.pnm")
    with open("pic.pnm", "rb") as f:
        data = f.read()
    os.remove("pic.pnm")
    magic = {"BW": b"P4", "Gray": b"P5", "Color": b"P6"}[kind]
    head = magic + b"\n" + b"%d %d\n" % (w, h) + (b"" if kind == "BW" else b"255\n")
    assert data.startswith(head), "header %r" % data[:30]
    body = data[len(head):]
    if kind == "BW":
        nb = (w + 7) // 8
        assert len(body) == nb * h, "%d bytes of data" % len(body)
        for (x, y), v in want.items():
            assert body[y * nb + x // 8] >> (7 - x % 8) & 1 == v, "saved pixel %r" % ((x, y),)
    else:
        assert body == bytes(z for y in range(h) for x in range(w) for z in (want[x, y] if kind == "Color" else (want[x, y],))), "saved data"

def fills(w, h, polys):
    c = Log(w, h)
    scans = None
    want = [[] for _ in range(h)]
    for p in polys:
        p = [tuple(q) for q in p]
        scans = c.scanpolygon(p, scans)
        for (x0, y0), (x1, y1) in zip(p, p[1:] + p[:1]):
            if y0 == y1:
                continue
            for y in range(min(y0, y1), max(y0, y1)):
                want[y].append((x0 + Fraction((y - y0) * (x1 - x0), y1 - y0), y0 < y1))
    assert len(scans) == h, "%d rows" % len(scans)
    marks = []
    for y in range(h):
        m = sorted(scans[y])
        marks.append(m)
        assert len(m) == len(want[y]), "row %d: %d marks, expected %d" % (y, len(m), len(want[y]))
        for d in (False, True):
            a = [x for x, e in m if bool(e) == d]
            b = sorted(x for x, e in want[y] if e == d)
            assert len(a) == len(b), "row %d: directions %r, expected %r" % (y, m, want[y])
            for x, t in zip(a, b):
                assert abs(x - t) <= Fraction(1, 2) + Fraction(1, 10 ** 6), "row %d: mark at %r, crossing at %s" % (y, x, t)
    col = object()
    c.fillpolygons(scans, col)
    got = set()
    for (x, y), v in c.log:
        assert 0 <= x < w and 0 <= y < h, "pixel %r outside the canvas" % ((x, y),)
        assert v is col, "another colour"
        got.add((x, y))
    for y in range(h):
        m = marks[y]
        for x in range(w):
            left = [e for t, e in m if t <= x]
            inside = (not left[-1]) if left else bool(m and m[0][1] and m[0][0] < w)
            assert ((x, y) in got) == inside, "pixel %r is %s (marks %r)" % ((x, y), "coloured" if not inside else "not coloured", m)

def check(prop, case):
    {'C24': pixels, 'C25': line, 'C26': fills}[prop](*case)

def from_model(prop, unit, m):
    if prop == 'C25':
        return [[m[k] for k in ("x0", "y0", "x1", "y1")]]
    if prop == 'C24':
        kind = unit.split(".")[1][:2]
        w, h = m["width"], m["height"]
        if w * h > 5000:
            return []
        kind = {"BW": "BW", "Gr": "Gray", "Co": "Color"}[kind]
        val = [m["value"]] if "value" in m else [m["fg%d" % i] for i in range(3) if "fg%d" % i in m] or [1]
        a = m.get("alpha")
        if isinstance(a, list):
            a = a[0] / a[1]
        return [[kind, w, h, None, [[m["x"], m["y"], val, a]]]]
    return []
