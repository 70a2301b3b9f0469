"""Concrete oracle of coral/bbox.py: exact rational inputs on the real code."""
from fractions import Fraction as F
from coral.bbox import BBox

RULE = {p: "small exact rational coordinates (few distinct values, so ties, touching and degenerate boxes are common)"
        for p in ("C01", "C02", "C03", "C04", "C05")}

VALS = [-3, -2, -1, 0, 1, 2, 3]

def num(rng):
    k = rng.random()
    if k < .75:
        return rng.choice(VALS)
    return [rng.randint(-9, 9), rng.choice([2, 3, 4])]

def fr(x):
    if isinstance(x, float):
        return F(x)
    return F(x[0], x[1]) if isinstance(x, list) else x

def box(rng, ordered=True):
    c = [num(rng) for _ in range(4)]
    if ordered:
        for i in (0, 1):
            if fr(c[i]) > fr(c[i + 2]):
                c[i], c[i + 2] = c[i + 2], c[i]
        if rng.random() < .1:
            c = [0, 0, 0, 0]
    return c

def gen(prop, rng):
    while True:
        if prop == 'C01':
            n = rng.choice([1, 1, 2, 2, 3, 3, 4, 5, 8])
            yield ["pts", [[num(rng), num(rng)] for _ in range(n)], rng.choice(["list", "iter", "tuple"])]
            yield ["cor", box(rng, False)]
        elif prop == 'C02':
            yield ["two", box(rng), box(rng), [num(rng), num(rng)]]
        elif prop == 'C03':
            a, b = box(rng), box(rng)
            yield ["two", a, b, [num(rng), num(rng)]]
        elif prop == 'C04':
            yield ["mv", box(rng, False), [num(rng), num(rng)], num(rng)]
        elif prop == 'C05':
            a, b = box(rng, False), box(rng, False)
            if rng.random() < .4:
                b = list(a)
                if rng.random() < .5:
                    b[rng.randrange(4)] = num(rng)
            yield ["two", a, b]

def cs(b):
    return (b.x0, b.y0, b.x1, b.y1)

def mk(c):
    c = [fr(x) for x in c]
    return BBox((c[0], c[1]), (c[2], c[3])), tuple(c)

def hp(c, x, y):
    return c[0] <= x < c[2] and c[1] <= y < c[3]

def check(prop, case):
    return globals()[prop](case)

def C01(case):
    b = BBox()
    assert cs(b) == (0, 0, 0, 0), "empty box"
    if case[0] == "cor":
        b, c = mk(case[1])
        assert cs(b) == c, "corners"
        assert b.width() == c[2] - c[0], "width"
        assert b.height() == c[3] - c[1], "height"
        assert b.area() == (c[2] - c[0]) * (c[3] - c[1]), "area"
        x, y = b.center()
        assert abs(2 * x - (c[0] + c[2])) < 1e-9 and abs(2 * y - (c[1] + c[3])) < 1e-9, "centre"
        h = b.hypot()
        assert abs(h * h - (c[2] - c[0]) ** 2 - (c[3] - c[1]) ** 2) < 1e-6 and h >= 0, "diagonal"
        return
    pts = [(fr(x), fr(y)) for x, y in case[1]]
    arg = {"list": list, "iter": iter, "tuple": tuple}[case[2]](pts)
    keep = list(pts)
    b = BBox(arg)
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    assert cs(b) == (min(xs), min(ys), max(xs), max(ys)), "not the tightest box: %r" % (cs(b),)
    if case[2] == "list":
        assert arg == keep, "the argument was changed"

def C02(case):
    a, ca = mk(case[1]); b, cb = mk(case[2])
    z = (0, 0, 0, 0)
    u = a | b
    want = cb if ca == z else ca if cb == z else (min(ca[0], cb[0]), min(ca[1], cb[1]), max(ca[2], cb[2]), max(ca[3], cb[3]))
    assert cs(u) == want, "union %r, expected %r" % (cs(u), want)
    i = a & b
    lo = max(ca[0], cb[0]), max(ca[1], cb[1]); hi = min(ca[2], cb[2]), min(ca[3], cb[3])
    want = lo + hi if lo[0] < hi[0] and lo[1] < hi[1] else z
    assert cs(i) == want, "intersection %r, expected %r" % (cs(i), want)
    assert cs(a) == ca and cs(b) == cb, "operand changed"
    assert cs(BBox() | a) == ca and cs(a | BBox()) == ca, "empty box is not neutral"

def C03(case):
    a, ca = mk(case[1]); b, cb = mk(case[2])
    pts = [(fr(case[3][0]), fr(case[3][1]))] + [(x, y) for c in (ca, cb) for x in (c[0], c[2], (c[0] + c[2]) / F(2)) for y in (c[1], c[3], (c[1] + c[3]) / F(2))]
    for x, y in pts:
        w = hp(ca, x, y)
        assert bool(a.has_point((x, y))) == w, "has_point %r" % ((x, y),)
        assert ((x, y) in a) == w, "in %r" % ((x, y),)
    w = hp(ca, cb[0], cb[1]) and hp(ca, cb[2], cb[3])
    r = bool(a.has_bbox(b))
    assert (b in a) == r, "`in` differs from has_bbox"
    if r:
        for x, y in pts:
            assert not hp(cb, x, y) or hp(ca, x, y), "inside, but not %r" % ((x, y),)
    assert r == w, "box containment"
    m = max(ca[0], cb[0]), max(ca[1], cb[1])
    if ca[0] < ca[2] and ca[1] < ca[3] and cb[0] < cb[2] and cb[1] < cb[3]:
        assert bool(a.collide(b)) == (hp(ca, *m) and hp(cb, *m)), "collision"
    for bad in (None, 1, [1, 2], (1,), (1, 2, 3), "xy", set()):
        try:
            bad in a
        except TypeError:
            continue
        return "%r in box does not raise TypeError" % (bad,)

def C04(case):
    a, ca = mk(case[1]); d = dx, dy = fr(case[2][0]), fr(case[2][1]); f = F(fr(case[3]))
    ca = tuple(F(x) for x in ca)
    a = BBox((ca[0], ca[1]), (ca[2], ca[3]))
    # exact arithmetic wherever the code does not force floats
    eq = lambda u, w: all(abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(u, w))
    sh = lambda c, x, y: (c[0] + x, c[1] + y, c[2] + x, c[3] + y)
    assert eq(cs(a.translate(dx, dy)), sh(ca, dx, dy)), "translate"
    assert eq(cs(a + d), sh(ca, dx, dy)), "+"
    assert eq(cs(a - d), sh(ca, -dx, -dy)), "-"
    assert eq(cs((a + d) - d), ca), "- does not undo +"
    def sc(c, f):
        cx, cy, w, h = (c[0] + c[2]) / 2, (c[1] + c[3]) / 2, (c[2] - c[0]) * f / 2, (c[3] - c[1]) * f / 2
        return cx - w, cy - h, cx + w, cy + h
    assert eq(cs(a.scale(f)), sc(ca, f)), "scale"
    assert eq(cs(a * f), sc(ca, f)), "*"
    if f:
        assert eq(cs(a / f), sc(ca, 1 / f)), "/"
        assert eq(cs((a * f) / f), ca), "/ does not undo *"
    assert cs(a) == ca, "box changed"
    c = a.copy()
    assert type(c) is BBox and cs(c) == ca and c is not a, "copy"
    c.x0 = c.y0 = c.x1 = c.y1 = F(77)
    assert cs(a) == ca, "copy shares state"

def C05(case):
    a, ca = mk(case[1]); b, cb = mk(case[2])
    e = ca == cb
    assert (a == b) == e and (a != b) == (not e), "equality"
    if e:
        assert hash(a) == hash(b), "hash"
    ar = lambda c: (c[2] - c[0]) * (c[3] - c[1])
    assert (a < b) == (ar(ca) < ar(cb)), "order"
    assert bool(a) == (ar(ca) != 0), "truth"

def from_model(prop, unit, m):
    g = lambda n: float(m.get(n) or 0)
    b = lambda n: [g("%s_%s" % (n, f)) for f in ('x0', 'y0', 'x1', 'y1')]
    if prop == 'C01':
        if isinstance(m.get('pts'), list) and m['pts']:
            return [["pts", m['pts'], k] for k in ("list", "iter")]
        return [["cor", b("b")]]
    if prop in ('C02', 'C03', 'C05'):
        return [["two", b("a"), b("b"), [g("p_x"), g("p_y")]]]
    if prop == 'C04':
        return [["mv", b("a"), [g("dx"), g("dy")], g("f")]]
    return []
