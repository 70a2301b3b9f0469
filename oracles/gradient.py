"""Concrete oracle of colour gradients (C29)."""
from coral import gradient

RULE = {"C29": "1 to 7 stops in any order, positions in [0,1] with and without stops at the ends and with repeated positions; positions at stops, between, before and after; channels in [0,1], multiples of 1/15 and of 1/30 included"}

def gen(prop, rng):
    def chan():
        return rng.choice([0, 1, rng.randrange(16) / 15, rng.randrange(31) / 30, rng.random()])
    for x in [i / 64 for i in range(65)]:
        yield [[[0, [0, 0, 0]], [1, [1, 1, 1]]], x]
        yield [[[0.5, [0.25, 0.5, 1]]], x]
    while True:
        n = rng.randrange(1, 8)
        ps = [rng.choice([0, 1, 0.5, 0.25, rng.random(), rng.randrange(17) / 16]) for _ in range(n)]
        if rng.randrange(4) == 0 and n > 1:
            ps[1] = ps[0]
        stops = [[p, [chan(), chan(), chan()]] for p in ps]
        x = rng.choice([rng.choice(ps), rng.random(), 0, 1, rng.randrange(33) / 32])
        yield [stops, x]

def check(prop, c):
    stops, x = c
    given = [(p, tuple(rgb)) for p, rgb in stops]
    g = gradient.Gradient(list(given))
    ys = [g.get(x), gradient.Gradient(list(reversed(given))).get(x)]
    ps = sorted(p for p, _ in given)
    at = [rgb for p, rgb in given if p == x]
    if at:
        want = at
    elif x < ps[0]:
        want = [rgb for p, rgb in given if p == ps[0]]
    elif x > ps[-1]:
        want = [rgb for p, rgb in given if p == ps[-1]]
    else:
        a, b = max(p for p in ps if p < x), min(p for p in ps if p > x)
        t = (x - a) / (b - a)
        want = [tuple(u * (1 - t) + w * t for u, w in zip(ca, cb)) for p, ca in given if p == a for q, cb in given if q == b]
    for y in ys:
        y = tuple(y)
        assert len(y) == 3 and any(all(abs(u - w) < 1e-9 for u, w in zip(y, e)) for e in want), "colour %r at %r, expected one of %r" % (y, x, want)
    y = ys[0]
    h = g.get_hex(x)
    assert isinstance(h, str) and len(h) == 4 and h[0] == "#", "hex form %r" % (h,)
    for d, ch in zip(h[1:], y):
        assert d in "0123456789abcdef" and int(d, 16) == int(ch * 15), "digit %r for channel %r" % (d, ch)

def from_model(prop, unit, m):
    s, x = m.get('stops'), m.get('x')
    num = lambda v: v[0] / v[1] if isinstance(v, list) and len(v) == 2 and all(isinstance(a, int) for a in v) else v
    if isinstance(s, list) and s:
        return [[[[num(p), [min(1, max(0, num(k))) for k in c]] for p, c in s], num(x)]]
    return []
