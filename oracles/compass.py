"""Concrete oracle of the compass functions and longitude wrapping."""
import math
from coral import coord, proj

RULE = {"C11": "bearings from -360 to 1e5: multiples of 11.25 and their neighbours, random integers, fractions and floats",
        "C12": "angles up to 60 turns either way: multiples of pi/8 and their float neighbours, random floats, 0 and +-pi"}
NAMES = ['N', 'NNW', 'NW', 'WNW', 'W', 'WSW', 'SW', 'SSW', 'S', 'SSE', 'SE', 'ESE', 'E', 'ENE', 'NE', 'NNE']

def gen(prop, rng):
    if prop == 'C11':
        for k in range(-32, 100):
            for d in (0, 1e-7, -1e-7, 0.001, -0.001):
                if 11.25 * k + d >= -360:
                    yield 11.25 * k + d
        for k in range(-360, 1100):
            yield k
    else:
        for k in range(-80, 81):
            x = k * math.pi / 8
            yield x
            yield math.nextafter(x, 1e9)
            yield math.nextafter(x, -1e9)
    while True:
        c = rng.randrange(4)
        if prop == 'C11':
            yield rng.uniform(-360, 720) if c else rng.uniform(-360, 1e5)
        else:
            yield rng.uniform(-4, 4) if c == 0 else rng.uniform(-200, 200) if c == 1 else rng.randrange(-200, 200) if c == 2 else rng.choice([-1, 1]) * (math.pi + rng.uniform(-1e-6, 1e-6))

def check(prop, b):
    if prop == 'C11':
        n = coord.bearing2cardinal(b)
        assert n in NAMES, "%r is no compass point" % (n,)
        d = abs((b - 22.5 * NAMES.index(n) + 180) % 360 - 180)
        assert d <= 11.25 + 1e-8, "%s is %g degrees away from %r" % (n, d, b)
        h = coord.bearing2hours(b)
        assert 0 < h <= 12, "hour %r" % h
        t = (h - 12 + b / 30) / 12
        assert abs(t - round(t)) < 1e-9, "hour %r of %r" % (h, b)
    else:
        r = proj.corangle(b)
        assert -math.pi <= r <= math.pi, "%r is out of range" % r
        t = (r - b) / (2 * math.pi)
        assert abs(t - round(t)) < 1e-9, "%r is another direction than %r" % (r, b)
        if -math.pi <= b <= math.pi:
            assert r == b, "%r became %r" % (b, r)

def from_model(prop, unit, m):
    out = []
    for k in ('a', 'b'):
        x = m.get(k)
        if isinstance(x, list):
            x = x[0] / x[1]
        if isinstance(x, (int, float)):
            out.append(x)
    return out
