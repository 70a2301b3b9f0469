"""Concrete oracle of the map projections (C13 - C16) and the great-circle functions (C09, C10)."""
import math
from coral import proj, coord

RULE = {p: "centres and points from a grid of special values (poles, equator, date line, centre, its antipode's neighbours, multiples of 90 and 45 degrees) and random ones; radii and ellipsoids from 1e-3 to 1e9" for p in ("C09", "C10", "C13", "C14", "C15", "C16")}

LONS = [0, 45, 90, 135, 180, -45, -90, -135, -180, 30, -120, 179.999, -179.999]
LATS = [0, 45, 90, -45, -90, 30, -30, 60, -60, 89.999, -89.999, 1e-9]
CYL = ["Mercator", "EMercator", "TransMercator", "ObliqMercator"]
AZI = ["Stereographic", "AzimuthalEquidistant", "AzimuthalEqualArea"]

def lon(rng):
    return rng.choice(LONS) if rng.random() < .5 else rng.uniform(-180, 180)

def lat(rng):
    return rng.choice(LATS) if rng.random() < .5 else rng.uniform(-90, 90)

def radius(rng):
    return rng.choice([None, 1, 6371000, 1e-3, 1e9, 2, 0.5])

def near(rng, p):
    """A point equal to, close to, or far from p."""
    c = rng.randrange(8)
    if c == 0:
        return list(p)
    if c == 1:
        return [p[0] + rng.choice([360, -360]), p[1]]
    if c == 2:
        return [p[0] + rng.uniform(-1, 1) * 1e-3, max(-90, min(90, p[1] + rng.uniform(-1, 1) * 1e-3))]
    if c == 3:
        return [p[0] + 180, -p[1]]
    if c == 4:
        return [p[0] + 180 + rng.uniform(-1, 1), max(-90, min(90, -p[1] + rng.uniform(-1, 1)))]
    if c == 5:
        return [p[0] + rng.choice([0, 90, 180, -90]), lat(rng)]
    return [lon(rng), lat(rng)]

def gen(prop, rng):
    while True:
        o = [lon(rng), lat(rng)]
        if rng.randrange(12) == 0:
            o = None
        p = near(rng, o or [0, 0])
        if prop == "C09":
            yield [o or [0, 0], p, radius(rng)]
        elif prop == "C10":
            yield [o or [0, 0], p, radius(rng), rng.uniform(-360, 360), rng.choice([0, .25, .5, 1, rng.random(), rng.random()])]
        elif prop in ("C13", "C16"):
            e = rng.choice([None, 0, 0.08, 0.5, 0.9, 0.99])
            yield [rng.choice(CYL + ["ConicEqualArea"]) if prop == "C16" else rng.choice(CYL), o, radius(rng), e, p]
        elif prop == "C14":
            yield [rng.choice(AZI), o, radius(rng), None, p]
        else:
            if rng.randrange(3):
                yield ["ConicEqualArea", [lat(rng), lat(rng)], radius(rng), None, [lon(rng), lat(rng)]]
            else:
                yield ["EckertIV", o, radius(rng), None, p]

def vec(p):
    a, b = math.radians(p[0]), math.radians(p[1])
    return (math.cos(b) * math.cos(a), math.cos(b) * math.sin(a), math.sin(b))

def dist(p, q):
    """Angle between two points, accurate when small."""
    u, v = vec(p), vec(q)
    d = math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
    return 2 * math.asin(min(1, d / 2))

def ellipsoid(e, r):
    if e is None:
        return None
    a = r or 6378137.0
    b = a * math.sqrt(1 - e * e)
    return proj.Ellipsoid(a, b, e, 1 - b / a)

def make(c):
    name, o, r, e = c[:4]
    cls = getattr(proj, name)
    if name == "ConicEqualArea":
        return cls(o and tuple(o), r)
    if name == "EMercator":
        return cls(o and tuple(o), ellipsoid(e, r))
    return cls(o and tuple(o), r)

def finite(*xs):
    return all(isinstance(x, (int, float)) and not isinstance(x, bool) and math.isfinite(x) for x in xs)

def roundtrip(c):
    name, o, r, e, p = c
    prj = make(c)
    refuse = name in ("Mercator", "EMercator") and p[1] == -90
    try:
        xy = prj.geo2rect(p[0], p[1])
    except proj.ProjectionError:
        if refuse or name == "TransMercator" and abs(math.cos(math.radians(p[1])) * math.sin(math.radians(p[0]) - prj.lon0)) == 1:
            return
        raise
    assert not refuse, "the south pole is not refused: %r" % (xy,)
    assert len(xy) == 2 and finite(*xy), "projected to %r" % (xy,)
    q = prj.rect2geo(*xy)
    assert len(q) == 2 and finite(*q), "%r comes back as %r" % (xy, q)
    assert -90.0000001 <= q[1] <= 90.0000001, "latitude %r" % q[1]
    return prj, xy, q

def err(p, q):
    return max(dist(p, q), abs(math.radians(p[1] - q[1])))

def c13(c):
    name, o, r, e, p = c
    # singular points: the poles of the oblique cylinder
    if name == "ObliqMercator":
        l0, f0 = (math.radians(x) for x in (o or (0, 0)))
        la, fi = math.radians(p[0]), math.radians(p[1])
        a = math.sin(f0) * math.sin(fi) - math.cos(f0) * math.cos(fi) * math.sin(la - l0)
        if abs(a) > 1 - 1e-6:
            return
        if abs(p[1]) == 90:
            return
    if name == "TransMercator":
        b = math.cos(math.radians(p[1])) * math.sin(math.radians(p[0] - (o or (0, 0))[0]))
        if 1 - 1e-6 < abs(b):
            prj = make(c)
            if p[1] == 0 and abs(b) == 1 and not o:
                try:
                    prj.geo2rect(*p)
                except proj.ProjectionError:
                    return
                if abs(math.cos(math.radians(p[1])) * math.sin(math.radians(p[0]))) == 1:
                    return "a singular point is not refused"
            return
    got = roundtrip(c)
    if got is None:
        return
    prj, xy, q = got
    d = err(p, q)
    if name in ("EMercator",) and (e or 0) > .9 and abs(p[1]) > 89:
        return
    assert d < 1e-6, "%r comes back as %r" % (p, q)

def c14(c):
    name, o, r, e, p = c
    prj = make(c)
    o = o or [0, 0]
    anti = dist([o[0] + 180, -o[1]], p)
    if anti < 1e-6:
        return
    got = roundtrip(c)
    if anti < 2e-2:
        return
    prj, xy, q = got
    d = err(p, q)
    assert d < 1e-5, "%r comes back as %r" % (p, q)
    if list(p) == list(o):
        assert math.hypot(*xy) < 1e-9 * prj.r, "the centre projects to %r" % (xy,)
        assert d < 1e-9, "the centre comes back as %r" % (q,)

def c15(c):
    name, o, r, e, p = c
    if name == "ConicEqualArea":
        n = (math.sin(math.radians(o[0])) + math.sin(math.radians(o[1]))) / 2
        if abs(n) < 1e-3 or abs(p[0]) > 179.99:
            return
        prj, xy, q = roundtrip(c)
        assert abs(math.sin(math.radians(p[1])) - math.sin(math.radians(q[1]))) < 1e-6, "%r comes back as %r" % (p, q)
        apex = (n > 0) == (p[1] > 0) and abs(math.sin(math.radians(o[0])) - math.sin(math.radians(o[1]))) < 1e-2 and abs(p[1]) > 80
        assert apex or abs(p[1]) > 89.9 or dist(p, q) < 1e-5, "%r comes back as %r" % (p, q)
    else:
        prj, xy, q = roundtrip(c)
        assert abs(math.sin(math.radians(p[1])) - math.sin(math.radians(q[1]))) < 2e-6, "%r comes back as %r" % (p, q)
        d = (p[0] - q[0]) % 360
        l = (p[0] - (o or (0, 0))[0]) % 360
        assert abs(l - 180) < 1e-6 or min(d, 360 - d) < 1e-6, "longitude %r comes back as %r" % (p[0], q[0])

def c16(c):
    name, o, r, e, p = c
    if name == "ConicEqualArea":
        if o is None or abs(o[1]) < 1e-3 or abs(o[1]) > 89:
            return
        prj = proj.ConicEqualArea((o[1], o[1]), r)
        k = prj.scale(p[0], o[1])
        assert abs(k - 1) < 1e-9, "scale %r on the standard parallel" % k
        return
    if abs(p[1]) >= 89.9999999:
        return
    prj = make(c)
    l0, f0 = (math.radians(x) for x in (o or (0, 0)))
    la, fi = math.radians(p[0]), math.radians(p[1])
    if name == "TransMercator":
        b = math.cos(fi) * math.sin(la - l0)
        central = (l0 + 0.0, fi)
    elif name == "ObliqMercator":
        b = math.sin(f0) * math.sin(fi) - math.cos(f0) * math.cos(fi) * math.sin(la - l0)
        # where the oblique equator meets the longitude
        t = math.atan2(math.cos(f0) * math.sin(la - l0), math.sin(f0))
        central = (la, t if abs(t) < math.pi / 2 - 1e-9 else 0)
        if abs(math.sin(f0) * math.sin(central[1]) - math.cos(f0) * math.cos(central[1]) * math.sin(la - l0)) > 1e-12:
            central = None
    else:
        b, central = 0, (la, 0)
    if abs(b) < 1 - 1e-9:
        k = prj.scale(*p)
        assert k >= 1 - 1e-9, "scale %r" % k
        want = 1 / math.sqrt(1 - b * b)
        if name == "Mercator":
            want = 1 / math.cos(fi)
        if name == "EMercator":
            ee = prj.e
            want = math.sqrt(1 - (ee * math.sin(fi)) ** 2) / math.cos(fi)
        assert abs(k - want) < 1e-6 * want, "scale %r, not %r" % (k, want)
    if central is not None and abs(central[1]) < 1.57:
        k = prj.scale(math.degrees(central[0]), math.degrees(central[1]))
        assert abs(k - 1) < 1e-9, "scale %r on the central line" % k

def c09(c):
    p, q, r = c
    d = coord.haversine(p[0], p[1], q[0], q[1], r)
    e = coord.haversine(q[0], q[1], p[0], p[1], r)
    if r is None:
        m = (p[1] + q[1]) / 2
        r = coord.radiusat(m)
        a, b = proj.WGS84.a, proj.WGS84.b
        assert b * (1 - 1e-12) <= r <= a * (1 + 1e-12), "radius %r" % r
        C, S = math.cos(math.radians(m)), math.sin(math.radians(m))
        want = math.sqrt(((a * a * C) ** 2 + (b * b * S) ** 2) / ((a * C) ** 2 + (b * S) ** 2))
        assert abs(r - want) < 1e-9 * want, "radius %r, not %r" % (r, want)
    assert finite(d) and 0 <= d <= math.pi * r * (1 + 1e-9), "distance %r with radius %r" % (d, r)
    assert abs(d - e) <= 1e-7 * r, "%r one way, %r the other" % (d, e)
    w = dist(p, q)
    assert abs(d / r - w) < 1e-7, "central angle %r, not %r" % (d / r, w)
    if p == q:
        assert d == 0

def c10(c):
    p, q, r, b, f = c
    if abs(p[1]) > 89.9:
        return
    R = r if r is not None else coord.radiusat(p[1])
    d = f * math.pi * R
    z = coord.destination(p[0], p[1], b, d, r)
    assert finite(*z)
    assert abs(dist(p, z) - f * math.pi) < 1e-6, "asked for %r, went %r" % (f * math.pi, dist(p, z))
    if r is not None:
        d = coord.haversine(p[0], p[1], q[0], q[1], r)
        t = coord.bearing(p[0], p[1], q[0], q[1])
        z = coord.destination(p[0], p[1], t, d, r)
        anti = dist([p[0] + 180, -p[1]], q)
        assert dist(z, q) < (1e-6 if anti > 1e-2 else 1e-4), "towards %r one gets to %r" % (q, z)
    if dist([p[0] + 180, -p[1]], q) > 1e-3:
        m = coord.midpoint(p[0], p[1], q[0], q[1])
        a, b = dist(p, m), dist(q, m)
        assert abs(a - b) < 1e-7, "the midpoint %r is %r and %r away" % (m, a, b)
        assert abs(a - dist(p, q) / 2) < 1e-6, "the midpoint is %r away from the ends, %r apart" % (a, dist(p, q))

CHECK = {"C09": c09, "C10": c10, "C13": c13, "C14": c14, "C15": c15, "C16": c16}

def check(prop, c):
    return CHECK[prop](c)

def _n(x):
    return x[0] / x[1] if isinstance(x, list) and len(x) == 2 else x

def from_model(prop, unit, m):
    g = lambda k, d=0: float(_n(m.get(k, d)) or 0)
    o = [g("lon0"), g("lat0")]
    p = [g("lon"), g("lat")]
    r = abs(g("radius", 1)) or 1
    name = unit.split(".")[1] if "." in unit else unit
    if prop in ("C13", "C14", "C16") and name in CYL + AZI:
        return [[name, o, r, min(g("e"), .9), p]]
    if prop == "C15":
        return [[name, o if name == "EckertIV" else [g("lat1"), g("lat2")], r, None, p]]
    if prop == "C09":
        return [[[g("lon1"), g("lat1")], [g("lon2"), g("lat2")], r], [[g("lon1"), g("lat1")], [g("lon2"), g("lat2")], None]]
    if prop == "C10":
        return [[[g("lon1"), g("lat1")], [g("lon2"), g("lat2")], r, g("bear"), 0.3]]
    return []
