"""Contracts of the map projections (C13 - C16) and of the great-circle functions (C09, C10)."""
from pyvc.facade import *
from contracts.templates import locals_of

def corangle_contract(it, f, a):
    """Proved as C12: a whole number of turns away, in [-pi, pi], unchanged when already there."""
    x = R(next(iter(a.values())))
    t = it.p.trig
    pi = it.facade.BI.ext_attr(it, 'math.pi')
    w = x - t.turn()
    it.p.fact(And(w >= -pi, w <= pi))
    it.p.fact(Implies(And(x >= -pi, x <= pi), w == x))
    return w

def rad(v, x):
    return R(x) * v.BI.ext_attr(v.it, 'math.pi') / 180

def trig_unit(name, fn, roots=(), **kw):
    u = Unit(name, fn, overrides={"proj.corangle": corangle_contract}, **kw)
    u.trig = True
    u.roots = list(roots)
    return u

def sc(v, deg):
    """Sine and cosine of an angle in degrees."""
    t = v.p.trig
    s, c = t.sincos(rad(v, deg))
    return t.value(s), t.value(c)

def centre(v, poles=True):
    v.p.trig.geographic |= {"lon", "lat", "dlon", "lon0", "lat0"}
    lon0 = v.real("lon0")
    lat0 = v.real("lat0", -90, 90)
    if not poles:
        v.assume(lat0 > -90, lat0 < 90)
    return lon0, lat0

def radius(v):
    r = v.real("radius")
    v.assume(r > 0)
    return r

def point(v, lon0=0):
    """A point that is not a pole; its longitude is given by the difference from lon0."""
    lon, lat = lon0 + v.real("dlon"), v.real("lat")
    v.note("lon", lon)
    v.assume(lat > -90, lat < 90)
    sc(v, lat)
    return lon, lat

def back(v, prj, lon, lat, pole=False):
    xy = v.meth(prj, 'geo2rect', lon, lat)
    ok = isinstance(xy, tuple) and len(xy) == 2 and all(is_num(c) for c in xy)
    v.prove("projecting gives two coordinates", ok)
    if not ok:
        return
    ll = v.meth(prj, 'rect2geo', *xy)
    ok = isinstance(ll, tuple) and len(ll) == 2 and all(is_num(c) for c in ll)
    v.prove("the inverse gives two coordinates", ok)
    if not ok:
        return
    same_point(v, ll, lon, lat, pole)

def same_point(v, ll, lon, lat, pole=False):
    t = v.p.trig
    if pole:
        # every longitude is that of a pole
        v.prove("the latitude comes back", R(ll[1]) == R(lat))
        return
    t.prove_angle("the longitude comes back (modulo 360)", rad(v, ll[0]), rad(v, lon))
    t.prove_angle("the latitude comes back", rad(v, ll[1]), rad(v, lat))
    v.prove("the latitude is in range", And(R(ll[1]) >= -90, R(ll[1]) <= 90))

def u_mercator(v):
    lon0, lat0 = centre(v)
    r = radius(v)
    lon, lat = point(v, lon0)
    p = v.call('proj.Mercator', (lon0, lat0), r)
    back(v, p, lon, lat)
    v.reach("done")

def u_trans(v):
    lon0, lat0 = centre(v)
    r = radius(v)
    lon, lat = point(v, lon0)
    t = v.p.trig
    sd, cd = (t.value(x) for x in t.sincos(rad(v, lon) - rad(v, lon0)))
    s, c = sc(v, lat)
    # not one of the two singular points, where cos(lat) sin(lon - lon0) is 1 or -1
    v.assume(Not(And(s == 0, cd == 0)))
    # q = sqrt(1 - b^2) is cos(lat) times the hypotenuse of (tan(lat), cos(lon - lon0))
    h = t.root(t.canon(s * s / (c * c) + cd * cd))
    t.cands.append(lambda tt: [c * t.term(h)])
    p = v.call('proj.TransMercator', (lon0, lat0), r)
    back(v, p, lon, lat)
    v.reach("done")


def oblique_frame(v, lon0, lat0, lon, lat):
    """Sine of the angle from the oblique equator, and the two components along it (over cos(lat))."""
    t = v.p.trig
    s0, c0 = map(R, sc(v, lat0))
    s, c = map(R, sc(v, lat))
    sd, cd = (R(t.value(x)) for x in t.sincos(rad(v, lon) - rad(v, lon0)))
    return R(t.simp(s0 * s - c0 * c * sd)), R(t.simp(s / c * c0 + s0 * sd)), cd, s, c

def u_oblique(v):
    lon0, lat0 = centre(v)
    r = radius(v)
    lon, lat = point(v, lon0)
    t = v.p.trig
    a, w, h, s, c = oblique_frame(v, lon0, lat0, lon, lat)
    # not a pole of the oblique equator
    v.assume(a > -1, a < 1)
    q = t.root(t.canon(w * w + h * h))
    t.prove_equal("lemma: the frame is orthonormal", a * a + c * c * (w * w + h * h), 1)
    W, Hh, A, Cc = v.real("W"), v.real("Hh"), v.real("A"), v.real("Cc")
    v.prove("lemma: only the poles have no direction", Implies(And(A > -1, A < 1, A * A + Cc * Cc * (W * W + Hh * Hh) == 1), Not(And(W == 0, Hh == 0))))
    v.p.fact(Not(And(w == 0, h == 0)))
    v.p.fact(t.term(q) > 0)
    t.cands.append(lambda tt: [c * t.term(q)])
    p = v.call('proj.ObliqMercator', (lon0, lat0), r)
    back(v, p, lon, lat)
    v.reach("done")

def u_refuse(name, model):
    """The singular points are refused with a projection error."""
    def run(v):
        t = v.p.trig
        lon0, lat0 = centre(v)
        p = v.call('proj.' + name, (lon0, lat0), radius(v) if model == 'sphere' else ellipsoid(v))
        if name == 'TransMercator':
            turn = v.BI.ext_attr(v.it, 'math.pi')
            lon, lat = lon0 + v.choose(90, -90) + R(t.turn()) * 180 / turn, Fraction(0)
        else:
            lon, lat = v.real("lon"), v.choose(-90, Fraction(-90))
        kind, exc = v.attempt(lambda: v.meth(p, 'geo2rect', lon, lat))
        v.prove("refused with a projection error", kind == 'raise' and v.raised(exc, 'ProjectionError'))
        v.reach("done")
    return run

def u_default(name, model):
    """Without arguments the centre is (0, 0) and the Earth is the WGS84 one."""
    def run(v):
        t = v.p.trig
        v.p.trig.geographic |= {"lon", "lat", "dlon", "lon0", "lat0"}
        lon, lat = point(v)
        if name == 'Mercator' or name == 'EMercator':
            sc(v, lat / 2)
        W = v.get('proj.WGS84')
        a, b = v.attr(W, 'a'), v.attr(W, 'b')
        p = v.call('proj.' + name)
        q = v.call('proj.' + name, (0, 0), (R(a) + R(b)) / 2 if model == 'sphere' else W)
        for m in ('lon0', 'lat0') + (('r',) if model == 'sphere' else ('a', 'b', 'e')):
            t.prove_equal("the same " + m, v.attr(p, m), v.attr(q, m))
        v.reach("done")
    return run

# ---------------------------------------------------------------- the ellipsoidal Mercator (C13)
def ellipsoid(v):
    a, b, e, f = v.real("a"), v.real("b"), v.real("e"), v.real("f")
    v.assume(a > 0, b > 0, b <= a, e >= 0, e < 1, f >= 0, f < 1)
    v.p.unit.args['e'] = e
    return v.call('proj.Ellipsoid', a, b, e, f)

def iso(v, s, c):
    """exp of minus the isometric latitude, from the sine and cosine of the latitude."""
    e = v.p.unit.args['e']
    t = v.p.trig
    s, c = R(s), R(c)
    return R(t.simp(c / (1 + s) * iso_pow(v, s)))

def iso_pow(v, s):
    e = v.p.unit.args['e']
    return R(v.BI.power(v.it, v.p.trig.simp((1 + e * R(s)) / (1 - e * R(s))), e / 2))

def u_emercator_to(v):
    """x is a turn-corrected a * (lon - lon0), y is a times the isometric latitude."""
    lon0, lat0 = centre(v)
    ell = ellipsoid(v)
    lon, lat = point(v, lon0)
    t = v.p.trig
    sc(v, lat / 2)
    s, c = sc(v, lat)
    p = v.call('proj.EMercator', (lon0, lat0), ell)
    x, y = v.meth(p, 'geo2rect', lon, lat)
    a = v.attr(ell, 'a')
    t.prove_angle("x is the longitude from the centre", R(x) / a, rad(v, lon) - rad(v, lon0))
    t.prove_equal("y is the isometric latitude", t.exp(-R(y) / a), iso(v, s, c))
    v.reach("done")

def inv_iso(L):
    v, a = L.v, L.a
    t = v.p.trig
    if 'iso' not in a or t is None:
        return
    pi = v.BI.ext_attr(v.it, 'math.pi')
    nums = [(n, R(x)) for n, x in L.numbers() if '.' not in n and not is_bool(x)]
    for n, x in nums:
        yield "%s below pi/2" % n, x < pi / 2
        yield "%s above -pi/2" % n, x > -pi / 2

def u_emercator_from(v):
    """For every y that is the isometric latitude of some latitude, the inverse gives that latitude."""
    lon0, lat0 = centre(v)
    ell = ellipsoid(v)
    x, y = v.real("x"), v.real("y")
    lat = v.real("lat", -90, 90)
    v.assume(lat > -90, lat < 90)
    t = v.p.trig
    s, c = sc(v, lat)
    a = v.attr(ell, 'a')
    v.p.unit.args['iso'] = E = R(t.exp(-y / a))
    v.assume(iso(v, s, c) == E)
    p = v.call('proj.EMercator', (lon0, lat0), ell)
    lon2, lat2 = v.meth(p, 'rect2geo', x, y)
    t.prove_angle("the longitude is the centre's plus x / a", rad(v, lon2), x / a + rad(v, lon0))
    l2 = rad(v, lat2)
    s2, c2 = (t.value(q) for q in t.sincos(l2))
    v.prove("the latitude is in range", And(R(lat2) > -90, R(lat2) < 90))
    # equal angles have equal sines, cosines and functions of them
    P2 = iso_pow(v, s2)
    for y in t.plain_angles():
        sy, cy = (t.value(q) for q in t.sincos(y))
        v.p.fact(Implies(R(t.simp(l2)) == y, And(R(s2) == R(sy), R(c2) == R(cy), P2 == iso_pow(v, sy))))
    v.prove("the latitude has the isometric latitude asked for", iso(v, s2, c2) == E)
    # Lean: the isometric latitude is injective
    v.assumption("lean: Projections.iso_injective")
    v.assume(Implies(iso(v, s2, c2) == iso(v, s, c), t.simp(l2) == t.simp(rad(v, lat))))
    v.prove("the latitude comes back", R(t.simp(l2)) == R(t.simp(rad(v, lat))))
    v.reach("done")

# ---------------------------------------------------------------- azimuthal projections (C14)
AZIMUTHAL = ['Stereographic', 'AzimuthalEquidistant', 'AzimuthalEqualArea']

def u_azimuthal(name, aspect, where):
    def run(v):
        t = v.p.trig
        lon0, lat0 = centre(v)
        r = radius(v)
        if aspect == 'north':
            lat0 = Fraction(90)
        elif aspect == 'south':
            lat0 = Fraction(-90)
        else:
            v.assume(lat0 > -90, lat0 < 90)
        if where == 'centre':
            p = v.call('proj.' + name, (lon0, lat0), r)
            # the longitude of the centre, any number of turns away, or any longitude when it is a pole
            lon = lon0 + (R(t.turn()) * 180 / v.BI.ext_attr(v.it, 'math.pi') if aspect == 'oblique' else v.real("dlon"))
            lon = v.choose(lon0, lon)
            xy = v.meth(p, 'geo2rect', lon, lat0)
            t.prove_equal("the centre projects to the origin", xy[0], 0)
            t.prove_equal("the centre projects to the origin", xy[1], 0)
            same_point(v, v.meth(p, 'rect2geo', *xy), lon, lat0, aspect != 'oblique')
            v.reach("done")
            return
        if where == 'pole':
            # any longitude; a pole as the point (not the centre nor its antipode)
            lon, lat = lon0 + v.real("dlon"), v.choose(Fraction(90), Fraction(-90))
        else:
            lon, lat = point(v, lon0)
        s0, c0 = map(R, sc(v, lat0))
        s, c = map(R, sc(v, lat))
        sd, cd = map(R, (t.value(x) for x in t.sincos(rad(v, lon) - rad(v, lon0))))
        # the direction of the point in the frame of the centre
        cosc = t.simp(s0 * s + c0 * c * cd)
        u, w = t.simp(c * sd), t.simp(c0 * s - s0 * c * cd)
        v.assume(R(cosc) > -1)
        v.assume(Not(And(R(u) == 0, R(w) == 0)))
        sinc = t.root(t.canon(R(u) * R(u) + R(w) * R(w)))
        v.assume(t.term(sinc) > 0)
        S = t.term(sinc)
        # the cosine of half that angle is H / 2, its sine S / H
        H = t.term(t.root(t.canon(2 + 2 * R(cosc))))
        v.assume(H > 0)
        t.prove_equal("lemma: sine and cosine of the angle from the centre", S * S, (1 - R(cosc)) * (1 + R(cosc)))
        K, S1, H1 = v.real("K"), v.real("S1"), v.real("H1")
        v.prove("lemma: bounds of the half-angle", Implies(And(K > -1, S1 > 0, S1 * S1 == (1 - K) * (1 + K), H1 > 0, H1 * H1 == 2 + 2 * K), And(H1 <= 2, S1 <= 1, S1 < H1)))
        v.p.fact(And(H <= 2, S <= 1, S < H))
        def cands(tt):
            yield S
            for q, (kind, args, sq, cq) in list(tt.angles.items()):
                if kind in ('acos', 'atan2'):
                    yield r * tt.vars[q]
                    yield tt.vars[q]
            yield r * 2 * S / (1 + R(cosc))
            yield r * 2 * S / H
            yield r * 4 / H
            yield H / 2
            yield 2 / H
        t.cands.append(cands)
        t.prefer += [R(cosc), S]
        p = v.call('proj.' + name, (lon0, lat0), r)
        back(v, p, lon, lat, where == 'pole')
        v.reach("done")
    return run

# ---------------------------------------------------------------- the conic projection (C15)
def u_conic(side, where):
    def run(v):
        t = v.p.trig
        t.geographic |= {"lon", "lat", "lat1", "lat2"}
        r = radius(v)
        pi = v.BI.ext_attr(v.it, 'math.pi')
        lon = v.real("lon", -180, 180)
        if where == 'polar':
            lat1 = lat2 = Fraction(90 * side)
        else:
            lat1, lat2 = v.real("lat1", -90, 90), v.real("lat2", -90, 90)
        lat = v.choose(Fraction(90), Fraction(-90)) if where == 'pole' else v.real("lat")
        if where != 'pole':
            v.assume(lat > -90, lat < 90)
        (s1, _), (s2, _), (s, _) = (map(R, sc(v, x)) for x in (lat1, lat2, lat))
        n = R(t.simp((s1 + s2) / 2))
        if where != 'polar':
            v.assume(n > 0 if side > 0 else n < 0)
            v.assume(n > -1, n < 1)
        g = R(t.simp(1 + s1 * s2 - (s1 + s2) * s))
        P, Q, X = v.real("P"), v.real("Q"), v.real("X")
        box = And(P >= -1, P <= 1, Q >= -1, Q <= 1, X >= -1, X <= 1)
        v.prove("lemma: no parallel lies beyond the apex", Implies(box, And(1 + P * Q - (P + Q) * X >= 0, 1 + P * Q >= 0, Implies(And(X > -1, X < 1, P + Q != 0), 1 + P * Q - (P + Q) * X > 0))))
        v.p.fact(And(g >= 0, R(t.simp(1 + s1 * s2)) >= 0))
        if where != 'pole':
            v.p.fact(g > 0)
        q = t.term(t.root(t.canon(g)))
        def cands(tt):
            yield r * q / n
            yield q
        t.cands.append(cands)
        p = v.call('proj.ConicEqualArea', (lat1, lat2), r)
        xy = v.meth(p, 'geo2rect', lon, lat)
        ll = v.meth(p, 'rect2geo', *xy)
        ok = all(isinstance(x, tuple) and len(x) == 2 and all(is_num(c) for c in x) for x in (xy, ll))
        v.prove("two coordinates", ok)
        if not ok:
            return
        v.prove("the latitude is in range", And(R(ll[1]) >= -90, R(ll[1]) <= 90))
        if where == 'pole':
            v.prove("the latitude comes back", R(ll[1]) == R(lat))
            v.reach("done")
            return
        t.prove_angle("the latitude comes back", rad(v, ll[1]), rad(v, lat))
        if where == 'polar':
            t.prove_angle("the longitude comes back (modulo 360)", rad(v, ll[0]), rad(v, lon))
            v.reach("done")
            return
        T, U = R(t.simp(rad(v, ll[0]) * n)), R(t.simp(rad(v, lon) * n))
        t.prove_angle("the angle at the apex comes back", T, U)
        v.prove("the angle at the apex is in range", And(T >= -pi, T <= pi))
        # T and U have the same sine and cosine, so that T / pi and U / pi differ by an even number 2 k
        N, L, k = v.real("N"), v.real("L"), v.int("k")
        v.prove("lemma: the longitudes fit in one turn at the apex", Implies(And(N > -1, N < 1, L >= -1, L <= 1), And(N * L > -1, N * L < 1)))
        v.p.fact(And(U > -pi, U < pi))
        A, B_ = v.real("A"), v.real("B")
        v.prove("lemma: no turn is lost", Implies(And(A >= -1, A <= 1, B_ > -1, B_ < 1, A - B_ == 2 * k), k == 0))
        v.p.fact(T - U == 0)
        v.prove("the longitude comes back", t.fdiv(t.canon(T), t.canon(n)) == t.canon(rad(v, ll[0])) and t.fdiv(t.canon(U), t.canon(n)) == t.canon(rad(v, lon)))
        v.reach("done")
    return run

# ---------------------------------------------------------------- Eckert IV (C15)
def eckert_G(v, x):
    """theta + sin(theta) cos(theta) + 2 sin(theta), and the sine and cosine."""
    s, c = (R(v.p.trig.value(q)) for q in v.p.trig.sincos(x))
    return R(v.p.trig.simp(x + s * c + 2 * s)), s, c

def eckert_C(v):
    return 2 + R(v.BI.ext_attr(v.it, 'math.pi')) / 2

def inv_eckert(L):
    v, a = L.v, L.a
    t = v.p.trig
    if t is None or 'sinlat' not in a:
        return
    S, side, C = a['sinlat'], a['side'], eckert_C(v)
    pi = R(v.BI.ext_attr(v.it, 'math.pi'))
    def angle(n, x):
        e = L.entryvals.get(n)
        return '.' not in n and not is_bool(x) and isz(e) and not any(t.equal(e, y) for y in a['given'])
    for n, x in [(n, R(x)) for n, x in L.numbers() if angle(n, x)]:
        def facts(x=x, n=n):
            # Lean: eckert_start at lat / 2, eckert_step from where the iteration began
            G, s, c = eckert_G(v, x)
            h = a['lat'] / 2
            G0 = eckert_G(v, h)[0]
            if t.equal(x, h):
                v.p.fact(side * (G - C * S) <= 0)
            old = a.get(('from', n))
            if old is not None and old[0] is v.p:
                y = old[1]
                Gy, sy, cy = eckert_G(v, y)
                if t.equal((x - y) * 2 * cy * (1 + cy), C * S - Gy):
                    v.p.fact(Implies(And(side * y >= 0, side * y < pi / 2, side * (Gy - C * S) <= 0),
                                     And(side * x >= side * y, side * x < pi / 2, side * (G - C * S) <= 0, c > 0)))
            a['from', n] = (v.p, x)
            return G, c
        yield "%s: on the side of the latitude" % n, side * x >= 0
        yield "%s: less than a quarter turn" % n, lambda f=facts, x=x: (f(), side * x < pi / 2)[1]
        yield "%s: not past the root" % n, lambda f=facts, x=x: side * (eckert_G(v, x)[0] - C * S) <= 0
        yield "%s: its cosine is positive" % n, lambda f=facts, x=x: eckert_G(v, x)[2] > 0

def u_eckert(side):
    def run(v):
        t = v.p.trig
        lon0, lat0 = centre(v)
        r = radius(v)
        pi = R(v.BI.ext_attr(v.it, 'math.pi'))
        lon, lat = lon0 + v.real("dlon"), v.real("lat")
        v.note("lon", lon)
        v.assume(lat > -90, lat < 90, lat >= 0 if side > 0 else lat <= 0)
        sc(v, lat / 2)
        S = R(sc(v, lat)[0])
        v.p.unit.args.update(sinlat=S, side=side, lat=R(t.simp(rad(v, lat))), given=[lon, lat, rad(v, lon), rad(v, lat), S, R(sc(v, lat)[1])])
        p = v.call('proj.EckertIV', (lon0, lat0), r)
        xy = v.meth(p, 'geo2rect', lon, lat)
        # Lean: eckert_range
        for x in t.plain_angles():
            G, s, c = eckert_G(v, x)
            v.p.fact(Implies(And(x > -pi / 2, x < pi / 2), And(G < eckert_C(v), G > -eckert_C(v), R(t.simp(1 - G / eckert_C(v))) > 0, R(t.simp(1 + G / eckert_C(v))) > 0)))
        v.assumption("lean: Projections.eckert_start, Projections.eckert_step, Projections.eckert_range")
        ll = v.meth(p, 'rect2geo', *xy)
        ok = all(isinstance(x, tuple) and len(x) == 2 and all(is_num(c) for c in x) for x in (xy, ll))
        v.prove("two coordinates", ok)
        if not ok:
            return
        t.prove_angle("the longitude comes back (modulo 360)", rad(v, ll[0]), rad(v, lon))
        v.prove("the latitude is in range", And(R(ll[1]) >= -90, R(ll[1]) <= 90))
        s2 = R(sc(v, ll[1])[0])
        D = R(t.simp(s2 - S))
        for x in t.plain_angles():
            G, s, c = eckert_G(v, x)
            F = R(t.simp(G - eckert_C(v) * S))
            if t.equal(D * eckert_C(v), F):
                # the last step was at most 1e-6
                v.prove("the sine is that of the last but one solution", True)
                m = 2 * c * (1 + c) / 10 ** 6
                F0, D0, C0, c0 = v.real("F0"), v.real("D0"), v.real("C0"), v.real("c0")
                v.prove("the last step was small", And(F <= m, F >= -m))
                v.prove("lemma: how far the sine is", Implies(And(c0 > 0, c0 <= 1, D0 * C0 == F0, C0 > 3, F0 <= 2 * c0 * (1 + c0) / 10 ** 6, F0 >= -2 * c0 * (1 + c0) / 10 ** 6),
                                                              And(D0 <= Fraction(2, 10 ** 6), D0 >= -Fraction(2, 10 ** 6))))
                v.p.fact(And(D <= Fraction(2, 10 ** 6), D >= -Fraction(2, 10 ** 6)))
                break
        v.prove("the sine of the latitude comes back within 2e-6", And(D <= Fraction(2, 10 ** 6), D >= -Fraction(2, 10 ** 6)))
        v.reach("done")
    return run

# ---------------------------------------------------------------- scale factors (C16)
def u_scale(name, model='sphere'):
    def run(v):
        t = v.p.trig
        lon0, lat0 = centre(v)
        r = radius(v) if model == 'sphere' else None
        p = v.call('proj.' + name, (lon0, lat0), r if model == 'sphere' else ellipsoid(v))
        lon, lat = point(v, lon0)
        s, c = map(R, sc(v, lat))
        sd, cd = (R(t.value(x)) for x in t.sincos(rad(v, lon) - rad(v, lon0)))
        if name == 'Mercator':
            off, want = s, 1 / (c * c)
        elif name == 'EMercator':
            e = v.p.unit.args['e']
            off, want = s, (1 - e * e * s * s) / (c * c)
        else:
            off = c * sd if name == 'TransMercator' else oblique_frame(v, lon0, lat0, lon, lat)[0]
            off = R(t.simp(off))
            v.assume(off > -1, off < 1)
            want = 1 / (1 - off * off)
        central = v.choose(False, True)
        if central:
            # on the equator of the projection
            v.assume(off == 0)
        k = v.meth(p, 'scale', lon, lat)
        v.prove("a number", is_num(k))
        k = R(k)
        v.prove("positive", k > 0)
        t.prove_equal("the stretch of the projection there", k * k, want)
        # the rest follows from k > 0 and k^2 alone
        K, O, C, E = v.real("K"), v.real("O"), v.real("C"), v.real("E")
        if name == 'Mercator':
            hyp = And(C > 0, C * C + O * O == 1, K * K * (C * C) == 1)
            t.prove_equal("1 / cos(latitude)", k, 1 / c)
        elif name == 'EMercator':
            hyp = And(C > 0, C * C + O * O == 1, E >= 0, E < 1, K * K * (C * C) == 1 - E * E * O * O)
        else:
            hyp = And(O > -1, O < 1, K * K * (1 - O * O) == 1)
        v.prove("lemma: at least 1, and 1 on the central line", Implies(And(K > 0, hyp), And(K >= 1, Implies(O == 0, K == 1))))
        v.p.fact(And(k >= 1, Implies(off == 0, k == 1)))
        v.prove("at least 1", k >= 1)
        if central:
            v.prove("1 on the central line", k == 1)
        v.reach("done")
        if central:
            v.reach("central")
    return run

def u_scale_conic(v):
    t = v.p.trig
    lat1 = v.real("lat1", -90, 90)
    v.assume(lat1 > -90, lat1 < 90, lat1 != 0)
    sc(v, lat1)
    # the same parallel given twice
    p = v.call('proj.ConicEqualArea', (lat1, lat1), radius(v))
    k = v.meth(p, 'scale', v.real("lon"), lat1)
    t.prove_equal("1 on the standard parallel", k, 1)
    v.reach("done")

# ---------------------------------------------------------------- great circles (C09, C10)
def two_points(v, poles=True):
    """Two points; the half-angles of everything are the atoms."""
    t = v.p.trig
    t.geographic |= {"lon1", "dlon", "lat1", "lat2"}
    lon1, lat1, lat2 = v.real("lon1"), v.real("lat1", -90, 90), v.real("lat2", -90, 90)
    lon2 = lon1 + v.real("dlon")
    v.note("lon2", lon2)
    if not poles:
        v.assume(lat1 > -90, lat1 < 90, lat2 > -90, lat2 < 90)
    for x in (lat1 / 2, lat2 / 2, (lon2 - lon1) / 2, lat1, lat2):
        sc(v, x)
    for x in (lat1, lat2):
        c = R(sc(v, x)[1])
        v.p.fact(c >= 0)
        if not poles:
            v.p.fact(c > 0)
    return lon1, lat1, lon2, lat2

def hav(v, lon1, lat1, lon2, lat2):
    """The haversine of the central angle; it lies between 0 and 1."""
    t = v.p.trig
    (sd, cd), (ss, _), (sl, cl) = (map(R, sc(v, x)) for x in ((lat2 - lat1) / 2, (lat1 + lat2) / 2, (lon2 - lon1) / 2))
    c1, c2 = R(sc(v, lat1)[1]), R(sc(v, lat2)[1])
    a = R(t.simp(sd * sd + sl * sl * c1 * c2))
    t.prove_equal("lemma: the rest of the haversine is a sum of squares", 1 - a, cd * cd * cl * cl + ss * ss * sl * sl)
    v.p.fact(And(a >= 0, 1 - a >= 0, a <= 1))
    # also in the form it is compared
    v.p.fact(R(t.simp(1 - a)) >= 0)
    v.p.fact(R(t.simp(a - 1)) <= 0)
    return a

def cos_between(v, lon1, lat1, lon2, lat2):
    """Cosine of the angle between two directions."""
    t = v.p.trig
    (s1, c1), (s2, c2) = (map(R, sc(v, x)) for x in (lat1, lat2))
    cd = R(t.value(t.sincos(rad(v, lon2) - rad(v, lon1))[1]))
    return R(t.simp(s1 * s2 + c1 * c2 * cd))

def haversine_contract(it, f, a):
    """Proved as C09: R times the angle between the points, in [0, pi R]."""
    v = it.facade
    t = it.p.trig
    lon1, lat1, lon2, lat2, r = a['lon1'], a['lat1'], a['lon2'], a['lat2'], R(a['R'])
    return r * R(t.acos(cos_between(v, lon1, lat1, lon2, lat2)))

def u_towards(which):
    def run(v):
        t = v.p.trig
        t.geographic |= {"lon1", "dlon", "lat1", "lat2"}
        pi = v.BI.ext_attr(v.it, 'math.pi')
        lon1, lat1, r = v.real("lon1"), v.real("lat1"), radius(v)
        v.assume(lat1 > -90, lat1 < 90)
        if which == 'other':
            lon2, lat2 = lon1 + v.real("dlon"), v.real("lat2")
        else:
            turns = R(t.turn()) * 180 / pi
            lon2, lat2 = (lon1 + turns, lat1) if which == 'same' else (lon1 + 180 + turns, -lat1)
        v.note("lon2", lon2)
        v.assume(lat2 > -90, lat2 < 90)
        (s1, c1), (s2, c2) = (map(R, sc(v, x)) for x in (lat1, lat2))
        sd, cd = (R(t.value(x)) for x in t.sincos(rad(v, lon2) - rad(v, lon1)))
        cosc = cos_between(v, lon1, lat1, lon2, lat2)
        u, w = R(t.simp(c2 * sd)), R(t.simp(c1 * s2 - s1 * c2 * cd))
        S = None
        if which == 'other':
            v.assume(Not(And(u == 0, w == 0)))
            S = t.term(t.root(t.canon(u * u + w * w)))
            t.prove_equal("lemma: sine and cosine of the angle between the points", S * S, (1 - cosc) * (1 + cosc))
            K, S1 = v.real("K"), v.real("S1")
            v.prove("lemma: bounds of the cosine", Implies(And(S1 >= 0, S1 * S1 == (1 - K) * (1 + K)), And(K >= -1, K <= 1)))
            v.p.fact(And(S > 0, cosc >= -1, cosc <= 1, R(t.simp(1 + cosc)) >= 0, R(t.simp(1 - cosc)) >= 0))
            t.cands.append(lambda tt: [S, c1 * c2])
        t.prefer += [s2, c2]
        b = v.call('coord.bearing', lon1, lat1, lon2, lat2)
        d = v.call('coord.haversine', lon1, lat1, lon2, lat2, r)
        ll = v.call('coord.destination', lon1, lat1, b, d, r)
        ok = isinstance(ll, tuple) and len(ll) == 2 and all(is_num(c) for c in ll)
        v.prove("two coordinates", ok)
        if ok:
            same_point(v, ll, lon2, lat2)
        v.reach("done")
    return run

def u_destination(v):
    t = v.p.trig
    t.geographic |= {"lon1", "lat1", "bear"}
    pi = v.BI.ext_attr(v.it, 'math.pi')
    lon1, lat1, r, bear = v.real("lon1"), v.real("lat1"), radius(v), v.real("bear")
    v.assume(lat1 > -90, lat1 < 90)
    dist = v.real("dist")
    s1, c1 = map(R, sc(v, lat1))
    sb, cb = map(R, sc(v, bear))
    sd, cd = (R(t.value(x)) for x in t.sincos(dist / r))
    e = R(t.simp(s1 * cd + c1 * sd * cb))
    f2 = (c1 * cd - s1 * sd * cb)
    t.prove_equal("lemma: the direction of the destination has length 1", e * e + f2 * f2 + sd * sd * sb * sb, 1)
    E, F, G = v.real("E"), v.real("F"), v.real("G")
    v.prove("lemma: bounds of the sine", Implies(E * E + F * F + G * G == 1, And(E >= -1, E <= 1)))
    v.p.fact(And(e >= -1, e <= 1, R(t.simp(1 + e)) >= 0, R(t.simp(1 - e)) >= 0))
    q = t.term(t.root(t.canon(1 - e * e)))
    t.cands.append(lambda tt: [q, c1 * q])
    ll = v.call('coord.destination', lon1, lat1, bear, dist, r)
    ok = isinstance(ll, tuple) and len(ll) == 2 and all(is_num(c) for c in ll)
    v.prove("two coordinates", ok)
    if ok:
        t.prove_equal("the angle travelled has the cosine of the one asked for", cos_between(v, lon1, lat1, *ll), cd)
        v.prove("the latitude is in range", And(R(ll[1]) >= -90, R(ll[1]) <= 90))
    v.reach("done")

def u_destination_default(v):
    t = v.p.trig
    t.geographic |= {"lon1", "lat1", "bear"}
    lon1, lat1, bear, dist = v.real("lon1"), v.real("lat1", -90, 90), v.real("bear"), v.real("dist")
    seen = []
    v.it.overrides["coord.radiusat"] = lambda it, f, a: seen.append((a['lat'], a.get('ellipsoid'))) or RAD
    RAD = radius(v)
    s1, c1 = map(R, sc(v, lat1))
    sb, cb = map(R, sc(v, bear))
    sd, cd = (R(t.value(x)) for x in t.sincos(dist / RAD))
    e = R(t.simp(s1 * cd + c1 * sd * cb))
    v.p.fact(And(e >= -1, e <= 1, R(t.simp(1 + e)) >= 0, R(t.simp(1 - e)) >= 0))   # as in C10.destination
    q = t.term(t.root(t.canon(1 - e * e)))
    t.cands.append(lambda tt: [q, c1 * q])
    ll = v.call('coord.destination', lon1, lat1, bear, dist)
    mm = v.call('coord.destination', lon1, lat1, bear, dist, RAD)
    t.prove_equal("without a radius, the radius at the start", ll[1], mm[1])
    v.prove("the radius at the start", len(seen) == 1 and seen[0][1] is None)
    v.prove("the radius at the start", R(seen[0][0]) == lat1)
    v.reach("done")

def u_midpoint(v):
    t = v.p.trig
    lon1, lat1, lon2, lat2 = v.real("lon1"), v.real("lat1", -90, 90), None, v.real("lat2", -90, 90)
    t.geographic |= {"lon1", "dlon", "lat1", "lat2"}
    lon2 = lon1 + v.real("dlon")
    v.note("lon2", lon2)
    (s1, c1), (s2, c2) = (map(R, sc(v, x)) for x in (lat1, lat2))
    v.p.fact(And(c1 >= 0, c2 >= 0))
    sd, cd = (R(t.value(x)) for x in t.sincos(rad(v, lon2) - rad(v, lon1)))
    cosc = cos_between(v, lon1, lat1, lon2, lat2)
    v.assume(cosc > -1)
    N = t.root(t.canon(2 + 2 * cosc))
    t.cands.append(lambda tt: [t.term(N)])
    v.p.fact(t.term(N) > 0)
    ll = v.call('coord.midpoint', lon1, lat1, lon2, lat2)
    ok = isinstance(ll, tuple) and len(ll) == 2 and all(is_num(c) for c in ll)
    v.prove("two coordinates", ok)
    if ok:
        a, b = cos_between(v, lon1, lat1, *ll), cos_between(v, lon2, lat2, *ll)
        t.prove_equal("as far from the first point as from the second", a, b)
        t.prove_equal("half-way", 2 * a * a, 1 + cosc)
        v.prove("the latitude is in range", And(R(ll[1]) >= -90, R(ll[1]) <= 90))
    v.reach("done")

def u_haversine(v):
    t = v.p.trig
    lon1, lat1, lon2, lat2 = two_points(v)
    r = radius(v)
    a = hav(v, lon1, lat1, lon2, lat2)
    pi = v.BI.ext_attr(v.it, 'math.pi')
    d = v.call('coord.haversine', lon1, lat1, lon2, lat2, r)
    v.prove("a number", is_num(d))
    d = R(d)
    s, c = (R(t.value(x)) for x in t.sincos(d / (2 * r)))
    t.prove_equal("the sine of half the central angle, squared, is the haversine", s * s, a)
    t.prove_equal("the central angle's cosine is that of the angle between the points", 1 - 2 * s * s, cos_between(v, lon1, lat1, lon2, lat2))
    v.prove("never negative", d >= 0)
    v.prove("at most half the circumference", d <= pi * r)
    e = v.call('coord.haversine', lon2, lat2, lon1, lat1, r)
    t.prove_equal("the same in both directions", d, e)
    v.reach("done")

def u_haversine_zero(v):
    t = v.p.trig
    t.geographic |= {"lon1", "lat1"}
    lon, lat, r = v.real("lon1"), v.real("lat1", -90, 90), radius(v)
    d = v.call('coord.haversine', lon, lat, lon, lat, r)
    t.prove_equal("zero between a point and itself", d, 0)
    v.reach("done")

def u_haversine_default(v):
    t = v.p.trig
    lon1, lat1, lon2, lat2 = two_points(v)
    sc(v, (lat1 + lat2) / 2)
    hav(v, lon1, lat1, lon2, lat2)
    r = v.call('coord.radiusat', (lat1 + lat2) / 2)
    d = v.call('coord.haversine', lon1, lat1, lon2, lat2)
    e = v.call('coord.haversine', lon1, lat1, lon2, lat2, r)
    t.prove_equal("without a radius, the radius at the mean latitude", d, e)
    v.reach("done")

def u_radiusat(v):
    t = v.p.trig
    t.geographic |= {"lat"}
    lat = v.real("lat", -90, 90)
    s, c = map(R, sc(v, lat))
    v.p.fact(c >= 0)
    default = v.choose(True, False)
    ell = v.get('proj.WGS84') if default else ellipsoid(v)
    a, b = R(v.attr(ell, 'a')), R(v.attr(ell, 'b'))
    den = a * a * c * c + b * b * s * s
    num = a * a * a * a * c * c + b * b * b * b * s * s
    A, B, C, S, Q = (v.real(n) for n in "ABCSQ")
    v.prove("lemma: positive", Implies(And(A > 0, B > 0, C * C + S * S == 1), And(A * A * C * C + B * B * S * S > 0, A * A * A * A * C * C + B * B * B * B * S * S > 0)))
    v.p.fact(And(den > 0, num > 0, R(t.simp(den)) > 0, R(t.simp(num)) > 0, R(t.simp(num / den)) > 0))
    r = v.call('coord.radiusat', lat) if default else v.call('coord.radiusat', lat, ell)
    v.prove("a number", is_num(r))
    r = R(r)
    t.prove_equal("the geocentric radius", r * r, num / den)
    v.prove("positive", r > 0)
    v.prove("lemma: between the polar and the equatorial radius", Implies(And(A >= B, B > 0, C * C + S * S == 1, Q > 0, Q * Q * (A * A * C * C + B * B * S * S) == A * A * A * A * C * C + B * B * B * B * S * S), And(Q >= B, Q <= A)))
    v.prove("the polar radius is the smaller", And(a >= b, b > 0))
    v.reach("done")

def units(prop):
    if prop == 'C13':
        us = [trig_unit("C13.Mercator", u_mercator), trig_unit("C13.TransMercator", u_trans),
              trig_unit("C13.EMercator.geo2rect", u_emercator_to), trig_unit("C13.EMercator.rect2geo", u_emercator_from, invs=[inv_iso])]
        us[3].noterm = us[3].cut_while = us[3].peel = True
        us.append(trig_unit("C13.ObliqMercator", u_oblique))
        us += [trig_unit("C13.refuse." + n, u_refuse(n, m)) for n, m in (('Mercator', 'sphere'), ('EMercator', 'ellipsoid'), ('TransMercator', 'sphere'))]
        us += [trig_unit("C13.default." + n, u_default(n, m)) for n, m in (('Mercator', 'sphere'), ('EMercator', 'ellipsoid'))]
    if prop == 'C14':
        us = [trig_unit("C14.%s.%s.%s" % (n, a, w), u_azimuthal(n, a, w)) for n in AZIMUTHAL for a in ('north', 'south', 'oblique') for w in ('centre', 'point', 'pole')
              if not (a != 'oblique' and w == 'pole')]
    if prop == 'C15':
        us = [trig_unit("C15.ConicEqualArea.%s.%s" % (n, w), u_conic(k, w)) for n, k in (('north', 1), ('south', -1)) for w in ('point', 'pole', 'polar')]
        us += [trig_unit("C15.EckertIV." + n, u_eckert(k), invs=[inv_eckert]) for n, k in (('north', 1), ('south', -1))]
        for u in us[-2:]:
            u.noterm = u.cut_while = u.peel = True
    if prop == 'C16':
        us = [trig_unit("C16." + n, u_scale(n, m)) for n, m in (('Mercator', 'sphere'), ('EMercator', 'ellipsoid'), ('TransMercator', 'sphere'), ('ObliqMercator', 'sphere'))]
        us.append(trig_unit("C16.ConicEqualArea", u_scale_conic))
    if prop == 'C09':
        us = [trig_unit("C09.haversine", u_haversine), trig_unit("C09.haversine.same", u_haversine_zero),
              trig_unit("C09.haversine.default", u_haversine_default), trig_unit("C09.radiusat", u_radiusat)]
    if prop == 'C10':
        us = [trig_unit("C10.towards." + w, u_towards(w)) for w in ('other', 'same', 'antipode')]
        us += [trig_unit("C10.destination", u_destination), trig_unit("C10.destination.default", u_destination_default), trig_unit("C10.midpoint", u_midpoint)]
        for u in us[:3]:
            u.overrides = dict(u.overrides, **{"coord.haversine": haversine_contract})
    for u in us:
        u.must_reach = ["done"]
    return us
