"""Contracts of coord.bearing2cardinal, bearing2hours (C11) and proj.corangle (C12)."""
from pyvc.facade import *

NAMES = ['N', 'NNW', 'NW', 'WNW', 'W', 'WSW', 'SW', 'SSW', 'S', 'SSE', 'SE', 'ESE', 'E', 'ENE', 'NE', 'NNE']

def turns(d, full):
    """The whole number of turns nearest to d."""
    return z3.ToReal(z3.ToInt(d / full + R(Fraction(1, 2))))

def u_cardinal(v):
    b = v.real("b", -360)
    r = v.call('coord.bearing2cardinal', b)
    ok = isinstance(r, str) and r in NAMES
    v.prove("the name is one of the sixteen points", ok)
    if not ok:
        return
    c = R(Fraction(45, 2)) * NAMES.index(r)
    q = z3.ToReal(z3.ToInt(b / 360))
    h = R(Fraction(45, 4))
    near = lambda m: And(b - c - 360 * m <= h, b - c - 360 * m >= -h)
    v.prove("the point is at most 11.25 degrees away", Or(near(q), near(q + 1), near(q - 1)))
    v.reach(r)

def u_hours(v):
    b = v.real("b", -360)
    h = R(v.call('coord.bearing2hours', b))
    v.prove("the hour is in (0, 12]", And(h > 0, h <= 12))
    t = (h - 12 + b / 30) / 12
    v.prove("one hour per 30 degrees, modulo 12", z3.ToReal(z3.ToInt(t)) == t)
    v.reach("hours")

def inv_turns(L):
    pi = L.v.BI.PI
    for n, x in L.numbers():
        x = R(x)
        if n in L.entryvals and is_num(L.entryvals[n]):
            e = R(L.entryvals[n])
            k = z3.ToReal(Z(L.k))
            yield "%s turned up" % n, lambda x=x, e=e, k=k: x == e + 2 * pi * k
            yield "%s turned down" % n, lambda x=x, e=e, k=k: x == e - 2 * pi * k
            yield "%s turned from below" % n, lambda e=e, k=k: Or(k == 0, e < -pi)
            yield "%s turned from above" % n, lambda e=e, k=k: Or(k == 0, e > pi)
        yield "%s<=pi" % n, lambda x=x: x <= pi
        yield "%s>=-pi" % n, lambda x=x: x >= -pi
        yield "%s<=3pi" % n, lambda x=x: x <= 3 * pi
        yield "%s>=-3pi" % n, lambda x=x: x >= -3 * pi
        yield "%s.variant up" % n, (-pi - x) / 6 + 1
        yield "%s.variant down" % n, (x - pi) / 6 + 1

def u_corangle(v):
    a = v.real("a")
    pi = v.it.BI.ext_attr(v.it, 'math.pi') if hasattr(v.it, 'BI') else v.BI.ext_attr(v.it, 'math.pi')
    r = R(v.call('proj.corangle', a))
    v.prove("between -pi and pi", And(r >= -pi, r <= pi))
    m = z3.ToInt((r - a) / (2 * pi) + R(Fraction(1, 2)))
    v.prove("a whole number of turns", r - a == 2 * pi * z3.ToReal(m))
    v.prove("an angle in range is unchanged", Implies(And(a >= -pi, a <= pi), r == a))
    v.reach("end")

def units(prop):
    if prop == 'C11':
        a = Unit("C11.cardinal", u_cardinal)
        a.must_reach = list(NAMES)
        b = Unit("C11.hours", u_hours)
        b.must_reach = ["hours"]
        return [a, b]
    u = Unit("C12.corangle", u_corangle, invs=[inv_turns])
    u.must_reach = ["end"]
    return [u]
