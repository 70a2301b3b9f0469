"""Contracts of gradient.Gradient (C29)."""
from pyvc.facade import *
from pyvc import files

SHAPE = ('tuple', ['real', ('tuple', ['real', 'real', 'real'])])

def setup(v):
    s = v.seq("stops", SHAPE, minlen=1)
    n = s.n
    v.assume(v.all(n, lambda i: And(s.get(i)[0] >= 0, s.get(i)[0] <= 1)))
    return s, n

def same(c, e):
    return And(*[R(a) == R(b) for a, b in zip(c, e)])

def is_colour(v, r):
    ok = isinstance(r, tuple) and len(r) == 3 and all(is_num(c) for c in r)
    v.prove("the colour has three channels", ok)
    return ok

def u_get(v):
    s, n = setup(v)
    x = v.real("x", 0, 1)
    P, C = (lambda i: s.get(i)[0]), (lambda i: s.get(i)[1])
    w = v.choose('at', 'before', 'after', 'between')
    if w == 'at':
        a = v.int("stop", 0)
        v.assume(a < n, P(a) == x)
    elif w == 'before':
        v.assume(v.all(n, lambda i: P(i) > x))
    elif w == 'after':
        v.assume(v.all(n, lambda i: P(i) < x))
    else:
        a, b = v.int("left", 0), v.int("right", 0)
        v.assume(a < n, b < n, P(a) < x, x < P(b), v.all(n, lambda i: Or(P(i) <= P(a), P(i) >= P(b))))
    g = v.call('gradient.Gradient', v.list(s))
    r = v.meth(g, 'get', x)
    if not is_colour(v, r):
        return
    v.reach(w)
    r = tuple(resolve(v.p, *r))
    # the stops the code looked at are the witnesses
    at = ground_args(v.p, P(z3.Int("probe")).decl(), *r)
    for c in C(z3.Int("probe")):
        at += [t for t in ground_args(v.p, c.decl(), *r) if all(not t.eq(u) for u in at)]
    inside = lambda i: And(i >= 0, i < n)
    if w == 'at':
        v.prove("at a stop the colour is a stop's own", Or(*[And(inside(i), P(i) == x, same(r, C(i))) for i in at]))
    elif w == 'before':
        v.prove("before the first stop the colour is a first stop's", Or(*[And(inside(i), v.all(n, lambda j: P(j) >= P(i)), same(r, C(i))) for i in at]))
    elif w == 'after':
        v.prove("after the last stop the colour is a last stop's", Or(*[And(inside(i), v.all(n, lambda j: P(j) <= P(i)), same(r, C(i))) for i in at]))
    else:
        at = [t for t in at if not t.eq(a) and not t.eq(b)]
        left = [i for i in at if not v.p.feasible(Not(And(inside(i), P(i) == P(a))))]
        right = [i for i in at if not v.p.feasible(Not(And(inside(i), P(i) == P(b))))]
        if not left or not right:
            left, right = left or at, right or at
        v.prove("the stops used are neighbours of the position", Or(*[And(inside(i), inside(j), P(i) == P(a), P(j) == P(b)) for i in left for j in right]))
        mix = lambda i, j: [p + (x - P(i)) / (P(j) - P(i)) * (q - p) for p, q in zip(C(i), C(j))]
        v.prove("between two stops the colour is interpolated", Or(*[same(r, mix(i, j)) for i in left for j in right]))

def u_hex(v):
    cols = v.real("r", 0, 1), v.real("g", 0, 1), v.real("b", 0, 1)
    g = v.new('gradient.Gradient')
    x = v.real("x", 0, 1)
    v.p.unit.args['colour'] = cols
    v.p.unit.args['x'] = x
    h = v.meth(g, 'get_hex', x)
    c = files.codes(v.it, h)
    v.prove("a # and one digit per channel", isinstance(c, list) and len(c) == 4)
    v.prove("a # and one digit per channel", Z(c[0]) == 35)
    for d, ch in zip(c[1:], cols):
        k = z3.ToInt(15 * ch)
        v.prove("the digit is the channel times 15 rounded down", Z(d) == If(k < 10, 48 + k, 87 + k))
    v.reach("end")

def get_contract(it, f, a):
    v = it.facade
    v.it.p.prove("the colour asked for is the one at the position", a['x'] is it.p.unit.args['x'])
    return it.p.unit.args['colour']

def units(prop):
    u = Unit("C29.get", u_get)
    u.must_reach = ['at', 'before', 'after', 'between']
    h = Unit("C29.get_hex", u_hex, overrides={"gradient.Gradient.get": get_contract})
    h.must_reach = ["end"]
    return [u, h]
