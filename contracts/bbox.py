"""Contracts of coral/bbox.py (C01-C05)."""
from pyvc.facade import *

CORNERS = ('x0', 'y0', 'x1', 'y1')

def corners(v, o):
    return tuple(v.attr(o, f) for f in CORNERS)

def same(a, b):
    return And(*[R(x) == R(y) for x, y in zip(a, b)])

def pt(x, y):
    return (x, y)

def anybox(v, name, ordered=False):
    """An arbitrary box, made by the real constructor from two corners."""
    c = tuple(v.real(name + "_" + f) for f in CORNERS)
    if ordered:
        v.assume(c[0] <= c[2], c[1] <= c[3])
    return v.call('bbox.BBox', (c[0], c[1]), (c[2], c[3])), c

def point(v, name):
    return v.real(name + "_x"), v.real(name + "_y")

def hp(c, x, y):
    return And(R(c[0]) <= x, x < R(c[2]), R(c[1]) <= y, y < R(c[3]))

def is_bbox(v, name, o):
    ok = isinstance(o, PObj) and o.cls is v.get('bbox.BBox')
    v.prove(name + " is a BBox", bool(ok))

# ---- C01
def inv_scan(L):
    """Everything scanned so far lies between the extremes, and every extreme is attained."""
    P = L.a['pts']
    N = Z(P.n)
    n = Z(L.k) + N - Z(L.n)
    n = If(n < 1, z3.IntVal(1), n)
    vals = L.numbers()
    for d in (0, 1):
        c = lambda j, d=d: R(P.get(Z(j))[d])
        for nm, val in vals:
            val = R(val)
            yield All("%s<=p%d" % (nm, d), n, lambda j, val=val, c=c: val <= c(j))
            yield All("%s>=p%d" % (nm, d), n, lambda j, val=val, c=c: c(j) <= val)
            yield "%s in p%d" % (nm, d), lambda val=val, c=c: L.v.exists(n, lambda j: c(j) == val)

def u_points(v):
    pts = v.seq("pts", ('tuple', ('real', 'real')), minlen=1)
    v.p.unit.args['pts'] = pts
    form = v.choose('list', 'iterator')
    arg = v.list(pts) if form == 'list' else v.iter(pts)
    o = v.call('bbox.BBox', arg)
    is_bbox(v, "result", o)
    x0, y0, x1, y1 = [R(c) for c in corners(v, o)]
    v.reach(form)
    v.forall("covers", pts.n, lambda j: And(x0 <= pts.get(j)[0], pts.get(j)[0] <= x1, y0 <= pts.get(j)[1], pts.get(j)[1] <= y1))
    for nm, val, d in (("left", x0, 0), ("bottom", y0, 1), ("right", x1, 0), ("top", y1, 1)):
        v.prove(nm + " side touches a point", v.exists(pts.n, lambda j: R(pts.get(j)[d]) == val))
    if form == 'list':
        v.prove("the caller's list is unchanged", arg.content is pts)

def u_corners(v):
    o, c = anybox(v, "b")
    is_bbox(v, "result", o)
    v.prove("corners", same(corners(v, o), c))
    v.prove("width", R(v.meth(o, 'width')) == c[2] - c[0])
    v.prove("height", R(v.meth(o, 'height')) == c[3] - c[1])
    v.prove("area", R(v.meth(o, 'area')) == (c[2] - c[0]) * (c[3] - c[1]))
    ce = v.meth(o, 'center')
    v.prove("centre", And(2 * R(ce[0]) == c[0] + c[2], 2 * R(ce[1]) == c[1] + c[3]))
    h = R(v.meth(o, 'hypot'))
    v.prove("diagonal", And(h >= 0, h * h == (c[2] - c[0]) * (c[2] - c[0]) + (c[3] - c[1]) * (c[3] - c[1])))
    v.prove("corners afterwards", same(corners(v, o), c))

def u_empty(v):
    o = v.call('bbox.BBox')
    is_bbox(v, "result", o)
    v.prove("empty box is at the origin", same(corners(v, o), (0, 0, 0, 0)))
    v.prove("empty box is false", Not(B(v.truth(o))))

# ---- C02
def two(v, ordered=True):
    a, ca = anybox(v, "a", ordered)
    b, cb = anybox(v, "b", ordered)
    return a, ca, b, cb

def isempty(c):
    return same(c, (0, 0, 0, 0))

def u_union(v):
    a, ca, b, cb = two(v)
    o = v.binop('|', a, b)
    is_bbox(v, "union", o)
    c = corners(v, o)
    mn = lambda x, y: If(x < y, x, y)
    mx = lambda x, y: If(x > y, x, y)
    both = (mn(ca[0], cb[0]), mn(ca[1], cb[1]), mx(ca[2], cb[2]), mx(ca[3], cb[3]))
    v.prove("union is the smallest box covering both",
            If(isempty(ca), same(c, cb), If(isempty(cb), same(c, ca), same(c, both))))
    v.prove("left operand unchanged", same(corners(v, a), ca))
    v.prove("right operand unchanged", same(corners(v, b), cb))

def u_union_empty(v):
    e = v.call('bbox.BBox')
    a, ca = anybox(v, "a", True)
    v.prove("empty | box", same(corners(v, v.binop('|', e, a)), ca))
    v.prove("box | empty", same(corners(v, v.binop('|', a, e)), ca))

def u_inter(v):
    a, ca, b, cb = two(v)
    o = v.binop('&', a, b)
    is_bbox(v, "intersection", o)
    c = corners(v, o)
    x, y = point(v, "p")
    v.prove("a point is in the intersection exactly when it is in both", hp(c, x, y) == And(hp(ca, x, y), hp(cb, x, y)))
    # no common point: the x or y ranges [max x0, min x1) are empty
    lo = lambda i: If(ca[i] > cb[i], ca[i], cb[i])
    hi = lambda i: If(ca[i + 2] < cb[i + 2], ca[i + 2], cb[i + 2])
    v.prove("no common point: the empty box", Implies(Not(And(lo(0) < hi(0), lo(1) < hi(1))), isempty(c)))
    v.prove("the bounds of the overlap", Implies(And(lo(0) < hi(0), lo(1) < hi(1)), same(c, (lo(0), lo(1), hi(0), hi(1)))))
    v.prove("left operand unchanged", same(corners(v, a), ca))
    v.prove("right operand unchanged", same(corners(v, b), cb))

# ---- C03
def u_point(v):
    a, ca = anybox(v, "a", True)
    x, y = point(v, "p")
    r = v.meth(a, 'has_point', (x, y))
    v.prove("has_point is the half-open test", B(v.truth(r)) == hp(ca, x, y))
    r = v.meth(a, '__contains__', (x, y))
    v.prove("`in` agrees with has_point", B(v.truth(r)) == hp(ca, x, y))
    v.prove("box unchanged", same(corners(v, a), ca))

def u_inside(v):
    a, ca, b, cb = two(v)
    r = B(v.truth(v.meth(a, 'has_bbox', b)))
    x, y = point(v, "p")
    v.prove("reported inside: every point of it is inside", Implies(And(r, hp(cb, x, y)), hp(ca, x, y)))
    v.prove("both corners decide box containment", r == And(hp(ca, cb[0], cb[1]), hp(ca, cb[2], cb[3])))
    r2 = B(v.truth(v.meth(a, '__contains__', b)))
    v.prove("`in` agrees with has_bbox", r2 == r)

def u_collide(v):
    a, ca, b, cb = two(v)
    r = B(v.truth(v.meth(a, 'collide', b)))
    x, y = point(v, "p")
    v.prove("a common point means collision", Implies(And(hp(ca, x, y), hp(cb, x, y)), r))
    for c in (ca, cb):
        v.assume(c[0] < c[2], c[1] < c[3])
    mx = lambda i: If(ca[i] > cb[i], ca[i], cb[i])
    v.prove("collision of boxes with area means a common point",
            Implies(r, And(hp(ca, mx(0), mx(1)), hp(cb, mx(0), mx(1)))))
    r2 = B(v.truth(v.meth(b, 'collide', a)))
    v.prove("collision is symmetric", r == r2)

def u_reject(v):
    a, ca = anybox(v, "a", True)
    bad = v.choose(None, v.int("n"), v.list([v.real("u"), v.real("w")]), (v.real("u"),), (v.real("u"), v.real("w"), v.real("t")), "xy", v.bool("q"))
    st, e = v.attempt('bbox.BBox.__contains__', a, bad)
    v.prove("anything else is rejected with TypeError", st == 'raise' and v.raised(e, 'TypeError'))

# ---- C04
def shifted(c, dx, dy):
    return (c[0] + dx, c[1] + dy, c[2] + dx, c[3] + dy)

def u_translate(v):
    a, ca = anybox(v, "a")
    dx, dy = v.real("dx"), v.real("dy")
    o = v.meth(a, 'translate', dx, dy)
    is_bbox(v, "translate", o)
    v.prove("translate moves every corner by the offset", same(corners(v, o), shifted(ca, dx, dy)))
    o2 = v.binop('+', a, (dx, dy))
    v.prove("+ moves every corner by the offset", same(corners(v, o2), shifted(ca, dx, dy)))
    o3 = v.binop('-', o2, (dx, dy))
    is_bbox(v, "(box + p) - p", o3)
    v.prove("- undoes +", same(corners(v, o3), ca))
    o4 = v.binop('-', a, (dx, dy))
    v.prove("- moves back by the offset", same(corners(v, o4), shifted(ca, -dx, -dy)))
    v.prove("box unchanged", same(corners(v, a), ca))
    v.prove("a new object", o is not a and o2 is not a and o3 is not a and o3 is not o2)

def u_scale(v):
    a, ca = anybox(v, "a")
    f = v.real("f")
    def scaled(nm, o, c, f):
        is_bbox(v, nm, o)
        d = [R(x) for x in corners(v, o)]
        v.prove(nm + " keeps the centre", And(d[0] + d[2] == c[0] + c[2], d[1] + d[3] == c[1] + c[3]))
        v.prove(nm + " multiplies both sides", And(d[2] - d[0] == (c[2] - c[0]) * f, d[3] - d[1] == (c[3] - c[1]) * f))
        return d
    scaled("scale", v.meth(a, 'scale', f), ca, f)
    o = v.binop('*', a, f)
    d = scaled("*", o, ca, f)
    v.prove("box unchanged", same(corners(v, a), ca))
    v.assume(f != 0)
    o2 = v.binop('/', o, f)
    v.prove("/ undoes *", same(corners(v, o2), ca))
    v.prove("product unchanged", same(corners(v, o), d))
    o3 = v.binop('/', a, f)
    d3 = [R(x) for x in corners(v, o3)]
    v.prove("/ divides both sides", And((d3[2] - d3[0]) * f == ca[2] - ca[0], (d3[3] - d3[1]) * f == ca[3] - ca[1],
                                       d3[0] + d3[2] == ca[0] + ca[2], d3[1] + d3[3] == ca[1] + ca[3]))
    v.prove("a new object", o is not a and o2 is not o and o3 is not a)

def u_copy(v):
    a, ca = anybox(v, "a")
    o = v.meth(a, 'copy')
    is_bbox(v, "copy", o)
    v.prove("copy has the same corners", same(corners(v, o), ca))
    v.prove("copy is a new object", o is not a)
    n = v.real("n")
    f = v.choose(*CORNERS)
    v.setattr(o, f, n)
    v.prove("changing the copy leaves the original alone", same(corners(v, a), ca))

# ---- C05
def u_eq(v):
    a, ca, b, cb = two(v, False)
    e = B(v.cmp('==', a, b))
    v.prove("equal exactly when the corners are", e == same(ca, cb))
    v.prove("!= is the negation", B(v.cmp('!=', a, b)) == Not(e))
    ha, hb = v.call(v.builtin('hash'), a), v.call(v.builtin('hash'), b)
    v.prove("equal boxes have equal hashes", Implies(e, Z(ha) == Z(hb)))
    v.prove("boxes unchanged", And(same(corners(v, a), ca), same(corners(v, b), cb)))

def u_order(v):
    a, ca, b, cb = two(v, False)
    ar = lambda c: (c[2] - c[0]) * (c[3] - c[1])
    A, Bb = v.real("A"), v.real("B")
    v.prove("less exactly when the area is smaller", B(v.cmp('<', a, b)) == (ar(ca) < ar(cb)))
    v.prove("greater is less, swapped", Implies(B(v.cmp('>', a, b)), Not(B(v.cmp('<', a, b)))))
    v.prove("true exactly when the area is not zero", B(v.truth(a)) == (ar(ca) != 0))

def units(prop):
    U = lambda n, f, **k: Unit(prop + "." + n, f, **k)
    return {
        'C01': lambda: [U("from-points", u_points, invs=[inv_scan]), U("from-corners", u_corners), U("empty", u_empty)],
        'C02': lambda: [U("union", u_union), U("union-empty", u_union_empty), U("intersection", u_inter)],
        'C03': lambda: [U("point", u_point), U("inside", u_inside), U("collide", u_collide), U("reject", u_reject)],
        'C04': lambda: [U("translate", u_translate), U("scale", u_scale), U("copy", u_copy)],
        'C05': lambda: [U("equality", u_eq), U("order", u_order)],
    }[prop]()
