"""Contracts of coral/frame.py (C35)."""
from pyvc.facade import *
from pyvc.values import StrV
from pyvc import files
from pyvc import builtins_ as BI
from . import bbox as BB
from .table import Count
from .templates import *

I = z3.IntSort()
SPHERE = ("Mercator", "TransMercator", "ObliqMercator", "EckertIV", "Stereographic", "AzimuthalEquidistant", "AzimuthalEqualArea")
ELLIPSOID = ("EMercator",)

def isframe(v, f):
    ok = isinstance(f, PObj) and f.cls is v.get('frame.Frame')
    v.prove("a frame is loaded", bool(ok))
    if not ok:
        raise PathEnd("no frame")

def samebox(v, b, c, name="the same bounding box"):
    ok = isinstance(b, PObj) and b.cls is v.get('bbox.BBox')
    v.prove(name, BB.same(BB.corners(v, b), c) if ok else z3.BoolVal(False))

def u_roundtrip(v, kind, ell):
    form = v.choose("given", "default")
    P = v.get('proj.' + kind)
    if form == "given":
        lon, lat = v.real("lon0"), v.real("lat0", -90, 90)
        if ell:
            a, b, e, f = [v.real(x) for x in "abef"]
            v.assume(a > 0, b > 0)
            prj = v.call('proj.' + kind, (lon, lat), v.call('proj.Ellipsoid', a, b, e, f))
        else:
            r = v.real("radius")
            v.assume(r > 0)
            prj = v.call('proj.' + kind, (lon, lat), r)
    else:
        prj = v.call('proj.' + kind)
    box, c = BB.anybox(v, "box")
    c = BB.corners(v, box)
    fr = v.call('frame.Frame', prj, box)
    before = dict(prj.fields)
    path = v.choose("path") if False else "frame.json"
    v.meth(fr, 'save', path)
    v.prove("saving leaves the projection as it is", set(prj.fields) == set(before))
    again = v.choose("once", "twice")
    if again == "twice":
        v.meth(fr, 'save', path)
    g = v.call('frame.load', path)
    isframe(v, g)
    q = v.attr(g, 'projection')
    ok = isinstance(q, PObj) and q.cls is P
    v.prove("a projection of the same kind", bool(ok))
    if not ok:
        raise PathEnd("no projection")
    for n in ('lon0', 'lat0'):
        v.prove("the same centre", R(v.attr(q, n)) == R(before[n]))
    for n in ('abef' if ell else 'r'):
        x = v.attr(q, n)
        v.prove("the same Earth model", bool(is_num(x)) and R(x) == R(before[n]))
    samebox(v, v.attr(g, 'bounding'), c)
    samebox(v, v.attr(fr, 'bounding'), c, "saving leaves the bounding box as it is")
    v.reach(form)

class Proj(PClass):
    pass

def anyproj(v):
    """A projection about which nothing is known."""
    RR = z3.RealSort()
    gx, gy = z3.Function("proj_x", RR, RR, RR), z3.Function("proj_y", RR, RR, RR)
    def geo2rect(lon, lat):
        return gx(R(lon), R(lat)), gy(R(lon), R(lat))
    o = v.it.alloc(PObj(PClass("AnyProjection", [], {}, None), {'geo2rect': Builtin('geo2rect', geo2rect)}), "projection")
    return o, gx, gy

def u_point(v):
    prj, gx, gy = anyproj(v)
    box, c = BB.anybox(v, "box")
    fr = v.call('frame.Frame', prj, box)
    lon, lat, s = v.real("lon"), v.real("lat"), v.real("scale")
    v.assume(s > 0)
    xy = v.meth(fr, 'point', s, (lon, lat))
    ok = isinstance(xy, tuple) and len(xy) == 2 and all(is_num(x) for x in xy)
    v.prove("a point has two coordinates", ok)
    if ok:
        for x, g in zip(xy, (gx(lon, lat), gy(lon, lat))):
            v.prove("a point is the projected one in whole pixels", R(x) == z3.ToReal(z3.ToInt(g / s)))
    v.reach("end")

def u_planify(v):
    prj, gx, gy = anyproj(v)
    box, c = BB.anybox(v, "box")
    fr = v.call('frame.Frame', prj, box)
    pts = v.seq("points", ('tuple', ('real', 'real')))
    s = v.real("scale")
    v.assume(s > 0)
    token = v.opaque("simplified")
    calls = []
    def simplify(it, f, a):
        calls.append(a)
        sq = it.iterate(a['xys'])
        v.prove("every point is projected", Z(sq.n) == Z(pts.n))
        def one(i):
            p = sq.get(i)
            ok = isinstance(p, tuple) and len(p) == 2
            q = pts.get(i)
            v.prove("every point is projected, in order", And(R(p[0]) == gx(R(q[0]), R(q[1])), R(p[1]) == gy(R(q[0]), R(q[1]))) if ok else z3.BoolVal(False))
        v.forall("every point is projected, in order", pts.n, one)
        return token
    v.it.overrides = dict(v.it.overrides, **{'coord.simplify': simplify})
    form = v.choose("default", "closed", "open")
    arg = v.list(pts) if v.choose("list", "iterator") == "list" else v.iter(pts)
    kw = {} if form == "default" else {"closed": form == "closed"}
    r = v.meth(fr, 'planify', s, arg, **kw)
    v.prove("the projected points are simplified once", len(calls) == 1 and r is token)
    if calls:
        v.prove("they are simplified at the scale asked", R(calls[0]['scl']) == s)
        v.prove("open and closed lines are told apart", calls[0]['closed'] == (form != "open"))
    v.reach(form)

# ---- the names of a data set
def inv_names(L):
    t = L.a.get('names')
    if t is None:
        return
    cnt, meets, line, listed = t
    v, k = L.v, Z(L.k)
    if L.src is None:
        return
    x = L.src.get(z3.Int("probe"))
    inner = isinstance(x, PList) and hasattr(x.content, 'part')
    if isinstance(x, PList) and not inner or isinstance(x, tuple):
        return                                     # the points of a part
    strs = [(nm, l) for nm, l in locals_of(L) if isinstance(l, PList) and not hasattr(l.content, 'part') and (not isinstance(l.content, list) or all(isinstance(x, (Rope, str, StrV)) for x in l.content))]
    if isinstance(x, Rope):
        # the stored lines
        for nm, l in strs:
            yield Def("%s holds the names of the lines so far" % nm, l, SSeq(k, lambda i: StrV(L.a['name'](listed(i)))))
        return
    done = k
    if inner:
        done = x.content.part[0]
        yield All("no part meets yet", k, lambda j: Not(meets(done, j)))
    cnt.unfold(done)
    cnt.unfold(done - 1)
    yield "count", cnt(done) >= 0
    yield All("places", done, lambda j: Implies(cnt.m(j), And(cnt(j) >= 0, cnt(j) < cnt(done))))
    for nm, l in strs:
        yield Def("%s holds the lines of the entities so far" % nm, l, SSeq(cnt(done), lambda i: line(listed(i))))
        yield Def("%s holds the names of the entities so far" % nm, l, SSeq(cnt(done), lambda i: StrV(L.a['name'](listed(i)))))

def u_names(v):
    prj, gx, gy = anyproj(v)
    box, c = BB.anybox(v, "box")
    fr = v.call('frame.Frame', prj, box)
    c = BB.corners(v, box)
    n = v.int("entities", 0)
    S = StrV.SORT
    name = z3.Function("name", I, S)
    v.p.unit.args['textinfo'] = lambda t: {'free': {"\n", "\r"}} if z3.is_app(t) and t.decl().name() == "name" else None
    index = z3.Function("index", S, I)
    i = z3.Int("ix")
    # names are distinct: the data set finds an entity by its name
    v.assume(ForAll([i], Implies(And(i >= 0, i < n), index(name(i)) == i), patterns=[name(i)]))
    nparts = z3.Function("nparts", I, I)
    npts = z3.Function("npts", I, I, I)
    RR = z3.RealSort()
    plon, plat = z3.Function("plon", I, I, I, RR), z3.Function("plat", I, I, I, RR)
    j = z3.Int("jx")
    v.assume(ForAll([i], nparts(i) >= 0, patterns=[nparts(i)]))
    v.assume(ForAll([i, j], npts(i, j) >= 1, patterns=[npts(i, j)]))
    box4 = [z3.Function("box_" + x, I, I, RR) for x in BB.CORNERS]
    pff = {}
    def part(e, p):
        s = SSeq(npts(e, p), lambda k: (plon(e, p, Z(k)), plat(e, p, Z(k))))
        s.eshape = ('tuple', ('real', 'real'))
        s.part = (e, p)
        return s
    def get(nm):
        if not isinstance(nm, StrV):
            v.fail("parts are asked by name")
            raise PathEnd("name")
        e = index(nm.term)
        s = SSeq(nparts(e), lambda p: PList(part(e, Z(p))))
        return v.list(s)
    names = SSeq(n, lambda k: StrV(name(Z(k))))
    names.eshape = ('str', 'str')
    o = v.it.alloc(PObj(PClass("DataSet", [], {}, None), {'names': v.list(names), 'get': Builtin('get', get)}), "data set")
    def init(it, f, a):
        """The box of a sequence of points (C01); whose points they are is checked."""
        args = a['args']
        sq = it.iterate(args[0]) if len(args) == 1 else None
        if sq is None:
            raise Unsupported("box of corners")
        p0 = sq.get(z3.IntVal(0))
        t = owner(p0)
        if t is None:
            v.fail("the box is that of a projected part")
            raise PathEnd("box")
        e, p = t
        v.prove("the box is that of all the points of a part", Z(sq.n) == npts(e, p))
        def one(k):
            q = sq.get(k)
            v.prove("the box is that of the projected points", And(R(q[0]) == gx(plon(e, p, Z(k)), plat(e, p, Z(k))), R(q[1]) == gy(plon(e, p, Z(k)), plat(e, p, Z(k)))))
        v.forall("the box is that of the projected points", npts(e, p), one)
        for x, fn in zip(BB.CORNERS, box4):
            it.setattr(a['self'], x, fn(e, p))
        return None
    def owner(q):
        if not (isinstance(q, tuple) and len(q) == 2):
            return None
        t = z3.simplify(R(q[0]))
        if z3.is_app(t) and t.decl().name() == "proj_x" and z3.is_app(t.arg(0)) and t.arg(0).decl().name() == "plon":
            return t.arg(0).arg(0), t.arg(0).arg(1)
        return None
    v.it.overrides = dict(v.it.overrides)
    v.it.overrides['bbox.BBox.__init__'] = init
    v.it.overrides['tqdm.tqdm'] = lambda it, f, a: v.iter(it.iterate(a['iterable']))
    x0, y0, x1, y1 = [R(x) for x in c]
    def meets(e, p):
        b = [f(e, p) for f in box4]
        return And(*[Or(And(lo <= blo, blo < hi), And(blo <= lo, lo < bhi)) for lo, hi, blo, bhi in ((x0, x1, b[0], b[2]), (y0, y1, b[1], b[3]))])
    kept_ = z3.Function("kept", I, z3.BoolSort())
    e, p = z3.Ints("ek pk")
    kept = lambda e: kept_(Z(e))
    w = z3.Function("meeting", I, I)
    v.assume(ForAll([e], Implies(kept_(e), And(w(e) >= 0, w(e) < nparts(e), meets(e, w(e)))), patterns=[kept_(e)]))
    v.assume(ForAll([e, p], Implies(And(p >= 0, p < nparts(e), meets(e, p)), kept_(e)), patterns=[box4[0](e, p)]))
    cnt = Count(v, kept)
    sel = z3.Function("listed", I, I)
    j = z3.Int("js")
    v.assume(ForAll([j], Implies(And(j >= 0, kept_(j)), sel(cnt(j)) == j), patterns=[z3.MultiPattern(kept_(j), cnt(j))]))
    line = lambda j: Rope('str', [('sv', StrV(name(Z(j)))), "\n"])
    v.p.unit.args['name'] = name
    v.p.unit.args['names'] = (cnt, meets, line, sel)
    key = "key"
    r = v.meth(fr, 'cachenames', key, o)
    v.prove("the number of names stored is returned", is_num(r) and Z(r) == cnt(n))
    got = v.meth(fr, 'loadnames', key)
    c = got.content if isinstance(got, PList) else None
    if c is None:
        v.fail("the names are read as a list")
        return
    v.prove("as many names as entities that meet the frame", length(c) == cnt(n))
    if isinstance(c, list):
        c = SSeqOf(v.it, c)
    v.forall("the names of the entities that meet the frame, in order", n, lambda j: Implies(kept(j), And(cnt(j) >= 0, cnt(j) < cnt(n), BI.strterm(v.it, c.get(cnt(j))) == name(j))))
    v.reach("end")

def units(prop):
    us = []
    def U(n, f, reach, **kw):
        u = Unit(prop + "." + n, f, **kw)
        u.must_reach = reach
        us.append(u)
    for k in SPHERE + ELLIPSOID:
        U("save and load " + k, lambda v, k=k: u_roundtrip(v, k, k in ELLIPSOID), ["given", "default"])
    U("point", u_point, ["end"])
    U("planify", u_planify, ["default", "closed", "open"])
    U("cachenames and loadnames", u_names, ["end"], invs=[inv_names])
    return us
