"""Contracts of pf.Writer and pf.Reader (C20)."""
from pyvc.facade import *
from pyvc.values import StrV
from pyvc import files
from pyvc import builtins_ as BI
from pyvc.interp import raise_
from .templates import *

I = z3.IntSort()
UMAX2 = 65535

# ---- C01: the box of points
def box_contract(it, f, a):
    args = a['args']
    if len(args) != 1:
        raise Unsupported("box of corners")
    sq = it.iterate(args[0])
    n = conc(sq.n)
    if isz(n):
        raise Unsupported("box of an unknown number of points")
    pts = [sq.get(i) for i in range(n)]
    if not pts:
        raise_(StopIteration, "")
    v = it.facade
    for d, (lo, hi) in enumerate((('x0', 'x1'), ('y0', 'y1'))):
        l, h = it.p.real(lo), it.p.real(hi)
        cs = [R(p[d]) for p in pts]
        it.p.assume(And(*[l <= c for c in cs], *[c <= h for c in cs], Or(*[l == c for c in cs]), Or(*[h == c for c in cs])))
        it.setattr(a['self'], lo, l)
        it.setattr(a['self'], hi, h)

def name_of(v, i):
    s = v.str("name%d" % i)
    v.assume(BI.uf("is_ascii", StrV.SORT, z3.BoolSort())(s.term))
    return s

def readascii_contract(it, f, a):
    """What u_ascii proves: the string before the NUL, which is consumed."""
    o = a['f']
    c = files.contents(it, o)
    _, rest = files.cut(it, c, o.fields['pos'])
    out = []
    while True:
        if not rest:
            raise Unsupported("string without end")
        p = rest.pop(0)
        if isinstance(p, bytes):
            i = p.find(b"\0")
            if i >= 0:
                out.append(p[:i])
                break
        elif not (p[0] == 'enc' and p[2] == 'ascii'):
            raise Unsupported("a string of %r" % (p,))
        out.append(p)
    b = BI.join_pieces(it, out, 'bytes')
    n = files.rope_len(it, b) if isinstance(b, Rope) else len(b)
    it.setattr(o, 'pos', conc(n_add(n_add(o.fields['pos'], n), 1)))
    return b.decode("ascii") if isinstance(b, bytes) else files.m_rope_decode(it, b, "ascii")

def quantize_contract(it, f, a):
    """What u_quantize proves."""
    x, lo, hi, u = R(a['v']), R(a['v0']), R(a['v1']), a['umax']
    it.p.prove("values lie between the ends", And(lo <= x, x <= hi))
    q = it.p.int("code")
    it.p.assume(quantized(q, x, lo, hi, u))
    return q

def quantized(q, x, lo, hi, u):
    back = lo + z3.ToReal(q) * (hi - lo) / u
    return And(q >= 0, q <= u, 2 * u * (back - x) <= hi - lo, 2 * u * (x - back) <= hi - lo)

def u_quantize(v, size):
    u = 256 ** size - 1
    lo, hi, x = v.real("lo"), v.real("hi"), v.real("x")
    v.assume(lo <= x, x <= hi)
    q = v.call('pf.quantize', x, lo, hi, u)
    v.prove("a code of the size", is_int(q) and And(Z(q) >= 0, Z(q) <= u))
    v.prove("the code's value is within half a step", quantized(Z(q), x, lo, hi, u))
    v.reach("end")

OVER = {'pf.quantize': quantize_contract, 'bbox.BBox.__init__': box_contract, 'pf.readascii': readascii_contract, 'coord.haversine': lambda it, f, a: it.p.real("err")}

# ---- names: characters up to a NUL
def inv_ascii(L):
    g = L.a.get('reading')
    if g is None:
        return
    p, m, o, C = g
    k = Z(L.k)
    yield "position", Z(o.fields['pos']) == p + k + 1
    yield "position at the head", Z(o.fields['pos']) == p + k
    yield "within", k <= m
    yield "reading.variant", m - k
    for n, l in locals_of(L):
        if isinstance(l, PList) and not isinstance(l, PArr):
            yield Def("%s holds the characters" % n, l, SSeq(k, lambda j: Rope('bytes', [('seq', SSeqOf(L.it, [Z(C.get(p + j))]))])))
    for n, x in locals_of(L):
        if isinstance(x, (bytes, Rope)) and BI.kind_of(x) == 'bytes':
            try:
                c = files.codes(L.it, x)
            except Unsupported:
                continue
            ln = Z(length(c))
            sq = SSeqOf(L.it, c) if isinstance(c, list) else c
            yield "%s has the characters so far" % n, ln == k
            yield All("%s: characters" % n, k, lambda j, sq=sq, c=c: Z(sq.get(j)) == Z(C.get(p + j)) if not (isinstance(c, list) and not c) else z3.BoolVal(True))
            yield "%s is one character" % n, ln == 1
            yield "%s is the character read" % n, lambda sq=sq, c=c: Z(sq.get(z3.IntVal(0))) == Z(C.get(p + k)) if not (isinstance(c, list) and not c) else z3.BoolVal(False)

def u_ascii(v):
    m = v.int("m", 0)
    before, name, after = v.seq("before", 'int'), v.seq("name", 'int', n=m), v.seq("after", 'int')
    j = z3.Int("jn")
    v.assume(ForAll([j], Implies(And(j >= 0, j < m), And(Z(name.get(j)) >= 1, Z(name.get(j)) <= 127)), patterns=[Z(name.get(j))]))
    cat = lambda a, b: v.BI.seq_concat(v.it, a, b)
    C = cat(cat(cat(before, name), [z3.IntVal(0)]), after)
    f = files.byte_file(v.it, C, before.n)
    v.p.unit.args['reading'] = (Z(before.n), m, f, C)
    r = v.call('pf.readascii', f)
    ok = isinstance(r, (str, Rope)) and BI.kind_of(r) == 'str'
    v.prove("a text is read", bool(ok))
    if ok:
        c = files.codes(v.it, r)
        v.prove("the characters before the NUL", Z(length(c)) == m)
        c = SSeqOf(v.it, c) if isinstance(c, list) else c
        if not (isinstance(c, SSeq) and conc(c.n) == 0):
            v.forall("the characters before the NUL, in order", m, lambda i: Z(c.get(i)) == Z(name.get(i)))
    v.prove("reading consumes the NUL and no more", Z(f.fields['pos']) == Z(before.n) + m + 1)
    v.reach("end")

def coords(v, e, p, n):
    return [(v.real("lon%d_%d_%d" % (e, p, i), -180, 180), v.real("lat%d_%d_%d" % (e, p, i), -90, 90)) for i in range(n)]

def wrapped(v, name, turn):
    """Any coordinate: some turns away from one in range (the ends, where there are two, are left out)."""
    x, m = v.real(name), v.int(name + "_turns")
    v.assume(If(m == 0, And(x >= -turn // 2, x <= turn // 2), And(x > -turn // 2, x < turn // 2)))
    v.p.unit.args.setdefault('turns', []).append((x, m, turn))
    return x, x + turn * z3.ToReal(m)

def inv_turns(L):
    for x, m, turn in L.a.get('turns', ()):
        k = Z(L.k)
        far = x + turn * z3.ToReal(m)
        for n, y in L.numbers():
            if is_real(y):
                y = R(y)
                t = z3.ToInt((y - x) / turn)
                yield "%s by %d.variant" % (n, turn), If(t < 0, -t, t)
                if n not in L.entryvals:
                    continue
                e = R(L.entryvals[n])
                for c in (1, -1):
                    # the loop that takes c turns at a time takes them all, if there are any, and stops there
                    yield "%s turns by %d" % (n, c * turn), lambda y=y, e=e, c=c: Or(And(e == x, y == x, k == 0), And(e == far, y == x + turn * z3.ToReal(m + c * k), k >= 0, k <= If(c * m < 0, If(m < 0, -m, m), 0)))

def u_data(v, size, shape, wrap=False):
    """A data set of entities of parts of points, written, closed and read."""
    w = v.call('pf.Writer', "x.p", size)
    want = []
    names = [name_of(v, e) for e in range(len(shape))]
    for e in range(len(shape)):
        for d in range(e):
            v.assume(names[e].term != names[d].term)
    for e, parts in enumerate(shape):
        if wrap:
            both = [[(wrapped(v, "lon%d_%d_%d" % (e, p, i), 360), wrapped(v, "lat%d_%d_%d" % (e, p, i), 180)) for i in range(n)] for p, n in enumerate(parts)]
            pts = [[(a[0], b[0]) for a, b in q] for q in both]
            given = [[(a[1], b[1]) for a, b in q] for q in both]
        else:
            given = pts = [coords(v, e, p, n) for p, n in enumerate(parts)]
        v.meth(w, 'write', names[e], v.list([v.list(list(q)) for q in given]))
        kept = []
        for q in pts:
            if len(q) > 1 and v.case(And(q[0][0] == q[-1][0], q[0][1] == q[-1][1])):
                q = q[:-1]
            kept.append(q)
        want.append(kept)
    v.meth(w, 'close')
    r = v.call('pf.Reader', "x.p")
    v.prove("as many entities as written", Z(v.call(v.builtin('len'), r)) == len(shape))
    got = v.attr(r, 'names')
    c = got.content
    v.prove("the names in order", And(*[BI.strterm(v.it, x) == n.term for x, n in zip(c, names)]) if isinstance(c, list) and len(c) == len(names) else z3.BoolVal(not len(names) and c == []))
    order = v.choose("in order", "backwards by name") if len(shape) > 1 else v.choose("by position", "by name")
    idx = list(range(len(shape)))
    if "backwards" in order:
        idx.reverse()
    for e in idx:
        g = v.meth(r, 'get', names[e]) if "name" in order else v.meth(r, 'read', e)
        check(v, g, want[e], size, box_of(v, r, e, want[e]))
    v.reach("end")

def check(v, g, want, size, box):
    parts = g.content if isinstance(g, PList) else g if isinstance(g, tuple) else None
    ok = isinstance(parts, (list, tuple)) and len(parts) == len(want)
    v.prove("the same number of parts", bool(ok))
    if not ok:
        raise PathEnd("parts")
    for q, pts in zip(want, parts):
        c = pts.content if isinstance(pts, PList) else pts
        ok = isinstance(c, (list, tuple)) and len(c) == len(q) and all(isinstance(x, tuple) and len(x) == 2 for x in c)
        v.prove("the same number of points in each part", bool(ok))
        if not ok:
            raise PathEnd("points")
        for a, b in zip(q, c):
            for d, turn in ((0, 360), (1, 180)):
                lo, hi = box[2 * d:2 * d + 2]
                step = (hi - lo) / (256 ** size - 1)
                v.prove("each coordinate comes back within half a step, in order", And(R(b[d]) - a[d] <= step / 2, a[d] - R(b[d]) <= step / 2))

def box_of(v, r, e, parts):
    """The entity's box, widened to the grid of the index."""
    b = v.it.BI.getitem(v.it, v.attr(r, 'bboxes'), e)
    pts = [p for q in parts for p in q]
    if not pts:
        return None
    ok = isinstance(b, tuple) and len(b) == 4 and all(is_num(x) for x in b)
    if not ok:
        v.fail("the box of an entity")
        raise PathEnd("box")
    for d, turn in ((0, 360), (1, 180)):
        lo, hi = R(min_(v, [p[d] for p in pts])), R(max_(v, [p[d] for p in pts]))
        h = Fraction(turn, 2)
        v.prove("the box is that of the entity's points on the grid of the index", And(
            R(b[2 * d]) == z3.ToReal(z3.ToInt((lo + R(h)) * UMAX2 / turn)) * turn / UMAX2 - R(h),
            R(b[2 * d + 1]) == -z3.ToReal(z3.ToInt(-(hi + R(h)) * UMAX2 / turn)) * turn / UMAX2 - R(h)))
    return [R(x) for x in b]

def min_(v, xs):
    m = R(xs[0])
    for x in xs[1:]:
        m = If(R(x) < m, R(x), m)
    return m

def max_(v, xs):
    m = R(xs[0])
    for x in xs[1:]:
        m = If(R(x) > m, R(x), m)
    return m

SHAPES = [[[1]], [[2]], [[3]], [[1, 2]], [[2], [1]], []]

def units(prop):
    us = []
    def U(n, f, reach, **kw):
        u = Unit(prop + "." + n, f, **kw)
        u.must_reach = reach
        us.append(u)
    for size in (1, 2, 4, 8):
        U("quantize %d" % size, lambda v, s=size: u_quantize(v, s), ["end"])
        for sh in SHAPES:
            U("data set, size %d (bounded: points per part %r)" % (size, sh), lambda v, s=size, sh=sh: u_data(v, s, sh), ["end"], overrides=OVER)
    U("readascii", u_ascii, ["end"], invs=[inv_ascii])
    U("coordinates out of range (bounded: one point)", lambda v: (v.p.unit.args.pop('turns', None), u_data(v, 4, [[1]], True)), ["end"], overrides=OVER, invs=[inv_turns])
    return us
