"""Contracts of coral/raster.py (C24, C25, C26)."""
from pyvc.facade import *
from .templates import *

# ---- C25: lines. The canvas is any object that takes pixels (its __setitem__ is under contract in C24):
# a ghost log records them in order.

def recorder(v, color):
    it = v.it
    log = v.list([])
    def record(self, key, value):
        x, y = it.unpack(key, 2)
        if value is not color:
            v.prove("every pixel is set to the given colour", False)
        v.BI.list_append(it, log, (x, y))
    cls = PClass("Recorder", [v.get('raster.BaseCanvas')], {'__setitem__': Builtin('record', record)}, None)
    o = it.alloc(PObj(cls, {}), "canvas")
    return o, log

def last(L, s, ln):
    return at_(L, s, ln - 1)

def at_(L, s, i):
    if isinstance(s, list):
        return SSeqOf(L.it, s).get(i) if s else (z3.IntVal(0), z3.IntVal(0))
    return s.get(i)

def inv_line(L):
    g = L.a.get('line')
    if g is None:
        return
    # a: steps along the major axis, b: along the minor one; sM, sm: their directions
    a, b, M0, m0, sM, sm, mi = g
    k = Z(L.k)
    D = lambda j, k: a * j - b * k
    nums = [(n, Z(x)) for n, x in L.numbers() if is_int(x)]
    s = L.a['log'].content
    ln = length(s)
    for n, x in nums:
        j = sm * (x - m0)
        yield "%s runs along" % n, x == M0 + sM * k
        yield "%s keeps to the line" % n, And(2 * D(j, k) <= a, -a <= 2 * D(j, k))
        yield "%s within" % n, And(j >= 0, j <= b)
        yield "%s diagonal" % n, Implies(a == b, j == k)
        for c in (0, 1):
            yield "%s is the last pixel's %d" % (n, c), lambda x=x, c=c: And(ln > 0, x == Z(last(L, s, ln)[c]))
            yield "%s next to the last pixel's %d" % (n, c), lambda x=x, c=c: Implies(ln > 0, And(x - Z(last(L, s, ln)[c]) <= 1, Z(last(L, s, ln)[c]) - x <= 1))
        for m, e in nums:
            if m != n:
                yield "%s error of %s x" % (m, n), lambda e=e, j=j: e == D(j, k) + a - b
                yield "%s error of %s y" % (m, n), lambda e=e, j=j: e == -D(j, k) + b - a
    yield "steps", k <= a
    yield "pixels", ln == k
    yield "pixels one ahead", ln == k + 1
    P = lambda i: tuple(Z(c) for c in at_(L, s, i))
    yield All("pixels along", ln, lambda i: P(i)[1 - mi] == M0 + sM * i)
    yield All("pixels near", ln, lambda i: And(2 * D(sm * (P(i)[mi] - m0), i) <= a, -a <= 2 * D(sm * (P(i)[mi] - m0), i), sm * (P(i)[mi] - m0) >= 0, sm * (P(i)[mi] - m0) <= b))
    yield All("pixels adjacent", ln, lambda i: Implies(i + 1 < ln, And(*[And(P(i + 1)[c] - P(i)[c] <= 1, P(i)[c] - P(i + 1)[c] <= 1) for c in (0, 1)])))
    yield "line.variant", a - k

def u_line(v, octant):
    sx, sy, steep = octant
    x0, y0, x1, y1 = v.int("x0"), v.int("y0"), v.int("x1"), v.int("y1")
    dx, dy = sx * (x1 - x0), sy * (y1 - y0)
    v.assume(dx >= 0 if sx > 0 else dx > 0, dy >= 0 if sy > 0 else dy > 0)
    v.assume(dy > dx if steep else dx >= dy)
    color = v.opaque("color")
    o, log = recorder(v, color)
    if steep:
        a, b, M0, m0, sM, sm, mi = dy, dx, y0, x0, sy, sx, 0
    else:
        a, b, M0, m0, sM, sm, mi = dx, dy, x0, y0, sx, sy, 1
    v.p.unit.args.update(line=(a, b, M0, m0, sM, sm, mi), log=log)
    v.meth(o, 'line', (x0, y0), (x1, y1), color)
    c = log.content
    s = SSeqOf(v.it, c) if isinstance(c, list) else c
    n = Z(s.n)
    v.prove("max(|dx|,|dy|)+1 pixels", n == a + 1)
    P = lambda i: tuple(Z(q) for q in s.get(Z(i)))
    v.prove("the start is coloured", And(P(0)[0] == x0, P(0)[1] == y0))
    v.prove("the end is coloured", And(P(n - 1)[0] == x1, P(n - 1)[1] == y1))
    def within(i):
        x, y = P(i)
        j = sm * (P(i)[mi] - m0)
        t = sM * (P(i)[1 - mi] - M0)
        v.prove("pixels lie within the rectangle of the end points", And(j >= 0, j <= b, t >= 0, t <= a))
        v.prove("pixels lie within half a pixel of the line", And(2 * (a * j - b * t) <= a, -a <= 2 * (a * j - b * t)))
    v.forall("pixels lie within half a pixel of the line", n, within)
    def adj(i):
        p, q = P(i), P(i + 1)
        v.prove("each pixel is adjacent to the one before", And(*[And(q[c] - p[c] <= 1, p[c] - q[c] <= 1) for c in (0, 1)]))
    v.forall("each pixel is adjacent to the one before", n - 1, adj)
    v.reach("end")

def line_units():
    us = []
    for sx in (1, -1):
        for sy in (1, -1):
            for steep in (False, True):
                u = Unit("C25.line%+d%+d%s" % (sx, sy, "steep" if steep else ""), lambda v, o=(sx, sy, steep): u_line(v, o), invs=[inv_line])
                u.must_reach = ["end"]
                us.append(u)
    return us

def units(prop):
    return {'C25': line_units}[prop]()

# ---- C24: pixels
def canvas(v, cls):
    """A new canvas of arbitrary size, made by the real constructor."""
    w, h = v.int("width", 1), v.int("height", 1)
    if cls == 'ColorCanvas':
        bg = tuple(v.int("bg%d" % i, 0, 255) for i in range(3))
    elif cls == 'GrayCanvas':
        bg = v.int("bg", 0, 255)
    else:
        bg = v.int("bg", 0, 1)
    o = v.call('raster.' + cls, w, h, bg)
    return o, w, h, bg

def any_state(v, o):
    """Replaces the pixel data by arbitrary data of the same size."""
    d = v.attr(o, 'data')
    n = Z(d.content.n) if isinstance(d.content, SSeq) else z3.IntVal(len(d.content))
    new = v.seq("data", 'int', n)
    j = z3.Int("dj")
    v.assume(ForAll([j], And(new.get(j) >= 0, new.get(j) <= 255)))
    d.content = new
    return n

def position(v, nm, w, h, *units):
    x, y = v.int("x" + nm, 0), v.int("y" + nm, 0)
    v.assume(x < w, y < h)
    return x, y

def row_lemma(v, y, h, row):
    """(y+1)*row <= h*row for 0 <= y < h, row >= 0 (proved here, then used)."""
    g = And(y * row >= 0, y * row + row <= h * row)
    v.prove("lemma: rows lie inside the data", g)
    v.assume(g)

def split_lemma(v, x, y, x2, y2, row):
    """Different positions are different offsets."""
    g = And(Implies(y < y2, y * row + row <= y2 * row), Implies(y2 < y, y2 * row + row <= y * row))
    v.prove("lemma: rows do not overlap", g)
    v.assume(g)

def rowsize(v, o, cls, w):
    if cls == 'BWCanvas':
        return (w + 7) / 8 * 8
    return w if cls == 'GrayCanvas' else 3 * w

def inv_fill(L):
    """A list made of copies of a tuple."""
    if L.src is None:
        return
    loc = locals_of(L)
    for n, l in loc:
        if isinstance(l, PList) and not isinstance(l, PArr):
            for m, t in loc:
                if type(t) is tuple and t and all(is_num(x) for x in t):
                    w = len(t)
                    def el(i, t=t, w=w):
                        r = t[-1]
                        for q in range(w - 1):
                            r = ite(Z(i) % w == q, t[q], r)
                        return r
                    yield Def("%s repeats %s" % (n, m), l, SSeq(w * Z(L.k), el))

def value(v, cls, alpha):
    if cls == 'BWCanvas':
        return v.int("value", 0, 1)
    n = 3 if cls == 'ColorCanvas' else 1
    fg = tuple(v.int("fg%d" % i, 0, 255) for i in range(n))
    if alpha:
        return fg + (v.real("alpha", 0, 1),)
    return fg if n == 3 else fg[0]

def tup(x):
    return x if isinstance(x, tuple) else (x,)

def get(v, o, x, y):
    r = v.call(v.it.getattr(o, '__getitem__'), (x, y))
    return tuple(Z(c) for c in tup(r))

def u_new(v, cls):
    o, w, h, bg = canvas(v, cls)
    x, y = position(v, "", w, h)
    row_lemma(v, y, h, rowsize(v, o, cls, w))
    if cls == 'BWCanvas':
        row_lemma(v, y, h, (w + 7) / 8)
    st, r = v.attempt(v.it.getattr(o, '__getitem__'), (x, y))
    v.prove("a position inside can be read", st == 'ok')
    if st == 'ok':
        v.prove("a new canvas has the background colour everywhere", And(*[Z(a) == Z(b) for a, b in zip(tup(r), tup(bg))]))
        v.reach("read")

def u_set(v, cls, alpha):
    o, w, h, bg = canvas(v, cls)
    any_state(v, o)
    x, y = position(v, "", w, h)
    x2, y2 = position(v, "2", w, h)
    row = rowsize(v, o, cls, w)
    for r in ([row, (w + 7) / 8] if cls == 'BWCanvas' else [row]):
        row_lemma(v, y, h, r)
        row_lemma(v, y2, h, r)
        split_lemma(v, x, y, x2, y2, r)
    val = value(v, cls, alpha)
    old, old2 = get(v, o, x, y), get(v, o, x2, y2)
    st, e = v.attempt(v.it.getattr(o, '__setitem__'), (x, y), val)
    v.prove("a position inside can be set", st == 'ok')
    if st != 'ok':
        return
    new, new2 = get(v, o, x, y), get(v, o, x2, y2)
    if alpha:
        a = val[-1]
        for b, f, c in zip(old, val, new):
            t = R(b) * (1 - a) + R(f) * a
            v.prove("the rounded blend of old and new", And(R(c) - t <= R(Fraction(1, 2)), t - R(c) <= R(Fraction(1, 2))))
    else:
        v.prove("the pixel reads back", And(len(new) == len(tup(val)), *[c == Z(f) for c, f in zip(new, tup(val))]))
    v.prove("a channel is in 0..255", And(*[And(c >= 0, c <= 255) for c in new]))
    v.prove("every other pixel is as it was", Implies(Or(x != x2, y != y2), And(*[c == f for c, f in zip(new2, old2)])))
    v.reach("set")

def pixel_units():
    us = []
    for cls in ('BWCanvas', 'GrayCanvas', 'ColorCanvas'):
        a = Unit("C24.%s-new" % cls, lambda v, cls=cls: u_new(v, cls), invs=[inv_fill])
        a.must_reach = ["read"]
        us.append(a)
        for alpha in ((False,) if cls == 'BWCanvas' else (False, True)):
            u = Unit("C24.%s-set%s" % (cls, "-alpha" if alpha else ""), lambda v, cls=cls, alpha=alpha: u_set(v, cls, alpha), invs=[inv_fill])
            u.must_reach = ["set"]
            us.append(u)
    return us

# ---- C26: scanning.  A watched row Y is recorded: W holds the marks pushed on it, in order.

def setnum(L, n, x):
    return n, (R(x) if is_real(x) else z3.ToReal(Z(x)))

def inv_scanning(L):
    g = L.a.get('scan')
    if g is None:
        return
    P, N, Y, W, S, Q, edge = g
    if L.src is not None and L.a.get('edgeloop') in (None, L.key):
        L.a['edgeloop'] = L.key
        L.a['edge'] = e = Z(L.k)
        k = None
    else:
        e, k = L.a['edge'], Z(L.k)
    xa, ya, xb, yb, down = edge(e)
    spans = lambda e: And(edge(e)[1] <= Y, Y < edge(e)[3])
    ln = length(W.content)
    at = lambda i: at_mark(L, W, i)
    def matches(e, i):
        xa, ya, xb, yb, d = edge(e)
        x, dd = at(i)
        c = R(xa) + z3.ToReal(Y - ya) * Q(e)
        return And(2 * (R(x) - c) <= 1, 2 * (c - R(x)) <= 1, B(dd) == d)
    if k is None:
        yield "marks", ln == S(e)
    else:
        done = And(ya <= Y, Y < ya + k)
        yield "marks", ln == S(e) + If(done, 1, 0)
        yield "this edge", Implies(done, matches(e, S(e)))
        yield "rows", And(k >= 0, ya + k <= yb)
        if L.src is None:
            yield "rows.variant", yb - ya - k
        for n, x in L.numbers():
            if is_int(x):
                yield "%s goes down" % n, Z(x) == ya + k
                yield "%s stays" % n, And(Z(x) == xa, xa == xb)
            yield "%s follows the edge" % n, R(x) == R(xa) + z3.ToReal(k) * Q(e)
        for n, x in locals_of(L):
            if isinstance(x, bool) or (isz(x) and z3.is_bool(x)):
                yield "%s is the direction" % n, B(x) == down
    yield All("counted", e, lambda f: And(S(f) >= 0, S(f) + If(spans(f), 1, 0) <= S(e)))
    yield All("marked", e, lambda f: Implies(spans(f), matches(f, S(f))))

def at_mark(L, W, i):
    c = W.content
    if isinstance(c, list):
        return SSeqOf(L.it, c).get(i) if c else (z3.IntVal(0), z3.BoolVal(False))
    return c.get(i)

def u_scan(v):
    P = v.seq("pts", ('tuple', ('int', 'int')), minlen=1)
    N = Z(P.n)
    h, Y = v.int("height", 1), v.int("row", 0)
    v.assume(Y < h)
    j = z3.Int("pj")
    v.assume(ForAll([j], Implies(And(j >= 0, j < N), And(P.get(j)[1] >= 0, P.get(j)[1] <= h)), patterns=[P.get(j)[1]]))
    def edge(e):
        """Top end, bottom end and direction of edge e."""
        e = Z(e)
        a, b = P.get(e), P.get(If(e + 1 < N, e + 1, z3.IntVal(0)))
        d = a[1] < b[1]
        return If(d, a[0], b[0]), If(d, a[1], b[1]), If(d, b[0], a[0]), If(d, b[1], a[1]), d
    S = v.p.fn("spanning", z3.IntSort(), z3.IntSort())
    Q = v.p.fn("slope", z3.IntSort(), z3.RealSort())
    i = z3.Int("ei")
    xa, ya, xb, yb, d = edge(i)
    v.assume(S(0) == 0, ForAll([i], Implies(i >= 0, S(i + 1) == S(i) + If(And(ya <= Y, Y < yb), 1, 0)), patterns=[S(i + 1)]))
    # columns per row: the edge's slope
    v.assume(ForAll([i], Implies(And(i >= 0, i < N, yb > ya), Q(i) * z3.ToReal(yb - ya) == z3.ToReal(xb - xa)), patterns=[Q(i)]))
    W = v.list([])
    rows = {}
    rowcls = PClass("Row", [], {}, None)
    def mk(y):
        return v.it.alloc(PObj(rowcls, {'y': y, 'append': Builtin('append', lambda m: push(v.it, row_of(y), m))}), "row")
    def row_of(y):
        return y
    def push(it, row, mark):
        y = row.fields['y'] if isinstance(row, PObj) else row
        x, d = it.unpack(mark, 2)
        if v.case(B(n_cmp('==', y, Y))):
            v.BI.list_append(it, W, (x, d if isz(d) else z3.BoolVal(bool(d))))
    def getrow(self, y):
        v.prove("marks go to rows inside the canvas", And(Z(y) >= 0, Z(y) < h))
        return mk(y)
    scls = PClass("Scans", [], {'__getitem__': Builtin('row', getrow)}, None)
    scans = v.it.alloc(PObj(scls, {}), "scans")
    v.it.ext_hooks['heapq.heappush'] = push
    v.p.unit.args.update(scan=(P, N, Y, W, S, Q, edge))
    for k in ('edge', 'edgeloop'):
        v.p.unit.args.pop(k, None)
    o = v.new('raster.BaseCanvas', height=h, width=v.int("width", 0))
    pts = v.list(P)
    r = v.meth(o, 'scanpolygon', pts, scans)
    v.prove("the scans are returned", r is scans)
    ln = length(W.content)
    v.prove("the row has one mark for every edge that spans it", ln == S(N))
    class LL: it = v.it
    def each(e):
        xa, ya, xb, yb, d = edge(e)
        c = R(xa) + z3.ToReal(Y - ya) * Q(e)
        x, dd = at_mark(LL, W, S(e))
        v.prove("the mark is where the edge crosses the row, tagged with the edge's direction",
                Implies(And(ya <= Y, Y < yb), And(S(e) < ln, 2 * (R(x) - c) <= 1, 2 * (c - R(x)) <= 1, B(dd) == d)))
    v.forall("the mark is where the edge crosses the row, tagged with the edge's direction", N, each)
    v.prove("the caller's points are unchanged", pts.content is P)
    v.reach("end")

def u_newscans(v, h):
    """Without scans to add to: one empty list per row, each of its own."""
    o = v.new('raster.BaseCanvas', height=h, width=3)
    r = v.meth(o, 'scanpolygon', v.list([]))
    c = r.content
    v.prove("one empty list per row, each of its own", isinstance(c, list) and len(c) == h and all(isinstance(x, PList) and not x.content for x in c) and len(set(map(id, c))) == h)
    r2 = v.meth(o, 'scanpolygon', v.list([(0, 0), (2, h)]))
    v.prove("the next scan starts anew", r2 is not r and all(not x.content for x in c) and all(len(x.content) == 2 for x in r2.content))
    v.reach("end")

# ---- C26: filling.  A watched pixel (X, Y) is recorded.
def inv_filling(L):
    g = L.a.get('fill')
    if g is None:
        return
    X, Y, W, log, NX, ND, q, c, inside = g
    row = L.a.get('marks')
    on = length(log.content) > 0
    if L.src is not None and L.a.get('level') is None or L.a.get('level') == L.key:
        L.a['level'] = L.key
        y = Z(L.k)
        yield "rows above are done", on == And(Y < y, inside(Y))
        return
    if row is None:
        return
    y, pp = Z(row.fields['y']), Z(row.fields['pos'])
    k = Z(L.k)
    prev = NX(y, pp - 2)
    base = If(And(pp >= 2, prev > 0), prev, 0)
    yield "spans so far", on == Or(And(Y < y, inside(Y)), And(Y == y, inside(y), c(y) <= pp - 2))
    yield "popped", And(pp >= 1, pp <= q(y) + 1)
    if L.src is None:
        yield "popping.variant", q(y) + 1 - pp
    else:
        # a for loop over the columns of a span
        x = L.src.get(z3.IntVal(0))
        if is_int(x):
            x = Z(x)
            yield "columns colour", on == Or(And(Y < y, inside(Y)), And(Y == y, Or(And(inside(y), c(y) <= pp - 2), And(x <= X, X < x + k))))
    def start(n, x):
        e = L.entryvals.get(n)
        return e if e is not None and is_num(e) else None
    for n, x in L.numbers():
        if is_int(x):
            x = Z(x)
            yield "%s is the mark's column" % n, x == NX(y, pp - 1)
            yield "%s is the span's start" % n, x == base
            e = start(n, x)
            if e is not None:
                e = Z(e)
                yield "%s runs" % n, And(x == e + k, e >= 0)
                yield "%s colours" % n, lambda x=x, e=e: on == Or(And(Y < y, inside(Y)), And(Y == y, Or(And(inside(y), c(y) <= pp - 2), And(e <= X, X < x))))
                for m, z in L.numbers():
                    if m != n and is_int(z):
                        yield "%s ends at %s" % (n, m), lambda x=x, e=e, z=z: Or(x <= Z(z), x == e)
                        yield "%s-%s.variant" % (m, n), lambda x=x, z=z: Z(z) - x
    for n, x in locals_of(L):
        if isinstance(x, bool) or (isz(x) and z3.is_bool(x)):
            b = B(x)
            yield "%s is the mark's direction" % n, b == ND(y, pp - 1)
            yield "%s is the direction before" % n, b == If(pp >= 2, ND(y, pp - 2), Not(ND(y, 0)))

def u_fill(v):
    w, h = v.int("width", 0), v.int("height", 0)
    X, Y = v.int("x"), v.int("y")
    nrows = h
    I, Bo = z3.IntSort(), z3.BoolSort()
    NX, ND = v.p.fn("column", I, I, I), v.p.fn("direction", I, I, Bo)
    q, c = v.p.fn("marks", I, I), v.p.fn("before", I, I)
    # marks of row y in the order they are popped: NX(y, i), ND(y, i) for i < q(y) are those before the mark
    # (width, False) that the method adds, which is the q(y)-th; c(y) of the marks lie at or before column X
    a, b = z3.Int("ma"), z3.Int("mb")
    def row_facts(y):
        v.p.assume(q(y) >= 0)
        v.p.assume(ForAll([a, b], Implies(And(0 <= a, a < b, b <= q(y)), Or(NX(y, a) < NX(y, b), And(NX(y, a) == NX(y, b), Or(Not(ND(y, a)), ND(y, b))))), patterns=[z3.MultiPattern(NX(y, a), NX(y, b))]))
        v.p.assume(ForAll([a], Implies(And(0 <= a, a < q(y)), NX(y, a) < w), patterns=[NX(y, a)]))
        v.p.assume(And(NX(y, q(y)) == w, Not(ND(y, q(y)))))
        v.p.assume(And(c(y) >= 0, c(y) <= q(y) + 1))
        v.p.assume(ForAll([a], Implies(And(0 <= a, a < c(y)), NX(y, a) <= X), patterns=[NX(y, a)]))
        v.p.assume(ForAll([a], Implies(And(c(y) <= a, a <= q(y)), NX(y, a) > X), patterns=[NX(y, a)]))
    # inside: the last mark at or before X is an entering one (up), or there is none and the first one leaves
    inside = lambda y: And(0 <= X, X < w, 0 <= y, y < nrows, Or(And(c(y) > 0, Not(ND(y, c(y) - 1))), And(c(y) == 0, q(y) > 0, ND(y, 0))))
    color = v.opaque("color")
    log = v.list([])
    def record(self, key, value):
        x, y = v.it.unpack(key, 2)
        v.prove("every pixel is set to the given colour", value is color)
        v.prove("no pixel outside the canvas is set", And(Z(x) >= 0, Z(x) < w, Z(y) >= 0, Z(y) < h))
        if v.case(And(Z(x) == X, Z(y) == Y)):
            v.BI.list_append(v.it, log, z3.IntVal(1))
    cls = PClass("Recorder", [v.get('raster.BaseCanvas')], {'__setitem__': Builtin('record', record)}, None)
    o = v.it.alloc(PObj(cls, {'width': w, 'height': h}), "canvas")
    rowcls = PClass("Marks", [], {}, None)
    def mk(y):
        r = v.it.alloc(PObj(rowcls, {'y': y, 'pos': z3.IntVal(0), 'pushed': z3.IntVal(0)}), "marks")
        return r
    def push(it, row, mark):
        x, d = it.unpack(mark, 2)
        v.prove("the row is ended by a mark at the right edge", And(Z(x) == w, Not(B(d)), Z(row.fields['pos']) == 0, Z(row.fields['pushed']) == 0))
        row_facts(Z(row.fields['y']))
        it.setattr(row, 'pushed', z3.IntVal(1))
        v.p.unit.args['marks'] = row
    def pop(it, row):
        y, pos = Z(row.fields['y']), Z(row.fields['pos'])
        v.prove("no more marks are taken than there are", And(pos <= q(y), Z(row.fields['pushed']) == 1))
        it.setattr(row, 'pos', pos + 1)
        return (NX(y, pos), ND(y, pos))
    v.it.ext_hooks['heapq.heappush'] = push
    v.it.ext_hooks['heapq.heappop'] = pop
    v.p.unit.args.update(fill=(X, Y, w, log, NX, ND, q, c, inside))
    for k in ('marks', 'level'):
        v.p.unit.args.pop(k, None)
    v.assumption("heapq: heappop gives the marks in increasing order (its documented contract)")
    scans = v.list(SSeq(nrows, mk))
    v.meth(o, 'fillpolygons', scans, color)
    row_facts(Y)
    v.prove("exactly the pixels between an entering and the following leaving crossing are coloured", (length(log.content) > 0) == inside(Y))
    v.reach("end")

def fill_units():
    a = Unit("C26.scanpolygon", u_scan, invs=[inv_scanning])
    b = Unit("C26.fillpolygons", u_fill, invs=[inv_filling])
    us = [a, b] + [Unit("C26.scanpolygon new bounded %d rows" % h, lambda v, h=h: u_newscans(v, h)) for h in range(1, 5)]
    for u in us:
        u.must_reach = ["end"]
    return us

def units(prop):
    return {'C24': pixel_units, 'C25': line_units, 'C26': fill_units}[prop]()
