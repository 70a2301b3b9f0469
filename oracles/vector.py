"""Concrete oracle of vector canvases: the saved program is run by a small PostScript interpreter."""
import os, tempfile, copy
from coral import vector, bbox

RULE = {"C27": "histories of 1..12 drawing operations (lines, polygons, rounded polygons, circles, images, texts, ink settings, copies, box resets) with coordinates in -9..9 and some random reals; boxes, saved files and copies compared after each",
        "C28": "the same histories, saved with every kind of background and run by a small PostScript interpreter; every painting compared with the one requested"}

def gen(prop, rng):
    def num():
        return rng.choice([rng.randrange(-9, 10), rng.randrange(-9, 10), round(rng.uniform(-50, 50), 3), 0])
    def ink():
        return rng.choice([None, 0, 1, 0.5, [0, 0, 0], [1, 1, 1], [0.5, 0.5, 0.5], [1, 0, 0], [0, 0, 1]])
    def pts(lo):
        return [[num(), num()] for _ in range(rng.randrange(lo, lo + 4))]
    while True:
        ops = []
        for _ in range(rng.randrange(1, 13)):
            k = rng.choice(["line", "poly", "poly", "circle", "circle", "round", "image", "text", "gray", "color", "ink", "width", "dash", "copy", "reset"])
            if k == "line":
                ops.append([k, pts(rng.choice([0, 1, 2])), ink(), rng.randrange(2)])
            elif k == "poly":
                ops.append([k, pts(rng.choice([0, 1, 3])), ink(), ink(), rng.randrange(2)])
            elif k == "circle":
                ops.append([k, [num(), num()], abs(num()), ink(), ink()])
            elif k == "round":
                ops.append([k, pts(2), rng.choice([0, 1, 0.5]), ink(), ink(), rng.randrange(2)])
            elif k == "image":
                c, w, h = rng.randrange(2), rng.randrange(1, 4), rng.randrange(0, 4)
                ops.append([k, [rng.randrange(256) for _ in range((3 if c else 1) * w * h)], w, rng.choice([None, [num(), num()]]), rng.choice([1, 2, 0.5]), c])
            elif k == "text":
                ops.append([k, [num(), num()], rng.choice("c t tr r br b bl l tl".split())])
            elif k == "gray":
                ops.append([k, rng.choice([0, 0.5, 1])])
            elif k == "color":
                ops.append([k, rng.choice([[0, 0, 0], [1, 1, 1], [1, 0, 0]])])
            elif k == "ink":
                ops.append([k, ink() or 0])
            elif k == "width":
                ops.append([k, rng.choice([0, 1, 2, 0.5])])
            elif k == "dash":
                ops.append([k, rng.choice([[], [1], [3, 2]]), rng.choice([0, 0, 1])])
            else:
                ops.append([k])
        yield [rng.choice([None, None, 0, 0.5, 1, [1, 0, 0], [0, 0, 0]]), ops, rng.choice([0, 0, 2, 0.5]), rng.choice([None, None, 100])]

def norm(ink):
    if isinstance(ink, (list, tuple)):
        return tuple(float(c) for c in ink)
    return (float(ink),) * 3

def tup(ink):
    return tuple(ink) if isinstance(ink, list) else ink

class Run:
    """The paintings of a PostScript program of the kind canvases write."""
    SHORT = dict(m='moveto', rm='rmoveto', l='lineto', rl='rlineto', w='setlinewidth', v='setgray', rgb='setrgbcolor',
                 gs='gsave', gr='grestore', s='stroke', f='fill', np='newpath', cp='closepath')
    def __init__(self, text):
        self.paint, self.bb = [], None
        st = dict(ink=(0.0, 0.0, 0.0), width=1.0, dash=((), 0.0), path=[])
        saved, stack, body = [], [], []
        lines = text.split("\n")
        toks = []
        for ln in lines:
            if ln.startswith("%%BoundingBox:"):
                self.bb = [float(t) for t in ln.split()[1:]]
            if not ln.startswith("%"):
                toks += ln.split("% ")[0].replace("[", " [ ").replace("]", " ] ").replace("{", " { ").replace("}", " } ").split()
        i = 0
        defining = False
        while i < len(toks):
            t = toks[i]
            i += 1
            t = self.SHORT.get(t, t)
            n = len(stack)
            def pop(k):
                assert len(stack) >= k, "%s without operands" % t
                r = stack[len(stack) - k:]
                del stack[len(stack) - k:]
                return r
            if t == '{':
                d = 1
                while d:
                    d += {'{': 1, '}': -1}.get(toks[i], 0)
                    i += 1
                stack.append('proc')
            elif t in ('bd', 'def'):
                pop(2)
            elif t == 'bind':
                pass
            elif t.startswith('/') or t.startswith('('):
                stack.append(t)
            elif t == '[':
                j = toks.index(']', i)
                stack.append(tuple(float(x) for x in toks[i:j]))
                i = j + 1
            elif t in ('moveto', 'lineto'):
                assert t == 'moveto' or st['path'], "a line without a current point"
                st['path'].append((t[0],) + tuple(pop(2)))
            elif t == 'arc':
                st['path'].append((t,) + tuple(pop(5)))
            elif t == 'arcto':
                assert st['path']
                st['path'].append((t,) + tuple(pop(5)))
            elif t == 'closepath':
                st['path'].append(('c',))
            elif t == 'newpath':
                st['path'] = []
            elif t == 'setgray':
                st['ink'] = tuple(pop(1)) * 3
            elif t == 'setrgbcolor':
                st['ink'] = tuple(pop(3))
            elif t == 'setlinewidth':
                st['width'], = pop(1)
            elif t == 'setdash':
                st['dash'] = tuple(pop(2))
            elif t == 'setlinejoin':
                pop(1)
            elif t == 'gsave':
                saved.append(copy.deepcopy(st))
            elif t == 'grestore':
                st = saved.pop()
            elif t in ('fill', 'stroke'):
                self.paint.append((t, st['ink'], st['width'], st['dash'], st['path']))
                st['path'] = []
            elif t in ('translate', 'scale'):
                assert pop(2) and all(isinstance(x, float) for x in stack)
            elif t in ('image', 'colorimage'):
                self.paint.append((t,))
                del stack[:]
            elif t in 'sc st str sr sbr sb sbl sl stl'.split():
                s, z, fnt, x, y = pop(5)
                self.paint.append(('text', st['ink']))
                st['path'] = [('m', 'end', 'of text')]
            elif t == 'false':
                stack.append(t)
            else:
                stack.append(float(t))
        assert not saved, "gsave without grestore"


class Model:
    def __init__(self, bg):
        self.paint, self.box, self.ink = [], None, None
        self.width, self.dash = 1.0, ((), 0.0)
        self.open = False
    def copy(self):
        return copy.deepcopy(self)
    def cover(self, b):
        if b == (0, 0, 0, 0):
            return
        c = self.box
        self.box = b if c is None else (min(c[0], b[0]), min(c[1], b[1]), max(c[2], b[2]), max(c[3], b[3]))
    def figure(self, path, fill, stroke):
        if fill is not None:
            self.paint.append(('fill', norm(fill), self.width, self.dash, path))
        if stroke is not None:
            self.paint.append(('stroke', norm(stroke), self.width, self.dash, path))
        if fill is not None or stroke is not None:
            self.ink = None

def hull(ps):
    return (min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps))

def F(ps):
    return [tuple(map(float, p)) for p in ps]

def apply(op, c, m):
    k, a = op[0], op[1:]
    if k == "line":
        ps, st, form = a
        ps = [tuple(p) for p in ps]
        c.addpolyline(ps if form else iter(ps), tup(st))
        if ps:
            path = [('m' if i == 0 else 'l',) + p for i, p in enumerate(F(ps))]
            m.paint.append(('stroke', norm(st) if st is not None else m.ink, m.width, m.dash, path))
            if st is not None:
                m.ink = None
            m.cover(hull(ps))
    elif k == "poly":
        ps, fl, st, form = a
        ps = [tuple(p) for p in ps]
        c.addpolygon(ps if form else iter(ps), tup(fl), tup(st))
        if ps:
            m.figure([('m' if i == 0 else 'l',) + p for i, p in enumerate(F(ps))] + [('c',)], fl, st)
            m.cover(hull(ps))
    elif k == "circle":
        (x, y), r, fl, st = a
        c.addcircle((x, y), r, tup(fl), tup(st))
        m.figure([('arc', float(x), float(y), float(r), 0.0, 360.0), ('c',)], fl, st)
        m.cover((x - r, y - r, x + r, y + r))
    elif k == "round":
        ps, r, fl, st, form = a
        ps = [tuple(p) for p in ps]
        c.addroundedpolygon(ps if form else tuple(ps), r, tup(fl), tup(st))
        mid = ((ps[0][0] + ps[1][0]) / 2, (ps[0][1] + ps[1][1]) / 2)
        path = [('m',) + tuple(map(float, mid))]
        q = F(ps)
        n = len(q)
        for i in range(1, n + 1):
            nxt = tuple(map(float, mid)) if i == n else q[(i + 1) % n]
            path.append(('arcto',) + q[i % n] + nxt + (float(r),))
        m.figure(path + [('c',)], fl, st)
        m.cover(hull(ps))
    elif k == "image":
        data, w, pos, sc, col = a
        c.addimage(data, w, None if pos is None else tuple(pos), sc, bool(col))
        m.paint.append(('colorimage' if col else 'image',))
        h = len(data) // (3 * w if col else w)
        x, y = pos or (0, 0)
        m.cover((x, y, x + w * sc, y + h * sc))
    elif k == "text":
        c.addtext(tuple(a[0]), "text", 12, anchor=a[1])
        m.paint.append(('text', m.ink))
    elif k == "gray":
        c.setgray(a[0])
        m.ink = norm(a[0])
    elif k == "color":
        c.setcolor(*a[0])
        m.ink = norm(a[0])
    elif k == "ink":
        c.setink(tup(a[0]))
        m.ink = norm(a[0])
    elif k == "width":
        c.setwidth(a[0])
        m.width = float(a[0])
    elif k == "dash":
        pat = list(a[0])
        c.setdash(pat, a[1])
        pat.append(7)
        m.dash = (tuple(map(float, a[0])), float(a[1]))
    elif k == "reset":
        c.resetbbox()
        m.box = None

def saved(c, margin=0, size=None):
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, "x.eps")
        c.save(p, size, margin)
        with open(p) as f:
            return f.read()

def box(b):
    return (b.x0, b.y0, b.x1, b.y1)

def check(prop, x):
    bg, ops, margin, size = x
    bg = tup(bg)
    c, m = vector.Canvas(bg), Model(bg)
    others = []
    for op in ops:
        if op[0] == "copy":
            d = c.copy()
            others.append((c, m.copy(), saved(c, margin)))
            c = d
            continue
        apply(op, c, m)
        if prop == 'C27':
            assert box(c.bbox) == (m.box or (0, 0, 0, 0)), "box %r, expected %r after %r" % (box(c.bbox), m.box, op)
    if size is not None and max(c.bbox.width(), c.bbox.height()) <= 0:
        size = None
    if prop == 'C27':
        text = saved(c, margin)
        b = m.box or (0, 0, 0, 0)
        assert Run(text).bb == [b[0] - margin, b[1] - margin, b[2] + margin, b[3] + margin], "the file's box is %r" % (Run(text).bb,)
        for o, om, text in others:
            assert saved(o, margin) == text and box(o.bbox) == (om.box or (0, 0, 0, 0)), "a copy changed the original"
        if size is not None:
            assert Run(saved(c, margin, size)).bb == [0, 0, size, size]
        # and the other way round
        d = c.copy()
        t0, b0 = saved(d, margin), box(d.bbox)
        apply(["poly", [[90, 90], [95, 90], [95, 99]], 0.25, None, 1], c, m)
        apply(["text", [0, 0], "c"], c, m)
        c.setwidth(17)
        assert saved(d, margin) == t0 and box(d.bbox) == b0, "the original changed a copy"
        return
    for o, om, text in others + [(c, m, None)]:
        # drawing goes on, on every copy
        for op in ([["circle", [1, 2], 3, 0.5, [1, 0, 0]], ["line", [[0, 0], [1, 1]], 0.5, 1]]):
            apply(op, o, om)
        r = Run(saved(o, margin, size if o is c else None))
        want = om.paint
        got = r.paint
        if bg is not None:
            assert got and got[0][0] == 'fill' and got[0][1] == norm(bg), "the background is painted in %r" % (got[:1],)
            got = got[1:]
        assert len(got) == len(want), "%d paintings, expected %d" % (len(got), len(want))
        for g, w in zip(got, want):
            g = list(g)
            if len(w) > 1 and w[1] is None:
                g[1] = None
            assert tuple(g) == tuple(w), "painted %r, expected %r" % (tuple(g), w)
