"""Contracts of coral/vector.py (C27, C28).

The program a canvas accumulates (Canvas.lines) is replaced by a ghost: a PostScript interpreter that runs
every line as it is appended.  Its state is the ink, width, dash and path the real interpreter would be in, and
it keeps the list of paintings."""
from pyvc.facade import *
from .templates import *
from . import bbox as bb

M, L_, ARC, ARCTO, C = range(5)
NUMS = dict(moveto=2, lineto=2, arc=5, arcto=5, closepath=0)
SHORT = dict(m='moveto', l='lineto', w='setlinewidth', v='setgray', rgb='setrgbcolor', gs='gsave', gr='grestore',
             s='stroke', f='fill', np='newpath', cp='closepath')
TEXT = 'sc st str sr sbr sb sbl sl stl'.split()
OPS = dict(moveto=M, lineto=L_, arc=ARC, arcto=ARCTO, closepath=C)

class Program:
    def __init__(self, v, ink=None, leftover=False):
        self.v = v
        self.ink = ink if ink is not None else (Fraction(0),) * 3
        self.width, self.dash = Fraction(1), ((), Fraction(0))
        z = 'real'
        self.path = v.list(v.seq("leftover", ('tuple', ('int', z, z, z, z, z))) if leftover else [])
        self.stack, self.saved, self.paint, self.skip = [], [], [], False
        self.mark = None
        self.defs = dict(SHORT)
        self.preamble = False
        cls = PClass("Program", [], {'__iadd__': Builtin('__iadd__', lambda s, x: (self.extend(x), s)[1])}, None)
        self.obj = v.it.alloc(PObj(cls, {'append': Builtin('append', lambda x: self.run(x)), 'extend': Builtin('extend', lambda x: self.extend(x))}), "program")

    def extend(self, xs):
        for x in self.v.it.iter_list(xs) if hasattr(self.v.it, 'iter_list') else self.v.it.unpack(xs, len(content(xs))):
            self.run(x)

    def bad(self, what):
        self.v.fail("the program is well-formed", what)
        raise PathEnd("bad program")

    def tokens(self, line):
        cur, text = [], False
        for p in self.v.BI.pieces_of(line) if not isinstance(line, str) else [line]:
            if text and not isinstance(p, str):
                continue        # assumed: texts have no parentheses or backslashes
            if isinstance(p, str):
                if p.lstrip().startswith("%") and not cur:
                    return      # a comment
                for ch in p.replace("[", " [ ").replace("]", " ] ").replace("{<", " {< ").replace(">}", " >} "):
                    if text:
                        text = ch != ')'
                    elif ch == '(':
                        if cur:
                            self.bad("a string inside a word")
                        text = True
                        yield ["()"]
                    elif ch.isspace():
                        if cur:
                            yield cur
                        cur = []
                    else:
                        if cur and isinstance(cur[-1], str):
                            cur[-1] += ch
                        else:
                            cur.append(ch)
            elif p[0] == 'join':
                if cur or p[1].strip():
                    self.bad("no space before a list")
                yield [p]
                cur = []
            else:
                cur.append(p)
        if cur:
            yield cur

    def run(self, line):
        if self.skip:
            # hexadecimal data of an image
            if isinstance(line, str) and line.strip().startswith(">}"):
                self.skip = False
                self.stack.append('proc')
                line = line.strip()[2:]
            else:
                return
        for t in self.tokens(line):
            self.token(t)

    def token(self, t):
        v = self.v
        if len(t) != 1 or self.skip:
            if self.skip:
                return
            self.bad("a word of the program is put together: %r" % (t,))
        t = t[0]
        if not isinstance(t, str):
            if t[0] == 'join':
                self.stack.append(t)
                return
            if t[0] == 'fmt' and is_num(t[1]) and t[2] == '':
                self.stack.append(t[1])
                return
            self.bad("unknown operand %r" % (t,))
        try:
            self.stack.append(Fraction(t))
            return
        except ValueError:
            pass
        t = self.defs.get(t, t)
        def pop(n):
            if len(self.stack) < n:
                self.bad("%s without operands" % t)
            r = self.stack[len(self.stack) - n:]
            del self.stack[len(self.stack) - n:]
            if t != 'setdash' and not all(is_num(x) for x in r):
                self.bad("%s of %r" % (t, r))
            return tuple(r)
        if t == '[':
            self.stack.append('[')
        elif t == ']':
            i = len(self.stack) - 1
            while i >= 0 and not (isinstance(self.stack[i], str) and self.stack[i] == '['):
                i -= 1
            if i < 0:
                self.bad("] without [")
            xs = self.stack[i + 1:]
            self.stack[i:] = [('array', xs)]
        elif t == '{<':
            self.skip = True
        elif t == 'false' or t == '()' or t.startswith('/'):
            self.stack.append(t)
        elif t in TEXT:
            if len(self.stack) < 5 or self.stack[-5] != '()' or not str(self.stack[-3]).startswith('/') or not all(is_num(self.stack[-i]) for i in (1, 2, 4)):
                self.bad("text without operands")
            del self.stack[-5:]
            self.paint.append(('text', self.ink))
            v.BI.list_append(v.it, self.path, op(M, v.real("textx"), v.real("texty")))
        elif t == 'setlinejoin':
            pop(1)
        elif t in OPS:
            a = pop(NUMS[t])
            v.BI.list_append(v.it, self.path, tuple([OPS[t]] + [R(x) for x in a] + [R(0)] * (5 - len(a))))
        elif t == 'newpath':
            self.path.content = []
        elif t == 'setgray':
            self.ink = pop(1) * 3
        elif t == 'setrgbcolor':
            self.ink = pop(3)
        elif t == 'setlinewidth':
            self.width, = pop(1)
        elif t == 'setdash':
            self.dash = pop(2)
        elif t == 'gsave':
            c = self.path.content
            self.saved.append((self.ink, self.width, self.dash, list(c) if isinstance(c, list) else c))
        elif t == 'grestore':
            if not self.saved:
                self.bad("grestore without gsave")
            self.ink, self.width, self.dash, c = self.saved.pop()
            self.path.content = list(c) if isinstance(c, list) else c
        elif t in ('fill', 'stroke'):
            c = self.path.content
            self.paint.append((t, self.ink, self.width, self.dash, list(c) if isinstance(c, list) else c))
            self.path.content = []
        elif t in ('translate', 'scale'):
            pop(2)
            if not self.saved and not self.preamble:
                self.bad("%s outside gsave" % t)
        elif t in ('image', 'colorimage'):
            if len(self.stack) < 5:
                self.bad("image without operands")
            self.paint.append((t, len(self.saved)))
            self.stack = []
        else:
            self.bad("unknown operator %s" % t)

# ---- invariants
def inv_path(L):
    """The path drawn so far follows the points taken so far."""
    prog, P = L.a.get('prog'), L.a.get('pts')
    if L.a.get('box') and L.a['figure'] == 'round':
        prog = None     # not needed for the box
    if prog is None or P is None:
        return
    N = Z(P.n)
    k = Z(L.k)
    cat = L.v.BI.seq_concat
    e = L.entryvals.get('#path', None)
    base = L.a.setdefault(('path at', L.key), prog.path.content)
    base = base if isinstance(base, SSeq) else SSeqOf(L.it, list(base))
    z = R(0)
    first = N - Z(L.n)
    if L.a['figure'] == 'round':
        S, r = L.a['startend'], R(L.a['radius'])
        def nth(i):
            i = Z(i)
            a, b = P.get(If(i + 1 < N, i + 1, z3.IntVal(0))), P.get(If(i + 2 < N, i + 2, i + 2 - N))
            last = i == N - 1
            return (Z(ARCTO), R(a[0]), R(a[1]), If(last, S[0], R(b[0])), If(last, S[1], R(b[1])), r)
    else:
        def nth(i):
            p = P.get(Z(i) + first)
            return (Z(L_), R(p[0]), R(p[1]), z, z, z)
    yield Def("path so far", prog.path, cat(L.it, base, SSeq(k, nth)))

def inv_scan(L):
    if L.a.get('box') and 'pts' in L.a:
        yield from bb.inv_scan(L)

# ---- start states
def ink(v, kind, nm):
    if kind == 'gray':
        return v.real(nm)
    if kind == 'color':
        return tuple(v.real(nm + c) for c in "rgb")
    return None

def rgb(x):
    return tuple(R(c) for c in x) if isinstance(x, tuple) else (R(x),) * 3

def same_ink(a, b):
    return And(*[R(x) == y for x, y in zip(a, rgb(b))])

# Every history leaves the canvas in one of these states (background, inks set): obligation "the canvas keeps
# track" shows that each operation leads from any of them to one of them.
STARTS = [(None, None), ('gray', None), ('color', None), (None, 'color,gray'), (None, 'gray,color')]

def start(v, bg, last, leftover=True):
    """A canvas after an arbitrary history: background, then (a kind of ink and) the last kind of ink."""
    b = ink(v, bg, "background")
    c = v.call('vector.Canvas', b) if b is not None else v.call('vector.Canvas')
    prog = Program(v, rgb(b) if b is not None else None, leftover)
    v.setattr(c, 'lines', prog.obj)
    if last:
        for i, k in enumerate(last.split(',')):
            v.meth(c, 'setink', ink(v, k, "ink%d" % i))
    return c, prog, b

def anybb(v, c):
    """Gives the canvas an arbitrary bounding box."""
    if v.case(v.bool("nothing drawn yet")):
        return (R(0),) * 4
    o, cs = bb.anybox(v, "old", True)
    v.setattr(c, 'bbox', o)
    return cs

def cover(v, c, old, lo, hi):
    """The new box is the smallest one covering the old box and [lo, hi]."""
    mn = lambda x, y: If(x < y, x, y)
    mx = lambda x, y: If(x > y, x, y)
    new = (lo[0], lo[1], hi[0], hi[1])
    both = (mn(old[0], lo[0]), mn(old[1], lo[1]), mx(old[2], hi[0]), mx(old[3], hi[1]))
    got = bb.corners(v, v.attr(c, 'bbox'))
    v.prove("the box is the smallest one covering the old box and the figure",
            If(bb.isempty(old), bb.same(got, new), If(bb.isempty(new), bb.same(got, old), bb.same(got, both))))

def hull(v, c, old, P):
    got = [R(x) for x in bb.corners(v, v.attr(c, 'bbox'))]
    name = "the box covers every point"
    n = P.n
    # the figure's own box, as its points determine it: got must be old joined with it
    ghost = [v.real("hull_" + s) for s in ('x0', 'y0', 'x1', 'y1')]
    for d in (0, 1):
        v.assume(v.all(n, lambda j: And(ghost[d] <= R(P.get(j)[d]), R(P.get(j)[d]) <= ghost[d + 2])))
        for g in (ghost[d], ghost[d + 2]):
            w = v.int("witness", 0)
            v.assume(w < Z(n), R(P.get(w)[d]) == g)
    cover(v, c, old, ghost[:2], ghost[2:])

def expect(v, prog, want):
    """The paintings are the wanted ones: (kind, ink, path) each."""
    ok = len(prog.paint) == len(want) and all(g[0] == w[0] for g, w in zip(prog.paint, want))
    v.prove("the figure is painted as asked (filled, stroked)", ok)
    if not ok:
        raise PathEnd("paintings")
    for g, (kind, x, path) in zip(prog.paint, want):
        if x is not None:
            v.prove("each %s uses the ink requested for it" % kind, same_ink(g[1], x))
        v.prove("each %s uses the width and dash last set" % kind, And(R(g[2]) == R(v.p.unit.args['width']), same_dash(v, g[3], v.p.unit.args['dash'])))
        c = g[4]
        s = SSeqOf(v.it, c) if isinstance(c, list) else c
        v.prove("the path painted has the given vertices", Z(s.n) == Z(path.n))
        def nth(j):
            a, b = s.get(j), path.get(j)
            return And(*[Z(x) == Z(y) if i == 0 else R(x) == R(y) for i, (x, y) in enumerate(zip(a, b))])
        v.forall("the path painted has the given vertices", path.n, nth)
    v.prove("gsave and grestore are paired", len(prog.saved) == 0 and not prog.stack)

def same_dash(v, a, b):
    return z3.BoolVal(a is b)

def afterwards(v, c, prog, b):
    """Any further drawing starts from a state of the kind considered."""
    st = v.attr(c, 'state')
    forms = []
    other = v.real("other")
    v.assume(*[other > R(x) for x in prog.ink], *[other > x for x in (rgb(b) if b is not None else (0,))])
    for form in ('fresh', 'gray', 'color'):
        d = v.call('vector.Canvas', b) if b is not None and form == 'fresh' else v.call('vector.Canvas')
        dp = Program(v, rgb(b) if b is not None and form == 'fresh' else None)
        v.setattr(d, 'lines', dp.obj)
        if form == 'gray':
            v.meth(d, 'setcolor', other, other, other)
            v.meth(d, 'setgray', R(prog.ink[0]))
        elif form == 'color':
            v.meth(d, 'setgray', other)
            v.meth(d, 'setcolor', *[R(x) for x in prog.ink])
        if v.p.unit.args.get('wide'):
            v.meth(d, 'setwidth', prog.width)
        f = And(B(v.cmp('==', v.attr(d, 'state'), st)), And(*[R(x) == R(y) for x, y in zip(dp.ink, prog.ink)]))
        forms.append(f)
    v.prove("the canvas keeps track of the interpreter's ink", Or(*forms))

def seq_of(v, *parts):
    r = None
    for p in parts:
        q = p if isinstance(p, SSeq) else SSeqOf(v.it, list(p))
        r = q if r is None else v.BI.seq_concat(v.it, r, q)
    return r

def op(k, *a):
    return tuple([Z(k)] + [R(x) for x in a] + [R(0)] * (5 - len(a)))

def u_figure(v, prop, fig, st, fk, sk):
    bg, last = st
    c, prog, b = start(v, bg, last)
    v.p.unit.args.update(prog=prog, figure=fig, box=prop == 'C27', width=Fraction(1), dash=prog.dash)
    if fk and sk and prop == 'C28':
        v.meth(c, 'setwidth', v.real("width"))
        v.p.unit.args.update(wide=True, width=prog.width)
    fill, stroke = ink(v, fk, "fill"), ink(v, sk, "stroke")
    old = anybb(v, c) if prop == 'C27' else None
    P = None
    if fig == 'circle':
        x, y, r = v.real("x"), v.real("y"), v.real("radius", 0)
        v.meth(c, 'addcircle', (x, y), r, fill, stroke)
        path = seq_of(v, [op(ARC, x, y, r, 0, 360), op(C)])
    else:
        P = v.seq("pts", ('tuple', ('real', 'real')), minlen=0 if fig != 'round' else 2)
        v.p.unit.args['pts'] = P
        N = Z(P.n)
        if fig == 'round':
            S = tuple((R(P.get(z3.IntVal(0))[d]) + R(P.get(z3.IntVal(1))[d])) / 2 for d in (0, 1))
            rad = v.real("radius", 0)
            v.p.unit.args.update(startend=S, radius=rad)
            v.meth(c, 'addroundedpolygon', v.list(P), rad, fill, stroke)
            def nth(i):
                i = Z(i)
                a, q = P.get(If(i + 1 < N, i + 1, z3.IntVal(0))), P.get(If(i + 2 < N, i + 2, i + 2 - N))
                return (Z(ARCTO), R(a[0]), R(a[1]), If(i == N - 1, S[0], R(q[0])), If(i == N - 1, S[1], R(q[1])), R(rad))
            path = seq_of(v, [op(M, *S)], SSeq(N, nth), [op(C)])
        else:
            arg = v.list(P) if v.choose(True, False) else v.iter(P)
            if fig == 'line':
                v.meth(c, 'addpolyline', arg, stroke)
            else:
                v.meth(c, 'addpolygon', arg, fill, stroke)
            if v.case(N == 0):
                v.prove("nothing is painted for no points", not prog.paint)
                if prop == 'C27':
                    v.prove("no points leave the box as it was", bb.same(bb.corners(v, v.attr(c, 'bbox')), old))
                return
            p0 = P.get(z3.IntVal(0))
            path = seq_of(v, [op(M, *p0)], SSeq(N - 1, lambda i: op(L_, *P.get(Z(i) + 1))), *([[op(C)]] if fig == 'polygon' else []))
    if prop == 'C27':
        if fig == 'circle':
            cover(v, c, old, (x - r, y - r), (x + r, y + r))
        else:
            hull(v, c, old, P)
    else:
        want = []
        if fill is not None:
            want.append(('fill', fill, path))
        if stroke is not None or fig == 'line':
            want.append(('stroke', stroke, path))
        expect(v, prog, want)
        afterwards(v, c, prog, b)
    v.reach("end")

def u_ink(v, st, how):
    bg, last = st
    c, prog, b = start(v, bg, last)
    if how == 'setgray':
        x = v.real("v")
        v.meth(c, 'setgray', x)
    elif how == 'setcolor':
        x = ink(v, 'color', "c")
        v.meth(c, 'setcolor', *x)
    else:
        x = ink(v, how, "ink")
        v.meth(c, 'setink', x)
    v.prove("the ink set is the interpreter's", same_ink(prog.ink, x))
    v.prove("nothing is painted", not prog.paint and not prog.stack and not prog.saved)
    afterwards(v, c, prog, b)
    v.reach("end")

def u_width(v, again):
    c, prog, b = start(v, None, None)
    if again:
        v.meth(c, 'setwidth', v.real("before"))
    w = v.real("w")
    v.meth(c, 'setwidth', w)
    v.prove("the width set is the interpreter's", R(prog.width) == w)
    v.prove("nothing is painted", not prog.paint and not prog.stack and not prog.saved)
    w2 = v.real("w2")
    v.meth(c, 'setwidth', w2)
    v.prove("the width set next is the interpreter's", R(prog.width) == w2)
    x = ink(v, v.choose('gray', 'color'), "ink")
    v.meth(c, 'setink', x)
    v.prove("the ink set then is the interpreter's", same_ink(prog.ink, x))
    v.reach("end")

def pattern(v, d):
    """The numbers of a dash pattern the interpreter was given."""
    if isinstance(d, tuple) and d and d[0] == 'array':
        xs = d[1]
        if len(xs) == 1 and isinstance(xs[0], tuple) and xs[0][0] == 'join':
            def nth(i):
                ps = xs[0][3](i)
                if len(ps) == 1 and not isinstance(ps[0], str) and ps[0][0] == 'fmt' and ps[0][2] == '':
                    return R(ps[0][1])
                raise Unsupported("dash pattern %r" % (ps,))
            return SSeq(xs[0][2], nth)
        if all(is_num(x) for x in xs):
            return SSeqOf(v.it, [R(x) for x in xs]) if xs else SSeq(z3.IntVal(0), lambda i: R(0))
    if d == ():
        return SSeq(z3.IntVal(0), lambda i: R(0))
    v.fail("the dash pattern is an array of numbers", repr(d))
    raise PathEnd("dash")

def u_dash(v, again, mutate):
    c, prog, b = start(v, None, None)
    if again:
        one = v.list(v.seq("before", 'real'))
        v.meth(c, 'setdash', one, v.real("offset before"))
        if mutate:
            # the caller goes on using the list
            one.content = v.seq("changed", 'real')
    P, off = v.seq("pattern", 'real'), v.real("offset")
    arg = v.list(P)
    v.meth(c, 'setdash', arg, off)
    got = pattern(v, prog.dash[0])
    v.prove("the dash set is the interpreter's", And(Z(got.n) == Z(P.n), R(prog.dash[1]) == off))
    v.forall("the dash set is the interpreter's", P.n, lambda j: R(got.get(j)) == R(P.get(j)))
    v.prove("nothing is painted", not prog.paint and not prog.stack and not prog.saved)
    v.prove("the caller's pattern is unchanged", arg.content is P)
    v.reach("end")

def u_text(v, st):
    c, prog, b = start(v, *st)
    v.assumption("texts hold no parentheses or backslashes (they are PostScript string source)")
    anchor = v.choose(*[k[1:] for k in TEXT])
    v.meth(c, 'addtext', (v.real("x"), v.real("y")), v.str("text"), v.real("size"), "Times-Bold", anchor)
    v.prove("the text is shown in the current ink", len(prog.paint) == 1 and prog.paint[0][0] == 'text')
    afterwards(v, c, prog, b)
    v.reach("end")

def inv_size(L):
    if L.a.get('figure') == 'image':
        for n, x in L.numbers():
            if is_int(x):
                yield "%s>=0" % n, x >= 0

def u_image(v, prop, st, color, placed):
    c, prog, b = start(v, *st)
    old = anybb(v, c) if prop == 'C27' else None
    w, h, rest = v.int("width", 1), v.int("rows", 0), v.int("rest", 0)
    cw = 3 * w if color else w
    v.assume(rest < cw)
    n = h * cw + rest
    data = v.list(v.seq("data", 'int', n=n))
    sc = v.real("scale")
    v.assume(sc > 0)
    pos = (v.real("px"), v.real("py")) if placed else None
    v.p.unit.args.update(figure='image')
    v.prove("lemma: the number of rows", n / cw == h)
    v.assume(n / cw == h)
    # the products are positive
    v.assume(w * sc > 0, z3.ToReal(h) * sc >= 0)
    if pos is None:
        v.meth(c, 'addimage', data, w, scale=sc, color=color)
    else:
        v.meth(c, 'addimage', data, w, pos, sc, color)
    x, y = pos or (R(0), R(0))
    if prop == 'C27':
        cover(v, c, old, (x, y), (x + z3.ToReal(w) * sc, y + z3.ToReal(h) * sc))
    else:
        v.prove("one image is painted, inside gsave and grestore", len(prog.paint) == 1 and prog.paint[0] == ('colorimage' if color else 'image', 1))
        v.prove("gsave and grestore are paired", not prog.saved and not prog.stack and not prog.skip)
        afterwards(v, c, prog, b)
    v.reach("end")

def draw(v, c, nm):
    """One of each kind of change."""
    v.meth(c, 'addcircle', (v.real(nm + "x"), v.real(nm + "y")), v.real(nm + "r", 0), v.real(nm + "fill"), tuple(v.real(nm + q) for q in "rgb"))
    v.meth(c, 'setwidth', v.real(nm + "w"))
    v.meth(c, 'setdash', v.list(v.seq(nm + "dash", 'real')), v.real(nm + "off"))
    v.meth(c, 'addtext', (v.real(nm + "tx"), v.real(nm + "ty")), v.str(nm + "text"), v.real(nm + "size"))

def u_copy(v, which):
    b = ink(v, v.choose(None, 'gray', 'color'), "background")
    c = v.call('vector.Canvas', b) if b is not None else v.call('vector.Canvas')
    v.meth(c, 'setink', ink(v, v.choose('gray', 'color'), "ink"))
    lines = v.seq("lines", 'opaque')
    v.setattr(c, 'lines', v.list(lines))
    o, cs = bb.anybox(v, "box", True)
    v.setattr(c, 'bbox', o)
    v.meth(v.attr(c, 'deps'), 'add', 'sc')
    d = v.meth(c, 'copy')
    def snap(c):
        l = v.attr(c, 'lines').content
        st = v.attr(c, 'state')
        return (list(l) if isinstance(l, list) else l, v.attr(c, 'bbox'), v.call(v.attr(st, 'copy')), v.meth(v.attr(c, 'deps'), 'copy'), bb.corners(v, v.attr(c, 'bbox')))
    def same(a, z, what):
        v.prove(what + ": the program", a[0] is z[0] or (isinstance(a[0], list) and a[0] == z[0]))
        v.prove(what + ": the box", bb.same(a[4], z[4]))
        v.prove(what + ": the ink", B(v.cmp('==', a[2], z[2])))
        v.prove(what + ": the text definitions", B(v.cmp('==', a[3], z[3])))
    same_lines = v.attr(d, 'lines').content
    s0 = snap(c)
    n = same_lines if isinstance(same_lines, SSeq) else SSeqOf(v.it, same_lines)
    v.prove("the copy has the program", Z(n.n) == Z(lines.n))
    v.forall("the copy has the program", lines.n, lambda j: n.get(j).term == lines.get(j).term)
    v.prove("the copy has the box", bb.same(bb.corners(v, v.attr(d, 'bbox')), cs))
    v.prove("the copy has the ink", B(v.cmp('==', v.attr(d, 'state'), v.attr(c, 'state'))))
    v.prove("the copy has the background", d is not c and B(v.cmp('==', v.attr(d, 'bgcolor'), v.attr(c, 'bgcolor'))))
    v.prove("the copy has the text definitions", B(v.cmp('==', v.attr(d, 'deps'), v.attr(c, 'deps'))))
    a, z = (c, d) if which else (d, c)
    sz = snap(z)
    draw(v, a, "n")
    same(sz, snap(z), "drawing on one leaves the other as it was")
    v.meth(a, 'resetbbox')
    same(sz, snap(z), "drawing on one leaves the other as it was")
    v.reach("end")

def u_save(v, prop, bg, sized, n):
    """The file: comments, definitions, background, then the canvas's lines."""
    b = ink(v, bg, "background")
    c = v.call('vector.Canvas', b) if b is not None else v.call('vector.Canvas')
    o, cs = bb.anybox(v, "box", True)
    v.setattr(c, 'bbox', o)
    deps = v.choose(None, *[k[1:] for k in TEXT])
    if deps:
        v.setattr(c, 'lines', v.list([]))
        v.meth(c, 'addtext', (0, 0), "t", 1, "Times-Bold", deps)
    lines = [v.str("line%d" % i) for i in range(n)]
    v.assumption("Canvas.save is checked with programs of 0 to 3 lines (bounded)")
    v.setattr(c, 'lines', v.list(list(lines)))
    margin = v.real("margin")
    kw = {'margin': margin}
    if sized:
        size = kw['size'] = v.real("size")
        v.assume(Or(cs[2] > cs[0], cs[3] > cs[1]))
    v.meth(c, 'save', 'file.eps', **kw)
    pieces = v.it.p.fs['file.eps'].content
    v.prove("the file holds the lines in order", isinstance(pieces, list))
    # split into lines
    out, cur = [], []
    for p in pieces:
        if isinstance(p, str):
            parts = p.split("\n")
            cur.append(parts[0])
            for q in parts[1:]:
                out.append([x for x in cur if x != ""])
                cur = [q]
        else:
            cur.append(p)
    v.prove("the last line is ended", all(x == "" for x in cur))
    pre, got = out[:len(out) - n], out[len(out) - n:]
    ok = all(len(g) == 1 and not isinstance(g[0], str) and g[0][0] == 'sv' and g[0][1].term.eq(l.term) for g, l in zip(got, lines)) and len(got) == n
    v.prove("the file holds the lines in order", ok)
    if not ok:
        return
    boxes = [l for l in pre if l and isinstance(l[0], str) and l[0].startswith("%%BoundingBox:")]
    v.prove("the file declares one box", len(boxes) == 1 and pre[0][0].startswith("%!PS"))
    nums = []
    if len(boxes) == 1:
        l = [boxes[0][0][len("%%BoundingBox:"):]] + boxes[0][1:]
        for p in l:
            if isinstance(p, str):
                nums += [Fraction(t) for t in p.split()]
            else:
                nums.append(p[1] if p[0] == 'fmt' and p[2] == '' else None)
    ok = len(nums) == 4 and all(is_num(x) for x in nums)
    v.prove("the box has four numbers", ok)
    if not ok:
        return
    want = (0, 0, size, size) if sized else (cs[0] - margin, cs[1] - margin, cs[2] + margin, cs[3] + margin)
    if prop == 'C27':
        v.prove("the file declares the box enlarged by the margin (or the size asked for)", bb.same(nums, want))
        v.reach("end")
        return
    prog = Program(v)
    prog.defs = {}
    prog.preamble = True
    toks = []
    for l in pre:
        if l and isinstance(l[0], str) and l[0].startswith("%"):
            continue
        if all(isinstance(p, str) for p in l):
            l = ["".join(l).split("% ")[0].replace("{", " { ").replace("}", " } ")]
        toks += list(prog.tokens(Rope('str', l) if l and not (len(l) == 1 and isinstance(l[0], str)) else "".join(l)))
    i = 0
    names = {}
    while i < len(toks):
        t = toks[i]
        i += 1
        if t == ['{']:
            body, d = [], 1
            while d and i < len(toks):
                d += {'{': 1, '}': -1}.get(toks[i][0] if isinstance(toks[i][0], str) else None, 0)
                body.append(toks[i][0])
                i += 1
            prog.stack.append(('proc', body[:-1]))
        elif t == ['bind']:
            pass
        elif t in (['def'], ['bd']):
            name, proc = prog.stack[-2], prog.stack[-1]
            del prog.stack[-2:]
            names[name[1:]] = proc[1]
            if len(proc[1]) == 1:
                prog.defs[name[1:]] = proc[1][0]
        else:
            prog.token(t)
    v.prove("the short names mean what the figures' contracts take them to mean", all(prog.defs.get(k) == w for k, w in list(SHORT.items()) + [('rm', 'rmoveto'), ('rl', 'rlineto')]))
    v.prove("the text procedures used are defined", not deps or ('s' + deps in names and 'sz' in names or deps and 'sz' not in str(names.get('s' + deps))))
    v.prove("the canvas begins in the interpreter's ink", same_ink(prog.ink, b if b is not None else Fraction(0)))
    v.prove("the canvas begins in the interpreter's width and dash", prog.width == 1 and prog.dash == ((), 0))
    v.prove("the program before the lines leaves nothing behind", not prog.stack and not prog.saved and not prog.path.content)
    if b is None:
        v.prove("no background is painted", not prog.paint)
    else:
        x0, y0, x1, y1 = want
        ok = len(prog.paint) == 1 and prog.paint[0][0] == 'fill'
        v.prove("the background is painted once", ok)
        if ok:
            v.prove("the background has its colour", same_ink(prog.paint[0][1], b))
            rect = [op(M, x0, y0), op(L_, x1, y0), op(L_, x1, y1), op(L_, x0, y1), op(C)]
            path = prog.paint[0][4]
            v.prove("the background covers the declared box", len(path) == 5 and And(*[x == y for p, q in zip(path, rect) for x, y in zip(p, q)]))
    v.reach("end")

def fig_units(prop):
    us = []
    inks = [None, 'gray', 'color']
    def U(n, f, reach=("end",)):
        u = Unit(prop + "." + n, f, invs=[inv_path, inv_scan, inv_size])
        u.must_reach = list(reach)
        us.append(u)
    figs = ('circle', 'line', 'polygon', 'round')
    if prop == 'C27':
        for fig in figs:
            for fk, sk in ((None, None), ('gray', 'color')):
                U("%s %s %s" % (fig, fk, sk), lambda v, a=(fig, (None, None), fk, sk): u_figure(v, prop, *a))
    else:
        for fig in figs:
            for fk in inks if fig != 'line' else [None]:
                for sk in inks:
                    def f(v, fig=fig, fk=fk, sk=sk):
                        u_figure(v, prop, fig, v.choose(*STARTS), fk, sk)
                    U("%s fill %s stroke %s" % (fig, fk, sk), f)
        for how in ('setgray', 'setcolor', 'gray', 'color'):
            U("ink " + how, lambda v, how=how: u_ink(v, v.choose(*STARTS), how))
        for again in (False, True):
            U("width again=%s" % again, lambda v, again=again: u_width(v, again))
        for again, mut in ((False, False), (True, False), (True, True)):
            U("dash again=%s changed=%s" % (again, mut), lambda v, a=(again, mut): u_dash(v, *a))
        U("text", lambda v: u_text(v, v.choose(*STARTS)))
    for color in (False, True):
        for placed in (False, True):
            U("image color=%s placed=%s" % (color, placed), lambda v, a=(color, placed): u_image(v, prop, v.choose(*STARTS) if prop == 'C28' else STARTS[0], *a))
    if prop == 'C27':
        for which in (False, True):
            U("copy %d" % which, lambda v, which=which: u_copy(v, which))
    for sized in (False, True):
        for n in range(4):
            U("save sized=%s bounded %d lines" % (sized, n), lambda v, a=(sized, n): u_save(v, prop, v.choose(*inks), *a))
    return us

def units(prop):
    return fig_units(prop)
