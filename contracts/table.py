"""Contracts of table.py (C32, C33).  Rows without bound; columns enumerated up to a stated number."""
from pyvc.facade import *
from pyvc.values import NTClass, PNT, StrV
from pyvc import files
from .templates import *

I = z3.IntSort()

class Count:
    """How many of the first k indices satisfy m."""
    def __init__(self, v, m, name="count"):
        self.v, self.m = v, m
        self.f = z3.Function(name, I, I)
        v.p.fact(self.f(0) == 0)
    def __call__(self, k):
        return self.f(k)
    def unfold(self, k):
        k = z3.simplify(Z(k))
        self.v.p.fact(Implies(k >= 0, self.f(z3.simplify(k + 1)) == self.f(k) + If(self.m(k), 1, 0)))

def mktable(v, name, fields, minlen=1, shape='opaque', n=None):
    """An unknown number of rows; each row has the fields, each cell is an unknown value."""
    n = n if n is not None else v.int("rows_" + name, minlen)
    cols = {f: v.seq("%s.%s" % (name, f), shape, n=n) for f in fields}
    cls = NTClass("Row", tuple(fields))
    s = SSeq(n, lambda i: PNT(cls, [cols[f].get(i) for f in fields]))
    s.eshape = ('nt', cls, tuple(shape for f in fields))
    return v.list(s), cols, Z(n)

def same(x, y):
    """Equality of two cell values."""
    if isinstance(x, StrV) or isinstance(y, StrV):
        return x.term == y.term
    return x.term == y.term

def row_is(r, cols, i, but=()):
    """Row r has the cells of row i."""
    if not isinstance(r, PNT) or list(r.cls.nt_fields) != [f for f in cols if f not in but]:
        return z3.BoolVal(False)
    return And(*[same(x, cols[f].get(i)) for f, x in zip(r.cls.nt_fields, r.vals)])

def seq_of(v, x):
    c = x.seq if isinstance(x, PIter) else x.content
    return SSeqOf(v.it, list(c)) if isinstance(c, list) and c else c

def inv_select(L):
    t = L.a.get('select')
    if t is None:
        return
    cnt, match, cols = t
    k = Z(L.k)
    yield "no match yet", lambda: L.v.all(k, lambda j: Not(match(j)))
    for n, l in locals_of(L):
        if isinstance(l, PList):
            c = l.content
            ln = length(c)
            cnt.unfold(k)
            cnt.unfold(k - 1)
            yield "%s holds the matches so far" % n, ln == cnt(k)
            yield "%s count" % n, lambda: cnt(k) >= 0
            if isinstance(c, list):
                c = SSeqOf(L.it, c) if c else None
            yield All("%s: places" % n, k, lambda j: Implies(match(j), And(cnt(j) >= 0, cnt(j) < cnt(k))))
            if c is None:
                yield All("%s: rows" % n, k, lambda j: Not(match(j)))
            else:
                yield All("%s: rows" % n, k, lambda j, c=c: Implies(match(j), row_is(c.get(cnt(j)), cols, j)))

COLS = [("a",), ("a", "b"), ("b", "a", "c"), ("a", "d", "c", "b")]

def u_getone(v, fields, key):
    t, cols, n = mktable(v, "table", fields, 0)
    q = v.opaque("query")
    match = lambda j: cols[key].get(j).term == q.term
    cnt = Count(v, match)
    v.p.unit.args['select'] = (cnt, match, cols)
    r = v.call('table.getone', t, key, q)
    if r is None:
        v.prove("nothing is found only where no row has the value", v.all(n, lambda j: Not(match(j))))
        v.reach("none")
        return
    v.prove("the row found is the first with the value", v.exists(n, lambda j: And(match(j), row_is(r, cols, j), v.all(j, lambda i: Not(match(i))))))
    v.reach("row")

def u_getall(v, fields, key):
    t, cols, n = mktable(v, "table", fields, 0)
    q = v.opaque("query")
    match = lambda j: cols[key].get(j).term == q.term
    cnt = Count(v, match)
    v.p.unit.args['select'] = (cnt, match, cols)
    r = seq_of(v, v.call('table.getall', t, key, q))
    v.prove("as many rows as have the value", length(r) == cnt(n))
    if not (isinstance(r, list) and not r):
        v.forall("every row with the value, in order", n, lambda j: Implies(match(j), And(cnt(j) >= 0, cnt(j) < length(r), row_is(r.get(cnt(j)), cols, j))))
    v.reach("end")

def inv_rows(L):
    """A list holds one row for each row of the table, or a dictionary the last row for each key."""
    fn = L.a.get('rows')
    if fn is None:
        return
    k = Z(L.k)
    for n, l in locals_of(L):
        if isinstance(l, PList):
            c = l.content
            yield "%s has one row for each" % n, length(c) == k
            if isinstance(c, list):
                c = SSeqOf(L.it, c) if c else None
            yield All("%s: rows" % n, k, lambda j, c=c: fn(c.get(j), j) if c is not None else z3.BoolVal(True))

def inv_index(L):
    t = L.a.get('index')
    if t is None:
        return
    cols, key, last = t
    k = Z(L.k)
    for n, d in locals_of(L):
        if isinstance(d, PDict):
            if d.tab is None:
                if d.d:
                    continue
                yield All("%s: keys" % n, k, lambda j: z3.BoolVal(True))
                yield "%s: domain" % n, z3.BoolVal(True)
                yield All("%s: rows" % n, k, lambda j: z3.BoolVal(True))
                continue
            if d.tab.sig != ('v',) or not (d.tab.vshape is None or d.tab.vshape[0] == 'nt'):
                continue
            yield All("%s: keys" % n, k, lambda j, d=d: B(d.tab.dom(cols[key].get(j))))
            q = z3.Const("q!ix", Opaque.SORT)
            # ghost: the last row so far with the key
            yield "%s: domain" % n, ForAll([q], Implies(B(d.tab.dom(q)), And(last(q) >= 0)))
            yield All("%s: rows" % n, k, lambda j, d=d: Implies(L.v.all(k, lambda i: cols[key].get(i).term != cols[key].get(j).term, lo=j + 1), row_is(d.tab.val(cols[key].get(j)), cols, j, (key,))))

def u_index(v, fields, key):
    t, cols, n = mktable(v, "table", fields)
    C = lambda j: cols[key].get(j)
    last = z3.Function("last", Opaque.SORT, I)
    q = z3.Const("qi", Opaque.SORT)
    # some row has the value q (witness function, by definition of the set of values)
    j = z3.Int("ji")
    hasq = lambda q, k: And(last(q) >= 0)
    v.assume(ForAll([j], Implies(And(j >= 0, j < n), And(last(C(j).term) >= 0, last(C(j).term) < n, C(last(C(j).term)).term == C(j).term)), patterns=[C(j).term]))
    v.assume(ForAll([q], Implies(last(q) >= 0, And(last(q) < n, C(last(q)).term == q)), patterns=[last(q)]))
    v.p.unit.args['index'] = (cols, key, last)
    r = v.call('table.indexby', t, key)
    if not isinstance(r, PDict) or r.tab is None:
        v.fail("indexing gives a dictionary of the rows")
        return
    v.forall("every value of the column is a key", n, lambda j: B(r.tab.dom(C(j))))
    x = v.opaque("other")
    v.prove("every key is a value of the column", Implies(B(r.tab.dom(x)), And(last(x.term) >= 0, last(x.term) < n, C(last(x.term)).term == x.term)))
    v.forall("each key gives the other columns of the last row with it", n, lambda j: Implies(v.all(n, lambda i: C(i).term != C(j).term, lo=j + 1), row_is(r.tab.val(C(j)), cols, j, (key,))))
    v.reach("end")

def u_addkey(v, fields):
    t, cols, n = mktable(v, "table", fields)
    g = z3.Function("func", *([Opaque.SORT] * (len(fields) + 1)))
    def func(row):
        if not isinstance(row, PNT) or list(row.cls.nt_fields) != list(fields):
            v.fail("the function gets the row")
            return v.opaque("x")
        return Opaque(g(*[x.term for x in row.vals]))
    new = "new"
    all_ = dict(cols)
    all_[new] = SSeq(n, lambda i: Opaque(g(*[cols[f].get(i).term for f in fields])))
    fn = lambda r, j: row_is(r, all_, j)
    v.p.unit.args['rows'] = fn
    r = seq_of(v, v.call('table.addkey', t, new, Builtin("func", func)))
    v.prove("as many rows as before", length(r) == n)
    v.forall("each row keeps its cells and has the new one last", n, lambda j: fn(r.get(j), j))
    v.reach("end")

def u_delkeys(v, fields, gone):
    t, cols, n = mktable(v, "table", fields)
    fn = lambda r, j: row_is(r, cols, j, gone)
    v.p.unit.args['rows'] = fn
    r = seq_of(v, v.call('table.delkeys', t, v.list(gone) if len(gone) % 2 else tuple(gone)))
    v.prove("as many rows as before", length(r) == n)
    v.forall("each row keeps its other cells", n, lambda j: fn(r.get(j), j))
    v.reach("end")

def inv_join(L):
    t = L.a.get('join')
    if t is None:
        return
    agree, joined, n1, n2 = t
    k, v = Z(L.k), L.v
    for n, l in locals_of(L):
        if isinstance(l, PList):
            c = l.content
            if isinstance(c, list) and c:
                if not all(isinstance(x, PNT) for x in c):
                    continue
            if not isinstance(c, list):
                try:
                    if not isinstance(c.get(z3.Int("probe")), PNT):
                        continue
                except Exception:
                    continue
            if l is L.a['t1'] or l is L.a['t2']:
                continue
            yield "%s has one row for each" % n, length(c) == k
            if isinstance(c, list):
                c = SSeqOf(L.it, c) if c else None
            yield All("%s: rows" % n, k, lambda j, c=c: joined(c.get(j), j) if c is not None else z3.BoolVal(True))
    for n, x in L.a['track'](L):
        yield All("no row agrees with row %s yet" % n, k, lambda j, x=x: Not(agree(x, j)))

def u_join(cfg):
    f1, f2, piv, keys = cfg
    def u(v):
        t1, c1, n1 = mktable(v, "t1", f1, shape=('str', 'str'))
        t2, c2, n2 = mktable(v, "t2", f2, shape=('str', 'str'))
        EMPTY = strterm(v.it, "")
        P = piv if piv is not None else [f for f in f1 if f in f2]
        def cell(c, f, i):
            return c[f].get(i).term if f in c else EMPTY
        agree = lambda i, j: And(*[cell(c1, f, i) == cell(c2, f, j) for f in P]) if P else z3.BoolVal(True)
        K = keys if keys is not None else sorted(set(f1) | set(f2))
        def tm(x):
            return strterm(v.it, x) if isinstance(x, str) else x.term
        def has(r, i, fn):
            if not isinstance(r, PNT) or (list(r.cls.nt_fields) != K if keys is not None else sorted(r.cls.nt_fields) != K):
                return z3.BoolVal(False)
            return And(*[tm(x) == fn(f) for f, x in zip(r.cls.nt_fields, r.vals)])
        first = z3.Function("first", I, I)
        def w(i):
            # ghost: the first row of t2 that agrees with row i of t1, or n2
            return first(i)
        i, j = z3.Ints("iw jw")
        v.assume(ForAll([i], And(first(i) >= 0, first(i) <= n2, Implies(first(i) < n2, agree(i, first(i)))), patterns=[first(i)]))
        v.assume(ForAll([i, j], Implies(And(j >= 0, j < first(i), j < n2), Not(agree(i, j))), patterns=[z3.MultiPattern(first(i), cell(c2, f2[0], j))]))
        def joined(r, i):
            m = first(i)
            return And(Implies(m < n2, has(r, i, lambda f: cell(c2, f, m) if f in c2 else cell(c1, f, i))),
                       Implies(m >= n2, has(r, i, lambda f: cell(c1, f, i))))
        a = v.p.unit.args
        a['join'] = (agree, joined, n1, n2)
        a['t1'], a['t2'] = t1, t2
        def track(L):
            # rows of the first table held in locals: their ghost index
            return [(n, x.tag) for n, x in locals_of(L) if isinstance(x, TRow)]
        a['track'] = lambda L: [(n, L.it.p.unit.args['outer'])] if False else outer(L)
        def outer(L):
            out = []
            for n, x in locals_of(L):
                if isinstance(x, PNT) and list(x.cls.nt_fields) == list(f1) and x.cls is t1.content.get(z3.Int("p")).cls:
                    t = x.vals[0].term
                    if z3.is_app(t) and t.num_args() == 1:
                        out.append((n, t.arg(0)))
            return out
        r = seq_of(v, v.call('table.join', t1, t2, list_or_none(v, piv), list_or_none(v, keys)))
        v.prove("one row for each row of the first table", length(r) == n1)
        v.forall("each row is completed from the first row of the second that agrees", n1, lambda j: joined(r.get(j), j))
        v.reach("end")
    return u

def list_or_none(v, x):
    return None if x is None else v.list(list(x))

def strterm(it, s):
    return BI.strterm(it, s)

from pyvc import builtins_ as BI

# ---- C33: files.  A text file is known by its lines: what is written is cut into lines, and a file whose
# lines are those is read back line by line (trusted: codecs.open, readline, iteration).

WS = set(" \t\r\x0b\x0c")

def cells(v, name, fields, n, sep, comm, nonempty):
    """Cell texts as strings without separators, comment marks, line breaks or blank ends."""
    fs = {f: z3.Function("%s.%s" % (name, f), I, StrV.SORT) for f in fields}
    names = {g.name() for g in fs.values()}
    blank = {n + x for n in ("pre", "post") for x in ("", "!b")}
    def info(t):
        if not z3.is_app(t):
            return None
        d = t.decl().name()
        if d in names:
            return {'free': {sep, comm, "\n", "\r"}, 'ends': True, 'nonempty': nonempty}
        if d in ("pre", "post"):
            return {'free': {sep, comm, "\n"}, 'blank': True}
        if d == "remark":
            return {'free': {"\n"}}
        return None
    v.p.unit.args['textinfo'] = info
    cols = {f: SSeq(n, lambda i, g=g: StrV(g(Z(i)))) for f, g in fs.items()}
    return cols

class Lines(PClass):
    binds = True

def writer(v, expect):
    """A file to write to: each line is what `expect` says of its number."""
    it = v.it
    def flush(o, line):
        m = o.fields['lines']
        expect(m, line)
        v.setattr(o, 'lines', n_add(m, 1))
    def write(o, s):
        ps = []
        for p in BI.pieces_of(o.fields['partial']) + BI.pieces_of(s):
            if isinstance(p, str):
                parts = p.split("\n")
                for i, q in enumerate(parts):
                    if i:
                        flush(o, BI.join_pieces(it, ps, 'str'))
                        ps = []
                    if q:
                        ps.append(q)
            else:
                if not files.excludes(it, p, "\n"):
                    raise Unsupported("line breaks in what is written")
                ps.append(p)
        v.setattr(o, 'partial', BI.join_pieces(it, ps, 'str'))
    def writelines(o, xs):
        sq = it.iterate(xs, True)
        n = conc(sq.n)
        if isz(n):
            # each is one line, in order
            if BI.pieces_of(o.fields['partial']):
                raise Unsupported("lines after part of a line")
            m = o.fields['lines']
            def go():
                i = v.p.int("line")
                v.assume(i >= 0, i < n)
                ps = BI.pieces_of(sq.get(i))
                if not ps or not isinstance(ps[-1], str) or not ps[-1].endswith("\n") or any("\n" in p for p in ps[:-1] if isinstance(p, str)) or "\n" in ps[-1][:-1] or not all(isinstance(p, str) or files.excludes(it, p, "\n") for p in ps):
                    v.fail("each line ends with a line break")
                    return
                expect(n_add(m, i), BI.join_pieces(it, ps[:-1] + [ps[-1][:-1]], 'str'))
            v.side(go)
            v.setattr(o, 'lines', n_add(m, n))
            return
        for i in range(n):
            write(o, sq.get(i))
    c = Lines("TextWriter", [], {}, None)
    for n, f in (("write", write), ("writelines", writelines), ("__enter__", lambda o: o), ("__exit__", lambda o, *a: None), ("close", lambda o: None), ("flush", lambda o: None)):
        c.d[n] = Builtin(n, f)
    return it.alloc(PObj(c, {'lines': 0, 'partial': ""}), "out")

def reader(v, n, line):
    """A file of n lines to read: line(i) is the i-th with its line break."""
    it = v.it
    def readline(o):
        p = o.fields['pos']
        if not v.case(n_cmp('<', p, n)):
            return ""
        v.setattr(o, 'pos', n_add(p, 1))
        return line(Z(p))
    def iterate(o):
        p = o.fields['pos']
        return v.iter(SSeq(n_sub(n, p), lambda i: line(z3.simplify(Z(i) + Z(p)))))
    c = Lines("TextReader", [], {}, None)
    for m, f in (("readline", readline), ("__iter__", iterate), ("__enter__", lambda o: o), ("__exit__", lambda o, *a: None), ("close", lambda o: None)):
        c.d[m] = Builtin(m, f)
    return it.alloc(PObj(c, {'pos': 0}), "in")

def opens(v, o, path, modes):
    def h(it, *a, **k):
        args = dict(zip(("filename", "mode", "encoding"), a), **k)
        v.prove("the file named is opened", args.get("filename", args.get("file")) is path)
        v.prove("it is opened as UTF-8 text", str(args.get("encoding")).lower().replace("-", "") == "utf8" and args.get("mode", "r") in modes)
        return o
    v.it.ext_hooks['codecs.open'] = h
    return o

def inv_write(L):
    o = L.a.get('out')
    if o is None:
        return
    m0 = L.entryvals
    yield "a line for each row", Z(o.fields['lines']) == Z(L.k) + 1
    if isinstance(o.fields['partial'], str):
        yield "whole lines", z3.BoolVal(o.fields['partial'] == "")

def u_write(v, fields, keys, sep):
    n = v.int("rows", 1)
    cols = cells(v, "t", fields, n, sep or ",", "#", False)
    cls = NTClass("Row", tuple(fields))
    t = SSeq(n, lambda i: PNT(cls, [cols[f].get(i) for f in fields]))
    t.eshape = ('nt', cls, tuple(('str', 'str') for f in fields))
    K = list(keys) if keys is not None else list(fields)
    s = sep or ","
    def expect(m, line):
        first = n_cmp('==', m, 0)
        if first is True or first is not False and v.p.decide(first):
            v.prove("the first line names the columns", line == s.join(K))
            return
        i = z3.simplify(Z(m) - 1)
        v.prove("there is one line for each row", And(i >= 0, i < n))
        want = []
        for j, f in enumerate(K):
            want += [s] if j else []
            want.append(('sv', cols[f].get(i)))
        ps = BI.pieces_of(line)
        if len(ps) != len(want):
            v.fail("each line has the row's cells between separators")
            return
        rs = [files.same_piece(v.it, x, y) for x, y in zip(ps, want)]
        v.prove("each line has the row's cells between separators", And(*[B(r) for r in rs]) if all(r is not None for r in rs) else z3.BoolVal(False))
    o = writer(v, expect)
    v.p.unit.args['out'] = o
    path = v.opaque("path")
    opens(v, o, path, ("w", "wt"))
    kw = {} if sep is None else {'sep': sep}
    v.call('table.writefile', path, v.list(t), *([] if keys is None else [v.list(list(keys))]), **kw)
    v.prove("there is one line for each row", Z(o.fields['lines']) == n + 1)
    v.prove("the last line is complete", BI.pieces_of(o.fields['partial']) == [] or o.fields['partial'] == "")
    v.reach("end")

def inv_read(L):
    t = L.a.get('read')
    if t is None:
        return
    o, cnt, data, h, rowok, header = t
    k = Z(L.k)
    pos = Z(o.fields['pos'])
    if L.src is None:
        # looking for the header
        yield "before the header", And(pos >= 0, pos <= h + 1)
        if L.endless:
            yield "header not read", pos <= h
        for n, x in locals_of(L):
            if isinstance(x, (str, StrV)):
                t = BI.strterm(L.it, x)
                yield "%s tells whether the header was read" % n, And((t == BI.strterm(L.it, "")) == (pos <= h), Or(pos <= h, t == BI.strterm(L.it, header)))
        yield "header.variant", h + 1 - pos
        return
    # the rows: k lines after the header are done
    cnt.unfold(k)
    cnt.unfold(k - 1)
    yield "count", cnt(k) >= 0
    for n, l in locals_of(L):
        if isinstance(l, PList):
            c = l.content
            if isinstance(c, list) and c or isinstance(c, SSeq) and not isrows(c):
                continue
            yield "%s holds the rows so far" % n, length(c) == cnt(k)
            yield All("%s: places" % n, k, lambda j: Implies(data(j), And(cnt(j) >= 0, cnt(j) < cnt(k))))
            yield All("%s: rows" % n, k, lambda j, c=c: Implies(data(j), rowok(c.get(cnt(j)), j)) if not isinstance(c, list) else Not(data(j)))

def isrows(c):
    try:
        return isinstance(c.get(z3.Int("probe")), PNT)
    except Exception:
        return False

def u_read(v, fields, keys, sep, comm):
    N, h = v.int("lines", 1), v.int("header", 0)
    v.assume(h < N)
    s, cm = sep or ",", comm or "#"
    cols = cells(v, "f", fields, N, s, cm, len(fields) == 1)
    kind = z3.Function("kind", I, I)
    note = z3.Function("commented", I, z3.BoolSort())
    st = lambda nm: z3.Function(nm, I, StrV.SORT)
    pre, post, remark = st("pre"), st("post"), st("remark")
    data = lambda j: kind(j + h + 1) == 1
    def line(i):
        """A blank or comment line, the header, or a row of cells; blanks around and a comment after it are allowed."""
        ps = [('sv', StrV(pre(i)))]
        if v.p.decide(i == h):
            ps.append(s.join(fields))
        elif v.p.decide(And(i > h, kind(i) == 1)):
            for j, f in enumerate(fields):
                ps += [s] if j else []
                ps.append(('sv', cols[f].get(i)))
                if len(fields) == 1:
                    v.assume(files.plen(v.it, ps[-1]) > 0)
        ps.append(('sv', StrV(post(i))))
        if v.p.decide(note(i)):
            ps += [cm, ('sv', StrV(remark(i)))]
        return BI.join_pieces(v.it, ps + ["\n"], 'str')
    K = list(keys) if keys is not None else list(fields)
    cnt = Count(v, data)
    def rowok(r, j):
        if not isinstance(r, PNT) or list(r.cls.nt_fields) != K:
            return z3.BoolVal(False)
        tm = lambda x: BI.strterm(v.it, x) if isinstance(x, str) else x.term if isinstance(x, StrV) else None
        ts = [tm(x) for x in r.vals]
        if None in ts:
            return z3.BoolVal(False)
        return And(*[x == cols[f].get(j + h + 1).term for f, x in zip(K, ts)])
    o = reader(v, N, line)
    v.p.unit.args['read'] = (o, cnt, data, h, rowok, s.join(fields))
    path = v.opaque("path")
    opens(v, o, path, ("r", "rt"))
    kw = {}
    if sep is not None: kw['sep'] = sep
    if comm is not None: kw['comm'] = comm
    r = v.call('table.readfile', path, *([] if keys is None else [v.list(list(keys))]), **kw)
    c = r.content
    m = N - h - 1
    v.prove("as many rows as data lines", length(c) == cnt(m))
    if not (isinstance(c, list) and not c):
        c = SSeqOf(v.it, c) if isinstance(c, list) else c
        v.forall("each data line gives its cells under the columns asked", m, lambda j: Implies(data(j), And(cnt(j) >= 0, cnt(j) < length(c), rowok(c.get(cnt(j)), j))))
    v.reach("end")

def units(prop):
    us = []
    def U(n, f, reach, **kw):
        u = Unit(prop + "." + n, f, **kw)
        u.must_reach = reach
        u.cand_ms = 1000
        u.cut_while = True
        us.append(u)
    if prop == "C32":
        for fields in COLS:
            nm = "(bounded: columns %s)" % ",".join(fields)
            U("addkey " + nm, lambda v, fields=fields: u_addkey(v, fields), ["end"], invs=[inv_rows])
            for key in fields:
                kn = nm[:-1] + ", key %s)" % key
                U("getone " + kn, lambda v, fields=fields, key=key: u_getone(v, fields, key), ["none", "row"], invs=[inv_select])
                U("getall " + kn, lambda v, fields=fields, key=key: u_getall(v, fields, key), ["end"], invs=[inv_select])
                U("indexby " + kn, lambda v, fields=fields, key=key: u_index(v, fields, key), ["end"], invs=[inv_index])
            for m in range(2 ** len(fields)):
                gone = [f for i, f in enumerate(fields) if m >> i & 1]
                for g in ([gone, gone + ["other"]] if len(fields) == 2 else [gone]):
                    U("delkeys %s, delete %s)" % (nm[:-1], ",".join(g)), lambda v, fields=fields, g=g: u_delkeys(v, fields, g), ["end"], invs=[inv_rows])
        for i, cfg in enumerate([(("a", "b"), ("b", "c"), None, None), (("a",), ("b",), None, None), (("a", "b"), ("a", "b"), None, ["b", "a"]),
                                 (("a", "b", "c"), ("b", "c", "d"), ["b"], ["d", "a", "c", "x"]), (("a", "b"), ("c", "a", "b"), ["a", "c"], None),
                                 (("a", "b"), ("b", "c"), [], None)]):
            U("join (bounded: columns %s and %s, pivots %s, keys %s)" % tuple("default" if x is None else ",".join(x) or "none" for x in cfg), u_join(cfg), ["end"], invs=[inv_join])
    if prop == "C33":
        import itertools
        for fields in [("a",), ("a", "b"), ("c", "a", "b")]:
            sel = [None] + [list(p) for k in range(1, len(fields) + 1) for p in itertools.permutations(fields, k)]
            for keys in sel:
                for sep, comm in ((None, None), (";", "%")):
                    if sep is not None and len(fields) == 3 and keys not in (None, ["b", "c"]):
                        continue
                    nm = "(bounded: columns %s, asked %s, separator %s)" % (",".join(fields), "all" if keys is None else ",".join(keys), sep or "default")
                    U("writefile " + nm, lambda v, f=fields, k=keys, s=sep: u_write(v, f, k, s), ["end"], invs=[inv_write])
                    U("readfile " + nm, lambda v, f=fields, k=keys, s=sep, c=comm: u_read(v, f, k, s, c), ["end"], invs=[inv_read])
    return us
