"""Contracts of rg.Writer and rg.Reader (C19).  writevlv/readvlv, whose bytes C17 decides, and the coding of rows,
which C18 decides, are taken by contract; everything else is executed."""
from pyvc.facade import *
from pyvc.values import StrV
from pyvc import files
from pyvc import builtins_ as BI
from pyvc.interp import raise_

def writevlv_contract(it, f, a):
    o, x = a['f'], a['v']
    if not is_num(x) or not is_int(x):
        raise_(TypeError, "cannot be interpreted as an integer")
    it.p.prove("numbers written without a sign are not negative", n_cmp('>=', x, 0))
    it.call(it.getattr(o, 'write'), [Rope('bytes', [('vlv', x)])], {})

def readvlv_contract(it, f, a):
    o = a['f']
    _, rest = files.cut(it, files.contents(it, o), o.fields['pos'])
    while rest and rest[0] == b"":
        rest.pop(0)
    if not rest:
        raise_(TypeError, "ord() expected a character")
    if not (isinstance(rest[0], tuple) and rest[0][0] == 'vlv'):
        raise Unsupported("a number elsewhere")
    it.setattr(o, 'pos', conc(n_add(o.fields['pos'], files.plen(it, rest[0]))))
    return rest[0][1]

def encode_contract(it, f, a):
    """C18: a row takes the size of its fields."""
    row, vals = a['self'], a['values']
    s = SSeq(row.fields['size'], it.p.fn("rowbyte", z3.IntSort(), z3.IntSort()))
    s.row = (list(row.fields['fields']), vals)
    return Rope('bytes', [('seq', s)])

def decode_contract(it, f, a):
    """C18: decoding the bytes of a row, with the same fields, gives what its values are decoded to."""
    row, data = a['self'], a['data']
    ps = BI.pieces_of(data)
    v = it.facade
    if len(ps) != 1 or not isinstance(ps[0], tuple) or ps[0][0] != 'seq' or not hasattr(ps[0][1], 'row'):
        v.fail("the bytes of one row are decoded")
        raise PathEnd("row")
    fields, vals = ps[0][1].row
    mine = list(row.fields['fields'])
    ok = len(mine) == len(fields) and all(a.cls is b.cls for a, b in zip(mine, fields))
    v.prove("rows are decoded with the fields they were encoded with", bool(ok) and And(z3.BoolVal(True), *[samefield(v, a, b) for a, b in zip(mine, fields)]))
    return tuple(vals)

def samefield(v, a, b):
    cs = []
    for n in ('name', 'size', 'nullable', 'minv', 'maxv'):
        if (n in a.fields) != (n in b.fields):
            return z3.BoolVal(False)
        if n in a.fields:
            cs.append(B(v.it.BI.truth(v.it, v.it.BI.eq(v.it, a.fields[n], b.fields[n]))))
    return And(*cs)

OVER = {"rg.writevlv": writevlv_contract, "rg.readvlv": readvlv_contract, "grid.GRow.encode": encode_contract, "grid.GRow.decode": decode_contract}

def mkfield(v, i, kind, name, nullable):
    if kind == 'I':
        lo, hi = v.int("min%d" % i), v.int("max%d" % i)
        v.assume(hi > lo, hi - lo < 250)
        return v.call('grid.IVar', name, lo, hi, nullable)
    if kind == 'F':
        lo, hi = v.int("min%d" % i), v.int("max%d" % i)
        v.assume(hi > lo)
        return v.call('grid.FVar', name, lo, hi, v.choose(1, 2, 4, 8), nullable)
    n = v.int("size%d" % i, 1)
    return v.call('grid.SVar', name, n, nullable)

def u_header(v, cols):
    """The columns come back."""
    fields = [mkfield(v, i, *c) for i, c in enumerate(cols)]
    row = v.call('grid.GRow', *fields)
    w = v.call('rg.Writer', "x", row)
    v.meth(w, 'close')
    r = v.call('rg.Reader', "x")
    got = list(v.attr(v.attr(r, 'row'), 'fields'))
    ok = len(got) == len(fields) and all(a.cls is b.cls for a, b in zip(got, fields))
    v.prove("the same columns of the same types", bool(ok))
    if ok:
        for a, b in zip(got, fields):
            v.prove("the same names, sizes, ranges and nulls", samefield(v, a, b))
    v.reach("end")

def u_data(v, ents, ids, ops):
    """Entities of segments of rows, written and read by the operations."""
    fields = [mkfield(v, 0, 'S', "n", False), mkfield(v, 1, 'I', "class", True)]
    row = v.call('grid.GRow', *fields)
    v.p.unit.args['textinfo'] = lambda t: {'free': {"\n", "\r"}} if z3.is_app(t) and t.decl().name().startswith("id") else None
    w = v.call('rg.Writer', "x", row)
    names, data = [], []
    for e, lens in enumerate(ents):
        segs = [[(v.opaque("s%d_%d_%d" % (e, s, i)), v.opaque("i%d_%d_%d" % (e, s, i))) for i in range(n)] for s, n in enumerate(lens)]
        data.append(segs)
        arg = v.list([v.list(list(q)) for q in segs])
        if ids == "given":
            x = v.str("id%d" % e)
            for y in names:
                v.assume(x.term != y.term)
            names.append(x)
            v.meth(w, 'write', arg, x)
        elif ids == "numbers":
            x = 7 * e - 3
            names.append(x)
            v.meth(w, 'write', arg, x)
        else:
            names.append(e)
            v.meth(w, 'write', arg)
    v.meth(w, 'close')
    r = v.call('rg.Reader', "x")
    cur = 0
    for op in ops:
        if op == 'next':
            e = cur
            if e >= len(ents):
                continue
            g = v.meth(r, 'read')
        elif op == 'missing':
            x = v.str("idmissing")
            for y in names:
                v.assume(x.term != BI.strterm(v.it, y if isinstance(y, StrV) else str(y)))
            k, g = v.attempt(v.attr(r, 'read'), x)
            v.prove("an id that was not written is refused", k != 'ok' and v.raised(g, "KeyError"))
            continue
        else:
            e = op
            g = v.meth(r, 'read', names[e])
        cur = e + 1
        segs = g.content if isinstance(g, PList) else None
        ok = isinstance(segs, list) and len(segs) == len(data[e])
        v.prove("the entity's segments", bool(ok))
        if not ok:
            raise PathEnd("segments")
        for a, b in zip(segs, data[e]):
            c = a.content if isinstance(a, PList) else a
            ok = isinstance(c, (list, tuple)) and len(c) == len(b)
            v.prove("the rows of each segment", bool(ok))
            if ok:
                v.prove("the rows in order", bool(all(isinstance(x, (PNT, tuple)) and [z for z in (x.vals if isinstance(x, PNT) else x)] == list(y) for x, y in zip(c, b))))
    v.reach("end")

COLS = [[], [("I", "n", False)], [("I", "lon", True)], [("F", "a b", False)], [("F", "x1", True)], [("S", "_name", True)], [("S", "s", False), ("F", "f", False), ("I", "class", False)]]
DATA = [[], [[]], [[0]], [[2]], [[1, 2]], [[1], [2]], [[2, 1], [], [1]], [[], [1]]]

def histories(n):
    hs = [['next'] * n + ['missing']]
    if n:
        hs += [list(range(n))[::-1] + ['next'], [0, 'missing', 'next'], [n - 1, 0, 'next', n - 1]]
    return hs

def units(prop):
    us = []
    def U(n, f, reach, **kw):
        u = Unit(prop + "." + n, f, overrides=OVER, **kw)
        u.must_reach = reach
        us.append(u)
    for cols in COLS:
        U("columns (bounded: %s)" % (", ".join("%s%s %r" % (k, "?" if nu else "", n) for k, n, nu in cols) or "none"), lambda v, c=cols: u_header(v, c), ["end"])
    for ents in DATA:
        for ids in ("given", "numbers", "default"):
            for h in histories(len(ents)):
                U("entities (bounded: rows per segment %r, ids %s, reads %s)" % (ents, ids, ",".join(map(str, h))), lambda v, e=ents, i=ids, h=h: u_data(v, e, i, h), ["end"])
    return us
