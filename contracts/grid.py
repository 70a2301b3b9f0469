"""Contracts of grid.IVar, FVar, SVar and GRow (C18)."""
from pyvc.facade import *
from pyvc import files

def blen(v, data):
    return files.rope_len(v.it, data)

def refused(v, what, f, *args):
    k, r = v.attempt(f, *args)
    if k == 'ok':
        v.fail(what)
    else:
        v.prove(what, True)
        v.reach(what)

def levels(size, nullable):
    """Number of steps between the codes of the two ends: all codes of the field but the null one."""
    return 256 ** size - 1 - (1 if nullable else 0)

def u_ivar(v, nullable):
    lo, hi = v.int("min"), v.int("max")
    v.assume(hi > lo, hi - lo <= levels(8, nullable))
    f = v.call('grid.IVar', 'name', lo, hi, nullable)
    size = v.attr(f, 'size')
    v.prove("the size is 1, 2, 4 or 8", isinstance(size, int) and size in (1, 2, 4, 8))
    v.prove("all values have a code of their own", hi - lo <= levels(size, nullable))
    w = v.choose('in', 'out', 'null')
    if w == 'null':
        if not nullable:
            return refused(v, "null is refused in a field without null", v.attr(f, 'encode'), None)
        d = v.meth(f, 'encode', None)
        v.prove("null takes the field's size", blen(v, d) == size)
        v.prove("null is decoded as null", v.meth(f, 'decode', d) is None)
    else:
        x = v.int("value")
        if w == 'out':
            v.assume(Or(x < lo, x > hi))
            return refused(v, "values out of range are refused", v.attr(f, 'encode'), x)
        v.assume(x >= lo, x <= hi)
        d = v.meth(f, 'encode', x)
        v.prove("a value takes the field's size", blen(v, d) == size)
        r = v.meth(f, 'decode', d)
        v.prove("a value is decoded as itself", r is not None and Z(r) == x)
    v.reach("size %s %s" % (size, w))

def u_fvar(v, size, nullable):
    lo, hi = v.real("min"), v.real("max")
    v.assume(hi > lo)
    f = v.call('grid.FVar', 'name', lo, hi, size, nullable)
    v.prove("the size is the one asked for", v.attr(f, 'size') == size)
    w = v.choose('in', 'out', 'null', 'low', 'high')
    if w == 'null':
        if not nullable:
            return refused(v, "null is refused in a field without null", v.attr(f, 'encode'), None)
        d = v.meth(f, 'encode', None)
        v.prove("null takes the field's size", blen(v, d) == size)
        v.prove("null is decoded as null", v.meth(f, 'decode', d) is None)
    else:
        x = v.real("value") if w in ('in', 'out') else lo if w == 'low' else hi
        if w == 'out':
            v.assume(Or(x < lo, x > hi))
            return refused(v, "values out of range are refused", v.attr(f, 'encode'), x)
        v.assume(x >= lo, x <= hi)
        d = v.meth(f, 'encode', x)
        v.prove("a value takes the field's size", blen(v, d) == size)
        r = v.meth(f, 'decode', d)
        ok = r is not None and is_num(r)
        v.prove("a value is not decoded as null", ok)
        if ok:
            step = (hi - lo) / levels(size, nullable)
            if w == 'in':
                # the code c is within half a unit of t = (x-min)/step, and the value decoded is min + c*step
                v.prove("a value is decoded within half a step", And(R(r) - x <= step / 2, x - R(r) <= step / 2))
            else:
                v.prove("the two ends are exact", R(r) == x)
    v.reach(w)

def u_svar(v, nullable):
    n = v.int("size", 1)
    f = v.call('grid.SVar', 'name', n, nullable)
    v.prove("the size is the one asked for", Z(v.attr(f, 'size')) == n)
    w = v.choose('in', 'out', 'null')
    if w == 'null':
        if not nullable:
            return refused(v, "null is refused in a field without null", v.attr(f, 'encode'), None)
        d = v.meth(f, 'encode', None)
        v.prove("null takes the field's size", Z(blen(v, d)) == n)
        v.prove("null is decoded as null", v.meth(f, 'decode', d) is None)
    else:
        s = v.str("value")
        v.assumption("strings that end in NUL characters are outside the format (padding)")
        v.p.__dict__.setdefault('strends', {}).setdefault(s.term.get_id(), set()).update("\x00")
        L = Z(files.enclen(v.it, ('sv', s), 'utf-8'))
        if w == 'out':
            v.assume(L > n)
            return refused(v, "strings that do not fit are refused", v.attr(f, 'encode'), s)
        v.assume(L <= n)
        d = v.meth(f, 'encode', s)
        v.prove("a string takes the field's size", Z(blen(v, d)) == n)
        r = v.meth(f, 'decode', d)
        v.prove("a string is not decoded as null", r is not None)
        if r is not None:
            v.prove("a string is decoded as itself", v.cmp('==', r, s))
    v.reach(w)

def u_row(v, n):
    """Rows of n arbitrary fields, each known by its contract only."""
    log = {}
    sizes = [v.int("size%d" % i, 0) for i in range(n)]
    vals = [v.opaque("value%d" % i) for i in range(n)]
    codes = [v.seq("code%d" % i, 'int', n=sizes[i], kind='bytes') for i in range(n)]
    fs = []
    cls = PClass("Field", [], {}, None)
    for i in range(n):
        def enc(x, i=i):
            v.prove("each value is encoded by its own field", x is vals[i])
            return Rope('bytes', [('seq', codes[i])])
        def dec(d, i=i):
            v.prove("each field decodes its own bytes", Z(blen(v, d)) == sizes[i])
            c = files.codes(v.it, d)
            c = SSeqOf(v.it, c) if isinstance(c, list) else c
            v.forall("each field decodes its own bytes", sizes[i], lambda j: Z(c.get(j)) == Z(codes[i].get(j)))
            return vals[i]
        fs.append(v.it.alloc(PObj(cls, {'size': sizes[i], 'name': "f%d" % i, 'encode': Builtin('encode', enc), 'decode': Builtin('decode', dec)}), "field"))
    row = v.call('grid.GRow', *fs)
    tot = z3.IntVal(0) + sum(sizes)
    v.prove("the row's size is the sum of the fields'", Z(v.attr(row, 'size')) == tot)
    d = v.meth(row, 'encode', *vals)
    v.prove("a row takes its size", Z(blen(v, d)) == tot)
    r = v.meth(row, 'decode', d)
    v.prove("a row is decoded value by value", isinstance(r, tuple) and len(r) == n and all(a is b for a, b in zip(r, vals)))
    v.reach("end")

def units(prop):
    us = []
    def U(n, f, reach):
        u = Unit("C18." + n, f)
        u.must_reach = reach
        us.append(u)
    for nu in (False, True):
        s = " nullable" if nu else ""
        U("IVar" + s, lambda v, nu=nu: u_ivar(v, nu), ["size %d in" % k for k in (1, 2, 4, 8)])
        for size in (1, 2, 4, 8):
            U("FVar %d%s" % (size, s), lambda v, nu=nu, size=size: u_fvar(v, size, nu), ['in', 'low', 'high'])
        U("SVar" + s, lambda v, nu=nu: u_svar(v, nu), ['in'])
    for n in range(5):
        U("GRow bounded %d fields" % n, lambda v, n=n: u_row(v, n), ["end"])
    return us
