"""Contracts of base128, writevlv, readvlv, writesvlv, readsvlv in pf.py and rg.py (C17).

q(i) is v div 128^i (ghost).  A non-negative integer v is written as the m bytes q(m-1-t) mod 128, all but
the last with the top bit set, where q(m-1) < 128 and q(i) >= 128 for i < m-1."""
from pyvc.facade import *
from pyvc import files
from .templates import *

def ghost(v, x):
    f = z3.Function("vlv_q", z3.IntSort(), z3.IntSort())
    i = z3.Int("qi")
    v.assume(f(0) == Z(x), ForAll([i], Implies(i >= 0, And(f(i) == 128 * f(i + 1) + f(i) % 128, f(i + 1) == f(i) / 128, f(i) >= 0)), patterns=[f(i + 1)]))
    return f

def encoded(q, m):
    """The bytes of the value, as a sequence."""
    m = Z(m)
    return SSeq(m, lambda t: If(Z(t) < m - 1, q(m - 1 - Z(t)) % 128 + 128, q(m - 1 - Z(t)) % 128))

def inv_write(L):
    q = L.a.get('q')
    if q is None:
        return
    k = Z(L.k)
    for n, x in L.numbers():
        if is_int(x):
            yield "%s is q(k)" % n, lambda x=x: Z(x) == q(k)
            yield "%s is q(k+1)" % n, lambda x=x: Z(x) == q(k + 1)
            yield "%s.variant" % n, x
    yield All("big", k, lambda i: q(i) >= 128)
    for n, l in locals_of(L):
        if isinstance(l, PList) and not isinstance(l, PArr):
            for m, what in ((k, ""), (k + 1, " and the last")):
                yield Def("%s holds digits%s" % (n, what), l, SSeq(m, lambda t, m=m: q(m - 1 - Z(t)) % 128))
                yield Def("%s holds digits%s, the least first" % (n, what), l, SSeq(m, lambda t: q(Z(t)) % 128))
    # what a loop over digits has written: each digit with the top bit set
    node = L.a.get('node')
    if node is not None and L.src is not None:
        e = L.entryvals.get('#node')
        src = L.src
        yield Def("written", node, L.v.BI.seq_concat(L.it, L.a['before'], SSeq(k, lambda t: Z(src.get(Z(t))) + 128)))
        yield "written so far", lambda: Z(L.a['file'].fields['pos']) == Z(L.a['before'].n) + k

def inv_read(L):
    g = L.a.get('reading')
    if g is None:
        return
    q, m, p, file, C = g
    k = Z(L.k)
    pos = Z(file.fields['pos'])
    yield "position", pos == p + k + 1
    yield "position at the head", pos == p + k
    yield "within", k <= m - 1
    yield "reading.variant", m - k
    for n, x in L.numbers():
        if is_int(x):
            yield "%s is q(m-k)" % n, lambda x=x: Z(x) == q(m - k)
            yield "%s is the byte" % n, lambda x=x: Z(x) == Z(C.get(p + k))

def nbytes(v, q):
    """m with q(m-1) < 128 <= q(i) for i < m-1."""
    m = v.int("m", 1)
    v.assume(q(m - 1) < 128, v.all(m - 1, lambda i: q(i) >= 128))
    return m

def u_base128(v, mod):
    x = v.int("v", 0)
    q = ghost(v, x)
    v.p.unit.args.update(q=q)
    r = v.call(mod + '.base128', x)
    c = r.content
    n = length(c)
    s = SSeqOf(v.it, c) if isinstance(c, list) else c
    v.prove("at least one digit", n >= 1)
    v.prove("no shorter than needed", q(n - 1) < 128)
    v.forall("no longer than needed", n - 1, lambda i: q(i) >= 128)
    v.forall("the digits, most significant first", n, lambda t: Z(s.get(t)) == q(n - 1 - t) % 128)
    v.reach("end")

def base128_contract(it, f, a):
    """What u_base128 proves."""
    v = it.facade
    q = it.p.unit.args['q']
    it.p.prove("base128 is applied to the value to write", Z(a['v']) == q(0))
    m = nbytes(v, q)
    it.p.unit.args['m'] = m
    return it.newlist(SSeq(m, lambda t: q(m - 1 - Z(t)) % 128), "digits")

def u_write(v, mod, fn):
    x = v.int("v", *([0] if fn == 'writevlv' else []))
    ax = If(x < 0, -x, x) if fn == 'writesvlv' else x
    q = ghost(v, ax)
    before = v.seq("before", 'int')
    f = files.byte_file(v.it, before, before.n)
    node = f.fields['node']
    b2 = before
    if fn == 'writesvlv':
        b2 = v.BI.seq_concat(v.it, before, [If(x < 0, z3.IntVal(255), z3.IntVal(0))])
    v.p.unit.args.update(q=q, node=node, file=f, before=b2)
    v.call(mod + '.' + fn, f, x)
    m = v.p.unit.args['m']
    c = node.content
    want = v.BI.seq_concat(v.it, b2, encoded(q, m))
    v.prove("the bytes of the value are appended, and nothing else", Z(c.n) == Z(want.n))
    v.forall("the bytes of the value are appended, and nothing else", c.n, lambda i: Z(c.get(i)) == Z(want.get(i)))
    v.prove("the file is at the end of them", Z(f.fields['pos']) == Z(want.n))
    v.forall("every byte but the last has its top bit set", m, lambda t: And(Z(c.get(Z(b2.n) + t)) >= If(t < m - 1, 128, 0), Z(c.get(Z(b2.n) + t)) <= If(t < m - 1, 255, 127)))
    v.reach("end")

def u_read(v, mod, fn):
    x = v.int("v", *([0] if fn == 'readvlv' else []))
    ax = If(x < 0, -x, x) if fn == 'readsvlv' else x
    q = ghost(v, ax)
    m = nbytes(v, q)
    before, after = v.seq("before", 'int'), v.seq("after", 'int')
    pre = before
    if fn == 'readsvlv':
        pre = v.BI.seq_concat(v.it, before, [If(x < 0, z3.IntVal(255), z3.IntVal(0))])
    cat = lambda a, b: v.BI.seq_concat(v.it, a, b)
    C = cat(cat(pre, encoded(q, m)), after)
    f = files.byte_file(v.it, C, before.n)
    v.p.unit.args.update(reading=(q, m, Z(pre.n), f, C))
    r = v.call(mod + '.' + fn, f)
    v.prove("the value is read back", Z(r) == x)
    v.prove("reading consumes exactly the bytes that writing produced", Z(f.fields['pos']) == Z(pre.n) + m)
    v.reach("end")

def units(prop):
    us = []
    for mod in ('pf', 'rg'):
        def U(n, f, invs, ov=None):
            u = Unit("C17.%s.%s" % (mod, n), f, invs=invs, overrides=ov or {})
            u.must_reach = ["end"]
            us.append(u)
        U("base128", lambda v, mod=mod: u_base128(v, mod), [inv_write])
        for fn in ('writevlv', 'writesvlv'):
            U(fn, lambda v, mod=mod, fn=fn: u_write(v, mod, fn), [inv_write], {mod + ".base128": base128_contract})
        for fn in ('readvlv', 'readsvlv'):
            U(fn, lambda v, mod=mod, fn=fn: u_read(v, mod, fn), [inv_read])
    return us
