"""Contracts of coral/coord.py: simplify, sqr_fit, open_no_slit, closed_no_slit (C07, C08)."""
from pyvc.facade import *
from . import buffer
from .templates import *

def rnd(x):
    """Nearest integer, halves away from zero."""
    return If(x >= 0, z3.ToInt(x + R(Fraction(1, 2))), -z3.ToInt(-x + R(Fraction(1, 2))))

def inputs(v):
    xys = v.seq("xys", ('tuple', ('real', 'real')))
    scl = v.real("scl")
    v.assume(scl > 0)
    k = v.int("k", 1)
    memo = v.p.unit.__dict__.setdefault('snapmemo', {})
    def snap(i):
        i = Z(i)
        if i.get_id() not in memo:
            memo[i.get_id()] = i, tuple(rnd(R(c) / scl) for c in xys.get(i))
        return memo[i.get_id()][1]
    grid = SSeq(xys.n, snap, 'tuple')
    base = ElemBase(v.p.unit, grid, ('tuple', ('int', 'int')))
    v.p.unit.args.update(elembase=base, k=k, xys=xys, grid=grid)
    return xys, scl, k, base

def inv_grid(L):
    """What has been produced so far is the snapped input."""
    g = L.a['grid']
    if L.src is None or isinstance(L.src.get(z3.Int("probe")), Elem):
        return
    for n, v in locals_of(L):
        if isinstance(v, PList) and not isinstance(v, PArr):
            yield Def("%s is the snapped input" % n, v, SSeq(L.k, g.get))

def result(v, closed, form):
    xys, scl, k, base = inputs(v)
    arg = v.list(xys) if form == 'list' else v.iter(xys)
    r = v.call('coord.simplify', arg, scl, closed, k)
    c = v.it.iterate(r)
    if conc(c.n) == 0:
        return xys, base, c, arg, form
    t = c.get(z3.Int("probe2")) if not hasattr(c, 'items') else None
    ok = all(isinstance(x, Elem) and x.base is base for x in c.items) if t is None else (isinstance(t, Elem) and t.base is base)
    v.prove("every output point is a snapped input point", bool(ok))
    if not ok:
        raise PathEnd("no ghost index")
    return xys, base, c, arg, form

def u_open(v, form):
    xys, base, c, arg, form = result(v, False, form)
    N, M = Z(xys.n), Z(c.n)
    v.prove("a line of no points gives none", Implies(N == 0, M == 0))
    v.prove("a line of one point gives one", Implies(N == 1, M == 1))
    v.forall("every output point comes from the input", M, lambda i: And(c.get(i).tag >= 0, c.get(i).tag < N))
    def order(j):
        i = v.int("i", 0)
        v.assume(i < j)
        v.prove("points come in input order, none used twice", c.get(i).tag < c.get(j).tag)
    v.forall("points come in input order, none used twice", M, order)
    if v.case(N >= 1):
        v.prove("the output is not empty", M >= 1)
        v.prove("the first point comes out first", c.get(z3.IntVal(0)).tag == 0)
        v.prove("the last point comes out last", And(*[x == y for x, y in zip(c.get(M - 1), base.at(N - 1))]))
        v.reach("some")
    if form == 'list':
        v.prove("the caller's list is unchanged", arg.content is xys)

def u_closed(v, form):
    xys, base, c, arg, form = result(v, True, form)
    N, M = Z(xys.n), Z(c.n)
    v.forall("every vertex comes from the input", M, lambda i: And(c.get(i).tag >= 0, c.get(i).tag < N))
    t = lambda i: c.get(i).tag
    def order(k):
        i, j = v.int("i", 0), v.int("j", 0)
        v.assume(i < j, j < k)
        a, b, d = t(i), t(j), t(k)
        v.prove("three vertices keep their cyclic order, none used twice", Or(And(a < b, b < d), And(b < d, d < a), And(d < a, a < b)))
    v.forall("three vertices keep their cyclic order, none used twice", M, order)
    def twice(j):
        i = v.int("i", 0)
        v.assume(i < j)
        v.prove("no vertex is used twice", t(i) != t(j))
    v.forall("no vertex is used twice", M, twice)
    v.prove("a non-empty ring gives vertices", Implies(N >= 1, M >= 1))
    if form == 'list':
        v.prove("the caller's list is unchanged", arg.content is xys)
    v.reach("some")

def units(prop):
    name, f = {'C07': ("open", u_open), 'C08': ("closed", u_closed)}[prop]
    us = []
    for form in ("list", "iterator"):
        u = Unit("%s.%s-%s" % (prop, name, form), lambda v, form=form: f(v, form), invs=[inv_grid, inv_order, inv_sizes, inv_drained] + ([inv_copy, inv_full, inv_rotated] if prop == "C08" else []), overrides=buffer.abstract())
        u.must_reach = ["some"]
        u.cand_ms = 700
        us.append(u)
    return us + buffer.units(prop)
