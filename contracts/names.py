"""Contracts of names.damlev, strerr and mapping (C31).

osa(a, b) is the optimal-string-alignment recurrence on prefixes of a+1 and b+1 characters; lean/Osa.lean
proves what it means (least cost of an alignment) and its metric properties."""
from pyvc.facade import *
from pyvc import files
from .templates import *

def text(v, name):
    s = v.seq(name, 'int')
    v.assume(v.all(s.n, lambda i: s.get(i) >= 0))
    return s, Rope('str', [('seq', s)])

class Osa:
    def __init__(self, v, s, t):
        self.v, self.s, self.t = v, s, t
        I = z3.IntSort()
        self.f = z3.Function("osa", I, I, I)
        a = z3.Int("oa")
        v.assume(ForAll([a], Implies(a >= -1, And(self.f(a, -1) == a + 1, self.f(-1, a) == a + 1)), patterns=[self.f(a, -1), self.f(-1, a)]))
    def rec(self, a, b):
        """The recurrence at (a, b), for a, b >= 0."""
        f, s, t = self.f, self.s.get, self.t.get
        mn = lambda x, y: If(x <= y, x, y)
        best = mn(mn(f(a - 1, b) + 1, f(a, b - 1) + 1), f(a - 1, b - 1) + If(s(a) == t(b), 0, 1))
        swap = And(a >= 1, b >= 1, s(a) == t(b - 1), s(a - 1) == t(b))
        return Implies(And(a >= 0, b >= 0), f(a, b) == If(swap, mn(best, f(a - 2, b - 2) + 1), best))
    def unfold(self, a, b):
        a, b = z3.simplify(Z(a)), z3.simplify(Z(b))
        for d in (0, 1):
            self.v.p.fact(self.rec(z3.simplify(a - d), z3.simplify(b - d)))

def inv_table(L):
    o = L.a.get('osa')
    if o is None:
        return
    n1, n2, k, v = Z(o.s.n), Z(o.t.n), Z(L.k), L.v
    ints = [(n, Z(x)) for n, x in L.numbers() if is_int(x) and not Z(x).eq(n1) and not Z(x).eq(n2)]
    for n, d in locals_of(L):
        if not isinstance(d, PDict):
            continue
        if d.tab is not None:
            if d.tab.arity != 2:
                continue
            dom, val = d.tab.dom, d.tab.val
        elif all(isinstance(x, tuple) and len(x) == 2 for x in d.d):
            dom = lambda a, b, d=d: Or(*[And(Z(x) == a, Z(y) == b) for x, y in d.d]) if d.d else z3.BoolVal(False)
            def val(a, b, d=d):
                r = z3.IntVal(0)
                for (x, y), w in d.d.items():
                    r = If(And(Z(x) == a, Z(y) == b), Z(w), r)
                return r
        else:
            continue
        ok = lambda a, b, dom=dom, val=val: And(B(dom(a, b)), val(a, b) == o.f(a, b))
        m1 = z3.IntVal(-1)
        yield All("%s first column so far" % n, k - 1, lambda a, ok=ok: ok(a, m1), lo=-1)
        yield All("%s first column" % n, n1, lambda a, ok=ok: ok(a, m1), lo=-1)
        yield All("%s first row so far" % n, k - 1, lambda b, ok=ok: ok(m1, b), lo=-1)
        yield All("%s first row" % n, n2, lambda b, ok=ok: ok(m1, b), lo=-1)
        rows = lambda e, ok=ok: (lambda a: v.all(n2, lambda b: ok(a, b)))
        yield All("%s rows so far" % n, k, rows(k))
        for i, x in ints:
            yield All("%s rows before %s" % (n, i), x, rows(x))
            for dk in (0, 1, 2):
                o.unfold(x, k - dk)
            yield All("%s columns of row %s" % (n, i), k, lambda b, x=x, ok=ok: ok(x, b))

def u_damlev(v):
    s, a = text(v, "s1")
    t, b = text(v, "s2")
    o = Osa(v, s, t)
    v.p.unit.args['osa'] = o
    r = v.call('names.damlev', a, b)
    v.prove("the distance is the alignment recurrence at the two lengths", Z(r) == o.f(Z(s.n) - 1, Z(t.n) - 1))
    v.reach("end")

def u_strerr(v):
    s, a = text(v, "s1")
    t, b = text(v, "s2")
    d = v.int("distance", 0)
    v.p.unit.args['call'] = (a, b, d)
    r = v.call('names.strerr', a, b)
    n = Z(s.n) + Z(t.n)
    v.prove("the error rate is twice the distance over the summed lengths", And(Implies(n > 0, R(r) == 2 * z3.ToReal(d) / z3.ToReal(n)), Implies(n == 0, R(r) == 0)))
    v.reach("end")

def damlev_contract(it, f, args):
    a, b, d = it.p.unit.args['call']
    x, y = args['s1'], args['s2']
    it.p.prove("the distance of the two strings is asked for", (x is a and y is b) or (x is b and y is a))
    return d

ERR = lambda: z3.Function("strerr", Opaque.SORT, Opaque.SORT, z3.RealSort())

def strerr_contract(it, f, args):
    a, b = args['s1'], args['s2']
    a, b = (x[0] if isinstance(x, tuple) else x for x in (a, b))
    e = ERR()
    r = e(a.term, b.term)
    it.p.assume(And(r >= 0, e(b.term, a.term) == r))
    return r

def inv_matches(L):
    a = L.a.get('mapping')
    if a is None:
        return
    keys, vals = a
    k, v = Z(L.k), L.v
    for n, l in locals_of(L):
        if isinstance(l, PList) and not isinstance(l, PArr):
            c = l.content
            ln = length(c)
            yield "%s has one match for each key" % n, ln == k
            if isinstance(c, list):
                c = SSeqOf(L.it, c) if c else None
            def item(i, c=c):
                return c.get(i)
            if c is None:
                # empty: nothing to say about its elements
                for what in ("the keys", "indices", "scores", "least"):
                    yield All("%s: %s" % (n, what), ln, lambda i: z3.BoolVal(True))
                continue
            try:
                x = item(z3.Int("probe"))
            except Exception:
                continue
            if not (isinstance(x, PNT) and len(x.vals) == 3 and isinstance(x.vals[0], Opaque) and isinstance(x.vals[1], Elem) and is_num(x.vals[2])):
                continue
            for what, fn in match_facts(v, keys, vals, item):
                yield All("%s: %s" % (n, what), ln, fn)

def match_facts(v, keys, vals, item, at=lambda i: i):
    e = ERR()
    N = Z(vals.n)
    key, tag, val, score = (lambda i: item(i).vals[0].term), (lambda i: item(i).vals[1].tag), (lambda i: item(i).vals[1][0].term), (lambda i: R(item(i).vals[2]))
    return [("the keys", lambda i: key(i) == keys.get(at(i)).term),
            ("indices", lambda i: And(tag(i) >= 0, tag(i) < N)),
            ("scores", lambda i: score(i) == 1 - e(key(i), val(i))),
            ("least", lambda i: v.all(N, lambda j: e(key(i), val(i)) <= e(key(i), vals.at(j)[0].term)))]

def u_mapping(v):
    keys = v.seq("keys", 'opaque')
    vs = v.seq("values", ('tuple', ['opaque']), minlen=1)
    vals = ElemBase(v.p.unit, vs, ('tuple', ('opaque',)), "value")
    v.p.unit.args['mapping'] = (keys, vals)
    lst = v.list(SSeq(vs.n, vals.at, 'list'))
    r = v.call('names.mapping', v.list(keys), lst)
    c = r.content
    v.prove("one match for each key", length(c) == Z(keys.n))
    if isinstance(c, list):
        if not c:
            return
        c = SSeqOf(v.it, c)
    perm = getattr(c, 'perm', None) or (lambda i: i)
    inv = getattr(c, 'inv', None) or (lambda i: i)
    v.forall("every key has a match", keys.n, lambda i: And(inv(i) >= 0, inv(i) < Z(keys.n), c.get(inv(i)).vals[0].term == keys.get(i).term))
    for what, fn in match_facts(v, keys, vals, c.get, perm):
        v.forall({"the keys": "the matches are of the keys", "indices": "the value is one of the values", "scores": "the score is 1 minus the error rate", "least": "the value has the least error rate"}[what], keys.n, fn)
    v.reach("end")

def units(prop):
    us = []
    def U(n, f, reach, **kw):
        u = Unit("C31." + n, f, **kw)
        u.must_reach = reach
        u.cand_ms = 1000
        us.append(u)
    U("damlev", u_damlev, ["end"], invs=[inv_table])
    U("strerr", u_strerr, ["end"], overrides={"names.damlev": damlev_contract})
    U("mapping", u_mapping, ["end"], invs=[inv_matches], overrides={"names.strerr": strerr_contract})
    return us
