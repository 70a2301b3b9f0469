"""Contracts of stats.py (C30).  Sums are partial-sum functions S with S(0)=0, S(i+1)=S(i)+f(i)."""
from pyvc.facade import *
from pyvc.loops import chain
from .templates import locals_of

def total(v, fn):
    """Partial sums of fn over 0.., as a function of the upper limit."""
    J = z3.Int("J!sum")
    v.p.quant = getattr(v.p, 'quant', 0) + 1
    try:
        body = R(fn(J))
    finally:
        v.p.quant -= 1
    return v.BI.sum_fn(v.it, body, J)

def induction(v, name, n, P, step=None):
    """P(0) and P(k) => P(k+1), hence P(n) for n >= 0."""
    v.prove(name + " (base)", P(z3.IntVal(0)))
    def go():
        k = v.p.int("k")
        v.assume(k >= 0, k < n)
        v.assume(P(k))
        g = P(k + 1)
        if step:
            step(k)
        v.prove(name + " (step)", g)
    v.side(go)
    g = P(Z(n))
    v.assume(g)
    return g

def inv_sum(L):
    """Numbers that accumulate one of the sums of the contract."""
    k = Z(L.k)
    for n, x in L.numbers():
        for lab, fn in (L.a.get('sums') or {}).items():
            if n in L.entryvals and is_num(L.entryvals[n]):
                e = R(L.entryvals[n])
                yield "%s adds %s" % (n, lab), lambda x=x, e=e, fn=fn: R(x) == e + fn(k)
                yield "%s takes away %s" % (n, lab), lambda x=x, e=e, fn=fn: R(x) == e - fn(k)
    for i, iv in [(n, w) for n, w in locals_of(L) if is_int(w)]:
        for n, x in L.numbers():
            g = L.a.get('inner')
            if g is not None and n in L.entryvals and is_num(L.entryvals[n]) and n != i:
                e = R(L.entryvals[n])
                yield "%s adds the sum inside %s" % (n, i), lambda x=x, e=e, iv=iv, g=g: R(x) == e + g(Z(iv), k)

def data(v, name, minlen=1, n=None):
    s = v.seq(name, 'real', n=n, minlen=minlen, kind='tuple')
    return s, Z(s.n)

def mean(v, s, n):
    return total(v, lambda i: s.get(i))(n) / z3.ToReal(n)

def variance(v, s, n):
    u = mean(v, s, n)
    return total(v, lambda i: (s.get(i) - u) * (s.get(i) - u))(n) / z3.ToReal(n)

def covariance(v, s, t, n):
    u, w = mean(v, s, n), mean(v, t, n)
    return total(v, lambda i: (s.get(i) - u) * (t.get(i) - w))(n) / z3.ToReal(n)

def u_avg(v):
    s, n = data(v, "seq")
    r = v.call('stats.avg', s)
    v.prove("the average is the sum over the length", R(r) == mean(v, s, n))
    v.reach("end")

def u_var(v):
    s, n = data(v, "seq")
    want = variance(v, s, n)
    u = mean(v, s, n)
    f = total(v, lambda i: (s.get(i) - u) * (s.get(i) - u))
    v.p.unit.args['sums'] = {"squares": f, "squares/n": lambda k: f(k) / z3.ToReal(n)}
    r = v.call('stats.var', s)
    v.prove("the variance is the mean squared deviation", R(r) == want)
    induction(v, "sum of squares is not negative", n, lambda k: f(k) >= 0)
    v.prove("the variance is not negative", R(r) >= 0)
    v.reach("end")

def u_std(v):
    s, n = data(v, "seq")
    u = mean(v, s, n)
    f = total(v, lambda i: (s.get(i) - u) * (s.get(i) - u))
    v.p.unit.args['sums'] = {"squares": f, "squares/n": lambda k: f(k) / z3.ToReal(n)}
    induction(v, "sum of squares is not negative", n, lambda k: f(k) >= 0)
    r = R(v.call('stats.std_dev', s))
    v.prove("the standard deviation is the root of the variance", And(r >= 0, r * r == variance(v, s, n)))
    v.reach("end")

def u_covar(v):
    s, n = data(v, "seq1")
    t, _ = data(v, "seq2", n=n)
    f = total(v, lambda i: (s.get(i) - mean(v, s, n)) * (t.get(i) - mean(v, t, n)))
    v.p.unit.args['sums'] = {"products": f, "products/n": lambda k: f(k) / z3.ToReal(n)}
    r = R(v.call('stats.covar', s, t))
    v.prove("the covariance is the mean product of deviations", r == covariance(v, s, t, n))
    h = total(v, lambda i: (t.get(i) - mean(v, t, n)) * (s.get(i) - mean(v, s, n)))
    induction(v, "products are symmetric", n, lambda k: f(k) == h(k))
    v.prove("the covariance is symmetric", covariance(v, s, t, n) == covariance(v, t, s, n))
    v.prove("the covariance with itself is the variance", covariance(v, s, s, n) == variance(v, s, n))
    v.reach("end")

def u_corr(v):
    s, n = data(v, "seq1")
    t, _ = data(v, "seq2", n=n)
    A, Bv, C = variance(v, s, n), variance(v, t, n), covariance(v, s, t, n)
    v.assume(A > 0, Bv > 0)
    u, w = mean(v, s, n), mean(v, t, n)
    fa = total(v, lambda i: (s.get(i) - u) * (s.get(i) - u))
    fb = total(v, lambda i: (t.get(i) - w) * (t.get(i) - w))
    fc = total(v, lambda i: (s.get(i) - u) * (t.get(i) - w))
    v.p.unit.args['sums'] = {"products": fc, "products/n": lambda k: fc(k) / z3.ToReal(n), "squares1": fa, "squares2": fb,
                             "squares1/n": lambda k: fa(k) / z3.ToReal(n), "squares2/n": lambda k: fb(k) / z3.ToReal(n)}
    N = z3.ToReal(n)
    r = R(v.call('stats.corr', s, t))
    sa, sb = R(v.BI.call_ext(v.it, 'math.sqrt', [A], {})), R(v.BI.call_ext(v.it, 'math.sqrt', [Bv], {}))
    v.prove("the correlation is the covariance over both deviations", r == C / (sa * sb))
    # Cauchy-Schwarz by induction
    def step(k):
        a, b = s.get(k) - u, t.get(k) - w
        X, Y, W = fa(k), fb(k), fc(k)
        x, y, z, p, q = z3.Reals("cs_x cs_y cs_z cs_p cs_q")
        lem = lambda x, y, z, p, q: Implies(And(x >= 0, y >= 0, z * z <= x * y), (z + p * q) * (z + p * q) <= (x + p * p) * (y + q * q))
        g = Implies(And(x >= 0, y >= 0, z * z <= x * y, z == 0), (z + p * q) * (z + p * q) <= (x + p * p) * (y + q * q))
        v.prove("(Cauchy step, z=0)", g)
        e = x * (x * q * q + y * p * p - 2 * z * p * q)
        v.prove("(Cauchy identity)", e == (x * q - z * p) * (x * q - z * p) + (x * y - z * z) * p * p)
        v.prove("(Cauchy step, x>0)", Implies(And(x > 0, y >= 0, z * z <= x * y, e >= 0), (z + p * q) * (z + p * q) <= (x + p * p) * (y + q * q)))
        v.prove("(Cauchy step)", lem(x, y, z, p, q))
        v.assume(lem(X, Y, W, a, b))
    induction(v, "the Cauchy-Schwarz inequality", n, lambda k: And(fa(k) >= 0, fb(k) >= 0, fc(k) * fc(k) <= fa(k) * fb(k)), step)
    v.prove("(scaled)", And(C * N == fc(n), A * N == fa(n), Bv * N == fb(n)))
    v.assume(And(C * N == fc(n), A * N == fa(n), Bv * N == fb(n)))
    v.prove("(means)", C * C <= A * Bv)
    v.assume(C * C <= A * Bv)
    v.prove("(roots)", And((sa * sb) * (sa * sb) == A * Bv, sa * sb > 0))
    v.assume((sa * sb) * (sa * sb) == A * Bv, sa * sb > 0)
    v.prove("(bounds)", And(C <= sa * sb, -C <= sa * sb))
    v.assume(C <= sa * sb, -C <= sa * sb)
    v.prove("the correlation lies between -1 and 1", And(r <= 1, r >= -1))
    v.reach("end")

def u_kakwani(v):
    """stats.gini_kakwani is kakwani of lean/Gini.lean."""
    s, n = data(v, "seq", 2)
    x = lambda i: s.get(Z(i))
    G = v.p.fn("inner_sum", z3.IntSort(), z3.IntSort(), z3.RealSort())
    F = v.p.fn("outer_sum", z3.IntSort(), z3.RealSort())
    ab = lambda z: If(z >= 0, z, -z)
    S = z3.simplify
    def g(i, m):
        i, m = S(Z(i)), S(Z(m))
        v.p.fact(G(i, 0) == 0)
        v.p.fact(Implies(m >= 1, G(i, m) == G(i, S(m - 1)) + ab(x(i) - x(S(i + m)))))
        return G(i, m)
    def f(k):
        k = S(Z(k))
        v.p.fact(F(0) == 0)
        v.p.fact(Implies(k >= 1, F(k) == F(S(k - 1)) + g(k - 1, n - k)))
        return F(k)
    v.p.unit.args.update(sums={"outer": f}, inner=g)
    u = mean(v, s, n)
    v.assume(u != 0)
    r = R(v.call('stats.gini_kakwani', s))
    N = z3.ToReal(n)
    v.prove("Kakwani's formula: half the mean absolute difference of two members over the mean", r == (2 * f(n) / (N * (N - 1))) / (2 * u))
    v.reach("end")

def u_deaton(v):
    """stats.gini_deaton is deaton of lean/Gini.lean, for a decreasing rearrangement of the sequence."""
    s, n = data(v, "seq", 2)
    H = v.p.fn("rank_sum", z3.IntSort(), z3.RealSort())
    def h(k):
        k = z3.simplify(Z(k))
        v.p.fact(H(0) == 0)
        if v.p.sorts:
            v.p.fact(Implies(k >= 1, H(k) == H(z3.simplify(k - 1)) + z3.ToReal(k - 1) * R(v.p.sorts[0].get(z3.simplify(k - 1)))))
        return H(k)
    v.p.unit.args['sums'] = {"ranks": h}
    v.p.sorts = []
    u = mean(v, s, n)
    v.assume(u != 0)
    r = R(v.call('stats.gini_deaton', s))
    if len(v.p.sorts) != 1:
        v.fail("the data is sorted once")
        return
    y = v.p.sorts[0]
    # y is a rearrangement by construction of sorted(); that it is the data's, and decreasing:
    v.prove("all the data is sorted", Z(y.n) == n)
    v.forall("what is sorted is the data", n, lambda j: y.base.get(j) == s.get(j))
    v.forall("the order is decreasing", n - 1, lambda j: R(y.get(j)) >= R(y.get(j + 1)))
    N = z3.ToReal(n)
    v.prove("Deaton's formula", r == (N + 1) / (N - 1) - 2 * (total(v, lambda i: s.get(i))(n) + h(n)) / (N * (N - 1) * u))
    v.reach("end")

def units(prop):
    us = []
    for n, f in (("avg", u_avg), ("var", u_var), ("std_dev", u_std), ("covar", u_covar), ("corr", u_corr), ("gini_kakwani", u_kakwani), ("gini_deaton", u_deaton)):
        u = Unit("C30." + n, f, invs=[inv_sum])
        u.must_reach = ["end"]
        us.append(u)
    return us
