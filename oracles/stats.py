"""Concrete oracle of the statistics (C30)."""
from fractions import Fraction as Q
import math
from coral import stats

RULE = {"C30": "pairs of sequences of 1 to 12 numbers: integers, dyadic fractions, repeated values, constants, negative values, sorted and unsorted; expected values in exact rational arithmetic, tolerance 1e-9 relative to the data's scale"}

def gen(prop, rng):
    for n in range(1, 6):
        yield [list(range(n)), list(range(n, 0, -1))]
        yield [[0] * (n - 1) + [1], [1] + [0] * (n - 1)]
        yield [[3] * n, list(range(n))]
    while True:
        n = rng.choice([1, 2, 2, 3, 4, 5, 8, 12])
        def seq():
            c = rng.randrange(5)
            if c == 0:
                return [rng.randrange(0, 5) for _ in range(n)]
            if c == 1:
                return [rng.randrange(-50, 50) / 8 for _ in range(n)]
            if c == 2:
                return sorted(rng.randrange(0, 100) for _ in range(n))
            if c == 3:
                return [rng.uniform(0, 10) for _ in range(n)]
            return [rng.randrange(1, 1000) for _ in range(n)]
        yield [seq(), seq()]

def near(what, a, b, scale):
    a = Q(a)
    assert abs(a - b) <= Q(1, 10 ** 9) * max(scale, 1), "%s is %r, not %r" % (what, float(a), float(b))

def check(prop, c):
    a, b = c
    n = len(a)
    A, B = [Q(x) for x in a], [Q(x) for x in b]
    ta, tb = tuple(a), tuple(b)
    def mean(X):
        return sum(X) / Q(len(X))
    def cov(X, Y):
        u, w = mean(X), mean(Y)
        return sum((x - u) * (y - w) for x, y in zip(X, Y)) / Q(len(X))
    s = max([abs(x) for x in A + B]) ** 2 + 1
    near("average", stats.avg(ta), mean(A), s)
    near("variance", stats.var(ta), cov(A, A), s)
    assert stats.var(ta) >= 0, "negative variance"
    near("squared deviation", stats.std_dev(ta) ** 2, cov(A, A), s)
    assert stats.std_dev(ta) >= 0
    near("covariance", stats.covar(ta, tb), cov(A, B), s)
    near("covariance", stats.covar(tb, ta), cov(A, B), s)
    near("covariance with itself", stats.covar(ta, ta), cov(A, A), s)
    if cov(A, A) > 0 and cov(B, B) > 0 and cov(A, A) * 10 ** 9 > s and cov(B, B) * 10 ** 9 > s:
        r = stats.corr(ta, tb)
        want = float(cov(A, B)) / (math.sqrt(cov(A, A)) * math.sqrt(cov(B, B)))
        assert abs(r - want) < 1e-6, "correlation is %r, not %r" % (r, want)
        assert abs(r) <= 1 + 1e-9
    if n >= 2:
        u = mean(A)
        if abs(u) * 1000 > max(abs(x) for x in A) and u != 0:
            g = sum(abs(x - y) for x in A for y in A) / Q(n * (n - 1)) / (2 * u)
            near("Gini (Kakwani)", stats.gini_kakwani(ta), g, abs(g))
            near("Gini (Deaton)", stats.gini_deaton(ta), g, abs(g))
            if min(A) >= 0:
                assert -1e-9 <= stats.gini_deaton(ta) <= 1 + 1e-9

def from_model(prop, unit, m):
    num = lambda v: v[0] / v[1] if isinstance(v, list) else v
    s, t = m.get('seq') or m.get('seq1'), m.get('seq2')
    if isinstance(s, list) and s:
        s = [num(x) for x in s]
        t = [num(x) for x in t] if isinstance(t, list) and len(t) == len(s) else s[::-1]
        return [[s, t]]
    return []
