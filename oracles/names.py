"""Concrete oracle of the name distance (C31)."""
from fractions import Fraction as Q
import functools, itertools
from coral import names

RULE = {"C31": "all pairs of strings of up to 3 characters over two letters, then random pairs of up to 12 characters over 2 to 6 letters and edited copies (swaps of neighbours, deletions, insertions, substitutions); mappings of up to 4 keys to up to 5 values; the expected distance is the least cost over all alignments"}

def osa(a, b):
    @functools.lru_cache(None)
    def d(i, j):
        if i == 0 or j == 0:
            return i + j
        o = [d(i - 1, j) + 1, d(i, j - 1) + 1, d(i - 1, j - 1) + (a[i - 1] != b[j - 1])]
        if i > 1 and j > 1 and a[i - 1] == b[j - 2] and a[i - 2] == b[j - 1]:
            o.append(d(i - 2, j - 2) + 1)
        return min(o)
    return d(len(a), len(b))

def gen(prop, rng):
    small = ["".join(c) for n in range(4) for c in itertools.product("ab", repeat=n)]
    for a in small:
        for b in small:
            yield ["pair", a, b]
    while True:
        letters = "abcé Z"[:rng.randrange(2, 7)]
        def word(k):
            return "".join(rng.choice(letters) for _ in range(rng.randrange(k + 1)))
        a = word(12)
        b = list(a)
        for _ in range(rng.randrange(5)):
            i = rng.randrange(len(b) + 1)
            o = rng.randrange(4)
            if o == 0 and i + 1 < len(b):
                b[i], b[i + 1] = b[i + 1], b[i]
            elif o == 1:
                b[i:i] = rng.choice(letters)
            elif o == 2:
                del b[i:i + 1]
            else:
                b[i:i + 1] = rng.choice(letters)
        b = "".join(b) if rng.random() < .7 else word(12)
        yield ["pair", a, b]
        if rng.random() < .3:
            yield ["map", [word(5) for _ in range(rng.randrange(5))], [word(5) for _ in range(rng.randrange(1, 6))]]

def err(a, b):
    n = len(a) + len(b)
    return Q(2 * osa(a, b), n) if n else Q(0)

def check(prop, c):
    if c[0] == "pair":
        a, b = c[1:]
        d = names.damlev(a, b)
        assert d == osa(a, b), "distance %r, not %r" % (d, osa(a, b))
        assert names.damlev(b, a) == d, "distance is not symmetric"
        assert (d == 0) == (a == b)
        assert abs(len(a) - len(b)) <= d <= max(len(a), len(b))
        e = names.strerr(a, b)
        assert abs(Q(e) - err(a, b)) < Q(1, 10 ** 12), "error rate %r" % (e,)
    else:
        keys, vals = c[1:]
        m = names.mapping(keys, vals)
        assert sorted(x.key for x in m) == sorted(keys), "not one match for each key"
        for x in m:
            assert x.value in vals, "%r is not a value" % (x.value,)
            best = min(err(x.key, v) for v in vals)
            assert err(x.key, x.value) == best, "%r is matched to %r although a value has a lower error rate" % (x.key, x.value)
            assert abs(Q(x.score) - (1 - best)) < Q(1, 10 ** 12), "score %r" % (x.score,)
