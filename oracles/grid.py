"""Concrete oracle of grid fields and rows (C18)."""
from fractions import Fraction
from coral import grid

RULE = {"C18": "integer ranges at the size boundaries (2**8, 2**16, 2**32, 2**64 values, one less and one more), real fields of every size, strings up to the field size with multi-byte characters, rows of 0 to 5 fields; values at the ends, next to them, inside, outside and null"}

def ifield(rng):
    lo = rng.choice([0, -5, 7, -(1 << 40), rng.randrange(-1000, 1000)])
    k = rng.choice([8, 16, 32, 64, 3, 12, 20, 40])
    hi = lo + max(1, (1 << k) + rng.randrange(-3, 2) - (2 if k == 64 else 0))
    nu = rng.randrange(2)
    if hi - lo > (1 << 64) - 1 - nu:
        hi = lo + (1 << 64) - 1 - nu
    return ["I", lo, hi, nu]

def ffield(rng):
    lo = rng.choice([0, -180, -90.5, 3.25, rng.uniform(-100, 100), rng.randrange(-1000, 1000)])
    return ["F", lo, lo + rng.choice([1, 360, 0.125, 1e6, rng.uniform(0.001, 100), rng.randrange(1, 500)]), rng.choice([1, 2, 4, 8]), rng.randrange(2)]

def sfield(rng):
    return ["S", rng.choice([1, 2, 3, 5, 8, 32]), rng.randrange(2)]

def value(f, rng):
    if f[0] == "I":
        lo, hi, nu = f[1:]
        c = rng.randrange(9)
        if c == 0:
            return None
        return [lo, hi, lo + 1, hi - 1, (lo + hi) // 2, rng.randint(lo, hi), lo - 1, hi + 1][c - 1]
    if f[0] == "F":
        lo, hi, size, nu = f[1:]
        c = rng.randrange(9)
        if c == 0:
            return None
        d = hi - lo
        return [lo, hi, lo + d / 2, lo + d / 255, hi - d / 510, rng.uniform(lo, hi), lo - d / 100, hi + d / 100][c - 1]
    n, nu = f[1:]
    c = rng.randrange(8)
    if c == 0:
        return None
    if c == 1:
        return "x" * (n + 1)
    if c == 2:
        return "\u00e3" * (n // 2) + "z" * (n % 2)
    if c == 3:
        return "\u00e3" * (n // 2 + 1)
    if c == 4:
        return ""
    return "".join(rng.choice(["a", " ", "\u00ff", "\u20ac", "0", "\n", "\u0000b"]) for _ in range(rng.randrange(n + 1)))

def gen(prop, rng):
    for nu in (0, 1):
        for size in (1, 2, 4, 8):
            for d in (-2, -1, 0):
                hi = 256 ** size - 1 + d
                if size < 8 or d + nu <= 0:
                    for x in (0, hi, None, hi + 1, -1):
                        yield [[["I", 0, hi, nu]], [x]]
            for x in (0, 1, 0.5, None, 0.25, 0.999, -0.01, 1.01):
                yield [[["F", 0, 1, size, nu]], [x]]
        for n in (1, 2, 5):
            for x in ("", "a", "a" * n, "a" * (n + 1), None, "\u00ff", "\u00ff" * n, " a", "a "):
                yield [[["S", n, nu]], [x]]
    while True:
        n = rng.choice([1, 1, 1, 2, 3, 5, 0])
        fs = [rng.choice([ifield, ffield, sfield])(rng) for _ in range(n)]
        yield [fs, [value(f, rng) for f in fs]]

def make(f, i):
    k = f[0]
    return (grid.IVar("f%d" % i, f[1], f[2], bool(f[3])) if k == "I" else grid.FVar("f%d" % i, f[1], f[2], f[3], bool(f[4])) if k == "F"
            else grid.SVar("f%d" % i, f[1], bool(f[2])))

def valid(f, x):
    if x is None:
        return bool(f[-1])
    if f[0] == "S":
        return len(x.encode("utf8")) <= f[1] and not x.endswith("\0")
    return f[1] <= x <= f[2]

def close(f, x, y):
    if x is None or y is None:
        return x is y
    if f[0] != "F":
        return x == y
    lo, hi, size, nu = f[1:]
    q = Fraction(hi - lo) / (256 ** size - 1 - nu) / 2
    if x in (lo, hi):
        q = 0
    return abs(Fraction(x) - Fraction(y)) <= q * (1 + Fraction(1, 10 ** 6)) + max(abs(Fraction(lo)), abs(Fraction(hi))) / 2 ** 50

def check(prop, c):
    fs, xs = c
    if any(f[0] == "S" and x is not None and x.endswith("\0") for f, x in zip(fs, xs)):
        return
    objs = [make(f, i) for i, f in enumerate(fs)]
    ok = True
    for f, o, x in zip(fs, objs, xs):
        if f[0] == "I":
            assert o.size in (1, 2, 4, 8) and f[2] - f[1] <= 256 ** o.size - 1 - f[3], "size %r" % o.size
        else:
            assert o.size == (f[3] if f[0] == "F" else f[1])
        if valid(f, x):
            d = o.encode(x)
            assert len(d) == o.size, "%r takes %d bytes in a field of %d" % (x, len(d), o.size)
            y = o.decode(d)
            assert close(f, x, y), "%r is decoded as %r" % (x, y)
        else:
            ok = False
            try:
                d = o.encode(x)
            except Exception:
                pass
            else:
                assert False, "%r is accepted, as %r" % (x, d)
    row = grid.GRow(*objs)
    assert row.size == sum(o.size for o in objs) and len(row) == len(objs)
    if ok:
        d = row.encode(*xs)
        assert len(d) == row.size
        ys = row.decode(d)
        assert isinstance(ys, tuple) and len(ys) == len(xs) and all(close(f, x, y) for f, x, y in zip(fs, xs, ys)), "%r is decoded as %r" % (xs, ys)

def from_model(prop, unit, m):
    def num(x):
        return x[0] / x[1] if isinstance(x, list) and len(x) == 2 else x
    if 'min' in m and 'max' in m:
        lo, hi, x = num(m['min']), num(m['max']), num(m.get('value'))
        nu = int("nullable" in unit)
        out = []
        for y in (x, lo, hi, None):
            if "IVar" in unit:
                out.append([[["I", lo, hi, nu]], [y]])
            else:
                out += [[[["F", lo, hi, s, nu]], [y]] for s in (1, 2, 4, 8)]
        return out
    return []
