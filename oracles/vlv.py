"""Concrete oracle of the variable-length integers of pf.py and rg.py (C17)."""
import io
from coral import pf, rg

RULE = {"C17": "runs of 1 to 6 values, 0, powers of 128 and of 2 with their neighbours up to 2**70, random ones, signed and unsigned, in both modules"}

def gen(prop, rng):
    for s in (0, 1):
        for v in list(range(0, 300)) + [(1 << k) + d for k in range(7, 71) for d in (-1, 0, 1)]:
            yield [s, [v]]
            if s:
                yield [s, [-v]]
    while True:
        s = rng.randrange(2)
        vs = []
        for _ in range(rng.randrange(1, 7)):
            k = rng.choice([7, 8, 14, 15, 21, 28, 31, 32, 64])
            v = rng.choice([rng.randrange(1 << k), (1 << k) + rng.randrange(-2, 3), 128 ** rng.randrange(5) * rng.randrange(300), 0])
            vs.append(-v if s and rng.randrange(2) else v)
        yield [s, vs]

def check(prop, c):
    s, vs = c
    data = []
    for mod in (pf, rg):
        w, r = (mod.writesvlv, mod.readsvlv) if s else (mod.writevlv, mod.readvlv)
        f = io.BytesIO(b"\x81\x02")
        f.seek(2)
        at = []
        for v in vs:
            n = f.tell()
            w(f, v)
            at.append((n, f.tell()))
        data.append(f.getvalue())
        assert f.getvalue()[:2] == b"\x81\x02", "%s: earlier bytes changed" % mod.__name__
        f.write(b"\xff\x7f")
        f.seek(2)
        for v, (a, b) in zip(vs, at):
            assert f.tell() == a
            x = r(f)
            assert x == v, "%s: wrote %r, read %r" % (mod.__name__, v, x)
            assert f.tell() == b, "%s: %r takes bytes %d..%d, reading stopped at %d" % (mod.__name__, v, a, b, f.tell())
            raw = data[-1][a + (1 if s else 0):b]
            assert all(y >= 128 for y in raw[:-1]) and raw[-1] < 128, "%s: bytes of %r are %r" % (mod.__name__, v, raw)
            assert len(raw) == max(1, -(-abs(v).bit_length() // 7)), "%s: %r takes %d bytes" % (mod.__name__, v, len(raw))

def from_model(prop, unit, m):
    x = m.get('v')
    out = []
    if isinstance(x, int):
        for s in (0, 1):
            if s or x >= 0:
                out.append([s, [x]])
    return out
