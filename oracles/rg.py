"""Concrete oracle of rg.Writer and rg.Reader: data sets written to and read from a scratch directory."""
import os, shutil, tempfile
from coral import rg
from coral.grid import IVar, FVar, SVar, GRow

RULE = {"C19": "data sets of 0..4 columns (integers, reals of each size, strings; with and without null; names that are no identifiers) and 0..5 entities of 0..4 segments of 0..5 rows, ids default, numbers or texts with blanks, read by id and in sequence in random order, and ids that were not written"}

def gen(prop, rng):
    yield [[["S", "name", 3, False]], [[None, [[["a"], [""]], []]]], [0, "next", "missing"]]
    yield [[["F", "lon", -180, 180, 8, True], ["I", "n", 0, 255, False]], [["a b", []], ["", [[[None, 3]]]]], [1, 0, "next"]]
    yield [[["I", "n", -5, 70000, True], ["S", "t", 300, True]], "big", [3, 0, 150, 2, "next", 1, 299, "missing"]]
    while True:
        cols = []
        for i in range(rng.choice([0, 1, 1, 2, 3, 4])):
            name = rng.choice(["n", "class", "a b", "_x", "1", "", "lon"]) + rng.choice(["", str(i)])
            nu = rng.random() < 0.4
            k = rng.choice("IFS")
            if k == "S":
                cols.append(["S", name, rng.choice([1, 2, 5, 127, 128, 300]), nu])
                continue
            lo = rng.choice([0, -5, -180, 10 ** 6, -2 ** 40])
            hi = lo + rng.choice([1, 100, 253, 254, 255, 256, 65534, 65535, 65536, 2 ** 32, 2 ** 40])
            cols.append(["I", name, lo, hi, nu] if k == "I" else ["F", name, lo, hi, rng.choice([1, 2, 4, 8]), nu])
        def value(c):
            if c[-1] and rng.random() < 0.3:
                return None
            if c[0] == "S":
                return "".join(rng.choice("abc xyz~") for _ in range(rng.randrange(min(c[2], 8) + 1)))
            lo, hi = c[2], c[3]
            return rng.choice([lo, hi, rng.randint(lo, hi)]) if c[0] == "I" or rng.random() < 0.4 else rng.uniform(lo, hi)
        kind = rng.choice(["default", "numbers", "texts", "mixed"])
        ents = []
        for i in range(rng.choice([0, 1, 2, 3, 5])):
            segs = [[[value(c) for c in cols] for _ in range(rng.choice([0, 1, 2, 5]))] for _ in range(rng.choice([0, 1, 1, 2, 4]))]
            id_ = {"default": None, "numbers": 3 * i - 2, "texts": rng.choice(["", " ", "a b", "x", "é"]) + str(i) + rng.choice(["", " ", "x 1"]), "mixed": rng.choice([None, "t%d" % i])}[kind]
            ents.append([id_, segs])
        ops = [rng.choice(["next", "missing", rng.randrange(len(ents)), rng.randrange(len(ents))]) for _ in range(rng.randrange(1, 7))] if ents else ["missing"]
        yield [cols, ents, ops]

def big():
    rows = lambda n: [[None if i % 7 == 6 else i % 70000, None if i % 5 == 4 else "v" * (i % 300)] for i in range(n)]
    return [["long", [rows(127), rows(128), rows(129)]], ["longer", [rows(17000)]], ["many", [rows(2) for _ in range(130)]]] + [["e%d" % i, [rows(1 + i % 3)]] for i in range(300)]

def check(prop, case):
    if case[1] == "big":
        case = [case[0], big(), case[2]]
    d = tempfile.mkdtemp(prefix="rg")
    try:
        return check_in(os.path.join(d, "x"), case)
    finally:
        shutil.rmtree(d)

def field(c):
    if c[0] == "S":
        return SVar(c[1], c[2], c[3])
    return IVar(*c[1:]) if c[0] == "I" else FVar(*c[1:])

def check_in(path, case):
    cols, ents, ops = case
    row = GRow(*[field(c) for c in cols])
    w = rg.Writer(path, row)
    for id_, segs in ents:
        segs = [[tuple(r) for r in s] for s in segs]
        w.write(segs) if id_ is None else w.write(segs, id_)
    w.close()
    r = rg.Reader(path)
    try:
        got = [(type(f).__name__, f.name, f.size, f.nullable) + ((f.minv, f.maxv) if hasattr(f, "minv") else ()) for f in r.row.fields]
        want = [(type(f).__name__, f.name, f.size, f.nullable) + ((f.minv, f.maxv) if hasattr(f, "minv") else ()) for f in row.fields]
        if got != want:
            return "columns %r are read as %r" % (want, got)
        cur = 0
        for op in ops:
            if op == "missing":
                try:
                    g = r.read("an id not written")
                except KeyError:
                    continue
                return "an id that was not written gives %r" % (g,)
            if op == "next":
                if cur >= len(ents):
                    continue
                e, g = cur, r.read()
            else:
                e = op
                g = r.read(e if ents[e][0] is None else ents[e][0])
            cur = e + 1
            want = [[list(row.decode(row.encode(*x))) for x in s] for s in ents[e][1]]
            if [[list(x) for x in s] for s in g] != want:
                return "entity %d is read as %r instead of %r" % (e, g, want)
    finally:
        r.close()
