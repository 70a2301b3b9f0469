"""Concrete oracle of the table operations (C32) and files (C33)."""
import collections, os, tempfile
from coral import table

RULE = {
    "C32": "tables of 1 to 6 rows and 1 to 5 columns over few values (many ties), all operations against straightforward definitions",
    "C33": "tables of 1 to 6 rows and 1 to 5 columns of text (non-ASCII, inner spaces, empty cells beside others), written with all or some columns and read with any selection and order; blank lines, comments and trailing remarks put in between",
}

def gen(prop, rng):
    first = True
    while True:
        if prop == "C32":
            def tab(names):
                fs = rng.sample(names, rng.randrange(1, len(names) + 1))
                return [fs, [[rng.choice(["", "x", "y", "z"]) for _ in fs] for _ in range(rng.randrange(1, 7))]]
            a, b = tab("abcde"), tab("abcde"[rng.randrange(3):] + "fg")
            both = sorted(set(a[0]) | set(b[0]))
            piv = rng.choice([None, None, rng.sample(both, rng.randrange(len(both) + 1))])
            keys = rng.choice([None, None, rng.sample(both + ["q"], rng.randrange(1, len(both) + 2))])
            yield [a, b, piv, keys, rng.choice(a[0]), rng.choice(["", "x", "y", "w"]), rng.sample(a[0] + ["q"], rng.randrange(len(a[0]) + 1))]
        else:
            fs = rng.sample("abcde", rng.randrange(1, 6)) if not first else ["a", "b", "c"]
            first = False
            sep = rng.choice([None, None, ";", "|", "--"])
            lets = "abé 1.漢"
            def cell():
                s = "".join(rng.choice(lets) for _ in range(rng.randrange(6))).strip()
                return s or ("" if len(fs) > 1 else "v")
            rows = [[cell() for _ in fs] for _ in range(rng.randrange(1, 7))]
            wk = rng.choice([None, rng.sample(fs, rng.randrange(1, len(fs) + 1))])
            if wk is not None and len(wk) == 1:
                rows = [[x or "v" for x in r] for r in rows]
            have = wk or fs
            rk = rng.choice([None, rng.sample(have, rng.randrange(1, len(have) + 1))])
            noise = [[rng.randrange(len(rows) + 2), rng.choice(["", "  ", "# note", "  # a,b", "#"])] for _ in range(rng.randrange(4))]
            yield [fs, rows, wk, rk, sep, noise, rng.random() < .3]

def tab(t):
    Row = collections.namedtuple("Row", t[0])
    return [Row(*r) for r in t[1]]

def check(prop, c):
    if prop == "C32":
        ta, tb, piv, keys, key, q, gone = c
        a, b = tab(ta), tab(tb)
        D = [dict(zip(ta[0], r)) for r in ta[1]]
        E = [dict(zip(tb[0], r)) for r in tb[1]]
        hits = [r for r, d in zip(a, D) if d[key] == q]
        assert list(table.getall(a, key, q)) == hits, "getall"
        assert table.getone(a, key, q) == (hits[0] if hits else None), "getone"
        ix = table.indexby(a, key)
        want = {d[key]: [(k, d[k]) for k in ta[0] if k != key] for d in D}
        assert {k: list(zip(r._fields, r)) for k, r in ix.items()} == want, "indexby"
        new = list(table.addkey(a, "new", lambda row: "".join(row) + "!"))
        assert [list(zip(r._fields, r)) for r in new] == [list(d.items()) + [("new", "".join(d.values()) + "!")] for d in D], "addkey"
        less = list(table.delkeys(a, gone))
        assert [list(zip(r._fields, r)) for r in less] == [[(k, d[k]) for k in ta[0] if k not in gone] for d in D], "delkeys"
        P = piv if piv is not None else [k for k in ta[0] if k in tb[0]]
        out = []
        for d in D:
            m = [e for e in E if all(d.get(k, "") == e.get(k, "") for k in P)]
            out.append(dict(d, **m[0]) if m else d)
        j = table.join(a, b, *([] if piv is None and keys is None else [piv] if keys is None else [piv, keys]))
        K = keys if keys is not None else sorted(set(ta[0]) | set(tb[0]))
        assert len(j) == len(out), "join: %d rows for %d" % (len(j), len(out))
        for r, d in zip(j, out):
            assert (list(r._fields) if keys is not None else sorted(r._fields)) == K, "join: columns %r" % (r._fields,)
            assert r._asdict() == {k: d.get(k, "") for k in K}, "join: %r for %r" % (r, d)
        return
    fs, rows, wk, rk, sep, noise, remark = c
    t = tab([fs, rows])
    D = [dict(zip(fs, r)) for r in rows]
    kw = {} if sep is None else {"sep": sep}
    fd, path = tempfile.mkstemp(suffix=".csv")
    os.close(fd)
    try:
        table.writefile(path, t, *([] if wk is None else [wk]), **kw)
        have = wk or fs
        back = table.readfile(path, **kw)
        assert [list(zip(r._fields, r)) for r in back] == [[(k, d[k]) for k in have] for d in D], "read back %r" % (back,)
        with open(path, encoding="utf8", newline="") as f:
            lines = f.read().split("\n")[:-1]
        if remark:
            lines = [l + " # remark, here" for l in lines]
        for i, x in sorted(noise, reverse=True):
            lines.insert(i, x)
        with open(path, "w", encoding="utf8", newline="") as f:
            f.write("\n".join(lines) + "\n")
        back = table.readfile(path, *([] if rk is None else [rk]), **kw)
        K = rk or have
        assert [list(zip(r._fields, r)) for r in back] == [[(k, d[k]) for k in K] for d in D], "read %r from %r" % (back, lines)
    finally:
        os.unlink(path)
