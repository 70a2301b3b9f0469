"""Concrete oracle of shapefile.Writer and shapefile.Reader: data sets written to and read from a scratch directory or memory."""
import io, os, shutil, struct, tempfile
from coral import shapefile as S

RULE = {
    "C21": "a data set of 5000 points; 0..4 shapes of each type (null shapes among them) with 1..3 parts of 1..5 points (whole, negative and fractional coordinates; closed and open rings; lists and tuples), saved once or after each addition to files or memory, read all at once, by index from either end and by iteration, with and without index and table",
    "C22": "the same data sets as C21; every field of every header and index entry is compared with the layout computed from the shapes",
    "C23": "a table of 65540 records; 0..3 fields of type C and N (sizes 1..254), 0..4 records given by position or by names (some left out) with texts of any characters and numbers that fit; the table is saved once or after each record",
}
HASZ, HASM = (11, 13, 15, 18, 31), (11, 13, 15, 18, 21, 23, 25, 28, 31)
POINTS, MULTIS = (1, 11, 21), (8, 18, 28)
PARTS = (3, 5, 13, 15, 23, 25, 31)
CLOSED = (5, 15, 25, 31)
TYPES = (1, 3, 5, 8, 11, 13, 15, 18, 21, 23, 25, 28, 31)

LIMIT = 40

def gen(prop, rng):
    if prop == "C23":
        yield [[["n", "N", 6, 0]], 65540, False, [65540]]
    else:
        yield [1, 5000, [5000], "files", "lists", True, True]
    while True:
        yield gentable(rng) if prop == "C23" else genshapes(rng)

def num(rng):
    return rng.choice([0, 1, -1, rng.randint(-200, 200), rng.uniform(-200, 200), 1e300, -1e-300, 180, -90])

def genshapes(rng):
    t = rng.choice(TYPES)
    shapes, nulls = [], rng.random() < .2
    for _ in range(rng.choice([0, 1, 1, 2, 3, 4])):
        if nulls and rng.random() < .4:
            shapes.append(None)
            continue
        n = 4 if t in HASZ or t in HASM else rng.choice([2, 2, 3, 4])
        pt = lambda: [num(rng) if i != 3 or rng.random() < .7 else 0 for i in range(n)]
        if t in POINTS:
            shapes.append([[pt()]])
            continue
        parts = []
        for _ in range(rng.choice([1, 1, 2, 3]) if t in PARTS else 1):
            q = [pt() for _ in range(rng.choice([1, 2, 3, 5]))]
            if rng.random() < 0.4:
                q.append(list(q[0]))
            parts.append(q)
        shapes.append(parts)
    if rng.random() < 0.03 and t not in POINTS:
        shapes = [[[[float(i), 1.0, 2.0, 3.0] for i in range(300)]] * (40 if t in PARTS else 1)]
    saves = rng.choice([[len(shapes)], [0, len(shapes)], list(range(len(shapes) + 1)), list(range(1, len(shapes) + 1)) or [0]])
    return [t, shapes, saves, rng.choice(["memory", "files"]), rng.choice(["lists", "tuples", "line", "types"]), rng.random() < .8, rng.random() < .8]

def gentable(rng):
    fields = []
    for i in range(rng.choice([1, 1, 2, 3])):
        name = rng.choice(["n", "NAME", "\u00e9", "_x", "abcdefgh", "ISO-1"]) + str(i)
        if rng.random() < .5:
            fields.append([name, "C", rng.choice([1, 2, 3, 5, 10, 50, 254]), 0])
        else:
            fields.append([name, "N", rng.choice([1, 2, 5, 8, 18, 25]), rng.choice([0, 0, 1, 2, 5])])
    records = []
    byname = rng.random() < .4
    for _ in range(rng.choice([0, 1, 2, 4])):
        row = []
        for name, t, size, dec in fields:
            if byname and len(fields) > 1 and row and rng.random() < .3:
                row.append(None)
            elif t == "C":
                row.append("".join(rng.choice("ab  xyz09\t\n\r\0\x1a\u00e9\u20ac\U0001f600\u3000*") for _ in range(rng.choice([0, 1, 2, size // 2, size, size + 1, size + 5]))))
            else:
                x = rng.choice([0, 1, -1, rng.randint(-10 ** (size - 1) + 1, 10 ** size - 1) if size < 20 and not (dec and size > 15) else 5, 9])
                if dec and rng.random() < .6:
                    x = round(rng.uniform(-1000, 1000), rng.randrange(1, 6))
                row.append(x if len(str(x)) <= size else 7)
        records.append(row)
    saves = rng.choice([[len(records)], [0, len(records)], list(range(len(records) + 1))])
    return [fields, records, byname, saves]

def check(prop, case):
    if prop != "C23" and isinstance(case[1], int):
        case = [case[0], [[[[i / 4, -i]]] for i in range(case[1])]] + list(case[2:])
    d = tempfile.mkdtemp(prefix="shp")
    try:
        return {"C21": shapes, "C22": headers, "C23": table}[prop](os.path.join(d, "x"), case)
    finally:
        shutil.rmtree(d)

def expected(t, parts):
    if parts is None:
        return None, []
    starts, want = [], []
    for q in parts:
        starts.append(len(want))
        q = [list(p) + [0] * (4 - len(p)) for p in q]
        want += q
        if t in CLOSED and q[0] != q[-1]:
            want.append(q[0])
    return starts if t in PARTS else [], want

def write(path, case, index=True, table=True):
    t, shapes, saves, where, how = case[:5]
    if where == "files":
        index = table = True
    w = S.Writer(t)
    files = {"shp": io.BytesIO()}
    if index:
        files["shx"] = io.BytesIO()
    if table:
        files["dbf"] = io.BytesIO()
        w.field("n", "N", 5)
    k = 0
    for upto in saves:
        for parts in shapes[k:upto]:
            if parts is None:
                w.null()
            elif t in POINTS:
                w.point(*parts[0][0])
            elif how == "line" and t not in CLOSED and t in PARTS:
                w.line([[list(p) for p in q] for q in parts])
            elif how == "types" and t == 31:
                w.poly([[list(p) for p in q] for q in parts], shapeType=t, partTypes=[5] * len(parts))
            else:
                w.poly([[tuple(p) if how == "tuples" else list(p) for p in q] for q in parts], shapeType=t)
            if table:
                w.record(k)
            k += 1
        if where == "files":
            w.save(path)
        else:
            w.save(**files)
    if where == "files":
        files = {n: open(path + "." + n, "rb") for n in ("shp", "shx", "dbf")}
        for f in files.values():
            f.read()
    return files, [expected(t, parts) for parts in shapes[:k]]

def nums(xs):
    return [float(x) for x in xs]

def same(s, t, m):
    starts, want = m
    if starts is None:
        t = 0
    if s.shapeType != t:
        return "type %r is read as %r" % (t, s.shapeType)
    if [nums(p) for p in s.points] != [nums(p[:2]) for p in want]:
        return "points %r are read as %r" % (want, s.points)
    if t in PARTS and list(s.parts) != starts:
        return "part starts %r are read as %r" % (starts, s.parts)
    if t in HASZ and nums(getattr(s, "z", [])) != nums(p[2] for p in want):
        return "elevations of %r are read as %r" % (want, getattr(s, "z", None))
    if t in HASM and nums(getattr(s, "m", [])) != nums(p[3] for p in want):
        return "measures of %r are read as %r" % (want, getattr(s, "m", None))

def shapes(path, case):
    t = case[0]
    files, model = write(path, case, *case[5:])
    if case[3] == "files":
        for f in files.values():
            f.close()
        r = S.Reader(path)
    else:
        r = S.Reader(**files)
    try:
        n = len(model)
        for i in list(range(n))[::-1] + list(range(n)):
            e = same(r.shape(i), t, model[i])
            if e:
                return e
        if "dbf" in files:
            for i in range(-n, 0):
                e = same(r.shape(i), t, model[i])
                if e:
                    return e
        every = [r.shapes(), list(r.iterShapes()), r.shapes()]
        if "dbf" in files:
            every.append([x.shape for x in r.shapeRecords()])
        for got in every:
            if len(got) != n:
                return "%d shapes are read as %d" % (n, len(got))
            for s, m in zip(got, model):
                e = same(s, t, m)
                if e:
                    return e
    finally:
        for f in (r.shp, r.shx, r.dbf):
            if f:
                f.close()

def box(pts):
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    return (float(min(xs)), float(min(ys)), float(max(xs)), float(max(ys)))

def span(pts, i):
    return float(min(p[i] for p in pts)), float(max(p[i] for p in pts))

def headers(path, case):
    t = case[0]
    files, model = write(path, case)
    shp, shx, dbf = [files[n].read() if not files[n].seek(0) else b"" for n in ("shp", "shx", "dbf")]
    if struct.unpack("<xxxxLHH", dbf[:12]) != (len(model), 65, 6) or len(dbf) != 65 + 6 * len(model):
        return "table header %r of %d records of 6 bytes" % (struct.unpack("<xxxxLHH", dbf[:12]), len(model))
    for f in files.values():
        f.close()
    pts = [p for s, want in model for p in want]
    for data, what in ((shp, "geometry"), (shx, "index")):
        code, length = struct.unpack(">i20xi", data[:28])
        version, kind, *b = struct.unpack("<2i4d", data[28:68])
        if (code, length * 2, version, kind) != (9994, len(data), 1000, t):
            return "%s header %r of a file of type %d and %d bytes" % (what, (code, length * 2, version, kind), t, len(data))
        if pts and tuple(b) != box(pts):
            return "%s header: box %r instead of %r" % (what, b, box(pts))
        r = struct.unpack("<4d", data[68:100])
        if pts and t in HASZ and r[:2] != span(pts, 2) or pts and t in HASM and r[2:] != span(pts, 3):
            return "%s header: ranges %r of the points %r" % (what, r, pts)
    if len(shx) != 100 + 8 * len(model):
        return "%d bytes of index for %d shapes" % (len(shx), len(model))
    off = 100
    header = t
    for i, (starts, want) in enumerate(model):
        n = len(want)
        t = 0 if starts is None else header
        size = 4 if starts is None else 4 + (32 if t not in POINTS else 0) + (4 + 4 * len(starts or []) if t in PARTS else 0) + (4 if t in PARTS + MULTIS else 0)
        size += 4 * len(starts or []) * (t == 31) + 16 * n + ((16 if t not in POINTS else 0) + 8 * n) * ((t in HASZ) + (t in HASM))
        head = struct.unpack(">2i", shp[off:off + 8])
        if head != (i + 1, size // 2):
            return "record header %r of record %d of %d words" % (head, i + 1, size // 2)
        if struct.unpack(">2i", shx[100 + 8 * i:108 + 8 * i]) != (off // 2, size // 2):
            return "index entry %r of a record at %d of %d words" % (struct.unpack(">2i", shx[100 + 8 * i:108 + 8 * i]), off // 2, size // 2)
        if struct.unpack("<i", shp[off + 8:off + 12]) != (t,):
            return "record of type %r instead of %r" % (struct.unpack("<i", shp[off + 8:off + 12]), t)
        end = off + 8 + size - (16 + 8 * n) * (t in HASM)
        if t not in POINTS and (t in HASM and struct.unpack("<2d", shp[end:end + 16]) != span(want, 3) or t in HASZ and struct.unpack("<2d", shp[end - 16 - 8 * n:end - 8 * n]) != span(want, 2)):
            return "ranges of a record of the points %r" % (want,)
        if t not in POINTS + (0,) and struct.unpack("<4d", shp[off + 12:off + 44]) != box(want):
            return "record box %r instead of %r" % (struct.unpack("<4d", shp[off + 12:off + 44]), box(want))
        off += 8 + size
    if off != len(shp):
        return "records end at %d of %d" % (off, len(shp))

def cut(x, size):
    while len(x.encode()) > size:
        x = x[:-1]
    return x.strip()

def table(path, case):
    fields, records, byname, saves = case
    if isinstance(records, int):
        records = [[i % 1000] for i in range(records)]
    w = S.Writer(1)
    for f in fields:
        w.field(*f)
    f = io.BytesIO()
    k = 0
    for upto in saves:
        for row in records[k:upto]:
            if byname:
                w.record(**{fd[0]: x for fd, x in zip(fields, row) if x is not None})
            else:
                w.record(*row)
            k += 1
        w.saveDbf(f)
    data = f.getvalue()
    size = 1 + sum(fd[2] for fd in fields)
    if struct.unpack("<xxxxLHH", data[:12]) != (len(records), 33 + 32 * len(fields), size):
        return "table header %r" % (struct.unpack("<xxxxLHH", data[:12]),)
    if len(data) != 33 + 32 * len(fields) + len(records) * size:
        return "%d bytes for %d records of %d" % (len(data), len(records), size)
    r = S.Reader(dbf=f)
    if [list(x) for x in r.fields[1:]] != fields:
        return "fields %r are read as %r" % (fields, r.fields)
    want = [["" if x is None else cut(x, fd[2]) if fd[1] == "C" else x for fd, x in zip(fields, row)] for row in records]
    n = len(want)
    for got in (r.records(), list(r.iterRecords()), [r.record(i) for i in range(n)][::-1][::-1], [r.record(i - n) for i in range(n)]):
        if got != want:
            return "records %.300r are read as %.300r" % (want, got) if n <= 9 else "%d records are read as %d, or others" % (n, len(got))
