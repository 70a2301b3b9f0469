"""Contracts of shapefile.Writer and shapefile.Reader (C21, C22, C23): whole data sets, written to files in memory
and read back, with unknown coordinates and values; the numbers of shapes, parts and points are enumerated."""
from pyvc.facade import *
from pyvc.values import StrV
from pyvc import files
from pyvc import builtins_ as BI

NULL, POINT, LINE, POLYGON, MULTI = 0, 1, 3, 5, 8
HASZ, HASM = (11, 13, 15, 18, 31), (11, 13, 15, 18, 21, 23, 25, 28, 31)
POINTS, MULTIS = (1, 11, 21), (8, 18, 28)
PARTS = (3, 5, 13, 15, 23, 25, 31)
CLOSED = (5, 15, 25, 31)
NAMES = {0: "null", 1: "points", 3: "polylines", 5: "polygons", 8: "multipoints", 11: "points Z", 13: "polylines Z", 15: "polygons Z",
         18: "multipoints Z", 21: "points M", 23: "polylines M", 25: "polygons M", 28: "multipoints M", 31: "multipatches"}

def memfile(v):
    return files.new_file(v.it, files.new_node(v.it), 'bytes')

def coord(v, name):
    return v.real(name)

def mkpoint(v, t, name):
    n = 4 if t in HASZ else 4 if t in HASM else 2
    return [coord(v, "%s%s" % (c, name)) for c in "xyzm"[:n]]

def add(v, w, t, k, lens, model, how="poly"):
    """Adds shape k and says what it should read as: (parts, points)."""
    if t == NULL or lens is None:
        v.meth(w, 'null')
        model.append((None, []))
    elif t in POINTS:
        p = mkpoint(v, t, "%d" % k)
        v.meth(w, 'point', *p)
        model.append(([], [p + [0] * (4 - len(p))]))
    else:
        parts = [[mkpoint(v, t, "%d_%d_%d" % (k, i, j)) for j in range(n)] for i, n in enumerate(lens)]
        arg = v.list([v.list([v.list(list(p)) for p in q]) for q in parts])
        if how == "line":
            v.meth(w, 'line', arg)
        elif how == "given":
            v.meth(w, 'poly', arg, shapeType=t, partTypes=v.list([5] * len(parts)))
        else:
            v.meth(w, 'poly', arg if how != "tuples" else v.list([v.list([tuple(p) for p in q]) for q in parts]), shapeType=t)
        want, starts = [], []
        for q in parts:
            starts.append(len(want))
            want += [p + [0] * (4 - len(p)) for p in q]
            if t in CLOSED and not v.case(And(*[a == b for a, b in zip(q[0], q[-1])])):
                want.append(q[0] + [0] * (4 - len(q[0])))
        model.append((starts, want))

def content(x):
    return x.content if isinstance(x, PList) else x

def numbers(x, n):
    c = content(x)
    return list(c) if isinstance(c, (list, tuple)) and len(c) == n else None

def checkshape(v, s, t, m, pts=None):
    """The shape is the one of the model."""
    starts, want = m
    if starts is None:
        t = NULL
    v.prove("the shape's type", isinstance(s, PObj) and v.attr(s, 'shapeType') == t)
    if not isinstance(s, PObj):
        raise PathEnd("shape")
    got = numbers(v.attr(s, 'points'), len(want))
    v.prove("the shape's number of points", got is not None)
    if got is None:
        raise PathEnd("points")
    for a, b in zip(got, want):
        c = numbers(a, 2)
        v.prove("two coordinates for each point", c is not None)
        if c is not None:
            v.prove("the coordinates of each point, in order", And(R(c[0]) == R(b[0]), R(c[1]) == R(b[1])))
    if t in PARTS:
        c = numbers(v.attr(s, 'parts'), len(starts))
        v.prove("the part starts", c is not None and all(a == b for a, b in zip(c, starts)))
    for name, types, i in (("z", HASZ, 2), ("m", HASM, 3)):
        if t in types:
            c = numbers(v.attr(s, name), len(want)) if name in s.fields else None
            v.prove("%s for each point" % ("an elevation" if name == "z" else "a measure"), c is not None and None not in c)
            if c is not None and None not in c:
                v.prove("%s, in order" % ("elevations" if name == "z" else "measures"), And(*[R(a) == R(b[i]) for a, b in zip(c, want)]))

def writer(v, t):
    return v.call('shapefile.Writer', t)

def reals(v, t, model):
    """Measures below -10e38 stand for no measure."""
    for starts, want in model:
        for p in want:
            if t in HASM and isz(p[3]):
                v.assume(p[3] > -10 ** 39)

def u_shapes(v, t, lens, saves, how="poly", index=True, table=True):
    """Shapes are added and saved (again after each of the numbers in saves); reading gives them back."""
    w = writer(v, t)
    model, k = [], 0
    shp, shx, dbf = memfile(v), memfile(v) if index else None, memfile(v) if table else None
    path = how == "path"
    if table:
        v.meth(w, 'field', "n", "N", 8, 0)
    for upto in saves:
        while k < upto:
            add(v, w, t, k, lens[k], model, how)
            if table:
                v.meth(w, 'record', k)
            k += 1
        kw = {n: f for n, f in (("shp", shp), ("shx", shx), ("dbf", dbf)) if f is not None}
        if path:
            v.meth(w, 'save', "x")
        else:
            v.meth(w, 'save', **kw)
    reals(v, t, model)
    n = len(model)
    r = v.call('shapefile.Reader', "x") if path else v.call('shapefile.Reader', **kw)
    ops = [("all",)] + [("index", i) for i in range(n)[::-1]] + [("iterate",)] + [("index", i) for i in range(n)]
    if table:
        ops += [("index", i - n) for i in range(n)]
        ops += [("both",)]
    for op in ops:
        if op[0] == "all":
            got = content(v.meth(r, 'shapes'))
        elif op[0] == "iterate":
            got = listof(v, v.meth(r, 'iterShapes'))
        elif op[0] == "both":
            got = content(v.meth(r, 'shapeRecords'))
            if isinstance(got, list):
                got = [v.attr(x, 'shape') for x in got]
        else:
            got = v.meth(r, 'shape', op[1])
            checkshape(v, got, t, model[op[1]])
            continue
        ok = isinstance(got, list) and len(got) == n
        v.prove("as many shapes as were written", bool(ok))
        if not ok:
            raise PathEnd("shapes")
        for s, m in zip(got, model):
            checkshape(v, s, t, m)
    v.reach("end")

def listof(v, x):
    l = v.call(v.builtin('list'), x)
    return l.content

# ---- C22: what the headers say
def at(v, f, off, code):
    """The value at a place of the file."""
    data = files.contents(v.it, f)
    _, rest = files.cut(v.it, list(data), off)
    got, _ = files.cut(v.it, rest, sum(n * files.SIZES[c[-1]] if c != 's' else n for c, n in files.parse_fmt(v.it, code)[1]))
    r = files.struct_op(v.it, 'unpack', [code, BI.join_pieces(v.it, got, 'bytes')])
    return r[0] if len(r) == 1 else r

def isbox(v, what, got, pts):
    v.prove(what, And(*[extreme(g, [R(p[i]) for p in pts], sign) for g, (i, sign) in zip(got, ((0, 1), (1, 1), (0, -1), (1, -1)))]))

def extreme(g, xs, sign):
    g = R(g)
    return And(Or(*[g == x for x in xs]), *[(g <= x if sign > 0 else g >= x) for x in xs])

def ranges(v, what, t, got, pts):
    for types, g, name, i in ((HASZ, got[:2], "elevations", 2), (HASM, got[2:], "measures", 3)):
        if t in types and g and g[0] is not None:
            v.prove("%sthe true range of %s" % (what, name), And(*[extreme(x, [R(p[i]) for p in pts], sign) for x, sign in zip(g, (1, -1))]))

def u_headers(v, t, lens, saves, how="poly"):
    w = writer(v, t)
    model, k = [], 0
    shp, shx = memfile(v), memfile(v)
    for upto in saves:
        while k < upto:
            add(v, w, t, k, lens[k], model, how)
            k += 1
        v.meth(w, 'save', shp=shp, shx=shx)
    pts = [p for s, want in model for p in want]
    for f, what in ((shp, "geometry"), (shx, "index")):
        size = conc(files.size_of(v.it, f))
        v.prove("the %s file has a header" % what, not isz(size) and size >= 100)
        if isz(size) or size < 100:
            raise PathEnd("size")
        v.prove("%s: the file code" % what, at(v, f, 0, ">i") == 9994)
        v.prove("%s: the true file length in 16-bit words" % what, n_cmp('==', n_mul(at(v, f, 24, ">i"), 2), size))
        v.prove("%s: version and shape type" % what, at(v, f, 28, "<i") == 1000 and at(v, f, 32, "<i") == t)
        box = at(v, f, 36, "<4d")
        if pts:
            isbox(v, "%s: the true bounding box" % what, box, pts)
            ranges(v, "%s: " % what, t, at(v, f, 68, "<4d"), pts)
    v.prove("the index has one entry per shape", conc(files.size_of(v.it, shx)) == 100 + 8 * len(model))
    size = conc(files.size_of(v.it, shp))
    off = 100
    for i, (starts, want) in enumerate(model):
        v.prove("records follow one another to the end", off + 12 <= size)
        if off + 12 > size:
            raise PathEnd("record")
        v.prove("the true record numbers", at(v, shp, off, ">i") == i + 1)
        n, kind = len(want), t if starts is not None else NULL
        words = 2 if kind == NULL else (4 + (32 if t not in POINTS + (NULL,) else 0) + (4 + 4 * len(starts) if t in PARTS else 0) + (4 if t in PARTS + MULTIS else 0)
                 + (4 * len(starts) if t == 31 else 0) + 16 * n
                 + ((16 if t not in POINTS else 0) + 8 * n) * ((t in HASZ) + (t in HASM))) // 2
        v.prove("the true content lengths", at(v, shp, off + 4, ">i") == words)
        v.prove("the record's shape type", at(v, shp, off + 8, "<i") == kind)
        if kind not in POINTS + (NULL,):
            isbox(v, "the true bounding box of the record", at(v, shp, off + 12, "<4d"), want)
            end = off + 8 + 2 * words - (16 + 8 * n) * (t in HASM)
            if t in HASZ:
                ranges(v, "the record's: ", t, list(at(v, shp, end - 16 - 8 * n, "<2d")) + [], want)
            if t in HASM:
                ranges(v, "the record's: ", t, [None, None] + list(at(v, shp, end, "<2d")), want)
        if conc(files.size_of(v.it, shx)) >= 108 + 8 * i:
            v.prove("the index has the true offsets", at(v, shx, 100 + 8 * i, ">i") * 2 == off)
            v.prove("the index has the true content lengths", at(v, shx, 104 + 8 * i, ">i") == words)
        off += 8 + 2 * words
    v.prove("records follow one another to the end", off == size)
    v.reach("end")

SHAPES = [([], [0]), ([[1]], [1]), ([[2]], [0, 1]), ([[1, 2], [3]], [2]), ([[1], [2, 1], [1]], [1, 2, 3]),
          ([None], [1]), ([[2], None], [1, 2]), ([None, [1, 1]], [2])]

def lens_for(t, lens):
    return [l if t in PARTS or l is None else l[:1] for l in lens]

def label(t, lens, saves):
    pts = ", null shapes %s" % [l is None for l in lens] if t in POINTS and None in lens else "" if t in POINTS + (NULL,) else ", points per part %r" % (lens,)
    return "%s (bounded: %d shapes%s, saved with %s)" % (NAMES[t], len(lens), pts.replace("None", "null shape"), ", ".join(map(str, saves)))

def units(prop):
    us = []
    def U(n, f, reach, **kw):
        u = Unit(prop + "." + n, f, **kw)
        u.must_reach = reach
        us.append(u)
    if prop == "C23":
        table_units(U)
    else:
        if prop == "C22":
            for types, rows, saves in (([NUM], [], [0]), ([TEXT], [["text"]], [1]), ([NUM, TEXT, ("k", "N")], [["int", "=a", "int"], [5, "=b", 6]], [1, 2])):
                U("table header (bounded: fields %s, %d records, saved with %s)" % (", ".join("%s %s" % x for x in types), len(rows), ", ".join(map(str, saves))), lambda v, t=types, r=rows, s=saves: u_table(v, t, r, "positions", s, True), ["end"])
            for types in ([NUM], [TEXT, NUM]):
                U("table header for any number of records (bounded: %d fields)" % len(types), lambda v, t=types: u_count(v, t), ["end"])
        for t in NAMES:
            for lens, saves in SHAPES:
                l = lens_for(t, lens)
                if t == NULL and (saves[0] == 0 or None in lens):
                    continue                # a writer of null shapes takes its type from its first shape
                if prop == "C21":
                    for index, table in ((True, True), (False, False), (True, False)):
                        if not (index and table) and saves[-1] > 1 and len(lens) > 2:
                            continue
                        U(label(t, l, saves) + ("" if index and table else ", no table" if index else ", no index or table"), lambda v, t=t, l=l, s=saves, i=index, d=table: u_shapes(v, t, l, s, "poly", i, d), ["end"])
                else:
                    U(label(t, l, saves), lambda v, t=t, l=l, s=saves: u_headers(v, t, l, s), ["end"])
        two = [[1, 2], [2]]
        for t, how in ((3, "line"), (13, "line"), (31, "given"), (5, "tuples"), (18, "tuples"), (1, "path"), (15, "path")):
            l = lens_for(t, two)
            if prop == "C21":
                U(label(t, l, [1, 2]) + ", " + how, lambda v, t=t, l=l, h=how: u_shapes(v, t, l, [1, 2], h), ["end"])
            elif how != "path":
                U(label(t, l, [1, 2]) + ", " + how, lambda v, t=t, l=l, h=how: u_headers(v, t, l, [1, 2], h), ["end"])
    return us

# ---- C23: tables
def mkvalue(v, kind, f, i):
    """A value of the field and what it reads as."""
    name = "v%d_%s" % (i, f['name'])
    if kind in ("absent", "none"):
        return None, ""
    if not isinstance(kind, str) or kind.startswith("="):
        return (kind, kind) if not isinstance(kind, str) else (kind[1:], kind[1:].strip())
    if f['type'] == "N":
        x = v.int(name) if kind == "int" else v.real(name)
        if kind == "real":
            v.assume(f['decimals'] > 0)
        return x, x
    x = v.str(name)
    return x, x

def fits(v, x, size):
    """The number has at most so many digits."""
    v.assume(Z(files.rope_len(v.it, Rope('str', [('fmt', x, '')]))) <= size)

def cuttext(v, x, size):
    """The text, cut to the size in bytes but not within a character, without the blanks at its ends."""
    it = v.it
    L = files.enclen(it, ('sv', x), 'utf-8')
    if v.case(Z(L) > size):
        x, _ = files.whole_characters(it, ('encpre', x, 'utf-8', size))
    return x

def sametext(v, got, x, size):
    x = cuttext(v, x, size)
    want = files.m_rope_strip(v.it, x)
    return v.truth(v.it.BI.eq(v.it, got, want))

def u_table(v, types, rows, how, saves=None, header=False):
    saves = saves or [len(rows)]
    w = v.call('shapefile.Writer', 1)
    fields = []
    for j, (name, t) in enumerate(types):
        size, dec = v.int("size_%s" % name, 1, 255), v.int("decimals_%s" % name, 0, 255)
        fields.append({'name': name, 'type': t, 'size': size, 'decimals': dec})
        v.meth(w, 'field', name, t, size, dec)
    f = memfile(v)
    model = []
    i = 0
    for upto in saves:
        while i < upto:
            row = [mkvalue(v, k, fd, i) for k, fd in zip(rows[i], fields)]
            for (x, y), fd in zip(row, fields):
                if fd['type'] == "N" and isz(x):
                    fits(v, x, fd['size'])
                elif x is not None and not isinstance(x, StrV):
                    v.assume(fd['size'] >= len(str(x).encode()))
            if how == "names":
                given = [j for j in range(len(fields)) if rows[i][j] != "absent"]
                v.meth(w, 'record', **{fields[j]['name']: row[j][0] for j in given[::-1]})
            else:
                v.meth(w, 'record', *[x for x, y in row])
            model.append(row)
            i += 1
        v.meth(w, 'saveDbf', f)
    n = len(model)
    v.prove("the header's number of records", at(v, f, 4, "<L") == n)
    v.prove("the header's length", at(v, f, 8, "<H") == 33 + 32 * len(fields))
    v.prove("the header's record length", at(v, f, 10, "<H") == 1 + sum([fd['size'] for fd in fields], 0))
    v.prove("the records fill the file", n_cmp('==', files.size_of(v.it, f), n_add(33 + 32 * len(fields), n_mul(n, n_add(1, sum([fd['size'] for fd in fields], 0))))))
    if header:
        return v.reach("end")
    r = v.call('shapefile.Reader', dbf=f)
    got = content(v.attr(r, 'fields'))
    ok = isinstance(got, list) and len(got) == len(fields) + 1
    v.prove("the same fields", bool(ok))
    if not ok:
        raise PathEnd("fields")
    for a, fd in zip(got[1:], fields):
        c = numbers(a, 4)
        v.prove("the fields' names and types", c is not None and c[0] == fd['name'] and c[1] == fd['type'])
        if c is not None:
            v.prove("the fields' sizes and decimals", And(Z(c[2]) == fd['size'], Z(c[3]) == fd['decimals']))
    for op in ["all", "iterate"] + list(range(n))[::-1] + [i - n for i in range(n)]:
        if op in ("all", "iterate"):
            got = content(v.meth(r, 'records')) if op == "all" else listof(v, v.meth(r, 'iterRecords'))
            ok = isinstance(got, list) and len(got) == n
            v.prove("as many records as were written", bool(ok))
            if not ok:
                raise PathEnd("records")
            pairs = list(zip(got, model))
        else:
            pairs = [(v.meth(r, 'record', op), model[op])]
        for a, row in pairs:
            c = numbers(a, len(fields))
            v.prove("a value for each field", c is not None)
            if c is None:
                raise PathEnd("values")
            for x, (y, want), fd in zip(c, row, fields):
                if isinstance(want, str):
                    v.prove("text" if fd['type'] == "C" else "no number", isinstance(x, str) and x == want)
                elif fd['type'] == "N":
                    v.prove("numbers as numbers", is_num(x) and R(x) == R(want))
                else:
                    v.prove("text, cut to the field's size and stripped", isinstance(x, (str, StrV, Rope)) and BI.kind_of(x) == 'str' and sametext(v, x, want, fd['size']))
    v.reach("end")

NUM, TEXT = ("n", "N"), ("TEXT", "C")
TABLES = [
    ([NUM], [], "positions"), ([NUM], [["int"]], "positions"), ([NUM], [["real"]], "positions"), ([NUM], [["int"], ["int"]], "positions"), ([NUM], [[0], [-12], ["int"]], "positions"),
    ([TEXT], [], "positions"), ([TEXT], [["text"]], "positions"), ([TEXT], [["text"], ["text"]], "positions"), ([TEXT], [["="], ["=a "], ["=\u00e9 \x00"]], "positions"),
    ([("NAME_10CHR", "C"), NUM], [["text", "int"]], "positions"), ([("NAME_10CHR", "C"), NUM], [["text", "real"]], "positions"), ([TEXT, NUM], [["text", 7], ["=x", -7]], "positions"),
    ([TEXT, ("\u00e9", "C")], [["text", "text"]], "positions"), ([NUM, TEXT, ("k", "N")], [["int", "=", "int"]], "positions"),
    ([TEXT, NUM], [["text", "int"]], "names"), ([TEXT, NUM], [["text", "absent"], ["=x", 1]], "names"), ([TEXT, NUM], [["absent", "int"], ["=x", 1]], "names"), ([NUM, TEXT], [["none", "text"], [0, "none"]], "names"),
]

def table_units(U):
    for types, rows, how in TABLES:
        U("table (bounded: fields %s, rows %r by %s)" % (", ".join("%s %s" % x for x in types), rows, how), lambda v, t=types, r=rows, h=how: u_table(v, t, r, h), ["end"])
    for types in ([NUM], [TEXT, NUM]):
        U("header for any number of records (bounded: %d fields)" % len(types), lambda v, t=types: u_count(v, t), ["end"])
    for types, sizes in (([NUM], [7]), ([TEXT], [5]), ([TEXT, NUM], [4, 6])):
        U("record by index among any number (bounded: %d fields of sizes %s)" % (len(types), sizes), lambda v, t=types, s=sizes: u_count(v, t, s), ["end"])
    for saves in ([0, 1], [1, 2]):
        U("table saved again with %s rows (bounded)" % " and ".join(map(str, saves)), lambda v, s=saves: u_table(v, [NUM, TEXT], [["int", "text"], [5, "=b"]][:s[-1]], "positions", s), ["end"])

def u_count(v, types, sizes=None):
    """The header, as written and as read, of any number of records; with sizes, a record by index among any number."""
    w = v.call('shapefile.Writer', 1)
    it = v.it
    if not hasattr_(v, w, '_Writer__dbfHeader'):
        return v.reach("end")               # the part of the writer has another name: the bounded units decide
    fields = []
    for j, (name, t) in enumerate(types):
        size, dec = sizes[j] if sizes else v.int("size_%s" % name, 1, 255), 0 if sizes else v.int("decimals_%s" % name, 0, 255)
        fields.append({'name': name, 'type': t, 'size': size, 'decimals': dec})
        v.meth(w, 'field', name, t, size, dec)
    n = v.int("records", 1 if sizes else 0, 2 ** 32 - 1)
    f = memfile(v)
    if sizes:
        # what the writer writes for one record, amid the room of the others
        row = [mkvalue(v, "int" if t == "N" else "text", fd, 0) for (_, t), fd in zip(types, fields)]
        for (x, y), fd in zip(row, fields):
            if fd['type'] == "N":
                fits(v, x, fd['size'])
        v.meth(w, 'record', *[x for x, y in row])
        v.meth(w, 'saveDbf', f)
        head, one = files.cut(it, files.contents(it, f), 33 + 32 * len(fields))
    it.setcontent(v.attr(w, 'records'), SSeq(n, lambda i: it.newlist([0] * len(types))))
    f = memfile(v)
    it.setattr(w, 'dbf', f)
    v.meth(w, '_Writer__dbfHeader')
    total = sum([fd['size'] for fd in fields], 0)
    v.prove("the header's number of records", at(v, f, 4, "<L") == n)
    v.prove("the header's length", at(v, f, 8, "<H") == 33 + 32 * len(types))
    v.prove("the header's record length", at(v, f, 10, "<H") == 1 + total)
    if sizes:
        k = v.int("index", 0)
        v.assume(k < n)
        room = lambda c: ('rep', (1 + total) * c, lambda i: [b" "])
        it.setcontent(f.fields['node'], list(files.contents(it, f)) + [room(k)] + list(one) + [room(n - k - 1)])
    r = v.call('shapefile.Reader', dbf=f)
    v.prove("the number of records read", Z(v.attr(r, 'numRecords')) == n)
    if sizes:
        for i in (k, k - n):
            c = numbers(v.meth(r, 'record', i), len(fields))
            v.prove("a value for each field", c is not None)
            if c is not None:
                for x, (y, want), fd in zip(c, row, fields):
                    if fd['type'] == "N":
                        v.prove("numbers as numbers", is_num(x) and R(x) == R(want))
                    else:
                        v.prove("text, cut to the field's size and stripped", isinstance(x, (str, StrV, Rope)) and BI.kind_of(x) == 'str' and sametext(v, x, want, fd['size']))
    v.reach("end")

def hasattr_(v, o, name):
    try:
        v.attr(o, name)
        return True
    except PyRaise:
        return False
