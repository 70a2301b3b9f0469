"""Symbolic strings (ropes), struct, codecs and files.

A rope is a list of pieces: literals and
  ('pk', code, v)     bytes of one struct value; code is e.g. '<i', '>H', 'B'
  ('seq', sq)         a run of code units (bytes or characters), an SSeq of integers
  ('sv', StrV)        an unknown string
  ('enc', rope, c)    its encoding
  ('fmt', v, spec)    a formatted value
  ('rep', n, fn)      repetition
"""
from .values import *
from .core import *
from .interp import raise_, SSeqOf
from . import builtins_ as BI

SIZES = {'x': 1, 'c': 1, 'b': 1, 'B': 1, '?': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'f': 4, 'd': 8}
CODECS = {"ascii": "ascii", "us-ascii": "ascii", "utf8": "utf-8", "utf-8": "utf-8", "latin1": "latin-1", "latin-1": "latin-1", "iso-8859-1": "latin-1"}

def codec(c):
    c = str(c).lower()
    if c not in CODECS:
        raise Unsupported("codec %s" % c)
    return CODECS[c]

# ---------------------------------------------------------------- pieces
def plen(it, p):
    if isinstance(p, (str, bytes)):
        return len(p)
    k = p[0]
    if k == 'pk':
        return SIZES[p[1][-1]]
    if k == 'seq':
        return p[1].n
    if k == 'rep':
        one = p[2](z3.IntVal(0))
        n = 0
        for q in one:
            n = n_add(n, plen(it, q))
        return n_mul(n, p[1])
    if k == 'sv':
        t = BI.uf("strlen", StrV.SORT, z3.IntSort())(p[1].term)
        it.p.fact(t >= 0)
        return t
    if k == 'enc':
        if p[2] in ('ascii', 'latin-1'):
            return rope_len(it, p[1])
        return sumlen(it, [enclen(it, q, p[2]) for q in BI.pieces_of(p[1])])
    if k == 'fmt':
        t = fmtlen(it, p)
        return t
    if k == 'encpre':
        return p[3]
    if k in ('json', 'lines', 'vlv'):
        memo = it.p.__dict__.setdefault('piecelen', {})
        if id(p) not in memo:
            n = it.p.int("length")
            it.p.fact(n >= (0 if k == 'lines' else 1))
            if k == 'lines':
                it.p.fact((Z(p[1]) <= 0) == (n == 0))
            memo[id(p)] = p, n
        return memo[id(p)][1]
    raise Unsupported("length of %r" % (p,))

def sumlen(it, ls):
    n = 0
    for x in ls:
        n = n_add(n, x)
    return n

def enclen(it, q, c):
    if isinstance(q, str):
        return len(q.encode(c))
    if q[0] == 'sv':
        t = BI.uf("enclen_" + c, StrV.SORT, z3.IntSort())(q[1].term)
        L = plen(it, q)
        it.p.fact(z3.And(t >= Z(L), t <= 4 * Z(L)))
        return t
    if q[0] == 'fmt':
        return plen(it, q)
    raise Unsupported("encoded length of %r" % (q,))

def fmtlen(it, p):
    v, spec = p[1], p[2]
    if is_num(v):
        t = BI.m("fmtlen_" + spec, R(v))
        n = z3.ToInt(t)
        it.p.fact(n >= 1)
        return n
    raise Unsupported("length of a formatted value")

def rope_len(it, v):
    n = sumlen(it, [plen(it, p) for p in BI.pieces_of(v)])
    return conc(n) if isz(n) else n

def bytes_of_pk(it, code, v):
    """Byte terms of a packed integer."""
    size = SIZES[code[-1]]
    if code[-1] in 'fd':
        raise Unsupported("bytes of a packed float")
    out = []
    for k in range(size):
        if isz(v):
            q = Z(v) / (1 << 8 * k) if k else Z(v)
            out.append(q % 256 if size > 1 or code[-1] == 'b' else q)
        else:
            out.append((int(v) >> 8 * k) & 255)
    if code[0] in '>!':
        out.reverse()
    return out

def codes(it, v, kind=None):
    """Code units of a string value, as an SSeq of integers (host list content where finite)."""
    r = []
    for p in BI.pieces_of(v):
        if isinstance(p, str):
            r = BI.seq_concat(it, r, [ord(c) for c in p])
        elif isinstance(p, bytes):
            r = BI.seq_concat(it, r, list(p))
        elif p[0] == 'pk':
            r = BI.seq_concat(it, r, bytes_of_pk(it, p[1], p[2]))
        elif p[0] == 'seq':
            n = conc(p[1].n)
            if not isz(n) and n <= 64:
                r = BI.seq_concat(it, r, [p[1].get(z3.IntVal(i)) for i in range(n)])
            else:
                r = BI.seq_concat(it, r, p[1])
        elif p[0] == 'rep' and all(isinstance(q, (str, bytes)) and len(q) == 1 for q in p[2](z3.IntVal(0))) and len(p[2](z3.IntVal(0))) == 1:
            c = p[2](z3.IntVal(0))[0]
            c = ord(c)
            r = BI.seq_concat(it, r, SSeq(Z(p[1]), lambda i, c=c: z3.IntVal(c)))
        elif p[0] == 'fmt' and p[2] in ('%x', '%X', 'x', 'X', '%d', 'd', '') and is_num(p[1]) and is_int(p[1]) and \
                it.p.holds(z3.And(Z(p[1]) >= 0, Z(p[1]) <= (15 if p[2][-1:] in ('x', 'X') and p[2] else 9))):
            # one digit
            a = 55 if p[2][-1:] == 'X' else 87
            r = BI.seq_concat(it, r, [z3.If(Z(p[1]) < 10, Z(p[1]) + 48, Z(p[1]) + a)])
        else:
            raise Unsupported("code units of %r" % (p,))
    return r

def from_codes(it, c, kind):
    if isinstance(c, list):
        if all(not isz(conc(x)) for x in c):
            c = [conc(x) for x in c]
            return bytes(c) if kind == 'bytes' else "".join(map(chr, c))
        c = SSeqOf(it, c)
    return Rope(kind, [('seq', c)])

def same_piece(it, a, b):
    """Are the pieces equal?  True, False, a formula, or None when not comparable piece by piece."""
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        return a == b if len(a) == len(b) else None
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a[0] != b[0]:
        return None
    if a[0] == 'pk' and a[1] == b[1]:
        return B(BI.truth(it, BI.eq(it, a[2], b[2])))
    if a[0] == 'sv':
        return a[1].term == b[1].term
    if a[0] == 'enc' and a[2] == b[2]:
        return rope_eq(it, a[1], b[1])
    if a[0] == 'fmt' and a[2] == b[2] and is_num(a[1]) and is_num(b[1]):
        return n_cmp('==', a[1], b[1])
    if a[0] == 'rep' and a[2](z3.IntVal(0)) == b[2](z3.IntVal(0)):
        return n_cmp('==', a[1], b[1])
    return None

def only_byte(p):
    """The byte value all code units of the piece have, or None."""
    if isinstance(p, tuple) and p[0] == 'rep':
        q = p[2](z3.IntVal(0))
        q = b''.join(q) if all(isinstance(x, bytes) for x in q) else None
    else:
        q = p
    return q[0] if isinstance(q, bytes) and q and len(set(q)) == 1 else None

def never_byte(p, b):
    """No code unit of the piece has the byte value."""
    if isinstance(p, bytes):
        return b not in p
    if p[0] == 'enc':
        return p[2] == 'utf-8' and b in (0xc0, 0xc1, 0xf5, 0xfe, 0xff) or p[2] == 'ascii' and b > 127
    return p[0] == 'rep' and all(isinstance(q, bytes) and b not in q for q in p[2](z3.IntVal(0)))

def rope_eq(it, a, b):
    if BI.kind_of(a) != BI.kind_of(b):
        return False
    if BI.kind_of(a) == 'bytes':
        for x, y in ((BI.pieces_of(a), BI.pieces_of(b)), (BI.pieces_of(b), BI.pieces_of(a))):
            bs = set(only_byte(q) for q in x)
            if len(bs) == 1 and None not in bs and all(never_byte(q, min(bs)) for q in y):
                return conc(land(n_cmp('==', rope_len(it, a), 0), n_cmp('==', rope_len(it, b), 0)))
    pa, pb = BI.pieces_of(a), BI.pieces_of(b)
    pa, pb = [p for p in pa if p not in ("", b"")], [p for p in pb if p not in ("", b"")]
    if len(pa) == len(pb):
        rs = [same_piece(it, x, y) for x, y in zip(pa, pb)]
        rs = [conc(z3.simplify(r)) if isz(r) else r for r in rs]
        rs = [True if isz(r) and z3.is_true(r) else r for r in rs]
        while rs and rs[-1] is True:               # a common end
            rs.pop()
        while rs and rs[0] is True:                # a common beginning
            rs.pop(0)
        if all(r is not None for r in rs) and (len(rs) <= 1 or all(r is True for r in rs) or all(not isz(conc(plen(it, x))) for x in pa)):
            return conc(land(*rs)) if rs else True
    la, lb = rope_len(it, a), rope_len(it, b)
    q = n_cmp('==', la, lb)
    if q is False or isz(q) and it.p.quick(q) is False:
        return False
    try:
        ca, cb = codes(it, a), codes(it, b)
    except Unsupported:
        if isinstance(a, (str, bytes)) and not a or isinstance(b, (str, bytes)) and not b:
            return conc(q)
        t = BI.uf("rope_eq", z3.IntSort(), z3.IntSort(), z3.BoolSort())
        raise
    if isinstance(ca, list) and isinstance(cb, list):
        return conc(land(*[B(BI.truth(it, BI.eq(it, x, y))) for x, y in zip(ca, cb)])) if ca else True
    for x, y in ((ca, cb), (cb, ca)):
        if isinstance(x, list) and len(x) <= 64:
            return land(n_cmp('==', len(x), y.n), *[n_cmp('==', e, y.get(z3.IntVal(i))) for i, e in enumerate(x)])
    return BI.eq(it, it.newlist(ca), it.newlist(cb))

def rope_same(it, a, b):
    return rope_eq(it, a, b)

def split_piece(it, p, n):
    """(first n units, rest) of one piece, 0 < n < len."""
    n = conc(n)
    if isinstance(p, (str, bytes)):
        if isz(n):
            n = it.concretize(n, 0, len(p))
        return p[:n], p[n:]
    if p[0] == 'seq':
        return ('seq', BI.seq_slice(it, p[1], 0, n)), ('seq', BI.seq_slice(it, p[1], n, p[1].n))
    if p[0] == 'pk':
        bs = bytes_of_pk(it, p[1], p[2])
        if isz(n):
            n = it.concretize(n, 0, len(bs))
        return ('seq', SSeqOf(it, bs[:n])), ('seq', SSeqOf(it, bs[n:]))
    if p[0] == 'rep' and len(p[2](z3.IntVal(0))) == 1 and isinstance(p[2](z3.IntVal(0))[0], (str, bytes)) and len(p[2](z3.IntVal(0))[0]) == 1:
        return ('rep', n, p[2]), ('rep', n_sub(p[1], n), p[2])
    if p[0] == 'enc' and p[2] == 'utf-8' and len(BI.pieces_of(p[1])) == 1 and BI.pieces_of(p[1])[0][0] == 'sv':
        return ('encpre', p[1], p[2], n), ('encrest', p[1], p[2], n)
    raise Unsupported("part of %r" % (p,))

def whole_characters(it, p):
    """The longest run of whole characters at the beginning of cut text, and whether it is all there is."""
    x = BI.pieces_of(p[1])[0][1]
    t = BI.uf("utf8cut", StrV.SORT, z3.IntSort(), StrV.SORT)(x.term, Z(p[3]))
    L = Z(enclen(it, ('sv', StrV(t, 'str')), 'utf-8'))
    it.p.fact(z3.And(L <= Z(p[3]), Z(p[3]) - L <= 3))
    return StrV(t, 'str'), L == Z(p[3])

def cut(it, pieces, n):
    """(first n units, rest); n at most the whole length."""
    left, out = n, []
    pieces = list(pieces)
    while pieces:
        if not isz(conc(left)) and conc(left) == 0 or isz(left) and it.p.quick(n_cmp('<=', left, 0)) is True:
            break
        p = pieces[0]
        L = plen(it, p)
        c = n_cmp('>=', left, L)
        if c is True or c is not False and it.p.decide(c):
            out.append(p)
            pieces.pop(0)
            left = conc(n_sub(left, L))
            if isz(left):
                left = z3.simplify(left)
        else:
            if isz(left) and it.p.decide(n_cmp('<=', left, 0)):
                break
            a, b = split_piece(it, p, left)
            out.append(a)
            pieces[0] = b
            break
    return out, pieces

def rope_slice(it, v, lo, hi):
    n = rope_len(it, v)
    lo, hi = BI.norm_index(it, lo, n, 0), BI.norm_index(it, hi, n, n)
    c = n_cmp('>', lo, hi)
    if c is True or c is not False and it.p.decide(c):
        hi = lo
    k = BI.kind_of(v)
    if not isz(conc(lo)) and conc(lo) == 0 and (hi is n):
        return v
    _, rest = cut(it, BI.pieces_of(v), lo)
    mid, _ = cut(it, rest, conc(n_sub(hi, lo)))
    return BI.join_pieces(it, mid, k)

def rope_index(it, v, i):
    n = rope_len(it, v)
    j = BI.index(it, v, n, i, "string")
    c = codes(it, v)
    x = c[j] if isinstance(c, list) and not isz(j) else (SSeqOf(it, c) if isinstance(c, list) else c).get(j)
    return x if BI.kind_of(v) == 'bytes' else from_codes(it, [x], 'str')

def rope_iter(it, v):
    c = codes(it, v)
    sq = SSeqOf(it, c) if isinstance(c, list) else c
    if BI.kind_of(v) == 'bytes':
        return sq
    return SSeq(sq.n, lambda i: from_codes(it, [sq.get(i)], 'str'))

def b_ord(it, x):
    if not isinstance(x, (Rope, StrV)):
        raise_(TypeError, "ord() expected string of length 1")
    n = rope_len(it, x)
    c = n_cmp('==', n, 1)
    if c is not True and not it.p.decide(c):
        raise_(TypeError, "ord() expected a character")
    c = codes(it, x)
    return c[0] if isinstance(c, list) else c.get(z3.IntVal(0))

def textinfo(it, p):
    """What the unit says about an unknown string: free (characters it does not have), blank (only whitespace),
    ends (no whitespace at its ends), nonempty."""
    f = it.p.unit.args.get('textinfo')
    return f(p[1].term) if f is not None else None

def excludes(it, p, chars):
    """Is the piece known to contain none of the characters?"""
    if isinstance(p, (str, bytes)):
        return not any(c in p for c in chars)
    if p[0] == 'fmt':
        if p[2] in ('', 'd') and is_int(p[1]):
            return not any(c in "0123456789-" for c in chars)
        return is_num(p[1]) and not any(c in "0123456789+-.e_, %" for c in chars)
    if p[0] == 'sv':
        ti = textinfo(it, p)
        if ti is not None and (set(chars) <= ti.get('free', set())):
            return True
        return set(chars) <= getattr(it.p, 'strfree', {}).get(p[1].term.get_id(), set())
    if p[0] == 'enc':
        return all(excludes(it, q, chars) for q in BI.pieces_of(p[1]))
    if p[0] == 'rep':
        return all(isinstance(q, (str, bytes)) and not any((ord(c) if isinstance(q, bytes) else c) in q for c in chars) for q in p[2](z3.IntVal(0)))
    return False

def m_rope_encode(it, s, enc="utf-8", errors="strict"):
    c = codec(enc)
    out = []
    for p in BI.pieces_of(s):
        if isinstance(p, str):
            try:
                out.append(p.encode(c))
            except UnicodeError as e:
                raise_(UnicodeEncodeError)
        elif p[0] == 'sv':
            if c != 'utf-8':
                if not it.p.decide(BI.uf("is_" + c, StrV.SORT, z3.BoolSort())(p[1].term)):
                    if errors == 'strict':
                        raise_(UnicodeEncodeError)
                    raise Unsupported("encoding errors %s" % errors)
            out.append(('enc', p[1], c))
        elif p[0] == 'fmt' and is_num(p[1]):
            out.append(('enc', Rope('str', [p]), c))
        elif p[0] == 'seq':
            lim = {'ascii': 128, 'latin-1': 256}.get(c)
            if lim is None:
                out.append(('enc', Rope('str', [p]), c))
            else:
                ok = in_range(it, p[1], lim)
                if not it.p.decide(ok):
                    raise_(UnicodeEncodeError)
                out.append(p)
        elif p[0] == 'rep':
            out.append(('rep', p[1], lambda i, p=p: [q.encode(c) for q in p[2](i)]))
        else:
            raise Unsupported("encoding of %r" % (p,))
    return BI.join_pieces(it, out, 'bytes')

def in_range(it, sq, lim):
    n = conc(sq.n)
    if not isz(n) and n <= 64:
        return land(*[land(n_cmp('<=', 0, sq.get(z3.IntVal(i))), n_cmp('<', sq.get(z3.IntVal(i)), lim)) for i in range(n)])
    j = z3.Int("qe")
    return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(n)), z3.And(Z(sq.get(j)) >= 0, Z(sq.get(j)) < lim)))

def m_rope_decode(it, s, enc="utf-8", errors="strict"):
    c = codec(enc)
    out = []
    for p in BI.pieces_of(s):
        if isinstance(p, bytes):
            try:
                out.append(p.decode(c))
            except UnicodeError:
                raise_(UnicodeDecodeError)
        elif p[0] == 'enc' and (p[2] == c or p[2] == 'ascii'):
            out.append(p[1])
        elif p[0] == 'encpre' and c == 'utf-8':
            t, whole = whole_characters(it, p)
            if errors != 'ignore' and not it.p.decide(whole):
                raise_(UnicodeDecodeError)
            out.append(t)
        elif p[0] == 'seq' and c in ('ascii', 'latin-1'):
            if c == 'ascii' and not it.p.decide(in_range(it, p[1], 128)):
                raise_(UnicodeDecodeError)
            out.append(p)
        elif p[0] == 'rep' and all(isinstance(q, bytes) for q in p[2](z3.IntVal(0))):
            out.append(('rep', p[1], lambda i, p=p: [q.decode(c) for q in p[2](i)]))
        else:
            raise Unsupported("decoding of %r" % (p,))
    return BI.join_pieces(it, out, 'str')

def just(it, s, width, fill, left):
    k = BI.kind_of(s)
    if fill is None:
        fill = " " if k == 'str' else b" "
    n = rope_len(it, s)
    d = n_sub(width, n)
    c = n_cmp('>', d, 0)
    if c is False or c is not True and not it.p.decide(c):
        return s
    d = conc(d)
    pad = fill * d if not isz(d) else ('rep', d, lambda i: [fill])
    ps = BI.pieces_of(s)
    return BI.join_pieces(it, ps + [pad] if left else [pad] + ps, k)

def m_rope_ljust(it, s, width, fill=None): return just(it, s, width, fill, True)
def m_rope_rjust(it, s, width, fill=None): return just(it, s, width, fill, False)

def edge(it, p, chars, last):
    """Does the piece start/end with a character outside chars?  True/False/None (unknown)."""
    if isinstance(p, (str, bytes)):
        if not p:
            return None
        c = p[-1:] if last else p[:1]
        return c not in chars
    if p[0] == 'fmt' and is_num(p[1]):
        return not any(chr(x) in "0123456789+-.e" for x in (chars if isinstance(chars, bytes) else map(ord, chars)))
    if p[0] == 'sv':
        f = getattr(it.p, 'strends', {}).get(p[1].term.get_id())
        return True if f is not None and set(chars if isinstance(chars, str) else chars.decode('latin-1')) <= f else None
    if p[0] == 'enc':
        q = BI.pieces_of(p[1])
        cs = chars.decode('latin-1')
        return edge(it, q[-1 if last else 0], cs, last)
    return None

def strip(it, s, chars, l, r):
    k = BI.kind_of(s)
    ws = " \t\n\r\x0b\x0c"
    chars = chars if chars is not None else (ws if k == 'str' else ws.encode())
    ps = BI.pieces_of(s)
    for side in ([True] if r else []) + ([False] if l else []):
        while ps:
            whole = stripped(it, ps, chars, k) if (chars == ws or chars == ws.encode()) and (l and r) else None
            if whole is not None:
                return whole
            p = ps[-1 if side else 0]
            if isinstance(p, (str, bytes)):
                q = p.rstrip(chars) if side else p.lstrip(chars)
                if not q:
                    ps.pop(-1 if side else 0)
                    continue
                ps[-1 if side else 0] = q
                break
            if p[0] == 'rep':
                one = p[2](z3.IntVal(0))
                if len(one) == 1 and isinstance(one[0], (str, bytes)) and all(one[0][i:i + 1] in chars for i in range(len(one[0]))):
                    ps.pop(-1 if side else 0)
                    continue
            ti = textinfo(it, p) if p[0] == 'sv' and (chars == ws or chars == ws.encode()) else None
            if ti is not None and ti.get('blank'):
                ps.pop(-1 if side else 0)
                continue
            if ti is not None and ti.get('ends'):
                if ti.get('nonempty'):
                    break
                if it.p.decide(n_cmp('==', plen(it, p), 0)):
                    it.p.assume(p[1].term == BI.strterm(it, "" if k == 'str' else b""))
                    ps.pop(-1 if side else 0)
                    continue
                break
            e = edge(it, p, chars, side)
            if e is True:
                break
            if p[0] == 'sv' and k == 'str' and excludes(it, p, set(chars)) and (len(ps) == 1 or not it.p.decide(n_cmp('==', plen(it, p), 0))):
                break
            if p[0] == 'sv' and e is None:
                f = getattr(it.p, 'strends', {}).get(p[1].term.get_id())
                empty = plen(it, p)
                raise Unsupported("strip of %r" % (p,))
            raise Unsupported("strip of %r" % (p,))
    return BI.join_pieces(it, ps, k)

def stripped(it, ps, chars, k):
    """An unknown text by itself, without the blanks at its ends."""
    if len(ps) != 1 or isinstance(ps[0], (str, bytes)):
        return None
    p = ps[0]
    if p[0] == 'enc' and len(BI.pieces_of(p[1])) == 1:
        p = BI.pieces_of(p[1])[0]
    if isinstance(p, (str, bytes)) or p[0] != 'sv' or textinfo(it, p) is not None or getattr(it.p, 'strends', {}).get(p[1].term.get_id()):
        return None
    b = StrV(BI.uf("strip_ascii", StrV.SORT, StrV.SORT)(p[1].term), 'str')
    u = StrV(BI.uf("strip", StrV.SORT, StrV.SORT)(p[1].term), 'str')
    nb, nu = plen(it, ('sv', b)), plen(it, ('sv', u))
    it.p.fact(z3.And(Z(nu) <= Z(nb), Z(nb) <= Z(plen(it, p))))      # some blanks of text are no blanks of bytes
    it.p.fact(z3.Implies(nu == 0, u.term == BI.strterm(it, "")))
    if ps[0][0] == 'enc':
        return Rope('bytes', [('enc', Rope('str', [('sv', b)]), ps[0][2])])
    return u if k == 'str' else None

def m_rope_strip(it, s, chars=None): return strip(it, s, chars, True, True)
def m_rope_lstrip(it, s, chars=None): return strip(it, s, chars, True, False)
def m_rope_rstrip(it, s, chars=None): return strip(it, s, chars, False, True)

def m_rope_split(it, s, sep=None, maxsplit=-1):
    if not isinstance(sep, (str, bytes)):
        raise Unsupported("split on whitespace")
    k = BI.kind_of(s)
    out, cur = [], []
    cs = set(sep) if isinstance(sep, str) else set(sep.decode('latin-1'))
    for p in BI.pieces_of(s):
        if isinstance(p, (str, bytes)) and len(sep) > 1 and any(isinstance(q, tuple) and not excludes(it, q, cs) for q in BI.pieces_of(s)):
            raise Unsupported("split of an unknown string")
        if not isinstance(p, (str, bytes)) and not excludes(it, p, cs) and maxsplit < 0 and out and len(sep) == 1:
            # the parts before this piece are known, those from here on are not
            known = [BI.join_pieces(it, c, k) for c in out]
            m = it.p.int("parts")
            it.p.assume(m > len(known))
            def part(i):
                i = conc(i)
                if isz(i) or i >= len(known):
                    raise Unsupported("part of an unknown string")
                return known[i]
            return it.newlist(SSeq(m, part))
        if isinstance(p, (str, bytes)):
            parts = p.split(sep)
            for i, q in enumerate(parts):
                if i:
                    if maxsplit >= 0 and len(out) >= maxsplit:
                        cur.append(sep)
                    else:
                        out.append(cur)
                        cur = []
                cur.append(q)
        else:
            if not excludes(it, p, set(sep) if isinstance(sep, str) else set(sep.decode('latin-1'))):
                raise Unsupported("split of an unknown string")
            cur.append(p)
    out.append(cur)
    return it.newlist([BI.join_pieces(it, c, k) for c in out])

def m_rope_rsplit(it, s, sep=None, maxsplit=-1):
    if maxsplit == 1 and isinstance(sep, (str, bytes)) and len(sep) == 1:
        a, b, c = m_rope_rpartition(it, s, sep)
        return it.newlist([a, c] if b else [c])
    if maxsplit == -1:
        return m_rope_split(it, s, sep)
    raise Unsupported("rsplit")

def m_rope_rpartition(it, s, sep):
    k = BI.kind_of(s)
    ps = BI.pieces_of(s)
    after = []
    while ps:
        p = ps.pop()
        if isinstance(p, (str, bytes)):
            i = p.rfind(sep)
            if i >= 0:
                return BI.join_pieces(it, ps + [p[:i]], k), sep, BI.join_pieces(it, [p[i + len(sep):]] + after, k)
        elif not excludes(it, p, set(sep) if isinstance(sep, str) else set(sep.decode('latin-1'))):
            raise Unsupported("last separator in an unknown string")
        after.insert(0, p)
    e = "" if k == 'str' else b""
    return e, e, s

def m_rope_partition(it, s, sep):
    k = BI.kind_of(s)
    ps = BI.pieces_of(s)
    e = "" if k == 'str' else b""
    if not isinstance(sep, (str, bytes)) or len(sep) != 1:
        l = m_rope_split(it, s, sep, 1).content
        return (l[0], sep, l[1]) if len(l) == 2 else (s, e, e)
    before = []
    while ps:
        p = ps.pop(0)
        if isinstance(p, (str, bytes)):
            i = p.find(sep)
            if i >= 0:
                return BI.join_pieces(it, before + [p[:i]], k), sep, BI.join_pieces(it, [p[i + 1:]] + ps, k)
        elif not excludes(it, p, set(sep) if isinstance(sep, str) else set(sep.decode('latin-1'))):
            raise Unsupported("first separator in an unknown string")
        before.append(p)
    return s, e, e

def m_rope_isalnum(it, s):
    return BI.uf("isalnum", StrV.SORT, z3.BoolSort())(BI.strterm(it, s))

def str_unary(name):
    def f(it, s):
        out = []
        for p in BI.pieces_of(s):
            if isinstance(p, (str, bytes)):
                out.append(getattr(p, name)())
            elif p[0] == 'sv':
                out.append(('sv', StrV(BI.uf("str_" + name, StrV.SORT, StrV.SORT)(p[1].term), p[1].kind)))
            elif p[0] == 'fmt' and is_num(p[1]):
                out.append(p)
            else:
                raise Unsupported("%s of %r" % (name, p))
        return BI.join_pieces(it, out, BI.kind_of(s))
    return f
m_rope_upper = str_unary('upper')
m_rope_lower = str_unary('lower')

def m_rope_startswith(it, s, pre):
    n = len(pre)
    L = rope_len(it, s)
    c = n_cmp('>=', L, n)
    if c is not True and not it.p.decide(c):
        return False
    return rope_eq(it, rope_slice(it, s, 0, n), pre)

def m_rope_join(it, s, x):
    return BI.m_str_join(it, s, x)

def m_rope_replace(it, s, a, b):
    out = []
    for p in BI.pieces_of(s):
        if isinstance(p, (str, bytes)):
            out.append(p.replace(a, b))
        elif excludes(it, p, set(a if isinstance(a, str) else a.decode('latin-1'))):
            out.append(p)
        else:
            raise Unsupported("replace in %r" % (p,))
    return BI.join_pieces(it, out, BI.kind_of(s))

def join_sym(it, s, sq):
    n = Z(sq.n)
    if s not in ("", b""):
        if not isinstance(s, (str, bytes)):
            raise Unsupported("join of a symbolic number of strings")
        return Rope(BI.kind_of(s), [('join', s, n, lambda i: BI.pieces_of(sq.get(i)))])
    try:
        one = sq.get(z3.Int("probe"))
    except Unsupported:
        one = None
    if isinstance(one, Rope) and len(one.pieces) == 1 and not isinstance(one.pieces[0], (str, bytes)) and one.pieces[0][0] == 'seq' and conc(one.pieces[0][1].n) == 1:
        return Rope(BI.kind_of(s), [('seq', SSeq(n, lambda i: sq.get(i).pieces[0][1].get(z3.IntVal(0))))])
    return Rope(BI.kind_of(s), [('rep', n, lambda i: BI.pieces_of(sq.get(i)), True)])

def str_method(it, o, name, a, k):
    """A method of a literal string with symbolic arguments."""
    f = globals().get("m_rope_" + name)
    if f is not None:
        return f(it, o, *a, **k)
    raise Unsupported("%s of a literal with symbolic arguments" % name)

def str_to_num(it, x, kind):
    ps = [p for p in BI.pieces_of(strip(it, x, None, True, True))]
    if len(ps) == 1 and not isinstance(ps[0], (str, bytes)):
        p = ps[0]
        if p[0] == 'enc':
            q = BI.pieces_of(p[1])
            p = q[0] if len(q) == 1 else p
        if p[0] == 'fmt' and is_num(p[1]):
            if p[2] in ('', 'd') and is_int(p[1]):
                return p[1] if kind == 'int' else R(p[1])
            if kind == 'float':
                if p[2] in ('', '!r', '!s'):
                    return p[1]
                raise Unsupported("value of a rounded number")
            if is_real(p[1]):
                raise_(ValueError, "invalid literal for int()")
    raise Unsupported("number in %r" % (x,))

def whole(x):
    x = conc(BI.trunc(x)) if is_real(x) else conc(x)
    return ('fmt', x, '') if isz(x) else str(int(x))

def percent(it, s, arg):
    """'...' % args for %s, %d, %f, %x with simple specifications."""
    import re
    args = list(arg) if isinstance(arg, tuple) else list(arg.vals) if isinstance(arg, PNT) else [arg]
    try:
        return s % tuple(BI.pyval(x) for x in args)
    except ValueError:
        pass
    except TypeError as e:
        raise_(TypeError, str(e))
    kind = BI.kind_of(s)
    if kind == 'bytes':
        raise Unsupported("bytes formatting")
    out, i = [], 0
    for m in re.finditer(r"%(?P<f>[-0 +#]*)(?P<w>\d+|\*)?(?:\.(?P<p>\d+|\*))?(?P<c>[a-zA-Z%])|(?P<l>[^%]+)", s):
        if m.group('l'):
            out.append(m.group('l'))
            continue
        c = m.group('c')
        if c == '%':
            out.append('%')
            continue
        w, pr = m.group('w'), m.group('p')
        if w == '*':
            w = args[i]; i += 1
        if pr == '*':
            pr = args[i]; i += 1
        if i >= len(args):
            raise_(TypeError, "not enough arguments for format string")
        x = args[i]; i += 1
        if c == 's' and not m.group('f') and w is None and pr is None:
            v = BI.fmt_value(it, x, "", None)
            out.extend(BI.pieces_of(v) if isinstance(v, (Rope, StrV)) else [v])
            continue
        if c in 'di' and w is None and pr is None and not m.group('f'):
            if not is_num(x):
                raise_(TypeError, "%d format: a number is required")
            out.append(whole(x))
            continue
        if c in 'sdi' and pr is None and not m.group('f').strip('-'):
            v = BI.fmt_value(it, x, "", None) if c == 's' else whole(x)
            r = BI.join_pieces(it, [v], 'str')
            r = just(it, r, int(w) if isinstance(w, str) else w, " ", '-' in m.group('f'))
            out.extend(BI.pieces_of(r))
            continue
        if not is_num(x):
            raise_(TypeError, "must be real number")
        if not isz(conc(x)):
            out.append("%{}{}{}{}".format(m.group('f'), w if w is not None else '', '.%s' % pr if pr is not None else '', c) % BI.pyval(conc(x)) if not isz(w) and not isz(pr) else ('fmt', x, "%"))
            continue
        out.append(('fmt', x, "%%%s%s%s%s" % (m.group('f'), w if w is not None else '', '.%s' % pr if pr is not None else '', c)))
    if i < len(args):
        raise_(TypeError, "not all arguments converted during string formatting")
    return BI.join_pieces(it, out, 'str')

# ---------------------------------------------------------------- struct
class error(Exception):
    pass

def parse_fmt(it, fmt):
    if isinstance(fmt, Rope):
        return parse_rope_fmt(it, fmt)
    order, codes_ = '<', []
    if fmt[:1] in ('<', '>', '!', '=', '@'):
        order = '>' if fmt[0] in '>!' else '<'
        native = fmt[0] == '@'
        fmt = fmt[1:]
    num = ""
    for c in fmt:
        if c.isdigit():
            num += c
        elif c.isspace():
            continue
        else:
            if c not in SIZES and c != 's' and c != 'p':
                raise_(BI.StructError, "bad char in struct format")
            if c == 's':
                codes_.append(('s', int(num) if num else 1))
            else:
                codes_.extend([(order + c if SIZES[c] > 1 else c, 1)] * (int(num) if num else 1))
            num = ""
    return order, codes_

def parse_rope_fmt(it, fmt):
    """A format with unknown counts of s."""
    order, codes_, ps = '<', [], BI.pieces_of(fmt)
    num = None
    for i, p in enumerate(ps):
        if isinstance(p, str):
            if num is not None:
                if p[:1] != 's':
                    raise Unsupported("struct format with an unknown count")
                codes_.append(('s', num))
                p, num = p[1:], None
            q = p.rstrip("0123456789")
            if len(q) < len(p) and i + 1 < len(ps):
                raise Unsupported("struct format with an unknown count")
            o, cs = parse_fmt(it, (order if i else '') + p)
            order = o
            codes_ += cs
        elif p[0] == 'fmt' and p[2] in ('', 'd') and is_int(p[1]) and num is None:
            if it.p.quick(n_cmp('>=', p[1], 0)) is not True:
                raise Unsupported("struct format with an unknown count")
            num = p[1]
        else:
            raise Unsupported("struct format of %r" % (p,))
    if num is not None:
        raise_(BI.StructError, "repeat count given without format specifier")
    return order, codes_

def rng(code):
    c = code[-1]
    size = SIZES[c]
    if c.isupper():
        return 0, (1 << 8 * size) - 1
    return -(1 << 8 * size - 1), (1 << 8 * size - 1) - 1

def struct_op(it, name, args):
    if name == 'error':
        raise Unsupported("struct.error called")
    if name == 'calcsize':
        return conc(sumlen(it, [n if c == 's' else SIZES[c[-1]] for c, n in parse_fmt(it, args[0])[1]]))
    if name == 'pack':
        order, cs = parse_fmt(it, args[0])
        vals = list(args[1:])
        if len([c for c in cs if c[0] != 'x']) != len(vals):
            raise_(BI.StructError, "pack expected %d items" % len(cs))
        out = []
        for c, n in cs:
            if c == 'x':
                out.append(b'\0')
                continue
            v = vals.pop(0)
            if c == 's':
                if not isinstance(v, (bytes, Rope)) or BI.kind_of(v) != 'bytes':
                    raise_(BI.StructError, "argument for 's' must be a bytes object")
                L = rope_len(it, v) if isinstance(v, Rope) else len(v)
                r = v if isinstance(v, bytes) and len(v) <= n else rope_slice(it, v, 0, n) if isinstance(v, Rope) else v[:n]
                out.append(just(it, r, n, b'\0', True) if isinstance(r, Rope) else r.ljust(n, b'\0'))
                continue
            if c[-1] == 'c':
                out.append(v)
                continue
            if c[-1] in 'fd':
                if not is_num(v) and not is_bool(v):
                    raise_(BI.StructError, "required argument is not a float")
                v = R(v) if isz(v) else Fraction(Z(v).as_long() if isinstance(v, bool) else v)
                if c[-1] == 'f':
                    it.p.unit.assumptions.add("single precision values are packed exactly")
                out.append(('pk', c, v))
                continue
            if c[-1] == '?':
                raise Unsupported("struct ?")
            if is_bool(v):
                v = Z(v)
            if not is_num(v) or not is_int(v):
                raise_(BI.StructError, "required argument is not an integer")
            lo, hi = rng(c)
            ok = land(n_cmp('<=', lo, v), n_cmp('<=', v, hi))
            if not it.p.decide(ok):
                raise_(BI.StructError, "argument out of range")
            if not isz(v):
                import struct
                out.append(struct.pack((c if len(c) > 1 else '<' + c), v))
            else:
                out.append(('pk', c, v))
        return BI.join_pieces(it, out, 'bytes')
    if name in ('unpack', 'unpack_from'):
        order, cs = parse_fmt(it, args[0])
        data = args[1]
        size = conc(sumlen(it, [n if c == 's' else SIZES[c[-1]] for c, n in cs]))
        if name == 'unpack_from':
            off = args[2] if len(args) > 2 else 0
            data = rope_slice(it, data, off, n_add(off, size)) if isinstance(data, Rope) else data[off:off + size]
        if not isinstance(data, (bytes, Rope)):
            raise_(TypeError, "a bytes-like object is required")
        L = rope_len(it, data) if isinstance(data, Rope) else len(data)
        c = n_cmp('==', L, size)
        if c is not True and not it.p.decide(c):
            raise_(BI.StructError, "unpack requires a buffer of %s bytes" % size)
        ps = BI.pieces_of(data)
        out = []
        for c, n in cs:
            m = n if c == 's' else SIZES[c[-1]]
            got, ps = cut(it, ps, m)
            if c == 'x':
                continue
            got = BI.join_pieces(it, got, 'bytes')
            if c in ('s',) or c[-1] == 'c':
                out.append(got)
            else:
                out.append(unpack1(it, c, got))
        return tuple(out)
    raise Unsupported("struct." + name)

def unpack1(it, c, data):
    if isinstance(data, bytes):
        import struct
        v = struct.unpack(c if len(c) > 1 else '<' + c, data)[0]
        if isinstance(v, float):
            return Fraction(v)
        return v
    ps = data.pieces
    if len(ps) == 1 and ps[0][0] == 'pk':
        d = ps[0][1]
        if d == c or d[-1] == c[-1] and SIZES[c[-1]] == 1:
            return ps[0][2]
        if SIZES[d[-1]] == SIZES[c[-1]] and d[0] == c[0] and d[-1].lower() == c[-1].lower() and c[-1] not in 'fd' or {d[-1].lower(), c[-1].lower()} == {'i', 'l'} and d[0] == c[0]:
            # the other signedness
            v, n = ps[0][2], 1 << 8 * SIZES[c[-1]]
            if c[-1].isupper():
                return z3.If(Z(v) < 0, Z(v) + n, Z(v))
            return z3.If(Z(v) >= n // 2, Z(v) - n, Z(v))
    if c[-1] in 'fd':
        if any(not isinstance(p, bytes) and p[0] == 'pk' and p[1][-1] in 'fd' for p in ps):
            return it.p.real("reread")             # bytes of another number: nothing is known
        cs = codes(it, data)
        return BI.m("float_of_%s_%d" % ('be' if c[0] == '>' else 'le', SIZES[c[-1]]), *[R(x) for x in cs])
    if any(not isinstance(p, bytes) and p[0] == 'pk' and p[1][-1] in 'fd' for p in ps):
        v = it.p.int("reread")
        lo, hi = rng(c)
        it.p.assume(z3.And(v >= lo, v <= hi))
        return v
    cs = codes(it, data)
    if not isinstance(cs, list):
        n = SIZES[c[-1]]
        cs = [cs.get(z3.IntVal(i)) for i in range(n)]
    if c[0] == '>':
        cs = list(reversed(cs))
    v = 0
    for i, b in enumerate(cs):
        v = n_add(v, n_mul(b, 1 << 8 * i))
    if not c[-1].isupper():
        n = 1 << 8 * len(cs)
        v = z3.If(Z(v) >= n // 2, Z(v) - n, Z(v)) if isz(v) else (v - n if v >= n // 2 else v)
    return v

# ---------------------------------------------------------------- files
class PFileClass(PClass):
    binds = True

def file_class(it):
    """Class of open files: fields 'node' (contents, shared by path), 'pos', 'mode'."""
    c = getattr(it.p, 'fileclass', None)
    if c is None:
        d = {}
        for n, f in list(globals().items()):
            if n.startswith("f_"):
                d[n[2:]] = Builtin(n[2:], (lambda f: lambda *a, **k: f(it, *a, **k))(f))
        c = it.p.fileclass = PFileClass("file", [], d, None)
    return c

def fs(it):
    if not hasattr(it.p, 'fs'):
        it.p.fs = {}
    return it.p.fs

def path_key(it, path):
    if isinstance(path, str):
        return path
    if isinstance(path, Rope):
        return repr(path)
    if isinstance(path, StrV):
        return str(path.term)
    if isinstance(path, Opaque):
        return str(path.term)
    raise_(TypeError, "expected a path")

def new_file(it, node, kind, mode='r+'):
    o = it.alloc(PObj(file_class(it), {'node': node, 'pos': 0, 'kind': kind, 'mode': mode, 'closed': False}), "file")
    return o

def new_node(it, pieces=()):
    """Contents of a file: a list of pieces."""
    return it.newlist(list(pieces), "contents")

def byte_file(it, content, pos=0):
    """A file whose contents are a sequence of byte values (for loops over bytes)."""
    l = it.newlist(content, "bytes")
    o = new_file(it, l, 'codes')
    o.fields['pos'] = pos
    return o

def open_(it, path, mode="r", *a, **k):
    key = path_key(it, path)
    kind = 'bytes' if 'b' in mode else 'str'
    F = fs(it)
    if 'w' in mode or 'x' in mode:
        F[key] = new_node(it)
    elif key not in F and packaged(key):
        with open(key, 'rb') as f:
            data = f.read()
        F[key] = new_node(it, [data if kind == 'bytes' else data.decode('utf-8')])
    elif key not in F:
        raise_(FileNotFoundError, "No such file or directory")
    o = new_file(it, F[key], kind, mode)
    if 'a' in mode:
        o.fields['pos'] = size_of(it, o)
    return o

def packaged(key):
    """Data files of the package itself are read as they are."""
    import os
    from .interp import REPO
    k = os.path.normpath(key)
    return k.startswith(os.path.join(os.path.normpath(REPO), "coral") + os.sep) and os.path.isfile(k)

def contents(it, o):
    return o.fields['node'].content

def check_open(it, o):
    if o.fields['closed']:
        raise_(ValueError, "I/O operation on closed file.")

def size_of(it, o):
    c = contents(it, o)
    if o.fields['kind'] == 'codes':
        return len(c) if isinstance(c, list) else c.n
    return sumlen(it, [plen(it, p) for p in c])

def setf(it, o, name, v):
    it.setattr(o, name, v)

def f_write(it, o, data):
    check_open(it, o)
    node, kind = o.fields['node'], o.fields['kind']
    if not isinstance(data, (str, bytes, Rope, StrV)) or BI.kind_of(data) != ('bytes' if kind == 'codes' else kind):
        raise_(TypeError, "a bytes-like object is required" if kind != 'str' else "write() argument must be str")
    n = rope_len(it, data) if not isinstance(data, (str, bytes)) else len(data)
    pos, size = o.fields['pos'], size_of(it, o)
    if kind == 'codes':
        c = codes(it, data)
        if it.p.quick(n_cmp('==', pos, size)) is not True:
            raise Unsupported("overwriting bytes")
        it.setcontent(node, BI.seq_concat(it, node.content, c))
        setf(it, o, 'pos', conc(n_add(pos, n)))
        return n
    new = [p for p in BI.pieces_of(data) if p not in ("", b"")]
    if not new:
        return n
    atend = n_cmp('==', pos, size)
    atend = atend if isinstance(atend, bool) else it.p.quick(atend)
    if atend is True:
        it.setcontent(node, list(node.content) + new)
    else:
        beyond = n_cmp('>', pos, size)
        beyond = beyond if isinstance(beyond, bool) else it.p.decide(beyond)
        if beyond:
            gap = conc(n_sub(pos, size))
            fill = b'\0' if kind == 'bytes' else '\0'
            it.setcontent(node, list(node.content) + [fill * gap if not isz(gap) else ('rep', gap, lambda i: [fill])] + new)
        else:
            left, rest = cut(it, node.content, pos)
            L = sumlen(it, [plen(it, p) for p in rest])
            m = n_cmp('>=', n, L)
            m = m if isinstance(m, bool) else it.p.decide(m)
            tail = [] if m else cut(it, rest, n)[1]
            it.setcontent(node, left + new + tail)
    setf(it, o, 'pos', conc(n_add(pos, n)))
    return n

def f_writelines(it, o, lines):
    sq = it.iterate(lines, True)
    n = conc(sq.n)
    if isz(n) and o.fields['kind'] == 'str':
        if it.p.quick(n_cmp('==', o.fields['pos'], size_of(it, o))) is not True:
            raise Unsupported("overwriting with lines")
        p = ('lines', n, lambda i: sq.get(i))
        it.setcontent(o.fields['node'], list(contents(it, o)) + [p])
        setf(it, o, 'pos', n_add(o.fields['pos'], plen(it, p)))
        return
    n = it.concretize(n)
    for i in range(n):
        f_write(it, o, sq.get(i))

def f_read(it, o, n=-1):
    check_open(it, o)
    kind = o.fields['kind']
    pos, size = o.fields['pos'], size_of(it, o)
    left = conc(n_sub(size, pos))
    if isz(left):
        left = z3.simplify(left)
    if n is None or not isz(n) and n < 0:
        n = left
    else:
        c = n_cmp('<=', n, left)
        c = c if isinstance(c, bool) else it.p.decide(c)
        if not c:
            n = left
            neg = n_cmp('<', left, 0)
            if neg is True or neg is not False and it.p.decide(neg):
                n = 0
    if kind == 'codes':
        c = contents(it, o)
        sq = c if isinstance(c, SSeq) else SSeqOf(it, c)
        setf(it, o, 'pos', conc(n_add(pos, n)))
        nn = conc(n)
        if not isz(nn) and nn <= 64:
            return from_codes(it, [sq.get(n_add(pos, i)) for i in range(nn)], 'bytes')
        return Rope('bytes', [('seq', BI.seq_slice(it, sq, pos, n_add(pos, n)))])
    _, rest = cut(it, contents(it, o), pos)
    got, _ = cut(it, rest, n)
    setf(it, o, 'pos', conc(n_add(pos, n)))
    return BI.join_pieces(it, got, kind)

def f_readline(it, o, *a):
    check_open(it, o)
    kind = o.fields['kind']
    if kind == 'codes':
        raise Unsupported("readline")
    nl = '\n' if kind == 'str' else b'\n'
    _, rest = cut(it, contents(it, o), o.fields['pos'])
    out = []
    for p in rest:
        if isinstance(p, (str, bytes)):
            i = p.find(nl)
            if i >= 0:
                out.append(p[:i + 1])
                break
        elif not excludes(it, p, {'\n'}):
            raise Unsupported("line of an unknown string")
        out.append(p)
    n = sumlen(it, [plen(it, p) for p in out])
    setf(it, o, 'pos', conc(n_add(o.fields['pos'], n)))
    return BI.join_pieces(it, out, kind)

def aline(it, s):
    """Is the string one line with its line break?"""
    ps = BI.pieces_of(s)
    return bool(ps) and isinstance(ps[-1], str) and ps[-1].endswith("\n") and "\n" not in ps[-1][:-1] and not any(c in p for p in ps if isinstance(p, str) for c in "\r") and all(excludes(it, p, {"\n"}) and excludes(it, p, {"\r"}) for p in ps[:-1])

def f_readlines(it, o):
    check_open(it, o)
    c = contents(it, o)
    if o.fields['kind'] == 'str' and any(isinstance(p, tuple) and p[0] == 'lines' for p in c) and conc(o.fields['pos']) == 0:
        out = []
        for p in c:
            if not (isinstance(p, tuple) and p[0] == 'lines' and aline(it, p[2](z3.Int("probe!line")))):
                raise Unsupported("lines of unknown strings")
            out = BI.seq_concat(it, out, SSeq(p[1], p[2]))
        setf(it, o, 'pos', size_of(it, o))
        return it.newlist(out)
    out = []
    while True:
        l = f_readline(it, o)
        if l in ("", b""):
            return it.newlist(out)
        out.append(l)

def f___iter__(it, o):
    l = f_readlines(it, o)
    return it.alloc(PIter(it.iterate(l)), "lines")

def f_seek(it, o, off, whence=0):
    check_open(it, o)
    base = 0 if whence == 0 else o.fields['pos'] if whence == 1 else size_of(it, o)
    p = conc(n_add(base, off))
    neg = n_cmp('<', p, 0)
    if neg is True or neg is not False and it.p.decide(neg):
        raise_(ValueError, "negative seek position")
    setf(it, o, 'pos', p)
    return p

def f_tell(it, o):
    check_open(it, o)
    return o.fields['pos']

def f_seekable(it, o): return True
def f_readable(it, o): return True
def f_writable(it, o): return True
def f_flush(it, o): return None
def f_close(it, o):
    setf(it, o, 'closed', True)
def f_fileno(it, o): raise Unsupported("fileno")
def f_truncate(it, o, *a): raise Unsupported("truncate")
def f___enter__(it, o): return o
def f___exit__(it, o, *a):
    f_close(it, o)
    return None
def f_getvalue(it, o):
    return BI.join_pieces(it, list(contents(it, o)), o.fields['kind'])

def iterate(it, v):
    raise Unsupported("file iteration")

def std(it, path):
    k = 'std:' + path
    if k not in fs(it):
        fs(it)[k] = new_node(it)
    o = new_file(it, fs(it)[k], 'str', 'w')
    o.fields['pos'] = size_of(it, o)
    return o

def m_arr_tofile(it, a, f):
    if a.tc != 'B':
        raise Unsupported("tofile of %s" % a.tc)
    c = a.content
    f_write(it, f, from_codes(it, c, 'bytes') if isinstance(c, list) else Rope('bytes', [('seq', c)]))

def m_arr_tobytes(it, a):
    if a.tc != 'B':
        raise Unsupported("tobytes of %s" % a.tc)
    c = a.content
    return from_codes(it, c, 'bytes') if isinstance(c, list) else Rope('bytes', [('seq', c)])

def ext(it, path, args, kw):
    if path == 'codecs.open':
        path_, mode = args[0], (args[1] if len(args) > 1 else kw.get('mode', 'r'))
        return open_(it, path_, mode.replace('b', ''))
    if path in ('io.StringIO', 'io.BytesIO'):
        kind = 'str' if path.endswith('StringIO') else 'bytes'
        o = new_file(it, new_node(it, BI.pieces_of(args[0]) if args else []), kind)
        return o
    if path.startswith('itertools.'):
        return itertools_(it, path[10:], args, kw)
    if path.startswith('json.'):
        return json_(it, path[5:], args, kw)
    raise Unsupported(path)

def itertools_(it, name, args, kw):
    if name == 'chain':
        out = []
        for a in args:
            sq = it.iterate(a, True)
            out = BI.seq_concat(it, out, sq if isz(conc(sq.n)) else [sq.get(i) for i in range(conc(sq.n))])
        return it.alloc(PIter(out if isinstance(out, SSeq) else SSeqOf(it, out)), "chain")
    if name == 'islice':
        l = it.iterate(args[0])
        sl = slice(*(args[1:] if len(args) > 2 else (0, args[1])))
        r = BI.slice_(it, it.newlist(l if isz(conc(l.n)) else [l.get(i) for i in range(conc(l.n))]), sl)
        return it.alloc(PIter(it.iterate(r)), "islice")
    if name == 'repeat' and len(args) == 2:
        return it.alloc(PIter(SSeq(args[1], lambda i: args[0])), "repeat")
    if name == 'product' and not kw:
        pools = []
        for a in args:
            sq = it.iterate(a, True)
            n = conc(sq.n)
            if isz(n):
                raise Unsupported("product of symbolic sequences")
            pools.append([sq.get(i) for i in range(n)])
        import itertools as I
        return it.alloc(PIter(SSeqOf(it, [tuple(x) for x in I.product(*pools)])), "product")
    if name == 'combinations':
        sq = it.iterate(args[0], True)
        n = conc(sq.n)
        if isz(n):
            raise Unsupported("combinations of a symbolic sequence")
        import itertools as I
        return it.alloc(PIter(SSeqOf(it, [tuple(x) for x in I.combinations([sq.get(i) for i in range(n)], args[1])])), "comb")
    raise Unsupported("itertools." + name)

def json_value(it, x, seen=()):
    """The value a JSON text stands for, as read back: tuples are lists, keys are strings."""
    if x is None or is_bool(x) or is_num(x) or isinstance(x, (str, StrV)) or isinstance(x, Rope) and BI.kind_of(x) == "str":
        return lambda: x
    if isinstance(x, PList) and not isinstance(x, PArr) and isinstance(x.content, list):
        fs_ = [json_value(it, y) for y in x.content]
        return lambda: it.newlist([f() for f in fs_])
    if isinstance(x, tuple):
        fs_ = [json_value(it, y) for y in x]
        return lambda: it.newlist([f() for f in fs_])
    if isinstance(x, PDict):
        if not all(isinstance(k, str) for k in x.d):
            raise Unsupported("JSON keys")
        fs_ = {k: json_value(it, y) for k, y in x.d.items()}
        return lambda: it.alloc(PDict({k: f() for k, f in fs_.items()}), "json")
    if isinstance(x, PNT):
        return json_value(it, tuple(x.vals))
    raise_(TypeError, "Object is not JSON serializable")

def json_(it, name, args, kw):
    """A JSON text is known by the value it stands for (trusted: json reads back what it writes)."""
    for k in kw:
        if k not in ('indent', 'sort_keys', 'separators', 'fp'):
            raise Unsupported("json argument " + k)
    if name in ('dump', 'dumps'):
        t = Rope('str', [('json', json_value(it, args[0]))])
        if name == 'dumps':
            return t
        it.call(it.getattr(args[1] if len(args) > 1 else kw["fp"], "write"), [t], {})
        return None
    if name in ('load', 'loads'):
        t = args[0] if name == 'loads' else it.call(it.getattr(args[0] if args else kw["fp"], "read"), [], {})
        ps = [p for p in BI.pieces_of(t) if not (isinstance(p, str) and not p.strip(" \t\r\n"))]
        if len(ps) == 1 and isinstance(ps[0], tuple) and ps[0][0] == 'json':
            return ps[0][1]()
        if all(isinstance(p, str) for p in ps) or len([p for p in ps if isinstance(p, tuple) and p[0] == 'json']) != 1:
            raise Unsupported("JSON text")
        raise_(ValueError, "not one JSON value")
    raise Unsupported("json." + name)
