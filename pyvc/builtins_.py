"""Semantics of operators, built-in types and functions, and of the modelled standard modules."""
import os, functools
from fractions import Fraction
import z3
from .values import *
from .interp import SSeqOf, raise_, CMPD, SWAP, DUNDER, Env

class StructError(Exception):
    pass

I, RS, BO = z3.IntSort(), z3.RealSort(), z3.BoolSort()
PI = z3.Real("pi")

UF = {}
def uf(name, *sorts):
    if name not in UF:
        UF[name] = z3.Function(name, *sorts)
    return UF[name]

def m(name, *args):
    """Uninterpreted real function of reals."""
    return uf(name, *([RS] * (len(args) + 1)))(*[R(a) for a in args])

# ---------------------------------------------------------------- truth, identity, equality, order
def truth(it, v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return v
    if v is None:
        return False
    if is_num(v):
        return conc(lnot(n_cmp('==', v, 0)))
    if isinstance(v, (str, bytes, tuple)):
        return len(v) > 0
    if isinstance(v, (PList, SSeq)):
        return conc(n_cmp('>', length(it, v), 0))
    if isinstance(v, PDict):
        return len(v.d) > 0
    if isinstance(v, PSet):
        return len(v.s) > 0
    if isinstance(v, PObj):
        f = v.cls.lookup('__bool__')
        if f is not None:
            return truth(it, it.call(PBound(v, f), [], {}))
        f = v.cls.lookup('__len__')
        if f is not None:
            return truth(it, it.call(PBound(v, f), [], {}))
        return True
    if isinstance(v, PNT):
        return len(v.vals) > 0
    if isinstance(v, (StrV, Rope)):
        return conc(n_cmp('>', length(it, v), 0))
    if isinstance(v, Opaque):
        return uf("truthy", Opaque.SORT, BO)(v.term)
    if isinstance(v, Undef):
        raise Unsupported("unbound value")
    return True

def is_(it, a, b):
    if a is None or b is None:
        x = a if b is None else b
        if isinstance(x, Opaque):
            return uf("is_none", Opaque.SORT, BO)(x.term)
        return a is None and b is None
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    if isinstance(a, (PObj, PClass, PFunc, PList)) or isinstance(b, (PObj, PClass, PFunc, PList)):
        return a is b
    return a is b

def strterm(it, v):
    """z3 term of a string value; literals get distinct constants."""
    if isinstance(v, StrV):
        return v.term
    if isinstance(v, (str, bytes)):
        key = ('lit', v)
        if key not in it.p.memo:
            t = z3.Const("lit!%r" % (v,), StrV.SORT)
            others = [x for k, x in it.p.memo.items() if isinstance(k, tuple) and k[0] == 'lit']
            it.p.memo[key] = t
            for o in others:
                it.p.assume(t != o)
            it.p.assume(uf("strlen", StrV.SORT, I)(t) == len(v))
        return it.p.memo[key]
    raise Unsupported("string term of %r" % (v,))

def known_literal(it, v):
    """The literal an unknown string must equal here, if any (only literals the path mentions are tried)."""
    t = v.term
    if not (z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED) or str(t).startswith("lit!"):
        return v
    for k, x in list(it.p.memo.items()):
        if isinstance(k, tuple) and k[0] == 'lit' and isinstance(k[1], (bytes if v.kind == 'bytes' else str)) and it.p.holds(t == x, ms=500):
            return k[1]
    return v

def newstr(it, name, kind='str'):
    t = it.p.const(name, StrV.SORT)
    return StrV(t, kind)

def eq(it, a, b):
    """Python == as a host bool or z3 Bool."""
    if is_num(a) and is_num(b):
        if it.p.trig is not None and (isz(a) or isz(b)):
            return it.p.trig.cmp('==', a, b)
        return n_cmp('==', a, b)
    if is_bool(a) and is_bool(b):
        return conc(B(a) == B(b))
    if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
        return n_cmp('==', Z(a), Z(b))
    if a is None or b is None:
        x = a if b is None else b
        if isinstance(x, PObj) and x.cls.lookup('__eq__'):
            return it.call(it.getattr(x, '__eq__'), [None], {})
        if isinstance(x, Opaque):
            return is_(it, a, b)
        return a is None and b is None
    if isinstance(a, PNT):
        a = a.vals
    if isinstance(b, PNT):
        b = b.vals
    if isinstance(a, PObj):
        f = a.cls.lookup('__eq__')
        if f is not None:
            r = it.call(PBound(a, f), [b], {})
            if not (isinstance(r, Ext) and r.path == 'NotImplemented'):
                return r
        return a is b
    if isinstance(b, PObj):
        return eq(it, b, a)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        r = True
        for x, y in zip(a, b):
            r = land(r, truth(it, eq(it, x, y)))
            if r is False:
                return False
        return r
    if isinstance(a, (PList, SSeq)) and isinstance(b, (PList, SSeq)):
        ka, kb = seqkind(a), seqkind(b)
        if ka != kb and {ka, kb} != {'list', 'array'}:
            return False
        sa, sb = it.iterate(a), it.iterate(b)
        na, nb = conc(sa.n), conc(sb.n)
        if not isz(na) and not isz(nb):
            if na != nb:
                return False
            return eq(it, tuple(sa.get(i) for i in range(na)), tuple(sb.get(i) for i in range(nb)))
        if not isz(na) or not isz(nb):
            n = na if not isz(na) else nb
            if not it.p.decide(n_cmp('==', na, nb)):
                return False
            return eq(it, tuple(sa.get(i) for i in range(n)), tuple(sb.get(i) for i in range(n)))
        if it.p.decide(n_cmp('==', na, nb)):
            j = z3.Int("eqj%d" % getattr(it.p, 'quant', 0))
            x, y = sa.get(j), sb.get(j)
            if is_num(x) and is_num(y):
                return z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(na)), B(n_cmp('==', x, y))))
            raise Unsupported("equality of symbolic sequences")
        return False
    if isinstance(a, tuple) and isinstance(b, SSeq) and b.kind == 'tuple' or isinstance(b, tuple) and isinstance(a, SSeq) and a.kind == 'tuple':
        t, s = (a, b) if isinstance(a, tuple) else (b, a)
        if not it.p.decide(n_cmp('==', s.n, len(t))):
            return False
        return eq(it, t, tuple(s.get(i) for i in range(len(t))))
    if isinstance(a, (str, bytes)) and isinstance(b, (str, bytes)):
        return a == b if type(a) is type(b) else False
    if isinstance(a, (StrV, str, bytes)) and isinstance(b, (StrV, str, bytes)):
        if kind_of(a) != kind_of(b):
            return False
        return conc(strterm(it, a) == strterm(it, b))
    if isinstance(a, Rope) or isinstance(b, Rope):
        from . import files
        return files.rope_eq(it, a, b)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return conc(a.term == b.term)
    if isinstance(a, PDict) and isinstance(b, PDict):
        if set(map(repr, a.d)) != set(map(repr, b.d)):
            return False
        r = True
        for k in a.d:
            r = land(r, truth(it, eq(it, a.d[k], b.d[k])))
        return r
    if isinstance(a, PSet) and isinstance(b, PSet):
        return set(a.s) == set(b.s)
    if isinstance(a, Heap) or isinstance(b, Heap):
        if type(a) is type(b):
            return a is b
        return False
    if a is b:
        return True
    if isinstance(a, (Opaque, SMap)) or isinstance(b, (Opaque, SMap)):
        raise Unsupported("equality of %r and %r" % (a, b))
    ta, tb = pytype(a), pytype(b)
    return False

def kind_of(v):
    if isinstance(v, (StrV, Rope)):
        return v.kind
    return 'bytes' if isinstance(v, bytes) else 'str'

def seqkind(v):
    if isinstance(v, PArr):
        return 'array'
    if isinstance(v, PList):
        return 'list'
    if isinstance(v, tuple):
        return 'tuple'
    return v.kind

def same(it, a, b):
    """A condition sufficient for two values to be indistinguishable (used in goals only)."""
    if isinstance(a, (Rope, str, bytes, StrV)) and isinstance(b, (Rope, str, bytes, StrV)) and (isinstance(a, Rope) or isinstance(b, Rope)):
        from . import files
        return B(files.rope_same(it, a, b))
    r = eq(it, a, b) if not (isinstance(a, PObj) or isinstance(b, PObj)) else (a is b)
    return B(r) if isinstance(r, bool) else r

def order(it, op, a, b):
    if it.p.trig is not None and is_num(a) and is_num(b) and (isz(a) or isz(b)):
        return it.p.trig.cmp(op, a, b)
    if (is_num(a) or is_bool(a)) and (is_num(b) or is_bool(b)):
        return conc(n_cmp(op, Z(a) if is_bool(a) else a, Z(b) if is_bool(b) else b))
    if isinstance(a, PNT):
        a = a.vals
    if isinstance(b, PNT):
        b = b.vals
    if isinstance(a, tuple) and isinstance(b, tuple):
        # lexicographic
        for x, y in zip(a, b):
            if not it.p.decide(truth(it, eq(it, x, y))):
                return order(it, {'<=': '<', '>=': '>'}.get(op, op), x, y)
        return {'<': len(a) < len(b), '<=': len(a) <= len(b), '>': len(a) > len(b), '>=': len(a) >= len(b)}[op]
    if isinstance(a, (str, bytes)) and type(a) is type(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[op]
    if isinstance(a, PObj) or isinstance(b, PObj):
        if isinstance(a, PObj):
            f = a.cls.lookup(CMPD[op])
            if f is not None:
                return it.call(PBound(a, f), [b], {})
            if 'total_ordering' in a.cls.flags:
                return total(it, op, a, b)
        if isinstance(b, PObj):
            f = b.cls.lookup(CMPD[SWAP[op]])
            if f is not None:
                return it.call(PBound(b, f), [a], {})
    if isinstance(a, (PList, SSeq)) and isinstance(b, (PList, SSeq)):
        raise Unsupported("ordering of lists")
    if isinstance(a, PSet) and isinstance(b, PSet):
        return {'<=': set(a.s) <= set(b.s), '<': set(a.s) < set(b.s), '>': set(a.s) > set(b.s), '>=': set(a.s) >= set(b.s)}[op]
    if isinstance(a, (Opaque, StrV, Rope)) or isinstance(b, (Opaque, StrV, Rope)):
        if isinstance(a, StrV) and isinstance(b, (StrV, str)) or isinstance(b, StrV) and isinstance(a, str):
            lt = uf("str_lt", StrV.SORT, StrV.SORT, BO)
            x, y = strterm(it, a), strterm(it, b)
            return {'<': lt(x, y), '>': lt(y, x), '<=': z3.Not(lt(y, x)), '>=': z3.Not(lt(x, y))}[op]
        raise Unsupported("ordering of %r and %r" % (a, b))
    raise_(TypeError, "'%s' not supported between these types" % op)

def total(it, op, a, b):
    """functools.total_ordering: the missing comparisons from the one defined and ==."""
    T = lambda x: truth(it, x)
    c = a.cls
    if c.lookup('__lt__'):
        lt = lambda x, y: T(it.call(PBound(x, c.lookup('__lt__')), [y], {}))
        if op == '>':
            return land(lnot(lt(a, b)), lnot(T(eq(it, a, b))))
        if op == '<=':
            return lor(lt(a, b), T(eq(it, a, b)))
        if op == '>=':
            return lnot(lt(a, b))
    if c.lookup('__gt__'):
        gt = lambda x, y: T(it.call(PBound(x, c.lookup('__gt__')), [y], {}))
        if op == '<':
            return land(lnot(gt(a, b)), lnot(T(eq(it, a, b))))
        if op == '>=':
            return lor(gt(a, b), T(eq(it, a, b)))
        if op == '<=':
            return lnot(gt(a, b))
    if c.lookup('__le__'):
        le = lambda x, y: T(it.call(PBound(x, c.lookup('__le__')), [y], {}))
        if op == '>=':
            return lor(lnot(le(a, b)), T(eq(it, a, b)))
        if op == '<':
            return land(le(a, b), lnot(T(eq(it, a, b))))
        if op == '>':
            return lnot(le(a, b))
    if c.lookup('__ge__'):
        ge = lambda x, y: T(it.call(PBound(x, c.lookup('__ge__')), [y], {}))
        if op == '<=':
            return lor(lnot(ge(a, b)), T(eq(it, a, b)))
        if op == '>':
            return land(ge(a, b), lnot(T(eq(it, a, b))))
        if op == '<':
            return lnot(ge(a, b))
    raise_(TypeError, "unorderable")

# ---------------------------------------------------------------- arithmetic
def toint_floor(x):
    """Integer floor of a number."""
    if not isz(x):
        return int(x // 1)
    return z3.ToInt(x) if x.is_real() else x

def trunc(x):
    if not isz(x):
        return int(x)
    if x.is_int():
        return x
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))

def pyround(x):
    if not isz(x):
        return round(x)
    if x.is_int():
        return x
    f = z3.ToInt(x)
    d = x - z3.ToReal(f)
    h = z3.RealVal(Fraction(1, 2))
    return z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))

def div_real(it, a, b):
    if not isz(b):
        if b == 0:
            raise_(ZeroDivisionError, "division by zero")
        if not isz(a):
            return Fraction(a) / Fraction(b)
        return conc(R(a) / z3.RealVal(Fraction(b)))
    if it.p.trig is not None:
        return it.p.trig.div(it, a, b)
    if it.p.decide(n_cmp('==', b, 0)):
        raise_(ZeroDivisionError, "division by zero")
    return R(a) / R(b)

def floordiv(it, a, b):
    if not isz(a) and not isz(b):
        if b == 0:
            raise_(ZeroDivisionError, "integer division or modulo by zero")
        r = a // b
        return Fraction(r) if (isinstance(a, Fraction) or isinstance(b, Fraction)) else r
    if not isz(b) and b == 0 or isz(b) and it.p.decide(n_cmp('==', b, 0)):
        raise_(ZeroDivisionError, "integer division or modulo by zero")
    if is_int(a) and is_int(b):
        a, b = Z(a), Z(b)
        pos = it.p.quick(b > 0)
        if pos is True:
            return a / b
        if pos is False:
            return (-a) / (-b)
        return z3.If(b > 0, a / b, (-a) / (-b))
    return z3.ToReal(z3.ToInt(R(a) / R(b)))

def mod(it, a, b):
    if not isz(a) and not isz(b):
        if b == 0:
            raise_(ZeroDivisionError, "modulo by zero")
        return a % b
    if not isz(b) and b == 0 or isz(b) and it.p.decide(n_cmp('==', b, 0)):
        raise_(ZeroDivisionError, "integer division or modulo by zero")
    if is_int(a) and is_int(b):
        a, b = Z(a), Z(b)
        pos = it.p.quick(b > 0)
        if pos is True:
            return a % b
        if pos is False:
            return -((-a) % (-b))
        return z3.If(b > 0, a % b, -((-a) % (-b)))
    a, b = R(a), R(b)
    return a - b * z3.ToReal(z3.ToInt(a / b))

def power(it, a, b):
    if not isz(b) and (isinstance(b, int) or b.denominator == 1):
        k = int(b)
        if abs(k) <= 64:
            if k < 0:
                return div_real(it, 1, power(it, a, -k))
            r = 1
            for _ in range(k):
                r = n_mul(r, a)
            return R(r) if isinstance(b, Fraction) and isz(r) else r
    if not isz(b) and b == Fraction(1, 2):
        return call_ext(it, 'math.sqrt', [a], {})
    pos = it.p.quick(n_cmp('>', a, 0)) if isz(a) else a > 0
    if pos is not True:
        if it.p.decide(n_cmp('<=', a, 0)):
            raise Unsupported("power of a non-positive base")
    if it.p.trig is not None:
        return it.p.trig.pow(R(a), R(b))
    r = m("pow", a, b)
    it.p.fact(z3.Implies(R(a) > 0, r > 0))
    return r

def is_pow2(n):
    return n > 0 and n & (n - 1) == 0

def bitop(it, op, a, b):
    if not isz(a) and not isz(b):
        return {'&': a & b, '|': a | b, '^': a ^ b}[op]
    r = it.BI_pow2(op, a, b) if hasattr(it, 'BI_pow2') else None
    h = pow2_ops(it, op, a, b)
    if h is not None:
        return h
    if isz(a) and not isz(b):
        a, b = b, a
    if not isz(a):
        # constant a, symbolic b
        if op == '&':
            if a >= 0:
                if is_pow2(a + 1):
                    return b % (a + 1)
                r = 0
                for i in range(a.bit_length()):
                    if a >> i & 1:
                        r = n_add(r, n_mul(1 << i, (b / (1 << i)) % 2))
                return r
            # b & ~c == b - (b & c)
            return n_sub(b, bitop(it, '&', ~a, b)) if ~a != 0 else b
        if op == '|':
            if a >= 0:
                return n_add(b, n_sub(a, bitop(it, '&', a, b)))
        if op == '^':
            if a >= 0:
                return n_sub(n_add(a, b), n_mul(2, bitop(it, '&', a, b)))
    if op in '|^' and isz(a) and isz(b):
        # the bits of the one are below those of the other
        for x, y in ((a, b), (b, a)):
            for k in (1, 2, 3, 4, 5, 6, 7, 8, 16, 24, 32):
                w = 1 << k
                if it.p.quick(z3.And(y >= 0, y < w)) is True and it.p.quick(x % w == 0) is True:
                    return x + y
    raise Unsupported("bit operation on two symbolic integers")

def pow2_ops(it, op, a, b):
    """x & (N-1), x & (2N-1), x ^ N for N a power of two given as a symbol (see contracts: pow2)."""
    syms = getattr(it.p, 'pow2', None)
    if not syms:
        return None
    def mod(x, M):
        # exact for every integer x (M is a power of two); the first cases are the linear ones
        r = x % M
        for lo, d in ((2, 2), (-1, -1), (1, 1), (0, 0)):
            r = z3.If(z3.And(x >= lo * M, x < (lo + 1) * M), x - d * M, r)
        return r
    def bit(x, N):
        b = (x / N) % 2 == 0
        return z3.If(z3.And(x >= 0, x < N), z3.BoolVal(True), z3.If(z3.And(x >= N, x < 2 * N), z3.BoolVal(False), b))
    for N in syms:                       # every N here is known to be a power of two
        for M in (N, 2 * N):
            for x, y in ((a, b), (b, a)):
                if isz(y) and it.p.samewhere(y, M - 1) and op == '&':
                    return mod(Z(x), M)
        for x, y in ((a, b), (b, a)):
            if isz(y) and it.p.samewhere(y, N):
                x = Z(x)
                if op == '^':
                    return z3.If(bit(x, N), x + N, x - N)
                if op == '&':
                    return z3.If(bit(x, N), z3.IntVal(0), N)
                if op == '|':
                    return z3.If(bit(x, N), x + N, x)
    # n & (n-1) for n a power of two
    return None

def shift(it, op, a, b):
    if not isz(a) and not isz(b):
        if b < 0:
            raise_(ValueError, "negative shift count")
        return a << b if op == '<<' else a >> b
    if isz(b):
        b = it.concretize(b, 0, 64)
    if op == '<<':
        return n_mul(a, 1 << b)
    return floordiv(it, a, 1 << b)

def intlike(v):
    return is_int(v) or is_bool(v)

def binop(it, op, a, b):
    an, bn = is_num(a) or is_bool(a), is_num(b) or is_bool(b)
    if an and bn:
        if op in '&|^' and is_bool(a) and is_bool(b):
            f = {'&': land, '|': lor}.get(op)
            return f(a, b) if f else conc(z3.Xor(B(a), B(b)))
        a = (int(a) if isinstance(a, bool) else Z(a)) if is_bool(a) else a
        b = (int(b) if isinstance(b, bool) else Z(b)) if is_bool(b) else b
        if op == '+':
            return n_add(a, b)
        if op == '-':
            return n_sub(a, b)
        if op == '*':
            return n_mul(a, b)
        if op == '/':
            return div_real(it, a, b)
        if op == '//':
            return floordiv(it, a, b)
        if op == '%':
            return mod(it, a, b)
        if op == '**':
            return power(it, a, b)
        if op in ('<<', '>>', '&', '|', '^'):
            if not (is_int(a) and is_int(b)):
                raise_(TypeError, "unsupported operand type(s) for %s" % op)
            return shift(it, op, a, b) if op in ('<<', '>>') else bitop(it, op, a, b)
    if isinstance(a, PObj):
        f = a.cls.lookup('__%s__' % DUNDER[op])
        if f is not None:
            return it.call(PBound(a, f), [b], {})
    if isinstance(b, PObj):
        f = b.cls.lookup('__r%s__' % DUNDER[op])
        if f is not None:
            return it.call(PBound(b, f), [a], {})
        raise_(TypeError, "unsupported operand")
    if isinstance(a, PObj):
        raise_(TypeError, "unsupported operand")
    if op == '%' and isinstance(a, (str, bytes)):
        from . import files
        return files.percent(it, a, b)
    if op == '+':
        if isinstance(a, PNT): a = a.vals
        if isinstance(b, PNT): b = b.vals
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, (str, bytes)) and type(a) is type(b):
            return a + b
        if isinstance(a, (str, bytes, StrV, Rope)) and isinstance(b, (str, bytes, StrV, Rope)):
            if kind_of(a) != kind_of(b):
                raise_(TypeError, "can only concatenate alike strings")
            return join_pieces(it, pieces_of(a) + pieces_of(b), kind_of(a))
        if isinstance(a, PList) and isinstance(b, PList):
            if isinstance(a, PArr) != isinstance(b, PArr):
                raise_(TypeError, "can only concatenate alike sequences")
            c = seq_concat(it, a.content, b.content)
            return it.alloc(PArr(a.tc, c)) if isinstance(a, PArr) else it.newlist(c)
        if isinstance(a, (tuple, SSeq)) and isinstance(b, (tuple, SSeq)) and seqkind(a) == seqkind(b):
            r = seq_concat(it, a if isinstance(a, SSeq) else list(a), b if isinstance(b, SSeq) else list(b))
            if isinstance(r, SSeq):
                r.kind = seqkind(a)
            return r
    if op == '*':
        for s, k in ((a, b), (b, a)):
            if isinstance(s, (str, bytes, tuple)) and intlike(k):
                kk = conc(k)
                if not isz(kk):
                    return s * int(kk)
                if isinstance(s, (str, bytes)):
                    if len(s) == 1:
                        return Rope(kind_of(s), [('rep', z3.If(kk > 0, kk, z3.IntVal(0)), (lambda i: [s]))])
                raise Unsupported("repetition of %r" % (s,))
            if isinstance(s, PList) and intlike(k):
                kk = conc(k)
                c = s.content
                if isinstance(c, list):
                    if not isz(kk):
                        return it.newlist(list(c) * int(kk))
                    if len(c) == 1:
                        x = c[0]
                        n = kk if it.p.quick(kk >= 0) is True else z3.If(kk > 0, kk, z3.IntVal(0))
                        sq = SSeq(n, lambda i: x)
                        from .loops import shape_of
                        sq.eshape = shape_of(x)
                        return it.newlist(sq)
                    if len(c) == 0:
                        return it.newlist([])
                raise Unsupported("repetition of a list")
    if op in '|&-^' and isinstance(a, PSet) and isinstance(b, PSet):
        sa, sb = a.s, b.s
        r = {'|': sa + [x for x in sb if x not in sa], '&': [x for x in sa if x in sb],
             '-': [x for x in sa if x not in sb], '^': [x for x in sa if x not in sb] + [x for x in sb if x not in sa]}[op]
        return it.alloc(PSet(r))
    if isinstance(a, (Opaque,)) or isinstance(b, Opaque):
        raise Unsupported("operation %s on an opaque value" % op)
    raise_(TypeError, "unsupported operand type(s) for %s" % op)

# ---------------------------------------------------------------- sequences
def length(it, v):
    if isinstance(v, (str, bytes, tuple)):
        return len(v)
    if isinstance(v, PNT):
        return len(v.vals)
    if isinstance(v, PList):
        return len(v.content) if isinstance(v.content, list) else v.content.n
    if isinstance(v, SSeq):
        return v.n
    if isinstance(v, PDict):
        return len(v.d)
    if isinstance(v, PSet):
        return len(v.s)
    if isinstance(v, StrV):
        n = uf("strlen", StrV.SORT, I)(v.term)
        it.p.fact(n >= 0)
        return n
    if isinstance(v, Rope):
        from . import files
        return files.rope_len(it, v)
    if isinstance(v, PObj):
        f = v.cls.lookup('__len__')
        if f is not None:
            return it.call(PBound(v, f), [], {})
    raise_(TypeError, "object has no len()")

def seq_concat(it, a, b):
    if isinstance(a, list) and isinstance(b, list):
        return a + b
    if isinstance(a, list) and not a:
        return b
    if isinstance(b, list) and not b:
        return a
    sa = a if isinstance(a, SSeq) else SSeqOf(it, a)
    sb = b if isinstance(b, SSeq) else SSeqOf(it, b)
    na = sa.n
    def get(i):
        c = conc(n_cmp('<', i, na))
        if c is True:
            return sa.get(i)
        if c is False:
            return sb.get(n_sub(i, na))
        h = it.p.quick(c) if not getattr(it.p, 'quant', 0) else None
        if h is True:
            return sa.get(i)
        if h is False:
            return sb.get(n_sub(i, na))
        x, y = None, None
        try:
            x, y = sa.get(i), sb.get(n_sub(i, na))
            return ite(c, x, y)
        except Unsupported:
            return sa.get(i) if it.p.decide(c) else sb.get(n_sub(i, na))
    r = SSeq(n_add(na, sb.n), get, sa.kind)
    from .loops import elem_shape, join
    try:
        r.eshape = join(elem_shape(a), elem_shape(b))
    except Unsupported:
        pass
    return r

def seq_slice(it, sq, lo, hi, kind=None):
    """sq[lo:hi] for 0 <= lo <= hi <= n already normalised."""
    n = conc(n_sub(hi, lo))
    if isz(n):
        n = z3.simplify(n)
    r = SSeq(n, lambda i: sq.get(n_add(lo, i)), kind or sq.kind)
    from .loops import elem_shape
    if hasattr(sq, 'eshape') or hasattr(sq, 'items') or getattr(sq, 'generic', None):
        try:
            r.eshape = elem_shape(sq)
        except Unsupported:
            pass
    return r

def norm_index(it, i, n, default):
    """Clamped slice bound."""
    if i is None:
        return default
    i = conc(i)
    n = conc(n)
    if not isz(i) and not isz(n):
        return max(0, min(n, i + n if i < 0 else i))
    neg = it.p.decide(n_cmp('<', i, 0))
    if neg:
        i = n_add(i, n)
        if it.p.decide(n_cmp('<', i, 0)):
            return 0
        return i
    if it.p.decide(n_cmp('<=', i, n)):
        return i
    return n

def slice_(it, v, k):
    if k.step is not None and not (conc(k.step) == 1):
        if isinstance(v, (str, bytes, tuple)) or isinstance(v, PList) and isinstance(v.content, list):
            st, lo, hi = conc(k.step), conc(k.lower if hasattr(k, 'lower') else k.start), conc(k.stop)
            if any(isz(x) for x in (st, lo, hi)):
                raise Unsupported("slice with a symbolic step")
            if isinstance(v, PList):
                return it.newlist(v.content[slice(lo, hi, st)])
            return v[slice(lo, hi, st)]
        if conc(k.step) == -1 and k.start is None and k.stop is None:
            sq = it.iterate(v)
            return wrap_slice(it, v, SSeq(sq.n, lambda i: sq.get(n_sub(n_sub(sq.n, 1), i)), sq.kind))
        raise Unsupported("slice with a step")
    if isinstance(v, (Rope, StrV)):
        from . import files
        return files.rope_slice(it, v, k.start, k.stop)
    n = length(it, v)
    lo, hi = norm_index(it, k.start, n, 0), norm_index(it, k.stop, n, n)
    if isinstance(v, (str, bytes, tuple)) or isinstance(v, PNT):
        x = v.vals if isinstance(v, PNT) else v
        if not isz(conc(lo)) and not isz(conc(hi)):
            return x[conc(lo):conc(hi)]
        if len(x) <= 64:
            return x[it.concretize(lo, 0, len(x)):it.concretize(hi, 0, len(x))]
        raise Unsupported("slice of a constant by symbolic bounds")
    if it.p.decide(n_cmp('>', lo, hi)):
        hi = lo
    lo, hi = conc(lo), conc(hi)
    if isinstance(v, PList) and isinstance(v.content, list) and not isz(lo) and not isz(hi):
        c = v.content[lo:hi]
        return it.alloc(PArr(v.tc, c)) if isinstance(v, PArr) else it.newlist(c)
    sq = it.iterate(v)
    r = seq_slice(it, sq, lo, hi)
    nn = conc(r.n)
    if not isz(nn) and nn <= 64:
        items = [r.get(i) for i in range(nn)]
        if isinstance(v, SSeq) and v.kind == 'tuple':
            return tuple(items)
        return it.alloc(PArr(v.tc, items)) if isinstance(v, PArr) else it.newlist(items)
    return wrap_slice(it, v, r)

def wrap_slice(it, v, r):
    if isinstance(v, PArr):
        return it.alloc(PArr(v.tc, r))
    if isinstance(v, PList):
        return it.newlist(r)
    if isinstance(v, SSeq):
        return SSeq(r.n, r.get, v.kind)
    return it.newlist(r)

def index(it, v, n, k, what="list"):
    """Normalised index, or IndexError."""
    k, n = conc(k), conc(n)
    if isinstance(k, Fraction) or isz(k) and not is_int(k) and not is_bool(k):
        raise_(TypeError, "%s indices must be integers" % what)
    if is_bool(k):
        k = conc(Z(k))
    if not is_int(k):
        raise_(TypeError, "%s indices must be integers" % what)
    if not isz(k) and not isz(n):
        if -n <= k < n:
            return k if k >= 0 else k + n
        raise_(IndexError, "%s index out of range" % what)
    if it.p.decide(n_cmp('<', k, 0)):
        k = n_add(k, n)
        if it.p.decide(n_cmp('<', k, 0)):
            raise_(IndexError, "%s index out of range" % what)
        return k
    if it.p.decide(n_cmp('>=', k, n)):
        raise_(IndexError, "%s index out of range" % what)
    return k

def getitem(it, o, k):
    if isinstance(o, PObj):
        f = o.cls.lookup('__getitem__')
        if f is not None:
            return it.call(PBound(o, f), [k], {})
        raise_(TypeError, "not subscriptable")
    if isinstance(k, slice):
        return slice_(it, o, k)
    if isinstance(o, PDict):
        if o.tab is not None or tabkey(it, o, k):
            t = totab(it, o, k)
            ks = keyparts(k)
            if not it.p.decide(B(t.dom(*ks))):
                raise_(KeyError, k)
            return t.val(*ks)
        kk = dkey(it, o, k)
        if kk is None:
            raise_(KeyError, k)
        return o.d[kk[0]]
    if isinstance(o, SMap):
        return o.getitem(it, k)
    if isinstance(o, PNT):
        o = o.vals
    if isinstance(o, (str, bytes, tuple)):
        i = index(it, o, len(o), k, type(o).__name__)
        if not isz(i):
            return o[i]
        if isinstance(o, tuple):
            return SSeqOf(it, o).get(i)
        if isinstance(o, str):
            try:
                return o[it.concretize(i, 0, len(o) - 1)]
            except Unsupported:
                raise
        raise Unsupported("symbolic index into bytes")
    if isinstance(o, PList):
        c = o.content
        if isinstance(c, list):
            i = index(it, o, len(c), k)
            if not isz(i):
                return c[i]
            return SSeqOf(it, c).get(i)
        i = index(it, o, c.n, k)
        return link(it, o, i, c.get(i))
    if isinstance(o, SSeq):
        return o.get(index(it, o, o.n, k, o.kind))
    if isinstance(o, Rope) or isinstance(o, StrV):
        from . import files
        return files.rope_index(it, o, k)
    if isinstance(o, PSet):
        raise_(TypeError, "set not subscriptable")
    if o is None or is_num(o):
        raise_(TypeError, "not subscriptable")
    raise Unsupported("subscript of %r" % (o,))

def link(it, lst, i, v):
    """Element views of a list of lists write through to their place."""
    if isinstance(v, PList) and getattr(v, 'frozen', False) and getattr(v, 'parent', None) is None:
        v.parent = (lst, i)
    if isinstance(v, SSeq) and v.kind == 'list':
        w = PList(v)
        it.alloc(w, "elt")
        w.frozen = True
        w.parent = (lst, i)
        return w
    return v

def conv_elem(it, o, v):
    """Check and convert a value stored into a typed array."""
    if not isinstance(o, PArr):
        return v
    tc = o.tc
    if tc in 'bBhHiIlLqQ':
        if not (is_int(v) or is_bool(v)):
            raise_(TypeError, "array item must be integer")
        sz = {'b': 1, 'h': 2, 'i': 4, 'l': 8, 'q': 8}[tc.lower()]
        lo, hi = (0, (1 << 8 * sz) - 1) if tc.isupper() else (-(1 << 8 * sz - 1), (1 << 8 * sz - 1) - 1)
        if not it.p.decide(land(n_cmp('<=', lo, v), n_cmp('<=', v, hi))):
            raise_(OverflowError, "array item out of range")
        return v
    if tc in 'fd':
        if not (is_num(v) or is_bool(v)):
            raise_(TypeError, "must be real number")
        if tc == 'f':
            raise Unsupported("single precision array")
        return R(v) if isz(v) else Fraction(v)
    raise Unsupported("array type %s" % tc)

def setitem(it, o, k, v):
    if isinstance(o, PObj):
        f = o.cls.lookup('__setitem__')
        if f is not None:
            it.call(PBound(o, f), [k, v], {})
            return
        raise_(TypeError, "does not support item assignment")
    if isinstance(o, PDict) and (o.tab is not None or tabkey(it, o, k) and tabvalue(v)):
        if not tabvalue(v):
            raise Unsupported("value %r in a table" % (v,))
        tabset(it, o, k, v)
        return
    if isinstance(o, PDict):
        kk = dkey(it, o, k)
        it.wrote(('content', o.name), o.birth, o)
        o.d[kk[0] if kk is not None else hashable(it, k)] = v
        return
    if isinstance(o, SMap):
        o.setitem(it, k, v)
        return
    if isinstance(o, PList):
        c = o.content
        if isinstance(k, slice):
            return set_slice(it, o, k, v)
        n = len(c) if isinstance(c, list) else c.n
        i = index(it, o, n, k)
        v = conv_elem(it, o, v)
        it.setcontent(o, upd(it, c, i, v))
        return
    raise_(TypeError, "object does not support item assignment")

def upd(it, c, i, v):
    r = it.seq_update(c, i, v)
    if isinstance(r, SSeq):
        from .loops import elem_shape, join, shape_of
        try:
            r.eshape = join(elem_shape(c), shape_of(v))
        except Unsupported:
            pass
    return r

def set_slice(it, o, k, v):
    c = o.content
    n = len(c) if isinstance(c, list) else c.n
    lo, hi = norm_index(it, k.start, n, 0), norm_index(it, k.stop, n, n)
    if k.step is not None:
        raise Unsupported("extended slice assignment")
    if isinstance(o, PArr) and not isinstance(v, PArr):
        raise_(TypeError, "can only assign array to array slice")
    vs = it.iterate(v)
    d = conc(n_sub(hi, lo))
    m = conc(vs.n)
    if isinstance(c, list) and not isz(conc(lo)) and not isz(conc(hi)) and not isz(m):
        c2 = list(c)
        c2[conc(lo):conc(hi)] = [conv_elem(it, o, vs.get(i)) for i in range(m)]
        it.setcontent(o, c2)
        return
    if not isz(m) and it.p.quick(n_cmp('==', d, m)) is True:
        cur = c
        for i in range(m):
            cur = upd(it, cur, n_add(lo, i), conv_elem(it, o, vs.get(i)))
        it.setcontent(o, cur)
        return
    if it.p.decide(n_cmp('>', lo, hi)):
        hi = lo
    sq = c if isinstance(c, SSeq) else SSeqOf(it, c)
    out = seq_concat(it, seq_concat(it, seq_slice(it, sq, 0, lo), vs), seq_slice(it, sq, hi, n))
    it.setcontent(o, out)

def delitem(it, o, k):
    if isinstance(o, PDict):
        kk = dkey(it, o, k)
        if kk is None:
            raise_(KeyError, k)
        it.wrote(('content', o.name), o.birth, o)
        del o.d[kk[0]]
        return
    if isinstance(o, PList) and isinstance(o.content, list):
        if isinstance(k, slice):
            c = list(o.content)
            del c[k]
            it.setcontent(o, c)
            return
        i = index(it, o, len(o.content), k)
        if not isz(i):
            c = list(o.content)
            del c[i]
            it.setcontent(o, c)
            return
    if isinstance(o, PList) and isinstance(o.content, SSeq) and not isinstance(k, slice):
        n = o.content.n
        i = index(it, o, n, k)
        it.setcontent(o, seq_concat(it, seq_slice(it, o.content, 0, i), seq_slice(it, o.content, n_add(i, 1), n)))
        return
    raise Unsupported("del item")

# dictionaries with host keys; keys that are symbolic terms are compared by deciding equality
def hashable(it, k):
    if isinstance(k, (PList, PDict, PSet)):
        raise_(TypeError, "unhashable type")
    return k if not isinstance(k, (z3.ExprRef, StrV, Opaque, Rope)) else SKey(k)

class SKey:
    def __init__(self, v):
        self.v = v
    def __hash__(self):
        return 0
    def __eq__(self, o):
        return isinstance(o, SKey) and (o.v is self.v or (isz(self.v) and isz(o.v) and self.v.eq(o.v)) or
                                        (isinstance(self.v, StrV) and isinstance(o.v, StrV) and self.v.term.eq(o.v.term)))
    def __repr__(self):
        return repr(self.v)

def unkey(k):
    return k.v if isinstance(k, SKey) else k

def keyparts(k):
    return k if isinstance(k, tuple) else (k,)

def ksig(x):
    return 'i' if is_int(x) else 'v' if isinstance(x, Opaque) else 's' if isinstance(x, StrV) else None

def kterm(x):
    return x.term if isinstance(x, (Opaque, StrV)) else Z(x) if is_num(x) else x

KSORT = {'i': z3.IntSort(), 'v': Opaque.SORT, 's': StrV.SORT}

def tabkey(it, o, k):
    """A symbolic key (made of integers, or one unknown value), for a dictionary with only such keys."""
    if isinstance(k, Opaque):
        return not o.d
    if not (isinstance(k, tuple) and k and all(is_int(x) for x in k) and any(isz(conc(x)) for x in k)):
        return False
    return all(isinstance(x, tuple) and len(x) == len(k) and all(is_int(y) for y in x) and is_num(v) for x, v in o.d.items())

def tabvalue(v):
    return is_num(v) or isinstance(v, (Opaque, StrV)) or isinstance(v, (PNT, tuple)) and all(tabvalue(x) for x in (v.vals if isinstance(v, PNT) else v))

def totab(it, o, k, v=0):
    ks = keyparts(k)
    sig = tuple(ksig(x) for x in ks)
    if o.tab is None:
        items = list(o.d.items())
        real = any(not is_int(x) for x in list(o.d.values()) + [v])
        cv = R if real else Z
        def dom(*xs):
            return z3.Or(*[z3.And(*[Z(a) == Z(b) for a, b in zip(kk, xs)]) for kk, _ in items]) if items else z3.BoolVal(False)
        def val(*xs):
            r = z3.RealVal(0) if real else z3.IntVal(0)
            for kk, w in items:
                r = z3.If(z3.And(*[Z(a) == Z(b) for a, b in zip(kk, xs)]), cv(w), r)
            return r
        o.d = {}
        o.tab = Tab(len(ks), dom, val, None if not items else 'real' if real else 'int', sig)
    if o.tab.sig != sig:
        raise Unsupported("key %r of a table" % (k,))
    return o.tab

def tabset(it, o, k, v):
    t = totab(it, o, k, v if is_num(v) else 0)
    kt = [kterm(x) for x in keyparts(k)]
    hit = lambda xs: z3.And(*[kterm(x) == y for x, y in zip(xs, kt)]) if len(kt) > 1 else kterm(xs[0]) == kt[0]
    it.wrote(('content', o.name), o.birth, o)
    dom = lambda *xs: z3.Or(hit(xs), B(t.dom(*xs)))
    if is_num(v) and t.vshape in (None, 'int', 'real'):
        vs = 'real' if t.vshape == 'real' or not is_int(v) else 'int'
        cv = R if vs == 'real' else Z
        o.tab = Tab(t.arity, dom, lambda *xs: z3.If(hit(xs), cv(v), cv(t.val(*xs))), vs, t.sig)
        return
    from .loops import shape_of, join
    o.tab = Tab(t.arity, dom, (lambda *xs: v) if t.vshape is None else (lambda *xs: ite(hit(xs), v, t.val(*xs))), join(t.vshape, shape_of(v)), t.sig)

def dkey(it, o, k):
    """(existing key,) equal to k, or None."""
    h = hashable(it, k)
    if isinstance(h, SKey) or any(isinstance(x, SKey) for x in o.d) or has_sym(h):
        for x in o.d:
            if it.p.decide(truth(it, eq(it, unkey(x), k))):
                return (x,)
        return None
    try:
        return (h,) if h in o.d else None
    except TypeError:
        raise Unsupported("dictionary key %r" % (k,))

def has_sym(k):
    if isinstance(k, tuple):
        return any(has_sym(x) for x in k)
    return isinstance(k, (z3.ExprRef, StrV, Opaque, Rope, PNT))

def contains(it, o, x):
    if isinstance(o, PObj):
        f = o.cls.lookup('__contains__')
        if f is not None:
            return truth(it, it.call(PBound(o, f), [x], {}))
    if isinstance(o, (str, bytes)) and isinstance(x, (str, bytes)):
        return x in o
    if isinstance(o, PDict):
        if o.tab is not None or tabkey(it, o, x):
            return B(totab(it, o, x).dom(*keyparts(x)))
        return dkey(it, o, x) is not None
    if isinstance(o, SMap):
        return o.contains(it, x)
    if isinstance(o, PSet):
        r = False
        for y in o.s:
            r = lor(r, truth(it, eq(it, y, x)))
        return r
    if isinstance(o, (StrV, Rope)) or isinstance(o, str):
        return uf("str_in", StrV.SORT, StrV.SORT, BO)(strterm(it, x), strterm(it, o))
    if isinstance(o, (tuple, PList, SSeq, PNT)):
        sq = it.iterate(o)
        n = conc(sq.n)
        if not isz(n):
            r = False
            for i in range(n):
                r = lor(r, truth(it, eq(it, sq.get(i), x)))
            return r
        j = z3.Int(it.p.fresh_name("mem"))
        it.p.quant = getattr(it.p, 'quant', 0) + 1
        try:
            b = truth(it, eq(it, sq.get(j), x))
        finally:
            it.p.quant -= 1
        return z3.Exists([j], z3.And(j >= 0, j < Z(n), B(b)))
    raise Unsupported("membership in %r" % (o,))

def iterate(it, v, consume=False):
    """SSeq view of an iterable (what remains of it, for an iterator)."""
    if isinstance(v, SSeq):
        return v
    if isinstance(v, PList):
        c = v.content
        if isinstance(c, list):
            return SSeqOf(it, list(c))
        w = SSeq(c.n, (lambda i: link(it, v, i, c.get(i))), c.kind)
        for a in ('eshape', 'generic'):
            if hasattr(c, a):
                setattr(w, a, getattr(c, a))
        return w
    if isinstance(v, tuple):
        return SSeqOf(it, list(v), 'tuple')
    if isinstance(v, PNT):
        return SSeqOf(it, list(v.vals), 'tuple')
    if isinstance(v, PIter):
        sq, pos = v.seq, v.pos
        if consume:
            it.setpos(v, sq.n)
        if not isz(conc(pos)) and conc(pos) == 0:
            return sq
        return seq_slice(it, sq, pos, sq.n)
    if isinstance(v, str):
        return SSeqOf(it, list(v), 'str')
    if isinstance(v, bytes):
        return SSeqOf(it, list(v), 'bytes')
    if isinstance(v, PDict):
        return SSeqOf(it, [unkey(k) for k in v.d])
    if isinstance(v, PSet):
        return SSeqOf(it, list(v.s))
    if isinstance(v, PFile):
        from . import files
        return files.iterate(it, v)
    if isinstance(v, (Rope, StrV)):
        from . import files
        return files.rope_iter(it, v)
    if isinstance(v, PObj):
        f = v.cls.lookup('__iter__')
        if f is not None:
            return iterate(it, it.call(PBound(v, f), [], {}), consume)
        f = v.cls.lookup('__getitem__')
        if f is not None:
            raise Unsupported("iteration by __getitem__")
    if isinstance(v, Opaque) and getattr(v, 'seq', None) is not None:
        return v.seq
    if v is None or is_num(v) or is_bool(v) or isinstance(v, PObj):
        raise_(TypeError, "object is not iterable")
    raise Unsupported("iteration over %r" % (v,))

def list_append(it, l, v):
    c = l.content
    v = conv_elem(it, l, v)
    if isinstance(c, list):
        it.setcontent(l, c + [v])
        return
    n = c.n
    def get(i):
        if it.p.samewhere(i, n):
            return v
        return it.merge(n_cmp('==', i, n), v, lambda: c.get(i))
    r = SSeq(n_add(n, 1), get, c.kind)
    from .loops import elem_shape, join, shape_of
    try:
        r.eshape = join(elem_shape(c), shape_of(v))
    except Unsupported:
        pass
    it.setcontent(l, r)

def list_extend(it, l, v):
    vs = iterate(it, v, True)
    n = conc(vs.n)
    if isz(n):
        m_ = it.p.small(n)
        n = m_ if m_ is not None else n
    if not isz(n) and n <= 64:
        for i in range(n):
            list_append(it, l, vs.get(i))
        return
    it.setcontent(l, seq_concat(it, l.content, vs))

def mkset(it, items):
    out = []
    for x in items:
        hashable(it, x)
        dup = False
        for y in out:
            if it.p.decide(truth(it, eq(it, x, y))):
                dup = True
                break
        if not dup:
            out.append(x)
    return it.alloc(PSet(out))

def dict_update(it, d, o):
    if isinstance(o, PDict):
        for k, v in o.d.items():
            setitem(it, d, unkey(k), v)
    elif isinstance(o, SMap) or isinstance(d, SMap):
        raise Unsupported("update of a symbolic dictionary")
    else:
        sq = iterate(it, o)
        for i in range(it.concretize(sq.n)):
            k, v = it.unpack(sq.get(i), 2)
            setitem(it, d, k, v)

# ---------------------------------------------------------------- attributes
def slots(it, cls):
    """Allowed attributes when every class of the hierarchy has __slots__, else None."""
    out = set()
    for c in cls.mro():
        s = c.d.get('__slots__')
        if s is None:
            return None
        out |= {s} if isinstance(s, str) else set(it.unpack(s, None))
    return out

def getattr_(it, o, name):
    if isinstance(o, PObj):
        if name in o.fields:
            return o.fields[name]
        if name == '__class__':
            return o.cls
        if name == '__dict__':
            raise Unsupported("__dict__")
        c = o.cls.lookup(name)
        if c is None:
            bb = o.cls.builtin_base()
            if bb is not None and name == 'args':
                return o.fields.get('args', ())
            f = o.cls.lookup('__getattr__')
            if f is not None:
                return it.call(PBound(o, f), [name], {})
            if 'total_ordering' in o.cls.flags and name in ('__lt__', '__le__', '__gt__', '__ge__'):
                op = {v: k for k, v in CMPD.items()}[name]
                return Builtin(name, lambda b: total(it, op, o, b))
            if name == '__ne__' and o.cls.lookup('__eq__'):
                return Builtin(name, lambda b: lnot(truth(it, eq(it, o, b))))
            raise_(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.name, name))
        if isinstance(c, PProp):
            return it.call(c.func, [o], {})
        if isinstance(c, PStatic):
            return c.func if c.kind == 'static' else PBound(o.cls, c.func)
        if isinstance(c, PFunc) or getattr(o.cls, 'binds', False) and isinstance(c, Builtin):
            return PBound(o, c)
        return c
    if isinstance(o, PModule):
        if name in o.d:
            return o.d[name]
        raise_(AttributeError, "module '%s' has no attribute '%s'" % (o.name, name))
    if isinstance(o, NTClass):
        if name == '_fields':
            return o.nt_fields
        if name == '_make':
            def make(x):
                sq = it.iterate(x)
                n = conc(sq.n)
                if isz(n):
                    raise Unsupported("_make of a symbolic number of values")
                if n != len(list(o.nt_fields)):
                    raise_(TypeError, "expected %d arguments" % len(list(o.nt_fields)))
                return PNT(o, [sq.get(i) for i in range(n)])
            return Builtin('_make', make)
        if name == '__name__':
            return o.name
    if isinstance(o, PClass):
        if name == '__name__':
            return o.name
        if name == '__qualname__':
            return o.qualname
        c = o.lookup(name)
        if isinstance(c, PStatic):
            return c.func if c.kind == 'static' else PBound(o, c.func)
        if c is not None or any(name in k.d for k in o.mro()):
            return c
        raise_(AttributeError, name)
    if isinstance(o, Ext):
        return ext_attr(it, o.path + '.' + name)
    if isinstance(o, Builtin) and hasattr(o, 'attrs') and name in o.attrs:
        return o.attrs[name]
    if isinstance(o, Builtin) and hasattr(o, 'host') and name == '__name__':
        return o.name
    if isinstance(o, (PFunc, PBound, Builtin)) and name in ('cache_clear', 'cache_info'):
        return Builtin(name, lambda *a: None)
    if isinstance(o, (PFunc,)) and name == '__name__':
        return o.name
    if isinstance(o, PNT):
        f = list(o.cls.nt_fields)
        if name in f:
            return o.vals[f.index(name)]
        if name == '_fields':
            return o.cls.nt_fields
        if name == '_asdict':
            return Builtin('_asdict', lambda: it.alloc(PDict(dict(zip(f, o.vals)))))
        if name == '_replace':
            return Builtin('_replace', lambda **kw: PNT(o.cls, [kw.get(n, v) for n, v in zip(f, o.vals)]))
        if name in ('index', 'count'):
            o = o.vals
        else:
            raise_(AttributeError, name)
    if isinstance(o, PExc):
        if name == 'args':
            return o.args
    h = getattr(o, 'getattr', None)
    if h is not None and isinstance(o, (Heap, SMap)):
        return h(it, name)
    if name in ('__getitem__', '__len__', '__contains__') and isinstance(o, (PList, PDict, PSet, SSeq, tuple, str, bytes, Rope, StrV)):
        return Builtin(name, {'__getitem__': lambda k: getitem(it, o, k), '__len__': lambda: length(it, o), '__contains__': lambda x: contains(it, o, x)}[name])
    meth = method(it, o, name)
    if meth is not None:
        return Builtin(name, meth)
    if isinstance(o, (Opaque,)):
        raise Unsupported("attribute %s of an opaque value" % name)
    raise_(AttributeError, "'%s' object has no attribute '%s'" % (pytype(o), name))

def pytype(v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return 'bool'
    if isinstance(v, int) or isinstance(v, z3.ArithRef) and v.is_int():
        return 'int'
    if isinstance(v, Fraction) or isinstance(v, z3.ArithRef):
        return 'float'
    if v is None:
        return 'NoneType'
    if isinstance(v, (str, bytes, tuple)):
        return type(v).__name__
    if isinstance(v, (StrV, Rope)):
        return v.kind
    if isinstance(v, PArr):
        return 'array'
    if isinstance(v, PList):
        return 'list'
    if isinstance(v, SSeq):
        return v.kind
    if isinstance(v, PNT):
        return 'tuple'
    if isinstance(v, (PDict, SMap)):
        return 'dict'
    if isinstance(v, PSet):
        return 'set'
    if isinstance(v, PObj):
        return v.cls.name
    if isinstance(v, PIter):
        return 'generator'
    if isinstance(v, PFile):
        return 'file'
    if isinstance(v, (PFunc, PBound, Builtin)):
        return 'function'
    if isinstance(v, PClass):
        return 'type'
    return type(v).__name__

def isinstance_(it, v, t):
    if isinstance(t, tuple):
        r = False
        for x in t:
            r = lor(r, isinstance_(it, v, x))
        return r
    if isinstance(t, PClass):
        if isinstance(v, PObj):
            return v.cls.is_subclass(t)
        if isinstance(v, PNT):
            return v.cls is t
        if isinstance(v, PExc):
            return False
        return False
    host = getattr(t, 'host', None)
    if host is None:
        if isinstance(t, Ext):
            if t.path == 'array.array':
                return isinstance(v, PArr)
            return False
        raise Unsupported("isinstance with %r" % (t,))
    if host is object:
        return True
    if isinstance(v, PExc):
        return issubclass(v.cls, host)
    if isinstance(v, PObj):
        bb = v.cls.builtin_base()
        return bb is not None and issubclass(bb, host)
    if isinstance(v, Opaque):
        raise Unsupported("type of an opaque value")
    n = pytype(v)
    names = {'bool': (bool, int), 'int': (int,), 'float': (float,), 'NoneType': (type(None),), 'str': (str,),
             'bytes': (bytes,), 'tuple': (tuple,), 'list': (list,), 'dict': (dict,), 'set': (set,), 'type': (type,)}
    return host in names.get(n, ())

# ---------------------------------------------------------------- instantiation
def instantiate(it, cls, args, kwargs):
    if isinstance(cls, NTClass):
        f = list(cls.nt_fields)
        vals = dict(zip(f, args))
        if len(args) > len(f):
            raise_(TypeError, "too many arguments")
        for k, v in kwargs.items():
            if k not in f or k in vals:
                raise_(TypeError, "bad argument %s" % k)
            vals[k] = v
        if len(vals) != len(f):
            raise_(TypeError, "__new__() missing arguments")
        return PNT(cls, [vals[n] for n in f])
    bb = None
    for c in cls.mro():
        for b in c.bases:
            if isinstance(b, Ext) and b.path == 'array.array':
                a = call_ext(it, 'array.array', args, kwargs)
                a.pycls = cls
                return a
    init = cls.lookup('__init__')
    o = it.alloc(PObj(cls))
    bb = cls.builtin_base()
    if bb is not None and issubclass(bb, BaseException):
        o.fields['args'] = tuple(args)
    if init is not None:
        it.call(PBound(o, init), args, kwargs)
    elif bb is None and (args or kwargs):
        raise_(TypeError, "%s() takes no arguments" % cls.name)
    return o

# ---------------------------------------------------------------- folds
def fold_sum(it, sq, start=0):
    """sum over a sequence of symbolic length: S(n) with S(0)=0, S(i+1)=S(i)+f(i), S named by f."""
    p = it.p
    n = conc(sq.n)
    if not isz(n):
        r = start
        for i in range(n):
            r = binop(it, '+', r, sq.get(i))
        return r
    J = z3.Int("J!sum")
    p.quant = getattr(p, 'quant', 0) + 1
    try:
        body = sq.get(J)
    finally:
        p.quant -= 1
    if not is_num(body):
        raise Unsupported("sum of non-numbers")
    S = sum_fn(it, body, J)
    return n_add(start, S(n))

def sum_fn(it, body, J):
    """The partial-sum function of a summand term; equal summands give the same function."""
    b = z3.simplify(Z(body), som=True)
    key = ("sum", b.sexpr(), str(b.sort()))
    table = it.p.folds
    if key not in table:
        params = [c for c in consts(b) if not c.eq(J)]
        nm = "Sum<%s>" % b.sexpr().replace("\n", " ")[:2000]
        f = z3.Function(nm, *([c.sort() for c in params] + [I, b.sort()]))
        table[key] = (f, params, b)
    f, params, b = table[key]
    def S(n):
        ap = lambda x: f(*(params + [Z(x)]))
        z = ap(0)
        it.p.fact(z == 0)
        n = Z(n)
        if not z3.is_int_value(z3.simplify(n)) or z3.simplify(n).as_long() > 0:
            pass
        # unfold one step at n - 1
        it.p.fact(z3.Implies(n >= 1, ap(n) == ap(z3.simplify(n - 1)) + z3.substitute(b, (J, z3.simplify(n - 1)))))
        return ap(z3.simplify(n))
    return S

def consts(e):
    out, st, seen = [], [e], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        st.extend(x.children())
    return sorted(out, key=lambda c: c.decl().name())

# ---------------------------------------------------------------- the table of builtins
def table(it):
    p = it.p
    T = {}
    def reg(name, fn, host=None):
        b = Builtin(name, fn)
        if host is not None:
            b.host = host
        T[name] = b
        return b
    def b_len(x):
        return length(it, x)
    reg('len', b_len)
    def b_abs(x):
        if isinstance(x, bool):
            return int(x)
        if not isz(x):
            if not is_num(x):
                raise_(TypeError, "bad operand type for abs()")
            return abs(x)
        if p.trig is not None:
            return x if p.decide(p.trig.cmp('>=', x, 0)) else conc(p.trig.simp(-R(x)))
        return z3.If(x >= 0, x, -x)
    reg('abs', b_abs)
    def minmax(op):
        def f(*args, **kw):
            key = kw.pop('key', None)
            default = kw.pop('default', None)
            if kw:
                raise_(TypeError, "unexpected keyword")
            if len(args) == 1:
                sq = it.iterate(args[0], True)
                n = conc(sq.n)
                if isz(n):
                    return sym_minmax(it, sq, op, key, default)
                if n == 0:
                    if default is not None:
                        return default
                    raise_(ValueError, "arg is an empty sequence")
                vals = [sq.get(i) for i in range(n)]
            else:
                vals = list(args)
            best = vals[0]
            kb = it.call(key, [best], {}) if key else best
            for v in vals[1:]:
                kv = it.call(key, [v], {}) if key else v
                c = truth(it, order(it, op, kv, kb))
                if p.trig is not None and is_num(kv) and is_num(kb):
                    # equal values may be exchanged: take the new one unless it is strictly worse
                    c = truth(it, order(it, op + '=', kv, kb))
                    if p.decide(True if c is True or isz(c) and p.holds(c) else c):
                        best, kb = v, kv
                    continue
                if (is_num(kv) and is_num(kb)):
                    try:
                        nb = ite(c, v, best)
                        kb = ite(c, kv, kb)
                        best = nb
                        continue
                    except Unsupported:
                        pass
                if p.decide(c):
                    best, kb = v, kv
            return best
        return f
    reg('min', minmax('<'))
    reg('max', minmax('>'))
    def b_sum(x, start=0):
        return fold_sum(it, it.iterate(x, True), start)
    reg('sum', b_sum)
    def b_range(*a):
        a = [conc(Z(x)) if is_bool(x) else x for x in a]
        for x in a:
            if not is_int(x):
                raise_(TypeError, "range() needs integers")
        if len(a) == 1:
            lo, hi, st = 0, a[0], 1
        elif len(a) == 2:
            (lo, hi), st = a, 1
        else:
            lo, hi, st = a
        st = conc(st)
        if isz(st):
            raise Unsupported("range with a symbolic step")
        if st == 0:
            raise_(ValueError, "range() arg 3 must not be zero")
        d = n_sub(hi, lo) if st > 0 else n_sub(lo, hi)
        s = abs(st)
        n = conc(d)
        if isz(n):
            if s != 1:
                n = (n + (s - 1)) / s
            q = p.quick(n >= 0)
            if q is not True:
                n = z3.If(n > 0, n, z3.IntVal(0))
        else:
            n = max(0, -(-n // s))
        r = SSeq(n, lambda i: n_add(lo, n_mul(i, st)), 'range')
        r.eshape = 'int'
        return r
    reg('range', b_range)
    def b_zip(*a):
        sqs = [it.iterate(x, True) for x in a]
        if not sqs:
            return it.alloc(PIter(SSeqOf(it, [])))
        n = sqs[0].n
        for q in sqs[1:]:
            c = n_cmp('<=', n, q.n)
            if isinstance(c, bool):
                n = n if c else q.n
            else:
                h = p.quick(c)
                n = n if h is True else q.n if h is False else z3.If(c, Z(n), Z(q.n))
        r = SSeq(conc(n), lambda i: tuple(q.get(i) for q in sqs))
        from .loops import elem_shape
        try:
            r.eshape = ('tuple', tuple(elem_shape(q) for q in sqs))
        except Unsupported:
            pass
        return it.alloc(PIter(r))
    reg('zip', b_zip)
    def b_enumerate(x, start=0):
        sq = it.iterate(x, True)
        r = SSeq(sq.n, lambda i: (n_add(start, i), sq.get(i)))
        return it.alloc(PIter(r))
    reg('enumerate', b_enumerate)
    def b_map(f, *seqs):
        if len(seqs) == 1:
            sq = it.iterate(seqs[0], True)
        else:
            sq = b_zip(*seqs).seq
        ap = (lambda x: it.call(f, [x], {})) if len(seqs) == 1 else (lambda x: it.call(f, list(x), {}))
        n = conc(sq.n)
        if isz(n):
            return it.alloc(PIter(it.map_seq(sq, ap)))
        return it.alloc(PIter(SSeqOf(it, [ap(sq.get(i)) for i in range(n)])))
    reg('map', b_map)
    def b_filter(f, x):
        sq = it.iterate(x, True)
        n = conc(sq.n)
        if isz(n):
            raise Unsupported("filter over a symbolic sequence")
        vals = [sq.get(i) for i in range(n)]
        return it.alloc(PIter(SSeqOf(it, [v for v in vals if p.decide(truth(it, it.call(f, [v], {}) if f is not None else v))])))
    reg('filter', b_filter)
    def b_sorted(x, key=None, reverse=False):
        return it.newlist(sort_seq(it, it.iterate(x, True), key, reverse))
    reg('sorted', b_sorted)
    def b_reversed(x):
        sq = it.iterate(x)
        return it.alloc(PIter(SSeq(sq.n, lambda i: sq.get(n_sub(n_sub(sq.n, 1), i)), sq.kind)))
    reg('reversed', b_reversed)
    def quantified(isall):
        def f(x):
            sq = it.iterate(x, True)
            n = conc(sq.n)
            if not isz(n):
                r = isall
                for i in range(n):
                    t = truth(it, sq.get(i))
                    r = land(r, t) if isall else lor(r, t)
                return r
            j = z3.Int(p.fresh_name("q"))
            p.quant = getattr(p, 'quant', 0) + 1
            try:
                b = B(truth(it, sq.get(j)))
            finally:
                p.quant -= 1
            rng = z3.And(j >= 0, j < Z(n))
            return z3.ForAll([j], z3.Implies(rng, b)) if isall else z3.Exists([j], z3.And(rng, b))
        return f
    reg('all', quantified(True))
    reg('any', quantified(False))
    def b_list(x=None):
        if x is None:
            return it.newlist([])
        sq = it.iterate(x, True)
        n = conc(sq.n)
        if not isz(n):
            return it.newlist([sq.get(i) for i in range(n)])
        return it.newlist(sq)
    reg('list', b_list, list)
    def b_tuple(x=None):
        if x is None:
            return ()
        if isinstance(x, tuple):
            return x
        sq = it.iterate(x, True)
        n = conc(sq.n)
        if not isz(n):
            return tuple(sq.get(i) for i in range(n))
        r = SSeq(sq.n, sq.get, 'tuple')
        if hasattr(sq, 'eshape'):
            r.eshape = sq.eshape
        return r
    reg('tuple', b_tuple, tuple)
    def b_dict(*a, **kw):
        d = it.alloc(PDict())
        for x in a:
            dict_update(it, d, x)
        for k, v in kw.items():
            d.d[k] = v
        return d
    reg('dict', b_dict, dict)
    T['dict'].attrs = {}
    def b_set(x=None):
        if x is None:
            return it.alloc(PSet())
        sq = it.iterate(x, True)
        n = conc(sq.n)
        if isz(n):
            raise Unsupported("set of a symbolic sequence")
        return mkset(it, [sq.get(i) for i in range(n)])
    reg('set', b_set, set)
    reg('frozenset', b_set, frozenset)
    def b_int(x=0, base=None):
        if isinstance(x, (str, bytes)):
            try:
                return int(x) if base is None else int(x, base)
            except ValueError as e:
                raise_(ValueError, str(e))
        if is_bool(x):
            return int(x) if isinstance(x, bool) else Z(x)
        if is_num(x):
            return conc(trunc(x))
        if isinstance(x, (StrV, Rope)):
            from . import files
            return files.str_to_num(it, x, 'int')
        raise_(TypeError, "int() argument must be a string or a number")
    reg('int', b_int, int)
    def b_float(x=0):
        if isinstance(x, (str, bytes)):
            try:
                return Fraction(x if isinstance(x, str) else x.decode())
            except ValueError as e:
                raise_(ValueError, str(e))
        if is_bool(x):
            return Fraction(int(x)) if isinstance(x, bool) else R(x)
        if is_num(x):
            return R(x) if isz(x) else Fraction(x)
        if isinstance(x, (StrV, Rope)):
            from . import files
            return files.str_to_num(it, x, 'float')
        raise_(TypeError, "float() argument must be a string or a number")
    reg('float', b_float, float)
    reg('bool', lambda x=False: truth(it, x), bool)
    def b_str(x="", *enc):
        if isinstance(x, (str, StrV)) or isinstance(x, Rope) and x.kind == 'str':
            return x
        return join_pieces(it, [fmt_value(it, x, "", None)])
    reg('str', b_str, str)
    T['str'].attrs = {'maketrans': Builtin('maketrans', lambda *a: str.maketrans(*a)),
                      'join': Builtin('join', lambda s, x: method(it, s, 'join')(x)),
                      'format': Builtin('format', lambda s, *a, **k: method(it, s, 'format')(*a, **k))}
    reg('repr', lambda x: join_pieces(it, [fmt_value(it, x, "", 'r')]))
    def b_bytes(x=b"", *enc):
        if isinstance(x, bytes):
            return x
        if isinstance(x, str):
            return x.encode(*enc)
        if is_int(x):
            if isz(x):
                raise Unsupported("bytes(n)")
            return bytes(x)
        sq = it.iterate(x, True)
        n = conc(sq.n)
        if isz(n):
            one = sq.get(z3.Int("probe"))
            if not is_int(one) or is_bool(one):
                raise Unsupported("bytes of a symbolic sequence")
            i = it.p.int("at")
            out = z3.And(i >= 0, i < n, z3.Or(Z(sq.get(i)) < 0, Z(sq.get(i)) > 255))
            if it.p.decide(out):
                raise_(ValueError, "bytes must be in range(0, 256)")
            from . import files
            return files.from_codes(it, SSeq(n, lambda j: Z(sq.get(j))), 'bytes')
        from . import files
        out = []
        for i in range(n):
            v = sq.get(i)
            if not it.p.decide(land(n_cmp('<=', 0, v), n_cmp('<=', v, 255))):
                raise_(ValueError, "bytes must be in range(0, 256)")
            out.append(bytes([v]) if not isz(v) else ('pk', 'B', v))
        return join_pieces(it, out, 'bytes')
    reg('bytes', b_bytes, bytes)
    reg('bytearray', b_bytes, bytearray)
    def b_ord(x):
        if isinstance(x, (str, bytes)):
            if len(x) != 1:
                raise_(TypeError, "ord() expected a character")
            return ord(x)
        from . import files
        return files.b_ord(it, x)
    reg('ord', b_ord)
    reg('chr', lambda x: chr(x) if not isz(x) else StrV(uf("chr", I, StrV.SORT)(x)))
    def b_hex(x):
        if not isz(x):
            return hex(x)
        if p.decide(z3.And(x >= 0, x < 16)):
            return Rope('str', ['0x', ('seq', SSeq(z3.IntVal(1), lambda i: z3.If(x < 10, 48 + x, 87 + x)))])
        return Rope('str', [('fmt', x, '#x')])
    reg('hex', b_hex)
    reg('isinstance', lambda v, t: isinstance_(it, v, t))
    def b_issubclass(c, t):
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            if isinstance(c, PClass) and isinstance(x, PClass) and c.is_subclass(x):
                return True
            if isinstance(c, PClass) and hasattr(x, 'host') and x.host is object:
                return True
        return False
    reg('issubclass', b_issubclass)
    def b_hasattr(o, n):
        try:
            it.getattr(o, n)
            return True
        except PyRaise as e:
            if isinstance(e.exc, PExc) and issubclass(e.exc.cls, AttributeError):
                return False
            raise
    reg('hasattr', b_hasattr)
    def b_getattr(o, n, *d):
        if not isinstance(n, str):
            raise Unsupported("getattr with a symbolic name")
        try:
            return it.getattr(o, n)
        except PyRaise as e:
            if d and isinstance(e.exc, PExc) and issubclass(e.exc.cls, AttributeError):
                return d[0]
            raise
    reg('getattr', b_getattr)
    reg('setattr', lambda o, n, v: it.setattr(o, n, v))
    def b_iter(x):
        if isinstance(x, PIter):
            return x
        return it.alloc(PIter(it.iterate(x)))
    reg('iter', b_iter)
    def b_next(x, *d):
        if not isinstance(x, PIter):
            if isinstance(x, PFile):
                return x.getattr(it, '__next__').fn()
            raise_(TypeError, "object is not an iterator")
        if p.decide(n_cmp('<', x.pos, x.seq.n)):
            v = it.retag(x.seq).get(x.pos)
            it.setpos(x, n_add(x.pos, 1))
            return v
        if d:
            return d[0]
        raise_(StopIteration)
    reg('next', b_next)
    reg('print', lambda *a, **k: None)
    def b_open(*a, **k):
        from . import files
        return files.open_(it, *a, **k)
    reg('open', b_open)
    def b_type(x):
        if isinstance(x, PObj):
            return x.cls
        if isinstance(x, PNT):
            return x.cls
        n = pytype(x)
        if n in T and hasattr(T[n], 'host'):
            return T[n]
        return Builtin(n, lambda *a: None)
    reg('type', b_type, type)
    def b_hash(x):
        if isinstance(x, PObj):
            f = x.cls.lookup('__hash__')
            if f is not None:
                return it.call(PBound(x, f), [], {})
            if x.cls.lookup('__eq__') is not None:
                raise_(TypeError, "unhashable type")
            return p.int("hash")
        if isinstance(x, (PList, PDict, PSet)):
            raise_(TypeError, "unhashable type")
        return hash_term(it, x)
    reg('hash', b_hash)
    def b_round(x, nd=None):
        if nd is None:
            return conc(pyround(x))
        if not isz(x) and not isz(nd):
            return Fraction(repr(round(float(x), nd))) if isinstance(x, Fraction) else round(x, nd)
        raise Unsupported("round to digits")
    reg('round', b_round)
    reg('divmod', lambda a, b: (floordiv(it, a, b), mod(it, a, b)))
    reg('pow', lambda a, b: power(it, a, b))
    reg('object', lambda: it.alloc(PObj(PClass('object', [], {}, None))), object)
    reg('property', lambda f: PProp(f))
    reg('staticmethod', lambda f: PStatic(f, 'static'))
    reg('classmethod', lambda f: PStatic(f, 'class'))
    reg('id', lambda x: p.int("id"))
    reg('callable', lambda x: isinstance(x, (PFunc, PBound, Builtin, PClass)))
    reg('slice', lambda *a: slice(*a))
    import builtins
    for n in dir(builtins):
        h = getattr(builtins, n)
        if isinstance(h, type) and issubclass(h, BaseException):
            b = Builtin(n, (lambda h: lambda *a: PExc(h, a))(h))
            b.host = h
            T[n] = b
    T['NotImplemented'] = Ext('NotImplemented')
    T['Ellipsis'] = Ext('Ellipsis')
    T['True'], T['False'], T['None'] = True, False, None
    T['__debug__'] = True
    return T

def hash_term(it, x):
    if isinstance(x, PNT):
        x = x.vals
    if isinstance(x, tuple):
        hs = [hash_term(it, y) for y in x]
        return uf("hash_tuple%d" % len(hs), *([I] * (len(hs) + 1)))(*[Z(h) for h in hs])
    if is_num(x) or is_bool(x):
        return uf("hash_num", RS, I)(R(x))
    if isinstance(x, str):
        return uf("hash_str", StrV.SORT, I)(strterm(it, x))
    if isinstance(x, StrV):
        return uf("hash_str", StrV.SORT, I)(x.term)
    if x is None:
        return z3.Int("hash_none")
    raise Unsupported("hash of %r" % (x,))

def sym_minmax(it, sq, op, key, default):
    """min/max of a symbolic sequence: an element that bounds the others."""
    p = it.p
    if p.decide(n_cmp('<=', sq.n, 0)):
        if default is not None:
            return default
        raise_(ValueError, "arg is an empty sequence")
    ks = key_seq(it, sq, key)
    i = p.int("argbest")
    p.assume(z3.And(i >= 0, i < Z(sq.n)))
    v = sq.get(i)
    kv = ks.get(i)
    if not is_num(kv):
        raise Unsupported("min/max of non-numbers")
    j = z3.Int(p.fresh_name("qm"))
    p.quant = getattr(p, 'quant', 0) + 1
    try:
        kj = ks.get(j)
    finally:
        p.quant -= 1
    le = n_cmp('<=' if op == '<' else '>=', kv, kj)
    first = n_cmp('<' if op == '<' else '>', kv, kj)
    p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < Z(sq.n)), B(le))))
    p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), B(first))))
    return v

def key_seq(it, sq, key):
    """The keys of a symbolic sequence, each computed once (so a key that raises is seen)."""
    if key is None:
        return sq
    return it.p.tabulate(sq.n, lambda j: it.call(key, [sq.get(j)], {}), it)

def sort_seq(it, sq, key, reverse):
    p = it.p
    n = conc(sq.n)
    reverse = conc(truth(it, reverse))
    if isz(n):
        return sym_sort(it, sq, key, reverse)
    vals = [sq.get(i) for i in range(n)]
    keys = [it.call(key, [v], {}) if key is not None else v for v in vals]
    if n > 9 and not all(not isz(k) and isinstance(k, (int, Fraction, str)) for k in keys):
        raise Unsupported("sorting more than 9 symbolic values")
    out = []
    for v, k in zip(vals, keys):
        # stable insertion
        i = len(out)
        while i > 0:
            c = order(it, '<', out[i - 1][1], k) if reverse else order(it, '<', k, out[i - 1][1])
            if p.decide(truth(it, c)):
                i -= 1
            else:
                break
        out.insert(i, (v, k))
    return [v for v, k in out]

def sym_sort(it, sq, key, reverse):
    """Sorted copy: elements at permuted places, non-decreasing keys (stability not exposed)."""
    p = it.p
    perm = p.fn("perm", I, I)
    inv = p.fn("perminv", I, I)
    n = Z(sq.n)
    j = z3.Int(p.fresh_name("qs"))
    rng = z3.And(j >= 0, j < n)
    p.assume(z3.ForAll([j], z3.Implies(rng, z3.And(perm(j) >= 0, perm(j) < n, inv(perm(j)) == j)), patterns=[perm(j)]))
    p.assume(z3.ForAll([j], z3.Implies(rng, z3.And(inv(j) >= 0, inv(j) < n, perm(inv(j)) == j)), patterns=[inv(j)]))
    try:
        e = sq.get(j)
        e = e[0] if isinstance(e, tuple) and e else e
        if isz(e) and z3.is_app(e) and e.num_args() == 1 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.arg(0).eq(j):
            p.assume(z3.ForAll([j], z3.Implies(rng, z3.And(inv(j) >= 0, inv(j) < n, perm(inv(j)) == j)), patterns=[e]))
    except Unsupported:
        pass
    r = SSeq(sq.n, lambda i: sq.get(perm(i)))
    ks = key_seq(it, sq, key)
    p.quant = getattr(p, 'quant', 0) + 1
    try:
        k1, k2 = ks.get(perm(j)), ks.get(perm(j + 1))
    finally:
        p.quant -= 1
    if not (is_num(k1) and is_num(k2)):
        raise Unsupported("sorting non-numbers of a symbolic sequence")
    p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j + 1 < n), B(n_cmp('>=' if reverse else '<=', k1, k2)))))
    j2 = z3.Int(p.fresh_name("qs"))
    p.quant = getattr(p, 'quant', 0) + 1
    try:
        k3 = ks.get(perm(j2))
    finally:
        p.quant -= 1
    p.assume(z3.ForAll([j, j2], z3.Implies(z3.And(j >= 0, j <= j2, j2 < n), B(n_cmp('>=' if reverse else '<=', k1, k3))), patterns=[z3.MultiPattern(perm(j), perm(j2))]))
    r.perm, r.inv, r.base = perm, inv, sq
    r.sorted_ = True
    p.__dict__.setdefault('sorts', []).append(r)
    if getattr(p, 'on_sort', None):
        p.on_sort()
    return r

# ---------------------------------------------------------------- formatting
def pieces_of(v):
    if isinstance(v, Rope):
        return list(v.pieces)
    if isinstance(v, StrV):
        return [('sv', v)]
    return [v]

def join_pieces(it, pieces, kind=None):
    out = []
    for x in pieces:
        if isinstance(x, (Rope, StrV)):
            out.extend(pieces_of(x))
        else:
            out.append(x)
    if kind is None:
        kind = 'str'
        for x in out:
            if isinstance(x, bytes):
                kind = 'bytes'
            elif isinstance(x, str):
                break
    if all(isinstance(x, (str, bytes)) for x in out):
        return ("" if kind == 'str' else b"").join(out)
    r = Rope(kind, out)
    if len(r.pieces) == 1 and isinstance(r.pieces[0], tuple) and r.pieces[0][0] == 'sv':
        return r.pieces[0][1]
    return r

def pyval(v):
    """Host value for formatting a concrete value."""
    if isinstance(v, Fraction):
        return float(v)
    if isinstance(v, tuple):
        return tuple(pyval(x) for x in v)
    if isinstance(v, PList) and isinstance(v.content, list):
        return [pyval(x) for x in v.content]
    if isinstance(v, (int, str, bytes, type(None))):
        return v
    raise ValueError

def fmt_value(it, x, spec, conv):
    if isinstance(x, Undef):
        raise Unsupported("unbound value")
    if not isinstance(spec, str):
        spec = aligned_spec(it, spec)
    if isinstance(spec, tuple) or (spec and aligned_text(x) and conv != 'r'):
        align = spec if isinstance(spec, tuple) else aligned_spec(it, spec)
        if align is not None and (aligned_text(x) or isinstance(x, str) or (align[1] and is_num(x) and not is_bool(x))):
            from . import files
            fill, left, width = align[0], align[1] != '>', align[2]
            if not aligned_text(x) and not isinstance(x, str):
                x = fmt_value(it, x, "", conv)
            if isinstance(x, str) or isinstance(x, tuple):
                x = Rope('str', [x])
            return files.just(it, x, width, fill, left)
        if isinstance(spec, tuple):
            raise Unsupported("format specification %r" % (spec,))
    try:
        h = pyval(x)
        if conv == 'r':
            h = repr(h)
        elif conv == 's':
            h = str(h)
        return format(h, spec)
    except ValueError:
        pass
    if isinstance(x, PObj):
        for nm in (('__repr__',) if conv == 'r' else ('__str__', '__repr__')):
            f = x.cls.lookup(nm)
            if f is not None:
                return it.call(PBound(x, f), [], {})
        return ('fmt', Opaque(z3.Const("repr" + x.name, Opaque.SORT)), spec)
    if isinstance(x, StrV) and not spec and conv != 'r':
        return ('sv', x)
    if isinstance(x, Rope) and not spec and conv != 'r':
        return x
    if is_bool(x):
        return "True" if it.p.decide(x) else "False"
    if isinstance(x, PExc):
        return join_pieces(it, [fmt_value(it, a, "", None) for a in x.args[:1]])
    if isinstance(x, (PClass, PFunc, Builtin)):
        return repr(x)
    return ('fmt', x, spec + ('!' + conv if conv else ''))

def aligned_text(x):
    return isinstance(x, (StrV, Rope)) and kind_of(x) == 'str'

def aligned_spec(it, spec):
    """(fill, alignment, width) of a format specification whose width may be unknown."""
    import re
    ps = pieces_of(spec)
    head = ps[0] if isinstance(ps[0], str) else ""
    tail = ps[-1] if isinstance(ps[-1], str) else ""
    if len(ps) == 1:
        m = re.fullmatch(r'(?:(.)?([<>]))?([1-9][0-9]*)s?', head, re.S)
        return (m.group(1) or ' ', m.group(2) or '', int(m.group(3))) if m else None
    mid = [p for p in ps if not isinstance(p, str)]
    m = re.fullmatch(r'(?:(.)?([<>]))?', head, re.S)
    if m and len(mid) == 1 and len(ps) == 1 + bool(head) + bool(tail) and tail in ("", "s") and mid[0][0] == 'fmt' and mid[0][2] == "" and is_int(mid[0][1]):
        w = mid[0][1]
        if it.p.decide(w > 0):
            return (m.group(1) or ' ', m.group(2) or '', w)
    raise Unsupported("format specification %r" % (spec,))

def str_format(it, s, args, kw):
    import string
    auto = 0
    out = []
    def value(field):
        nonlocal auto
        first, rest = string._string.formatter_field_name_split(field) if hasattr(string, '_string') else __import__('_string').formatter_field_name_split(field)
        if first == '':
            first = auto
            auto += 1
        if isinstance(first, int):
            if first >= len(args):
                raise_(IndexError, "Replacement index out of range")
            v = args[first]
        else:
            if first not in kw:
                raise_(KeyError, first)
            v = kw[first]
        for isattr, nm in rest:
            v = it.getattr(v, nm) if isattr else it.getitem(v, nm)
        return v
    for lit, field, spec, conv in string.Formatter().parse(s):
        if lit:
            out.append(lit)
        if field is None:
            continue
        v = value(field)
        if '{' in (spec or ''):
            ps = []
            for lit, field, inner, c in string.Formatter().parse(spec):
                ps += [lit] if lit else []
                if field is not None:
                    ps.append(fmt_value(it, value(field), inner or "", c))
            spec = join_pieces(it, ps)
        out.append(fmt_value(it, v, spec or "", conv))
    return join_pieces(it, out)

# ---------------------------------------------------------------- methods of built-in types
def method(it, o, name):
    p = it.p
    if isinstance(o, PSet) or isinstance(o, PDict) or isinstance(o, PList) or isinstance(o, PIter):
        f = globals().get("m_%s_%s" % ({PSet: 'set', PDict: 'dict', PIter: 'iter'}.get(type(o), 'list'), name))
        if f is None and isinstance(o, PArr):
            from . import files
            f = getattr(files, "m_arr_" + name, None)
        if f is None:
            return None
        return lambda *a, **k: f(it, o, *a, **k)
    if isinstance(o, (str, bytes)):
        f = globals().get("m_str_" + name)
        if f is not None:
            return lambda *a, **k: f(it, o, *a, **k)
        if not hasattr(o, name):
            return None
        h = getattr(o, name)
        def call(*a, **k):
            try:
                aa = [pyval(x) if not isinstance(x, dict) else x for x in a]
                kk = {n: pyval(x) for n, x in k.items()}
            except ValueError:
                from . import files
                return files.str_method(it, o, name, a, k)
            try:
                r = h(*aa, **kk)
            except (ValueError, TypeError, UnicodeError, IndexError, KeyError) as e:
                raise_(type(e), *e.args)
            return from_host(it, r)
        return call
    if isinstance(o, StrV) and isinstance(known_literal(it, o), (str, bytes)):
        return method(it, known_literal(it, o), name)
    if isinstance(o, (StrV, Rope)):
        from . import files
        f = getattr(files, "m_rope_" + name, None)
        if f is not None:
            return lambda *a, **k: f(it, o, *a, **k)
        raise Unsupported("string method %s on a symbolic string" % name)
    if isinstance(o, tuple):
        if name == 'index':
            return lambda x: m_list_index(it, it.newlist(list(o)), x)
        if name == 'count':
            return lambda x: sum(1 for y in o if it.p.decide(truth(it, eq(it, x, y))))
    if isinstance(o, SSeq) and name == 'index':
        return lambda x: m_list_index(it, it.newlist(o), x)
    if is_num(o):
        if name == 'is_integer':
            return lambda: conc(R(o) == z3.ToReal(z3.ToInt(R(o))))
        if name == 'bit_length' and not isz(o):
            return lambda: o.bit_length()
    return None

def from_host(it, r):
    if isinstance(r, list):
        return it.newlist([from_host(it, x) for x in r])
    if isinstance(r, float):
        return Fraction(repr(r))
    if isinstance(r, tuple):
        return tuple(from_host(it, x) for x in r)
    if isinstance(r, dict):
        return it.alloc(PDict({k: from_host(it, v) for k, v in r.items()}))
    if isinstance(r, (str, bytes, int, type(None), bool)):
        return r
    raise Unsupported("host value %r" % (r,))

def m_str_format(it, s, *a, **k):
    return str_format(it, s, list(a), k)

def m_str_join(it, s, x):
    sq = it.iterate(x, True)
    n = conc(sq.n)
    if isz(n):
        from . import files
        return files.join_sym(it, s, sq)
    out = []
    for i in range(n):
        v = sq.get(i)
        if i and s:
            out.append(s)
        if not isinstance(v, (str, bytes, StrV, Rope)) or kind_of(v) != kind_of(s):
            raise_(TypeError, "sequence item %d: expected str instance" % i)
        out.append(v)
    return join_pieces(it, out, kind_of(s))

def m_list_append(it, l, v): list_append(it, l, v)
def m_list_extend(it, l, v): list_extend(it, l, v)
def m_list_tolist(it, l): return it.newlist(list(l.content) if isinstance(l.content, list) else l.content)
def m_list_copy(it, l): return it.newlist(list(l.content) if isinstance(l.content, list) else l.content)

def m_list_insert(it, l, i, v):
    c = l.content
    n = length(it, l)
    i = norm_index(it, i, n, n)
    if isinstance(c, list) and not isz(conc(i)):
        c2 = list(c)
        c2.insert(conc(i), v)
        it.setcontent(l, c2)
        return
    sq = c if isinstance(c, SSeq) else SSeqOf(it, c)
    it.setcontent(l, seq_concat(it, seq_concat(it, seq_slice(it, sq, 0, i), [v]), seq_slice(it, sq, i, n)))

def m_list_pop(it, l, i=-1):
    c = l.content
    n = length(it, l)
    if it.p.decide(n_cmp('<=', n, 0)):
        raise_(IndexError, "pop from empty list")
    i = index(it, l, n, i)
    v = getitem(it, l, i)
    delitem(it, l, i)
    return v

def m_list_index(it, l, x):
    sq = it.iterate(l)
    n = conc(sq.n)
    p = it.p
    if not isz(n):
        for i in range(n):
            if p.decide(truth(it, eq(it, sq.get(i), x))):
                return i
        raise_(ValueError, "not in list")
    # first index, or ValueError
    j = z3.Int(p.fresh_name("qi"))
    p.quant = getattr(p, 'quant', 0) + 1
    try:
        e = B(truth(it, eq(it, sq.get(j), x)))
    finally:
        p.quant -= 1
    if p.decide(z3.Exists([j], z3.And(j >= 0, j < Z(n), e))):
        i = p.int("idx")
        p.assume(z3.And(i >= 0, i < Z(n), z3.substitute(e, (j, i))))
        p.assume(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < i), z3.Not(e))))
        return i
    raise_(ValueError, "not in list")

def m_list_remove(it, l, x):
    delitem(it, l, m_list_index(it, l, x))

def m_list_reverse(it, l):
    sq = it.iterate(l)
    it.setcontent(l, list(reversed(l.content)) if isinstance(l.content, list) else SSeq(sq.n, lambda i: sq.get(n_sub(n_sub(sq.n, 1), i))))

def m_list_count(it, l, x):
    sq = it.iterate(l)
    return sum(1 for i in range(it.concretize(sq.n)) if it.p.decide(truth(it, eq(it, sq.get(i), x))))

def m_list_sort(it, l, key=None, reverse=False):
    it.setcontent(l, sort_seq(it, it.iterate(l), key, reverse))

def m_dict_get(it, d, k, default=None):
    kk = dkey(it, d, k)
    return d.d[kk[0]] if kk is not None else default
def m_dict_keys(it, d): return it.newlist([unkey(k) for k in d.d])
def m_dict_values(it, d): return it.newlist(list(d.d.values()))
def m_dict_items(it, d): return it.newlist([(unkey(k), v) for k, v in d.d.items()])
def m_dict_copy(it, d): return it.alloc(PDict(d.d))
def m_dict_update(it, d, *a, **k):
    for o in a:
        dict_update(it, d, o)
    for n, v in k.items():
        setitem(it, d, n, v)
def m_dict_setdefault(it, d, k, v=None):
    kk = dkey(it, d, k)
    if kk is None:
        setitem(it, d, k, v)
        return v
    return d.d[kk[0]]
def m_dict_pop(it, d, k, *default):
    kk = dkey(it, d, k)
    if kk is None:
        if default:
            return default[0]
        raise_(KeyError, k)
    v = d.d[kk[0]]
    delitem(it, d, k)
    return v
def m_dict_clear(it, d):
    it.wrote(('content', d.name), d.birth, d)
    d.d = {}

def m_set_add(it, s, x):
    if contains(it, s, x) is True:
        return
    it.wrote(('content', s.name), s.birth, s)
    for y in s.s:
        if it.p.decide(truth(it, eq(it, x, y))):
            return
    s.s = s.s + [x]
def m_set_update(it, s, *os_):
    for o in os_:
        sq = it.iterate(o)
        for i in range(it.concretize(sq.n, 0, 40)):
            m_set_add(it, s, sq.get(i))
def m_set_copy(it, s): return it.alloc(PSet(s.s))
def m_set_union(it, s, o): return it.alloc(PSet(binop(it, '|', s, mkset(it, it.unpack(o, None))).s))
def m_set_discard(it, s, x):
    it.wrote(('content', s.name), s.birth, s)
    s.s = [y for y in s.s if not it.p.decide(truth(it, eq(it, x, y)))]
m_set_remove = m_set_discard
def m_iter___next__(it, o): return it.builtins['next'].fn(o)

# ---------------------------------------------------------------- external modules
def ext_attr(it, path):
    if path == 'math.pi':
        it.p.fact(z3.And(PI > z3.RealVal("3.141592653"), PI < z3.RealVal("3.141592654")))
        return PI
    if path == 'math.tau':
        return n_mul(2, ext_attr(it, 'math.pi'))
    if path == 'math.e':
        e = z3.Real("euler_e")
        it.p.fact(z3.And(e > z3.RealVal("2.718281828"), e < z3.RealVal("2.718281829")))
        return e
    if path in ('math.inf', 'math.nan'):
        raise Unsupported(path)
    if path == 'sys.version_info':
        return (3, 12, 3, 'final', 0)
    if path == 'sys.stderr' or path == 'sys.stdout':
        from . import files
        return files.std(it, path)
    if path in ('io.SEEK_SET', 'os.SEEK_SET'):
        return 0
    if path in ('io.SEEK_CUR', 'os.SEEK_CUR'):
        return 1
    if path in ('io.SEEK_END', 'os.SEEK_END'):
        return 2
    return Ext(path)

def need(it, c, exc, msg):
    """Domain check: raise unless c."""
    if not it.p.decide(c):
        raise_(exc, msg)

def num(v):
    if is_bool(v):
        return Z(v)
    if not is_num(v):
        raise_(TypeError, "must be real number")
    return v

def sin_cos_facts(it, x):
    s, c = m("sin", x), m("cos", x)
    it.p.fact(s * s + c * c == 1)
    it.p.fact(z3.And(s <= 1, s >= -1, c <= 1, c >= -1))

HALF_TURNS = {('asin', 1): Fraction(1, 2), ('asin', -1): Fraction(-1, 2), ('asin', 0): Fraction(0), ('acos', 1): Fraction(0), ('acos', -1): Fraction(1),
              ('acos', 0): Fraction(1, 2), ('atan', 0): Fraction(0), ('atan', 1): Fraction(1, 4), ('atan', -1): Fraction(-1, 4)}

def call_ext(it, path, args, kw):
    p = it.p
    hook = it.ext_hooks.get(path)
    if hook is not None:
        return hook(it, *args, **kw)
    if path.startswith('math.'):
        f = path[5:]
        a = [num(x) for x in args] if f not in ('fsum',) else args
        tr = p.trig
        if tr is not None and f not in ('fsum', 'radians', 'degrees') and (any(isz(x) for x in a) or f == 'sqrt'):
            r = tr.call(it, f, a)
            if r is not None:
                return r
        if tr is not None and f in ('asin', 'acos', 'atan') and not isz(a[0]) and (f, a[0]) in HALF_TURNS:
            return conc(R(HALF_TURNS[f, a[0]]) * ext_attr(it, 'math.pi'))
        if tr is not None and f == 'atan2' and not isz(a[0]) and not isz(a[1]) and (a[0] == 0 or a[1] == 0):
            k = (1 if a[1] < 0 else 0) if a[0] == 0 else Fraction(1 if a[0] > 0 else -1, 2)
            return conc(R(Fraction(k)) * ext_attr(it, 'math.pi'))
        if f == 'radians':
            return conc(n_mul(a[0], ext_attr(it, 'math.pi') / 180)) if isz(a[0]) or a[0] != 0 else Fraction(0)
        if f == 'degrees':
            return conc(R(a[0]) * 180 / ext_attr(it, 'math.pi')) if isz(a[0]) or a[0] != 0 else Fraction(0)
        if f in ('floor', 'ceil', 'trunc'):
            x = a[0]
            if is_int(x):
                return x
            if f == 'floor':
                return conc(toint_floor(x))
            if f == 'trunc':
                return conc(trunc(x))
            return -int((-x) // 1) if not isz(x) else -z3.ToInt(-x)
        if f == 'fabs':
            x = R(a[0]) if isz(a[0]) else Fraction(a[0])
            return z3.If(x >= 0, x, -x) if isz(x) else abs(x)
        if f == 'copysign':
            x, y = a
            ax = it.builtins['abs'].fn(x)
            if not isz(y):
                r = ax if y >= 0 else n_neg(ax)
            else:
                r = ite(n_cmp('>=', y, 0), ax, n_neg(ax))
            return R(r) if isz(r) else Fraction(r)
        if f == 'modf':
            t = trunc(a[0])
            tr = z3.ToReal(t) if isz(t) else Fraction(t)
            return (n_sub(R(a[0]) if isz(a[0]) else Fraction(a[0]), tr), tr)
        if f == 'sqrt':
            x = a[0]
            if not isz(x):
                if x < 0:
                    raise_(ValueError, "math domain error")
                import math as _m
                fx = Fraction(x)
                nr, dr = _m.isqrt(fx.numerator), _m.isqrt(fx.denominator)
                if nr * nr == fx.numerator and dr * dr == fx.denominator:
                    return Fraction(nr, dr)
                x = z3.RealVal(fx)
            else:
                need(it, n_cmp('>=', x, 0), ValueError, "math domain error")
            r = m("sqrt", x)
            p.fact(z3.Implies(R(x) >= 0, z3.And(r >= 0, r * r == R(x))))
            return r
        if f == 'hypot':
            if len(a) != 2:
                raise Unsupported("hypot arity")
            r = m("hypot", *a)
            p.fact(z3.And(r >= 0, r * r == R(a[0]) * R(a[0]) + R(a[1]) * R(a[1])))
            return r
        if f == 'fsum':
            r = fold_sum(it, it.iterate(args[0], True))
            return R(r) if isz(r) else Fraction(r)
        if f in ('sin', 'cos', 'tan'):
            x = a[0]
            if not isz(x) and x == 0:
                return Fraction(1) if f == 'cos' else Fraction(0)
            sin_cos_facts(it, x)
            if f == 'tan':
                t = m("tan", x)
                p.fact(z3.Implies(m("cos", x) != 0, t * m("cos", x) == m("sin", x)))
                return t
            return m(f, x)
        if f in ('asin', 'acos'):
            x = a[0]
            need(it, land(n_cmp('>=', x, -1), n_cmp('<=', x, 1)), ValueError, "math domain error")
            r = m(f, x)
            pi = ext_attr(it, 'math.pi')
            if f == 'asin':
                p.fact(z3.And(r >= -pi / 2, r <= pi / 2))
            else:
                p.fact(z3.And(r >= 0, r <= pi))
            return r
        if f == 'atan':
            pi = ext_attr(it, 'math.pi')
            r = m(f, a[0])
            p.fact(z3.And(r > -pi / 2, r < pi / 2))
            return r
        if f == 'atan2':
            pi = ext_attr(it, 'math.pi')
            r = m("atan2", *a)
            p.fact(z3.And(r >= -pi, r <= pi))
            p.fact(z3.Implies(R(a[0]) >= 0, r >= 0))
            p.fact(z3.Implies(R(a[1]) >= 0, z3.And(r >= -pi / 2, r <= pi / 2)))
            return r
        if f == 'exp':
            r = m("exp", a[0])
            p.fact(r > 0)
            return r
        if f in ('log',):
            if len(a) == 2:
                raise Unsupported("log base")
            need(it, n_cmp('>', a[0], 0), ValueError, "math domain error")
            return m("log", a[0])
        if f in ('log10', 'log2'):
            need(it, n_cmp('>', a[0], 0), ValueError, "math domain error")
            return m(f, a[0])
        if f in ('sinh', 'cosh', 'tanh', 'asinh'):
            r = m(f, a[0])
            if f == 'cosh':
                p.fact(r >= 1)
            if f == 'tanh':
                p.fact(z3.And(r > -1, r < 1))
            return r
        if f == 'atanh':
            need(it, land(n_cmp('>', a[0], -1), n_cmp('<', a[0], 1)), ValueError, "math domain error")
            return m(f, a[0])
        if f == 'pow':
            return power(it, a[0], a[1])
        if f == 'fmod':
            raise Unsupported("fmod")
        if f == 'isclose':
            raise Unsupported("isclose")
        raise Unsupported(path)
    if path == 'functools.total_ordering':
        args[0].flags.add('total_ordering')
        return args[0]
    if path in ('functools.lru_cache', 'functools.cache', 'functools.wraps'):
        if path == 'functools.lru_cache' and (not args or not isinstance(args[0], (PFunc, Builtin, Ext, PBound))):
            return Builtin('memoize', lambda f: memoized(it, f))
        if path == 'functools.wraps':
            return Builtin('wraps', lambda f: f)
        return memoized(it, args[0])
    if path == 'functools.reduce':
        f, sq = args[0], it.iterate(args[1], True)
        n = it.concretize(sq.n)
        vals = [sq.get(i) for i in range(n)]
        if len(args) > 2:
            acc = args[2]
        else:
            acc, vals = vals[0], vals[1:]
        for v in vals:
            acc = it.call(f, [acc, v], {})
        return acc
    if path == 'functools.partial':
        f, rest = args[0], list(args[1:])
        return Builtin('partial', lambda *a, **k: it.call(f, rest + list(a), dict(kw, **k)))
    if path == 'collections.namedtuple':
        name, fields = args[0], args[1]
        if isinstance(fields, str):
            fields = tuple(fields.replace(',', ' ').split())
        else:
            sq = it.iterate(fields)
            n = conc(sq.n)
            if isz(n):
                raise Unsupported("namedtuple with a symbolic number of fields")
            fields = tuple(sq.get(i) for i in range(n))
        if set(kw) - {'rename'}:
            raise Unsupported("namedtuple arguments")
        if all(isinstance(x, str) for x in fields):
            import collections
            try:
                fields = collections.namedtuple(name, fields, rename=bool(kw.get('rename', False)))._fields
            except ValueError as e:
                raise_(ValueError, str(e))
        elif kw.get('rename'):
            raise Unsupported("namedtuple of unknown names")
        return NTClass(name, fields)
    if path == 'collections.Counter' or path == 'collections.OrderedDict':
        d = it.alloc(PDict())
        return d
    if path == 'array.array':
        tc = args[0]
        a = it.alloc(PArr(tc, []))
        if len(args) > 1:
            sq = it.iterate(args[1], True)
            n = conc(sq.n)
            if not isz(n) and n <= 4096:
                a.content = [conv_elem(it, a, sq.get(i)) for i in range(n)]
            elif not isz(n):
                a.content = sq
            else:
                a.content = p.tabulate(sq.n, lambda i: conv_elem(it, a, sq.get(i)), it)
        return a
    if path in ('heapq.heappush', 'heapq.heappop', 'heapq.heapify'):
        return heap_op(it, path, args)
    if path in ('bisect.bisect_left', 'bisect.bisect_right', 'bisect.bisect'):
        return bisect_op(it, path, args)
    if path == 'time.time':
        t = p.real("time")
        p.assume(t >= 0)
        last = getattr(p, 'lasttime', None)
        if last is not None:
            p.assume(t >= last)
        p.lasttime = t
        return t
    if path in ('os.path.dirname', 'os.path.join', 'os.path.abspath', 'os.path.splitext', 'os.path.split', 'os.path.isfile', 'os.getcwd'):
        if all(isinstance(x, str) for x in args):
            r = getattr(os.path, path[8:])(*args) if path != 'os.getcwd' else "/"
            return from_host(it, r)
        if path == 'os.path.splitext':
            return (args[0], "")
        raise Unsupported(path)
    if path in ('time.localtime', 'time.gmtime'):
        it.p.unit.assumptions.add("the year of the clock is in 1900..2155, its month and day are those of a calendar")
        ranges = (("year", 1900, 2155), ("month", 1, 12), ("day", 1, 31), ("hour", 0, 23), ("minute", 0, 59), ("second", 0, 61), ("weekday", 0, 6), ("yearday", 1, 366), ("dst", -1, 1))
        out = []
        for n, lo, hi in ranges:
            x = it.p.int(n)
            it.p.assume(z3.And(x >= lo, x <= hi))
            out.append(x)
        return tuple(out)
    if path in ('inspect.currentframe',):
        return Ext('frame')
    if path == 'inspect.getfile':
        from .interp import REPO
        return os.path.join(REPO, "coral", "x.py")
    if path.startswith('struct.'):
        from . import files
        return files.struct_op(it, path[7:], args)
    if path.startswith('io.') or path.startswith('codecs.') or path.startswith('json.') or path.startswith('itertools.'):
        from . import files
        return files.ext(it, path, args, kw)
    raise Unsupported("external function %s" % path)

def memoized(it, f):
    """functools.lru_cache: transparent for the pure functions it decorates here."""
    it.p.unit.assumptions.add("functools.lru_cache is transparent (decorated functions are pure, arguments hashable)")
    return f

def heap_op(it, path, args):
    """heapq on a concrete-length list: kept as a sorted list (only the order of pops is observable)."""
    h = args[0]
    it.p.unit.assumptions.add("heapq: heappop returns a smallest item (heap kept as a sorted list)")
    if not isinstance(h.content, list):
        raise Unsupported("heap of symbolic length")
    if path == 'heapq.heappush':
        c = list(h.content)
        i = len(c)
        while i > 0 and it.p.decide(truth(it, order(it, '<', args[1], c[i - 1]))):
            i -= 1
        c.insert(i, args[1])
        it.setcontent(h, c)
        return None
    if path == 'heapq.heappop':
        if not h.content:
            raise_(IndexError, "index out of range")
        v = h.content[0]
        it.setcontent(h, h.content[1:])
        return v
    raise Unsupported(path)

def bisect_op(it, path, args):
    """bisect on a sorted sequence."""
    p = it.p
    sq, x = it.iterate(args[0]), args[1]
    n = conc(sq.n)
    left = path.endswith('left')
    p.unit.assumptions.add("bisect: returns the insertion point of a sorted sequence (its documented contract; sortedness is an obligation)")
    if not isz(n):
        for i in range(n):
            v = sq.get(i)
            if i + 1 < n:
                p.prove("bisect precondition: sorted", B(truth(it, order(it, '<=', v, sq.get(i + 1)))))
        for i in range(n):
            v = sq.get(i)
            c = order(it, '<', v, x) if left else lnot(truth(it, order(it, '<', x, v)))
            if not p.decide(truth(it, c)):
                return i
        return n
    if p.choose(2) == 0:
        j = p.int("j")
        p.assume(z3.And(j >= 0, j + 1 < Z(n)))
        if p.feasible():
            p.prove("bisect precondition: sorted", B(truth(it, order(it, '<=', sq.get(j), sq.get(j + 1)))))
        raise PathEnd("side")
    i = p.int("bis")
    p.assume(z3.And(i >= 0, i <= Z(n)))
    if p.decide(i > 0):
        v = sq.get(i - 1)
        p.assume(B(truth(it, order(it, '<', v, x))) if left else B(truth(it, order(it, '<=', v, x))))
    if p.decide(i < Z(n)):
        v = sq.get(i)
        p.assume(B(truth(it, order(it, '>=', v, x))) if left else B(truth(it, order(it, '>', v, x))))
    return i

# ---------------------------------------------------------------- with
def enter(it, v):
    if isinstance(v, PFile):
        return v
    if isinstance(v, PObj) and v.cls.lookup('__enter__'):
        return it.call(it.getattr(v, '__enter__'), [], {})
    raise Unsupported("with %r" % (v,))

def exit_(it, v):
    if isinstance(v, PFile):
        v.close(it)
    elif isinstance(v, PObj):
        it.call(it.getattr(v, '__exit__'), [None, None, None], {})
