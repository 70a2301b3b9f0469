"""Value domain of the symbolic executor.

Concrete Python ints, bools, strings, bytes, tuples and None stand for themselves; floats are exact
rationals (fractions.Fraction) or z3 reals, ints are mathematical integers (as in Python).
"""
from fractions import Fraction
import z3

class Unsupported(Exception):
    """The construct is outside the verified subset: the obligation cannot be generated."""

class PathEnd(Exception):
    """This path is finished (infeasible, or a side obligation was discharged)."""

class Restart(Exception):
    """A loop table (havoc set, shape, dropped candidate) grew: verify the unit again."""

class PyRaise(Exception):
    """An exception of the interpreted program."""
    def __init__(self, exc):
        Exception.__init__(self, repr(exc))
        self.exc = exc

class PExc:
    """Instance of a builtin exception class of the interpreted program."""
    def __init__(self, cls, args=()):
        self.cls, self.args = cls, tuple(args)
    def __repr__(self):
        return "%s%r" % (self.cls.__name__, self.args)

class Heap:
    """Anything mutable; `name` identifies it across re-executions, `birth` orders allocation."""
    name = None
    birth = 0

class PObj(Heap):
    def __init__(self, cls, fields=None):
        self.cls = cls
        self.fields = dict(fields or {})
    def __repr__(self):
        return "<%s %s>" % (self.cls.name, self.name)

class PList(Heap):
    """A Python list: `items` (host list) when the length is concrete, else `seq` (SSeq)."""
    def __init__(self, content):
        self.content = content          # host list or SSeq
    def __repr__(self):
        return "<list %s %r>" % (self.name, self.content)

class PArr(PList):
    """array.array: a list with an element type code."""
    def __init__(self, tc, content):
        PList.__init__(self, content)
        self.tc = tc

class PDict(Heap):
    def __init__(self, d=None):
        self.d = dict(d or {})
    tab = None
    @property
    def d(self):
        if self.tab is not None:
            raise Unsupported("this use of a dictionary with symbolic keys")
        return self._d
    @d.setter
    def d(self, x):
        self._d = x

class Tab:
    """Contents of a dictionary with symbolic keys: domain and values as functions of the key
    (sig: the kinds of the key's parts: i integer, v unknown value, s string)."""
    def __init__(self, arity, dom, val, vshape, sig=None):
        self.arity, self.dom, self.val, self.vshape = arity, dom, val, vshape
        self.sig = sig or ('i',) * arity
    def shape(self):
        return ('tab', self.sig, self.vshape)

class PSet(Heap):
    def __init__(self, s=()):
        self.s = list(s)

class SMap(Heap):
    """Dictionary with symbolic keys: z3 array key -> value, and its domain."""
    def __init__(self, dom, val, keyf, valf=None):
        self.dom, self.val, self.keyf, self.valf = dom, val, keyf, valf

class PFunc:
    def __init__(self, node, module, env, qualname, cls=None, defaults=None, kwdefaults=None):
        self.node, self.module, self.env, self.qualname, self.cls = node, module, env, qualname, cls
        self.defaults = defaults or []
        self.kwdefaults = kwdefaults or {}
        self.name = getattr(node, 'name', '<lambda>')
    def __repr__(self):
        return "<function %s.%s>" % (self.module.name, self.qualname)

class PBound:
    def __init__(self, obj, func):
        self.obj, self.func = obj, func

class PProp:
    def __init__(self, func):
        self.func = func

class PStatic:
    def __init__(self, func, kind):
        self.func, self.kind = func, kind

class PClass:
    def __init__(self, name, bases, d, module, qualname=None):
        self.name, self.bases, self.d, self.module = name, bases, d, module
        self.qualname = qualname or name
        self.flags = set()
    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, PClass):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out
    def builtin_base(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, type):
                    return b
        return None
    def lookup(self, name):
        for c in self.mro():
            if name in c.d:
                return c.d[name]
        return None
    def is_subclass(self, other):
        return any(c is other or other in [b for b in c.bases] for c in self.mro())
    def __repr__(self):
        return "<class %s>" % self.name

class NTClass(PClass):
    """collections.namedtuple class."""
    def __init__(self, name, fields):
        PClass.__init__(self, name, [], {}, None)
        self.nt_fields = fields       # host tuple of str, or SSeq

class PNT:
    """namedtuple instance."""
    def __init__(self, cls, vals):
        self.cls, self.vals = cls, tuple(vals)
    def __repr__(self):
        return "%s%r" % (self.cls.name, self.vals)

class PModule:
    def __init__(self, name, d):
        self.name, self.d = name, d
    def __repr__(self):
        return "<module %s>" % self.name

class Ext:
    """A name of an external (modelled) module, e.g. math.sin."""
    def __init__(self, path):
        self.path = path
    def __repr__(self):
        return "<ext %s>" % self.path

class Builtin:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn
    def __repr__(self):
        return "<builtin %s>" % self.name

class Opaque:
    """A value about which nothing is known but its identity (z3 constant of an uninterpreted sort)."""
    SORT = z3.DeclareSort('Val')
    def __init__(self, term):
        self.term = term
    def __repr__(self):
        return "<opaque %s>" % self.term

class StrV:
    """A symbolic string known only as a z3 term of sort Str (uninterpreted)."""
    SORT = z3.DeclareSort('Str')
    def __init__(self, term, kind='str'):
        self.term, self.kind = term, kind
    def __repr__(self):
        return "<str %s>" % self.term

class SSeq:
    """Immutable symbolic sequence: length term and element function (index term -> value)."""
    def __init__(self, n, get, kind='list', tag=None):
        self.n, self._get, self.kind, self.tag = n, get, kind, tag
    def get(self, i):
        return self._get(i)
    def __repr__(self):
        return "<seq len=%s>" % (self.n,)

class PIter(Heap):
    """Iterator over a sequence value, with a position."""
    def __init__(self, seq, pos=0):
        self.seq, self.pos = seq, pos
    def __repr__(self):
        return "<iter %s at %s>" % (self.seq, self.pos)

class PFile(Heap):
    """Open file (see files.py)."""

class Rope:
    """Symbolic str/bytes as a list of pieces:
       str/bytes literal | ('fmt', value, spec) | ('pk', code, value) | ('rep', n, fn) | ('sv', StrV)"""
    def __init__(self, kind, pieces):
        self.kind = kind
        out = []
        for p in pieces:
            if isinstance(p, (str, bytes)):
                if not p:
                    continue
                if out and isinstance(out[-1], (str, bytes)):
                    out[-1] = out[-1] + p
                    continue
            out.append(p)
        self.pieces = out
    def __repr__(self):
        return "<rope %r>" % (self.pieces,)

class Undef:
    """A local that the loop body assigns but that has no value before the loop."""
    def __init__(self, name, k, shape, loopkey):
        self.name, self.k, self.shape, self.loopkey = name, k, shape, loopkey
        self.old = None            # (value,) the variable had before the loop

ELEM_SHAPES = {}

class ElemBase:
    """A base sequence whose elements carry, as ghost state, the index they come from."""
    def __init__(self, unit, seq, shape, name="elem"):
        unit.elembases[name] = self
        ELEM_SHAPES[name] = shape
        self.seq, self.shape, self.name = seq, shape, name
        self.n = seq.n
    def at(self, tag):
        return Elem(self, tag)

class Elem(tuple):
    """Element of a base sequence: an ordinary tuple, plus the ghost index `tag`."""
    def __new__(cls, base, tag):
        o = tuple.__new__(cls, base.seq.get(Z(tag)))
        o.base, o.tag = base, Z(tag)
        return o

# ---------------------------------------------------------------- numbers

def isz(v):
    return isinstance(v, z3.ExprRef)

def is_num(v):
    return isinstance(v, (int, Fraction)) or isinstance(v, z3.ArithRef)

def is_real(v):
    return isinstance(v, Fraction) or (isinstance(v, z3.ArithRef) and v.is_real())

def is_int(v):
    return (isinstance(v, int)) or (isinstance(v, z3.ArithRef) and v.is_int())

def is_bool(v):
    return isinstance(v, (bool, z3.BoolRef))

def Z(v):
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(v)
    if isinstance(v, z3.BoolRef):
        return z3.If(v, z3.IntVal(1), z3.IntVal(0))
    return v

def R(v):
    v = Z(v)
    return z3.ToReal(v) if v.is_int() else v

def B(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v

def land(*xs):
    xs = [x for x in xs if x is not True]
    if any(x is False for x in xs):
        return False
    if not xs:
        return True
    return z3.And(*xs) if len(xs) > 1 else xs[0]

def lor(*xs):
    xs = [x for x in xs if x is not False]
    if any(x is True for x in xs):
        return True
    if not xs:
        return False
    return z3.Or(*xs) if len(xs) > 1 else xs[0]

def lnot(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)

def conc(v):
    """Concrete host number if the term is a numeral."""
    if isinstance(v, z3.ArithRef):
        s = z3.simplify(v)
        if z3.is_int_value(s):
            return s.as_long()
        if z3.is_rational_value(s):
            return Fraction(s.numerator_as_long(), s.denominator_as_long())
        return v
    if isinstance(v, z3.BoolRef):
        s = z3.simplify(v)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
    return v

def lift2(a, b):
    a, b = Z(a), Z(b)
    if a.is_int() != b.is_int():
        a, b = R(a), R(b)
    return a, b

def n_add(a, b):
    if not isz(a) and not isz(b):
        return a + b
    if not isz(a) and a == 0 and is_int(a):
        return b
    if not isz(b) and b == 0 and is_int(b):
        return a
    a, b = lift2(a, b)
    return a + b

def n_sub(a, b):
    if not isz(a) and not isz(b):
        return a - b
    if not isz(b) and b == 0 and is_int(b):
        return a
    a, b = lift2(a, b)
    return a - b

def n_mul(a, b):
    if not isz(a) and not isz(b):
        return a * b
    if not isz(a) and a == 1 and is_int(a):
        return b
    if not isz(b) and b == 1 and is_int(b):
        return a
    a, b = lift2(a, b)
    return a * b

def n_neg(a):
    return -a if not isz(a) else -Z(a)

def n_cmp(op, a, b):
    if not isz(a) and not isz(b):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b}[op]
    a, b = lift2(a, b)
    if a.eq(b):
        return op in ('<=', '>=', '==')
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b}[op]

def ite(c, a, b):
    """Merge two values under a condition (used where no fork is wanted)."""
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if is_bool(a) and is_bool(b):
        return z3.If(c, B(a), B(b))
    if is_num(a) and is_num(b):
        a, b = lift2(a, b)
        return z3.If(c, a, b)
    if isinstance(a, Elem) and isinstance(b, Elem) and a.base is b.base:
        return a.base.at(z3.If(c, a.tag, b.tag))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(ite(c, x, y) for x, y in zip(a, b))
    if isinstance(a, StrV) and isinstance(b, StrV):
        return StrV(z3.If(c, a.term, b.term), a.kind)
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return Opaque(z3.If(c, a.term, b.term))
    if isinstance(a, PNT) and isinstance(b, PNT) and (a.cls is b.cls or a.cls.nt_fields == b.cls.nt_fields):
        return PNT(a.cls, ite(c, a.vals, b.vals))
    if not isz(a) and not isz(b) and type(a) == type(b) and a == b:
        return a
    raise Unsupported("cannot merge %r and %r" % (a, b))
