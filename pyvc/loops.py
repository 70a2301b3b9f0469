"""Loops: unrolled when the number of iterations is decided, else by invariants.

Invariants are candidates given by the unit (functions of a LoopCtx); those that do not hold on entry or
are not preserved are dropped and the unit is verified again (Houdini), so a wrong candidate can only
make a proof fail, never succeed.  What a loop modifies is observed, not declared: everything written by
an arbitrary iteration is havocked, and the unit restarts until that set is stable."""
import ast
from fractions import Fraction
import z3
from .values import *
from .core import Restart
from . import desugar
from .interp import BreakEx, ContinueEx, ReturnEx, SSeqOf, stored_names

UNROLL = 220
FORK_UNROLL = 10

class Missing(Exception):
    def __init__(self, name):
        self.name = name

class Def:
    """Definitional item: on havoc the target takes this value; preservation is the obligation."""
    def __init__(self, label, target, value):
        self.label, self.target, self.value = label, target, value

class All:
    """forall 0 <= j < n: fn(j)   (fn gives a z3 Bool)"""
    def __init__(self, label, n, fn, lo=0):
        self.label, self.n, self.fn, self.lo = label, n, fn, lo

class Monitor:
    def __init__(self, key, birth, frame):
        self.key, self.birth, self.frame, self.written = key, birth, frame, {}

class LoopCtx:
    def __init__(self, it, env, key, src, args):
        self.it, self.env, self.key, self.src = it, env, key, src
        self.n = src.n if src is not None else None
        self.k = 0
        self.a = args
        self.entryvals = {}
        self.roles = {}
        self.asked = set()
        e = env
        self.fn = env.qual
        self.endless = False       # while True
    @property
    def p(self):
        return self.it.p
    @property
    def v(self):
        return self.it.facade
    def __getitem__(self, name):
        self.asked.add(name)
        name = self.roles.get(name, name)
        e = self.env
        while e is not None:
            if name in e.vars:
                x = e.vars[name]
                if isinstance(x, Undef):
                    raise Missing(name)
                return x
            e = e.parent
        if name in self.it.ghost:
            return self.it.ghost[name]
        raise Missing(name)
    def numbers(self):
        """(name, value) of every numeric local and every numeric field of self."""
        out, seen = [], set()
        for e in chain(self.env):
            if e.cls is not None or str(e.fid).startswith("mod:"):
                continue
            for n, v in e.vars.items():
                if n in seen:
                    continue
                seen.add(n)
                if is_num(v):
                    out.append((n, v))
                elif isinstance(v, PObj) and n == 'self':
                    out += [("self." + f, x) for f, x in v.fields.items() if is_num(x)]
        return out
    def has(self, name):
        try:
            self[name]
            return True
        except Missing:
            return False
    def entry(self, name):
        name = self.roles.get(name, name)
        if name not in self.entryvals:
            raise Missing(name)
        return self.entryvals[name]

# ------------------------------------------------------------ shapes
def shape_of(v):
    if isinstance(v, bool) or isinstance(v, z3.BoolRef):
        return 'bool'
    if isinstance(v, Fraction) or (isinstance(v, z3.ArithRef) and v.is_real()):
        return 'real'
    if isinstance(v, int) or isinstance(v, z3.ArithRef):
        return 'int'
    if v is None:
        return 'none'
    if isinstance(v, Elem):
        return ('elem', v.base.name)
    if isinstance(v, tuple):
        return ('tuple', tuple(shape_of(x) for x in v))
    if isinstance(v, PNT):
        return ('nt', v.cls, tuple(shape_of(x) for x in v.vals))
    if isinstance(v, StrV):
        return ('str', v.kind)
    if isinstance(v, Opaque):
        return 'opaque'
    if isinstance(v, (str, bytes)):
        return ('const', v)
    if isinstance(v, Undef):
        return 'undef'
    if isinstance(v, PList) and not getattr(v, 'rooted', True):
        return ('list', elem_shape(v.content))
    if isinstance(v, Heap):
        return ('ref', v.name)
    if isinstance(v, SSeq):
        return ('seq', elem_shape(v), v.kind)
    if isinstance(v, Rope):
        if any(not isinstance(q, (str, bytes)) for q in v.pieces) and all(isinstance(q, (str, bytes)) or q[0] == 'seq' for q in v.pieces):
            if len(v.pieces) == 1 and conc(v.pieces[0][1].n) == 1:
                return ('code1', v.kind)
            return ('codes', v.kind)
        return ('rope', v.kind)
    return ('const', v)

def content_shape(c):
    return ('content', elem_shape(c))

def elem_shape(c):
    if isinstance(c, SSeq):
        if hasattr(c, 'eshape'):
            return c.eshape
        if getattr(c, 'generic', None) and c.generic[1] is not None:
            return shape_of(c.generic[1])
        if hasattr(c, 'items'):
            c = c.items
        else:
            return None
    s = None
    for x in c:
        s = join(s, shape_of(x))
    return s

def same_nt(a, b):
    """The same namedtuple class, possibly made on different paths."""
    return a is b or (a.name == b.name and isinstance(a.nt_fields, tuple) and a.nt_fields == b.nt_fields)

def join(a, b):
    if a is None or a == b:
        return b
    if b is None:
        return a
    if a == 'undef':
        return b
    if b == 'undef':
        return a
    if isinstance(a, tuple) and a[0] == 'elem':
        a = ELEM_SHAPES[a[1]]
    if isinstance(b, tuple) and b[0] == 'elem':
        b = ELEM_SHAPES[b[1]]
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'tab':
        if None not in (a[1], b[1]) and a[1] != b[1]:
            raise Unsupported("keys of different kinds")
        return ('tab', a[1] or b[1], join(a[2], b[2]))
    if isinstance(a, tuple) and a[0] == 'code1':
        a = ('codes', a[1])
    if isinstance(b, tuple) and b[0] == 'code1':
        b = ('codes', b[1])
    if a == b:
        return a
    num = ('int', 'real')
    if a in num and b in num:
        return 'real'
    for x, y in ((a, b), (b, a)):
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'codes' and y[0] in ('const', 'rope', 'str'):
            if y[0] == 'const' and isinstance(y[1], bytes if x[1] == 'bytes' else str):
                return x
            if y[0] != 'const' and y[1] == x[1]:
                return y
    if {a, b} == {'bool', 'int'}:
        return 'int'
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'tuple' and len(a[1]) == len(b[1]):
        return ('tuple', tuple(join(x, y) for x, y in zip(a[1], b[1])))
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'nt' and same_nt(a[1], b[1]):
        return ('nt', a[1], tuple(join(x, y) for x, y in zip(a[2], b[2])))
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ('list', 'content'):
        return (a[0], join(a[1], b[1]))
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'seq':
        return ('seq', join(a[1], b[1]), a[2])
    def isstr(s):
        return isinstance(s, tuple) and (s[0] == 'str' or (s[0] == 'const' and isinstance(s[1], (str, bytes))))
    if isstr(a) and isstr(b):
        k = lambda s: s[1] if s[0] == 'str' else ('bytes' if isinstance(s[1], bytes) else 'str')
        if k(a) == k(b):
            return ('str', k(a))
    isalt = lambda s: isinstance(s, tuple) and s[0] == 'alt'
    if not isalt(a) and not isalt(b):
        return ('alt', (a, b))
    alts = []
    for s in (a, b):
        for x in (s[1] if isinstance(s, tuple) and s[0] == 'alt' else [s]):
            for i, y in enumerate(alts):
                j = join(y, x)
                if not (isinstance(j, tuple) and j[0] == 'alt'):
                    alts[i] = j
                    break
            else:
                alts.append(x)
    if len(alts) == 1:
        return alts[0]
    if len(alts) > 4:
        raise Unsupported("too many shapes")
    return ('alt', tuple(alts))

def fresh(it, shape, name):
    p = it.p
    if shape == 'int':
        return p.int(name)
    if shape == 'real':
        return p.real(name)
    if shape == 'bool':
        return p.bool(name)
    if shape == 'none':
        return None
    if shape == 'opaque':
        return Opaque(p.const(name, Opaque.SORT))
    if shape is None:
        raise Unsupported("unknown shape of %s" % name)
    k = shape[0]
    if k == 'tuple':
        return tuple(fresh(it, s, "%s.%d" % (name, i)) for i, s in enumerate(shape[1]))
    if k == 'elem':
        return it.p.unit.elembases[shape[1]].at(p.int(name + ".tag"))
    if k == 'nt':
        return PNT(shape[1], [fresh(it, s, "%s.%d" % (name, i)) for i, s in enumerate(shape[2])])
    if k in ('str', 'rope'):
        return it.BI.newstr(it, name, shape[1])
    if k == 'codes':
        n = p.int(name + ".len")
        p.assume(n >= 0)
        return Rope(shape[1], [('seq', fresh_seq(it, 'int', n, name))])
    if k == 'code1':
        c = p.int(name + ".code")
        return Rope(shape[1], [('seq', SSeqOf(it, [c]))])
    if k == 'const':
        return shape[1]
    if k == 'alt':
        return fresh(it, shape[1][p.choose(len(shape[1]))], name)
    if k == 'ref':
        if shape[1] in it.heap:
            return it.heap[shape[1]]
        raise Unsupported("reference to an object of another path")
    if k in ('list', 'seq', 'content'):
        n = p.int(name + ".len")
        p.assume(n >= 0)
        sq = fresh_seq(it, shape[1], n, name)
        if k == 'list':
            l = it.newlist(sq, name)
            return l
        return sq
    raise Unsupported("cannot make a fresh %r" % (shape,))

def fresh_seq(it, eshape, n, name):
    """Sequence of unknown elements of a given shape."""
    p = it.p
    cache = {}
    def mk(shape, nm):
        if shape == 'int':
            f = p.fn(nm, z3.IntSort(), z3.IntSort())
            return lambda i: f(i)
        if shape == 'real':
            f = p.fn(nm, z3.IntSort(), z3.RealSort())
            return lambda i: f(i)
        if shape == 'bool':
            f = p.fn(nm, z3.IntSort(), z3.BoolSort())
            return lambda i: f(i)
        if shape == 'opaque':
            f = p.fn(nm, z3.IntSort(), Opaque.SORT)
            return lambda i: Opaque(f(i))
        if shape == 'none':
            return lambda i: None
        if shape is None:
            def bad(i):
                raise Unsupported("element of a sequence of unknown shape (%s)" % nm)
            return bad
        if shape[0] == 'tuple':
            fs = [mk(s, "%s.%d" % (nm, i)) for i, s in enumerate(shape[1])]
            return lambda i: tuple(f(i) for f in fs)
        if shape[0] == 'nt':
            fs = [mk(s, "%s.%d" % (nm, i)) for i, s in enumerate(shape[2])]
            return lambda i: PNT(shape[1], [f(i) for f in fs])
        if shape[0] == 'elem':
            f = p.fn(nm + ".tag", z3.IntSort(), z3.IntSort())
            base = it.p.unit.elembases[shape[1]]
            return lambda i: base.at(f(i))
        if shape[0] == 'str':
            f = p.fn(nm, z3.IntSort(), StrV.SORT)
            return lambda i: StrV(f(i), shape[1])
        if shape[0] == 'code1':
            f = p.fn(nm, z3.IntSort(), z3.IntSort())
            return lambda i: Rope(shape[1], [('seq', SSeqOf(it, [f(i)]))])
        if shape[0] == 'const':
            return lambda i: shape[1]
        if shape[0] == 'alt':
            sel = p.fn(nm + ".sel", z3.IntSort(), z3.IntSort())
            fs = [mk(s, "%s|%d" % (nm, i)) for i, s in enumerate(shape[1])]
            def get(i):
                for j in range(len(fs) - 1):
                    if p.decide(sel(i) == j):
                        return fs[j](i)
                return fs[-1](i)
            return get
        def bad(i):
            raise Unsupported("element of shape %r" % (shape,))
        return bad
    f = mk(eshape, name)
    s = SSeq(n, f)
    s.eshape = eshape
    return s

# ------------------------------------------------------------ equality as obligations
def prove_equal(it, label, a, b, soft=False, depth=0):
    """Obligation(s) that two values are equal (element by element for sequences)."""
    p = it.p
    pr = (lambda n, g: p.soft(n, g)) if soft else (lambda n, g: p.prove(n, g))
    def fail():
        if soft:
            return False
        return pr(label, z3.BoolVal(False))
    if isinstance(a, PList):
        a = a.content
    if isinstance(b, PList):
        b = b.content
    if isinstance(a, PIter):
        a = it.iterate(a)
    if isinstance(b, PIter):
        b = it.iterate(b)
    if a is b:
        return True
    la, lb = isinstance(a, (list, SSeq)), isinstance(b, (list, SSeq))
    if la and lb:
        if isinstance(a, list) and isinstance(b, list):
            if len(a) != len(b):
                return fail()
            return all([prove_equal(it, label, x, y, soft, depth + 1) for x, y in zip(a, b)])
        a = a if isinstance(a, SSeq) else SSeqOf(it, a)
        b = b if isinstance(b, SSeq) else SSeqOf(it, b)
        if not pr(label + ".len", n_cmp('==', a.n, b.n)):
            return False
        n = a.n if isz(conc(a.n)) else b.n
        if p.choose(2) == 0:
            j = p.int("j")
            p.assume(z3.And(j >= 0, j < Z(n)))
            if not p.feasible():
                raise __import__('pyvc.core', fromlist=['PathEnd']).PathEnd("empty")
            ok = prove_equal(it, label + "[j]", a.get(j), b.get(j), soft, depth + 1)
            if not ok:
                return False
            raise PathEnd("side")
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return fail()
        return all([prove_equal(it, label, x, y, soft, depth + 1) for x, y in zip(a, b)])
    if isinstance(a, PNT) and isinstance(b, PNT):
        return prove_equal(it, label, a.vals, b.vals, soft, depth)
    if a is None or b is None:
        return fail() if (a is None) != (b is None) else True
    try:
        g = it.BI.same(it, a, b)
    except Unsupported:
        if not soft:
            raise
        return fail()
    return pr(label, g)

# ------------------------------------------------------------ driver
def call_key(it):
    return "/".join(x[1] for x in it.stack if x[0] == 'call' or x[0] == 'import')

def candidate_items(it, L):
    """All items of the unit's invariant functions that make sense in this loop."""
    out = []
    for fn in it.p.unit.invs:
        out.extend(run_candidate(it, L, fn, {}, 0))
    return out

def run_candidate(it, L, fn, roles, depth):
    L.roles, L.asked = dict(roles), set()
    tag = "".join("[%s=%s]" % kv for kv in sorted(roles.items()))
    try:
        items = []
        dropped = it.p.unit.tables.dropped
        for x in fn(L):
            if isinstance(x, tuple):
                lab = fn.__name__ + "." + x[0] + tag
                if (L.key, lab) in dropped:
                    continue
                f = x[1]
                items.append((lab, f() if callable(f) and not isz(f) else f))
            else:
                items.append((fn.__name__ + "." + x.label + tag, x))
        return items
    except Missing as m:
        if not it.p.unit.roles or depth >= 2 or m.name in roles.values():
            return []
        e = L.env
        if any(m.name in q.vars for q in chain(e)):
            return []                       # loop-defined and not yet bound
        out = []
        names = [n for n in e.vars if n not in L.asked and n not in roles.values() and not n.startswith('__')]
        for n in names[:12]:
            r = dict(roles)
            r[m.name] = n
            try:
                out.extend(run_candidate(it, L, fn, r, depth + 1))
            except (Unsupported, PyRaise, AttributeError, TypeError, KeyError, z3.Z3Exception):
                pass
            finally:
                L.roles = {}
            if len(out) > 60:
                break
        return out
    except (PyRaise, Unsupported, AttributeError, TypeError, KeyError, IndexError, z3.Z3Exception) as e:
        if isinstance(e, (PyRaise, Unsupported)) or roles or True:
            it.p.unit.skipped.add("%s: %s" % (fn.__name__, e))
            return []
    finally:
        L.roles = {}

def chain(e):
    while e is not None:
        yield e
        e = e.parent

def is_variant(label):
    return ".variant" in label

def check_items(it, L, key, k, when, skip=()):
    """Obligations of the candidates; those that fail are dropped together at the next restart."""
    p, T = it.p, it.p.unit.tables
    L.k = k
    items = [(label, x) for label, x in candidate_items(it, L) if (key, label) not in T.dropped and not is_variant(label) and label not in skip]
    labels = {label for label, x in items}
    if when == "on entry":
        L.checked = labels
    else:
        cm = p.unit.common
        cm[key] = labels & cm[key] if key in cm else labels
    for label, x in items:
        name = "loop %s: %s (%s)" % (key, label, when)
        gone = (key, label) in T.pending
        if isinstance(x, Def):
            ok = prove_equal(it, name, get_target(it, L, x), x.value, soft=True)
        elif isinstance(x, All):
            if gone:
                continue
            def body(x=x):
                j = p.int("j")
                p.assume(z3.And(j >= Z(x.lo), j < Z(x.n)))
                return not p.feasible(None, True) or p.soft(name, x.fn(j))
            try:
                ok = p.scoped(body)
            except Unsupported:
                ok = True
                if p.choose(2) == 0:
                    if not body():
                        T.drop(key, label, when)
                    raise PathEnd("side")
        else:
            ok = gone or p.soft(name, x)
        if not ok and not gone:
            T.drop(key, label, when)
            if isinstance(x, Def):
                raise Restart("dropped %s (%s)" % (label, when))

def get_target(it, L, d):
    t = d.target
    if isinstance(t, str):
        return L[t]
    if isinstance(t, PList):
        return t.content
    if isinstance(t, tuple):
        return t[0].fields[t[1]]
    raise Unsupported("target %r" % (t,))

def set_target(it, L, d):
    t = d.target
    v = d.value
    if isinstance(t, str):
        n = L.roles.get(t, t)
        for e in chain(L.env):
            if n in e.vars:
                if isinstance(e.vars[n], PList) and isinstance(v, SSeq):
                    e.vars[n].content = v
                else:
                    e.vars[n] = v
                return
        raise Missing(t)
    elif isinstance(t, PList):
        t.content = v
    elif isinstance(t, tuple):
        cur = t[0].fields.get(t[1])
        if isinstance(cur, PList) and isinstance(v, SSeq):
            cur.content = v
        else:
            t[0].fields[t[1]] = v

def assume_items(it, L, key, k, only=None):
    p, T = it.p, it.p.unit.tables
    L.k = k
    got = set()
    defs = set()
    assumed = p.unit.assumed.setdefault(key, set())
    # definitions first: other items may mention what they define
    for ph in (0, 1):
        for label, x in candidate_items(it, L):
            if (key, label) in T.dropped or (key, label) in T.pending or is_variant(label) or (only is not None and label in only):
                continue
            # what could not be stated on entry holds from the end of the first iteration on
            late = label not in L.checked
            if isinstance(x, Def):
                if late:
                    continue
                assumed.add(label)
                got.add(label)
                if ph == 0:
                    tk = x.target if isinstance(x.target, str) else (id(x.target) if isinstance(x.target, PList) else (id(x.target[0]), x.target[1]))
                    if tk in defs:
                        continue
                    defs.add(tk)
                    m = [r for r in label.split('[')[1:]]
                    L.roles = dict(r.rstrip(']').split('=', 1) for r in m)
                    set_target(it, L, x)
                    L.roles = {}
            elif ph == 1:
                got.add(label)
                assumed.add(label)
                late = z3.Implies if not late else (lambda a, b: z3.Implies(z3.And(Z(k) >= 1, a), b))
                if isinstance(x, All):
                    j = z3.Int("qj")
                    p.quant = getattr(p, 'quant', 0) + 1
                    try:
                        body = x.fn(j)
                    finally:
                        p.quant -= 1
                    p.assume(z3.ForAll([j], late(z3.And(j >= Z(x.lo), j < Z(x.n)), B(body))))
                else:
                    p.assume(late(z3.BoolVal(True), B(x)) if late is not z3.Implies else B(x))
    return got

def variant_items(it, L, key):
    T = it.p.unit.tables
    return [(l, x) for l, x in candidate_items(it, L) if is_variant(l) and (key, l) not in T.dropped]

def run_for(it, s, env):
    p = it.p
    srcv = it.ev(s.iter, env)
    src = it.retag(it.iterate(srcv))
    n = conc(src.n)
    if isz(n):
        m = p.small(n)
        if m is not None:
            n = m
    if not isz(n):
        if n > 20000:
            raise Unsupported("loop of %d iterations" % n)
        pos0 = srcv.pos if isinstance(srcv, PIter) else None
        done = 0
        for i in range(n):
            if pos0 is not None:
                it.setpos(srcv, n_add(pos0, i + 1))
            it.assign(s.target, src.get(i), env)
            try:
                it.exec_block(s.body, env)
            except ContinueEx:
                continue
            except BreakEx:
                return
        it.exec_block(s.orelse, env)
        return
    if desugar.appends(it, s, env, src, srcv):
        return
    run_inv(it, s, env, src, srcv)

def run_while(it, s, env):
    p = it.p
    if getattr(p.unit, 'cut_while', False):
        # the loop may run any number of times although each condition is a known value
        if p.unit.noterm or any(is_variant(l) for l, _ in candidate_items(it, LoopCtx(it, env, loop_key(it, s, env), None, p.unit.args))):
            run_inv(it, s, env, None, None)
            return
    for i in range(UNROLL):
        c = conc(it.truth(it.ev(s.test, env)))
        if isinstance(c, bool) and not isinstance(s.test, ast.Constant):
            if not c:
                it.exec_block(s.orelse, env)
                return
            try:
                it.exec_block(s.body, env)
            except ContinueEx:
                continue
            except BreakEx:
                return
            continue
        break
    else:
        raise Unsupported("loop not finished after %d concrete iterations" % UNROLL)
    key = loop_key(it, s, env)
    L = LoopCtx(it, env, key, None, p.unit.args)
    L.endless = isinstance(s.test, ast.Constant)
    if any(is_variant(l) for l, _ in candidate_items(it, L)) or p.unit.noterm:
        run_inv(it, s, env, None, None)
        return
    for i in range(FORK_UNROLL):
        if not it.cond(s.test, env):
            it.exec_block(s.orelse, env)
            return
        try:
            it.exec_block(s.body, env)
        except ContinueEx:
            continue
        except BreakEx:
            return
    raise Unsupported("loop at line %d needs an invariant" % s.lineno)

def loop_key(it, s, env):
    return "%s>%s.%s#%d" % (call_key(it), env.module.name, env.qual, s._ord if hasattr(s, '_ord') else 0)

def lookup_env(env, fid):
    for e in chain(env):
        if e.fid == fid:
            return e
    return None

def lookup_loc(it, env, loc):
    """(getter, setter, kind) of a heap or local location, or None when it does not exist here."""
    if loc[0] == 'local':
        e = None
        for q in chain(env):
            if q.fid == loc[1] and q.cls is None:
                e = q
                break
        if e is None or loc[2] not in e.vars:
            return None
        return (lambda: e.vars[loc[2]]), (lambda v: e.vars.__setitem__(loc[2], v))
    o = it.heap.get(loc[1])
    if o is None:
        return None
    if loc[0] == 'field':
        if loc[2] not in o.fields:
            return None
        return (lambda: o.fields[loc[2]]), (lambda v: o.fields.__setitem__(loc[2], v))
    if loc[0] == 'content':
        if isinstance(o, PDict):
            def put(v):
                o.tab, o.d = (v[1], dict(v[0])) if isinstance(v, tuple) else (v, {})
            return (lambda: o.tab if o.tab is not None else (dict(o.d), None)), put
        if isinstance(o, PSet):
            raise Unsupported("loop of symbolic length changes a set or dictionary")
        if isinstance(o, (PArr, SMap)) or not isinstance(o, PList):
            return (lambda: o.snapshot()), (lambda v: o.restore(v))
        return (lambda: o.content), (lambda v: setattr(o, 'content', v))
    if loc[0] == 'pos':
        return (lambda: o.pos), (lambda v: setattr(o, 'pos', v))
    if loc[0] == 'state':
        return (lambda: o.snapshot()), (lambda v: o.restore(v))
    raise Unsupported("location %r" % (loc,))

def dict_shape(v):
    if isinstance(v, Tab):
        return v.shape()
    d = v[0]
    if not d:
        return ('tab', None, None)
    ks = list(d)
    if all(isinstance(k, tuple) and len(k) == len(ks[0]) and all(is_int(x) for x in k) for k in ks) and all(is_num(x) for x in d.values()):
        return ('tab', ('i',) * len(ks[0]), 'int' if all(is_int(x) for x in d.values()) else 'real')
    raise Unsupported("loop of symbolic length changes a dictionary")

def isdict(v):
    return isinstance(v, Tab) or isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], dict) and v[1] is None

def loc_shape(it, loc, v):
    if loc[0] == 'content' and isdict(v):
        return dict_shape(v)
    if loc[0] == 'content' and isinstance(v, (list, SSeq)):
        return content_shape(v)
    if isinstance(v, Undef):
        return 'undef'
    if hasattr(v, 'shape'):
        return v.shape()
    return shape_of(v)

def locname(loc):
    return str(loc[-1]) if loc[0] != 'content' else "in" + str(loc[1])

def run_inv(it, s, env, src, srcv):
    p, T = it.p, it.p.unit.tables
    key = loop_key(it, s, env)
    p.unit.nloops.add(key)
    L = LoopCtx(it, env, key, src, p.unit.args)
    L.endless = isinstance(s, ast.While) and isinstance(s.test, ast.Constant)
    for q in chain(env):
        if q.cls is None:
            for n, v in q.vars.items():
                if n not in L.entryvals:
                    L.entryvals[n] = snapshot(v)
    frame = it.frame_no(env.fid)
    birth = next(p.births)
    pos0 = srcv.pos if isinstance(srcv, PIter) else None
    # what the body assigns syntactically
    names = stored_names(s.body) | (stored_names([s.target]) if src is not None else set())
    havoc = T.havoc.setdefault(key, {})
    undef = [n for n in sorted(names) if n not in env.vars and n not in env.globs and n not in env.nonl]
    live = [n for n in sorted(names) if n in env.vars]
    if src is not None:
        tn = stored_names([s.target])
    else:
        tn = set()
    peel = src is None and p.unit.peel
    if peel:
        # while c: B  is  if c: do B while c; the invariants are those of the beginning of B
        if not it.cond(s.test, env):
            it.exec_block(s.orelse, env)
            return
    # invariants hold on entry
    check_items(it, L, key, 0, "on entry")
    # arbitrary iteration
    k = p.int("k")
    p.assume(k >= 0)
    L.k = k
    if src is not None:
        p.assume(k <= Z(src.n))
    locs = [('local', env.fid, n) for n in live] + [l for l in sorted(havoc, key=str) if not (l[0] == 'local' and l[1] == env.fid and l[2] in live)]
    entry_shapes = {}
    for loc in locs:
        if loc[0] == 'local' and loc[2] in tn and src is not None:
            continue
        gs = lookup_loc(it, env, loc)
        if gs is None:
            continue
        old = gs[0]()
        sh = T.shapes.get((key, loc))
        es = loc_shape(it, loc, old)
        sh2 = join(sh, es)
        if sh is not None and sh2 != sh:
            T.shapes[(key, loc)] = sh2
        elif sh is None:
            T.shapes[(key, loc)] = sh2
        if isinstance(old, Undef):
            # maybe unbound on entry: its value before, or what an iteration gave it
            if sh2 != 'undef':
                def shp2(sh2=sh2, loc=loc):
                    return fresh(it, sh2, loc[2])
                u = Undef(loc[2], k, shp2, lambda: None)
                u.old = (old,)
                gs[1](u)
            continue
        gs[1](havoc_value(it, sh2, locname(loc), old))
    if pos0 is not None:
        srcv.pos = n_add(pos0, k)
    loader_done = {'got': set()}
    def loader():
        loader_done['got'] |= assume_items(it, L, key, k, only=loader_done['got'])
    for n in undef:
        def shp(n=n):
            if n in T.maybeundef.get(key, ()):
                raise Unsupported("variable %s may be unbound" % n)
            if n in tn and src is not None:
                e2 = env
                it.p.loops, sv = [], it.p.loops
                try:
                    it.assign(s.target, src.get(n_sub(k, 1)), env)
                finally:
                    it.p.loops = sv
                return env.vars[n]
            sh = T.shapes.get((key, ('local', env.fid, n)))
            if sh is None or sh == 'undef':
                raise PathEnd("no iteration defines %s" % n)
            return fresh(it, sh, n)
        env.vars[n] = Undef(n, k, shp, loader)
    for n in tn:
        if n in live:
            # a loop target that existed before: value before, or the last element
            ov = env.vars[n]
            def shp(n=n):
                it.p.loops, sv = [], it.p.loops
                try:
                    it.assign(s.target, src.get(n_sub(k, 1)), env)
                finally:
                    it.p.loops = sv
                return env.vars[n]
            env.vars[n] = Undef(n, k, shp, lambda: None)
            env.vars[n].old = (ov,)
    loader()
    if src is not None:
        go = p.decide(n_cmp('<', k, src.n))
    else:
        go = it.cond(s.test, env)
    if peel and not go:
        raise PathEnd("the body begins only when the condition holds")
    if not go:
        if T.pending:
            raise PathEnd("to be verified again")
        if src is not None:
            p.assume(n_cmp('==', k, src.n))
        it.exec_block(s.orelse, env)
        return
    mon = Monitor(key, birth, frame)
    p.loops.append(mon)
    var0 = [(l, x) for l, x in variant_items(it, L, key)] if src is None else []
    try:
        if src is not None:
            if pos0 is not None:
                srcv.pos = n_add(pos0, n_add(k, 1))
            it.assign(s.target, src.get(k), env)
        it.exec_block(s.body, env)
    except ContinueEx:
        pass
    except BreakEx:
        p.loops.remove(mon)
        L.k = k
        return
    except BaseException:
        if mon in p.loops:
            p.loops.remove(mon)
        raise
    p.loops.remove(mon)
    # end of the arbitrary iteration
    new = [l for l in mon.written if l not in havoc and not (l[0] == 'local' and l[1] == env.fid and l[2] in names)]
    ch = []
    for l in new:
        havoc[l] = True
        ch.append(l)
    for loc in list(mon.written) + [('local', env.fid, n) for n in undef]:
        if loc[0] == 'local' and loc[2] in tn and loc[1] == env.fid:
            continue
        gs = lookup_loc(it, env, loc)
        if gs is None:
            continue
        v = gs[0]()
        if loc[0] == 'local' and isinstance(v, Undef):
            if loc[2] in undef and loc[2] not in T.maybeundef.setdefault(key, set()):
                T.maybeundef[key].add(loc[2])
                ch.append(('undef', loc[2]))
            continue
        sh = T.shapes.get((key, loc))
        sh2 = join(sh, end_shape(it, loc, v, birth))
        if sh2 != sh:
            T.shapes[(key, loc)] = sh2
            if not (loc[0] == 'local' and loc[2] in undef and sh is None):
                ch.append(loc)
            elif loc[2] in undef:
                ch.append(loc)
    if ch:
        raise Restart("loop %s modifies %s" % (key, ch))
    if peel and not it.cond(s.test, env):
        # leave the loop after this iteration
        if T.pending:
            raise PathEnd("to be verified again")
        it.exec_block(s.orelse, env)
        return
    check_items(it, L, key, n_add(k, 1), "preserved")
    if src is None and not p.unit.noterm:
        L.k = n_add(k, 1)
        var1 = dict(variant_items(it, L, key))
        ok = False
        for l, v0 in var0:
            if l not in var1:
                continue
            if variant_ok(p, "loop %s: %s" % (key, l), v0, var1[l]):
                ok = True
                break
        if not ok:
            p.prove("loop %s: terminates (variant decreases)" % key, False)
    raise PathEnd("iteration")

def variant_ok(p, name, v0, v1):
    """Lexicographic decrease of a tuple of integers bounded below by zero."""
    if not isinstance(v0, tuple):
        v0, v1 = (v0,), (v1,)
    goal, eqs = False, True
    for a, b in zip(v0, v1):
        step = 1
        dec = land(n_cmp('>=', a, 0), n_cmp('<=', b, n_sub(a, step)))
        goal = lor(goal, land(eqs, dec))
        eqs = land(eqs, n_cmp('==', a, b))
    return p.soft(name + " decreases", goal)

def end_shape(it, loc, v, birth):
    if loc[0] == 'content' and isdict(v):
        return dict_shape(v)
    if loc[0] == 'content' and isinstance(v, (list, SSeq)):
        return content_shape(v)
    if isinstance(v, Undef):
        return 'undef'
    if hasattr(v, 'shape'):
        return v.shape()
    return deep_shape(v, birth)

def deep_shape(v, birth):
    if isinstance(v, PList) and v.birth > birth:
        return ('list', elem_shape(v.content))
    if isinstance(v, Elem):
        return ('elem', v.base.name)
    if isinstance(v, tuple):
        return ('tuple', tuple(deep_shape(x, birth) for x in v))
    return shape_of(v)

def havoc_value(it, sh, name, old):
    if isinstance(sh, tuple) and sh[0] == 'content':
        n = it.p.int(name + ".len")
        it.p.assume(n >= 0)
        return fresh_seq(it, sh[1], n, name)
    if isinstance(sh, tuple) and sh[0] == 'tab':
        if sh[1] is None:
            return old
        p, sig = it.p, sh[1]
        ks = [it.BI.KSORT[x] for x in sig]
        kt = it.BI.kterm
        d = p.fn(name + ".dom", *(ks + [z3.BoolSort()]))
        def mk(s, nm):
            if s in ('int', 'real', 'opaque') or isinstance(s, tuple) and s[0] == 'str':
                srt = z3.IntSort() if s == 'int' else z3.RealSort() if s == 'real' else Opaque.SORT if s == 'opaque' else StrV.SORT
                f = p.fn(nm, *(ks + [srt]))
                w = (lambda t: Opaque(t)) if s == 'opaque' else (lambda t: t) if isinstance(s, str) else (lambda t: StrV(t, s[1]))
                return lambda *xs: w(f(*[kt(x) for x in xs]))
            if isinstance(s, tuple) and s[0] in ('nt', 'tuple'):
                fs = [mk(x, "%s.%d" % (nm, i)) for i, x in enumerate(s[-1])]
                if s[0] == 'nt':
                    return lambda *xs: PNT(s[1], [f(*xs) for f in fs])
                return lambda *xs: tuple(f(*xs) for f in fs)
            if isinstance(s, tuple) and s[0] == 'const':
                return lambda *xs: s[1]
            raise Unsupported("a table of %r" % (s,))
        return Tab(len(sig), lambda *xs: d(*[kt(x) for x in xs]), mk(sh[2], name + ".val"), sh[2], sig)
    if hasattr(old, 'havoc'):
        return old.havoc(it, sh, name)
    if isinstance(sh, tuple) and sh[0] == 'list' and isinstance(old, PList):
        l = fresh(it, sh, name)
        return l
    return fresh(it, sh, name)

def snapshot(v):
    if isinstance(v, PDict):
        w = PDict(v._d)
        w.tab, w.name, w.birth = v.tab, v.name, v.birth
        return w
    if isinstance(v, PList):
        c = v.content
        w = PList(list(c) if isinstance(c, list) else c)
        w.name, w.birth = v.name, v.birth
        return w
    if isinstance(v, PObj):
        w = PObj(v.cls, dict(v.fields))
        w.name, w.birth = v.name, v.birth
        w.orig = v
        return w
    return v
