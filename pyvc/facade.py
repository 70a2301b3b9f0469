"""What contract scripts use."""
from fractions import Fraction
import z3
from .values import *
from .core import Unit, Restart
from .interp import Interp, SSeqOf
from .loops import Def, All, prove_equal, fresh_seq
from . import builtins_ as BI

ForAll, Exists, And, Or, Not, Implies, If = z3.ForAll, z3.Exists, z3.And, z3.Or, z3.Not, z3.Implies, z3.If

class V:
    def __init__(self, path):
        self.p = path
        self.it = Interp(path)
        self.it.facade = self
        self.ncalls = 0
        self.BI = BI

    # -- inputs
    def int(self, name, lo=None, hi=None):
        x = self.p.int(name)
        self.note(name, x)
        if lo is not None:
            self.assume(x >= Z(lo))
        if hi is not None:
            self.assume(x <= Z(hi))
        return x
    def real(self, name, lo=None, hi=None):
        x = self.p.real(name)
        self.note(name, x)
        if lo is not None:
            self.assume(x >= R(lo))
        if hi is not None:
            self.assume(x <= R(hi))
        return x
    def bool(self, name):
        x = self.p.bool(name)
        self.note(name, x)
        return x
    def str(self, name, kind='str'):
        return BI.newstr(self.it, name, kind)
    def opaque(self, name):
        return Opaque(self.p.const(name, Opaque.SORT))
    def note(self, name, term):
        if name not in self.p.unit.inputs or True:
            self.p.unit.inputs[name] = term
    def seq(self, name, shape, n=None, minlen=0, kind='list'):
        """Arbitrary sequence with elements of the shape."""
        if n is None:
            n = self.p.int("len_" + name)
            self.assume(n >= minlen)
        s = fresh_seq(self.it, shape, n, name)
        s.kind = kind
        def show(m, s=s, n=n):
            from .core import model_value
            k = m.eval(Z(n), model_completion=True)
            k = k.as_long() if z3.is_int_value(k) else 0
            if k > 40:
                return {"len": k}
            return [model_value(m, s.get(z3.IntVal(i))) for i in range(max(k, 0))]
        self.note(name, show)
        return s
    def list(self, seq):
        return self.it.newlist(seq if isinstance(seq, (SSeq, list)) else list(seq), "arg")
    def iter(self, seq):
        return self.it.alloc(PIter(seq if isinstance(seq, SSeq) else SSeqOf(self.it, list(seq))), "argiter")
    def choose(self, *opts):
        return opts[self.p.choose(len(opts))]

    # -- running the real code
    def mod(self, name):
        return self.it.module(name)
    def get(self, path):
        """'bbox.BBox.scale' -> the object of that name."""
        parts = path.split('.')
        o = self.it.module(parts[0])
        for x in parts[1:]:
            o = self.it.getattr(o, x)
        return o
    def call(self, f, *args, **kw):
        if isinstance(f, str):
            f = self.get(f)
        self.ncalls += 1
        self.it.stack.append(('call', "c%d" % self.ncalls))
        try:
            return self.it.call(f, list(args), kw)
        finally:
            self.it.stack.pop()
    def builtin(self, name):
        return self.it.builtins[name]
    def meth(self, o, name, *args, **kw):
        return self.call(self.it.getattr(o, name), *args, **kw)
    def attr(self, o, name):
        return self.it.getattr(o, name)
    def setattr(self, o, name, v):
        self.it.setattr(o, name, v)
    def binop(self, op, a, b):
        self.ncalls += 1
        self.it.stack.append(('call', "c%d" % self.ncalls))
        try:
            return self.it.binop(op, a, b)
        finally:
            self.it.stack.pop()
    def cmp(self, op, a, b):
        if op == '==':
            return self.it.truth(self.it.eq(a, b))
        if op == '!=':
            if isinstance(a, PObj) and a.cls.lookup('__ne__'):
                return self.it.truth(self.it.call(self.it.getattr(a, '__ne__'), [b], {}))
            return lnot(self.it.truth(self.it.eq(a, b)))
        return self.it.truth(self.it.order(op, a, b))
    def new(self, cls, **fields):
        """Object of a real class with given fields (a precondition's arbitrary valid object)."""
        c = self.get(cls) if isinstance(cls, str) else cls
        return self.it.alloc(PObj(c, fields), "obj")
    def attempt(self, f, *args, **kw):
        """('ok', value) or ('raise', exception)."""
        try:
            return 'ok', self.call(f, *args, **kw)
        except PyRaise as e:
            return 'raise', e.exc
    def raised(self, exc, *names):
        n = exc.cls.__name__ if isinstance(exc, PExc) else exc.cls.name
        if n in names:
            return True
        if isinstance(exc, PExc):
            return any(c.__name__ in names for c in exc.cls.__mro__)
        return any(c.name in names for c in exc.cls.mro())

    # -- logic
    def assume(self, *cs):
        for c in cs:
            self.p.assume(c)
    def prove(self, name, goal):
        self.p.unit.covered.add(name)
        return self.p.prove(name, goal)
    def fail(self, name, detail=""):
        self.p.unit.covered.add(name)
        self.p.fail(name, detail)
    def prove_equal(self, name, a, b):
        self.p.unit.covered.add(name)
        return prove_equal(self.it, name, a, b)
    def side(self, fn):
        """Run fn on a side path (for goals with arbitrary elements), then continue without its effects."""
        if self.p.choose(2) == 0:
            fn()
            raise PathEnd("side")
    def forall(self, name, n, fn, lo=0):
        """Obligation: fn(j) for every lo <= j < n; fn gives the goal, or states obligations itself."""
        def body():
            j = self.p.int("j")
            self.note("index", j)
            self.assume(z3.And(j >= Z(lo), j < Z(n)))
            if not self.p.feasible():
                return
            g = fn(j)
            if g is not None:
                self.prove(name, g)
        self.p.unit.covered.add(name)
        self.side(body)
    def all(self, n, fn, lo=0):
        """Formula: forall lo <= j < n: fn(j)."""
        j = z3.Int("qv%d" % getattr(self.p, 'quant', 0))
        self.p.quant = getattr(self.p, 'quant', 0) + 1
        try:
            b = fn(j)
        finally:
            self.p.quant -= 1
        return z3.ForAll([j], z3.Implies(z3.And(j >= Z(lo), j < Z(n)), B(b)))
    def exists(self, n, fn, lo=0):
        j = z3.Int("qv%d" % getattr(self.p, 'quant', 0))
        self.p.quant = getattr(self.p, 'quant', 0) + 1
        try:
            b = fn(j)
        finally:
            self.p.quant -= 1
        return z3.Exists([j], z3.And(j >= Z(lo), j < Z(n), B(b)))
    def case(self, c):
        """Split on a condition."""
        return self.p.decide(c)
    def truth(self, v):
        return self.it.truth(v)
    def assumption(self, text):
        self.p.unit.assumptions.add(text)
    def reach(self, label):
        """Reachability (vacuity) mark: the unit must reach it on a feasible path."""
        if self.p.feasible():
            self.p.unit.reached.add(label)
    def model(self):
        s = z3.Solver()
        s.add(*self.p.pc)
        return s.check()

def ground_args(p, f, *extra):
    """Ground arguments at which the function occurs in the path condition (for witnesses)."""
    out, seen = {}, set()
    st = list(p.pc) + [Z(e) if not isinstance(e, Fraction) else R(e) for e in extra]
    hasvar = {}
    def closed(e):
        if z3.is_var(e):
            return False
        k = e.get_id()
        if k not in hasvar:
            hasvar[k] = all(closed(c) for c in e.children()) if not z3.is_quantifier(e) else False
        return hasvar[k]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            if x.decl().eq(f) and closed(x):
                out[z3.simplify(x.arg(0)).sexpr()] = z3.simplify(x.arg(0))
            st.extend(x.children())
    return list(out.values())

def resolve(p, *terms):
    """Split on the conditions of the terms' if-then-elses; the terms without them."""
    ts = [R(t) if not isz(t) else t for t in terms]
    for _ in range(200):
        c = None
        for t in ts:
            st = [t]
            seen = set()
            while st and c is None:
                x = st.pop()
                if x.get_id() in seen:
                    continue
                seen.add(x.get_id())
                if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and not any(z3.is_app_of(y, z3.Z3_OP_ITE) for y in subterms(x.arg(0))):
                    c = x.arg(0)
                st.extend(x.children())
            if c is not None:
                break
        if c is None:
            break
        v = z3.BoolVal(p.decide(c))
        ts = [z3.simplify(z3.substitute(t, (c, v))) if True else t for t in ts]
    return ts

def subterms(e):
    st, seen, out = [e], set(), []
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        out.append(x)
        st.extend(x.children())
    return out
