"""Symbolic interpreter of the Python subset: executes the real functions of /repo/coral, parsed from
the working tree on every run.  Loops are handled by invariants (see Loop), calls either by executing
the callee's body or, when the unit registers a contract for it, by that contract."""
import ast, os, sys, itertools
from fractions import Fraction
import z3
from .values import *
from . import values as VAL
from . import desugar

REPO = os.environ.get("CORAL_REPO", "/repo")
MAX_DEPTH = 60
UNROLL = 80

sys.setrecursionlimit(20000)

class Env:
    __slots__ = ('vars', 'parent', 'module', 'globs', 'nonl', 'fid', 'cls', 'qual', 'out')
    def __init__(self, module, parent=None, fid=None, cls=None, qual=None):
        self.vars, self.parent, self.module = {}, parent, module
        self.globs, self.nonl = set(), set()
        self.fid, self.cls, self.qual = fid, cls, qual
        self.out = None

class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v
class BreakEx(Exception): pass
class ContinueEx(Exception): pass

class Mangle(ast.NodeTransformer):
    """Private names (__x in the body of a class), as the compiler writes them."""
    cls = None
    def mangle(self, n):
        return "_" + self.cls.lstrip("_") + n if self.cls and n.startswith("__") and not n.endswith("__") and "." not in n and self.cls.strip("_") else n
    def visit_ClassDef(self, n):
        n.name, old = self.mangle(n.name), self.cls
        n.bases = [self.visit(b) for b in n.bases]
        n.decorator_list = [self.visit(b) for b in n.decorator_list]
        self.cls = n.name
        n.body = [self.visit(b) for b in n.body]
        self.cls = old
        return n
    def visit_FunctionDef(self, n):
        n.name = self.mangle(n.name)
        return self.generic_visit(n)
    def visit_Name(self, n):
        n.id = self.mangle(n.id)
        return n
    def visit_Attribute(self, n):
        n.attr = self.mangle(n.attr)
        return self.generic_visit(n)
    def visit_arg(self, n):
        n.arg = self.mangle(n.arg)
        return self.generic_visit(n)
    def visit_keyword(self, n):
        if n.arg:
            n.arg = self.mangle(n.arg)
        return self.generic_visit(n)

_AST = {}
def module_ast(name):
    path = os.path.join(REPO, "coral", name + ".py")
    if name not in _AST:
        with open(path, "rb") as f:
            src = f.read().decode("utf8")
        tree = Mangle().visit(ast.parse(src, path))
        _AST[name] = (tree, path)
        for fn in ast.walk(tree):
            if isinstance(fn, (ast.FunctionDef, ast.Lambda)):
                loops = [n for n in ast.walk(fn) if isinstance(n, (ast.For, ast.While))]
                for i, n in enumerate(loops):
                    if not hasattr(n, "_ord"):
                        n._ord = i
                    n._fn = fn
                fn._isgen = _has_yield(fn)
    return _AST[name]

def _has_yield(fn):
    st = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while st:
        n = st.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False

def stored_names(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out

BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%',
          ast.Pow: '**', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv', '%': 'mod', '**': 'pow',
          '&': 'and', '|': 'or', '^': 'xor', '<<': 'lshift', '>>': 'rshift'}
CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
CMPD = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}
SWAP = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}

def raise_(cls, *args):
    raise PyRaise(PExc(cls, args))

class Interp:
    def __init__(self, path):
        self.p = path
        self.modules = {}
        self.stack = []
        self.depth = 0
        self.calls = itertools.count()
        self.frames = itertools.count()
        self.heap = {}
        self.overrides = path.unit.overrides
        self.files = {}
        self.ghost = {}
        self.ext_hooks = {}
        self.facade = None
        self.cur_exc = []
        from . import builtins_ as BI
        self.BI = BI
        self.builtins = BI.table(self)

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        tree, path = module_ast(name)
        d = {'__name__': 'coral.' + name, '__file__': path}
        m = PModule(name, d)
        self.modules[name] = m
        env = Env(m, None, 'mod:' + name)
        env.vars = d
        saved, self.stack = self.stack, [("import", name)]
        self.exec_block(tree.body, env)
        self.stack = saved
        return m

    # ------------------------------------------------------------ names
    def lookup(self, name, env):
        e = env
        while e is not None:
            if name in e.vars and name not in (e.globs if e is env else ()):
                return self.resolve(e, name)
            e = e.parent
        d = env.module.d
        if name in d:
            return d[name]
        if name in self.builtins:
            return self.builtins[name]
        raise_(NameError, "name '%s' is not defined" % name)

    def resolve(self, e, name):
        v = e.vars[name]
        if isinstance(v, Undef):
            if v.loopkey is None:
                raise_(UnboundLocalError, name)
            lp = v.loopkey
            if self.p.decide(n_cmp('<', 0, v.k)):
                val = v.shape()
                e.vars[name] = val
                lp()
                return val
            if v.old is not None:
                e.vars[name] = v.old[0]
                return v.old[0]
            raise_(UnboundLocalError, name)
        return v

    def store(self, name, v, env):
        if name in env.globs:
            env.module.d[name] = v
            return
        if name in env.nonl:
            e = env.parent
            while e is not None:
                if name in e.vars:
                    self.wrote(('local', e.fid, name), 0, e)
                    e.vars[name] = v
                    return
                e = e.parent
        self.wrote(('local', env.fid, name), None, env)
        env.vars[name] = v

    # ------------------------------------------------------------ heap
    def alloc(self, obj, site=None):
        if site is None:
            site = self.site()
        self.p.alloc(obj, site)
        self.heap[obj.name] = obj
        return obj

    def site(self):
        return self.stack[-1][1] if self.stack else "top"

    def wrote(self, loc, birth, obj):
        if self.p.pure_writes is not None:
            if birth is not None and birth > self.p.pure_writes:
                return
            if loc[0] == 'local' and self.frame_no(loc[1]) > self.p.pure_frames:
                return
            raise Unsupported("write to %s in a context that must be pure" % (loc,))
        for mon in self.p.loops:
            if birth is not None and birth > mon.birth:
                continue
            if loc[0] == 'local' and self.frame_no(loc[1]) > mon.frame:
                continue
            mon.written[loc] = obj

    @staticmethod
    def frame_no(fid):
        return int(fid.rsplit('#', 1)[1]) if '#' in fid else -1

    def setfield(self, o, name, v):
        if getattr(o, 'frozen', False):
            raise Unsupported("write to an element of a functional sequence")
        self.wrote(('field', o.name, name), o.birth, o)
        o.fields[name] = v

    def setcontent(self, o, content):
        if getattr(o, 'frozen', False):
            par = getattr(o, 'parent', None)
            if par is None:
                raise Unsupported("write to an element of a functional sequence")
            lst, idx = par
            self.wrote(('content', o.name), o.birth, o)
            o.content = content
            self.setcontent(lst, self.BI.upd(self, lst.content, idx, content if isinstance(content, SSeq) else SSeqOf(self, content)))
            return
        self.wrote(('content', o.name), o.birth, o)
        o.content = content

    def newlist(self, content, site=None):
        return self.alloc(PList(content), site)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        self.p.tick()
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, env)

    def x_Pass(self, s, env): pass

    def x_Import(self, s, env):
        for a in s.names:
            top = a.name.split('.')[0]
            self.store(a.asname or top, Ext(a.name if a.asname else top), env)

    def x_ImportFrom(self, s, env):
        for a in s.names:
            if s.level:
                if s.module:
                    mod = self.module(s.module)
                    v = mod.d[a.name]
                else:
                    v = self.module(a.name)
            else:
                v = Ext(s.module + '.' + a.name)
            self.store(a.asname or a.name, v, env)

    def x_Global(self, s, env):
        env.globs |= set(s.names)

    def x_Nonlocal(self, s, env):
        env.nonl |= set(s.names)

    def x_FunctionDef(self, s, env):
        f = self.mkfunc(s, env)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f, env)
        self.store(s.name, f, env)

    def mkfunc(self, s, env):
        defaults = [self.ev(d, env) for d in s.args.defaults]
        kwd = {a.arg: self.ev(d, env) for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults) if d is not None}
        name = getattr(s, 'name', '<lambda>')
        qual = (env.qual + '.' + name) if env.qual else name
        closure = env if env.fid and not env.fid.startswith('mod:') and env.cls is None else None
        if env.cls is not None:
            closure = None
        return PFunc(s, env.module, closure, qual, env.cls, defaults, kwd)

    def decorate(self, d, f, env):
        v = self.ev(d, env)
        return self.call(v, [f], {})

    def x_ClassDef(self, s, env):
        bases = [self.ev(b, env) for b in s.bases]
        bases = [b.host if isinstance(b, Builtin) and hasattr(b, 'host') else b for b in bases]
        bases = [self.ext_type(b) if isinstance(b, Ext) else b for b in bases]
        cls = PClass(s.name, [b for b in bases if b is not object], {}, env.module, (env.qual + '.' if env.qual else '') + s.name)
        e = Env(env.module, env if env.cls is None else None, env.fid, cls, cls.qualname)
        cenv = Env(env.module, env.parent, 'mod:' + cls.name, cls, cls.qualname)
        cenv.vars = cls.d
        self.exec_block(s.body, cenv)
        v = cls
        for d in reversed(s.decorator_list):
            v = self.decorate(d, v, env)
        self.store(s.name, v, env)

    def ext_type(self, b):
        if b.path in ('array.array',):
            return b
        return b

    def x_Return(self, s, env):
        raise ReturnEx(self.ev(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env):
        raise BreakEx()

    def x_Continue(self, s, env):
        raise ContinueEx()

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.wrote(('local', env.fid, t.id), None, env)
                if t.id in env.vars:
                    del env.vars[t.id]
                else:
                    raise_(NameError, t.id)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, env), self.ev(t.slice, env)
                self.BI.delitem(self, o, k)
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                n = self.mangle(t.attr, env)
                if not isinstance(o, PObj) or n not in o.fields:
                    raise_(AttributeError, n)
                self.wrote(('field', o.name, n), o.birth, o)
                del o.fields[n]
            else:
                raise Unsupported("del")

    def x_Assert(self, s, env):
        if not self.cond(s.test, env):
            raise_(AssertionError, *( [self.ev(s.msg, env)] if s.msg is not None else []))

    def x_If(self, s, env):
        if self.cond(s.test, env):
            self.exec_block(s.body, env)
        else:
            self.exec_block(s.orelse, env)

    def x_Raise(self, s, env):
        if s.exc is None:
            if self.cur_exc:
                raise PyRaise(self.cur_exc[-1])
            raise_(RuntimeError, "No active exception to reraise")
        v = self.ev(s.exc, env)
        raise PyRaise(self.mkexc(v))

    def mkexc(self, v):
        if isinstance(v, PExc):
            return v
        if isinstance(v, Builtin) and isinstance(getattr(v, 'host', None), type) and issubclass(v.host, BaseException):
            return PExc(v.host, ())
        if isinstance(v, PClass):
            return self.call(v, [], {})
        if isinstance(v, PObj):
            return v
        if isinstance(v, Ext) and v.path.endswith('error'):
            return PExc(self.BI.StructError, ())
        return PExc(TypeError, ("exceptions must derive from BaseException",))

    def exc_match(self, exc, h, env):
        if h is None:
            return True
        t = self.ev(h, env)
        ts = t if isinstance(t, tuple) else (t,)
        for c in ts:
            if isinstance(c, PClass):
                if isinstance(exc, PObj) and exc.cls.is_subclass(c):
                    return True
                continue
            host = getattr(c, 'host', None)
            if isinstance(c, Ext) and c.path in ('struct.error',):
                host = self.BI.StructError
            if host is None:
                raise Unsupported("except %r" % (c,))
            if isinstance(exc, PExc) and issubclass(exc.cls, host):
                return True
            if isinstance(exc, PObj):
                bb = exc.cls.builtin_base()
                if bb is not None and issubclass(bb, host):
                    return True
        return False

    def x_Try(self, s, env):
        try:
            try:
                self.exec_block(s.body, env)
            except PyRaise as e:
                for h in s.handlers:
                    if self.exc_match(e.exc, h.type, env):
                        if h.name:
                            self.store(h.name, e.exc, env)
                        self.cur_exc.append(e.exc)
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            self.cur_exc.pop()
                        break
                else:
                    raise
            else:
                self.exec_block(s.orelse, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                self.exec_block(s.finalbody, env)
            raise
        if s.finalbody:
            self.exec_block(s.finalbody, env)

    def x_With(self, s, env):
        mgrs = []
        for it in s.items:
            v = self.ev(it.context_expr, env)
            ent = self.BI.enter(self, v)
            mgrs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, ent, env)
        try:
            self.exec_block(s.body, env)
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            for v in reversed(mgrs):
                self.BI.exit_(self, v)
            raise
        for v in reversed(mgrs):
            self.BI.exit_(self, v)

    # assignment
    def x_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.store(t.id, v, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                after = len(t.elts) - i - 1
                if not isinstance(v, (tuple, list, PNT)):
                    sq = self.iterate(v)
                    n = conc(sq.n)
                    if isz(n):
                        if self.p.decide(n_cmp('<', n, i + after)):
                            raise_(ValueError, "not enough values to unpack")
                        for j, e in enumerate(t.elts[:i]):
                            self.assign(e, sq.get(z3.IntVal(j)), env)
                        self.assign(t.elts[i].value, self.newlist(self.BI.seq_slice(self, sq, i, n_sub(n, after))), env)
                        for j, e in enumerate(t.elts[i + 1:]):
                            self.assign(e, sq.get(n_sub(n, after - j)), env)
                        return
                vals = self.unpack(v, None)
                if len(vals) < i + after:
                    raise_(ValueError, "not enough values to unpack")
                mid = vals[i:len(vals) - after]
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, self.newlist(list(mid)), env)
                for e, x in zip(t.elts[i + 1:], vals[len(vals) - after:]):
                    self.assign(e, x, env)
            else:
                vals = self.unpack(v, len(t.elts))
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), self.mangle(t.attr, env), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            self.setitem(o, k, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n):
        """Host list of the elements of an iterable (of exactly n elements unless n is None)."""
        if isinstance(v, (tuple, list)):
            vals = list(v)
        elif isinstance(v, PNT):
            vals = list(v.vals)
        else:
            sq = self.iterate(v)
            ln = conc(sq.n)
            if isz(ln):
                if n is None:
                    ln = self.concretize(ln)
                    vals = [sq.get(i) for i in range(ln)]
                elif self.p.decide(n_cmp('==', ln, n)):
                    vals = [sq.get(i) for i in range(n)]
                else:
                    raise_(ValueError, "wrong number of values to unpack")
            else:
                vals = [sq.get(i) for i in range(ln)]
                if isinstance(v, PIter):
                    self.setpos(v, n_add(v.pos, ln))
        if n is not None and len(vals) != n:
            raise_(ValueError, "wrong number of values to unpack (%d for %d)" % (len(vals), n))
        return vals

    def concretize(self, term, lo=0, hi=12):
        """Fork on the value of an integer term known to be small."""
        t = conc(term)
        if not isz(t):
            return t
        for i in range(lo, hi + 1):
            if self.p.decide(n_cmp('==', t, i)):
                return i
        raise Unsupported("value of %s is not small" % term)

    def x_AugAssign(self, s, env):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, env)
            self.store(t.id, self.augop(op, cur, self.ev(s.value, env)), env)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            n = self.mangle(t.attr, env)
            cur = self.getattr(o, n)
            self.setattr(o, n, self.augop(op, cur, self.ev(s.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev(t.slice, env)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(op, cur, self.ev(s.value, env)))
        else:
            raise Unsupported("augmented assignment")

    def augop(self, op, cur, v):
        if op == '+' and isinstance(cur, PList):
            self.BI.list_extend(self, cur, v)
            return cur
        if op in '|&-' and isinstance(cur, PSet):
            r = self.binop(op, cur, v)
            self.wrote(('content', cur.name), cur.birth, cur)
            cur.s = r.s
            return cur
        if isinstance(cur, PObj):
            f = cur.cls.lookup('__i%s__' % DUNDER[op])
            if f is not None:
                return self.call(PBound(cur, f), [v], {})
        return self.binop(op, cur, v)

    # ------------------------------------------------------------ loops
    def x_While(self, s, env):
        from .loops import run_while
        run_while(self, s, env)

    def x_For(self, s, env):
        from .loops import run_for
        run_for(self, s, env)

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        if isinstance(e.value, float):
            if e.value in (float('inf'), float('-inf')) or e.value != e.value:
                raise Unsupported("non-finite float literal")
            return Fraction(repr(e.value))
        return e.value

    def e_Name(self, e, env):
        return self.lookup(e.id, env)

    def e_Tuple(self, e, env):
        return tuple(self.elts(e.elts, env))

    def elts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.unpack(self.ev(x.value, env), None))
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, e, env):
        return self.newlist(self.elts(e.elts, env))

    def e_Set(self, e, env):
        return self.BI.mkset(self, self.elts(e.elts, env))

    def e_Dict(self, e, env):
        d = self.alloc(PDict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.BI.dict_update(self, d, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                self.setitem(d, kk, self.ev(v, env))
        return d

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return lnot(t)
        if isinstance(e.op, ast.USub):
            if isinstance(v, bool):
                return -v
            if is_num(v):
                return n_neg(v)
            if isinstance(v, PObj) and v.cls.lookup('__neg__'):
                return self.call(self.getattr(v, '__neg__'), [], {})
        if isinstance(e.op, ast.UAdd) and is_num(v):
            return v
        if isinstance(e.op, ast.Invert) and is_int(v):
            return n_sub(n_neg(v), 1)
        if is_bool(v):
            return n_neg(Z(v))
        raise_(TypeError, "bad operand type for unary %s" % type(e.op).__name__)

    SIMPLE = (ast.Name, ast.Constant, ast.Attribute, ast.BinOp, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Add, ast.Sub,
              ast.Mult, ast.Load, ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq, ast.And, ast.Or, ast.Not, ast.USub)

    def simple(self, e):
        r = getattr(e, '_simple', None)
        if r is None:
            r = e._simple = all(isinstance(n, self.SIMPLE) for n in ast.walk(e))
        return r

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = self.ev(e.values[0], env)
        for nxt in e.values[1:]:
            if isinstance(v, z3.BoolRef) and self.simple(nxt):
                w = self.quiet(nxt, env)
                if is_bool(w):
                    v = land(v, w) if isand else lor(v, w)
                    v = conc(v)
                    continue
            t = self.p.decide(self.truth(v))
            if t != isand:
                return v if not isinstance(v, z3.BoolRef) else t
            v = self.ev(nxt, env)
        return v

    def quiet(self, e, env):
        """Value of a simple expression if it can be had without forking or raising."""
        out = self.p.summarize(lambda: self.ev(e, env), self)
        if len(out) == 1 and out[0][1] == 'val' and not out[0][0]:
            return out[0][2]
        return None

    def e_IfExp(self, e, env):
        if self.cond(e.test, env):
            return self.ev(e.body, env)
        return self.ev(e.orelse, env)

    def cond(self, e, env):
        v = self.truth(self.ev(e, env))
        return self.p.decide(v)

    def e_Lambda(self, e, env):
        return self.mkfunc(e, env)

    def e_Starred(self, e, env):
        raise Unsupported("starred expression")

    def e_BinOp(self, e, env):
        a = self.ev(e.left, env)
        b = self.ev(e.right, env)
        return self.binop(BINOPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        return self.BI.binop(self, op, a, b)

    def e_Compare(self, e, env):
        left = self.ev(e.left, env)
        acc = True
        n = len(e.ops)
        for i, (o, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, env) if acc is True or self.simple(r) else None
            if right is None and acc is not True:
                if not self.p.decide(self.truth(acc)):
                    return False
                acc = True
                right = self.ev(r, env)
            c = self.compare(o, left, right)
            if n == 1:
                return c
            acc = land(acc, self.truth(c))
            if acc is False:
                return False
            left = right
        return acc

    def compare(self, o, a, b):
        if isinstance(o, ast.Is):
            return self.BI.is_(self, a, b)
        if isinstance(o, ast.IsNot):
            return lnot(self.BI.is_(self, a, b))
        if isinstance(o, ast.In):
            return self.BI.contains(self, b, a)
        if isinstance(o, ast.NotIn):
            return lnot(self.truth(self.BI.contains(self, b, a)))
        op = CMPS[type(o)]
        if op == '==':
            return self.eq(a, b)
        if op == '!=':
            if isinstance(a, PObj) and a.cls.lookup('__ne__'):
                return self.call(self.getattr(a, '__ne__'), [b], {})
            return lnot(self.truth(self.eq(a, b)))
        return self.order(op, a, b)

    def eq(self, a, b):
        return self.BI.eq(self, a, b)

    def order(self, op, a, b):
        return self.BI.order(self, op, a, b)

    def truth(self, v):
        return self.BI.truth(self, v)

    def mangle(self, name, env):
        e = env
        while e is not None:
            if e.cls is not None:
                if name.startswith('__') and not name.endswith('__'):
                    return '_%s%s' % (e.cls.name.lstrip('_'), name)
                return name
            e = e.parent
        return name

    def e_Attribute(self, e, env):
        return self.getattr(self.ev(e.value, env), self.mangle(e.attr, env))

    def getattr(self, o, name):
        return self.BI.getattr_(self, o, name)

    def setattr(self, o, name, v):
        if isinstance(o, PObj):
            c = o.cls.lookup(name)
            if isinstance(c, PProp):
                raise_(AttributeError, "can't set attribute " + name)
            sl = self.BI.slots(self, o.cls)
            if sl is not None and name not in sl:
                raise_(AttributeError, "'%s' object has no attribute '%s'" % (o.cls.name, name))
            self.setfield(o, name, v)
        elif isinstance(o, PClass):
            o.d[name] = v
        elif isinstance(o, PModule):
            o.d[name] = v
        elif isinstance(o, PFunc):
            pass
        else:
            raise Unsupported("attribute assignment on %r" % (o,))

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        return self.getitem(o, self.ev(e.slice, env))

    def e_Slice(self, e, env):
        f = lambda x: self.ev(x, env) if x is not None else None
        return slice(f(e.lower), f(e.upper), f(e.step))

    def getitem(self, o, k):
        return self.BI.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.BI.setitem(self, o, k, v)

    def e_JoinedStr(self, e, env):
        pieces = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                pieces.append(v.value)
            else:
                x = self.ev(v.value, env)
                spec = self.ev(v.format_spec, env) if v.format_spec is not None else ""
                conv = {-1: None, 114: 'r', 115: 's', 97: 'a'}[v.conversion]
                pieces.append(self.BI.fmt_value(self, x, spec, conv))
        return self.BI.join_pieces(self, pieces)

    # comprehensions
    def e_ListComp(self, e, env):
        sq = self.comp(e, env)
        return self.newlist(sq)

    def e_GeneratorExp(self, e, env):
        sq = self.comp(e, env)
        return self.alloc(PIter(sq if isinstance(sq, SSeq) else SSeqOf(self, sq)))

    def e_SetComp(self, e, env):
        sq = self.comp(e, env)
        if isinstance(sq, SSeq):
            raise Unsupported("set comprehension over a symbolic sequence")
        return self.BI.mkset(self, sq)

    def e_DictComp(self, e, env):
        fake = ast.GeneratorExp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        sq = self.comp(fake, env)
        d = self.alloc(PDict())
        if isinstance(sq, SSeq):
            raise Unsupported("dict comprehension over a symbolic sequence")
        for k, v in sq:
            self.setitem(d, k, v)
        return d

    def comp(self, e, env):
        """Host list, or SSeq when the source has symbolic length."""
        g = e.generators[0]
        e2 = Env(env.module, env, self.newfid(env), None, env.qual)
        src = self.iterate(self.ev(g.iter, env), consume=True)
        n = conc(src.n)
        if isz(n) and not g.ifs and len(e.generators) == 1:
            return self.map_seq(src, lambda x: self.comp_elt(e, g, e2, x))
        if isz(n):
            n = self.p.small(n)
            if n is None:
                return self.sym_filter(e, g, env, src)
        out = []
        self.comp_rec(e, 0, src, n, e2, out)
        return out

    def sym_filter(self, e, g, env, src):
        return desugar.filtered(self, e, env, src)

    def comp_elt(self, e, g, e2, x):
        e3 = Env(e2.module, e2, self.newfid(e2), None, e2.qual)
        self.assign(g.target, x, e3)
        return self.ev(e.elt, e3)

    def comp_rec(self, e, gi, src, n, env, out):
        g = e.generators[gi]
        for i in range(n):
            self.assign(g.target, src.get(i), env)
            if all(self.cond(c, env) for c in g.ifs):
                if gi + 1 == len(e.generators):
                    out.append(self.ev(e.elt, env))
                else:
                    s2 = self.iterate(self.ev(e.generators[gi + 1].iter, env))
                    n2 = conc(s2.n)
                    if isz(n2):
                        n2 = self.p.small(n2)
                        if n2 is None:
                            raise Unsupported("nested comprehension over a symbolic sequence")
                    self.comp_rec(e, gi + 1, s2, n2, env, out)

    def map_seq(self, src, fn, kind='list'):
        """Functional sequence i -> fn(src[i]); fn is summarised once at a generic index."""
        return self.p.tabulate(src.n, lambda i: fn(src.get(i)), self, kind)

    def newfid(self, env):
        return "%s#%d" % (env.qual or 'top', next(self.frames))

    # ------------------------------------------------------------ iteration
    def iterate(self, v, consume=False):
        return self.BI.iterate(self, v, consume)

    def setpos(self, it, pos):
        self.wrote(('pos', it.name), it.birth, it)
        it.pos = pos

    def seq_update(self, c, i, v):
        if isinstance(c, list):
            ci = conc(i)
            if not isz(ci):
                c2 = list(c)
                c2[ci] = v
                return c2
            c = SSeqOf(self, c)
        old = c
        def get(j):
            if self.p.samewhere(j, i):
                return v
            return self.merge(n_cmp('==', j, i), v, lambda: old.get(j))
        return SSeq(c.n, get, c.kind)

    def merge(self, cond, a, bthunk):
        cond = conc(cond)
        if cond is True:
            return a
        if cond is False:
            return bthunk()
        if not self.p.binders:
            h = self.p.quick(cond)
            if h is True:
                return a
            if h is False:
                return bthunk()
        b = bthunk()
        try:
            return ite(cond, a, b)
        except Unsupported:
            return a if self.p.decide(cond) else b

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env):
        f = self.ev(e.func, env) if not self.is_super(e) else None
        if f is None and self.is_super(e):
            return self.mk_super(env)
        if len(e.args) in (1, 2) and not e.keywords and isinstance(e.args[0], ast.GeneratorExp) and len(e.args[0].generators) == 1 \
                and e.args[0].generators[0].ifs and f is self.builtins.get('next'):
            return desugar.first(self, e, env)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                if isinstance(v, (PIter, PList, SSeq)) and len(e.args) == 1 and isz(conc(self.iterate(v).n)):
                    kwargs['*'] = v
                    continue
                args.extend(self.unpack(v, None))
            else:
                args.append(self.ev(a, env))
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                kwargs.update(d.d if isinstance(d, PDict) else d)
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        self.stack.append(('call', "%s:%d:%d" % (env.module.name, e.lineno, e.col_offset)))
        try:
            return self.call(f, args, kwargs, e)
        finally:
            self.stack.pop()

    def is_super(self, e):
        return isinstance(e.func, ast.Name) and e.func.id == 'super'

    def mk_super(self, env):
        e = env
        while e is not None and not (e.vars and 'self' in e.vars):
            e = e.parent
        raise Unsupported("super()")

    def call(self, f, args, kwargs, node=None):
        if isinstance(f, PBound):
            if isinstance(f.func, PFunc):
                return self.callfunc(f.func, [f.obj] + list(args), kwargs)
            return self.call(f.func, [f.obj] + list(args), kwargs, node)
        if isinstance(f, PFunc):
            return self.callfunc(f, list(args), kwargs)
        if isinstance(f, Builtin):
            return f.fn(*args, **kwargs)
        if isinstance(f, PClass):
            return self.BI.instantiate(self, f, list(args), kwargs)
        if isinstance(f, Ext):
            return self.BI.call_ext(self, f.path, list(args), kwargs)
        if isinstance(f, PObj) and f.cls.lookup('__call__'):
            return self.call(self.getattr(f, '__call__'), args, kwargs)
        if isinstance(f, PStatic):
            return self.call(f.func, args, kwargs)
        if callable(f) and not isinstance(f, (z3.ExprRef, Heap)):
            return f(*args, **kwargs)
        raise_(TypeError, "%r object is not callable" % (f,))

    def bind(self, f, args, kwargs):
        a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if '*' in kwargs:
            if a.vararg is not None and not names[len(args):]:
                star = kwargs.pop('*')
                env[a.vararg.arg] = SSeqTuple(self, star)
                for n, v in zip(names, args):
                    env[n] = v
                return env
            raise Unsupported("star-argument of symbolic length")
        kwargs = dict(kwargs)
        if len(args) > len(names):
            if a.vararg is None:
                raise_(TypeError, "%s() takes %d positional arguments but %d were given" % (f.name, len(names), len(args)))
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        nd = len(f.defaults)
        for i, n in enumerate(names):
            if n in env:
                if n in kwargs:
                    raise_(TypeError, "%s() got multiple values for argument '%s'" % (f.name, n))
                continue
            if n in kwargs:
                env[n] = kwargs.pop(n)
            elif i >= len(names) - nd:
                env[n] = f.defaults[i - (len(names) - nd)]
            else:
                raise_(TypeError, "%s() missing required argument: '%s'" % (f.name, n))
        for x in a.kwonlyargs:
            if x.arg in kwargs:
                env[x.arg] = kwargs.pop(x.arg)
            elif x.arg in f.kwdefaults:
                env[x.arg] = f.kwdefaults[x.arg]
            else:
                raise_(TypeError, "missing keyword-only argument '%s'" % x.arg)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(PDict(kwargs))
        elif kwargs:
            raise_(TypeError, "%s() got an unexpected keyword argument '%s'" % (f.name, list(kwargs)[0]))
        return env

    def callfunc(self, f, args, kwargs):
        key = "%s.%s" % (f.module.name, f.qualname)
        h = self.overrides.get(key)
        if h is not None and key not in self.p.unit.verifying:
            self.p.unit.contracts_used.add("coral." + key)
            bound = self.bind(f, args, kwargs)
            return h(self, f, bound)
        if self.depth > MAX_DEPTH:
            raise Unsupported("recursion too deep in %s" % key)
        if not key.endswith('<lambda>'):
            self.p.unit.functions.add("coral." + key)
        env = Env(f.module, f.env, None, None, f.qualname)
        env.fid = "%s#%d" % (f.qualname, next(self.frames))
        env.vars.update(self.bind(f, args, kwargs))
        # methods see their class for name mangling
        menv = env
        if f.cls is not None:
            menv = Env(f.module, f.env, env.fid, None, f.qualname)
            menv.vars = env.vars
            holder = Env(f.module, f.env, 'mod:cls', f.cls, f.qualname)
            menv.parent = holder
        self.depth += 1
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, menv)
            if f.node._isgen:
                out = self.newlist([], "gen:" + f.qualname)
                menv.out = out
                menv.vars['__out__'] = out
                try:
                    self.exec_block(f.node.body, menv)
                except ReturnEx:
                    pass
                except PyRaise as e:
                    if isinstance(e.exc, PExc) and issubclass(e.exc.cls, StopIteration):
                        raise_(RuntimeError, "generator raised StopIteration")
                    raise
                c = out.content
                return self.alloc(PIter(c if isinstance(c, SSeq) else SSeqOf(self, list(c))), "iter")
            try:
                self.exec_block(f.node.body, menv)
            except ReturnEx as r:
                return r.v
            return None
        finally:
            self.depth -= 1

    def retag(self, seq):
        """Give the elements of a sequence that equals the unit's ghost base their ghost index."""
        base = self.p.unit.args.get('elembase')
        if base is None or not isinstance(seq, SSeq) or getattr(seq, 'retagged', None) is base:
            return seq
        key = ('retag', id(seq))
        if key in self.p.memo:
            return self.p.memo[key][1]
        res = seq
        off = n_sub(base.n, seq.n)
        if not self.p.quant and not self.p.insum and self.p.holds(n_cmp('>=', off, 0)):
            j = self.p.int("jt")
            rng = z3.And(j >= 0, j < Z(seq.n))
            try:
                a = seq.get(j)
                b = base.seq.get(j + Z(off))
                if isinstance(a, Elem) and a.base is base:
                    res = seq
                elif isinstance(a, tuple) and len(a) == len(b) and self.p.holds(z3.Implies(rng, z3.And(*[B(self.BI.same(self, x, y)) for x, y in zip(a, b)])), ms=8000):
                    res = SSeq(seq.n, lambda i: base.at(n_add(i, off)), seq.kind)
                    res.retagged = base
                    res.eshape = ('elem', base.name)
            except (Unsupported, PyRaise):
                pass
        self.p.memo[key] = (seq, res)
        return res

    def genout(self, env):
        e = env
        while e is not None:
            if '__out__' in e.vars:
                return e.vars['__out__']
            e = e.parent
        raise Unsupported("yield outside a generator")

    def e_Yield(self, e, env):
        v = self.ev(e.value, env) if e.value is not None else None
        self.BI.list_append(self, self.genout(env), v)
        return None

    def e_YieldFrom(self, e, env):
        self.BI.list_extend(self, self.genout(env), self.ev(e.value, env))
        return None

def SSeqOf(it, items, kind='list'):
    """Functional view of a host list."""
    items = list(items)
    n = len(items)
    def get(i):
        ci = conc(i)
        if not isz(ci):
            return items[ci]
        if n == 0:
            raise Unsupported("element of an empty sequence")
        r = items[-1]
        try:
            for j in range(n - 2, -1, -1):
                r = ite(n_cmp('==', ci, j), items[j], r)
            return r
        except Unsupported:
            for j in range(n - 1):
                if it.p.decide(n_cmp('==', ci, j)):
                    return items[j]
            return items[n - 1]
    s = SSeq(n, get, kind)
    s.items = items
    return s

def SSeqTuple(it, v):
    sq = it.iterate(v)
    return SSeq(sq.n, sq.get, 'tuple')
