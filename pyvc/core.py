"""Paths, obligations and their discharge (z3, cvc5)."""
import copy, os, time, hashlib, itertools
from fractions import Fraction
import z3
from .values import *

FEAS_MS = int(os.environ.get("PYVC_FEAS_MS", "1500"))
PROVE_MS = int(os.environ.get("PYVC_PROVE_MS", "20000"))
MAX_PATHS = int(os.environ.get("PYVC_MAX_PATHS", "6000"))
MAX_FAIL = 4
UNIT_S = float(os.environ.get("PYVC_UNIT_S", "420"))

def abstract_uf(fs):
    """Replace uninterpreted applications by variables (congruence on syntactically equal arguments
    only: weaker hypotheses, hence sound) so that nlsat can be used."""
    memo, var = {}, {}
    def walk(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        ch = [walk(c) for c in e.children()]
        d = e.decl()
        if z3.is_app(e) and d.kind() == z3.Z3_OP_UNINTERPRETED and e.num_args() > 0 \
           and e.sort().kind() in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT, z3.Z3_BOOL_SORT):
            n = z3.simplify(d(*ch), som=True)
            kk = n.sexpr()
            if kk not in var:
                var[kk] = z3.Const("uf!%d" % len(var), e.sort())
            r = var[kk]
        elif ch:
            r = z3.substitute(e, *[(a, b) for a, b in zip(e.children(), ch)]) if False else d(*ch)
        else:
            r = e
        memo[k] = (e, r)
        return r
    out = []
    for f in fs:
        if has_quant(f):
            continue
        out.append(walk(f))
    return out

def real_only(f):
    st, seen = [f], set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if x.sort().kind() == z3.Z3_INT_SORT and not z3.is_int_value(x):
            return False
        if x.sort().kind() not in (z3.Z3_REAL_SORT, z3.Z3_INT_SORT, z3.Z3_BOOL_SORT):
            return False
        st.extend(x.children())
    return True

def _has_quant(e, seen=None):
    seen = set() if seen is None else seen
    st = [e]
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False

_HQ = {}

def has_quant(e):
    k = e.get_id()
    r = _HQ.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    if len(_HQ) > 200000:
        _HQ.clear()
    _HQ[k] = (e, _has_quant(e))
    return _HQ[k][1]

def _cvc5_check(smt, ms):
    import cvc5
    slv = cvc5.Solver()
    slv.setOption("tlimit-per", str(ms))
    slv.setOption("nl-ext-tplanes", "true")
    slv.setLogic("ALL")
    p = cvc5.InputParser(slv)
    p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt, "q")
    sm = p.getSymbolManager()
    res = "unknown"
    while True:
        cmd = p.nextCommand()
        if cmd.isNull():
            break
        out = cmd.invoke(slv, sm).strip()
        if out in ("sat", "unsat", "unknown"):
            res = out
    return res

_SYMS = {}

def syms(e):
    """Names of the uninterpreted symbols of a term (memoised; the memo keeps the term alive)."""
    k = e.get_id()
    r = _SYMS.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        h = _SYMS.get(i)
        if h is not None and h[0].eq(x):
            out |= h[1]
            continue
        if z3.is_quantifier(x):
            st.append(x.body())
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(d.name())
            st.extend(x.children())
    if len(_SYMS) > 200000:
        _SYMS.clear()
    _SYMS[k] = (e, frozenset(out))
    return _SYMS[k][1]

def relevant(pc, goal):
    """Hypotheses sharing symbols (transitively) with the goal; dropping others is sound."""
    want = set(syms(goal))
    left = [(f, syms(f)) for f in pc]
    keep = []
    changed = True
    while changed:
        changed = False
        rest = []
        for f, s in left:
            if (s & want - {"pi"}) or not s:
                keep.append(f)
                want |= s
                changed = True
            else:
                rest.append((f, s))
        left = rest
    keep_ids = {f.get_id() for f in keep}
    return [f for f in pc if f.get_id() in keep_ids or syms(f) <= {"pi"}]

PROOFS = {}      # goal id -> (goal, [core ids, ...]): hypotheses that were enough for a proof in this run
KEEP = {}        # id -> term, so that ids stay valid

def known(pc, goal):
    r = PROOFS.get(goal.get_id())
    if r is None:
        return False
    ids = set(pc.ids() if isinstance(pc, PC) else [c.get_id() for c in pc])
    for core in r[1]:
        if core <= ids:
            return True
    return False

def remember(hyps, goal, minimise=True):
    """Record which hypotheses a proof needs, so that paths which share them share the proof."""
    core = hyps
    if minimise and len(hyps) > 4:
        s = z3.Solver()
        s.set("timeout", 400)
        lits = {}
        for i, h in enumerate(hyps):
            l = z3.Bool("core!%d" % i)
            lits[l.get_id()] = h
            s.add(z3.Implies(l, h))
        s.add(z3.Not(goal))
        lv = [z3.Bool("core!%d" % i) for i in range(len(hyps))]
        if s.check(*lv) == z3.unsat:
            core = [lits[x.get_id()] for x in s.unsat_core()]
    if len(KEEP) > 300000:
        KEEP.clear()
        PROOFS.clear()
    for h in core:
        KEEP[h.get_id()] = h
    PROOFS.setdefault(goal.get_id(), (goal, []))[1].append(frozenset(h.get_id() for h in core))

def attempt(pc, goal, ms):
    """A candidate's cheap attempt: proved or not."""
    if known(pc, goal):
        return "proved", "z3", None
    if z3.is_true(z3.simplify(goal)):
        return "proved", "simplifier", None
    rel = relevant(pc, goal)
    for t in (ms // 3, ms - ms // 3):
        s = z3.Solver()
        s.set("timeout", t)
        s.set("random_seed", 1 if t == ms // 3 else 7)
        s.add(*rel)
        s.add(z3.Not(goal))
        r = s.check()
        if r == z3.unsat:
            remember(rel, goal)
            return "proved", "z3", None
        if r == z3.sat:
            return "refuted", "z3", None
    return "unknown", "none", None

def discharge(pc, goal, ms=None, want_model=True):
    """Is pc => goal valid?  Returns (status, backend, model)."""
    if known(pc, goal):
        return "proved", "z3", None
    st, be, m = discharge_(pc, goal, ms)
    if st == "proved" and be != "simplifier":
        remember(pc if be == "z3" else pc, goal)
    return st, be, m

def discharge_(pc, goal, ms=None):
    ms = ms or PROVE_MS
    g = z3.simplify(goal)
    if z3.is_true(g):
        return "proved", "simplifier", None
    neg = z3.Not(goal)
    model = None
    saw_sat = False
    # 1. quick z3 attempt on everything, 2. only related hypotheses, 3. nlsat after abstraction, 4. cvc5
    rel = None
    for label, hyps, share in (("z3", pc, 0.1), ("z3", rel, 0.15), ("nlsat", rel, 0.25), ("z3", rel, 0.35), ("cvc5", rel, 0.3), ("z3", pc, 0.5)):
        if hyps is None:
            if rel is None:
                rel = relevant(pc, goal)
            hyps = rel
        t = max(300, int(ms * share))
        if label == "z3":
            s = z3.Solver()
            s.set("timeout", t)
            s.set("random_seed", 1)
            s.add(*hyps)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                return "proved", "z3", None
            if r == z3.sat and (hyps is pc or len(hyps) == len(pc)):
                return "refuted", "z3", s.model()
            if r == z3.sat:
                # a model of a subset of the hypotheses: extend to all of them if possible
                s2 = z3.Solver(); s2.set("timeout", t); s2.add(*pc); s2.add(neg)
                r2 = s2.check()
                if r2 == z3.unsat:
                    return "proved", "z3", None
                if r2 == z3.sat:
                    return "refuted", "z3", s2.model()
        elif label == "nlsat":
            if not has_quant(neg):
                try:
                    fs = abstract_uf(rel + [neg])
                    gr = fs[-1]
                    rf = [f for f in fs if real_only(f)]
                    if real_only(gr) and len(rf) < len(fs):
                        t1 = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "simplify", "qfnra-nlsat")
                        s = t1.solver()
                        s.set("timeout", t)
                        s.add(*rf)
                        if s.check() == z3.unsat:
                            return "proved", "z3-nlsat", None
                except z3.Z3Exception:
                    pass
            try:
                fs = abstract_uf(rel + [neg])
                t1 = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "simplify", "qfnra-nlsat")
                s = t1.solver()
                s.set("timeout", t)
                s.add(*fs)
                if not has_quant(neg) and s.check() == z3.unsat:
                    return "proved", "z3-nlsat", None
            except z3.Z3Exception:
                pass
        else:
            try:
                s = z3.Solver(); s.add(*hyps); s.add(neg)
                smt = s.to_smt2()
                if "declare-datatypes" in smt or "lambda" in smt:
                    continue
                if _cvc5_check(smt, t) == "unsat":
                    return "proved", "cvc5", None
            except Exception:
                pass
    return "unknown", "none", None

class Tables:
    """What is learnt about a unit across re-executions."""
    def __init__(self):
        self.havoc = {}        # loopkey -> set of heap locations
        self.shapes = {}       # (loopkey, loc) -> shape
        self.dropped = set()   # (loopkey, candidate name)
        self.dropinfo = []
        self.pending = {}      # dropped at the next restart
        self.maybeundef = {}
    def drop(self, key, label, when):
        self.pending[(key, label)] = "%s %s" % (label, when)
    def flush(self):
        self.dropped |= set(self.pending)
        self.dropinfo += self.pending.values()
        self.pending = {}

class PC(list):
    """Path condition: the list with the ids of its formulas."""
    def __init__(self, xs=()):
        list.__init__(self, xs)
        self._ids = [x.get_id() for x in xs]
    def append(self, c):
        list.append(self, c)
        self._ids.append(c.get_id())
    def __delitem__(self, i):
        list.__delitem__(self, i)
        del self._ids[i]
    def __setitem__(self, i, c):
        list.__setitem__(self, i, c)
        self._ids[i] = c.get_id()
    def ids(self):
        return tuple(self._ids)

class Path:
    def __init__(self, unit, prefix):
        self.unit = unit
        self.prefix = prefix
        self.decisions = []
        self.pc = PC()
        self.counter = itertools.count()
        self.names = {}
        self.births = itertools.count(1)
        self.pending = []
        self.pure = 0
        self.loops = []        # active loop monitors
        self.pure_writes = None
        self.pure_frames = -1
        self.binders = []      # generic indices under which we are evaluating
        self.tags = []         # parallel to pc: True when the entry is a fork of this path
        self.substs = []
        self.ticks = 0
        self.insum = 0
        self.folds = {}
        self.memo = {}
        self.quant = 0
        self.trig = None
        if unit.trig:
            from .trig import Trig
            self.trig = Trig(self)
            self.trig.cands = list(unit.roots)

    def facade_prove(self, name, goal):
        self.unit.covered.add(name)
        return self.prove(name, goal)

    def tick(self):
        self.ticks += 1
        if self.ticks % 64 == 0 and time.time() > self.unit.deadline:
            raise Unsupported("unit time limit (%ds)" % UNIT_S)
        if self.ticks > 60000:
            raise Unsupported("path too long")

    # -- naming
    def fresh_name(self, base):
        n = self.names.get(base, 0)
        self.names[base] = n + 1
        return base if n == 0 else "%s!%d" % (base, n)
    def const(self, base, sort):
        n = self.fresh_name(base)
        if self.binders:
            f = z3.Function(n, *([z3.IntSort()] * len(self.binders) + [sort]))
            return f(*self.binders)
        return z3.Const(n, sort)
    def int(self, base="i"):
        return self.const(base, z3.IntSort())
    def real(self, base="r"):
        return self.const(base, z3.RealSort())
    def bool(self, base="b"):
        return self.const(base, z3.BoolSort())
    def fn(self, base, *sorts):
        """Fresh function; under generic indices it also depends on them."""
        n = self.fresh_name(base)
        bs = list(self.binders)
        f = z3.Function(n, *([z3.IntSort()] * len(bs) + list(sorts)))
        return lambda *a: f(*(bs + [Z(x) for x in a]))
    def alloc(self, obj, site):
        obj.name = self.fresh_name("@" + site)
        obj.birth = next(self.births)
        return obj

    # -- hypotheses
    def assume(self, c):
        if isinstance(c, (list, tuple)):
            for x in c:
                self.assume(x)
            return
        if c is True:
            return
        if c is False:
            raise PathEnd("false assumption")
        for a, b in reversed(self.substs):
            c = z3.substitute(c, (a, b))
        self.pc.append(c)
        self.tags.append(False)

    def quick(self, c):
        light = self.insum == 0 and any(has_quant(x) for x in self.pc)
        """True/False when the condition is certain, else None."""
        c = conc(c)
        if isinstance(c, bool):
            return c
        if not self.feasible(z3.Not(c), light):
            return True
        if not self.feasible(c, light):
            return False
        return None

    def samewhere(self, a, b):
        a, b = conc(a), conc(b)
        if isz(a) and isz(b):
            return a.eq(b) or z3.simplify(a).eq(z3.simplify(b))
        return not isz(a) and not isz(b) and a == b

    def small(self, n):
        """Concrete value of an integer term that has only one, else None."""
        n = conc(n)
        if not isz(n):
            return n
        key = ("small", n.get_id()) + self.pc.ids()
        memo = self.unit.feas
        if key in memo:
            return memo[key][0]
        r = self.small_(n)
        memo[key] = (r, [n] + list(self.pc))
        return r

    def small_(self, n):
        want = syms(n)
        hyps = relevant([c for c in self.pc if not has_quant(c)], n)
        s = z3.Solver()
        s.set("timeout", 500)
        s.add(*hyps)
        if s.check() != z3.sat:
            return None
        m = s.model().eval(n, model_completion=True)
        if not z3.is_int_value(m):
            return None
        k = m.as_long()
        if k > 200:
            return None
        # another value possible without the quantified hypotheses, and none of those is about it
        s.add(n != k)
        if s.check() == z3.sat and not any(has_quant(c) and syms(c) & want for c in self.pc):
            return None
        return k if self.quick(n == k) is True else None

    def scoped(self, thunk):
        """Evaluate under hypotheses that are withdrawn afterwards; Unsupported when that needs a fork."""
        n0, names, memo = len(self.pc), dict(self.names), dict(self.memo)
        self.pure += 1
        try:
            return thunk()
        finally:
            self.pure -= 1
            del self.pc[n0:]
            del self.tags[n0:]
            self.names, self.memo = names, memo

    # -- evaluation of an expression apart: all its outcomes with their conditions
    def summarize(self, thunk, it, extra=(), binder=None):
        """[(branch conditions, 'val'|'raise', value, facts)] of a thunk without side effects."""
        outs, work = [], [[]]
        sv = (self.decisions, self.prefix, self.pending, self.pure_writes, self.pure_frames)
        nn = dict(self.names)
        memo0 = dict(self.memo)
        self.insum += 1
        if binder is not None:
            self.binders.append(binder)
        try:
            while work:
                pre = work.pop()
                if len(outs) > 400:
                    raise Unsupported("too many outcomes")
                n0 = len(self.pc)
                self.names = dict(nn)
                self.decisions, self.prefix, self.pending = [], pre, []
                self.pure_writes = next(self.births)
                self.pure_frames = next(it.frames)
                loops, self.loops = self.loops, []
                res = None
                try:
                    for c in extra:
                        self.assume(c)
                    n1 = len(self.pc)
                    r = thunk()
                    res = ('val', r)
                except PyRaise as e:
                    res = ('raise', e.exc)
                except PathEnd:
                    pass
                finally:
                    self.loops = loops
                    added = list(zip(self.pc[n0 + len(extra):], self.tags[n0 + len(extra):])) if len(self.pc) >= n0 + len(extra) else []
                    pend = self.pending
                    del self.pc[n0:]
                    del self.tags[n0:]
                    nn = {k: max(v, nn.get(k, 0)) for k, v in self.names.items()}
                if res is not None:
                    conds, facts = [], []
                    for c, isbranch in added:
                        if isbranch:
                            conds.append(c)
                        else:
                            facts.append(z3.Implies(z3.And(*conds), c) if conds else c)
                    outs.append((conds, res[0], res[1], facts))
                work.extend(reversed(pend))
        finally:
            self.decisions, self.prefix, self.pending, self.pure_writes, self.pure_frames = sv
            self.insum -= 1
            self.names = nn
            self.memo = memo0
            if binder is not None:
                self.binders.pop()
        if len(outs) == 1:
            outs = [([], outs[0][1], outs[0][2], [c for c in outs[0][0]] * 0 + outs[0][3])] if not outs[0][0] else outs
        return outs

    def tabulate(self, n, fn, it, kind='list'):
        """Functional sequence i -> fn(i) for 0 <= i < n; fn is evaluated once, at a generic index."""
        J = z3.Int(self.fresh_name("J"))
        rng = z3.And(J >= 0, J < Z(n))
        if not self.feasible(rng):
            outs = []
        else:
            outs = self.summarize(lambda: fn(J), it, (rng,), J)
        bad = [o for o in outs if o[1] == 'raise']
        good = [o for o in outs if o[1] == 'val']
        for o in bad:
            if self.choose(2) == 0:
                i = self.int("bad")
                self.assume(z3.And(i >= 0, i < Z(n)))
                self.assume([z3.substitute(c, (J, i)) for c in o[0] + o[3]])
                if not self.feasible():
                    raise PathEnd("infeasible")
                raise PyRaise(o[2])
        if outs and not good:
            # no element can be computed: the sequence must be empty
            self.assume(Z(n) <= 0)
        merged = None
        if len(good) == 1:
            merged = good[0][2]
        elif good:
            try:
                merged = good[-1][2]
                for o in reversed(good[:-1]):
                    merged = ite(land(*o[0]), o[2], merged)
            except Unsupported:
                merged = None
        nobad = [z3.Not(z3.And(*(o[0]))) for o in bad if o[0]]
        facts = [f for o in good for f in o[3]] + nobad
        def get(i):
            i = Z(i)
            if not good:
                raise Unsupported("element of an empty sequence")
            if not self.binders_have(i):
                for f in facts:
                    g = z3.Implies(z3.And(i >= 0, i < Z(n)), z3.substitute(f, (J, i)))
                    k = ('fact', g.get_id())
                    if k not in self.memo:
                        self.memo[k] = g
                        self.assume(g)
            if merged is not None or len(good) == 1:
                return self.subst(merged, J, i, it)
            for o in good[:-1]:
                if self.decide(z3.substitute(z3.And(*o[0]), (J, i))):
                    return self.subst(o[2], J, i, it)
            return self.subst(good[-1][2], J, i, it)
        s = SSeq(n, get, kind)
        s.generic = (J, merged, facts)
        return s

    def binders_have(self, i):
        return getattr(self, 'quant', 0) > 0

    def subst(self, v, J, i, it):
        s = lambda x: self.subst(x, J, i, it)
        if isz(v):
            return conc(z3.substitute(v, (J, i)))
        if isinstance(v, Elem):
            return v.base.at(z3.substitute(v.tag, (J, i)))
        if isinstance(v, tuple):
            return tuple(s(x) for x in v)
        if isinstance(v, PNT):
            return PNT(v.cls, [s(x) for x in v.vals])
        if isinstance(v, StrV):
            return StrV(z3.substitute(v.term, (J, i)), v.kind)
        if isinstance(v, Opaque):
            return Opaque(z3.substitute(v.term, (J, i)))
        if isinstance(v, SSeq):
            return self.subst_seq(v, J, i, it)
        if isinstance(v, Rope):
            return Rope(v.kind, [p if isinstance(p, (str, bytes)) else self.subst_piece(p, J, i, it) for p in v.pieces])
        if isinstance(v, PList):
            if v.birth and v.birth <= 0:
                return v
            c = v.content
            n = PList([s(x) for x in c] if isinstance(c, list) else self.subst_seq(c, J, i, it))
            it.alloc(n, "elt")
            n.frozen = True
            return n
        if isinstance(v, PObj):
            n = PObj(v.cls, {k: s(x) for k, x in v.fields.items()})
            it.alloc(n, "elt")
            n.frozen = True
            return n
        if isinstance(v, PIter):
            return it.alloc(PIter(s(v.seq), s(v.pos)), "elt")
        return v

    def subst_piece(self, p, J, i, it):
        if p[0] == 'rep':
            return ('rep', conc(z3.substitute(Z(p[1]), (J, i))), lambda j: [q if isinstance(q, (str, bytes)) else self.subst_piece(q, J, i, it) for q in p[2](j)]) + tuple(p[3:])
        return tuple(self.subst(x, J, i, it) if not isinstance(x, str) else x for x in p)

    def subst_seq(self, sq, J, i, it):
        def get(j):
            self.substs.append((J, i))
            try:
                r = sq.get(j)
            finally:
                self.substs.pop()
            return self.subst(r, J, i, it)
        return SSeq(self.subst(sq.n, J, i, it), get, sq.kind)

    def feasible(self, extra=None, light=False):
        key = (light,) + self.pc.ids() + ((extra.get_id(),) if extra is not None else ())
        memo = self.unit.feas
        if key in memo:
            return memo[key][0]
        cs = self.pc + ([extra] if extra is not None else [])
        if self.trig is not None and self.trig.refutes(extra):
            memo[key] = (False, cs)
            return False
        goal = z3.Not(extra) if extra is not None else z3.BoolVal(False)
        if known(self.pc, goal):
            memo[key] = (False, cs)
            return False
        hyps = self.pc if extra is None else relevant(self.pc, extra)
        plain = [c for c in hyps if not has_quant(c)]
        ex = [extra] if extra is not None else []
        s = z3.Solver()
        s.set("timeout", FEAS_MS)
        s.add(*plain)
        s.add(*ex)
        r = s.check()
        if light and r != z3.unsat:
            pass
        elif r != z3.unsat and len(plain) < len(hyps):
            s = z3.Solver()
            s.set("timeout", FEAS_MS // (4 if self.unit.cand_ms >= 3000 else 10))
            s.add(*hyps)
            s.add(*ex)
            r = s.check()
        elif r == z3.unknown and extra is not None:
            try:
                st, _, _ = discharge(self.pc, goal, ms=FEAS_MS * 2)
                if st == "proved":
                    r = z3.unsat
            except z3.Z3Exception:
                pass
        res = r != z3.unsat
        if not res:
            remember(self.pc, goal)
        memo[key] = (res, cs)
        return res

    def decide(self, c, why=None):
        c = conc(c)
        if isinstance(c, bool):
            return c
        i = len(self.decisions)
        if self.pure:
            # no forks allowed: only a decided condition is acceptable
            if not self.feasible(z3.Not(c)):
                return True
            if not self.feasible(c):
                return False
            raise Unsupported("condition under a binder cannot be decided: %s" % c)
        if i < len(self.prefix):
            ch = self.prefix[i]
            if isinstance(ch, tuple):
                self.misaligned()
        else:
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if t and f:
                ch = True
                self.pending.append(self.decisions + [False])
            elif t:
                ch = 'T'
            elif f:
                ch = 'F'
            else:
                raise PathEnd("infeasible")
        self.decisions.append(ch)
        yes = ch in (True, 'T')
        if ch in (True, False):
            self.pc.append(c if yes else z3.Not(c))
            self.tags.append(True)
        return yes

    def misaligned(self):
        if self.unit.tables.pending:
            raise PathEnd("the dropped candidates changed this path; everything is done again")
        raise Unsupported("replay of a path diverged")

    def choose(self, n):
        if n == 1:
            return 0
        if self.pure:
            raise Unsupported("choice under a binder")
        i = len(self.decisions)
        if i < len(self.prefix):
            ch = self.prefix[i]
            if not isinstance(ch, tuple) or ch[1] >= n:
                self.misaligned()
        else:
            ch = ('c', 0)
            for j in range(1, n):
                self.pending.append(self.decisions + [('c', j)])
        self.decisions.append(ch)
        if self.insum:
            # under evaluation apart the choice must be a function of the generic indices
            sel = self.int("sel")
            self.pc.append(sel == ch[1] if ch[1] < n - 1 else sel >= n - 1)
            if ch[1] == 0 and n > 1:
                self.pc[-1] = sel <= 0
            self.tags.append(True)
        return ch[1]

    # -- obligations
    def holds(self, c, ms=2500):
        """Is c certain here (used by rules that need a side condition)?"""
        c = conc(c)
        if isinstance(c, bool):
            return c
        key = ("h", c.get_id()) + self.pc.ids()
        memo = self.unit.feas
        if key in memo:
            return memo[key][0]
        if self.trig is not None and self.trig.refutes(z3.Not(c)):
            st = "proved"
        else:
            st, _, _ = discharge(self.pc, c, ms=ms)
        memo[key] = (st == "proved", [c] + list(self.pc))
        return st == "proved"

    def fact(self, c):
        """A valid formula (axiom instance): assumed once per path."""
        if isinstance(c, bool):
            return
        k = ('fact', c.get_id())
        if k not in self.memo:
            self.memo[k] = c
            if getattr(self, 'quant', 0) == 0:
                self.assume(c)

    def soft(self, name, goal, ms=None):
        """Prove a candidate: recorded when proved; nothing happens when it is not."""
        goal = B(goal) if isinstance(goal, bool) else goal
        u = self.unit
        key = ("soft", name, goal.get_id()) + self.pc.ids()
        if key in u.cache:
            return u.cache[key][0] == "proved"
        t0 = time.time()
        if ms is None and u.cand_ms < 3000:
            st, be, m = attempt(self.pc, goal, u.cand_ms)
        else:
            st, be, m = discharge(self.pc, goal, ms or min(u.prove_ms, u.cand_ms))
        dt = time.time() - t0
        if os.environ.get("PYVC_TRACE"):
            print("   [%s] (candidate) %s: %s by %s %.2fs" % (u.name, name, st, be, dt), flush=True)
            if os.environ["PYVC_TRACE"] == "2" and st != "proved":
                print("      goal:", str(z3.simplify(goal))[:800], "\n      hyps:", [str(c)[:200] for c in self.pc][-25:])
        u.cache[key] = (st, [goal] + list(self.pc))
        if st == "proved":
            u.obls.append(Obligation(u.name, name, st, be, dt))
        return st == "proved"

    def prove(self, name, goal, ms=None, record=True):
        """Discharge an obligation; a failed one is recorded and then assumed."""
        goal = B(goal) if isinstance(goal, bool) else goal
        u = self.unit
        key = (name, goal.get_id()) + self.pc.ids()
        if key in u.cache:
            st = u.cache[key][0]
        else:
            t0 = time.time()
            if self.trig is not None and self.trig.refutes(z3.Not(goal)):
                st, be, m = "proved", "z3-nlsat", None
            else:
                st, be, m = discharge(self.pc, goal, ms or u.prove_ms)
            dt = time.time() - t0
            if os.environ.get("PYVC_TRACE"):
                print("   [%s] %s: %s by %s %.2fs" % (u.name, name, st, be, dt), flush=True)
            u.cache[key] = (st, [goal] + list(self.pc))
            if record:
                o = Obligation(u.name, name, st, be, dt)
                if st != "proved":
                    o.goal = str(z3.simplify(goal))[:2000]
                    o.hyps = [str(c)[:300] for c in self.pc][-40:]
                    o.model = u.model_inputs(m) if m is not None else None
                    o.modeltext = str(m)[:3000] if m is not None else None
                    u.nfail += 1
                u.obls.append(o)
                if u.nfail >= MAX_FAIL:
                    raise TooMany()
        if st != "proved":
            self.assume(goal)
        return st == "proved"

    def fail(self, name, detail):
        """An obligation whose goal is `false`: this point must be unreachable."""
        ok = self.prove(name, z3.BoolVal(False))
        if not ok:
            u = self.unit
            if u.obls and u.obls[-1].name == name and not u.obls[-1].detail:
                u.obls[-1].detail = detail
            raise PathEnd(detail)
        raise PathEnd("unreachable")

class TooMany(Exception):
    pass

class Obligation:
    def __init__(self, unit, name, status, backend, secs):
        self.unit, self.name, self.status, self.backend, self.secs = unit, name, status, backend, secs
        self.goal = self.model = self.modeltext = self.detail = None
        self.hyps = []
    def as_dict(self):
        return {k: v for k, v in self.__dict__.items()}

class Unit:
    """One function (or lemma) under contract: a script that sets up the precondition, runs the real
    body and states the postcondition."""
    def __init__(self, name, fn, prove_ms=None, invs=(), overrides=None, verifying=()):
        self.name, self.fn = name, fn
        self.invs = list(invs)
        self.overrides = dict(overrides or {})
        self.verifying = set(verifying)
        self.deadline = 0
        self.args = {}
        self.elembases = {}
        self.roles = False
        self.noterm = False
        self.desugar = False       # second attempt: loops that only append as comprehensions (desugar.py)
        self.rewritable = False
        self.peel = False         # while loops: leave after a body (see run_inv)
        self.trig = False          # normal forms for trigonometric terms
        self.roots = []            # thunks: candidate values of square roots
        self.cand_ms = 3000
        self.skipped = set()
        self.nloops = set()
        self.reached = set()
        self.prove_ms = prove_ms or PROVE_MS
        self.tables = Tables()
        self.feas = {}
        self.inputs = {}
        self.npaths = 0
        self.functions = set()     # real functions whose bodies were executed
        self.contracts_used = set()
        self.assumptions = set()
        self.error = None

    def model_inputs(self, m):
        out = {}
        for k, v in self.inputs.items():
            try:
                out[k] = model_value(m, v)
            except Exception as e:
                out[k] = "?%s" % e
        return out

    def run(self):
        saved = {k: copy.copy(v) for k, v in self.__dict__.items()}
        self.attempt()
        if self.rewritable and (self.error or any(o.status != 'proved' for o in self.obls)):
            first, secs = dict(self.__dict__), self.secs
            self.__dict__.clear()
            self.__dict__.update(saved)
            self.tables, self.desugar = Tables(), True
            self.attempt()
            if self.error or any(o.status != 'proved' for o in self.obls) or {"end"} - self.reached:
                self.__dict__.clear()
                self.__dict__.update(first)
            self.secs += secs
        return self

    def attempt(self):
        from .facade import V
        t0 = time.time()
        self.deadline = t0 + UNIT_S
        self.cache = {}
        self.restarts = 0
        while True:
            self.obls, self.nfail, self.npaths = [], 0, 0
            self.cache = {}
            self.covered = set()
            self.entry_ok, self.assumed, self.common = {}, {}, {}
            try:
                work = [[]]
                while work:
                    prefix = work.pop()
                    self.npaths += 1
                    if self.npaths > MAX_PATHS:
                        raise Unsupported("too many paths")
                    if time.time() - t0 > UNIT_S:
                        raise Unsupported("unit time limit (%ds)" % UNIT_S)
                    p = Path(self, prefix)
                    try:
                        self.fn(V(p))
                        if "end" not in self.reached and p.feasible():
                            self.reached.add("end")
                    except PathEnd:
                        pass
                    except PyRaise as e:
                        try:
                            p.fail("no-exception", "raises %r" % (e.exc,))
                        except PathEnd:
                            pass
                    work.extend(p.pending)
                # a candidate that was relied on must have been checked at the end of every iteration path
                for key, labels in self.assumed.items():
                    for l in labels - self.common.get(key, labels):
                        self.tables.drop(key, l, "not preserved on every path")
                if self.tables.pending:
                    raise Restart("pending drops")
                self.error = None
                break
            except Restart as r:
                self.restarts += 1
                self.tables.flush()
                if os.environ.get("PYVC_TRACE"):
                    print("   [%s] restart: %s" % (self.name, r), flush=True)
                if self.restarts > 150:
                    self.error = "loop tables do not converge"
                    break
                if time.time() - t0 > UNIT_S:
                    self.error = "unit time limit"
                    break
                continue
            except TooMany:
                self.error = None
                break
            except Unsupported as e:
                self.error = "unsupported: %s" % e
                break
            except PyRaise as e:
                self.error = "contract script raised %r" % (e.exc,)
                break
            except RecursionError:
                self.error = "unsupported: recursion too deep"
                if os.environ.get("PYVC_TRACE"):
                    import traceback
                    print("".join(traceback.format_exc().splitlines(True)[-120:]), flush=True)
                break
        self.secs = time.time() - t0
        return self

    def report(self):
        return {"unit": self.name, "obligations": [o.as_dict() for o in self.obls], "paths": self.npaths,
                "functions": sorted(self.functions), "contracts_used": sorted(self.contracts_used),
                "assumptions": sorted(self.assumptions), "error": self.error, "secs": self.secs, "reached": sorted(self.reached), "must_reach": sorted(set(getattr(self, "must_reach", [])) | {"end"}),
                "restarts": self.restarts, "covered": sorted(self.covered),
                "dropped_invariants": [str(x) for x in self.tables.dropinfo]}

def model_value(m, v):
    """Python value of an input in a model (Fractions for reals)."""
    if isinstance(v, (list, tuple)):
        return [model_value(m, x) for x in v]
    if isinstance(v, dict):
        return {k: model_value(m, x) for k, x in v.items()}
    if callable(v) and not isz(v):
        return v(m)
    if isinstance(v, z3.ArithRef):
        r = m.eval(v, model_completion=True)
        if z3.is_int_value(r):
            return r.as_long()
        if z3.is_rational_value(r):
            f = Fraction(r.numerator_as_long(), r.denominator_as_long())
            return float(f)
        if z3.is_algebraic_value(r):
            a = r.approx(20)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        return str(r)
    if isinstance(v, z3.BoolRef):
        return z3.is_true(m.eval(v, model_completion=True))
    if isz(v):
        return str(m.eval(v, model_completion=True))
    return v if isinstance(v, (int, str, type(None))) else repr(v)
