"""Real terms with trigonometric and hyperbolic functions, decided by normal forms.

Every angle is a rational combination of atoms; the sine and cosine of it expand (addition formulas)
into rational functions of the atoms' sines and cosines (S, C with S^2 + C^2 = 1).  The inverse
functions give angles whose sine and cosine are known algebraic expressions, so that a whole
projection followed by its inverse is a rational function of a few variables.  Two such expressions
are equal when the numerator of their difference reduces to zero modulo S^2 = 1 - C^2 and q^2 = p
for every square root q of p.  Signs (denominators, square roots) are decided by z3."""
from fractions import Fraction
from math import gcd, isqrt
import z3
from .values import *
from .values import n_cmp

PI_NAME = "pi"

class Trig:
    def __init__(self, path):
        self.p = path
        self.vars = []            # index -> z3 const
        self.index = {}           # z3 const id -> index
        self.keep = []            # terms kept alive (ids are keys)
        self.memo = {}            # term id -> frac
        self.sub = {}             # var -> frac (refined atoms)
        self.square = {}          # var -> poly: var^2
        self.turns = set()        # vars that stand for integers
        self.atoms = {}           # mono -> [c0, S, C]
        self.angles = {}          # var -> (kind, args, S, C)
        self.expof = {}           # var -> frac of its exponential
        self.hyp = {}             # var -> (sinh, cosh)
        self.inverse = {}         # (kind, key) -> var
        self.exps = {}            # (mono, |coef|) -> var
        self.roots = {}           # poly key -> var
        self.cands = []           # thunks giving candidate values of square roots
        self.prefer = []          # simple terms sines and cosines may be equal to
        self.pi = self.var(z3.Real(PI_NAME))
        self.nzero = 0
        self.geographic = set()   # names of the inputs that only occur inside angles

    # ---- variables
    def var(self, c):
        k = c.get_id()
        if k not in self.index:
            self.index[k] = len(self.vars)
            self.vars.append(c)
            self.keep.append(c)
        return self.index[k]
    def new(self, base):
        return self.var(self.p.real(base))

    # ---- polynomials: {mono: Fraction}, mono = ((var, exp), ...)
    def padd(self, a, b, s=1):
        r = dict(a)
        for k, c in b.items():
            x = r.get(k, 0) + s * c
            if x:
                r[k] = x
            else:
                r.pop(k, None)
        return r
    def mono_mul(self, a, b):
        if not a: return b
        if not b: return a
        d = dict(a)
        for v, e in b:
            d[v] = d.get(v, 0) + e
        return tuple(sorted((v, e) for v, e in d.items() if e))
    def pmul_raw(self, a, b):
        r = {}
        for k, c in a.items():
            for l, d in b.items():
                m = self.mono_mul(k, l)
                x = r.get(m, 0) + c * d
                if x:
                    r[m] = x
                else:
                    r.pop(m, None)
        if len(r) > 40000:
            raise Unsupported("polynomial too large")
        self.p.tick()
        return r
    def pmul(self, a, b):
        return self.reduce(self.pmul_raw(a, b))
    def reduce(self, a):
        """Rewrite squares of sines and of roots."""
        while True:
            bad = None
            for k in a:
                for v, e in k:
                    if e >= 2 and v in self.square:
                        bad = v
                        break
                if bad is not None:
                    break
            if bad is None:
                return a
            out, low = {}, {}
            for k, c in a.items():
                e = dict(k).get(bad, 0)
                if e < 2:
                    low[k] = c
                else:
                    rest = tuple((v, x) for v, x in k if v != bad) + (((bad, e % 2),) if e % 2 else ())
                    rest = tuple(sorted(rest))
                    out.setdefault(e // 2, {})[rest] = c
            r = low
            for h, q in out.items():
                f = {(): Fraction(1)}
                for _ in range(h):
                    f = self.pmul_raw(f, self.square[bad])
                r = self.padd(r, self.pmul_raw(q, f))
            a = r
    def const(self, c):
        return ({(): Fraction(c)} if c else {}), {(): Fraction(1)}
    def fvar(self, v):
        return {((v, 1),): Fraction(1)}, {(): Fraction(1)}

    # ---- fractions
    def norm(self, n, d):
        if not d:
            raise Unsupported("zero denominator in a normal form")
        if not n:
            return {}, {(): Fraction(1)}
        # common monomial
        common = None
        for q in (n, d):
            for k in q:
                kd = dict(k)
                common = kd if common is None else {v: min(e, kd[v]) for v, e in common.items() if v in kd}
                if not common:
                    break
            if not common:
                break
        if common:
            inv = tuple(sorted((v, -e) for v, e in common.items()))
            n = {self.mono_mul(k, inv): c for k, c in n.items()}
            d = {self.mono_mul(k, inv): c for k, c in d.items()}
        if len(d) > 1 and len(n) >= 1:
            n, d = self.cancel(n, d)
        lead = d[max(d)]
        if lead != 1:
            n = {k: c / lead for k, c in n.items()}
            d = {k: c / lead for k, c in d.items()}
        return n, d
    def to_ring(self, *ps):
        import sympy
        from sympy.polys.rings import ring
        used = sorted({v for p in ps for k in p for v, _ in k})
        if not used:
            return None, None, None
        R_, *gens = ring(["x%d" % v for v in used], sympy.QQ)
        pos = {v: i for i, v in enumerate(used)}
        out = []
        for p in ps:
            d = {}
            for k, c in p.items():
                e = [0] * len(used)
                for v, x in k:
                    e[pos[v]] = x
                d[tuple(e)] = sympy.QQ(c.numerator, c.denominator)
            out.append(R_.from_dict(d))
        return R_, used, out
    def from_ring(self, used, e):
        return {tuple((used[i], x) for i, x in enumerate(m) if x): Fraction(int(c.numerator), int(c.denominator)) for m, c in e.to_dict().items()} if hasattr(e, 'to_dict') else {tuple((used[i], x) for i, x in enumerate(m) if x): Fraction(int(c.numerator), int(c.denominator)) for m, c in dict(e).items()}
    def cancel(self, n, d):
        _, used, ps = self.to_ring(n, d)
        if used is None:
            return n, d
        a, b = ps[0].cancel(ps[1])
        return self.from_ring(used, a), self.from_ring(used, b)
    def fadd(self, a, b, s=1):
        if a[1] == b[1]:
            return self.norm(self.padd(a[0], b[0], s), a[1])
        return self.norm(self.padd(self.pmul(a[0], b[1]), self.pmul(b[0], a[1]), s), self.pmul(a[1], b[1]))
    def fmul(self, a, b):
        return self.norm(self.pmul(a[0], b[0]), self.pmul(a[1], b[1]))
    def finv(self, a):
        return self.norm(a[1], a[0])
    def fdiv(self, a, b):
        return self.fmul(a, self.finv(b))
    def fneg(self, a):
        return {k: -c for k, c in a[0].items()}, a[1]
    def fscale(self, a, c):
        return self.fmul(a, self.const(c))
    def fpow(self, a, n):
        r = self.const(1)
        for _ in range(abs(n)):
            r = self.fmul(r, a)
        return self.finv(r) if n < 0 else r
    def key(self, f):
        s = lambda p: tuple(sorted(p.items()))
        return s(f[0]), s(f[1])
    def is0(self, f):
        return not f[0]
    def isconst(self, f):
        if not f[0]:
            return Fraction(0)
        if len(f[0]) == 1 and () in f[0] and len(f[1]) == 1 and () in f[1]:
            return f[0][()] / f[1][()]
        return None

    # ---- terms
    def canon(self, t):
        if not isz(t):
            return self.const(Fraction(t))
        k = t.get_id()
        if k in self.memo:
            return self.memo[k]
        r = self.canon_(t)
        self.memo[k] = r
        self.keep.append(t)
        return r
    def canon_(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return self.const(Fraction(t.numerator_as_long(), t.denominator_as_long()) if z3.is_rational_value(t) else Fraction(t.as_long()))
        if z3.is_app(t):
            kd = t.decl().kind()
            ch = t.children()
            if kd == z3.Z3_OP_ADD:
                r = self.canon(ch[0])
                for c in ch[1:]:
                    r = self.fadd(r, self.canon(c))
                return r
            if kd == z3.Z3_OP_SUB:
                r = self.canon(ch[0])
                for c in ch[1:]:
                    r = self.fadd(r, self.canon(c), -1)
                return r
            if kd == z3.Z3_OP_UMINUS:
                return self.fneg(self.canon(ch[0]))
            if kd == z3.Z3_OP_MUL:
                r = self.canon(ch[0])
                for c in ch[1:]:
                    r = self.fmul(r, self.canon(c))
                return r
            if kd == z3.Z3_OP_DIV:
                d = self.canon(ch[1])
                if not self.is0(d):
                    return self.fdiv(self.canon(ch[0]), d)
            if kd == z3.Z3_OP_TO_REAL and z3.is_int_value(ch[0]):
                return self.const(ch[0].as_long())
            if kd == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1:
                return self.fpow(self.canon(ch[0]), ch[1].numerator_as_long())
        v = self.var(t)
        if v in self.sub:
            return self.sub[v]
        return self.fvar(v)
    def poly_z3(self, p):
        if not p:
            return z3.RealVal(0)
        terms = []
        for k, c in sorted(p.items()):
            fs = []
            for v, e in k:
                x = self.vars[v]
                x = z3.ToReal(x) if x.sort().kind() == z3.Z3_INT_SORT else x
                fs += [x] * e
            if c != 1 or not fs:
                fs = [z3.RealVal(c)] + fs
            terms.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
        return terms[0] if len(terms) == 1 else z3.Sum(*terms)
    def term(self, f):
        n = self.poly_z3(f[0])
        c = self.isconst((f[1], {(): Fraction(1)}))
        r = n if c == 1 else n / self.poly_z3(f[1])
        self.memo.setdefault(r.get_id(), f)
        self.keep.append(r)
        return r
    def value(self, f):
        c = self.isconst(f)
        return c if c is not None else self.term(f)
    def simp(self, t):
        return self.value(self.canon(t)) if isz(t) else t

    # ---- decisions
    def factors(self, p):
        R_, used, ps = self.to_ring(p)
        if used is None:
            return (p[()] if p else Fraction(0)), []
        c, fs = ps[0].factor_list()
        return Fraction(int(c.numerator), int(c.denominator)), [(self.from_ring(used, f), e) for f, e in fs]
    def nonzero(self, f):
        """Forks on whether the fraction is zero (factor by factor)."""
        if not f[0]:
            return False
        c, fs = self.factors(f[0])
        for q, _ in fs:
            if self.decide(self.poly_z3(q) == 0):
                return False
        return True
    def decide(self, c):
        return self.p.decide(conc(z3.simplify(c)))
    def sign(self, f):
        """1 when >= 0 (on this path), -1 when <= 0; factor by factor."""
        if not f[0]:
            return 1
        s = 1
        for p in f:
            c, fs = self.factors(p)
            if c < 0:
                s = -s
            for q, e in fs:
                if e % 2 and not self.decide(self.poly_z3(q) >= 0):
                    s = -s
        return s
    def positive(self, f):
        c = self.isconst(f)
        if c is not None:
            return c > 0
        return self.decide(self.term(f) > 0) if not self.p.holds(self.term(f) > 0) else True

    # ---- square roots
    def root(self, f):
        """The non-negative square root of a fraction known to be >= 0."""
        c = self.isconst(f)
        if c is not None and c >= 0:
            a, b = isqrt(c.numerator), isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return self.const(Fraction(a, b))
        for th in list(self.cands):
            for e in th(self):
                g = self.canon(e)
                if self.is0(self.fadd(self.fmul(g, g), f, -1)):
                    return g if self.sign(g) > 0 else self.fneg(g)
        out = self.const(1)
        c, fs = self.factors(self.reduce(self.pmul_raw(f[0], f[1])))
        out = self.finv((f[1], {(): Fraction(1)}))
        inside = {(): Fraction(1)}
        sq = []
        for q, e in fs:
            if e // 2:
                sq.append((q, e // 2))
            if e % 2:
                inside = self.pmul(inside, q)
        sg = self.sign((f[1], {(): Fraction(1)}))
        if sg < 0:
            out = self.fneg(out)
        for q, e in sq:
            g = (q, {(): Fraction(1)})
            if e % 2 and self.sign(g) < 0:
                g = self.fneg(g)
            out = self.fmul(out, self.fpow(g, e))
        lead = abs(c)
        num, den = lead.numerator * lead.denominator, lead.denominator
        s = 1
        for k in (2, 3, 5, 7):
            while num % (k * k) == 0:
                num //= k * k
                s *= k
        if isqrt(num) ** 2 == num:
            s, num = s * isqrt(num), 1
        if c < 0:
            inside = {k: -x for k, x in inside.items()}
        inside = {k: x * num for k, x in inside.items()}
        out = self.fscale(out, Fraction(s, den))
        if self.isconst((inside, {(): Fraction(1)})) == 1:
            return out
        ky = tuple(sorted(inside.items()))
        if ky not in self.roots:
            q = self.new("root")
            self.roots[ky] = q
            self.square[q] = inside
            x, y = self.vars[q], self.poly_z3(inside)
            self.p.fact(z3.And(x >= 0, x * x == y))
            self.p.fact(z3.Implies(y > 0, x > 0))
        return self.fmul(out, self.fvar(self.roots[ky]))
    def sqrt(self, t):
        """math.sqrt of a term; the caller has checked the domain."""
        return self.value(self.root(self.canon(t)))

    # ---- angles
    def lin(self, f):
        """{Laurent monomial: coefficient} of an angle."""
        n, d = f
        if len(d) != 1:
            v = self.opaque(f)
            return {((v, 1),): Fraction(1)}
        (k, c), = d.items()
        inv = tuple((v, -e) for v, e in k)
        return {self.mono_mul(m, inv): x / c for m, x in n.items()}
    def opaque(self, f):
        ky = ('opaque',) + self.key(f)
        if ky not in self.inverse:
            v = self.new("value")
            self.inverse[ky] = v
            self.p.fact(self.vars[v] == self.term(f))
        return self.inverse[ky]
    def rot(self, a, b):
        """Sine and cosine of a sum."""
        (s, c), (t, d) = a, b
        return (self.fadd(self.fmul(s, d), self.fmul(c, t)), self.fadd(self.fmul(c, d), self.fmul(s, t), -1))
    def multi(self, sc, n):
        if n < 0:
            s, c = self.multi(sc, -n)
            return self.fneg(s), c
        r = (self.const(0), self.const(1))
        b = sc
        while n:
            if n & 1:
                r = self.rot(r, b)
            n >>= 1
            if n:
                b = self.rot(b, b)
        return r
    def mono_term(self, m, c):
        num = [z3.RealVal(c)]
        den = []
        for v, e in m:
            (num if e > 0 else den).extend([self.vars[v]] * abs(e))
        t = num[0] if len(num) == 1 else z3.Product(*num)
        if den:
            t = t / (den[0] if len(den) == 1 else z3.Product(*den))
        return t
    def generic(self, m, c):
        """Sine and cosine of c*m for an atom m."""
        at = self.atoms.get(m)
        if at is None:
            at = self.atoms[m] = [abs(c), None, None]
            self.fresh_atom(m, at)
        k = c / at[0]
        if k.denominator != 1:
            old = list(at)
            num = gcd(c.numerator * old[0].denominator, old[0].numerator * c.denominator)
            at[0] = Fraction(num, c.denominator * old[0].denominator)
            self.fresh_atom(m, at)
            n = old[0] / at[0]
            s, co = self.multi((self.fvar(at[1]), self.fvar(at[2])), int(n))
            for v, f in ((old[1], s), (old[2], co)):
                self.sub[v] = f
                self.square.pop(v, None)
                self.p.fact(self.vars[v] == self.term(f))
            self.resub()
            k = c / at[0]
        return self.multi((self.fvar(at[1]), self.fvar(at[2])), int(k))
    def resub(self):
        """Apply the substitutions to what is stored."""
        self.memo = {}
        f = self.subst
        for v, r in list(self.angles.items()):
            self.angles[v] = (r[0], [f(x) for x in r[1]], f(r[2]), f(r[3]))
        self.expof = {v: f(x) for v, x in self.expof.items()}
        self.hyp = {v: (f(x), f(y)) for v, (x, y) in self.hyp.items()}
        sq = {}
        for v, p in self.square.items():
            n, d = f((p, {(): Fraction(1)}))
            sq[v] = n
        self.square = sq
        self.roots = {}
        self.inverse = {k: v for k, v in self.inverse.items() if False}
    def subst(self, fr):
        def sp(p):
            r = self.const(0)
            for k, c in p.items():
                t = self.const(c)
                for v, e in k:
                    t = self.fmul(t, self.fpow(self.sub.get(v) or self.fvar(v), e))
                r = self.fadd(r, t)
            return r
        return self.fdiv(sp(fr[0]), sp(fr[1]))
    def fresh_atom(self, m, at):
        s, c = self.new("sin"), self.new("cos")
        at[1], at[2] = s, c
        self.square[s] = {(): Fraction(1), ((c, 2),): Fraction(-1)}
        S, C = self.vars[s], self.vars[c]
        f = self.p.fact
        f(S * S + C * C == 1)
        f(z3.And(S <= 1, S >= -1, C <= 1, C >= -1))
        d = dict(m)
        half = Fraction(1, 2)
        if d.get(self.pi) == 1:
            rest = tuple((v, e) for v, e in m if v != self.pi)
            u, one = self.mono_term(rest, at[0]), z3.RealVal(1)
        else:
            u, one = self.mono_term(m, at[0]), self.vars[self.pi]
        h = one / 2
        f = self.implied
        f(z3.Implies(z3.And(u > -h, u < h), C > 0))
        f(z3.Implies(z3.And(u >= -h, u <= h), C >= 0))
        f(z3.Implies(z3.And(u > -one, u < 0), S < 0))
        f(z3.Implies(z3.And(u > 0, u < one), S > 0))
        f(z3.Implies(u == h, z3.And(S == 1, C == 0)))
        f(z3.Implies(u == -h, z3.And(S == -1, C == 0)))
        f(z3.Implies(u == 0, z3.And(S == 0, C == 1)))
        f(z3.Implies(z3.Or(u == one, u == -one), z3.And(S == 0, C == -1)))
        f(z3.Implies(z3.Or(z3.And(u > h, u <= one), z3.And(u < -h, u >= -one)), C < 0))
    def implied(self, f):
        """Record an implication; where its condition is certain, record the conclusion by itself."""
        self.p.fact(f)
        if self.p.insum == 0 and self.p.holds(f.arg(0), ms=200):
            self.p.fact(f.arg(1))
    def algebraic(self):
        out = set()
        for i, c in enumerate(self.vars):
            if i != self.pi and i not in self.angles and i not in self.turns and i not in self.expof:
                out.add(c.decl().name() if z3.is_app(c) and c.num_args() == 0 else "?")
        return out - self.geographic
    def refutes(self, extra):
        """extra contradicts the algebraic facts of the path (sines, cosines, square roots)."""
        from .core import syms
        if extra is not None and z3.is_false(extra):
            extra = None
        fs = []
        alg = self.algebraic()
        goal = syms(extra) if extra is not None else set()
        if not goal <= alg:
            return False
        left = [(c, syms(c)) for c in self.p.pc]
        left = [(c, s) for c, s in left if s and s <= alg]
        if extra is not None:
            want, ch = set(goal), True
            keep = []
            while ch:
                ch, rest = False, []
                for c, s in left:
                    if s & want:
                        keep.append(c)
                        want |= s
                        ch = True
                    else:
                        rest.append((c, s))
                left = rest
            left = keep
        else:
            left = [c for c, s in left]
        if not left:
            return False
        fs = left + ([extra] if extra is not None else [])
        key = ("alg",) + tuple(sorted(x.get_id() for x in fs))
        memo = self.p.unit.feas
        if key in memo:
            return memo[key][0]
        t1 = z3.Then("simplify", "purify-arith", "propagate-values", "solve-eqs", "simplify", "qfnra-nlsat")
        s = t1.solver()
        s.set("timeout", 1500)
        s.add(*fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        memo[key] = (r == z3.unsat, fs)
        return r == z3.unsat
    def pi_sc(self, c):
        c = c % 2
        if (c * 2).denominator == 1:
            return {0: (self.const(0), self.const(1)), 1: (self.const(1), self.const(0)),
                    2: (self.const(0), self.const(-1)), 3: (self.const(-1), self.const(0))}[int(c * 2)]
        if (c * 4).denominator == 1:
            h = self.fscale(self.root(self.const(2)), Fraction(1, 2))
            k = int(c * 4)
            return (h if k in (1, 3) else self.fneg(h)), (h if k in (1, 7) else self.fneg(h))
        if (c * 6).denominator == 1:
            r3 = self.fscale(self.root(self.const(3)), Fraction(1, 2))
            k = int(c * 6)
            hh = self.const(Fraction(1, 2))
            s = hh if k in (1, 5) else r3 if k in (2, 4) else self.fneg(hh) if k in (7, 11) else self.fneg(r3)
            co = r3 if k in (1, 11) else hh if k in (2, 10) else self.fneg(hh) if k in (4, 8) else self.fneg(r3)
            return s, co
        return None
    def sincos(self, t):
        return self.sincos_f(self.canon(t))
    def sincos_f(self, f):
        r = (self.const(0), self.const(1))
        for m, c in sorted(self.lin(f).items()):
            r = self.rot(r, self.part(m, c))
        return tuple(self.preferred(x) for x in r)
    def preferred(self, f):
        """The same value, in a simpler form when there is one."""
        if self.prefer and len(f[1]) > 1:
            for t in self.prefer:
                g = self.canon(t)
                if self.is0(self.fadd(f, g, -1)):
                    return g
        return f
    def part(self, m, c):
        if m == ():
            if c == 0:
                return self.const(0), self.const(1)
            return self.generic(m, c)
        if m == ((self.pi, 1),):
            r = self.pi_sc(c)
            return r if r is not None else self.generic(m, c)
        if len(m) == 2 and dict(m).get(self.pi) == 1:
            (o, e), = [(v, e) for v, e in m if v != self.pi]
            if e == 1 and o in self.turns and c.denominator == 1 and c % 2 == 0:
                return self.const(0), self.const(1)
        if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.angles and c.denominator == 1:
            _, _, s, co = self.angles[m[0][0]]
            return self.multi((s, co), int(c))
        al = self.alias(m, abs(c))
        if al is not None:
            return self.multi(self.angles[al][2:], 1 if c > 0 else -1)
        return self.generic(m, c)
    def alias(self, m, c):
        """An angle given by an inverse function that this atom is equal to."""
        return None

    # ---- inverse functions
    def inv(self, kind, args, s, c, facts):
        ky = (kind,) + tuple(self.key(a) for a in args)
        if ky in self.inverse:
            return self.inverse[ky]
        v = self.new(kind)
        self.inverse[ky] = v
        self.angles[v] = (kind, args, s(), c())
        pi = self.vars[self.pi]
        self.p.fact(z3.And(pi > z3.RealVal("3.141592653"), pi < z3.RealVal("3.141592654")))
        for g in facts(self.vars[v], pi):
            self.p.fact(g)
        return v
    def asin(self, t):
        e = self.canon(t)
        pi = self.vars[self.pi]
        for m, at in self.atoms.items():
            # the sine of a known angle in the range of the function
            if len(m) == 1 and m[0][1] == 1 and at[0] == 1 and at[1] is not None and self.is0(self.fadd(e, self.fvar(at[1]), -1)):
                x = self.vars[m[0][0]]
                if self.p.holds(z3.And(x >= -pi / 2, x <= pi / 2)):
                    return x
        E = self.term(e)
        one = self.const(1)
        v = self.inv("asin", [e], lambda: e, lambda: self.root(self.fadd(one, self.fmul(e, e), -1)),
                     lambda r, pi: [z3.And(r >= -pi / 2, r <= pi / 2), (E > 0) == (r > 0), (E < 0) == (r < 0),
                                    (E == 1) == (r == pi / 2), (E == -1) == (r == -pi / 2)])
        return self.vars[v]
    def acos(self, t):
        e = self.canon(t)
        E = self.term(e)
        one = self.const(1)
        v = self.inv("acos", [e], lambda: self.root(self.fadd(one, self.fmul(e, e), -1)), lambda: e,
                     lambda r, pi: [z3.And(r >= 0, r <= pi), (E == 1) == (r == 0), (E == -1) == (r == pi),
                                    (E > 0) == (r < pi / 2), (E < 0) == (r > pi / 2)])
        return self.vars[v]
    def atan(self, t):
        e = self.canon(t)
        E = self.term(e)
        h = []
        def hyp():
            if not h:
                h.append(self.root(self.fadd(self.const(1), self.fmul(e, e))))
            return h[0]
        v = self.inv("atan", [e], lambda: self.fdiv(e, hyp()), lambda: self.finv(hyp()),
                     lambda r, pi: [z3.And(r > -pi / 2, r < pi / 2), (E > 0) == (r > 0), (E < 0) == (r < 0)])
        return self.vars[v]
    def atan2(self, y, x):
        fy, fx = self.canon(y), self.canon(x)
        if self.zero(fy) and self.zero(fx):
            return Fraction(0)
        h = []
        def hyp():
            if not h:
                h.append(self.root(self.fadd(self.fmul(fx, fx), self.fmul(fy, fy))))
            return h[0]
        Y, X = self.term(fy), self.term(fx)
        def facts(r, pi):
            H = self.term(hyp())
            return [H > 0, z3.And(r > -pi, r <= pi), z3.Implies(Y >= 0, r >= 0), z3.Implies(Y > 0, z3.And(r > 0, r < pi)), z3.Implies(Y < 0, r < 0),
                    z3.Implies(X > 0, z3.And(r > -pi / 2, r < pi / 2)), z3.Implies(X < 0, z3.Or(r > pi / 2, r < -pi / 2)),
                    z3.Implies(z3.And(Y == 0, X > 0), r == 0), z3.Implies(z3.And(Y == 0, X < 0), r == pi),
                    z3.Implies(z3.And(X == 0, Y > 0), r == pi / 2), z3.Implies(z3.And(X == 0, Y < 0), r == -pi / 2)]
        v = self.inv("atan2", [fy, fx], lambda: self.fdiv(fy, hyp()), lambda: self.fdiv(fx, hyp()), facts)
        return self.vars[v]
    def zero(self, f):
        if self.is0(f):
            return True
        return self.decide(self.term(f) == 0)

    # ---- exponentials
    def log(self, t):
        e = self.canon(t)
        c = self.isconst(e)
        if c == 1:
            return Fraction(0)
        ky = ("log", self.key(e))
        if ky not in self.inverse:
            v = self.new("log")
            self.inverse[ky] = v
            self.expof[v] = e
            E, L = self.term(e), self.vars[v]
            self.p.fact((E > 1) == (L > 0))
            self.p.fact((E < 1) == (L < 0))
        return self.vars[self.inverse[ky]]
    def atanh(self, t):
        b = self.canon(t)
        if self.is0(b):
            return Fraction(0)
        ky = ("atanh", self.key(b))
        if ky not in self.inverse:
            one = self.const(1)
            q = self.root(self.fadd(one, self.fmul(b, b), -1))
            v = self.new("atanh")
            self.inverse[ky] = v
            self.expof[v] = self.fdiv(self.fadd(one, b), q)
            self.hyp[v] = self.fdiv(b, q), self.finv(q)
            E, L = self.term(b), self.vars[v]
            self.p.fact((E > 0) == (L > 0))
            self.p.fact((E < 0) == (L < 0))
            self.p.fact(self.term(q) > 0)
        return self.vars[self.inverse[ky]]
    def asinh(self, t):
        b = self.canon(t)
        ky = ("asinh", self.key(b))
        if ky not in self.inverse:
            q = self.root(self.fadd(self.const(1), self.fmul(b, b)))
            v = self.new("asinh")
            self.inverse[ky] = v
            self.expof[v] = self.fadd(b, q)
            self.hyp[v] = b, q
            E, L = self.term(b), self.vars[v]
            self.p.fact((E > 0) == (L > 0))
            self.p.fact((E < 0) == (L < 0))
        return self.vars[self.inverse[ky]]
    def exp_f(self, f):
        r = self.const(1)
        for m, c in sorted(self.lin(f).items()):
            if len(m) == 1 and m[0][1] == 1 and m[0][0] in self.expof and (2 * c).denominator == 1:
                e = self.expof[m[0][0]]
                if c.denominator == 1:
                    r = self.fmul(r, self.fpow(e, int(c)))
                else:
                    r = self.fmul(r, self.fpow(self.root(e), int(2 * c)))
                continue
            ky = (m, abs(c))
            if ky not in self.exps:
                v = self.new("exp")
                self.exps[ky] = v
                self.p.fact(self.vars[v] > 0)
                u = self.mono_term(m, abs(c))
                self.p.fact((u > 0) == (self.vars[v] > 1))
                self.p.fact((u < 0) == (self.vars[v] < 1))
            r = self.fmul(r, self.fpow(self.fvar(self.exps[ky]), 1 if c > 0 else -1))
        return r
    def exp(self, t):
        return self.value(self.exp_f(self.canon(t)))
    def hyper(self, f, t):
        x = self.canon(t)
        lin = self.lin(x)
        if len(lin) == 1:
            (mo, k), = lin.items()
            if abs(k) == 1 and len(mo) == 1 and mo[0][1] == 1 and mo[0][0] in self.hyp:
                s, c = self.hyp[mo[0][0]]
                s = s if k == 1 else self.fneg(s)
                return self.value({'sinh': lambda: s, 'cosh': lambda: c, 'tanh': lambda: self.fdiv(s, c)}[f]())
        e = self.exp_f(x)
        i = self.finv(e)
        s, c = self.fscale(self.fadd(e, i, -1), Fraction(1, 2)), self.fscale(self.fadd(e, i), Fraction(1, 2))
        return self.value({'sinh': lambda: s, 'cosh': lambda: c, 'tanh': lambda: self.fdiv(s, c)}[f]())
    def pow(self, a, b):
        """a**b for a > 0 and a symbolic exponent."""
        fa, fb = self.canon(a), self.canon(b)
        neg = False
        lead = max(fb[0]) if fb[0] else None
        if lead is not None and fb[0][lead] < 0:
            fb, neg = self.fneg(fb), True
        ia = self.finv(fa)
        if self.key(ia) < self.key(fa):
            fa, neg = ia, not neg
        ky = ("pow", self.key(fa), self.key(fb))
        if ky not in self.inverse:
            v = self.new("pow")
            self.inverse[ky] = v
            self.p.fact(self.vars[v] > 0)
        r = self.fvar(self.inverse[ky])
        return self.value(self.finv(r) if neg else r)

    def plain_angles(self):
        """The variables whose sine or cosine has been taken."""
        return [self.vars[m[0][0]] for m, at in self.atoms.items() if len(m) == 1 and m[0][1] == 1 and at[0] == 1]

    # ---- what the code calls
    def call(self, it, f, a):
        from .builtins_ import need, raise_, n_cmp, R
        x = R(a[0]) if not isz(a[0]) else a[0]
        if x.sort().kind() == z3.Z3_INT_SORT:
            x = z3.ToReal(x)
        if f == 'sin':
            return self.value(self.sincos(x)[0])
        if f == 'cos':
            return self.value(self.sincos(x)[1])
        if f == 'tan':
            s, c = self.sincos(x)
            if not self.nonzero(c):
                return self.p.real("tan_undefined")
            return self.value(self.fdiv(s, c))
        if f == 'sqrt':
            e = self.canon(x)
            c = self.isconst(e)
            self.need(it, e, '>=', 0)
            return self.value(self.root(e))
        if f in ('asin', 'acos'):
            e = self.canon(x)
            self.need(it, self.fadd(self.const(1), e), '>=', 0)
            self.need(it, self.fadd(self.const(1), e, -1), '>=', 0)
            return getattr(self, f)(x)
        if f == 'atan':
            return self.atan(x)
        if f == 'atan2':
            return self.atan2(x, R(a[1]))
        if f == 'log':
            self.need(it, self.canon(x), '>', 0)
            return self.log(x)
        if f == 'exp':
            return self.exp(x)
        if f in ('sinh', 'cosh', 'tanh'):
            return self.hyper(f, x)
        if f == 'atanh':
            e = self.canon(x)
            self.need(it, self.fadd(self.const(1), e), '>', 0)
            self.need(it, self.fadd(self.const(1), e, -1), '>', 0)
            return self.atanh(x)
        if f == 'asinh':
            return self.asinh(x)
        if f == 'hypot':
            y = self.canon(R(a[1]))
            e = self.canon(x)
            return self.value(self.root(self.fadd(self.fmul(e, e), self.fmul(y, y))))
        return None
    def need(self, it, e, op, _):
        """ValueError unless the fraction is >= 0 (> 0)."""
        from .builtins_ import raise_
        c = self.isconst(e)
        t = None
        if c is None:
            t = self.term(e)
            g = t >= 0 if op == '>=' else t > 0
            for k in self.squares(e, op):
                if k:
                    return
            if self.p.holds(g):
                return
            if self.p.decide(g):
                return
        elif c > 0 or c == 0 and op == '>=':
            return
        raise_(ValueError, "math domain error")
    def squares(self, e, op):
        """A hint: the fraction is a square of a candidate (hence >= 0)."""
        if op == '>=':
            for th in list(self.cands):
                for x in th(self):
                    g = self.canon(x)
                    if self.is0(self.fadd(self.fmul(g, g), e, -1)):
                        yield True
    def cmp(self, op, a, b):
        """A comparison, as one of a normal form with zero (positive pi divided out)."""
        if is_int(a) and is_int(b):
            return n_cmp(op, a, b)
        f = self.fadd(self.canon(R(a)), self.canon(R(b)), -1)
        n, d = f
        if n:
            k = min(dict(m).get(self.pi, 0) for m in n)
            if k:
                n = {self.mono_mul(m, ((self.pi, -k),)): c for m, c in n.items()}
        f = self.norm(n, d)
        c = self.isconst(f)
        return n_cmp(op, self.term(f) if c is None else c, 0)
    def div(self, it, a, b):
        from .builtins_ import raise_, R
        fb = self.canon(R(b))
        if not self.nonzero(fb):
            raise_(ZeroDivisionError, "division by zero")
        return self.value(self.fdiv(self.canon(R(a)), fb))

    # ---- what contracts use
    def turn(self, base="turns"):
        """A new whole number of turns, as an angle."""
        v = self.new(base)
        self.turns.add(v)
        return 2 * self.vars[self.pi] * self.vars[v]
    def equal(self, a, b):
        self.nzero += 1
        return self.is0(self.fadd(self.canon(a), self.canon(b), -1))
    def record(self, name, ok):
        from .core import Obligation
        u = self.p.unit
        u.covered.add(name)
        u.obls.append(Obligation(u.name, name, "proved", "normal form", 0.0))
    def prove_equal(self, name, a, b):
        a, b = R(a), R(b)
        if self.equal(a, b):
            self.record(name, True)
            return True
        return self.p.facade_prove(name, self.term(self.fadd(self.canon(a), self.canon(b), -1)) == 0)
    def prove_angle(self, name, a, b):
        """a and b differ by a whole number of turns: same sine and same cosine."""
        d = self.fadd(self.canon(R(a)), self.canon(R(b)), -1)
        s, c = self.sincos_f(d)
        if self.is0(s) and self.isconst(c) == 1:
            self.record(name, True)
            return True
        # an angle given by atan2 needs only the direction
        lin = self.lin(d)
        for m, k in lin.items():
            if len(m) == 1 and m[0][1] == 1 and abs(k) == 1 and m[0][0] in self.angles:
                kind, args, S, C = self.angles[m[0][0]]
                if kind != 'atan2':
                    continue
                t = self.fvar(m[0][0])
                th = self.fadd(d, self.fscale(t, k), -1)
                th = self.fneg(th) if k == 1 else th
                st, ct = self.sincos_f(th)
                Y, X = args
                cross = self.fadd(self.fmul(Y, ct), self.fmul(X, st), -1)
                if self.is0(cross):
                    dot = self.fadd(self.fmul(X, ct), self.fmul(Y, st))
                    return self.p.facade_prove(name, self.term(dot) > 0)
        if self.is0(s):
            return self.p.facade_prove(name, self.term(c) > 0)
        return self.p.facade_prove(name, z3.And(self.term(s) == 0, self.term(c) > 0))
