"""Contracts of coral/coord.py:Buffer (C06): a ring buffer is a bounded deque.

Abstract view of a buffer of capacity n: the sequence buf[(s+i) mod n] for 0 <= i < (e-s) mod 2n.
Every operation is verified from an arbitrary state satisfying the representation invariant, so the
contracts compose over every history."""
from pyvc.facade import *

def state(v, b):
    f = lambda x: v.attr(b, x)
    return Z(f('n')), f('buf'), Z(f('s')), Z(f('e'))

def size(n, s, e):
    return If(e >= s, e - s, e - s + 2 * n)

def slot(n, x):
    """x mod n for 0 <= x < 4n"""
    return If(x < n, x, If(x < 2 * n, x - n, If(x < 3 * n, x - 2 * n, x - 3 * n)))

def inv(v, b, n0):
    n, buf, s, e = state(v, b)
    return And(n == n0, Z(v.attr(b, '_m1')) == n0 - 1, Z(v.attr(b, '_m2')) == 2 * n0 - 1, Z(buf.content.n if isinstance(buf.content, SSeq) else len(buf.content)) == n0,
               0 <= s, s < 2 * n, 0 <= e, e < 2 * n, size(n, s, e) <= n)

def view(v, b):
    n, buf, s, e = state(v, b)
    c = buf.content
    return size(n, s, e), (lambda i: c.get(slot(n, s + Z(i))))

def capacity(v):
    n = v.int("n", 1)
    v.p.pow2 = [n]
    return n

def any_buffer(v):
    n = capacity(v)
    b = v.call('coord.Buffer', n)
    v.prove("a new buffer satisfies the invariant", inv(v, b, n))
    s, e = v.int("s"), v.int("e")
    v.setattr(b, 's', s)
    v.setattr(b, 'e', e)
    v.attr(b, 'buf').content = v.seq("buf", 'opaque', n)
    v.assume(inv(v, b, n))
    return n, b

def item(a):
    return a.term if isinstance(a, Opaque) else a

def eqi(a, b):
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a.term == b.term
    return z3.BoolVal(a is b)

def unchanged(v, name, b, sz, at, lo=0, hi=None, off=0):
    """view' is view without the items outside [lo, hi)."""
    hi = sz if hi is None else hi
    sz2, at2 = view(v, b)
    v.prove(name + ": size", sz2 == hi - lo)
    v.forall(name + ": remaining items, in order", hi - lo, lambda i: eqi(at2(i), at(Z(i) + lo)))

def u_init(v):
    n = capacity(v)
    b = v.call('coord.Buffer', n)
    v.prove("invariant", inv(v, b, n))
    v.prove("a new buffer holds nothing", size(*[state(v, b)[i] for i in (0, 2, 3)]) == 0)

def u_tests(v):
    n, b = any_buffer(v)
    sz, at = view(v, b)
    v.prove("empty exactly when it holds nothing", B(v.truth(v.meth(b, 'isempty'))) == (sz == 0))
    v.prove("full exactly when it holds n items", B(v.truth(v.meth(b, 'isfull'))) == (sz == n))
    v.prove("invariant", inv(v, b, n))
    unchanged(v, "tests", b, sz, at)

def u_push(v):
    n, b = any_buffer(v)
    sz, at = view(v, b)
    o = v.opaque("o")
    st, r = v.attempt('coord.Buffer.push', b, o)
    v.prove("invariant", inv(v, b, n))
    if st == 'ok':
        v.prove("accepted only when not full", sz < n)
        v.reach("accepted")
        sz2, at2 = view(v, b)
        v.prove("one more item", sz2 == sz + 1)
        v.prove("the item is the last", eqi(at2(sz), o))
        v.forall("the others are kept, in order", sz, lambda i: eqi(at2(i), at(i)))
    else:
        v.prove("refused only when full", sz == n)
        v.prove("refused by an AssertionError", v.raised(r, 'AssertionError'))
        v.reach("refused")
        unchanged(v, "refused", b, sz, at)

def taker(op, last, removes):
    def u(v):
        n, b = any_buffer(v)
        sz, at = view(v, b)
        st, r = v.attempt('coord.Buffer.' + op, b)
        v.prove("invariant", inv(v, b, n))
        if st == 'ok':
            v.prove("only when not empty", sz > 0)
            v.reach("taken")
            v.prove("%s gives the %s item" % (op, "most recent" if last else "oldest"), eqi(r, at(sz - 1 if last else z3.IntVal(0))))
            unchanged(v, op, b, sz, at, *(((0, sz - 1) if last else (1, sz)) if removes else (0, sz)))
        else:
            v.prove("refused only when empty", sz == 0)
            v.prove("refused by an AssertionError", v.raised(r, 'AssertionError'))
            v.reach("refused")
            unchanged(v, "refused", b, sz, at)
    return u

def units(prop):
    def U(n, f, *reach):
        u = Unit(prop + "." + n, f)
        u.must_reach = reach
        return u
    return [U("init", u_init), U("tests", u_tests), U("push", u_push, "accepted", "refused"),
            U("pop", taker('pop', True, True), "taken", "refused"), U("peek", taker('peek', True, False), "taken", "refused"),
            U("shift", taker('shift', False, True), "taken", "refused")]

# ---- the contracts, as used at call sites: an object with the ghost view only
def abstract():
    """Contract overrides for Buffer's methods (verified against the bodies by the units above)."""
    def view_of(b):
        return b.fields['view']
    def ln(l):
        return len(l.content) if isinstance(l.content, list) else l.content.n
    def init(it, f, a):
        n = a['n']
        # precondition of the verified constructor: a power of two
        if n is not it.p.unit.args.get('k'):
            pow2 = isinstance(n, int) and n > 0 and n & (n - 1) == 0
            it.p.prove("precondition of Buffer(): capacity is a power of two", bool(pow2))
        b = a['self']
        b.fields['n'] = n
        b.fields['view'] = it.newlist([], "view")
        return None
    def guard(it, cond):
        from pyvc.interp import raise_
        if it.p.decide(cond):
            raise_(AssertionError, "refused")
    def size(b):
        return Z(ln(view_of(b)))
    def push(it, f, a):
        guard(it, size(a['self']) == Z(a['self'].fields['n']))
        it.BI.list_append(it, view_of(a['self']), a['o'])
    def pop(it, f, a):
        guard(it, size(a['self']) == 0)
        return it.call(it.getattr(view_of(a['self']), 'pop'), [], {})
    def peek(it, f, a):
        guard(it, size(a['self']) == 0)
        return it.BI.getitem(it, view_of(a['self']), -1)
    def shift(it, f, a):
        guard(it, size(a['self']) == 0)
        return it.call(it.getattr(view_of(a['self']), 'pop'), [0], {})
    def isempty(it, f, a):
        return conc(size(a['self']) == 0)
    def isfull(it, f, a):
        return conc(size(a['self']) == Z(a['self'].fields['n']))
    return {"coord.Buffer." + k: v for k, v in
            {"__init__": init, "push": push, "pop": pop, "peek": peek, "shift": shift, "isempty": isempty, "isfull": isfull}.items()}
