"""Invariant templates that do not name the code's variables."""
from pyvc.facade import *
from pyvc.loops import chain

def locals_of(L):
    out, seen = [], set()
    for e in chain(L.env):
        if e.cls is not None or str(e.fid).startswith("mod:"):
            continue
        for n, v in e.vars.items():
            if n not in seen:
                seen.add(n)
                out.append((n, v))
    return out

def content(l):
    return l.content if isinstance(l, PList) else l

def length(c):
    return z3.IntVal(len(c)) if isinstance(c, (list, tuple)) else Z(c.n)

def at(L, c, i):
    if isinstance(c, list):
        return SSeqOf(L.it, c).get(i) if c else L.a['elembase'].at(z3.IntVal(0))
    return c.get(i)

def elem_locals(L):
    return [(n, v) for n, v in locals_of(L) if isinstance(v, Elem)]

def elem_seqs(L):
    """Lists of elements of the base sequence: generator output, list locals, views of buffers."""
    out, seen = [], set()
    for n, v in locals_of(L):
        if isinstance(v, PObj) and 'view' in v.fields:
            n, v = n + ".view", v.fields['view']
        if isinstance(v, PList) and not isinstance(v, PArr) and id(v) not in seen:
            seen.add(id(v))
            c = v.content
            if isinstance(c, list):
                if all(isinstance(x, Elem) for x in c):
                    out.append((n, c))
            else:
                try:
                    if isinstance(c.get(z3.Int("probe")), Elem):
                        out.append((n, c))
                except Exception:
                    pass
    return out

def consumed(L):
    """How much of the base sequence the loop has taken (for loops over a suffix of it)."""
    base = L.a.get('elembase')
    if L.src is None:
        return None
    if getattr(L.src, 'retagged', None) is not base:
        return None
    return Z(L.k) + Z(base.n) - Z(L.n)

def T(x):
    return x.tag

def inv_order(L):
    base = L.a.get('elembase')
    if base is None:
        return
    N = Z(base.n)
    pos = consumed(L)
    bound = pos if pos is not None else N
    us, ss = elem_locals(L), elem_seqs(L)
    for n, u in us:
        yield "0<=%s" % n, lambda u=u: And(T(u) >= 0, T(u) < N)
        yield "%s consumed" % n, lambda u=u: T(u) < bound
        yield "%s first" % n, lambda u=u: T(u) == 0
        yield "%s not first" % n, lambda u=u: T(u) > 0
        yield "%s is the last value" % n, lambda u=u: And(*[x == y for x, y in zip(u, base.at(bound - 1))])
        for m, w in us:
            if n != m:
                yield "%s<%s" % (n, m), lambda u=u, w=w: T(u) < T(w)
                yield "%s<=%s" % (n, m), lambda u=u, w=w: T(u) <= T(w)
    for n, s in ss:
        ln = length(s)
        yield "len %s>0" % n, lambda ln=ln: ln > 0
        yield "%s starts first" % n, lambda s=s, ln=ln: Implies(ln > 0, T(at(L, s, z3.IntVal(0))) == 0)
        yield All("%s in range" % n, ln, lambda i, s=s: And(T(at(L, s, i)) >= 0, T(at(L, s, i)) < bound))
        yield All("%s not first" % n, ln, lambda i, s=s: T(at(L, s, i)) > 0)
        yield All("%s increasing" % n, ln, lambda j, s=s: L.v.all(j, lambda i: T(at(L, s, i)) < T(at(L, s, j))))
        for m, u in us:
            yield All("%s<%s" % (n, m), ln, lambda i, s=s, u=u: T(at(L, s, i)) < T(u))
            yield All("%s<%s" % (m, n), ln, lambda i, s=s, u=u: T(u) < T(at(L, s, i)))
        for m, s2 in ss:
            if m != n:
                l2 = length(s2)
                yield All("%s<%s" % (n, m), ln, lambda i, s=s, s2=s2, l2=l2: L.v.all(l2, lambda j: T(at(L, s, i)) < T(at(L, s2, j))))

def inv_sizes(L):
    """Sizes of lists and buffers; draining a buffer ends."""
    for n, v in locals_of(L):
        if isinstance(v, PObj) and 'view' in v.fields:
            ln = length(v.fields['view'].content)
            k = Z(v.fields['n'])
            yield "size %s" % n, lambda ln=ln, k=k: And(ln >= 0, ln <= k)
            yield "variant %s" % n, ln

def inv_drained(L):
    """A helper that takes a buffer and gives its elements: what it gave and what is left are the buffer as it was."""
    if L.a.get('elembase') is None or L.fn in ('coord.open_no_slit', 'coord.closed_no_slit', 'open_no_slit', 'closed_no_slit'):
        return
    ss = elem_seqs(L)
    if not hasattr(L, 'wholes'):
        L.wholes = {n: list(s) if isinstance(s, list) else s for n, s in ss}
        L.had = {n: length(v.content) for n, v in locals_of(L) if isinstance(v, PList) and not isinstance(v, PArr)}
    outs = [(n, v.content) for n, v in locals_of(L) if isinstance(v, PList) and not isinstance(v, PArr) and n in L.had and (not isinstance(v.content, list) or all(isinstance(x, Elem) for x in v.content))]
    for n, s in ss:
        e = L.wholes.get(n)
        if not n.endswith(".view") or e is None or isinstance(e, list) and not e:
            continue
        for m, o in outs:
            done = length(o) - L.had[m]
            lab = "%s gave %s" % (n, m)
            yield lab + ": lengths", lambda done=done, s=s, e=e: And(done >= 0, done + length(s) == length(e))
            yield All(lab + ": given", done, lambda j, o=o, m=m, e=e: T(at(L, o, j + L.had[m])) == T(at(L, e, j)))
            yield All(lab + ": left", length(s), lambda j, s=s, e=e, done=done: T(at(L, s, j)) == T(at(L, e, j + done)))

def inv_full(L):
    """What came out while a buffer was filled: nothing before it is full."""
    ss = elem_seqs(L)
    for n, v in locals_of(L):
        if isinstance(v, PObj) and 'view' in v.fields:
            ln, k = length(v.fields['view'].content), Z(v.fields['n'])
            for m, s in ss:
                if m != n + ".view" and not m.endswith(".view"):
                    yield "%s empty or %s full" % (m, n), lambda ln=ln, k=k, ls=length(s): Or(ls == 0, ln == k)

def inv_rotated(L):
    """Cyclic order: increasing once the elements up to a pivot (the last element of a buffer when a loop
    began) are counted after all others."""
    base, p = L.a.get('elembase'), L.v.p
    if base is None:
        return
    N = Z(base.n)
    if L.src is not None and getattr(L.src, 'retagged', None) is base:
        return
    piv = p.__dict__.setdefault('pivots', {})
    ss = elem_seqs(L)
    if not hasattr(L, 'pivoted'):
        L.pivoted = True
        if not piv or any(lk == L.key for lk, _ in piv):
            for n, s in ss:
                if n.endswith(".view"):
                    ln = length(s)
                    if not (isinstance(s, list) and not s):
                        piv.setdefault((L.key, n), If(ln > 0, T(at(L, s, ln - 1)), z3.IntVal(0)))
    for (lk, pn), P in list(piv.items()):
        key = lambda t, P=P: If(t <= P, t + N, t)
        for n, s in ss:
            ln = length(s)
            lab = "%s %s rotated at %s" % (n, '%s', pn)
            yield All(lab % "increasing", ln, lambda j, s=s, key=key: L.v.all(j, lambda i: key(T(at(L, s, i))) < key(T(at(L, s, j)))))
            for m, s2 in ss:
                if m != n:
                    yield All(lab % ("<" + m), ln, lambda i, s=s, s2=s2, l2=length(s2), key=key: L.v.all(l2, lambda j: key(T(at(L, s, i))) < key(T(at(L, s2, j)))))

def inv_copy(L):
    """A list takes the elements that a loop runs through."""
    base = L.a.get('elembase')
    if L.src is None or getattr(L.src, 'retagged', None) is base or not isinstance(L.src.get(z3.Int("probe")), Elem):
        return
    for n, v in locals_of(L):
        if isinstance(v, PList) and not isinstance(v, PArr) and n in L.entryvals and L.entryvals[n].content is not getattr(L.src, 'origin', L.src):
            e = L.entryvals[n].content
            src = L.src
            yield Def("%s takes what the loop ran through" % n, v, L.v.BI.seq_concat(L.it, e if isinstance(e, SSeq) else SSeqOf(L.it, list(e)), SSeq(L.k, src.get, 'list')))
