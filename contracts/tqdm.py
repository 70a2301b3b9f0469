"""Contracts of tqdm.py (C34).  Generators are run to the end, so what is decided is the sequence of items
and the meter texts; that items come out one by one is left to the oracle."""
from pyvc.facade import *
from pyvc.values import StrV
from pyvc import files
from pyvc import builtins_ as BI
from .templates import *

def pieces(x):
    return BI.pieces_of(x) if not isinstance(x, str) else [x]

def value_of(v, p):
    return p[1]

def u_meter(v):
    n = v.int("n", 0)
    total = v.choose(None, "int")
    if total == "int":
        total = v.int("total")
    el = v.real("elapsed")
    r = v.call('tqdm.format_meter', n, total, el)
    ps = pieces(r)
    lits = "".join(p for p in ps if isinstance(p, str))
    bar = "|" in lits or "%" in lits or any(isinstance(p, tuple) and p[0] == 'rep' for p in ps)
    if total is None:
        v.prove("without a total there is a plain counter", not bar)
    elif v.case(Or(total <= 0, n > total)):
        v.prove("without a usable total there is a plain counter", not bar)
    else:
        v.prove("with a total there is a bar", bar)
    # numbers shown, in order, with the literal text before them
    before, shown = "", []
    for p in ps:
        if isinstance(p, str):
            before = p
        elif p[0] == 'fmt' and is_num(p[1]):
            shown.append((before, p[1], p[2]))
            before = ""
        elif p[0] == 'rep':
            before = ""
    if not bar:
        v.prove("the counter shows the number of iterations", bool(ps) and isinstance(ps[0], tuple) and ps[0][0] == 'fmt' and conc(n_cmp('==', ps[0][1], n)) is True)
        v.reach("counter")
    else:
        i = next((i for i, p in enumerate(ps) if isinstance(p, str) and p.lstrip().startswith("%")), None)
        if i is None or not (isinstance(ps[i - 1], tuple) and ps[i - 1][0] == 'fmt'):
            v.fail("the meter shows a percentage")
            return
        pc = ps[i - 1][1]
        # %d shows the integer part
        v.prove("the percentage shown is the share done, and at most 100", And(R(pc) >= 0, R(pc) <= 100, R(pc) * z3.ToReal(total) <= 100 * z3.ToReal(n), (R(pc) + 1) * z3.ToReal(total) > 100 * z3.ToReal(n)))
        reps = [p for p in ps if isinstance(p, tuple) and p[0] == 'rep']
        w = {c: sum((Z(p[1]) for p in reps if p[2](z3.IntVal(0)) == [c]), z3.IntVal(0)) + "".join(p for p in ps if isinstance(p, str)).count(c) for c in "#-"}
        v.prove("the bar is ten wide and filled by the share done", And(w['#'] >= 0, w['#'] <= 10, w['#'] + w['-'] == 10,
                                                                  w['#'] * total <= 10 * n, (w['#'] + 1) * total > 10 * n))
        v.reach("bar")
    v.reach("end")

def inv_pass(L):
    src = L.a.get('items')
    if src is None:
        return
    k = Z(L.k)
    for n, l in locals_of(L):
        if isinstance(l, PList):
            c = l.content
            yield "%s has the items so far" % n, length(c) == k
            if isinstance(c, list):
                c = SSeqOf(L.it, c) if c else None
            yield All("%s: items" % n, k, lambda i, c=c: c.get(i).term == src.get(i).term if c is not None else z3.BoolVal(True))
    for n, x in L.numbers():
        if is_int(x):
            yield "%s counts the items" % n, lambda x=x: Z(x) == k
            yield "%s is at most the items" % n, lambda x=x: And(Z(x) <= k, Z(x) >= 0)

class Out(PClass):
    binds = True

def u_tqdm(v, known, given):
    src = v.seq("items", 'opaque')
    v.p.unit.args['items'] = src
    it = v.it
    c = Out("Stream", [], {}, None)
    def write(o, s):
        if not isinstance(s, (str, Rope, StrV)):
            v.fail("text is written")
    c.d['write'] = Builtin('write', write)
    c.d['flush'] = Builtin('flush', lambda o: None)
    out = it.alloc(PObj(c, {}), "stream")
    it.ext_hooks['sys.stdout.write'] = lambda it, *a, **k: None
    it.ext_hooks['time.time'] = lambda it: v.p.real("clock")
    total = v.int("total") if given else None
    iterable = v.list(src) if known else v.iter(src)
    want = total if given else (Z(src.n) if known else None)
    v.p.unit.args['want'] = want
    kw = {'file': out}
    if given:
        kw['total'] = total
    o = v.choose(0, 1, 2, 3)
    if o >= 1:
        kw['leave'] = o == 1
        kw['desc'] = v.str("desc")
        kw['mininterval'] = v.real("mininterval")
        kw['miniters'] = v.int("miniters")
    if o == 3:
        kw['leave'] = False
    r = v.call('tqdm.tqdm', iterable, **kw)
    s = r.seq if isinstance(r, PIter) else r.content
    v.prove("as many items as the iterable has", length(s) == Z(src.n))
    if isinstance(s, SSeq) or s:
        s = SSeqOf(it, s) if isinstance(s, list) else s
        v.forall("each item is passed on in its place", src.n, lambda i: s.get(i).term == src.get(i).term)
    v.reach("end")

def meter_contract(it, f, args):
    n, total, el = args['n'], args['total'], args['elapsed']
    p = it.p
    want = p.unit.args['want']
    if not (is_int(n) and is_num(el)):
        p.prove("the meter is given numbers", False)
    p.prove("the meter is given the number of items", n_cmp('>=', n, 0))
    if want is None or total is None:
        p.prove("the meter is given the total that is known", want is None and total is None)
    else:
        p.prove("the meter is given the total that is known", n_cmp('==', total, want))
    return BI.newstr(it, "meter")

def u_trange(v):
    it = v.it
    c = Out("Stream", [], {}, None)
    c.d['write'] = Builtin('write', lambda o, s: None)
    c.d['flush'] = Builtin('flush', lambda o: None)
    out = it.alloc(PObj(c, {}), "stream")
    seen = []
    a, b = v.int("start"), v.int("stop")
    args = v.choose((b,), (a, b))
    r = v.call('tqdm.trange', *args, file=out)
    v.prove("trange goes through the range", r is v.p.unit.args.get('marker'))
    got = v.p.unit.args.get('range')
    lo = args[0] if len(args) == 2 else 0
    s = it.iterate(got)
    n = If(Z(b) > Z(lo), Z(b) - Z(lo), 0)
    v.prove("trange goes through the range", Z(s.n) == n)
    v.forall("trange goes through the range", s.n, lambda i: Z(s.get(i)) == Z(lo) + i)
    v.reach("end")

def tqdm_marker(it, f, args):
    a = it.p.unit.args
    a['range'] = args['iterable']
    a['marker'] = it.alloc(PIter(it.iterate(args['iterable'])), "iter")
    return a['marker']

def units(prop):
    us = []
    def U(n, f, reach, **kw):
        u = Unit("C34." + n, f, **kw)
        u.must_reach = reach
        us.append(u)
    U("format_meter", u_meter, ["end", "bar", "counter"])
    for known in (True, False):
        for given in (True, False):
            U("tqdm (%s length, total %s)" % ("known" if known else "unknown", "given" if given else "not given"), lambda v, k=known, g=given: u_tqdm(v, k, g), ["end"], invs=[inv_pass], overrides={"tqdm.format_meter": meter_contract})
    U("trange", u_trange, ["end"], overrides={"tqdm.tqdm": tqdm_marker})
    return us
