"""Concrete oracle of the progress meter (C34)."""
import io, re, itertools, sys
from coral import tqdm

RULE = {"C34": "lists, tuples, ranges, iterators and endless iterators of up to 40 items, totals given (too small, too large, zero) or not, scripted clocks (still, jumping, running backwards), all options; meter texts parsed"}

def gen(prop, rng):
    while True:
        n = rng.choice([0, 1, 2, 3, 7, 10, 40])
        kind = rng.choice(["list", "tuple", "range", "iter", "gen", "endless"])
        total = rng.choice([None, None, 0, n, n + 1, n - 1, n // 2, 3 * n, -1])
        clock = [rng.choice([0, 0.1, 0.6, 5, 3700, -2]) for _ in range(8)]
        opts = {}
        if rng.random() < .5: opts["desc"] = rng.choice(["", "work", "é: "])
        if rng.random() < .5: opts["leave"] = rng.random() < .5
        if rng.random() < .5: opts["mininterval"] = rng.choice([0, 0.5, 10])
        if rng.random() < .5: opts["miniters"] = rng.choice([0, 1, 3, 100])
        yield [kind, n, total, clock, opts]
        if rng.random() < .3:
            t = rng.choice([None, 0, 1, 7, 100, 1000, -5])
            yield ["meter", rng.randrange(0, 1200), t, [rng.choice([0, 0.5, 61, 3725.5, -1])], {}]

class Clock:
    def __init__(self, steps):
        self.steps, self.t = itertools.cycle(steps or [1]), 1e9
    def time(self):
        self.t += next(self.steps)
        return self.t

def meter(s, n, total):
    usable = total is not None and total > 0 and n <= total
    if not usable:
        assert "%" not in s and "|" not in s and s.startswith("%d [" % n), "not a plain counter: %r" % s
        return
    m = re.match(r"\|([#-]*)\| (\d+)/(\d+) +(\d+)% ", s)
    assert m, "no bar in %r" % s
    bar, a, b, pc = m.groups()
    assert len(bar) == 10 and bar.rstrip("-").strip("#") == "", "bar %r" % bar
    assert int(a) == n and int(b) == total, "counts in %r" % s
    assert abs(int(pc) - 100 * n / total) <= 1 and int(pc) <= 100, "percentage in %r" % s
    assert abs(len(bar.rstrip("-")) - 10 * n / total) <= 1.0001, "bar in %r" % s

def check(prop, c):
    kind, n, total, clock, opts = c
    if kind == "meter":
        meter(tqdm.format_meter(n, total, clock[0]), n, total)
        return
    items = [object() for _ in range(n)] if kind != "range" else list(range(n))
    asked = [0]
    def g():
        for x in (items if kind != "endless" else itertools.chain(items, itertools.repeat(None))):
            asked[0] += 1
            yield x
    it = {"list": list, "tuple": tuple, "range": lambda x: range(n), "iter": iter, "gen": lambda x: g(), "endless": lambda x: g()}[kind](items)
    known = n if kind in ("list", "tuple", "range") else None
    out = io.StringIO()
    old, so = tqdm.time, sys.stdout
    tqdm.time = Clock(clock)
    sys.stdout = io.StringIO()
    try:
        got = []
        it = tqdm.tqdm(it, file=out, **dict(opts, **({} if total is None else {"total": total})))
        for i, x in enumerate(it):
            got.append(x)
            if kind in ("gen", "endless"):
                assert asked[0] == i + 1, "item %d comes after %d were taken" % (i, asked[0])
            if kind == "endless" and i + 1 == n + 2:
                break
    finally:
        tqdm.time, sys.stdout = old, so
    want = items + ([None, None] if kind == "endless" else [])
    assert len(got) == len(want) and all(a is b for a, b in zip(got, want)), "%d items became %d, or others" % (len(want), len(got))
    pre = opts.get("desc", "")
    pre = pre + ": " if pre else ""
    tot = total if total is not None else known
    for s in out.getvalue().split("\r"):
        s = s.rstrip(" \n")
        if s.strip():
            assert s.startswith(pre), "no description in %r" % s
            s = s[len(pre):]
            m = re.match(r"\|[#-]*\| (\d+)|(\d+) \[", s)
            assert m, "meter %r" % s
            k = int(m.group(1) or m.group(2))
            assert k <= len(want)
            meter(s, k, tot)
