"""Loops and comprehensions in terms of each other.

* A `for` loop that only appends to lists (or writes to a text file, or yields) what it computes from its item is a
  comprehension: the list takes the images of the items, in order.
* A comprehension with a condition over a sequence of unknown length is a loop that appends under that condition.
* `next(<generator with a condition>, default)` is a loop that ends at the first item it finds."""
import ast
import z3
from .values import *

def names(node, ctx):
    return {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ctx)}

def classify(s):
    """[(kind, receiver AST, argument AST)] and the assignments of a loop that only appends, or None."""
    if s.orelse:
        return None
    local = names(s.target, ast.Store)
    if any(not isinstance(n, (ast.Name, ast.Tuple, ast.List, ast.expr_context)) for n in ast.walk(s.target)):
        return None
    steps, outs = [], []
    allstored = set(local)
    for b in s.body:
        allstored |= names(b, ast.Store)
    known = set(local)
    for b in s.body:
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant):
            continue
        if isinstance(b, ast.Assign) and len(b.targets) == 1 and all(isinstance(n, (ast.Name, ast.Tuple, ast.expr_context)) for n in ast.walk(b.targets[0])):
            if names(b.value, ast.Load) & (allstored - known):
                return None
            known |= names(b.targets[0], ast.Store)
            steps.append(('set', b))
            continue
        if isinstance(b, ast.Expr) and isinstance(b.value, ast.Yield) and b.value.value is not None:
            kind, recv, arg = 'yield', None, b.value.value
        elif isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) \
                and b.value.func.attr in ('append', 'write') and len(b.value.args) == 1 and not b.value.keywords and not isinstance(b.value.args[0], ast.Starred):
            kind, recv, arg = b.value.func.attr, b.value.func.value, b.value.args[0]
            r = recv
            while isinstance(r, ast.Attribute):
                r = r.value
            if not isinstance(r, ast.Name) or r.id in allstored:
                return None
        else:
            return None
        if names(arg, ast.Load) & (allstored - known):
            return None
        steps.append((kind, recv, arg))
        outs.append((kind, ast.dump(recv) if recv is not None else 'yield'))
    if not outs or len([o for o in outs if o[0] != 'write']) != len(set(o for o in outs if o[0] != 'write')):
        return None
    if any(o[0] == 'write' for o in outs) and len(set(outs)) > 1:
        return None
    for b in ast.walk(ast.Module(body=s.body, type_ignores=[])):
        if isinstance(b, (ast.Lambda, ast.NamedExpr, ast.Await)) or isinstance(b, (ast.Yield, ast.YieldFrom)) and not any(st[0] == 'yield' for st in steps):
            return None
    # the receivers are not looked at
    texts = [st[1] for st in steps if st[0] in ('append', 'write')]
    exprs = [st[2] if st[0] != 'set' else st[1].value for st in steps]
    for r in texts:
        d = ast.dump(r)
        for e in exprs:
            for n in ast.walk(e):
                if isinstance(n, (ast.Name, ast.Attribute)) and ast.dump(n) == d or isinstance(r, ast.Attribute) and isinstance(n, ast.Attribute) and n.attr == r.attr:
                    return None
    # what the loop assigns is not used after it
    fn = getattr(s, '_fn', None)
    if fn is None:
        return None
    inside = {id(n) for n in ast.walk(s)}
    own = set()
    for n in ast.walk(fn):
        if id(n) in inside:
            continue
        if isinstance(n, (ast.For, ast.comprehension)):
            bound = names(n.target, ast.Store) & allstored
            if bound and isinstance(n, ast.For):
                for m in n.body + n.orelse:
                    own |= {id(q) for q in ast.walk(m) if isinstance(q, ast.Name) and q.id in bound}
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            bound = set().union(*[names(g.target, ast.Store) for g in n.generators]) & allstored
            own |= {id(q) for q in ast.walk(n) if isinstance(q, ast.Name) and q.id in bound}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in allstored and id(n) not in inside and id(n) not in own:
            return None
    return steps

def appends(it, s, env, src, srcv):
    """Run a loop that only appends; False when it is not one."""
    if getattr(s, '_steps', 0) == 0:
        s._steps = classify(s)
    steps = s._steps
    if steps is None or it.p.insum:
        return False
    it.p.unit.rewritable = True
    if not it.p.unit.desugar:
        return False
    if any(l in env.globs or l in env.nonl for l in names(s, ast.Store)):
        return False
    from . import files
    targets = []
    try:
        for st in steps:
            if st[0] == 'set':
                continue
            o = it.genout(env) if st[0] == 'yield' else it.ev(st[1], env)
            if st[0] == 'write':
                if not (isinstance(o, PObj) and o.cls is getattr(it.p, 'fileclass', None) and o.fields.get('kind') == 'str'):
                    return False
            elif type(o) is not PList or not isinstance(o.content, (list, SSeq)) or any(o is t for t in targets):
                return False
            targets.append(o)
        def run(x, want):
            e3 = child(it, env)
            it.assign(s.target, x, e3)
            i, got = 0, []
            for st in steps:
                if st[0] == 'set':
                    it.exec_block([st[1]], e3)
                    continue
                v = it.ev(st[2], e3)
                if want is None or i == want:
                    got.append(v)
                i += 1
            return it.BI.join_pieces(it, [q for v in got for q in (it.BI.pieces_of(v) if not isinstance(v, (str, bytes)) else [v])]) if want is None else got[0]
        if steps[-1][0] == 'write':
            cols = [it.map_seq(src, lambda x: run(x, None))]
            targets = targets[:1]
        else:
            cols = [it.map_seq(src, lambda x, c=c: run(x, c)) for c in range(len(targets))]
    except (Unsupported, PyRaise) as e:
        it.p.unit.skipped.add("loop as comprehension: %s" % e)
        return False
    if isinstance(srcv, PIter):
        it.setpos(srcv, n_add(srcv.pos, src.n))
    for o, col in zip(targets, cols):
        if steps[-1][0] == 'write':
            files.f_writelines(it, o, it.alloc(PIter(col)))
        else:
            it.setcontent(o, it.BI.seq_concat(it, o.content, col))
    return True

def child(it, env):
    return type(env)(env.module, env, it.newfid(env), None, env.qual)

def loc(n, like):
    ast.copy_location(n, like)
    return ast.fix_missing_locations(n)

def number(n, e, fn):
    for i, q in enumerate(q for q in ast.walk(n) if isinstance(q, ast.For)):
        q._ord = 100000 + 1000 * e.lineno + 10 * e.col_offset + i

def test_of(ifs):
    return ifs[0] if len(ifs) == 1 else ast.BoolOp(op=ast.And(), values=list(ifs))

def filtered(it, e, env, src):
    """A comprehension with conditions over an unknown number of items."""
    if not hasattr(e, '_loop'):
        body = [ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id='__comp', ctx=ast.Load()), attr='append', ctx=ast.Load()), args=[e.elt], keywords=[]))]
        for g in reversed(e.generators):
            if g.ifs:
                body = [ast.If(test=test_of(g.ifs), body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[], type_comment=None)]
        e._loop = loc(body[0], e)
        number(e._loop, e, None)
    out = it.newlist([])
    e2 = child(it, env)
    e2.vars['__comp'] = out
    from . import loops
    loops.run_inv(it, e._loop, e2, it.retag(src), None)
    return out.content

def first(it, e, env):
    """next(generator with a condition, default): the first that is found."""
    g = e.args[0].generators[0]
    if not hasattr(e, '_loop'):
        last = [ast.Assign(targets=[ast.Name(id='__found', ctx=ast.Store())], value=e.args[1])] if len(e.args) > 1 else \
               [ast.Raise(exc=ast.Name(id='__stop', ctx=ast.Load()), cause=None)]
        s = ast.For(target=g.target, iter=g.iter, body=[ast.If(test=test_of(g.ifs), body=[
            ast.Assign(targets=[ast.Name(id='__found', ctx=ast.Store())], value=e.args[0].elt), ast.Break()], orelse=[])], orelse=last, type_comment=None)
        e._loop = loc(s, e)
        number(e._loop, e, None)
    e2 = child(it, env)
    e2.vars['__stop'] = it.builtins['StopIteration']
    it.exec_block([e._loop], e2)
    return e2.vars['__found']
