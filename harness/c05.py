"""C05: couplet and relation algebra."""
from symx import model as M
from . import ops
from .ops import WIDE_NOTE, h_binary, h_unary, rel

COVERS = ('compose-undefined', 'compose-defined', 'fu-undefined', 'fu-defined')
BOUNDS = {
    'quick': 'relations of up to 3 couplets (2 and 2, 3 and 1 for binary operations), lefts and rights '
             'unbounded symbolic integers, opaque strings, or couplets and sets of such',
    'thorough': 'up to 4 couplets; binary up to 3 and 2'}
BOUNDS['quick'] += WIDE_NOTE
ASSUMPTIONS = ['element kinds per position are fixed by the case; values are symbolic']


def h_couplet(ctx):
    L, p = ctx.L, ctx.p
    a, b = ctx.build('a', p['a']), ctx.build('b', p['b'])
    da, db = M.den(a), M.den(b)
    kw = {} if p.get('checked', True) else {'_checked': False}
    ctx.lazies(p, ('a', a), ('b', b))
    t = L.couplets.transpose(a, **kw)
    ctx.same(t, ('C', da[2], da[1]), 'transpose')
    c = L.couplets.compose(a, b, **kw)
    if da[1] == db[2]:
        ctx.cover('compose-defined')
        ctx.same(c, ('C', db[1], da[2]), 'compose')
    else:
        ctx.cover('compose-undefined')
        ctx.check(c is L.U, 'compose of non-matching couplets')
    ctx.check(bool(L.couplets.is_reflexive(a, **kw)) == bool(da[1] == da[2]), 'is_reflexive')
    if p.get('lazy'):
        ctx.sound(t, 'transpose', p['lazy'])
        if c is not L.U:
            ctx.sound(c, 'compose', p['lazy'])
    ctx.same(a, da, 'operand 1 changed')
    ctx.same(b, db, 'operand 2 changed')


def h_laws(ctx):
    L, p = ctx.L, ctx.p
    r = L.relations
    a, b, c = ctx.build('a', p['a']), ctx.build('b', p['b']), ctx.build('c', p['c'])
    law = p['law']
    if law == 'transpose2':
        ok = r.transpose(r.transpose(a)) == a
    elif law == 'assoc':
        ok = r.compose(r.compose(a, b), c) == r.compose(a, r.compose(b, c))
    elif law == 'anti':
        ok = r.transpose(r.compose(a, b)) == r.compose(r.transpose(b), r.transpose(a))
    elif law == 'identity':
        ok = r.compose(a, r.diag(*r.get_lefts(a))) == a and r.compose(r.diag(*r.get_rights(a)), a) == a
    elif law == 'fu':
        u, v = r.functional_union(a, b), r.right_functional_union(r.transpose(a), r.transpose(b))
        ok = (u is L.U) == (v is L.U) and (u is L.U or r.transpose(u) == v)
    elif law == 'distr':
        s = L.sets
        ok = r.compose(s.union(a, b), c) == s.union(r.compose(a, c), r.compose(b, c))
    ctx.check(ok, 'law ' + law)


def h_fu(ctx):
    L, p = ctx.L, ctx.p
    a, b = ctx.build('a', p['a']), ctx.build('b', p['b'])
    da, db = M.den(a), M.den(b)
    r = L.relations.functional_union(a, b)
    want = ops.r_fu(da, db)
    ctx.same(r, want, 'functional_union')
    ctx.cover('fu-undefined' if want is None else 'fu-defined')
    if r is not L.U:
        ctx.check(bool(L.relations.is_functional(r)), 'the result is functional')


def cases(tier):
    big = tier == 'thorough'
    kinds = (('a', 'a'), ('b', 'b'), ('a', 'b'), (['C', 'a', 'a'], 'a'), (['S', 'a'], ['S', 'a']))
    for l, r in kinds:
        for c in (True, False):
            yield h_couplet, dict(a=['C', l, r], b=['C', l, l], checked=c)
            yield h_couplet, dict(a=['C', l, r], b=['C', r, l], checked=c)
    for f in ('absolute', 'reflexive'):
        yield h_couplet, dict(a=['C', 'a', 'a'], b=['C', 'a', 'a'], lazy=[f])
        yield h_couplet, dict(a=['C', ['C', 'a', 'a'], 'a'], b=['C', 'a', ['C', 'a', 'a']], lazy=[f])
    sizes = [(0, 0), (0, 2), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1), (1, 3)] + ([(3, 2), (2, 3)] if big else [])
    for op in ops.BIN_REL:
        for i, j in sizes:
            yield h_binary, dict(op=op, a=rel(i), b=rel(j)), 4 ** (i + j)
        yield h_binary, dict(op=op, a=rel(2), b=rel(2), checked=False), 100
        yield h_binary, dict(op=op, a=rel(2), b=rel(2), alias=1), 100
        yield h_binary, dict(op=op, a=rel(2, 'b', 'b'), b=rel(1, 'b', 'b'))
        yield h_binary, dict(op=op, a=rel(1, ['C', 'a', 'a'], 'a'), b=rel(1, 'a', ['C', 'a', 'a']))
        yield h_binary, dict(op=op, a=rel(2, ['S', 'a'], ['S', 'a']), b=rel(1, ['S', 'a'], ['S', 'a']))
        yield h_binary, dict(op=op, a=rel(2), b=rel(1), lazy=['relation', 'functional', 'right_functional']), 50
        for a, b in ((rel(2), rel(1)), (rel(1), rel(2)), (rel(1), rel(0)), (rel(0), rel(1))):
            yield from ops.flagged(h_binary, dict(op=op, a=a, b=b), 30)
        yield from ops.flagged(h_binary, dict(op=op, a=rel(2), b=rel(2), alias=1), 30)
        yield from ops.flagged(h_binary, dict(op=op, a=rel(3), b=rel(3), alias=1), 100)
        yield from ops.wide(h_binary, op, 'rel')
    yield from ops.wide1(h_unary, 'relations.transpose', 'rel')
    for n in range(4):
        yield from ops.flagged(h_unary, dict(op='relations.transpose', a=rel(n)), 4 ** n)
    for n in range(5 if big else 4):
        for c in (True, False):
            yield h_unary, dict(op='relations.transpose', a=rel(n), checked=c)
    yield h_unary, dict(op='relations.transpose', a=rel(2, 'b', 'a'))
    yield h_fu, dict(a=rel(2), b=rel(1))
    for law in ('transpose2', 'assoc', 'anti', 'identity', 'fu', 'distr'):
        yield h_laws, dict(law=law, a=rel(1), b=rel(1), c=rel(1)), 10
        yield h_laws, dict(law=law, a=rel(2), b=rel(1), c=rel(1)), 60
        if big:
            yield h_laws, dict(law=law, a=rel(2), b=rel(2), c=rel(1)), 600
