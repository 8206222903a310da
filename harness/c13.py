"""C13: multiclan algebra extends the relation operations and multiplies multiplicities."""
from symx import model as M
from . import ops
from .ops import WIDE_NOTE, h_unary, mclan

COVERS = ('dropped', 'summed')
BOUNDS = {
    'quick': 'multiclans of up to 3 distinct relations with up to 3 couplets each, at most 5 couplets over both operands, every multiplicity >= 1 (unbounded; products are decided by z3 nonlinear integer '
             'arithmetic)',
    'thorough': 'at most 6 couplets over both operands'}
BOUNDS['quick'] += WIDE_NOTE
ASSUMPTIONS = ['element kinds per position are fixed by the case; values and multiplicities are symbolic']
ANY = (1, None)


def h_pairs(ctx):
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    b = a if p.get('alias') else ctx.build('b', p['b'])
    da, db = M.den(a), M.den(b)
    ctx.lazies(p, ('a', a), *([] if b is a else [('b', b)]))
    kw = {} if p.get('checked', True) else {'_checked': False}
    r = ops.get(L, p['op'])(a, b, **kw)
    want = ops.BINARY[p['op']](da, db)
    ctx.same(r, want, p['op'])
    ctx.same(a, da, p['op'] + ' left operand changed')
    ctx.same(b, db, p['op'] + ' right operand changed')
    if len(want.d) < len(da.d) * len(db.d):
        ctx.cover('summed' if p['op'] == 'multiclans.cross_union' else 'dropped')


def h_laws(ctx):
    L, p = ctx.L, ctx.p
    c = L.multiclans
    a, b = ctx.build('a', p['a']), ctx.build('b', p['b'])
    law = p['law']
    if law == 'total':
        # cross union is total: multiplicities multiply
        ok = c.cross_union(a, b).cardinality == a.cardinality * b.cardinality
    elif law == 'involution':
        ok = c.transpose(c.transpose(a)) == a
    elif law == 'sub':
        m = L.multisets
        ok = m.is_subset_of(c.substrict(a, b), a) and m.is_subset_of(c.superstrict(a, b), a)
    elif law == 'clan':
        # forgetting multiplicities commutes with the operation
        m = L.multisets
        ok = m.demultify(c.cross_functional_union(a, b)) == L.clans.cross_functional_union(m.demultify(a), m.demultify(b))
    ctx.check(bool(ok) if not hasattr(ok, 'e') else ok, 'law ' + law)


def cases(tier):
    big = tier == 'thorough'
    pairs = [([], [1]), ([1], []), ([], []), ([0], [1]), ([1], [0]), ([1], [1]), ([1, 1], [1]), ([1], [1, 1]), ([1, 1], [1, 1]),
             ([2], [1]), ([1], [2]), ([0, 1], [1]), ([1], [0, 1]), ([2, 1], [1]), ([1], [2, 1]), ([2], [2]),
             ([2], [1, 1]), ([1, 1], [2]), ([1, 1, 1], [1]), ([0], [2]), ([2], [0]), ([0, 1], [2]), ([0], [1, 1]), ([0], [2, 1]), ([2, 1], [1, 1]), ([1, 1], [2, 1]), ([2, 1], [2]), ([3], [2]), ([2, 2], [1])]
    if big:
        pairs += [([1, 1, 1], [1, 1]), ([1, 1], [1, 1, 1]), ([2, 2], [1, 1]), ([2, 1], [2, 1]), ([2, 2], [2]), ([3], [3]), ([3, 1], [1, 1])]
    for op in ops.BIN_MCLAN:
        for x, y in pairs:
            yield h_pairs, dict(op=op, a=mclan(x, ANY), b=mclan(y, ANY)), 5 ** (sum(x) + sum(y))
        for x, y in ([1, 1], [1]), ([2], [1]), ([0, 1], [1]):
            yield h_pairs, dict(op=op, a=mclan(x, ANY), b=mclan(y, ANY), checked=False), 5 ** 3
            yield h_pairs, dict(op=op, a=mclan(y, ANY), b=mclan(x, ANY), checked=False), 5 ** 3
        yield h_pairs, dict(op=op, a=mclan([1, 1], ANY), b=mclan([1]), alias=1)
        yield h_pairs, dict(op=op, a=mclan([2], ANY), b=mclan([1]), alias=1)
        yield h_pairs, dict(op=op, a=mclan([1, 1], ANY, 'b', 'a'), b=mclan([1], ANY, 'b', 'a')), 100
        yield h_pairs, dict(op=op, a=mclan([1], ANY, ['C', 'a', 'a'], 'a'), b=mclan([1], ANY, ['C', 'a', 'a'], 'a'))
        for f in ('functional', 'right_functional', 'regular'):
            yield h_pairs, dict(op=op, a=mclan([2], ANY), b=mclan([1], ANY), known=['multiclan'], lazy=[f]), 50
            yield h_pairs, dict(op=op, a=mclan([1], ANY), b=mclan([2], ANY), known=['multiclan'], lazy=[f]), 50
        for x, y in ([2], [1]), ([1], [2]), ([1, 1], [1]), ([0], [2]), ([0, 1], [1]):
            yield from ops.flagged(h_pairs, dict(op=op, a=mclan(x, ANY), b=mclan(y, ANY)), 50)
        yield from ops.flagged(h_pairs, dict(op=op, a=mclan([1, 1], ANY), b=mclan([1]), alias=1), 50)
        yield from ops.flagged(h_pairs, dict(op=op, a=mclan([2], ANY), b=mclan([1]), alias=1), 50)
        yield from ops.wide(h_pairs, op, 'mclan')
    yield from ops.wide1(h_unary, 'multiclans.transpose', 'mclan')
    for s in ([], [0], [2], [1, 1], [2, 1], [0, 1]):
        yield from ops.flagged(h_unary, dict(op='multiclans.transpose', a=mclan(s, ANY)), 4 ** sum(s))
        for f in ('reflexive', 'symmetric', 'transitive', 'functional', 'regular'):
            if sum(s) < 3:
                yield h_unary, dict(op='multiclans.transpose', a=mclan(s, ANY), lazy=[f], deep=True), 4 ** sum(s)
    for s in ([], [0], [1], [2], [1, 1], [2, 1], [0, 1], [1, 1, 1]):
        for c in (True, False):
            yield h_unary, dict(op='multiclans.transpose', a=mclan(s, ANY), checked=c), 5 ** sum(s)
    yield h_unary, dict(op='multiclans.transpose', a=mclan([1, 1], ANY, 'b', 'a'))
    for law in ('total', 'involution', 'sub', 'clan'):
        for x, y in ([1], [1]), ([1, 1], [1]), ([2], [1]):
            yield h_laws, dict(law=law, a=mclan(x, ANY), b=mclan(y, ANY)), 300
