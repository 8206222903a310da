"""C12: clan algebra extends the relation operations pairwise."""
from symx import model as M
from . import ops
from .ops import WIDE_NOTE, h_unary, clan

COVERS = ('dropped', 'lhs-kept', 'lhs-combined', 'merged')
BOUNDS = {
    'quick': 'clans of up to 3 relations with up to 3 couplets each, at most 5 couplets over both operands, including empty clans and empty relations; lefts and rights unbounded integers, opaque '
             'strings, or couplets',
    'thorough': 'at most 6 couplets over both operands'}
BOUNDS['quick'] += WIDE_NOTE
ASSUMPTIONS = ['element kinds per position are fixed by the case; values are symbolic']


def h_pairs(ctx):
    """A binary clan operation against all pairs of relations."""
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    b = a if p.get('alias') else ctx.build('b', p['b'])
    da, db = M.den(a), M.den(b)
    ctx.lazies(p, ('a', a), *([] if b is a else [('b', b)]))
    kw = {} if p.get('checked', True) else {'_checked': False}
    r = ops.get(L, p['op'])(a, b, **kw)
    want = ops.BINARY[p['op']](da, db)
    ctx.same(r, want, p['op'])
    ctx.same(a, da, p['op'] + ' left operand changed')
    ctx.same(b, db, p['op'] + ' right operand changed')
    if len(want) < len(da) * len(db):
        ctx.cover('dropped')
    if p['op'] == 'clans.lhs_cross_functional_union' and len(db):
        ctx.cover('lhs-kept' if any(all(ops.r_fu(x, y) is None for y in db) for x in da) else 'lhs-combined')
    if p['op'] == 'clans.cross_union' and len(want) == 1 and len(da) * len(db) > 1:
        ctx.cover('merged')


def h_laws(ctx):
    L, p = ctx.L, ctx.p
    c = L.clans
    a, b = ctx.build('a', p['a']), ctx.build('b', p['b'])
    law = p['law']
    if law == 'comm':
        ok = c.cross_union(a, b) == c.cross_union(b, a) and c.cross_intersect(a, b) == c.cross_intersect(b, a) \
            and c.cross_functional_union(a, b) == c.cross_functional_union(b, a)
    elif law == 'mirror':
        u = c.transpose(c.cross_functional_union(a, b))
        ok = u == c.cross_right_functional_union(c.transpose(a), c.transpose(b))
    elif law == 'involution':
        ok = c.transpose(c.transpose(a)) == a
    elif law == 'anti':
        ok = c.transpose(c.compose(a, b)) == c.compose(c.transpose(b), c.transpose(a))
    elif law == 'sub':
        ok = L.sets.is_subset_of(c.substrict(a, b), a) and L.sets.is_subset_of(c.superstrict(a, b), a)
    elif law == 'fu_in_u':
        ok = L.sets.is_subset_of(c.cross_functional_union(a, b), c.cross_union(a, b))
    ctx.check(bool(ok), 'law ' + law)


def cases(tier):
    big = tier == 'thorough'
    pairs = [([], [1]), ([1], []), ([], []), ([0], [1]), ([1], [0]), ([1], [1]), ([1, 1], [1]), ([1], [1, 1]), ([1, 1], [1, 1]),
             ([2], [1]), ([1], [2]), ([0, 1], [1]), ([1], [0, 1]), ([2, 1], [1]), ([1], [2, 1]), ([2], [2]),
             ([2], [1, 1]), ([1, 1], [2]), ([1, 1, 1], [1]), ([0], [2]), ([2], [0]), ([0, 1], [2]), ([0, 2], [1]), ([0], [1, 1]), ([0], [2, 1]), ([2, 1], [1, 1]), ([1, 1], [2, 1]), ([2, 1], [2]), ([3], [2]), ([2, 2], [1])]
    if big:
        pairs += [([1, 1, 1], [1, 1]), ([1, 1], [1, 1, 1]), ([2, 2], [1, 1]), ([2, 1], [2, 1]), ([2, 2], [2]), ([3], [3]), ([3, 1], [1, 1])]
    for op in ops.BIN_CLAN:
        for x, y in pairs:
            yield h_pairs, dict(op=op, a=clan(x), b=clan(y)), 5 ** (sum(x) + sum(y))
        for x, y in ([1, 1], [1]), ([2], [1]), ([0, 1], [1]):
            yield h_pairs, dict(op=op, a=clan(x), b=clan(y), checked=False), 5 ** 3
            yield h_pairs, dict(op=op, a=clan(y), b=clan(x), checked=False), 5 ** 3
        yield h_pairs, dict(op=op, a=clan([1, 1]), b=clan([1]), alias=1)
        yield h_pairs, dict(op=op, a=clan([2]), b=clan([1]), alias=1)
        yield h_pairs, dict(op=op, a=clan([1, 1], 'b', 'b'), b=clan([1], 'b', 'b')), 100
        yield h_pairs, dict(op=op, a=clan([1, 1], 'b', 'a'), b=clan([1], 'b', 'a')), 100
        yield h_pairs, dict(op=op, a=clan([1], ['C', 'a', 'a'], 'a'), b=clan([1], ['C', 'a', 'a'], 'a'))
        yield h_pairs, dict(op=op, a=clan([1, 1], 'a', ['S', 'a']), b=clan([1], 'a', ['S', 'a'])), 100
        for f in ('functional', 'right_functional', 'regular'):
            yield h_pairs, dict(op=op, a=clan([2]), b=clan([1]), known=['clan'], lazy=[f]), 50
            yield h_pairs, dict(op=op, a=clan([1]), b=clan([2]), known=['relation'], deep=True, lazy=[f]), 50
        for x, y in ([2], [1]), ([1], [2]), ([1, 1], [1]), ([0], [2]), ([0, 1], [1]):
            yield from ops.flagged(h_pairs, dict(op=op, a=clan(x), b=clan(y)), 50)
        yield from ops.flagged(h_pairs, dict(op=op, a=clan([1, 1]), b=clan([1]), alias=1), 50)
        yield from ops.flagged(h_pairs, dict(op=op, a=clan([2]), b=clan([1]), alias=1), 50)
        yield from ops.wide(h_pairs, op, 'clan')
    yield from ops.wide1(h_unary, 'clans.transpose', 'clan')
    for s in ([], [0], [1], [2], [1, 1], [2, 1], [0, 1], [3]):
        for c in (True, False):
            yield h_unary, dict(op='clans.transpose', a=clan(s), checked=c), 5 ** sum(s)
    yield h_unary, dict(op='clans.transpose', a=clan([1, 1], 'b', 'a'))
    for s in ([], [0], [2], [1, 1], [2, 1], [0, 1]):
        yield from ops.flagged(h_unary, dict(op='clans.transpose', a=clan(s)), 4 ** sum(s))
        for f in ('reflexive', 'symmetric', 'transitive', 'functional', 'regular'):
            if sum(s) < 3:
                yield h_unary, dict(op='clans.transpose', a=clan(s), lazy=[f], deep=True), 4 ** sum(s)
    for law in ('comm', 'mirror', 'involution', 'anti', 'sub', 'fu_in_u'):
        for x, y in ([1], [1]), ([1, 1], [1]), ([2], [1]):
            yield h_laws, dict(law=law, a=clan(x), b=clan(y)), 300
