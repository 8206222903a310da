"""C08: remembered properties of set, couplet and relation results."""
from . import ops
from .ops import WIDE_NOTE, atoms, rel, clan
from .soundness import variants, few, h_sound, GROUPS, MEMB, EXTRA

COVERS = ('defined',)
BOUNDS = {
    'quick': 'relations of up to 2 couplets per operand (3 for unary operations), clans of up to 2 relations, sets of up to 3 atoms, mixed and nested sets; values '
             'unbounded; prior knowledge: nothing, everything, or every sound subset of the queried property group with or without known algebra memberships',
    'thorough': 'relations of up to 3 couplets against 2, clans of up to 3 relations'}
BOUNDS['quick'] += WIDE_NOTE
ASSUMPTIONS = ['element kinds per position are fixed by the case; values are symbolic',
               'prior knowledge is quantified one property group at a time: a property together with those it implies and the algebra memberships']
C = ['C', 'a', 'a']


def cases(tier):
    big = tier == 'thorough'
    pairs = [(rel(1), rel(1)), (rel(2), rel(1)), (rel(1), rel(2)), (rel(2), rel(2)), (rel(1), rel(0)), (rel(0), rel(2)),
             (clan([1]), clan([1])), (clan([1, 1]), clan([1])), (clan([1]), clan([1, 1])), (clan([2]), clan([1])), (clan([1]), clan([2])), (clan([0]), clan([1])), (clan([1]), clan([0, 1])),
             (atoms(2), atoms(1)), (atoms(1), atoms(1)), (atoms(1), rel(1)), (rel(1), clan([1])), (clan([1]), rel(1)), (['S', C, 'a'], rel(1)), (['S', 'a', C], ['S', 'a']),
             (rel(1, 'b', 'a'), rel(1, 'a', 'b')), (['S', C, rel(1)], rel(1)), (['S', C, rel(1)], clan([1])), (['S', ['C', ['S', 'a'], 'a']], rel(1))]
    if big:
        pairs += [(rel(3), rel(1)), (rel(3), rel(2)), (rel(2), rel(3)), (clan([1, 1]), clan([1, 1])), (clan([2, 1]), clan([1])), (clan([2]), clan([2])), (['S', C, 'a'], ['S', C, 'a'])]
    for op in ops.BIN_SET:
        for a, b in pairs:
            yield from variants(dict(op=op, a=a, b=b))
        yield from variants(dict(op=op, a=rel(2), alias=1), unchecked=False)
        yield from variants(dict(op=op, a=clan([1, 1]), alias=1), unchecked=False)
    rp = [(rel(1), rel(1)), (rel(2), rel(1)), (rel(1), rel(2)), (rel(2), rel(2)), (rel(0), rel(1)), (rel(1), rel(0)), (['S', ['C', C, 'a']], ['S', ['C', 'a', C]])]
    if big:
        rp += [(rel(3), rel(1)), (rel(3), rel(2)), (rel(2), rel(3))]
    for op in list(ops.BIN_REL) + list(ops.REL_HELP):
        for a, b in rp:
            if op == 'relations.swap' and a == rel(2) and b == rel(2) and not big:
                continue
            yield from variants(dict(op=op, a=a, b=b), 100, limit=3 if big else 2)
        yield from variants(dict(op=op, a=rel(2), alias=1), unchecked=False)
    for op in ops.BIN_SET:
        for a, b in ops.pairs('rel') + ops.pairs('clan') + ops.pairs('set'):
            yield from few(dict(op=op, a=a, b=b))
    for op in list(ops.BIN_REL) + list(ops.REL_HELP):
        for a, b in ops.pairs('rel')[1:] if op == 'relations.swap' else ops.pairs('rel'):
            yield from few(dict(op=op, a=a, b=b))
    for t in ops.LINKS:
        for op in ('relations.transpose', 'relations.sides', 'relations.rights', 'relations.right', 'copy', 'sets.restrict', 'sets.multify'):
            yield from few(dict(op=op, a=ops.links(t)), **({} if op == 'relations.transpose' or big else dict(groups=())))
    un = [rel(0), rel(1), rel(2), rel(3), ['S', ['C', ['S', 'a'], 'a']], ['S', ['C', C, C]]]
    for op in ops.UN_REL:
        for a in un:
            yield from variants(dict(op=op, a=a))
    ss = [rel(0), rel(1), rel(2), atoms(1), atoms(2), clan([1]), clan([0]), clan([0, 1]), clan([1, 1]), ['S', C, 'a'], clan([2]), ['S', clan([1])]]
    if big:
        ss += [rel(3), clan([2, 1]), ['S', clan([1, 1])]]
    for op in ('sets.power_up', 'sets.power_set', 'sets.restrict', 'sets.multify', 'copy', 'sets.pick'):
        for a in ss:
            yield from variants(dict(op=op, a=a), unchecked=op == 'sets.multify')
    for op in ('sets.big_union', 'sets.big_intersect'):
        for a in (clan([1]), clan([1, 1]), clan([2, 1]), clan([0, 1]), ['S', clan([1]), clan([1])], ['S', atoms(1), rel(1)], ['S', ['S', 'a']], clan([])):
            yield from variants(dict(op=op, a=a), unchecked=False)
    for op in ('relations.sides', 'relations.rights', 'relations.right'):
        for a in un:
            yield from variants(dict(op=op, a=a), unchecked=False)
        yield from variants(dict(op=op, a=['S', ['C', 'a', rel(1)]]), unchecked=False)
        yield from variants(dict(op=op, a=['S', ['C', 'a', rel(1)], ['C', 'a', 'a']]), unchecked=False)
        yield from variants(dict(op=op, a=['S', ['C', 'a', C], ['C', 'a', C]]), unchecked=False)
    for a in un[:4]:
        yield from variants(dict(op='relations.functional_add', a=a, b=C), unchecked=False)
    yield from variants(dict(op='relations.functional_add', a=rel(1), b=['C', 'a', ['S', 'a']]), unchecked=False)
    for a in (C, ['C', ['S', 'a'], 'a'], ['C', C, C], ['C', rel(1), rel(1)]):
        yield from variants(dict(op='couplets.transpose', a=a), unchecked=False)
        for b in (C, ['C', 'a', C]):
            yield from variants(dict(op='couplets.compose', a=a, b=b), unchecked=False)
            yield from variants(dict(op='couplets.compose', a=b, b=a), unchecked=False)
        yield from variants(dict(op='copy', a=a), unchecked=False)
    for n in range(4):
        yield h_sound, dict(op='relations.from_dict', n=n)
        yield h_sound, dict(op='relations.diag', ms=['a'] * n)
    for ms in ([], ['a'], ['a', 'a'], [C], [C, C], [C, 'a'], [rel(1)], [rel(1), rel(1)], [rel(0)], [rel(1), C], [clan([1])], [['S', 'a'], 'b'], [['M', ['a', 1]]], [C, ['C', C, 'a']]):
        yield h_sound, dict(op='construct', ms=ms)
        if len(ms):
            yield h_sound, dict(op='relations.diag', ms=ms)
