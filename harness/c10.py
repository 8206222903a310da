"""C10: remembered properties of multiset and multiclan results."""
from . import ops
from .ops import WIDE_NOTE, atoms, rel, clan, mclan, mset
from .soundness import variants, few, h_sound

COVERS = ('defined',)
BOUNDS = {
    'quick': 'multisets of up to 2 elements, multiclans of up to 3 relations with up to 3 couplets per multiclan and 4 over both operands (3 for the cross '
             'operations), values and multiplicities unbounded (1..2 where the code iterates over occurrences); prior knowledge: nothing, everything, or every sound '
             'subset of the queried property group (for small operands also of their elements)',
    'thorough': 'up to 5 couplets over both operands'}
BOUNDS['quick'] += WIDE_NOTE
ASSUMPTIONS = ['element kinds per position are fixed by the case; values are symbolic',
               'prior knowledge is quantified one property group at a time: a property together with those it implies and the algebra memberships']
C = ['C', 'a', 'a']


def cases(tier):
    big = tier == 'thorough'
    lim = 3 if big else 2
    pairs = [([1], [1]), ([1], [0]), ([0], [1]), ([], [1]), ([1], []), ([1, 1], [1]), ([1], [1, 1]), ([2], [1]), ([1], [2]), ([0, 1], [1]), ([1], [0, 1])]
    pairs4 = [([1, 1], [1, 1]), ([2], [2]), ([2, 1], [1]), ([1], [2, 1])]
    if big:
        pairs4 += [([1, 1, 1], [1]), ([2, 1], [1, 1]), ([2], [1, 1]), ([1, 1], [2]), ([1, 1], [2, 1]), ([2, 1], [2])]
    for op in ops.BIN_MSET:
        for x, y in pairs + pairs4:
            yield from variants(dict(op=op, a=mclan(x), b=mclan(y)), deep=sum(x) + sum(y) <= lim, limit=lim)
        for a, b in ((mset(1), mset(1)), (mset(2), mset(1)), (mset(1), mset(2)), (mset(1), mclan([1])), (mclan([1]), mset(1)), (mset(1, k=C), mset(1, k=C)),
                     (['M', [C, [1, None]], [rel(1), [1, None]]], mclan([1])), (['M', ['a', [1, None]], [rel(1), [1, None]]], mclan([1])), (mset(1, k=['S', 'a']), mset(1))):
            yield from variants(dict(op=op, a=a, b=b), limit=lim)
        yield from variants(dict(op=op, a=mclan([1, 1]), alias=1), unchecked=False, limit=lim)
    for op in ops.BIN_MCLAN:
        for x, y in pairs + (pairs4 if big else pairs4[:1] + pairs4[2:3]):
            yield from variants(dict(op=op, a=mclan(x), b=mclan(y)), deep=sum(x) + sum(y) <= lim, limit=lim)
        yield from variants(dict(op=op, a=mclan([1, 1]), alias=1), unchecked=False, limit=lim)
        yield from variants(dict(op=op, a=mclan([2]), alias=1), unchecked=False, limit=lim)
        for a, b in ops.pairs('mclan'):
            yield from few(dict(op=op, a=a, b=b))
    for op in ops.BIN_MSET:
        for a, b in ops.pairs('mclan'):
            yield from few(dict(op=op, a=a, b=b))
    for ts in ops.LINKED:
        for op in ('multiclans.transpose', 'multisets.demultify', 'multiclans.sides', 'multiclans.rights', 'multiclans.project', 'multiclans.defined_at'):
            yield from few(dict(op=op, a=['M'] + [[ops.links(t), 2 - i % 2 if op in ('multiclans.sides', 'multiclans.rights', 'multiclans.defined_at') else [1, None]] for i, t in enumerate(ts)]))
    un = [[], [0], [1], [2], [0, 1], [1, 1], [2, 1], [3]] + ([[1, 1, 1], [2, 2]] if big else [])
    for x in un:
        n = sum(x)
        yield from variants(dict(op='multiclans.transpose', a=mclan(x)), deep=n < 3, limit=lim)
        yield from variants(dict(op='multisets.demultify', a=mclan(x)), deep=n < 3, limit=lim)
        m = mclan(x, (1, 2))
        for op in ('multiclans.sides', 'multiclans.rights', 'multiclans.defined_at', 'multiclans.slice', 'multisets.pick', 'copy'):
            yield from variants(dict(op=op, a=m), unchecked=False, deep=n < 3, limit=lim)
        yield from variants(dict(op='multiclans.project', a=mclan(x)), unchecked=False, deep=n < 3, limit=lim)
        yield from variants(dict(op='extension.umulti', a=mclan(x)), unchecked=False, limit=lim)
        if n < 4:
            for op in ('partition.partition', 'partition.labeled'):
                yield from variants(dict(op=op, a=mclan(x)), unchecked=False, deep=n < 3, limit=lim)
                yield from variants(dict(op=op, a=clan(x)), unchecked=False, deep=n < 3, limit=lim)
    for a in (rel(1), rel(2), atoms(2), ['S', C, rel(1)], ['S', 'a', rel(1)], mset(2), mset(2, k=C), ['M', [C, [1, None]], [rel(1), [1, None]]], ['M', ['a', 1], [rel(1), 1]], clan([0])):
        for op in ('partition.partition', 'partition.labeled'):
            yield from variants(dict(op=op, a=a), unchecked=False, limit=lim)
    for op in ('multisets.big_union', 'multisets.big_intersect'):
        for a in (['S', mclan([1])], ['S', mclan([1]), mclan([1])], ['S', mclan([1, 1]), mclan([1])], ['S', mset(1), mset(1)], ['S', mset(1), mclan([1])], ['S', mset(2)]):
            yield from variants(dict(op=op, a=a), unchecked=False, deep=True, limit=2)
    for a in (mset(1), mset(2), mset(1, k=C), mset(2, k=C), ['M', [C, [1, None]], [rel(1), [1, None]]], ['M', ['a', 1], [rel(1), 1]], mset(1, k=['S', 'a'])):
        yield from variants(dict(op='multisets.demultify', a=a), limit=lim)
        yield from variants(dict(op='multisets.index', a=a), unchecked=False, limit=lim)
        yield from variants(dict(op='copy', a=a), unchecked=False, limit=lim)
        yield from variants(dict(op='extension.umulti', a=a), unchecked=False, limit=lim)
    for a in (rel(0), rel(1), rel(2), atoms(1), atoms(2), clan([]), clan([0]), clan([1]), clan([1, 1]), clan([2]), clan([2, 1]), clan([0, 1]), ['S', C, rel(1)], ['S', clan([1])]):
        yield from variants(dict(op='sets.multify', a=a), deep=True, limit=lim)
    for n in range(4):
        for op in ('multiclans.from_dict', 'multiclans.diag'):
            yield h_sound, dict(op=op, n=n)
