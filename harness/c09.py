"""C09: remembered properties of clan results."""
from . import ops
from .ops import WIDE_NOTE, rel, clan
from .soundness import variants, few, h_sound

COVERS = ('defined',)
BOUNDS = {
    'quick': 'clans of up to 3 relations with up to 3 couplets per clan and 4 over both operands, including empty clans and empty relations, values '
             'unbounded; prior knowledge: nothing, everything, or every sound subset of the queried property group for the clan (and, for small clans, for its relations too)',
    'thorough': 'up to 5 couplets over both operands'}
BOUNDS['quick'] += WIDE_NOTE
ASSUMPTIONS = ['element kinds per position are fixed by the case; values are symbolic',
               'prior knowledge is quantified one property group at a time: a property together with those it implies and the algebra memberships']


def cases(tier):
    big = tier == 'thorough'
    pairs = [([1], [1]), ([1], [0]), ([0], [1]), ([], [1]), ([1], []), ([1, 1], [1]), ([1], [1, 1]), ([2], [1]), ([1], [2]), ([0, 1], [1]), ([1], [0, 1]), ([0], [0]),
             ([1, 1], [1, 1]), ([2], [2]), ([2, 1], [1]), ([1], [2, 1]), ([2], [1, 1]), ([1, 1], [2])]
    if big:
        pairs += [([1, 1, 1], [1]), ([1, 1, 1], [1, 1]), ([2, 1], [1, 1]), ([2, 2], [1]), ([2, 1], [2]), ([1, 1], [2, 1]), ([3], [2]), ([3], [1, 1])]
    for op in ops.BIN_CLAN:
        for x, y in pairs:
            n = sum(x) + sum(y)
            yield from variants(dict(op=op, a=clan(x), b=clan(y)), deep=n <= (3 if big else 2), limit=3 if big else 2)
        yield from variants(dict(op=op, a=clan([1, 1]), alias=1), unchecked=False, limit=2)
        yield from variants(dict(op=op, a=clan([2]), alias=1), unchecked=False, limit=2)
        yield from variants(dict(op=op, a=clan([1], ['S', 'a'], 'a'), b=clan([1], 'a', ['S', 'a'])), unchecked=False, limit=2)
        for a, b in ops.pairs('clan'):
            yield from few(dict(op=op, a=a, b=b))
    for ts in ops.LINKED:
        for op in ('clans.transpose', 'clans.sides', 'clans.index', 'clans.project', 'clans.defined_at'):
            yield from few(dict(op=op, a=['S'] + [ops.links(t) for t in ts]), **({} if op == 'clans.transpose' or big else dict(groups=())))
    un = [[], [0], [1], [2], [0, 1], [1, 1], [2, 1], [1, 1, 1], [3]] + ([[2, 2], [2, 1, 1]] if big else [])
    for x in un:
        yield from variants(dict(op='clans.transpose', a=clan(x)), deep=sum(x) < 3)
        for op in ('clans.sides', 'clans.index', 'clans.project', 'clans.defined_at'):
            yield from variants(dict(op=op, a=clan(x)), unchecked=False, deep=sum(x) < 3, limit=2)
    yield from variants(dict(op='clans.project2', a=clan([2])), unchecked=False)
    yield from variants(dict(op='clans.project2', a=clan([1, 1])), unchecked=False)
    for op in ('clans.transpose', 'clans.sides', 'clans.index', 'clans.project', 'clans.defined_at', 'copy'):
        yield from variants(dict(op=op, a=clan([1, 1], ['C', 'a', 'a'], 'a')), unchecked=False, limit=2)
        yield from variants(dict(op=op, a=clan([1], 'a', rel(1))), unchecked=False, limit=2)
    for n in range(4):
        for op in ('clans.from_dict', 'clans.from_set', 'clans.diag'):
            yield h_sound, dict(op=op, n=n)
