"""C03: set algebra."""
from symx import model as M
from . import ops
from .ops import WIDE_NOTE, h_binary, h_unary, h_pred, atoms, rel, clan

COVERS = ('substrict-defined', 'substrict-undefined', 'restrict-partial', 'big_intersect-nonempty')
BOUNDS = {
    'quick': 'operands with up to 3 distinct-or-equal atoms, 2 couplets or 2 relations each, mixed kinds, '
             'nested sets; atom values unbounded integers or opaque strings, every equality pattern',
    'thorough': 'as quick with up to 5 atoms, 3 couplets, 3 relations per operand'}
BOUNDS['quick'] += WIDE_NOTE
ASSUMPTIONS = ['element kinds per position are fixed by the case; values are symbolic']

MIX1 = ['S', 'a', 'b', ['C', 'a', 'a']]
MIX2 = ['S', 'a', ['C', 'a', 'a'], ['S', 'a']]
NEST = ['S', ['S', ['S', 'a']], ['S', ['M', ['a', [1, None]]]]]


def h_laws(ctx):
    """Algebraic identities between the operations, over the library's own equality."""
    L, p = ctx.L, ctx.p
    s = L.sets
    a, b, c = ctx.build('a', p['a']), ctx.build('b', p['b']), ctx.build('c', p['c'])
    law = p['law']
    if law == 'comm':
        ok = s.union(a, b) == s.union(b, a) and s.intersect(a, b) == s.intersect(b, a)
    elif law == 'assoc':
        ok = s.union(s.union(a, b), c) == s.union(a, s.union(b, c))
    elif law == 'assoc_i':
        ok = s.intersect(s.intersect(a, b), c) == s.intersect(a, s.intersect(b, c))
    elif law == 'distr':
        ok = s.intersect(a, s.union(b, c)) == s.union(s.intersect(a, b), s.intersect(a, c))
    elif law == 'demorgan':
        ok = s.minus(a, s.union(b, c)) == s.intersect(s.minus(a, b), s.minus(a, c))
    elif law == 'absorb':
        ok = s.union(a, s.intersect(a, b)) == a and s.intersect(a, s.union(a, b)) == a
    elif law == 'idem':
        ok = s.union(a, a) == a and s.intersect(a, a) == a and s.minus(a, a) == L.mo.Set()
    ctx.check(ok, 'law ' + law)


def h_big(ctx):
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    d = M.den(a)
    kw = {} if p.get('checked', True) else {'_checked': False}
    f = getattr(L.sets, p['op'])
    r = f(a, **kw)
    want = {'big_union': ops.s_big_union, 'big_intersect': ops.s_big_intersect}[p['op']](d)
    ctx.same(r, want, p['op'])
    ctx.same(a, d, 'operand changed')
    if p['op'] == 'big_intersect' and len(want):
        ctx.cover('big_intersect-nonempty')


def h_restrict(ctx):
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    d = M.den(a)
    pred = ctx.fun('pred', 'bool')
    key = (lambda e: e.left.value) if p.get('couplets') else (lambda e: e.value)
    if p.get('rels'):
        def sel(r):
            return any(bool(pred(c.left.value)) for c in r)

        def want(e):
            return any(bool(pred(c[1][1])) for c in e)
    else:
        def sel(e):
            return bool(pred(key(e)))

        def want(e):
            return bool(pred(e[1][1] if p.get('couplets') else e[1]))
    r = L.sets.restrict(a, sel)
    exp = frozenset(e for e in d if want(e))
    ctx.same(r, exp, 'restrict')
    if 0 < len(exp) < len(d):
        ctx.cover('restrict-partial')


def h_pick(ctx):
    L = ctx.L
    a = ctx.build('a', ctx.p['a'])
    d = M.den(a)
    one = L.sets.single(a)
    ctx.same(one, list(d)[0] if len(d) == 1 else None, 'single')
    some = L.sets.some(a)
    if len(d) == 0:
        ctx.check(some is L.U, 'some of the empty set')
    else:
        ctx.check(some is not L.U and M.den(some) in d, 'some returns an element')


def h_has(ctx):
    """Element access: in, has_element, len, cardinality, iteration."""
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    e = ctx.build('e', p['e'])
    d, de = M.den(a), M.den(e)
    ctx.check(a.has_element(e) == (de in d), 'has_element')
    ctx.check((e in a) == (de in d), 'in')
    if e.is_atom:
        ctx.check((e.value in a) == (de in d), 'in with a raw value')
    ctx.check(len(a) == len(d) and a.cardinality == len(d), 'cardinality')
    ctx.check(a.is_empty == (len(d) == 0), 'is_empty')
    seen = [M.den(x) for x in a]
    ctx.check(len(seen) == len(d) and frozenset(seen) == d, 'iteration')


def h_strict(ctx):
    L, p = ctx.L, ctx.p
    h_binary(ctx)
    a, b = ctx.build('a', p['a']), ctx.build('b', p['b'])
    r = ops.get(L, p['op'])(a, b)
    if r is L.U:
        ctx.cover('substrict-undefined')
    else:
        ctx.cover('substrict-defined')
        ctx.check(r is a, 'the first operand itself is returned')


def cases(tier):
    big = tier == 'thorough'
    n = 4 if big else 3
    for op in ops.BIN_SET:
        for i in range(n + 1):
            for j in range(n + 1):
                yield h_binary, dict(op=op, a=atoms(i), b=atoms(j)), (i + j)
        yield h_binary, dict(op=op, a=atoms(2), b=atoms(2), alias=1)
        yield h_binary, dict(op=op, a=atoms(2, 'b'), b=atoms(2, 'b'))
        for a, b in ((rel(2), rel(2)), (clan([1, 2]), clan([1, 1])), (MIX1, MIX2), (MIX2, NEST), (atoms(2), rel(2)),
                     (rel(1), clan([1, 0])), (NEST, NEST)):
            for c in (True, False):
                yield h_binary, dict(op=op, a=a, b=b, checked=c), 8
        yield h_binary, dict(op=op, a=rel(2), b=rel(2), lazy=['relation', 'clan'])
        for a, b in ((atoms(2), atoms(2)), (rel(2), rel(1)), (rel(1), rel(2)), (clan([1, 1]), clan([1])), (MIX1, rel(1)), (atoms(0), rel(1))):
            yield from ops.flagged(h_binary, dict(op=op, a=a, b=b), 20, member=False)
        for a in (rel(2), atoms(2), clan([1, 1])):
            yield from ops.flagged(h_binary, dict(op=op, a=a, b=a, alias=1), 20)
        if big:
            yield h_binary, dict(op=op, a=rel(3), b=rel(3)), 100
            yield h_binary, dict(op=op, a=clan([2, 2]), b=clan([2, 1])), 100
            yield h_binary, dict(op=op, a=atoms(5), b=atoms(4)), 100
        yield from ops.wide(h_binary, op, 'set')
    for op in ('sets.substrict', 'sets.superstrict'):
        yield h_strict, dict(op=op, a=atoms(2), b=atoms(2))
    for op in ops.PRED_SET:
        for i in range(n + 1):
            for j in range(n + 1):
                yield h_pred, dict(op=op, a=atoms(i), b=atoms(j))
        for a, b in ((rel(2), rel(2)), (MIX1, MIX2), (clan([1, 1]), clan([1, 1])), (NEST, NEST)):
            for c in (True, False):
                yield h_pred, dict(op=op, a=a, b=b, checked=c)
        yield from ops.wide(h_pred, op, 'set')
    for op in ops.UN_SET:
        yield from ops.wide1(h_unary, op, 'set')
        for i in (5, 6):
            yield h_unary, dict(op=op, a=atoms(i, 'd')), 50
        for a in (atoms(2), rel(2), clan([1, 1])):
            yield from ops.flagged(h_unary, dict(op=op, a=a), 10, member=False)
        for s in [atoms(i) for i in range(n + 1)] + [rel(2), clan([1, 1]), MIX1, MIX2, NEST]:
            yield h_unary, dict(op=op, a=s), 3
        yield h_unary, dict(op=op, a=rel(2), lazy=['relation', 'clan'])
    for op in ('big_union', 'big_intersect'):
        for s in (['S'], ['S', atoms(2)], ['S', atoms(2), atoms(2)], ['S', atoms(1), atoms(2), atoms(2)],
                  ['S', rel(1), rel(2)], ['S', clan([1]), clan([1, 1])], ['S', ['S'], atoms(2)]):
            for c in (True, False):
                yield h_big, dict(op=op, a=s, checked=c), 10
    for s in (atoms(0), atoms(2), atoms(3)):
        yield h_restrict, dict(a=s)
    yield h_restrict, dict(a=rel(2), couplets=1)
    yield h_restrict, dict(a=rel(3), couplets=1), 10
    yield h_restrict, dict(a=clan([1, 2]), rels=1), 10
    for s in (atoms(0), atoms(1), atoms(2), rel(2), clan([1, 1])):
        yield h_pick, dict(a=s)
    for s, e in ((atoms(3), 'a'), (atoms(2), 'b'), (rel(2), ['C', 'a', 'a']), (clan([1, 2]), rel(1)),
                 (MIX2, ['S', 'a']), (NEST, ['S', ['S', 'a']]), (atoms(0), 'a')):
        yield h_has, dict(a=s, e=e)
    for law in ('comm', 'assoc', 'assoc_i', 'distr', 'demorgan', 'absorb', 'idem'):
        yield h_laws, dict(law=law, a=atoms(2), b=atoms(2), c=atoms(2)), 10
        yield h_laws, dict(law=law, a=rel(1), b=rel(1), c=rel(1)), 10
        if big:
            yield h_laws, dict(law=law, a=rel(2), b=rel(1), c=rel(1)), 30
            yield h_laws, dict(law=law, a=atoms(3), b=atoms(2), c=atoms(2)), 30
