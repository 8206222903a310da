"""C04: multiset algebra."""
from symx import model as M
from symx.model import MS
from . import ops
from .ops import WIDE_NOTE, h_binary, h_unary, h_pred, mset, mclan

COVERS = ('single-mult', 'some-elem', 'repeat', 'has-missing')
BOUNDS = {
    'quick': 'up to 3 elements per multiset with every multiplicity >= 1 (unbounded), atom values unbounded; '
             'where the code enumerates occurrences one by one: multiplicity at most 3',
    'thorough': 'up to 4 elements per multiset; enumeration bound 5'}
BOUNDS['quick'] += WIDE_NOTE
ASSUMPTIONS = ['element kinds per position are fixed by the case; values and multiplicities are symbolic']

ANY = (1, None)


def h_laws(ctx):
    L, p = ctx.L, ctx.p
    m = L.multisets
    a, b, c = ctx.build('a', p['a']), ctx.build('b', p['b']), ctx.build('c', p['c'])
    law = p['law']
    if law == 'comm':
        ok = m.union(a, b) == m.union(b, a) and m.intersect(a, b) == m.intersect(b, a) and m.add(a, b) == m.add(b, a)
    elif law == 'assoc':
        ok = m.add(m.add(a, b), c) == m.add(a, m.add(b, c))
    elif law == 'assoc_u':
        ok = m.union(m.union(a, b), c) == m.union(a, m.union(b, c))
    elif law == 'absorb':
        ok = m.union(a, m.intersect(a, b)) == a and m.intersect(a, m.union(a, b)) == a
    elif law == 'sub_add':
        ok = m.minus(m.add(a, b), b) == a
    elif law == 'split':
        ok = m.add(m.minus(a, b), m.intersect(a, b)) == a
    ctx.check(ok, 'law ' + law)


def h_big(ctx):
    L, p = ctx.L, ctx.p
    mo = L.mo
    parts = [ctx.build('m%d' % i, s) for i, s in enumerate(p['parts'])]
    dens = [M.den(x) for x in parts]
    s = mo.Set(parts)
    kw = {} if p.get('checked', True) else {'_checked': False}
    f = {'big_union': ops.m_union, 'big_intersect': ops.m_intersect}[p['op']]
    r = getattr(L.multisets, p['op'])(s, **kw)
    want = dens[0]
    for d in dens[1:]:
        want = f(want, d)
    ctx.same(r, want, p['op'])


def h_access(ctx):
    """Multiplicity lookup, membership, cardinality, single and some."""
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    e = ctx.build('e', p['e'])
    d, de = M.den(a), M.den(e)
    n = d.get(de)
    ctx.check(a.get_multiplicity(e) == n, 'get_multiplicity')
    ctx.same(a, d, 'lookup changed the multiset')
    ctx.check(a.has_element(e) == (de in d.d), 'has_element')
    ctx.check((e in a) == (de in d.d), 'in')
    if de not in d.d:
        ctx.cover('has-missing')
    total = 0
    for v in d.d.values():
        total = total + v
    ctx.check(a.cardinality == total, 'cardinality')
    ctx.check(a.is_empty == (len(d.d) == 0), 'is_empty')
    r = L.multisets.single(a)
    if len(d.d) == 1:
        k = list(d.d)[0]
        if d.d[k] == 1:
            ctx.same(r, k, 'single')
        else:
            ctx.cover('single-mult')
            ctx.check(r is L.U, 'single of a repeated element')
    else:
        ctx.check(r is L.U, 'single of several elements')


def h_iter(ctx):
    """Iteration yields every occurrence; some picks an element; construction counts occurrences."""
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    d = M.den(a)
    seen = MS()
    for x in a:
        dx = M.den(x)
        seen.d[dx] = seen.get(dx) + 1
    ctx.check(M.veq(M.d_view(seen), M.d_view(d)), 'iteration')
    some = L.multisets.some(a)
    if len(d.d) == 0:
        ctx.check(some is L.U, 'some of the empty multiset')
    else:
        ctx.cover('some-elem')
        ctx.check(some is not L.U and M.den(some) in d.d, 'some returns an element')
    ctx.check(len(a) == sum(1 for _ in a), 'len')
    ctx.same(L.mo.Multiset(list(a)), d, 'rebuilt from its occurrences')


def h_build(ctx):
    """Constructing from a list counts equal elements."""
    L, p = ctx.L, ctx.p
    vals = [ctx.val('v%d' % i) for i in range(p['n'])]
    a = L.mo.Multiset(vals)
    want = MS()
    for v in vals:
        want.d[('A', v)] = want.get(('A', v)) + 1
    ctx.same(a, want, 'Multiset(list)')
    if len(want.d) < p['n']:
        ctx.cover('repeat')
    ctx.same(L.mo.Multiset(*vals), want, 'Multiset(*args)')


def h_demult(ctx):
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    ctx.check(L.multisets.demultify(L.sets.multify(a)) == a, 'demultify undoes multify')


def cases(tier):
    big = tier == 'thorough'
    n = 4 if big else 3
    for op in ops.BIN_MSET:
        for i in range(n + 1):
            for j in range(n + 1):
                if i + j <= (7 if big else 5):
                    yield h_binary, dict(op=op, a=mset(i, ANY), b=mset(j, ANY)), (i + j) ** 2
        yield h_binary, dict(op=op, a=mset(2, ANY), b=mset(2, ANY), checked=False)
        yield h_binary, dict(op=op, a=mset(2, ANY), b=mset(2, ANY), alias=1)
        yield h_binary, dict(op=op, a=mset(2, ANY, 'b'), b=mset(2, ANY, 'b'))
        yield h_binary, dict(op=op, a=mclan([1, 2], ANY), b=mclan([1, 1], ANY)), 10
        yield h_binary, dict(op=op, a=mset(2, ANY, ['C', 'a', 'a']), b=mset(1, ANY, ['C', 'a', 'a']))
        yield h_binary, dict(op=op, a=mset(1, ANY, ['M', ['a', [1, None]]]), b=mset(1, ANY, ['M', ['a', [1, None]]]))
        yield h_binary, dict(op=op, a=mclan([1, 1], ANY), b=mclan([1], ANY), lazy=['multiclan'])
        for a, b in ((mset(2, ANY), mset(1, ANY)), (mclan([1, 1], ANY), mclan([1], ANY)), (mset(2, ANY), mset(0))):
            yield from ops.flagged(h_binary, dict(op=op, a=a, b=b), 10, member=False)
            yield from ops.flagged(h_binary, dict(op=op, a=a, b=a, alias=1), 10)
        yield from ops.wide(h_binary, op, 'mset')
    yield from ops.wide1(h_unary, 'multisets.demultify', 'mset')
    for op in ops.PRED_MSET:
        yield from ops.wide(h_pred, op, 'mset')
    for s in (mset(2, ANY), mclan([1, 1], ANY), mclan([2], ANY)):
        yield from ops.flagged(h_unary, dict(op='multisets.demultify', a=s), 10, member=False)
    for op in ops.PRED_MSET:
        for i in range(n + 1):
            for j in range(n + 1):
                if i + j <= (7 if big else 5):
                    yield h_pred, dict(op=op, a=mset(i, ANY), b=mset(j, ANY)), (i + j) ** 2
        yield h_pred, dict(op=op, a=mset(2, ANY), b=mset(2, ANY), checked=False)
        yield h_pred, dict(op=op, a=mclan([1, 2], ANY), b=mclan([1, 1], ANY))
    for s in (mset(0), mset(2, ANY), mset(3, ANY), mclan([1, 2], ANY)):
        for c in (True, False):
            yield h_unary, dict(op='multisets.demultify', a=s, checked=c)
    for op in ('big_union', 'big_intersect'):
        for parts in ([mset(2, ANY)], [mset(1, ANY), mset(1, ANY)], [mset(2, ANY), mset(1, ANY)],
                      [mset(1, ANY), mset(1, ANY), mset(1, ANY)], [mset(2, ANY), mset(2, ANY)]):
            for c in (True, False):
                yield h_big, dict(op=op, parts=parts, checked=c), 20
    for s, e in ((mset(0), 'a'), (mset(1, ANY), 'a'), (mset(3, ANY), 'a'), (mclan([1, 2], ANY), ops.rel(1))):
        yield h_access, dict(a=s, e=e)
    k = 5 if big else 3
    for s in (mset(0), mset(1, (1, k)), mset(2, (1, k)), mset(3, (1, k - 1))):
        yield h_iter, dict(a=s)
    for i in range(1, 5 if big else 4):
        yield h_build, dict(n=i + 1)
    yield h_demult, dict(a=ops.atoms(3))
    for law in ('comm', 'assoc', 'assoc_u', 'absorb', 'sub_add', 'split'):
        yield h_laws, dict(law=law, a=mset(2, ANY), b=mset(1, ANY), c=mset(1, ANY)), 20
        yield h_laws, dict(law=law, a=mset(2, ANY), b=mset(2, ANY), c=mset(1, ANY)), 40
        yield h_laws, dict(law=law, a=mset(1, ANY), b=mset(1, ANY), c=mset(2, ANY)), 20
