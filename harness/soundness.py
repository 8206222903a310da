"""Common driver of C08, C09 and C10: run an operation on operands with symbolic contents and symbolic
prior knowledge; every property state known afterwards, anywhere in results and operands, must be true."""
from symx import model as M
from . import ops

GROUPS = (['relation'], ['clan'], ['multiclan'], ['absolute'], ['functional', 'regular'],
          ['right_functional', 'right_regular'], ['reflexive'], ['symmetric'], ['transitive'])
MEMB = ['relation', 'clan', 'multiclan']
ALL = list(M.FIELDS)


def _select(ctx, a):
    """A selector that keeps an arbitrary, solver-chosen part of the elements."""
    es = list(a.data)
    keep = [ctx.bool('sel%d' % i) for i in range(len(es))]

    def sel(e):
        for x, k in zip(es, keep):
            if x is e:
                return bool(k)
        return False
    return sel


def _classes(ctx, a):
    """A class function that assigns an arbitrary class value to every element."""
    es = list(a.data)
    cls = [ctx.val('cls%d' % i) for i in range(len(es))]

    def f(e):
        for x, k in zip(es, cls):
            if x is e:
                return k
        raise AssertionError('class function called with a foreign element')
    return f


def _k(ctx):
    return ctx.build('k', ctx.p.get('k', 'a'))


def _dict(ctx):
    n = ctx.p.get('n', 2)
    return dict((ctx.val('x%d' % i), ctx.val('y%d' % i)) for i in range(n))


def _vals(ctx):
    return [ctx.val('x%d' % i) for i in range(ctx.p.get('n', 2))]


def _mos(ctx):
    return [ctx.build('m%d' % i, s) for i, s in enumerate(ctx.p.get('ms', ['a', 'a']))]


EXTRA = {
    'sets.restrict': lambda L, ctx, a: [L.sets.restrict(a, _select(ctx, a))],
    'sets.big_union': lambda L, ctx, a: [L.sets.big_union(a)],
    'sets.big_intersect': lambda L, ctx, a: [L.sets.big_intersect(a)],
    'sets.pick': lambda L, ctx, a: [L.sets.single(a), L.sets.some(a)],
    'relations.sides': lambda L, ctx, a: [L.relations.get_lefts(a), L.relations.get_rights(a), a.get_left_set(), a.get_right_set()],
    'relations.rights': lambda L, ctx, a: [L.relations.get_rights_for_left(a, _k(ctx)), a[_k(ctx)], L.relations.defined_at(a, _k(ctx))],
    'relations.right': lambda L, ctx, a: [L.relations.get_right(a, _k(ctx)), L.relations.get_left(a, _k(ctx)), a(_k(ctx))],
    'relations.functional_add': lambda L, ctx, a, b: [L.relations.functional_add(a, b)],
    'relations.from_dict': lambda L, ctx: [L.relations.from_dict(_dict(ctx))],
    'relations.diag': lambda L, ctx: [L.relations.diag(*_mos(ctx)), L.relations.diag(*_mos(ctx), _checked=False)],
    'couplets.transpose': lambda L, ctx, a: [L.couplets.transpose(a)],
    'couplets.compose': lambda L, ctx, a, b: [L.couplets.compose(a, b)],
    'construct': lambda L, ctx: [L.mo.Set(*_mos(ctx)), L.mo.Set(_mos(ctx), direct_load=True), L.mo.Multiset(_mos(ctx)), L.mo.Couplet(*(_mos(ctx) * 2)[:2]),
                                 L.mo.Couplet(_mos(ctx)[0]), L.mo.Couplet(*(_mos(ctx) * 2)[:2], direct_load=True)] if _mos(ctx) else [L.mo.Set(), L.mo.Multiset()],
    'copy': lambda L, ctx, a: [L.mo.Set(a), L.mo.Set([a]), L.mo.Set(a, a), L.mo.Multiset(a), L.mo.Multiset([a, a]), L.mo.Couplet(a), __import__('copy').copy(a)],
    'clans.sides': lambda L, ctx, a: [L.clans.get_lefts(a), L.clans.get_rights(a), a.get_left_set(), a.get_right_set()],
    'clans.index': lambda L, ctx, a: [a[_k(ctx)]],
    'clans.project': lambda L, ctx, a: [L.clans.project(a, _k(ctx))],
    'clans.project2': lambda L, ctx, a: [L.clans.project(a, _k(ctx), ctx.build('k2', 'a'))],
    'clans.defined_at': lambda L, ctx, a: [L.clans.defined_at(a, _k(ctx))],
    'clans.from_dict': lambda L, ctx: [L.clans.from_dict(_dict(ctx))],
    'clans.from_set': lambda L, ctx: [L.clans.from_set(ctx.val('l'), *_vals(ctx))],
    'clans.diag': lambda L, ctx: [L.clans.diag(*_vals(ctx))],
    'multiclans.sides': lambda L, ctx, a: [L.multiclans.get_lefts(a), L.multiclans.get_rights(a), a.get_left_set(), a.get_right_set()],
    'multiclans.rights': lambda L, ctx, a: [L.multiclans.get_rights_for_left(a, _k(ctx)), a[_k(ctx)]],
    'multiclans.project': lambda L, ctx, a: [L.multiclans.project(a, _k(ctx))],
    'multiclans.defined_at': lambda L, ctx, a: [L.multiclans.defined_at(a, _k(ctx))],
    'multiclans.from_dict': lambda L, ctx: [L.multiclans.from_dict(_dict(ctx))],
    'multiclans.diag': lambda L, ctx: [L.multiclans.diag(*_vals(ctx))],
    'multiclans.slice': lambda L, ctx, a: [L.multiclans.order_slice(a, lambda x, y: L.mo.Atom(False), ctx.int('off', 0, 2), ctx.int('lim', 0, 3))],
    'multisets.big_union': lambda L, ctx, a: [L.multisets.big_union(a)],
    'multisets.big_intersect': lambda L, ctx, a: [L.multisets.big_intersect(a)],
    'multisets.pick': lambda L, ctx, a: [L.multisets.single(a), L.multisets.some(a)],
    'multisets.index': lambda L, ctx, a: [a[_k(ctx)]],
    'partition.partition': lambda L, ctx, a: [L.partition.partition(a, _classes(ctx, a))],
    'partition.labeled': lambda L, ctx, a: [L.partition.make_labeled_partition(a, _classes(ctx, a))],
    'extension.unary': lambda L, ctx, a: [L.extension.unary_extend(a, L.couplets.transpose)],
    'extension.umulti': lambda L, ctx, a: [L.extension.unary_multi_extend(a, lambda e: e)],
}


def h_sound(ctx):
    L, p = ctx.L, ctx.p
    objs = []
    for n in ('a', 'b'):
        if n in p:
            objs.append((n, ctx.build(n, p[n])))
    if p.get('alias'):
        objs.append(('b', objs[0][1]))
    views = [M.view(o) for n, o in objs]
    for i, (n, o) in enumerate(objs):
        if i and o is objs[0][1]:
            continue
        ctx.lazies(p, (n, o))
    args = [o for n, o in objs]
    if p['op'] in EXTRA:
        rs = EXTRA[p['op']](L, ctx, *args)
    else:
        kw = {} if p.get('checked', True) else {'_checked': False}
        rs = [ops.get(L, p['op'])(*args, **kw)]
    fields = p.get('fields')
    for r in rs:
        ctx.check(r is not None, 'an operation returned nothing')
        if r is not L.U:
            ctx.sound(r, p['op'] + ' result', fields)
            ctx.cover('defined')
    for (n, o), v in zip(objs, views):
        ctx.sound(o, p['op'] + ' operand ' + n, fields)
        ctx.check(M.veq(M.view(o), v), p['op'] + ' changed operand ' + n)


def size(shape):
    """Number of couplets and of other leaves in a shape."""
    if isinstance(shape, str):
        return 1
    if shape[0] == 'C':
        return 1
    if shape[0] == 'M':
        return sum(size(e[0]) for e in shape[1:])
    return sum(size(e) for e in shape[1:])


def variants(base, w=50, groups=GROUPS, deep=False, unchecked=True, limit=3):
    """The prior-knowledge variants of one operation on one combination of shapes."""
    n = sum(size(base[k]) for k in ('a', 'b') if k in base)
    w = w * 4 ** n
    yield h_sound, dict(base), w
    yield h_sound, dict(base, known=ALL, deep=True), w
    if unchecked:
        yield h_sound, dict(base, known=ALL, checked=False), w
    for g in groups:
        if g[0] in MEMB:
            yield h_sound, dict(base, lazy=g, fields=MEMB + ['absolute']), w
        else:
            yield h_sound, dict(base, known=MEMB, lazy=g, fields=g, deep=deep), w * 2
            if n <= limit:
                yield h_sound, dict(base, lazy=MEMB + g, fields=g), w * 3


def few(base, w=200, groups=(['functional', 'regular'], ['right_functional', 'right_regular'])):
    """Some variants for larger operands: nothing known, everything known, one group in every sound combination."""
    yield h_sound, dict(base), w
    yield h_sound, dict(base, known=ALL, deep=True), w
    for g in groups:
        yield h_sound, dict(base, known=MEMB, lazy=g, fields=g), w
