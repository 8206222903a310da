"""C07: property predicates report the true property."""
from symx import model as M
from . import ops
from .ops import WIDE_NOTE, rel, clan, mclan

PREDS = {'is_functional': ['functional'], 'is_right_functional': ['right_functional'],
         'is_bijective': ['functional', 'right_functional'], 'is_reflexive': ['reflexive'], 'is_symmetric': ['symmetric'],
         'is_transitive': ['transitive'], 'is_equivalence_relation': ['reflexive', 'symmetric', 'transitive'],
         'is_regular': ['regular'], 'is_right_regular': ['right_regular']}
IMPL = {'regular': ['regular', 'functional'], 'right_regular': ['right_regular', 'right_functional']}
COVERS = ['%s:%s' % (p, v) for p in PREDS for v in ('true', 'false', 'undef')]
BOUNDS = {
    'quick': 'relations of up to 3 couplets, clans and multiclans of up to 3 relations with up to 4 couplets, sets of up to 2 clans (3 couplets), two more power set levels, '
             'atoms, couplets and mixed sets; values and multiplicities unbounded; prior knowledge: every sound combination of the queried '
             'property, what it implies and the algebra memberships, for the object and its relations',
    'thorough': 'relations of up to 4 couplets, clans and multiclans of up to 5 couplets, sets of up to 3 clans'}
BOUNDS['quick'] += WIDE_NOTE
ASSUMPTIONS = ['element kinds per position are fixed by the case; values are symbolic']


def want(v, pred):
    fs = [M.v_prop(v, f) for f in PREDS[pred]]
    if len(fs) > 1 and v[0] == 'C':
        fs = [None]
    return None if any(f is None for f in fs) else M.conj(fs)


def h_pred(ctx):
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    v = M.view(a)
    if p.get('lazy'):
        ctx.lazy(a, 'a', p['lazy'], True)
    if p.get('known'):
        ctx.set_known(a, p['known'], True)
    pred = p['pred']
    kw = {} if p.get('checked', True) else {'_checked': False}
    alg = {'general': L.properties, 'relations': L.relations, 'clans': L.clans, 'multiclans': L.multiclans, 'couplets': L.couplets}[p['alg']]
    fn = getattr(alg, pred)
    for again in ('', ' (asked again)'):
        r = fn(a, **kw)
        w = want(v, pred)
        if w is None:
            ctx.check(r is L.U, pred + ': expected undefined' + again)
        else:
            ctx.check(r is not L.U, pred + ': undefined, expected an answer' + again)
            ctx.check(M.iff(bool(r), w), pred + ' is not the truth' + again)
    ctx.cover('%s:%s' % (pred, 'undef' if r is L.U else 'true' if r else 'false'))
    ctx.sound(a, pred, PREDS[pred])


def h_agree(ctx):
    """The general and the algebra-specific predicate agree on separate equal objects."""
    L, p = ctx.L, ctx.p
    a, b = ctx.build('a', p['a']), ctx.build('a', p['a'])
    fn = getattr(getattr(L, p['alg']), p['pred'])
    r, s = fn(a), getattr(L.properties, p['pred'])(b)
    ctx.check(bool(r) == bool(s), 'general and specific ' + p['pred'] + ' disagree')


def cases(tier):
    big = tier == 'thorough'
    C = ['C', 'a', 'a']
    spec_r = ('is_functional', 'is_right_functional', 'is_reflexive', 'is_symmetric', 'is_transitive')
    rsz = range(5 if big else 4)
    csz = [[], [0], [1], [2], [0, 1], [1, 1], [2, 1], [1, 1, 1], [2, 2], [3], [3, 1]] + ([[2, 2, 1], [3, 2], [4]] if big else [])
    for pred, fields in PREDS.items():
        lz = []
        for f in fields:
            lz += IMPL.get(f, [f])
        for n in rsz:
            yield h_pred, dict(pred=pred, alg='general', a=rel(n)), 8 ** n
            if pred in spec_r:
                yield h_pred, dict(pred=pred, alg='relations', a=rel(n)), 8 ** n
                yield h_pred, dict(pred=pred, alg='relations', a=rel(n), checked=False), 8 ** n
        for l, r in (('b', 'b'), (['C', 'a', 'a'], ['C', 'a', 'a']), (['S', 'a'], ['S', 'a']), (['S', 'a', 'a'], 'a')):
            yield h_pred, dict(pred=pred, alg='general', a=rel(2, l, r)), 50
            yield h_pred, dict(pred=pred, alg='general', a=clan([1, 1], l, r)), 50
            yield h_pred, dict(pred=pred, alg='general', a=mclan([1, 1], (1, None), l, r)), 50
        for cs in csz:
            w = 6 ** sum(cs)
            yield h_pred, dict(pred=pred, alg='general', a=clan(cs)), w
            yield h_pred, dict(pred=pred, alg='general', a=mclan(cs)), w
            if pred in spec_r or 'regular' in pred:
                for ch in (True, False):
                    if len(cs) or ch:
                        yield h_pred, dict(pred=pred, alg='clans', a=clan(cs), checked=ch), w
                        yield h_pred, dict(pred=pred, alg='multiclans', a=mclan(cs), checked=ch), w
        if pred in spec_r:
            yield h_agree, dict(pred=pred, alg='relations', a=rel(2))
        if pred in spec_r or 'regular' in pred:
            yield h_agree, dict(pred=pred, alg='clans', a=clan([2, 1]))
            yield h_agree, dict(pred=pred, alg='multiclans', a=mclan([2, 1]))
        for t in ops.LINKS:
            yield h_pred, dict(pred=pred, alg='general', a=ops.links(t)), 300
            if pred in spec_r:
                yield h_pred, dict(pred=pred, alg='relations', a=ops.links(t)), 300
        for ts in ops.LINKED:
            rs = [ops.links(t) for t in ts]
            for alg in ('general', 'clans') if pred in spec_r or 'regular' in pred else ('general',):
                yield h_pred, dict(pred=pred, alg=alg, a=['S'] + rs), 300
                yield h_pred, dict(pred=pred, alg=alg.replace('clans', 'multiclans'), a=['M'] + [[r, [1, None]] for r in rs]), 300
        # prior knowledge
        many = len(lz) > 2
        for extra in ([],) if many else ([], ['relation'], ['clan', 'relation', 'multiclan']):
            yield h_pred, dict(pred=pred, alg='general', a=rel(2), lazy=lz + extra), 100
            yield h_pred, dict(pred=pred, alg='general', a=clan([2]), lazy=lz + extra), 100
            yield h_pred, dict(pred=pred, alg='general', a=clan([1, 1]), lazy=lz + extra), 100
            yield h_pred, dict(pred=pred, alg='general', a=mclan([1, 1]), lazy=lz + extra), 100
            if not extra:
                yield h_pred, dict(pred=pred, alg='general', a=clan([2, 1]), lazy=lz), 500
                yield h_pred, dict(pred=pred, alg='general', a=mclan([2, 1]), lazy=lz), 500
            if not extra and not many:
                yield h_pred, dict(pred=pred, alg='general', a=['S', clan([1]), clan([1])], lazy=lz), 300
        for a in (rel(2), clan([1, 1]), mclan([2]), ['S', clan([1]), clan([1])]):
            yield h_pred, dict(pred=pred, alg='general', a=a, known=['relation', 'clan', 'multiclan', 'absolute']), 50
            for f in lz:
                yield h_pred, dict(pred=pred, alg='general', a=a, known=[f]), 50
        # other kinds of objects: power sets of clans, atoms, couplets, mixtures
        for a in ('a', 'b', C, ['C', 'b', 'b'], ['C', ['S', 'a'], ['S', 'a']], ['S', 'a'], ['S', 'a', C], ['S', C, 'a'], ['S', C, ['S', C]], ['S', ['S', C], C], ['S', ['S', 'a']],
                  ['S', ['S', C], ['S', 'a']], ['M', ['a', 1]], ['M', [C, 2]], ['M', [C, 1], ['a', 1]], ['M', [['S', 'a'], 1]], ['M', [clan([1]), 1]],
                  ['S', clan([1])], ['S', clan([1]), clan([1])], ['S', clan([1, 1])], ['S', clan([1, 1]), clan([1])], ['S', clan([2]), clan([1])],
                  ['S', ['S', clan([1])]], ['S', ['S', clan([1])], ['S', clan([1])]], ['S', ['S', ['S', clan([1])]]], ['S', ['M', [rel(1), 1]]], ['S', ['S', clan([2]), clan([1])]]) + \
                ((['S', clan([1, 1]), clan([1, 1])], ['S', clan([1]), clan([1]), clan([1])], ['S', clan([2, 1]), clan([1])]) if big else ()):
            yield h_pred, dict(pred=pred, alg='general', a=a), 100
            yield h_pred, dict(pred=pred, alg='general', a=a, checked=False), 100
        for alg, a in (('relations', clan([1])), ('relations', 'a'), ('relations', C), ('relations', ['M', [C, 1]]), ('clans', rel(1)), ('clans', mclan([1])),
                       ('clans', ['S', ['S', 'a']]), ('multiclans', clan([1])), ('multiclans', ['M', [C, 1]]), ('couplets', 'a'), ('couplets', C), ('couplets', rel(1))):
            if (alg == 'relations' and pred in spec_r) or (alg in ('clans', 'multiclans') and (pred in spec_r or 'regular' in pred)) or (alg == 'couplets' and pred == 'is_reflexive'):
                yield h_outside, dict(pred=pred, alg=alg, a=a)
        for x in (5, 'x', None, [1]):
            yield h_notmo, dict(pred=pred, x=x)


def h_outside(ctx):
    """A specific predicate outside its algebra is undefined."""
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    v = M.view(a)
    r = getattr(getattr(L, p['alg']), p['pred'])(a)
    if p['alg'] == 'couplets' and v[0] == 'C':
        ctx.check(M.iff(bool(r), M.veq(v[1], v[2])), 'couplets.is_reflexive')
    else:
        ctx.check(r is L.U, 'undefined outside the algebra')


def h_notmo(ctx):
    ctx.check(getattr(ctx.L.properties, ctx.p['pred'])(ctx.p['x']) is ctx.L.U, 'undefined for what is not a data object')
