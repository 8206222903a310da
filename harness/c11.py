"""C11: answers do not depend on what was asked or computed before."""
from symx import model as M
from .ops import atoms, rel, clan, mclan, mset

COVERS = ('value', 'truth', 'undef')
BOUNDS = {
    'quick': 'objects of up to 3 couplets (relations, clans, multiclans, mixed sets and multisets, couplets); (1) all histories of one query or operation out of the whole list, and all '
             'histories of two out of the state-changing ones, followed by any query; (2) the inductive step for histories of any length: any query '
             'from every sound combination of remembered properties of the object, after any indexing or call; values unbounded',
    'thorough': 'all histories of two out of the whole list and of three state-changing ones'}
ASSUMPTIONS = ['element kinds per position are fixed by the case; values are symbolic',
               'the inductive step uses that operations leave only true remembered properties behind, which C08, C09 and C10 decide']

PRED = ('is_functional', 'is_right_functional', 'is_bijective', 'is_reflexive', 'is_symmetric', 'is_transitive', 'is_equivalence_relation', 'is_regular', 'is_right_regular')
ALG = ('couplets', 'sets', 'relations', 'clans', 'multisets', 'multiclans')

Q = {}
for _p in PRED:
    Q['p.' + _p] = lambda L, o, b, k, _p=_p: getattr(L.properties, _p)(o)
for _a in ALG:
    Q['m.' + _a] = lambda L, o, b, k, _a=_a: getattr(L, _a).is_member(o)
    Q['am.' + _a] = lambda L, o, b, k, _a=_a: getattr(L, _a).is_absolute_member(o)
for _a, _p in (('relations', 'is_functional'), ('relations', 'is_right_functional'), ('relations', 'is_symmetric'), ('relations', 'is_transitive'), ('relations', 'is_reflexive'),
               ('clans', 'is_functional'), ('clans', 'is_regular'), ('clans', 'is_right_regular'), ('clans', 'is_symmetric'),
               ('multiclans', 'is_functional'), ('multiclans', 'is_regular'), ('multiclans', 'is_right_regular'), ('multiclans', 'is_transitive')):
    Q['s.%s.%s' % (_a, _p)] = lambda L, o, b, k, _a=_a, _p=_p: getattr(getattr(L, _a), _p)(o)
Q.update({
    'lefts': lambda L, o, b, k: o.get_left_set(),
    'rights': lambda L, o, b, k: o.get_right_set(),
    'ground': lambda L, o, b, k: ('text', str(o.get_ground_set())),
    'hash': lambda L, o, b, k: hash(o) if not M_SYM else o.__hash__(),
    'eq': lambda L, o, b, k: o == b,
    'len': lambda L, o, b, k: len(o.data),
    'has': lambda L, o, b, k: k in o,
    'index': lambda L, o, b, k: o[k],
    'call': lambda L, o, b, k: o(k),
    'right': lambda L, o, b, k: L.relations.get_right(o, k),
    'union': lambda L, o, b, k: L.sets.union(o, b),
    'minus': lambda L, o, b, k: L.sets.minus(o, b),
    'subset': lambda L, o, b, k: L.sets.is_subset_of(b, o),
    'r.transpose': lambda L, o, b, k: L.relations.transpose(o),
    'r.compose': lambda L, o, b, k: L.relations.compose(o, b),
    'r.fu': lambda L, o, b, k: L.relations.functional_union(o, b),
    'r.add': lambda L, o, b, k: L.relations.functional_add(o, L.mo.Couplet(k, k)),
    'r.rename': lambda L, o, b, k: L.relations.rename(o, b),
    'c.transpose': lambda L, o, b, k: L.clans.transpose(o),
    'c.union': lambda L, o, b, k: L.clans.cross_union(o, b),
    'c.cfu': lambda L, o, b, k: L.clans.lhs_cross_functional_union(o, b),
    'c.superstrict': lambda L, o, b, k: L.clans.superstrict(o, b),
    'c.project': lambda L, o, b, k: L.clans.project(o, k),
    'c.defined': lambda L, o, b, k: L.clans.defined_at(o, k),
    'mu.union': lambda L, o, b, k: L.multisets.union(o, b),
    'mu.add': lambda L, o, b, k: L.multisets.add(o, b),
    'mu.demultify': lambda L, o, b, k: L.multisets.demultify(o),
    'mc.transpose': lambda L, o, b, k: L.multiclans.transpose(o),
    'mc.union': lambda L, o, b, k: L.multiclans.cross_union(o, b),
    'mc.rights': lambda L, o, b, k: L.multiclans.get_rights_for_left(o, k),
    'multify': lambda L, o, b, k: L.sets.multify(o),
    'powerset': lambda L, o, b, k: L.sets.power_set(o),
    'powerup': lambda L, o, b, k: L.sets.power_up(o),
    'cp.transpose': lambda L, o, b, k: L.couplets.transpose(o),
    'cp.compose': lambda L, o, b, k: L.couplets.compose(o, b),
})
NAMES = list(Q)
M_SYM = False
# the queries and operations that write into the objects or into what they share with results
STATE = ['p.is_functional', 'p.is_right_functional', 'p.is_symmetric', 'p.is_regular', 'm.clans', 'am.relations', 'am.clans', 'index', 'call', 'r.transpose', 'union', 'c.union']
STATE_M = ['p.is_functional', 'p.is_regular', 'm.multiclans', 'am.multiclans', 'index', 'mc.transpose', 'mu.add', 'mu.demultify', 'p.is_transitive']


def setup(L, symbolic):
    global M_SYM
    M_SYM = symbolic


def applicable(shape):
    """Names of the queries that have an answer for this kind of object."""
    out = []
    set_ = shape[0] == 'S'
    cp = shape[0] == 'C'
    mul = shape[0] == 'M'
    for n in NAMES:
        if n.startswith(('c.', 'r.')) or n in ('call', 'right', 'union', 'minus', 'subset', 'multify', 'powerset', 'powerup'):
            ok = set_
        elif n.startswith(('mu.', 'mc.')):
            ok = mul
        elif n.startswith('cp.'):
            ok = cp
        elif n in ('lefts', 'rights', 'len', 'has', 'index'):
            ok = not cp
        else:
            ok = True
        if n == 'powerset' and len(shape) > 3:
            ok = False
        if ok:
            out.append(n)
    return out


def ask(L, name, o, b, k):
    try:
        return Q[name](L, o, b, k)
    except (AttributeError, TypeError, AssertionError, KeyError, StopIteration, ValueError) as e:
        return ('exception', type(e).__name__)


def same(ctx, x, y, msg):
    L = ctx.L
    if isinstance(x, tuple) or isinstance(y, tuple):
        ctx.check(isinstance(x, tuple) and isinstance(y, tuple) and x == y, '%s: %s' % (msg, [a for a in (x, y) if isinstance(a, tuple)]))
    elif x is L.U or y is L.U:
        ctx.cover('undef')
        ctx.check(x is y, msg + ': undefined in one of the two')
    elif hasattr(x, 'is_set') or hasattr(y, 'is_set'):
        ctx.cover('value')
        ctx.check(M.veq(M.view(x), M.view(y)), msg)
    else:
        ctx.cover('truth')
        ctx.check(x == y, msg)


def h_history(ctx):
    L, p = ctx.L, ctx.p
    o, b, k = ctx.build('a', p['a']), ctx.build('b', p['b']), ctx.build('k', p.get('k', 'a'))
    v, vb = M.view(o), M.view(b)
    hist = p['hist']
    done = []
    for i in range(p['n']):
        name = hist[ctx.choice('q%d' % i, len(hist))]
        done.append(name)
        # what was asked before may have been about another key and another operand
        bh, kh = (ctx.build('bh', p['b']), ctx.build('kh', p['kh'])) if 'kh' in p else (b, k)
        if ask(L, name, o, bh, kh) is None:
            ctx.check(False, name + ' returns nothing')
        if p.get('both') and ask(L, name, b, o, k) is None:
            ctx.check(False, name + ' returns nothing')
    o2, b2, k2 = ctx.build('a', p['a']), ctx.build('b', p['b']), ctx.build('k', p.get('k', 'a'))
    for name in p['final']:
        same(ctx, ask(L, name, o, b, k), ask(L, name, o2, b2, k2), '%s after %s' % (name, ', '.join(done)))
        o2, b2, k2 = ctx.build('a', p['a']), ctx.build('b', p['b']), ctx.build('k', p.get('k', 'a'))
    ctx.check(M.veq(M.view(o), v), 'the object changed')
    ctx.check(M.veq(M.view(b), vb), 'the other object changed')


def h_parts(ctx):
    """Queries on the parts after queries and operations on the whole, and the other way round."""
    L, p = ctx.L, ctx.p
    o, b, k = ctx.build('a', p['a']), ctx.build('b', p['b']), ctx.build('k', 'a')
    hist = p['hist']
    up = p['dir'] == 'up'
    name = hist[ctx.choice('q0', len(hist))]
    es = list(o.data)
    if up:
        for e in es:
            ask(L, name, e, es[0], k)
        targets = [o]
    else:
        ask(L, name, o, b, k)
        targets = es
    o2, b2 = ctx.build('a', p['a']), ctx.build('b', p['b'])
    fresh = [o2] if up else list(o2.data)
    for fin in p['final']:
        for t, f in zip(targets, fresh):
            same(ctx, ask(L, fin, t, b if up else es[0], k), ask(L, fin, f, b2 if up else fresh[0], k), '%s after %s on the %s' % (fin, name, 'parts' if up else 'whole'))


def h_step(ctx):
    """Inductive step: any sound remembered state, then a redirecting query, then the question."""
    L, p = ctx.L, ctx.p
    o, b, k = ctx.build('a', p['a']), ctx.build('b', p['b']), ctx.build('k', 'a')
    o2, b2, k2 = ctx.build('a', p['a']), ctx.build('b', p['b']), ctx.build('k', 'a')
    name = p['q']
    want = ask(L, name, o2, b2, k2)
    ctx.lazies(p, ('a', o), ('b', b))
    if p.get('pre'):
        ask(L, p['pre'], o, b, k)
    same(ctx, ask(L, name, o, b, k), want, '%s with remembered properties' % name)
    same(ctx, ask(L, name, o, b, k), want, '%s asked again' % name)


GRP = (['relation', 'clan', 'multiclan'], ['absolute'], ['functional', 'regular'], ['right_functional', 'right_regular'], ['functional', 'right_functional'],
       ['reflexive', 'symmetric', 'transitive'])


def cases(tier):
    big = tier == 'thorough'
    C = ['C', 'a', 'a']
    KEYED = ['has', 'index', 'call', 'right', 'r.add', 'c.project', 'c.defined', 'mc.rights', 'union', 'minus', 'subset', 'eq', 'r.compose', 'r.fu', 'r.rename', 'c.union', 'c.cfu',
             'c.superstrict', 'mu.union', 'mu.add', 'mc.union']
    K1, K2 = ['C', '#1', 'a'], ['C', '#1.0', 'a']
    for a, b in ((rel(2), rel(1)), (['S', K1, K2], ['S', K1]), (clan([1, 1]), clan([1])), (['S', ['S', K1], ['S', K2]], ['S', ['S', K2]]), (mclan([1, 1], 1), mclan([1], 1)),
                 (['M', [['S', K1], 2], [['S', K2], 1]], ['M', [['S', K1], 1]]), (['M', [['C', 'a', 'a'], 1], [['C', 'a', 'a'], 2]], ['M', [['C', 'a', 'a'], 1]]), (rel(0), rel(1)), (atoms(2), atoms(1)),
                 (['S', '#1', '#True'], ['S', '#1.0']), (mset(2, 1), mset(1, 2))):
        names = [n for n in KEYED if n in applicable(a)]
        for q in names:
            for k, kh in (('#1.0', '#1'), ('#1', '#True')) if '#' in str(a) else (('a', 'a'), ('b', 'a')):
                yield h_history, dict(a=a, b=b, k=k, kh=kh, hist=[q] if not big else names, n=1, final=[q]), 40
    shapes = [(rel(2), rel(1)), (rel(1), rel(2)), (clan([1, 1]), clan([1])), (clan([2]), clan([1])), (clan([0, 1]), clan([1])), (mclan([1, 1], 1), mclan([1], 1)), (mclan([2], 2), mclan([1], 1)),
              (['S', C, 'a'], rel(1)), (['S', ['S', 'a'], ['S', C]], clan([1])), (['S', clan([1]), clan([1])], ['S', clan([1])]), (['M', [C, 2], [C, 1]], ['M', [C, 1]]),
              (C, C), (['C', rel(1), 'a'], C), (rel(0), rel(1)), (clan([0]), clan([1])), (['M'], mclan([1], 1)), (atoms(2), atoms(1)), (mset(2, 1), mset(1, 2)), (['M', [['S', 'a'], 1], [rel(1), 1]], mclan([1], 1))]
    for a, b in shapes:
        names = applicable(a)
        for i in range(0, len(names), 6):
            yield h_history, dict(a=a, b=b, hist=names, n=1, final=names[i:i + 6]), 20
        both = [n for n in ('hash', 'p.is_functional', 'm.clans', 'm.multiclans') if n in names]
        last = [n for n in ('eq', 'union', 'minus', 'subset', 'r.compose', 'c.union', 'mu.union', 'mu.add', 'mc.union', 'cp.compose') if n in names]
        for n in both[:1 if not big else 4]:
            yield h_history, dict(a=a, b=b, hist=[n], n=1, both=1, final=last), 30
        yield h_history, dict(a=a, b=a, hist=both[:1], n=1, both=1, final=['eq']), 30
        st = [n for n in (STATE_M if a[0] == 'M' else STATE) if n in names]
        final = [n for n in names if n in st or n in ('hash', 'eq', 'lefts', 'rights', 'r.compose', 'p.is_right_regular', 'p.is_reflexive', 'r.add', 'c.cfu')]
        small = str(a).count("'C'") + str(b).count("'C'") < 3
        if big or small:
            hs = names if big and small else st
            for i in range(0, len(final), 3):
                yield h_history, dict(a=a, b=b, hist=hs, n=2, final=final[i:i + 3]), 60
        else:
            for i in range(0, len(final), 3):
                yield h_history, dict(a=a, b=b, hist=st[:8], n=2, final=final[i:i + 3]), 60
        if big and small:
            for q in final:
                yield h_history, dict(a=a, b=b, hist=st, n=3, final=[q]), 300
        for q in names:
            for g in GRP:
                # no operation records 'absolute' without having recorded the kind of object, or being clear about it
                p = dict(known=['relation', 'clan', 'multiclan']) if g == ['absolute'] else {}
                yield h_step, dict(a=a, b=b, q=q, lazy=g, **p), 10
            if q in ('index', 'call', 'lefts', 'p.is_functional', 'm.clans', 'm.relations', 'm.multiclans'):
                for pre in ('index', 'call'):
                    if pre in names:
                        yield h_step, dict(a=a, b=b, q=q, pre=pre, lazy=['relation', 'clan', 'functional', 'multiclan']), 10
        if a[0] in 'SM' and len(a) > 1:
            el = a[1][0] if a[0] == 'M' else a[1]
            if not isinstance(el, str):
                en = applicable(el)
                yield h_parts, dict(a=a, b=b, hist=en, dir='up', final=final[:10])
                yield h_parts, dict(a=a, b=b, hist=en, dir='up', final=final[10:])
                ef = [n for n in en if not n.startswith(('c.', 'mu.', 'mc.'))]
                yield h_parts, dict(a=a, b=b, hist=names, dir='down', final=ef[:12]), 30
                yield h_parts, dict(a=a, b=b, hist=names, dir='down', final=ef[12:24]), 30
                yield h_parts, dict(a=a, b=b, hist=names, dir='down', final=ef[24:]), 30
