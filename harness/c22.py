"""C22: RDF triple matching and joins return exactly the solutions."""
import itertools
from symx import model as M
try:
    from symx import engine as E
except ImportError:        # the replay interpreter has no solver
    E = None

COVERS = ('match', 'no-match', 'projected', 'joined', 'inconsistent', 'triple', 'not-triple', 'graph', 'not-graph', 'made')
BOUNDS = {
    'quick': 'graphs of up to 3 triples, every combination of constants, variables and wildcards for the three parts, joins of 2 solution sets of up to 3 rows and of 3 of up to 2 rows over 3 variables; '
             'candidate triples of up to 4 couplets and graphs of up to 2 relations with any lefts; every sound combination of remembered properties',
    'thorough': 'graphs of up to 4 triples, joins of 3 rows'}
ASSUMPTIONS = ['constant strings do not begin with the variable marks ? and $ (concrete variable names do)']


def setup(L, symbolic):
    if symbolic:
        E.SymOpq.__getitem__ = lambda self, i: self      # some part of a constant: unlike any mark
        E.SymOpq.startswith = lambda self, *a: False


def graph(ctx, n, kinds):
    """n triples; the parts are texts ('b'), integers ('a') or others."""
    return ctx.build('g', ['S'] + [['S'] + [['C', '=' + k, s] for k, s in zip('spo', kinds)] for _ in range(n)])


def raw(o):
    return o.value if o.is_atom else o


def h_match(ctx):
    L, p = ctx.L, ctx.p
    rdf = L.util_rdf
    g = graph(ctx, p['n'], p['kinds'])
    v, d = M.view(g), M.den(g)
    ctx.lazies(p, ('g', g))
    if p.get('ask'):
        ctx.check(rdf.is_graph(g) is (p['n'] > 0), 'is_graph')
    args, pat, proj = [], {}, {}
    for k, a, s in zip('spo', p['args'], p['kinds']):
        if a == '_':
            args.append(None)
        elif a in ('c', 'm'):
            x = ctx.build('c' + k, s if a == 'c' else ('b' if s == 'a' else 'a'))
            args.append(raw(x) if p.get('raw') else x)
            pat[k] = M.den(x)
        else:
            args.append(a)
            proj[k] = a
    want = set()
    for t in d:
        parts = {e[1][1]: e[2] for e in t}
        if all(parts[k] == x for k, x in pat.items()):
            ctx.cover('match')
            want.add(frozenset(('C', ('A', proj[k]), parts[k]) for k in proj))
        else:
            ctx.cover('no-match')
    if proj:
        ctx.cover('projected')
    how = p.get('how', 'triple')
    if how == 'triple':
        r = rdf.triple_match(g, *args)
    elif how == 'project':
        r = rdf.match_and_project(g, {k: a for k, a in zip('spo', args) if k in pat}, proj)
    else:
        r = rdf.pattern_match(g, {k: a for k, a in zip('spo', args) if k in pat})
        want = [t for t in d if all({e[1][1]: e[2] for e in t}[k] == x for k, x in pat.items())]
    ctx.same(r, frozenset(want), how)
    ctx.sound(r, how)
    ctx.check(M.veq(M.view(g), v), 'the graph changed')
    ctx.sound(g, 'graph')


def sol(ctx, name, rows, leaf='b'):
    return ctx.build(name, ['S'] + [['S'] + [['C', '=?' + x, leaf] for x in r] for r in rows])


def h_join(ctx):
    L, p = ctx.L, ctx.p
    os = [sol(ctx, 's%d' % i, r, p.get('leaf', 'b')) for i, r in enumerate(p['sols'])]
    vs = [M.view(o) for o in os]
    ds = [M.den(o) for o in os]
    ctx.lazies(p, *[('s%d' % i, o) for i, o in enumerate(os)])
    want = set()
    for rows in itertools.product(*ds):
        u = frozenset().union(*rows)
        ok = True
        es = list(u)
        for i, a in enumerate(es):
            for b in es[i + 1:]:
                if a[1] == b[1] and not a[2] == b[2]:
                    ok = False
        if ok:
            ctx.cover('joined')
            want.add(u)
        else:
            ctx.cover('inconsistent')
    r = L.util_rdf.join(*os)
    ctx.same(r, frozenset(want), 'join')
    ctx.sound(r, 'join')
    for o, v in zip(os, vs):
        ctx.check(M.veq(M.view(o), v), 'join changed its input')
        ctx.sound(o, 'operand')


LEFTS = ['s', 'p', 'o', 'x']


def named(ctx, name, sh):
    """Shape with lefts left open: '?' becomes one of s, p, o or another name."""
    if sh == '?':
        return '=' + LEFTS[ctx.choice(name, 4)]
    if isinstance(sh, str):
        return sh
    return [sh[0]] + [named(ctx, '%s.%d' % (name, i), s) if not (sh[0] == 'M') else [named(ctx, '%s.%d' % (name, i), s[0]), s[1]] for i, s in enumerate(sh[1:])]


def is_triple(v):
    return M.v_rel(v) and len(v[1]) == 3 and sorted(str(e[1][1]) for e in v[1] if e[1][0] == 'A') == ['o', 'p', 's']


def distinct(d):
    return d


def h_recognize(ctx):
    L, p = ctx.L, ctx.p
    rdf = L.util_rdf
    o = ctx.build('o', named(ctx, 'n', p['shape']))
    d = M.den(o)
    v = M.d_view(d)
    ctx.lazies(p, *([('o', o)] if o.is_set or o.is_multiset else []))
    rel, cl = M.v_rel(v), M.v_clan(v)
    t = rel and len(d) == 3 and sorted(name(e[1]) for e in d) == ['o', 'p', 's']
    g = cl and len(d) > 0 and all(len(r) == 3 and sorted(name(e[1]) for e in r) == ['o', 'p', 's'] for r in d)
    ab = M.v_absolute(v)
    ctx.cover('triple' if t else 'not-triple')
    ctx.cover('graph' if g else 'not-graph')
    order = [('is_triple', t), ('is_absolute_triple', t and ab), ('is_graph', g), ('is_absolute_graph', g and ab)]
    if p.get('back'):
        order.reverse()
    for n, w in order:
        r = getattr(rdf, n)(o)
        ctx.check((r is True or r is False) and r == bool(w), '%s is %s' % (n, r))
    ctx.sound(o, 'operand')


def name(d):
    return d[1] if type(d) is tuple and d[0] == 'A' and type(d[1]) is str else '-'


def h_make(ctx):
    L, p = ctx.L, ctx.p
    xs = [ctx.build('x%d' % i, s) for i, s in enumerate(p['kinds'])]
    ds = [M.den(x) for x in xs]
    args = [raw(x) for x in xs] if p.get('raw') else xs
    r = L.util_rdf.make_triple(subject=args[0], predicate=args[1], object_=args[2]) if p.get('kw') else L.util_rdf.make_triple(*args)
    ctx.cover('made')
    ctx.same(r, frozenset(('C', ('A', k), d) for k, d in zip('spo', ds)), 'make_triple')
    ctx.check(L.util_rdf.is_triple(r), 'not a triple')
    ctx.sound(r, 'make_triple')


def cases(tier):
    big = tier == 'thorough'
    G = [None, ['relation', 'clan'], ['functional', 'regular', 'absolute'], ['right_functional', 'right_regular', 'reflexive']]
    forms = [f for f in itertools.product('_c?$', repeat=3)]

    def args(f):
        out, i = [], 0
        for x in f:
            i += 1
            out.append(x if x in '_cm' else x + 'v%d' % i)
        return out
    for f in forms:
        if f.count('$') > 1:
            continue
        for n in (1, 2):
            yield h_match, dict(n=n, kinds=['b', 'b', 'b'], args=args(f), raw=True), 9 ** n
        yield h_match, dict(n=2, kinds=['b', 'a', 'b'], args=args(f)), 99
        if '$' not in f:
            yield h_match, dict(n=3, kinds=['b', 'b', 'b'], args=args(f), raw=len(args(f)) % 2), 999
            if big:
                yield h_match, dict(n=4, kinds=['b', 'b', 'b'], args=args(f), raw=True), 9999
            for how in ('project', 'pattern'):
                yield h_match, dict(n=2, kinds=['b', 'b', 'a'], args=args(f), how=how, raw=how == 'project'), 99
            for g in G[1:]:
                yield h_match, dict(n=2, kinds=['b', 'b', 'b'], args=args(f), lazy=g, ask=f[0] == 'c'), 99
                if big or f in (('c', '?', '?'), ('_', 'c', '?'), ('?', '_', 'c')):
                    yield h_match, dict(n=2, kinds=['b', 'b', 'b'], args=args(f), lazy=g, deep=True, raw=True), 99
    for a in (['?x', '?x', '_'], ['?x', '?y', '?x'], ['?x', '?x', '?x'], ['c', '?x', '?x'], ['m', '?x', '_'], ['_', 'm', 'c'], ['', '?x', '_']):
        for n in (1, 2):
            if '' not in a:
                yield h_match, dict(n=n, kinds=['b', 'b', 'b'], args=a), 9
    yield h_match, dict(n=2, kinds=['b', 'b', ['S', 'a']], args=['?x', '_', 'c']), 9
    yield h_match, dict(n=2, kinds=[['C', 'a', 'a'], 'b', 'b'], args=['c', '?x', '?y']), 9
    for how in ('project', 'pattern'):
        yield h_match, dict(n=0, kinds=['b', 'b', 'b'], args=['c', '?x', '_'], how=how), 9
    x, y, z, xy, yz, xz, xyz = ['x'], ['y'], ['z'], ['x', 'y'], ['y', 'z'], ['x', 'z'], ['x', 'y', 'z']
    for sols in ([[xy], [xy]], [[xy], [yz]], [[x], [y]], [[xy, xy], [xy]], [[xy, xy], [yz, yz]], [[x, x], [x, x]], [[x, x], [xy, xy]], [[xy, x], [yz]], [[xy, x], [y, xy]], [[[]], [xy]],
                 [[[], x], [x, y]], [[], [x]], [[x], []], [[x], [y], []], [[x], [], [y]], [[], [x], [y]], [[x, x], [[]], [xy]], [[x], [[]]], [[[]], [[]], [x]], [[x], [[], y], []], [[x], [y], [x], []], [[x], [y], [z]], [[xy], [yz], [xz]], [[x, x], [x, x], [x]], [[x], [xy], [xy, x]], [[xy], [yz, yz], [z]], [[x], [x], [x], [x]],
                 [[x], [y], [x, x]], [[x, x, x], [x, x]], [['xx'], [x]], [['xx', x], [xy]], [[x], [x], ['xx']], [[xyz], [xyz]]):
        n = sum(map(len, sols))
        yield h_join, dict(sols=sols), 9 ** n
        for g in G[1:]:
            if n < 5:
                yield h_join, dict(sols=sols, lazy=g, deep=n < 3), 9 ** n
        yield h_join, dict(sols=sols, leaf='a', lazy=['functional', 'right_functional', 'regular', 'right_regular', 'reflexive', 'symmetric', 'transitive'] if n < 3 else None), 99
    if big:
        for sols in ([[xy, xy, xy], [yz, yz, yz]], [[xy, xy], [yz, yz], [xz, xz]], [[xyz, xyz], [xyz, xyz]]):
            yield h_join, dict(sols=sols), 9999

    def rel(*rights):
        return ['S'] + [['C', '?', r] for r in rights]
    shapes = ['a', ['C', '?', 'b'], ['S'], ['M'], rel('b'), rel('b', 'b'), rel('b', 'b', 'b'), rel('b', 'a', ['S', 'a']), ['S', rel('b', 'b', 'b')], ['S', rel('b', 'b'), rel('b')], ['S', ['S']],
              ['S', ['S'], rel('b', 'b', 'b')], ['S', 'a', ['C', '=s', 'b'], ['C', '=p', 'b']], ['M', [['C', '=s', 'b'], 1], [['C', '=p', 'b'], 1], [['C', '=o', 'b'], 1]],
              ['M', [['S', ['C', '=s', 'b'], ['C', '=p', 'b'], ['C', '=o', 'b']], 1]], ['S', ['C', '=s', 'b'], ['C', '=p', 'b'], ['C', '=o', 'b'], ['C', '?', 'b']],
              ['S', ['C', '=s', 'b'], ['C', '?', 'b'], ['C', '?', 'b'], ['C', '=p', 'b']], ['S', ['S', ['C', '=s', 'b'], ['C', '=p', 'b'], ['C', '=o', 'b']], ['S', ['C', '?', 'b'], ['C', '=p', 'b'], ['C', '=o', 'b']]],
              ['S', ['S', ['C', '=s', 'b'], ['C', '=p', 'b'], ['C', '=o', 'b']], ['S', ['C', '?', 'b'], ['C', '?', 'b']]], ['S', ['S', ['C', '=s', 'b'], ['C', '=p', 'b'], ['C', '=o', ['S']]], ['S', ['C', '=s', 'b'], ['C', '=p', 'b'], ['C', '=o', 'b'], ['C', '?', 'b']]],
              ['S', ['S', ['C', '=s', 'b']], ['S', ['C', '=p', 'b']], ['S', ['C', '=o', 'b']]], ['S', ['S', rel('b', 'b', 'b')]], ['S', ['C', ['S'], 'b'], ['C', '=p', 'b'], ['C', '=o', 'b']],
              ['S', ['C', '=s', ['S', ['C', '=s', 'b']]], ['C', '=p', 'b'], ['C', '=o', 'b']], ['S', ['S', ['C', '=s', 'b'], ['C', '=p', 'b'], ['C', '=o', 'b']], ['C', '?', 'b']]]
    for s in shapes:
        for g in G:
            for back in (False, True):
                yield h_recognize, dict(shape=s, lazy=g, back=back, deep=True), 99
    for kinds in (['b', 'b', 'b'], ['a', 'b', ['S', 'a']], [['C', 'a', 'a'], 'b', ['M', ['a', [1, None]]]], ['a', 'a', 'a']):
        for rawv in (False, True):
            for kw in (False, True):
                yield h_make, dict(kinds=kinds, raw=rawv, kw=kw), 1
