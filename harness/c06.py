"""C06: lookups, renames and helper constructions."""
from symx import model as M
from symx.model import MS
from . import ops
from .ops import WIDE_NOTE, C, rel, clan, mclan

COVERS = ('none', 'one', 'several', 'call-undef', 'call-value', 'add-defined', 'add-undef', 'renamed', 'kept', 'project-drops')
BOUNDS = {
    'quick': 'relations of up to 3 couplets, clans and multiclans of up to 3 relations with up to 4 couplets altogether, mappings of up to 2 couplets; lefts, '
             'rights and keys unbounded integers, opaque strings, couplets or sets of such; multiplicities 1..3 where the code iterates, unbounded otherwise',
    'thorough': 'relations of up to 4 couplets, clans of up to 5 couplets, mappings of up to 3 couplets'}
BOUNDS['quick'] += WIDE_NOTE
ASSUMPTIONS = ['element kinds per position are fixed by the case; values are symbolic']


def _key(ctx, p):
    """The lookup key: a data object or, with p['raw'], the bare value."""
    k = ctx.build('k', p.get('k', 'a'))
    return (k.value if p.get('raw') else k), M.den(k)


def _kw(p):
    return {} if p.get('checked', True) else {'_checked': False}


def _lab(ctx, n):
    ctx.cover('none' if n == 0 else 'one' if n == 1 else 'several')


def h_rel_lookup(ctx):
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    d = M.den(a)
    k, dk = _key(ctx, p)
    ctx.lazies(p, ('a', a))
    kw = _kw(p)
    r = L.relations
    what = p['what']
    if what == 'sides':
        ctx.same(r.get_lefts(a, **kw), M.rlefts(d), 'get_lefts')
        ctx.same(r.get_rights(a, **kw), M.rrights(d), 'get_rights')
        ctx.same(a.get_left_set(), M.rlefts(d), 'get_left_set')
        ctx.same(a.get_right_set(), M.rrights(d), 'get_right_set')
    elif what == 'rights':
        want = frozenset(c[2] for c in d if c[1] == dk)
        _lab(ctx, len(want))
        ctx.same(r.get_rights_for_left(a, k, **kw), want, 'get_rights_for_left')
        ctx.same(a[k], want, 'relation[x]')
        ctx.same(a[k], want, 'relation[x] again')
        ctx.check((r.defined_at(a, k, **kw) is a) == bool(want), 'defined_at')
    elif what == 'right':
        want = frozenset(c[2] for c in d if c[1] == dk)
        got = r.get_right(a, k, **kw)
        ctx.same(got, list(want)[0] if len(want) == 1 else None, 'get_right')
    elif what == 'left':
        want = frozenset(c[1] for c in d if c[2] == dk)
        got = r.get_left(a, k, **kw)
        ctx.same(got, list(want)[0] if len(want) == 1 else None, 'get_left')
    elif what == 'call':
        want = frozenset(c[2] for c in d if c[1] == dk)
        ok = M.functional(d) and len(want) == 1
        ctx.cover('call-value' if ok else 'call-undef')
        ctx.same(a(k), list(want)[0] if ok else None, 'relation(x)')
        ctx.same(a(k), list(want)[0] if ok else None, 'relation(x) again')
    ctx.same(a, d, what + ' changed the relation')


def h_mapping(ctx):
    """Every couplet of the result of a rename, written out from the words of the property."""
    L, p = ctx.L, ctx.p
    a, b = ctx.build('a', p['a']), ctx.build('b', p['b'])
    da, db = M.den(a), M.den(b)
    ctx.lazies(p, ('a', a), ('b', b))
    r = ops.get(L, p['op'])(a, b, **_kw(p))
    if p['op'] == 'relations.fill_lefts':
        want = frozenset(list(db) + [C(l, l) for l in M.rlefts(da) if l not in M.rrights(db)])
    else:
        m = list(db) if p['op'] == 'relations.rename' else list(db) + [C(c[2], c[1]) for c in db]
        out = []
        for c in da:
            named = [s for s in m if s[2] == c[1]]
            ctx.cover('renamed' if named else 'kept')
            out += [C(s[1], c[2]) for s in named] or [c]
        want = frozenset(out)
    ctx.same(r, want, p['op'])
    ctx.same(a, da, 'operand 1 changed')
    ctx.same(b, db, 'operand 2 changed')


def h_add(ctx):
    L, p = ctx.L, ctx.p
    a, b = ctx.build('a', p['a']), ctx.build('b', p['b'])
    da, db = M.den(a), M.den(b)
    ctx.lazies(p, ('a', a))
    r = L.relations.functional_add(a, b)
    want = None
    if M.is_c(db) and M.functional(da) and db[1] not in M.rlefts(da):
        want = frozenset(list(da) + [db])
    ctx.cover('add-undef' if want is None else 'add-defined')
    ctx.same(r, want, 'functional_add')
    ctx.same(a, da, 'operand changed')


def h_clan_lookup(ctx):
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    d = M.den(a)
    k, dk = _key(ctx, p)
    ctx.lazies(p, ('a', a))
    kw = _kw(p)
    what = p['what']
    multi = isinstance(d, MS)
    alg = L.multiclans if multi else L.clans
    rels = M.elems(d)
    if what == 'sides':
        ctx.same(alg.get_lefts(a, **kw), frozenset(c[1] for r in rels for c in r), 'get_lefts')
        ctx.same(alg.get_rights(a, **kw), frozenset(c[2] for r in rels for c in r), 'get_rights')
        ctx.same(a.get_left_set(), frozenset(c[1] for r in rels for c in r), 'get_left_set')
        ctx.same(a.get_right_set(), frozenset(c[2] for r in rels for c in r), 'get_right_set')
    elif what == 'index':
        per = [(r, frozenset(c[2] for c in r if c[1] == dk)) for r in rels]
        if multi:
            want = MS([(x, d.get(r)) for r, s in per for x in s])
        else:
            want = frozenset(x for r, s in per for x in s)
        _lab(ctx, len(want.d if multi else want))
        ctx.same(a[k], want, 'clan[x]')
        ctx.same(a[k], want, 'clan[x] again')
        if multi:
            ctx.same(alg.get_rights_for_left(a, k, **kw), want, 'get_rights_for_left')
    elif what == 'defined':
        if multi:
            want = MS([(r, n) for r, n in d.items() if any(bool(c[1] == dk) for c in r)])
            empty = not want.d
        else:
            want = frozenset(r for r in rels if any(bool(c[1] == dk) for c in r))
            empty = not want
        got = alg.defined_at(a, k, **kw)
        ctx.same(got, None if empty else want, 'defined_at')
    elif what == 'project':
        ks = [k] + ([ctx.build('k2', 'a')] if p.get('two') else [])
        dks = [dk] + ([M.den(ks[1])] if p.get('two') else [])
        pr = [(r, frozenset(c for c in r if c[1] in dks)) for r in rels]
        if any(len(x) < len(r) for r, x in pr):
            ctx.cover('project-drops')
        if multi:
            want = MS([(x, d.get(r)) for r, x in pr])
        else:
            want = frozenset(x for r, x in pr)
        ctx.same(alg.project(a, *ks), want, 'project')
    ctx.same(a, d, what + ' changed the operand')


def h_msindex(ctx):
    """Indexing multisets of couplets and of other things."""
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    d = M.den(a)
    k, dk = _key(ctx, p)
    got = a[k]
    if all(M.is_c(e) for e in M.elems(d)):
        want = MS([(c[2], n) for c, n in d.items() if c[1] == dk]) if isinstance(d, MS) else \
            frozenset(c[2] for c in d if c[1] == dk)
    else:
        want = None
    ctx.same(got, want, 'index')
    ctx.same(a[k], want, 'index again')
    ctx.same(a, d, 'changed')
    if a.is_set and want is None:
        ctx.same(a(k), None, 'call')


def h_make(ctx):
    """from_dict, from_set and diag."""
    L, p = ctx.L, ctx.p
    n = p['n']
    xs = [ctx.val('x%d' % i) for i in range(n)]
    ys = [ctx.val('y%d' % i) for i in range(n)]
    A = M.atom
    what = p['what']
    if what == 'diag':
        vs = [L.mo.Atom(x) for x in xs] if p.get('mo') else xs
        want = frozenset(C(A(x), A(x)) for x in xs)
        if p['alg'] == 'relations':
            ctx.same(L.relations.diag(*vs), want, 'diag')
            if p.get('mo'):
                ctx.same(L.relations.diag(*vs, _checked=False), want, 'diag unchecked')
        elif p['alg'] == 'clans':
            ctx.same(L.clans.diag(*vs), frozenset([want]), 'diag')
        else:
            ctx.same(L.multiclans.diag(*vs), MS([(want, 1)]), 'diag')
    elif what == 'dict':
        dd = dict(zip(xs, ys))
        want = frozenset(C(A(x), A(y)) for x, y in dd.items())
        if p['alg'] == 'relations':
            ctx.same(L.relations.from_dict(dd), want, 'from_dict')
        elif p['alg'] == 'clans':
            ctx.same(L.clans.from_dict(dd), frozenset([want]), 'from_dict')
        else:
            ctx.same(L.multiclans.from_dict(dd), MS([(want, 1)]), 'from_dict')
    elif what == 'set':
        l = ctx.val('l')
        got = L.clans.from_set(l, *ys)
        ctx.same(got, frozenset(frozenset([C(A(l), A(y))]) for y in ys), 'from_set')
        l2 = L.mo.Atom(l)
        ctx.same(L.clans.from_set(l2, *[L.mo.Atom(y) for y in ys]), frozenset(frozenset([C(A(l), A(y))]) for y in ys), 'from_set')


def cases(tier):
    big = tier == 'thorough'
    kinds = (('a', 'a'), ('b', 'b'), (['C', 'a', 'a'], 'a'), ('a', ['S', 'a']), (['S', 'a', 'a'], 'a'))
    for what in ('sides', 'rights', 'right', 'left', 'call'):
        for n in range(5 if big else 4):
            yield h_rel_lookup, dict(what=what, a=rel(n)), 6 ** n
            yield h_rel_lookup, dict(what=what, a=rel(n), raw=1), 6 ** n
            if what != 'call':
                yield h_rel_lookup, dict(what=what, a=rel(n), checked=False), 6 ** n
        for l, r in kinds[1:]:
            yield h_rel_lookup, dict(what=what, a=rel(2, l, r), k=r if what == 'left' else l)
        yield h_rel_lookup, dict(what=what, a=['S', ['C', 'a', 'a'], ['C', 'b', 'a'], ['C', 'a', 'b']])
        yield h_rel_lookup, dict(what=what, a=['S', ['C', 'a', 'a'], ['C', 'b', 'a'], ['C', 'a', 'b']], k='b')
        for f in (['relation'], ['relation', 'functional'], ['relation', 'right_functional'], ['absolute', 'relation']):
            yield h_rel_lookup, dict(what=what, a=rel(2), lazy=f)
    sizes = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 1), (1, 2), (2, 2), (3, 1)] + ([(3, 2), (2, 3), (4, 1)] if big else [])
    for op in ops.REL_HELP:
        for i, j in sizes:
            if op == 'relations.swap' and i + 2 * j > (7 if big else 6):
                continue
            yield h_mapping, dict(op=op, a=rel(i), b=rel(j)), 6 ** (i + j)
        yield h_mapping, dict(op=op, a=rel(2), b=rel(1), checked=False)
        yield h_mapping, dict(op=op, a=rel(2, 'b', 'a'), b=rel(1, 'b', 'b'))
        yield h_mapping, dict(op=op, a=rel(1, ['C', 'a', 'a'], 'a'), b=rel(1, 'a', ['C', 'a', 'a']))
        yield h_mapping, dict(op=op, a=rel(1, ['C', 'a', 'a'], 'a'), b=rel(1, ['C', 'a', 'a'], ['C', 'a', 'a']))
        yield h_mapping, dict(op=op, a=rel(2), b=rel(1), lazy=['relation', 'functional', 'right_functional']), 100
    for t, k in (('x. y. z. ?. w.', 'a'), ('.x .y .z .?', 'a'), ('!. !. ?.', '#1'), ('!. !. ?.', '#True'), ('.! .! .?', '#1.0'), ('!! !!', '#1')):
        for what in ('sides', 'rights', 'right', 'left', 'call'):
            yield h_rel_lookup, dict(what=what, a=ops.links(t), k=k), 100
            yield h_rel_lookup, dict(what=what, a=ops.links(t), k=k, raw=1), 100
        for what in ('sides', 'index', 'defined', 'project'):
            for rs in ([t, 'x.', ''], ['x.', t]) if t[0] != '!' or what != 'sides' else ([t],):
                rs = [ops.links(r) for r in rs]
                yield h_clan_lookup, dict(what=what, a=['S'] + rs, k=k), 100
                yield h_clan_lookup, dict(what=what, a=['M'] + [[r, 2 - i % 2] for i, r in enumerate(rs)], k=k), 100
        yield h_add, dict(a=ops.links(t), b=['C', k, 'd']), 100
    for op in ops.REL_HELP:
        for t, m in (('x. y. z. w.', '.x .y'), ('x. y. z. ?.', '.z x?'), ('x. y. x.', 'yx zw'), ('!. !. ?.', '.!'), ('!. ?.', '!!')):
            yield h_mapping, dict(op=op, a=ops.links(t), b=ops.links(m)), 200
    for n in range(4 if big else 3):
        yield h_add, dict(a=rel(n), b=['C', 'a', 'a'])
    yield h_add, dict(a=rel(3), b=['C', 'a', 'a']), 200
    yield h_add, dict(a=rel(2, 'b', 'b'), b=['C', 'b', 'b'])
    yield h_add, dict(a=rel(1, ['S', 'a'], 'a'), b=['C', ['S', 'a'], 'a'])
    yield h_add, dict(a=rel(1, ['C', 'a', 'a'], 'a'), b=['C', ['C', 'a', 'a'], ['C', 'a', 'a']])
    yield h_add, dict(a=rel(1), b='a')
    yield h_add, dict(a=rel(2), b=['C', 'a', 'a'], lazy=['relation', 'functional', 'right_functional'])
    css = [[1], [0], [0, 1], [1, 1], [2], [2, 1], [1, 1, 1], [2, 2], [3], [0, 2]] + ([[3, 2], [2, 2, 1], [3, 1, 1]] if big else [])
    for what in ('sides', 'index', 'defined', 'project'):
        yield h_clan_lookup, dict(what=what, a=clan([]))
        for cs in css:
            w = 5 ** sum(cs)
            yield h_clan_lookup, dict(what=what, a=clan(cs)), w
            m = (1, 3) if what != 'project' and sum(cs) < 3 else (1, 2) if what != 'project' else (1, None)
            yield h_clan_lookup, dict(what=what, a=mclan(cs, m)), w * 3
        yield h_clan_lookup, dict(what=what, a=clan([2, 1]), raw=1), 125
        yield h_clan_lookup, dict(what=what, a=mclan([2, 1], (1, 2)), raw=1), 125
        if what != 'project':
            yield h_clan_lookup, dict(what=what, a=clan([1, 1]), checked=False)
            yield h_clan_lookup, dict(what=what, a=mclan([1, 1], (1, 2)), checked=False)
        else:
            yield h_clan_lookup, dict(what=what, a=clan([2, 1]), two=1), 125
            yield h_clan_lookup, dict(what=what, a=mclan([2, 1]), two=1), 125
        yield h_clan_lookup, dict(what=what, a=clan([1, 1], 'b', 'b'), k='b')
        yield h_clan_lookup, dict(what=what, a=mclan([1, 1], (1, 2), 'b', 'b'), k='b')
        yield h_clan_lookup, dict(what=what, a=clan([1, 1], ['C', 'a', 'a'], 'a'), k=['C', 'a', 'a'])
        yield h_clan_lookup, dict(what=what, a=clan([1, 1]), lazy=['clan', 'relation', 'functional', 'absolute'])
        yield h_clan_lookup, dict(what=what, a=mclan([1, 1], (1, 2)), lazy=['multiclan', 'functional', 'absolute'])
    yield h_clan_lookup, dict(what='index', a=['M'])
    yield h_clan_lookup, dict(what='project', a=['M'])
    yield h_clan_lookup, dict(what='defined', a=['M'])
    for a in (['M', [['C', 'a', 'a'], [1, None]]], ['M', [['C', 'a', 'a'], [1, None]], [['C', 'a', 'a'], [1, None]]],
              ['M', [['C', 'a', 'a'], [1, None]], [['C', 'a', 'a'], [1, None]], [['C', 'a', 'a'], [1, None]]],
              ['M', ['a', 1]], ['M', ['a', 1], [['C', 'a', 'a'], 1]], ['M', [['S', 'a'], 1]], ['M', [['C', 'a', 'a'], 2], [['S'], 1]],
              ['S', 'a'], ['S', 'a', ['C', 'a', 'a']], ['S', ['C', 'a', 'a'], 'a'], ['S', ['S', 'a']], ['S', ['C', 'a', 'a'], ['S', ['C', 'a', 'a']]],
              ['S', ['S', ['C', 'a', 'a']], ['S', 'a']]):
        yield h_msindex, dict(a=a)
        yield h_msindex, dict(a=a, raw=1)
    for alg in ('relations', 'clans', 'multiclans'):
        for n in range(4):
            yield h_make, dict(what='diag', alg=alg, n=n)
            yield h_make, dict(what='diag', alg=alg, n=n, mo=1)
            yield h_make, dict(what='dict', alg=alg, n=n)
    for n in range(4):
        yield h_make, dict(what='set', n=n)
