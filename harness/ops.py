"""Operations of the library with independent reference semantics over plain data (see symx.model).

Each entry: name -> (arity kinds, call(L, *objs), ref(*dens)).  ``ref`` returns None for undefined.
"""
from symx import model as M
from symx.model import MS


def C(l, r):
    return ('C', l, r)


# ---- sets -----------------------------------------------------------------------------------------
def s_union(a, b):
    return frozenset(list(a) + list(b))


def s_intersect(a, b):
    return frozenset(e for e in a if e in b)


def s_minus(a, b):
    return frozenset(e for e in a if e not in b)


def s_sub(a, b):
    return all(e in b for e in a)


def s_substrict(a, b):
    return a if s_sub(a, b) else None


def s_superstrict(a, b):
    return a if s_sub(b, a) else None


def s_multify(a):
    return MS([(e, 1) for e in a])


def s_power_up(a):
    return frozenset(frozenset([e]) for e in a)


def s_power_set(a):
    out = [frozenset()]
    for e in a:
        out = out + [frozenset(list(s) + [e]) for s in out]
    return frozenset(out)


def s_big_union(a):
    out = []
    for e in a:
        out += list(e)
    return frozenset(out)


def s_big_intersect(a):
    a = list(a)
    if not a:
        return frozenset()
    return frozenset(e for e in a[0] if all(e in s for s in a[1:]))


# ---- relations --------------------------------------------------------------------------------------
def r_transpose(r):
    return frozenset(C(c[2], c[1]) for c in r)


def r_compose(r1, r2):
    return frozenset(C(c2[1], c1[2]) for c1 in r1 for c2 in r2 if c1[1] == c2[2])


def r_fu(r1, r2):
    u = s_union(r1, r2)
    return u if M.functional(u) else None


def r_rfu(r1, r2):
    u = s_union(r1, r2)
    return u if M.right_functional(u) else None


def r_fill_lefts(rel, renames):
    covered = M.rrights(renames)
    return frozenset(list(renames) + [C(l, l) for l in M.rlefts(rel) if l not in covered])


def r_rename(rel, renames):
    return r_compose(rel, r_fill_lefts(rel, renames))


def r_swap(rel, swaps):
    return r_rename(rel, s_union(swaps, r_transpose(swaps)))


def r_functional_add(r, c):
    if not M.functional(r) or c[1] in M.rlefts(r):
        return None
    return frozenset(list(r) + [c])


# ---- extensions -------------------------------------------------------------------------------------
def ext1(op):
    def f(a):
        return frozenset(x for x in (op(e) for e in a) if x is not None)
    return f


def ext2(op):
    def f(a, b):
        return frozenset(x for x in (op(e, g) for e in a for g in b) if x is not None)
    return f


def mext1(op):
    def f(a):
        return MS([(x, n) for x, n in ((op(e), n) for e, n in a.items()) if x is not None])
    return f


def mext2(op):
    def f(a, b):
        return MS([(x, n) for x, n in ((op(e, g), m * k) for e, m in a.items() for g, k in b.items())
                   if x is not None])
    return f


def c_lhs_cfu(lhs, rhs):
    out = [x for x in (r_fu(a, b) for a in lhs for b in rhs) if x is not None]
    out += [a for a in lhs if all(r_fu(a, b) is None for b in rhs)]
    return frozenset(out)


def mc_substrict(a, b):
    return MS([(e, n) for e, n in a.items() if any(s_sub(e, g) for g in b.keys())])


def mc_superstrict(a, b):
    return MS([(e, n) for e, n in a.items() if any(s_sub(g, e) for g in b.keys())])


# ---- multisets: multiplicities may be symbolic, so these build the expected counts explicitly --------
def _keys(a, b):
    ks = list(a.keys())
    return ks + [k for k in b.keys() if k not in a.d]


def _sel(a, b, f):
    out = MS()
    for k in _keys(a, b):
        n = f(a.get(k), b.get(k))
        if n > 0:
            out.d[k] = n
    return out


def m_union(a, b):
    return _sel(a, b, lambda x, y: x if x >= y else y)


def m_intersect(a, b):
    return _sel(a, b, lambda x, y: y if x >= y else x)


def m_add(a, b):
    return _sel(a, b, lambda x, y: x + y)


def m_minus(a, b):
    return _sel(a, b, lambda x, y: x - y if x > y else 0)


def m_sub(a, b):
    return all(bool(n <= b.get(k)) for k, n in a.items())


def m_substrict(a, b):
    return a if m_sub(a, b) else None


def m_superstrict(a, b):
    return a if m_sub(b, a) else None


def m_demultify(a):
    return frozenset(a.keys())


def m_big(f):
    def g(a):
        a = list(a)
        out = a[0]
        for x in a[1:]:
            out = f(out, x)
        return out
    return g


BIN_SET = {
    'sets.union': s_union, 'sets.intersect': s_intersect, 'sets.minus': s_minus,
    'sets.substrict': s_substrict, 'sets.superstrict': s_superstrict,
}
PRED_SET = {'sets.is_subset_of': s_sub, 'sets.is_superset_of': lambda a, b: s_sub(b, a)}
UN_SET = {'sets.multify': s_multify, 'sets.power_up': s_power_up, 'sets.power_set': s_power_set}
BIN_REL = {
    'relations.compose': r_compose, 'relations.functional_union': r_fu,
    'relations.right_functional_union': r_rfu,
}
REL_HELP = {'relations.fill_lefts': r_fill_lefts, 'relations.rename': r_rename, 'relations.swap': r_swap}
UN_REL = {'relations.transpose': r_transpose}
BIN_CLAN = {
    'clans.compose': ext2(r_compose), 'clans.cross_union': ext2(s_union),
    'clans.cross_functional_union': ext2(r_fu), 'clans.lhs_cross_functional_union': c_lhs_cfu,
    'clans.cross_right_functional_union': ext2(r_rfu), 'clans.cross_intersect': ext2(s_intersect),
    'clans.substrict': ext2(s_substrict), 'clans.superstrict': ext2(s_superstrict),
}
UN_CLAN = {'clans.transpose': ext1(r_transpose)}
BIN_MCLAN = {
    'multiclans.compose': mext2(r_compose), 'multiclans.cross_union': mext2(s_union),
    'multiclans.cross_functional_union': mext2(r_fu),
    'multiclans.cross_right_functional_union': mext2(r_rfu),
    'multiclans.cross_intersect': mext2(s_intersect),
    'multiclans.substrict': mc_substrict, 'multiclans.superstrict': mc_superstrict,
}
UN_MCLAN = {'multiclans.transpose': mext1(r_transpose)}
BIN_MSET = {
    'multisets.union': m_union, 'multisets.intersect': m_intersect, 'multisets.minus': m_minus,
    'multisets.add': m_add, 'multisets.substrict': m_substrict, 'multisets.superstrict': m_superstrict,
}
PRED_MSET = {'multisets.is_subset_of': m_sub, 'multisets.is_superset_of': lambda a, b: m_sub(b, a)}
UN_MSET = {'multisets.demultify': m_demultify}

BINARY = {}
for _d in (BIN_SET, BIN_REL, REL_HELP, BIN_CLAN, BIN_MCLAN, BIN_MSET):
    BINARY.update(_d)
UNARY = {}
for _d in (UN_SET, UN_REL, UN_CLAN, UN_MCLAN, UN_MSET):
    UNARY.update(_d)
PRED = {}
PRED.update(PRED_SET)
PRED.update(PRED_MSET)


def get(L, name):
    mod, fn = name.split('.')
    return getattr(getattr(L, mod), fn)


# ---- shapes -----------------------------------------------------------------------------------------
def atoms(n, k='a'):
    return ['S'] + [k] * n


def rel(n, l='a', r='a'):
    return ['S'] + [['C', l, r]] * n


def clan(sizes, l='a', r='a'):
    return ['S'] + [rel(n, l, r) for n in sizes]


def mset(n, m=(1, None), k='a'):
    return ['M'] + [[k, list(m) if isinstance(m, tuple) else m]] * n


def mclan(sizes, m=(1, None), l='a', r='a'):
    return ['M'] + [[rel(n, l, r), list(m) if isinstance(m, tuple) else m] for n in sizes]


GROUPS = (['relation', 'clan', 'multiclan'], ['absolute'], ['functional', 'regular'], ['right_functional', 'right_regular'],
          ['reflexive'], ['symmetric'], ['transitive'])
ALLF = ['relation', 'clan', 'multiclan', 'absolute', 'functional', 'right_functional', 'reflexive', 'symmetric',
        'transitive', 'regular', 'right_regular']


def flagged(fn, p, w=20, groups=GROUPS, member=True):
    """Prior knowledge for one case: each property group unknown or known, in every sound combination,
    on top of known algebra memberships; then everything known."""
    for g in groups:
        if member and 'relation' not in g:
            yield fn, dict(p, known=['relation', 'clan', 'multiclan'], lazy=g), w * 3
        else:
            yield fn, dict(p, lazy=g), w * 3
    yield fn, dict(p, known=ALLF, deep=True), w


def snap(ctx, *objs):
    """Denotation plus known cache states of operands, for immutability checks."""
    return [M.den(o) for o in objs]


# ---- generic harnesses --------------------------------------------------------------------------------
def h_binary(ctx):
    """Value of a binary operation, for every value of the operands and every sound cache state of
    them; operands unchanged; ``_checked=False`` agrees."""
    p = ctx.p
    L = ctx.L
    a = ctx.build('a', p['a'])
    b = a if p.get('alias') else ctx.build('b', p['b'])
    da, db = M.den(a), M.den(b)
    ctx.lazies(p, ('a', a), *([] if b is a else [('b', b)]))
    f = get(L, p['op'])
    kw = {} if p.get('checked', True) else {'_checked': False}
    r = f(a, b, **kw)
    if p.get('value', True):
        ctx.same(r, BINARY[p['op']](da, db), p['op'])
        ctx.same(a, da, p['op'] + ' left operand changed')
        ctx.same(b, db, p['op'] + ' right operand changed')
    if p.get('sound'):
        fields = p['sound'] if isinstance(p['sound'], list) else None
        ctx.sound(r, p['op'] + ' result', fields)
        ctx.sound(a, p['op'] + ' operand 1', fields)
        ctx.sound(b, p['op'] + ' operand 2', fields)


def h_unary(ctx):
    p = ctx.p
    L = ctx.L
    a = ctx.build('a', p['a'])
    da = M.den(a)
    ctx.lazies(p, ('a', a))
    f = get(L, p['op'])
    has_checked = p['op'] not in ('sets.power_up', 'sets.power_set')
    kw = {} if p.get('checked', True) or not has_checked else {'_checked': False}
    r = f(a, **kw)
    if p.get('value', True):
        ctx.same(r, UNARY[p['op']](da), p['op'])
        ctx.same(a, da, p['op'] + ' operand changed')
    if p.get('sound'):
        fields = p['sound'] if isinstance(p['sound'], list) else None
        ctx.sound(r, p['op'] + ' result', fields)
        ctx.sound(a, p['op'] + ' operand', fields)


def h_pred(ctx):
    p = ctx.p
    L = ctx.L
    a = ctx.build('a', p['a'])
    b = ctx.build('b', p['b'])
    da, db = M.den(a), M.den(b)
    kw = {} if p.get('checked', True) else {'_checked': False}
    r = get(L, p['op'])(a, b, **kw)
    ctx.check(bool(r) == bool(PRED[p['op']](da, db)), p['op'])
    ctx.check(r is True or r is False, p['op'] + ' returns a truth value')
    ctx.same(a, da, p['op'] + ' left operand changed')
    ctx.same(b, db, p['op'] + ' right operand changed')


# ---- larger operands, and atoms that look alike --------------------------------------------------------
# 'd' atoms are different from each other (any values); the free 'a' atoms may coincide with any of them.
_D, _L, _R = ['C', 'd', 'd'], ['C', 'a', 'd'], ['C', 'd', 'a']
_K = ['C', 'k', '#1']
_J = ['C', '#1.0', 'k']
_PAIRS = {
    'set': [(['S', 'd', 'd', 'd', 'd', 'a'], ['S', 'a', 'a', 'd', 'd', 'd']), (['S', 'k', 'k', 'a'], ['S', 'k', 'a']), (['S', _D, _D, _D, _L], ['S', _D, ['C', 'a', 'a'], _D]),
            (['S', ['S', 'd', 'd'], ['S', 'd'], ['S', 'd', 'd', 'a']], ['S', ['S', 'd', 'a'], ['S', 'a'], ['S', 'd']])],
    'mset': [(['M'] + [[x, [1, None]] for x in 'dddda'], ['M'] + [[x, [1, None]] for x in 'aadd']), (['M', ['k', [1, None]], ['k', [1, None]]], ['M', ['k', [1, None]], ['a', [1, None]]])],
    'rel': [(['S', _D, _D, _D, _L], ['S', _R, _D, _D]), (['S', _D, _D, _D, _D, _R], ['S', _L, _D, _D]), (['S', _K, _J, ['C', 'd', 'd']], ['S', _K, _J]), (['S', _J, ['C', 'k', 'k']], ['S', _K])],
    'clan': [(['S', ['S', _D, _D, _D], ['S', _D, _L]], ['S', ['S', _R, _D], ['S', _D, _D]]), (['S', ['S', _D], ['S', _D], ['S', _L], ['S']], ['S', ['S', _R], ['S', _D], ['S']]),
             (['S', ['S', _K], ['S', ['C', '#1', '#1.0']]], ['S', ['S', _J], ['S']])],
}
_PAIRS['mclan'] = [tuple(['M'] + [[r, [1, None]] for r in x[1:]] for x in p) for p in _PAIRS['clan']]


def pairs(kind):
    return [(a, b) for a, b in _PAIRS[kind]]


def singles(kind):
    return [x for p in _PAIRS[kind] for x in p]


WIDE_NOTE = ('; beyond these sizes, operands of a fixed sharing pattern with free values: up to 7 pairwise different atoms with further free atoms, relations of 4 to 9 couplets '
             'in chains, cycles, classes, fans and matchings over named free values, clans of up to 4 relations of such, and values that compare equal or look alike across types (1, 1.0, True, "1")')


def wide(fn, op, kind, **kw):
    """A binary operation on larger operands."""
    for a, b in pairs(kind):
        yield fn, dict(kw, op=op, a=a, b=b), 200


def wide1(fn, op, kind, **kw):
    for a in singles(kind):
        yield fn, dict(kw, op=op, a=a), 100


def links(text):
    """A relation over named values: 'xy yz' -> (x, y), (y, z); '.' is a value different from all others, '?' any value."""
    def leaf(c):
        return {'.': 'd', '?': 'a', '!': 'k'}.get(c, '@' + c)
    return ['S'] + [['C', leaf(t[0]), leaf(t[1])] for t in text.split()]


# relations in which the relational properties hold, or fail in one place, for some values of the names
LINKS = ('xy yz xz ??', 'xy yz zw xz yw xw', 'xy yz zw xz yw', 'xy yx zw wz ??', 'xy yx zw wz vv', 'xx xy yx yy xz zx yz zy zz', 'xx xy yx yy yz zy zz', 'xx yy zz w?', 'x. y. z. ?.', '.x .y .z .?', 'x. y? z. w.',
         '!x !y ?x', '!! ?!')
LINKED = (['x. y.', 'y. x.', 'x. ?.'], ['x. y. z.', 'z. ?. x.'], ['.x .y', '.y .?', '.x .y'], ['xy yx', 'zw wz', 'vv'], ['xx yy', 'zz w?'], ['xy yz xz', 'vw wu vu'], ['x. x. y.', 'x. y.'], ['!x', '?x', '!x'],
          ['x.', 'y.', 'z.', '?.'], ['.x .y', '.x .y .z'], ['xy', 'xz', 'yz', ''])
