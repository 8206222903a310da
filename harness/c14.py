"""C14: undefined arguments give undefined results, or raise exactly as configured."""
from symx import model as M
from . import ops
from .ops import atoms, rel, clan, mclan, mset

COVERS = ('undef', 'raised', 'defined', 'dropped')
BOUNDS = {
    'quick': 'every operation and predicate of the algebras, extension and slicing with every argument position made undefined or of every wrong kind; the level is an unbounded symbolic integer; operands of up to '
             '2 couplets per position with unbounded symbolic values',
    'thorough': 'operands of up to 3 couplets per position'}
ASSUMPTIONS = ['exactly one argument at a time is wrong', 'the level is at least 0']

CP = ['C', 'a', 'a']
GOOD = {'set': atoms(1), 'mset': mset(1, 2), 'rel': rel(1), 'clan': clan([1]), 'mclan': mclan([1], 2), 'cp': CP, 'setset': ['S', atoms(1)],
        'setmset': ['S', mset(1, 2)], 'mo': rel(1), 'sm': atoms(1), 'any': 'a', 'int': 'int', 'fn': 'fn', 'op1': 'op1', 'op2': 'op2', 'less': 'less', 'mof': clan([1])}
WRONG = {
    'set': ['a', CP, mset(1, 2), ['M']],
    'mset': ['a', CP, atoms(1), ['S'], clan([1])],
    'rel': ['a', CP, atoms(1), clan([1]), ['S', CP, 'a'], mset(1, 2), ['M', [CP, 1]]],
    'clan': ['a', CP, atoms(1), rel(1), ['S', rel(1), 'a'], ['S', rel(1), CP], mclan([1], 1), ['S', clan([1])]],
    'mclan': ['a', CP, atoms(1), rel(1), clan([1]), mset(1, 2), ['M', [rel(1), 1], ['a', 1]], ['M', [CP, 1]], ['M', [clan([1]), 1]]],
    'cp': ['a', atoms(1), rel(1), mset(1, 2)],
    'setset': ['a', CP, mset(1, 2), ['M']],
    'setmset': ['a', CP, ['M', [mset(1, 2), 1]]],
    'sm': ['a', CP],
    'mo': [], 'any': [], 'fn': [], 'op1': [], 'op2': [], 'less': [], 'int': ['text', 'atomtext'],
    'mof': [],
}
# argument kinds of every operation; level: lowest level at which a wrong argument raises (default 1)
T = {}
for _n in ('union', 'intersect', 'minus', 'substrict', 'superstrict', 'is_subset_of', 'is_superset_of'):
    T['sets.' + _n] = ('set', 'set')
    T['multisets.' + _n] = ('mset', 'mset')
T['multisets.add'] = ('mset', 'mset')
for _n in ('single', 'some', 'power_set', 'power_up', 'multify'):
    T['sets.' + _n] = ('set',)
T['sets.restrict'] = ('set', 'fn')
T['sets.big_union'] = T['sets.big_intersect'] = ('setset',)
T['multisets.big_union'] = T['multisets.big_intersect'] = ('setmset',)
for _n in ('single', 'some', 'demultify'):
    T['multisets.' + _n] = ('mset',)
T['couplets.transpose'] = T['couplets.is_reflexive'] = ('cp',)
T['couplets.compose'] = ('cp', 'cp')
for _n in ('compose', 'functional_union', 'right_functional_union', 'fill_lefts', 'rename', 'swap'):
    T['relations.' + _n] = ('rel', 'rel')
for _n in ('transpose', 'get_lefts', 'get_rights', 'is_functional', 'is_right_functional', 'is_reflexive', 'is_symmetric', 'is_transitive'):
    T['relations.' + _n] = ('rel',)
    T['clans.' + _n] = ('clan',)
    T['multiclans.' + _n] = ('mclan',)
for _n in ('is_regular', 'is_right_regular'):
    T['clans.' + _n] = ('clan',)
    T['multiclans.' + _n] = ('mclan',)
for _n in ('get_rights_for_left', 'get_right', 'get_left', 'defined_at'):
    T['relations.' + _n] = ('rel', 'any')
T['relations.functional_add'] = ('rel', 'cp')
T['relations.diag'] = T['clans.diag'] = T['multiclans.diag'] = ('any',)
for _n in ('compose', 'cross_union', 'cross_functional_union', 'cross_right_functional_union', 'cross_intersect', 'substrict', 'superstrict'):
    T['clans.' + _n] = ('clan', 'clan')
    T['multiclans.' + _n] = ('mclan', 'mclan')
T['clans.lhs_cross_functional_union'] = ('clan', 'clan')
T['clans.project'] = T['clans.defined_at'] = ('clan', 'any')
T['multiclans.project'] = T['multiclans.defined_at'] = T['multiclans.get_rights_for_left'] = ('mclan', 'any')
T['multiclans.multiclan_to_listgen'] = ('mclan', 'int', 'int')
T['multiclans.order_slice_to_listgen'] = T['multiclans.order_slice'] = ('mclan', 'less', 'int', 'int')
T['extension.unary_extend'] = ('set', 'op1')
T['extension.unary_multi_extend'] = ('sm', 'op1')
T['extension.binary_extend'] = ('set', 'set', 'op2')
T['extension.binary_multi_extend'] = ('mset', 'mset', 'op2')
PROPS = ('is_functional', 'is_right_functional', 'is_bijective', 'is_reflexive', 'is_symmetric', 'is_transitive', 'is_equivalence_relation', 'is_regular', 'is_right_regular')
for _n in PROPS:
    T['properties.' + _n] = ('mof',)
UNCHECKED_NOT = {'sets.single', 'sets.some', 'sets.power_set', 'sets.power_up', 'sets.restrict', 'multisets.single', 'multisets.some', 'relations.functional_add',
                 'clans.project', 'multiclans.project'}
# the rights for an undefined left are the empty set, by definition
EMPTY_FOR_UNDEF = {('relations.get_rights_for_left', 1), ('multiclans.get_rights_for_left', 1)}
LEVEL = {('multisets.some', 0): 2, ('clans.defined_at', 0): 2, ('multiclans.defined_at', 0): 2}
LEVEL_UNDEF = {}


def arg(ctx, i, kind, checked=True):
    if kind == 'int':
        x = ctx.int('n%d' % i, 0)
        return x if checked else ctx.L.mo.Atom(x)
    if kind == 'fn':
        return lambda e: True
    if kind == 'less':
        return lambda a, b: ctx.L.mo.Atom(False)
    if kind == 'op1':
        return lambda a: a
    if kind == 'op2':
        return lambda a, b: a
    if kind == 'text':
        return 'text'
    if kind == 'atomtext':
        return ctx.L.mo.Atom('text')
    return ctx.build('x%d' % i, kind)


class Level:
    def __init__(self, ctx, lo=0):
        self.r = ctx.L.ud.RaiseOnUndef
        self.n = ctx.int('level', lo)

    def __enter__(self):
        self.r.set_level(self.n)
        return self.n

    def __exit__(self, *a):
        self.r.reset()
        return False


def run(ctx, f, args, kw):
    """('raised',) or ('value', x)"""
    try:
        return 'value', f(*args, **kw)
    except ctx.L.ud.UndefException:
        return 'raised', None


def expect_undef(ctx, what, how, val, lvl, at):
    if how == 'raised':
        ctx.cover('raised')
        ctx.check(lvl >= at, '%s raised below level %s' % (what, at))
    else:
        ctx.cover('undef')
        ctx.check(val is ctx.L.U, '%s is %s, not undefined' % (what, type(val).__name__))
        ctx.check(lvl < at, '%s did not raise at level %s' % (what, at))


def h_wrong(ctx):
    """One undefined or wrong argument."""
    L, p = ctx.L, ctx.p
    name, pos, bad, checked = p['f'], p['pos'], p['bad'], p.get('checked', True)
    kinds = T[name]
    args = [arg(ctx, i, GOOD[k], checked) for i, k in enumerate(kinds)]
    args[pos] = L.U if bad == 'U' else arg(ctx, pos, bad)
    ctx.lazies(p, *[('x%d' % i, a) for i, a in enumerate(args) if getattr(a, 'is_set', False) or getattr(a, 'is_multiset', False)])
    kw = {} if checked else {'_checked': False}
    with Level(ctx) as lvl:
        how, val = run(ctx, ops.get(L, name), args, kw)
    if bad == 'U' and (name, pos) in EMPTY_FOR_UNDEF:
        ctx.check(how == 'value' and val.is_set and val.is_empty, name + ' for an undefined left')
        return
    at = 2 if bad == 'U' and not (name.startswith('properties.') and checked) else 1
    at = max(at, LEVEL.get((name, pos), 0))
    expect_undef(ctx, '%s(%s at %d)' % (name, bad, pos), how, val, lvl, at)


def h_na(ctx):
    """Predicates on objects they do not apply to."""
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    ctx.lazies(p, ('a', a))
    v = M.view(a)
    fields = {'is_bijective': 'functional', 'is_equivalence_relation': 'symmetric'}
    with Level(ctx) as lvl:
        for n in PROPS:
            field = fields.get(n, n[3:])
            if M.v_prop(v, field) is not None:
                continue
            how, val = run(ctx, getattr(L.properties, n), [a], {'_checked': False} if p.get('checked') is False else {})
            expect_undef(ctx, 'properties.' + n, how, val, lvl, 2)


def h_outcome(ctx):
    """Operations whose result may be undefined for arguments of the right kind; defined results are unaffected."""
    L, p = ctx.L, ctx.p
    name, checked = p['f'], p.get('checked', True)
    args = [ctx.build('x%d' % i, s) for i, s in enumerate(p['args'])]
    dens = [M.den(a) for a in args]
    kw = {} if checked else {'_checked': False}
    want, at = REF[name](*dens)
    ctx.lazies(p, *[('x%d' % i, a) for i, a in enumerate(args) if a.is_set or a.is_multiset])
    with Level(ctx) as lvl:
        how, val = run(ctx, ops.get(L, name), args, kw)
    if want is None:
        expect_undef(ctx, name, how, val, lvl, at)
    elif how == 'raised':
        # level 2 also reports undefined combinations that are left out of the result
        ctx.cover('dropped')
        ctx.check(at == 2, name + ' raised although the result and all its parts are defined')
        ctx.check(lvl >= 2, name + ' raised below level 2 although the result is defined')
    else:
        ctx.cover('defined')
        if want is True or want is False:
            ctx.check(val is want, name)
        else:
            ctx.same(val, want, name)
        if at == 2:
            ctx.check(lvl < 2, name + ' did not raise for an undefined combination')


def _r(f, at):
    """Reference and level of an undefined outcome (a defined outcome never raises)."""
    def g(*d):
        x = f(*d)
        return x, (at if x is None else 0)
    return g


def _ext(f):
    """Extended operation: raises at level 2 if some combination is undefined."""
    def g(a, b):
        xs = [f(x, y) for x in a for y in b]
        return frozenset(x for x in xs if x is not None), (2 if any(x is None for x in xs) else 0)
    return g


def _right(r, x):
    vs = [c[2] for c in r if c[1] == x]
    return vs[0] if len(vs) == 1 else None


def _left(r, x):
    vs = [c[1] for c in r if c[2] == x]
    return vs[0] if len(vs) == 1 else None


def _compose(a, b):
    xs = [(x, y) for x in a for y in b]
    bad = any(not (x[1] == y[2]) for x, y in xs)
    return ops.r_compose(a, b), (2 if bad else 0)


def _ccompose(a, b):
    bad = any(_compose(x, y)[1] for x in a for y in b)
    return ops.ext2(ops.r_compose)(a, b), (2 if bad else 0)


def _lhs(a, b):
    xs = [ops.r_fu(x, y) for x in a for y in b]
    return ops.c_lhs_cfu(a, b), (2 if any(x is None for x in xs) else 0)


def _cdef(c, l):
    out = frozenset(r for r in c if any(bool(x[1] == l) for x in r))
    return (out if len(out) else None), (1 if not len(out) else 2 if len(out) < len(c) else 0)


def _cp(a, b):
    return ('C', b[1], a[2]) if a[1] == b[2] else None


def _single(s):
    return list(s)[0] if len(s) == 1 else None


def _some(s):
    return list(s)[0] if len(s) == 1 else None      # used with at most one element


def _msingle(m):
    return list(m.keys())[0] if len(m.d) == 1 and list(m.d.values())[0] == 1 else None


REF = {
    'sets.substrict': _r(ops.s_substrict, 2), 'sets.superstrict': _r(ops.s_superstrict, 2), 'sets.union': _r(ops.s_union, 0), 'sets.intersect': _r(ops.s_intersect, 0),
    'sets.minus': _r(ops.s_minus, 0), 'sets.is_subset_of': _r(ops.s_sub, 0), 'sets.single': _r(_single, 2), 'sets.some': _r(_some, 2),
    'multisets.substrict': _r(ops.m_substrict, 2), 'multisets.superstrict': _r(ops.m_superstrict, 2), 'multisets.single': _r(_msingle, 2),
    'multisets.union': _r(ops.m_union, 0), 'multisets.minus': _r(ops.m_minus, 0),
    'couplets.compose': _r(_cp, 2), 'relations.functional_union': _r(ops.r_fu, 2), 'relations.right_functional_union': _r(ops.r_rfu, 2),
    'relations.compose': _compose, 'relations.get_right': _r(_right, 1), 'relations.get_left': _r(_left, 1),
    'relations.transpose': _r(ops.r_transpose, 0), 'relations.is_functional': _r(M.functional, 0),
    'relations.defined_at': lambda r, l: ((r, 0) if any(bool(c[1] == l) for c in r) else (None, 2)),
    'relations.get_rights_for_left': lambda r, l: (frozenset(c[2] for c in r if c[1] == l), 0),
    'clans.cross_union': _r(ops.ext2(ops.s_union), 0), 'clans.cross_functional_union': _ext(ops.r_fu), 'clans.cross_right_functional_union': _ext(ops.r_rfu),
    'clans.lhs_cross_functional_union': _lhs, 'clans.compose': _ccompose, 'clans.defined_at': _cdef,
    'clans.substrict': _ext(ops.s_substrict), 'clans.superstrict': _ext(ops.s_superstrict), 'clans.is_functional': _r(lambda c: all(M.functional(r) for r in c), 0),
    'clans.is_regular': _r(M.regular, 0),
}


def cases(tier):
    big = tier == 'thorough'
    for f, kinds in T.items():
        for pos, k in enumerate(kinds):
            if k in ('fn', 'op1', 'op2', 'less'):
                continue
            yield h_wrong, dict(f=f, pos=pos, bad='U')
            if f not in UNCHECKED_NOT:
                yield h_wrong, dict(f=f, pos=pos, bad='U', checked=False)
            for bad in WRONG[k]:
                yield h_wrong, dict(f=f, pos=pos, bad=bad)
                if isinstance(bad, list) and bad[0] in 'SM' and k in ('rel', 'clan', 'mclan'):
                    yield h_wrong, dict(f=f, pos=pos, bad=bad, lazy=['relation', 'clan', 'multiclan', 'functional'])
    for a in ('a', CP, atoms(1), atoms(2), mset(1, 2), ['S', 'a', CP], ['S', 'a', rel(1)], ['M', [CP, 1]], rel(1), rel(2), ['S', ['S', 'a']], ['M', [mset(1, 1), 1]]):
        for lazy in (None, ['relation', 'functional', 'regular'], ['clan', 'reflexive', 'right_functional']):
            if lazy and (isinstance(a, str) or a[0] == 'C'):
                continue
            yield h_na, dict(a=a, lazy=lazy)
        yield h_na, dict(a=a, checked=False)
    R2 = [(rel(1), rel(1)), (rel(2), rel(1)), (rel(1), rel(2)), (rel(0), rel(1)), (rel(1), rel(0))] + ([(rel(2), rel(2)), (rel(3), rel(2))] if big else [(rel(2), rel(2))])
    C2 = [(clan([1]), clan([1])), (clan([1, 1]), clan([1])), (clan([1]), clan([1, 1])), (clan([2]), clan([1])), (clan([0]), clan([1])), (clan([]), clan([1])), (clan([1]), clan([]))]
    if big:
        C2 += [(clan([2]), clan([2])), (clan([2, 1]), clan([1])), (clan([1, 1]), clan([1, 1]))]
    S2 = [(atoms(1), atoms(1)), (atoms(2), atoms(1)), (atoms(1), atoms(2)), (atoms(2), atoms(2)), (atoms(0), atoms(1)), (atoms(1), atoms(0))]
    M2 = [(mset(1, (1, None)), mset(1, (1, None))), (mset(2, (1, None)), mset(1, (1, None))), (mset(1, (1, None)), mset(2, (1, None))), (mset(0), mset(1)), (mset(1), mset(0))]
    for f in REF:
        if f.startswith('sets.si') or f.startswith('sets.so'):
            sh = [(atoms(0),), (atoms(1),)] + ([(atoms(2),)] if 'single' in f else [])
        elif f == 'multisets.single':
            sh = [(mset(0),), (mset(1, (1, None)),), (mset(2, (1, None)),)]
        elif f.startswith('sets.'):
            sh = S2
        elif f.startswith('multisets.'):
            sh = M2
        elif f == 'couplets.compose':
            sh = [(CP, CP)]
        elif f in ('relations.transpose', 'relations.is_functional'):
            sh = [(rel(0),), (rel(2),)]
        elif f in ('clans.is_functional', 'clans.is_regular'):
            sh = [(clan([]),), (clan([2]),), (clan([1, 1]),)]
        elif f.startswith('relations.') and T[f][1] == 'any':
            sh = [(rel(n), 'a') for n in (0, 1, 2, 3)]
        elif f.startswith('relations.'):
            sh = R2
        elif f == 'clans.defined_at':
            sh = [(clan(s), 'a') for s in ([], [0], [1], [1, 1], [2], [0, 1], [2, 1])]
        else:
            sh = C2
        for s in sh:
            for c in (True, False):
                if not c and f in UNCHECKED_NOT:
                    continue
                yield h_outcome, dict(f=f, args=list(s), checked=c), 40
            if f.startswith(('relations.', 'clans.')):
                yield h_outcome, dict(f=f, args=list(s), lazy=['functional', 'right_functional']), 60
