"""C02: ordering is a strict order and printed forms are canonical."""
import itertools
from symx import model as M
try:
    from symx import engine as E
except ImportError:      # replay interpreter
    E = None

COVERS = ('less', 'equal', 'kinds', 'by value', 'by text', 'sorted', 'printed', 'triple', 'mixed', 'code')
BOUNDS = {
    'quick': 'pairs of up to 6 and triples of up to 6 leaves, nesting depth 3; all integer and text values, every value order and '
             'every order of their texts; multiplicities 1, 2 and 12; every order of up to 4 printed elements and 4 sorted objects',
    'thorough': 'pairs of up to 8 and triples of up to 7 leaves; every order of up to 5 printed elements and sorted objects'}
ASSUMPTIONS = ['texts of integer values are ordered by an arbitrary strict total order that is independent of the order of the '
               'values (likewise floats), texts of string values like the values; a quote sorts before digits']
FIRST = 0xE000           # private code points stand for the text of a symbolic value
TOK = []                 # (sort, expression, text rank expression)
KINDS = ('Atom', 'Couplet', 'Multiset', 'Set')


class SymStr(str):
    """Text that may contain symbolic pieces; comparing is decided by the solver."""
    __slots__ = ()

    def _cmp(self, o):
        """-1, 0, 1"""
        a, b = str.__str__(self), str.__str__(o)
        for x, y in zip(a, b):
            if x == y:
                continue
            i, j = ord(x) - FIRST, ord(y) - FIRST
            si, sj = 0 <= i < len(TOK), 0 <= j < len(TOK)
            if si and sj:
                (ki, vi, ri, _), (kj, vj, rj, _) = TOK[i], TOK[j]
                if ki != kj and 'opq' in (ki, kj):
                    return -1 if ki == 'opq' else 1
                if ki == kj and bool(E.SymInt(vi) == E.SymInt(vj)):
                    continue
                return -1 if bool(E.SymBool(ri < rj)) else 1
            if si or sj:
                k, c, sgn = (TOK[i][0], y, 1) if si else (TOK[j][0], x, -1)
                # the first character of a symbolic text: a quote (with constants '=..' later than symbolic strings) or a digit
                if k == 'opq':
                    return sgn * (1 if c < "'" else -1)
                return sgn * (1 if c < '0' else -1)
            return -1 if x < y else 1
        return (len(a) > len(b)) - (len(a) < len(b))

    def __lt__(self, o):
        return self._cmp(o) < 0

    def __le__(self, o):
        return self._cmp(o) <= 0

    def __gt__(self, o):
        return self._cmp(o) > 0

    def __ge__(self, o):
        return self._cmp(o) >= 0

    def __eq__(self, o):
        return isinstance(o, str) and self._cmp(o) == 0

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return 0


def wrap(f):
    return lambda self: SymStr(f(self))


def opq_lt(self, o):
    return E.SymBool(self.e < o.e) if type(o) is E.SymOpq else NotImplemented


def opq_gt(self, o):
    return E.SymBool(self.e > o.e) if type(o) is E.SymOpq else NotImplemented


def opq_le(self, o):
    return E.SymBool(self.e <= o.e) if type(o) is E.SymOpq else NotImplemented


def opq_ge(self, o):
    return E.SymBool(self.e >= o.e) if type(o) is E.SymOpq else NotImplemented


def setup(L, symbolic):
    if not symbolic:
        return
    for c in (L.mo.Atom, L.mo.Couplet, L.mo.Set, L.mo.Multiset):
        c.__repr__ = wrap(c.__repr__)
        c.__str__ = wrap(c.__str__)
    E.SymInt.__name__, E.SymOpq.__name__, SymFlt.__name__ = 'int', 'str', 'float'
    E.SymOpq.__lt__, E.SymOpq.__gt__, E.SymOpq.__le__, E.SymOpq.__ge__ = opq_lt, opq_gt, opq_le, opq_ge


if E is not None:
    class SymFlt(E.SymOpq):
        """A symbolic float: equality, order and text only."""
        __slots__ = ()

        @property
        def __class__(self):
            return float

        def __hash__(self):
            return 0

        def __eq__(self, o):
            return E.SymInt(self.e) == E.SymInt(o.e) if type(o) is SymFlt else NotImplemented

        def __ne__(self, o):
            return E.SymInt(self.e) != E.SymInt(o.e) if type(o) is SymFlt else NotImplemented

        def __lt__(self, o):
            return E.SymBool(self.e < o.e) if type(o) is SymFlt else NotImplemented

        def __gt__(self, o):
            return E.SymBool(self.e > o.e) if type(o) is SymFlt else NotImplemented

        def __le__(self, o):
            return E.SymBool(self.e <= o.e) if type(o) is SymFlt else NotImplemented

        def __ge__(self, o):
            return E.SymBool(self.e >= o.e) if type(o) is SymFlt else NotImplemented


def texts(ctx):
    """Give every value created from here on a text of its own."""
    if ctx.symbolic:
        del TOK[:]
        p, pf = ctx.fun('text'), ctx.fun('ftext')
        seen, orig, orig_opq = {}, ctx.val, ctx.opq

        def token(kind, name, e):
            x = seen.get((kind, name))
            if x is None:
                r = p(E.SymInt(e)).e if kind == 'val' else pf(E.SymInt(e)).e if kind == 'flt' else e
                for k, v, q, _ in TOK:
                    if 'opq' not in (k, kind):      # different values have different texts
                        ctx.assume(E.SymBool((v == e) == (q == r) if k == kind else q != r))
                x = seen[(kind, name)] = SymStr(chr(FIRST + len(TOK)))
                c = E.SymInt if kind == 'val' else SymFlt if kind == 'flt' else E.SymOpq
                TOK.append((kind, e, r, c(e, x)))
            return x

        def val(name):
            v = orig(name)
            return E.SymInt(v.e, token('val', name, v.e))

        def opq(name):
            v = orig_opq(name)
            return E.SymOpq(v.e, token('opq', name, v.e))

        def flt(name):
            v = ctx.int(name)
            return SymFlt(v.e, token('flt', name, v.e))
        ctx.val, ctx.opq, ctx.flt = val, opq, flt
        return
    rows = {tuple(a)[0]: r for a, r in ctx.funs.get('text', [])}
    frows = {tuple(a)[0]: r for a, r in ctx.funs.get('ftext', [])}
    order, text = sorted(rows), sorted(set(rows.values()) | set(frows.values()))
    raw = ctx.v
    forder = sorted(frows)

    def cflt(name):
        x = raw.get(name, 0)
        return float(str(text.index(frows[x]) + 10) + '0' * forder.index(x) + '.5') if x in frows else x + 0.5
    ctx.flt = cflt

    def cval(name):
        x = raw.get(name, 0)
        if x not in rows:
            return x
        # as many digits as the rank of the value, leading digits as the rank of the text
        return int(str(text.index(rows[x]) + 10) + '0' * order.index(x))
    strings = sorted(v for v in raw.values() if type(v) is int)

    def copq(name):
        return 'a%03d' % (strings.index(raw[name]) if name in raw else 0)
    ctx.val, ctx.opq = cval, copq


def name_of(o):
    return 'Atom' if o.is_atom else 'Couplet' if o.is_couplet else 'Set' if o.is_set else 'Multiset'


def build(ctx, name, shape):
    """Like ctx.build, with multiplicities 1, 2 or 12 where a list is given."""
    mo = ctx.L.mo
    if shape == 'f':
        return mo.Atom(ctx.flt(name))
    if isinstance(shape, str):
        return ctx.build(name, shape)
    if shape[0] == 'C':
        return mo.Couplet(build(ctx, name + '.l', shape[1]), build(ctx, name + '.r', shape[2]))
    if shape[0] == 'S':
        return mo.Set([build(ctx, '%s.%d' % (name, i), s) for i, s in enumerate(shape[1:])])
    es = []
    for i, (s, m) in enumerate(shape[1:]):
        if isinstance(m, list):
            m = m[ctx.choice('%s.%d#' % (name, i), len(m))]
        es += [build(ctx, '%s.%d' % (name, i), s)] * m
    return mo.Multiset(es)


def h_pair(ctx):
    p = ctx.p
    texts(ctx)
    x, y = build(ctx, 'x', p['x']), build(ctx, 'y', p['y'])
    same = bool(M.veq(M.view(x), M.view(y))) if name_of(x) == name_of(y) else False
    lt, gt, le, ge = bool(x < y), bool(x > y), bool(x <= y), bool(x >= y)
    tl = bool(y < x)
    ctx.check(lt + tl + same == 1, 'exactly one of less, greater and equal')
    ctx.check(gt is tl, '> and <')
    ctx.check(le is (lt or same), '<= and <, ==')
    ctx.check(ge is (tl or same), '>= and >, ==')
    ctx.check((y > x) == lt and (y <= x) == (not lt) and (y >= x) == (not tl), 'the other way round')
    ctx.check(not bool(x < x) and bool(x <= x) and not bool(x > x) and bool(x >= x), 'compared with itself')
    if same:
        ctx.cover('equal')
    elif lt:
        ctx.cover('less')
    if name_of(x) != name_of(y):
        ctx.cover('kinds')
        ctx.check(lt is (KINDS.index(name_of(x)) < KINDS.index(name_of(y))), 'kinds')
    elif x.is_atom and p['x'] == p['y']:
        ctx.cover('by value')
        ctx.check(lt is bool(x.value < y.value), 'atoms of one type are not ordered by their values')
    else:
        ctx.cover('by text')
    a, b = text_of(repr(x)), text_of(repr(y))
    ctx.check(bool(a == b) is same, 'printed forms of different objects')
    for o in (x, y):
        ctx.cover('code')
        c = evaluate(ctx, repr(o))
        ctx.check(type(c) is type(o) and bool(c == o), 'the code form is another object')
        ctx.check(len(str(o)) > 0, 'printed form')


def evaluate(ctx, text):
    mo = ctx.L.mo
    code = ''.join('T[%d]' % (ord(c) - FIRST) if ord(c) >= FIRST else c for c in text)
    t = [v[3] for v in TOK] if ctx.symbolic else None
    return eval(code, dict(Atom=mo.Atom, Couplet=mo.Couplet, Set=mo.Set, Multiset=mo.Multiset, T=t))


def text_of(s):
    return SymStr(s) if E is not None else s


def h_triple(ctx):
    p = ctx.p
    texts(ctx)
    x, y, z = build(ctx, 'x', p['x']), build(ctx, 'y', p['y']), build(ctx, 'z', p['z'])
    if bool(x < y) and bool(y < z):
        ctx.cover('triple')
        ctx.check(bool(x < z) and not bool(z < x) and not bool(z == x), 'not transitive')
    else:
        ctx.check(bool(y <= x) or bool(z <= y), 'neither less nor greater or equal')


def h_print(ctx):
    """The same elements supplied in another order, or repeatedly."""
    L, p = ctx.L, ctx.p
    texts(ctx)
    es = [build(ctx, 'e%d' % i, s) for i, s in enumerate(p['items'])]
    perms = list(itertools.permutations(range(len(es))))
    perm = perms[ctx.choice('perm', len(perms))]
    fs = [es[i] for i in perm]
    if p['kind'] == 'set':
        x, ys = L.mo.Set(es), [L.mo.Set(fs + fs[:1])]
    else:
        extra = [fs[0]] if p.get('repeat') else []
        x, ys = L.mo.Multiset(es + extra), [L.mo.Multiset(extra + fs)]
    if p.get('wrap') == 'couplet':
        x, ys = L.mo.Couplet(x, L.mo.Atom('k')), [L.mo.Couplet(y, L.mo.Atom('k')) for y in ys]
    elif p.get('wrap') == 'set':
        k = L.mo.Couplet(L.mo.Atom('k'), L.mo.Atom('l'))
        x, ys = L.mo.Set(x, k), [L.mo.Set(k, y) for y in ys]
    ctx.cover('printed')
    for y in ys:
        ctx.check(bool(text_of(repr(x)) == text_of(repr(y))), 'repr() depends on the order of construction')
        ctx.check(bool(text_of(str(x)) == text_of(str(y))), 'str() depends on the order of construction')
        ctx.check(not bool(x < y) and not bool(y < x), 'equal objects are ordered')


def h_sorted(ctx):
    L, p = ctx.L, ctx.p
    texts(ctx)
    xs = [build(ctx, 'x%d' % i, s) for i, s in enumerate(p['items'])]
    ctx.cover('sorted')
    r = sorted(xs)
    ctx.check(len(r) == len(xs) and all(any(a is b for b in r) for a in xs), 'elements are lost')
    for a, b in itertools.combinations(r, 2):
        ctx.check(not bool(b < a), 'not in order')
        ctx.check(KINDS.index(name_of(a)) <= KINDS.index(name_of(b)), 'kinds are mixed')
        if a.is_atom and b.is_atom and type(a.value) is type(b.value):
            ctx.check(bool(a.value <= b.value), 'atoms of one type do not ascend')
    down = sorted(xs, reverse=True)
    for a, b in zip(r, reversed(down)):
        ctx.check(bool(a == b), 'descending order')
    ctx.check(bool(min(xs) == r[0]) and bool(max(xs) == r[-1]), 'smallest and largest')


CONST = [1, True, 1.0, '1', 2, 0.5, 0, False, None, b'1', -1, '', 1 + 0j, 2j, 1j, (1,), 2.0, 10, 9]


def h_mixed(ctx):
    """Pairs of values that Python takes for equal or cannot compare."""
    L, p = ctx.L, ctx.p
    a, b = CONST[ctx.choice('a', len(CONST))], CONST[ctx.choice('b', len(CONST))]
    same = type(a) is type(b) and a == b
    for f in (L.mo.Atom, lambda v: L.mo.Couplet(v, v), lambda v: L.mo.Set([v]), lambda v: L.mo.Multiset([v, v])):
        x, y = f(a), f(b)
        ctx.check((x < y) + (y < x) + (x == y) == 1 and (x == y) is same, 'exactly one of less, greater and equal')
        ctx.check((x <= y) is (x < y or same) and (x >= y) is (y < x or same) and (x > y) is (y < x), 'operators disagree')
    ctx.check(repr(L.mo.Set([a, b, 'k'])) == repr(L.mo.Set(['k', b, a])), 'repr() depends on the order of construction')
    ctx.cover('mixed')


def cases(tier):
    big = tier == 'thorough'
    yield h_mixed, {}, 9
    m = [1, 2, 12]
    C, CB, S1, S2, SB, M1, M2 = ['C', 'a', 'a'], ['C', 'b', 'a'], ['S', 'a'], ['S', 'a', 'a'], ['S', 'b', 'a'], ['M', ['a', m]], ['M', ['a', m], ['a', m]]
    R, R2, CL, CS, MS_, DEEP = ['S', C], ['S', C, C], ['S', ['S', C]], ['C', S1, 'a'], ['M', [S1, m]], ['S', ['C', S1, 'a'], 'a']
    shapes = ['a', 'b', '=k', 'f', ['C', 'f', 'a'], ['S', 'f', 'a', 'b'], C, CB, ['C', 'a', C], CS, ['C', 'a', S1], ['S'], S1, S2, ['S', 'a', 'a', 'a'], SB, ['S', ['S']], ['S', S1], ['S', ['M'], 'a'], R, R2, CL, DEEP, ['M'], M1, M2, MS_,
              ['M', ['a', m], ['b', m]], ['M', [C, m]]]
    if big:
        shapes += [['S', 'a', 'a', 'a', 'a'], ['C', C, C], ['S', S1, S2], ['C', S2, S2], ['M', [C, m], ['a', m]], ['S', M1, 'a'], ['C', M1, 'a']]
    for i, x in enumerate(shapes):
        for y in shapes[i:]:
            yield h_pair, dict(x=x, y=y), 3 if x[0] == y[0] else 1
    tri = [['a', 'b', '=k', 'f'], [['S', 'f'], S1, ['S', 'f', 'a']], [C, CB, ['C', 'a', S1]], [S1, S2, ['S'], SB, R], [M1, MS_], ['a', C, S1, M1]]
    if big:
        tri += [[R, R2, CL], [S1, S2, DEEP], [MS_, ['M']], [C, CS, ['C', C, 'a']]]
    done = set()
    for group in tri:
        for x, y, z in itertools.product(group, repeat=3):
            if str((x, y, z)) not in done:
                done.add(str((x, y, z)))
                yield h_triple, dict(x=x, y=y, z=z), 2
    pool = [['a'], ['a', 'a'], ['a', 'b'], ['b', 'b'], ['a', 'a', 'a'], ['a', 'a', 'b'], ['b', 'b', 'a'], ['a', 'a', 'f'], ['f', 'a'], ['f', 'f', 'a', 'b'], [['C', 'f', 'a'], C], [C, C], [S1, S1], [C, 'a', S1], [M1, S1], [S1, S2], ['a', 'a', C], [CS, C], [['S'], S1, ['M']], [R, R],
            ['a', 'a', 'a', 'a'], [M1, M1], ['b', 'b', 'b'], ['a', 'b', C, S1], [C, C, C]]
    if big:
        pool += [['a', 'a', 'b', 'b', 'a'], [S1, S1, S1], [S2, S2], [R2, R], [CB, CB, 'a']]
    for items in pool:
        yield h_print, dict(kind='set', items=items), 4 ** len(items)
        yield h_print, dict(kind='multiset', items=items), 4 ** len(items)
        if len(items) < 4:
            yield h_print, dict(kind='multiset', items=items, repeat=True), 4 ** len(items)
            for w in ('couplet', 'set'):
                yield h_print, dict(kind='set', items=items, wrap=w), 4 ** len(items)
                yield h_print, dict(kind='multiset', items=items, wrap=w), 4 ** len(items)
    for items in [['a'], ['a', 'a'], ['b', 'b'], ['a', 'a', 'a'], ['b', 'b', 'b'], ['a', 'b', 'a'], ['a', 'f', 'a', 'f'], ['a', 'a', 'a', 'a'], ['a', C, S1, M1], [S1, 'a', C], [C, C, 'a'], [S1, S1, S2], [M1, S1, 'a', 'a'], ['b', 'a', C, 'b']] + (
            [['a'] * 5, [C, C, C], ['b', 'a', 'b', 'a', C]] if big else []):
        yield h_sorted, dict(items=items), 4 ** len(items)
