"""C01: structural equality is an equivalence and hashing agrees with it."""
import itertools
from symx import model as M
try:
    from symx import engine as E
except ImportError:      # replay interpreter
    E = None

COVERS = ('equal', 'different', 'kinds', 'order', 'types', 'foreign', 'found', 'stable', 'result')
BOUNDS = {
    'quick': 'pairs of objects of up to 4 leaves and nesting depth 3; all values, coincidences and multiplicities; every order '
             'of up to 4 supplied elements; built-in hash() an arbitrary function of value (order-independent on frozensets)',
    'thorough': 'pairs of objects of up to 6 leaves; every order of up to 5 supplied elements'}
ASSUMPTIONS = ['the hash of a built-in value is an uninterpreted function of the value; the hash of a tuple one of the '
               'component hashes; the hash of a frozenset an arbitrary symmetric function of the element hashes']
MASK = {2 ** k - 1: 2 ** k for k in (31, 32, 61, 63, 64)}


class Hashes:
    """The symbolic counterpart of the built-in ``hash`` inside the package."""

    def __init__(self):
        import z3
        self.z3 = z3
        i = z3.IntSort()
        self.f = {n: z3.Function('hash_' + n, *([i] * (k + 1))) for n, k in
                  (('int', 1), ('opq', 1), ('elem', 1), ('set', 1), ('t0', 1), ('t1', 1), ('t2', 2), ('t3', 3))}
        self.consts = {}

    def __call__(self, x):
        z3, f = self.z3, self.f
        t = type(x)
        if t is E.SymInt:
            return E.SymInt(f['int'](x.e))
        if t is E.SymOpq:
            return E.SymInt(f['opq'](x.e))
        if t is E.SymBool:
            return E.SymInt(f['int'](z3.If(x.e, 1, 0)))
        if t in (bool, int):
            return E.SymInt(f['int'](z3.IntVal(int(x))))
        if t is float and x == int(x):
            return E.SymInt(f['int'](z3.IntVal(int(x))))
        if t is tuple:
            return E.SymInt(f['t%d' % len(x)](*[E.SymInt._co(self(y)) for y in x] or [z3.IntVal(0)]))
        if t is frozenset:
            s = z3.IntVal(0)
            for y in x:
                s = s + f['elem'](E.SymInt._co(self(y)))
            return E.SymInt(f['set'](s))
        if hasattr(t, '_native_hash'):
            return t._native_hash(x)
        c = self.consts.get((t, x))
        if c is None:
            c = self.consts[(t, x)] = E.SymInt(z3.Int('hash_const_%d' % len(self.consts)))
        return c


def _and(self, o):
    if type(o) is int and o in MASK:
        return E.SymInt(self.e % MASK[o])
    return NotImplemented


HASH = None


def setup(L, symbolic):
    global HASH
    if not symbolic:
        HASH = hash
        return
    import sys
    HASH = Hashes()
    E.SymInt.__and__ = E.SymInt.__rand__ = _and
    for c in (L.mo.Atom, L.mo.Couplet, L.mo.Set, L.mo.Multiset):
        c._native_hash = c.__hash__
        c.__hash__ = _zero       # native containers keep deciding by the package's own equality
    for name, m in list(sys.modules.items()):
        if name.startswith('algebraixlib') and m is not None:
            m.__dict__['hash'] = HASH


def _zero(self):
    return 0


def both(ctx, x, y, want, msg):
    """Everything that is claimed about one pair."""
    eq, qe, ne, en = x == y, y == x, x != y, y != x
    ctx.check(M.iff(eq, want), msg + ': ==')
    ctx.check(M.iff(qe, want), msg + ': == the other way round')
    ctx.check(M.iff(ne, M.neg(want)), msg + ': !=')
    ctx.check(M.iff(en, M.neg(want)), msg + ': != the other way round')
    if bool(want):
        ctx.cover('equal')
        ctx.check(HASH(x) == HASH(y), msg + ': hashes of equal objects differ')
    else:
        ctx.cover('different')
    found(ctx, x, y, want, msg)


def found(ctx, x, y, want, msg):
    ctx.cover('found')
    w = bool(want)
    for c in ({x}, frozenset([x]), {x: 1}, [x], (x,)):
        ctx.check((y in c) is w, msg + ': membership in a container')
    ctx.check((len({x, y}) == 1) is w, msg + ': merged in a container')
    L = ctx.L
    ctx.check((L.mo.Set(x, y, direct_load=True).cardinality == 1) is w, msg + ': merged in a set')
    ctx.check((y in L.mo.Set([x])) is w and L.mo.Set([x]).has_element(y) is w, msg + ': member of a set')
    ctx.check((L.mo.Multiset([x, y]).get_multiplicity(x) == 2) is w, msg + ': counted in a multiset')
    ctx.check(bool(L.mo.Couplet(x, y) == L.mo.Couplet(x, x)) is w, msg + ': components of couplets')


def h_pair(ctx):
    p = ctx.p
    x, y = ctx.build('x', p['x']), ctx.build('y', p['y'])
    if kind(x) != kind(y):
        ctx.cover('kinds')
    if p.get('lazy'):
        ctx.lazy(x, 'x', p['lazy'])
    want = M.veq(M.view(x), M.view(y)) if kind(x) == kind(y) else False
    both(ctx, x, y, want, 'pair')
    # reflexive
    for o in (x, y):
        ctx.check(o == o, 'an object differs from itself')
        ctx.check(M.neg(o != o), 'an object is unequal to itself')
    if p.get('cached'):
        ctx.cover('stable')
        h = HASH(x)
        ctx.set_known(x, p['cached'], True)
        ctx.check(HASH(x) == h, 'the hash changes when properties are recorded')
        both(ctx, x, y, want, 'pair with properties recorded')


def kind(o):
    return (o.is_atom, o.is_couplet, o.is_set, o.is_multiset)


def h_order(ctx):
    """One collection of elements, supplied in two orders, with repetitions and through different routes."""
    L, p = ctx.L, ctx.p
    es = [ctx.build('e%d' % i, s) for i, s in enumerate(p['items'])]
    n = len(es)
    perms = list(itertools.permutations(range(n)))
    # the order of the second construction is arbitrary
    perm = perms[ctx.choice('perm', len(perms))]
    fs = [es[i] for i in perm]
    ctx.cover('order')
    rep = fs[:1] + fs if p.get('repeat') else fs
    if p['kind'] == 'set':
        x = L.mo.Set(es)
        ys = [L.mo.Set(*rep) if len(rep) > 1 else L.mo.Set([rep[0]]), L.mo.Set(rep, direct_load=True),
              L.mo.Set(frozenset(rep), direct_load=True)]
        acc = L.mo.Set()
        for e in rep:
            acc = L.sets.union(acc, L.mo.Set([e]))
        ys.append(acc)
        ys.append(L.sets.union(L.mo.Set(rep[:1]), L.mo.Set(rep[1:])))
    else:
        x = L.mo.Multiset(es)
        cnt = {}
        for e in fs:
            cnt[e] = cnt.get(e, 0) + 1
        ys = [L.mo.Multiset(fs), L.mo.Multiset(*fs) if n > 1 else L.mo.Multiset([fs[0]]), L.mo.Multiset(fs, direct_load=True),
              L.mo.Multiset(cnt), L.mo.Multiset(cnt, direct_load=True)]
        acc = L.mo.Multiset()
        for e in fs:
            acc = L.multisets.add(acc, L.mo.Multiset([e]))
        ys.append(acc)
    h = HASH(x)
    for i, y in enumerate(ys):
        ctx.check(x == y and y == x, 'order %d: ==' % i)
        ctx.check(M.neg(x != y), 'order %d: !=' % i)
        ctx.check(HASH(y) == h, 'order %d: hashes differ' % i)
        ctx.check(y in {x} and x in [y], 'order %d: not found' % i)
    # one level further out
    a, b = L.mo.Set([x, L.mo.Atom('k')]), L.mo.Set([L.mo.Atom('k'), ys[0]])
    ctx.check(a == b, 'nested: ==')
    ctx.check(HASH(a) == HASH(b), 'nested: hashes differ')
    c, d = L.mo.Couplet(x, ys[-1]), L.mo.Couplet(ys[-1], x)
    ctx.check(c == d, 'couplet: ==')
    ctx.check(HASH(c) == HASH(d), 'couplet: hashes differ')


def h_results(ctx):
    """Results of operations are equal, and hash equal, to objects constructed afresh."""
    L, p = ctx.L, ctx.p
    x, y = ctx.build('x', p['x']), ctx.build('y', p['y'])
    HASH(x)
    HASH(y)                  # recorded hashes must not travel to results
    ctx.lazies(p, ('x', x), ('y', y))
    m = getattr(L, p['mod'])
    f = getattr(m, p['op'])
    r = f(x, y) if p.get('args', 2) == 2 else f(x)
    if r is L.U:
        return
    ctx.cover('result')
    fresh = rebuild(L, r)
    ctx.check(r == fresh, 'result: ==')
    ctx.check(fresh == r, 'result: ==')
    ctx.check(HASH(r) == HASH(fresh), 'result: hashes differ')
    both(ctx, r, x, M.veq(M.view(r), M.view(x)) if kind(r) == kind(x) else False, 'result and operand')


def rebuild(L, o):
    if o.is_atom:
        return L.mo.Atom(o.value)
    if o.is_couplet:
        return L.mo.Couplet(rebuild(L, o.left), rebuild(L, o.right))
    if o.is_set:
        return L.mo.Set([rebuild(L, e) for e in reversed(list(o.data))])
    import collections
    c = collections.Counter()
    for e, n in reversed(list(o.data.items())):
        c[rebuild(L, e)] = n
    return L.mo.Multiset(c)


FOREIGN = [None, 1, 'k', 1.0, (), frozenset(), {}, [], object]


def h_foreign(ctx):
    """Nothing but a data object is equal to a data object."""
    L, p = ctx.L, ctx.p
    x = ctx.build('x', p['x'])
    ctx.cover('foreign')
    for v in FOREIGN + ([x.value] if x.is_atom else [x.data] if not x.is_couplet else [(x.left, x.right)]):
        ctx.check(M.neg(x == v) if not (x == v) is NotImplemented else False, 'equal to a value that is no data object')
        ctx.check(x != v, 'not unequal to a value that is no data object')


TYPED = [True, False, 1.0, 0.0, 2.0, -1.0, 1 + 0j, None, b'1', (1,)]


def h_types(ctx):
    """Atoms need the same value type, at any depth: an arbitrary integer and constants of other types."""
    L, p = ctx.L, ctx.p
    v = ctx.val('v')
    s = ctx.opq('s')
    c = TYPED[p['c']]
    ctx.cover('types')
    a = L.mo.Atom(v)
    for b in (L.mo.Atom(c), L.mo.Atom(s)):
        for x, y in ((a, b), (L.mo.Couplet(a, a), L.mo.Couplet(a, b)), (L.mo.Set([a]), L.mo.Set([b])),
                     (L.mo.Multiset([a]), L.mo.Multiset([b])), (L.mo.Set([L.mo.Couplet(b, a)]), L.mo.Set([L.mo.Couplet(a, a)]))):
            both(ctx, x, y, False, 'value types')
        ctx.check(len(L.mo.Set([a, b])) == 2, 'values of two types are merged in a set')
        ctx.check(L.mo.Multiset([a, b]).get_multiplicity(a) == 1, 'values of two types are merged in a multiset')
    same = L.mo.Atom(c)
    ctx.check(same == L.mo.Atom(c) and HASH(same) == HASH(L.mo.Atom(c)), 'constants')


def cases(tier):
    big = tier == 'thorough'
    C, SA, SB, MA = ['C', 'a', 'a'], ['S', 'a'], ['S', 'b'], ['M', ['a', [1, None]]]
    S2, S3, M2 = ['S', 'a', 'a'], ['S', 'a', 'a', 'a'], ['M', ['a', [1, None]], ['a', [1, None]]]
    REL, REL2 = ['S', C], ['S', C, C]
    CL, SS, SM, MR, CS, CM = ['S', REL], ['S', SA, S2], ['S', MA, 'a'], ['M', [REL, [1, None]]], ['C', SA, SA], ['C', MA, 'a']
    DEEP = ['S', ['C', ['S', 'a', 'b'], 'a'], 'b']
    shapes = ['a', 'b', '=k', C, ['C', 'b', 'a'], ['C', C, 'a'], ['C', 'a', C], ['S'], ['M'], SA, SB, S2, S3, ['S', 'a', 'b'], MA, M2, ['M', ['a', 1], ['b', 2]], REL, REL2, CL,
              ['S', ['S']], ['S', ['M']], ['S', ['S'], 'a'], SS, SM, MR, CS, CM, DEEP, ['S', ['C', 'a', 'b'], ['S', 'a'], 'a'], ['M', [SA, [1, None]], [['S'], [1, None]]]]
    if big:
        shapes += [['S', 'a', 'a', 'a', 'a'], ['S', C, C, C], ['S', REL, REL2], ['M', ['a', [1, None]], ['a', [1, None]], ['a', [1, None]]], ['S', S2, S2], ['S', SS, 'a'], ['C', S2, S2],
                   ['M', [REL2, [1, None]], [REL, [1, None]]]]
    for i, x in enumerate(shapes):
        for y in shapes[i:]:
            same = x[0] == y[0]
            yield h_pair, dict(x=x, y=y, lazy=list(M.FIELDS) if x[0] in 'SM' else None), 8 if same else 1
            if same:
                yield h_pair, dict(x=x, y=y, cached=M.FIELDS), 10
    pool = [['a'], ['a', 'a'], ['a', 'b'], ['a', 'a', 'a'], ['a', C], [C, C], [SA, SA], [C, SA, 'a'], [MA, SA], ['b', 'b', 'a'], [REL, REL], [C, C, C], ['a', 'a', 'a', 'a'], [['S'], SA, ['M']], [CS, CS]]
    if big:
        pool += [[C, C, C, C], ['a', 'a', 'b', 'b', 'a'], [S2, S2, SA], [REL2, REL, 'a']]
    for items in pool:
        yield h_order, dict(kind='set', items=items), 4 ** len(items)
        yield h_order, dict(kind='set', items=items, repeat=True), 4 ** len(items)
        yield h_order, dict(kind='multiset', items=items), 4 ** len(items)
    for op in ('union', 'intersect', 'minus', 'substrict', 'superstrict'):
        yield h_results, dict(mod='sets', op=op, x=S2, y=S2, lazy=['relation', 'absolute'])
        yield h_results, dict(mod='sets', op=op, x=REL2, y=REL, lazy=['relation', 'functional'])
    for op in ('union', 'intersect', 'minus', 'add', 'substrict', 'superstrict'):
        yield h_results, dict(mod='multisets', op=op, x=M2, y=M2)
        yield h_results, dict(mod='multisets', op=op, x=M2, y=MA)
    for mod, x, y in (('relations', REL2, REL), ('clans', ['S', REL2], ['S', REL]), ('couplets', C, C), ('multiclans', MR, MR)):
        yield h_results, dict(mod=mod, op='compose', x=x, y=y, lazy=['functional'] if mod != 'couplets' else None)
        yield h_results, dict(mod=mod, op='transpose', x=x, y=y, args=1, lazy=['functional', 'symmetric'] if mod != 'couplets' else None)
    yield h_results, dict(mod='clans', op='cross_union', x=CL, y=CL, lazy=['regular'])
    yield h_results, dict(mod='multiclans', op='cross_union', x=MR, y=MR)
    for x in shapes[:20]:
        yield h_foreign, dict(x=x)
    for c in range(len(TYPED)):
        yield h_types, dict(c=c)
