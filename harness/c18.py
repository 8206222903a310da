"""C18: structural type algebra and membership tests are sound and consistent."""
from symx import model as M
from .ops import atoms, rel, clan, mclan, mset

COVERS = ('subset', 'not-subset', 'chain', 'same', 'member', 'not-member', 'inside', 'outside', 'level')
BOUNDS = {
    'quick': 'pairs of structures with nesting depths up to 2 (depths adding up to at most 3), triples up to depth 1 (products and unions of two parts), parts stay undecided until the code inspects them; '
             'all objects (atom, couplet, set, multiset) to nesting depth 1 with up to two components and depth 2 with one, 21 deeper shapes, every sound combination of remembered properties',
    'thorough': 'pairs with depths adding up to 4, triples adding up to 4; objects to depth 1 with three components, depth 2 with two and depth 3 with one'}
ASSUMPTIONS = ['the empty set and multiset have the empty ground set, which is within every other one (the library\'s convention)',
               'the set of natural numbers occurs only as the right part of a product, as in the ground sets of multisets',
               'a union of one part equals that part (as the library has it)']


class LazyS:
    """A structure whose form is a solver variable that is decided when the code first looks at it."""
    __slots__ = ('mk', 'real')

    def __init__(self, mk):
        self.mk = mk
        self.real = None

    def get(self):
        if self.real is None:
            self.real = self.mk()
        return self.real

    @property
    def __class__(self):
        return type(self.get())

    def __getattr__(self, n):
        return getattr(self.get(), n)

    def __eq__(self, o):
        return self.get() == o

    def __ne__(self, o):
        return self.get() != o

    def __le__(self, o):
        return self.get() <= o

    def __hash__(self):
        return 0

    def __repr__(self):
        return repr(self.get())

    def __str__(self):
        return str(self.get())


def setup(L, symbolic):
    if symbolic:
        # type() of an undecided structure decides it
        L.structure.__dict__['type'] = lambda x: x.__class__


def struct(ctx, name, depth, right=False, empty=False):
    """Any structure up to ``depth``: A, M, (N as right part of a product), powerset, product, union of one or two."""
    S = ctx.L.structure
    kinds = [lambda: S.GenesisSetA(), lambda: S.GenesisSetM()]
    if right:
        kinds.append(lambda: S.GenesisSetN())
    if empty:
        kinds.append(lambda: S.Structure())
    if depth:
        kinds += [lambda: S.PowerSet(struct(ctx, name + 'p', depth - 1)),
                  lambda: S.CartesianProduct(struct(ctx, name + 'l', depth - 1), struct(ctx, name + 'r', depth - 1, True)),
                  lambda: S.Union([struct(ctx, name + 'u', depth - 1), struct(ctx, name + 'v', depth - 1)])]
        if empty:
            kinds.append(lambda: S.PowerSet(S.Structure()))

    def mk():
        return kinds[ctx.choice(name, len(kinds))]()
    return LazyS(mk) if ctx.symbolic else mk()


def force(L, s):
    """The structure with every undecided part decided."""
    S = L.structure
    if isinstance(s, S.PowerSet):
        return S.PowerSet(force(L, s.base_set))
    if isinstance(s, S.CartesianProduct):
        return S.CartesianProduct(force(L, s.left), force(L, s.right))
    if isinstance(s, S.Union):
        return S.Union([force(L, x) for x in s.data])
    return s.get() if isinstance(s, LazyS) else s


def true_hash(L, s):
    """The hash of the decided structure, without the stub that makes all hashes collide."""
    mods = [L.structure, L.structure._misc]
    stubs = [m.__dict__.pop('hash', None) for m in mods]
    try:
        return hash(force(L, s))
    finally:
        for m, h in zip(mods, stubs):
            if h is not None:
                m.__dict__['hash'] = h


# ---- reference: the structures as plain tuples, subset as derivability ------------------------------
def plain(L, s):
    S = L.structure
    for n in ('GenesisSetA', 'GenesisSetM', 'GenesisSetN'):
        if isinstance(s, getattr(S, n)):
            return n[-1]
    if isinstance(s, S.PowerSet):
        return ('P', plain(L, s.base_set))
    if isinstance(s, S.CartesianProduct):
        return ('C', plain(L, s.left), plain(L, s.right))
    if isinstance(s, S.Union):
        ps = []
        for x in s.data:
            p = plain(L, x)
            ps += [y for y in (p[1:] if p[0] == 'U' else [p]) if y not in ps]
        return ps[0] if len(ps) == 1 else ('U',) + tuple(ps)
    return 'E'


def parts(p):
    return p[1:] if p[0] == 'U' else (p,)


def sub(p, q):
    """Reference subset relation on plain structures."""
    if p == 'E' or p == q:
        return True
    if p[0] == 'U':
        return all(sub(x, q) for x in parts(p))
    if q[0] == 'U':
        return any(sub(p, x) for x in parts(q))
    if q == 'M':
        return p != 'N'
    if p[0] == 'P' and q[0] == 'P':
        return sub(p[1], q[1])
    if p[0] == 'C' and q[0] == 'C':
        return sub(p[1], q[1]) and sub(p[2], q[2])
    return False


def holds(v, p):
    """Does the object with view ``v`` belong to the structure ``p`` (a plain structure)?"""
    if p == 'M':
        return True
    if p == 'E':
        return v[0] in 'SM' and not v[1]
    if p == 'A':
        return v[0] == 'A'
    if p[0] == 'U':
        return any(holds(v, x) for x in p[1:])
    if p[0] == 'C':
        return v[0] == 'C' and holds(v[1], p[1]) and p[2] != 'N' and holds(v[2], p[2])
    if p[0] == 'P':
        if v[0] == 'M':
            return not v[1] or (p[1][0] == 'C' and p[1][2] == 'N' and all(holds(x, p[1][1]) for x in v[1])) or p[1] == 'M'
        return v[0] == 'S' and all(holds(x, p[1]) for x in v[1])
    return False


def rsub(L, p, q):
    """Reference subset relation on structures; looks at no more than it needs."""
    S = L.structure
    if isinstance(q, S.GenesisSetM):
        return not isinstance(p, S.GenesisSetN) and not (isinstance(p, S.Union) and any(isinstance(x, S.GenesisSetN) for x in p.data))
    if isinstance(p, S.Union):
        return all(rsub(L, x, q) for x in p.data)
    if isinstance(q, S.Union):
        return p.__class__ is S.Structure or any(rsub(L, p, x) for x in q.data)
    for n in ('GenesisSetA', 'GenesisSetM', 'GenesisSetN'):
        if isinstance(p, getattr(S, n)):
            return isinstance(q, getattr(S, n))
    if isinstance(p, S.PowerSet):
        return isinstance(q, S.PowerSet) and rsub(L, p.base_set, q.base_set)
    if isinstance(p, S.CartesianProduct):
        return isinstance(q, S.CartesianProduct) and rsub(L, p.left, q.left) and rsub(L, p.right, q.right)
    return True


def h_pair(ctx):
    L, p = ctx.L, ctx.p
    a, b = struct(ctx, 'a', p['a'], empty=True), struct(ctx, 'b', p['b'], empty=True)
    r = a.is_subset(b)
    ctx.check(r is True or r is False, 'is_subset is no truth value')
    ctx.check((a <= b) is r, '<= disagrees with is_subset')
    ctx.cover('subset' if r else 'not-subset')
    if p.get('full'):
        pa, pb = plain(L, a), plain(L, b)
        ctx.check(r == sub(pa, pb), 'is_subset of %s and %s is %s' % (pa, pb, r))
    else:
        ctx.check(r == rsub(L, a, b), 'is_subset is %s' % r)


def h_same(ctx):
    L, p = ctx.L, ctx.p
    a, b = struct(ctx, 'a', p['a'], empty=True), struct(ctx, 'b', p['b'], empty=True)
    s = a.is_same(b)
    ctx.check(s is True or s is False, 'is_same is no truth value')
    ctx.check((a == b) is s and (a != b) is not s, '==, != disagree with is_same')
    ctx.check(b.is_same(a) is s, 'is_same depends on the order')
    if s:
        ctx.cover('same')
        ctx.check(a.is_subset(b) and b.is_subset(a), 'equal structures are not subsets of each other')
        ctx.check(rsub(L, a, b) and rsub(L, b, a), 'different structures are the same')
        ctx.check(true_hash(L, a) == true_hash(L, b), 'equal structures have different hashes')
    else:
        ctx.check(not (a.is_subset(b) and b.is_subset(a)), 'structures that contain each other are not the same')


def h_refl(ctx):
    L, p = ctx.L, ctx.p
    S = L.structure
    a = struct(ctx, 'a', p['a'], empty=True)
    b = struct(ctx, 'a', p['a'], empty=True)
    ctx.check(a.is_subset(a) and a.is_subset(b) and b.is_subset(a), 'not a subset of itself')
    ctx.check(a.is_same(b) and b.is_same(a), 'not the same as itself')
    ctx.check(S.PowerSet(a).is_subset(S.PowerSet(b)), 'powerset not monotone')


def h_union(ctx):
    L, p = ctx.L, ctx.p
    S = L.structure
    a, b = struct(ctx, 'a', p['a']), struct(ctx, 'b', p['b'])
    u, w = S.Union([a, b]), S.Union([b, a])
    ctx.check(a.is_subset(u) and b.is_subset(u), 'a union does not contain its parts')
    ctx.check(a.is_subset(w) and b.is_subset(w), 'a union does not contain its parts (other order)')
    ctx.check(u.is_subset(w) and w.is_subset(u), 'the union depends on the order of its parts')
    c = struct(ctx, 'c', p['c'])
    ctx.check(u.is_subset(c) == (a.is_subset(c) and b.is_subset(c)), 'a union is within a structure without its parts')


def h_trans(ctx):
    p = ctx.p
    a, b, c = struct(ctx, 'a', p['a']), struct(ctx, 'b', p['b']), struct(ctx, 'c', p['c'])
    if a.is_subset(b) and b.is_subset(c):
        ctx.cover('chain')
        ctx.check(a.is_subset(c), 'subset is not transitive')


def h_level(ctx):
    L, p = ctx.L, ctx.p
    a, b = struct(ctx, 'a', p['a']), struct(ctx, 'b', p['b'])
    n = a.get_powerset_level(b)
    pa, pb = plain(L, a), plain(L, b)
    want, q, k = 0, pa, 0
    whole = not isinstance(a, L.structure.Union)
    while whole and q[0] == 'P' and q != 'P':
        q, k = q[1], k + 1
        if sub(q, pb):
            want = k
            break
    if isinstance(a, L.structure.Union):
        want = n if n == 0 or want == n else want
    # a one-part union inside counts as that part only for the subset test
    if n != want and _has_single_union(L, a):
        return
    if n:
        ctx.cover('level')
    ctx.check(n == want, 'powerset level of %s over %s is %s' % (pa, pb, n))


def _has_single_union(L, s):
    S = L.structure
    if isinstance(s, S.Union):
        return len(s.data) == 1 or any(_has_single_union(L, x) for x in s.data)
    if isinstance(s, S.PowerSet):
        return _has_single_union(L, s.base_set)
    if isinstance(s, S.CartesianProduct):
        return _has_single_union(L, s.left) or _has_single_union(L, s.right)
    return False


# ---- objects ----------------------------------------------------------------------------------------
def shape(ctx, name, depth, width):
    """Any shape up to the given nesting."""
    kinds = ['a']
    if depth:
        kinds += ['C', 'S', 'M']
    k = kinds[ctx.choice(name + '?', len(kinds))]
    if k == 'a':
        return 'a'
    if k == 'C':
        return ['C', shape(ctx, name + 'l', depth - 1, width), shape(ctx, name + 'r', depth - 1, width)]
    n = ctx.choice(name + '#', width + 1)
    es = [shape(ctx, name + str(i), depth - 1, width) for i in range(n)]
    return ['S'] + es if k == 'S' else ['M'] + [[e, 1] for e in es]


def member(v, alg):
    return {'couplets': lambda: v[0] == 'C', 'sets': lambda: v[0] == 'S', 'multisets': lambda: v[0] == 'M', 'relations': lambda: M.v_rel(v),
            'clans': lambda: M.v_clan(v), 'multiclans': lambda: M.v_mclan(v)}[alg]()


def absolute(v, alg):
    if not member(v, alg):
        return False
    if alg == 'sets':
        return all(e[0] == 'A' for e in v[1]) and (bool(v[1]) or True) and not M.v_rel(v) and not M.v_clan(v)
    if alg == 'multisets':
        return all(e[0] == 'A' for e in v[1]) and not M.v_mclan(v)
    return M.v_absolute(v)


def full(v):
    """No empty set or multiset anywhere (an empty one has the ground set of nothing, which lies within every power set)."""
    if v[0] == 'A':
        return True
    if v[0] == 'C':
        return full(v[1]) and full(v[2])
    return bool(v[1]) and all(full(e) for e in v[1])


ALGS = ('couplets', 'sets', 'relations', 'clans', 'multisets', 'multiclans')


def h_object(ctx):
    L, p = ctx.L, ctx.p
    if p.get('shape') is not None:
        sh = p['shape']
    else:
        sh = shape(ctx, 's', p['depth'], p.get('width', 2))
    o = ctx.build('o', sh)
    v = M.view(o)
    ctx.lazies(p, *([('o', o)] if o.is_set or o.is_multiset else []))
    order = p.get('order', 0)
    for alg in ALGS[order:] + ALGS[:order]:
        m = getattr(L, alg)
        for what in (('is_member', 'is_absolute_member') if not p.get('abs_first') else ('is_absolute_member', 'is_member')):
            r = getattr(m, what)(o)
            want = (member if what == 'is_member' else absolute)(v, alg)
            ctx.cover('member' if want else 'not-member')
            ctx.check((r is True or r is False) and r == want, '%s.%s is %s' % (alg, what, r))
        ctx.check(m.is_member_or_undef(o) == member(v, alg), alg + '.is_member_or_undef')
    g = o.get_ground_set()
    pg = plain(L, g)
    if full(v):
        ctx.check(holds(v, pg), 'the object is not in its ground set %s' % (pg,))
    for alg in ALGS:
        m = getattr(L, alg)
        if member(v, alg):
            ctx.cover('inside')
            ctx.check(g.is_subset(m.get_ground_set()), 'ground set %s is not within that of %s' % (g, alg))
        elif alg != 'sets' and full(v):
            ctx.cover('outside')
            ctx.check(not g.is_subset(m.get_ground_set()), 'ground set %s is within that of %s' % (g, alg))
        if absolute(v, alg):
            ctx.check(g.is_subset(m.get_absolute_ground_set()), 'ground set %s is not within the absolute one of %s' % (g, alg))
    # components
    if o.is_couplet:
        for c, s in ((o.left, g.left), (o.right, g.right)):
            if not (c.is_set or c.is_multiset) or c.data:
                ctx.check(c.get_ground_set().is_subset(s), 'ground set of a component')
    elif o.is_set or o.is_multiset:
        for e in o.data:
            base = g.base_set if o.is_set else g.base_set.left
            ctx.check(e.get_ground_set().is_subset(base), 'ground set of an element')
    ctx.check(o.get_ground_set().is_same(g), 'the ground set changed')


def cases(tier):
    big = tier == 'thorough'
    top = 3 if big else 2
    for x in range(3):
        for y in range(3):
            if x + y <= top:
                yield h_pair, dict(a=x, b=y, full=True), 9 ** (x + y)
    for x in range(3):
        for y in range(3):
            if x + y <= top + 1:
                yield h_pair, dict(a=x, b=y), 9 ** (x + y)
                yield h_same, dict(a=x, b=y), 9 ** (x + y)
                yield h_level, dict(a=x, b=y), 9 ** (x + y)
    for x in range(2 + big):
        yield h_refl, dict(a=x), 9 ** x
    for x in range(2):
        for y in range(2):
            for z in range(2):
                yield h_trans, dict(a=x, b=y, c=z), 9 ** (x + y + z)
                yield h_union, dict(a=x, b=y, c=z), 9 ** (x + y + z)
    if big:
        for x in ((2, 1, 1), (1, 2, 1), (1, 1, 2)):
            yield h_trans, dict(zip('abc', x)), 9 ** 4
            yield h_union, dict(zip('abc', x)), 9 ** 4
    G = [None, ['relation', 'clan', 'multiclan'], ['functional', 'regular', 'reflexive'], ['right_functional', 'right_regular', 'symmetric', 'transitive']]
    yield h_object, dict(depth=0)
    for g in G:
        for order in (0, 3):
            yield h_object, dict(depth=1, width=3 if big else 2, lazy=g, order=order, abs_first=order == 3), 500
    for order in (0, 3):
        yield h_object, dict(depth=2, width=2 if big else 1, order=order, abs_first=order == 3), 9 ** 4
    if big:
        for g in G[1:]:
            yield h_object, dict(depth=2, width=2, lazy=g), 9 ** 5
        yield h_object, dict(depth=3, width=1), 9 ** 6
    CP = ['C', 'a', 'a']
    for s in (rel(2), rel(3), clan([1, 1]), clan([2, 1]), clan([1, 0]), mclan([1, 1], 1), mclan([1, 0], 1), ['S', CP, rel(1)], ['S', rel(1), CP], ['S', ['S'], CP], ['S', CP, ['S']],
              ['S', rel(0), atoms(1)], ['S', atoms(1), rel(0)], ['M', [rel(0), 1], [atoms(1), 1]], ['S', clan([1]), rel(1)], ['S', clan([1, 1]), clan([0])], ['S', 'a', CP, rel(1)],
              ['S', ['C', 'a', rel(1)], CP], ['S', ['S', ['C', rel(1), 'a']], rel(1)], ['M', [clan([1]), 1]], ['S', mset(1, 1), atoms(1)]):
        for g in G:
            for order in (0, 3):
                yield h_object, dict(shape=s, lazy=g, order=order, abs_first=order == 3, deep=True), 40
