"""C17: ordered slices of multiclans return the requested rows with their multiplicities."""
from symx import model as M
from .ops import mclan, rel

COVERS = ('empty', 'partial', 'all', 'beyond', 'undef')
BOUNDS = {
    'quick': 'multiclans of up to 4 relations (3 when ordered), every multiplicity >= 1, every offset and limit >= 0 (all unbounded); ordering by an arbitrary rank of the relations (all strict weak orders)',
    'thorough': 'multiclans of up to 5 relations (4 when ordered)'}
ASSUMPTIONS = ['the less-than function is a strict weak order; relations of one couplet (the slicing code never looks inside a relation)']
ANY = (1, None)
INF = float('inf')


class Truth:
    def __init__(self, v):
        self.value = v


def rows(m):
    return [(r, n) for r, n in m.data.items()]


def clip(ctx, lo, hi, a, b):
    """Number of integers in [lo, hi) and [a, b); b may be infinite."""
    x = ctx.ite(lo > a, lo, a)
    y = hi if b == INF else ctx.ite(hi < b, hi, b)
    return ctx.ite(y > x, y - x, 0)


def build(ctx, p):
    """The multiclan, its relations pairwise different (equal relations would have merged into one, which is
    the case of a smaller multiclan)."""
    n = len(p['m']) - 1
    ks = [(ctx.val('m.%d.0.l' % i), ctx.val('m.%d.0.r' % i)) for i in range(n)]
    for i, x in enumerate(ks):
        for y in ks[:i]:
            ctx.assume(M.neg(M.conj([x[0] == y[0], x[1] == y[1]])))
    return ctx.build('m', p['m'])


def key(r):
    c = list(r.data)[0]
    return c.left.value, c.right.value


def h_slice(ctx):
    L, p = ctx.L, ctx.p
    m = build(ctx, p)
    rs = rows(m)
    dm = M.den(m)
    ordered = p['f'] != 'multiclan_to_listgen'
    rank = ctx.fun('rank')
    if ordered:
        for r, _n in rs:
            rank(*key(r))
    off = ctx.int('offset', 0)
    inf = p.get('limit') == 'inf'
    lim = INF if inf else ctx.int('limit', 0)
    wrap = L.mo.Atom if p.get('wrap') else (lambda x: x)
    wrap2 = L.mo.Atom if p.get('wrap2', p.get('wrap')) else (lambda x: x)
    kw = {} if p.get('checked', True) else {'_checked': False}

    def less(x, y):
        return L.mo.Atom(bool(rank(*key(x)) < rank(*key(y))))

    f = getattr(L.multiclans, p['f'])
    args = [m] + ([less] if ordered else []) + [wrap(off), wrap2(lim)]
    res = f(*args, **kw)
    ctx.check(res is not L.U, 'slice is undefined')
    if p['f'] == 'order_slice':
        got = rows(res)
        ctx.sound(res, 'order_slice')
    else:
        got = [(r, n) for r, n in res]
    # every row comes from the multiclan, once, with a possible multiplicity
    total = 0
    for r, n in rs:
        total = total + n
    want_total = clip(ctx, 0, total, off, INF if inf else off + lim)
    seen = []
    sum_ = 0
    for r, n in got:
        i = [k for k, (x, _n) in enumerate(rs) if x == r]
        ctx.check(len(i) == 1, 'row is not in the multiclan')
        ctx.check(i[0] not in seen, 'relation appears twice')
        seen.append(i[0])
        ctx.check(n > 0, 'row with a multiplicity below 1')
        ctx.check(n <= rs[i[0]][1], 'row with more copies than there are')
        sum_ = sum_ + n
    ctx.check(sum_ == want_total, 'number of rows')
    if ordered:
        rk = [rank(*key(r)) for r, _ in rs]
        if p['f'] != 'order_slice':
            for x, y in zip(seen, seen[1:]):
                ctx.check(rk[x] <= rk[y], 'rows are out of order')
        # rows with one rank occupy consecutive positions: the rank group contributes exactly its overlap
        for i in range(len(rs)):
            before = group = 0
            for j in range(len(rs)):
                before = before + ctx.ite(rk[j] < rk[i], rs[j][1], 0)
                group = group + ctx.ite(rk[j] == rk[i], rs[j][1], 0)
            have = 0
            for k, (r, n) in zip(seen, got):
                have = have + ctx.ite(rk[k] == rk[i], n, 0)
            ctx.check(have == clip(ctx, before, before + group, off, off + lim), 'rows of one rank')
    # only the first and the last relation of the slice may be cut
    if p['f'] != 'order_slice':
        for k, (r, n) in list(zip(seen, got))[1:-1]:
            ctx.check(n == rs[k][1], 'copies are missing inside the slice')
    ctx.same(m, dm, 'the multiclan changed')
    if not got:
        ctx.cover('empty')
    if len(rs) == 1:
        ctx.cover('beyond' if off >= total else 'all' if want_total == total else 'partial')


def h_pages(ctx):
    """Consecutive pages of one multiclan cover it exactly."""
    L, p = ctx.L, ctx.p
    m = build(ctx, p)
    k1, k2 = ctx.int('k1', 0), ctx.int('k2', 0)
    f = L.multiclans.multiclan_to_listgen
    if p.get('ordered'):
        rank = ctx.fun('rank')
        for r, _n in rows(m):
            rank(*key(r))
        less = lambda x, y: L.mo.Atom(bool(rank(*key(x)) < rank(*key(y))))      # noqa
        page = lambda o, l: list(L.multiclans.order_slice_to_listgen(m, less, o, l))      # noqa
    else:
        page = lambda o, l: list(f(m, o, l))      # noqa
    got = page(0, k1) + page(k1, k2) + page(k1 + k2, INF)
    for r, n in rows(m):
        have = 0
        for x, k in got:
            if x == r:
                have = have + k
        ctx.check(have == n, 'the pages do not add up to the multiclan')


def h_undef(ctx):
    L, p = ctx.L, ctx.p
    m = ctx.build('m', p['m'])
    less = lambda x, y: L.mo.Atom(False)      # noqa
    bad = {'U': L.U, 'text': 'x', 'atom': L.mo.Atom('x'), 'set': L.mo.Set(1), 'float': 1.5, 'none': None}[p['bad']]
    args = [m] + ([less] if p['f'] != 'multiclan_to_listgen' else []) + [ctx.int('offset', 0), ctx.int('limit', 0)]
    if not p.get('checked', True):
        args[-1], args[-2] = L.mo.Atom(args[-1]), L.mo.Atom(args[-2])
    args[p['pos']] = bad
    kw = {} if p.get('checked', True) else {'_checked': False}
    r = getattr(L.multiclans, p['f'])(*args, **kw)
    ctx.check(r is L.U, 'expected undefined')
    ctx.cover('undef')


def cases(tier):
    big = tier == 'thorough'
    for f in ('multiclan_to_listgen', 'order_slice_to_listgen', 'order_slice'):
        for n in range(0, (6 if big else 5) if f == 'multiclan_to_listgen' else (5 if big else 4)):
            for lim in ('sym', 'inf'):
                yield h_slice, dict(f=f, m=mclan([1] * n, ANY), limit=lim), 10 ** n
                if n < 4:
                    yield h_slice, dict(f=f, m=mclan([1] * n, ANY), limit=lim, wrap=1), 10 ** n
                    yield h_slice, dict(f=f, m=mclan([1] * n, ANY), limit=lim, wrap=1, checked=False), 10 ** n
                if n < 3:
                    yield h_slice, dict(f=f, m=mclan([1] * n, ANY), limit=lim, wrap=1, wrap2=0), 10 ** n
                    yield h_slice, dict(f=f, m=mclan([1] * n, ANY), limit=lim, wrap=0, wrap2=1), 10 ** n
        lst = [-2, -1, 0]
        for pos in lst:
            for bad in ('U', 'text', 'atom', 'set', 'float', 'none'):
                if bad == 'none' and pos == 0:
                    continue
                if pos == 0 and bad in ('text', 'float'):
                    continue
                yield h_undef, dict(f=f, m=mclan([1, 1], ANY), pos=pos, bad=bad)
            yield h_undef, dict(f=f, m=mclan([1, 1], ANY), pos=pos, bad='U', checked=False)
    for n in range(1, 5 if big else 4):
        yield h_pages, dict(m=mclan([1] * n, ANY)), 10 ** n
        if n < (4 if big else 3):
            yield h_pages, dict(m=mclan([1] * n, ANY), ordered=1), 20 ** n
