"""C15: extending an operation applies it to every combination, dropping undefined."""
from symx import model as M
from symx.model import MS
from .ops import atoms, mset

COVERS = ('undefined', 'merged', 'all-undefined', 'summed')
BOUNDS = {
    'quick': 'sets and multisets of up to 4 elements per operand (products up to 4), every multiplicity >= 1 (unbounded); the operation is an uninterpreted partial function with '
             'values of any kind (atoms, couplets, sets) drawn from unbounded integers',
    'thorough': 'sets and multisets of up to 5 elements per operand (products up to 6)'}
ASSUMPTIONS = ['the extended operation is a function of its arguments (it may be partial)']
ANY = (1, None)


def key(d):
    """Integer that identifies an operand element (atoms and couplets or sets of one atom)."""
    if d[0] == 'A':
        return d[1]
    return key(d[1])


class Op:
    """An arbitrary partial operation: ``defined`` and ``result`` are uninterpreted functions."""
    def __init__(self, ctx, kind, total=False):
        self.ctx, self.kind = ctx, kind
        self.defd = ctx.fun('defined', 'bool')
        self.res = ctx.fun('result')
        self.total = total
        self.calls = 0

    def val(self, *ks):
        """Reference: plain result or None."""
        if not self.total and not self.defd(*ks):
            return None
        x = ('A', self.res(*ks))
        if self.kind == 'couplet':
            return ('C', x, x)
        if self.kind == 'set':
            return frozenset([x])
        return x

    def __call__(self, *objs, **kw):
        self.calls += 1
        mo = self.ctx.L.mo
        ks = [o.value if o.is_atom else o.left.value for o in objs]
        if not self.total and not self.defd(*ks):
            return self.ctx.L.U
        x = mo.Atom(self.res(*ks))
        if self.kind == 'couplet':
            return mo.Couplet(x, x)
        if self.kind == 'set':
            return mo.Set(x)
        return x


def items(d):
    return list(d.items()) if isinstance(d, MS) else [(e, 1) for e in d]


def h_extend(ctx):
    L, p = ctx.L, ctx.p
    a = ctx.build('a', p['a'])
    b = (a if p.get('alias') else ctx.build('b', p['b'])) if p.get('b') else None
    da = M.den(a)
    db = M.den(b) if b is not None else None
    op = Op(ctx, p.get('kind', 'atom'), p.get('total'))
    if p.get('lazy'):
        ctx.lazies(p, ('a', a))
    f = getattr(L.extension, p['f'])
    kw = {} if p.get('checked', True) else {'_checked': False}
    r = f(a, op, **kw) if b is None else f(a, b, op, **kw)
    if b is None:
        rows = [(op.val(key(e)), n) for e, n in items(da)]
    else:
        rows = [(op.val(key(e), key(g)), n * m) for e, n in items(da) for g, m in items(db)]
    rows2 = [x for x in rows if x[0] is not None]
    want = MS(rows2) if 'multi' in p['f'] else frozenset(x[0] for x in rows2)
    if len(rows2) < len(rows):
        ctx.cover('undefined')
        if not rows2:
            ctx.cover('all-undefined')
    n = len(want.d) if isinstance(want, MS) else len(want)
    if n < len(rows2):
        ctx.cover('summed' if isinstance(want, MS) else 'merged')
    ctx.same(r, want, p['f'])
    ctx.same(a, da, p['f'] + ': operand changed')
    if b is not None:
        ctx.same(b, db, p['f'] + ': operand changed')
    ctx.sound(r, p['f'])


def h_undef(ctx):
    """Wrong operands: undefined, and the operation is not called."""
    L, p = ctx.L, ctx.p
    op = Op(ctx, 'atom')
    bad = L.U if p['bad'] == 'U' else ctx.build('x', p['bad'])
    good = ctx.build('a', p['good'])
    f = getattr(L.extension, p['f'])
    args = {'0': [bad, good], '1': [good, bad], '01': [bad, bad], 'u': [bad]}[p['pos']]
    kw = {'_checked': False} if p.get('checked') is False else {}
    r = f(*(args + [op]), **kw)
    ctx.check(r is L.U, p['f'] + ' of a wrong argument')
    ctx.check(op.calls == 0, p['f'] + ' calls the operation')


def cases(tier):
    big = tier == 'thorough'
    CP = ['C', 'a', 'a']
    kinds = ('atom', 'couplet', 'set')
    for f in ('unary_extend', 'unary_multi_extend'):
        for n in range(0, 6 if big else 5):
            shapes = [atoms(n)] if f == 'unary_extend' else [atoms(n), mset(n, ANY)]
            if n:
                shapes.append(['S'] + ['a', CP][:2] * 1 + ['a'] * (n - 2) if n > 1 else atoms(1, 'a'))
            for s in shapes:
                for k in kinds if n < 4 else ('atom',):
                    for c in (True, False):
                        yield h_extend, dict(f=f, a=s, kind=k, checked=c), 4 ** n
                yield h_extend, dict(f=f, a=s, total=True), 3 ** n
    for s in ([mset(2, ANY)], [mset(3, ANY)]):
        yield h_extend, dict(f='unary_multi_extend', a=s[0], lazy=['multiclan', 'absolute'])
    pairs = [(0, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (4, 1), (1, 4)]
    if big:
        pairs += [(2, 3), (3, 2)]
    for f, mk in (('binary_extend', atoms), ('binary_multi_extend', lambda n: mset(n, ANY))):
        for x, y in pairs:
            for k in kinds if x * y < 4 else ('atom',):
                for c in (True, False):
                    yield h_extend, dict(f=f, a=mk(x), b=mk(y), kind=k, checked=c), 6 ** (x * y)
            yield h_extend, dict(f=f, a=mk(x), b=mk(y), total=True), 4 ** (x * y)
        yield h_extend, dict(f=f, a=mk(2), b=mk(2), alias=True), 6 ** 4
        yield h_extend, dict(f=f, a=mk(1), b=mk(1), alias=True)
    yield h_extend, dict(f='binary_extend', a=['S', 'a', CP], b=['S', CP, 'a']), 6 ** 4
    yield h_extend, dict(f='binary_extend', a=['S', CP, CP], b=['S', 'a']), 6 ** 2
    for f, good, bads in (('unary_extend', atoms(1), ('U', 'a', CP, mset(1))), ('unary_multi_extend', mset(1), ('U', 'a', CP))):
        for x in bads:
            yield h_undef, dict(f=f, good=good, bad=x, pos='u')
        yield h_undef, dict(f=f, good=good, bad='U', pos='u', checked=False)
    for f, good, bads in (('binary_extend', atoms(1), ('U', 'a', CP, mset(1))), ('binary_multi_extend', mset(1), ('U', 'a', CP, atoms(1)))):
        for pos in ('0', '1', '01'):
            for x in bads:
                yield h_undef, dict(f=f, good=good, bad=x, pos=pos)
            yield h_undef, dict(f=f, good=good, bad='U', pos=pos, checked=False)
