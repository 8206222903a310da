"""C19: the native JSON form round-trips every supported value."""
import json
from symx import model as M
try:
    from symx import engine as E
except ImportError:        # the replay interpreter has no solver
    E = None
from .ops import atoms, rel, clan, mclan

COVERS = ('object', 'container', 'text', 'distinct')
BOUNDS = {
    'quick': '39 shapes of objects to nesting depth 3 with up to three components per level, all multiplicities; containers of up to three members to nesting depth 3; byte and range values from a small set',
    'thorough': 'up to four components, all nestings of two kinds of containers'}
ASSUMPTIONS = ['the standard json module writes and reads numbers and strings exactly']


# ---- symbolic values through real JSON text: every symbolic scalar travels as a marked number --------
class Wire:
    def __init__(self, ctx):
        self.ctx = ctx
        self.table = []
        mj = ctx.L.import_export_mojson
        if not ctx.symbolic:
            self.enc, self.dec = mj.ExportJson, mj.ImportJson
            return
        wire = self

        class Enc(mj.ExportJson):
            def default(self, o):
                if type(o) in (E.SymInt, E.SymOpq):
                    wire.table.append(o)
                    return {'\\u0001sym': len(wire.table) - 1}
                return super().default(o)

        class Dec(mj.ImportJson):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                h = self.object_hook
                self.object_hook = lambda d: wire.table[d['\\u0001sym']] if '\\u0001sym' in d else (h(d) if h else d)
                self.scan_once = json.scanner.make_scanner(self)
        self.enc, self.dec = Enc, Dec

    def trip(self, x):
        return json.loads(json.dumps(x, cls=self.enc), cls=self.dec)


CONST = [True, False, 1, 0, 1.5, 1.0, 0.1, 1234567.8901234567, 1e-300, '', 'x', '1', 'é\n"', '__cls__', '\x00\u2028\U0001f600', -7, 10 ** 30]


def value(ctx, name, sh):
    """A Python value: 'a' int, 'b' str, 'k' any of a few constants of other types, containers."""
    if sh == 'a':
        return ctx.val(name)
    if sh == 'b':
        return ctx.opq(name)
    if sh == 'k':
        return CONST[ctx.choice(name, len(CONST))]
    if sh[0] == 'O':
        return ctx.build(name, sh[1])
    if sh[0] == 'A':
        return ctx.L.mo.Atom(value(ctx, name, sh[1]))
    if sh[0] == 'SA':
        return ctx.L.mo.Set([ctx.L.mo.Atom(value(ctx, '%s.%d' % (name, i), s)) for i, s in enumerate(sh[1:])])
    if sh[0] == 'CA':
        return ctx.L.mo.Couplet(*[ctx.L.mo.Atom(value(ctx, '%s.%d' % (name, i), s)) for i, s in enumerate(sh[1:])])
    if sh[0] == 'bytes':
        return bytes([(0, 1, 34, 92, 127, 128, 255)[ctx.choice('%s.%d' % (name, i), 7)] for i in range(sh[1])])
    if sh[0] == 'complex':
        return complex(*[(0.0, 1.5, -2.0, 0.1, 1234567.8901234567, 1e300, -1e-9, float('inf'))[ctx.choice(name + x, 8)] for x in 'ri'])
    if sh[0] == 'range':
        return range(*[ctx.choice('%s.%d' % (name, i), 7) - 3 for i in range(2)] + [(1, 2, -1, -3)[ctx.choice(name + 'st', 4)]])
    xs = [value(ctx, '%s.%d' % (name, i), s) for i, s in enumerate(sh[1:])]
    return {'list': list, 'tuple': tuple, 'frozenset': frozenset}[sh[0]](xs)


def alike(ctx, a, b, msg):
    """Same value of the same types throughout."""
    L = ctx.L
    ctx.check(type(a) is type(b), '%s: %s became %s' % (msg, type(a).__name__, type(b).__name__))
    if isinstance(a, L.mo.Atom):
        alike(ctx, a.value, b.value, msg)
    elif isinstance(a, L.mo.Couplet):
        alike(ctx, a.left, b.left, msg)
        alike(ctx, a.right, b.right, msg)
    elif isinstance(a, L.mo.Set) or isinstance(a, frozenset):
        xs, ys = list(a.data if isinstance(a, L.mo.Set) else a), list(b.data if isinstance(b, L.mo.Set) else b)
        ctx.check(len(xs) == len(ys), msg + ': number of elements')
        match(ctx, xs, ys, msg)
    elif isinstance(a, L.mo.Multiset):
        xs, ys = list(a.data), list(b.data)
        ctx.check(len(xs) == len(ys), msg + ': number of elements')
        for x, y in match(ctx, xs, ys, msg):
            ctx.check(a.data[x] == b.data[y], msg + ': multiplicity')
    elif isinstance(a, (list, tuple)):
        ctx.check(len(a) == len(b), msg + ': length')
        for x, y in zip(a, b):
            alike(ctx, x, y, msg)
    else:
        ctx.check(a == b, msg + ': value')


def match(ctx, xs, ys, msg):
    out, rest = [], list(ys)
    for x in xs:
        for i, y in enumerate(rest):
            if type(x) is type(y) and bool(x == y):
                break
        else:
            ctx.check(False, msg + ': an element is lost')
            return []
        alike(ctx, x, rest[i], msg)
        out.append((x, rest.pop(i)))
    return out


def h_object(ctx):
    L, p = ctx.L, ctx.p
    o = ctx.build('o', p['shape'])
    v = M.view(o)
    r = L.import_export_mojson.decode(L.import_export_mojson.encode(o))
    ctx.cover('object')
    ctx.check(M.veq(M.view(r), v), 'decode(encode(object)) differs')
    ctx.check(bool(r == o), 'decode(encode(object)) is not equal')
    if p.get('text', True):
        w = Wire(ctx)
        r = w.trip(o)
        ctx.cover('text')
        ctx.check(M.veq(M.view(r), v), 'the object read back from its JSON text differs')
        alike(ctx, o, r, 'JSON text')
    ctx.check(M.veq(M.view(o), v), 'encoding changed the object')


def h_value(ctx):
    L, p = ctx.L, ctx.p
    x = value(ctx, 'x', p['shape'])
    ctx.cover('container')
    alike(ctx, x, L.import_export_mojson.decode(L.import_export_mojson.encode(x)), 'decode(encode(value))')
    if p['shape'][0] not in ('list', 'tuple', 'frozenset') or p.get('text'):
        # (plain lists and tuples at the top are JSON arrays to the json module)
        alike(ctx, x, Wire(ctx).trip(x), 'JSON text')


def tree(x):
    """The encoded form as plain data, sets and multisets as unordered collections."""
    if isinstance(x, dict):
        t = tree(x['__val__'])
        if x['__cls__'] in ('Set', 'Multiset', 'builtin.frozenset'):
            return (x['__cls__'], frozenset(t[1:]))
        return (x['__cls__'], t)
    if isinstance(x, (list, tuple)):
        return ('[',) + tuple(tree(e) for e in x)
    return ('v', x)


def h_distinct(ctx):
    """Objects with the same encoding are equal."""
    L, p = ctx.L, ctx.p
    a, b = ctx.build('a', p['shape']), ctx.build('b', p['shape2'])
    va, vb = M.view(a), M.view(b)
    ea, eb = tree(L.import_export_mojson.encode(a)), tree(L.import_export_mojson.encode(b))
    same = bool(ea == eb)
    if same:
        ctx.cover('distinct')
    ctx.check(M.veq(va, vb) if same else True, 'different objects have the same encoding')


def h_reuse(ctx):
    """One decoder and one encoder serve several objects; order of the fields in the text does not matter."""
    L, p = ctx.L, ctx.p
    mj = L.import_export_mojson
    o = ctx.build('o', p['shape'])
    v = M.view(o)

    def flip(t):
        if isinstance(t, dict):
            return {k: flip(t[k]) for k in reversed(list(t))}
        if isinstance(t, list):
            return [flip(x) for x in t]
        if isinstance(t, tuple):
            return tuple(flip(x) for x in t)
        return t
    ctx.check(M.veq(M.view(mj.decode(flip(mj.encode(o)))), v), 'decoding depends on the order of the fields')
    d = {'n': mj.encode(o), 'm': 1}
    ctx.check(mj.decode(d) is d, 'an ordinary object is decoded as something else')
    e = {'__cls__': 'other', '__val__': 1}
    ctx.check(mj.decode(e) is e, 'an unknown class is decoded as something else')


def shapes(big):
    A, B = 'a', 'b'
    C = ['C', A, A]
    for s in (A, B, C, ['C', A, B], ['C', B, A], ['C', C, B], ['C', A, C], ['S'], ['M'], atoms(1), atoms(2), atoms(3), ['S', A, B], ['S', A, C], ['S', ['S']],
              ['S', ['S'], ['M']], ['S', atoms(1), atoms(2)], rel(1), rel(2), rel(3), clan([1, 1]), clan([2, 1]), clan([1, 0]), ['M', [A, [1, None]]],
              ['M', [A, [1, None]], [A, [1, None]]], ['M', [A, [1, None]], [B, [1, None]], [A, [1, None]]], mclan([1, 1], 0), ['M', [rel(1), [1, None]], [rel(2), [1, None]]],
              ['M', [['S'], [1, None]], [['M'], 1]], ['C', ['S', A, A], ['M', [A, [1, None]]]], ['S', ['M', [A, [1, None]]], ['S', A]],
              ['M', [['M', [A, 2]], [1, None]], [C, [1, None]]], ['S', ['S', ['S', A, A]], ['S', ['S', A]]], ['C', ['C', ['C', A, B], A], ['C', A, B]]):
        yield s
    if big:
        for s in (atoms(4), rel(4), clan([2, 2]), clan([3, 1]), clan([1, 1, 1]), ['M'] + [[A, [1, None]]] * 4, ['S', clan([1, 1]), clan([1])]):
            yield s


def cases(tier):
    big = tier == 'thorough'
    for s in shapes(big):
        yield h_object, dict(shape=s)
        yield h_reuse, dict(shape=s)
    ss = list(shapes(False))[:20]
    for i, s in enumerate(ss):
        for t in ss[i:] if big else [s]:
            yield h_distinct, dict(shape=s, shape2=t)
    for s, t in (('a', 'b'), (atoms(1), ['M', ['a', 1]]), (atoms(1), 'a'), (['S'], ['M']), (['C', 'a', 'a'], atoms(2)), (['S', 'a', 'a'], ['S', ['S', 'a', 'a']]),
                 (atoms(2), atoms(1)), (['M', ['a', 2]], ['M', ['a', 1], ['a', 1]]), (rel(2), rel(1)), (['C', 'a', ['C', 'a', 'a']], ['C', ['C', 'a', 'a'], 'a'])):
        yield h_distinct, dict(shape=s, shape2=t)
    for kind in ('list', 'tuple', 'frozenset'):
        for body in ([], ['a'], ['a', 'a'], ['a', 'b', 'a'], ['k'], ['k', 'a'], ['a', 'k'], [['O', 'a'], ['O', rel(1)]], [['O', 'a'], 'a', ['O', ['S']]], [['bytes', 1], 'b'], [['range'], 'a']):
            yield h_value, dict(shape=[kind] + body)
            if kind != 'list':
                yield h_value, dict(shape=['A', [kind] + body])
                yield h_value, dict(shape=['SA', [kind] + body, 'a'])
        for inner in (('list', 'tuple', 'frozenset') if kind != 'frozenset' else ('tuple', 'frozenset')):
            yield h_value, dict(shape=[kind, [inner, 'a', 'a'], 'a'])
            yield h_value, dict(shape=[kind, [inner], [inner, 'b']])
            yield h_value, dict(shape=[kind, [inner, [inner, 'a'], 'a']])
            if kind != 'list' and inner != 'list':
                yield h_value, dict(shape=['CA', [kind, [inner, 'a'], 'k'], [inner, 'a', 'b']])
                yield h_value, dict(shape=['SA', [kind, [inner, 'a'], 'a'], [inner, 'a', 'a']])
    for s in ('k', ['bytes', 0], ['bytes', 1], ['bytes', 2], ['complex'], ['range'], ['A', 'k'], ['A', ['bytes', 2]], ['A', ['complex']], ['A', ['range']], ['SA', 'k', 'k'], ['SA', 'k', 'a'],
              ['CA', 'k', 'k'], ['SA', ['bytes', 1], ['bytes', 1]], ['SA', ['range'], 'b'], ['CA', ['complex'], 'k']):
        yield h_value, dict(shape=s)
