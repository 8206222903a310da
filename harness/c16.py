"""C16: partitioning splits by the class function without loss or overlap."""
from symx import model as M
from symx.model import MS
from .ops import atoms, mset, rel, clan, mclan

COVERS = ('one-block', 'many-blocks', 'mixed')
BOUNDS = {
    'quick': 'sets and multisets of up to 5 elements (atoms, couplets, relations), every multiplicity >= 1 (unbounded); the class function is an uninterpreted function with '
             'values of any kind (raw values, atoms, couplets, sets, booleans); also 10 constants of different types that Python compares as equal',
    'thorough': 'sets and multisets of up to 6 elements'}
ASSUMPTIONS = ['the class function is a function of the element']
ANY = (1, None)


def keys_of(d):
    """Integers that identify an element of a fixed shape."""
    if isinstance(d, frozenset):
        out = []
        for e in d:
            out += keys_of(e)
        return out
    return [d[1]] if d[0] == 'A' else keys_of(d[1]) + keys_of(d[2])


def h_partition(ctx):
    L, p = ctx.L, ctx.p
    mo = L.mo
    a = ctx.build('a', p['a'])
    da = M.den(a)
    ctx.lazies(p, ('a', a))
    g = ctx.fun('class', 'bool' if p.get('kind') == 'bool' else 'val')
    kind = p.get('kind', 'raw')

    def cls(e):
        k = g(*keys_of(M.den(e)))
        if kind == 'bool':
            return bool(k)
        x = mo.Atom(k)
        return {'raw': lambda: k, 'atom': lambda: x, 'couplet': lambda: mo.Couplet(x, mo.Atom('c')), 'set': lambda: mo.Set(x),
                'both': lambda: mo.Set(x) if k > 0 else x}[kind]()

    def label(e):
        k = g(*keys_of(e))
        if kind == 'bool':
            return M.atom(bool(k))
        x = ('A', k)
        return {'raw': lambda: x, 'atom': lambda: x, 'couplet': lambda: ('C', x, ('A', 'c')), 'set': lambda: frozenset([x]),
                'both': lambda: frozenset([x]) if k > 0 else x}[kind]()

    blocks = {}
    its = da.items() if isinstance(da, MS) else [(e, 1) for e in da]
    for e, n in its:
        blocks.setdefault(label(e), []).append((e, n))
    mk = MS if isinstance(da, MS) else (lambda xs: frozenset(x[0] for x in xs))
    blocks = {k: mk(v) for k, v in blocks.items()}
    if p['labeled']:
        r = L.partition.make_labeled_partition(a, cls)
        ctx.same(r, frozenset(('C', k, v) for k, v in blocks.items()), 'make_labeled_partition')
        ctx.check(L.relations.is_functional(r) is True, 'the labelled partition is not a function')
    else:
        r = L.partition.partition(a, cls)
        ctx.same(r, frozenset(blocks.values()), 'partition')
    ctx.same(a, da, 'operand changed')
    ctx.sound(r, 'partition', p.get('fields'))
    ctx.check(all(not (x.right if p['labeled'] else x).is_empty for x in r.data), 'empty block')
    ctx.cover('one-block' if len(blocks) < 2 else 'many-blocks')
    if kind == 'both':
        ctx.cover('mixed')


RAW = (1, True, 1.0, 0, False, 0.0, '', '1', b'1', (1,))


def h_raw_labels(ctx):
    """Class values that Python's == confuses but that convert to different atoms are different classes."""
    L, p = ctx.L, ctx.p
    mo = L.mo
    a = ctx.build('a', p['a'])
    da = M.den(a)
    es = [(e, ctx.choice('c%d' % i, len(RAW))) for i, e in enumerate(a.data)]

    def find(e):
        for x, i in es:
            if x is e:
                return i
        for x, i in es:
            if x == e:
                return i
        raise AssertionError('class function called with a foreign element')
    for c in (1, 0):
        convert = (lambda v: mo.Atom(v)) if c else (lambda v: v)
        cls = lambda e: convert(RAW[find(e)])
        groups = {}
        for e, i in es:
            groups.setdefault(i, []).append(e)
        mult = (lambda e: a.data[e]) if a.is_multiset else (lambda e: 1)
        r = L.partition.make_labeled_partition(a, cls) if p['labeled'] else L.partition.partition(a, cls)
        got = list(r.data)
        ctx.check(len(got) == len(groups), 'number of classes')
        for i, members in groups.items():
            found = [b for b in got if not p['labeled'] or (b.left.is_atom and type(b.left.value) is type(RAW[i]) and repr(b.left.value) == repr(RAW[i]))]
            if p['labeled']:
                ctx.check(len(found) == 1, 'class value %r is not a label' % (RAW[i],))
            blocks = [b.right if p['labeled'] else b for b in found]
            ok = [b for b in blocks if len(b.data) == len(members) and all(m in b.data for m in members)]
            ctx.check(len(ok) == 1, 'the class of %r' % (RAW[i],))
            if a.is_multiset:
                for m in members:
                    ctx.check(ok[0].data[m] == mult(m), 'multiplicity')
    ctx.same(a, da, 'operand changed')


def cases(tier):
    big = tier == 'thorough'
    CP = ['C', 'a', 'a']
    for labeled in (False, True):
        for n in (1, 2, 3) if big else (1, 2):
            for x in (atoms(n), mset(n, ANY), rel(n)):
                yield h_raw_labels, dict(a=x, labeled=labeled), 100 ** n
        for n in range(0, 7 if big else 6):
            for s in (atoms(n), mset(n, ANY)):
                for k in ('raw', 'atom', 'couplet', 'set', 'both', 'bool') if n < 4 else ('raw', 'bool') if n < 5 else ('raw',):
                    yield h_partition, dict(a=s, kind=k, labeled=labeled), 6 ** n
        for s in (rel(2), rel(3), ['S', CP, 'a'], clan([1, 1]), clan([1, 0]), clan([2, 1]), clan([1, 1, 1]), mclan([1, 1], ANY), mclan([1, 0], ANY), mclan([2, 1], ANY),
                  ['M', [CP, [1, None]], ['a', [1, None]]], atoms(2, 'a') + [['S', 'a']]):
            yield h_partition, dict(a=s, labeled=labeled), 40
            for f in (['relation', 'clan', 'multiclan'],):
                yield h_partition, dict(a=s, labeled=labeled, lazy=f, deep=True), 80
