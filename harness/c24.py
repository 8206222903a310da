"""C24: constructors build exactly the requested immutable value."""
import collections
import copy
from symx import model as M

COVERS = ('merged', 'counted', 'raw', 'object', 'text', 'undefined', 'copied', 'refused', 'mutated', 'types')
BOUNDS = {
    'quick': 'up to 4 supplied elements, each a raw integer or string, or an atom, couplet, set, relation or multiset; every container form; all values, coincidences and multiplicities',
    'thorough': 'up to 5 supplied elements'}
ASSUMPTIONS = []


def item(ctx, name, k):
    """One argument: 'i' raw integer, 's' raw string, otherwise a shape (a data object). -> (argument, denotation)"""
    if k == 'i':
        v = ctx.val(name)
        ctx.cover('raw')
        return v, ('A', v)
    if k == 's':
        v = ctx.opq(name)
        ctx.cover('text')
        return v, ('A', v)
    o = ctx.build(name, k)
    ctx.cover('object')
    return o, M.den(o)


def supply(form, xs):
    """-> (arguments, container that can be changed later)"""
    if form == 'args':
        return tuple(xs), None
    if form == 'list':
        xs = list(xs)
        return (xs,), xs
    if form == 'tuple':
        return (tuple(xs),), None
    if form == 'gen':
        return ((x for x in xs),), None
    if form == 'iter':
        return (iter(list(xs)),), None
    if form == 'set':
        xs = set(xs)
        return (xs,), xs
    if form == 'frozenset':
        return (frozenset(xs),), None
    if form == 'dict':
        xs = dict.fromkeys(xs, 1)
        return (xs,), xs
    if form == 'deque':
        xs = collections.deque(xs)
        return (xs,), xs
    raise ValueError(form)


def disturb(ctx, c, extra):
    if c is None:
        return
    ctx.cover('mutated')
    if isinstance(c, dict):
        for k in list(c):
            c[k] = c[k] + 5
        c[extra] = 7
    elif isinstance(c, set):
        c.add(extra)
        c.discard(next(iter(c)))
    else:
        c.append(extra)
        c[0] = extra


def fresh(ctx, direct):
    return ctx.L.mo.Atom('zzz') if direct else 'zzz'


def verify(ctx, o, want, direct=False):
    ctx.same(o, want, 'constructed object')
    v = M.view(o)
    for e in o.data:
        ctx.check(isinstance(e, ctx.L.mo.MathObject), 'an element is no data object')
        if e.is_atom:
            ctx.check(not isinstance(e.value, ctx.L.mo.MathObject), 'an atom holds a data object')
    n = len(v[1])
    if o.is_set:
        ctx.check(o.cardinality == len(want) and len(o) == len(want), 'cardinality')
        ctx.check(n == len(want), 'elements are not merged')
    ctx.check(o.is_empty is (n == 0), 'is_empty')
    ctx.sound(o, 'constructed object')


def h_set(ctx):
    L, p = ctx.L, ctx.p
    xs, ds = [], []
    for i, k in enumerate(p['items']):
        x, d = item(ctx, 'x%d' % i, k)
        xs.append(x)
        ds.append(d)
    if p.get('single'):
        args, c = (xs[0],), None
    else:
        args, c = supply(p['form'], xs)
    direct = p.get('direct', False)
    o = L.mo.Set(*args, direct_load=True) if direct else L.mo.Set(*args)
    want = frozenset(ds)
    if len(want) < len(ds):
        ctx.cover('merged')
    verify(ctx, o, want)
    disturb(ctx, c, fresh(ctx, direct))
    ctx.same(o, want, 'object after the supplied container changed')
    again(ctx, o, want)


def again(ctx, o, want):
    """Copies are equal and independent of the way of copying."""
    h = hash(o) if not ctx.symbolic else None
    for f in (copy.copy, copy.deepcopy):
        c = f(o)
        ctx.cover('copied')
        ctx.check(type(c) is type(o), 'the copy is of another type')
        ctx.same(c, want, 'copy')
        ctx.check(bool(c == o) and not bool(c != o), 'the copy is not equal')
        if h is not None:
            ctx.check(hash(c) == h, 'the hash of the copy differs')
        ctx.sound(c, 'copy')


def h_multiset(ctx):
    L, p = ctx.L, ctx.p
    xs, ds = [], []
    for i, k in enumerate(p['items']):
        x, d = item(ctx, 'x%d' % i, k)
        xs.append(x)
        ds.append(d)
    direct = p.get('direct', False)
    form = p.get('form')
    if form in ('counts', 'counter'):
        ms = [ctx.int('m%d' % i, 1) for i in range(len(xs))]
        c = collections.Counter() if form == 'counter' else {}
        pairs = {}
        for x, d, m in zip(xs, ds, ms):
            c[x] = m           # the last one counts where keys coincide
        want = M.MS([((dict_den(ctx, k)), n) for k, n in c.items()])
        args = (c,)
    elif p.get('single'):
        args, c = (xs[0],), None
        want = M.MS([(ds[0], 1)])
    else:
        args, c = supply(form, xs)
        if form in ('set', 'frozenset'):
            want = M.MS([(dict_den(ctx, x), 1) for x in args[0]])
        else:
            want = M.MS([(d, 1) for d in ds])
    o = L.mo.Multiset(*args, direct_load=True) if direct else L.mo.Multiset(*args)
    if len(want.d) < len(ds):
        ctx.cover('counted')
    verify(ctx, o, want)
    total = 0
    for _, n in want.items():
        total = total + n
    ctx.check(o.cardinality == total, 'cardinality')
    disturb(ctx, c, fresh(ctx, direct))
    ctx.same(o, want, 'object after the supplied container changed')
    again(ctx, o, want)


def dict_den(ctx, k):
    return M.den(k) if isinstance(k, ctx.L.mo.MathObject) else M.atom(k)


def h_counts_refused(ctx):
    L, p = ctx.L, ctx.p
    n = ctx.int('n', None, 0)
    try:
        L.mo.Multiset({'x': 1, ctx.val('v'): n})
    except AssertionError:
        ctx.cover('refused')
        ctx.check(True, 'refused')
        return
    ctx.check(False, 'a multiplicity below one is accepted')


def h_couplet(ctx):
    L, p = ctx.L, ctx.p
    l, dl = item(ctx, 'l', p['items'][0])
    direct = p.get('direct', False)
    kw = {'direct_load': True} if direct else {}
    if len(p['items']) == 1:
        o = L.mo.Couplet(l, **kw)
        dr = dl
    else:
        r, dr = item(ctx, 'r', p['items'][1])
        o = L.mo.Couplet(left=l, right=r, **kw) if p.get('kw') else L.mo.Couplet(l, r, **kw)
    want = ('C', dl, dr)
    ctx.same(o, want, 'couplet')
    ctx.check(M.veq(M.view(o.left), M.d_view(dl)) if True else False, 'left')
    ctx.check(M.veq(M.view(o.right), M.d_view(dr)), 'right')
    ctx.check(o.is_couplet and not o.is_set and not o.is_atom and not o.is_multiset, 'kind')
    ctx.sound(o, 'couplet')
    again(ctx, o, want)


def h_atom(ctx):
    L, p = ctx.L, ctx.p
    x, d = item(ctx, 'x', p['items'][0])
    if isinstance(x, L.mo.MathObject) and not x.is_atom:
        for direct in (False, True):
            try:
                L.mo.Atom(x, direct_load=direct)
            except (TypeError, AssertionError):
                ctx.cover('refused')
                ctx.check(True, 'refused')
                continue
            ctx.check(False, 'an atom of a data object is accepted')
        return
    o = L.mo.Atom(x, direct_load=p.get('direct', False)) if not isinstance(x, L.mo.MathObject) else L.mo.Atom(x)
    ctx.check(M.den(o) == d, 'value')
    if isinstance(x, L.mo.MathObject):
        ctx.check(o is x, 'an atom is wrapped again')
    else:
        ctx.check(L.mo.auto_convert(o) is o and M.den(L.mo.auto_convert(x)) == d, 'auto_convert')
    ctx.check(o.is_atom and not o.is_set and not o.is_couplet and not o.is_multiset, 'kind')
    for f in (copy.copy, copy.deepcopy):
        ctx.cover('copied')
        ctx.check(M.den(f(o)) == d and bool(f(o) == o), 'copy')


def h_make(ctx):
    """The making functions skip or propagate undefined arguments."""
    L, p = ctx.L, ctx.p
    xs, ds = [], []
    for i, k in enumerate(p['items']):
        if k == 'U':
            ctx.cover('undefined')
            xs.append(L.U)
            ds.append(None)
        else:
            x, d = item(ctx, 'x%d' % i, k)
            xs.append(x)
            ds.append(d)
    s, c = getattr(L, 'set', None), getattr(L, 'couplet', None)
    known = [d for d in ds if d is not None]
    raw = any(k in ('i', 's') for k in p['items'])
    from_set = [L.mathobjects_set.make_set] if hasattr(L, 'mathobjects_set') else [sm(L, 'set').make_set]
    if not raw:
        from_set.append(sm(L, 'set').make_set_unchecked)
    for f in from_set:
        # a single set argument stays an element
        o = f(*xs)
        ctx.same(o, frozenset(known), f.__name__)
        ctx.sound(o, f.__name__)
    if 1 <= len(xs) <= 2:
        fs = [sm(L, 'couplet').make_couplet] + ([] if raw else [sm(L, 'couplet').make_couplet_unchecked])
        for f in fs:
            for level in (0, 1, 2):
                if level:
                    L.ud.RaiseOnUndef.set_level(level)
                try:
                    o = f(*xs)
                    raised = False
                except L.ud.UndefException:
                    raised = True
                finally:
                    L.ud.RaiseOnUndef.reset()
                if len(known) < len(xs):
                    ctx.check(raised == (level >= 2), '%s at level %d' % (f.__name__, level))
                    if not raised:
                        ctx.check(o is L.U, '%s of an undefined argument' % f.__name__)
                else:
                    ctx.check(not raised, f.__name__)
                    ctx.same(o, ('C', ds[0], ds[-1]), f.__name__)


def sm(L, n):
    import sys
    return sys.modules['algebraixlib.mathobjects.' + n]


CONST = [1, True, 1.0, 0, False, 0.0, '1', '', b'1', (1,), (True,), None, 1 + 0j, frozenset([1]), -1, 2 ** 70]


def h_types(ctx):
    """Values of different types stay apart although Python takes some of them for equal."""
    L, p = ctx.L, ctx.p
    xs = [CONST[ctx.choice('c%d' % i, len(CONST))] for i in range(p['n'])]
    distinct = []
    for x in xs:
        if not any(type(x) is type(y) and x == y for y in distinct):
            distinct.append(x)
    ctx.cover('types')
    o = L.mo.Set(xs)
    ctx.check(o.cardinality == len(distinct), 'number of elements of a set')
    m = L.mo.Multiset(xs)
    ctx.check(m.cardinality == len(xs) and len(m.data) == len(distinct), 'number of elements of a multiset')
    for x in distinct:
        a = L.mo.Atom(x)
        ctx.check(type(a.value) is type(x) and a.value == x and a.type is type(x), 'value of an atom')
        ctx.check(a in o and o.has_element(a) and x in o, 'membership')
        ctx.check(m.get_multiplicity(a) == sum(1 for y in xs if type(x) is type(y) and x == y), 'multiplicity')
    for y in CONST:
        if not any(type(x) is type(y) and x == y for x in distinct):
            ctx.check(L.mo.Atom(y) not in o and y not in o and not o.has_element(L.mo.Atom(y)), 'a value of another type is an element')
            ctx.check(m.get_multiplicity(L.mo.Atom(y)) == 0 and y not in m, 'a value of another type is counted')


PARTS = ['', 0, False, 0.0, b'', (), frozenset(), 'x', 1, ('',), (0, ''), -1, 0j]


def like(ctx, o, x, msg):
    ctx.check(o.is_atom and type(o.value) is type(x) and o.value == x, msg)


def h_parts(ctx):
    """Raw values that Python takes for false, alone and as parts."""
    L, p = ctx.L, ctx.p
    mo = L.mo
    x, y = [PARTS[ctx.choice(n, len(PARTS))] for n in 'xy']
    like(ctx, mo.Atom(x), x, 'atom of %r' % (x,))
    like(ctx, mo.auto_convert(x), x, 'auto_convert(%r)' % (x,))
    for f in (lambda: mo.Couplet(x, y), lambda: mo.Couplet(left=x, right=y), lambda: mo.Couplet(x, right=mo.Atom(y)), lambda: mo.Couplet(mo.Atom(x), mo.Atom(y), direct_load=True),
              lambda: sm(L, 'couplet').make_couplet(x, y)):
        c = f()
        like(ctx, c.left, x, 'left %r' % (x,))
        like(ctx, c.right, y, 'right %r' % (y,))
    for f in (lambda: mo.Couplet(x), lambda: sm(L, 'couplet').make_couplet(x)):
        c = f()
        like(ctx, c.left, x, 'left %r' % (x,))
        like(ctx, c.right, x, 'right %r by default' % (x,))
    for xs in ([x], [x, y], (x, y), [y, x, x]):
        for s in (mo.Set(xs), mo.Multiset(xs), mo.Set(*(xs + xs if type(xs) is list else xs)), mo.Set(e for e in xs), sm(L, 'set').make_set(*xs, L.U) if len(xs) > 1 else mo.Set(xs)):
            for v in xs:
                ctx.check(any(e.is_atom and type(e.value) is type(v) and e.value == v for e in s.data), '%r is lost' % (v,))
                ctx.check(v in s and mo.Atom(v) in s, '%r is no element' % (v,))
            ctx.check(len(s.data) == len({(type(v), v) for v in xs}), 'number of elements')
    m = mo.Multiset({x: 2})
    ctx.check(m.get_multiplicity(mo.Atom(x)) == 2 and m.cardinality == 2, 'multiplicity of %r' % (x,))
    ctx.cover('types')


ITER = [b'', b'a', b'ab', b'aa', range(0), range(3), '', 'a', 'ab', bytearray(b'ab'), {1: 2}.keys(), [[1]] and ((1,), (2,)), ((1, 2),), ('ab', b'ab'), [range(2)]]


def h_iterables(ctx):
    """Every iterable but a text and a data object supplies its elements."""
    mo = ctx.L.mo
    x = ITER[ctx.choice('x', len(ITER))]
    els = [x] if isinstance(x, str) else list(x)
    ctx.cover('raw')
    for f in (mo.Set, mo.Multiset):
        s = f(x)
        ctx.check(len(s.data) == len({(type(v), v) for v in els}), '%s(%r): number of elements' % (f.__name__, x))
        for v in els:
            a = mo.Atom(v)
            ctx.check(a in s.data and any(type(e.value) is type(v) and e.value == v for e in s.data), '%s(%r) has no %r' % (f.__name__, x, v))
            if f is mo.Multiset:
                ctx.check(s.get_multiplicity(a) == els.count(v), 'multiplicity in %r' % (x,))
        for t in (f(x, x), f([x, x])) if not isinstance(x, (bytearray, type({}.keys()), list)) else ():
            ctx.check(len(t.data) == 1 and type(list(t.data)[0].value) is type(x) and list(t.data)[0].value == x, 'an iterable among several arguments is one element')


def cases(tier):
    yield h_parts, {}, 200
    yield h_iterables, {}, 20
    big = tier == 'thorough'
    C, S, R, MS = ['C', 'a', 'a'], ['S', 'a'], ['S', ['C', 'a', 'a']], ['M', ['a', [1, None]]]
    pools = [[], ['i'], ['s'], ['a'], ['i', 'i'], ['s', 's'], ['a', 'a'], ['i', 'a'], ['i', 's'], ['a', 'b'], [C, C], [S, S], ['i', C], [S, 'i'], [MS, 'a'], [R, R], [C, 'i', 'a'], ['i', 'i', 'i'],
             ['i', 'a', 'i'], ['s', 'b', 's'], ['i', 'a', 's', 'b'], [S, S, 'a'], [['S'], S, ['S']], [['M'], ['S']], [C, C, C], [MS, MS], ['i', 'i', 'i', 'i'], ['a', 'i', 'a', 'i']]
    if big:
        pools += [['i'] * 5, ['i', 'a', 'i', 'a', 's'], [C, C, C, C], [S, 'i', S, 'i']]
    for items in pools:
        objs = all(k not in ('i', 's') for k in items)
        for form in ('list', 'tuple', 'gen', 'iter', 'set', 'frozenset', 'dict', 'deque'):
            yield h_set, dict(items=items, form=form), 4 ** len(items)
            if objs:
                yield h_set, dict(items=items, form=form, direct=True), 4 ** len(items)
            if form != 'dict':
                yield h_multiset, dict(items=items, form=form), 4 ** len(items)
                if objs:
                    yield h_multiset, dict(items=items, form=form, direct=True), 4 ** len(items)
        for form in ('counts', 'counter'):
            yield h_multiset, dict(items=items, form=form), 4 ** len(items)
            if objs:
                yield h_multiset, dict(items=items, form=form, direct=True), 4 ** len(items)
        if len(items) != 1:
            yield h_set, dict(items=items, form='args'), 4 ** len(items)
            yield h_multiset, dict(items=items, form='args'), 4 ** len(items)
            if objs:
                yield h_set, dict(items=items, form='args', direct=True), 4 ** len(items)
                yield h_multiset, dict(items=items, form='args', direct=True), 4 ** len(items)
    for k in ('i', 's', 'a', 'b', C, S, R, MS, ['S'], ['M'], ['S', R], ['S', 'a', 'a']):
        for direct in ((False, True) if k not in ('i', 's') else (False,)):
            yield h_set, dict(items=[k], single=True, direct=direct)
            yield h_multiset, dict(items=[k], single=True, direct=direct)
        yield h_atom, dict(items=[k])
        if k in ('i', 's'):
            yield h_atom, dict(items=[k], direct=True)
    kinds = ['i', 's', 'a', 'b', C, S, R, MS, ['S'], ['M']]
    for x in kinds:
        for direct in ((False, True) if x not in ('i', 's') else (False,)):
            yield h_couplet, dict(items=[x], direct=direct)
            for y in kinds:
                if not direct or y not in ('i', 's'):
                    yield h_couplet, dict(items=[x, y], direct=direct, kw=y in ('i', 's', 'a', C))
    yield h_counts_refused, {}
    for items in ([], ['U'], ['i'], ['U', 'i'], ['i', 'U'], ['a', 'U'], ['U', 'U'], ['i', 'i'], ['a', 'a'], ['a', C], [S], [['S']], [R], [S, 'U'], ['U', R], [S, S], ['a', 'U', 'a'], ['i', 'U', 's', 'a'], [C, C, 'U'], [MS, 'U'],
                  [['S', 'a', 'a'], 'U', 'U'], ['s'], ['s', 'U']):
        yield h_make, dict(items=items)
    for n in (1, 2) if not big else (1, 2, 3):
        yield h_types, dict(n=n), 16 ** n
